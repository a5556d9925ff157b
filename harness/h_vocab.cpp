// The small vocabulary: array, pair, the function objects, swap/distance/advance,
// countof, move, iota and accumulate.  Profiles: mix, value (copies, equality,
// swap), alias (operands that are the object itself), iter.
#include "algo.hpp"
#include "ttl/numeric.hpp"

// A type whose + is neither commutative nor associative with a plain sum: it keeps
// the order of everything added to it
struct Word
{
   uint64_t h;
   unsigned n;
   Word(): h(7), n(0) {}
   explicit Word(uint64_t x): h(x), n(0) {}
};
struct Letter { unsigned c; };
static Word operator+(const Word &w, const Letter &l)
{
   Word r(w);
   r.h = r.h * 1000003 + l.c;
   ++r.n;
   return r;
}
// Counts how it was incremented
struct Step
{
   int v;
   int key;
   explicit Step(int x): v(x) {}
   Step &operator++() { v += 3; return *this; }
};

template<class T, size_t N> struct Arrays
{
   typedef ttl::array<T, N> A;
   enum { NS = 3, CELLS = N ? N : 1 };
   Rng &r;
   Gen g;
   Raw raw[NS];
   A *a[NS];
   Vs m[NS];
   NoAlloc na;
   explicit Arrays(Rng &rr): r(rr), g(rr)
   {
      for (int i = 0; i < NS; ++i)
         a[i] = 0;
   }
   void make(int i)
   {
      drop(i);
      void *p = raw[i].make(sizeof(A), alignof(A));
      if (r.below(3) == 0)
      {
         op("array()", " N=%zu", N);
         lib([&]{ a[i] = ::new(p) A(); return 0; });
         m[i].assign(CELLS, El<T>::dflt());
      }
      else if (r.below(2) && a[(i + 1) % NS])
      {
         op("array(const array&)", " N=%zu", N);
         lib([&]{ a[i] = ::new(p) A(*a[(i + 1) % NS]); return 0; });
         m[i] = m[(i + 1) % NS];
      }
      else
      {
         op("array{...}", " N=%zu", N);
         a[i] = ::new(p) A();
         m[i] = g.vals<T>(CELLS);
         for (size_t q = 0; q < N; ++q)
            (*a[i])[q] = El<T>::make(m[i][q]);
         if (!N)
            m[i].assign(CELLS, El<T>::dflt());
      }
   }
   void drop(int i)
   {
      if (!a[i])
         return;
      a[i]->~A();
      a[i] = 0;
      raw[i].drop();
   }
   void observe(int i)
   {
      if (!a[i])
         return;
      A &c = *a[i];
      const A &cc = c;
      S->observations++;
      if (c.size() != N || c.max_size() != N || c.empty() != (N == 0))
         fail(SEM, "size", "size() %zu max_size() %zu empty() %d of array<%zu>", (size_t)c.size(), (size_t)c.max_size(), (int)c.empty(), N);
      if ((size_t)(c.end() - c.begin()) != N || (size_t)(cc.end() - cc.begin()) != N || (size_t)(cc.cend() - cc.cbegin()) != N)
         fail(SEM, "range", "begin/end do not span the elements");
      const char *lo = (const char *)raw[i].ptr(), *hi = lo + sizeof(A);
      if ((const char *)c.begin() < lo || (const char *)c.end() > hi || cc.begin() != c.begin() || cc.cbegin() != c.begin() || cc.cend() != c.end())
         fail(SEM, "range", "begin/end are not those of the elements");
      if (N && (c.data() != c.begin() || cc.data() != c.begin()))
         fail(SEM, "data", "data() is not the first element");
      Vs &v = m[i];
      size_t q = 0;
      for (typename A::const_iterator it = cc.begin(); it != cc.end(); ++it, ++q)
         eq(*it, v[q], q, "iteration");
      if (q != N)
         fail(SEM, "range", "%zu elements iterated of %zu", q, N);
      for (q = 0; q < N; ++q)
      {
         eq(c[q], v[q], q, "[]");
         eq(cc[q], v[q], q, "const []");
         eq(c.at(q), v[q], q, "at");
         eq(cc.at(q), v[q], q, "const at");
         if (&c[q] != c.begin() + q || &cc.at(q) != c.begin() + q || &cc[q] != c.begin() + q || &c.at(q) != c.begin() + q)
            fail(SEM, "access", "element access by index and iteration denote different elements");
      }
      if (N)
      {
         if (&c.front() != c.begin() || &cc.front() != c.begin())
            fail(SEM, "access", "front() is not the first element");
         if (&c.back() != c.begin() + (N - 1) || &cc.back() != c.begin() + (N - 1))
            fail(SEM, "access", "back() is not the last element");
      }
      raw[i].check();
   }
   void eq(const T &t, V v, size_t q, const char *how)
   {
      S->elem_checks++;
      if (!El<T>::same(t, v))
      {
         V x = El<T>::read(t);
         fail(SEM, "content", "%s: element %zu of %zu is (%d,#%u), expected (%d,#%u)", how, q, N, x.key, x.tag, v.key, v.tag);
      }
   }
   void observe_all()
   {
      uint64_t h = mix(hstr(S->op), N);
      size_t n = 0;
      for (int i = 0; i < NS; ++i)
      {
         observe(i);
         for (size_t q = 0; a[i] && q < N; ++q)
            h = mix(h, (uint32_t)m[i][q].key);
         n += a[i] ? (size_t)CELLS : 0;
      }
      live_check(El<T>::tracked ? n : 0);
      note_state(h);
   }
   static bool keq(const Vs &x, const Vs &y)
   {
      for (size_t q = 0; q < N; ++q)
         if (x[q].key != y[q].key)
            return false;
      return true;
   }
   void run_ops(unsigned k)
   {
      while (k--)
      {
         int i = r.below(NS), j = r.below(NS);
         if (!a[i] || r.below(12) == 0)
         {
            make(i);
            observe_all();
            continue;
         }
         switch (r.below(8))
         {
         case 0:
         {
            if (is("alias") && N)
            {
               size_t q = r.below(N);
               op("fill(own element)", " N=%zu q=%zu", N, q);
               S->alias_ops++;
               V v = m[i][q];
               lib([&]{ a[i]->fill((*a[i])[q]); return 0; });
               for (size_t x = 0; x < N; ++x)
                  m[i][x] = v;
               break;
            }
            V v = tv<T>(r.below(g.span), ++g.tag);
            op("fill", " N=%zu", N);
            T t(El<T>::make(v));
            lib([&]{ a[i]->fill(t); return 0; });
            for (size_t x = 0; x < N; ++x)
               m[i][x] = v;
            break;
         }
         case 1:
            if (!a[j])
               break;
            if (i == j && !is("alias"))
               break;
            S->alias_ops += i == j;
            op(i == j ? "swap(itself)" : "swap", " N=%zu", N);
            lib([&]{ a[i]->swap(*a[j]); return 0; });
            // the unused cell of array<T,0> is not an element
            if (N)
               std::swap(m[i], m[j]);
            break;
         case 2:
            if (!a[j] || (i == j && !is("alias")))
               break;
            S->alias_ops += i == j;
            op(i == j ? "operator=(itself)" : "operator=", " N=%zu", N);
            lib([&]{ *a[i] = *a[j]; return 0; });
            m[i] = m[j];
            break;
         case 3: case 4:
         {
            if (!a[j])
               break;
            if (N && r.below(2)) // nearly equal
            {
               *a[i] = *a[j];
               m[i] = m[j];
               if (r.below(2))
               {
                  size_t q = r.below(N);
                  m[i][q] = tv<T>(m[i][q].key + 1, ++g.tag);
                  (*a[i])[q] = El<T>::make(m[i][q]);
               }
            }
            op("operator==", " N=%zu", N);
            bool e = keq(m[i], m[j]);
            const A &x = *a[i], &y = *a[j];
            result_b(lib([&]{ return x == y; }), e);
            op("operator!=", " N=%zu", N);
            result_b(lib([&]{ return x != y; }), !e);
            break;
         }
         default:
         {
            if (!N)
               break;
            size_t q = r.below(N);
            V v = tv<T>(r.below(g.span), ++g.tag);
            T t(El<T>::make(v));
            op("write", " through access %zu of %zu", q, N);
            switch (r.below(6))
            {
            case 0: (*a[i])[q] = t; break;
            case 1: a[i]->at(q) = t; break;
            case 2: a[i]->data()[q] = t; break;
            case 3: q = 0; a[i]->front() = t; break;
            case 4: q = N - 1; a[i]->back() = t; break;
            default: *(a[i]->begin() + q) = t; break;
            }
            m[i][q] = v;
            break;
         }
         }
         observe_all();
      }
      for (int i = 0; i < NS; ++i)
         drop(i);
      live_check(0);
      na.done();
   }
};

template<class T1, class T2> struct Pairs
{
   typedef ttl::pair<T1, T2> P;
   enum { NS = 3 };
   Rng &r;
   Gen g;
   NoAlloc na;
   explicit Pairs(Rng &rr): r(rr), g(rr) {}
   template<class T> V val() { return tv<T>(r.below(g.span), ++g.tag); }
   struct M { V a, b; };
   static void check(const P &p, const M &m)
   {
      S->observations++;
      S->elem_checks += 2;
      if (!El<T1>::same(p.first, m.a) || !El<T2>::same(p.second, m.b))
      {
         V x = El<T1>::read(p.first), y = El<T2>::read(p.second);
         fail(SEM, "content", "(%d,#%u | %d,#%u), expected (%d,#%u | %d,#%u)", x.key, x.tag, y.key, y.tag, m.a.key, m.a.tag, m.b.key, m.b.tag);
      }
      note_state(mix(hstr(S->op), mix(m.a.key, m.b.key)));
   }
   void run_ops(unsigned k)
   {
      while (k--)
      {
         M m = {val<T1>(), val<T2>()}, o = {val<T1>(), val<T2>()};
         if (r.below(3) == 0)
            o.a = m.a;
         if (r.below(3) == 0)
            o.b = m.b;
         const T1 a(El<T1>::make(m.a));
         const T2 b(El<T2>::make(m.b));
         op("pair(first,second)", " ");
         P p = lib([&]{ return P(a, b); });
         check(p, m);
         P q(El<T1>::make(o.a), El<T2>::make(o.b));
         check(q, o);
         const P &cp = p, &cq = q;
         switch (r.below(10))
         {
         case 0:
         {
            op("pair()", "");
            Raw raw;
            void *mem = raw.make(sizeof(P), alignof(P));
            P *x = lib([&]{ return ::new(mem) P(); });
            M d = {El<T1>::dflt(), El<T2>::dflt()};
            check(*x, d);
            x->~P();
            raw.drop();
            break;
         }
         case 1:
         {
            op("pair(const pair&)", "");
            P x = lib([&]{ return P(cp); });
            check(x, m);
            check(p, m);
            x.first = q.first;
            check(p, m);
            break;
         }
         case 2:
            if (is("alias"))
            {
               op("operator=(itself)", "");
               S->alias_ops++;
               lib([&]{ p = cp; return 0; });
               check(p, m);
               break;
            }
            op("operator=", "");
            lib([&]{ if (&(p = cq) != &p) fail(SEM, "result", "does not return the pair"); return 0; });
            check(p, o);
            check(q, o);
            break;
         case 3:
            if (is("alias"))
            {
               op("swap(itself)", "");
               S->alias_ops++;
               lib([&]{ p.swap(p); return 0; });
               check(p, m);
               break;
            }
            op("swap", "");
            lib([&]{ p.swap(q); return 0; });
            check(p, o);
            check(q, m);
            break;
         case 4:
         {
            op("operator==", "");
            bool e = m.a.key == o.a.key && m.b.key == o.b.key;
            result_b(lib([&]{ return cp == cq; }), e);
            op("operator!=", "");
            result_b(lib([&]{ return cp != cq; }), !e);
            result_b(lib([&]{ return cp == cp; }), true);
            break;
         }
         case 5:
         {
            op("make_pair", "");
            P x = lib([&]{ return ttl::make_pair(a, b); });
            check(x, m);
            break;
         }
         case 6:
         {
            op("select_first", "");
            ttl::select_first<P> f;
            ttl::select_second<P> s;
            ttl::select_same<P> same;
            S->observations++;
            if (&lib([&]() -> T1 & { return f(p); }) != &p.first || &lib([&]() -> const T1 & { return f(cp); }) != &p.first)
               fail(SEM, "result", "not the first member");
            op("select_second", "");
            if (&lib([&]() -> T2 & { return s(p); }) != &p.second || &lib([&]() -> const T2 & { return s(cp); }) != &p.second)
               fail(SEM, "result", "not the second member");
            op("select_same", "");
            if (&lib([&]() -> const P & { return same(cp); }) != &p)
               fail(SEM, "result", "not the object itself");
            break;
         }
         case 7:
         {
            // other member types
            op("pair(const pair<U1,U2>&)", "");
            ttl::pair<unsigned char, short> n((unsigned char)r.below(200), (short)r.range(-300, 300));
            ttl::pair<long, double> w = lib([&]{ return ttl::pair<long, double>(n); });
            if (w.first != n.first || w.second != n.second)
               fail(SEM, "content", "converted to (%ld,%f) from (%d,%d)", w.first, w.second, n.first, n.second);
            ttl::pair<unsigned char, short> n2((unsigned char)r.below(200), (short)r.range(-300, 300));
            op("operator=(const pair<U1,U2>&)", "");
            lib([&]{ if (&(w = n2) != &w) fail(SEM, "result", "does not return the pair"); return 0; });
            if (w.first != n2.first || w.second != n2.second)
               fail(SEM, "content", "assigned (%ld,%f) from (%d,%d)", w.first, w.second, n2.first, n2.second);
            break;
         }
         case 8:
         {
            op("pair of references", "");
            T1 x(El<T1>::make(m.a));
            T2 y(El<T2>::make(m.b));
            ttl::pair<const T1 &, const T2 &> pr(x, y);
            ttl::pair<const T1 &, const T2 &> pr2(pr);
            if (&pr.first != &x || &pr.second != &y || &pr2.first != &x || &pr2.second != &y)
               fail(SEM, "result", "a pair of references does not refer to what it was made from");
            P v = lib([&]{ return P(pr); });
            check(v, m);
            break;
         }
         case 9:
         {
            op("ttl::swap(pair)", "");
            lib([&]{ ttl::swap(p, q); return 0; });
            check(p, o);
            check(q, m);
            break;
         }
         }
      }
      live_check(0);
      na.done();
   }
};

template<class T> struct Small
{
   Rng &r;
   Gen g;
   explicit Small(Rng &rr): r(rr), g(rr) {}
   void order(int x, int y)
   {
      NoAlloc na;
      T a(El<T>::make(tv<T>(x, 1))), b(El<T>::make(tv<T>(y, 2)));
      int kx = El<T>::norm(tv<T>(x, 1)).key, ky = El<T>::norm(tv<T>(y, 2)).key;
      op("less", " %d %d", x, y);
      result_b(lib([&]{ return ttl::less<T>()(a, b); }), kx < ky);
      op("greater", " %d %d", x, y);
      result_b(lib([&]{ return ttl::greater<T>()(a, b); }), kx > ky);
      op("equal_to", " %d %d", x, y);
      result_b(lib([&]{ return ttl::equal_to<T>()(a, b); }), kx == ky);
      op("not_equal_to", " %d %d", x, y);
      result_b(lib([&]{ return ttl::not_equal_to<T>()(a, b); }), kx != ky);
      note_state(mix(x, y));
      na.done();
   }
   void util()
   {
      NoAlloc na;
      size_t n = g.len();
      Vs v = g.vals<T>(n);
      Arr<T> a(v);
      size_t x = r.below(n + 1), y = r.below(n + 1);
      Ctl c(n);
      switch (r.below(5))
      {
      case 0:
      {
         op("distance", " %zu..%zu", x, y);
         int d = r.below(2) ? lib([&]{ return ttl::distance(a.p + x, a.p + y); }) : lib([&]{ return ttl::distance(MIt<T, RA>(a.p, c, x), MIt<T, RA>(a.p, c, y)); });
         result((size_t)(long)d, (size_t)((long)y - (long)x), n);
         break;
      }
      case 1:
      {
         op("advance", " %zu to %zu", x, y);
         MIt<T, RA> i(a.p, c, x);
         T *p = a.p + x;
         long d = (long)y - (long)x;
         lib([&]{ ttl::advance(i, d); ttl::advance(p, (int)d); return 0; });
         result(i.p, y, n);
         result(p - a.p, y, n);
         break;
      }
      case 2:
      {
         op("countof", "");
         T one[1], seven[7];
         const T three[3] = {};
         result((size_t)ttl_countof(one), 1, 1);
         result((size_t)ttl_countof(three), 3, 3);
         result((size_t)ttl_countof(seven), 7, 7);
         char big[70000];
         result(sizeof(char[ttl_countof(big)]), 70000, 70000);
         break;
      }
      case 3:
      {
         op("move", "");
         T t(El<T>::make(tv<T>((int)x, 5)));
         S->observations++;
         const T &ct = t;
#ifdef MON_AS98
         T &m = lib([&]() -> T & { return ttl::move(t); });
         const T &cm = lib([&]() -> const T & { return ttl::move(ct); });
#else
         T &&m = lib([&]() -> T && { return ttl::move(t); });
         const T &&cm = lib([&]() -> const T && { return ttl::move(ct); });
#endif
         if (&m != &t || &cm != &t || !El<T>::same(t, tv<T>((int)x, 5)))
            fail(SEM, "result", "move does not denote its operand");
         break;
      }
      default:
      {
         V va = tv<T>(r.below(g.span), 1), vb = tv<T>(r.below(g.span), 2);
         T p(El<T>::make(va)), q(El<T>::make(vb));
         bool self = is("alias");
         op(self ? "swap(itself)" : "swap", "");
         S->alias_ops += self;
         S->observations++;
         lib([&]{ ttl::swap(p, self ? p : q); return 0; });
         if (!El<T>::same(p, self ? va : vb) || !El<T>::same(q, self ? vb : va))
            fail(SEM, "content", "values are not exchanged");
         break;
      }
      }
      unchanged(a, v);
      na.done();
      fingerprint(v, Vs(), x * 1000 + y);
   }
};

static void numeric(Rng &r)
{
   NoAlloc na;
   Gen g(r);
   size_t n = g.len();
   switch (r.below(4))
   {
   case 0:
   {
      Arr<int> a(g.vals<int>(n));
      int start = r.range(-100, 100);
      op("iota", " n=%zu from %d", n, start);
      with_fw(r, a, [&](auto f, auto l, auto, auto) { lib([&]{ ttl::iota(f, l, start); return 0; }); });
      Vs e;
      for (size_t i = 0; i < n; ++i)
         e.push_back(tv<int>(start + (int)i, 0));
      same_vals("result", a.read(), e);
      fingerprint(e, Vs(), 0);
      break;
   }
   case 1:
   {
      op("iota(own increment)", " n=%zu", n);
      std::vector<Step> s(n, Step(-1));
      lib([&]{ ttl::iota(s.begin(), s.end(), Step(5)); return 0; });
      S->observations++;
      for (size_t i = 0; i < n; ++i)
         if (s[i].v != 5 + 3 * (int)i)
            fail(SEM, "result", "element %zu is %d", i, s[i].v);
      break;
   }
   case 2:
   {
      Vs v = g.vals<int>(n);
      Arr<int> a(v);
      long start = r.range(-1000, 1000), e = start;
      for (size_t i = 0; i < n; ++i)
         e += v[i].key;
      op("accumulate", " n=%zu from %ld", n, start);
      with_in(r, a, [&](auto f, auto l, auto, auto st)
      {
         long got = lib([&]{ return ttl::accumulate(f, l, start); });
         S->observations++;
         if (got != e)
            fail(SEM, "result", "%ld, expected %ld", got, e);
         not_past(st(), n);
      });
      // the type of the sum is that of the initial value
      std::vector<double> d(n, 0.5);
      int si = lib([&]{ return ttl::accumulate(d.begin(), d.end(), 0); });
      double sd = lib([&]{ return ttl::accumulate(d.begin(), d.end(), 0.0); });
      if (si != 0 || sd != 0.5 * n)
         fail(SEM, "result", "sums of %zu halves: %d %f", n, si, sd);
      fingerprint(v, Vs(), start);
      break;
   }
   default:
   {
      op("accumulate(order)", " n=%zu", n);
      std::vector<Letter> l(n);
      Word e;
      for (size_t i = 0; i < n; ++i)
      {
         l[i].c = r.below(1000);
         e = e + l[i];
      }
      const Letter *f = l.data();
      Word w = lib([&]{ return ttl::accumulate(f, f + n, Word()); });
      S->observations++;
      if (w.h != e.h || w.n != e.n)
         fail(SEM, "result", "not the left fold of the values in their order");
      break;
   }
   }
   na.done();
}

static void the_case(Rng &r, uint64_t c)
{
   switch (c % 12)
   {
   case 0: Arrays<Tr, 0>(r).run_ops(40); break;
   case 1: Arrays<int, 1>(r).run_ops(40); break;
   case 2: Arrays<Tr, 1>(r).run_ops(40); break;
   case 3: Arrays<Tr, 5>(r).run_ops(50); break;
   case 4: Arrays<Fat, 3>(r).run_ops(40); break;
   case 5: if (c % 24 < 12) Arrays<Wide, 4>(r).run_ops(40); else Arrays<Over, 3>(r).run_ops(40); break;
   case 6: Arrays<unsigned char, 33>(r).run_ops(30); break;
   case 7: Pairs<Tr, int>(r).run_ops(40); break;
   case 8: Pairs<Tr, Tr>(r).run_ops(40); break;
   case 9: Pairs<unsigned char, Fat>(r).run_ops(40); break;
   case 10:
      for (int i = 0; i < 30; ++i)
      {
         Small<Tr>(r).util();
         Small<int>(r).util();
         Small<Tr>(r).order(r.range(0, 3), r.range(0, 3));
         Small<int>(r).order(r.below(3) ? r.range(-3, 3) : (int)r.next(), r.below(3) ? r.range(-3, 3) : (int)r.next());
         Small<unsigned char>(r).order(r.below(256), r.below(256));
         Small<Wide>(r).order(r.range(-3, 3), r.range(-3, 3));
      }
      break;
   default:
      for (int i = 0; i < 40; ++i)
         numeric(r);
      break;
   }
}
int main(int argc, char **argv) { return run(argc, argv, "vocabulary", the_case); }
