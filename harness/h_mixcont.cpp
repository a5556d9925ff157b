// Containers of arithmetic, enumeration and pointer types, filled from ranges of
// other types and compared element by element: an element is what the language makes
// of the value it was given, and containers are equal where their elements are (which
// for floating numbers is not the same as having the same bytes).
// MON_MIXED selects the container.
#include "mixed.hpp"

template<class C, class E> struct Ops
{
   template<class D> static auto pb(int, D &c, const E &v) -> decltype(c.push_back(v), true) { lib([&]{ c.push_back(v); return 0; }); return true; }
   template<class D> static bool pb(long, D &, const E &) { return false; }
   template<class D> static auto pf(int, D &c, const E &v) -> decltype(c.push_front(v), true) { lib([&]{ c.push_front(v); return 0; }); return true; }
   template<class D> static bool pf(long, D &, const E &) { return false; }
   // the place of element n
   template<class D> static auto before(int, D &c, size_t n) -> decltype(c.before_begin())
   {
      auto i = c.before_begin();
      while (n--)
         ++i;
      return i;
   }
   template<class D> static auto before(long, D &c, size_t n) -> decltype(c.begin())
   {
      auto i = c.begin();
      while (n--)
         ++i;
      return i;
   }
   template<class D, class I> static auto ins(int, D &c, size_t n, I f, I l) -> decltype(c.insert(c.begin(), f, l), true)
   {
      auto at = before(0, c, n);
      lib([&]{ c.insert(at, f, l); return 0; });
      return true;
   }
   template<class D, class I> static bool ins(long, D &c, size_t n, I f, I l)
   {
      auto at = before(0, c, n);
      lib([&]{ c.insert_after(at, f, l); return 0; });
      return true;
   }
   template<class D> static auto insn(int, D &c, size_t n, size_t k, const E &v) -> decltype(c.insert(c.begin(), k, v), true)
   {
      auto at = before(0, c, n);
      lib([&]{ c.insert(at, k, v); return 0; });
      return true;
   }
   template<class D> static bool insn(long, D &c, size_t n, size_t k, const E &v)
   {
      auto at = before(0, c, n);
      lib([&]{ c.insert_after(at, k, v); return 0; });
      return true;
   }
   template<class D> static auto one(int, D &c, size_t n, const E &v) -> decltype(c.insert(c.begin(), v), true)
   {
      auto at = before(0, c, n);
      lib([&]{ c.insert(at, v); return 0; });
      return true;
   }
   template<class D> static bool one(long, D &c, size_t n, const E &v)
   {
      auto at = before(0, c, n);
      lib([&]{ c.insert_after(at, v); return 0; });
      return true;
   }
   template<class D> static auto del(int, D &c, size_t n) -> decltype(c.erase(c.begin()), true)
   {
      auto at = before(0, c, n);
      lib([&]{ c.erase(at); return 0; });
      return true;
   }
   template<class D> static bool del(long, D &c, size_t n)
   {
      auto at = before(0, c, n);
      lib([&]{ c.erase_after(at); return 0; });
      return true;
   }
   template<class D, class I> static auto asg(int, D &c, I f, I l) -> decltype(c.assign(f, l), true) { lib([&]{ c.assign(f, l); return 0; }); return true; }
   template<class D, class I> static bool asg(long, D &, I, I) { return false; }
   template<class D> static auto asgn(int, D &c, size_t n, const E &v) -> decltype(c.assign(n, v), true) { lib([&]{ c.assign(n, v); return 0; }); return true; }
   template<class D> static bool asgn(long, D &, size_t, const E &) { return false; }
   template<class D> static auto eq(int, const D &a, const D &b) -> decltype(a == b, 0)
   {
      bool x = lib([&]{ return a == b; }), y = lib([&]{ return a != b; });
      return x != y ? x : 2;
   }
   template<class D> static int eq(long, const D &, const D &) { return -1; }
   template<class D> static auto rs(int, D &c, size_t n, const E &v) -> decltype(c.capacity(), true) { lib([&]{ c.resize(n, v); return 0; }); return true; }
   template<class D> static auto rs(int, D &c, size_t n, const E &v) -> decltype(c.pop_back(), c.push_front(v), true) { lib([&]{ c.resize(n, v); return 0; }); return true; }
   template<class D> static bool rs(long, D &, size_t, const E &) { return false; }
};

// sequences: what they hold, and the room of those that have a limit
template<class C, class E, class V> struct MSeq
{
   enum { NS = 2, MAX = 24 };
   typedef std::deque<E> M;
   Rng &r;
   const char *name;
   bool limited;
   Pool<E, V> pool;
   C *c[NS];
   M m[NS];
   MSeq(Rng &rr, const char *n, bool lim, bool odd): r(rr), name(n), limited(lim), pool(rr, odd)
   {
      for (int i = 0; i < NS; ++i)
         c[i] = lib([&]{ return new C; });
   }
   ~MSeq()
   {
      for (int i = 0; i < NS; ++i)
         lib([&]{ delete c[i]; return 0; });
   }
   E ev() { return pool.e[r.below(pool.e.size())]; }
   void check(int i)
   {
      size_t n = 0;
      const C &k = *c[i];
      S->observations++;
      typename C::const_iterator it = k.begin(), e = k.end();
      for (; it != e && n < m[i].size(); ++it, ++n)
      {
         S->elem_checks++;
         if (!bits((const E &)*it, m[i][n]))
            fail(SEM, "content", "element %zu of %zu is not the expected one", n, m[i].size());
      }
      if (it != e || n != m[i].size())
         fail(SEM, "content", "%s than %zu elements", it != e ? "more" : "fewer", m[i].size());
      if (k.empty() != m[i].empty())
         fail(SEM, "empty", "is %d", (int)k.empty());
   }
   void step()
   {
      int i = r.below(NS);
      C &k = *c[i];
      M &x = m[i];
      typedef Ops<C, E> O;
      size_t at = r.below(x.size() + 1);
      E v = ev();
      size_t len = r.below(4) ? r.below(5) : r.below(12);
      V buf[12];
      for (size_t q = 0; q < len; ++q)
         buf[q] = pool.v[r.below(pool.v.size())];
      const V *f = buf, *l = buf + len;
      switch (r.below(16))
      {
      case 0:
         op("push_back", " %s", name);
         if (limited && x.size() == MAX)
            break;
         if (O::pb(0, k, v))
            x.push_back(v);
         break;
      case 1:
         op("push_front", " %s", name);
         if (O::pf(0, k, v))
            x.push_front(v);
         break;
      case 2: case 3:
         op("insert(range)", " %s at %zu of %zu, %zu", name, at, x.size(), len);
         if constexpr (Fits<E, V>::v)
         {
            M t;
            for (size_t q = 0; q < len; ++q)
               t.push_back((E)buf[q]);
            if (limited && x.size() + len > MAX)
               break;
            O::ins(0, k, at, f, l);
            x.insert(x.begin() + at, t.begin(), t.end());
         }
         break;
      case 4:
         op("insert(n)", " %s at %zu of %zu, %zu", name, at, x.size(), len);
         if (limited && x.size() + len > MAX)
            break;
         O::insn(0, k, at, len, v);
         x.insert(x.begin() + at, len, v);
         break;
      case 5:
         op("insert", " %s at %zu of %zu", name, at, x.size());
         if (limited && x.size() + 1 > MAX)
            break;
         O::one(0, k, at, v);
         x.insert(x.begin() + at, v);
         break;
      case 6: case 7:
         op("erase", " %s at %zu of %zu", name, at, x.size());
         if (at == x.size())
            break;
         O::del(0, k, at);
         x.erase(x.begin() + at);
         break;
      case 8:
         op("assign(range)", " %s %zu", name, len);
         if constexpr (Fits<E, V>::v)
            if (O::asg(0, k, f, l))
            {
               x.clear();
               for (size_t q = 0; q < len; ++q)
                  x.push_back((E)buf[q]);
            }
         break;
      case 9:
         op("assign(n)", " %s %zu", name, len);
         if (O::asgn(0, k, len, v))
            x.assign(len, v);
         break;
      case 10:
         op("operator=", " %s", name);
         lib([&]{ *c[i] = *c[!i]; return 0; });
         x = m[!i];
         break;
      case 11:
      {
         op("copy", " %s", name);
         C *n = lib([&]{ return new C(*c[!i]); });
         lib([&]{ delete c[i]; return 0; });
         c[i] = n;
         x = m[!i];
         if (x.size() && r.below(2)) // and one element different
         {
            size_t z = r.below(x.size());
            typename C::iterator it = c[i]->begin();
            for (size_t q = 0; q < z; ++q)
               ++it;
            *it = v;
            x[z] = v;
         }
         break;
      }
      case 12:
         op("swap", " %s", name);
         lib([&]{ c[0]->swap(*c[1]); return 0; });
         m[0].swap(m[1]);
         break;
      case 13:
         op("resize", " %s %zu from %zu", name, len, x.size());
         if (O::rs(0, k, len, v))
            x.resize(len, v);
         break;
      case 14:
         if constexpr (std::is_same<C, ttl::list<E> >::value)
         {
            if (r.below(2))
            {
               op("remove", " %s", name);
               lib([&]{ k.remove(v); return 0; });
               M t;
               for (size_t q = 0; q < x.size(); ++q)
                  if (!(x[q] == v))
                     t.push_back(x[q]);
               x.swap(t);
            }
            else
            {
               op("unique", " %s", name);
               lib([&]{ k.unique(); return 0; });
               M t;
               for (size_t q = 0; q < x.size(); ++q)
                  if (t.empty() || !(x[q] == t.back()))
                     t.push_back(x[q]);
               x.swap(t);
            }
         }
         break;
      default:
         if constexpr (!std::is_same<C, ttl::lazy_queue<E> >::value && Fits<E, V>::v)
         {
            op("range constructor", " %s %zu", name, len);
            C *n = lib([&]{ return new C(f, l); });
            lib([&]{ delete c[i]; return 0; });
            c[i] = n;
            x.clear();
            for (size_t q = 0; q < len; ++q)
               x.push_back((E)buf[q]);
         }
         break;
      }
      check(0);
      check(1);
      bool eq = m[0].size() == m[1].size();
      for (size_t q = 0; eq && q < m[0].size(); ++q)
         eq = m[0][q] == m[1][q];
      op("==", " %s %zu %zu", name, m[0].size(), m[1].size());
      int e = O::eq(0, *c[0], *c[1]);
      if (e == 2 || (e >= 0 && (e == 1) != eq))
         fail(SEM, "equality", "gives %d, expected %d", e, (int)eq);
      // a floating number may differ from itself, and so may what holds it
      bool self = true;
      for (size_t q = 0; q < m[0].size(); ++q)
         self = self && m[0][q] == m[0][q];
      e = O::eq(0, *c[0], *c[0]);
      if (e == 2 || (e >= 0 && (e == 1) != self))
         fail(SEM, "equality", "with itself gives %d, expected %d", e, (int)self);
      uint64_t h = hstr(name);
      for (size_t q = 0; q < x.size(); ++q)
         h = h * 31 + (x[q] == v) + 2 * (x[q] == x[0]);
      note_state(mix(h, x.size() * 2 + eq));
   }
   void run()
   {
      for (int i = 0; i < 40; ++i)
         step();
   }
};

// Those that find values by key.  ORDERED: by <, unique; otherwise by ==, in order of insertion
template<class C, class K, class T, bool ORDERED, bool SET> struct Dict
{
   struct P { K k; T t; };
   typedef std::deque<P> M;
   Rng &r;
   const char *name;
   Pool<K, T> pool;
   C *c[2];
   M m[2];
   Dict(Rng &rr, const char *n, bool odd): r(rr), name(n), pool(rr, odd && !ORDERED)
   {
      for (int i = 0; i < 2; ++i)
         c[i] = lib([&]{ return new C; });
      for (int i = 0; i < 5; ++i)
         pool.e.push_back(Mk<K>::number(r, odd && !ORDERED));
   }
   ~Dict()
   {
      for (int i = 0; i < 2; ++i)
         lib([&]{ delete c[i]; return 0; });
   }
   static bool eqv(const K &a, const K &b) { if constexpr (ORDERED) return !(a < b) && !(b < a); else return a == b; }
   static size_t lower(const M &x, const K &k)
   {
      size_t i = 0;
      if constexpr (ORDERED)
         while (i < x.size() && x[i].k < k)
            ++i;
      else
         while (i < x.size() && !(x[i].k == k))
            ++i;
      return i;
   }
   template<class I> static const K &key(I i) { if constexpr (SET) return *i; else return i->first; }
   void check(int i)
   {
      const C &q = *c[i];
      size_t n = 0;
      S->observations++;
      typename C::const_iterator it = q.begin(), e = q.end();
      for (; it != e && n < m[i].size(); ++it, ++n)
      {
         S->elem_checks++;
         if (!bits(key(it), m[i][n].k))
            fail(SEM, "content", "key %zu of %zu is not the expected one", n, m[i].size());
         if constexpr (!SET)
            if (!bits((const T &)it->second, m[i][n].t))
               fail(SEM, "content", "value %zu of %zu is not the expected one", n, m[i].size());
      }
      if (it != e || n != m[i].size())
         fail(SEM, "content", "%s than %zu entries", it != e ? "more" : "fewer", m[i].size());
   }
   template<class I> size_t index(const C &q, I i)
   {
      size_t n = 0;
      for (typename C::const_iterator b = q.begin(); b != q.end() && b != typename C::const_iterator(i); ++b)
         ++n;
      return n;
   }
   void step()
   {
      int i = r.below(2);
      C &q = *c[i];
      M &x = m[i];
      K k = pool.e[r.below(pool.e.size())];
      T t = pool.v[r.below(pool.v.size())];
      size_t at = lower(x, k);
      bool has = at < x.size() && eqv(x[at].k, k);
      P p = {k, t};
      switch (r.below(10))
      {
      case 0: case 1: case 2:
      {
         op("insert", " %s %d", name, (int)has);
         bool fresh;
         if constexpr (SET)
            fresh = lib([&]{ return q.insert(k); }).second;
         else
            fresh = lib([&]{ return q.insert(typename C::value_type(k, t)); }).second;
         if (fresh == has)
            fail(SEM, "result", "inserted %d, key was there %d", (int)fresh, (int)has);
         if (!has)
            x.insert(x.begin() + at, p);
         break;
      }
      case 3: case 4:
         if constexpr (!SET)
         {
            op("operator[]", " %s %d", name, (int)has);
            T &g = lib([&]() -> T & { return q[k]; });
            if (!bits(g, has ? x[at].t : T()))
               fail(SEM, "result", "operator[] gives another value");
            g = t;
            if (has)
               x[at].t = t;
            else
               x.insert(x.begin() + at, p);
         }
         break;
      case 5: case 6:
      {
         op("find", " %s %d", name, (int)has);
         const C &z = q;
         size_t a = lib([&]{ return index(z, q.find(k)); }), b = lib([&]{ return index(z, z.find(k)); }), e = has ? at : x.size(), n = 0;
         if (a != e || b != e)
            fail(SEM, "result", "find gives %zu and %zu, expected %zu", a, b, e);
         for (size_t y = 0; y < x.size(); ++y)
            n += eqv(x[y].k, k);
         size_t cn = lib([&]{ return z.count(k); });
         if (cn != n)
            fail(SEM, "result", "count gives %zu, expected %zu", cn, n);
         if constexpr (ORDERED)
         {
            a = lib([&]{ return index(z, q.lower_bound(k)); }), b = lib([&]{ return index(z, z.upper_bound(k)); });
            if (a != at || b != at + has)
               fail(SEM, "result", "bounds are %zu and %zu, expected %zu and %zu", a, b, at, at + has);
         }
         break;
      }
      case 7:
         if constexpr (ORDERED && !std::is_same<C, ttl::sorted_vector_map<K, T> >::value)
         {
            op("erase", " %s %d", name, (int)has);
            if (lib([&]{ return q.erase(k); }) != (size_t)has)
               fail(SEM, "result", "erase, key was there %d", (int)has);
            if (has)
               x.erase(x.begin() + at);
         }
         break;
      case 8:
      {
         op("copy", " %s", name);
         C *n = lib([&]{ return new C(*c[!i]); });
         lib([&]{ delete c[i]; return 0; });
         c[i] = n;
         x = m[!i];
         break;
      }
      default:
         op("clear", " %s", name);
         if (r.below(3))
            break;
         lib([&]{ q.clear(); return 0; });
         x.clear();
         break;
      }
      check(0);
      check(1);
      if constexpr (!std::is_same<C, ttl::sorted_vector_map<K, T> >::value)
      {
         bool eq = m[0].size() == m[1].size();
         for (size_t y = 0; eq && y < m[0].size(); ++y)
            eq = m[0][y].k == m[1][y].k && (SET || m[0][y].t == m[1][y].t);
         op("==", " %s %zu %zu", name, m[0].size(), m[1].size());
         const C &a = *c[0], &b = *c[1];
         if (lib([&]{ return a == b; }) != eq || lib([&]{ return a != b; }) == eq)
            fail(SEM, "equality", "expected %d", (int)eq);
      }
      uint64_t h = mix(hstr(name), x.size());
      for (size_t y = 0; y < x.size(); ++y)
         h = h * 31 + (x[y].t == t) + 2 * (y && x[y].t == x[0].t) + 4 * eqv(x[y].k, k);
      note_state(h);
   }
   void run()
   {
      for (int i = 0; i < 60; ++i)
         step();
   }
};

template<class E> using fix_t = ttl::fixed_vector<E, 24>;
template<class K, class T> using map_t = ttl::map<K, T>;
template<class K, class T> using set_t = ttl::set<K>;
template<class K, class T> using vm_t = ttl::vector_map<K, T>;
template<class K, class T> using svm_t = ttl::sorted_vector_map<K, T>;
#define SEQ(n, C, LIM, E, V) case n: MSeq<C<E >, E, V>(r, #E " from " #V, LIM, true).run(); break;
#define SEQS(C, LIM) SEQ(0, C, LIM, double, double) SEQ(1, C, LIM, char, int) SEQ(2, C, LIM, float, float) \
   SEQ(3, C, LIM, bool, int) SEQ(4, C, LIM, unsigned short, long) SEQ(5, C, LIM, Colour, Colour) \
   SEQ(6, C, LIM, const int *, int *) SEQ(7, C, LIM, double, int)
#define DICT(n, C, O, S, K, T) case n: Dict<C<K, T >, K, T, O, S>(r, #K " to " #T, true).run(); break;
#define DICTS(C, O, S) DICT(0, C, O, S, double, double) DICT(1, C, O, S, char, bool) DICT(2, C, O, S, float, char) \
   DICT(3, C, O, S, unsigned short, const int *) DICT(4, C, O, S, Small, float) DICT(5, C, O, S, const int *, double) \
   DICT(6, C, O, S, bool, long) DICT(7, C, O, S, long, Colour)
static void the_case(Rng &r, uint64_t)
{
   switch (r.below(8))
   {
#if MON_MIXED == 0
   SEQS(ttl::vector, false)
#elif MON_MIXED == 1
   SEQS(fix_t, true)
#elif MON_MIXED == 2
   SEQS(ttl::list, false)
#elif MON_MIXED == 3
   SEQS(ttl::forward_list, false)
#elif MON_MIXED == 4
   SEQS(ttl::backward_list, false)
#elif MON_MIXED == 5
   SEQS(ttl::lazy_queue, false)
#elif MON_MIXED == 6
   DICTS(map_t, true, false)
#elif MON_MIXED == 7
   DICTS(set_t, true, true)
#elif MON_MIXED == 8
   DICTS(vm_t, false, false)
#elif MON_MIXED == 9
   DICTS(svm_t, true, false)
#endif
   }
}
int main(int argc, char **argv) { return run(argc, argv, "mixed", the_case); }
