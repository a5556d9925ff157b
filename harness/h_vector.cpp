// Monitored histories over ttl::vector
#include "core_impl.hpp"
#include "seq.hpp"
#include "ttl/ttl.hpp"
using namespace mon;

template<class T>
struct Case
{
   typedef ttl::vector<T> C;
   typedef Slot<C> SL;
   enum { NS = 3 };
   Rng &r;
   Keys k;
   SL s[NS];
   Case(Rng &rr): r(rr), k(rr) {}

   size_t total() const
   {
      size_t n = 0;
      for (int i = 0; i < NS; ++i)
         n += s[i].m.size();
      return El<T>::tracked ? n : 0;
   }
   void observe(int i, bool deep)
   {
      SL &x = s[i];
      if (!x.c)
         return;
      C &c = *x.c;
      const C &cc = c;
      Seq &m = x.m;
      if (c.size() != m.size() || cc.size() != m.size())
      {
         fail(SEM, "size", "size() is %zu, expected %zu", (size_t)c.size(), m.size());
         return;
      }
      if (c.empty() != m.empty())
         fail(SEM, "empty", "empty() is %d with %zu elements", (int)c.empty(), m.size());
      if (c.capacity() < c.size())
         fail(SEM, "capacity", "capacity() %zu < size() %zu", (size_t)c.capacity(), (size_t)c.size());
      if (c.max_size() < c.size())
         fail(SEM, "max_size");
      if ((size_t)(c.end() - c.begin()) != m.size() || cc.cbegin() != c.begin() || cc.cend() != c.end() || cc.begin() != c.begin() || cc.end() != c.end())
         fail(SEM, "range", "begin/end do not span the elements");
      obs_range<T>("forward", c.begin(), c.end(), m, true);
      if (deep || m.size() < 40)
         obs_range_back<T>("backward", cc.begin(), cc.end(), m);
      if (!m.empty())
      {
         chk<T>(c.front(), m[0], 0, "front");
         chk<T>(cc.front(), m[0], 0, "const front");
         chk<T>(c.back(), m.back(), m.size() - 1, "back");
         chk<T>(cc.back(), m.back(), m.size() - 1, "const back");
         size_t i = r.below(m.size());
         chk<T>(c[i], m[i], i, "[]");
         chk<T>(cc[i], m[i], i, "const []");
         chk<T>(c.at(i), m[i], i, "at");
         chk<T>(cc.at(i), m[i], i, "const at");
         chk<T>(c.data()[i], m[i], i, "data");
         if (cc.data() != c.begin())
            fail(SEM, "data", "data() is not begin()");
      }
      x.raw.check();
   }
   void observe_all(int hot, bool deep = false)
   {
      for (int i = 0; i < NS; ++i)
         if (i == hot || s[i].m.size() < 64 || deep)
            observe(i, deep);
      live_check(total());
      long nb = 0;
      for (int i = 0; i < NS; ++i)
         nb += s[i].c != 0 ? 1 : 0;
      if (H.lib_blocks > nb)
         fail(ALLOC, "blocks", "%ld library blocks alive for %ld vectors", H.lib_blocks, nb);
      uint64_t h = hstr(S->op);
      for (int i = 0; i < NS; ++i)
         h = hash_seq(h, s[i].m);
      note_state(h);
   }
   // model edits
   static void ins(Seq &m, size_t pos, const std::vector<V> &v)
   {
      std::vector<E> e;
      for (size_t i = 0; i < v.size(); ++i)
         e.push_back(E(v[i]));
      m.insert(m.begin() + pos, e.begin(), e.end());
   }
   static void unaddr(Seq &m, size_t from)
   {
      for (size_t i = from; i < m.size(); ++i)
         m[i].addr = 0;
   }
   void ensure(int i)
   {
      if (!s[i].c)
         construct(i);
   }
   void construct(int i)
   {
      SL &x = s[i];
      x.destroy();
      void *p = x.mem();
      switch (r.below(6))
      {
      case 0:
      case 1:
         op("vector()", " s%d", i);
         lib([&]{ x.c = new(p) C(); return 0; });
         break;
      case 2:
      {
         size_t n = r.below(9);
         op("vector(n)", " s%d n=%zu", i, n);
         lib([&]{ x.c = new(p) C(n); return 0; });
         ins(x.m, 0, std::vector<V>(n, El<T>::dflt()));
         break;
      }
      case 3:
      {
         size_t n = r.below(9);
         V v = El<T>::norm(k.v());
         op("vector(n,x)", " s%d n=%zu x=%d", i, n, v.key);
         {
            T t(El<T>::make(v));
            lib([&]{ x.c = new(p) C(n, t); return 0; });
         }
         ins(x.m, 0, std::vector<V>(n, v));
         break;
      }
      case 4:
      {
         int j = (i + 1 + r.below(2)) % NS;
         if (!s[j].c)
         {
            op("vector()", " s%d", i);
            lib([&]{ x.c = new(p) C(); return 0; });
            break;
         }
         op("vector(const vector&)", " s%d from s%d", i, j);
         const C &o = *s[j].c;
         lib([&]{ x.c = new(p) C(o); return 0; });
         for (size_t q = 0; q < s[j].m.size(); ++q)
            x.m.push_back(E(s[j].m[q].v));
         break;
      }
      default:
      {
         std::vector<V> v;
         {
            std::vector<T> t;
            gen_vals<T>(k, r.below(12), v, t);
            op("vector(first,last)", " s%d n=%zu", i, v.size());
            const T *f = t.data(), *l = t.data() + t.size();
            lib([&]{ x.c = new(p) C(f, l); return 0; });
         }
         ins(x.m, 0, v);
         break;
      }
      }
      observe_all(i);
   }

   // An operation that must stay within the current capacity
   struct Within
   {
      C &c;
      const T *d;
      size_t cap;
      uint64_t a;
      bool on;
      Within(C &cc, bool o): c(cc), d(cc.data()), cap(cc.capacity()), a(H.lib_allocs), on(o) {}
      void done(const char *what)
      {
         if (!on)
            return;
         if (H.lib_allocs != a)
            fail(ALLOC, "alloc-within-capacity", "%s allocated although capacity %zu suffices", what, cap);
         if (c.data() != d)
            fail(STAB, "moved-within-capacity", "%s moved the elements although capacity %zu suffices", what, cap);
         if (c.capacity() != cap)
            fail(STAB, "capacity-changed", "%s changed capacity from %zu to %zu without need", what, cap, (size_t)c.capacity());
      }
   };

   void step(unsigned big)
   {
      int i = (int)r.below(NS);
      if (!s[i].c || r.below(40) == 0)
      {
         construct(i);
         if (r.below(2))
            return;
      }
      SL &x = s[i];
      C &c = *x.c;
      Seq &m = x.m;
      unsigned o = r.below(30);
      if (is("value"))
      {
         static const unsigned w[] = {13, 14, 15, 16, 0, 1, 2, 8, 17, 13, 14, 15, 16, 12};
         o = w[r.below(sizeof w / sizeof *w)];
      }
      else if (is("alias") && r.below(3))
      {
         static const unsigned w[] = {20, 21, 22, 23, 24, 25, 26, 20, 21, 22};
         o = w[r.below(sizeof w / sizeof *w)];
      }
      if (m.size() > 60 * big && o != 9)
         o = 5 + r.below(5);
      switch (o)
      {
      case 0: case 1:
      {
         V v = El<T>::norm(k.v());
         op("push_back", " s%d x=%d", i, v.key);
         bool fits = c.size() < c.capacity();
         if (!fits)
            unaddr(m, 0);
         Within w(c, fits);
         {
            T t(El<T>::make(v));
            lib([&]{ c.push_back(t); return 0; });
         }
         m.push_back(E(v));
         w.done("push_back");
         break;
      }
      case 2: case 3:
      {
         V v = El<T>::norm(k.v());
         size_t pos = r.below(m.size() + 1);
         op("insert(pos,x)", " s%d pos=%zu x=%d", i, pos, v.key);
         bool fits = c.size() < c.capacity();
         unaddr(m, fits ? pos : 0);
         Within w(c, fits);
         typename C::iterator it = typename C::iterator();
         {
            T t(El<T>::make(v));
            it = lib([&]{ return c.insert(c.cbegin() + pos, t); });
         }
         ins(m, pos, std::vector<V>(1, v));
         w.done("insert");
         if (it != c.begin() + pos)
            fail(SEM, "returned-iterator", "insert at %zu returned position %td", pos, it - c.begin());
         break;
      }
      case 4:
      {
         V v = El<T>::norm(k.v());
         size_t pos = r.below(m.size() + 1), n = r.below(7);
         if (r.below(12) == 0)
            n = r.below(40 * big);
         op("insert(pos,n,x)", " s%d pos=%zu n=%zu x=%d", i, pos, n, v.key);
         bool fits = c.capacity() - c.size() >= n;
         unaddr(m, fits ? (n ? pos : m.size()) : 0);
         Within w(c, fits);
         typename C::iterator it = typename C::iterator();
         {
            T t(El<T>::make(v));
            it = lib([&]{ return c.insert(c.cbegin() + pos, n, t); });
         }
         ins(m, pos, std::vector<V>(n, v));
         w.done("insert");
         if (it != c.begin() + pos)
            fail(SEM, "returned-iterator", "insert at %zu returned position %td", pos, it - c.begin());
         break;
      }
      case 5:
      {
         if (m.empty())
            return;
         op("pop_back", " s%d", i);
         Within w(c, true);
         lib([&]{ c.pop_back(); return 0; });
         m.pop_back();
         w.done("pop_back");
         break;
      }
      case 6: case 7:
      {
         if (m.empty())
            return;
         size_t pos = r.below(m.size());
         op("erase(pos)", " s%d pos=%zu", i, pos);
         Within w(c, true);
         unaddr(m, pos);
         typename C::iterator it = lib([&]{ return c.erase(c.cbegin() + pos); });
         m.erase(m.begin() + pos);
         w.done("erase");
         if (it != c.begin() + pos)
            fail(SEM, "returned-iterator", "erase at %zu returned position %td", pos, it - c.begin());
         break;
      }
      case 8:
      {
         size_t a = r.below(m.size() + 1), b = a + r.below(m.size() - a + 1);
         if (r.below(5) == 0)
            b = a;
         op("erase(first,last)", " s%d [%zu,%zu)", i, a, b);
         Within w(c, true);
         if (a != b)
            unaddr(m, a);
         typename C::iterator it = lib([&]{ return c.erase(c.cbegin() + a, c.cbegin() + b); });
         m.erase(m.begin() + a, m.begin() + b);
         w.done("erase");
         if (it != c.begin() + a)
            fail(SEM, "returned-iterator", "erase at %zu returned position %td", a, it - c.begin());
         break;
      }
      case 9:
      {
         op("clear", " s%d", i);
         Within w(c, true);
         lib([&]{ c.clear(); return 0; });
         m.clear();
         w.done("clear");
         break;
      }
      case 10:
      {
         size_t n = r.below(m.size() + 8);
         op("resize(n)", " s%d n=%zu", i, n);
         bool fits = n <= c.capacity();
         if (!fits)
            unaddr(m, 0);
         Within w(c, fits);
         lib([&]{ c.resize(n); return 0; });
         if (n < m.size())
            m.resize(n);
         else
            ins(m, m.size(), std::vector<V>(n - m.size(), El<T>::dflt()));
         w.done("resize");
         break;
      }
      case 11:
      {
         size_t n = r.below(m.size() + 8);
         V v = El<T>::norm(k.v());
         op("resize(n,x)", " s%d n=%zu x=%d", i, n, v.key);
         bool fits = n <= c.capacity();
         if (!fits)
            unaddr(m, 0);
         Within w(c, fits);
         {
            T t(El<T>::make(v));
            lib([&]{ c.resize(n, t); return 0; });
         }
         if (n < m.size())
            m.resize(n);
         else
            ins(m, m.size(), std::vector<V>(n - m.size(), v));
         w.done("resize");
         break;
      }
      case 12:
      {
         size_t n = r.below(c.capacity() + 10);
         if (r.below(3) == 0)
            n = c.capacity();
         op("reserve", " s%d n=%zu (capacity %zu)", i, n, (size_t)c.capacity());
         bool fits = n <= c.capacity();
         if (!fits)
            unaddr(m, 0);
         Within w(c, fits);
         lib([&]{ c.reserve(n); return 0; });
         w.done("reserve");
         if (c.capacity() < n)
            fail(SEM, "capacity", "capacity() is %zu after reserve(%zu)", (size_t)c.capacity(), n);
         break;
      }
      case 13:
      {
         int j = (i + 1 + r.below(2)) % NS;
         ensure(j);
         const C &oc = *s[j].c;
         op("operator=", " s%d = s%d", i, j);
         C *ret = 0;
         unaddr(m, 0);
         lib([&]{ ret = &(c = oc); return 0; });
         if (ret != &c)
            fail(SEM, "returned-reference");
         m.clear();
         for (size_t q = 0; q < s[j].m.size(); ++q)
            m.push_back(E(s[j].m[q].v));
         break;
      }
      case 14:
      {
         if (r.below(3) == 0)
         {
            size_t n = r.below(12);
            V v = El<T>::norm(k.v());
            op("assign(n,x)", " s%d n=%zu x=%d", i, n, v.key);
            Within w(c, n <= c.capacity());
            {
               T t(El<T>::make(v));
               lib([&]{ c.assign(n, t); return 0; });
            }
            m.clear();
            ins(m, 0, std::vector<V>(n, v));
            w.done("assign");
         }
         else
         {
            std::vector<V> v;
            size_t n = r.below(12);
            Within w(c, n <= c.capacity());
            if (r.below(2))
            {
               Source<T> src;
               gen_vals<T>(k, n, v, src.vals);
               op("assign(input range)", " s%d n=%zu", i, n);
               InIt<T> f(src, 0), l(src, n);
               lib([&]{ c.assign(f, l); return 0; });
            }
            else
            {
               std::vector<T> t;
               gen_vals<T>(k, n, v, t);
               op("assign(first,last)", " s%d n=%zu", i, n);
               const T *f = t.data(), *l = f + n;
               lib([&]{ c.assign(f, l); return 0; });
            }
            m.clear();
            ins(m, 0, v);
            w.done("assign");
         }
         break;
      }
      case 15:
      {
         int j = (i + 1 + r.below(2)) % NS;
         ensure(j);
         op("swap", " s%d s%d", i, j);
         C &oc = *s[j].c;
         uint64_t a = H.lib_allocs, cp = Tr::g_copies;
         size_t ca = c.capacity(), cb = oc.capacity();
         lib([&]{ c.swap(oc); return 0; });
         m.swap(s[j].m);
         if (H.lib_allocs != a)
            fail(ALLOC, "alloc-in-swap", "swap allocated");
         if (Tr::g_copies != cp)
            fail(STAB, "copy-in-swap", "swap copied elements");
         if (c.capacity() != cb || oc.capacity() != ca)
            fail(SEM, "capacity", "swap did not exchange the capacities");
         observe(j, false);
         break;
      }
      case 16:
      {
         int j = (int)r.below(NS);
         ensure(j);
         const C &a = c, &b = *s[j].c;
         op("==", " s%d s%d", i, j);
         bool eq = m.size() == s[j].m.size();
         for (size_t q = 0; eq && q < m.size(); ++q)
            eq = m[q].v.key == s[j].m[q].v.key;
         bool e1 = lib([&]{ return a == b; }), e2 = lib([&]{ return a != b; });
         if (e1 != eq || e2 == eq)
            fail(SEM, "equality", "== gives %d, != gives %d, contents are %s", e1, e2, eq ? "equal" : "different");
         break;
      }
      case 17: case 18:
      {
         if (m.empty())
            return;
         size_t p = r.below(m.size());
         V v = El<T>::norm(k.v());
         op("write", " s%d [%zu]=%d", i, p, v.key);
         unsigned how = r.below(6);
         {
            T t(El<T>::make(v));
            switch (how)
            {
            case 0: c[p] = t; break;
            case 1: c.at(p) = t; break;
            case 2: c.begin()[p] = t; break;
            case 3: c.data()[p] = t; break;
            case 4: p = 0; c.front() = t; break;
            default: p = m.size() - 1; c.back() = t; break;
            }
         }
         m[p].v = v;
         break;
      }
      case 19: case 27:
      {
         std::vector<V> v;
         size_t n = r.below(6), pos = r.below(m.size() + 1);
         if (r.below(12) == 0)
            n = r.below(30 * big);
         typename C::iterator it = typename C::iterator();
         bool fits = c.capacity() - c.size() >= n;
         Within w(c, fits);
         {
            std::vector<T> t;
            gen_vals<T>(k, n, v, t);
            op("insert(pos,first,last)", " s%d pos=%zu n=%zu", i, pos, n);
            unaddr(m, fits ? (n ? pos : m.size()) : 0);
            const T *f = t.data(), *l = f + n;
            it = lib([&]{ return c.insert(c.cbegin() + pos, f, l); });
         }
         ins(m, pos, v);
         w.done("insert");
         if (it != c.begin() + pos)
            fail(SEM, "returned-iterator", "insert at %zu returned position %td", pos, it - c.begin());
         break;
      }
      // aliasing
      case 20:
      {
         if (m.empty())
            return;
         S->alias_ops++;
         size_t pos = r.below(m.size() + 1), q = r.below(m.size());
         V v = m[q].v;
         op("insert(pos,own element)", " s%d pos=%zu x=[%zu] (capacity %zu)", i, pos, q, (size_t)c.capacity());
         unaddr(m, 0);
         typename C::iterator it = lib([&]{ return c.insert(c.cbegin() + pos, c[q]); });
         ins(m, pos, std::vector<V>(1, v));
         if (it != c.begin() + pos)
            fail(SEM, "returned-iterator");
         break;
      }
      case 21:
      {
         if (m.empty())
            return;
         S->alias_ops++;
         size_t pos = r.below(m.size() + 1), q = r.below(m.size()), n = r.below(6);
         V v = m[q].v;
         op("insert(pos,n,own element)", " s%d pos=%zu n=%zu x=[%zu] (capacity %zu)", i, pos, n, q, (size_t)c.capacity());
         unaddr(m, 0);
         typename C::iterator it = lib([&]{ return c.insert(c.cbegin() + pos, n, c[q]); });
         ins(m, pos, std::vector<V>(n, v));
         if (it != c.begin() + pos)
            fail(SEM, "returned-iterator");
         break;
      }
      case 22:
      {
         if (m.empty())
            return;
         S->alias_ops++;
         size_t q = r.below(m.size());
         V v = m[q].v;
         op("push_back(own element)", " s%d x=[%zu] (capacity %zu)", i, q, (size_t)c.capacity());
         unaddr(m, 0);
         lib([&]{ c.push_back(c[q]); return 0; });
         ins(m, m.size(), std::vector<V>(1, v));
         break;
      }
      case 23:
      {
         if (m.empty())
            return;
         S->alias_ops++;
         size_t q = r.below(m.size()), n = r.below(m.size() + 6);
         V v = m[q].v;
         if (n < m.size() && q >= n && 0)
            return;
         op("resize(n,own element)", " s%d n=%zu x=[%zu]", i, n, q);
         unaddr(m, 0);
         lib([&]{ c.resize(n, c[q]); return 0; });
         if (n < m.size())
            m.resize(n);
         else
            ins(m, m.size(), std::vector<V>(n - m.size(), v));
         break;
      }
      case 24:
      {
         S->alias_ops++;
         op("operator=(self)", " s%d", i);
         const C &self = c;
         unaddr(m, 0);
         lib([&]{ c = self; return 0; });
         break;
      }
      case 25:
      {
         S->alias_ops++;
         op("swap(self)", " s%d", i);
         lib([&]{ c.swap(c); return 0; });
         break;
      }
      case 26:
      {
         if (m.empty())
            return;
         S->alias_ops++;
         size_t p = r.below(m.size()), q = r.below(m.size());
         op("[p]=[q]", " s%d [%zu]=[%zu]", i, p, q);
         lib([&]{ c[p] = c[q]; return 0; });
         m[p].v = m[q].v;
         break;
      }
      case 28:
      {
         op("iterate", " s%d", i);
         walk_fwd<T, true>(r, c, m, is("iter") ? 60 : 12);
         break;
      }
      default:
      {
         op("const queries", " s%d", i);
         const C copy(c); // harness-side copy, destroyed at once
         if (copy.size() != c.size() || !(copy == c))
            fail(SEM, "copy", "a copy differs from the original");
         break;
      }
      }
      observe_all(i);
   }
   void end()
   {
      for (int i = 0; i < NS; ++i)
      {
         op("~vector", " s%d", i);
         s[i].destroy();
         live_check(total());
      }
   }
   void run(unsigned ops, unsigned big)
   {
      for (unsigned q = 0; q < ops; ++q)
         step(big);
      if (is("iter"))
         for (int i = 0; i < NS; ++i)
            if (s[i].c)
            {
               op("iterate");
               walk_fwd<T, true>(r, *s[i].c, s[i].m, 80);
            }
      end();
   }
   // Long growth: push_back / erase with thousands of elements
   void large(unsigned n)
   {
      S->large_cases++;
      SL &x = s[0];
      construct(0);
      C &c = *x.c;
      Seq &m = x.m;
      unsigned mode = r.below(3);
      if (mode == 1)
      {
         op("reserve", " %u", n);
         lib([&]{ c.reserve(n); return 0; });
         strip(m);
      }
      op("push_back*", " n=%u", n);
      if (mode == 2)
      {
         V v = El<T>::norm(k.v());
         op("insert(pos,n,x)", " n=%u", n);
         {
            T t(El<T>::make(v));
            size_t pos = r.below(m.size() + 1);
            lib([&]{ c.insert(c.begin() + pos, n, t); return 0; });
            ins(m, pos, std::vector<V>(n, v));
         }
         strip(m);
      }
      else
      {
         // without reserve the vector grows by one element at a time: keep it short
         unsigned cnt = mode == 1 ? n : n > 700 ? 700 : n;
         for (unsigned q = 0; q < cnt; ++q)
         {
            V v = El<T>::norm(k.v());
            T t(El<T>::make(v));
            lib([&]{ c.push_back(t); return 0; });
            m.push_back(E(v));
         }
         strip(m);
      }
      observe_all(0, true);
      for (int q = 0; q < 12; ++q)
         step(n);
      observe_all(0, true);
      construct(1);
      op("operator=", " s1 = s0 (large)");
      {
         C &d = *s[1].c;
         const C &src = *s[0].c;
         lib([&]{ d = src; return 0; });
         s[1].m.clear();
         for (size_t q = 0; q < s[0].m.size(); ++q)
            s[1].m.push_back(E(s[0].m[q].v));
      }
      observe_all(1, true);
      end();
   }
};

static void the_case(Rng &r, uint64_t c)
{
   unsigned ops = r.range(8, 60);
   if (c % 97 == 50)
   {
      unsigned n = r.below(4) == 0 ? 70000 : r.range(250, 5000);
      if (c & 1)
         Case<int>(r).large(n);
      else
         Case<Tr>(r).large(n > 20000 ? 20000 : n);
      return;
   }
   switch (c % 8)
   {
   case 0: case 1: case 2: case 3: Case<Tr>(r).run(ops, 1); break;
   case 4: Case<int>(r).run(ops, 1); break;
   case 5: Case<unsigned char>(r).run(ops, 4); break;
   case 6: Case<Wide>(r).run(ops, 1); break;
   default: Case<Fat>(r).run(ops, 1); break;
   }
}
int main(int argc, char **argv) { return run(argc, argv, "vector", the_case); }
