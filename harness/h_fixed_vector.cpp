// Monitored histories over ttl::fixed_vector
#include "core_impl.hpp"
#include "seq.hpp"
#include "ttl/ttl.hpp"
using namespace mon;

template<class T, unsigned N>
struct Case
{
   typedef ttl::fixed_vector<T, N> C;
   typedef Slot<C> SL;
   enum { NS = 3 };
   Rng &r;
   Keys k;
   SL s[NS];
   uint64_t alloc0;
   Case(Rng &rr): r(rr), k(rr), alloc0(H.lib_allocs) {}

   size_t total() const
   {
      size_t n = 0;
      for (int i = 0; i < NS; ++i)
         n += s[i].m.size();
      return El<T>::tracked ? n : 0;
   }
   void observe(int i)
   {
      SL &x = s[i];
      if (!x.c)
         return;
      C &c = *x.c;
      const C &cc = c;
      Seq &m = x.m;
      if (c.size() != m.size())
      {
         fail(SEM, "size", "size() is %zu, expected %zu", (size_t)c.size(), m.size());
         return;
      }
      if (c.empty() != m.empty() || c.full() != (m.size() == N))
         fail(SEM, "empty", "empty() is %d, full() is %d with %zu elements of %u", (int)c.empty(), (int)c.full(), m.size(), N);
      if (c.capacity() != N || c.max_size() != N)
         fail(SEM, "capacity", "capacity() %zu max_size() %zu", (size_t)c.capacity(), (size_t)c.max_size());
      if ((size_t)(c.end() - c.begin()) != m.size() || cc.cbegin() != c.begin() || cc.cend() != c.end() || cc.begin() != c.begin() || cc.end() != c.end())
         fail(SEM, "range", "begin/end do not span the elements");
      const char *lo = (const char *)x.raw.ptr(), *hi = lo + sizeof(C);
      if ((const char *)c.begin() < lo || (const char *)(c.begin() + N) > hi)
         fail(MEM, "storage", "the elements are not inside the object");
      if (((uintptr_t)c.begin()) % alignof(T))
         fail(MEM, "misaligned-storage", "the elements start at %p, alignment %zu", (const void *)c.begin(), alignof(T));
      strip(m);
      obs_range<T>("forward", c.begin(), c.end(), m, false);
      obs_range_back<T>("backward", cc.begin(), cc.end(), m);
      if (!m.empty())
      {
         chk<T>(c.front(), m[0], 0, "front");
         chk<T>(cc.front(), m[0], 0, "const front");
         chk<T>(c.back(), m.back(), m.size() - 1, "back");
         chk<T>(cc.back(), m.back(), m.size() - 1, "const back");
         size_t q = r.below(m.size());
         chk<T>(c[q], m[q], q, "[]");
         chk<T>(cc[q], m[q], q, "const []");
         chk<T>(c.at(q), m[q], q, "at");
         chk<T>(cc.at(q), m[q], q, "const at");
         chk<T>(c.data()[q], m[q], q, "data");
         chk<T>(cc.data()[q], m[q], q, "const data");
      }
      x.raw.check();
   }
   void observe_all()
   {
      for (int i = 0; i < NS; ++i)
         observe(i);
      live_check(total());
      if (H.lib_allocs != alloc0 || H.lib_blocks)
      {
         fail(ALLOC, "allocates", "a fixed_vector operation allocated memory");
         alloc0 = H.lib_allocs;
      }
      uint64_t h = mix(hstr(S->op), N);
      for (int i = 0; i < NS; ++i)
         h = hash_seq(h, s[i].m);
      note_state(h);
   }
   // insert, then keep the first N
   static void ins(Seq &m, size_t pos, const std::vector<V> &v)
   {
      std::vector<E> e;
      for (size_t i = 0; i < v.size(); ++i)
         e.push_back(E(v[i]));
      m.insert(m.begin() + pos, e.begin(), e.end());
      if (m.size() > N)
         m.resize(N);
   }
   static void insn(Seq &m, size_t pos, size_t n, V v) { ins(m, pos, std::vector<V>(n > N ? N : n, v)); }
   void construct(int i)
   {
      SL &x = s[i];
      x.destroy();
      void *p = x.mem();
      switch (r.below(6))
      {
      case 0:
      case 1:
         op("fixed_vector()", " s%d", i);
         lib([&]{ x.c = new(p) C(); return 0; });
         break;
      case 2:
      {
         size_t n = r.below(N + 4);
         op("fixed_vector(n)", " s%d n=%zu", i, n);
         lib([&]{ x.c = new(p) C(n); return 0; });
         insn(x.m, 0, n, El<T>::dflt());
         break;
      }
      case 3:
      {
         size_t n = big(N + 4);
         V v = El<T>::norm(k.v());
         op("fixed_vector(n,x)", " s%d n=%zu x=%d", i, n, v.key);
         {
            T t(El<T>::make(v));
            lib([&]{ x.c = new(p) C(n, t); return 0; });
         }
         insn(x.m, 0, n, v);
         break;
      }
      case 4:
      {
         int j = (i + 1 + r.below(2)) % NS;
         if (!s[j].c)
         {
            op("fixed_vector()", " s%d", i);
            lib([&]{ x.c = new(p) C(); return 0; });
            break;
         }
         op("fixed_vector(const fixed_vector&)", " s%d from s%d", i, j);
         const C &o = *s[j].c;
         lib([&]{ x.c = new(p) C(o); return 0; });
         for (size_t q = 0; q < s[j].m.size(); ++q)
            x.m.push_back(E(s[j].m[q].v));
         break;
      }
      default:
      {
         std::vector<V> v;
         size_t n = r.below(N + 5);
         {
            if (r.below(2))
            {
               std::vector<T> t;
               gen_vals<T>(k, n, v, t);
               op("fixed_vector(first,last)", " s%d n=%zu", i, n);
               const T *f = t.data(), *l = t.data() + n;
               lib([&]{ x.c = new(p) C(f, l); return 0; });
            }
            else
            {
               Source<T> src;
               gen_vals<T>(k, n, v, src.vals);
               op("fixed_vector(input range)", " s%d n=%zu", i, n);
               InIt<T> f(src, 0), l(src, n);
               lib([&]{ x.c = new(p) C(f, l); return 0; });
            }
         }
         ins(x.m, 0, v);
         break;
      }
      }
      observe_all();
   }
   size_t big(unsigned lim)
   {
      static const size_t ext[] = {255, 256, 65535, 65536, (size_t)INT_MAX, (size_t)INT_MAX + 1, (size_t)UINT_MAX,
                                   (size_t)UINT_MAX + 1, (size_t)-1, ((size_t)-1) / 2, (size_t)1 << 60};
      if (r.below(8) == 0)
         return ext[r.below(sizeof ext / sizeof *ext)];
      return r.below(lim);
   }
   void ret(C &c, typename C::iterator it, size_t pos)
   {
      if (it != c.begin() + pos)
         fail(SEM, "returned-iterator", "expected position %zu, got %td", pos, it - c.begin());
   }
   void step()
   {
      int i = (int)r.below(NS);
      if (!s[i].c || r.below(30) == 0)
      {
         construct(i);
         if (r.below(2))
            return;
      }
      SL &x = s[i];
      C &c = *x.c;
      Seq &m = x.m;
      unsigned o = r.below(28);
      if (is("value"))
      {
         static const unsigned w[] = {13, 14, 15, 16, 0, 1, 2, 8, 17, 13, 14, 15, 16, 9};
         o = w[r.below(sizeof w / sizeof *w)];
      }
      else if (is("alias") && r.below(3))
      {
         static const unsigned w[] = {20, 21, 22, 23, 24, 25, 26, 20, 21, 22};
         o = w[r.below(sizeof w / sizeof *w)];
      }
      switch (o)
      {
      case 0: case 1:
      {
         V v = El<T>::norm(k.v());
         op("push_back", " s%d x=%d (size %zu of %u)", i, v.key, m.size(), N);
         {
            T t(El<T>::make(v));
            lib([&]{ c.push_back(t); return 0; });
         }
         insn(m, m.size(), 1, v);
         break;
      }
      case 2: case 3:
      {
         V v = El<T>::norm(k.v());
         size_t pos = r.below(m.size() + 1);
         op("insert(pos,x)", " s%d pos=%zu x=%d", i, pos, v.key);
         typename C::iterator it = typename C::iterator();
         {
            T t(El<T>::make(v));
            it = lib([&]{ return c.insert(c.cbegin() + pos, t); });
         }
         insn(m, pos, 1, v);
         ret(c, it, pos);
         break;
      }
      case 4: case 27:
      {
         V v = El<T>::norm(k.v());
         size_t pos = r.below(m.size() + 1), n = big(N + 3);
         op("insert(pos,n,x)", " s%d pos=%zu n=%zu x=%d (size %zu of %u)", i, pos, n, v.key, m.size(), N);
         typename C::iterator it = typename C::iterator();
         {
            T t(El<T>::make(v));
            it = lib([&]{ return c.insert(c.cbegin() + pos, n, t); });
         }
         insn(m, pos, n, v);
         ret(c, it, pos);
         break;
      }
      case 5:
         if (m.empty())
            return;
         op("pop_back", " s%d", i);
         lib([&]{ c.pop_back(); return 0; });
         m.pop_back();
         break;
      case 6: case 7:
      {
         if (m.empty())
            return;
         size_t pos = r.below(m.size());
         op("erase(pos)", " s%d pos=%zu", i, pos);
         typename C::iterator it = lib([&]{ return c.erase(c.cbegin() + pos); });
         m.erase(m.begin() + pos);
         ret(c, it, pos);
         break;
      }
      case 8:
      {
         size_t a = r.below(m.size() + 1), b = a + r.below(m.size() - a + 1);
         if (r.below(5) == 0)
            b = a;
         op("erase(first,last)", " s%d [%zu,%zu)", i, a, b);
         typename C::iterator it = lib([&]{ return c.erase(c.cbegin() + a, c.cbegin() + b); });
         m.erase(m.begin() + a, m.begin() + b);
         ret(c, it, a);
         break;
      }
      case 9:
         op("clear", " s%d", i);
         lib([&]{ c.clear(); return 0; });
         m.clear();
         break;
      case 10:
      {
         size_t n = big(N + 4);
         op("resize(n)", " s%d n=%zu", i, n);
         lib([&]{ c.resize(n); return 0; });
         if (n < m.size())
            m.resize(n);
         else
            insn(m, m.size(), n - m.size(), El<T>::dflt());
         break;
      }
      case 11:
      {
         size_t n = big(N + 4);
         V v = El<T>::norm(k.v());
         op("resize(n,x)", " s%d n=%zu x=%d", i, n, v.key);
         {
            T t(El<T>::make(v));
            lib([&]{ c.resize(n, t); return 0; });
         }
         if (n < m.size())
            m.resize(n);
         else
            insn(m, m.size(), n - m.size(), v);
         break;
      }
      case 12: case 19:
      {
         std::vector<V> v;
         size_t n = r.below(N + 4), pos = r.below(m.size() + 1);
         typename C::iterator it = typename C::iterator();
         {
            std::vector<T> t;
            gen_vals<T>(k, n, v, t);
            op("insert(pos,first,last)", " s%d pos=%zu n=%zu (size %zu of %u)", i, pos, n, m.size(), N);
            const T *f = t.data(), *l = f + n;
            it = lib([&]{ return c.insert(c.cbegin() + pos, f, l); });
         }
         ins(m, pos, v);
         ret(c, it, pos);
         break;
      }
      case 13:
      {
         int j = (i + 1 + r.below(2)) % NS;
         if (!s[j].c)
            construct(j);
         const C &oc = *s[j].c;
         op("operator=", " s%d = s%d", i, j);
         C *ret = 0;
         lib([&]{ ret = &(c = oc); return 0; });
         if (ret != &c)
            fail(SEM, "returned-reference");
         m.clear();
         for (size_t q = 0; q < s[j].m.size(); ++q)
            m.push_back(E(s[j].m[q].v));
         break;
      }
      case 14:
      {
         if (r.below(3) == 0)
         {
            size_t n = big(N + 4);
            V v = El<T>::norm(k.v());
            op("assign(n,x)", " s%d n=%zu x=%d", i, n, v.key);
            {
               T t(El<T>::make(v));
               lib([&]{ c.assign(n, t); return 0; });
            }
            m.clear();
            insn(m, 0, n, v);
         }
         else
         {
            std::vector<V> v;
            size_t n = r.below(N + 4);
            if (r.below(2))
            {
               Source<T> src;
               gen_vals<T>(k, n, v, src.vals);
               op("assign(input range)", " s%d n=%zu", i, n);
               InIt<T> f(src, 0), l(src, n);
               lib([&]{ c.assign(f, l); return 0; });
            }
            else
            {
               std::vector<T> t;
               gen_vals<T>(k, n, v, t);
               op("assign(first,last)", " s%d n=%zu", i, n);
               const T *f = t.data(), *l = f + n;
               lib([&]{ c.assign(f, l); return 0; });
            }
            m.clear();
            ins(m, 0, v);
         }
         break;
      }
      case 15:
      {
         int j = (i + 1 + r.below(2)) % NS;
         if (!s[j].c)
            construct(j);
         op("swap", " s%d s%d (sizes %zu %zu)", i, j, m.size(), s[j].m.size());
         C &oc = *s[j].c;
         lib([&]{ c.swap(oc); return 0; });
         m.swap(s[j].m);
         break;
      }
      case 16:
      {
         int j = (int)r.below(NS);
         if (!s[j].c)
            construct(j);
         const C &a = c, &b = *s[j].c;
         op("==", " s%d s%d", i, j);
         bool eq = m.size() == s[j].m.size();
         for (size_t q = 0; eq && q < m.size(); ++q)
            eq = m[q].v.key == s[j].m[q].v.key;
         bool e1 = lib([&]{ return a == b; }), e2 = lib([&]{ return a != b; });
         if (e1 != eq || e2 == eq)
            fail(SEM, "equality", "== gives %d, != gives %d, contents are %s", e1, e2, eq ? "equal" : "different");
         break;
      }
      case 17: case 18:
      {
         if (m.empty())
            return;
         size_t p = r.below(m.size());
         V v = El<T>::norm(k.v());
         op("write", " s%d [%zu]=%d", i, p, v.key);
         {
            T t(El<T>::make(v));
            switch (r.below(6))
            {
            case 0: c[p] = t; break;
            case 1: c.at(p) = t; break;
            case 2: c.begin()[p] = t; break;
            case 3: c.data()[p] = t; break;
            case 4: p = 0; c.front() = t; break;
            default: p = m.size() - 1; c.back() = t; break;
            }
         }
         m[p].v = v;
         break;
      }
      case 20: case 21:
      {
         if (m.empty())
            return;
         S->alias_ops++;
         size_t pos = r.below(m.size() + 1), q = r.below(m.size()), n = o == 20 ? 1 : r.below(N + 2);
         V v = m[q].v;
         op(o == 20 ? "insert(pos,own element)" : "insert(pos,n,own element)", " s%d pos=%zu n=%zu x=[%zu] (size %zu of %u)", i, pos, n, q, m.size(), N);
         typename C::iterator it = lib([&]{ return o == 20 ? c.insert(c.cbegin() + pos, c[q]) : c.insert(c.cbegin() + pos, n, c[q]); });
         insn(m, pos, n, v);
         ret(c, it, pos);
         break;
      }
      case 22:
      {
         if (m.empty())
            return;
         S->alias_ops++;
         size_t q = r.below(m.size());
         V v = m[q].v;
         op("push_back(own element)", " s%d x=[%zu]", i, q);
         lib([&]{ c.push_back(c[q]); return 0; });
         insn(m, m.size(), 1, v);
         break;
      }
      case 23:
      {
         if (m.empty())
            return;
         S->alias_ops++;
         size_t q = r.below(m.size()), n = r.below(N + 3);
         V v = m[q].v;
         op("resize(n,own element)", " s%d n=%zu x=[%zu]", i, n, q);
         lib([&]{ c.resize(n, c[q]); return 0; });
         if (n < m.size())
            m.resize(n);
         else
            insn(m, m.size(), n - m.size(), v);
         break;
      }
      case 24:
      {
         S->alias_ops++;
         op("operator=(self)", " s%d", i);
         const C &self = c;
         lib([&]{ c = self; return 0; });
         break;
      }
      case 25:
         S->alias_ops++;
         op("swap(self)", " s%d", i);
         lib([&]{ c.swap(c); return 0; });
         break;
      default:
         op("iterate", " s%d", i);
         walk_fwd<T, true>(r, c, m, is("iter") ? 60 : 12);
         break;
      }
      observe_all();
   }
   void run(unsigned ops)
   {
      for (unsigned q = 0; q < ops; ++q)
         step();
      for (int i = 0; i < NS; ++i)
      {
         op("~fixed_vector", " s%d", i);
         s[i].destroy();
         live_check(total());
      }
   }
};

static void the_case(Rng &r, uint64_t c)
{
   unsigned ops = r.range(8, 60);
   switch (c % 16)
   {
   case 0: Case<Tr, 1>(r).run(ops); break;
   case 1: Case<Tr, 2>(r).run(ops); break;
   case 2: case 3: Case<Tr, 5>(r).run(ops); break;
   case 4: case 5: Case<Tr, 16>(r).run(ops); break;
   case 6: Case<Tr, 9>(r).run(ops); break;
   case 7: Case<int, 7>(r).run(ops); break;
   case 8: Case<int, 1>(r).run(ops); break;
   case 9: Case<unsigned char, 33>(r).run(ops); break;
   case 10: Case<unsigned char, 300>(r).run(ops); break;
   case 11: Case<Wide, 4>(r).run(ops); break;
   case 12: Case<Fat, 6>(r).run(ops); break;
   case 13: if (c % 32 < 16) Case<short, 3>(r).run(ops); else Case<Over, 6>(r).run(ops); break;
   case 14: Case<Tr, 3>(r).run(ops); break;
   default: if (c % 64 == 15) Case<Tr, 400>(r).run(ops); else Case<Tr, 4>(r).run(ops); break;
   }
}
int main(int argc, char **argv) { return run(argc, argv, "fixed_vector", the_case); }
