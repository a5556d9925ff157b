// Monitored histories over ttl::list
#include "core_impl.hpp"
#include "seq.hpp"
#include "ttl/ttl.hpp"
using namespace mon;

template<class T>
struct Case
{
   typedef ttl::list<T> C;
   typedef Slot<C> SL;
   typedef typename C::iterator It;
   enum { NS = 3 };
   Rng &r;
   Keys k;
   SL s[NS];
   Held<C, T> held;
   Case(Rng &rr): r(rr), k(rr) {}

   size_t all() const
   {
      size_t n = 0;
      for (int i = 0; i < NS; ++i)
         n += s[i].m.size();
      return n;
   }
   size_t total() const { return El<T>::tracked ? all() : 0; }

   void observe(int i)
   {
      SL &x = s[i];
      if (!x.c)
         return;
      C &c = *x.c;
      const C &cc = c;
      Seq &m = x.m;
      obs_range<T>("forward", c.begin(), c.end(), m, true);
      if (c.size() != m.size() || cc.size() != m.size())
      {
         fail(SEM, "size", "size() is %zu, expected %zu", (size_t)c.size(), m.size());
         return;
      }
      if (c.empty() != m.empty())
         fail(SEM, "empty", "empty() is %d with %zu elements", (int)c.empty(), m.size());
      if (c.max_size() < m.size())
         fail(SEM, "max_size");
      if (m.size() < 100 || r.below(8) == 0)
      {
         obs_range<T>("const", cc.begin(), cc.end(), m, true);
         obs_range<T>("cbegin", c.cbegin(), c.cend(), m, true);
         obs_range_back<T>("backward", c.begin(), c.end(), m);
         obs_range_back<T>("const backward", cc.begin(), cc.end(), m);
      }
      if (!m.empty())
      {
         chk<T>(c.front(), m[0], 0, "front");
         chk<T>(cc.front(), m[0], 0, "const front");
         chk<T>(c.back(), m.back(), m.size() - 1, "back");
         chk<T>(cc.back(), m.back(), m.size() - 1, "const back");
         if (&c.front() != m[0].addr || &c.back() != m.back().addr || &cc.front() != m[0].addr || &cc.back() != m.back().addr)
            fail(SEM, "front-back", "front()/back() are not the first/last element");
      }
      x.raw.check();
   }
   void observe_all()
   {
      for (int i = 0; i < NS; ++i)
         observe(i);
      held.check(s, NS);
      live_check(total());
      if (H.lib_blocks != (long)all())
         fail(ALLOC, "blocks", "%ld library blocks alive for %zu elements", H.lib_blocks, all());
      uint64_t h = hstr(S->op);
      for (int i = 0; i < NS; ++i)
         h = hash_seq(h, s[i].m);
      note_state(h);
   }
   void construct(int i)
   {
      SL &x = s[i];
      x.destroy();
      void *p = x.mem_for_node();
      switch (r.below(6))
      {
      case 0: case 1:
         op("list()", " s%d", i);
         lib([&]{ x.c = new(p) C(); return 0; });
         break;
      case 2: case 3:
      {
         size_t n = r.below(9);
         V v = El<T>::norm(k.v());
         op("list(n,x)", " s%d n=%zu x=%d", i, n, v.key);
         {
            T t(El<T>::make(v));
            lib([&]{ x.c = new(p) C(n, t); return 0; });
         }
         minsn(x.m, 0, n, v);
         break;
      }
      case 4:
      {
         int j = (i + 1 + r.below(2)) % NS;
         if (!s[j].c)
         {
            op("list()", " s%d", i);
            lib([&]{ x.c = new(p) C(); return 0; });
            break;
         }
         op("list(const list&)", " s%d from s%d", i, j);
         const C &o = *s[j].c;
         lib([&]{ x.c = new(p) C(o); return 0; });
         mcopy(x.m, s[j].m);
         break;
      }
      default:
      {
         std::vector<V> v;
         size_t n = r.below(9);
         op("list(first,last)", " s%d n=%zu", i, n);
         with_range<T>(r, k, n, v, [&](auto f, auto l) { lib([&]{ x.c = new(p) C(f, l); return 0; }); });
         mins(x.m, 0, v);
      }
      }
      observe_all();
   }
   void ret(C &c, Seq &m, It it, size_t pos)
   {
      if (pos < m.size() ? (it == c.end() || it != it_at(c, pos)) : it != c.end())
         fail(SEM, "returned-iterator", "does not denote position %zu", pos);
   }
   struct PredMod
   {
      int m, v;
      uint64_t *calls;
      bool operator()(const T &t) const
      {
         OutLib o;
         ++*calls;
         V x = El<T>::read(t);
         return ((unsigned)x.key % (unsigned)m) == (unsigned)v;
      }
   };
   // what unique compares an element with the last one it kept by
   struct Same
   {
      int mode, d;
      bool operator()(const T &a, const T &kept) const
      {
         OutLib o;
         V x = El<T>::read(a), y = El<T>::read(kept);
         return keys(x.key, y.key);
      }
      bool keys(long long a, long long kept) const
      {
         switch (mode)
         {
         case 1: return a / d == kept / d;
         case 2: return a - kept <= d && kept - a <= d; // not transitive
         default: return a - kept >= 0 && a - kept <= d; // not symmetric either
         }
      }
   };
   struct Desc { bool operator()(const T &a, const T &b) const { OutLib o; return b < a; } };
   int other(int i)
   {
      int j = (i + 1 + r.below(2)) % NS;
      if (!s[j].c)
         construct(j);
      return j;
   }
   // makes slot i sorted, through element assignment
   void sort_slot(int i, bool desc)
   {
      SL &x = s[i];
      std::vector<V> v;
      for (size_t q = 0; q < x.m.size(); ++q)
         v.push_back(x.m[q].v);
      std::stable_sort(v.begin(), v.end(), [&](const V &a, const V &b) { return desc ? b.key < a.key : a.key < b.key; });
      size_t q = 0;
      for (It it = x.c->begin(); it != x.c->end() && q < v.size(); ++it, ++q)
      {
         T t(El<T>::make(v[q]));
         *it = t;
         x.m[q].v = v[q];
      }
   }
   void step()
   {
      int i = (int)r.below(NS);
      if (!s[i].c || r.below(40) == 0)
      {
         construct(i);
         if (r.below(2))
            return;
      }
      SL &x = s[i];
      C &c = *x.c;
      Seq &m = x.m;
      if (!m.empty() && r.below(4) == 0)
      {
         size_t q = r.below(m.size());
         held.hold(it_at(c, q), m[q].uid);
      }
      unsigned o = r.below(40);
      if (is("value"))
      {
         static const unsigned w[] = {17, 18, 19, 20, 21, 0, 2, 10, 12, 25, 17, 19, 20, 16};
         o = w[r.below(sizeof w / sizeof *w)];
      }
      else if (is("alias") && r.below(3))
         o = 30 + r.below(8);
      else if (is("relink") && r.below(3))
      {
         static const unsigned w[] = {20, 22, 23, 24, 26, 27, 28, 22, 23, 24, 27};
         o = w[r.below(sizeof w / sizeof *w)];
      }
      switch (o)
      {
      case 0: case 1:
      {
         V v = El<T>::norm(k.v());
         bool front = r.below(2);
         op(front ? "push_front" : "push_back", " s%d x=%d", i, v.key);
         {
            T t(El<T>::make(v));
            lib([&]{ front ? c.push_front(t) : c.push_back(t); return 0; });
         }
         minsn(m, front ? 0 : m.size(), 1, v);
         break;
      }
      case 2: case 3:
      {
         V v = El<T>::norm(k.v());
         size_t pos = r.below(m.size() + 1);
         op("insert(pos,x)", " s%d pos=%zu x=%d", i, pos, v.key);
         It it;
         {
            T t(El<T>::make(v));
            it = lib([&]{ return c.insert(cit_at(c, pos), t); });
         }
         minsn(m, pos, 1, v);
         ret(c, m, it, pos);
         break;
      }
      case 4:
      {
         V v = El<T>::norm(k.v());
         size_t pos = r.below(m.size() + 1), n = r.below(6);
         op("insert(pos,n,x)", " s%d pos=%zu n=%zu x=%d", i, pos, n, v.key);
         {
            T t(El<T>::make(v));
            lib([&]{ c.insert(cit_at(c, pos), n, t); return 0; });
         }
         minsn(m, pos, n, v);
         break;
      }
      case 5:
      {
         std::vector<V> v;
         size_t n = r.below(6), pos = r.below(m.size() + 1);
         op("insert(pos,first,last)", " s%d pos=%zu n=%zu", i, pos, n);
         with_range<T>(r, k, n, v, [&](auto f, auto l) { lib([&]{ c.insert(cit_at(c, pos), f, l); return 0; }); });
         mins(m, pos, v);
         break;
      }
      case 6: case 7:
      {
         if (m.empty())
            return;
         bool front = r.below(2);
         op(front ? "pop_front" : "pop_back", " s%d (size %zu)", i, m.size());
         lib([&]{ front ? c.pop_front() : c.pop_back(); return 0; });
         m.erase(front ? m.begin() : m.end() - 1);
         break;
      }
      case 8: case 9:
      {
         if (m.empty())
            return;
         size_t pos = r.below(m.size());
         op("erase(pos)", " s%d pos=%zu (size %zu)", i, pos, m.size());
         It it = lib([&]{ return c.erase(cit_at(c, pos)); });
         m.erase(m.begin() + pos);
         ret(c, m, it, pos);
         break;
      }
      case 10: case 11:
      {
         size_t a = r.below(m.size() + 1), b = a + r.below(m.size() - a + 1);
         if (r.below(6) == 0)
            a = 0, b = m.size();
         if (r.below(5) == 0)
            b = a;
         op("erase(first,last)", " s%d [%zu,%zu) of %zu", i, a, b, m.size());
         It it = lib([&]{ return c.erase(cit_at(c, a), cit_at(c, b)); });
         size_t left = c.size();
         if (b > a && left == m.size() - (b - a) + 1)
         {
            // the recognised deviation: the last element of the range stays
            finding("keeps-last-of-range", "erase of [%zu,%zu) left the last element of the range in place", a, b);
            m.erase(m.begin() + a, m.begin() + b - 1);
            ret(c, m, it, a + 1);
         }
         else
         {
            m.erase(m.begin() + a, m.begin() + b);
            ret(c, m, it, a);
         }
         break;
      }
      case 12:
      {
         size_t n = r.below(12);
         if (r.below(5) == 0)
            n = m.size() + r.range(-1, 1);
         if (n > 100)
            n = 0;
         op("resize(n)", " s%d n=%zu (size %zu)", i, n, m.size());
         lib([&]{ c.resize(n); return 0; });
         if (n <= m.size())
            m.resize(n);
         else
            minsn(m, m.size(), n - m.size(), El<T>::dflt());
         break;
      }
      case 13:
      {
         size_t n = r.below(12);
         if (r.below(5) == 0)
            n = m.size() + r.range(-1, 1);
         if (n > 100)
            n = 0;
         V v = El<T>::norm(k.v());
         op("resize(n,x)", " s%d n=%zu x=%d (size %zu)", i, n, v.key, m.size());
         {
            T t(El<T>::make(v));
            lib([&]{ c.resize(n, t); return 0; });
         }
         if (n <= m.size())
            m.resize(n);
         else
            minsn(m, m.size(), n - m.size(), v);
         break;
      }
      case 14:
      {
         if (m.empty())
            return;
         V v = r.below(3) ? m[r.below(m.size())].v : El<T>::norm(k.v());
         op("remove", " s%d x=%d", i, v.key);
         {
            T t(El<T>::make(v));
            lib([&]{ c.remove(t); return 0; });
         }
         m.erase(std::remove_if(m.begin(), m.end(), [&](const E &e) { return e.v.key == v.key; }), m.end());
         break;
      }
      case 15:
      {
         uint64_t calls = 0;
         PredMod p = {r.range(1, 4), 0, &calls};
         p.v = r.below(p.m);
         op("remove_if", " s%d key%%%d==%d", i, p.m, p.v);
         lib([&]{ c.remove_if(p); return 0; });
         if (calls != m.size())
            fail(SEM, "predicate-calls", "%llu predicate calls for %zu elements", (unsigned long long)calls, m.size());
         m.erase(std::remove_if(m.begin(), m.end(), [&](const E &e) { return ((unsigned)e.v.key % (unsigned)p.m) == (unsigned)p.v; }), m.end());
         break;
      }
      case 16:
         op("clear", " s%d", i);
         lib([&]{ c.clear(); return 0; });
         m.clear();
         break;
      case 17: case 18:
      {
         int j = other(i);
         const C &oc = *s[j].c;
         op("operator=", " s%d = s%d", i, j);
         C *rr = 0;
         lib([&]{ rr = &(c = oc); return 0; });
         if (rr != &c)
            fail(SEM, "returned-reference");
         mcopy(m, s[j].m);
         break;
      }
      case 19:
      {
         if (r.below(3) == 0)
         {
            size_t n = r.below(8);
            V v = El<T>::norm(k.v());
            op("assign(n,x)", " s%d n=%zu x=%d", i, n, v.key);
            {
               T t(El<T>::make(v));
               lib([&]{ c.assign(n, t); return 0; });
            }
            m.clear();
            minsn(m, 0, n, v);
         }
         else
         {
            std::vector<V> v;
            size_t n = r.below(8);
            op("assign(first,last)", " s%d n=%zu", i, n);
            with_range<T>(r, k, n, v, [&](auto f, auto l) { lib([&]{ c.assign(f, l); return 0; }); });
            m.clear();
            mins(m, 0, v);
         }
         break;
      }
      case 20:
      {
         int j = other(i);
         op("swap", " s%d s%d (sizes %zu %zu)", i, j, m.size(), s[j].m.size());
         C &oc = *s[j].c;
         Relink q;
         lib([&]{ c.swap(oc); return 0; });
         q.done("swap");
         m.swap(s[j].m);
         break;
      }
      case 21:
      {
         int j = (int)r.below(NS);
         if (!s[j].c)
            construct(j);
         const C &a = c, &b = *s[j].c;
         op("==", " s%d s%d", i, j);
         bool eq = key_eq(m, s[j].m);
         bool e1 = lib([&]{ return a == b; }), e2 = lib([&]{ return a != b; });
         if (e1 != eq || e2 == eq)
            fail(SEM, "equality", "== gives %d, != gives %d, contents are %s", e1, e2, eq ? "equal" : "different");
         break;
      }
      case 22:
      {
         int j = other(i);
         size_t pos = r.below(m.size() + 1);
         Seq &om = s[j].m;
         op("splice(pos,other)", " s%d pos=%zu of %zu, s%d (%zu)", i, pos, m.size(), j, om.size());
         C &oc = *s[j].c;
         Relink q;
         lib([&]{ c.splice(cit_at(c, pos), oc); return 0; });
         q.done("splice");
         m.insert(m.begin() + pos, om.begin(), om.end());
         om.clear();
         break;
      }
      case 23:
      {
         int j = r.below(2) ? i : other(i);
         Seq &om = s[j].m;
         C &oc = *s[j].c;
         if (om.empty())
            return;
         size_t pos = r.below(m.size() + 1), w = r.below(om.size());
         op(i == j ? "splice(pos,self,it)" : "splice(pos,other,it)", " s%d pos=%zu of %zu, s%d it=%zu", i, pos, m.size(), j, w);
         Relink q;
         lib([&]{ c.splice(cit_at(c, pos), oc, cit_at(oc, w)); return 0; });
         q.done("splice");
         E e = om[w];
         if (i == j)
         {
            if (pos != w)
            {
               m.erase(m.begin() + w);
               m.insert(m.begin() + (pos > w ? pos - 1 : pos), e);
            }
         }
         else
         {
            om.erase(om.begin() + w);
            m.insert(m.begin() + pos, e);
         }
         break;
      }
      case 24: case 25:
      {
         int j = r.below(2) ? i : other(i);
         Seq &om = s[j].m;
         C &oc = *s[j].c;
         size_t a = r.below(om.size() + 1), b = a + r.below(om.size() - a + 1);
         if (r.below(6) == 0)
            b = a;
         size_t pos = r.below(m.size() + 1);
         if (i == j && pos >= a && pos < b)
            pos = r.below(2) ? b : r.below(a + 1);
         if (i == j && pos >= a && pos < b)
            return;
         op(i == j ? "splice(pos,self,first,last)" : "splice(pos,other,first,last)", " s%d pos=%zu of %zu, s%d [%zu,%zu) of %zu", i, pos, m.size(), j, a, b, om.size());
         Relink q;
         lib([&]{ c.splice(cit_at(c, pos), oc, cit_at(oc, a), cit_at(oc, b)); return 0; });
         q.done("splice");
         Seq mv(om.begin() + a, om.begin() + b);
         om.erase(om.begin() + a, om.begin() + b);
         if (i == j && pos >= b)
            pos -= b - a;
         m.insert(m.begin() + pos, mv.begin(), mv.end());
         break;
      }
      case 26:
      {
         op("reverse", " s%d (size %zu)", i, m.size());
         Relink q;
         lib([&]{ c.reverse(); return 0; });
         q.done("reverse");
         std::reverse(m.begin(), m.end());
         break;
      }
      case 27: case 28:
      {
         int j = other(i);
         bool desc = r.below(3) == 0;
         sort_slot(i, desc);
         sort_slot(j, desc);
         op(desc ? "merge(other,comp)" : "merge(other)", " s%d (%zu) s%d (%zu)", i, m.size(), j, s[j].m.size());
         C &oc = *s[j].c;
         Relink q;
         lib([&]{ desc ? c.merge(oc, Desc()) : c.merge(oc); return 0; });
         q.done("merge");
         Seq out;
         std::merge(m.begin(), m.end(), s[j].m.begin(), s[j].m.end(), std::back_inserter(out), desc ? by_key_desc : by_key);
         m.swap(out);
         s[j].m.clear();
         break;
      }
      case 29: case 38:
      {
         bool pred = r.below(2);
         Same e = {r.range(1, 3), r.range(1, 5)};
         if (r.below(2))
            sort_slot(i, false);
         op(pred ? "unique(pred)" : "unique", " s%d (size %zu) mode %d d=%d", i, m.size(), e.mode, e.d);
         lib([&]{ pred ? c.unique(e) : c.unique(); return 0; });
         m.erase(std::unique(m.begin(), m.end(), [&](const E &kept, const E &a) { return pred ? e.keys(a.v.key, kept.v.key) : a.v.key == kept.v.key; }), m.end());
         break;
      }
      case 30:
      {
         if (m.empty())
            return;
         S->alias_ops++;
         size_t q = r.below(m.size());
         V v = m[q].v;
         bool front = r.below(2);
         op(front ? "push_front(own element)" : "push_back(own element)", " s%d x=[%zu]", i, q);
         lib([&]{ front ? c.push_front(*it_at(c, q)) : c.push_back(*it_at(c, q)); return 0; });
         minsn(m, front ? 0 : m.size(), 1, v);
         break;
      }
      case 31: case 32:
      {
         if (m.empty())
            return;
         S->alias_ops++;
         size_t pos = r.below(m.size() + 1), q = r.below(m.size()), n = o == 31 ? 1 : r.below(4);
         V v = m[q].v;
         op(o == 31 ? "insert(pos,own element)" : "insert(pos,n,own element)", " s%d pos=%zu n=%zu x=[%zu]", i, pos, n, q);
         lib([&]{ if (o == 31) c.insert(cit_at(c, pos), *it_at(c, q)); else c.insert(cit_at(c, pos), n, *it_at(c, q)); return 0; });
         minsn(m, pos, n, v);
         break;
      }
      case 33:
      {
         if (m.empty())
            return;
         S->alias_ops++;
         size_t q = r.below(m.size());
         V v = m[q].v;
         op("remove(own element)", " s%d x=[%zu] %d", i, q, v.key);
         lib([&]{ c.remove(*it_at(c, q)); return 0; });
         m.erase(std::remove_if(m.begin(), m.end(), [&](const E &e) { return e.v.key == v.key; }), m.end());
         break;
      }
      case 34:
      {
         S->alias_ops++;
         op("operator=(self)", " s%d", i);
         const C &self = c;
         lib([&]{ c = self; return 0; });
         mcopy(m, m);
         break;
      }
      case 35:
      {
         S->alias_ops++;
         op("swap(self)", " s%d", i);
         Relink q;
         lib([&]{ c.swap(c); return 0; });
         q.done("swap");
         break;
      }
      case 36:
      {
         if (m.empty())
            return;
         S->alias_ops++;
         size_t q = r.below(m.size()), n = r.below(10);
         V v = m[q].v;
         op("resize(n,own element)", " s%d n=%zu x=[%zu]", i, n, q);
         lib([&]{ c.resize(n, *it_at(c, q)); return 0; });
         if (n <= m.size())
            m.resize(n);
         else
            minsn(m, m.size(), n - m.size(), v);
         break;
      }
      case 37:
      {
         S->alias_ops++;
         sort_slot(i, false);
         op("merge(self)", " s%d", i);
         Relink q;
         lib([&]{ c.merge(c); return 0; });
         q.done("merge");
         break;
      }
      default:
      {
         if (!m.empty() && r.below(2))
         {
            size_t p = r.below(m.size());
            V v = El<T>::norm(k.v());
            op("write", " s%d [%zu]=%d", i, p, v.key);
            {
               T t(El<T>::make(v));
               switch (r.below(4))
               {
               case 0: p = 0; c.front() = t; break;
               case 1: p = m.size() - 1; c.back() = t; break;
               default: *it_at(c, p) = t; break;
               }
            }
            m[p].v = v;
            break;
         }
         op("iterate", " s%d", i);
         walk_fwd<T, true>(r, c, m, is("iter") ? 60 : 12);
         break;
      }
      }
      observe_all();
   }
   void end()
   {
      held.h.clear();
      for (int i = 0; i < NS; ++i)
      {
         op("~list", " s%d", i);
         s[i].destroy();
         live_check(total());
         if (H.lib_blocks != (long)all())
            fail(ALLOC, "blocks", "%ld library blocks alive for %zu elements", H.lib_blocks, all());
      }
   }
   void run(unsigned ops)
   {
      for (unsigned q = 0; q < ops; ++q)
         step();
      if (is("iter"))
         for (int i = 0; i < NS; ++i)
            if (s[i].c)
            {
               op("iterate");
               walk_fwd<T, true>(r, *s[i].c, s[i].m, 80);
            }
      end();
   }
   void large(unsigned n)
   {
      S->large_cases++;
      for (int i = 0; i < 2; ++i)
      {
         construct(i);
         op("push_back*", " s%d n=%u", i, n);
         for (unsigned q = 0; q < n; ++q)
         {
            V v = El<T>::norm(k.v());
            T t(El<T>::make(v));
            bool f = r.below(2);
            lib([&]{ f ? s[i].c->push_front(t) : s[i].c->push_back(t); return 0; });
            s[i].m.push_back(E(v));
            if (f)
               std::rotate(s[i].m.begin(), s[i].m.end() - 1, s[i].m.end());
         }
      }
      observe_all();
      for (int q = 0; q < 10; ++q)
         step();
      end();
   }
};

static void the_case(Rng &r, uint64_t c)
{
   unsigned ops = r.range(8, 60);
   if (c % 97 == 50)
   {
      unsigned n = r.range(250, 1500);
      if (c & 1)
         Case<int>(r).large(n);
      else
         Case<Tr>(r).large(n);
      return;
   }
   switch (c % 8)
   {
   case 0: case 1: case 2: case 3: Case<Tr>(r).run(ops); break;
   case 4: Case<int>(r).run(ops); break;
   case 5: Case<unsigned char>(r).run(ops); break;
   case 6: Case<Wide>(r).run(ops); break;
   default: Case<Fat>(r).run(ops); break;
   }
}
int main(int argc, char **argv) { return run(argc, argv, "list", the_case); }
