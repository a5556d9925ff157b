// Monitored histories over the singly linked containers: forward_list,
// backward_list (tail pointer) and lazy_queue (tail pointer, node pool).
#include "core_impl.hpp"
#include "seq.hpp"
#include "ttl/ttl.hpp"
using namespace mon;

enum Which { FWD, BWD, LAZY };
template<Which W, class T> struct Pick;
template<class T> struct Pick<FWD, T> { typedef ttl::forward_list<T> C; };
template<class T> struct Pick<BWD, T> { typedef ttl::backward_list<T> C; };
template<class T> struct Pick<LAZY, T> { typedef ttl::lazy_queue<T> C; };

template<Which W, class T>
struct Case
{
   typedef typename Pick<W, T>::C C;
   typedef Slot<C> SL;
   typedef typename C::iterator It;
   typedef typename C::const_iterator CIt;
   enum { NS = 3, TAIL = W != FWD };
   Rng &r;
   Keys k;
   SL s[NS];
   Held<C, T> held;
   // lazy_queue: nodes waiting for reuse. Whether swap() exchanges them is up to
   // the implementation: both possibilities are followed until one is refuted.
   size_t dead[2][NS];
   bool hyp[2];
   Case(Rng &rr): r(rr), k(rr)
   {
      memset(dead, 0, sizeof dead);
      hyp[0] = hyp[1] = true;
   }
   size_t all() const
   {
      size_t n = 0;
      for (int i = 0; i < NS; ++i)
         n += s[i].m.size();
      return n;
   }
   size_t total() const { return El<T>::tracked ? all() : 0; }
   // pool bookkeeping
   void took(int i, size_t n)
   {
      for (int h = 0; h < 2; ++h)
         dead[h][i] -= dead[h][i] < n ? dead[h][i] : n;
   }
   void gave(int i, size_t n)
   {
      if (W == LAZY)
         for (int h = 0; h < 2; ++h)
            dead[h][i] += n;
   }
   void check_blocks()
   {
      if (W != LAZY)
      {
         if (H.lib_blocks != (long)all())
            fail(ALLOC, "blocks", "%ld library blocks alive for %zu elements", H.lib_blocks, all());
         return;
      }
      size_t want[2];
      for (int h = 0; h < 2; ++h)
      {
         want[h] = all();
         for (int i = 0; i < NS; ++i)
            want[h] += dead[h][i];
         if (H.lib_blocks != (long)want[h])
            hyp[h] = false;
      }
      if (!hyp[0] && !hyp[1])
      {
         fail(ALLOC, "blocks", "%ld library blocks alive for %zu elements and %zu nodes kept for reuse", H.lib_blocks, all(), want[0] - all());
         hyp[0] = hyp[1] = true;
      }
   }
   void observe(int i)
   {
      SL &x = s[i];
      if (!x.c)
         return;
      C &c = *x.c;
      const C &cc = c;
      Seq &m = x.m;
      obs_range<T>("forward", c.begin(), c.end(), m, true);
      if (c.empty() != m.empty() || cc.empty() != m.empty())
         fail(SEM, "empty", "empty() is %d with %zu elements", (int)c.empty(), m.size());
      if (c.max_size() < m.size())
         fail(SEM, "max_size");
      if (m.size() < 100 || r.below(8) == 0)
      {
         obs_range<T>("const", cc.begin(), cc.end(), m, true);
         obs_range<T>("cbegin", c.cbegin(), c.cend(), m, true);
         It b = c.before_begin();
         CIt cb = c.cbefore_begin(), cb2 = cc.before_begin();
         if (!(b == cb) || cb != cb2 || b == c.begin() || cb == c.cbegin())
            fail(SEM, "before_begin", "before_begin() compares wrongly");
         obs_range<T>("after before_begin", ++b, c.end(), m, true);
         obs_range<T>("after cbefore_begin", ++cb, c.cend(), m, true);
      }
      if (!m.empty())
      {
         chk<T>(c.front(), m[0], 0, "front");
         chk<T>(cc.front(), m[0], 0, "const front");
         if (&c.front() != m[0].addr)
            fail(SEM, "front-back", "front() is not the first element");
      }
      if constexpr (TAIL)
      {
         It e = c.before_end();
         CIt ce = c.cbefore_end(), ce2 = cc.before_end();
         if (!(e == ce) || ce != ce2)
            fail(SEM, "before_end", "before_end() and cbefore_end() differ");
         if (m.empty())
         {
            if (e != c.before_begin())
               fail(SEM, "before_end", "before_end() of an empty list is not before_begin()");
         }
         else
         {
            if (e == c.before_begin() || &*e != m.back().addr)
               fail(SEM, "before_end", "before_end() is not the last element");
            chk<T>(c.back(), m.back(), m.size() - 1, "back");
            chk<T>(cc.back(), m.back(), m.size() - 1, "const back");
            if (&c.back() != m.back().addr)
               fail(SEM, "front-back", "back() is not the last element");
            if (++e != c.end())
               fail(SEM, "before_end", "before_end() does not lead to end()");
         }
      }
      x.raw.check();
   }
   void observe_all()
   {
      for (int i = 0; i < NS; ++i)
         observe(i);
      held.check(s, NS);
      live_check(total());
      check_blocks();
      uint64_t h = hstr(S->op);
      for (int i = 0; i < NS; ++i)
         h = hash_seq(mix(h, W == LAZY ? dead[0][i] : 0), s[i].m);
      note_state(h);
   }
   void destroy(int i)
   {
      s[i].destroy();
      dead[0][i] = dead[1][i] = 0;
   }
   const char *nm(const char *s)
   {
      static char b[4][64];
      static int q;
      char *o = b[q++ & 3];
      snprintf(o, 64, s, W == FWD ? "forward_list" : W == BWD ? "backward_list" : "lazy_queue");
      return o;
   }
   void construct(int i)
   {
      SL &x = s[i];
      destroy(i);
      void *p = x.mem_for_node();
      unsigned o = r.below(6);
      int j = (i + 1 + r.below(2)) % NS;
      if (o == 4 && !s[j].c)
         o = 0;
      if (o == 5 && W == LAZY)
         o = 2;
      switch (o)
      {
      case 0: case 1:
         op(nm("%s()"), " s%d", i);
         lib([&]{ x.c = new(p) C(); return 0; });
         break;
      case 2: case 3:
      {
         size_t n = r.below(9);
         V v = El<T>::norm(k.v());
         op(nm("%s(n,x)"), " s%d n=%zu x=%d", i, n, v.key);
         {
            T t(El<T>::make(v));
            lib([&]{ x.c = new(p) C(n, t); return 0; });
         }
         minsn(x.m, 0, n, v);
         break;
      }
      case 4:
      {
         op(nm("%s(copy)"), " s%d from s%d", i, j);
         const C &o = *s[j].c;
         lib([&]{ x.c = new(p) C(o); return 0; });
         mcopy(x.m, s[j].m);
         break;
      }
      default:
         if constexpr (W != LAZY)
         {
            std::vector<V> v;
            size_t n = r.below(9);
            op(nm("%s(first,last)"), " s%d n=%zu", i, n);
            with_range<T>(r, k, n, v, [&](auto f, auto l) { lib([&]{ x.c = new(p) C(f, l); return 0; }); });
            mins(x.m, 0, v);
         }
      }
      observe_all();
   }
   // position q in [0,n]: 0 is before_begin, n the last element
   CIt after(C &c, size_t q)
   {
      if constexpr (TAIL)
         if (q == (size_t)-1)
            return c.cbefore_end();
      CIt it = c.cbefore_begin();
      while (q--)
         ++it;
      return it;
   }
   CIt any_after(C &c, Seq &m, size_t q)
   {
      if (TAIL && q == m.size() && r.below(2))
         return after(c, (size_t)-1);
      return after(c, q);
   }
   void ret(C &c, Seq &m, It it, size_t pos)
   {
      if (pos < m.size() ? (it == c.end() || it != it_at(c, pos)) : it != c.end())
         fail(SEM, "returned-iterator", "does not denote position %zu", pos);
   }
   int other(int i)
   {
      int j = (i + 1 + r.below(2)) % NS;
      if (!s[j].c)
         construct(j);
      return j;
   }
   void step()
   {
      int i = (int)r.below(NS);
      if (!s[i].c || r.below(40) == 0)
      {
         construct(i);
         if (r.below(2))
            return;
      }
      SL &x = s[i];
      C &c = *x.c;
      Seq &m = x.m;
      if (!m.empty() && r.below(4) == 0)
      {
         size_t q = r.below(m.size());
         held.hold(it_at(c, q), m[q].uid);
      }
      unsigned o = r.below(36);
      if (is("value"))
      {
         static const unsigned w[] = {10, 11, 12, 13, 14, 0, 2, 6, 10, 11, 13, 9};
         o = w[r.below(sizeof w / sizeof *w)];
      }
      else if (is("alias") && r.below(3))
         o = 26 + r.below(6);
      else if (is("relink") && r.below(3))
      {
         static const unsigned w[] = {13, 15, 16, 17, 18, 19, 20, 21, 15, 16, 17};
         o = w[r.below(sizeof w / sizeof *w)];
      }
      switch (o)
      {
      case 0: case 1: case 22:
      {
         V v = El<T>::norm(k.v());
         bool front = !TAIL || r.below(3) == 0;
         op(front ? "push_front" : "push_back", " s%d x=%d (size %zu)", i, v.key, m.size());
         {
            T t(El<T>::make(v));
            if (front)
               lib([&]{ c.push_front(t); return 0; });
            else if constexpr (TAIL)
               lib([&]{ c.push_back(t); return 0; });
         }
         minsn(m, front ? 0 : m.size(), 1, v);
         took(i, 1);
         break;
      }
      case 2: case 3:
      {
         V v = El<T>::norm(k.v());
         size_t pos = r.below(3) ? r.below(m.size() + 1) : m.size();
         op("insert_after(pos,x)", " s%d pos=%zu of %zu x=%d", i, pos, m.size(), v.key);
         It it;
         {
            T t(El<T>::make(v));
            CIt p = any_after(c, m, pos);
            it = lib([&]{ return c.insert_after(p, t); });
         }
         minsn(m, pos, 1, v);
         took(i, 1);
         ret(c, m, it, pos);
         break;
      }
      case 4:
      {
         V v = El<T>::norm(k.v());
         size_t pos = r.below(2) ? r.below(m.size() + 1) : m.size(), n = r.below(6);
         op("insert_after(pos,n,x)", " s%d pos=%zu of %zu n=%zu x=%d", i, pos, m.size(), n, v.key);
         {
            T t(El<T>::make(v));
            CIt p = any_after(c, m, pos);
            lib([&]{ c.insert_after(p, n, t); return 0; });
         }
         minsn(m, pos, n, v);
         took(i, n);
         break;
      }
      case 5: case 23:
      {
         std::vector<V> v;
         size_t n = r.below(6), pos = r.below(2) ? r.below(m.size() + 1) : m.size();
         CIt p = any_after(c, m, pos);
         op("insert_after(pos,first,last)", " s%d pos=%zu of %zu n=%zu", i, pos, m.size(), n);
         with_range<T>(r, k, n, v, [&](auto f, auto l) { lib([&]{ c.insert_after(p, f, l); return 0; }); });
         mins(m, pos, v);
         took(i, n);
         break;
      }
      case 6: case 24:
         if (m.empty())
            return;
         op("pop_front", " s%d (size %zu)", i, m.size());
         lib([&]{ c.pop_front(); return 0; });
         m.erase(m.begin());
         gave(i, 1);
         break;
      case 7: case 25:
      {
         if (m.empty())
            return;
         size_t pos = r.below(3) ? r.below(m.size()) : m.size() - 1;
         op("erase_after(pos)", " s%d pos=%zu of %zu", i, pos, m.size());
         CIt p = after(c, pos);
         It it = lib([&]{ return c.erase_after(p); });
         m.erase(m.begin() + pos);
         gave(i, 1);
         ret(c, m, it, pos);
         break;
      }
      case 8: case 32:
      {
         size_t a = r.below(m.size() + 1), b = a + r.below(m.size() - a + 1);
         if (r.below(5) == 0)
            a = 0;
         if (r.below(3) == 0)
            b = m.size();
         // erases [a,b): pos is element a-1, last is element b
         op("erase_after(pos,last)", " s%d (%zu,%zu) of %zu", i, a, b, m.size());
         CIt p = after(c, a), l = b == m.size() ? c.cend() : cit_at(c, b);
         It it = lib([&]{ return c.erase_after(p, l); });
         m.erase(m.begin() + a, m.begin() + b);
         gave(i, b - a);
         ret(c, m, it, a);
         break;
      }
      case 9:
         op("clear", " s%d (size %zu)", i, m.size());
         lib([&]{ c.clear(); return 0; });
         gave(i, m.size());
         m.clear();
         break;
      case 10: case 11:
      {
         int j = other(i);
         const C &oc = *s[j].c;
         op("operator=", " s%d (%zu) = s%d (%zu)", i, m.size(), j, s[j].m.size());
         C *rr = 0;
         lib([&]{ rr = &(c = oc); return 0; });
         if (rr != &c)
            fail(SEM, "returned-reference");
         gave(i, m.size());
         took(i, s[j].m.size());
         mcopy(m, s[j].m);
         break;
      }
      case 12:
         if constexpr (W != LAZY)
         {
            if (r.below(3) == 0)
            {
               size_t n = r.below(8);
               V v = El<T>::norm(k.v());
               op("assign(n,x)", " s%d n=%zu x=%d", i, n, v.key);
               {
                  T t(El<T>::make(v));
                  lib([&]{ c.assign(n, t); return 0; });
               }
               m.clear();
               minsn(m, 0, n, v);
            }
            else
            {
               std::vector<V> v;
               size_t n = r.below(8);
               op("assign(first,last)", " s%d n=%zu", i, n);
               with_range<T>(r, k, n, v, [&](auto f, auto l) { lib([&]{ c.assign(f, l); return 0; }); });
               m.clear();
               mins(m, 0, v);
            }
            break;
         }
         else
            return;
      case 13: case 33:
      {
         int j = other(i);
         op("swap", " s%d s%d (sizes %zu %zu)", i, j, m.size(), s[j].m.size());
         C &oc = *s[j].c;
         Relink q;
         lib([&]{ c.swap(oc); return 0; });
         q.done("swap");
         m.swap(s[j].m);
         std::swap(dead[1][i], dead[1][j]);
         break;
      }
      case 14:
         if constexpr (W != LAZY)
         {
            int j = (int)r.below(NS);
            if (!s[j].c)
               construct(j);
            const C &a = c, &b = *s[j].c;
            op("==", " s%d s%d", i, j);
            bool eq = key_eq(m, s[j].m);
            bool e1 = lib([&]{ return a == b; }), e2 = lib([&]{ return a != b; });
            if (e1 != eq || e2 == eq)
               fail(SEM, "equality", "== gives %d, != gives %d, contents are %s", e1, e2, eq ? "equal" : "different");
            break;
         }
         else
            return;
      case 15:
         if constexpr (W == FWD)
         {
            int j = other(i);
            size_t pos = r.below(m.size() + 1);
            Seq &om = s[j].m;
            op("splice_after(pos,other)", " s%d pos=%zu of %zu, s%d (%zu)", i, pos, m.size(), j, om.size());
            C &oc = *s[j].c;
            CIt p = after(c, pos);
            Relink q;
            lib([&]{ c.splice_after(p, oc); return 0; });
            q.done("splice_after");
            m.insert(m.begin() + pos, om.begin(), om.end());
            om.clear();
            break;
         }
         else
            goto relink2;
      case 16:
         if constexpr (W == FWD)
         {
            int j = r.below(2) ? i : other(i);
            Seq &om = s[j].m;
            C &oc = *s[j].c;
            if (om.empty())
               return;
            // moves element w of om (it denotes the one before it) behind element pos-1
            size_t pos = r.below(m.size() + 1), w = r.below(om.size());
            op(i == j ? "splice_after(pos,self,it)" : "splice_after(pos,other,it)", " s%d pos=%zu of %zu, s%d it=%zu", i, pos, m.size(), j, w);
            CIt p = after(c, pos), it = after(oc, w);
            Relink q;
            lib([&]{ c.splice_after(p, oc, it); return 0; });
            q.done("splice_after");
            E e = om[w];
            if (i == j)
            {
               if (pos != w && pos != w + 1)
               {
                  m.erase(m.begin() + w);
                  m.insert(m.begin() + (pos > w ? pos - 1 : pos), e);
               }
            }
            else
            {
               om.erase(om.begin() + w);
               m.insert(m.begin() + pos, e);
            }
            break;
         }
         else
            goto relink2;
      case 17: case 18:
         if constexpr (W == FWD)
         {
            int j = r.below(2) ? i : other(i);
            Seq &om = s[j].m;
            C &oc = *s[j].c;
            size_t a = r.below(om.size() + 1), b = a + r.below(om.size() - a + 1);
            if (r.below(6) == 0)
               b = a;
            // moves [a,b): first denotes element a-1, last element b
            size_t pos = r.below(m.size() + 1);
            if (i == j && pos > a && pos <= b)
               pos = a;
            op(i == j ? "splice_after(pos,self,first,last)" : "splice_after(pos,other,first,last)", " s%d pos=%zu of %zu, s%d (%zu,%zu) of %zu", i, pos, m.size(), j, a, b, om.size());
            CIt p = after(c, pos), f = after(oc, a), l = b == om.size() ? oc.cend() : cit_at(oc, b);
            Relink q;
            lib([&]{ c.splice_after(p, oc, f, l); return 0; });
            q.done("splice_after");
            Seq mv(om.begin() + a, om.begin() + b);
            om.erase(om.begin() + a, om.begin() + b);
            if (i == j && pos >= b)
               pos -= b - a;
            m.insert(m.begin() + pos, mv.begin(), mv.end());
            break;
         }
         else
            goto relink2;
      case 19: case 20: case 21:
      relink2: __attribute__((unused));
         if constexpr (W == LAZY)
         {
            if (o & 1)
            {
               op("roll_head", " s%d (size %zu)", i, m.size());
               Relink q;
               lib([&]{ c.roll_head(); return 0; });
               q.done("roll_head");
               if (m.size() > 1)
                  std::rotate(m.begin(), m.begin() + 1, m.end());
            }
            else
            {
               op("cleanup", " s%d (size %zu, pool %zu)", i, m.size(), dead[0][i]);
               lib([&]{ c.cleanup(); return 0; });
               dead[0][i] = dead[1][i] = 0;
            }
            break;
         }
         else
         {
            op("reverse", " s%d (size %zu)", i, m.size());
            Relink q;
            lib([&]{ c.reverse(); return 0; });
            q.done("reverse");
            std::reverse(m.begin(), m.end());
            break;
         }
      case 26: case 27:
      {
         if (m.empty())
            return;
         S->alias_ops++;
         size_t q = r.below(m.size());
         V v = m[q].v;
         bool front = !TAIL || r.below(2);
         op(front ? "push_front(own element)" : "push_back(own element)", " s%d x=[%zu]", i, q);
         if (front)
            lib([&]{ c.push_front(*it_at(c, q)); return 0; });
         else if constexpr (TAIL)
            lib([&]{ c.push_back(*it_at(c, q)); return 0; });
         minsn(m, front ? 0 : m.size(), 1, v);
         took(i, 1);
         break;
      }
      case 28: case 29:
      {
         if (m.empty())
            return;
         S->alias_ops++;
         size_t pos = r.below(m.size() + 1), q = r.below(m.size()), n = o == 28 ? 1 : r.below(4);
         V v = m[q].v;
         op(o == 28 ? "insert_after(pos,own element)" : "insert_after(pos,n,own element)", " s%d pos=%zu n=%zu x=[%zu]", i, pos, n, q);
         CIt p = any_after(c, m, pos);
         lib([&]{ if (o == 28) c.insert_after(p, *it_at(c, q)); else c.insert_after(p, n, *it_at(c, q)); return 0; });
         minsn(m, pos, n, v);
         took(i, n);
         break;
      }
      case 30:
      {
         S->alias_ops++;
         op("operator=(self)", " s%d (size %zu)", i, m.size());
         const C &self = c;
         long nb = H.lib_blocks;
         lib([&]{ c = self; return 0; });
         mcopy(m, m);
         (void)nb;
         break;
      }
      case 31:
      {
         S->alias_ops++;
         op("swap(self)", " s%d", i);
         Relink q;
         lib([&]{ c.swap(c); return 0; });
         q.done("swap");
         break;
      }
      default:
         if (!m.empty() && r.below(2))
         {
            size_t p = r.below(m.size());
            V v = El<T>::norm(k.v());
            op("write", " s%d [%zu]=%d", i, p, v.key);
            {
               T t(El<T>::make(v));
               switch (r.below(4))
               {
               case 0: p = 0; c.front() = t; break;
               case 1:
                  if constexpr (TAIL)
                  {
                     p = m.size() - 1;
                     c.back() = t;
                     break;
                  }
                  // fall through
               default: *it_at(c, p) = t; break;
               }
            }
            m[p].v = v;
            break;
         }
         op("iterate", " s%d", i);
         walk_fwd<T, false>(r, c, m, is("iter") ? 60 : 12);
         break;
      }
      observe_all();
   }
   void end()
   {
      held.h.clear();
      for (int i = 0; i < NS; ++i)
      {
         op(nm("~%s"), " s%d", i);
         destroy(i);
         live_check(total());
         if (W != LAZY)
            check_blocks();
      }
   }
   void run(unsigned ops)
   {
      for (unsigned q = 0; q < ops; ++q)
         step();
      if (is("iter"))
         for (int i = 0; i < NS; ++i)
            if (s[i].c)
            {
               op("iterate");
               walk_fwd<T, false>(r, *s[i].c, s[i].m, 80);
            }
      end();
   }
   void large(unsigned n)
   {
      S->large_cases++;
      for (int i = 0; i < 2; ++i)
      {
         construct(i);
         op("push*", " s%d n=%u", i, n);
         Seq &m = s[i].m;
         for (unsigned q = 0; q < n; ++q)
         {
            V v = El<T>::norm(k.v());
            T t(El<T>::make(v));
            if constexpr (TAIL)
            {
               lib([&]{ s[i].c->push_back(t); return 0; });
               m.push_back(E(v));
            }
            else
            {
               lib([&]{ s[i].c->push_front(t); return 0; });
               m.insert(m.begin(), E(v));
            }
            took(i, 1);
         }
      }
      observe_all();
      for (int q = 0; q < 10; ++q)
         step();
      end();
   }
};

template<Which W> void the_case(Rng &r, uint64_t c)
{
   unsigned ops = r.range(8, 60);
   if (c % 97 == 50)
   {
      unsigned n = r.range(250, 1500);
      if (c & 1)
         Case<W, int>(r).large(n);
      else
         Case<W, Tr>(r).large(n);
      return;
   }
   switch (c % 8)
   {
   case 0: case 1: case 2: case 3: Case<W, Tr>(r).run(ops); break;
   case 4: Case<W, int>(r).run(ops); break;
   case 5: Case<W, unsigned char>(r).run(ops); break;
   case 6: Case<W, Wide>(r).run(ops); break;
   default: Case<W, Fat>(r).run(ops); break;
   }
}
