// Observation helpers for sequence-like containers: full comparison against the
// model through every iteration interface, address stability, iterator walks and
// input sources with discipline checks.
#ifndef MON_SEQ_HPP
#define MON_SEQ_HPP
#include "core.hpp"
#include <type_traits>
#include <iterator>

namespace mon
{
   // Holds one library object in guarded, junk-filled raw storage plus its model.
   template<class C, class M = Seq>
   struct Slot
   {
      Raw raw;
      C *c;
      M m;
      Slot(): c(0) {}
      void *mem() { return raw.make(sizeof(C), alignof(C)); }
      // for containers of nodes: their end() is a node in all but its value, and
      // they may have it take the place of one that needs the alignment of the value
      void *mem_for_node() { return raw.make(sizeof(C), alignof(C) < 16 ? 16 : alignof(C)); }
      void destroy()
      {
         if (!c)
            return;
         C *x = c;
         c = 0;
         lib([&]{ x->~C(); return 0; });
         raw.drop();
         m.clear();
      }
   };

   template<class T> inline T *arrow(T *p) { return p; }
   template<class It> inline auto arrow(const It &i) -> decltype(i.operator->()) { return i.operator->(); }

   inline bool is(const char *profile) { return !strcmp(g_profile, profile); }

   template<class T> struct ElE // element against model entry; specialised for map entries
   {
      static bool same(const T &t, const E &e) { return El<T>::same(t, e.v); }
      static V read(const T &t) { return El<T>::read(t); }
   };
   template<class T>
   inline void chk(const T &got, E &e, size_t idx, const char *how)
   {
      S->elem_checks++;
      if (!ElE<T>::same(got, e))
      {
         V g = ElE<T>::read(got);
         fail(SEM, "content", "%s: element %zu is (%d,#%u), expected (%d,#%u)", how, idx, g.key, g.tag, e.v.key, e.v.tag);
      }
   }
   inline void chk_addr(const void *a, E &e, size_t idx)
   {
      if (e.addr)
      {
         S->stab_checks++;
         if (e.addr != a)
            fail(STAB, "moved", "element %zu (%d,#%u) was at %p and is now at %p", idx, e.v.key, e.v.tag, e.addr, a);
      }
      e.addr = a;
   }

   // Walks [first,last), comparing with the model
   template<class T, class It>
   inline void obs_range(const char *how, It first, It last, Seq &m, bool addrs)
   {
      size_t n = 0;
      for (; first != last; ++first, ++n)
      {
         if (n >= m.size())
         {
            fail(SEM, "too-long", "%s: more than the expected %zu elements", how, m.size());
            return;
         }
         const T &x = *first;
         chk<T>(x, m[n], n, how);
         if (addrs)
            chk_addr(&x, m[n], n);
      }
      S->observations++;
      if (n != m.size())
         fail(SEM, "too-short", "%s: %zu elements, expected %zu", how, n, m.size());
      if (n > S->max_size)
         S->max_size = n;
   }
   template<class T, class It>
   inline void obs_range_back(const char *how, It first, It last, Seq &m)
   {
      size_t n = m.size();
      while (last != first)
      {
         if (!n)
         {
            fail(SEM, "too-long", "%s: more than the expected %zu elements", how, m.size());
            return;
         }
         --last;
         --n;
         chk<T>(*last, m[n], n, how);
      }
      S->observations++;
      if (n)
         fail(SEM, "too-short", "%s: %zu elements missing", how, n);
   }

   template<class C>
   inline typename C::iterator it_at(C &c, size_t i)
   {
      typename C::iterator it = c.begin();
      while (i--)
         ++it;
      return it;
   }
   template<class C>
   inline typename C::const_iterator cit_at(const C &c, size_t i)
   {
      typename C::const_iterator it = c.begin();
      while (i--)
         ++it;
      return it;
   }

   // Random walk of an iterator pair (non-const, const) against an index
   // Flags: B = bidirectional, RA = random access
   template<class T, bool B, class C>
   inline void walk_fwd(Rng &r, C &c, Seq &m, unsigned steps)
   {
      const C &cc = c;
      const size_t n = m.size();
      typename C::iterator it = c.end(), e = c.end();
      typename C::const_iterator ci = cc.begin(), ce = cc.end();
      it = c.begin();
      if constexpr (std::is_default_constructible<typename C::iterator>::value)
      {
         typename C::iterator x;
         typename C::const_iterator y;
         x = c.begin();
         y = cc.begin();
         if (x != it || y != ci)
            fail(SEM, "iter-assign", "assigned iterators differ");
      }
      size_t i = 0;
      if ((it == e) != (n == 0) || (it != e) != (n != 0) || (ci == ce) != (n == 0))
         fail(SEM, "iter-end", "begin/end comparison wrong for %zu elements", n);
      for (unsigned k = 0; k < steps; ++k)
      {
         S->iter_steps++;
         unsigned a = r.below(10);
         if (a < 6 ? i < n : false)
         {
            if (a < 2)
            {
               typename C::iterator &x = ++it;
               typename C::const_iterator &y = ++ci;
               if (&x != &it || &y != &ci)
                  fail(SEM, "iter-preinc", "++it does not return its operand");
               ++i;
            }
            else
            {
               typename C::iterator o = it++;
               typename C::const_iterator co = ci++;
               chk<T>(*o, m[i], i, "*it++");
               chk<T>(*co, m[i], i, "*cit++");
               if (o == it || co == ci)
                  fail(SEM, "iter-postinc", "it++ did not advance");
               ++i;
               typename C::iterator o2 = o;
               if (++o2 != it)
                  fail(SEM, "iter-postinc", "it++ advanced by something else than one");
            }
         }
         else if constexpr (B)
         {
            if (i > 0)
            {
               if (a & 1)
               {
                  typename C::iterator &x = --it;
                  typename C::const_iterator &y = --ci;
                  if (&x != &it || &y != &ci)
                     fail(SEM, "iter-predec", "--it does not return its operand");
                  --i;
               }
               else
               {
                  typename C::iterator o = it--;
                  typename C::const_iterator co = ci--;
                  if (i < n)
                  {
                     chk<T>(*o, m[i], i, "*it--");
                     chk<T>(*co, m[i], i, "*cit--");
                  }
                  else if (o != e || co != ce)
                     fail(SEM, "iter-postdec", "end-- did not yield end");
                  --i;
               }
            }
         }
         else if (i == n)
         {
            it = c.begin();
            ci = cc.cbegin();
            i = 0;
         }
         // observe
         typename C::const_iterator conv = it;
         if (!(conv == ci) || conv != ci)
            fail(SEM, "iter-conversion", "iterator converted to const_iterator differs at %zu", i);
         if (!(it == ci) || (it != ci))
            fail(SEM, "iter-mixed-compare", "iterator and const_iterator to the same place differ at %zu", i);
         if ((it == e) != (i == n) || (it != e) != (i != n) || (ci == ce) != (i == n) || (ci != ce) != (i != n))
            fail(SEM, "iter-end", "comparison with end wrong at %zu of %zu", i, n);
         if (i < n)
         {
            chk<T>(*it, m[i], i, "*it");
            chk<T>(*ci, m[i], i, "*cit");
            if (&*it != &*ci || &*it != arrow(it) || &*ci != arrow(ci))
               fail(SEM, "iter-deref", "*, -> and const access disagree at %zu", i);
         }
      }
   }

   // Held iterators: survive operations on node-based containers as long as
   // their element does, and must keep denoting it and leading to its successor.
   template<class C, class T>
   struct Held
   {
      struct H { typename C::iterator it; typename C::const_iterator ci; uint64_t uid; H(typename C::iterator i, uint64_t u): it(i), ci(i), uid(u) {} };
      std::vector<H> h;
      void hold(typename C::iterator i, uint64_t uid)
      {
         if (h.size() < 6)
            h.push_back(H(i, uid));
         else
            h[uid % 6] = H(i, uid);
      }
      // check against slots' models
      template<class SlotT>
      void check(SlotT *slots, int n)
      {
         for (size_t k = 0; k < h.size(); )
         {
            bool found = false;
            for (int s = 0; s < n && !found; ++s)
            {
               if (!slots[s].c)
                  continue;
               Seq &m = slots[s].m;
               for (size_t i = 0; i < m.size(); ++i)
                  if (m[i].uid == h[k].uid)
                  {
                     found = true;
                     S->stab_checks++;
                     if (m[i].addr && (&*h[k].it != m[i].addr || &*h[k].ci != m[i].addr))
                        fail(STAB, "iterator-lost", "an iterator held across operations no longer denotes its element");
                     if (!ElE<T>::same(*h[k].it, m[i]))
                        fail(STAB, "iterator-lost", "an iterator held across operations denotes another value");
                     typename C::iterator nx = h[k].it;
                     ++nx;
                     if (i + 1 < m.size())
                     {
                        if (nx == slots[s].c->end() || (m[i + 1].addr && &*nx != m[i + 1].addr))
                           fail(STAB, "iterator-next", "an iterator held across operations does not lead to the next element");
                     }
                     else if (nx != slots[s].c->end())
                        fail(STAB, "iterator-next", "an iterator held at the last element does not lead to end()");
                     break;
                  }
            }
            if (!found)
            {
               h[k] = h.back();
               h.pop_back();
            }
            else
               ++k;
         }
      }
   };

   // A single-pass source over V values yielding T; discipline: no advance or
   // read past the end, no read through a stale copy.
   template<class T>
   struct Source
   {
      std::vector<T> vals;
      size_t pos;       // current position of the stream
      uint64_t reads, incs;
      Source(): pos(0), reads(0), incs(0) {}
   };
   template<class T>
   struct InIt
   {
      typedef T value_type;
      typedef const T *pointer;
      typedef const T &reference;
      typedef ptrdiff_t difference_type;
      typedef std::input_iterator_tag iterator_category;
      Source<T> *s;
      size_t p;
      InIt(): s(0), p(0) {}
      InIt(Source<T> &src, size_t at): s(&src), p(at) {}
      const T &operator*() const
      {
         S->disc_events++;
         s->reads++;
         if (p >= s->vals.size())
         {
            fail(DISC, "read-past-end", "source read at %zu of %zu", p, s->vals.size());
            fail(MEM, "read-past-end", "source read at %zu of %zu", p, s->vals.size());
            static T dummy = T();
            return dummy;
         }
         if (p != s->pos)
            fail(DISC, "second-pass", "single-pass source read at %zu after advancing to %zu", p, s->pos);
         return s->vals[p];
      }
      const T *operator->() const { return &**this; }
      InIt &operator++()
      {
         S->disc_events++;
         s->incs++;
         if (p >= s->vals.size())
            fail(DISC, "advance-past-end", "source advanced at %zu of %zu", p, s->vals.size());
         if (p != s->pos)
            fail(DISC, "second-pass", "single-pass source advanced at %zu after reaching %zu", p, s->pos);
         ++p;
         s->pos = p;
         return *this;
      }
      struct Proxy { T v; const T &operator*() const { return v; } };
      Proxy operator++(int)
      {
         Proxy x = {**this};
         ++*this;
         return x;
      }
      bool operator==(const InIt &o) const { return p == o.p; }
      bool operator!=(const InIt &o) const { return p != o.p; }
   };

   inline uint64_t hash_seq(uint64_t h, const Seq &m)
   {
      h = mix(h, m.size());
      for (size_t i = 0; i < m.size() && i < 24; ++i)
         h = mix(h, (uint64_t)(uint32_t)m[i].v.key);
      return h;
   }

   // Random array of values for range arguments
   template<class T>
   inline void gen_vals(Keys &k, size_t n, std::vector<V> &v, std::vector<T> &t)
   {
      v.clear();
      t.clear();
      t.reserve(n);
      for (size_t i = 0; i < n; ++i)
      {
         V x = El<T>::norm(k.v());
         v.push_back(x);
         t.push_back(El<T>::make(x));
      }
   }
   // Calls f(first,last,n) with a pointer range or a monitored single-pass range
   template<class T, class F>
   inline void with_range(Rng &r, Keys &k, size_t n, std::vector<V> &v, F f)
   {
      if (r.below(2))
      {
         std::vector<T> t;
         gen_vals<T>(k, n, v, t);
         const T *a = t.data();
         f(a, a + n);
      }
      else
      {
         Source<T> src;
         gen_vals<T>(k, n, v, src.vals);
         f(InIt<T>(src, 0), InIt<T>(src, n));
         if (src.incs != n)
            fail(DISC, "range-consumption", "%llu of %zu elements consumed", (unsigned long long)src.incs, n);
      }
   }
   // model edits
   inline void mins(Seq &m, size_t pos, const std::vector<V> &v)
   {
      std::vector<E> e;
      for (size_t i = 0; i < v.size(); ++i)
         e.push_back(E(v[i]));
      m.insert(m.begin() + pos, e.begin(), e.end());
   }
   inline void minsn(Seq &m, size_t pos, size_t n, V v) { mins(m, pos, std::vector<V>(n, v)); }
   inline bool by_key(const E &a, const E &b) { return a.v.key < b.v.key; }
   inline bool by_key_desc(const E &a, const E &b) { return a.v.key > b.v.key; }
   inline bool key_eq(const Seq &a, const Seq &b)
   {
      if (a.size() != b.size())
         return false;
      for (size_t i = 0; i < a.size(); ++i)
         if (a[i].v.key != b[i].v.key)
            return false;
      return true;
   }
   inline void mcopy(Seq &to, const Seq &from)
   {
      Seq t;
      for (size_t i = 0; i < from.size(); ++i)
         t.push_back(E(from[i].v));
      to.swap(t);
   }
   // An operation that may only relink: no element copied or assigned, nothing
   // allocated or released.
   struct Relink
   {
      uint64_t c, a, n, f;
      Relink(): c(Tr::g_copies), a(Tr::g_assigns), n(H.lib_allocs), f(H.lib_frees) {}
      void done(const char *what) const
      {
         S->stab_checks++;
         if (c != Tr::g_copies || a != Tr::g_assigns)
            fail(STAB, "copied-elements", "%s copied or assigned elements instead of relinking them", what);
         if (n != H.lib_allocs || f != H.lib_frees)
            fail(STAB, "allocated", "%s allocated or released memory instead of relinking", what);
      }
   };
   inline void strip(Seq &m)
   {
      for (size_t i = 0; i < m.size(); ++i)
         m[i].addr = 0;
   }
}
#endif
