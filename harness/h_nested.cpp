// Containers of containers: an element which itself owns elements must be copied,
// assigned, moved about and destroyed as a whole by every container that holds it.
#include "core_impl.hpp"
#include "seq.hpp"
#include "ttl/ttl.hpp"
using namespace mon;
typedef std::vector<V> Vs;

//
// Inner containers
//
template<class I> struct Inner
{
   static void add(I &c, Vs &m, V v)
   {
      Tr t(El<Tr>::make(v));
      lib([&]{ c.push_back(t); return 0; });
      m.push_back(v);
   }
   static void drop(I &c, Vs &m)
   {
      lib([&]{ c.erase(c.begin()); return 0; });
      m.erase(m.begin());
   }
   static void clear(I &c, Vs &m)
   {
      lib([&]{ c.clear(); return 0; });
      m.clear();
   }
   static void observe(const I &c, const Vs &m)
   {
      size_t n = 0;
      for (typename I::const_iterator i = c.begin(); i != c.end(); ++i, ++n)
      {
         if (n >= m.size())
         {
            fail(SEM, "inner-too-long", "an inner container holds more than its %zu elements", m.size());
            return;
         }
         S->elem_checks++;
         if (!El<Tr>::same(*i, m[n]))
         {
            V g = El<Tr>::read(*i);
            fail(SEM, "inner-content", "inner element %zu is (%d,#%u), expected (%d,#%u)", n, g.key, g.tag, m[n].key, m[n].tag);
         }
      }
      S->observations++;
      if (n != m.size())
         fail(SEM, "inner-too-short", "an inner container holds %zu of its %zu elements", n, m.size());
   }
};
// those which are filled or drained at the front
template<class I, bool BACK> struct Fronted
{
   static void add(I &c, Vs &m, V v)
   {
      Tr t(El<Tr>::make(v));
      lib([&]
      {
         if constexpr (BACK)
            c.push_back(t);
         else
            c.push_front(t);
         return 0;
      });
      m.insert(BACK ? m.end() : m.begin(), v);
   }
   static void drop(I &c, Vs &m)
   {
      lib([&]{ c.pop_front(); return 0; });
      m.erase(m.begin());
   }
   static void clear(I &c, Vs &m)
   {
      lib([&]{ c.clear(); return 0; });
      m.clear();
   }
   static void observe(const I &c, const Vs &m)
   {
      size_t n = 0;
      for (typename I::const_iterator i = c.begin(); i != c.end(); ++i, ++n)
      {
         S->elem_checks++;
         if (n >= m.size() || !El<Tr>::same(*i, m[n]))
         {
            fail(SEM, "inner-content", "inner element %zu of %zu differs", n, m.size());
            return;
         }
      }
      S->observations++;
      if (n != m.size())
         fail(SEM, "inner-too-short", "an inner container holds %zu of its %zu elements", n, m.size());
   }
};
template<> struct Inner<ttl::forward_list<Tr> >: Fronted<ttl::forward_list<Tr>, false> {};
template<> struct Inner<ttl::lazy_queue<Tr> >: Fronted<ttl::lazy_queue<Tr>, true> {};
// keyed by position; the value carries the tag
template<> struct Inner<ttl::map<int, Tr> >
{
   typedef ttl::map<int, Tr> I;
   static void add(I &c, Vs &m, V v)
   {
      int k = m.empty() ? 0 : m.back().key + 1;
      v.key = k;
      Tr t(El<Tr>::make(v));
      lib([&]{ c[k] = t; return 0; });
      m.push_back(v);
   }
   static void drop(I &c, Vs &m)
   {
      lib([&]{ c.erase(m[0].key); return 0; });
      m.erase(m.begin());
   }
   static void clear(I &c, Vs &m)
   {
      lib([&]{ c.clear(); return 0; });
      m.clear();
   }
   static void observe(const I &c, const Vs &m)
   {
      size_t n = 0;
      for (I::const_iterator i = c.begin(); i != c.end(); ++i, ++n)
      {
         S->elem_checks++;
         if (n >= m.size() || i->first != m[n].key || !El<Tr>::same(i->second, m[n]))
         {
            fail(SEM, "inner-content", "inner entry %zu of %zu differs", n, m.size());
            return;
         }
      }
      S->observations++;
      if (n != m.size())
         fail(SEM, "inner-too-short", "an inner map holds %zu of its %zu entries", n, m.size());
   }
};
typedef ttl::pair<ttl::vector<Tr>, ttl::list<Tr> > VL;
// both members hold the same
template<> struct Inner<VL>
{
   typedef Inner<ttl::vector<Tr> > A;
   typedef Inner<ttl::list<Tr> > B;
   static void add(VL &c, Vs &m, V v)
   {
      Vs x(m);
      A::add(c.first, x, v);
      B::add(c.second, m, v);
   }
   static void drop(VL &c, Vs &m)
   {
      Vs x(m);
      A::drop(c.first, x);
      B::drop(c.second, m);
   }
   static void clear(VL &c, Vs &m)
   {
      Vs x(m);
      A::clear(c.first, x);
      B::clear(c.second, m);
   }
   static void observe(const VL &c, const Vs &m)
   {
      A::observe(c.first, m);
      B::observe(c.second, m);
   }
};
template<class I> static size_t per(const Vs &v) { return v.size() * (ttl::is_same<I, VL>::value ? 2 : 1); }

//
// Outer containers
//
typedef std::vector<Vs> Model;

template<class O> static typename O::value_type &nth(O &o, size_t i)
{
   typename O::iterator it = o.begin();
   while (i--)
      ++it;
   return *it;
}

// what an outer sequence can do
template<class O> struct Caps { enum { back = 1, front = 0, popb = 1, popf = 0, mid = 1, cap = 1000, after = 0, eq = 1 }; };
template<class I> struct Caps<ttl::list<I> > { enum { back = 1, front = 1, popb = 1, popf = 1, mid = 1, cap = 1000, after = 0, eq = 1 }; };
template<class I, unsigned N> struct Caps<ttl::fixed_vector<I, N> > { enum { back = 1, front = 0, popb = 1, popf = 0, mid = 1, cap = N, after = 0, eq = 1 }; };
template<class I> struct Caps<ttl::forward_list<I> > { enum { back = 0, front = 1, popb = 0, popf = 1, mid = 0, cap = 1000, after = 1, eq = 0 }; };
template<class I> struct Caps<ttl::backward_list<I> > { enum { back = 1, front = 1, popb = 0, popf = 1, mid = 0, cap = 1000, after = 1, eq = 0 }; };
template<class I> struct Caps<ttl::lazy_queue<I> > { enum { back = 1, front = 1, popb = 0, popf = 1, mid = 0, cap = 1000, after = 1, eq = 0 }; };

template<class O, class I> struct Nest
{
   typedef Inner<I> IN_;
   typedef Caps<O> CAP;
   enum { NS = 2 };
   Rng &r;
   Keys k;
   Slot<O, Model> s[NS];
   explicit Nest(Rng &rr): r(rr), k(rr) {}

   V v()
   {
      V x = k.v();
      return x;
   }
   void observe()
   {
      size_t total = 0;
      uint64_t h = hstr(S->op);
      for (int i = 0; i < NS; ++i)
      {
         if (!s[i].c)
            continue;
         const O &c = *s[i].c;
         Model &m = s[i].m;
         size_t n = 0;
         for (typename O::const_iterator it = c.begin(); it != c.end(); ++it, ++n)
         {
            if (n >= m.size())
            {
               fail(SEM, "outer-too-long", "more than the %zu inner containers", m.size());
               break;
            }
            IN_::observe(*it, m[n]);
            total += per<I>(m[n]);
            h = mix(h, m[n].size());
         }
         S->observations++;
         if (n != m.size())
            fail(SEM, "outer-too-short", "%zu of the %zu inner containers", n, m.size());
         s[i].raw.check();
      }
      live_check(total);
      note_state(h);
   }
   void fill(I &c, Vs &m)
   {
      unsigned n = r.below(5);
      while (n--)
         IN_::add(c, m, v());
   }
   void step()
   {
      int i = r.below(NS), j = (i + 1) % NS;
      if (!s[i].c || r.below(25) == 0)
      {
         s[i].destroy();
         void *p = s[i].mem();
         if (s[j].c && r.below(2))
         {
            op("copy", "");
            const O &o = *s[j].c;
            lib([&]{ s[i].c = ::new(p) O(o); return 0; });
            s[i].m = s[j].m;
         }
         else
         {
            op("construct", "");
            lib([&]{ s[i].c = ::new(p) O(); return 0; });
         }
         return;
      }
      O &c = *s[i].c;
      Model &m = s[i].m;
      switch (r.below(14))
      {
      case 0: case 1:
      {
         if (m.size() >= (size_t)CAP::cap)
            return;
         I x;
         Vs xm;
         fill(x, xm);
         bool back = CAP::back && (!CAP::front || r.below(2));
         op(back ? "push_back" : "push_front", " of %zu inner", xm.size());
         if constexpr (CAP::back)
            if (back)
               lib([&]{ c.push_back(x); return 0; });
         if constexpr (CAP::front)
            if (!back)
               lib([&]{ c.push_front(x); return 0; });
         m.insert(back ? m.end() : m.begin(), xm);
         // changing what was passed must not change what is stored
         Inner<I>::add(x, xm, v());
         IN_::clear(x, xm);
         break;
      }
      case 2:
      {
         if (m.empty() || m.size() >= (size_t)CAP::cap)
            return;
         // an element of its own
         size_t q = r.below(m.size());
         I &x = nth(c, q);
         Vs xm(m[q]);
         S->alias_ops++;
         bool back = CAP::back && (!CAP::front || r.below(2));
         op(back ? "push_back(own)" : "push_front(own)", " %zu of %zu", q, m.size());
         if constexpr (CAP::back)
            if (back)
               lib([&]{ c.push_back(x); return 0; });
         if constexpr (CAP::front)
            if (!back)
               lib([&]{ c.push_front(x); return 0; });
         m.insert(back ? m.end() : m.begin(), xm);
         break;
      }
      case 3:
         if (m.empty())
            return;
         if constexpr (CAP::popb)
            if (!CAP::popf || r.below(2))
            {
               op("pop_back", "");
               lib([&]{ c.pop_back(); return 0; });
               m.pop_back();
               return;
            }
         if constexpr (CAP::popf)
         {
            op("pop_front", "");
            lib([&]{ c.pop_front(); return 0; });
            m.erase(m.begin());
         }
         break;
      case 4:
      {
         I x;
         Vs xm;
         fill(x, xm);
         if constexpr (CAP::mid)
         {
            size_t q = r.below(m.size() + 1), n = r.below(3);
            if (m.size() + n > (size_t)CAP::cap)
               return;
            typename O::iterator it = c.begin();
            for (size_t z = 0; z < q; ++z)
               ++it;
            op("insert", " %zu copies at %zu of %zu", n, q, m.size());
            lib([&]{ c.insert(it, n, x); return 0; });
            m.insert(m.begin() + q, n, xm);
         }
         else if constexpr (CAP::after)
         {
            size_t q = r.below(m.size() + 1);
            typename O::iterator it = c.before_begin();
            for (size_t z = 0; z < q; ++z)
               ++it;
            op("insert_after", " %zu of %zu", q, m.size());
            lib([&]{ c.insert_after(it, x); return 0; });
            m.insert(m.begin() + q, xm);
         }
         break;
      }
      case 5:
      {
         if (m.empty())
            return;
         size_t q = r.below(m.size());
         if constexpr (CAP::mid)
         {
            typename O::iterator it = c.begin();
            for (size_t z = 0; z < q; ++z)
               ++it;
            op("erase", " %zu of %zu", q, m.size());
            lib([&]{ c.erase(it); return 0; });
         }
         else
         {
            typename O::iterator it = c.before_begin();
            for (size_t z = 0; z < q; ++z)
               ++it;
            op("erase_after", " %zu of %zu", q, m.size());
            lib([&]{ c.erase_after(it); return 0; });
         }
         m.erase(m.begin() + q);
         break;
      }
      case 6:
         if (!s[j].c)
            return;
         op("operator=", "");
         lib([&]{ c = *s[j].c; return 0; });
         m = s[j].m;
         break;
      case 7:
         if (!s[j].c)
            return;
         op("swap", "");
         lib([&]{ c.swap(*s[j].c); return 0; });
         m.swap(s[j].m);
         break;
      case 8:
      {
         if (m.empty())
            return;
         size_t q = r.below(m.size()), p = r.below(m.size());
         S->alias_ops += p == q;
         op("assign inner", " %zu to %zu of %zu", q, p, m.size());
         I &x = nth(c, p), &y = nth(c, q);
         lib([&]{ x = y; return 0; });
         Vs t(m[q]);
         m[p] = t;
         break;
      }
      case 9:
      {
         if (m.empty())
            return;
         size_t q = r.below(m.size()), p = r.below(m.size());
         if (p == q)
            return;
         op("ttl::swap inner", " %zu with %zu of %zu", q, p, m.size());
         I &x = nth(c, p), &y = nth(c, q);
         lib([&]{ ttl::swap(x, y); return 0; });
         m[p].swap(m[q]);
         break;
      }
      case 10:
         if (r.below(4))
            return;
         op("clear", "");
         lib([&]{ c.clear(); return 0; });
         m.clear();
         break;
      case 11:
         if constexpr (CAP::eq && !ttl::is_same<I, ttl::map<int, Tr> >::value && !ttl::is_same<I, ttl::forward_list<Tr> >::value && !ttl::is_same<I, ttl::lazy_queue<Tr> >::value)
         {
            if (!s[j].c)
               return;
            const O &a = c, &b = *s[j].c;
            bool e = m.size() == s[j].m.size();
            for (size_t q = 0; e && q < m.size(); ++q)
            {
               e = m[q].size() == s[j].m[q].size();
               for (size_t z = 0; e && z < m[q].size(); ++z)
                  e = m[q][z].key == s[j].m[q][z].key;
            }
            op("operator==", "");
            bool g = lib([&]{ return a == b; }), ng = lib([&]{ return a != b; });
            S->observations++;
            if (g != e || ng == e)
               fail(SEM, "result", "== is %d, != is %d, expected %d", (int)g, (int)ng, (int)e);
         }
         break;
      default:
      {
         if (m.empty())
            return;
         size_t q = r.below(m.size());
         I &x = nth(c, q);
         if (m[q].empty() || r.below(3))
         {
            op("inner add", " %zu of %zu", q, m.size());
            IN_::add(x, m[q], v());
         }
         else if (r.below(4))
         {
            op("inner drop", " %zu of %zu", q, m.size());
            IN_::drop(x, m[q]);
         }
         else
         {
            op("inner clear", " %zu of %zu", q, m.size());
            IN_::clear(x, m[q]);
         }
         break;
      }
      }
   }
   void run_ops(unsigned n)
   {
      S->op[0] = 0;
      while (n--)
      {
         step();
         observe();
      }
      for (int i = 0; i < NS; ++i)
         s[i].destroy();
      live_check(0);
   }
};

// maps of containers
template<class O> struct MCaps { enum { erase = 0, assign = 0, clear = 1, ordered = 1 }; };
template<class I> struct MCaps<ttl::map<int, I> > { enum { erase = 1, assign = 1, clear = 1, ordered = 1 }; };
template<class I> struct MCaps<ttl::vector_map<int, I> > { enum { erase = 0, assign = 0, clear = 1, ordered = 0 }; };

template<class O, class I> struct NestMap
{
   typedef Inner<I> IN_;
   typedef std::vector<std::pair<int, Vs> > MM;
   enum { NS = 2 };
   Rng &r;
   Keys k;
   Slot<O, MM> s[NS];
   explicit NestMap(Rng &rr): r(rr), k(rr) {}
   static size_t at(const MM &m, int key)
   {
      size_t i = 0;
      while (i < m.size() && m[i].first != key)
         ++i;
      return i;
   }
   static void put(MM &m, int key, const Vs &v)
   {
      size_t i = 0;
      if (MCaps<O>::ordered)
         while (i < m.size() && m[i].first < key)
            ++i;
      else
         i = m.size();
      m.insert(m.begin() + i, std::make_pair(key, v));
   }
   void observe()
   {
      size_t total = 0;
      uint64_t h = hstr(S->op);
      for (int i = 0; i < NS; ++i)
      {
         if (!s[i].c)
            continue;
         const O &c = *s[i].c;
         MM &m = s[i].m;
         size_t n = 0;
         for (typename O::const_iterator it = c.begin(); it != c.end(); ++it, ++n)
         {
            if (n >= m.size() || it->first != m[n].first)
            {
               fail(SEM, "outer-content", "entry %zu of %zu has another key", n, m.size());
               break;
            }
            IN_::observe(it->second, m[n].second);
            total += per<I>(m[n].second);
            h = mix(h, m[n].second.size() * 100 + m[n].first);
         }
         S->observations++;
         if (n != m.size())
            fail(SEM, "outer-too-short", "%zu of the %zu entries", n, m.size());
      }
      live_check(total);
      note_state(h);
   }
   void step()
   {
      int i = r.below(NS), j = (i + 1) % NS;
      if (!s[i].c || r.below(25) == 0)
      {
         s[i].destroy();
         void *p = s[i].mem();
         if (s[j].c && r.below(2))
         {
            op("copy", "");
            const O &o = *s[j].c;
            lib([&]{ s[i].c = ::new(p) O(o); return 0; });
            s[i].m = s[j].m;
         }
         else
         {
            op("construct", "");
            lib([&]{ s[i].c = ::new(p) O(); return 0; });
         }
         return;
      }
      O &c = *s[i].c;
      MM &m = s[i].m;
      int key = r.below(10);
      size_t q = at(m, key);
      I x;
      Vs xm;
      unsigned n = r.below(4);
      while (n--)
         IN_::add(x, xm, k.v());
      switch (r.below(9))
      {
      case 0:
         op("operator[]=", " key=%d", key);
         lib([&]{ c[key] = x; return 0; });
         if (q == m.size())
            put(m, key, xm);
         else
            m[q].second = xm;
         break;
      case 1:
      {
         op("insert", " key=%d", key);
         bool ins = lib([&]{ return c.insert(ttl::pair<const int, I>(key, x)).second; });
         if (ins != (q == m.size()))
            fail(SEM, "result", "insert of key %d: inserted %d", key, (int)ins);
         if (q == m.size())
            put(m, key, xm);
         break;
      }
      case 2:
         if constexpr (MCaps<O>::erase)
         {
            op("erase", " key=%d", key);
            size_t g = lib([&]{ return c.erase(key); });
            if (g != (q != m.size()))
               fail(SEM, "result", "erase of key %d: %zu", key, g);
            if (q != m.size())
               m.erase(m.begin() + q);
         }
         break;
      case 3:
         if constexpr (MCaps<O>::assign)
         {
            if (!s[j].c)
               return;
            op("operator=", "");
            lib([&]{ c = *s[j].c; return 0; });
            m = s[j].m;
         }
         break;
      case 4:
         if (r.below(5))
            return;
         op("clear", "");
         lib([&]{ c.clear(); return 0; });
         m.clear();
         break;
      case 5:
      {
         // a new entry from an old one
         int key2 = r.below(10);
         size_t q2 = at(m, key2);
         if (q == m.size())
            return;
         op("entry from entry", " key=%d from %d", key2, key);
         const I &y = c.at(key);
         // made before the entry is: the reference may not survive it
         Vs ym(m[q].second);
         I copy(y);
         lib([&]{ c[key2] = copy; return 0; });
         if (q2 == m.size())
            put(m, key2, ym);
         else
            m[q2].second = ym;
         break;
      }
      default:
         op("inner add", " key=%d", key);
         if (q == m.size())
         {
            put(m, key, Vs());
            q = at(m, key);
         }
         IN_::add(lib([&]() -> I & { return c[key]; }), m[q].second, k.v());
         break;
      }
      IN_::clear(x, xm);
   }
   void run_ops(unsigned n)
   {
      while (n--)
      {
         step();
         observe();
      }
      for (int i = 0; i < NS; ++i)
         s[i].destroy();
      live_check(0);
   }
};

template<class I> static void outer(Rng &r, unsigned which, unsigned n)
{
   switch (which)
   {
   case 0: Nest<ttl::vector<I>, I>(r).run_ops(n); break;
   case 1: Nest<ttl::list<I>, I>(r).run_ops(n); break;
   case 2: Nest<ttl::fixed_vector<I, 5>, I>(r).run_ops(n); break;
   case 3: Nest<ttl::forward_list<I>, I>(r).run_ops(n); break;
   case 4: Nest<ttl::backward_list<I>, I>(r).run_ops(n); break;
   case 5: Nest<ttl::lazy_queue<I>, I>(r).run_ops(n); break;
   case 6: NestMap<ttl::map<int, I>, I>(r).run_ops(n); break;
   case 7: NestMap<ttl::vector_map<int, I>, I>(r).run_ops(n); break;
   case 8: NestMap<ttl::sorted_vector_map<int, I>, I>(r).run_ops(n); break;
   }
}
#include "nested_rec.hpp"
static void the_case(Rng &r, uint64_t c)
{
   unsigned w = c % 9;
   (void)w;
   // divided among parts, which are compiled separately
#ifndef MON_PART
#define MON_PART 0
#endif
#if MON_PART == 0
   switch (c / 9 % 3)
   {
   case 0: outer<ttl::vector<Tr> >(r, w, 60); break;
   case 1: outer<ttl::list<Tr> >(r, w, 60); break;
   default: outer<VL>(r, w, 60); break;
   }
#elif MON_PART == 1
   switch (c / 9 % 2)
   {
   case 0: outer<ttl::map<int, Tr> >(r, w, 60); break;
   default: outer<ttl::fixed_vector<Tr, 40> >(r, w, 40); break;
   }
#elif MON_PART == 3
   switch (c % 8)
   {
   case 7: Rec<RFix>(r).run_ops(70); break;
   case 0: Rec<RVec>(r).run_ops(70); break;
   case 1: Rec<RList>(r).run_ops(70); break;
   case 2: Rec<RFwd>(r).run_ops(70); break;
   case 3: Rec<RBack>(r).run_ops(70); break;
   case 4: Rec<RLazy>(r).run_ops(70); break;
   case 5: Rec<RSet>(r).run_ops(70); break;
   default: Rec<RMap>(r).run_ops(70); break;
   }
#else
   switch (c / 9 % 2)
   {
   case 0: outer<ttl::lazy_queue<Tr> >(r, w, 60); break;
   default: outer<ttl::forward_list<Tr> >(r, w, 60); break;
   }
#endif
}
int main(int argc, char **argv) { return run(argc, argv, "nested", the_case); }
