// Monitored histories over ttl::vector_map: an unsorted vector of pairs, in
// insertion order, where the first entry with a key is the one found.
#include "core_impl.hpp"
#include "seq.hpp"
#include "ttl/ttl.hpp"
#include "ttl/vector_map.hpp"
using namespace mon;

namespace mon
{
   template<class K, class M> struct ElE<ttl::pair<K, M> >
   {
      typedef ttl::pair<K, M> P;
      static bool same(const P &t, const E &e) { return El<K>::same(t.first, e.v) && El<M>::same(t.second, e.w); }
      static V read(const P &t) { return El<K>::read(t.first); }
   };
}

template<class K, class M>
struct Case
{
   typedef ttl::vector_map<K, M> C;
   typedef typename C::value_type T;
   typedef typename C::iterator It;
   typedef typename C::const_iterator CIt;
   typedef Slot<C> SL;
   enum { NS = 3 };
   Rng &r;
   Keys k;
   SL s[NS];
   bool alias, iter;
   Case(Rng &rr): r(rr), k(rr), alias(is("alias")), iter(is("iter"))
   {
      if (r.below(2))
      {
         k.mode = 0;
         k.span = r.range(1, 20);
      }
   }
   size_t all() const
   {
      size_t n = 0;
      for (int i = 0; i < NS; ++i)
         n += s[i].m.size();
      return n;
   }
   size_t total() const { return all() * ((El<K>::tracked ? 1 : 0) + (El<M>::tracked ? 1 : 0)); }
   static size_t first_of(const Seq &m, int key)
   {
      size_t i = 0;
      while (i < m.size() && m[i].v.key != key)
         ++i;
      return i;
   }
   V kk() { return El<K>::norm(k.v()); }
   V ww() { return El<M>::norm(k.v()); }
   V pick(const Seq &m)
   {
      V v = kk();
      if (!m.empty() && r.below(2))
         v.key = m[r.below(m.size())].v.key;
      return v;
   }
   void observe(int i)
   {
      SL &x = s[i];
      if (!x.c)
         return;
      C &c = *x.c;
      const C &cc = c;
      Seq &m = x.m;
      obs_range<T>("begin/end", c.begin(), c.end(), m, false);
      obs_range<T>("const begin/end", cc.begin(), cc.end(), m, false);
      obs_range<T>("cbegin/cend", cc.cbegin(), cc.cend(), m, false);
      if (!m.empty())
         obs_range_back<T>("backward", c.begin(), c.end(), m);
      if (c.size() != m.size() || c.empty() != m.empty() || c.capacity() < m.size() || c.max_size() < m.size())
         fail(SEM, "size", "size() %zu, empty() %d, capacity() %zu for %zu entries", (size_t)c.size(), (int)c.empty(), (size_t)c.capacity(), m.size());
      for (size_t q = 0; q < m.size(); q += 1 + m.size() / 8)
      {
         V w = m[first_of(m, m[q].v.key)].w;
         K t(El<K>::make(m[q].v));
         const M &a = lib([&]() -> const M & { return cc.at(t); });
         S->elem_checks++;
         if (!El<M>::same(a, w))
            fail(SEM, "content", "at() yields another value than the first entry with the key");
      }
      x.raw.check();
   }
   void observe_all(int hot = -1)
   {
      for (int i = 0; i < NS; ++i)
         if (hot < 0 || i == hot || s[i].m.size() < 32)
            observe(i);
      live_check(total());
      long blocks = 0;
      for (int i = 0; i < NS; ++i)
         blocks += s[i].c != 0;
      if (H.lib_blocks > blocks) // a copy of an empty one owns a block of no size
         fail(ALLOC, "blocks", "%ld library blocks alive for %ld objects", H.lib_blocks, blocks);
      uint64_t h = hstr(S->op);
      for (int i = 0; i < NS; ++i)
         h = hash_seq(h, s[i].m);
      note_state(h);
   }
   static void copy(Seq &to, const Seq &from)
   {
      Seq t;
      for (size_t i = 0; i < from.size(); ++i)
         t.push_back(E(from[i].v, from[i].w));
      to.swap(t);
   }
   void construct(int i)
   {
      SL &x = s[i];
      x.destroy();
      void *p = x.mem();
      int j = (i + 1 + r.below(2)) % NS;
      if (s[j].c && r.below(2))
      {
         op("vector_map(const vector_map&)", " s%d from s%d", i, j);
         const C &o = *s[j].c;
         lib([&]{ x.c = new(p) C(o); return 0; });
         copy(x.m, s[j].m);
      }
      else
      {
         op("vector_map()", " s%d", i);
         uint64_t a = H.lib_allocs;
         lib([&]{ x.c = new(p) C(); return 0; });
         if (H.lib_allocs != a)
            fail(ALLOC, "allocates", "an empty vector_map allocates");
      }
      observe_all();
   }
   void is_at(const char *what, const C &c, const Seq &m, CIt it, size_t at)
   {
      (void)m;
      if (it != c.begin() + at)
         fail(SEM, what, "denotes entry %ld, expected %zu", (long)(it - c.begin()), at);
   }
   void step()
   {
      int i = (int)r.below(NS);
      if (!s[i].c || r.below(60) == 0)
      {
         construct(i);
         return;
      }
      SL &x = s[i];
      C &c = *x.c;
      const C &cc = c;
      Seq &m = x.m;
      unsigned o = r.below(30);
      if (alias && r.below(2))
         o = 24 + r.below(4);
      if (iter && r.below(3) == 0)
         o = 28;
      switch (o)
      {
      case 0: case 1: case 2: case 3:
      {
         V a = pick(m), b = ww();
         op("insert(x)", " s%d %d:%d", i, a.key, b.key);
         size_t at = first_of(m, a.key);
         bool had = at < m.size();
         K tk(El<K>::make(a));
         M tm(El<M>::make(b));
         {
            T t(tk, tm);
            ttl::pair<It, bool> re = lib([&]{ return c.insert(t); });
            if (re.second == had)
               fail(SEM, "inserted-flag", "reports %d for a key that was%s there", re.second, had ? "" : " not");
            is_at("returned-iterator", c, m, re.first, at);
         }
         if (!had)
            m.push_back(E(a, b));
         live_check(total() + (El<K>::tracked ? 1 : 0) + (El<M>::tracked ? 1 : 0));
         break;
      }
      case 4: case 5: case 6: case 7:
      {
         V a = pick(m), b = ww();
         size_t at = first_of(m, a.key);
         bool had = at < m.size();
         op("[]=", " s%d [%d]=%d", i, a.key, b.key);
         K tk(El<K>::make(a));
         M tm(El<M>::make(b));
         M &ref = lib([&]() -> M & { return c[tk]; });
         if (!El<M>::same(ref, had ? m[at].w : El<M>::dflt()))
            fail(SEM, "content", "[] yields another value than the mapped one");
         ref = tm;
         if (had)
            m[at].w = b;
         else
            m.push_back(E(a, b));
         if ((const void *)&ref != (const void *)&(c.begin() + at)->second)
            fail(SEM, "content", "[] refers to something else than the entry's value");
         break;
      }
      case 8:
      {
         if (m.empty())
            return;
         V a = m[r.below(m.size())].v, b = ww();
         size_t at = first_of(m, a.key);
         op("at", " s%d %d", i, a.key);
         K tk(El<K>::make(a));
         M tm(El<M>::make(b));
         M &p = lib([&]() -> M & { return c.at(tk); });
         const M &q = lib([&]() -> const M & { return cc.at(tk); });
         if (&p != &q || !El<M>::same(p, m[at].w))
            fail(SEM, "content", "at() yields another value than the mapped one");
         p = tm;
         m[at].w = b;
         break;
      }
      case 9: case 10: case 11:
      {
         V a = pick(m);
         op("find", " s%d %d", i, a.key);
         K tk(El<K>::make(a));
         It it = lib([&]{ return c.find(tk); });
         CIt ci = lib([&]{ return cc.find(tk); });
         is_at("find", c, m, it, first_of(m, a.key));
         is_at("find", c, m, ci, first_of(m, a.key));
         break;
      }
      case 12: case 13:
      {
         V a = pick(m);
         op("count", " s%d %d", i, a.key);
         K tk(El<K>::make(a));
         size_t n = lib([&]{ return cc.count(tk); }), e = 0;
         for (size_t q = 0; q < m.size(); ++q)
            e += m[q].v.key == a.key;
         if (n != e)
            fail(SEM, "count", "count() is %zu, expected %zu", n, e);
         break;
      }
      case 14: case 15:
      {
         V a = pick(m), b = ww();
         op("push_back", " s%d %d:%d", i, a.key, b.key);
         K tk(El<K>::make(a));
         M tm(El<M>::make(b));
         T t(tk, tm);
         lib([&]{ c.push_back(t); return 0; });
         m.push_back(E(a, b));
         break;
      }
      case 16: case 17:
      {
         if (m.empty())
            return;
         size_t at = r.below(m.size());
         op("erase(pos)", " s%d [%zu]", i, at);
         It it = lib([&]{ return c.erase(c.begin() + at); });
         m.erase(m.begin() + at);
         is_at("returned-iterator", c, m, it, at);
         break;
      }
      case 18:
      {
         size_t a = r.below(m.size() + 1), b = a + r.below(m.size() - a + 1);
         op("erase(first,last)", " s%d [%zu,%zu)", i, a, b);
         It it = lib([&]{ return c.erase(c.begin() + a, c.begin() + b); });
         m.erase(m.begin() + a, m.begin() + b);
         is_at("returned-iterator", c, m, it, a);
         break;
      }
      case 19:
         if (r.below(2))
         {
            if (m.empty())
               return;
            op("pop_back", " s%d", i);
            lib([&]{ c.pop_back(); return 0; });
            m.pop_back();
         }
         else
         {
            op("clear", " s%d", i);
            lib([&]{ c.clear(); return 0; });
            m.clear();
         }
         break;
      case 20: case 21:
      {
         int j = (i + 1 + r.below(2)) % NS;
         if (!s[j].c)
            construct(j);
         op("swap", " s%d s%d", i, j);
         lib([&]{ c.swap(*s[j].c); return 0; });
         m.swap(s[j].m);
         break;
      }
      case 22:
      {
         size_t n = r.below(20), cap = c.capacity();
         op("reserve", " s%d %zu", i, n);
         lib([&]{ c.reserve(n); return 0; });
         if (c.capacity() < n || c.capacity() < cap)
            fail(ALLOC, "capacity", "capacity %zu after reserve(%zu)", (size_t)c.capacity(), n);
         // no insertion up to the capacity may allocate
         uint64_t a = H.lib_allocs;
         for (int q = 0; q < 20 && c.size() < c.capacity(); ++q)
         {
            V a = kk(), b = ww();
            K tk(El<K>::make(a));
            M tm(El<M>::make(b));
            T t(tk, tm);
            lib([&]{ c.push_back(t); return 0; });
            m.push_back(E(a, b));
         }
         if (H.lib_allocs != a)
            fail(ALLOC, "allocates", "inserting within the capacity allocates");
         break;
      }
      case 23:
      {
         if (m.empty())
            return;
         op("front/back", " s%d", i);
         chk<T>(c.front(), m[0], 0, "front");
         chk<T>(c.back(), m.back(), m.size() - 1, "back");
         chk<T>(cc.front(), m[0], 0, "const front");
         chk<T>(cc.back(), m.back(), m.size() - 1, "const back");
         break;
      }
      case 24:
      {
         if (m.empty())
            return;
         S->alias_ops++;
         size_t at = r.below(m.size());
         op("insert(own entry)", " s%d [%zu]", i, at);
         ttl::pair<It, bool> re = lib([&]{ return c.insert(c.begin()[at]); });
         if (re.second)
            fail(SEM, "inserted-flag", "an entry already there was inserted again");
         is_at("returned-iterator", c, m, re.first, first_of(m, m[at].v.key));
         break;
      }
      case 25:
      {
         if (m.empty())
            return;
         S->alias_ops++;
         size_t at = r.below(m.size());
         op("push_back(own entry)", " s%d [%zu]", i, at);
         lib([&]{ c.push_back(c.begin()[at]); return 0; });
         m.push_back(E(m[at].v, m[at].w));
         break;
      }
      case 26:
      {
         if (m.empty())
            return;
         S->alias_ops++;
         size_t at = r.below(m.size());
         size_t to = first_of(m, m[at].v.key);
         op("[own key]", " s%d [%zu]", i, at);
         M &ref = lib([&]() -> M & { return c[c.begin()[at].first]; });
         if ((const void *)&ref != (const void *)&(c.begin() + to)->second)
            fail(SEM, "content", "[] refers to something else than the entry's value");
         break;
      }
      case 27:
         S->alias_ops++;
         op("swap(self)", " s%d", i);
         lib([&]{ c.swap(c); return 0; });
         break;
      default:
         op("iterate", " s%d", i);
         walk_fwd<T, true>(r, c, m, iter ? 60 : 12);
         break;
      }
      observe_all(i);
   }
   void end()
   {
      for (int i = 0; i < NS; ++i)
      {
         op("~vector_map", " s%d", i);
         s[i].destroy();
         live_check(total());
      }
      if (H.lib_blocks)
         fail(ALLOC, "blocks", "%ld library blocks alive at the end", H.lib_blocks);
   }
   void run(unsigned ops)
   {
      for (unsigned q = 0; q < ops; ++q)
         step();
      end();
   }
};

static void the_case(Rng &r, uint64_t c)
{
   unsigned ops = r.range(10, 80);
   switch (c % 8)
   {
   case 0: case 1: case 2: Case<Tr, Tr>(r).run(ops); break;
   case 3: Case<Tr, int>(r).run(ops); break;
   case 4: Case<int, int>(r).run(ops * 2); break;
   case 5: Case<unsigned char, Tr>(r).run(ops); break;
   case 6: Case<Fat, Wide>(r).run(ops); break;
   default: Case<short, Fat>(r).run(ops); break;
   }
}
int main(int argc, char **argv) { return run(argc, argv, "vector_map", the_case); }
