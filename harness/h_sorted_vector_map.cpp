// Monitored histories over ttl::sorted_vector_map: unique keys in order, entries
// that stay where they are once inserted.
#include "core_impl.hpp"
#include "seq.hpp"
#include "ttl/ttl.hpp"
#include "ttl/sorted_vector_map.hpp"
using namespace mon;

namespace mon
{
   template<class K, class M> struct ElE<ttl::pair<K, M> >
   {
      typedef ttl::pair<K, M> P;
      static bool same(const P &t, const E &e) { return El<K>::same(t.first, e.v) && El<M>::same(t.second, e.w); }
      static V read(const P &t) { return El<K>::read(t.first); }
   };
}
template<class K> struct Desc { bool operator()(const K &a, const K &b) const { return b < a; } };
template<class Cmp> struct Dir { static const int d = 1; };
template<class K> struct Dir<Desc<K> > { static const int d = -1; };
static unsigned lg(size_t n)
{
   unsigned l = 0;
   while (n >>= 1)
      ++l;
   return l + 1;
}

template<class K, class M, class Cmp = ttl::less<K> >
struct Case
{
   typedef ttl::sorted_vector_map<K, M, Cmp> C;
   typedef typename C::value_type T;
   typedef typename C::iterator It;
   typedef typename C::const_iterator CIt;
   typedef Slot<C> SL;
   enum { NS = 3, DIR = Dir<Cmp>::d };
   Rng &r;
   Keys k;
   SL s[NS];
   bool alias, iter, value;
   Case(Rng &rr): r(rr), k(rr), alias(is("alias")), iter(is("iter")), value(is("value"))
   {
      if (r.below(2))
      {
         k.mode = 0;
         k.span = r.range(1, 40);
      }
   }
   size_t all() const
   {
      size_t n = 0;
      for (int i = 0; i < NS; ++i)
         n += s[i].m.size();
      return n;
   }
   size_t total() const { return all() * ((El<K>::tracked ? 1 : 0) + (El<M>::tracked ? 1 : 0)); }
   static bool before(int a, int b) { return DIR > 0 ? a < b : b < a; }
   static size_t lower(const Seq &m, int key)
   {
      size_t i = 0, n = m.size();
      while (n)
      {
         size_t h = n / 2;
         if (before(m[i + h].v.key, key))
            i += h + 1, n -= h + 1;
         else
            n = h;
      }
      return i;
   }
   static bool has(const Seq &m, int key, size_t &at)
   {
      at = lower(m, key);
      return at < m.size() && m[at].v.key == key;
   }
   V kk() { return El<K>::norm(k.v()); }
   V ww() { return El<M>::norm(k.v()); }
   V pick(const Seq &m)
   {
      V v = kk();
      if (!m.empty() && r.below(3))
      {
         v.key = m[r.below(m.size())].v.key;
         unsigned o = r.below(5);
         if (o == 0 && v.key < INT_MAX)
            ++v.key;
         else if (o == 1 && v.key > INT_MIN)
            --v.key;
         v = El<K>::norm(v);
      }
      return v;
   }
   struct Cost
   {
      uint64_t c0;
      Cost(): c0(S->elem_compare) {}
      void done(size_t n, unsigned mul) const
      {
         uint64_t c = S->elem_compare - c0, lim = mul * (12ull * lg(n + 1) + 24);
         if (El<K>::tracked && c > lim)
            fail(SEM, "comparisons", "%llu key comparisons with %zu entries (more than %llu)", (unsigned long long)c, n, (unsigned long long)lim);
      }
   };
   void observe(int i)
   {
      SL &x = s[i];
      if (!x.c)
         return;
      C &c = *x.c;
      const C &cc = c;
      Seq &m = x.m;
      obs_range<T>("begin/end", c.begin(), c.end(), m, true);
      obs_range<T>("const begin/end", cc.begin(), cc.end(), m, true);
      obs_range<T>("cbegin/cend", cc.cbegin(), cc.cend(), m, true);
      obs_range_back<T>("backward", c.begin(), c.end(), m);
      obs_range_back<T>("const backward", cc.begin(), cc.end(), m);
      if (cc.size() != m.size() || cc.empty() != m.empty() || cc.max_size() < m.size())
         fail(SEM, "size", "size() %zu, empty() %d, for %zu entries", (size_t)cc.size(), (int)cc.empty(), m.size());
      x.raw.check();
   }
   void observe_all(int hot = -1)
   {
      long objs = 0;
      for (int i = 0; i < NS; ++i)
      {
         objs += s[i].c != 0;
         if (hot < 0 || i == hot || s[i].m.size() < 32)
            observe(i);
      }
      live_check(total());
      if (H.lib_blocks > (long)all() + objs || H.lib_blocks < (long)all())
         fail(ALLOC, "blocks", "%ld library blocks alive for %zu entries in %ld maps", H.lib_blocks, all(), objs);
      uint64_t h = hstr(S->op);
      for (int i = 0; i < NS; ++i)
         h = hash_seq(h, s[i].m);
      note_state(h);
   }
   static void copy(Seq &to, const Seq &from)
   {
      Seq t;
      for (size_t i = 0; i < from.size(); ++i)
         t.push_back(E(from[i].v, from[i].w));
      to.swap(t);
   }
   void construct(int i)
   {
      SL &x = s[i];
      x.destroy();
      void *p = x.mem();
      int j = (i + 1 + r.below(2)) % NS;
      switch (r.below(s[j].c ? (value ? 9 : 5) : 3))
      {
      case 0:
         op("sorted_vector_map()", " s%d", i);
         lib([&]{ x.c = new(p) C(); return 0; });
         break;
      case 1: case 2:
      {
         size_t n = r.below(2) ? r.below(4) : r.below(40);
         op("sorted_vector_map(n)", " s%d n=%zu", i, n);
         lib([&]{ x.c = new(p) C(n); return 0; });
         if (r.below(2))
         {
            // up to n entries need no other array
            observe_all();
            uint64_t a = H.lib_allocs;
            for (size_t q = 0; q < n; ++q)
               add(i, El<K>::norm(V{(int)(q * 3 % 41), (unsigned)q}), ww());
            if (H.lib_allocs - a > x.m.size())
               fail(ALLOC, "allocates", "%llu allocations for %zu entries within the preallocated %zu", (unsigned long long)(H.lib_allocs - a), x.m.size(), n);
         }
         break;
      }
      default:
      {
         op("sorted_vector_map(const sorted_vector_map&)", " s%d from s%d", i, j);
         const C &o = *s[j].c;
         lib([&]{ x.c = new(p) C(o); return 0; });
         copy(x.m, s[j].m);
      }
      }
      observe_all();
   }
   void add(int i, V a, V b)
   {
      C &c = *s[i].c;
      Seq &m = s[i].m;
      size_t at;
      bool had = has(m, a.key, at);
      K tk(El<K>::make(a));
      M tm(El<M>::make(b));
      T t(tk, tm);
      Cost q;
      uint64_t al = H.lib_allocs;
      ttl::pair<It, bool> re = lib([&]{ return c.insert(t); });
      q.done(m.size(), 1);
      if (re.second == had)
         fail(SEM, "inserted-flag", "reports %d for a key that was%s there", re.second, had ? "" : " not");
      if (had && H.lib_allocs != al)
         fail(ALLOC, "allocates", "inserting a key that is there allocates");
      if (!had)
         m.insert(m.begin() + at, E(a, b));
      is_at("returned-iterator", c, re.first, at);
   }
   void is_at(const char *what, const C &c, CIt it, size_t at)
   {
      CIt e = c.begin();
      size_t n = 0;
      for (; n < at && e != c.end(); ++n)
         ++e;
      if (n != at || it != e)
         fail(SEM, what, "does not denote entry %zu", at);
   }
   void is_at(const char *what, C &c, It it, size_t at)
   {
      It e = c.begin();
      size_t n = 0;
      for (; n < at && e != c.end(); ++n)
         ++e;
      if (n != at || it != e)
         fail(SEM, what, "does not denote entry %zu", at);
   }
   void lookup(C &c, Seq &m, const K &t, int key)
   {
      const C &cc = c;
      size_t lo = lower(m, key), up = lo + (lo < m.size() && m[lo].v.key == key), n = m.size();
      size_t f = up > lo ? lo : n;
      switch (r.below(5))
      {
      case 0:
      {
         op("find", " %d", key);
         Cost q;
         It it = lib([&]{ return c.find(t); });
         CIt ci = lib([&]{ return cc.find(t); });
         q.done(n, 2);
         is_at("find", c, it, f);
         is_at("find", cc, ci, f);
         break;
      }
      case 1:
      {
         op("count", " %d", key);
         Cost q;
         size_t a = lib([&]{ return cc.count(t); });
         q.done(n, 1);
         if (a != up - lo)
            fail(SEM, "count", "count() is %zu, expected %zu", a, up - lo);
         break;
      }
      case 2:
      {
         op("lower_bound", " %d", key);
         Cost q;
         It it = lib([&]{ return c.lower_bound(t); });
         CIt ci = lib([&]{ return cc.lower_bound(t); });
         q.done(n, 2);
         is_at("lower_bound", c, it, lo);
         is_at("lower_bound", cc, ci, lo);
         break;
      }
      case 3:
      {
         op("upper_bound", " %d", key);
         Cost q;
         It it = lib([&]{ return c.upper_bound(t); });
         CIt ci = lib([&]{ return cc.upper_bound(t); });
         q.done(n, 2);
         is_at("upper_bound", c, it, up);
         is_at("upper_bound", cc, ci, up);
         break;
      }
      default:
      {
         op("equal_range", " %d", key);
         Cost q;
         ttl::pair<It, It> it = lib([&]{ return c.equal_range(t); });
         ttl::pair<CIt, CIt> ci = lib([&]{ return cc.equal_range(t); });
         q.done(n, 4);
         if (up == lo)
         {
            // no entry has the key: the range is empty
            if (it.first != it.second || ci.first != ci.second)
               fail(SEM, "equal_range", "is not empty for a missing key");
            break;
         }
         is_at("equal_range.first", c, it.first, lo);
         is_at("equal_range.second", c, it.second, up);
         is_at("equal_range.first", cc, ci.first, lo);
         is_at("equal_range.second", cc, ci.second, up);
      }
      }
   }
   void step()
   {
      int i = (int)r.below(NS);
      if (!s[i].c || r.below(value ? 15 : 50) == 0)
      {
         construct(i);
         return;
      }
      SL &x = s[i];
      C &c = *x.c;
      const C &cc = c;
      Seq &m = x.m;
      unsigned o = r.below(24);
      if (alias && r.below(2))
         o = 18 + r.below(3);
      if (iter && r.below(3) == 0)
         o = 23;
      switch (o)
      {
      case 0: case 1: case 2: case 3: case 4:
      {
         V a = pick(m), b = ww();
         op("insert(x)", " s%d %d:%d", i, a.key, b.key);
         add(i, a, b);
         break;
      }
      case 5: case 6: case 7: case 8: case 9:
      {
         V a = pick(m), b = ww();
         size_t at;
         bool had = has(m, a.key, at);
         op("[]=", " s%d [%d]=%d", i, a.key, b.key);
         M *pref = 0;
         {
            K tk(El<K>::make(a));
            M tm(El<M>::make(b));
            Cost q;
            uint64_t al = H.lib_allocs;
            M &ref = lib([&]() -> M & { return c[tk]; });
            q.done(m.size(), 1);
            if (had && H.lib_allocs != al)
               fail(ALLOC, "allocates", "[] of a key that is there allocates");
            if (!El<M>::same(ref, had ? m[at].w : El<M>::dflt()))
               fail(SEM, "content", "[] yields another value than the mapped one");
            ref = tm;
            pref = &ref;
         }
         if (had)
            m[at].w = b;
         else
            m.insert(m.begin() + at, E(a, b));
         observe_all(i);
         if (pref != &it_at(c, at)->second)
            fail(SEM, "content", "[] refers to something else than the entry's value");
         return;
      }
      case 10: case 11:
      {
         if (m.empty())
            return;
         size_t at = r.below(m.size());
         V b = ww();
         op("at", " s%d %d", i, m[at].v.key);
         K tk(El<K>::make(m[at].v));
         M tm(El<M>::make(b));
         M &p = lib([&]() -> M & { return c.at(tk); });
         const M &q = lib([&]() -> const M & { return cc.at(tk); });
         if (&p != &q || !El<M>::same(p, m[at].w))
            fail(SEM, "content", "at() yields another value than the mapped one");
         p = tm;
         m[at].w = b;
         break;
      }
      case 12: case 13: case 14: case 15: case 16:
      {
         V a = pick(m);
         K t(El<K>::make(a));
         for (int q = 0; q < 3; ++q)
            lookup(c, m, t, a.key);
         return;
      }
      case 17:
      {
         if (r.below(3))
         {
            if (m.size() < 2)
               return;
            op("key_comp/value_comp", " s%d", i);
            size_t a = r.below(m.size()), b = r.below(m.size());
            It p = it_at(c, a), q = it_at(c, b);
            if (cc.key_comp()(p->first, q->first) != (a < b) || cc.value_comp()(*p, *q) != (a < b))
               fail(SEM, "comparison-objects", "do not order entries %zu and %zu", a, b);
            break;
         }
         op("clear", " s%d (%zu)", i, m.size());
         uint64_t a = H.lib_allocs;
         lib([&]{ c.clear(); return 0; });
         m.clear();
         if (H.lib_allocs != a)
            fail(ALLOC, "allocates", "clear allocates");
         break;
      }
      case 18:
      {
         if (m.empty())
            return;
         S->alias_ops++;
         size_t at = r.below(m.size());
         op("insert(own entry)", " s%d [%zu]", i, at);
         It own = it_at(c, at);
         ttl::pair<It, bool> re = lib([&]{ return c.insert(*own); });
         if (re.second)
            fail(SEM, "inserted-flag", "an entry already there was inserted again");
         is_at("returned-iterator", c, re.first, at);
         break;
      }
      case 19:
      {
         if (m.empty())
            return;
         S->alias_ops++;
         size_t at = r.below(m.size());
         op("[own key]", " s%d [%zu]", i, at);
         It own = it_at(c, at);
         M &ref = lib([&]() -> M & { return c[own->first]; });
         if (&ref != &own->second)
            fail(SEM, "content", "[] refers to something else than the entry's value");
         break;
      }
      case 20:
      {
         // references stay valid over the insertion of another key
         if (m.empty())
            return;
         S->alias_ops++;
         size_t at = r.below(m.size()), to;
         V a = pick(m), w = m[at].w;
         op("[]=own value", " s%d [%d]=[%zu]", i, a.key, at);
         K tk(El<K>::make(a));
         const M &own = it_at(c, at)->second;
         lib([&]{ c[tk] = own; return 0; });
         if (has(m, a.key, to))
            m[to].w = w;
         else
            m.insert(m.begin() + to, E(a, w));
         break;
      }
      default:
         op("iterate", " s%d", i);
         walk_fwd<T, true>(r, c, m, iter ? 60 : 12);
         break;
      }
      observe_all(i);
   }
   void end()
   {
      for (int i = 0; i < NS; ++i)
      {
         op("~sorted_vector_map", " s%d", i);
         s[i].destroy();
         live_check(total());
      }
      if (H.lib_blocks)
         fail(ALLOC, "blocks", "%ld library blocks alive at the end", H.lib_blocks);
   }
   void run(unsigned ops)
   {
      for (unsigned q = 0; q < ops; ++q)
         step();
      end();
   }
   void large(unsigned n)
   {
      S->large_cases++;
      construct(0);
      int how = (int)r.below(3);
      op("insert*", " n=%u how=%d", n, how);
      uint64_t a = H.lib_allocs - s[0].m.size();
      for (unsigned q = 0; q < n; ++q)
      {
         V v = {how == 0 ? (int)q * 2 : how == 1 ? -(int)q : (int)r.next(), q + 1};
         add(0, El<K>::norm(v), ww());
      }
      // growth is geometric
      uint64_t arrays = H.lib_allocs - a - s[0].m.size();
      if (arrays > 8 + 4ull * lg(n))
         fail(ALLOC, "growth", "%llu arrays allocated while inserting %u entries", (unsigned long long)arrays, n);
      observe_all();
      for (int q = 0; q < 40; ++q)
         step();
      end();
   }
};

static void the_case(Rng &r, uint64_t c)
{
   unsigned ops = r.range(10, 80);
   if (c % 9 == 4)
   {
      if (c % 2)
         Case<Fine, Tr>(r).run(ops);
      else
         Case<Fine, int, Desc<Fine> >(r).run(ops);
      return;
   }
   if (c % 61 == 50)
   {
      unsigned n = r.below(3) ? r.range(60, 300) : r.range(300, 900);
      if (c & 1)
         Case<Tr, int>(r).large(n);
      else
         Case<int, Tr>(r).large(n);
      return;
   }
   switch (c % 8)
   {
   case 0: case 1: Case<Tr, Tr>(r).run(ops); break;
   case 2: Case<Tr, Tr, Desc<Tr> >(r).run(ops); break;
   case 3: Case<Tr, int>(r).run(ops); break;
   case 4: Case<int, int>(r).run(ops * 2); break;
   case 5: Case<unsigned char, Tr>(r).run(ops); break;
   case 6: Case<Fat, Wide, Desc<Fat> >(r).run(ops); break;
   default: Case<short, Fat>(r).run(ops); break;
   }
}
int main(int argc, char **argv) { return run(argc, argv, "sorted_vector_map", the_case); }
