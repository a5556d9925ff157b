// Monitored histories over ttl::map and ttl::set
#include "core_impl.hpp"
#include "seq.hpp"
#include "ttl/ttl.hpp"
using namespace mon;

namespace mon
{
   template<class K, class M> struct ElE<ttl::pair<const K, M> >
   {
      typedef ttl::pair<const K, M> P;
      static bool same(const P &t, const E &e) { return El<K>::same(t.first, e.v) && El<M>::same(t.second, e.w); }
      static V read(const P &t) { return El<K>::read(t.first); }
   };
}

template<class K> struct Desc { bool operator()(const K &a, const K &b) const { return b < a; } };
template<class Cmp> struct Dir { static const int d = 1; };
template<class K> struct Dir<Desc<K> > { static const int d = -1; };

static unsigned lg(size_t n)
{
   unsigned l = 0;
   while (n >>= 1)
      ++l;
   return l + 1;
}

// A range yielding pair-like values for map, or values for set
template<class C, bool MAP, class K, class M>
struct Case
{
   typedef Slot<C> SL;
   typedef typename C::value_type T;
   typedef typename C::iterator It;
   typedef typename C::const_iterator CIt;
   enum { NS = 3, DIR = Dir<typename C::key_compare>::d };
   Rng &r;
   Keys k;
   SL s[NS];
   Held<C, T> held;
   Case(Rng &rr): r(rr), k(rr) {}

   size_t all() const
   {
      size_t n = 0;
      for (int i = 0; i < NS; ++i)
         n += s[i].m.size();
      return n;
   }
   size_t total() const
   {
      return all() * ((El<K>::tracked ? 1 : 0) + (MAP && El<M>::tracked ? 1 : 0));
   }
   static bool before(int a, int b) { return DIR > 0 ? a < b : b < a; }
   // index of the first entry not before key
   static size_t lower(const Seq &m, int key)
   {
      size_t i = 0, n = m.size();
      while (n)
      {
         size_t h = n / 2;
         if (before(m[i + h].v.key, key))
            i += h + 1, n -= h + 1;
         else
            n = h;
      }
      return i;
   }
   static bool has(const Seq &m, int key, size_t &at)
   {
      at = lower(m, key);
      return at < m.size() && m[at].v.key == key;
   }
   static bool madd(Seq &m, V kk, V vv)
   {
      size_t at;
      if (has(m, kk.key, at))
         return false;
      m.insert(m.begin() + at, E(kk, vv));
      return true;
   }
   void observe(int i)
   {
      SL &x = s[i];
      if (!x.c)
         return;
      C &c = *x.c;
      const C &cc = c;
      Seq &m = x.m;
      obs_range<T>("forward", c.begin(), c.end(), m, true);
      if (c.empty() != m.empty() || cc.empty() != m.empty())
         fail(SEM, "empty", "empty() is %d with %zu elements", (int)c.empty(), m.size());
      if (c.max_size() < m.size())
         fail(SEM, "max_size");
      if (m.size() < 100 || r.below(8) == 0)
      {
         obs_range<T>("const", cc.begin(), cc.end(), m, true);
         obs_range<T>("cbegin", c.cbegin(), c.cend(), m, true);
         if (!m.empty())
         {
            obs_range_back<T>("backward", c.begin(), c.end(), m);
            obs_range_back<T>("const backward", cc.begin(), cc.end(), m);
         }
         else
         {
            // there is nowhere to go: the iterators look for this and stay
            It e = c.end();
            typename C::const_iterator ce = cc.end();
            lib([&]{ --e; e--; --ce; ce--; return 0; });
            if (e != c.end() || ce != cc.end() || e != c.begin())
               fail(SEM, "before-empty", "stepping back in an empty container leaves end()");
         }
      }
      x.raw.check();
   }
   void observe_all(int hot = -1)
   {
      for (int i = 0; i < NS; ++i)
         if (hot < 0 || i == hot || s[i].m.size() < 64)
            observe(i);
      held.check(s, NS);
      live_check(total());
      if (H.lib_blocks != (long)all())
         fail(ALLOC, "blocks", "%ld library blocks alive for %zu elements", H.lib_blocks, all());
      uint64_t h = hstr(S->op);
      for (int i = 0; i < NS; ++i)
         h = hash_seq(h, s[i].m);
      note_state(h);
   }
   // Bounds the comparisons one operation on n elements made
   struct Cost
   {
      uint64_t c0;
      Cost(): c0(S->elem_compare) {}
      void done(size_t n, unsigned mul) const
      {
         if (!El<K>::tracked)
            return;
         uint64_t c = S->elem_compare - c0, lim = mul * (12ull * lg(n + 1) + 24);
         if (c > lim)
            fail(SEM, "comparisons", "%llu key comparisons with %zu elements (more than %llu)", (unsigned long long)c, n, (unsigned long long)lim);
      }
   };
   struct In { K first; M second; In(V a, V b): first(El<K>::make(a)), second(El<M>::make(b)) {} };

   void gen(size_t n, std::vector<V> &a, std::vector<V> &b)
   {
      for (size_t i = 0; i < n; ++i)
      {
         a.push_back(El<K>::norm(k.v()));
         V w = {0, 0};
         b.push_back(MAP ? El<M>::norm(k.v()) : w);
      }
   }
   template<class F> void feed(const std::vector<V> &a, const std::vector<V> &b, F f)
   {
      if constexpr (MAP)
      {
         if (r.below(2))
         {
            std::vector<In> in;
            in.reserve(a.size());
            for (size_t i = 0; i < a.size(); ++i)
               in.emplace_back(a[i], b[i]);
            const In *p = in.data();
            f(p, p + a.size());
         }
         else
         {
            Source<In> src;
            src.vals.reserve(a.size());
            for (size_t i = 0; i < a.size(); ++i)
               src.vals.emplace_back(a[i], b[i]);
            f(InIt2(src, 0), InIt2(src, a.size()));
         }
      }
      else
      {
         Source<K> src;
         src.vals.reserve(a.size());
         for (size_t i = 0; i < a.size(); ++i)
            src.vals.push_back(El<K>::make(a[i]));
         if (r.below(2))
         {
            const K *p = src.vals.data();
            f(p, p + a.size());
         }
         else
            f(InIt<K>(src, 0), InIt<K>(src, a.size()));
      }
   }
   struct InIt2
   {
      typedef In value_type;
      typedef const In *pointer;
      typedef const In &reference;
      typedef ptrdiff_t difference_type;
      typedef std::input_iterator_tag iterator_category;
      Source<In> *s;
      size_t p;
      InIt2(): s(0), p(0) {}
      InIt2(Source<In> &src, size_t at): s(&src), p(at) {}
      const In &chk() const
      {
         S->disc_events++;
         if (p >= s->vals.size())
         {
            fail(DISC | MEM, "read-past-end", "source read at %zu of %zu", p, s->vals.size());
            _exit(EXIT_MON);
         }
         if (p != s->pos)
            fail(DISC, "second-pass", "single-pass source read again");
         return s->vals[p];
      }
      const In &operator*() const { return chk(); }
      const In *operator->() const { return &chk(); }
      InIt2 &operator++() { S->disc_events++; s->pos = ++p; return *this; }
      struct Post { In v; const In &operator*() const { return v; } };
      Post operator++(int)
      {
         Post x = {chk()};
         ++*this;
         return x;
      }
      bool operator==(const InIt2 &o) const { return p == o.p; }
      bool operator!=(const InIt2 &o) const { return p != o.p; }
   };
   void construct(int i)
   {
      SL &x = s[i];
      x.destroy();
      void *p = x.mem_for_node();
      unsigned o = r.below(5);
      int j = (i + 1 + r.below(2)) % NS;
      if (o == 2 && !s[j].c)
         o = 0;
      switch (o)
      {
      case 0: case 1:
         op(MAP ? "map()" : "set()", " s%d", i);
         lib([&]{ x.c = new(p) C(); return 0; });
         break;
      case 2:
      {
         op(MAP ? "map(const map&)" : "set(const set&)", " s%d from s%d", i, j);
         const C &o = *s[j].c;
         lib([&]{ x.c = new(p) C(o); return 0; });
         copy(x.m, s[j].m);
         break;
      }
      default:
      {
         std::vector<V> a, b;
         gen(r.below(12), a, b);
         op(MAP ? "map(first,last)" : "set(first,last)", " s%d n=%zu", i, a.size());
         feed(a, b, [&](auto f, auto l) { lib([&]{ x.c = new(p) C(f, l); return 0; }); });
         for (size_t q = 0; q < a.size(); ++q)
            madd(x.m, a[q], b[q]);
      }
      }
      observe_all();
   }
   static void copy(Seq &to, const Seq &from)
   {
      Seq t;
      for (size_t i = 0; i < from.size(); ++i)
         t.push_back(E(from[i].v, from[i].w));
      to.swap(t);
   }
   // a key to look for: present, or a neighbour, or anything
   V pick(const Seq &m)
   {
      V v = El<K>::norm(k.v());
      if (!m.empty() && r.below(3))
      {
         v.key = m[r.below(m.size())].v.key;
         unsigned o = r.below(6);
         if (o == 0 && v.key < INT_MAX)
            ++v.key;
         else if (o == 1 && v.key > INT_MIN)
            --v.key;
         v = El<K>::norm(v);
      }
      return v;
   }
   void is_at(const char *what, C &c, Seq &m, It it, size_t at)
   {
      if (at >= m.size() ? it != c.end() : (it == c.end() || (const void *)&*it != m[at].addr))
         fail(SEM, what, "does not denote entry %zu of %zu", at, m.size());
   }
   void is_at(const char *what, const C &c, Seq &m, CIt it, size_t at)
   {
      if (at >= m.size() ? it != c.end() : (it == c.end() || (const void *)&*it != m[at].addr))
         fail(SEM, what, "(const) does not denote entry %zu of %zu", at, m.size());
   }
   void lookup(C &c, Seq &m, const K &t, int key)
   {
      const C &cc = c;
      size_t lo = lower(m, key), up = lo + (lo < m.size() && m[lo].v.key == key), n = m.size();
      size_t f = up > lo ? lo : n;
      switch (r.below(5))
      {
      case 0:
      {
         op("find", " %d", key);
         Cost q;
         It it = lib([&]{ return c.find(t); });
         CIt ci = lib([&]{ return cc.find(t); });
         q.done(n, 2);
         is_at("find", c, m, it, f);
         is_at("find", cc, m, ci, f);
         break;
      }
      case 1:
      {
         op("count", " %d", key);
         Cost q;
         size_t a = lib([&]{ return cc.count(t); });
         q.done(n, 1);
         if (a != up - lo)
            fail(SEM, "count", "count() is %zu, expected %zu", a, up - lo);
         break;
      }
      case 2:
      {
         op("lower_bound", " %d", key);
         Cost q;
         It it = lib([&]{ return c.lower_bound(t); });
         CIt ci = lib([&]{ return cc.lower_bound(t); });
         q.done(n, 2);
         is_at("lower_bound", c, m, it, lo);
         is_at("lower_bound", cc, m, ci, lo);
         break;
      }
      case 3:
      {
         op("upper_bound", " %d", key);
         Cost q;
         It it = lib([&]{ return c.upper_bound(t); });
         CIt ci = lib([&]{ return cc.upper_bound(t); });
         q.done(n, 2);
         is_at("upper_bound", c, m, it, up);
         is_at("upper_bound", cc, m, ci, up);
         break;
      }
      default:
      {
         op("equal_range", " %d", key);
         Cost q;
         ttl::pair<It, It> it = lib([&]{ return c.equal_range(t); });
         ttl::pair<CIt, CIt> ci = lib([&]{ return cc.equal_range(t); });
         q.done(n, 4);
         is_at("equal_range.first", c, m, it.first, lo);
         is_at("equal_range.second", c, m, it.second, up);
         is_at("equal_range.first", cc, m, ci.first, lo);
         is_at("equal_range.second", cc, m, ci.second, up);
      }
      }
   }
   void step()
   {
      int i = (int)r.below(NS);
      if (!s[i].c || r.below(50) == 0)
      {
         construct(i);
         if (r.below(2))
            return;
      }
      SL &x = s[i];
      C &c = *x.c;
      Seq &m = x.m;
      if (!m.empty() && r.below(4) == 0)
      {
         size_t q = r.below(m.size());
         held.hold(it_at(c, q), m[q].uid);
      }
      unsigned o = r.below(34);
      if (is("value"))
      {
         static const unsigned w[] = {12, 13, 14, 15, 0, 2, 6, 4, 12, 13, 14, 11};
         o = w[r.below(sizeof w / sizeof *w)];
      }
      else if (is("alias") && r.below(3))
         o = 24 + r.below(6);
      switch (o)
      {
      case 0: case 1: case 2: case 3: case 20: case 21:
      {
         V kk = pick(m), vv = {0, 0};
         if (MAP)
            vv = El<M>::norm(k.v());
         op("insert(x)", " s%d %d:%d", i, kk.key, vv.key);
         size_t at;
         bool had = has(m, kk.key, at), got = false;
         It it = c.end();
         {
            K tk(El<K>::make(kk));
            if constexpr (MAP)
            {
               M tm(El<M>::make(vv));
               T t(tk, tm);
               Cost q;
               ttl::pair<It, bool> re = lib([&]{ return c.insert(t); });
               q.done(m.size(), 1);
               it = re.first;
               got = re.second;
            }
            else
            {
               Cost q;
               ttl::pair<It, bool> re = lib([&]{ return c.insert(tk); });
               q.done(m.size(), 1);
               it = re.first;
               got = re.second;
            }
         }
         madd(m, kk, vv);
         if (got == had)
            fail(SEM, "inserted-flag", "reports %d for a key that was%s there", got, had ? "" : " not");
         observe_all(i);
         is_at("returned-iterator", c, m, it, at);
         return;
      }
      case 4: case 5:
      {
         std::vector<V> a, b;
         gen(r.below(8), a, b);
         op("insert(first,last)", " s%d n=%zu", i, a.size());
         feed(a, b, [&](auto f, auto l) { lib([&]{ c.insert(f, l); return 0; }); });
         for (size_t q = 0; q < a.size(); ++q)
            madd(m, a[q], b[q]);
         break;
      }
      case 6: case 7: case 8: case 9: case 10: case 22: case 23:
      {
         V kk = pick(m);
         op("erase(key)", " s%d %d", i, kk.key);
         size_t at, n;
         bool had = has(m, kk.key, at);
         {
            K t(El<K>::make(kk));
            Cost q;
            n = lib([&]{ return c.erase(t); });
            q.done(m.size(), 2);
         }
         if (n != (had ? 1u : 0u))
            fail(SEM, "erased-count", "erase() returned %zu for a key that was%s there", n, had ? "" : " not");
         if (had)
            m.erase(m.begin() + at);
         break;
      }
      case 11:
         if (r.below(3))
            return;
         op("clear", " s%d (size %zu)", i, m.size());
         lib([&]{ c.clear(); return 0; });
         m.clear();
         break;
      case 12: case 13:
      {
         int j = (i + 1 + r.below(2)) % NS;
         if (!s[j].c)
            construct(j);
         const C &oc = *s[j].c;
         op("operator=", " s%d (%zu) = s%d (%zu)", i, m.size(), j, s[j].m.size());
         C *rr = 0;
         lib([&]{ rr = &(c = oc); return 0; });
         if (rr != &c)
            fail(SEM, "returned-reference");
         copy(m, s[j].m);
         break;
      }
      case 14:
         {
            int j = (int)r.below(NS);
            if (!s[j].c)
               construct(j);
            const C &a = c, &b = *s[j].c;
            op("==", " s%d s%d", i, j);
            bool eq = m.size() == s[j].m.size();
            for (size_t q = 0; eq && q < m.size(); ++q)
               eq = el_eq<K>(m[q].v, s[j].m[q].v) && (!MAP || el_eq<M>(m[q].w, s[j].m[q].w));
            bool e1 = lib([&]{ return a == b; }), e2 = lib([&]{ return a != b; });
            if (e1 != eq || e2 == eq)
               fail(SEM, "equality", "== gives %d, != gives %d, contents are %s", e1, e2, eq ? "equal" : "different");
            break;
         }
      case 15: case 16:
         if constexpr (MAP)
         {
            V kk = pick(m), vv = El<M>::norm(k.v());
            op("[]=", " s%d [%d]=%d", i, kk.key, vv.key);
            size_t at;
            bool had = has(m, kk.key, at);
            const void *pa = 0;
            {
               K t(El<K>::make(kk));
               M tm(El<M>::make(vv));
               Cost q;
               M &ref = lib([&]() -> M & { return c[t]; });
               q.done(m.size(), 2);
               V was = had ? m[at].w : El<M>::dflt();
               if (!El<M>::same(ref, was))
                  fail(SEM, "content", "[] yields another value than the mapped one");
               ref = tm;
               pa = &ref;
            }
            if (had)
               m[at].w = vv;
            else
               m.insert(m.begin() + at, E(kk, vv));
            observe_all(i);
            It it = it_at(c, at);
            if ((const void *)&it->second != pa)
               fail(SEM, "content", "[] refers to something else than the entry's value");
            return;
         }
         else
            goto look;
      case 17:
         if constexpr (MAP)
         {
            if (m.empty())
               return;
            size_t at = r.below(m.size());
            V vv = El<M>::norm(k.v());
            op("at", " s%d [%d]", i, m[at].v.key);
            const C &cc = c;
            {
               K t(El<K>::make(m[at].v));
               M tm(El<M>::make(vv));
               M &a = lib([&]() -> M & { return c.at(t); });
               const M &b = lib([&]() -> const M & { return cc.at(t); });
               if (&a != &b || !El<M>::same(a, m[at].w))
                  fail(SEM, "content", "at() yields another value than the mapped one");
               if (r.below(2))
               {
                  a = tm;
                  m[at].w = vv;
               }
               else
               {
                  It it = it_at(c, at);
                  if (r.below(2))
                     it->second = tm;
                  else
                     (*it).second = tm;
                  m[at].w = vv;
               }
            }
            break;
         }
         else
            goto look;
      case 24: case 25:
      {
         if (m.empty())
            return;
         S->alias_ops++;
         size_t at = r.below(m.size());
         op("erase(own key)", " s%d [%zu]", i, at);
         It it = it_at(c, at);
         size_t n;
         if constexpr (MAP)
            n = lib([&]{ return c.erase(it->first); });
         else
            n = lib([&]{ return c.erase(*it); });
         if (n != 1)
            fail(SEM, "erased-count", "erase() returned %zu", n);
         m.erase(m.begin() + at);
         break;
      }
      case 26:
      {
         if (m.empty())
            return;
         S->alias_ops++;
         size_t at = r.below(m.size());
         op("insert(own entry)", " s%d [%zu]", i, at);
         It it = it_at(c, at);
         ttl::pair<It, bool> re = lib([&]{ return c.insert(*it); });
         if (re.second)
            fail(SEM, "inserted-flag", "an entry already there was inserted again");
         is_at("returned-iterator", c, m, re.first, at);
         break;
      }
      case 27: case 28:
      {
         S->alias_ops++;
         op("operator=(self)", " s%d (%zu)", i, m.size());
         const C &self = c;
         lib([&]{ c = self; return 0; });
         copy(m, m);
         break;
      }
      case 29:
         if constexpr (MAP)
         {
            // the reference obtained from one [] must survive the other's insertion
            if (m.empty())
               return;
            S->alias_ops++;
            size_t at = r.below(m.size()), to;
            V kk = pick(m);
            op("[]=own value", " s%d [%d]=[%zu]", i, kk.key, at);
            V w = m[at].w;
            {
               K t(El<K>::make(kk));
               It it = it_at(c, at);
               lib([&]{ c[t] = it->second; return 0; });
            }
            if (has(m, kk.key, to))
               m[to].w = w;
            else
               m.insert(m.begin() + to, E(kk, w));
            break;
         }
         else
            return;
      case 18: case 19: case 30: case 31:
      look: __attribute__((unused));
      {
         V kk = pick(m);
         K t(El<K>::make(kk));
         for (int q = 0; q < 3; ++q)
            lookup(c, m, t, kk.key);
         break;
      }
      default:
         if (m.size() > 1 && r.below(3) == 0)
         {
            size_t a = r.below(m.size()), b = r.below(m.size());
            op("key_compare/value_compare", " s%d [%zu] [%zu]", i, a, b);
            typename C::const_iterator p = c.begin(), q = p;
            for (size_t z = 0; z < m.size(); ++z)
            {
               if (z < a)
                  ++p;
               if (z < b)
                  ++q;
            }
            bool vc = lib([&]{ return typename C::value_compare()(*p, *q); }), kc;
            if constexpr (MAP)
               kc = lib([&]{ return typename C::key_compare()(p->first, q->first); });
            else
               kc = lib([&]{ return typename C::key_compare()(*p, *q); });
            if (vc != (a < b) || kc != (a < b))
               fail(SEM, "comparison-objects", "do not order elements %zu and %zu", a, b);
            break;
         }
         op("iterate", " s%d", i);
         walk_fwd<T, true>(r, c, m, is("iter") ? 60 : 12);
         break;
      }
      observe_all(i);
   }
   void end()
   {
      held.h.clear();
      for (int i = 0; i < NS; ++i)
      {
         op(MAP ? "~map" : "~set", " s%d", i);
         s[i].destroy();
         live_check(total());
         if (H.lib_blocks != (long)all())
            fail(ALLOC, "blocks", "%ld library blocks alive for %zu elements", H.lib_blocks, all());
      }
   }
   void run(unsigned ops)
   {
      for (unsigned q = 0; q < ops; ++q)
         step();
      if (is("iter"))
         for (int i = 0; i < NS; ++i)
            if (s[i].c)
            {
               op("iterate");
               walk_fwd<T, true>(r, *s[i].c, s[i].m, 80);
            }
      end();
   }
   void add1(int i, V kk, V vv)
   {
      C &c = *s[i].c;
      K tk(El<K>::make(kk));
      Cost q;
      if constexpr (MAP)
      {
         M tm(El<M>::make(vv));
         T t(tk, tm);
         lib([&]{ c.insert(t); return 0; });
      }
      else
         lib([&]{ c.insert(tk); return 0; });
      q.done(s[i].m.size(), 1);
      madd(s[i].m, kk, vv);
   }
   void del1(int i, V kk)
   {
      C &c = *s[i].c;
      size_t at;
      bool had = has(s[i].m, kk.key, at);
      K t(El<K>::make(kk));
      Cost q;
      size_t n = lib([&]{ return c.erase(t); });
      q.done(s[i].m.size(), 2);
      if (n != (had ? 1u : 0u))
         fail(SEM, "erased-count", "erase() returned %zu for a key that was%s there", n, had ? "" : " not");
      if (had)
         s[i].m.erase(s[i].m.begin() + at);
   }
   // Many entries: ascending, descending or shuffled insertion, then erasure in
   // another order with the full contents compared now and then.
   void large(unsigned n)
   {
      S->large_cases++;
      construct(0);
      int how = (int)r.below(4);
      op("insert*", " n=%u order=%d", n, how);
      std::vector<int> keys;
      for (unsigned q = 0; q < n; ++q)
         keys.push_back(how == 3 ? (int)r.next() : (int)q * 2);
      if (how == 1)
         std::reverse(keys.begin(), keys.end());
      if (how == 2)
         for (unsigned q = n; q > 1; --q)
            std::swap(keys[q - 1], keys[r.below(q)]);
      for (unsigned q = 0; q < n; ++q)
      {
         V a = {keys[q], q + 1000}, b = {(int)q, q};
         add1(0, El<K>::norm(a), MAP ? El<M>::norm(b) : V{0, 0});
         if (n < 400 && q % 16 == 0)
            observe_all();
      }
      observe_all();
      construct(1);
      op("operator=", " s1 = s0 (large)");
      {
         C &d = *s[1].c;
         const C &src = *s[0].c;
         lib([&]{ d = src; return 0; });
         copy(s[1].m, s[0].m);
      }
      observe_all();
      for (int q = 0; q < 10; ++q)
         step();
      op("erase*", " n=%u", n);
      int how2 = (int)r.below(4);
      if (how2 == 0)
         std::sort(keys.begin(), keys.end());
      else if (how2 == 1)
         std::sort(keys.rbegin(), keys.rend());
      else if (how2 == 2)
         for (unsigned q = n; q > 1; --q)
            std::swap(keys[q - 1], keys[r.below(q)]);
      unsigned until = r.below(2) ? n : n / 2;
      for (unsigned q = 0; q < until; ++q)
      {
         V a = {keys[q], 1};
         del1(0, El<K>::norm(a));
         if (q % (n < 400 ? 16 : 97) == 0)
            observe_all(0);
      }
      observe_all();
      end();
   }
   // Every order of inserting n keys, then every single erasure (n <= 5), and
   // pairs of them, with lookups of all neighbours.
   void perms(unsigned n, unsigned which)
   {
      std::vector<int> p;
      for (unsigned q = 0; q < n; ++q)
         p.push_back((int)q * 2);
      for (unsigned w = which; w; --w)
         if (!std::next_permutation(p.begin(), p.end()))
            break;
      std::vector<int> e(p);
      std::sort(e.begin(), e.end());
      for (int t = 0; t < 24; ++t)
      {
         SL &x = s[0];
         x.destroy();
         void *mem = x.mem_for_node();
         op(MAP ? "map()" : "set()", " permutation %u of %u", which, n);
         lib([&]{ x.c = new(mem) C(); return 0; });
         for (unsigned q = 0; q < n; ++q)
         {
            V a = {p[q], q + 1}, b = {p[q] + 1, q + 77};
            op("insert(x)", " %d", p[q]);
            add1(0, a, MAP ? b : V{0, 0});
            observe_all();
         }
         for (int key = -1; key <= (int)n * 2; ++key)
         {
            V a = {key, 5};
            K tk(El<K>::make(a));
            lookup(*x.c, x.m, tk, key);
         }
         // erase in a random order
         for (unsigned q = n; q > 1; --q)
            std::swap(e[q - 1], e[r.below(q)]);
         for (unsigned q = 0; q < n; ++q)
         {
            V a = {e[q] + (r.below(6) == 0), 9};
            op("erase(key)", " %d", a.key);
            del1(0, a);
            observe_all();
         }
      }
      end();
   }
};
