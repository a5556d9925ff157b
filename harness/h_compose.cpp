// Algorithms on the containers' own iterators, and containers filled from each other.
// MON_PART selects the kinds of the second container.
#include "algo.hpp"
#include "ttl/numeric.hpp"
#ifndef MON_PART
#define MON_PART 0
#endif

enum { N_ARRAY = 9, N_FIXED = 40, N_MAX = 40 };
typedef ttl::vector<Tr> Vec;
typedef ttl::fixed_vector<Tr, N_FIXED> Fix;
typedef ttl::list<Tr> Lst;
typedef ttl::forward_list<Tr> Fwd;
typedef ttl::backward_list<Tr> Bwd;
typedef ttl::lazy_queue<Tr> Laz;
typedef ttl::array<Tr, N_ARRAY> Arr9;
typedef ttl::set<Tr> Set;
typedef ttl::map<int, Tr> Map;
typedef ttl::vector_map<int, Tr> VMap;

static Rng *g;
static unsigned g_tag;
static V some() { V v = {(int)g->below(7), ++g_tag}; return v; }

static const int C_FW = 0, C_BI = 1, C_RA = 2;
template<class C> struct Is
{
   enum { cat = std::is_same<C, Vec>::value || std::is_same<C, Fix>::value || std::is_same<C, Arr9>::value ? C_RA
                : std::is_same<C, Lst>::value || std::is_same<C, Set>::value ? C_BI : C_FW,
          writable = !std::is_same<C, Set>::value, sized = !std::is_same<C, Arr9>::value && !std::is_same<C, Set>::value,
          slist = std::is_same<C, Fwd>::value || std::is_same<C, Bwd>::value || std::is_same<C, Laz>::value };
};
template<class C> struct Nm { static const char *is() { return std::is_same<C, Vec>::value ? "vector" : std::is_same<C, Fix>::value ? "fixed_vector"
   : std::is_same<C, Lst>::value ? "list" : std::is_same<C, Fwd>::value ? "forward_list" : std::is_same<C, Bwd>::value ? "backward_list"
   : std::is_same<C, Laz>::value ? "lazy_queue" : std::is_same<C, Arr9>::value ? "array" : std::is_same<C, Set>::value ? "set" : std::is_same<C, Map>::value ? "map" : "vector_map"; } };

template<class C> struct Box
{
   typedef C cont;
   C *c;
   Vs m;
   void make()
   {
      c = lib([] { return new C(); });
      m.clear();
      if (std::is_same<C, Arr9>::value)
         m.resize(N_ARRAY, El<Tr>::dflt());
   }
   void drop()
   {
      lib([&] { delete c; return 0; });
      c = 0;
   }
   Vs read() const
   {
      Vs o;
      const C &k = *c;
      for (auto i = k.begin(); i != k.end() && o.size() < 200; ++i)
      {
         (*i).use("observe");
         o.push_back(El<Tr>::read(*i));
      }
      return o;
   }
   void check()
   {
      Vs o = read();
      same_vals("content", o, m);
      if (Is<C>::cat == C_BI)
         check_back();
      uint64_t h = hstr(Nm<C>::is());
      for (V v : m)
         h = mix(h, (uint64_t)(unsigned)v.key);
      note_state(h);
   }
   void check_back()
   {
      if constexpr (Is<C>::cat != C_FW)
      {
         const C &k = *c;
         auto i = k.end();
         for (size_t n = m.size(); n--;)
         {
            --i;
            if (!El<Tr>::same(*i, m[n]))
               fail(SEM, "content-backwards", "element %zu is wrong when walking back", n);
         }
         if (i != k.begin())
            fail(SEM, "content-backwards", "more elements when walking back");
      }
   }
};
static const VEq by_eq = {};
static const VLt by_lt = {};
static Vs uniq(Vs v) // what a set makes of it
{
   std::stable_sort(v.begin(), v.end(), by_lt);
   v.erase(std::unique(v.begin(), v.end(), by_eq), v.end());
   return v;
}
struct Odd { bool operator()(const Tr &t) const { t.use("examine"); return t.k & 1; } };
static bool odd(V v) { return v.key & 1; }
struct Close { bool operator()(const Tr &a, const Tr &b) const { return a.k == b.k || a.k == b.k + 1; } };
static const struct VClose { bool operator()(V a, V b) const { return a.key == b.key || a.key == b.key + 1; } } near_to = {};
struct Inc { Tr operator()(const Tr &t) const { t.use("examine"); return Tr(t.k + 1, t.tg); } };
static V inc(V v) { ++v.key; return v; }
struct Add { Tr operator()(const Tr &a, const Tr &b) const { return Tr((a.k + b.k) % 11, a.tg); } };
static V add(V a, V b) { a.key = (a.key + b.key) % 11; return a; }
struct Sum { int n; Sum operator+(const Tr &b) const { Sum s = {(int)(n * 3u + (unsigned)b.k)}; return s; }
   template<class P> Sum operator+(const P &p) const { Sum s = {(int)(n * 3u + (unsigned)(p.first + p.second.k))}; return s; } };
struct Bump { void operator()(Tr &t) const { t = Tr(t.k ^ 1, t.tg); } };
struct Look { int *sum; void operator()(const Tr &t) const { *sum += t.k; } };
struct Make { unsigned *tag; int k; Tr operator()() const { return Tr(k, (*tag)++); } };

template<class It> static size_t idx(It f, It at, size_t n)
{
   size_t i = 0;
   for (; !(f == at) && i <= n; ++f)
      ++i;
   return i;
}
template<class It> static It go(It i, size_t n)
{
   while (n--)
      ++i;
   return i;
}
static void pos(size_t got, size_t want)
{
   S->observations++;
   if (got != want)
      fail(SEM, "result", "position %zu, expected %zu", got, want);
}
static void num(long got, long want)
{
   S->observations++;
   if (got != want)
      fail(SEM, "result", "%ld, expected %ld", got, want);
}
template<class F> static auto quiet(F f) -> decltype(f())
{
   NoAlloc na;
   auto r = lib(f);
   na.done();
   return r;
}

// A range of one container
template<class C, class It> struct Rg
{
   It f, l;
   Vs m;
   size_t n;
};
template<class C> static auto crange(Box<C> &b)
{
   const C &k = *b.c;
   size_t lo = g->chance(1, 2) ? 0 : g->below((unsigned)b.m.size() + 1), n = g->chance(1, 2) ? b.m.size() - lo : g->below((unsigned)(b.m.size() - lo) + 1);
   auto f = go(k.begin(), lo);
   auto l = go(f, n);
   Rg<C, decltype(f)> r = {f, l, Vs(b.m.begin() + lo, b.m.begin() + lo + n), n};
   op("", " %s[%zu,%zu)", Nm<C>::is(), lo, lo + n);
   return r;
}

template<class A, class R> static void query1(Box<A> &a, const R &r)
{
   const V x = g->chance(1, 2) && r.n ? r.m[g->below((unsigned)r.n)] : some();
   const Tr t(x.key, x.tag);
   auto f = r.f, l = r.l;
   const Vs &m = r.m;
   auto is = [&](V v) { return v.key == x.key; };
   switch (g->below(15))
   {
   case 0: op("find"); pos(idx(f, quiet([&] { return ttl::find(f, l, t); }), r.n), std::find_if(m.begin(), m.end(), is) - m.begin()); break;
   case 1: op("find_if"); pos(idx(f, quiet([&] { return ttl::find_if(f, l, Odd()); }), r.n), std::find_if(m.begin(), m.end(), odd) - m.begin()); break;
   case 2: op("find_if_not"); pos(idx(f, quiet([&] { return ttl::find_if_not(f, l, Odd()); }), r.n), std::find_if_not(m.begin(), m.end(), odd) - m.begin()); break;
   case 3: op("count"); num(quiet([&] { return (long)ttl::count(f, l, t); }), std::count_if(m.begin(), m.end(), is)); break;
   case 4: op("count_if"); num(quiet([&] { return (long)ttl::count_if(f, l, Odd()); }), std::count_if(m.begin(), m.end(), odd)); break;
   case 5:
      op("all_of"); num(quiet([&] { return ttl::all_of(f, l, Odd()); }), std::all_of(m.begin(), m.end(), odd));
      op("any_of"); num(quiet([&] { return ttl::any_of(f, l, Odd()); }), std::any_of(m.begin(), m.end(), odd));
      op("none_of"); num(quiet([&] { return ttl::none_of(f, l, Odd()); }), std::none_of(m.begin(), m.end(), odd));
      break;
   case 6:
   {
      const int k = (int)g->below(4);
      op("search_n", " %d", k);
      pos(idx(f, quiet([&] { return ttl::search_n(f, l, k, t); }), r.n), std::search_n(m.begin(), m.end(), k, x, by_eq) - m.begin());
      pos(idx(f, quiet([&] { return ttl::search_n(f, l, k, t, Close()); }), r.n), std::search_n(m.begin(), m.end(), k, x, near_to) - m.begin());
      break;
   }
   case 7:
      op("adjacent_find");
      pos(idx(f, quiet([&] { return ttl::adjacent_find(f, l); }), r.n), std::adjacent_find(m.begin(), m.end(), by_eq) - m.begin());
      pos(idx(f, quiet([&] { return ttl::adjacent_find(f, l, Close()); }), r.n), std::adjacent_find(m.begin(), m.end(), near_to) - m.begin());
      break;
   case 8:
   {
      int sum = 0, want = 0;
      op("for_each");
      Look look = {&sum};
      quiet([&] { ttl::for_each(f, l, look); return 0; });
      for (V v : m)
         want += v.key;
      num(sum, want);
      break;
   }
   case 9: op("is_sorted"); num(quiet([&] { return ttl::is_sorted(f, l); }), std::is_sorted(m.begin(), m.end(), by_lt)); break;
   case 10: op("is_sorted_until"); pos(idx(f, quiet([&] { return ttl::is_sorted_until(f, l); }), r.n), std::is_sorted_until(m.begin(), m.end(), by_lt) - m.begin()); break;
   case 11: op("min_element"); pos(idx(f, quiet([&] { return ttl::min_element(f, l); }), r.n), std::min_element(m.begin(), m.end(), by_lt) - m.begin()); break;
   case 12: op("max_element"); pos(idx(f, quiet([&] { return ttl::max_element(f, l); }), r.n), std::max_element(m.begin(), m.end(), by_lt) - m.begin()); break;
   case 13:
      if (r.n)
      {
         op("minmax_element");
         auto p = quiet([&] { return ttl::minmax_element(f, l); });
         num((*p.first).k, std::min_element(m.begin(), m.end(), by_lt)->key);
         num((*p.second).k, std::max_element(m.begin(), m.end(), by_lt)->key);
      }
      break;
   case 14:
   {
      int want = 5;
      op("accumulate");
      for (V v : m)
         want = (int)(want * 3u + (unsigned)v.key);
      num(quiet([&] { return ttl::accumulate(f, l, Sum{5}).n; }), want);
      break;
   }
   }
   a.check();
}
template<class A, class B> static void query2(Box<A> &a, Box<B> &b)
{
   auto r = crange(a);
   auto s = crange(b);
   auto f = r.f, l = r.l;
   auto p = s.f, q = s.l;
   switch (g->below(5))
   {
   case 0:
      op("equal(4)");
      num(quiet([&] { return ttl::equal(f, l, p, q); }), std::equal(r.m.begin(), r.m.end(), s.m.begin(), s.m.end(), by_eq));
      num(quiet([&] { return ttl::equal(f, l, p, q, Close()); }), std::equal(r.m.begin(), r.m.end(), s.m.begin(), s.m.end(), near_to));
      break;
   case 1:
      if (r.n > s.n)
         return;
      op("equal(3)");
      num(quiet([&] { return ttl::equal(f, l, p); }), std::equal(r.m.begin(), r.m.end(), s.m.begin(), by_eq));
      num(quiet([&] { return ttl::equal(f, l, p, Close()); }), std::equal(r.m.begin(), r.m.end(), s.m.begin(), near_to));
      break;
   case 2:
   {
      op("mismatch(4)");
      auto x = quiet([&] { return ttl::mismatch(f, l, p, q); });
      auto w = std::mismatch(r.m.begin(), r.m.end(), s.m.begin(), s.m.end(), by_eq);
      pos(idx(f, x.first, r.n), w.first - r.m.begin());
      pos(idx(p, x.second, s.n), w.second - s.m.begin());
      break;
   }
   case 3:
   {
      if (r.n > s.n)
         return;
      op("mismatch(3)");
      auto x = quiet([&] { return ttl::mismatch(f, l, p, Close()); });
      auto w = std::mismatch(r.m.begin(), r.m.end(), s.m.begin(), near_to);
      pos(idx(f, x.first, r.n), w.first - r.m.begin());
      pos(idx(p, x.second, s.n), w.second - s.m.begin());
      break;
   }
   case 4:
      op("search");
      pos(idx(f, quiet([&] { return ttl::search(f, l, p, q); }), r.n), std::search(r.m.begin(), r.m.end(), s.m.begin(), s.m.end(), by_eq) - r.m.begin());
      pos(idx(f, quiet([&] { return ttl::search(f, l, p, q, Close()); }), r.n), std::search(r.m.begin(), r.m.end(), s.m.begin(), s.m.end(), near_to) - r.m.begin());
      break;
   }
   a.check();
   b.check();
}
// algorithms that change the elements of one container in place
template<class B> static void change1(Box<B> &b)
{
   if constexpr (Is<B>::writable)
   {
      B &c = *b.c;
      Vs &m = b.m;
      const size_t lo = g->below((unsigned)m.size() + 1), n = g->chance(1, 2) ? m.size() - lo : g->below((unsigned)(m.size() - lo) + 1);
      auto f = go(c.begin(), lo);
      auto l = go(f, n);
      const auto mf = m.begin() + lo, ml = mf + n;
      V x = some(), y = some();
      Tr tx(x.key, x.tag), ty(y.key, y.tag);
      auto is = [&](V v) { return v.key == x.key; };
      op("", " %s[%zu,%zu)", Nm<B>::is(), lo, lo + n);
      switch (g->below(13))
      {
      case 0: op("fill"); quiet([&] { ttl::fill(f, l, tx); return 0; }); std::fill(mf, ml, x); break;
      case 1: op("fill_n"); pos(idx(f, quiet([&] { return ttl::fill_n(f, n, tx); }), n), n); std::fill(mf, ml, x); break;
      case 2: case 3:
      {
         unsigned tag = g_tag + 1;
         Make make = {&tag, x.key};
         op("generate");
         if (g->chance(1, 2))
            quiet([&] { ttl::generate(f, l, make); return 0; });
         else
            quiet([&] { ttl::generate_n(f, n, make); return 0; });
         for (auto i = mf; i != ml; ++i)
            i->key = x.key, i->tag = ++g_tag;
         break;
      }
      case 4: op("replace"); quiet([&] { ttl::replace(f, l, tx, ty); return 0; }); std::replace_if(mf, ml, is, y); break;
      case 5: op("replace_if"); quiet([&] { ttl::replace_if(f, l, Odd(), ty); return 0; }); std::replace_if(mf, ml, odd, y); break;
      case 6: case 7:
      {
         const bool by_value = g->chance(1, 2);
         op(by_value ? "remove" : "remove_if");
         auto e = by_value ? quiet([&] { return ttl::remove(f, l, tx); }) : quiet([&] { return ttl::remove_if(f, l, Odd()); });
         auto me = by_value ? std::remove_if(mf, ml, is) : std::remove_if(mf, ml, odd);
         const size_t kept = idx(f, e, n);
         pos(kept, me - mf);
         // what is behind is any valid value
         Vs now = b.read();
         for (size_t i = lo + kept; i < lo + n && i < now.size(); ++i)
            m[i] = now[i];
         if (Is<B>::sized && lo + n == m.size() && g->chance(2, 3))
         {
            const size_t gone = m.size() - (lo + kept);
            op("erase", " the removed");
            if constexpr (std::is_same<B, Vec>::value || std::is_same<B, Fix>::value)
               lib([&] { c.erase(e, c.end()); return 0; });
            else if constexpr (std::is_same<B, Lst>::value)
               lib([&] { for (size_t i = 0; i < gone; ++i) e = c.erase(e); return 0; });
            else if constexpr (Is<B>::slist)
            {
               auto before = go(c.before_begin(), lo + kept);
               lib([&] { c.erase_after(before, c.end()); return 0; });
            }
            m.resize(lo + kept);
         }
         break;
      }
      case 8: op("transform", " in place"); quiet([&] { ttl::transform(f, l, f, Inc()); return 0; }); std::transform(mf, ml, mf, inc); break;
      case 9: op("for_each", " changing"); quiet([&] { ttl::for_each(f, l, Bump()); return 0; }); for (auto i = mf; i != ml; ++i) i->key ^= 1; break;
      case 10:
         if constexpr (Is<B>::cat != C_FW)
         {
            op("reverse");
            quiet([&] { ttl::reverse(f, l); return 0; });
            std::reverse(mf, ml);
         }
         break;
      case 11:
         if constexpr (Is<B>::cat != C_FW)
         {
            op("copy_backward", " within");
            const size_t k = g->below((unsigned)n + 1);
            auto e = go(f, k);
            auto at = quiet([&] { return ttl::copy_backward(f, e, l); });
            pos(idx(f, at, n), n - k);
            std::copy_backward(mf, mf + k, ml);
         }
         break;
      case 12:
      {
         op("copy", " within, to the front");
         const size_t k = g->below((unsigned)n + 1);
         auto s = go(f, k);
         auto at = quiet([&] { return ttl::copy(s, l, f); });
         pos(idx(f, at, n), n - k);
         std::copy(mf + k, ml, mf);
         break;
      }
      }
      b.check();
   }
}
// from one container into the elements of another
template<class A, class B> static void change2(Box<A> &a, Box<B> &b)
{
   if constexpr (Is<B>::writable)
   {
      auto r = crange(a);
      auto f = r.f, l = r.l;
      if (r.n > b.m.size())
         return;
      B &c = *b.c;
      const size_t at = g->below((unsigned)(b.m.size() - r.n) + 1);
      auto d = go(c.begin(), at);
      const auto md = b.m.begin() + at;
      const V x = some(), y = some();
      const Tr tx(x.key, x.tag), ty(y.key, y.tag);
      auto is = [&](V v) { return v.key == x.key; };
      Vs w; // what ends up there
      size_t k = (size_t)-1;
      op("", " into %s at %zu", Nm<B>::is(), at);
      switch (g->below(12))
      {
      case 0: op("copy"); k = idx(d, quiet([&] { return ttl::copy(f, l, d); }), r.n); w = r.m; break;
      case 1: op("copy_if"); k = idx(d, quiet([&] { return ttl::copy_if(f, l, d, Odd()); }), r.n); for (V v : r.m) if (odd(v)) w.push_back(v); break;
      case 2: op("copy_n"); k = idx(d, quiet([&] { return ttl::copy_n(f, r.n, d); }), r.n); w = r.m; break;
      case 3: op("transform"); k = idx(d, quiet([&] { return ttl::transform(f, l, d, Inc()); }), r.n); for (V v : r.m) w.push_back(inc(v)); break;
      case 4: op("transform(2)"); k = idx(d, quiet([&] { return ttl::transform(f, l, d, d, Add()); }), r.n); for (size_t i = 0; i < r.n; ++i) w.push_back(add(r.m[i], md[i])); break;
      case 5: op("replace_copy"); k = idx(d, quiet([&] { return ttl::replace_copy(f, l, d, tx, ty); }), r.n); for (V v : r.m) w.push_back(is(v) ? y : v); break;
      case 6: op("replace_copy_if"); k = idx(d, quiet([&] { return ttl::replace_copy_if(f, l, d, Odd(), ty); }), r.n); for (V v : r.m) w.push_back(odd(v) ? y : v); break;
      case 7: op("remove_copy"); k = idx(d, quiet([&] { return ttl::remove_copy(f, l, d, tx); }), r.n); for (V v : r.m) if (!is(v)) w.push_back(v); break;
      case 8: op("remove_copy_if"); k = idx(d, quiet([&] { return ttl::remove_copy_if(f, l, d, Odd()); }), r.n); for (V v : r.m) if (!odd(v)) w.push_back(v); break;
      case 9:
         if constexpr (Is<A>::cat != C_FW)
         {
            op("reverse_copy");
            k = idx(d, quiet([&] { return ttl::reverse_copy(f, l, d); }), r.n);
            w.assign(r.m.rbegin(), r.m.rend());
         }
         break;
      case 10:
         if constexpr (Is<A>::cat != C_FW && Is<B>::cat != C_FW)
         {
            op("copy_backward");
            auto e = go(d, r.n);
            pos(idx(d, quiet([&] { return ttl::copy_backward(f, l, e); }), r.n), 0);
            w = r.m;
         }
         break;
      case 11:
         if constexpr (Is<A>::writable)
         {
            A &ac = *a.c;
            const size_t lo = g->below((unsigned)(a.m.size() - r.n) + 1);
            auto p = go(ac.begin(), lo);
            auto q = go(p, r.n);
            op("swap_ranges");
            k = idx(d, quiet([&] { return ttl::swap_ranges(p, q, d); }), r.n);
            std::swap_ranges(a.m.begin() + lo, a.m.begin() + lo + r.n, md);
            pos(k, r.n); // where the second range ends
            k = (size_t)-1;
         }
         break;
      }
      if (k != (size_t)-1)
         pos(k, w.size());
      std::copy(w.begin(), w.end(), md);
   }
   a.check();
   b.check();
}
// a container filled from another one
template<class A, class B> static void fill2(Box<A> &a, Box<B> &b)
{
   if constexpr (!std::is_same<B, Arr9>::value)
   {
      auto r = crange(a);
      auto f = r.f, l = r.l;
      B &c = *b.c;
      if constexpr (std::is_same<B, Set>::value)
      {
         op("set::insert(range)");
         lib([&] { c.insert(f, l); return 0; });
         Vs all = b.m;
         all.insert(all.end(), r.m.begin(), r.m.end());
         b.m = uniq(all);
      }
      else
      {
         if (!std::is_same<B, Laz>::value && g->chance(1, 2))
         {
            op("assign(range)", " %s", Nm<B>::is());
            if constexpr (!std::is_same<B, Laz>::value)
               lib([&] { c.assign(f, l); return 0; });
            b.m = r.m;
         }
         else if (b.m.size() + r.n <= N_MAX)
         {
            const size_t at = g->below((unsigned)b.m.size() + 1);
            op("insert(range)", " %s at %zu", Nm<B>::is(), at);
            if constexpr (Is<B>::slist)
            {
               auto p = go(c.before_begin(), at);
               lib([&] { c.insert_after(p, f, l); return 0; });
            }
            else if constexpr (std::is_same<B, Lst>::value)
            {
               auto p = go(c.begin(), at);
               lib([&] { c.insert(p, f, l); return 0; });
            }
            else if constexpr (Is<A>::cat == C_RA) // these want to know the distance
            {
               auto p = go(c.begin(), at);
               lib([&] { c.insert(p, f, l); return 0; });
            }
            else
               return;
            b.m.insert(b.m.begin() + at, r.m.begin(), r.m.end());
         }
      }
      b.check();
   }
   a.check();
}
// merging two sorted containers into a third one's elements
template<class A, class B, class D> static void merge3(Box<A> &a, Box<B> &b, Box<D> &d)
{
   if constexpr (Is<D>::writable)
   {
      if (!std::is_sorted(a.m.begin(), a.m.end(), by_lt) || !std::is_sorted(b.m.begin(), b.m.end(), by_lt) || a.m.size() + b.m.size() > d.m.size())
         return;
      const A &ac = *a.c;
      const B &bc = *b.c;
      D &dc = *d.c;
      op("merge", " %s and %s into %s", Nm<A>::is(), Nm<B>::is(), Nm<D>::is());
      auto o = dc.begin();
      const size_t n = a.m.size() + b.m.size();
      pos(idx(o, quiet([&] { return ttl::merge(ac.begin(), ac.end(), bc.begin(), bc.end(), o); }), n), n);
      std::merge(a.m.begin(), a.m.end(), b.m.begin(), b.m.end(), d.m.begin(), by_lt);
      a.check();
      b.check();
      d.check();
   }
}
// binary searches want the distance of two iterators
template<class A> static void search1(Box<A> &a)
{
   if constexpr (Is<A>::cat == C_RA)
   {
      if (g->chance(1, 2) && !std::is_sorted(a.m.begin(), a.m.end(), by_lt))
      {
         // sorted by what the library offers: the minimum of the rest goes to the front
         A &c = *a.c;
         op("", " sort %s", Nm<A>::is());
         quiet([&]
         {
            for (auto i = c.begin(); i != c.end(); ++i)
               ttl::iter_swap(i, ttl::min_element(i, c.end()));
            return 0;
         });
         for (size_t i = 0; i < a.m.size(); ++i)
            std::swap(a.m[i], *std::min_element(a.m.begin() + i, a.m.end(), by_lt));
         a.check();
      }
      if (!std::is_sorted(a.m.begin(), a.m.end(), by_lt))
         return;
      const A &c = *a.c;
      const V x = some();
      const Tr t(x.key, x.tag);
      const Vs &m = a.m;
      const size_t lo = std::lower_bound(m.begin(), m.end(), x, by_lt) - m.begin(), hi = std::upper_bound(m.begin(), m.end(), x, by_lt) - m.begin();
      op("lower_bound", " in %s", Nm<A>::is());
      pos(idx(c.begin(), quiet([&] { return ttl::lower_bound(c.begin(), c.end(), t); }), m.size()), lo);
      op("upper_bound");
      pos(idx(c.begin(), quiet([&] { return ttl::upper_bound(c.begin(), c.end(), t); }), m.size()), hi);
      op("equal_range");
      auto p = quiet([&] { return ttl::equal_range(c.begin(), c.end(), t); });
      pos(idx(c.begin(), p.first, m.size()), lo);
      pos(idx(c.begin(), p.second, m.size()), hi);
      op("binary_search");
      num(quiet([&] { return ttl::binary_search(c.begin(), c.end(), t); }), lo != hi);
      if constexpr (!std::is_same<A, Arr9>::value)
         if (m.size() < N_MAX)
         {
            op("insert", " where it belongs");
            A &w = *a.c;
            lib([&] { w.insert(ttl::upper_bound(w.begin(), w.end(), t), t); return 0; });
            a.m.insert(a.m.begin() + hi, x);
         }
      a.check();
   }
}
template<class B> static void grow(Box<B> &b)
{
   if constexpr (std::is_same<B, Arr9>::value)
   {
      const unsigned i = g->below(N_ARRAY);
      const V x = some();
      op("operator[]", " array %u", i);
      const Tr t(x.key, x.tag);
      lib([&] { (*b.c)[i] = t; return 0; });
      b.m[i] = x;
   }
   else
   {
      if (b.m.size() >= N_MAX)
         return;
      for (int n = 1 + (int)g->below(3); n-- && b.m.size() < N_MAX;)
      {
         const V x = some();
         const Tr t(x.key, x.tag);
         if constexpr (std::is_same<B, Set>::value)
         {
            op("insert", " set");
            lib([&] { return b.c->insert(t).second; });
            Vs all = b.m;
            all.push_back(x);
            b.m = uniq(all);
         }
         else if constexpr (std::is_same<B, Fwd>::value)
         {
            op("push_front", " forward_list");
            lib([&] { b.c->push_front(t); return 0; });
            b.m.insert(b.m.begin(), x);
         }
         else
         {
            op("push_back", " %s", Nm<B>::is());
            lib([&] { b.c->push_back(t); return 0; });
            b.m.push_back(x);
         }
      }
   }
   b.check();
}

// maps: ranges of pairs
template<class M> struct MBox
{
   M *c;
   struct P { int k; V v; };
   std::vector<P> m;
   void check()
   {
      const M &k = *c;
      size_t n = 0;
      for (auto i = k.begin(); i != k.end() && n < 200; ++i, ++n)
      {
         if (n >= m.size() || i->first != m[n].k || !El<Tr>::same(i->second, m[n].v))
         {
            fail(SEM, "content", "pair %zu is wrong", n);
            return;
         }
      }
      num((long)n, (long)m.size());
      uint64_t h = hstr(Nm<M>::is());
      for (P p : m)
         h = mix(h, (uint64_t)p.k * 97 + (uint64_t)p.v.key);
      note_state(h);
   }
   void put(int k, V v)
   {
      size_t i = 0;
      if (std::is_same<M, Map>::value)
         while (i < m.size() && m[i].k < k)
            ++i;
      else
         while (i < m.size() && m[i].k != k)
            ++i;
      if (i < m.size() && m[i].k == k)
         return;
      P p = {k, v};
      m.insert(m.begin() + i, p);
   }
};
struct OddPair { template<class P> bool operator()(const P &p) const { return p.second.k & 1; } };
struct BumpPair { template<class P> void operator()(P &p) const { p.second = Tr(p.second.k + 1, p.second.tg); } };
struct Second { template<class P> Tr operator()(const P &p) const { return p.second; } };

template<class M, class O> static void maps(MBox<M> &b, MBox<O> &o, Box<Vec> &v)
{
   M &c = *b.c;
   const M &k = c;
   auto is_odd = [](const typename MBox<M>::P &p) { return p.v.key & 1; };
   op("", " %s", Nm<M>::is());
   switch (g->below(8))
   {
   case 0: case 1:
   {
      const int key = (int)g->below(16);
      const V x = some();
      op("insert(pair)", " %d", key);
      {
         const typename M::value_type p(key, Tr(x.key, x.tag));
         lib([&] { return c.insert(p).second; });
      }
      b.put(key, x);
      break;
   }
   case 2: op("count_if"); num(quiet([&] { return (long)ttl::count_if(k.begin(), k.end(), OddPair()); }), std::count_if(b.m.begin(), b.m.end(), is_odd)); break;
   case 3: op("find_if"); pos(idx(k.begin(), quiet([&] { return ttl::find_if(k.begin(), k.end(), OddPair()); }), b.m.size()), std::find_if(b.m.begin(), b.m.end(), is_odd) - b.m.begin()); break;
   case 4: op("for_each", " changing"); quiet([&] { ttl::for_each(c.begin(), c.end(), BumpPair()); return 0; }); for (auto &p : b.m) ++p.v.key; break;
   case 5:
      if (b.m.size() <= v.m.size())
      {
         op("transform", " into vector");
         auto d = v.c->begin();
         pos(idx(d, quiet([&] { return ttl::transform(k.begin(), k.end(), d, Second()); }), b.m.size()), b.m.size());
         for (size_t i = 0; i < b.m.size(); ++i)
            v.m[i] = b.m[i].v;
         v.check();
      }
      break;
   case 6:
      if constexpr (std::is_same<M, Map>::value)
      {
         op("map::insert(range)");
         const O &s = *o.c;
         lib([&] { c.insert(s.begin(), s.end()); return 0; });
         for (auto p : o.m)
            b.put(p.k, p.v);
      }
      break;
   case 7:
   {
      int want = 1;
      op("accumulate");
      for (auto p : b.m)
         want = (int)(want * 3u + (unsigned)(p.k + p.v.key));
      num(quiet([&] { return ttl::accumulate(k.begin(), k.end(), Sum{1}).n; }), want);
      break;
   }
   }
   b.check();
}

struct All
{
   Box<Vec> vec; Box<Fix> fix; Box<Lst> lst; Box<Fwd> fwd; Box<Bwd> bwd; Box<Laz> laz; Box<Arr9> arr; Box<Set> set;
   Box<Vec> vec2;
   MBox<Map> map; MBox<VMap> vmap;
   template<class F> void with(unsigned i, F f)
   {
      switch (i)
      {
      case 0: f(vec); break;
      case 1: f(fix); break;
      case 2: f(lst); break;
      case 3: f(fwd); break;
      case 4: f(bwd); break;
      case 5: f(laz); break;
      case 6: f(arr); break;
      case 7: f(set); break;
      }
   }
   template<class F> void with2(unsigned i, F f) // those of this part
   {
#if MON_PART == 0
      switch (i % 3) { case 0: f(vec2); break; case 1: f(bwd); break; case 2: f(set); break; }
#elif MON_PART == 1
      switch (i % 3) { case 0: f(fix); break; case 1: f(lst); break; case 2: f(arr); break; }
#else
      switch (i % 2) { case 0: f(fwd); break; case 1: f(laz); break; }
#endif
   }
   template<class F> void each(F f)
   {
      for (unsigned i = 0; i < 8; ++i)
         with(i, f);
      f(vec2);
   }
};
static void the_case(Rng &r, uint64_t)
{
   g = &r;
   g_tag = 0;
   All a;
   a.each([](auto &b) { b.make(); });
   a.map.c = lib([] { return new Map; });
   a.vmap.c = lib([] { return new VMap; });
   a.each([](auto &b) { for (int i = 0; i < 3; ++i) if (g->chance(2, 3)) grow(b); });
   const int n = 10 + (int)r.below(30);
   for (int i = 0; i < n; ++i)
   {
      const unsigned x = r.below(8), y = r.below(6);
      switch (r.below(13))
      {
      case 0: case 1: a.with(x, [](auto &b) { grow(b); }); break;
      case 2: a.with(x, [](auto &b) { auto q = crange(b); query1(b, q); }); break;
      case 3: a.with(x, [](auto &b) { change1(b); }); break;
      case 4: a.with(x, [](auto &b) { search1(b); }); break;
      case 5: case 6: a.with(x, [&](auto &p) { a.with2(y, [&](auto &q) { if ((void *)p.c != (void *)q.c) query2(p, q); }); }); break;
      case 7: case 8: a.with(x, [&](auto &p) { a.with2(y, [&](auto &q) { if ((void *)p.c != (void *)q.c) change2(p, q); }); }); break;
      case 9: case 10: a.with(x, [&](auto &p) { a.with2(y, [&](auto &q) { if ((void *)p.c != (void *)q.c) fill2(p, q); }); }); break;
      case 11:
         a.with2(y, [&](auto &q)
         {
            if ((void *)a.set.c == (void *)q.c)
               return;
            switch (x % 3)
            {
            case 0: if ((void *)a.vec.c != (void *)q.c) merge3(a.set, a.vec, q); break;
            case 1: if ((void *)a.lst.c != (void *)q.c) merge3(a.lst, a.set, q); break;
            case 2: if ((void *)a.fwd.c != (void *)q.c) merge3(a.fwd, a.set, q); break;
            }
         });
         break;
      case 12:
         if (r.chance(2, 3))
            maps(a.map, a.vmap, a.vec);
         else
            maps(a.vmap, a.map, a.vec);
         break;
      }
      size_t live = a.map.m.size() + a.vmap.m.size();
      a.each([&](auto &b) { live += b.m.size(); });
      live_check(live);
   }
   a.each([](auto &b) { b.check(); b.drop(); });
   lib([&] { delete a.map.c; delete a.vmap.c; return 0; });
   live_check(0);
}
int main(int argc, char **argv) { return run(argc, argv, "compose", the_case); }
