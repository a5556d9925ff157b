// The algorithms and the small vocabulary on long ranges: more elements than fit
// the narrower integer types, compared with the standard algorithms.
// Profiles: query, modify, sorted, vocab.
#include "algo.hpp"
#include "ttl/ttl.hpp"
#include "ttl/numeric.hpp"
#include <algorithm>
#include <functional>
#include <numeric>

static const size_t SIZES[] = {127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 4097, 32766, 32767, 32768, 32769, 40000,
                               65534, 65535, 65536, 65537, 70000, 131073, 200003};
enum { NSIZES = sizeof SIZES / sizeof *SIZES };

struct Rec
{
   int k;
   unsigned t;
   bool operator==(const Rec &o) const { return k == o.k; }
   bool operator<(const Rec &o) const { return k < o.k; }
   bool same(const Rec &o) const { return k == o.k && t == o.t; }
};
inline bool same(const Rec &a, const Rec &b) { return a.same(b); }
template<class T> inline bool same(const T &a, const T &b) { return a == b; }
inline int kof(const Rec &a) { return a.k; }
template<class T> inline int kof(const T &a) { return (int)a; }
template<class T> inline T mk(int k, unsigned) { return (T)k; }
template<> inline Rec mk<Rec>(int k, unsigned t) { Rec x = {k, t}; return x; }

struct Is { int v; template<class T> bool operator()(const T &x) const { return kof(x) == v; } };
struct Lt { template<class A, class B> bool operator()(const A &a, const B &b) const { return kof(a) < kof(b); } };
struct Eq { template<class A, class B> bool operator()(const A &a, const B &b) const { return kof(a) == kof(b); } };

template<class T> struct Big
{
   Rng &r;
   size_t n;
   std::vector<T> v;
   int span;
   unsigned tag;
   uint64_t fp;
   NoAlloc na;
   explicit Big(Rng &rr): r(rr), tag(0), fp(0)
   {
      n = SIZES[r.below(NSIZES)];
      span = r.below(2) ? 1 : r.range(2, 100);
      for (size_t i = 0; i < n; ++i)
         v.push_back(mk<T>((int)r.below(span), ++tag));
      S->large_cases++;
      if (n > S->max_size)
         S->max_size = n;
   }
   T *b() { return v.data(); }
   T *e() { return v.data() + n; }
   void pos(const T *got, size_t expect) { result(got - b(), expect, n); note(expect); }
   void note(uint64_t x)
   {
      fp = mix(mix(mix(hstr(S->op), n), span), x);
      note_state(fp);
   }
   void number(long long got, long long expect)
   {
      S->observations++;
      S->elem_checks++;
      if (got != expect)
         fail(SEM, "number", "yields %lld, expected %lld (of %zu)", got, expect, n);
      note(expect);
   }
   void contents(const std::vector<T> &e)
   {
      S->observations++;
      S->elem_checks += e.size();
      for (size_t i = 0; i < e.size(); ++i)
         if (!same(v[i], e[i]))
            fail(SEM, "contents", "element %zu of %zu is %d, expected %d", i, e.size(), kof(v[i]), kof(e[i]));
   }
   // a place that is likely to matter
   size_t place()
   {
      size_t c[] = {0, 1, n - 1, n / 2, 255, 256, 257, 32767, 32768, 65535, 65536, r.below((unsigned)n)};
      return c[r.below(12)] % n;
   }

   void query()
   {
      const T odd = mk<T>(113, ++tag);
      size_t p = place(), q = place();
      if (p > q)
         std::swap(p, q);
      v[p] = odd;
      v[q] = odd;
      op("find", " n=%zu %zu %zu", n, p, q);
      pos(lib([&]{ return ttl::find(b(), e(), odd); }), p);
      op("find_if", " n=%zu", n);
      Is is = {113};
      pos(lib([&]{ return ttl::find_if(b(), e(), is); }), p);
      op("find_if_not");
      Is is0 = {kof(v[0])};
      pos(lib([&]{ return ttl::find_if_not(b(), e(), is0); }), std::find_if_not(b(), e(), is0) - b());
      op("count");
      number(lib([&]{ return ttl::count(b(), e(), mk<T>(0, 0)); }), std::count_if(b(), e(), [](const T &x) { return kof(x) == 0; }));
      op("count_if");
      Is z = {0};
      number(lib([&]{ return ttl::count_if(b(), e(), z); }), std::count_if(b(), e(), z));
      op("all_of");
      result_b(lib([&]{ return ttl::all_of(b(), e(), z); }), std::all_of(b(), e(), z));
      op("any_of");
      result_b(lib([&]{ return ttl::any_of(b() + p + 1, e(), is); }), q != p);
      op("none_of");
      result_b(lib([&]{ return ttl::none_of(b() + q + 1, e(), is); }), true);
      std::vector<T> w(v);
      size_t d = place();
      w[d] = mk<T>(114, ++tag);
      op("equal(3)", " differ at %zu of %zu", d, n);
      result_b(lib([&]{ return ttl::equal(b(), e(), w.data()); }), false);
      op("equal(4)");
      result_b(lib([&]{ return ttl::equal(b(), b() + d, w.data(), w.data() + d); }), true);
      op("equal(4)");
      result_b(lib([&]{ return ttl::equal(b(), b() + d, w.data(), w.data() + d + 1); }), false);
      op("equal(pred)");
      result_b(lib([&]{ return ttl::equal(b(), e(), w.data(), w.data() + n, Eq()); }), false);
      op("mismatch(3)");
      pos(lib([&]{ return ttl::mismatch(b(), e(), w.data()); }).first, d);
      op("mismatch(4)");
      pos(lib([&]{ return ttl::mismatch(b(), e(), w.data(), w.data() + n); }).first, d);
      op("mismatch(pred)");
      number(lib([&]{ return ttl::mismatch(b(), e(), w.data(), w.data() + n, Eq()); }).second - w.data(), d);
      // a run of odd ones
      for (size_t i = 0; i < n; ++i)
         if (kof(v[i]) == 113)
            v[i] = mk<T>(0, ++tag);
      size_t len = r.below(3) ? place() / 2 + 1 : r.range(1, 9), at = r.below((unsigned)(n - len + 1));
      for (size_t i = 0; i < len; ++i)
         v[at + i] = odd;
      op("search_n", " n=%zu len=%zu at=%zu", n, len, at);
      pos(lib([&]{ return ttl::search_n(b(), e(), len, odd); }), at);
      op("search_n", " n=%zu len=%zu at=%zu", n, len + 1, at);
      pos(lib([&]{ return ttl::search_n(b(), e(), len + 1, odd); }), n);
      op("search_n(pred)", " n=%zu len=%zu at=%zu", n, len, at);
      pos(lib([&]{ return ttl::search_n(b(), e(), (int)len, odd, Eq()); }), at);
      size_t sl = len > 300 ? 300 : len;
      op("search", " n=%zu len=%zu at=%zu", n, sl, at);
      pos(lib([&]{ return ttl::search(b(), e(), b() + at, b() + at + sl); }), at);
      op("search(pred)", " n=%zu len=%zu at=%zu", n, sl, at);
      pos(lib([&]{ return ttl::search(b(), e(), b() + at, b() + at + sl, Eq()); }), at);
      op("adjacent_find");
      pos(lib([&]{ return ttl::adjacent_find(b(), e()); }), std::adjacent_find(b(), e(), Eq()) - b());
      // alternating, then equal at one place only
      for (size_t i = 0; i < n; ++i)
         v[i] = mk<T>(i & 1, ++tag);
      if (p + 1 < n)
         for (size_t i = p + 1; i < n; ++i)
            v[i] = mk<T>((i & 1) ^ 1, ++tag);
      op("adjacent_find");
      pos(lib([&]{ return ttl::adjacent_find(b(), e()); }), p + 1 < n ? p : n);
      op("adjacent_find(pred)");
      pos(lib([&]{ return ttl::adjacent_find(b(), e(), Eq()); }), p + 1 < n ? p : n);
      op("for_each");
      long long sum = 0, es = 0;
      lib([&]{ ttl::for_each(b(), e(), [&](const T &x) { sum += kof(x) + 1; }); return 0; });
      for (size_t i = 0; i < n; ++i)
         es += kof(v[i]) + 1;
      number(sum, es);
   }

   void modify()
   {
      const T odd = mk<T>(113, ++tag);
      size_t p = place(), q = place();
      if (p > q)
         std::swap(p, q);
      v[p] = v[q] = odd;
      std::vector<T> o(n + 2, mk<T>(9, 0)), x;
      T *ob = o.data() + 1;
      auto outs = [&](const std::vector<T> &ex, const T *end)
      {
         S->observations++;
         S->elem_checks += ex.size();
         if ((size_t)(end - ob) != ex.size())
            fail(SEM, "end", "output ends at %zu, expected %zu", (size_t)(end - ob), ex.size());
         for (size_t i = 0; i < ex.size(); ++i)
            if (!same(ob[i], ex[i]))
               fail(SEM, "contents", "element %zu of %zu is %d, expected %d", i, ex.size(), kof(ob[i]), kof(ex[i]));
         if (!same(o[0], mk<T>(9, 0)) || !same(o[ex.size() + 1], mk<T>(9, 0)))
            fail(SEM, "beyond", "an element outside the output was written");
         note(ex.size());
         std::fill(o.begin(), o.end(), mk<T>(9, 0));
      };
      Is is = {113}, z = {0};
      op("copy", " n=%zu", n);
      outs(v, lib([&]{ return ttl::copy(b(), e(), ob); }));
      op("copy_n(size_t)", " n=%zu", n);
      outs(v, lib([&]{ return ttl::copy_n(b(), n, ob); }));
      op("copy_n(int)", " n=%zu", n);
      outs(v, lib([&]{ return ttl::copy_n(b(), (int)n, ob); }));
      op("copy_if");
      x.clear();
      std::copy_if(v.begin(), v.end(), std::back_inserter(x), z);
      outs(x, lib([&]{ return ttl::copy_if(b(), e(), ob, z); }));
      op("remove_copy");
      x.clear();
      std::copy_if(v.begin(), v.end(), std::back_inserter(x), [](const T &t) { return kof(t) != 113; });
      outs(x, lib([&]{ return ttl::remove_copy(b(), e(), ob, odd); }));
      op("remove_copy_if");
      outs(x, lib([&]{ return ttl::remove_copy_if(b(), e(), ob, is); }));
      const T nv = mk<T>(77, ++tag);
      op("replace_copy");
      x = v;
      for (T &t : x)
         if (kof(t) == 113)
            t = nv;
      outs(x, lib([&]{ return ttl::replace_copy(b(), e(), ob, odd, nv); }));
      op("replace_copy_if");
      outs(x, lib([&]{ return ttl::replace_copy_if(b(), e(), ob, is, nv); }));
      op("reverse_copy");
      x.assign(v.rbegin(), v.rend());
      outs(x, lib([&]{ return ttl::reverse_copy(b(), e(), ob); }));
      op("transform");
      unsigned tt = 5;
      x.clear();
      for (T &t : v)
         x.push_back(mk<T>(kof(t) / 2 + 1, ++tt));
      tt = 5;
      outs(x, lib([&]{ return ttl::transform(b(), e(), ob, [&](const T &t) { return mk<T>(kof(t) / 2 + 1, ++tt); }); }));
      op("transform(2)");
      std::vector<T> w(v.rbegin(), v.rend());
      x.clear();
      for (size_t i = 0; i < n; ++i)
         x.push_back(mk<T>(kof(v[i]) / 2 + kof(w[i]) / 2, 3));
      outs(x, lib([&]{ return ttl::transform(b(), e(), w.data(), ob, [&](const T &s, const T &t) { return mk<T>(kof(s) / 2 + kof(t) / 2, 3); }); }));
      op("fill_n(size_t)");
      outs(std::vector<T>(n, nv), lib([&]{ return ttl::fill_n(ob, n, nv); }));
      op("fill_n(long)");
      outs(std::vector<T>(n, nv), lib([&]{ return ttl::fill_n(ob, (long)n, nv); }));
      op("fill");
      lib([&]{ ttl::fill(ob, ob + n, nv); return 0; });
      outs(std::vector<T>(n, nv), ob + n);
      op("generate");
      tt = 0;
      lib([&]{ ttl::generate(ob, ob + n, [&]{ ++tt; return mk<T>(tt % 100, tt); }); return 0; });
      x.clear();
      for (unsigned i = 1; i <= n; ++i)
         x.push_back(mk<T>(i % 100, i));
      outs(x, ob + n);
      op("generate_n");
      tt = 0;
      outs(x, lib([&]{ return ttl::generate_n(ob, n, [&]{ ++tt; return mk<T>(tt % 100, tt); }); }));
      op("swap_ranges");
      std::vector<T> a(v), c(w);
      size_t k = place() + 1;
      number(lib([&]{ return ttl::swap_ranges(b(), b() + k, w.data()); }) - w.data(), k);
      std::swap_ranges(a.begin(), a.begin() + k, c.begin());
      contents(a);
      for (size_t i = 0; i < n; ++i)
         if (!same(w[i], c[i]))
            fail(SEM, "contents", "second range, element %zu", i);
      op("reverse", " [%zu,%zu) of %zu", p, q + 1, n);
      x = v;
      std::reverse(x.begin() + p, x.begin() + q + 1);
      lib([&]{ ttl::reverse(b() + p, b() + q + 1); return 0; });
      contents(x);
      note(q - p);
      // overlapping
      size_t d = 1 + r.below(r.below(2) ? 3 : (unsigned)(n / 2));
      op("copy(down)", " n=%zu by %zu", n, d);
      x = v;
      std::copy(x.begin() + d, x.end(), x.begin());
      pos(lib([&]{ return ttl::copy(b() + d, e(), b()); }), n - d);
      contents(x);
      op("copy_backward(up)", " n=%zu by %zu", n, d);
      std::copy_backward(x.begin(), x.end() - d, x.end());
      pos(lib([&]{ return ttl::copy_backward(b(), e() - d, e()); }), d);
      contents(x);
      op("replace");
      for (T &t : x)
         if (kof(t) == 0)
            t = nv;
      lib([&]{ ttl::replace(b(), e(), mk<T>(0, 0), nv); return 0; });
      contents(x);
      op("replace_if");
      Is s = {77};
      for (size_t i = 0; i < n; ++i)
         if (kof(x[i]) == 77 && i % 3)
            x[i] = v[i] = mk<T>(i % 50, ++tag);
      for (T &t : x)
         if (kof(t) == 77)
            t = odd;
      lib([&]{ ttl::replace_if(b(), e(), s, odd); return 0; });
      contents(x);
      bool pr = r.below(2);
      op(pr ? "remove_if" : "remove");
      int kill = kof(x[place()]);
      Is ki = {kill};
      std::vector<T> left;
      for (T &t : x)
         if (kof(t) != kill)
            left.push_back(t);
      pos(lib([&]{ return pr ? ttl::remove_if(b(), e(), ki) : ttl::remove(b(), e(), mk<T>(kill, 0)); }), left.size());
      contents(left);
   }

   void sorted()
   {
      std::stable_sort(v.begin(), v.end(), Lt());
      for (int i = 0; i < 6; ++i)
      {
         T x = r.below(2) ? v[place()] : mk<T>((int)r.below(span + 2), 0);
         size_t lo = std::lower_bound(b(), e(), x, Lt()) - b(), up = std::upper_bound(b(), e(), x, Lt()) - b();
         op("lower_bound", " n=%zu", n);
         pos(lib([&]{ return ttl::lower_bound(b(), e(), x); }), lo);
         op("lower_bound(comp)");
         pos(lib([&]{ return ttl::lower_bound(b(), e(), x, Lt()); }), lo);
         op("upper_bound");
         pos(lib([&]{ return ttl::upper_bound(b(), e(), x); }), up);
         op("upper_bound(comp)");
         pos(lib([&]{ return ttl::upper_bound(b(), e(), x, Lt()); }), up);
         op("binary_search");
         result_b(lib([&]{ return ttl::binary_search(b(), e(), x); }), lo != up);
         op("binary_search(comp)");
         result_b(lib([&]{ return ttl::binary_search(b(), e(), x, Lt()); }), lo != up);
         op("equal_range");
         ttl::pair<T *, T *> re = lib([&]{ return ttl::equal_range(b(), e(), x); });
         pos(re.first, lo);
         pos(re.second, up);
         op("equal_range(comp)");
         re = lib([&]{ return ttl::equal_range(b(), e(), x, Lt()); });
         pos(re.first, lo);
         pos(re.second, up);
      }
      op("is_sorted", " n=%zu", n);
      result_b(lib([&]{ return ttl::is_sorted(b(), e()); }), true);
      size_t p = place();
      std::vector<T> keep(v);
      if (p)
      {
         v[p] = mk<T>(kof(v[p]), ++tag);
         v[p - 1] = mk<T>(kof(v[p]) + 1, ++tag);
         op("is_sorted_until", " n=%zu p=%zu", n, p);
         pos(lib([&]{ return ttl::is_sorted_until(b(), e()); }), p);
         op("is_sorted");
         result_b(lib([&]{ return ttl::is_sorted(b(), e()); }), false);
      }
      v = keep;
      std::vector<T> w, out(n * 2 + 2, mk<T>(9, 0)), ex;
      size_t m = r.below(3) ? place() + 1 : n;
      for (size_t i = 0; i < m; ++i)
         w.push_back(mk<T>((int)r.below(span + 1), ++tag));
      std::stable_sort(w.begin(), w.end(), Lt());
      std::merge(v.begin(), v.end(), w.begin(), w.end(), std::back_inserter(ex), Lt());
      op("merge", " n=%zu m=%zu", n, m);
      T *oe = lib([&]{ return ttl::merge(b(), e(), w.data(), w.data() + m, out.data()); });
      number(oe - out.data(), n + m);
      for (size_t i = 0; i < n + m; ++i)
         if (!same(out[i], ex[i]))
            fail(SEM, "contents", "element %zu of the merged range is %d, expected %d", i, kof(out[i]), kof(ex[i]));
      if (!same(out[n + m], mk<T>(9, 0)))
         fail(SEM, "beyond");
      for (size_t i = n; i-- > 1;)
         std::swap(v[i], v[r.below((unsigned)i + 1)]);
      if (r.below(2))
         v[place()] = mk<T>(120, ++tag);
      op("max_element");
      pos(lib([&]{ return ttl::max_element(b(), e()); }), std::max_element(b(), e(), Lt()) - b());
      op("min_element");
      pos(lib([&]{ return ttl::min_element(b(), e()); }), std::min_element(b(), e(), Lt()) - b());
      op("minmax_element");
      ttl::pair<T *, T *> mm = lib([&]{ return ttl::minmax_element(b(), e()); });
      pos(mm.first, std::min_element(b(), e(), Lt()) - b());
      result_b(kof(*mm.second) == kof(*std::max_element(b(), e(), Lt())), true);
   }
};

template<class T, size_t N> static void big_array(Rng &r)
{
   typedef ttl::array<T, N> A;
   static A a, c;
   const A &ca = a;
   S->large_cases++;
   if (N > S->max_size)
      S->max_size = N;
   NoAlloc na;
   T x = (T)r.range(1, 100);
   op("array<N>::size", " N=%zu", N);
   if (a.size() != N || ca.max_size() != N || ca.empty() || (size_t)(a.end() - a.begin()) != N || (size_t)(ca.end() - ca.begin()) != N ||
       (size_t)(ca.cend() - ca.cbegin()) != N)
      fail(SEM, "size", "size() is %zu", a.size());
   op("array<N>::fill", " N=%zu", N);
   lib([&]{ a.fill(x); return 0; });
   for (size_t i = 0; i < N; ++i)
      if (a[i] != x)
         fail(SEM, "contents", "element %zu of %zu is %d after fill", i, N, (int)a[i]);
   S->observations++;
   size_t at[] = {0, N - 1, N / 2, 255 % N, 256 % N, 32768 % N, 65535 % N, 65536 % N, r.below((unsigned)N)};
   size_t p = at[r.below(9)];
   op("array<N>::operator=");
   lib([&]{ c = a; return 0; });
   op("array<N>::operator==");
   result_b(lib([&]{ return a == c; }), true);
   c[p] = (T)(x + 1);
   op("array<N>::operator==", " differ at %zu", p);
   result_b(lib([&]{ return a == c; }), false);
   op("array<N>::operator!=");
   result_b(lib([&]{ return a != c; }), true);
   op("array<N>::swap");
   lib([&]{ a.swap(c); return 0; });
   for (size_t i = 0; i < N; ++i)
      if (a[i] != (T)(i == p ? x + 1 : x) || c[i] != x || ca.at(i) != a[i] || &ca[i] != a.data() + i)
         fail(SEM, "contents", "element %zu of %zu after swap", i, N);
   if (&a.back() != a.data() + N - 1 || &ca.back() != a.data() + N - 1 || &a.front() != a.data())
      fail(SEM, "back");
   na.done();
   note_state(mix(mix(N, p), (unsigned)x));
   S->elem_checks += N;
}
template<size_t N> static void big_countof()
{
   static char arr[N];
   static const int ints[N] = {};
   op("countof", " N=%zu", N);
#ifdef MON_AS98
   unsigned long a = countof(arr), b = ttl_countof(ints);
#else
   unsigned long a = (ttl::countof)(arr), b = ttl_countof(ints);
#endif
   if (a != N || b != N)
      fail(SEM, "result", "yields %lu and %lu, expected %zu", a, b, N);
   S->observations++;
   note_state(N);
}
static void vocab(Rng &r)
{
   switch (r.below(8))
   {
   case 0: big_array<int, 300>(r); break;
   case 1: big_array<unsigned char, 256>(r); break;
   case 2: big_array<unsigned char, 65536>(r); break;
   case 3: big_array<short, 70001>(r); break;
   case 4: big_array<int, 32769>(r); break;
   case 5: big_countof<255>(); big_countof<256>(); big_countof<257>(); big_countof<65535>(); big_countof<65536>(); big_countof<100000>(); break;
   case 6:
   {
      size_t n = SIZES[r.below(NSIZES)];
      std::vector<int> v(n + 1, 4711);
      int s = r.range(-100000, 100000);
      op("iota", " n=%zu", n);
      lib([&]{ ttl::iota(v.data(), v.data() + n, s); return 0; });
      for (size_t i = 0; i < n; ++i)
         if (v[i] != s + (int)i)
            fail(SEM, "contents", "element %zu of %zu is %d", i, n, v[i]);
      if (v[n] != 4711)
         fail(SEM, "beyond");
      op("accumulate", " n=%zu", n);
      long long x = lib([&]{ return ttl::accumulate(v.data(), v.data() + n, 1000000000000ll); }), e = 1000000000000ll;
      for (size_t i = 0; i < n; ++i)
         e += v[i];
      if (x != e)
         fail(SEM, "result", "yields %lld, expected %lld", x, e);
      op("accumulate(double)");
      double y = lib([&]{ return ttl::accumulate(v.data(), v.data() + n, 0.5); }), ey = 0.5;
      for (size_t i = 0; i < n; ++i)
         ey += v[i];
      if (y != ey)
         fail(SEM, "result", "yields %g, expected %g", y, ey);
      op("iota(unsigned char)", " n=%zu", n);
      std::vector<unsigned char> c(n);
      lib([&]{ ttl::iota(c.data(), c.data() + n, (unsigned char)s); return 0; });
      for (size_t i = 0; i < n; ++i)
         if (c[i] != (unsigned char)(s + i))
            fail(SEM, "contents", "element %zu", i);
      S->observations += 4;
      note_state(mix(n, s & 15));
      break;
   }
   default:
   {
      size_t n = SIZES[r.below(NSIZES)];
      std::vector<int> v(n);
      int *p = v.data();
      op("distance", " n=%zu", n);
      long d = lib([&]{ return ttl::distance(v.data(), v.data() + n); }), d2 = lib([&]{ return ttl::distance(v.data() + n, v.data()); });
      if (d != (long)n || d2 != -(long)n)
         fail(SEM, "result", "yields %ld and %ld for %zu", d, d2, n);
      op("advance", " n=%zu", n);
      lib([&]{ ttl::advance(p, n); return 0; });
      if (p != v.data() + n)
         fail(SEM, "result");
      lib([&]{ ttl::advance(p, -(int)n); return 0; });
      if (p != v.data())
         fail(SEM, "result");
      S->observations += 4;
      note_state(mix(77, n));
   }
   }
}

static void the_case(Rng &r, uint64_t)
{
   if (!strcmp(g_profile, "vocab"))
   {
      for (int i = 0; i < 4; ++i)
         vocab(r);
      return;
   }
   int w = !strcmp(g_profile, "query") ? 0 : !strcmp(g_profile, "modify") ? 1 : 2;
#define GO(T) do { Big<T> x(r); w == 0 ? x.query() : w == 1 ? x.modify() : x.sorted(); x.na.done(); } while (0)
   switch (r.below(4))
   {
   case 0: GO(unsigned char); break;
   case 1: GO(short); break;
   case 2: GO(int); break;
   default: GO(Rec); break;
   }
}
int main(int argc, char **argv) { return run(argc, argv, "big_algo", the_case); }
