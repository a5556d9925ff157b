// Algorithms over plain ranges of arithmetic and pointer types, with values, second
// ranges and outputs of other types: every comparison and assignment is the one the
// language defines for the two types, without narrowing anything before it.
// MON_MIXED selects the operations (query, modify, sorted, vocabulary), MON_PART the types.
#include "mixed.hpp"
#include "ttl/numeric.hpp"

// An iterator that is not a pointer
template<class E> struct Walk
{
   typedef typename std::remove_const<E>::type value_type;
   typedef E *pointer;
   typedef E &reference;
   typedef ttl::ptrdiff_t difference_type;
   E *p;
   explicit Walk(E *q): p(q) {}
   E &operator*() const { return *p; }
   Walk &operator++() { ++p; return *this; }
   Walk operator++(int) { Walk t(*this); ++p; return t; }
   Walk &operator--() { --p; return *this; }
   Walk operator--(int) { Walk t(*this); --p; return t; }
   Walk &operator+=(ttl::ptrdiff_t n) { p += n; return *this; }
   Walk operator+(ttl::ptrdiff_t n) const { return Walk(p + n); }
   ttl::ptrdiff_t operator-(const Walk &o) const { return p - o.p; }
   bool operator==(const Walk &o) const { return p == o.p; }
   bool operator!=(const Walk &o) const { return p != o.p; }
};
template<class E> inline E *raw(E *p) { return p; }
template<class E> inline E *raw(Walk<E> w) { return w.p; }

template<class E> struct Buf
{
   enum { MAX = 48 };
   E *p;
   size_t n;
   std::deque<E> was() const { std::deque<E> v; for (size_t i = 0; i < n; ++i) v.push_back(p[i]); return v; }
   Buf(Rng &r, size_t len, const std::deque<E> &pool): p((E *)malloc(len * sizeof(E) + !len)), n(len)
   {
      for (size_t i = 0; i < n; ++i)
         p[i] = pool[r.below(pool.size())];
   }
   ~Buf() { free(p); }
   Buf(const Buf &) = delete;
};
template<class E, class V> struct Mixed
{
   Rng &r;
   const char *name;
   Pool<E, V> pool;
   std::deque<E> &pe;
   std::deque<V> &pv;
   uint64_t h;
   Mixed(Rng &rr, const char *n, bool odd): r(rr), name(n), pool(rr, odd), pe(pool.e), pv(pool.v), h(0) {}
   size_t len() { return r.below(6) ? r.below(14) : r.below(Buf<E>::MAX); }
   V val() { return pv[r.below(pv.size())]; }
   void seen(uint64_t x) { h = mix(h, x); S->observations++; }
   void pos(const char *what, size_t got, size_t expect, size_t n)
   {
      S->elem_checks++;
      if (got != expect)
         fail(SEM, what, "position %zu, expected %zu of %zu", got, expect, n);
   }
   template<class T> void vals(const char *what, const T *p, const std::deque<T> &e)
   {
      S->elem_checks += e.size();
      for (size_t i = 0; i < e.size(); ++i)
         if (!bits(p[i], e[i]))
            fail(SEM, what, "element %zu of %zu is not the expected one", i, e.size());
   }
   template<class I> void query(I f, I l, const E *b, size_t n)
   {
      V v = val();
      NoAlloc na;
      size_t e = 0, c = 0;
      while (e < n && !(b[e] == v))
         ++e;
      for (size_t i = 0; i < n; ++i)
         c += b[i] == v ? 1 : 0;
      op("find", " %s n=%zu", name, n);
      pos("result", raw(lib([&]{ return ttl::find(f, l, v); })) - b, e, n);
      op("count", " %s n=%zu", name, n);
      pos("result", lib([&]{ return ttl::count(f, l, v); }), c, n);
      long k = r.range(0, 4);
      size_t at = n;
      for (size_t i = 0; i + k <= n; ++i)
      {
         long q = 0;
         while (q < k && b[i + q] == v)
            ++q;
         if (q == k)
         {
            at = i;
            break;
         }
      }
      op("search_n", " %s n=%zu count=%ld", name, n, k);
      pos("result", raw(lib([&]{ return ttl::search_n(f, l, k, v); })) - b, at, n);
      pos("result", raw(lib([&]{ return ttl::search_n(f, l, (short)k, v, Same<E, V>()); })) - b, at, n);
      na.done();
      // a second range of the other type
      size_t m = r.below(3) ? n : len();
      Buf<V> o(r, m, pv);
      if constexpr (std::is_convertible<E, V>::value)
         if (r.below(4))
            for (size_t i = 0; i < m && i < n; ++i)
               o.p[i] = (V)b[i];
      if (m && r.below(2))
         o.p[r.below(m)] = val();
      NoAlloc nb;
      size_t d = 0;
      while (d < n && d < m && b[d] == o.p[d])
         ++d;
      const V *s = o.p;
      op("equal", " %s n=%zu m=%zu", name, n, m);
      pos("result", lib([&]{ return ttl::equal(f, l, s, s + m); }), d == n && d == m, n);
      pos("result", lib([&]{ return ttl::equal(f, l, o.p, o.p + m); }), d == n && d == m, n);
      if (n <= m)
         pos("result", lib([&]{ return ttl::equal(f, l, s); }), d == n, n);
      op("mismatch", " %s n=%zu m=%zu", name, n, m);
      {
         ttl::pair<I, const V *> p = lib([&]{ return ttl::mismatch(f, l, s, s + m); });
         pos("result", raw(p.first) - b, d, n);
         pos("result", p.second - s, d, m);
      }
      size_t sub = r.below(4), from = m > sub ? r.below(m - sub + 1) : 0;
      if (from + sub > m)
         sub = m - from;
      at = n;
      for (size_t i = 0; i + sub <= n; ++i)
      {
         size_t q = 0;
         while (q < sub && b[i + q] == s[from + q])
            ++q;
         if (q == sub)
         {
            at = i;
            break;
         }
      }
      op("search", " %s n=%zu sub=%zu", name, n, sub);
      pos("result", raw(lib([&]{ return ttl::search(f, l, s + from, s + from + sub); })) - b, at, n);
      nb.done();
      at = n;
      for (size_t i = 0; i + 1 < n; ++i)
         if (b[i] == b[i + 1])
         {
            at = i;
            break;
         }
      op("adjacent_find", " %s n=%zu", name, n);
      pos("result", raw(lib([&]{ return ttl::adjacent_find(f, l); })) - b, at, n);
      seen(mix(mix(e, c), mix(d, at)));
   }
   void query()
   {
      Buf<E> b(r, len(), pe);
      std::deque<E> w = b.was();
      query<E *>(b.p, b.p + b.n, b.p, b.n);
      query<const E *>(b.p, b.p + b.n, b.p, b.n);
      query<Walk<const E> >(Walk<const E>(b.p), Walk<const E>(b.p + b.n), b.p, b.n);
      vals("input-changed", b.p, w);
   }
   template<class I> void modify(I f, I l, E *b, size_t n)
   {
      std::deque<E> e;
      for (size_t i = 0; i < n; ++i)
         e.push_back(b[i]);
      V v = val(), v2 = val();
      switch (r.below(12))
      {
      case 0:
         op("fill", " %s n=%zu", name, n);
         if constexpr (Fits<E, V>::v)
         {
            lib([&]{ ttl::fill(f, l, v); return 0; });
            e.assign(n, (E)v);
         }
         break;
      case 1:
         op("fill_n", " %s n=%zu", name, n);
         if constexpr (Fits<E, V>::v)
         {
            pos("result", raw(lib([&]{ return ttl::fill_n(f, (unsigned char)n, v); })) - b, n, n);
            e.assign(n, (E)v);
         }
         break;
      case 2:
         op("replace", " %s n=%zu", name, n);
         if constexpr (Fits<E, V>::v)
         {
            for (size_t i = 0; i < n; ++i)
               if (e[i] == v)
                  e[i] = (E)v2;
            lib([&]{ ttl::replace(f, l, v, v2); return 0; });
         }
         break;
      case 3:
         op("replace_if", " %s n=%zu", name, n);
         if constexpr (Fits<E, V>::v)
         {
            for (size_t i = 0; i < n; ++i)
               if (e[i] == v)
                  e[i] = (E)v2;
            lib([&]{ ttl::replace_if(f, l, [&](const E &x) { return x == v; }, v2); return 0; });
         }
         break;
      case 4: case 5:
      {
         bool cond = r.below(2);
         op(cond ? "remove_if" : "remove", " %s n=%zu", name, n);
         std::deque<E> k;
         for (size_t i = 0; i < n; ++i)
            if (!(e[i] == v))
               k.push_back(e[i]);
         I x = cond ? lib([&]{ return ttl::remove_if(f, l, [&](const E &y) { return y == v; }); }) : lib([&]{ return ttl::remove(f, l, v); });
         pos("result", raw(x) - b, k.size(), n);
         vals("content", b, k);
         e.clear();
         break;
      }
      case 6:
         op("remove_copy", " %s n=%zu", name, n);
         {
            Buf<E> o(r, n, pe);
            std::deque<E> k;
            for (size_t i = 0; i < n; ++i)
               if (!(e[i] == v))
                  k.push_back(e[i]);
            size_t z = k.size();
            for (; k.size() < n;)
               k.push_back(o.p[k.size()]);
            E *x = lib([&]{ return ttl::remove_copy(f, l, o.p, v); });
            pos("result", x - o.p, z, n);
            vals("output", o.p, k);
         }
         break;
      case 7:
         op("replace_copy", " %s n=%zu", name, n);
         if constexpr (std::is_same<E, V>::value || (std::is_arithmetic<E>::value && std::is_arithmetic<V>::value))
         {
            // to elements that can hold either exactly
            typedef typename std::conditional<std::is_same<E, V>::value, E,
                    typename std::conditional<Is_real<E>::v || Is_real<V>::v, double, long long>::type>::type O;
            std::deque<O> fillers(1, O());
            Buf<O> o(r, n, fillers);
            std::deque<O> k;
            bool cond = r.below(2);
            for (size_t i = 0; i < n; ++i)
               if (e[i] == v)
                  k.push_back((O)v2);
               else
                  k.push_back((O)e[i]);
            O *x = cond ? lib([&]{ return ttl::replace_copy_if(f, l, o.p, [&](const E &y) { return y == v; }, v2); }) : lib([&]{ return ttl::replace_copy(f, l, o.p, v, v2); });
            pos("result", x - o.p, n, n);
            vals("output", o.p, k);
         }
         break;
      case 8: // to elements of the other type, and from them
         op("copy", " %s n=%zu", name, n);
         if constexpr (Fits<V, E>::v)
         {
            Buf<V> o(r, n, pv);
            std::deque<V> k;
            for (size_t i = 0; i < n; ++i)
               k.push_back((V)e[i]);
            V *x = 0;
            switch (r.below(4))
            {
            case 0: x = lib([&]{ return ttl::copy(f, l, o.p); }); break;
            case 1: x = lib([&]{ return ttl::copy_n(f, (signed char)n, o.p); }); break;
            case 2: x = lib([&]{ return ttl::copy_backward(f, l, o.p + n); }) + n; break;
            default: x = lib([&]{ return ttl::copy_if(f, l, o.p, [](const E &) { return true; }); }); break;
            }
            pos("result", x - o.p, n, n);
            vals("output", o.p, k);
         }
         break;
      case 9: // within the range
      {
         op("copy(overlapping)", " %s n=%zu", name, n);
         size_t d = r.below(n + 1), a = r.below(n - d + 1);
         E *src = b + d, *x;
         if (r.below(2))
         {
            for (size_t i = 0; i + d < n; ++i)
               e[i] = b[i + d];
            x = r.below(2) ? lib([&]{ return ttl::copy(src, b + n, b); }) : lib([&]{ return ttl::copy((const E *)src, (const E *)b + n, b); });
            pos("result", x - b, n - d, n);
         }
         else
         {
            for (size_t i = 0; i < a; ++i)
               e[n - 1 - i] = b[n - 1 - i - d];
            E *end = b + (n - d);
            x = lib([&]{ return ttl::copy_backward(end - a, end, b + n); });
            pos("result", x - b, n - a, n);
         }
         break;
      }
      case 10:
         op("swap_ranges", " %s n=%zu", name, n);
         {
            Buf<E> o(r, n, pe);
            std::deque<E> k = o.was();
            pos("result", lib([&]{ return ttl::swap_ranges(f, l, o.p); }) - o.p, n, n);
            vals("output", o.p, e);
            e = k;
            if (n)
            {
               E *x = &b[r.below(n)];
               lib([&]{ ttl::iter_swap(x, x); ttl::swap(*x, *x); return 0; });
            }
         }
         break;
      default:
         if (r.below(2))
         {
            op("reverse", " %s n=%zu", name, n);
            lib([&]{ ttl::reverse(f, l); return 0; });
            for (size_t i = 0; i < n / 2; ++i)
               std::swap(e[i], e[n - 1 - i]);
         }
         else
         {
            op("reverse_copy", " %s n=%zu", name, n);
            Buf<E> o(r, n, pe);
            std::deque<E> k(e.rbegin(), e.rend());
            pos("result", lib([&]{ return ttl::reverse_copy(f, l, o.p); }) - o.p, n, n);
            vals("output", o.p, k);
         }
         break;
      }
      vals("content", b, e);
      uint64_t x = n;
      for (size_t i = 0; i < n; ++i)
         x = x * 31 + (b[i] == v);
      seen(x);
   }
   void modify()
   {
      NoReenter nr;
      Buf<E> b(r, len(), pe);
      if (r.below(2))
         modify<E *>(b.p, b.p + b.n, b.p, b.n);
      else
         modify<Walk<E> >(Walk<E>(b.p), Walk<E>(b.p + b.n), b.p, b.n);
      // null ranges are ranges
      E *z = 0;
      op("null range", " %s", name);
      lib([&]{
         E v = pe[0];
         ttl::reverse(z, z);
         ttl::fill(z, z, v);
         ttl::copy(z, z, z);
         ttl::copy_backward(z, z, z);
         ttl::swap_ranges(z, z, z);
         ttl::fill_n(z, 0, v);
         ttl::replace(z, z, v, v);
         ttl::reverse_copy(z, z, z);
         return ttl::remove(z, z, v) == z && ttl::find(z, z, v) == z && ttl::equal(z, z, z) && ttl::equal(z, z, z, z) &&
                ttl::search(z, z, z, z) == z && ttl::adjacent_find(z, z) == z && !ttl::count(z, z, v);
      }) ? (void)0 : fail(SEM, "result", "an empty null range has another result");
   }
   template<class I> void sorted(I f, I l, E *b, size_t n)
   {
      V v = val();
      NoAlloc na;
      size_t lo = 0, hi = 0;
      while (lo < n && b[lo] < v)
         ++lo;
      while (hi < n && !(v < b[hi]))
         ++hi;
      // only where the range is partitioned by the value, as conversions may bend the order
      bool part = true;
      for (size_t i = 0; i < n; ++i)
         if ((i < lo) != (b[i] < v) || (i < hi) != !(v < b[i]))
            part = false;
      if (part && lo <= hi)
      {
         op("lower_bound", " %s n=%zu", name, n);
         pos("result", raw(lib([&]{ return ttl::lower_bound(f, l, v); })) - b, lo, n);
         pos("result", raw(lib([&]{ return ttl::lower_bound(f, l, v, [](const E &x, const V &y) { return x < y; }); })) - b, lo, n);
         op("upper_bound", " %s n=%zu", name, n);
         pos("result", raw(lib([&]{ return ttl::upper_bound(f, l, v); })) - b, hi, n);
         pos("result", raw(lib([&]{ return ttl::upper_bound(f, l, v, [](const V &x, const E &y) { return x < y; }); })) - b, hi, n);
         op("equal_range", " %s n=%zu", name, n);
         ttl::pair<I, I> p = lib([&]{ return ttl::equal_range(f, l, v); });
         pos("result", raw(p.first) - b, lo, n);
         pos("result", raw(p.second) - b, hi, n);
         op("binary_search", " %s n=%zu", name, n);
         pos("result", lib([&]{ return ttl::binary_search(f, l, v); }), lo != hi, n);
      }
      na.done();
      seen(mix(lo, hi) * 2 + part);
   }
   template<class I> void order(I f, I l, E *b, size_t n)
   {
      NoAlloc na;
      size_t until = n, mn = 0, mx = 0;
      for (size_t i = 0; i < n; ++i)
      {
         if (i && until == n && b[i] < b[i - 1])
            until = i;
         if (b[i] < b[mn])
            mn = i;
         if (b[mx] < b[i])
            mx = i;
      }
      op("is_sorted", " %s n=%zu", name, n);
      pos("result", raw(lib([&]{ return ttl::is_sorted_until(f, l); })) - b, until, n);
      pos("result", lib([&]{ return ttl::is_sorted(f, l); }), until == n, n);
      op("min_element", " %s n=%zu", name, n);
      pos("result", raw(lib([&]{ return ttl::min_element(f, l); })) - b, n ? mn : 0, n);
      op("max_element", " %s n=%zu", name, n);
      pos("result", raw(lib([&]{ return ttl::max_element(f, l); })) - b, n ? mx : 0, n);
      na.done();
      if (n)
      {
         E &x = b[r.below(n)], &y = b[r.below(n)];
         op("min", " %s", name);
         if (&lib([&]() -> const E & { return ttl::min(x, y); }) != (y < x ? &y : &x) || &lib([&]() -> const E & { return ttl::max(x, y); }) != (x < y ? &y : &x))
            fail(SEM, "result", "min or max is not the right object");
         op("minmax", " %s", name);
         ttl::pair<const E &, const E &> p = lib([&]{ return ttl::minmax(x, y); });
         if (&p.first != (y < x ? &y : &x) || &p.second != (y < x ? &x : &y))
            fail(SEM, "result", "minmax has not the right objects");
      }
      seen(mix(until, mix(mn, mx)));
   }
   void sorted()
   {
      Buf<E> b(r, len(), pe);
      order<E *>(b.p, b.p + b.n, b.p, b.n);
      order<Walk<E> >(Walk<E>(b.p), Walk<E>(b.p + b.n), b.p, b.n);
      std::stable_sort(b.p, b.p + b.n);
      order<E *>(b.p, b.p + b.n, b.p, b.n);
      sorted<E *>(b.p, b.p + b.n, b.p, b.n);
      sorted<Walk<E> >(Walk<E>(b.p), Walk<E>(b.p + b.n), b.p, b.n);
      // two ranges of different types, into one that holds both
      if constexpr (Fits<E, V>::v && Fits<V, E>::v && sizeof(E) != sizeof(V))
      {
         typedef typename std::common_type<E, V>::type W;
         if constexpr (Fits<W, E>::v && Fits<W, V>::v)
         {
            Buf<V> o(r, len(), pv);
            std::sort(o.p, o.p + o.n);
            Buf<W> out(r, b.n + o.n, std::deque<W>(1, W()));
            std::deque<W> e;
            size_t i = 0, j = 0;
            while (i < b.n || j < o.n)
               if (i == b.n || (j < o.n && o.p[j] < b.p[i]))
                  e.push_back(o.p[j++]);
               else
                  e.push_back(b.p[i++]);
            op("merge", " %s n=%zu m=%zu", name, b.n, o.n);
            const V *of = o.p, *ol = o.p + o.n;
            W *x = lib([&]{ return ttl::merge(b.p, b.p + b.n, of, ol, out.p); });
            pos("result", x - out.p, e.size(), e.size());
            vals("output", out.p, e);
         }
      }
   }
   void vocab()
   {
      NoReenter nr;
      size_t n = len();
      if constexpr (std::is_arithmetic<E>::value && std::is_arithmetic<V>::value && !std::is_same<E, bool>::value)
      {
         std::deque<E> small;
         for (int i = 0; i < 5; ++i)
            small.push_back((E)(Is_real<E>::v ? 0.1 * i + i : i * 7));
         Buf<E> b(r, n, small);
         V init = (V)(int)r.below(3), e = init;
         for (size_t i = 0; i < n; ++i)
            e = e + b.p[i];
         op("accumulate", " %s n=%zu", name, n);
         V g = r.below(2) ? lib([&]{ return ttl::accumulate(b.p, b.p + n, init); }) : lib([&]{ return ttl::accumulate(Walk<const E>(b.p), Walk<const E>(b.p + n), init); });
         if (!bits(g, e))
            fail(SEM, "result", "accumulate over %zu elements differs", n);
         if constexpr (!std::is_same<V, bool>::value && Fits<E, V>::v)
         {
            V from = (V)(int)r.range(-3, 250);
            op("iota", " %s n=%zu", name, n);
            std::deque<E> k;
            for (V x = from; k.size() < n; ++x)
               k.push_back((E)x);
            lib([&]{ ttl::iota(b.p, b.p + n, from); return 0; });
            vals("content", b.p, k);
         }
         seen(n);
      }
      E x = pe[r.below(pe.size())], y = pe[r.below(pe.size())];
      V v = val(), w = val();
      op("pair", " %s", name);
      typedef ttl::pair<E, V> P;
      P a = lib([&]{ return ttl::make_pair(x, v); }), b = lib([&]{ return P(y, w); }), c(a), d;
      if (!bits(a.first, x) || !bits(a.second, v) || !bits(b.first, y) || !bits(b.second, w) || !bits(c.first, x) || !bits(c.second, v))
         fail(SEM, "content", "a pair does not hold what it was made of");
      if (!bits(d.first, E()) || !bits(d.second, V()))
         fail(SEM, "content", "a pair made of nothing does not hold initial values");
      bool eq = x == y && v == w;
      if (lib([&]{ return a == b; }) != eq || lib([&]{ return a != b; }) == eq)
         fail(SEM, "equality", "of two pairs, expected %d", (int)eq);
      lib([&]{ a.swap(b); a.swap(a); return 0; });
      if (!bits(a.first, y) || !bits(a.second, w) || !bits(b.first, x) || !bits(b.second, v))
         fail(SEM, "content", "of swapped pairs");
      op("functional", " %s", name);
      if (lib([&]{ return ttl::less<E>()(x, y); }) != (x < y) || lib([&]{ return ttl::greater<E>()(x, y); }) != (x > y) ||
          lib([&]{ return ttl::equal_to<E>()(x, y); }) != (x == y) || lib([&]{ return ttl::not_equal_to<E>()(x, y); }) != (x != y))
         fail(SEM, "result", "a function object differs from the operator");
      op("swap", " %s", name);
      E p = x, q = y;
      lib([&]{ ttl::swap(p, q); return 0; });
      if (!bits(p, y) || !bits(q, x))
         fail(SEM, "content", "of swapped values");
      lib([&]{ ttl::swap(p, p); return 0; });
      if (!bits(p, y))
         fail(SEM, "content", "of a value swapped with itself");
      op("array", " %s", name);
      ttl::array<E, 5> s, t;
      E *sp = s.data();
      for (int i = 0; i < 5; ++i)
         sp[i] = pe[r.below(pe.size())];
      t = s;
      if (r.below(2))
         t[r.below(5)] = pe[r.below(pe.size())];
      eq = true;
      for (int i = 0; i < 5; ++i)
         eq = eq && s[i] == t[i];
      if (lib([&]{ return s == t; }) != eq || lib([&]{ return s != t; }) == eq)
         fail(SEM, "equality", "of two arrays, expected %d", (int)eq);
      lib([&]{ s.fill(x); return 0; });
      for (int i = 0; i < 5; ++i)
         if (!bits(s[i], x))
            fail(SEM, "content", "element %d of a filled array", i);
   }
   void run()
   {
#if MON_MIXED == 0
      query();
#elif MON_MIXED == 1
      modify();
#elif MON_MIXED == 2
      sorted();
#else
      vocab();
#endif
      note_state(mix(hstr(name), h));
   }
};

static void the_case(Rng &r, uint64_t)
{
   for (int i = 0; i < 12; ++i)
   {
#define GO(n, E, V) case n: Mixed<E, V>(r, #E "/" #V, MON_MIXED != 2).run(); break;
      switch (r.below(12))
      {
#if MON_PART == 0
      GO(0, char, int) GO(1, char, char) GO(2, signed char, long) GO(3, unsigned char, int) GO(4, unsigned char, unsigned char)
      GO(5, bool, bool) GO(6, bool, int) GO(7, unsigned char, signed char) GO(8, signed char, unsigned) GO(9, char, double)
      GO(10, signed char, signed char) GO(11, wchar_t, int)
#elif MON_PART == 1
      GO(0, short, int) GO(1, unsigned short, short) GO(2, int, int) GO(3, int, long long) GO(4, int, unsigned) GO(5, unsigned, int)
      GO(6, long, int) GO(7, unsigned long, long) GO(8, int, char) GO(9, unsigned, unsigned long) GO(10, short, short) GO(11, long, long)
#else
      GO(0, int, double) GO(1, double, double) GO(2, double, int) GO(3, float, double) GO(4, float, float) GO(5, long, double)
      GO(6, double, float) GO(7, char *, char *) GO(8, const int *, const int *) GO(9, Colour, Colour) GO(10, Small, Small) GO(11, Colour, int)
#endif
      }
   }
}
int main(int argc, char **argv) { return run(argc, argv, "algorithm", the_case); }
