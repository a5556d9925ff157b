// Non-modifying algorithms on monitored ranges of every category, against the
// standard library's on plain copies.
#include "algo.hpp"

template<class T> struct Query
{
   Rng &r;
   Gen g;
   explicit Query(Rng &rr): r(rr), g(rr) {}

   void one(const Vs &v, int key, int op_no)
   {
      NoAlloc na;
      one_(v, key, op_no);
      na.done();
   }
   void two(const Vs &v, const Vs &w, int op_no)
   {
      NoAlloc na;
      two_(v, w, op_no);
      na.done();
   }
   void one_(const Vs &v, int key, int op_no)
   {
      Arr<T> a(v);
      size_t n = v.size();
      auto match = [=](V x) { return x.key == key; };
      auto odd = [=](V x) { return ((x.key + key) & 1) != 0; };
      switch (op_no)
      {
      case 0:
      {
         op("find", " n=%zu key=%d", n, key);
         size_t e = std::find_if(v.begin(), v.end(), match) - v.begin();
         T t(El<T>::make(tv<T>(key, 77)));
         uint64_t c0 = S->elem_compare;
         with_in(r, a, [&](auto f, auto l, auto ix, auto st)
         {
            auto it = lib([&]{ return ttl::find(f, l, t); });
            result(ix(it), e, n);
            not_past(st(), e);
         });
         if (El<T>::tracked && S->elem_compare - c0 > n)
            fail(DISC, "calls", "more comparisons than elements");
         break;
      }
      case 1: case 2:
      {
         bool neg = op_no == 2;
         op(neg ? "find_if_not" : "find_if", " n=%zu key=%d", n, key);
         size_t e = (neg ? std::find_if_not(v.begin(), v.end(), odd) : std::find_if(v.begin(), v.end(), odd)) - v.begin();
         Calls c;
         auto p = pred1<T>(c, odd);
         with_in(r, a, [&](auto f, auto l, auto ix, auto st)
         {
            auto it = lib([&]{ return neg ? ttl::find_if_not(f, l, p) : ttl::find_if(f, l, p); });
            result(ix(it), e, n);
            not_past(st(), e);
         });
         calls_at_most(c, e < n ? e + 1 : n, n);
         break;
      }
      case 3:
      {
         op("count", " n=%zu key=%d", n, key);
         size_t e = std::count_if(v.begin(), v.end(), match);
         T t(El<T>::make(tv<T>(key, 77)));
         with_in(r, a, [&](auto f, auto l, auto, auto)
         {
            result((size_t)lib([&]{ return ttl::count(f, l, t); }), e, n);
         });
         break;
      }
      case 4:
      {
         op("count_if", " n=%zu key=%d", n, key);
         Calls c;
         auto p = pred1<T>(c, odd);
         size_t e = std::count_if(v.begin(), v.end(), odd);
         with_in(r, a, [&](auto f, auto l, auto, auto)
         {
            result((size_t)lib([&]{ return ttl::count_if(f, l, p); }), e, n);
         });
         calls_exactly(c, n, n);
         break;
      }
      case 5: case 6: case 7:
      {
         op(op_no == 5 ? "all_of" : op_no == 6 ? "any_of" : "none_of", " n=%zu key=%d", n, key);
         bool e = op_no == 5 ? std::all_of(v.begin(), v.end(), odd) : op_no == 6 ? std::any_of(v.begin(), v.end(), odd) : std::none_of(v.begin(), v.end(), odd);
         Calls c;
         auto p = pred1<T>(c, odd);
         size_t settled = 0;
         while (settled < n && odd(v[settled]) == (op_no == 5))
            ++settled;
         with_in(r, a, [&](auto f, auto l, auto, auto st)
         {
            result_b(lib([&]{ return op_no == 5 ? ttl::all_of(f, l, p) : op_no == 6 ? ttl::any_of(f, l, p) : ttl::none_of(f, l, p); }), e);
            not_past(st(), settled);
         });
         calls_at_most(c, settled < n ? settled + 1 : n, n);
         break;
      }
      case 8: case 9:
      {
         bool pr = op_no == 9;
         op(pr ? "adjacent_find(pred)" : "adjacent_find", " n=%zu", n);
         auto rel = [=](V x, V y) { return x.key == y.key + 1; };
         size_t e = (pr ? std::adjacent_find(v.begin(), v.end(), rel) : std::adjacent_find(v.begin(), v.end(), VEq())) - v.begin();
         Calls c;
         auto p = pred2<T>(c, rel);
         uint64_t c0 = S->elem_compare;
         with_fw(r, a, [&](auto f, auto l, auto ix, auto)
         {
            auto it = pr ? lib([&]{ return ttl::adjacent_find(f, l, p); }) : lib([&]{ return ttl::adjacent_find(f, l); });
            result(ix(it), e, n);
         });
         if (pr)
            calls_at_most(c, n ? (e < n ? e + 1 : n - 1) : 0, n);
         else if (El<T>::tracked && S->elem_compare - c0 > n)
            fail(DISC, "calls", "more comparisons than elements");
         break;
      }
      case 10: case 11:
      {
         bool pr = op_no == 11;
         long cnt = key & 7;
         if (r.below(20) == 0)
            cnt = -cnt;
         int k = r.below(g.span);
         T t(El<T>::make(tv<T>(k, 78)));
         op(pr ? "search_n(pred)" : "search_n", " n=%zu count=%ld value=%d", n, cnt, k);
         Calls c;
         auto rel = [=](V x, V y) { return x.key == y.key + 1; };
         auto p = pred2<T>(c, rel);
         size_t e = n;
         if (cnt <= 0)
            e = 0;
         else
            for (size_t i = 0; i + cnt <= n && e == n; ++i)
            {
               long q = 0;
               while (q < cnt && (pr ? v[i + q].key == k + 1 : v[i + q].key == k))
                  ++q;
               if (q == cnt)
                  e = i;
            }
         uint64_t c0 = S->elem_compare;
         with_fw(r, a, [&](auto f, auto l, auto ix, auto)
         {
            bool sz = r.below(2) && cnt >= 0;
            auto it = pr ? (sz ? lib([&]{ return ttl::search_n(f, l, (size_t)cnt, t, p); }) : lib([&]{ return ttl::search_n(f, l, cnt, t, p); }))
                         : (sz ? lib([&]{ return ttl::search_n(f, l, (size_t)cnt, t); }) : lib([&]{ return ttl::search_n(f, l, (int)cnt, t); }));
            result(ix(it), e, n);
         });
         if (pr)
            calls_at_most(c, n, n);
         else if (El<T>::tracked && S->elem_compare - c0 > n)
            fail(DISC, "calls", "more comparisons than elements");
         break;
      }
      case 12:
      {
         op("for_each", " n=%zu", n);
         Calls c;
         struct Fn
         {
            Calls *c;
            uint64_t n;
            void operator()(const T &t)
            {
               OutLib out;
               S->pred_calls++;
               ++n;
               c->n++;
               c->args.push_back(El<T>::read(t));
            }
         } fn = {&c, 0};
         with_in(r, a, [&](auto f, auto l, auto, auto)
         {
            Fn ret = lib([&]{ return ttl::for_each(f, l, fn); });
            if (ret.n != n)
               fail(SEM, "returned-function", "the returned function has seen %llu of %zu elements", (unsigned long long)ret.n, n);
         });
         calls_exactly(c, n, n);
         same_vals("for_each-order", c.args, v);
         break;
      }
      default:
      {
         // an element of the range given as the value
         if (!n)
            return;
         size_t at = r.below(n);
         op("find(own)", " n=%zu [%zu]", n, at);
         size_t e = 0;
         while (v[e].key != v[at].key)
            ++e;
         const T *b = a.p;
         const T *it = lib([&]{ return ttl::find(b, b + n, b[at]); });
         result(it - b, e, n);
         break;
      }
      }
      unchanged(a, v);
      fingerprint(v, Vs(), key);
   }
   void two_(const Vs &v, const Vs &w, int op_no)
   {
      Arr<T> a(v), b(w);
      size_t n = v.size(), m = w.size();
      auto rel = [](V x, V y) { return x.key == y.key + 1; };
      Calls c;
      auto p = pred2<T>(c, rel);
      bool pr = op_no & 1;
      switch (op_no / 2)
      {
      case 0:
      {
         op(pr ? "search(pred)" : "search", " n=%zu m=%zu", n, m);
         size_t e = (pr ? std::search(v.begin(), v.end(), w.begin(), w.end(), rel) : std::search(v.begin(), v.end(), w.begin(), w.end(), VEq())) - v.begin();
         with_fw(r, a, [&](auto f, auto l, auto ix, auto)
         {
            with_fw(r, b, [&](auto f2, auto l2, auto, auto)
            {
               auto it = pr ? lib([&]{ return ttl::search(f, l, f2, l2, p); }) : lib([&]{ return ttl::search(f, l, f2, l2); });
               result(ix(it), e, n);
            });
         });
         calls_at_most(c, (uint64_t)n * m, n);
         break;
      }
      case 1: case 2:
      {
         bool four = op_no / 2 == 2;
         if (!four && m < n)
            return;
         op(four ? (pr ? "equal(4,pred)" : "equal(4)") : (pr ? "equal(3,pred)" : "equal(3)"), " n=%zu m=%zu", n, m);
         size_t most = std::min(n, m), settled = 0;
         while (settled < most && (pr ? rel(v[settled], w[settled]) : v[settled].key == w[settled].key))
            ++settled;
         bool e = (!four || n == m) && settled == most;
         with_in(r, a, [&](auto f, auto l, auto, auto st)
         {
            with_in(r, b, [&](auto f2, auto l2, auto, auto st2)
            {
               bool got = four ? (pr ? lib([&]{ return ttl::equal(f, l, f2, l2, p); }) : lib([&]{ return ttl::equal(f, l, f2, l2); }))
                               : (pr ? lib([&]{ return ttl::equal(f, l, f2, p); }) : lib([&]{ return ttl::equal(f, l, f2); }));
               result_b(got, e);
               not_past(st(), settled);
               not_past(st2(), settled);
            });
         });
         calls_at_most(c, settled < most ? settled + 1 : most, n);
         break;
      }
      default:
      {
         bool four = op_no / 2 == 4;
         if (!four && m < n)
            return;
         op(four ? (pr ? "mismatch(4,pred)" : "mismatch(4)") : (pr ? "mismatch(3,pred)" : "mismatch(3)"), " n=%zu m=%zu", n, m);
         size_t e = 0;
         while (e < n && e < m && (pr ? rel(v[e], w[e]) : v[e].key == w[e].key))
            ++e;
         with_in(r, a, [&](auto f, auto l, auto ix, auto st)
         {
            with_in(r, b, [&](auto f2, auto l2, auto ix2, auto st2)
            {
               auto got = four ? (pr ? lib([&]{ return ttl::mismatch(f, l, f2, l2, p); }) : lib([&]{ return ttl::mismatch(f, l, f2, l2); }))
                               : (pr ? lib([&]{ return ttl::mismatch(f, l, f2, p); }) : lib([&]{ return ttl::mismatch(f, l, f2); }));
               result(ix(got.first), e, n);
               result(ix2(got.second), e, m);
               not_past(st(), e);
               not_past(st2(), e);
            });
         });
         calls_at_most(c, e < std::min(n, m) ? e + 1 : e, n);
      }
      }
      unchanged(a, v);
      unchanged(b, w);
      fingerprint(v, w, 0);
   }
   void random_ops(unsigned k)
   {
      while (k--)
      {
         if (r.below(2))
            one(g.vals<T>(g.len()), r.below(g.span + 1), r.below(14));
         else
         {
            Vs v = g.vals<T>(g.len()), w;
            // often a part of it, or a relative of it
            if (r.below(3) && !v.empty())
            {
               size_t x = r.below(v.size() + 1), y = x + r.below(v.size() - x + 1);
               if (r.below(2))
                  x = 0, y = v.size();
               int d = r.below(2) ? -1 : 0;
               for (size_t i = x; i < y; ++i)
                  w.push_back(tv<T>(v[i].key + d, ++g.tag));
               if (!w.empty() && r.below(2))
                  w[r.below(w.size())].key ^= 1;
               if (r.below(3) == 0)
                  w.push_back(tv<T>(r.below(g.span), ++g.tag));
               for (size_t i = 0; i < w.size(); ++i)
                  w[i] = El<T>::norm(w[i]);
            }
            else
               w = g.vals<T>(g.len());
            two(v, w, r.below(10));
         }
      }
   }
   static Vs numbered(unsigned which, int base, unsigned maxlen, unsigned tag)
   {
      unsigned len = 0, cnt = 1;
      while (which >= cnt && len < maxlen)
      {
         which -= cnt;
         cnt *= base;
         ++len;
      }
      Vs v;
      for (unsigned i = 0; i < len; ++i)
      {
         v.push_back(tv<T>(which % base, ++tag));
         which /= base;
      }
      return v;
   }
   // every sequence over {0,1,2} of up to 5 elements, with every one of up to 3
   void exhaustive(unsigned which)
   {
      Vs v = numbered(which % 364, 3, 5, 0);
      for (int o = 0; o < 13; ++o)
         for (int key = 0; key < 3; ++key)
            one(v, key, o);
      for (unsigned s = 0; s < 40; ++s)
         for (int o = 0; o < 10; ++o)
            two(v, numbered(s, 3, 3, 50), o);
   }
};

static void the_case(Rng &r, uint64_t c)
{
   if (c % 3 == 2)
   {
      unsigned k = (unsigned)(c / 3);
      if (k / 364 % 2)
         Query<int>(r).exhaustive(k % 364);
      else
         Query<Tr>(r).exhaustive(k % 364);
   }
   else if (c % 3)
      Query<int>(r).random_ops(60);
   else
      Query<Tr>(r).random_ops(60);
}
int main(int argc, char **argv) { return run(argc, argv, "algorithm", the_case); }
