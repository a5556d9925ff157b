// Modifying algorithms on monitored ranges and outputs.
#include "algo.hpp"

template<class T> struct Modify
{
   Rng &r;
   Gen g;
   explicit Modify(Rng &rr): r(rr), g(rr) {}
   struct Op1 // unary operation: (k,t) -> (k*3+1, t)
   {
      Calls *c;
      T operator()(const T &t) const
      {
         OutLib out;
         S->pred_calls++;
         c->n++;
         V v = El<T>::read(t);
         c->args.push_back(v);
         return El<T>::make(f(v));
      }
      static V f(V v) { V o = {v.key * 3 + 1, v.tag}; return El<T>::norm(o); }
   };
   struct Op2
   {
      Calls *c;
      T operator()(const T &a, const T &b) const
      {
         OutLib out;
         S->pred_calls++;
         c->n++;
         return El<T>::make(f(El<T>::read(a), El<T>::read(b)));
      }
      static V f(V a, V b) { V o = {a.key * 10 + b.key, a.tag * 1000 + b.tag}; return El<T>::norm(o); }
   };
   struct Mk // generator with its own state
   {
      Calls *c;
      int next;
      T operator()()
      {
         OutLib out;
         S->pred_calls++;
         c->n++;
         V v = f(next++);
         return El<T>::make(v);
      }
      static V f(int i) { V v = {i * 7, (unsigned)i}; return El<T>::norm(v); }
   };
   Vs tail(const Vs &v, size_t from) { return Vs(v.begin() + from, v.end()); }

   void step(const Vs &v, int key, int op_no)
   {
      NoAlloc na;
      step_(v, key, op_no);
      na.done();
      fingerprint(v, Vs(), key);
   }
   void step_(const Vs &v, int key, int op_no)
   {
      Arr<T> a(v);
      const size_t n = v.size();
      auto odd = [=](V x) { return ((x.key + key) & 1) != 0; };
      Calls c;
      auto p = pred1<T>(c, odd);
      V nv = tv<T>(500 + key, 77), ov = tv<T>(key, 78);
      switch (op_no)
      {
      case 0:
      {
         op("fill", " n=%zu", n);
         T t(El<T>::make(nv));
         with_fw(r, a, [&](auto f, auto l, auto, auto) { lib([&]{ ttl::fill(f, l, t); return 0; }); });
         same_vals("result", a.read(), Vs(n, nv));
         return;
      }
      case 1:
      {
         long cnt = (long)n - (long)r.below(2) * r.below(n + 2);
         op("fill_n", " n=%zu count=%ld", n, cnt);
         T t(El<T>::make(nv));
         size_t w = cnt > 0 ? cnt : 0;
         if (r.below(2))
         {
            Vs got = with_out<T>(r, w, [&](auto o) { return lib([&]{ return ttl::fill_n(o, cnt, t); }); });
            same_vals("result", got, Vs(w, nv));
            return;
         }
         with_fw(r, a, [&](auto f, auto, auto ix, auto)
         {
            auto it = cnt >= 0 && r.below(2) ? lib([&]{ return ttl::fill_n(f, (size_t)cnt, t); }) : lib([&]{ return ttl::fill_n(f, (int)cnt, t); });
            result(ix(it), w, n);
         });
         Vs e(v);
         std::fill(e.begin(), e.begin() + w, nv);
         same_vals("result", a.read(), e);
         return;
      }
      case 2: case 3:
      {
         op(op_no == 2 ? "copy" : "copy_if", " n=%zu", n);
         Vs e;
         for (size_t i = 0; i < n; ++i)
            if (op_no == 2 || odd(v[i]))
               e.push_back(v[i]);
         with_in(r, a, [&](auto f, auto l, auto, auto st)
         {
            Vs got = with_out<T>(r, e.size(), [&](auto o)
            {
               return op_no == 2 ? lib([&]{ return ttl::copy(f, l, o); }) : lib([&]{ return ttl::copy_if(f, l, o, p); });
            });
            same_vals("result", got, e);
            not_past(st(), n);
         });
         if (op_no == 3)
         {
            calls_exactly(c, n, n);
            same_vals("predicate-arguments", c.args, v);
         }
         unchanged(a, v);
         return;
      }
      case 4:
      {
         long cnt = r.below(4) ? (long)r.below(n + 1) : -(long)r.below(4);
         if (r.below(4) == 0)
            cnt = n;
         op("copy_n", " n=%zu count=%ld", n, cnt);
         Vs e(v.begin(), v.begin() + (cnt > 0 ? cnt : 0));
         with_in(r, a, [&](auto f, auto, auto, auto st)
         {
            Vs got = with_out<T>(r, e.size(), [&](auto o)
            {
               return cnt >= 0 && r.below(2) ? lib([&]{ return ttl::copy_n(f, (size_t)cnt, o); }) : lib([&]{ return ttl::copy_n(f, cnt, o); });
            });
            same_vals("result", got, e);
            not_past(st(), e.size());
         });
         unchanged(a, v);
         return;
      }
      case 5:
      {
         op("copy_backward", " n=%zu", n);
         size_t extra = r.below(4);
         Vs dv;
         for (size_t i = 0; i < n + extra; ++i)
            dv.push_back(tv<T>(900 + (int)i, 1));
         Arr<T> d(dv);
         with_bi(r, a, [&](auto f, auto l, auto, auto)
         {
            with_bi(r, d, [&](auto, auto dl, auto dix, auto)
            {
               auto it = lib([&]{ return ttl::copy_backward(f, l, dl); });
               result(dix(it), extra, n + extra);
            });
         });
         std::copy_backward(v.begin(), v.end(), dv.end());
         same_vals("result", d.read(), dv);
         unchanged(a, v);
         return;
      }
      case 6:
      {
         if (!n)
            return;
         // overlapping, in the allowed directions
         size_t x = r.below(n), y = r.below(n + 1);
         Vs e(v);
         if (r.below(2))
         {
            if (y < x)
               std::swap(x, y);
            size_t d = r.below(x + 1);
            op("copy(overlapping)", " [%zu,%zu) to %zu of %zu", x, y, d, n);
            std::copy(v.begin() + x, v.begin() + y, e.begin() + d);
            Ctl ctl(n);
            MIt<T, FW> f(a.p, ctl, x), l(a.p, ctl, y), o(a.p, ctl, d);
            result(lib([&]{ return ttl::copy(f, l, o); }).p, d + (y - x), n);
         }
         else
         {
            if (y < x)
               std::swap(x, y);
            size_t d = y + r.below(n - y + 1);
            op("copy_backward(overlapping)", " [%zu,%zu) to %zu of %zu", x, y, d, n);
            std::copy_backward(v.begin() + x, v.begin() + y, e.begin() + d);
            Ctl ctl(n);
            MIt<T, BI> f(a.p, ctl, x), l(a.p, ctl, y), o(a.p, ctl, d);
            result(lib([&]{ return ttl::copy_backward(f, l, o); }).p, d - (y - x), n);
         }
         same_vals("result", a.read(), e);
         return;
      }
      case 7:
      {
         op("generate", " n=%zu", n);
         Mk mk = {&c, key};
         with_fw(r, a, [&](auto f, auto l, auto, auto) { lib([&]{ ttl::generate(f, l, mk); return 0; }); });
         Vs e;
         for (size_t i = 0; i < n; ++i)
            e.push_back(Mk::f(key + (int)i));
         same_vals("result", a.read(), e);
         calls_exactly(c, n, n);
         return;
      }
      case 8:
      {
         long cnt = r.below(5) ? (long)n : -(long)r.below(3);
         op("generate_n", " count=%ld", cnt);
         Mk mk = {&c, key};
         Vs e;
         for (long i = 0; i < cnt; ++i)
            e.push_back(Mk::f(key + (int)i));
         Vs got = with_out<T>(r, e.size(), [&](auto o) { return lib([&]{ return ttl::generate_n(o, cnt, mk); }); });
         same_vals("result", got, e);
         calls_exactly(c, e.size(), n);
         return;
      }
      case 9: case 10:
      {
         op(op_no == 9 ? "replace" : "replace_if", " n=%zu key=%d", n, key);
         T t(El<T>::make(nv)), o(El<T>::make(ov));
         uint64_t as = S->elem_assign;
         with_fw(r, a, [&](auto f, auto l, auto, auto)
         {
            lib([&]
            {
               if (op_no == 9)
                  ttl::replace(f, l, o, t);
               else
                  ttl::replace_if(f, l, p, t);
               return 0;
            });
         });
         (void)as;
         Vs e(v);
         for (size_t i = 0; i < n; ++i)
            if (op_no == 9 ? v[i].key == ov.key : odd(v[i]))
               e[i] = nv;
         same_vals("result", a.read(), e);
         if (op_no == 10)
         {
            calls_exactly(c, n, n);
            same_vals("predicate-arguments", c.args, v);
         }
         return;
      }
      case 11: case 12:
      {
         op(op_no == 11 ? "replace_copy" : "replace_copy_if", " n=%zu key=%d", n, key);
         T t(El<T>::make(nv)), o(El<T>::make(ov));
         Vs e(v);
         for (size_t i = 0; i < n; ++i)
            if (op_no == 11 ? v[i].key == ov.key : odd(v[i]))
               e[i] = nv;
         with_in(r, a, [&](auto f, auto l, auto, auto)
         {
            Vs got = with_out<T>(r, n, [&](auto d)
            {
               return op_no == 11 ? lib([&]{ return ttl::replace_copy(f, l, d, o, t); }) : lib([&]{ return ttl::replace_copy_if(f, l, d, p, t); });
            });
            same_vals("result", got, e);
         });
         if (op_no == 12)
         {
            calls_exactly(c, n, n);
            same_vals("predicate-arguments", c.args, v);
         }
         unchanged(a, v);
         return;
      }
      case 13: case 14:
      {
         op(op_no == 13 ? "remove_copy" : "remove_copy_if", " n=%zu key=%d", n, key);
         T o(El<T>::make(ov));
         Vs e;
         for (size_t i = 0; i < n; ++i)
            if (!(op_no == 13 ? v[i].key == ov.key : odd(v[i])))
               e.push_back(v[i]);
         with_in(r, a, [&](auto f, auto l, auto, auto)
         {
            Vs got = with_out<T>(r, e.size(), [&](auto d)
            {
               return op_no == 13 ? lib([&]{ return ttl::remove_copy(f, l, d, o); }) : lib([&]{ return ttl::remove_copy_if(f, l, d, p); });
            });
            same_vals("result", got, e);
         });
         if (op_no == 14)
         {
            calls_exactly(c, n, n);
            same_vals("predicate-arguments", c.args, v);
         }
         unchanged(a, v);
         return;
      }
      case 15: case 16:
      {
         op(op_no == 15 ? "remove" : "remove_if", " n=%zu key=%d", n, key);
         T o(El<T>::make(ov));
         Vs e;
         for (size_t i = 0; i < n; ++i)
            if (!(op_no == 15 ? v[i].key == ov.key : odd(v[i])))
               e.push_back(v[i]);
         with_fw(r, a, [&](auto f, auto l, auto ix, auto)
         {
            auto it = op_no == 15 ? lib([&]{ return ttl::remove(f, l, o); }) : lib([&]{ return ttl::remove_if(f, l, p); });
            result(ix(it), e.size(), n);
         });
         Vs got = a.read();
         got.resize(e.size());
         same_vals("result", got, e);
         if (op_no == 16)
         {
            calls_exactly(c, n, n);
            same_vals("predicate-arguments", c.args, v);
         }
         return;
      }
      case 17:
      {
         op("transform", " n=%zu", n);
         Vs e;
         for (size_t i = 0; i < n; ++i)
            e.push_back(Op1::f(v[i]));
         Op1 o1 = {&c};
         if (r.below(3) == 0)
         {
            // in place
            with_fw(r, a, [&](auto f, auto l, auto ix, auto)
            {
               auto it = lib([&]{ return ttl::transform(f, l, f, o1); });
               result(ix(it), n, n);
            });
            same_vals("result", a.read(), e);
         }
         else
         {
            with_in(r, a, [&](auto f, auto l, auto, auto)
            {
               Vs got = with_out<T>(r, n, [&](auto d) { return lib([&]{ return ttl::transform(f, l, d, o1); }); });
               same_vals("result", got, e);
            });
            unchanged(a, v);
         }
         calls_exactly(c, n, n);
         return;
      }
      case 18:
      {
         op("transform(binary)", " n=%zu", n);
         Vs w = g.vals<T>(n + r.below(3)), e;
         Arr<T> b(w);
         for (size_t i = 0; i < n; ++i)
            e.push_back(Op2::f(v[i], w[i]));
         Op2 o2 = {&c};
         with_in(r, a, [&](auto f, auto l, auto, auto)
         {
            with_in(r, b, [&](auto f2, auto, auto, auto st2)
            {
               Vs got = with_out<T>(r, n, [&](auto d) { return lib([&]{ return ttl::transform(f, l, f2, d, o2); }); });
               same_vals("result", got, e);
               not_past(st2(), n);
            });
         });
         unchanged(a, v);
         unchanged(b, w);
         calls_exactly(c, n, n);
         return;
      }
      case 19:
      {
         op("reverse", " n=%zu", n);
         with_bi(r, a, [&](auto f, auto l, auto, auto) { lib([&]{ ttl::reverse(f, l); return 0; }); });
         Vs e(v.rbegin(), v.rend());
         same_vals("result", a.read(), e);
         return;
      }
      case 20:
      {
         op("reverse_copy", " n=%zu", n);
         Vs e(v.rbegin(), v.rend());
         with_bi(r, a, [&](auto f, auto l, auto, auto)
         {
            Vs got = with_out<T>(r, n, [&](auto d) { return lib([&]{ return ttl::reverse_copy(f, l, d); }); });
            same_vals("result", got, e);
         });
         unchanged(a, v);
         return;
      }
      case 21:
      {
         op("swap_ranges", " n=%zu", n);
         size_t extra = r.below(3);
         Vs w = g.vals<T>(n + extra);
         Arr<T> b(w);
         with_fw(r, a, [&](auto f, auto l, auto, auto)
         {
            // the return type is that of the first range's iterators
            typedef decltype(f) It;
            if constexpr (std::is_same<It, T *>::value)
            {
               It d = b.p;
               It e = lib([&]{ return ttl::swap_ranges(f, l, d); });
               result(e - b.p, n, n + extra);
            }
            else if constexpr (std::is_same<It, MIt<T, FW> >::value)
            {
               Ctl ctl(n + extra);
               It d(b.p, ctl, 0);
               It e = lib([&]{ return ttl::swap_ranges(f, l, d); });
               result(e.p, n, n + extra);
            }
            else
            {
               ttl::forward_list<T> o;
               for (size_t i = n + extra; i--;)
                  o.push_front(b.p[i]);
               It e = lib([&]{ return ttl::swap_ranges(f, l, o.begin()); });
               size_t q = 0;
               for (It i = o.begin(); !(i == e) && q <= n + extra; ++i)
                  ++q;
               result(q, n, n + extra);
               q = 0;
               for (It i = o.begin(); i != o.end(); ++i)
                  b.p[q++] = *i;
            }
         });
         Vs ea(w.begin(), w.begin() + n), eb(v);
         eb.insert(eb.end(), w.begin() + n, w.end());
         same_vals("result-first", a.read(), ea);
         same_vals("result-second", b.read(), eb);
         return;
      }
      case 22:
      {
         if (n < 1)
            return;
         size_t x = r.below(n), y = r.below(n);
         op("iter_swap", " %zu %zu of %zu", x, y, n);
         Ctl ctl(n);
         if (r.below(2))
            lib([&]{ ttl::iter_swap(MIt<T, FW>(a.p, ctl, x), MIt<T, FW>(a.p, ctl, y)); return 0; });
         else
            lib([&]{ ttl::iter_swap(a.p + x, a.p + y); return 0; });
         Vs e(v);
         std::swap(e[x], e[y]);
         same_vals("result", a.read(), e);
         return;
      }
      case 23:
      {
         if (n < 1)
            return;
         size_t x = r.below(n), y = r.below(n);
         op("swap", " %zu %zu of %zu", x, y, n);
         lib([&]{ ttl::swap(a.p[x], a.p[y]); return 0; });
         Vs e(v);
         std::swap(e[x], e[y]);
         same_vals("result", a.read(), e);
         return;
      }
      }
   }
   void random_ops(unsigned k)
   {
      while (k--)
         step(g.vals<T>(g.len()), r.below(g.span + 1), r.below(24));
   }
   void exhaustive(unsigned which)
   {
      // all sequences over {0,1,2} of up to 5 elements
      which %= 364;
      unsigned len = 0, cnt = 1;
      while (which >= cnt)
      {
         which -= cnt;
         cnt *= 3;
         ++len;
      }
      Vs v;
      for (unsigned i = 0; i < len; ++i)
      {
         v.push_back(tv<T>(which % 3, i + 1));
         which /= 3;
      }
      for (int o = 0; o < 24; ++o)
         for (int key = 0; key < 3; ++key)
            step(v, key, o);
   }
};

static void the_case(Rng &r, uint64_t c)
{
   if (c % 3 == 2)
   {
      unsigned k = (unsigned)(c / 3);
      if (k / 364 % 2)
         Modify<int>(r).exhaustive(k % 364);
      else
         Modify<Tr>(r).exhaustive(k % 364);
   }
   else if (c % 3)
      Modify<int>(r).random_ops(100);
   else
      Modify<Tr>(r).random_ops(100);
}
int main(int argc, char **argv) { return run(argc, argv, "algorithm", the_case); }
