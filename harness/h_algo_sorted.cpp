// Algorithms on sorted ranges, merging, minimum and maximum against the standard
// library's on plain copies.
#include "algo.hpp"

// A range of any length which holds i/3 at position i and costs no memory
struct Huge
{
   long p;
   static long steps;
   static long size;
   long operator*() const
   {
      steps++;
      if (p < 0 || p >= size)
         stop_range("dereferenced outside", (size_t)p, (size_t)size);
      return p / 3;
   }
   Huge at(long x) const { Huge h; h.p = x; return h; }
   Huge &operator++() { ++p; return *this; }
   Huge &operator--() { --p; return *this; }
   Huge operator++(int) { Huge o(*this); ++p; return o; }
   Huge operator--(int) { Huge o(*this); --p; return o; }
   Huge &operator+=(long d) { p += d; return *this; }
   Huge &operator-=(long d) { p -= d; return *this; }
   Huge operator+(long d) const { return at(p + d); }
   Huge operator-(long d) const { return at(p - d); }
   friend Huge operator+(long d, Huge i) { return i + d; }
   long operator-(Huge o) const { return p - o.p; }
   long operator[](long d) const { return *at(p + d); }
   bool operator==(Huge o) const { return p == o.p; }
   bool operator!=(Huge o) const { return p != o.p; }
   bool operator<(Huge o) const { return p < o.p; }
   bool operator>(Huge o) const { return p > o.p; }
   bool operator<=(Huge o) const { return p <= o.p; }
   bool operator>=(Huge o) const { return p >= o.p; }
};
long Huge::steps, Huge::size;

// Orders elements against elements, and elements against plain numbers, both ways
template<class T> struct Het
{
   Calls *c;
   bool desc;
   int verdict(long a, long b) const
   {
      S->pred_calls++;
      c->n++;
      static const int yes[] = {1, 2, -1, 256};
      return (desc ? b < a : a < b) ? yes[c->n & 3] : 0;
   }
   int operator()(const T &a, const T &b) const { OutLib o; return verdict(El<T>::read(a).key, El<T>::read(b).key); }
};
struct Num { long k; };
template<class T> struct HetN: Het<T>
{
   using Het<T>::operator();
   int operator()(const T &a, const Num &b) const { OutLib o; return this->verdict(El<T>::read(a).key, b.k); }
   int operator()(const Num &a, const T &b) const { OutLib o; return this->verdict(a.k, El<T>::read(b).key); }
};

struct Ce { constexpr bool operator()(int a, int b) const { return b < a; } };
template<class T> struct Sorted
{
   Rng &r;
   Gen g;
   explicit Sorted(Rng &rr): r(rr), g(rr) {}

   static void cost(uint64_t n, size_t len, unsigned passes)
   {
      S->disc_events++;
      if (n > passes * (2 * (uint64_t)lg(len) + 4))
         fail(DISC, "comparisons", "%llu comparisons in a sorted range of %zu", (unsigned long long)n, len);
   }
   void bounds(const Vs &v, int key, bool desc, int op_no)
   {
      NoAlloc na;
      Arr<T> a(v);
      const size_t n = v.size();
      auto lt = [=](V x, V y) { return desc ? y.key < x.key : x.key < y.key; };
      V kv = tv<T>(key, 555);
      size_t lo = std::lower_bound(v.begin(), v.end(), kv, lt) - v.begin();
      size_t hi = std::upper_bound(v.begin(), v.end(), kv, lt) - v.begin();
      T t(El<T>::make(kv));
      Calls c;
      HetN<T> h;
      h.c = &c;
      h.desc = desc;
      Num num = {kv.key};
      int how = desc ? 1 + r.below(2) : r.below(3); // <, comparator, comparator on other type
      uint64_t c0 = S->elem_compare;
      static const char *const names[] = {"lower_bound", "upper_bound", "binary_search", "equal_range"};
      static const char *const hows[] = {"", "(compare)", "(compare other type)"};
      char nm[64];
      snprintf(nm, sizeof(nm), "%s%s", names[op_no], hows[how]);
      op(nm, " n=%zu key=%d desc=%d", n, key, desc);
      with_ra(r, a, [&](auto f, auto l, auto ix, auto)
      {
         switch (op_no)
         {
         case 0:
            result(ix(how == 0 ? lib([&]{ return ttl::lower_bound(f, l, t); }) :
                      how == 1 ? lib([&]{ return ttl::lower_bound(f, l, t, h); }) :
                      lib([&]{ return ttl::lower_bound(f, l, num, h); })), lo, n);
            break;
         case 1:
            result(ix(how == 0 ? lib([&]{ return ttl::upper_bound(f, l, t); }) :
                      how == 1 ? lib([&]{ return ttl::upper_bound(f, l, t, h); }) :
                      lib([&]{ return ttl::upper_bound(f, l, num, h); })), hi, n);
            break;
         case 2:
            result_b(how == 0 ? lib([&]{ return ttl::binary_search(f, l, t); }) :
                     how == 1 ? lib([&]{ return ttl::binary_search(f, l, t, h); }) :
                     lib([&]{ return ttl::binary_search(f, l, num, h); }), lo != hi);
            break;
         case 3:
         {
            auto p = how == 0 ? lib([&]{ return ttl::equal_range(f, l, t); }) :
                     how == 1 ? lib([&]{ return ttl::equal_range(f, l, t, h); }) :
                     lib([&]{ return ttl::equal_range(f, l, num, h); });
            result(ix(p.first), lo, n);
            result(ix(p.second), hi, n);
            break;
         }
         }
      });
      if (how)
         cost(c.n, n, op_no == 3 ? 2 : 1);
      else if (El<T>::tracked)
         cost(S->elem_compare - c0, n, op_no == 3 ? 2 : 1);
      unchanged(a, v);
      na.done();
      fingerprint(v, Vs(), key * 2 + desc);
   }
   void sortedness(const Vs &v, int op_no)
   {
      NoAlloc na;
      Arr<T> a(v);
      size_t n = v.size();
      size_t e = std::is_sorted_until(v.begin(), v.end(), VLt()) - v.begin();
      uint64_t c0 = S->elem_compare;
      op(op_no ? "is_sorted_until" : "is_sorted", " n=%zu", n);
      with_fw(r, a, [&](auto f, auto l, auto ix, auto)
      {
         if (op_no)
            result(ix(lib([&]{ return ttl::is_sorted_until(f, l); })), e, n);
         else
            result_b(lib([&]{ return ttl::is_sorted(f, l); }), e == n);
      });
      S->disc_events++;
      if (El<T>::tracked && S->elem_compare - c0 > (n ? n : 1))
         fail(DISC, "comparisons", "more comparisons than elements");
      unchanged(a, v);
      na.done();
      fingerprint(v, Vs(), 0);
   }
   void merging(const Vs &v, const Vs &w)
   {
      NoAlloc na;
      Arr<T> a(v), b(w);
      Vs e;
      std::merge(v.begin(), v.end(), w.begin(), w.end(), std::back_inserter(e), VLt());
      uint64_t c0 = S->elem_compare;
      op("merge", " n=%zu with %zu", v.size(), w.size());
      with_in(r, a, [&](auto f, auto l, auto, auto st)
      {
         with_in(r, b, [&](auto f2, auto l2, auto, auto st2)
         {
            Vs got = with_out<T>(r, e.size(), [&](auto o) { return lib([&]{ return ttl::merge(f, l, f2, l2, o); }); });
            same_vals("result", got, e);
            not_past(st(), v.size());
            not_past(st2(), w.size());
         });
      });
      S->disc_events++;
      if (El<T>::tracked && S->elem_compare - c0 > e.size())
         fail(DISC, "comparisons", "%llu comparisons for %zu values", (unsigned long long)(S->elem_compare - c0), e.size());
      unchanged(a, v);
      unchanged(b, w);
      na.done();
      fingerprint(v, w, 0);
   }
   void extremes(const Vs &v, int op_no)
   {
      NoAlloc na;
      Arr<T> a(v);
      size_t n = v.size();
      static const char *const names[] = {"min_element", "max_element", "minmax_element"};
      op(names[op_no], " n=%zu", n);
      size_t lo = std::min_element(v.begin(), v.end(), VLt()) - v.begin();
      size_t hi = std::max_element(v.begin(), v.end(), VLt()) - v.begin();
      with_fw(r, a, [&](auto f, auto l, auto ix, auto)
      {
         switch (op_no)
         {
         case 0: result(ix(lib([&]{ return ttl::min_element(f, l); })), lo, n); break;
         case 1: result(ix(lib([&]{ return ttl::max_element(f, l); })), hi, n); break;
         case 2:
         {
            auto p = lib([&]{ return ttl::minmax_element(f, l); });
            result(ix(p.first), lo, n);
            // first or last of the largest: both conventions are in use
            size_t s = ix(p.second);
            S->observations++;
            if (n ? s >= n || v[s].key != v[hi].key : s != n)
               fail(SEM, "result", "minmax_element: the second is at %zu of %zu", s, n);
            break;
         }
         }
      });
      unchanged(a, v);
      na.done();
      fingerprint(v, Vs(), 0);
   }
   // min, max, minmax: which of the two objects
   void two(int x, int y, int op_no)
   {
      NoAlloc na;
      V vx = tv<T>(x, 1), vy = tv<T>(y, 2);
      T a(El<T>::make(vx)), b(El<T>::make(vy));
      Calls c;
      Het<T> h = {&c, (op_no & 8) != 0};
      bool lt_ab = h.desc ? vy.key < vx.key : vx.key < vy.key, lt_ba = h.desc ? vx.key < vy.key : vy.key < vx.key;
      bool cmp = op_no & 4;
      if (!cmp)
         lt_ab = vx.key < vy.key, lt_ba = vy.key < vx.key;
      static const char *const names[] = {"min", "max", "minmax", "min(same object)"};
      op(names[op_no & 3], " of %d %d compare=%d desc=%d", x, y, (int)cmp, (int)h.desc);
      const T *e1 = lt_ba ? &b : &a, *e2 = lt_ab ? &b : &a;
      S->observations++;
      S->elem_checks++;
      switch (op_no & 3)
      {
      case 0:
         if ((cmp ? &lib([&]() -> const T & { return ttl::min(a, b, h); }) : &lib([&]() -> const T & { return ttl::min(a, b); })) != e1)
            fail(SEM, "result", "not the smaller, or not the first of two equivalent");
         break;
      case 1:
         if ((cmp ? &lib([&]() -> const T & { return ttl::max(a, b, h); }) : &lib([&]() -> const T & { return ttl::max(a, b); })) != e2)
            fail(SEM, "result", "not the larger, or not the first of two equivalent");
         break;
      case 2:
      {
         ttl::pair<const T &, const T &> p = cmp ? lib([&]{ return ttl::minmax(a, b, h); }) : lib([&]{ return ttl::minmax(a, b); });
         const T *q1 = lt_ba ? &b : &a, *q2 = lt_ba ? &a : &b;
         if (&p.first != q1 || &p.second != q2)
            fail(SEM, "result", "not (smaller, larger), or equivalent values reordered");
         break;
      }
      case 3:
         if (&lib([&]() -> const T & { return ttl::min(a, a); }) != &a || &lib([&]() -> const T & { return ttl::max(a, a); }) != &a)
            fail(SEM, "result", "not the object itself");
#ifndef MON_AS98
         // since C++11 they can be asked at compile time
         constexpr bool known[] = {ttl::min(3, 5) == 3, ttl::max(3, 5) == 5, ttl::min(3, 5, Ce()) == 5, ttl::max(3, 5, Ce()) == 3};
         for (bool k : known)
            if (!k)
               fail(SEM, "result", "another result in a constant expression");
#endif
         break;
      }
      calls_at_most(c, 1, 2);
      V ra = El<T>::read(a), rb = El<T>::read(b);
      if (ra.key != vx.key || ra.tag != vx.tag || rb.key != vy.key || rb.tag != vy.tag)
         fail(SEM, "input-changed", "an operand was modified");
      na.done();
      note_state(mix(mix(hstr(S->op), op_no), mix(x, y)));
   }
   void huge()
   {
      NoReenter nr;
      static const long sizes[] = {3000, 2147483646L, 2147483647L, 2147483648L, 2147483651L, 4294967294L, 4294967296L, 4294967299L, 9000000000L, 1L << 40};
      long size = sizes[r.below(sizeof(sizes) / sizeof(*sizes))];
      Huge::size = size;
      long key = r.below(2) ? (long)(r.next() % (uint64_t)(size / 3 + 2)) : size / 3 - (long)r.below(4);
      long lo = key * 3, hi = key * 3 + 3;
      lo = lo > size ? size : lo;
      hi = hi > size ? size : hi;
      Huge f = {0}, l = {size};
      Huge::steps = 0;
      auto cmp = [](long a, long b) { return a < b; };
      int how = r.below(2);
      NoAlloc na;
      op("bounds of a huge range", " size=%ld key=%ld compare=%d", size, key, how);
      Huge x = how ? lib([&]{ return ttl::lower_bound(f, l, key, cmp); }) : lib([&]{ return ttl::lower_bound(f, l, key); });
      result((size_t)x.p, (size_t)lo, (size_t)size);
      x = how ? lib([&]{ return ttl::upper_bound(f, l, key, cmp); }) : lib([&]{ return ttl::upper_bound(f, l, key); });
      result((size_t)x.p, (size_t)hi, (size_t)size);
      result_b(how ? lib([&]{ return ttl::binary_search(f, l, key, cmp); }) : lib([&]{ return ttl::binary_search(f, l, key); }), lo != hi);
      ttl::pair<Huge, Huge> p = how ? lib([&]{ return ttl::equal_range(f, l, key, cmp); }) : lib([&]{ return ttl::equal_range(f, l, key); });
      result((size_t)p.first.p, (size_t)lo, (size_t)size);
      result((size_t)p.second.p, (size_t)hi, (size_t)size);
      cost(Huge::steps, size, 5);
      na.done();
      note_state(mix(hstr(S->op), mix(size, key)));
   }
   Vs ordered(size_t n, bool desc)
   {
      Vs v = g.vals<T>(n);
      std::stable_sort(v.begin(), v.end(), [=](V a, V b) { return desc ? b.key < a.key : a.key < b.key; });
      return v;
   }
   size_t len()
   {
      return r.below(20) == 0 ? 200 + r.below(1000) : g.len();
   }
   void random_ops(unsigned k)
   {
      while (k--)
         switch (r.below(8))
         {
         default:
         {
            bool desc = r.below(3) == 0;
            Vs v = ordered(len(), desc);
            int key = v.empty() || r.below(3) == 0 ? r.range(-1, g.span + 1) : v[r.below(v.size())].key + (r.below(3) == 0 ? r.range(-1, 1) : 0);
            bounds(v, key, desc, r.below(4));
            break;
         }
         case 3:
         {
            Vs v = r.below(3) ? ordered(g.len(), false) : g.vals<T>(g.len());
            if (v.size() > 1 && r.below(2)) // almost sorted
            {
               size_t i = r.below(v.size());
               v[i] = tv<T>(v[i].key + r.range(-1, 1), v[i].tag);
            }
            sortedness(v, r.below(2));
            break;
         }
         case 4: merging(ordered(g.len(), false), ordered(g.len(), false)); break;
         case 5: extremes(g.vals<T>(g.len()), r.below(3)); break;
         case 6: two(r.range(0, 3), r.range(0, 3), r.below(16)); break;
         case 7: huge(); break;
         }
   }
   static Vs numbered(unsigned which, unsigned maxlen, unsigned tag)
   {
      unsigned len = 0, cnt = 1;
      while (which >= cnt && len < maxlen)
      {
         which -= cnt;
         cnt *= 3;
         ++len;
      }
      Vs v;
      for (unsigned i = 0; i < len; ++i)
      {
         v.push_back(tv<T>(which % 3, ++tag));
         which /= 3;
      }
      return v;
   }
   // everything on every sequence over {0,1,2} of up to 5 elements
   void exhaustive(unsigned which)
   {
      Vs v = numbered(which, 5, 0);
      for (int o = 0; o < 3; ++o)
         extremes(v, o);
      for (int o = 0; o < 2; ++o)
         sortedness(v, o);
      bool up = std::is_sorted(v.begin(), v.end(), VLt()), down = std::is_sorted(v.rbegin(), v.rend(), VLt());
      for (int key = -1; key < 4; ++key)
         for (int o = 0; o < 4; ++o)
            for (int k = 0; k < 3; ++k)
            {
               if (up)
                  bounds(v, key, false, o);
               if (down)
                  bounds(v, key, true, o);
            }
      if (up)
         for (unsigned s = 0; s < 364; ++s)
         {
            Vs w = numbered(s, 5, 50);
            if (std::is_sorted(w.begin(), w.end(), VLt()))
               merging(v, w);
         }
      two((int)which % 3, (int)which / 3 % 3, (int)which / 9 % 16);
   }
};

static void the_case(Rng &r, uint64_t c)
{
   if (c % 3 == 2)
   {
      unsigned k = (unsigned)(c / 3);
      if (k / 364 % 2)
         Sorted<int>(r).exhaustive(k % 364);
      else
         Sorted<Tr>(r).exhaustive(k % 364);
   }
   else if (c % 3)
      Sorted<int>(r).random_ops(60);
   else
      Sorted<Tr>(r).random_ops(60);
}
int main(int argc, char **argv) { return run(argc, argv, "algorithm", the_case); }
