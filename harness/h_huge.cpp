// Sizes, positions and counts beyond what int and unsigned int hold: contents are
// nearly all the same value, so that a sparse model and a scan for what differs
// suffice. Profiles: vector, fixed_vector, array, bitset, query, modify, sorted.
#include "core_impl.hpp"
#include "ttl/ttl.hpp"
#include "ttl/vector.hpp"
#include "ttl/fixed_vector.hpp"
#include "ttl/array.hpp"
#include "ttl/bitset.hpp"
#include "ttl/numeric.hpp"
#include "ttl/algorithm.hpp"
#include <vector>
#include <algorithm>
#include <pthread.h>
using namespace mon;

typedef unsigned char B;
static const size_t G2 = (size_t)1 << 31, G4 = (size_t)1 << 32;

// n bytes, all 0 but for those listed
struct Sp
{
   size_t n;
   std::vector<std::pair<size_t, B> > m;
   Sp(): n(0) {}
   static bool before(const std::pair<size_t, B> &a, size_t p) { return a.first < p; }
   size_t at(size_t p) const { return std::lower_bound(m.begin(), m.end(), p, before) - m.begin(); }
   B get(size_t p) const { size_t i = at(p); return i < m.size() && m[i].first == p ? m[i].second : 0; }
   void set(size_t p, B v)
   {
      size_t i = at(p);
      bool here = i < m.size() && m[i].first == p;
      if (here && v)
         m[i].second = v;
      else if (here)
         m.erase(m.begin() + i);
      else if (v)
         m.insert(m.begin() + i, std::make_pair(p, v));
   }
   void open(size_t p, size_t k) // k zeros at p
   {
      for (size_t i = at(p); i < m.size(); ++i)
         m[i].first += k;
      n += k;
   }
   void cut(size_t p, size_t k)
   {
      size_t a = at(p), b = at(p + k);
      m.erase(m.begin() + a, m.begin() + b);
      for (size_t i = a; i < m.size(); ++i)
         m[i].first -= k;
      n -= k;
   }
   void size(size_t k)
   {
      if (k < n)
         cut(k, n - k);
      n = k;
   }
   // all of the n bytes
   void check(const B *d, const char *what) const
   {
      size_t p = 0, i = 0;
      S->elem_checks++;
      while (p < n)
      {
         size_t e = i < m.size() ? m[i].first : n;
         if (!zero(d + p, e - p))
            fail(SEM, what, "between %zu and %zu of %zu something is not 0", p, e, n);
         if (e < n && d[e] != m[i].second)
            fail(SEM, what, "at %zu of %zu is %d, expected %d", e, n, d[e], m[i].second);
         p = e + 1;
         ++i;
      }
   }
   static bool zero(const B *d, size_t k)
   {
      static const B z[1 << 16] = {0};
      for (; k > sizeof z; k -= sizeof z, d += sizeof z)
         if (memcmp(d, z, sizeof z))
            return false;
      return !memcmp(d, z, k);
   }
};

static size_t place(Rng &r, size_t n) // somewhere that matters
{
   size_t c;
   switch (r.below(5))
   {
   case 0: c = G2 - 3 + r.below(7); break;
   case 1: c = G4 - 3 + r.below(7); break;
   case 2: c = r.below(5); break;
   default: c = n - r.below(n < 300 ? n : 300); break;
   }
   return c > n ? n : c;
}
static size_t near_end(Rng &r, size_t n) { return n - r.below(400); }

template<class C, bool FIXED> struct SeqCase
{
   Rng &r;
   C *c;
   Sp s;
   unsigned moved; // how often nearly everything was moved: that takes its time
   explicit SeqCase(Rng &rr): r(rr), c(0), moved(0) {}
   void quick()
   {
      S->observations++;
      if (c->size() != s.n)
         fail(SEM, "size", "size() is %zu, expected %zu", (size_t)c->size(), s.n);
      if ((size_t)(c->end() - c->begin()) != s.n)
         fail(SEM, "end-begin", "end() - begin() is %zd, expected %zu", (ptrdiff_t)(c->end() - c->begin()), s.n);
      if (s.n)
      {
         if (c->front() != s.get(0) || c->back() != s.get(s.n - 1))
            fail(SEM, "front-back");
         for (int i = 0; i < 40; ++i)
         {
            size_t p = place(r, s.n);
            if (p >= s.n)
               p = s.n - 1;
            if ((*c)[p] != s.get(p) || *(c->begin() + p) != s.get(p) || *(c->end() - (s.n - p)) != s.get(p))
               fail(SEM, "element", "at %zu of %zu is %d, expected %d", p, s.n, (*c)[p], s.get(p));
            S->elem_checks++;
         }
         const size_t from = s.n > 5000 ? s.n - 5000 : 0;
         for (size_t p = from; p < s.n; ++p)
            if (c->begin()[p] != s.get(p))
               fail(SEM, "element", "at %zu of %zu is %d, expected %d", p, s.n, c->begin()[p], s.get(p));
      }
      note_state(mix(hstr(S->op), mix(s.n, s.m.size())));
      if (s.n > S->max_size)
         S->max_size = s.n;
   }
   void full() { quick(); s.check(&*c->begin(), "content"); }
   void marks(int k)
   {
      for (; k > 0 && s.n; --k)
      {
         size_t p = place(r, s.n);
         if (p >= s.n)
            p = s.n - 1;
         B v = (B)(1 + r.below(250));
         (*c)[p] = v;
         s.set(p, v);
      }
   }
   // where to change something: mostly where little has to be moved
   size_t where()
   {
      if (moved || r.below(6))
         return near_end(r, s.n);
      ++moved;
      return place(r, s.n);
   }
   void step(size_t cap)
   {
      const B x = (B)(1 + r.below(250));
      switch (r.below(9))
      {
      case 0:
      {
         size_t n = s.n - r.below(200) + r.below(200);
         if (n > cap)
            n = cap;
         op("resize", " %zu", n);
         lib([&]{ c->resize(n); return 0; });
         s.size(n);
         break;
      }
      case 1:
      {
         size_t n = s.n + r.below(200);
         if (n > cap)
            n = cap;
         op("resize(n,x)", " %zu", n);
         lib([&]{ c->resize(n, x); return 0; });
         for (size_t p = s.n; p < n; ++p)
            s.set(p, x);
         s.n = n;
         break;
      }
      case 2:
      {
         if (s.n == cap)
            return;
         op("push_back");
         lib([&]{ c->push_back(x); return 0; });
         s.set(s.n++, x);
         break;
      }
      case 3:
         op("pop_back");
         lib([&]{ c->pop_back(); return 0; });
         s.size(s.n - 1);
         break;
      case 4:
      {
         if (s.n == cap)
            return;
         size_t p = where();
         op("insert(pos,x)", " %zu", p);
         auto it = lib([&]{ return c->insert(c->begin() + p, x); });
         if ((size_t)(it - c->begin()) != p)
            fail(SEM, "result");
         s.open(p, 1);
         s.set(p, x);
         break;
      }
      case 5:
      {
         size_t p = where(), k = r.below(70);
         if (s.n + k > cap)
            return;
         op("insert(pos,n,x)", " %zu %zu", p, k);
         auto it = lib([&]{ return c->insert(c->begin() + p, (typename C::size_type)k, x); });
         if ((size_t)(it - c->begin()) != p)
            fail(SEM, "result");
         s.open(p, k);
         for (size_t i = 0; i < k; ++i)
            s.set(p + i, x);
         break;
      }
      case 6:
      {
         size_t p = where(), k = r.below(70);
         if (s.n + k > cap)
            return;
         B src[80];
         for (size_t i = 0; i < k; ++i)
            src[i] = (B)r.below(4);
         op("insert(pos,first,last)", " %zu %zu", p, k);
         const B *f = src, *l = src + k;
         lib([&]{ c->insert(c->begin() + p, f, l); return 0; });
         s.open(p, k);
         for (size_t i = 0; i < k; ++i)
            s.set(p + i, src[i]);
         break;
      }
      case 7:
      {
         size_t p = where();
         if (p == s.n)
            return;
         op("erase(pos)", " %zu", p);
         auto it = lib([&]{ return c->erase(c->begin() + p); });
         if ((size_t)(it - c->begin()) != p)
            fail(SEM, "result");
         s.cut(p, 1);
         break;
      }
      default:
      {
         size_t p = where(), k = r.below(70);
         if (p + k > s.n)
            k = s.n - p;
         op("erase(first,last)", " %zu %zu", p, k);
         auto it = lib([&]{ return c->erase(c->begin() + p, c->begin() + p + k); });
         if ((size_t)(it - c->begin()) != p)
            fail(SEM, "result");
         s.cut(p, k);
         break;
      }
      }
      quick();
   }
   void steps(int k, size_t cap)
   {
      for (int i = 0; i < k; ++i)
      {
         step(cap);
         if (i % 7 == 0)
            marks(2);
      }
   }
   // the most extreme range
   void cut_all()
   {
      size_t a = r.below(5), b = r.below(5);
      op("erase(first,last)", " all but %zu %zu", a, b);
      auto it = lib([&]{ return c->erase(c->begin() + a, c->end() - b); });
      if ((size_t)(it - c->begin()) != a)
         fail(SEM, "result");
      s.cut(a, s.n - a - b);
      full();
   }
};

static void vector_case(Rng &r, uint64_t cno)
{
   typedef ttl::vector<B> C;
   g_budget = (size_t)20 << 30;
   // either with room, or growing by itself once
   const size_t n = (cno & 1 ? G2 : G4) + r.below(1000);
   SeqCase<C, false> q(r);
   C v;
   q.c = &v;
   if (!(cno & 1))
   {
      op("reserve", " %zu", n + 100000);
      lib([&]{ v.reserve(n + 100000); return 0; });
      if (v.capacity() < n + 100000)
         fail(SEM, "capacity", "capacity %zu after reserve(%zu)", (size_t)v.capacity(), n + 100000);
   }
   op("resize", " %zu", n);
   lib([&]{ v.resize(n); return 0; });
   q.s.n = n;
   q.marks(40);
   q.full();
   q.steps(cno & 1 ? 6 : 60, (size_t)-1); // without reserve every growth copies everything
   q.full();
   if (cno & 1)
   {
      op("copy");
      C *w = lib([&]{ return new C(v); });
      q.c = w;
      q.full();
      op("==");
      if (!lib([&]{ return *w == v; }))
         fail(SEM, "result", "copy is not equal");
      size_t last = q.s.n - 1;
      (*w)[last] ^= 3;
      if (lib([&]{ return *w == v; }))
         fail(SEM, "result", "differs at %zu, but is equal", last);
      q.c = &v;
      op("~vector");
      lib([&]{ delete w; return 0; });
   }
   q.cut_all();
   op("swap");
   C w;
   lib([&]{ w.swap(v); return 0; });
   q.c = &w;
   q.full();
   op("clear");
   lib([&]{ w.clear(); return 0; });
   if (w.size() || w.begin() != w.end())
      fail(SEM, "size");
   lib([&]{ C().swap(w); C().swap(v); return 0; });
}

static const unsigned FN = 4294967000u;
template<class T> static T *mapped()
{
   void *p = mmap(0, sizeof(T), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
   if (p == MAP_FAILED)
      monitor_error("out of memory");
   return (T *)p;
}

static void fixed_case(Rng &r, uint64_t)
{
   typedef ttl::fixed_vector<B, FN> C;
   SeqCase<C, true> q(r);
   C *c = mapped<C>();
   op("fixed_vector");
   new(c) C();
   q.c = c;
   const size_t n = FN - r.below(3000);
   op("resize", " %zu", n);
   lib([&]{ c->resize((unsigned)n); return 0; });
   q.s.n = n;
   q.marks(40);
   q.full();
   q.steps(60, FN);
   op("resize", " full");
   lib([&]{ c->resize(FN); return 0; });
   q.s.size(FN);
   q.quick();
   if (!c->full() || c->capacity() != FN || c->max_size() != FN)
      fail(SEM, "capacity");
   q.full();
   q.cut_all();
   op("~fixed_vector");
   c->~C();
   munmap((void *)c, sizeof(C));
}

static void array_case(Rng &r, uint64_t)
{
   typedef ttl::array<B, 4294967295u> C;
   C *a = mapped<C>(), *b = mapped<C>();
   const size_t n = 4294967295u;
   op("array");
   if (a->size() != n || a->max_size() != n || (size_t)(a->end() - a->begin()) != n || a->empty())
      fail(SEM, "size", "%zu", (size_t)a->size());
   B x = (B)(1 + r.below(250));
   a->back() = x;
   if ((*a)[n - 1] != x || *(a->end() - 1) != x || &a->back() - a->data() != (ptrdiff_t)n - 1)
      fail(SEM, "back");
   size_t p = place(r, n - 1);
   (*a)[p] = x;
   if (a->begin()[p] != x || a->data()[p] != x)
      fail(SEM, "index", "%zu", p);
   S->elem_checks += 4;
   op("==");
   bool e = lib([&]{ return *a == *b; });
   if (e)
      fail(SEM, "result", "differ at %zu and %zu, but are equal", p, n - 1);
   op("fill");
   lib([&]{ b->fill(x); return 0; });
   for (size_t i = 0; i < n; i += i < n - 4096 ? 4096 : 1)
      if ((*b)[i] != x)
         fail(SEM, "content", "%zu", i);
   op("swap_ranges");
   size_t k = r.below(1000);
   lib([&]{ ttl::swap_ranges(a->begin() + (n - k), a->end(), b->begin() + (n - k)); return 0; });
   for (size_t i = n - k; i < n; ++i)
      if ((*a)[i] != x)
         fail(SEM, "content", "%zu", i);
   note_state(p);
   munmap((void *)a, sizeof(C));
   munmap((void *)b, sizeof(C));
}

// bits
static const size_t BN = ((size_t)1 << 32) + 1000;
typedef ttl::bitset<BN> Bits;
struct BitModel // the positions of the ones
{
   std::vector<size_t> p;
   bool test(size_t x) const { return std::binary_search(p.begin(), p.end(), x); }
   void set(size_t x, bool v)
   {
      std::vector<size_t>::iterator i = std::lower_bound(p.begin(), p.end(), x);
      if (i != p.end() && *i == x)
      {
         if (!v)
            p.erase(i);
      }
      else if (v)
         p.insert(i, x);
   }
};
static void bits_check(const Bits &b, const BitModel &m, bool inverted, Rng &r)
{
   S->observations++;
   size_t want = inverted ? BN - m.p.size() : m.p.size();
   if (b.count() != want)
      fail(SEM, "count", "count() is %zu, expected %zu", (size_t)b.count(), want);
   if (b.any() != (want != 0) || b.none() != (want == 0) || b.all() != (want == BN))
      fail(SEM, "any-none-all", "any %d none %d all %d with %zu", b.any(), b.none(), b.all(), want);
   for (size_t i = 0; i < m.p.size(); ++i)
   {
      if (b.test(m.p[i]) == inverted || b[m.p[i]] == inverted)
         fail(SEM, "bit", "%zu", m.p[i]);
      for (int d = -1; d < 2; d += 2)
      {
         size_t q = m.p[i] + d;
         if (q < BN && b.test(q) != (m.test(q) != inverted))
            fail(SEM, "bit", "%zu", q);
      }
      S->elem_checks++;
   }
   for (int i = 0; i < 20; ++i)
   {
      size_t q = place(r, BN - 1);
      if (b.test(q) != (m.test(q) != inverted))
         fail(SEM, "bit", "%zu", q);
   }
   if (b.test(BN) || b.size() != BN || b.capacity() < BN)
      fail(SEM, "size");
   note_state(mix(hstr(S->op), mix(want, m.p.size() ? m.p[0] : 0)));
}
static Rng *g_bits_rng;
static void *bits_thread(void *)
{
   Rng &r = *g_bits_rng;
   Bits *b = mapped<Bits>(), *d = mapped<Bits>();
   op("bitset");
   new(b) Bits();
   new(d) Bits();
   BitModel m;
   bits_check(*b, m, false, r);
   for (int i = 0; i < 40; ++i)
   {
      size_t x = place(r, BN - 1);
      bool v = r.below(4) != 0;
      op("set", " %zu %d", x, v);
      if (v && r.below(2))
         b->set(x);
      else if (!v && r.below(2))
         b->reset(x);
      else if (r.below(2))
         (*b)[x] = v;
      else
         b->set(x, v);
      m.set(x, v);
      if (r.below(4) == 0)
      {
         x = place(r, BN - 1);
         op("flip", " %zu", x);
         b->flip(x);
         m.set(x, !m.test(x));
      }
   }
   bits_check(*b, m, false, r);
   op("copy, ==");
   *d = *b;
   bits_check(*d, m, false, r);
   if (!(*d == *b))
      fail(SEM, "equal");
   size_t x = BN - 1 - r.below(90);
   d->flip(x);
   if (*d == *b || !(*d != *b))
      fail(SEM, "equal", "differ at %zu", x);
   op("^=");
   *d ^= *b;
   BitModel one;
   one.set(x, true);
   bits_check(*d, one, false, r);
   op("|=");
   *d |= *b;
   BitModel o = m;
   o.set(x, true);
   bits_check(*d, o, false, r);
   op("&=");
   *d &= *b;
   bits_check(*d, m, false, r);
   op("flip");
   d->flip();
   bits_check(*d, m, true, r);
   op("~");
   *d = ~*d;
   bits_check(*d, m, false, r);
   // shifts of nearly everything and by nearly everything
   for (int w = 0; w < 4; ++w)
   {
      const bool left = w & 1;
      const size_t k = w < 2 ? 1 + r.below(200) : (r.below(2) ? G4 : G4 - 70) + r.below(120);
      op(left ? "<<=" : ">>=", " %zu", k);
      if (r.below(2))
      {
         *d = *b;
         if (left)
            *d <<= k;
         else
            *d >>= k;
      }
      else
         *d = left ? *b << k : *b >> k;
      BitModel q;
      for (size_t i = 0; i < m.p.size(); ++i)
         if (left ? m.p[i] + k < BN : m.p[i] >= k)
            q.p.push_back(left ? m.p[i] + k : m.p[i] - k);
      bits_check(*d, q, false, r);
   }
   op("set(), reset()");
   d->set();
   bits_check(*d, BitModel(), true, r);
   d->reset();
   bits_check(*d, BitModel(), false, r);
   munmap((void *)b, sizeof *b);
   munmap((void *)d, sizeof *d);
   return 0;
}
static void bits_case(Rng &r)
{
   // values of that type are returned: they need a large stack
   const size_t st = (size_t)8 * sizeof(Bits);
   void *p = mmap(0, st, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
   pthread_attr_t a;
   pthread_t t;
   g_bits_rng = &r;
   if (p == MAP_FAILED || pthread_attr_init(&a) || pthread_attr_setstack(&a, p, st) || pthread_create(&t, &a, bits_thread, 0))
      monitor_error("no thread");
   pthread_join(t, 0);
   munmap(p, st);
}

// algorithms: a range of any length, with 0 everywhere but at a few places
struct Place { long p; int v; };
static Place g_pl[4];
static long g_len;
static int value_at(long p)
{
   for (int i = 0; i < 4; ++i)
      if (g_pl[i].p == p)
         return g_pl[i].v;
   return 0;
}
struct Far
{
   long p;
   explicit Far(long x = 0): p(x) {}
   int operator*() const
   {
      if (__builtin_expect((unsigned long)p >= (unsigned long)g_len, 0))
         fail(SEM, "range", "dereferenced at %ld of %ld", p, g_len);
      // none of the places is earlier, and there are no others near
      if (__builtin_expect(p < g_pl[0].p, 1))
         return 0;
      return value_at(p);
   }
   Far &operator++() { ++p; return *this; }
   Far operator++(int) { Far o(*this); ++p; return o; }
   Far &operator--() { --p; return *this; }
   Far operator--(int) { Far o(*this); --p; return o; }
   Far operator+(long d) const { return Far(p + d); }
   Far operator-(long d) const { return Far(p - d); }
   friend Far operator+(long d, Far i) { return i + d; }
   Far &operator+=(long d) { p += d; return *this; }
   Far &operator-=(long d) { p -= d; return *this; }
   long operator-(Far o) const { return p - o.p; }
   int operator[](long d) const { return *Far(p + d); }
   bool operator==(Far o) const { return p == o.p; }
   bool operator!=(Far o) const { return p != o.p; }
   bool operator<(Far o) const { return p < o.p; }
   bool operator>(Far o) const { return p > o.p; }
   bool operator<=(Far o) const { return p <= o.p; }
   bool operator>=(Far o) const { return p >= o.p; }
};
struct Sink // takes anything, and remembers what was not 0
{
   static long at, written, sum, nonzero, last;
   long p;
   explicit Sink(long x = 0): p(x) {}
   struct Ref
   {
      long p;
      void operator=(int v) const
      {
         ++written;
         if (__builtin_expect(v, 0))
         {
            ++nonzero;
            last = p;
            sum += v;
         }
      }
   };
   Ref operator*() const { Ref r = {p}; return r; }
   Sink &operator++() { ++p; return *this; }
   Sink operator++(int) { Sink o(*this); ++p; return o; }
   bool operator==(Sink o) const { return p == o.p; }
   bool operator!=(Sink o) const { return p != o.p; }
   static void clear() { written = sum = nonzero = last = 0; }
};
long Sink::at, Sink::written, Sink::sum, Sink::nonzero, Sink::last;
static bool odd(int v) { return v & 1; }
struct IsOdd { bool operator()(int v) const { return odd(v); } };
struct NotOdd { bool operator()(int v) const { return !odd(v); } };
struct Same { bool operator()(int a, int b) const { return a == b; } };
struct Counter { long n; long seen; void operator()(int v) { ++n; seen += v; } };
struct Gen1 { long n; long at; int operator()() { return n++ == at ? 5 : 0; } };
struct Next { int operator()(int v) const { return v ? v + 1 : 0; } };
struct Add { int operator()(int a, int b) const { return a + b; } };

static void pos(const char *what, long got, long want)
{
   S->observations++;
   S->elem_checks++;
   if (got != want)
      fail(SEM, what, "is at %ld, expected %ld", got, want);
}
static void setup(Rng &r)
{
   g_len = (r.below(5) ? G4 : G2) + 300 + (long)r.below(1000);
   for (int i = 0; i < 4; ++i)
   {
      g_pl[i].p = g_len - 200 + i * 40 + (long)r.below(30);
      g_pl[i].v = 0;
   }
   g_pl[1].v = 7;
   g_pl[2].v = 9;
   g_pl[3].v = -3;
   note_state(mix(g_len, g_pl[1].p));
}
static void query_case(Rng &r, uint64_t cno)
{
   setup(r);
   const Far f(0), l(g_len);
   const long at = g_pl[1].p;
   switch (cno % 9)
   {
   case 0:
      op("find");
      pos("result", ttl::find(f, l, 7).p, at);
      pos("no-result", ttl::find(f, l, 8).p, g_len);
      break;
   case 1:
      op("find_if");
      pos("result", ttl::find_if(f, l, IsOdd()).p, at);
      pos("result-not", ttl::find_if_not(f, l, NotOdd()).p, at);
      break;
   case 2:
      op("all_of, any_of, none_of");
      pos("all_of", ttl::all_of(f, l, NotOdd()), 0);
      pos("any_of", ttl::any_of(f, l, IsOdd()), 1);
      pos("none_of", ttl::none_of(f, l, IsOdd()), 0);
      break;
   case 3:
   {
      op("search_n");
      // so many zeros
      pos("result", ttl::search_n(f, l, at, 0).p, 0);
      pos("no-result", ttl::search_n(f, l, at + 1, 0).p, g_len);
      break;
   }
   case 4:
   {
      op("search_n(pred)");
      pos("result", ttl::search_n(f, l, (unsigned long)at, 0, Same()).p, 0);
      break;
   }
   case 5:
   {
      op("for_each");
      Counter c = {0, 0};
      c = ttl::for_each(f, l, c);
      pos("calls", c.n, g_len);
      pos("sum", c.seen, 13);
      break;
   }
   case 6:
   {
      op("equal");
      // the other range is a constant
      pos("same", ttl::equal(f, l, f, l), 1);
      pos("shorter", ttl::equal(f, l, f, Far(g_len - 1)), 0);
      break;
   }
   case 7:
   {
      op("mismatch");
      ttl::pair<Far, Far> e = ttl::mismatch(f, l, f);
      pos("first", e.first.p, g_len);
      pos("second", e.second.p, g_len);
      break;
   }
   default:
   {
      op("search");
      static const int pat[] = {7};
      const int *pf = pat, *pl = pat + 1;
      pos("search", ttl::search(f, l, pf, pl).p, at);
      break;
   }
   }
}
static void modify_case(Rng &r, uint64_t cno)
{
   setup(r);
   const Far f(0), l(g_len);
   Sink::clear();
   const Sink o(0);
   long end = -1, want = g_len, sum = 13, last = g_pl[3].p, nonzero = 3;
   switch (cno % 11)
   {
   case 0: op("copy"); end = ttl::copy(f, l, o).p; break;
   case 1: op("copy_n"); end = ttl::copy_n(f, g_len, o).p; break;
   case 2: op("copy_n", " unsigned"); end = ttl::copy_n(f, (unsigned long)g_len, o).p; break;
   case 3:
      op("fill_n");
      end = ttl::fill_n(o, g_len, 1).p;
      sum = nonzero = g_len;
      last = g_len - 1;
      break;
   case 4:
   {
      op("generate_n");
      Gen1 g = {0, g_len - 3};
      end = ttl::generate_n(o, g_len, g).p;
      sum = 5, nonzero = 1, last = g_len - 3;
      break;
   }
   case 5: op("transform"); end = ttl::transform(f, l, o, Next()).p; sum = 16; break;
   case 6: op("transform(binary)"); end = ttl::transform(f, l, f, o, Add()).p; sum = 26; break;
   case 7: op("remove_copy"); end = ttl::remove_copy(f, l, o, 9).p; want = g_len - 1, sum = 4, nonzero = 2, last = g_pl[3].p - 1; break;
   case 8: op("replace_copy"); end = ttl::replace_copy(f, l, o, 9, 1).p; sum = 5; break;
   case 9: op("copy_if"); end = ttl::copy_if(f, l, o, NotOdd()).p; want = g_len - 3, sum = nonzero = last = 0; break;
   default:
      op("reverse_copy");
      end = ttl::reverse_copy(f, l, o).p;
      last = g_len - 1 - g_pl[1].p;
      break;
   }
   pos("result", end, want);
   pos("written", Sink::written, want);
   pos("sum", Sink::sum, sum);
   pos("nonzero", Sink::nonzero, nonzero);
   pos("last", Sink::last, last);
}
static void sorted_case(Rng &r, uint64_t cno)
{
   setup(r);
   const Far f(0), l(g_len);
   switch (cno % 4)
   {
   case 0: op("min_element"); pos("result", ttl::min_element(f, l).p, g_pl[3].p); break;
   case 1: op("max_element"); pos("result", ttl::max_element(f, l).p, g_pl[2].p); break;
   case 2:
      g_pl[2].v = 6;
      op("is_sorted_until");
      // 0 ... 0 7 0
      pos("result", ttl::is_sorted_until(f, l).p, g_pl[1].p + 1);
      break;
   default:
      op("merge");
      // sorted: the places are cut off
      Sink::clear();
      const long n = g_pl[1].p + 1;
      pos("result", ttl::merge(f, Far(n), f, Far(100), Sink(0)).p, n + 100);
      pos("written", Sink::written, n + 100);
      pos("last", Sink::last, n + 99);
      break;
   }
}

static void the_case(Rng &r, uint64_t c)
{
   S->large_cases++;
   if (!strcmp(g_profile, "vector"))
      vector_case(r, c);
   else if (!strcmp(g_profile, "fixed_vector"))
      fixed_case(r, c);
   else if (!strcmp(g_profile, "array"))
      array_case(r, c);
   else if (!strcmp(g_profile, "bitset"))
      bits_case(r);
   else if (!strcmp(g_profile, "query"))
      query_case(r, c);
   else if (!strcmp(g_profile, "modify"))
      modify_case(r, c);
   else
      sorted_case(r, c);
}
int main(int argc, char **argv) { return run(argc, argv, "huge", the_case); }
