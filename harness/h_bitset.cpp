// Monitored histories over ttl::bitset of many sizes against a vector of bools.
#include "core_impl.hpp"
#include "seq.hpp"
#include "ttl/ttl.hpp"
#include "ttl/bitset.hpp"
using namespace mon;

typedef std::vector<bool> Bits;

static Bits fit(const Bits &b, size_t n)
{
   Bits r(b);
   r.resize(n, false);
   return r;
}

template<size_t N>
static void observe(const ttl::bitset<N> &cb, const Bits &m, const char *how)
{
   ttl::bitset<N> &b = const_cast<ttl::bitset<N> &>(cb);
   S->observations++;
   S->elem_checks += N;
   size_t cnt = 0;
   for (size_t i = 0; i < N; ++i)
   {
      bool e = m[i];
      cnt += e;
      if (cb.test(i) != e)
         fail(SEM, "test", "%s: test(%zu) is %d of a bitset<%zu>", how, i, !e, N);
      if (cb[i] != e)
         fail(SEM, "const[]", "%s: bit %zu is %d of a bitset<%zu>", how, i, !e, N);
      if ((bool)b[i] != e || ~b[i] == e)
         fail(SEM, "[]", "%s: reference to bit %zu of a bitset<%zu> gives %d", how, i, N, !e);
   }
   for (size_t i = N; i < N + 70; i += 1 + (i % 7))
      if (cb.test(i) || cb[i])
         fail(SEM, "test-beyond", "%s: bit %zu of a bitset<%zu> is reported set", how, i, N);
   if (cb.count() != cnt)
      fail(SEM, "count", "%s: count() is %zu, expected %zu of %zu", how, (size_t)cb.count(), cnt, N);
   if (N && cb.all() != (cnt == N))
      fail(SEM, "all", "%s: all() is %d with %zu of %zu set", how, (int)cb.all(), cnt, N);
   if (cb.any() != (cnt != 0))
      fail(SEM, "any", "%s: any() is %d with %zu of %zu set", how, (int)cb.any(), cnt, N);
   if (cb.none() != (cnt == 0))
      fail(SEM, "none", "%s: none() is %d with %zu of %zu set", how, (int)cb.none(), cnt, N);
   if (cb.size() != N || cb.capacity() < N)
      fail(SEM, "size", "%s: size() %zu capacity() %zu of a bitset<%zu>", how, (size_t)cb.size(), (size_t)cb.capacity(), N);
   unsigned long long low = 0;
   for (size_t i = 0; i < N && i < 64; ++i)
      low |= (unsigned long long)m[i] << i;
   if (cb.to_ulong() != (unsigned long)low)
      fail(SEM, "to_ulong", "%s: to_ulong() is %lx, expected %llx of a bitset<%zu>", how, (unsigned long)cb.to_ulong(), low, N);
   if (cb.to_ullong() != low)
      fail(SEM, "to_ullong", "%s: to_ullong() is %llx, expected %llx of a bitset<%zu>", how, (unsigned long long)cb.to_ullong(), low, N);
}

template<size_t N>
struct Case
{
   typedef ttl::bitset<N> C;
   enum { NS = 3 };
   struct SL: Slot<C, Bits> {};
   Rng &r;
   SL s[NS];
   explicit Case(Rng &rr): r(rr) {}

   void observe_all()
   {
      uint64_t h = mix(hstr(S->op), N);
      for (int i = 0; i < NS; ++i)
         if (s[i].c)
         {
            observe(*s[i].c, s[i].m, "state");
            s[i].raw.check();
            for (size_t q = 0; q < N; ++q)
               h = mix(h, (size_t)s[i].m[q] + q * 2 + i * 100000);
         }
      for (int i = 0; i < NS; ++i)
         for (int j = 0; j < NS; ++j)
            if (s[i].c && s[j].c)
            {
               bool eq = s[i].m == s[j].m;
               const C &a = *s[i].c, &b = *s[j].c;
               if ((a == b) != eq || (a != b) == eq)
                  fail(SEM, "equality", "== gives %d, != gives %d for %s bitset<%zu>", (int)(a == b), (int)(a != b), eq ? "equal" : "different", N);
            }
      note_state(h);
   }
   // a value of another size, its unused bits as dirty as they can be made
   template<size_t M> void other(ttl::bitset<M> &o, Bits &m)
   {
      m.assign(M, false);
      int how = (int)r.below(4);
      if (how == 0)
      {
         o.set();
         m.assign(M, true);
      }
      else if (how == 1)
      {
         o.flip();
         m.assign(M, true);
      }
      for (size_t i = 0; i < M; ++i)
         if (how != 2 ? r.below(8) == 0 : r.below(2))
         {
            o.flip(i);
            m[i] = !m[i];
         }
      if (how == 3)
      {
         ttl::bitset<M> t = ~o;
         o = t;
         m.flip();
      }
   }
   template<size_t M> void from(int i, bool assign)
   {
      SL &x = s[i];
      ttl::bitset<M> o;
      Bits om;
      other(o, om);
      Bits e = fit(om, N);
      if (assign)
      {
         op("operator=(bitset<M>)", " s%d<%zu> = <%zu>", i, N, M);
         C &c = *x.c;
         C *ret = 0;
         const ttl::bitset<M> &co = o;
         lib([&]{ ret = &(c = co); return 0; });
         if (ret != &c)
            fail(SEM, "returned-reference");
      }
      else
      {
         x.destroy();
         void *p = x.mem();
         op("bitset(bitset<M>)", " s%d<%zu>(<%zu>)", i, N, M);
         const ttl::bitset<M> &co = o;
         lib([&]{ x.c = new(p) C(co); return 0; });
      }
      x.m = e;
      observe(o, om, "source of a conversion");
      // and back
      ttl::bitset<M> back;
      const C &cc = *x.c;
      back = cc;
      Bits bm = fit(e, M);
      observe(back, bm, "converted back");
      // comparisons of the converted value with one built bit by bit
      C built;
      for (size_t q = 0; q < N; ++q)
         if (e[q])
            built.set(q);
      if (!(built == cc) || built != cc)
         fail(SEM, "equality", "a converted bitset<%zu> (from <%zu>) differs from the same bits set one by one", N, M);
   }
   void convert(int i, bool assign)
   {
      switch (r.below(13))
      {
      case 0: from<0>(i, assign); break;
      case 1: from<1>(i, assign); break;
      case 2: from<8>(i, assign); break;
      case 3: from<13>(i, assign); break;
      case 4: from<32>(i, assign); break;
      case 5: from<63>(i, assign); break;
      case 6: if (N != 64) from<64>(i, assign); break;
      case 7: from<65>(i, assign); break;
      case 8: from<100>(i, assign); break;
      case 9: if (N != 128) from<128>(i, assign); break;
      case 10: from<130>(i, assign); break;
      case 11: from<192>(i, assign); break;
      default: from<260>(i, assign); break;
      }
   }
   void text(int i)
   {
      SL &x = s[i];
      x.destroy();
      void *p = x.mem();
      static const char pairs[][2] = {{'0', '1'}, {'a', 'b'}, {'.', 'X'}, {'1', '0'}};
      const char *pr = pairs[r.below(2) ? 0 : r.below(4)];
      bool dflt = pr[0] == '0' && pr[1] == '1';
      unsigned lens[] = {0, 1, (unsigned)N, (unsigned)N + 1, (unsigned)N / 2, (unsigned)N + r.below(80), r.below(30), r.below(150)};
      unsigned len = lens[r.below(8)];
      unsigned stop = r.below(3) ? len : r.below(len + 1);   // something else at [stop]
      bool terminated = r.below(2);
      size_t n = terminated ? (r.below(3) == 0 ? (size_t)-1 : r.below(2) ? len : r.below(len + 1)) : r.below(len + 1);
      if (terminated && r.below(4) == 0)
         n = len + 1 + r.below(5);
      size_t bytes = terminated ? len + 1 : (n ? n : 1);
      char *t = (char *)malloc(bytes);
      for (size_t q = 0; q < bytes; ++q)
         t[q] = q >= len ? 0 : q == stop ? "_ 2\n"[r.below(4)] : pr[r.below(2)];
      size_t used = 0;
      while (used < n && used < bytes && used < N && (t[used] == pr[0] || t[used] == pr[1]))
         ++used;
      x.m.assign(N, false);
      for (size_t q = 0; q < used; ++q)
         x.m[used - 1 - q] = t[q] == pr[1];
      op("bitset(const char*)", " s%d<%zu> len=%u stop=%u n=%zu %c/%c", i, N, len, stop, n, pr[0], pr[1]);
      const char *ct = t;
      lib([&]
      {
         if (dflt && n == (size_t)-1)
            x.c = new(p) C(ct);
         else if (dflt)
            x.c = new(p) C(ct, n);
         else
            x.c = new(p) C(ct, n, pr[0], pr[1]);
         return 0;
      });
      free(t);
   }
   void construct(int i)
   {
      SL &x = s[i];
      switch (r.below(7))
      {
      case 0:
      {
         x.destroy();
         void *p = x.mem();
         op("bitset()", " s%d<%zu>", i, N);
         lib([&]{ x.c = new(p) C(); return 0; });
         x.m.assign(N, false);
         break;
      }
      case 1:
      {
         int j = (i + 1) % NS;
         if (!s[j].c)
            construct(j);
         x.destroy();
         void *p = x.mem();
         op("bitset(const bitset&)", " s%d<%zu> from s%d", i, N, j);
         const C &o = *s[j].c;
         lib([&]{ x.c = new(p) C(o); return 0; });
         x.m = s[j].m;
         break;
      }
      case 2: case 3:
      {
         x.destroy();
         void *p = x.mem();
         uint64_t v = r.next();
         switch (r.below(5))
         {
         case 0: v = ~0ull; break;
         case 1: v &= 0xffff; break;
         case 2: v = 1ull << r.below(64); break;
         case 3: v = 0; break;
         }
         bool ll = r.below(2);
         op(ll ? "bitset(unsigned long long)" : "bitset(unsigned long)", " s%d<%zu> %llx", i, N, (unsigned long long)v);
         if (ll)
            lib([&]{ x.c = new(p) C((unsigned long long)v); return 0; });
         else
            lib([&]{ x.c = new(p) C((unsigned long)v); return 0; });
         x.m.assign(N, false);
         for (size_t q = 0; q < N && q < 64; ++q)
            x.m[q] = (v >> q) & 1;
         break;
      }
      case 4: case 5:
         text(i);
         break;
      default:
         convert(i, false);
         if (!x.c)
            construct(i);
      }
      observe_all();
   }
   static Bits shl(const Bits &m, size_t k)
   {
      Bits o(N, false);
      for (size_t q = 0; q < N; ++q)
         if (k <= q)
            o[q] = m[q - k];
      return o;
   }
   static Bits shr(const Bits &m, size_t k)
   {
      Bits o(N, false);
      for (size_t q = 0; q < N; ++q)
         if (k < N - q)
            o[q] = m[q + k];
      return o;
   }
   void step()
   {
      int i = (int)r.below(NS), j = (int)r.below(NS);
      if (!s[i].c || r.below(20) == 0)
         construct(i);
      if (!s[j].c)
         construct(j);
      C &c = *s[i].c;
      const C &cc = c;
      Bits &m = s[i].m;
      const C &d = *s[j].c;
      const Bits &dm = s[j].m;
      if (i == j)
         S->alias_ops++;
      C *ret = &c;
      unsigned o = r.below(30);
      if (is("alias") && r.below(2))
         o = 22 + r.below(5);
      switch (o)
      {
      case 0: case 1: case 2: case 3: case 4: case 5: case 6: case 7: case 8: case 9: case 10: case 11:
      if (N)
      {
         size_t p = r.below(4) ? r.below(N) : (r.below(2) ? N - 1 : (r.below(N / 64 + 1) * 64) % N);
         size_t p2 = r.below(N);
         bool v = r.below(2);
         switch (o)
         {
         case 0:
            op("set(pos)", " s%d<%zu> %zu", i, N, p);
            lib([&]{ ret = &c.set(p); return 0; });
            m[p] = true;
            break;
         case 1: case 2:
            op("set(pos,value)", " s%d<%zu> %zu %d", i, N, p, v);
            lib([&]{ ret = &c.set(p, v); return 0; });
            m[p] = v;
            break;
         case 3:
            op("reset(pos)", " s%d<%zu> %zu", i, N, p);
            lib([&]{ ret = &c.reset(p); return 0; });
            m[p] = false;
            break;
         case 4: case 5:
            op("flip(pos)", " s%d<%zu> %zu", i, N, p);
            lib([&]{ ret = &c.flip(p); return 0; });
            m[p] = !m[p];
            break;
         case 6:
            op("[]=bool", " s%d<%zu> %zu %d", i, N, p, v);
            lib([&]{ c[p] = v; return 0; });
            m[p] = v;
            break;
         case 7:
            op("[].flip", " s%d<%zu> %zu", i, N, p);
            lib([&]{ c[p].flip(); return 0; });
            m[p] = !m[p];
            break;
         case 8: case 9:
            op("[]=[]", " s%d<%zu> %zu = %zu", i, N, p, p2);
            lib([&]{ c[p] = c[p2]; return 0; });
            m[p] = m[p2];
            break;
         case 10:
         {
            C &dd = *s[j].c;
            op("[]=other[]", " s%d<%zu> %zu = s%d %zu", i, N, p, j, p2);
            lib([&]{ c[p] = dd[p2]; return 0; });
            m[p] = dm[p2];
            break;
         }
         default:
            op("[]=[].flip", " s%d<%zu> %zu %zu", i, N, p, p2);
            lib([&]{ c[p] = c[p2].flip(); return 0; });
            m[p2] = !m[p2];
            m[p] = (bool)m[p2];
         }
      }
      break;
      case 12:
         op("set()", " s%d<%zu>", i, N);
         lib([&]{ ret = &c.set(); return 0; });
         m.assign(N, true);
         break;
      case 13:
         op("reset()", " s%d<%zu>", i, N);
         lib([&]{ ret = &c.reset(); return 0; });
         m.assign(N, false);
         break;
      case 14: case 15:
         op("flip()", " s%d<%zu>", i, N);
         lib([&]{ ret = &c.flip(); return 0; });
         m.flip();
         break;
      case 16: case 17: case 18: case 19: case 20: case 21:
      {
         size_t ks[] = {0, 1, 63, 64, 65, N ? N - 1 : 0, N, N + 1, N + 64, (size_t)-1, r.below((unsigned)N + 3), r.below((unsigned)N + 3)};
         size_t k = ks[r.below(12)];
         if (o == 16)
         {
            op("<<=", " s%d<%zu> %zu", i, N, k);
            lib([&]{ ret = &(c <<= k); return 0; });
            m = shl(m, k);
         }
         else if (o == 17)
         {
            op(">>=", " s%d<%zu> %zu", i, N, k);
            lib([&]{ ret = &(c >>= k); return 0; });
            m = shr(m, k);
         }
         else if (o < 20)
         {
            op("<<", " s%d<%zu> %zu", i, N, k);
            C t = lib([&]{ return cc << k; });
            observe(t, shl(m, k), "<<");
         }
         else
         {
            op(">>", " s%d<%zu> %zu", i, N, k);
            C t = lib([&]{ return cc >> k; });
            observe(t, shr(m, k), ">>");
         }
         break;
      }
      case 22: case 23:
      {
         unsigned w = r.below(3);
         static const char *nm[] = {"&=", "|=", "^="};
         op(nm[w], " s%d s%d <%zu>", i, j, N);
         lib([&]{ ret = w == 0 ? &(c &= d) : w == 1 ? &(c |= d) : &(c ^= d); return 0; });
         for (size_t q = 0; q < N; ++q)
         {
            bool a = m[q], b = dm[q];
            m[q] = w == 0 ? a && b : w == 1 ? a || b : a != b;
         }
         break;
      }
      case 24: case 25:
      {
         unsigned w = r.below(4);
         static const char *nm[] = {"&", "|", "^", "~"};
         op(nm[w], " s%d s%d <%zu>", i, j, N);
         C t = lib([&]{ return w == 0 ? cc & d : w == 1 ? cc | d : w == 2 ? cc ^ d : ~cc; });
         Bits e(N, false);
         for (size_t q = 0; q < N; ++q)
         {
            bool a = m[q], b = dm[q];
            e[q] = w == 0 ? a && b : w == 1 ? a || b : w == 2 ? a != b : !a;
         }
         observe(t, e, nm[w]);
         break;
      }
      case 26:
         op("operator=", " s%d = s%d <%zu>", i, j, N);
         lib([&]{ ret = &(c = d); return 0; });
         m = Bits(dm);
         break;
      case 27: case 28:
         convert(i, true);
         break;
      default:
      {
         // a bit that is not there reads as 0 and ignores writes
         size_t p = N + r.below(200);
         op("[] beyond", " s%d<%zu> %zu", i, N, p);
         lib([&]
         {
            c[p] = true;
            c[p].flip();
            return 0;
         });
         if ((bool)c[p])
            fail(SEM, "beyond", "bit %zu of a bitset<%zu> reads as set", p, N);
      }
      }
      if (ret != &c)
         fail(SEM, "returned-reference", "an operator that modifies its operand does not return it");
      observe_all();
   }
   void run(unsigned ops)
   {
      for (unsigned q = 0; q < ops; ++q)
         step();
      for (int i = 0; i < NS; ++i)
         s[i].destroy();
   }
};

// All values, all pairs, all shift counts of a small bitset
template<size_t N> static void exhaustive()
{
   typedef ttl::bitset<N> C;
   op("exhaustive", " N=%zu", N);
   for (unsigned a = 0; a < (1u << N); ++a)
   {
      Bits am(N);
      for (size_t q = 0; q < N; ++q)
         am[q] = (a >> q) & 1;
      C x((unsigned long)a);
      observe(x, am, "value");
      for (size_t k = 0; k <= N + 2; ++k)
      {
         observe(x << k, Case<N>::shl(am, k), "<<");
         observe(x >> k, Case<N>::shr(am, k), ">>");
      }
      for (unsigned b = 0; b < (1u << N); ++b)
      {
         Bits e(N);
         C y((unsigned long)b);
         if ((x == y) != (a == b) || (x != y) == (a == b))
            fail(SEM, "equality", "of %x and %x", a, b);
         for (int w = 0; w < 3; ++w)
         {
            unsigned v = w == 0 ? a & b : w == 1 ? a | b : a ^ b;
            for (size_t q = 0; q < N; ++q)
               e[q] = (v >> q) & 1;
            observe(w == 0 ? x & y : w == 1 ? x | y : x ^ y, e, "binary operator");
         }
      }
   }
   note_state(mix(999, N));
}

static void mixed(Rng &r)
{
   op("==(bitset<0>)");
   ttl::bitset<0> z;
   ttl::bitset<70> n;
   if (!(z == n) || !(n == z) || z != n || n != z)
      fail(SEM, "equality", "bitset<0> and an empty bitset<70> differ");
   n.set(r.below(70));
   if (z == n || n == z || !(z != n) || !(n != z))
      fail(SEM, "equality", "bitset<0> equals a bitset<70> that is not empty");
   ttl::bitset<0> z2;
   if (!(z == z2) || z != z2)
      fail(SEM, "equality", "bitset<0> differs from another");
}

// The sizes are divided among parts, which are compiled separately (MON_PART).
#ifndef MON_PART
#define MON_PART 0
#endif
static void the_case(Rng &r, uint64_t c)
{
   unsigned ops = r.range(10, 50);
#if MON_PART == 0
   switch (c % 11)
   {
   case 0: Case<0>(r).run(ops); mixed(r); break;
   case 1: Case<1>(r).run(ops); break;
   case 2: Case<8>(r).run(ops); break;
   case 3: Case<31>(r).run(ops); break;
   case 4: case 5: Case<64>(r).run(ops); break;
   case 6: Case<66>(r).run(ops); break;
   case 7: Case<128>(r).run(ops); break;
   case 8: Case<193>(r).run(ops); break;
   case 9: exhaustive<1>(); exhaustive<2>(); exhaustive<3>(); break;
   default: Case<62>(r).run(ops); break;
   }
#elif MON_PART == 1
   switch (c % 11)
   {
   case 0: Case<2>(r).run(ops); break;
   case 1: Case<9>(r).run(ops); break;
   case 2: Case<32>(r).run(ops); break;
   case 3: case 4: Case<65>(r).run(ops); break;
   case 5: Case<100>(r).run(ops); break;
   case 6: Case<129>(r).run(ops); break;
   case 7: Case<256>(r).run(ops); break;
   case 8: if (c % 4 == 0) exhaustive<5>(); else exhaustive<4>(); break;
   case 9: Case<191>(r).run(ops); break;
   default: Case<5>(r).run(ops); break;
   }
#else
   switch (c % 10)
   {
   case 0: Case<7>(r).run(ops); break;
   case 1: Case<16>(r).run(ops); break;
   case 2: Case<33>(r).run(ops); break;
   case 3: case 4: Case<63>(r).run(ops); break;
   case 5: Case<127>(r).run(ops); break;
   case 6: Case<192>(r).run(ops); break;
   case 7: Case<257>(r).run(ops); break;
   case 8: Case<1000>(r).run(r.range(3, 10)); break;
   default: Case<3>(r).run(ops); break;
   }
#endif
}
int main(int argc, char **argv) { return run(argc, argv, "bitset", the_case); }
