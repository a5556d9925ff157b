// Runtime-monitoring core shared by every harness in /verif/harness.
//
// One process image = one harness, run over a range of "cases".  A case is a
// pseudo-random history of operations (derived from --seed and the case number)
// applied to the real ttl code while monitors observe:
//   sem    functional model (observed contents / results against an independent model)
//   life   element lifetimes (registry of live tracked elements)
//   mem    memory safety (ASan/UBSan reports, guard bytes, heap-block ownership)
//   alloc  allocation discipline (library allocations attributed to operations)
//   stab   reference / iterator stability and relinking without copying
//   disc   iterator, predicate and output discipline of the algorithms
// A worker process runs the cases, its parent records what it reports (or how it
// died), and resumes with the next case.  Shared memory holds the trace.
#ifndef MON_CORE_HPP
#define MON_CORE_HPP

#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <limits.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <new>
#include <vector>
#include <algorithm>
#include <utility>

#if defined(__SANITIZE_ADDRESS__)
#define MON_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define MON_ASAN 1
#endif
#endif
#ifndef MON_ASAN
#define MON_ASAN 0
#endif
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define MON_FRESH(p, n) __msan_poison(p, n)
#endif
#endif
#ifndef MON_FRESH
#define MON_FRESH(p, n) ((void)0)
#endif

namespace mon
{
   enum Kind { SEM = 1, LIFE = 2, MEM = 4, ALLOC = 8, STAB = 16, DISC = 32, FINDING = 64, ALL = 0xffff };

   static const size_t TRACE = 12000;
   static const int MAXV = 24;
   static const int MAXOPS = 1000;
   static const size_t STATES = 1u << 19;

   struct Viol
   {
      char kind[12];
      char key[240];
      char msg[900];
      uint64_t case_no, op_no;
      uint32_t trace_len;
      char trace[TRACE];
   };
   struct OpCount { char name[96]; uint64_t n; };

   struct Shared
   {
      uint64_t cur_case;
      uint64_t op_no;        // operations within this case
      char op[96];
      uint32_t trace_len;
      char trace[TRACE];
      uint64_t cases_done, ops, observations, elem_checks, live_checks, alloc_events, free_events,
               elem_ctor, elem_dtor, elem_assign, elem_compare, blocks_audited, iter_steps, disc_events,
               stab_checks, alias_ops, large_cases, pred_calls, max_size, reentries, reentered_ops, max_stack;
      uint64_t nstates;
      uint32_t nops, nv, nfind;
      Viol v[MAXV];
      Viol find[8];
      OpCount opc[MAXOPS];
      char samples[4][1500];
      uint32_t nsamples;
      uint64_t states[STATES];
   };

   extern Shared *S;
   extern const char *g_group;
   extern const char *g_profile;
   extern int g_kinds;
   extern bool g_verbose;
   extern int g_scale; // 1 quick, larger = thorough

   struct Rng
   {
      uint64_t s;
      explicit Rng(uint64_t seed): s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
      uint64_t next()
      {
         uint64_t z = (s += 0x9E3779B97F4A7C15ull);
         z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
         z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
         return z ^ (z >> 31);
      }
      unsigned below(unsigned n) { return n ? (unsigned)((next() >> 11) % n) : 0; }
      int range(int a, int b) { return a + (int)below((unsigned)(b - a + 1)); }
      bool chance(unsigned num, unsigned den) { return below(den) < num; }
   };

   inline uint64_t mix(uint64_t h, uint64_t v)
   {
      h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
      h *= 0xff51afd7ed558ccdull;
      return h ^ (h >> 29);
   }
   inline uint64_t hstr(const char *s)
   {
      uint64_t h = 1469598103934665603ull;
      while (*s)
         h = (h ^ (unsigned char)*s++) * 1099511628211ull;
      return h;
   }
   inline void note_state(uint64_t h)
   {
      if (!h)
         h = 1;
      h = mix(h, hstr(g_group));
      if (S->nstates > STATES * 3 / 4)
         return;
      size_t i = h & (STATES - 1);
      while (S->states[i])
      {
         if (S->states[i] == h)
            return;
         i = (i + 1) & (STATES - 1);
      }
      S->states[i] = h;
      S->nstates++;
   }

   inline void trace(const char *fmt, ...)
   {
      char buf[400];
      va_list ap;
      va_start(ap, fmt);
      int n = vsnprintf(buf, sizeof buf, fmt, ap);
      va_end(ap);
      if (n < 0)
         return;
      if (n >= (int)sizeof buf)
         n = sizeof buf - 1;
      if (S->trace_len + n + 1 >= TRACE)
      {
         // keep the newest half
         size_t keep = TRACE / 2;
         memmove(S->trace, S->trace + S->trace_len - keep, keep);
         memcpy(S->trace, "[...] ", 6);
         S->trace_len = keep;
      }
      memcpy(S->trace + S->trace_len, buf, n + 1);
      S->trace_len += n;
      if (g_verbose)
         fputs(buf, stderr);
   }

   // Marks the start of an operation on the library: name identifies the call for
   // violation keys, the rest is for the trace.
   inline void op(const char *name, const char *fmt = "", ...)
   {
      char buf[300];
      va_list ap;
      va_start(ap, fmt);
      vsnprintf(buf, sizeof buf, fmt, ap);
      va_end(ap);
      strncpy(S->op, name, sizeof S->op - 1);
      S->op_no++;
      S->ops++;
      uint64_t h = hstr(name);
      unsigned i = h % MAXOPS;
      for (int t = 0; t < MAXOPS; ++t, i = (i + 1) % MAXOPS)
      {
         if (!S->opc[i].n)
         {
            strncpy(S->opc[i].name, name, sizeof S->opc[i].name - 1);
            S->nops++;
            S->opc[i].n = 1;
            break;
         }
         if (!strncmp(S->opc[i].name, name, sizeof S->opc[i].name - 1))
         {
            S->opc[i].n++;
            break;
         }
      }
      trace("%s%s; ", name, buf);
   }

   inline const char *kind_name(int k)
   {
      k &= g_kinds;
      return k & SEM ? "sem" : k & MEM ? "mem" : k & LIFE ? "life" : k & ALLOC ? "alloc" :
         k & STAB ? "stab" : k & DISC ? "disc" : "finding";
   }

   inline void fill_viol(Viol &v, const char *kind, const char *what, const char *msg)
   {
      strncpy(v.kind, kind, sizeof v.kind - 1);
      snprintf(v.key, sizeof v.key, "%s:%s:%s", g_group, S->op, what);
      strncpy(v.msg, msg, sizeof v.msg - 1);
      v.case_no = S->cur_case;
      v.op_no = S->op_no;
      v.trace_len = S->trace_len;
      memcpy(v.trace, S->trace, S->trace_len + 1);
   }

   enum { EXIT_VIOL = 77, EXIT_HANG = 78, EXIT_MON = 79 };

   // Reports a violation and ends the worker, or does nothing when this check is
   // not about that kind (the caller must then be able to carry on).
   inline void fail(int kind, const char *what, const char *fmt = "", ...)
   {
      if (!(g_kinds & kind))
         return;
      char buf[900];
      va_list ap;
      va_start(ap, fmt);
      vsnprintf(buf, sizeof buf, fmt, ap);
      va_end(ap);
      if (S->nv < (uint32_t)MAXV)
         fill_viol(S->v[S->nv++], kind_name(kind), what, buf);
      if (g_verbose)
         fprintf(stderr, "\n*** %s %s:%s:%s %s\n", kind_name(kind), g_group, S->op, what, buf);
      _exit(EXIT_VIOL);
   }
   // A deviation that the harness recognised exactly; whether it is a listed
   // finding or a violation is decided by the driver.
   inline void finding(const char *what, const char *fmt, ...)
   {
      if (!(g_kinds & SEM))
         return;
      char buf[900];
      va_list ap;
      va_start(ap, fmt);
      vsnprintf(buf, sizeof buf, fmt, ap);
      va_end(ap);
      char key[240];
      snprintf(key, sizeof key, "%s:%s:%s", g_group, S->op, what);
      for (uint32_t i = 0; i < S->nfind; ++i)
         if (!strcmp(S->find[i].key, key))
            return;
      if (S->nfind < 8)
         fill_viol(S->find[S->nfind++], "finding", what, buf);
   }
   [[noreturn]] inline void monitor_error(const char *msg)
   {
      fprintf(stderr, "MONITOR-ERROR %s\n", msg);
      _exit(EXIT_MON);
   }

   //
   // Heap monitor: replaces the global operator new/delete
   //
   struct Block { void *p; size_t size; unsigned flags; uint32_t serial; };
   enum { BF_ARRAY = 1, BF_LIB = 2 };

   struct Heap
   {
      Block *t;
      size_t cap, n;
      long lib_blocks;          // live blocks allocated by library calls
      uint64_t lib_allocs;      // allocation calls made inside library calls
      uint64_t lib_frees;
      size_t lib_bytes;
      int in_lib;
   };
   extern Heap H;
   extern unsigned g_fill;

   struct InLib
   {
      InLib() { ++H.in_lib; }
      ~InLib() { --H.in_lib; }
   };
#ifdef MON_REENTER
   // In the middle of a library call that has called back: now and then a complete
   // history of other objects of the same kinds happens here.
   extern unsigned g_reenter_at; // callbacks until then, 0: never
   void reenter();
   inline void callback()
   {
      if (H.in_lib > 0 && g_reenter_at && !--g_reenter_at)
         reenter();
   }
   struct NoReenter // for a harness's own state that there is only once
   {
      unsigned saved;
      NoReenter(): saved(g_reenter_at) { g_reenter_at = 0; }
      ~NoReenter() { g_reenter_at = saved; }
   };
#else
   inline void callback() {}
   struct NoReenter { NoReenter() {} ~NoReenter() {} };
#endif
   struct OutLib // harness callbacks invoked from inside a library call
   {
      int saved;
      OutLib(): saved((callback(), H.in_lib)) { H.in_lib = 0; }
      ~OutLib() { H.in_lib = saved; }
   };
   // Runs f as library code: allocations are attributed to the library.
   template<class F> inline auto lib(F f) -> decltype(f())
   {
      InLib g;
      return f();
   }

   void heap_begin_case();
   void heap_end_case();

   //
   // Registry of live tracked elements
   //
   struct Registry
   {
      const void **t;
      size_t cap, n;
      size_t base; // those of interrupted histories
   };
   extern Registry R;
   bool reg_has(const void *p);
   bool reg_add(const void *p);   // false: already there
   bool reg_del(const void *p);   // false: not there
   // first registered address in [p, p+n) for objects of alignment 8, or null
   const void *reg_in(const void *p, size_t n);

   struct V { int key; unsigned tag; };

   struct Tr
   {
      int k;
      unsigned tg;
      const Tr *self;

      Tr(): k(0), tg(0) { callback(); born(); }
      Tr(int key, unsigned tag): k(key), tg(tag) { born(); }
      Tr(const Tr &o) { callback(); o.use("copy from"); k = o.k; tg = o.tg; born(); S->elem_ctor++; g_copies++; }
      Tr &operator=(const Tr &o)
      {
         callback();
         o.use("assign from");
         use("assign to");
         S->elem_assign++;
         g_assigns++;
         k = o.k;
         tg = o.tg;
         return *this;
      }
      ~Tr()
      {
         if (!reg_del(this))
            fail(LIFE, "destroy-of-dead", "destructor of an element that is not alive at %p", (const void *)this);
         else if (self != this)
            fail(LIFE, "destroy-of-bitwise-copy", "element at %p was not constructed there", (const void *)this);
         self = 0;
         k = (int)0xDEADBEEF;
         tg = 0xDEADBEEF;
         S->elem_dtor++;
         callback();
      }
      void born()
      {
         if (((uintptr_t)this) % alignof(Tr))
            fail(MEM, "misaligned-construct", "element constructed at misaligned address %p", (const void *)this);
         if (!reg_add(this))
            fail(LIFE, "construct-over-live", "element constructed over a live one at %p", (const void *)this);
         self = this;
      }
      void use(const char *how) const
      {
         if (!reg_has(this))
            fail(LIFE, "use-of-dead", "%s: no live element at %p", how, (const void *)this);
         else if (self != this)
            fail(LIFE, "use-of-bitwise-copy", "%s: element at %p was not constructed there", how, (const void *)this);
      }
      bool operator==(const Tr &o) const { cmp(o); return k == o.k; }
      bool operator!=(const Tr &o) const { cmp(o); return k != o.k; }
      bool operator<(const Tr &o) const { cmp(o); return k < o.k; }
      bool operator>(const Tr &o) const { cmp(o); return k > o.k; }
      bool operator<=(const Tr &o) const { cmp(o); return k <= o.k; }
      bool operator>=(const Tr &o) const { cmp(o); return k >= o.k; }
      void cmp(const Tr &o) const { callback(); use("compare"); o.use("compare"); S->elem_compare++; }

      static uint64_t g_copies, g_assigns;
   };
   inline bool live_audit() { return true; }

   // An element whose == tells apart what < does not, as a case-insensitive order of
   // strings does: keys are one key when neither is less, whatever == says
   struct Fine: Tr
   {
      Fine() {}
      Fine(int key, unsigned tag): Tr(key, tag) {}
      bool operator==(const Fine &o) const { cmp(o); return k == o.k && tg == o.tg; }
      bool operator!=(const Fine &o) const { cmp(o); return k != o.k || tg != o.tg; }
   };

   // Wide: a 16-byte aligned trivially copyable element
   typedef long double Wide;

   // A larger plain element with padding and no default to zero
   struct Fat
   {
      int k;
      unsigned tg;
      char pad[53];
      Fat(): k(0), tg(0) { memset(pad, 1, sizeof pad); }
      Fat(int key, unsigned t): k(key), tg(t) { memset(pad, (int)(key & 0x7f), sizeof pad); }
      bool ok() const
      {
         for (size_t i = 1; i < sizeof pad; ++i)
            if (pad[i] != pad[0])
               return false;
         return k == 0 || pad[0] == (char)(k & 0x7f);
      }
      bool operator==(const Fat &o) const { return k == o.k; }
      bool operator!=(const Fat &o) const { return k != o.k; }
      bool operator<(const Fat &o) const { return k < o.k; }
      bool operator>(const Fat &o) const { return k > o.k; }
      bool operator<=(const Fat &o) const { return k <= o.k; }
      bool operator>=(const Fat &o) const { return k >= o.k; }
   };

   // An element with a stricter alignment than any block has by itself; for containers
   // that hold their elements inside
   struct alignas(64) Over
   {
      int k;
      unsigned tg;
      Over(): k(0), tg(0) { check(); }
      Over(int key, unsigned t): k(key), tg(t) { check(); }
      Over(const Over &o): k(o.k), tg(o.tg) { check(); }
      Over &operator=(const Over &o) { check(); k = o.k; tg = o.tg; return *this; }
      __attribute__((noinline)) void check() const
      {
         uintptr_t a = (uintptr_t)this;
         __asm__("" : "+r"(a)); // do not assume what is to be seen
         if (a % 64)
            fail(MEM, "misaligned-construct", "element constructed at misaligned address %p", (const void *)this);
      }
      bool operator==(const Over &o) const { return k == o.k; }
      bool operator!=(const Over &o) const { return k != o.k; }
      bool operator<(const Over &o) const { return k < o.k; }
      bool operator>(const Over &o) const { return k > o.k; }
      bool operator<=(const Over &o) const { return k <= o.k; }
      bool operator>=(const Over &o) const { return k >= o.k; }
   };

   template<class T> struct El;
   template<> struct El<Over>
   {
      static const bool tracked = false;
      static const char *name() { return "Over"; }
      static Over make(V v) { return Over(v.key, v.tag); }
      static V norm(V v) { return v; }
      static V dflt() { V v = {0, 0}; return v; }
      static bool same(const Over &t, V v) { return t.k == v.key && t.tg == v.tag; }
      static V read(const Over &t) { V v = {t.k, t.tg}; return v; }
   };
   template<> struct El<Tr>
   {
      static const bool tracked = true;
      static const char *name() { return "Tr"; }
      static Tr make(V v) { return Tr(v.key, v.tag); }
      static V norm(V v) { return v; }
      static V dflt() { V v = {0, 0}; return v; }
      static bool same(const Tr &t, V v)
      {
         t.use("observe");
         return t.k == v.key && t.tg == v.tag;
      }
      static V read(const Tr &t) { V v = {t.k, t.tg}; return v; }
   };
   template<> struct El<Fine>
   {
      static const bool tracked = true;
      static const char *name() { return "Fine"; }
      static Fine make(V v) { return Fine(v.key, v.tag); }
      static V norm(V v) { return v; }
      static V dflt() { V v = {0, 0}; return v; }
      static bool same(const Fine &t, V v)
      {
         t.use("observe");
         return t.k == v.key && t.tg == v.tag;
      }
      static V read(const Fine &t) { V v = {t.k, t.tg}; return v; }
   };
   // whether two values compare equal with == of that element type
   template<class T> inline bool el_eq(V a, V b) { return a.key == b.key; }
   template<> inline bool el_eq<Fine>(V a, V b) { return a.key == b.key && a.tag == b.tag; }
   template<> struct El<Fat>
   {
      static const bool tracked = false;
      static const char *name() { return "Fat"; }
      static Fat make(V v) { return Fat(v.key, v.tag); }
      static V norm(V v) { return v; }
      static V dflt() { V v = {0, 0}; return v; }
      static bool same(const Fat &t, V v) { return t.k == v.key && t.tg == v.tag && t.ok(); }
      static V read(const Fat &t) { V v = {t.k, t.tg}; return v; }
   };
   template<class T> struct ElNum
   {
      static const bool tracked = false;
      static T make(V v) { return (T)v.key; }
      static V norm(V v) { V o = {(int)(T)v.key, 0}; return o; }
      static V dflt() { V v = {0, 0}; return v; }
      static bool same(const T &t, V v) { return t == (T)v.key; }
      static V read(const T &t) { V v = {(int)t, 0}; return v; }
   };
   template<> struct El<int>: ElNum<int> { static const char *name() { return "int"; } };
   template<> struct El<unsigned char>: ElNum<unsigned char> { static const char *name() { return "uchar"; } };
   template<> struct El<short>: ElNum<short> { static const char *name() { return "short"; } };
   template<> struct El<long double>: ElNum<long double> { static const char *name() { return "longdouble"; } };

   // Model entry
   struct E
   {
      V v;
      V w;                // mapped value (maps only)
      const void *addr;   // where the element was last seen (null: not seen / may have moved)
      uint64_t uid;
      E(): addr(0), uid(0) { w.key = 0; w.tag = 0; }
      explicit E(V x): v(x), addr(0), uid(next_uid()) { w.key = 0; w.tag = 0; }
      E(V x, V y): v(x), w(y), addr(0), uid(next_uid()) {}
      static uint64_t next_uid() { static uint64_t u = 0; return ++u; }
   };
   typedef std::vector<E> Seq;

   // Key source of one case
   struct Keys
   {
      int mode, span, seqno;
      unsigned tag;
      Rng &r;
      explicit Keys(Rng &rng): seqno(0), tag(0), r(rng)
      {
         mode = (int)r.below(8);
         span = r.range(1, 12);
      }
      int key()
      {
         static const int ext[] = {INT_MIN, INT_MIN + 1, -2, -1, 0, 1, 2, INT_MAX - 1, INT_MAX};
         switch (mode)
         {
         case 0: case 1: case 2: return (int)r.below(span);
         case 3: return ext[r.below(9)];
         case 4: return r.range(-span, span);
         case 5: return seqno++;
         case 6: return (int)r.next();
         default: return r.range(0, 300);
         }
      }
      V v() { V x = {key(), ++tag}; return x; }
   };

   //
   // Guarded raw storage for one library object
   //
   struct Raw
   {
      enum { G = 64 };
      char *base;
      size_t size, off;
      Raw(): base(0), size(0), off(0) {}
      // an object of that alignment gets an address that is not aligned any better
      void *make(size_t n, size_t align)
      {
         size = n;
         off = align <= 64 ? align : 0;
         void *p = 0;
#if MON_ASAN
         if (posix_memalign(&p, 128, off + n))
            monitor_error("out of memory");
         base = (char *)p;
         memset(base, 0x5A, off);
#else
         off += 128;
         if (posix_memalign(&p, 128, off + n + G))
            monitor_error("out of memory");
         base = (char *)p;
         memset(base, 0x5A, off);
         memset(base + off + n, 0x5A, G);
#endif
         memset(base + off, 0xA5, n);
         MON_FRESH(base + off, n);
         return base + off;
      }
      void check()
      {
         if (!base)
            return;
         for (size_t i = 0; i < off; ++i)
            if (base[i] != 0x5A)
            {
               fail(MEM, "write-outside-object", "guard byte %zu in front of the object was overwritten", off - i);
               break;
            }
#if !MON_ASAN
         for (size_t i = 0; i < G; ++i)
            if (base[off + size + i] != 0x5A)
            {
               fail(MEM, "write-outside-object", "guard byte %zu behind the object was overwritten", i);
               break;
            }
#endif
      }
      void *ptr() { return base + off; }
      void drop()
      {
         if (!base)
            return;
         check();
         const void *l = reg_in(ptr(), size);
         if (l)
         {
            fail(LIFE, "storage-of-live-released", "object destroyed while an element inside it is alive");
         }
         free(base);
         base = 0;
      }
   };

   // All live tracked elements the harness itself holds plus those in models
   // must equal the registry's count.
   inline void live_check(size_t expected)
   {
      S->live_checks++;
      if (R.n - R.base != expected)
         fail(LIFE, R.n - R.base > expected ? "leaked-element" : "lost-element",
              "%zu elements are alive, %zu are reachable", R.n - R.base, expected);
   }

   int run(int argc, char **argv, const char *group, void (*case_fn)(Rng &, uint64_t case_no));
}
#endif
