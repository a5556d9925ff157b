// Definitions for core.hpp; included once per harness.
#ifndef MON_CORE_IMPL_HPP
#define MON_CORE_IMPL_HPP
#include "core.hpp"
#ifdef MON_STACK
#include <ucontext.h>
#endif

namespace mon
{
   Shared *S;
   const char *g_group = "?";
   const char *g_profile = "mix";
   int g_kinds = ALL;
   bool g_verbose;
   int g_scale = 1;
   Heap H;
   Registry R;
   unsigned g_fill = 0xCB;
   uint64_t Tr::g_copies, Tr::g_assigns;
   static size_t g_budget = (size_t)1 << 30;

   static inline size_t hp(const void *p)
   {
      uint64_t x = (uint64_t)(uintptr_t)p;
      x *= 0x9E3779B97F4A7C15ull;
      return (size_t)(x >> 20);
   }

   // registry: open addressing, backward-shift deletion
   static void reg_grow()
   {
      size_t ncap = R.cap ? R.cap * 2 : 1u << 14;
      const void **o = R.t;
      size_t oc = R.cap;
      R.t = (const void **)calloc(ncap, sizeof *R.t);
      R.cap = ncap;
      R.n = 0;
      for (size_t i = 0; i < oc; ++i)
         if (o[i])
            reg_add(o[i]);
      free(o);
   }
   bool reg_has(const void *p)
   {
      if (!R.cap)
         return false;
      for (size_t i = hp(p) & (R.cap - 1); R.t[i]; i = (i + 1) & (R.cap - 1))
         if (R.t[i] == p)
            return true;
      return false;
   }
   bool reg_add(const void *p)
   {
      if (R.n * 2 >= R.cap)
         reg_grow();
      size_t i = hp(p) & (R.cap - 1);
      for (; R.t[i]; i = (i + 1) & (R.cap - 1))
         if (R.t[i] == p)
            return false;
      R.t[i] = p;
      R.n++;
      return true;
   }
   bool reg_del(const void *p)
   {
      if (!R.cap)
         return false;
      size_t m = R.cap - 1, i = hp(p) & m;
      for (; R.t[i] != p; i = (i + 1) & m)
         if (!R.t[i])
            return false;
      size_t j = i;
      for (;;)
      {
         j = (j + 1) & m;
         if (!R.t[j])
            break;
         size_t k = hp(R.t[j]) & m;
         if ((i <= j) ? (i < k && k <= j) : (i < k || k <= j))
            continue;
         R.t[i] = R.t[j];
         i = j;
      }
      R.t[i] = 0;
      R.n--;
      return true;
   }
   const void *reg_in(const void *p, size_t n)
   {
      if (!R.n)
         return 0;
      if (n / 8 > R.cap)
      {
         for (size_t i = 0; i < R.cap; ++i)
            if (R.t[i] >= p && R.t[i] < (const char *)p + n)
               return R.t[i];
         return 0;
      }
      const char *c = (const char *)(((uintptr_t)p + 7) & ~(uintptr_t)7);
      for (; c < (const char *)p + n; c += 8)
         if (reg_has(c))
            return c;
      return 0;
   }

   // heap table
   static void heap_put(const Block &b);
   static void heap_grow()
   {
      size_t ncap = H.cap ? H.cap * 2 : 1u << 14;
      Block *o = H.t;
      size_t oc = H.cap;
      H.t = (Block *)calloc(ncap, sizeof *H.t);
      H.cap = ncap;
      H.n = 0;
      for (size_t i = 0; i < oc; ++i)
         if (o[i].p)
            heap_put(o[i]);
      free(o);
   }
   static void heap_put(const Block &b)
   {
      if (H.n * 2 >= H.cap)
         heap_grow();
      size_t i = hp(b.p) & (H.cap - 1);
      while (H.t[i].p)
         i = (i + 1) & (H.cap - 1);
      H.t[i] = b;
      H.n++;
   }
   static bool heap_take(void *p, Block &out)
   {
      if (!H.cap)
         return false;
      size_t m = H.cap - 1, i = hp(p) & m;
      for (; H.t[i].p != p; i = (i + 1) & m)
         if (!H.t[i].p)
            return false;
      out = H.t[i];
      size_t j = i;
      for (;;)
      {
         j = (j + 1) & m;
         if (!H.t[j].p)
            break;
         size_t k = hp(H.t[j].p) & m;
         if ((i <= j) ? (i < k && k <= j) : (i < k || k <= j))
            continue;
         H.t[i] = H.t[j];
         i = j;
      }
      H.t[i].p = 0;
      H.n--;
      return true;
   }

   void *do_new(size_t n, bool array)
   {
      void *p = malloc(n ? n : 1);
      if (!p)
         monitor_error("out of memory");
      memset(p, g_fill, n);
      MON_FRESH(p, n);
      if (!S)
         return p;
      Block b = {p, n, (unsigned)((array ? BF_ARRAY : 0) | (H.in_lib ? BF_LIB : 0)), 0};
      heap_put(b);
      if (H.in_lib)
      {
         H.lib_allocs++;
         H.lib_blocks++;
         H.lib_bytes += n;
         S->alloc_events++;
         if (H.lib_bytes > g_budget)
         {
            int k = g_kinds;
            g_kinds |= MEM;
            fail(MEM, "runaway-allocation", "library holds more than %zu bytes", g_budget);
            g_kinds = k;
         }
      }
      return p;
   }
   void do_delete(void *p, bool array, bool sized, size_t n)
   {
      if (!p)
         return;
      if (!S)
      {
         free(p);
         return;
      }
      Block b;
      if (!heap_take(p, b))
      {
         fail(ALLOC, "free-of-unallocated", "operator delete on %p, which is not an allocated block", p);
         fail(MEM, "free-of-unallocated", "operator delete on %p, which is not an allocated block", p);
         return;
      }
      if (array != ((b.flags & BF_ARRAY) != 0))
         fail(ALLOC, "mismatched-delete", "block of %zu bytes allocated with new%s released with delete%s",
              b.size, b.flags & BF_ARRAY ? "[]" : "", array ? "[]" : "");
      if (sized && n != b.size)
         fail(ALLOC, "wrong-sized-delete", "block of %zu bytes released as %zu bytes", b.size, n);
      if (b.flags & BF_LIB)
      {
         H.lib_blocks--;
         H.lib_frees++;
         H.lib_bytes -= b.size;
         S->free_events++;
      }
      else if (H.in_lib)
         fail(ALLOC, "free-of-foreign-block", "library released a block it did not allocate");
      S->blocks_audited++;
      if (const void *l = reg_in(p, b.size))
         fail(LIFE, "storage-of-live-released", "block released while the element at %p inside it is alive", l);
      memset(p, 0xDD, b.size);
      free(p);
   }

   void heap_begin_case()
   {
      H.in_lib = 0;
      H.lib_allocs = H.lib_frees = 0;
   }
   void heap_end_case()
   {
      if (H.lib_blocks)
      {
         size_t sz = 0;
         for (size_t i = 0; i < H.cap; ++i)
            if (H.t[i].p && (H.t[i].flags & BF_LIB))
            {
               sz = H.t[i].size;
               H.t[i].flags &= ~BF_LIB;
            }
         long n = H.lib_blocks;
         H.lib_blocks = 0;
         H.lib_bytes = 0;
         fail(ALLOC, "leaked-block", "%ld blocks allocated by the library were never released (one of %zu bytes)", n, sz);
      }
   }

   static void on_timer(int) { _exit(EXIT_HANG); }
   static void arm(int sec)
   {
      struct itimerval t;
      memset(&t, 0, sizeof t);
      t.it_value.tv_sec = sec;
      setitimer(ITIMER_VIRTUAL, &t, 0);
   }

   static void (*g_case)(Rng &, uint64_t);
   static uint64_t g_seed;

#ifdef MON_REENTER
   unsigned g_reenter_at;
   static Rng *g_reenter_rng;
   static unsigned g_reenter_left, g_reenter_depth;
   static void reenter_again()
   {
      Rng &r = *g_reenter_rng;
      g_reenter_at = g_reenter_left ? 1 + r.below(1u << r.below(9)) : 0;
   }
   void reenter()
   {
      Rng &r = *g_reenter_rng;
      --g_reenter_left;
      char sop[sizeof S->op];
      memcpy(sop, S->op, sizeof sop);
      const uint64_t op_no = S->op_no, ops = S->ops;
      const uint32_t tl = S->trace_len;
      const uint64_t cp = Tr::g_copies, as = Tr::g_assigns;
      const size_t base = R.base, alive = R.n;
      const Heap h = H;
      const uint64_t cnt[] = {S->elem_ctor, S->elem_dtor, S->elem_assign, S->elem_compare, S->pred_calls};
      H.in_lib = 0;
      H.lib_blocks = 0;
      H.lib_bytes = 0;
      R.base = R.n;
      S->reentries++;
      note_state(mix(hstr(sop), 0x5e));
      // of the same kind of case, if there are several
      uint64_t c = r.below(4) ? S->cur_case % 8 + 8 * r.below(12) : r.below(97);
      if (c % 97 == 50)
         ++c;
      trace("{ ");
      if (r.below(4) == 0 && g_reenter_depth < 3)
      {
         ++g_reenter_depth;
         reenter_again();
         g_case(r, c);
         --g_reenter_depth;
      }
      else
      {
         g_reenter_at = 0;
         g_case(r, c);
      }
      strcpy(S->op, "teardown");
      live_check(0);
      if (H.lib_blocks)
         fail(ALLOC, "leaked-block", "%ld blocks allocated by the library were never released", H.lib_blocks);
      S->reentered_ops += S->ops - ops;
      memcpy(S->op, sop, sizeof sop);
      S->op_no = op_no;
      if (S->trace_len >= tl && tl + 3 < TRACE)
      {
         strcpy(S->trace + tl, "{} ");
         S->trace_len = tl + 3;
      }
      Tr::g_copies = cp;
      Tr::g_assigns = as;
      R.base = base;
      if (R.n != alive)
         monitor_error("registry");
      H.in_lib = h.in_lib;
      H.lib_blocks = h.lib_blocks;
      H.lib_bytes = h.lib_bytes;
      H.lib_allocs = h.lib_allocs;
      H.lib_frees = h.lib_frees;
      S->elem_ctor = cnt[0];
      S->elem_dtor = cnt[1];
      S->elem_assign = cnt[2];
      S->elem_compare = cnt[3];
      S->pred_calls = cnt[4];
      reenter_again();
   }
#endif

#ifdef MON_STACK
   // The case, and all of the library's operations with it, on a stack that has no
   // room for anything that grows with the number of elements.
   enum { STACK_ROOM = 48 << 10, STACK_GUARD = 64 << 20 };
   static char *g_stack;
   static Rng *g_stack_rng;
   static ucontext_t g_stack_main, g_stack_case;
   static void on_fault(int sig, siginfo_t *si, void *)
   {
      char *p = (char *)si->si_addr;
      if (g_stack && p >= g_stack && p < g_stack + STACK_GUARD)
         fail(MEM, "stack", "more than %d bytes of stack used", (int)STACK_ROOM);
      signal(sig, SIG_DFL);
   }
   static void stack_body() { g_case(*g_stack_rng, S->cur_case); }
   static void small_stack(Rng &r, uint64_t)
   {
      if (!g_stack)
      {
         g_stack = (char *)mmap(0, STACK_GUARD + STACK_ROOM, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
         if (g_stack == MAP_FAILED || mprotect(g_stack + STACK_GUARD, STACK_ROOM, PROT_READ | PROT_WRITE))
            monitor_error("mmap");
         static char alt[1 << 16];
         stack_t a;
         memset(&a, 0, sizeof a);
         a.ss_sp = alt;
         a.ss_size = sizeof alt;
         struct sigaction sa;
         memset(&sa, 0, sizeof sa);
         sa.sa_sigaction = on_fault;
         sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
         if (sigaltstack(&a, 0) || sigaction(SIGSEGV, &sa, 0))
            monitor_error("sigaltstack");
      }
      unsigned char *b = (unsigned char *)g_stack + STACK_GUARD;
      memset(b, 0xA5, STACK_ROOM);
      g_stack_rng = &r;
      if (getcontext(&g_stack_case))
         monitor_error("getcontext");
      g_stack_case.uc_stack.ss_sp = b;
      g_stack_case.uc_stack.ss_size = STACK_ROOM;
      g_stack_case.uc_link = &g_stack_main;
      makecontext(&g_stack_case, stack_body, 0);
      if (swapcontext(&g_stack_main, &g_stack_case))
         monitor_error("swapcontext");
      size_t left = 0;
      while (left < STACK_ROOM && b[left] == 0xA5)
         ++left;
      if (STACK_ROOM - left > S->max_stack)
         S->max_stack = STACK_ROOM - left;
   }
#endif

   static void run_case(uint64_t c)
   {
      S->cur_case = c;
      S->op_no = 0;
      S->trace_len = 0;
      S->trace[0] = 0;
      strcpy(S->op, "setup");
      Rng r(mix(mix(g_seed, hstr(g_group)), c));
      g_fill = (c & 1) ? 0xCB : 0x35;
      heap_begin_case();
#ifdef MON_REENTER
      Rng rr(mix(g_seed, c) ^ 0x7265);
      g_reenter_rng = &rr;
      g_reenter_left = 1 + rr.below(5);
      g_reenter_depth = 0;
      reenter_again();
#endif
#ifdef MON_STACK
      small_stack(r, c);
#else
      g_case(r, c);
#endif
      strcpy(S->op, "teardown");
      live_check(0);
      heap_end_case();
      S->cases_done++;
      if (S->nsamples < 3 && (c % 7 == 3 || c < 2))
      {
         strncpy(S->samples[S->nsamples], S->trace, sizeof S->samples[0] - 1);
         S->nsamples++;
      }
   }

   static int worker(uint64_t from, uint64_t to, int errfd, int cpu)
   {
      pid_t pid = fork();
      if (pid < 0)
         return -1;
      if (pid == 0)
      {
         if (errfd >= 0)
         {
            if (ftruncate(errfd, 0)) {}
            lseek(errfd, 0, SEEK_SET);
            dup2(errfd, 2);
         }
         signal(SIGVTALRM, on_timer);
         for (uint64_t c = from; c < to; ++c)
         {
            arm(cpu);
            run_case(c);
         }
         _exit(0);
      }
      int st = 0;
      while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
         ;
      return st;
   }

   static void json_str(FILE *f, const char *s)
   {
      fputc('"', f);
      for (; *s; ++s)
      {
         unsigned char c = (unsigned char)*s;
         if (c == '"' || c == '\\')
            fprintf(f, "\\%c", c);
         else if (c < 32 || c > 126)
            fprintf(f, "\\u%04x", c);
         else
            fputc(c, f);
      }
      fputc('"', f);
   }
   static void json_viol(FILE *f, const Viol &v)
   {
      fprintf(f, "{\"kind\":\"%s\",\"key\":", v.kind);
      json_str(f, v.key);
      fputs(",\"msg\":", f);
      json_str(f, v.msg);
      fprintf(f, ",\"case\":%llu,\"op\":%llu,\"trace\":", (unsigned long long)v.case_no, (unsigned long long)v.op_no);
      json_str(f, v.trace);
      fputc('}', f);
   }

   // From a sanitizer's report: the kind of error, without addresses
   static void crash_summary(int errfd, int st, char *what, size_t wn, char *msg, size_t mn)
   {
      static char buf[200000];
      ssize_t n = pread(errfd, buf, sizeof buf - 1, 0);
      if (n < 0)
         n = 0;
      buf[n] = 0;
      const char *kind = 0;
      char tmp[120] = "";
      if (const char *p = strstr(buf, "ERROR: AddressSanitizer: "))
      {
         p += 25;
         size_t i = 0;
         while (p[i] && p[i] != ' ' && p[i] != '\n' && i < 60)
            tmp[i] = p[i], ++i;
         tmp[i] = 0;
         kind = tmp;
         snprintf(msg, mn, "%.700s", p);
      }
      else if (const char *p0 = strstr(buf, "WARNING: MemorySanitizer: "))
      {
         kind = "use-of-uninitialized-value";
         snprintf(msg, mn, "%.790s", p0);
      }
      else if (const char *p1 = strstr(buf, "WARNING: ThreadSanitizer: "))
      {
         p1 += 26;
         size_t i = 0;
         while (p1[i] && p1[i] != '(' && p1[i] != '\n' && i < 60)
            tmp[i] = p1[i] == ' ' ? '-' : p1[i], ++i;
         while (i && tmp[i - 1] == '-')
            --i;
         tmp[i] = 0;
         kind = tmp;
         snprintf(msg, mn, "%.790s", p1);
      }
      else if (const char *p2 = strstr(buf, "runtime error: "))
      {
         p2 += 15;
         size_t i = 0;
         while (p2[i] && p2[i] != '\n' && i < 70)
         {
            char ch = p2[i];
            // strip addresses and numbers
            if (ch >= '0' && ch <= '9')
               ch = '#';
            tmp[i] = ch;
            ++i;
         }
         tmp[i] = 0;
         kind = tmp;
         snprintf(msg, mn, "%.700s", p2);
      }
      else
         snprintf(msg, mn, "%.700s", buf);
      if (kind)
         snprintf(what, wn, "sanitizer:%s", kind);
      else if (WIFSIGNALED(st))
         snprintf(what, wn, "signal:%s", WTERMSIG(st) == SIGSEGV ? "SEGV" : WTERMSIG(st) == SIGABRT ? "ABRT" :
                  WTERMSIG(st) == SIGFPE ? "FPE" : WTERMSIG(st) == SIGBUS ? "BUS" : WTERMSIG(st) == SIGILL ? "ILL" : "other");
      else
         snprintf(what, wn, "exit:%d", WEXITSTATUS(st));
   }

   int run(int argc, char **argv, const char *group, void (*case_fn)(Rng &, uint64_t))
   {
      uint64_t start = 0, count = 100;
      const char *out = 0, *states = 0;
      int maxv = 6, cpu = 10; // seconds of CPU time for one case
      g_group = group;
      g_case = case_fn;
      g_seed = 1;
      for (int i = 1; i + 1 < argc; i += 2)
      {
         const char *a = argv[i], *v = argv[i + 1];
         if (!strcmp(a, "--seed")) g_seed = strtoull(v, 0, 10);
         else if (!strcmp(a, "--start")) start = strtoull(v, 0, 10);
         else if (!strcmp(a, "--count")) count = strtoull(v, 0, 10);
         else if (!strcmp(a, "--kinds")) g_kinds = atoi(v);
         else if (!strcmp(a, "--profile")) g_profile = v;
         else if (!strcmp(a, "--out")) out = v;
         else if (!strcmp(a, "--states")) states = v;
         else if (!strcmp(a, "--scale")) g_scale = atoi(v);
         else if (!strcmp(a, "--cpu")) cpu = atoi(v);
         else if (!strcmp(a, "--verbose")) g_verbose = atoi(v);
      }
      Shared *sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      if (sh == MAP_FAILED)
         monitor_error("mmap");
      S = sh;
      if (g_verbose)
      {
         for (uint64_t c = start; c < start + count; ++c)
            run_case(c);
         return 0;
      }
      char path[] = "/tmp/monerrXXXXXX";
      int errfd = mkstemp(path);
      if (errfd < 0)
         monitor_error("mkstemp");
      unlink(path);

      int hangs = 0;
      bool monerr = false;
      uint64_t c = start, end = start + count;
      while (c < end)
      {
         int st = worker(c, end, errfd, cpu);
         if (st == -1)
         {
            monerr = true;
            break;
         }
         if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
            break;
         c = S->cur_case;
         if (WIFEXITED(st) && WEXITSTATUS(st) == EXIT_MON)
         {
            monerr = true;
            char what[200], msg[800];
            crash_summary(errfd, st, what, sizeof what, msg, sizeof msg);
            fprintf(stderr, "monitor error in %s case %llu: %s\n", group, (unsigned long long)c, msg);
            break;
         }
         if (WIFEXITED(st) && WEXITSTATUS(st) == EXIT_HANG)
         {
            // once more on its own, with a larger budget, before believing it
            uint32_t nv = S->nv;
            int st2 = worker(c, c + 1, errfd, 2 * cpu);
            if (WIFEXITED(st2) && WEXITSTATUS(st2) == EXIT_HANG)
            {
               ++hangs;
               if (S->nv < (uint32_t)MAXV)
                  fill_viol(S->v[S->nv++], "hang", "hang", "operation did not finish within its CPU time (twice)");
            }
            else if (WIFEXITED(st2) && (WEXITSTATUS(st2) == 0 || WEXITSTATUS(st2) == EXIT_VIOL))
               ; // slow machine, or the violation is recorded
            else
            {
               st = st2;
               goto crashed;
            }
            (void)nv;
         }
         else if (!(WIFEXITED(st) && WEXITSTATUS(st) == EXIT_VIOL))
         {
         crashed:
            char what[200], msg[800];
            crash_summary(errfd, st, what, sizeof what, msg, sizeof msg);
            if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)
            {
               monerr = true;
               fprintf(stderr, "worker killed in %s case %llu\n", group, (unsigned long long)c);
               break;
            }
            if (S->nv < (uint32_t)MAXV)
               fill_viol(S->v[S->nv++], "crash", what, msg);
         }
         ++c;
         if (S->nv >= (uint32_t)maxv || hangs >= 1)
            break;
      }
      close(errfd);
      FILE *f = out ? fopen(out, "w") : stdout;
      if (!f)
         return 3;
      fprintf(f, "{\"group\":\"%s\",\"error\":%s,\"cases\":%llu,\"ops\":%llu,\"counters\":{", group, monerr ? "true" : "false",
              (unsigned long long)S->cases_done, (unsigned long long)S->ops);
#define CNT(n) fprintf(f, "\"" #n "\":%llu,", (unsigned long long)S->n)
      CNT(observations); CNT(elem_checks); CNT(live_checks); CNT(alloc_events); CNT(free_events); CNT(elem_ctor);
      CNT(elem_dtor); CNT(elem_assign); CNT(elem_compare); CNT(blocks_audited); CNT(iter_steps); CNT(disc_events);
      CNT(stab_checks); CNT(alias_ops); CNT(large_cases); CNT(pred_calls); CNT(max_size); CNT(reentries); CNT(reentered_ops); CNT(max_stack);
      fprintf(f, "\"states\":%llu},\"opcounts\":{", (unsigned long long)S->nstates);
      bool first = true;
      for (int i = 0; i < MAXOPS; ++i)
         if (S->opc[i].n)
         {
            if (!first)
               fputc(',', f);
            first = false;
            json_str(f, S->opc[i].name);
            fprintf(f, ":%llu", (unsigned long long)S->opc[i].n);
         }
      fputs("},\"samples\":[", f);
      for (uint32_t i = 0; i < S->nsamples; ++i)
      {
         if (i)
            fputc(',', f);
         json_str(f, S->samples[i]);
      }
      fputs("],\"violations\":[", f);
      for (uint32_t i = 0; i < S->nv; ++i)
      {
         if (i)
            fputc(',', f);
         json_viol(f, S->v[i]);
      }
      fputs("],\"findings\":[", f);
      for (uint32_t i = 0; i < S->nfind; ++i)
      {
         if (i)
            fputc(',', f);
         json_viol(f, S->find[i]);
      }
      fputs("]}\n", f);
      if (f != stdout)
         fclose(f);
      if (states)
      {
         FILE *g = fopen(states, "wb");
         if (g)
         {
            for (size_t i = 0; i < STATES; ++i)
               if (S->states[i])
                  fwrite(&S->states[i], 8, 1, g);
            fclose(g);
         }
      }
      return monerr ? 3 : S->nv ? 1 : 0;
   }
}

#ifndef MON_NO_HEAP // threads: the heap monitor is not for them
void *operator new(size_t n) { return mon::do_new(n, false); }
void *operator new[](size_t n) { return mon::do_new(n, true); }
void operator delete(void *p) noexcept { mon::do_delete(p, false, false, 0); }
void operator delete[](void *p) noexcept { mon::do_delete(p, true, false, 0); }
void operator delete(void *p, size_t n) noexcept { mon::do_delete(p, false, true, n); }
void operator delete[](void *p, size_t n) noexcept { mon::do_delete(p, true, true, n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return mon::do_new(n, false); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return mon::do_new(n, true); }
void operator delete(void *p, const std::nothrow_t &) noexcept { mon::do_delete(p, false, false, 0); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { mon::do_delete(p, true, false, 0); }
#endif
#endif
