// Constant objects are read only.
// Frozen: an object graph is built in pages which are then write-protected, and
// everything that can be asked of constant objects is asked; the answers must be those
// of before and after, and a store to the pages is a fault.
// Types: constant access gives constant access only (asked of the compiler, C++20).
#define MON_FREEZE 1
#include "h_tsan.cpp"
static void meddle() {}
#include <new>
#include <type_traits>
#include <signal.h>
#include <sys/mman.h>

// The pages
enum { ROOM = 8 << 20 };
static char *g_pages, *g_at;
static bool g_building;
static bool in_pages(const void *p) { return (const char *)p >= g_pages && (const char *)p < g_pages + ROOM; }
static void *take(size_t n)
{
   if (!g_building)
   {
      void *p = malloc(n ? n : 1);
      if (!p)
         monitor_error("out of memory");
      return p;
   }
   char *p = g_at;
   g_at += (n + 31) & ~(size_t)15;
   if (g_at > g_pages + ROOM)
      monitor_error("the pages are full");
   return p;
}
static void give(void *p)
{
   if (!in_pages(p))
      free(p);
}
void *operator new(size_t n) { return take(n); }
void *operator new[](size_t n) { return take(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return take(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return take(n); }
void operator delete(void *p) noexcept { give(p); }
void operator delete[](void *p) noexcept { give(p); }
void operator delete(void *p, size_t) noexcept { give(p); }
void operator delete[](void *p, size_t) noexcept { give(p); }

static void on_write(int sig, siginfo_t *si, void *)
{
   if (g_pages && in_pages(si->si_addr))
      fail(SEM, "written", "an operation on a constant object wrote to it");
   signal(sig, SIG_DFL);
}

// Many sizes, the shapes Shr does not have, and objects inside objects
template<ttl::size_t N> struct Bits
{
   ttl::bitset<N> a, b;
   explicit Bits(Rng &r)
   {
      for (unsigned i = 0; i < N; ++i)
      {
         a.set(i, r.below(2));
         b.set(i, r.below(3) == 0);
      }
      if (r.below(4) == 0)
         b = a;
   }
   void read(Who &w) const
   {
      op("bitset const", " N=%u", (unsigned)N);
      unsigned at = w.r.below(N + 3), by = w.r.below(N + 70);
      w.put(a.size() + a.capacity());
      w.put(a.count()); w.put(a.any() + 2 * a.none());
      if (N)
         w.put(a.all());
      w.put(a.test(at)); w.put(a[at]);
      w.put((a == b) + 2 * (a != b));
      w.put((a & b).count()); w.put((a | b).count()); w.put((a ^ b).count()); w.put((~a).count());
      w.put((a << by).count()); w.put((a >> by).count());
      w.put(a.to_ulong()); w.put(a.to_ullong());
      ttl::bitset<N> c(a);
      ttl::bitset<40> s(a);
      ttl::bitset<200> l(a);
      w.put(s.count() + l.count());
      s = b;
      l = b;
      w.put(s.count() + l.count());
      c = b;
      c |= a;
      w.put(c.count());
      c &= b;
      c ^= a;
      w.put(c.count());
   }
};
struct Deep
{
   ttl::vector<ttl::vector<Own> > vv;
   ttl::list<ttl::forward_list<Own> > lf;
   ttl::map<int, ttl::vector<int> > mv;
   ttl::set<Own> so;
   ttl::map<Own, Own> mo;
   ttl::vector_map<int, ttl::list<int> > vl;
   ttl::sorted_vector_map<int, ttl::set<int> > ss;
   ttl::backward_list<ttl::vector<int> > bv;
   ttl::lazy_queue<ttl::vector<int> > qv;
   ttl::fixed_vector<ttl::vector<int>, 6> fv;
   ttl::array<ttl::vector<int>, 3> av;
   ttl::pair<ttl::vector<int>, ttl::map<int, int> > p;
   Bits<1> b1; Bits<31> b31; Bits<63> b63; Bits<64> b64; Bits<65> b65; Bits<128> b128; Bits<200> b200;
   explicit Deep(Rng &r): b1(r), b31(r), b63(r), b64(r), b65(r), b128(r), b200(r)
   {
      int n = r.below(5) ? r.below(60) : 0;
      for (int i = 0; i < n; ++i)
      {
         int k = r.below(40), x = r.below(100);
         if (i % 5 == 0 || vv.empty())
         {
            vv.push_back(ttl::vector<Own>());
            lf.push_back(ttl::forward_list<Own>());
            bv.push_back(ttl::vector<int>());
            qv.push_back(ttl::vector<int>());
         }
         if (fv.size() < 5)
            fv.push_back(ttl::vector<int>((unsigned)i, x));
         vv.back().push_back(Own(x));
         lf.back().push_front(Own(x));
         bv.back().push_back(x);
         qv.back().push_back(x);
         mv[k].push_back(x);
         so.insert(Own(x));
         mo[Own(k)] = Own(x);
         vl[k].push_back(x);
         ss[k].insert(x);
         av[i % 3].push_back(x);
         p.first.push_back(x);
         p.second[k] = x;
      }
      if (n && r.below(2)) // shapes after removals
      {
         so.erase(Own(n));
         mo.erase(Own(r.below(40)));
         lf.pop_front();
         qv.pop_front();
         vv.reserve(30);
      }
   }
};
template<class M> static void ask_map(Who &w, const M &c, int k)
{
   typename M::const_iterator i = c.find(k);
   w.put(i == c.end());
   w.put(c.count(k) + 2 * c.empty());
   if (i != c.end())
   {
      const M &d = c;
      w.put(&d.at(k) == &i->second);
      w.put((*i).first);
   }
   w.put(c.max_size() > 5);
}
static void deep(Who &w, const Deep &d)
{
   int k = w.r.below(42);
   switch (w.r.below(16))
   {
   case 0:
   {
      op("vector<vector> const");
      ttl::vector<ttl::vector<Own> > c(d.vv), e;
      w.put((c == d.vv) + 2 * (d.vv != c));
      e = d.vv;
      e.assign(d.vv.begin(), d.vv.end());
      e.insert(e.end(), d.vv.cbegin(), d.vv.cend());
      for (size_t i = 0; i < d.vv.size(); ++i)
         w.put(digest(d.vv[i]) + digest(d.vv.at(i)) + d.vv.data()[i].size());
      for (size_t i = 0; i < e.size(); ++i)
         w.put(digest(e[i]));
      w.put(d.vv.capacity() + d.vv.max_size());
      break;
   }
   case 1:
   {
      op("list<forward_list> const");
      ttl::list<ttl::forward_list<Own> > c(d.lf), e;
      e = d.lf;
      w.put((c == d.lf) + 2 * (d.lf != e) + 4 * d.lf.size());
      for (ttl::list<ttl::forward_list<Own> >::const_iterator i = d.lf.cend(); i != d.lf.cbegin();)
         w.put(digest(*--i) + i->empty());
      break;
   }
   case 2:
   {
      op("map<int,vector> const");
      ask_map(w, d.mv, k);
      ttl::map<int, ttl::vector<int> > c(d.mv);
      w.put((c == d.mv) + 2 * (c != d.mv));
      ttl::map<int, ttl::vector<int> >::const_iterator i = d.mv.lower_bound(k), e = d.mv.upper_bound(k + 3);
      for (; i != e; i++)
         w.put(digest(i->second));
      for (i = d.mv.end(); i != d.mv.begin();)
         w.put((--i)->second.size());
      w.put(d.mv.equal_range(k).first == d.mv.equal_range(k).second);
      break;
   }
   case 3:
   {
      op("set<Own> const");
      Own x(k);
      w.put(d.so.count(x) + d.so.empty());
      w.put(d.so.find(x) == d.so.lower_bound(x));
      w.put(d.so.upper_bound(x) == d.so.equal_range(x).second);
      ttl::set<Own> c(d.so), e;
      e = d.so;
      e.insert(d.so.begin(), d.so.end());
      w.put((c == d.so) + 2 * (e != d.so) + digest(e));
      for (ttl::set<Own>::const_iterator i = d.so.cend(); i != d.so.cbegin();)
         w.put(val(*--i));
      break;
   }
   case 4:
   {
      op("map<Own,Own> const");
      Own x(k);
      w.put(d.mo.count(x));
      if (d.mo.find(x) != d.mo.end())
         w.put(val(d.mo.at(x)));
      ttl::map<Own, Own> c(d.mo), e;
      e = d.mo;
      w.put(digest(c) + digest(e) + digest(d.mo));
      break;
   }
   case 5:
   {
      op("vector_map<int,list> const");
      ask_map(w, d.vl, k);
      ttl::vector_map<int, ttl::list<int> > c(d.vl);
      for (ttl::vector_map<int, ttl::list<int> >::const_iterator i = d.vl.begin(); i != d.vl.end(); ++i)
         w.put(i->first + digest(i->second));
      w.put(c.size());
      break;
   }
   case 6:
      op("sorted_vector_map<int,set> const");
      ask_map(w, d.ss, k);
      w.put(d.ss.lower_bound(k) == d.ss.upper_bound(k));
      w.put(d.ss.equal_range(k).first == d.ss.equal_range(k).second);
      for (ttl::sorted_vector_map<int, ttl::set<int> >::const_iterator i = d.ss.cbegin(); i != d.ss.cend(); ++i)
         w.put(i->first + digest(i->second));
      {
         ttl::sorted_vector_map<int, ttl::set<int> > c(d.ss);
         w.put(c.size());
      }
      break;
   case 7:
   {
      op("backward_list<vector> const");
      ttl::backward_list<ttl::vector<int> > c(d.bv), e;
      e = d.bv;
      w.put((c == d.bv) + 2 * (e != d.bv));
      for (ttl::backward_list<ttl::vector<int> >::const_iterator i = d.bv.cbegin(); i != d.bv.cend(); ++i)
         w.put(digest(*i));
      if (!d.bv.empty())
         w.put(d.bv.front().size() + d.bv.back().size() + d.bv.before_end()->size());
      break;
   }
   case 8:
   {
      op("lazy_queue<vector> const");
      ttl::lazy_queue<ttl::vector<int> > c(d.qv), e;
      e = d.qv;
      for (ttl::lazy_queue<ttl::vector<int> >::const_iterator i = d.qv.cbegin(); i != d.qv.cend(); ++i)
         w.put(digest(*i));
      if (!d.qv.empty())
         w.put(d.qv.front().size() + d.qv.back().size() + d.qv.before_end()->size());
      break;
   }
   case 9:
   {
      op("fixed_vector<vector> const");
      ttl::fixed_vector<ttl::vector<int>, 6> c(d.fv), e;
      e = d.fv;
      w.put((c == d.fv) + 2 * (e != d.fv) + d.fv.full() + d.fv.max_size() + d.fv.capacity());
      for (size_t i = 0; i < d.fv.size(); ++i)
         w.put(digest(d.fv[i]) + digest(d.fv.data()[i]));
      break;
   }
   case 10:
   {
      op("array<vector> const");
      ttl::array<ttl::vector<int>, 3> c(d.av);
      w.put((c == d.av) + 2 * (c != d.av));
      w.put(digest(d.av[0]) + digest(d.av.at(1)) + digest(d.av.back()) + digest(d.av.front()) + digest(*d.av.data()) + digest(*d.av.cbegin()));
      break;
   }
   case 11:
   {
      op("pair<vector,map> const");
      ttl::pair<ttl::vector<int>, ttl::map<int, int> > c(d.p), e;
      e = d.p;
      w.put((c == d.p) + 2 * (c != e) + digest(c.first) + digest(e.second));
      break;
   }
   default:
      d.b1.read(w); d.b31.read(w); d.b63.read(w); d.b64.read(w); d.b65.read(w); d.b128.read(w); d.b200.read(w);
      break;
   }
   w.did(1);
}
static uint64_t ask_all(uint64_t seed, const Shr &s, const Deep &d, int n)
{
   Who w(-1, seed);
   while (n--)
      if (w.r.below(2))
      {
         op("shared const objects");
         readers(w, s, 0);
      }
      else
         deep(w, d);
   S->elem_checks += w.steps;
   return w.h;
}
static void frozen(Rng &r)
{
   if (!g_pages)
   {
      g_pages = (char *)mmap(0, ROOM, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      if (g_pages == MAP_FAILED)
         monitor_error("mmap");
      struct sigaction sa;
      memset(&sa, 0, sizeof sa);
      sa.sa_sigaction = on_write;
      sa.sa_flags = SA_SIGINFO;
      if (sigaction(SIGSEGV, &sa, 0))
         monitor_error("sigaction");
   }
   g_at = g_pages;
   g_building = true;
   Shr *s = new Shr(r);
   Deep *d = new Deep(r);
   g_building = false;
   uint64_t seed = r.next();
   const int n = 60;
   uint64_t before = ask_all(seed, *s, *d, n);
   size_t used = (g_at - g_pages + 4095) / 4096 * 4096;
   std::vector<char> img(g_pages, g_at);
   if (mprotect(g_pages, used, PROT_READ))
      monitor_error("mprotect");
   uint64_t during = ask_all(seed, *s, *d, n);
   if (mprotect(g_pages, used, PROT_READ | PROT_WRITE))
      monitor_error("mprotect");
   uint64_t after = ask_all(seed, *s, *d, n);
   op("constant objects", " %zu bytes", (size_t)(g_at - g_pages));
   S->observations += 4;
   if (during != before || after != before)
      fail(SEM, "answers", "the same questions to unchanged objects have other answers");
   if (memcmp(img.data(), g_pages, img.size()))
      fail(SEM, "changed", "an operation on a constant object changed it");
   note_state(mix(mix(before, img.size()), S->op_no));
   delete d;
   delete s;
}

//
// Types
//
#if __cplusplus >= 202002L
static const char *g_cont;
static void fact(const char *what, bool got, bool expect)
{
   op(what, " [%s]", g_cont);
   S->observations++;
   S->elem_checks++;
   if (got != expect)
      fail(SEM, g_cont, "%s: %s", what, got ? "compiles, or holds" : "does not");
   note_state(mix(hstr(what), hstr(g_cont)));
}
// can the expression be written with x and y, objects of the types TX and TY?
#define OK2(TX, TY, ...) ([]<class X_, class Y_>(X_ *, Y_ *) { return requires(X_ &x, Y_ &y) { __VA_ARGS__; }; } \
   ((std::remove_reference_t<TX> *)0, (std::remove_reference_t<TY> *)0))
// only the non-constant object changes
#define CHANGES(Y, ...) do { fact(#__VA_ARGS__, OK2(C, Y, __VA_ARGS__), true); \
   fact("const: " #__VA_ARGS__, OK2(const C, Y, __VA_ARGS__), false); } while (0)
#define READS(Y, ...) do { fact(#__VA_ARGS__, OK2(C, Y, __VA_ARGS__), true); \
   fact("const: " #__VA_ARGS__, OK2(const C, Y, __VA_ARGS__), true); } while (0)
// the type an expression has
#define GIVES(Y, TM, TK, ...) do { C *p_ = 0; typedef Y Y_; (void)p_; \
   fact("type of " #__VA_ARGS__, [](C &x, Y_ &y) { (void)x; (void)y; return std::is_same_v<decltype((__VA_ARGS__)), TM>; }(*obj<C>(), *obj<Y_>()), true); \
   fact("const: type of " #__VA_ARGS__, [](const C &x, Y_ &y) { (void)x; (void)y; return std::is_same_v<decltype((__VA_ARGS__)), TK>; }(*obj<C>(), *obj<Y_>()), true); } while (0)
// the declared type of a member
#define HOLDS(Y, TM, TK, ...) do { C *p_ = 0; typedef Y Y_; (void)p_; \
   fact("type of " #__VA_ARGS__, [](C &x, Y_ &y) { (void)x; (void)y; return std::is_same_v<decltype(__VA_ARGS__), TM>; }(*obj<C>(), *obj<Y_>()), true); \
   fact("const: type of " #__VA_ARGS__, [](const C &x, Y_ &y) { (void)x; (void)y; return std::is_same_v<decltype(__VA_ARGS__), TK>; }(*obj<C>(), *obj<Y_>()), true); } while (0)
// never looked at
template<class T> static T *obj()
{
   alignas(64) static char room[sizeof(T) + 64];
   return reinterpret_cast<T *>(room);
}

template<class C> static void iterators()
{
   typedef typename C::iterator I;
   typedef typename C::const_iterator K;
   typedef typename C::value_type V;
   fact("*iterator is a reference", std::is_same_v<decltype(*std::declval<I &>()), V &>, true);
   fact("*const_iterator is a constant reference", std::is_same_v<decltype(*std::declval<K &>()), const V &>, true);
   fact("*const iterator is a reference", std::is_same_v<decltype(*std::declval<const I &>()), V &>, true);
   fact("*const const_iterator is a constant reference", std::is_same_v<decltype(*std::declval<const K &>()), const V &>, true);
   if constexpr (!std::is_pointer_v<I>)
   {
      fact("iterator-> is a pointer", std::is_same_v<decltype(std::declval<const I &>().operator->()), V *>, true);
      fact("const_iterator-> is a pointer to constant", std::is_same_v<decltype(std::declval<const K &>().operator->()), const V *>, true);
   }
   fact("const_iterator from iterator", std::is_convertible_v<I, K>, true);
   fact("const_iterator = iterator", std::is_assignable_v<K &, I>, true);
   fact("iterator from const_iterator", std::is_constructible_v<I, K>, false);
   fact("iterator from const_iterator, converted", std::is_convertible_v<K, I>, false);
   fact("iterator = const_iterator", std::is_assignable_v<I &, K>, false);
   fact("const iterator moves", OK2(const I, const K, ++x), false);
   fact("const const_iterator moves", OK2(const I, const K, ++y), false);
   fact("reference", std::is_same_v<typename C::reference, V &>, true);
   fact("const_reference", std::is_same_v<typename C::const_reference, const V &>, true);
   if constexpr (requires { typename C::pointer; })
      fact("pointer", std::is_same_v<typename C::pointer, V *>, true);
   if constexpr (requires { typename C::const_pointer; })
      fact("const_pointer", std::is_same_v<typename C::const_pointer, const V *>, true);
}
template<class C> static void common()
{
   typedef typename C::iterator I;
   typedef typename C::const_iterator K;
   iterators<C>();
   GIVES(int, I, K, x.begin());
   GIVES(int, I, K, x.end());
   GIVES(int, K, K, x.cbegin());
   GIVES(int, K, K, x.cend());
   READS(int, x.empty());
   READS(int, x.max_size());
   CHANGES(int, x.clear());
}
template<class C> static void vectors()
{
   typedef typename C::value_type V;
   typedef typename C::const_iterator K;
   common<C>();
   GIVES(int, V &, const V &, x[1]);
   GIVES(int, V &, const V &, x.at(1));
   GIVES(int, V &, const V &, x.front());
   GIVES(int, V &, const V &, x.back());
   GIVES(int, V *, const V *, x.data());
   READS(int, x.size());
   READS(int, x.capacity());
   READS(C, x == y);
   READS(C, x != y);
   CHANGES(C, x.swap(y));
   CHANGES(C, x = y);
   CHANGES(V, x.push_back(y));
   CHANGES(int, x.pop_back());
   CHANGES(V, x.assign(2u, y));
   CHANGES(K, x.assign(y, y));
   CHANGES(K, x.erase(y));
   CHANGES(K, x.erase(y, y));
   CHANGES(K, x.insert(y, y, y));
   CHANGES(K, x.insert(y, *y));
   CHANGES(K, x.insert(y, 2u, *y));
   CHANGES(int, x.resize(2));
   CHANGES(V, x.resize(2, y));
   CHANGES(V, x[0] = y);
   CHANGES(V, x.at(0) = y);
   CHANGES(V, *x.begin() = y);
   CHANGES(V, x.front() = y);
   CHANGES(V, x.back() = y);
}
template<class C> static void nodes()
{
   typedef typename C::value_type V;
   common<C>();
   GIVES(int, V &, const V &, x.front());
   GIVES(int, V &, const V &, x.back());
   CHANGES(C, x.swap(y));
   CHANGES(C, x = y);
   CHANGES(V, x.push_front(y));
   CHANGES(V, x.push_back(y));
   CHANGES(int, x.pop_front());
   CHANGES(V, *x.begin() = y);
   CHANGES(V, x.front() = y);
}
template<class C> static void singly()
{
   typedef typename C::value_type V;
   typedef typename C::iterator I;
   typedef typename C::const_iterator K;
   GIVES(int, I, K, x.before_begin());
   GIVES(int, K, K, x.cbefore_begin());
   CHANGES(K, x.insert_after(y, *y));
   CHANGES(K, x.insert_after(y, 2u, *y));
   CHANGES(K, x.insert_after(y, y, y));
   CHANGES(K, x.erase_after(y));
   CHANGES(K, x.erase_after(y, y));
   (void)(V *)0;
}
template<class C> static void ends()
{
   typedef typename C::iterator I;
   typedef typename C::const_iterator K;
   GIVES(int, I, K, x.before_end());
   GIVES(int, K, K, x.cbefore_end());
}
struct Yes1 { template<class T> bool operator()(const T &) const { return true; } };
struct Yes2 { template<class T> bool operator()(const T &, const T &) const { return true; } };
template<class C> static void dlist()
{
   typedef typename C::value_type V;
   typedef typename C::const_iterator K;
   nodes<C>();
   READS(int, x.size());
   READS(C, x == y);
   READS(C, x != y);
   CHANGES(int, x.pop_back());
   CHANGES(V, x.assign(2u, y));
   CHANGES(K, x.assign(y, y));
   CHANGES(K, x.insert(y, *y));
   CHANGES(K, x.insert(y, 2u, *y));
   CHANGES(K, x.insert(y, y, y));
   CHANGES(K, x.erase(y));
   CHANGES(K, x.erase(y, y));
   CHANGES(C, x.splice(x.begin(), y));
   CHANGES(C, x.splice(x.begin(), y, y.begin()));
   CHANGES(C, x.splice(x.begin(), y, y.begin(), y.end()));
   CHANGES(const C, y.empty() ? x.reverse() : x.reverse());
   CHANGES(V, x.remove(y));
   CHANGES(Yes1, x.remove_if(y));
   CHANGES(int, x.unique());
   CHANGES(Yes2, x.unique(y));
   CHANGES(C, x.merge(y));
   CHANGES(int, x.sort());
   CHANGES(Yes2, x.sort(y));
   CHANGES(int, x.resize(1));
   CHANGES(V, x.back() = y);
   // what is spliced away from the other list
   fact("splice from a constant list", OK2(C, const C, x.splice(x.begin(), y)), false);
   fact("merge from a constant list", OK2(C, const C, x.merge(y)), false);
   fact("swap with a constant list", OK2(C, const C, x.swap(y)), false);
}
template<class C> static void maps()
{
   typedef typename C::key_type KT;
   typedef typename C::mapped_type M;
   typedef typename C::iterator I;
   typedef typename C::const_iterator K;
   common<C>();
   GIVES(KT, I, K, x.find(y));
   GIVES(KT, M &, const M &, x.at(y));
   READS(KT, x.count(y));
   CHANGES(KT, x[y]);
   CHANGES(typename C::value_type, x.insert(y));
   CHANGES(M, x.begin()->second = y);
   CHANGES(M, (*x.end()).second = y);
   fact("assign to an entry of a constant map", OK2(const C, M, x.at(KT()) = y), false);
}
template<class C> static void bounds()
{
   typedef typename C::key_type KT;
   typedef typename C::iterator I;
   typedef typename C::const_iterator K;
   GIVES(KT, I, K, x.lower_bound(y));
   GIVES(KT, I, K, x.upper_bound(y));
   HOLDS(KT, I, K, x.equal_range(y).first);
   HOLDS(KT, I, K, x.equal_range(y).second);
}
template<class C> static void trees()
{
   typedef typename C::key_type KT;
   typedef typename C::value_type V;
   typedef typename C::const_iterator K;
   bounds<C>();
   CHANGES(C, x = y);
   READS(C, x == y);
   READS(C, x != y);
   CHANGES(KT, x.erase(y));
   CHANGES(K, x.erase(y));
   CHANGES(const V, x.insert(&y, &y));
}
template<class C> static void keys()
{
   typedef typename C::key_type KT;
   fact("assign to a key", OK2(C, KT, x.begin()->first = y), false);
   fact("assign to a key of a constant map", OK2(const C, KT, x.begin()->first = y), false);
   fact("assign to a found key", OK2(C, KT, (*x.find(y)).first = y), false);
   fact("assign to an inserted key", OK2(C, typename C::value_type, x.insert(y).first->first = y.first), false);
}
template<ttl::size_t N> static void bitsets()
{
   typedef ttl::bitset<N> C;
   READS(int, x.test(1)); READS(int, x.all()); READS(int, x.any()); READS(int, x.none()); READS(int, x.count());
   READS(int, x.size()); READS(int, x.to_ulong()); READS(int, x.to_ullong()); READS(int, ~x); READS(int, x << 1); READS(int, x >> 1);
   READS(C, x == y); READS(C, x != y); READS(C, x & y); READS(C, x | y); READS(C, x ^ y);
   CHANGES(C, x = y); CHANGES(C, x &= y); CHANGES(C, x |= y); CHANGES(C, x ^= y); CHANGES(int, x <<= 1); CHANGES(int, x >>= 1);
   CHANGES(int, x.set()); CHANGES(int, x.set(1)); CHANGES(int, x.set(1, false)); CHANGES(int, x.reset()); CHANGES(int, x.reset(1));
   CHANGES(int, x.flip()); CHANGES(int, x.flip(1));
   CHANGES(int, x[0] = true); CHANGES(int, x[0].flip());
   fact("a bit of a constant bitset is a bool", std::is_same_v<decltype(std::declval<const C &>()[0]), bool>, true);
}
template<class C> static void arrays()
{
   typedef typename C::value_type V;
   iterators<C>();
   GIVES(int, typename C::iterator, typename C::const_iterator, x.begin());
   GIVES(int, typename C::iterator, typename C::const_iterator, x.end());
   GIVES(int, typename C::const_iterator, typename C::const_iterator, x.cbegin());
   GIVES(int, typename C::const_iterator, typename C::const_iterator, x.cend());
   GIVES(int, V &, const V &, x[0]);
   GIVES(int, V &, const V &, x.at(0));
   GIVES(int, V &, const V &, x.front());
   GIVES(int, V &, const V &, x.back());
   GIVES(int, V *, const V *, x.data());
   READS(int, x.size()); READS(int, x.empty()); READS(int, x.max_size());
   READS(C, x == y); READS(C, x != y);
   CHANGES(V, x.fill(y)); CHANGES(C, x.swap(y)); CHANGES(C, x = y);
}
template<class V> static void sequences(const char *nm)
{
   struct { const char *c; void (*f)(); } const a[] = {
      {"vector", vectors<ttl::vector<V> >}, {"fixed_vector", vectors<ttl::fixed_vector<V, 7> >}, {"list", dlist<ttl::list<V> >},
      {"forward_list", common<ttl::forward_list<V> >}, {"forward_list", singly<ttl::forward_list<V> >},
      {"backward_list", nodes<ttl::backward_list<V> >}, {"backward_list", singly<ttl::backward_list<V> >}, {"backward_list", ends<ttl::backward_list<V> >},
      {"lazy_queue", nodes<ttl::lazy_queue<V> >}, {"lazy_queue", singly<ttl::lazy_queue<V> >}, {"lazy_queue", ends<ttl::lazy_queue<V> >},
      {"array", arrays<ttl::array<V, 4> >},
   };
   for (const auto &i : a)
   {
      char b[64];
      snprintf(b, sizeof b, "%s<%s>", i.c, nm);
      g_cont = b;
      i.f();
   }
   {
      g_cont = "forward_list";
      typedef ttl::forward_list<V> C;
      GIVES(int, V &, const V &, x.front());
      CHANGES(C, x.swap(y));
      CHANGES(C, x = y);
      CHANGES(V, x.push_front(y));
      CHANGES(int, x.pop_front());
      CHANGES(V, x.front() = y);
      CHANGES(V, *x.begin() = y);
      CHANGES(int, x.reverse());
      CHANGES(V, x.assign(2u, y));
      READS(C, x == y);
      READS(C, x != y);
   }
   {
      g_cont = "backward_list";
      typedef ttl::backward_list<V> C;
      CHANGES(int, x.reverse());
      CHANGES(V, x.assign(2u, y));
      CHANGES(V, x.back() = y);
      READS(C, x == y);
      READS(C, x != y);
   }
   {
      g_cont = "lazy_queue";
      typedef ttl::lazy_queue<V> C;
      CHANGES(V, x.back() = y);
   }
   {
      g_cont = "pair";
      typedef ttl::pair<V, V> C;
      GIVES(int, V &, const V &, x.first);
      GIVES(int, V &, const V &, x.second);
      CHANGES(C, x = y);
      CHANGES(C, x.swap(y));
      READS(C, x == y);
      READS(C, x != y);
   }
}
template<class KT, class M> static void mappings(const char *nm)
{
   typedef ttl::map<KT, M> T;
   typedef ttl::vector_map<KT, M> U;
   typedef ttl::sorted_vector_map<KT, M> W;
   struct { const char *c; void (*f)(); } const a[] = {
      {"map", maps<T>}, {"map", trees<T>}, {"map", keys<T>}, {"sorted_vector_map", maps<W>}, {"sorted_vector_map", bounds<W>}, {"vector_map", maps<U>},
   };
   for (const auto &i : a)
   {
      char b[64];
      snprintf(b, sizeof b, "%s<%s>", i.c, nm);
      g_cont = b;
      i.f();
   }
}
template<class KT> static void a_set(const char *nm)
{
   typedef ttl::set<KT> C;
   typedef typename C::const_iterator K;
   g_cont = nm;
   fact("*const_iterator is a constant reference", std::is_same_v<decltype(*std::declval<const K &>()), const KT &>, true);
   fact("const_iterator-> is a pointer to constant", std::is_same_v<decltype(std::declval<const K &>().operator->()), const KT *>, true);
   fact("iterator from const_iterator", std::is_constructible_v<typename C::iterator, K>, false);
   fact("const_iterator from iterator", std::is_convertible_v<typename C::iterator, K>, true);
   fact("assign to an element of a constant set", OK2(const C, KT, *x.begin() = y), false);
   fact("assign to an element found in a constant set", OK2(const C, KT, *x.find(y) = y), false);
   fact("assign to the first not less in a constant set", OK2(const C, KT, *x.lower_bound(y) = y), false);
   READS(int, x.empty());
   READS(int, x.begin()); READS(int, x.end()); READS(int, x.cbegin()); READS(int, x.cend());
   READS(KT, x.count(y)); READS(KT, x.find(y)); READS(KT, x.lower_bound(y)); READS(KT, x.upper_bound(y)); READS(KT, x.equal_range(y));
   READS(C, x == y); READS(C, x != y);
   CHANGES(KT, x.insert(y)); CHANGES(KT, x.erase(y)); CHANGES(K, x.erase(y)); CHANGES(const KT, x.insert(&y, &y));
   CHANGES(int, x.clear()); CHANGES(C, x = y);
}
template<class V> static void functions(const char *nm)
{
   g_cont = nm;
   typedef const V *K;
   typedef V *I;
   typedef V C;
   GIVES(V, const V &, const V &, ttl::min(x, y));
   GIVES(V, const V &, const V &, ttl::max(x, y));
   HOLDS(V, const V &, const V &, ttl::minmax(x, y).first);
   HOLDS(V, const V &, const V &, ttl::minmax(x, y).second);
   // searching returns what it was given
   GIVES(V, I, K, ttl::find(&x, &x, y));
   GIVES(Yes1, I, K, ttl::find_if(&x, &x, y));
   GIVES(Yes1, I, K, ttl::find_if_not(&x, &x, y));
   GIVES(V, I, K, ttl::search(&x, &x, &y, &y));
   GIVES(V, I, K, ttl::search_n(&x, &x, 2, y));
   GIVES(int, I, K, ttl::adjacent_find(&x, &x));
   GIVES(int, I, K, ttl::min_element(&x, &x));
   GIVES(int, I, K, ttl::max_element(&x, &x));
   HOLDS(int, I, K, ttl::minmax_element(&x, &x).first);
   GIVES(int, I, K, ttl::is_sorted_until(&x, &x));
   GIVES(V, I, K, ttl::lower_bound(&x, &x, y));
   GIVES(V, I, K, ttl::upper_bound(&x, &x, y));
   HOLDS(V, I, K, ttl::equal_range(&x, &x, y).first);
   HOLDS(V, I, K, ttl::mismatch(&x, &x, &y).first);
   HOLDS(const V, K, K, ttl::mismatch(&x, &x, &y).second);
   READS(V, ttl::binary_search(&x, &x, y));
   READS(V, ttl::equal(&x, &x, &y));
}
static void types()
{
   sequences<int>("int");
   sequences<Own>("Own");
   mappings<int, int>("int,int");
   mappings<int, Own>("int,Own");
   mappings<Own, char>("Own,char");
   a_set<int>("set<int>");
   a_set<Own>("set<Own>");
   bitsets<1>(); bitsets<64>(); bitsets<130>();
   functions<int>("algorithms<int>");
   functions<Own>("algorithms<Own>");
}
#endif
static void the_case(Rng &r, uint64_t c)
{
#if __cplusplus >= 202002L
   if (c % 128 == 5)
   {
      types();
      return;
   }
#endif
   (void)c;
   frozen(r);
}
int main(int argc, char **argv) { return run(argc, argv, "const", the_case); }
