// The operations of containers and algorithms on elements that can do only what the
// operation is specified to need: no assignment, no default constructor, no comparison
// but the one used, values of another type, function objects that cannot be assigned
// or called when constant.  That it compiles is part of what is checked.
#include <vector>
#include <algorithm>
#include "core_impl.hpp"
#include "ttl/ttl.hpp"
#include "ttl/numeric.hpp"
#include "ttl/sorted_vector_map.hpp"
#include "ttl/vector_map.hpp"
using namespace mon;
typedef std::vector<V> Vs;
static Rng *g;

enum { ASG = 1, DEF = 2, EQ = 4, LT = 8 };
struct NoAsg { NoAsg() {} NoAsg(const NoAsg &) {} private: void operator=(const NoAsg &); };
struct Asg {};
struct NoDef { explicit NoDef(int) {} };
struct Def { Def() {} explicit Def(int) {} };
template<bool, class A, class B> struct Pick { typedef A type; };
template<class A, class B> struct Pick<false, A, B> { typedef B type; };
template<bool> struct When {};
// what a comparison yields need not be bool
struct Yes { bool b; operator bool() const { return b; } };
template<> struct When<true> { typedef Yes type; };

template<unsigned C> struct Need final: Pick<(C & ASG) != 0, Asg, NoAsg>::type, Pick<(C & DEF) != 0, Def, NoDef>::type
{
   typedef typename Pick<(C & ASG) != 0, Asg, NoAsg>::type A;
   typedef typename Pick<(C & DEF) != 0, Def, NoDef>::type D;
   Tr t;
   explicit Need(V v): D(0), t(v.key, v.tag) {}
   Need(const Need &o): A(o), D(o), t(o.t) {}
   Need() = default;
   Need &operator=(const Need &) = default;
   // made and assigned of nothing else
   template<class U> Need(const U &) = delete;
   template<class U> Need &operator=(const U &) = delete;
   // containers construct their elements in place
   static void *operator new(size_t) = delete;
   static void *operator new(size_t, void *) = delete;
   static void operator delete(void *) = delete;
   void *operator new[](size_t) = delete;
   void operator delete[](void *) = delete;
};
struct Key { int k; };
template<unsigned C> inline typename When<(C & EQ) != 0>::type operator==(const Need<C> &a, const Need<C> &b) { Yes y = {a.t == b.t}; return y; }
template<unsigned C> inline typename When<(C & EQ) != 0>::type operator==(const Need<C> &a, const Key &b) { a.t.use("compare"); Yes y = {a.t.k == b.k}; return y; }
template<unsigned C> inline typename When<(C & LT) != 0>::type operator<(const Need<C> &a, const Need<C> &b) { Yes y = {a.t < b.t}; return y; }
template<unsigned C> inline typename When<(C & LT) != 0>::type operator<(const Need<C> &a, const Key &b) { a.t.use("compare"); Yes y = {a.t.k < b.k}; return y; }
template<unsigned C> inline typename When<(C & LT) != 0>::type operator<(const Key &a, const Need<C> &b) { b.t.use("compare"); Yes y = {a.k < b.t.k}; return y; }

static unsigned g_tag;
static unsigned g_span = 6;
static V some() { V v = {(int)g->below(g_span), ++g_tag}; return v; }
static bool same(V a, V b) { return a.key == b.key && a.tag == b.tag; }
static bool eqk(V a, V b) { return a.key == b.key; }
static bool ltk(V a, V b) { return a.key < b.key; }

// Function objects: copied, called, and nothing else
struct Count { uint64_t n; };
struct Odd final
{
   int calls;
   explicit Odd(int): calls(0) {}
   Odd(const Odd &o): calls(o.calls) {}
   template<unsigned C> Yes operator()(const Need<C> &x) { ++calls; x.t.use("predicate"); Yes y = {(x.t.k & 1) != 0}; return y; }
private:
   void operator=(const Odd &);
   void operator&() const;
};
static bool oddk(V v) { return v.key & 1; }
struct Half final // key / 2 order and equality
{
   int calls;
   explicit Half(int): calls(0) {}
   Half(const Half &o): calls(o.calls) {}
   template<unsigned C, unsigned D> Yes operator()(const Need<C> &a, const Need<D> &b) { ++calls; Yes y = {a.t.k / 2 == b.t.k / 2}; return y; }
private:
   void operator=(const Half &);
};
struct HalfLess final
{
   int calls;
   explicit HalfLess(int): calls(0) {}
   HalfLess(const HalfLess &o): calls(o.calls) {}
   template<unsigned C> Yes operator()(const Need<C> &a, const Need<C> &b) { ++calls; Yes y = {a.t.k / 2 < b.t.k / 2}; return y; }
   template<unsigned C> Yes operator()(const Need<C> &a, const Key &b) { ++calls; Yes y = {a.t.k / 2 < b.k / 2}; return y; }
   template<unsigned C> Yes operator()(const Key &a, const Need<C> &b) { ++calls; Yes y = {a.k / 2 < b.t.k / 2}; return y; }
private:
   void operator=(const HalfLess &);
};
static bool halfeq(V a, V b) { return a.key / 2 == b.key / 2; }
static bool halflt(V a, V b) { return a.key / 2 < b.key / 2; }

template<class R> static Vs read(const R &r, size_t lim)
{
   Vs v;
   typename R::const_iterator e = r.end();
   for (typename R::const_iterator i = r.begin(); i != e && v.size() <= lim; ++i)
   {
      i->t.use("observe");
      V x = {i->t.k, i->t.tg};
      v.push_back(x);
   }
   return v;
}
static void agree(const Vs &a, const Vs &m, const char *what = "content")
{
   S->observations++;
   S->elem_checks += m.size();
   bool ok = a.size() == m.size();
   uint64_t h = hstr(S->op);
   for (size_t i = 0; ok && i < m.size(); ++i)
   {
      ok = same(a[i], m[i]);
      h = mix(h, (uint64_t)m[i].key);
   }
   if (!ok)
      fail(SEM, what, "%zu elements, expected %zu", a.size(), m.size());
   note_state(h);
}

// An array of elements made one by one
template<unsigned C> struct Arr
{
   typedef Need<C> T;
   T *p;
   size_t n;
   explicit Arr(const Vs &v): n(v.size())
   {
      p = (T *)malloc(n * sizeof(T) + 1);
      for (size_t i = 0; i < n; ++i)
         ::new((void *)(p + i)) T(v[i]);
   }
   ~Arr()
   {
      for (size_t i = 0; i < n; ++i)
         p[i].~T();
      free(p);
   }
   T *begin() { return p; }
   T *end() { return p + n; }
   Vs vals() const
   {
      Vs v;
      for (size_t i = 0; i < n; ++i)
      {
         p[i].t.use("observe");
         V x = {p[i].t.k, p[i].t.tg};
         v.push_back(x);
      }
      return v;
   }
private:
   Arr(const Arr &);
};
static Vs several(size_t n)
{
   Vs v;
   for (size_t i = 0; i < n; ++i)
      v.push_back(some());
   return v;
}

enum { VEC, FIX, LIST, FWD, BWD, LAZY };
template<unsigned C, int KIND> struct Cont;
template<unsigned C> struct Cont<C, VEC> { typedef ttl::vector<Need<C> > type; static const char *name() { return "vector"; } };
template<unsigned C> struct Cont<C, FIX> { typedef ttl::fixed_vector<Need<C>, 40> type; static const char *name() { return "fixed_vector"; } };
template<unsigned C> struct Cont<C, LIST> { typedef ttl::list<Need<C> > type; static const char *name() { return "list"; } };
template<unsigned C> struct Cont<C, FWD> { typedef ttl::forward_list<Need<C> > type; static const char *name() { return "forward_list"; } };
template<unsigned C> struct Cont<C, BWD> { typedef ttl::backward_list<Need<C> > type; static const char *name() { return "backward_list"; } };
template<unsigned C> struct Cont<C, LAZY> { typedef ttl::lazy_queue<Need<C> > type; static const char *name() { return "lazy_queue"; } };

template<unsigned C, int KIND> struct Seq2
{
   typedef typename Cont<C, KIND>::type X;
   typedef Need<C> T;
   enum { vec = KIND == VEC || KIND == FIX, sl = KIND >= FWD };
   X *c[2];
   Vs m[2];
   Seq2() { c[0] = c[1] = 0; }
   const char *nm(const char *what)
   {
      static char b[80];
      snprintf(b, sizeof b, "%s<%s%s%s%s>::%s", Cont<C, KIND>::name(), C & ASG ? "=" : "", C & DEF ? "()" : "", C & EQ ? "==" : "", C & LT ? "<" : "", what);
      return b;
   }
   void make(int i)
   {
      delete c[i];
      c[i] = 0;
      size_t n = g->below(6);
      V v = some();
      switch (g->below(c[1 - i] ? 4 : 3))
      {
      case 0:
         op(nm("constructor()"));
         c[i] = lib([&] { return new X(); });
         m[i].clear();
         break;
      case 1:
         op(nm("constructor(n, value)"));
         {
            T t(v);
            c[i] = lib([&] { return new X(n, t); });
         }
         m[i].assign(n, v);
         break;
      case 2:
         if constexpr (KIND != LAZY)
         {
            op(nm("constructor(first, last)"));
            m[i] = several(n);
            Arr<C> a(m[i]);
            const T *b = a.begin(), *e = a.end();
            c[i] = lib([&] { return new X(b, e); });
            break;
         }
      default:
         if (!c[1 - i])
         {
            make(i);
            return;
         }
         op(nm("copy constructor"));
         {
            const X &o = *c[1 - i];
            c[i] = lib([&] { return new X(o); });
         }
         m[i] = m[1 - i];
      }
      all();
   }
   void all()
   {
      size_t n = 0;
      for (int i = 0; i < 2; ++i)
         if (c[i])
         {
            agree(read(*c[i], m[i].size() + 5), m[i]);
            n += m[i].size();
         }
      live_check(n);
   }
   typename X::iterator at(int i, size_t k)
   {
      typename X::iterator it = c[i]->begin();
      while (k--)
         ++it;
      return it;
   }
   // the position before the k-th
   typename X::iterator bef(int i, size_t k)
   {
      if constexpr (sl)
      {
         typename X::iterator it = c[i]->before_begin();
         while (k--)
            ++it;
         return it;
      }
      else
         return at(i, k);
   }
   void step()
   {
      int i = (int)g->below(2), j = 1 - i;
      if (!c[i] || g->below(12) == 0)
      {
         make(i);
         return;
      }
      if (!c[j])
         make(j);
      X &x = *c[i];
      Vs &v = m[i];
      V val = some();
      size_t k = g->below((unsigned)v.size() + 1), e = k + g->below((unsigned)(v.size() - k) + 1), n = g->below(4);
      bool grow = v.size() < 30;
      switch (g->below(18))
      {
      case 0: case 1: case 2:
         if (!grow)
            return;
         if constexpr (KIND == FWD)
            return;
         else
         {
            op(nm("push_back"));
            T t(val);
            lib([&] { x.push_back(t); return 0; });
            v.push_back(val);
         }
         break;
      case 3: case 4:
         if constexpr (!vec)
         {
            if (!grow)
               return;
            op(nm("push_front"));
            T t(val);
            lib([&] { x.push_front(t); return 0; });
            v.insert(v.begin(), val);
         }
         break;
      case 5:
         if (v.empty())
            return;
         if constexpr (vec || KIND == LIST)
         {
            op(nm("pop_back"));
            lib([&] { x.pop_back(); return 0; });
            v.pop_back();
         }
         break;
      case 6:
         if (v.empty())
            return;
         if constexpr (!vec)
         {
            op(nm("pop_front"));
            lib([&] { x.pop_front(); return 0; });
            v.erase(v.begin());
         }
         break;
      case 7: case 8:
         if (!grow)
            return;
         if constexpr ((C & ASG) || !vec)
         {
            int how = (int)g->below(3);
            Vs in = how == 0 ? Vs(1, val) : how == 1 ? Vs(n, val) : several(n);
            op(nm(how == 0 ? "insert(value)" : how == 1 ? "insert(n, value)" : "insert(first, last)"));
            {
               Arr<C> a(in);
               T t(val);
               const T *b = a.begin(), *ee = a.end();
               if constexpr (sl)
                  lib([&] { how == 0 ? (void)x.insert_after(bef(i, k), t) : how == 1 ? (void)x.insert_after(bef(i, k), n, t) : (void)x.insert_after(bef(i, k), b, ee); return 0; });
               else
                  lib([&] { how == 0 ? (void)x.insert(at(i, k), t) : how == 1 ? (void)x.insert(at(i, k), n, t) : (void)x.insert(at(i, k), b, ee); return 0; });
            }
            v.insert(v.begin() + k, in.begin(), in.end());
         }
         break;
      case 9:
         if (k >= v.size())
            return;
         if constexpr (vec ? (C & ASG) != 0 : true)
         {
            op(nm("erase(position)"));
            if constexpr (sl)
               lib([&] { x.erase_after(bef(i, k)); return 0; });
            else
               lib([&] { x.erase(at(i, k)); return 0; });
            v.erase(v.begin() + k);
         }
         break;
      case 10:
         if constexpr (vec ? (C & ASG) != 0 : (int)sl)
         {
            op(nm("erase(first, last)"));
            if constexpr (sl)
               lib([&] { x.erase_after(bef(i, k), e == v.size() ? x.end() : at(i, e)); return 0; });
            else
               lib([&] { x.erase(at(i, k), at(i, e)); return 0; });
            v.erase(v.begin() + k, v.begin() + e);
         }
         break;
      case 11:
         if constexpr (KIND != FIX || (C & ASG))
         {
            op(nm("swap"));
            lib([&] { x.swap(*c[j]); return 0; });
            m[i].swap(m[j]);
         }
         break;
      case 12:
         if constexpr (C & ASG)
         {
            int how = (int)g->below(KIND == LAZY ? 1 : 3);
            op(nm(how == 0 ? "operator=" : how == 1 ? "assign(n, value)" : "assign(first, last)"));
            Vs in = how == 0 ? m[j] : how == 1 ? Vs(n, val) : several(n);
            {
               T t(val);
               Arr<C> a(in);
               const T *b = a.begin(), *ee = a.end();
               const X &o = *c[j];
               if constexpr (KIND == LAZY)
                  lib([&] { x = o; return 0; });
               else
                  lib([&] { how == 0 ? (void)(x = o) : how == 1 ? x.assign(n, t) : x.assign(b, ee); return 0; });
            }
            v = in;
         }
         break;
      case 13:
      {
         if constexpr ((vec && (C & ASG)) || KIND == LIST)
         {
            size_t to = g->below(16);
            bool d = (C & DEF) && g->below(2);
            op(nm(d ? "resize(n)" : "resize(n, value)"));
            V z = {0, 0};
            {
               T t(val);
               if constexpr (C & DEF)
                  lib([&] { d ? x.resize(to) : x.resize(to, t); return 0; });
               else
                  lib([&] { x.resize(to, t); return 0; });
            }
            v.resize(to, d ? z : val);
         }
         else if constexpr (vec && (C & DEF))
         {
            size_t to = g->below(16);
            op(nm("resize(n)"));
            V z = {0, 0};
            lib([&] { x.resize(to); return 0; });
            v.resize(to, z);
         }
         break;
      }
      case 14:
         if constexpr (KIND == LIST)
         {
            op(nm("splice"));
            lib([&] { x.splice(at(i, k), *c[j]); return 0; });
            v.insert(v.begin() + k, m[j].begin(), m[j].end());
            m[j].clear();
            all();
            op(nm("reverse"));
            lib([&] { x.reverse(); return 0; });
            std::reverse(v.begin(), v.end());
         }
         else if constexpr (KIND == FWD)
         {
            op(nm("splice_after"));
            lib([&] { x.splice_after(bef(i, k), *c[j]); return 0; });
            v.insert(v.begin() + k, m[j].begin(), m[j].end());
            m[j].clear();
         }
         else if constexpr (KIND == VEC)
         {
            op(nm("reserve"));
            lib([&] { x.reserve(v.size() + n); return 0; });
         }
         if constexpr (KIND == FIX || KIND == VEC || KIND == LIST)
            while (v.size() > 30)
            {
               lib([&] { x.pop_back(); return 0; });
               v.pop_back();
            }
         break;
      case 15:
         if constexpr (KIND == LIST)
         {
            op(nm("remove_if"));
            lib([&] { x.remove_if(Odd(0)); return 0; });
            v.erase(std::remove_if(v.begin(), v.end(), oddk), v.end());
            all();
            op(nm("unique(pred)"));
            lib([&] { x.unique(Half(0)); return 0; });
            v.erase(std::unique(v.begin(), v.end(), halfeq), v.end());
            if constexpr (C & EQ)
            {
               all();
               op(nm("remove"));
               {
                  T t(val);
                  lib([&] { x.remove(t); return 0; });
               }
               v.erase(std::remove_if(v.begin(), v.end(), [&](V a) { return a.key == val.key; }), v.end());
               all();
               op(nm("unique"));
               lib([&] { x.unique(); return 0; });
               v.erase(std::unique(v.begin(), v.end(), eqk), v.end());
            }
         }
         break;
      case 16:
         if constexpr (KIND == LIST)
         {
            bool comp = !(C & LT) || g->below(2);
            // fill both in order
            for (int q = 0; q < 2; ++q)
            {
               Vs in = several(g->below(7));
               if (comp)
                  std::stable_sort(in.begin(), in.end(), halflt);
               else
                  std::stable_sort(in.begin(), in.end(), ltk);
               c[q]->clear();
               for (size_t z = 0; z < in.size(); ++z)
               {
                  T t(in[z]);
                  lib([&] { c[q]->push_back(t); return 0; });
               }
               m[q] = in;
            }
            op(nm(comp ? "merge(comp)" : "merge"));
            if (comp)
               lib([&] { x.merge(*c[j], HalfLess(0)); return 0; });
            else if constexpr (C & LT)
               lib([&] { x.merge(*c[j]); return 0; });
            Vs out;
            if (comp)
               std::merge(m[i].begin(), m[i].end(), m[j].begin(), m[j].end(), std::back_inserter(out), halflt);
            else
               std::merge(m[i].begin(), m[i].end(), m[j].begin(), m[j].end(), std::back_inserter(out), ltk);
            m[i] = out;
            m[j].clear();
         }
         break;
      default:
         if constexpr ((C & EQ) && KIND != LAZY)
         {
            op(nm("=="));
            const X &a = x, &b = *c[j];
            bool eq = m[i].size() == m[j].size() && std::equal(m[i].begin(), m[i].end(), m[j].begin(), eqk);
            if (lib([&] { return a == b; }) != eq || lib([&] { return a != b; }) == eq)
               fail(SEM, "equality");
         }
         if (!v.empty())
         {
            op(nm("front"));
            const X &a = x;
            if (a.front().t.tg != v[0].tag || x.begin()->t.tg != v[0].tag)
               fail(SEM, "content", "of front()");
            if (g->below(4) == 0)
            {
               op(nm("clear"));
               lib([&] { x.clear(); return 0; });
               v.clear();
            }
         }
      }
      all();
   }
   void run(int n)
   {
      while (n--)
         step();
      delete c[0];
      delete c[1];
      live_check(0);
   }
};

// sets and maps: keys with < (or ==) only
template<class X, unsigned CK> static void set_case(const char *name)
{
   typedef Need<CK> K;
   X s;
   Vs m;
   for (int q = 0; q < 25; ++q)
   {
      V v = some();
      size_t lo = std::lower_bound(m.begin(), m.end(), v, ltk) - m.begin();
      bool has = lo < m.size() && m[lo].key == v.key;
      op(name);
      K k(v);
      switch (g->below(4))
      {
      case 0: case 1:
         if (lib([&] { return s.insert(k); }).second == has)
            fail(SEM, "inserted-flag");
         if (!has)
            m.insert(m.begin() + lo, v);
         break;
      case 2:
         if (lib([&] { return s.erase(k); }) != has)
            fail(SEM, "erased-number");
         if (has)
            m.erase(m.begin() + lo);
         break;
      default:
      {
         X t(s);
         agree(read(t, m.size() + 3), m, "copy");
         lib([&] { s.clear(); return 0; });
         lib([&] { s.insert(t.begin(), t.end()); return 0; });
      }
      }
      has = lo < m.size() && m[lo].key == v.key;
      const X &c = s;
      auto f = lib([&] { return c.find(k); });
      auto l = lib([&] { return c.lower_bound(k); });
      auto u = lib([&] { return c.upper_bound(k); });
      auto e = lib([&] { return c.equal_range(k); });
      if ((f != c.end()) != has || (has && f->t.tg != m[lo].tag) || c.count(k) != (size_t)has || l != e.first || u != e.second ||
          (l == c.end()) != (lo == m.size()) || (u == c.end()) != (lo + has == m.size()))
         fail(SEM, "lookup");
      agree(read(c, m.size() + 3), m);
      live_check(m.size() + 1);
   }
}
template<class X, unsigned CK, unsigned CM, bool SORTED> static void map_case(const char *name)
{
   typedef Need<CK> K;
   typedef Need<CM> M;
   X s;
   Vs m, w;
   for (int q = 0; q < 25; ++q)
   {
      V v = some(), y = some();
      size_t lo = SORTED ? std::lower_bound(m.begin(), m.end(), v, ltk) - m.begin() : std::find_if(m.begin(), m.end(), [&](V a) { return a.key == v.key; }) - m.begin();
      bool has = lo < m.size() && m[lo].key == v.key;
      op(name);
      K k(v);
      M t(y);
      switch (g->below(4))
      {
      case 0: case 1:
         if (lib([&] { return s.insert(typename X::value_type(k, t)); }).second == has)
            fail(SEM, "inserted-flag");
         if (!has)
         {
            m.insert(m.begin() + lo, v);
            w.insert(w.begin() + lo, y);
         }
         break;
      case 2:
         if constexpr (CM & DEF)
         {
            M &r = lib([&]() -> M & { return s[k]; });
            V was = {r.t.k, r.t.tg}, z = {0, 0};
            if (!same(was, has ? w[lo] : z))
               fail(SEM, "content", "of []");
            if constexpr (CM & ASG)
               r = t;
            else
               y = was;
            if (has)
               w[lo] = y;
            else
            {
               m.insert(m.begin() + lo, v);
               w.insert(w.begin() + lo, y);
            }
         }
         break;
      default:
      {
         X u(s);
         lib([&] { s.clear(); return 0; });
         for (size_t z = 0; z < m.size(); ++z)
         {
            K kk(m[z]);
            auto f = u.find(kk);
            if (f == u.end())
               fail(SEM, "lookup", "in a copy");
            lib([&] { s.insert(*f); return 0; });
         }
      }
      }
      has = lo < m.size() && m[lo].key == v.key;
      const X &c = s;
      auto f = lib([&] { return c.find(k); });
      if ((f != c.end()) != has || (has && (f->first.t.tg != m[lo].tag || f->second.t.tg != w[lo].tag)) || c.count(k) != (size_t)has)
         fail(SEM, "lookup");
      if constexpr (SORTED)
      {
         auto l = lib([&] { return c.lower_bound(k); });
         auto u = lib([&] { return c.upper_bound(k); });
         if ((l == c.end()) != (lo == m.size()) || (u == c.end()) != (lo + has == m.size()))
            fail(SEM, "lookup", "of bounds");
      }
      if (has && lib([&]() -> M & { return s.at(k); }).t.tg != w[lo].tag)
         fail(SEM, "content", "of at()");
      Vs a, b;
      size_t left = m.size() + 3;
      for (auto i = c.begin(); i != c.end() && left--; ++i)
      {
         V p = {i->first.t.k, i->first.t.tg}, r = {i->second.t.k, i->second.t.tg};
         a.push_back(p);
         b.push_back(r);
      }
      agree(a, m);
      agree(b, w);
      live_check(m.size() * 2 + 2);
   }
}
template<unsigned C> struct LessK final { bool operator()(const Need<C> &a, const Need<C> &b) const { return a.t.k < b.t.k; } };

// algorithms
static void number(long long a, long long e)
{
   S->observations++;
   if (a != e)
      fail(SEM, "result", "%lld, expected %lld", a, e);
   note_state(mix(hstr(S->op), (uint64_t)e));
}
static void algo()
{
   Vs v = several(g->below(14)), w = g->below(3) ? several(v.size()) : v;
   V x = some(), y = some();
   Key key = {x.key};
   size_t k = g->below((unsigned)w.size() + 1), q = k + g->below((unsigned)(w.size() - k) + 1);
   auto isx = [&](V a) { return a.key == x.key; };
   Vs keys(v);
   struct Ks { std::vector<Key> k; } ks;
   for (size_t i = 0; i < w.size(); ++i)
   {
      Key t = {w[i].key};
      ks.k.push_back(t);
   }
   const Key *kb = ks.k.data();
   switch (g->below(16))
   {
   case 0:
   {
      Arr<EQ> a(v);
      op("find");
      number(lib([&] { return ttl::find(a.begin(), a.end(), key); }) - a.begin(), std::find_if(v.begin(), v.end(), isx) - v.begin());
      op("count");
      number(lib([&] { return ttl::count(a.begin(), a.end(), key); }), std::count_if(v.begin(), v.end(), isx));
      op("search_n");
      int n = (int)g->below(4);
      number(lib([&] { return ttl::search_n(a.begin(), a.end(), n, key); }) - a.begin(), std::search_n(v.begin(), v.end(), n, x, eqk) - v.begin());
      op("adjacent_find");
      number(lib([&] { return ttl::adjacent_find(a.begin(), a.end()); }) - a.begin(), std::adjacent_find(v.begin(), v.end(), eqk) - v.begin());
      break;
   }
   case 1:
   {
      Arr<0> a(v);
      op("find_if");
      number(lib([&] { return ttl::find_if(a.begin(), a.end(), Odd(0)); }) - a.begin(), std::find_if(v.begin(), v.end(), oddk) - v.begin());
      op("find_if_not");
      number(lib([&] { return ttl::find_if_not(a.begin(), a.end(), Odd(0)); }) - a.begin(), std::find_if_not(v.begin(), v.end(), oddk) - v.begin());
      op("count_if");
      number(lib([&] { return ttl::count_if(a.begin(), a.end(), Odd(0)); }), std::count_if(v.begin(), v.end(), oddk));
      op("all_of any_of none_of");
      number(lib([&] { return ttl::all_of(a.begin(), a.end(), Odd(0)) + 2 * ttl::any_of(a.begin(), a.end(), Odd(0)) + 4 * ttl::none_of(a.begin(), a.end(), Odd(0)); }),
             std::all_of(v.begin(), v.end(), oddk) + 2 * std::any_of(v.begin(), v.end(), oddk) + 4 * std::none_of(v.begin(), v.end(), oddk));
      op("for_each");
      Odd o(0);
      number(lib([&] { return ttl::for_each(a.begin(), a.end(), o).calls; }), (long long)v.size());
      break;
   }
   case 2:
   {
      Arr<EQ> a(v);
      op("search");
      auto eq = eqk;
      number(lib([&] { return ttl::search(a.begin(), a.end(), kb + k, kb + q); }) - a.begin(), std::search(v.begin(), v.end(), w.begin() + k, w.begin() + q, eq) - v.begin());
      op("equal");
      number(lib([&] { return ttl::equal(a.begin(), a.end(), kb); }), std::equal(v.begin(), v.end(), w.begin(), eq));
      number(lib([&] { return ttl::equal(a.begin(), a.end(), kb + k, kb + q); }), std::equal(v.begin(), v.end(), w.begin() + k, w.begin() + q, eq));
      op("mismatch");
      number(lib([&] { return ttl::mismatch(a.begin(), a.end(), kb).first; }) - a.begin(), std::mismatch(v.begin(), v.end(), w.begin(), eq).first - v.begin());
      number(lib([&] { return ttl::mismatch(a.begin(), a.end(), kb + k, kb + q).first; }) - a.begin(), std::mismatch(v.begin(), v.end(), w.begin() + k, w.begin() + q, eq).first - v.begin());
      break;
   }
   case 3:
   {
      Arr<0> a(v);
      Arr<ASG> b(w);
      op("search(pred)");
      number(lib([&] { return ttl::search(a.begin(), a.end(), b.begin() + k, b.begin() + q, Half(0)); }) - a.begin(), std::search(v.begin(), v.end(), w.begin() + k, w.begin() + q, halfeq) - v.begin());
      op("equal(pred)");
      number(lib([&] { return ttl::equal(a.begin(), a.end(), b.begin(), Half(0)); }), std::equal(v.begin(), v.end(), w.begin(), halfeq));
      number(lib([&] { return ttl::equal(a.begin(), a.end(), b.begin() + k, b.begin() + q, Half(0)); }), std::equal(v.begin(), v.end(), w.begin() + k, w.begin() + q, halfeq));
      op("mismatch(pred)");
      number(lib([&] { return ttl::mismatch(a.begin(), a.end(), b.begin(), Half(0)).second; }) - b.begin(), std::mismatch(v.begin(), v.end(), w.begin(), halfeq).second - w.begin());
      number(lib([&] { return ttl::mismatch(a.begin(), a.end(), b.begin() + k, b.begin() + q, Half(0)).second; }) - b.begin(), std::mismatch(v.begin(), v.end(), w.begin() + k, w.begin() + q, halfeq).second - w.begin());
      op("adjacent_find(pred)");
      number(lib([&] { return ttl::adjacent_find(a.begin(), a.end(), Half(0)); }) - a.begin(), std::adjacent_find(v.begin(), v.end(), halfeq) - v.begin());
      op("search_n(pred)");
      int n = (int)g->below(4);
      Need<ASG> t(x);
      number(lib([&] { return ttl::search_n(a.begin(), a.end(), n, t, Half(0)); }) - a.begin(), std::search_n(v.begin(), v.end(), n, x, halfeq) - v.begin());
      break;
   }
   case 4:
   {
      std::stable_sort(v.begin(), v.end(), ltk);
      Arr<LT> a(v);
      op("lower_bound");
      number(lib([&] { return ttl::lower_bound(a.begin(), a.end(), key); }) - a.begin(), std::lower_bound(v.begin(), v.end(), x, ltk) - v.begin());
      op("upper_bound");
      number(lib([&] { return ttl::upper_bound(a.begin(), a.end(), key); }) - a.begin(), std::upper_bound(v.begin(), v.end(), x, ltk) - v.begin());
      op("binary_search");
      number(lib([&] { return ttl::binary_search(a.begin(), a.end(), key); }), std::binary_search(v.begin(), v.end(), x, ltk));
      op("equal_range");
      auto r = lib([&] { return ttl::equal_range(a.begin(), a.end(), key); });
      auto e = std::equal_range(v.begin(), v.end(), x, ltk);
      number((r.first - a.begin()) * 100 + (r.second - a.begin()), (e.first - v.begin()) * 100 + (e.second - v.begin()));
      break;
   }
   case 5:
   {
      std::stable_sort(v.begin(), v.end(), halflt);
      Arr<0> a(v);
      op("lower_bound(comp)");
      number(lib([&] { return ttl::lower_bound(a.begin(), a.end(), key, HalfLess(0)); }) - a.begin(), std::lower_bound(v.begin(), v.end(), x, halflt) - v.begin());
      op("upper_bound(comp)");
      number(lib([&] { return ttl::upper_bound(a.begin(), a.end(), key, HalfLess(0)); }) - a.begin(), std::upper_bound(v.begin(), v.end(), x, halflt) - v.begin());
      op("binary_search(comp)");
      number(lib([&] { return ttl::binary_search(a.begin(), a.end(), key, HalfLess(0)); }), std::binary_search(v.begin(), v.end(), x, halflt));
      op("equal_range(comp)");
      auto r = lib([&] { return ttl::equal_range(a.begin(), a.end(), key, HalfLess(0)); });
      auto e = std::equal_range(v.begin(), v.end(), x, halflt);
      number((r.first - a.begin()) * 100 + (r.second - a.begin()), (e.first - v.begin()) * 100 + (e.second - v.begin()));
      break;
   }
   case 6:
   {
      if (g->below(2))
         std::stable_sort(v.begin(), v.begin() + g->below((unsigned)v.size() + 1), ltk);
      Arr<LT> a(v);
      op("is_sorted");
      number(lib([&] { return ttl::is_sorted(a.begin(), a.end()); }), std::is_sorted(v.begin(), v.end(), ltk));
      op("is_sorted_until");
      number(lib([&] { return ttl::is_sorted_until(a.begin(), a.end()); }) - a.begin(), std::is_sorted_until(v.begin(), v.end(), ltk) - v.begin());
      op("min_element");
      number(lib([&] { return ttl::min_element(a.begin(), a.end()); }) - a.begin(), std::min_element(v.begin(), v.end(), ltk) - v.begin());
      if (v.empty())
         break;
      op("max_element");
      number(lib([&] { return ttl::max_element(a.begin(), a.end()); })->t.k, std::max_element(v.begin(), v.end(), ltk)->key);
      op("minmax_element");
      auto r = lib([&] { return ttl::minmax_element(a.begin(), a.end()); });
      number(r.first - a.begin(), std::min_element(v.begin(), v.end(), ltk) - v.begin());
      number(r.second->t.k, std::max_element(v.begin(), v.end(), ltk)->key);
      break;
   }
   case 7:
   {
      Need<LT> a(x), b(y);
      op("min max minmax");
      number((&lib([&]() -> const Need<LT> & { return ttl::min(a, b); }) == &a) + 2 * (&lib([&]() -> const Need<LT> & { return ttl::max(a, b); }) == &a), (y.key < x.key ? 0 : 1) + (x.key < y.key ? 0 : 2));
      number(&ttl::minmax(a, b).first == &a, !(y.key < x.key));
      Need<0> c(x), d(y);
      op("min max minmax(comp)");
      HalfLess h(0);
      number((&ttl::min(c, d, h) == &c) + 2 * (&ttl::max(c, d, h) == &c), (halflt(y, x) ? 0 : 1) + (halflt(x, y) ? 0 : 2));
      number(&ttl::minmax(c, d, HalfLess(0)).first == &c, !halflt(y, x));
      break;
   }
   case 8:
   {
      std::stable_sort(v.begin(), v.end(), ltk);
      std::stable_sort(w.begin(), w.end(), ltk);
      Arr<ASG | LT> a(v), b(w), o(several(v.size() + w.size()));
      Vs e(v.size() + w.size());
      std::merge(v.begin(), v.end(), w.begin(), w.end(), e.begin(), ltk);
      op("merge");
      number(lib([&] { return ttl::merge(a.begin(), a.end(), b.begin(), b.end(), o.begin()); }) - o.begin(), (long long)e.size());
      agree(o.vals(), e);
      break;
   }
   case 9:
   {
      Arr<ASG> a(v), b(w);
      Need<ASG> t(x);
      op("fill_n");
      lib([&] { ttl::fill_n(a.begin(), q, t); return 0; });
      std::fill_n(v.begin(), q, x);
      agree(a.vals(), v);
      op("copy_backward");
      lib([&] { ttl::copy_backward(a.begin(), a.begin() + q, b.end()); return 0; });
      std::copy_backward(v.begin(), v.begin() + q, w.end());
      agree(b.vals(), w);
      op("copy_if");
      size_t r = lib([&] { return ttl::copy_if(a.begin(), a.end(), b.begin(), Odd(0)); }) - b.begin();
      number((long long)r, std::copy_if(v.begin(), v.end(), w.begin(), oddk) - w.begin());
      agree(b.vals(), w);
      op("copy");
      lib([&] { return ttl::copy(a.begin() + k, a.begin() + q, b.begin()); });
      std::copy(v.begin() + k, v.begin() + q, w.begin());
      op("copy_n");
      lib([&] { return ttl::copy_n(a.begin(), k, b.begin()); });
      std::copy_n(v.begin(), k, w.begin());
      op("reverse_copy");
      lib([&] { return ttl::reverse_copy(a.begin(), a.begin() + q, b.begin()); });
      std::reverse_copy(v.begin(), v.begin() + q, w.begin());
      agree(b.vals(), w);
      op("fill");
      lib([&] { ttl::fill(a.begin(), a.end(), t); return 0; });
      agree(a.vals(), Vs(v.size(), x));
      break;
   }
   case 10:
   {
      Arr<ASG | EQ> a(v);
      Need<ASG | EQ> n(y);
      op("replace");
      {
         Need<ASG | EQ> o(x);
         lib([&] { ttl::replace(a.begin(), a.end(), o, n); return 0; });
      }
      std::replace_if(v.begin(), v.end(), isx, y);
      agree(a.vals(), v);
      op("remove");
      size_t r = lib([&] { return ttl::remove(a.begin(), a.end(), key); }) - a.begin();
      size_t e = std::remove_if(v.begin(), v.end(), isx) - v.begin();
      number((long long)r, (long long)e);
      Vs got = a.vals();
      got.resize(e);
      v.resize(e);
      agree(got, v);
      break;
   }
   case 11:
   {
      Arr<ASG> a(v);
      Need<ASG> n(y);
      op("replace_if");
      lib([&] { ttl::replace_if(a.begin(), a.end(), Odd(0), n); return 0; });
      std::replace_if(v.begin(), v.end(), oddk, y);
      agree(a.vals(), v);
      op("remove_if");
      size_t r = lib([&] { return ttl::remove_if(a.begin(), a.end(), Odd(0)); }) - a.begin();
      size_t e = std::remove_if(v.begin(), v.end(), oddk) - v.begin();
      number((long long)r, (long long)e);
      Vs got = a.vals();
      got.resize(e);
      v.resize(e);
      agree(got, v);
      break;
   }
   case 12:
   {
      Arr<ASG | EQ> a(v), b(w);
      Need<ASG | EQ> n(y), o(x);
      op("replace_copy");
      number(lib([&] { return ttl::replace_copy(a.begin(), a.end(), b.begin(), o, n); }) - b.begin(), (long long)v.size());
      std::replace_copy_if(v.begin(), v.end(), w.begin(), isx, y);
      agree(b.vals(), w);
      op("remove_copy");
      number(lib([&] { return ttl::remove_copy(a.begin(), a.end(), b.begin(), key); }) - b.begin(), std::remove_copy_if(v.begin(), v.end(), w.begin(), isx) - w.begin());
      agree(b.vals(), w);
      break;
   }
   case 13:
   {
      Arr<ASG> a(v), b(w);
      Need<ASG> n(y);
      op("replace_copy_if");
      number(lib([&] { return ttl::replace_copy_if(a.begin(), a.end(), b.begin(), Odd(0), n); }) - b.begin(), (long long)v.size());
      std::replace_copy_if(v.begin(), v.end(), w.begin(), oddk, y);
      agree(b.vals(), w);
      op("remove_copy_if");
      number(lib([&] { return ttl::remove_copy_if(a.begin(), a.end(), b.begin(), Odd(0)); }) - b.begin(), std::remove_copy_if(v.begin(), v.end(), w.begin(), oddk) - w.begin());
      agree(b.vals(), w);
      break;
   }
   case 14:
   {
      Arr<ASG> a(v), b(w);
      op("swap_ranges");
      number(lib([&] { return ttl::swap_ranges(a.begin(), a.begin() + q, b.begin()); }) - b.begin(), (long long)q);
      std::swap_ranges(v.begin(), v.begin() + q, w.begin());
      agree(a.vals(), v);
      agree(b.vals(), w);
      op("reverse");
      lib([&] { ttl::reverse(a.begin() + k, a.begin() + q); return 0; });
      std::reverse(v.begin() + k, v.begin() + q);
      agree(a.vals(), v);
      if (!v.empty())
      {
         op("iter_swap");
         size_t z = k % v.size();
         lib([&] { ttl::iter_swap(a.begin() + z, a.begin()); return 0; });
         std::swap(v[z], v[0]);
         agree(a.vals(), v);
      }
      break;
   }
   default:
   {
      // generators and operations that change when called
      struct Gen
      {
         unsigned n;
         explicit Gen(unsigned x): n(x) {}
         Gen(const Gen &o): n(o.n) {}
         Need<ASG> operator()() { V t = {(int)(n++ % 7), n}; return Need<ASG>(t); }
      private:
         void operator=(const Gen &);
      };
      struct Op
      {
         unsigned n;
         explicit Op(unsigned x): n(x) {}
         Op(const Op &o): n(o.n) {}
         Need<ASG> operator()(const Need<0> &a) { V t = {a.t.k, n++}; return Need<ASG>(t); }
         Need<ASG> operator()(const Need<0> &a, const Need<ASG> &b) { V t = {a.t.k + b.t.k, n++}; return Need<ASG>(t); }
      private:
         void operator=(const Op &);
      };
      Arr<0> a(v);
      Arr<ASG> b(w);
      op("generate");
      lib([&] { ttl::generate(b.begin(), b.end(), Gen(5)); return 0; });
      for (size_t i = 0; i < w.size(); ++i)
         w[i].key = (int)((5 + i) % 7), w[i].tag = (unsigned)(6 + i);
      agree(b.vals(), w);
      op("generate_n");
      lib([&] { ttl::generate_n(b.begin(), k, Gen(1)); return 0; });
      for (size_t i = 0; i < k; ++i)
         w[i].key = (int)((1 + i) % 7), w[i].tag = (unsigned)(2 + i);
      agree(b.vals(), w);
      op("transform");
      lib([&] { return ttl::transform(a.begin(), a.begin() + q, b.begin(), Op(3)); });
      for (size_t i = 0; i < q; ++i)
         w[i].key = v[i].key, w[i].tag = (unsigned)(3 + i);
      agree(b.vals(), w);
      op("transform(binary)");
      lib([&] { return ttl::transform(a.begin(), a.begin() + q, b.begin(), b.begin(), Op(9)); });
      for (size_t i = 0; i < q; ++i)
         w[i].key += v[i].key, w[i].tag = (unsigned)(9 + i);
      agree(b.vals(), w);
   }
   }
}
static void small()
{
   V x = some(), y = some();
   {
      op("pair");
      typedef ttl::pair<Need<0>, Need<0> > P;
      Need<0> a(x), b(y);
      P p(a, b), q(p);
      P r(ttl::make_pair(a, b));
      number(q.first.t.tg * 3 + r.second.t.tg, x.tag * 3 + y.tag);
      ttl::pair<Need<EQ>, Need<EQ> > e((Need<EQ>(x)), Need<EQ>(y)), f((Need<EQ>(x)), Need<EQ>(x));
      number((e == f) + 2 * (e != f), eqk(x, y) ? 1 : 2);
      ttl::pair<Need<ASG>, Need<ASG> > s((Need<ASG>(x)), Need<ASG>(y)), t((Need<ASG>(y)), Need<ASG>(x));
      s.swap(t);
      number(s.first.t.tg, y.tag);
      s = t;
      number(s.first.t.tg, x.tag);
      ttl::pair<Need<DEF>, Need<DEF> > d;
      number(d.first.t.k, 0);
   }
   {
      op("array");
      Need<0> a(x), b(y);
      ttl::array<Need<0>, 2> c = {{a, b}}, d(c);
      number(d.front().t.tg * 3 + d.back().t.tg + d[1].t.tg, x.tag * 3 + y.tag * 2);
      ttl::array<Need<ASG>, 2> e = {{Need<ASG>(x), Need<ASG>(y)}}, f(e);
      Need<ASG> z(y);
      f.fill(z);
      e.swap(f);
      number(e[0].t.tg * 3 + f[0].t.tg, y.tag * 3 + x.tag);
      e = f;
      number(e[0].t.tg, x.tag);
      ttl::array<Need<EQ>, 2> h = {{Need<EQ>(x), Need<EQ>(y)}}, i = {{Need<EQ>(x), Need<EQ>(x)}};
      number((h == i) + 2 * (h != i), eqk(x, y) ? 1 : 2);
      ttl::array<Need<DEF>, 3> j = ttl::array<Need<DEF>, 3>();
      number(j[2].t.k, 0);
   }
   {
      op("swap");
      Need<ASG> a(x), b(y);
      ttl::swap(a, b);
      number(a.t.tg * 3 + b.t.tg, y.tag * 3 + x.tag);
      Need<ASG> c[2] = {Need<ASG>(x), Need<ASG>(y)};
      number((long long)ttl_countof(c), 2);
   }
   {
      // what the compiler is to evaluate
      op("constant expressions");
#if __cplusplus >= 201103L && !defined(MON_MODE98)
      int v[3] = {0, 0, 0};
      int w[ttl_countof(v)] = {1, 2, 3};
      static_assert(ttl_countof(w) == 3, "");
      number(w[2], 3);
#endif
   }
   live_check(0);
}

// What is written to can be assigned of what is written, and nothing else
struct Out final
{
   int k, from;
   unsigned tag;
   Out(): k(-1), from(0), tag(0) {}
   template<unsigned C> void operator=(const Need<C> &x) { x.t.use("assign"); k = x.t.k; tag = x.t.tg; from = 1; }
   void operator=(const Key &x) { k = x.k; from = 2; }
   struct Made { int k; };
   void operator=(const Made &x) { k = x.k; from = 3; }
   struct Step final
   {
      int k;
      explicit Step(int x): k(x) {}
      Step(const Step &o): k(o.k) {}
      void operator++() { ++k; }
   private:
      void operator=(const Step &);
      void operator++(int);
   };
   void operator=(const Step &x) { k = x.k; from = 4; }
private:
   Out(const Out &);
   void operator=(const Out &);
};
// added to, and assigned what that makes
struct Sum final
{
   unsigned long n;
   explicit Sum(unsigned long x): n(x) {}
   Sum(const Sum &o): n(o.n) {}
   struct More { unsigned long n; };
   Sum &operator=(const More &m) { n = m.n; return *this; }
   Sum &operator=(const Sum &o) = default;
   template<unsigned C> friend More operator+(const Sum &s, const Need<C> &x) { x.t.use("add"); More m = {s.n * 31 + x.t.tg}; return m; }
};
struct Outs
{
   Out o[16];
   struct E { int k, from; unsigned tag; };
   std::vector<E> e;
   Outs(): e(16) { for (int i = 0; i < 16; ++i) e[i].k = -1, e[i].from = 0, e[i].tag = 0; }
   void put(size_t i, V v) { e[i].k = v.key; e[i].tag = v.tag; e[i].from = 1; }
   void put(size_t i, int k, int from) { e[i].k = k; e[i].from = from; }
   void check(Out *end, size_t n)
   {
      S->observations++;
      if (end != o + n)
         fail(SEM, "result", "returns position %ld, expected %zu", (long)(end - o), n);
      for (int i = 0; i < 16; ++i)
         if (o[i].k != e[i].k || o[i].from != e[i].from || o[i].tag != e[i].tag)
            fail(SEM, "output", "element %d is %d of kind %d, expected %d of kind %d", i, o[i].k, o[i].from, e[i].k, e[i].from);
      note_state(mix(mix(hstr(S->op), n), end == o ? 0 : (uint64_t)end[-1].k));
   }
};
static void other()
{
   size_t n = g->below(9);
   Vs v = several(n), w = several(g->below(7));
   V x = some();
   Key key = {x.key}, put = {100 + x.key};
   Outs z;
   switch (g->below(12))
   {
   case 0: case 1:
   {
      Arr<EQ> a(v);
      bool c = g->below(2);
      op(c ? "replace_copy_if to another type" : "replace_copy to another type");
      for (size_t i = 0; i < n; ++i)
         if (c ? oddk(v[i]) : v[i].key == x.key)
            z.put(i, put.k, 2);
         else
            z.put(i, v[i]);
      z.check(c ? lib([&] { return ttl::replace_copy_if(a.begin(), a.end(), z.o, Odd(0), put); }) : lib([&] { return ttl::replace_copy(a.begin(), a.end(), z.o, key, put); }), n);
      break;
   }
   case 2: case 3:
   {
      Arr<EQ> a(v);
      int c = (int)g->below(3);
      size_t j = 0;
      op(c == 0 ? "remove_copy to another type" : c == 1 ? "remove_copy_if to another type" : "copy_if to another type");
      for (size_t i = 0; i < n; ++i)
         if (c == 0 ? v[i].key != x.key : oddk(v[i]) == (c == 2))
            z.put(j++, v[i]);
      z.check(c == 0 ? lib([&] { return ttl::remove_copy(a.begin(), a.end(), z.o, key); }) :
              c == 1 ? lib([&] { return ttl::remove_copy_if(a.begin(), a.end(), z.o, Odd(0)); }) : lib([&] { return ttl::copy_if(a.begin(), a.end(), z.o, Odd(0)); }), j);
      break;
   }
   case 4: case 5:
   {
      Arr<0> a(v);
      int c = (int)g->below(4);
      op(c == 0 ? "copy to another type" : c == 1 ? "copy_n to another type" : c == 2 ? "copy_backward to another type" : "reverse_copy to another type");
      for (size_t i = 0; i < n; ++i)
         z.put(i, v[c == 3 ? n - 1 - i : i]);
      Out *e = c == 0 ? lib([&] { return ttl::copy(a.begin(), a.end(), z.o); }) : c == 1 ? lib([&] { return ttl::copy_n(a.begin(), n, z.o); }) :
               c == 2 ? lib([&] { return ttl::copy_backward(a.begin(), a.end(), z.o + n); }) : lib([&] { return ttl::reverse_copy(a.begin(), a.end(), z.o); });
      z.check(c == 2 ? e + n : e, n);
      break;
   }
   case 6: case 7:
   {
      std::stable_sort(v.begin(), v.end(), ltk);
      std::stable_sort(w.begin(), w.end(), ltk);
      op("merge of two types");
      Arr<LT> a(v);
      Key k[8];
      for (size_t i = 0; i < w.size(); ++i)
         k[i].k = w[i].key;
      size_t i = 0, j = 0;
      while (i < n || j < w.size())
         if (i == n || (j < w.size() && w[j].key < v[i].key))
            z.put(i + j, w[j].key, 2), ++j;
         else
            z.put(i + j, v[i]), ++i;
      const Key *kb = k;
      z.check(lib([&] { return ttl::merge(a.begin(), a.end(), kb, kb + w.size(), z.o); }), n + w.size());
      break;
   }
   case 8:
   {
      struct Unary { Out::Made operator()(const Need<0> &y) { Out::Made m = {y.t.k + 1}; return m; } };
      struct Binary { Out::Made operator()(const Need<0> &y, const Key &q) { Out::Made m = {y.t.k + 8 * q.k}; return m; } };
      Arr<0> a(v);
      Key k[9];
      bool two = g->below(2);
      op(two ? "transform of two types to another" : "transform to another type");
      for (size_t i = 0; i < n; ++i)
      {
         k[i].k = (int)g->below(9);
         z.put(i, two ? v[i].key + 8 * k[i].k : v[i].key + 1, 3);
      }
      const Key *kb = k;
      z.check(two ? lib([&] { return ttl::transform(a.begin(), a.end(), kb, z.o, Binary()); }) : lib([&] { return ttl::transform(a.begin(), a.end(), z.o, Unary()); }), n);
      break;
   }
   case 9:
   {
      struct Gen { int n; Out::Made operator()() { Out::Made m = {n++}; return m; } };
      int c = (int)g->below(4);
      Gen gen = {x.key};
      op(c == 0 ? "fill of another type" : c == 1 ? "fill_n of another type" : c == 2 ? "generate of another type" : "generate_n of another type");
      for (size_t i = 0; i < n; ++i)
         z.put(i, c < 2 ? put.k : x.key + (int)i, c < 2 ? 2 : 3);
      Out *e = z.o + n;
      if (c == 0)
         lib([&] { ttl::fill(z.o, z.o + n, put); return 0; });
      else if (c == 1)
         e = lib([&] { return ttl::fill_n(z.o, n, put); });
      else if (c == 2)
         lib([&] { ttl::generate(z.o, z.o + n, gen); return 0; });
      else
         e = lib([&] { return ttl::generate_n(z.o, n, gen); });
      z.check(e, n);
      break;
   }
   case 10:
      op("iota of another type");
      for (size_t i = 0; i < n; ++i)
         z.put(i, x.key + (int)i, 4);
      lib([&] { ttl::iota(z.o, z.o + n, Out::Step(x.key)); return 0; });
      z.check(z.o + n, n);
      break;
   default:
   {
      op("accumulate of another type");
      Arr<0> a(v);
      unsigned long e = x.tag;
      for (size_t i = 0; i < n; ++i)
         e = e * 31 + v[i].tag;
      number((long long)lib([&] { return ttl::accumulate(a.begin(), a.end(), Sum(x.tag)).n; }), (long long)e);
   }
   }
}

static void the_case(Rng &r, uint64_t c)
{
   g = &r;
   g_tag = 0;
   g_span = 1 + r.below(9);
   switch (c % 24)
   {
   case 0: Seq2<0, VEC>().run(30); break;
   case 1: Seq2<ASG, VEC>().run(30); break;
   case 2: Seq2<DEF, VEC>().run(30); Seq2<ASG | DEF, VEC>().run(30); break;
   case 3: Seq2<EQ, VEC>().run(30); break;
   case 4: Seq2<0, FIX>().run(30); break;
   case 5: Seq2<ASG, FIX>().run(30); break;
   case 6: Seq2<DEF, FIX>().run(30); Seq2<ASG | DEF, FIX>().run(30); break;
   case 7: Seq2<EQ, FIX>().run(30); break;
   case 8: Seq2<0, LIST>().run(40); break;
   case 9: Seq2<LT, LIST>().run(40); break;
   case 10: Seq2<EQ, LIST>().run(40); Seq2<DEF, LIST>().run(20); break;
   case 11: Seq2<ASG, LIST>().run(40); break;
   case 12: Seq2<0, FWD>().run(30); Seq2<ASG, FWD>().run(30); Seq2<EQ, FWD>().run(20); break;
   case 13: Seq2<0, BWD>().run(30); Seq2<ASG, BWD>().run(30); Seq2<EQ, BWD>().run(20); break;
   case 14: Seq2<0, LAZY>().run(30); Seq2<ASG, LAZY>().run(30); break;
   case 15:
      set_case<ttl::set<Need<LT> >, LT>("set<Need<'<'>>");
      set_case<ttl::set<Need<0>, LessK<0> >, 0>("set<Need<>, comp>");
      break;
   case 16:
      map_case<ttl::map<Need<LT>, Need<0> >, LT, 0, true>("map<Need<'<'>, Need<>>");
      map_case<ttl::map<Need<0>, Need<DEF>, LessK<0> >, 0, DEF, true>("map<Need<>, Need<()>, comp>");
      break;
   case 17:
      map_case<ttl::sorted_vector_map<Need<LT>, Need<0> >, LT, 0, true>("sorted_vector_map<Need<'<'>, Need<>>");
      map_case<ttl::sorted_vector_map<Need<0>, Need<DEF | ASG>, LessK<0> >, 0, DEF | ASG, true>("sorted_vector_map<Need<>, Need<()=>, comp>");
      break;
   case 18:
      map_case<ttl::vector_map<Need<EQ>, Need<0> >, EQ, 0, false>("vector_map<Need<==>, Need<>>");
      map_case<ttl::vector_map<Need<EQ>, Need<DEF | ASG> >, EQ, DEF | ASG, false>("vector_map<Need<==>, Need<()=>>");
      break;
   case 19: small(); break;
   default:
      for (int i = 0; i < 6; ++i)
      {
         algo();
         other();
         live_check(0);
      }
   }
}
int main(int argc, char **argv) { return run(argc, argv, "needs", the_case); }
