// Elements that contain containers of elements of their own type: trees of nodes, each
// with a container of the nodes below, against trees of vectors.
#ifndef MON_NESTED_REC_HPP
#define MON_NESTED_REC_HPP

static void result_b(bool got, bool expect)
{
   if (got != expect)
      fail(SEM, "result", "%d, expected %d", got, expect);
}

struct RM
{
   V v;
   int key; // of an entry
   std::vector<RM> kids;
   RM(): key(0) { v.key = 0; v.tag = 0; }
   explicit RM(V x, int k = 0): v(x), key(k) {}
   size_t count() const
   {
      size_t n = 1;
      for (size_t i = 0; i < kids.size(); ++i)
         n += kids[i].count();
      return n;
   }
   size_t depth() const
   {
      size_t d = 0;
      for (size_t i = 0; i < kids.size(); ++i)
         d = std::max(d, kids[i].depth());
      return d + 1;
   }
   bool operator==(const RM &o) const { return v.key == o.v.key && kids == o.kids; }
};

template<template<class> class C> struct RN
{
   Tr t;
   C<RN> kids;
   RN() {}
   explicit RN(V v): t(El<Tr>::make(v)) {}
   bool operator==(const RN &o) const { return t == o.t && kids == o.kids; }
   bool operator<(const RN &o) const { return t < o.t; }
};
template<class T> using RVec = ttl::vector<T>;
template<class T> using RList = ttl::list<T>;
template<class T> using RFwd = ttl::forward_list<T>;
template<class T> using RBack = ttl::backward_list<T>;
template<class T> using RLazy = ttl::lazy_queue<T>;
template<class T> using RSet = ttl::set<T>;
template<class T> using RMap = ttl::sorted_vector_map<int, T>;
// an in-place container cannot be inside its own element, but belong to it
template<class T> struct RFix
{
   typedef ttl::fixed_vector<T, 6> F;
   typedef T *iterator;
   typedef const T *const_iterator;
   F *p;
   RFix(): p(new F) {}
   RFix(const RFix &o): p(new F(*o.p)) {}
   ~RFix() { delete p; }
   RFix &operator=(const RFix &o)
   {
      *p = *o.p;
      return *this;
   }
   T *begin() { return p->begin(); }
   T *end() { return p->end(); }
   const T *begin() const { return p->cbegin(); }
   const T *end() const { return p->cend(); }
   void push_back(const T &x) { p->push_back(x); }
   T *insert(const T *at, const T &x) { return p->insert(at, x); }
   T *erase(const T *at) { return p->erase(at); }
   void clear() { p->clear(); }
   void swap(RFix &o) { p->swap(*o.p); }
   void resize(size_t n) { p->resize(n); }
   bool operator==(const RFix &o) const { return *p == *o.p; }
};
template<class T> struct Caps<RFix<T> > { enum { back = 1, front = 0, popb = 1, popf = 0, mid = 1, cap = 6, after = 0, eq = 1 }; };

template<template<class> class C> struct Rec
{
   typedef RN<C> N;
   typedef C<N> K;
   typedef Caps<K> CAP;
   enum { NS = 3, MOST = 60, isset = ttl::is_same<K, RSet<N> >::value, ismap = ttl::is_same<K, RMap<N> >::value,
          islist = ttl::is_same<K, RList<N> >::value, isvec = ttl::is_same<K, RVec<N> >::value, isfix = ttl::is_same<K, RFix<N> >::value, islazy = ttl::is_same<K, RLazy<N> >::value,
          seq = !isset && !ismap };
   Rng &r;
   Keys k;
   N *root[NS];
   RM m[NS];
   explicit Rec(Rng &rr): r(rr), k(rr)
   {
      for (int i = 0; i < NS; ++i)
         root[i] = 0;
   }
   template<class It> static const N &of(It it)
   {
      if constexpr (ismap)
         return it->second;
      else
         return *it;
   }
   void look(const N &n, const RM &x)
   {
      if (!El<Tr>::same(n.t, x.v))
      {
         V g = El<Tr>::read(n.t);
         fail(SEM, "content", "a node is (%d,#%u), expected (%d,#%u)", g.key, g.tag, x.v.key, x.v.tag);
         return;
      }
      S->elem_checks++;
      size_t i = 0;
      for (typename K::const_iterator it = n.kids.begin(); it != n.kids.end(); ++it, ++i)
      {
         if (i >= x.kids.size())
         {
            fail(SEM, "too-long", "more than the %zu nodes below", x.kids.size());
            return;
         }
         if constexpr (ismap)
            if (it->first != x.kids[i].key)
               fail(SEM, "content", "the key is %d, expected %d", it->first, x.kids[i].key);
         look(of(it), x.kids[i]);
      }
      if (i < x.kids.size())
         fail(SEM, "too-short", "%zu of the %zu nodes below", i, x.kids.size());
   }
   uint64_t shape(const RM &x)
   {
      uint64_t h = mix(x.kids.size(), isset ? x.v.key : 7);
      for (size_t i = 0; i < x.kids.size(); ++i)
         h = mix(h, shape(x.kids[i]));
      return h;
   }
   void observe()
   {
      size_t total = 0;
      uint64_t h = hstr(S->op);
      for (int i = 0; i < NS; ++i)
         if (root[i])
         {
            look(*root[i], m[i]);
            S->observations++;
            total += m[i].count();
            h = mix(h, shape(m[i]));
            if (m[i].count() > S->max_size)
               S->max_size = m[i].count();
         }
      live_check(total);
      note_state(h);
   }
   // a node somewhere in a tree (of a set: its root, elements do not change there)
   void walk(int i, N *&n, RM *&x, bool anyway = false)
   {
      n = root[i];
      x = &m[i];
      while (x->kids.size() && r.below(4) && (!isset || anyway))
      {
         size_t j = r.below(x->kids.size()), c = j;
         typename K::iterator it = n->kids.begin();
         while (c--)
            ++it;
         if constexpr (ismap)
            n = &it->second;
         else
            n = const_cast<N *>(&*it);
         x = &x->kids[j];
      }
   }
   void put(N *n, RM *x, const N &what, RM y) // y: a copy
   {
      if constexpr (isset)
      {
         size_t at = 0;
         while (at < x->kids.size() && x->kids[at].v.key < y.v.key)
            ++at;
         bool is_new = at == x->kids.size() || x->kids[at].v.key != y.v.key;
         ttl::pair<typename K::iterator, bool> p = lib([&]{ return n->kids.insert(what); });
         result_b(p.second, is_new);
         if (is_new)
            x->kids.insert(x->kids.begin() + at, y);
      }
      else if constexpr (ismap)
      {
         int key = r.below(8);
         size_t at = 0;
         while (at < x->kids.size() && x->kids[at].key < key)
            ++at;
         bool is_new = at == x->kids.size() || x->kids[at].key != key;
         ttl::pair<typename K::iterator, bool> p = lib([&]{ return n->kids.insert(typename K::value_type(key, what)); });
         result_b(p.second, is_new);
         y.key = key;
         if (is_new)
            x->kids.insert(x->kids.begin() + at, y);
      }
      else
      {
         if (x->kids.size() >= CAP::cap)
            return;
         bool front = CAP::front && (!CAP::back || r.below(3) == 0);
         size_t at = front ? 0 : x->kids.size();
         if constexpr (CAP::mid)
            if (r.below(3) == 0)
            {
               at = r.below(x->kids.size() + 1);
               typename K::iterator it = n->kids.begin();
               for (size_t c = at; c--;)
                  ++it;
               typename K::iterator got = lib([&]{ return n->kids.insert(it, what); });
               if (!El<Tr>::same(got->t, y.v))
                  fail(SEM, "result");
               x->kids.insert(x->kids.begin() + at, y);
               return;
            }
         lib([&]
         {
            if constexpr (CAP::front && CAP::back)
               front ? n->kids.push_front(what) : n->kids.push_back(what);
            else if constexpr (CAP::front)
               n->kids.push_front(what);
            else
               n->kids.push_back(what);
            return 0;
         });
         x->kids.insert(x->kids.begin() + at, y);
      }
   }
   void step()
   {
      int i = r.below(NS), j = r.below(3) ? (i + 1 + r.below(NS - 1)) % NS : i;
      if (!root[i] || r.below(30) == 0)
      {
         N *old = root[i];
         root[i] = 0;
         op("~node", "");
         lib([&]{ delete old; return 0; });
         if (root[j] && j != i && r.below(2))
         {
            op("copy", "");
            lib([&]{ root[i] = new N(*root[j]); return 0; });
            m[i] = m[j];
         }
         else
         {
            op("construct", "");
            V v = k.v();
            lib([&]{ root[i] = new N(v); return 0; });
            m[i] = RM(v);
         }
         return;
      }
      if (!root[j])
         j = i;
      N *n, *s;
      RM *x, *y;
      walk(i, n, x);
      const size_t room = MOST > m[i].count() ? MOST - m[i].count() : 0;
      switch (r.below(14))
      {
      case 0:
      case 1:
      case 2:
      {
         if (!room)
            return;
         op("add", " a leaf");
         V v = k.v();
         N leaf(v);
         put(n, x, leaf, RM(v));
         return;
      }
      case 3:
      {
         walk(j, s, y, true);
         if (y->count() > room || y->depth() + m[i].depth() > 40)
            return;
         op("add", " a copy of a subtree of the same=%d", i == j);
         RM z = *y;
         N t(*s);
         put(n, x, t, z);
         return;
      }
      case 4:
      {
         // also of the tree itself: what is added contains what it is added to, or the other way round
         walk(j, s, y, true);
         if (y->count() > room)
            return;
         op("add", " a subtree of the same=%d", i == j);
         RM z = *y;
         put(n, x, *s, z);
         return;
      }
      case 5:
      {
         if (x->kids.empty())
            return;
         size_t at = r.below(x->kids.size());
         if constexpr (isset)
         {
            op("erase", "");
            RM z = x->kids[at];
            typename K::iterator it = n->kids.begin();
            for (size_t c = at; c--;)
               ++it;
            bool own = r.below(2);
            size_t got;
            if (own)
               got = lib([&]{ return n->kids.erase(*it); });
            else
            {
               N t(*it);
               got = lib([&]{ return n->kids.erase(t); });
            }
            result_b(got == 1, true);
         }
         else if constexpr (ismap)
            return;
         else if constexpr (CAP::mid)
         {
            op("erase", "");
            typename K::iterator it = n->kids.begin();
            for (size_t c = at; c--;)
               ++it;
            lib([&]{ return n->kids.erase(it), 0; });
         }
         else
         {
            op("erase_after", "");
            typename K::iterator it = n->kids.before_begin();
            for (size_t c = at; c--;)
               ++it;
            lib([&]{ return n->kids.erase_after(it), 0; });
         }
         x->kids.erase(x->kids.begin() + at);
         return;
      }
      case 6:
         if (r.below(3))
            return;
         op("clear", "");
         lib([&]{ n->kids.clear(); return 0; });
         x->kids.clear();
         return;
      case 7:
         if constexpr (seq)
         {
            if (i == j)
               return;
            walk(j, s, y);
            op("swap", "");
            lib([&]{ n->kids.swap(s->kids); return 0; });
            x->kids.swap(y->kids);
         }
         return;
      case 8:
         if constexpr (!ismap)
         {
            if (i == j)
               return;
            walk(j, s, y, true);
            if (y->count() > room + x->count())
               return;
            op("assign", " %s", r.below(2) ? "the node" : "what is below");
            if (S->op_no & 1)
            {
               lib([&]{ *n = *s; return 0; });
               *x = *y;
            }
            else
            {
               lib([&]{ n->kids = s->kids; return 0; });
               x->kids = y->kids;
            }
         }
         return;
      case 9:
         if constexpr (!ismap)
         {
            walk(i, s, y, true);
            op("assign", " what was below to the whole");
            RM z = *y;
            N t(*s);
            lib([&]{ *root[i] = t; return 0; });
            m[i] = z;
         }
         return;
      case 10:
         if constexpr (CAP::eq && seq)
         {
            walk(j, s, y);
            op("==", "");
            bool e = lib([&]{ return *n == *s; });
            result_b(e, *x == *y);
         }
         return;
      case 11:
         if constexpr (islist)
         {
            walk(j, s, y);
            if (i == j || y->kids.empty())
               return;
            size_t at = r.below(y->kids.size()), to = r.below(x->kids.size() + 1);
            if (m[i].count() + y->kids[at].count() > MOST)
               return;
            op("splice", "");
            typename K::iterator it = s->kids.begin(), pos = n->kids.begin();
            for (size_t c = at; c--;)
               ++it;
            for (size_t c = to; c--;)
               ++pos;
            lib([&]{ n->kids.splice(pos, s->kids, it); return 0; });
            x->kids.insert(x->kids.begin() + to, y->kids[at]);
            y->kids.erase(y->kids.begin() + at);
         }
         else if constexpr (isvec)
         {
            size_t more = r.below(20);
            op("reserve", " %zu more", more);
            lib([&]{ n->kids.reserve(x->kids.size() + more); return 0; });
         }
         else if constexpr (islazy)
         {
            op("cleanup", "");
            lib([&]{ n->kids.cleanup(); return 0; });
         }
         return;
      case 12:
         if constexpr (islist || ttl::is_same<K, RFwd<N> >::value || ttl::is_same<K, RBack<N> >::value)
         {
            op("reverse", "");
            lib([&]{ n->kids.reverse(); return 0; });
            std::reverse(x->kids.begin(), x->kids.end());
         }
         return;
      default:
         if constexpr (isvec || islist || isfix)
         {
            size_t to = r.below(x->kids.size() + 3);
            if (to > x->kids.size() + room || to > CAP::cap)
               return;
            op("resize", " %zu", to);
            lib([&]{ n->kids.resize(to); return 0; });
            x->kids.resize(to);
         }
         return;
      }
   }
   void run_ops(unsigned n)
   {
      while (n--)
      {
         step();
         observe();
      }
      for (int i = 0; i < NS; ++i)
         lib([&]{ delete root[i]; return 0; });
      live_check(0);
   }
};
#endif
