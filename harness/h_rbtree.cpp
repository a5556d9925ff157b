// Monitored histories over ttl::rbtree, with duplicate keys, and an audit of the
// tree's shape after every operation.
#include "core_impl.hpp"
#include "seq.hpp"
#include "ttl/ttl.hpp"
using namespace mon;

template<class K> struct Desc { bool operator()(const K &a, const K &b) const { return b < a; } };
template<class Cmp> struct Dir { static const int d = 1; };
template<class K> struct Dir<Desc<K> > { static const int d = -1; };

template<class K, class Cmp>
struct Case
{
   typedef ttl::rbtree<K, K, ttl::select_same<K>, Cmp> C;
   typedef typename C::node Node;
   typedef Slot<C> SL;
   enum { NS = 2, DIR = Dir<Cmp>::d };
   Rng &r;
   Keys k;
   SL s[NS];
   size_t maxh;
   Case(Rng &rr): r(rr), k(rr), maxh(0)
   {
      if (r.below(2))
      {
         k.mode = 0;
         k.span = r.range(1, 20);
      }
   }
   size_t all() const { return s[0].m.size() + s[1].m.size(); }
   size_t total() const { return El<K>::tracked ? all() : 0; }
   static bool before(int a, int b) { return DIR > 0 ? a < b : b < a; }
   static size_t lower(const Seq &m, int key)
   {
      size_t i = 0;
      while (i < m.size() && before(m[i].v.key, key))
         ++i;
      return i;
   }
   static size_t upper(const Seq &m, int key)
   {
      size_t i = 0;
      while (i < m.size() && !before(key, m[i].v.key))
         ++i;
      return i;
   }
   // returns the black height, -1 when already reported
   int audit(const ttl::rbnode *n, const ttl::rbnode *parent, unsigned depth, size_t &count, size_t limit)
   {
      if (!n)
         return 0;
      if (++count > limit || depth > 200)
      {
         fail(SEM, "shape", "the tree has more nodes than elements, or a cycle");
         return -1;
      }
      if (depth > maxh)
         maxh = depth;
      if (n->parent != parent)
      {
         fail(SEM, "parent-link", "a node's parent link does not lead to its parent");
         return -1;
      }
      bool red = n->color == ttl::rbnode::RED;
      if (red && ((n->left && n->left->color == ttl::rbnode::RED) || (n->right && n->right->color == ttl::rbnode::RED)))
      {
         fail(SEM, "red-red", "a red node has a red child");
         return -1;
      }
      int a = audit(n->left, n, depth + 1, count, limit);
      int b = a < 0 ? -1 : audit(n->right, n, depth + 1, count, limit);
      if (a < 0 || b < 0)
         return -1;
      if (a != b)
      {
         fail(SEM, "black-height", "paths with %d and %d black nodes", a, b);
         return -1;
      }
      return a + (red ? 0 : 1);
   }
   void observe(int i)
   {
      SL &x = s[i];
      if (!x.c)
         return;
      C &c = *x.c;
      const C &cc = c;
      Seq &m = x.m;
      const Node *root = cc.get_root();
      if (root != cc.get_croot() || root != c.get_root())
         fail(SEM, "root");
      if ((root == 0) != m.empty())
      {
         fail(SEM, "empty", "the tree is %s with %zu elements", root ? "not empty" : "empty", m.size());
         return;
      }
      if (root)
      {
         if (root->color != ttl::rbnode::BLACK)
            fail(SEM, "red-root", "the root is red");
         size_t count = 0;
         maxh = 0;
         if (audit(root, cc.end(), 1, count, m.size()) >= 0)
         {
            if (count != m.size())
               fail(SEM, "node-count", "%zu nodes for %zu elements", count, m.size());
            size_t lim = 0;
            for (size_t n = m.size() + 1; n > 1; n = (n + 1) / 2)
               lim += 2;
            if (maxh > lim)
               fail(SEM, "height", "height %zu for %zu elements", maxh, m.size());
         }
      }
      // in order, both ways
      size_t n = 0;
      const ttl::rbnode *p = root ? ttl::rbtree_base::min_node(root) : cc.end();
      for (; p != cc.end(); p = ttl::rbtree_base::next_node(p), ++n)
      {
         if (n >= m.size())
         {
            fail(SEM, "too-long", "more than %zu elements in order", m.size());
            return;
         }
         const K &d = static_cast<const Node *>(p)->data;
         chk<K>(d, m[n], n, "in order");
         chk_addr(&d, m[n], n);
      }
      S->observations++;
      if (n != m.size())
         fail(SEM, "too-short", "%zu elements in order, expected %zu", n, m.size());
      p = root ? ttl::rbtree_base::max_node(root) : cc.end();
      for (; p != cc.end(); p = ttl::rbtree_base::prev_node(p))
      {
         if (!n)
         {
            fail(SEM, "too-long", "more than %zu elements backwards", m.size());
            return;
         }
         --n;
         chk<K>(static_cast<const Node *>(p)->data, m[n], n, "backwards");
      }
      if (n)
         fail(SEM, "too-short", "%zu elements missing backwards", n);
      if (m.size() > S->max_size)
         S->max_size = m.size();
      x.raw.check();
   }
   void observe_all(int hot = -1)
   {
      for (int i = 0; i < NS; ++i)
         if (hot < 0 || hot == i)
            observe(i);
      live_check(total());
      if (H.lib_blocks != (long)all())
         fail(ALLOC, "blocks", "%ld library blocks alive for %zu elements", H.lib_blocks, all());
      // the shape is part of the state
      uint64_t h = hstr(S->op);
      for (int i = 0; i < NS; ++i)
         if (s[i].c)
            h = shape(mix(h, 77), s[i].c->get_root());
      note_state(h);
   }
   uint64_t shape(uint64_t h, const ttl::rbnode *n)
   {
      if (!n)
         return mix(h, 1);
      h = mix(h, n->color ? 2 : 3);
      h = shape(h, n->left);
      return shape(h, n->right);
   }
   bool is_node(const Node *n, const C &c, Seq &m, size_t at)
   {
      if (at >= m.size())
         return n == c.end();
      return n != c.end() && (const void *)&n->data == m[at].addr;
   }
   void ensure(int i)
   {
      if (s[i].c)
         return;
      void *p = s[i].mem_for_node();
      op("rbtree()", " t%d", i);
      lib([&]{ s[i].c = new(p) C(); return 0; });
      observe_all(i);
   }
   V pick(const Seq &m)
   {
      V v = El<K>::norm(k.v());
      if (!m.empty() && r.below(3))
      {
         v.key = m[r.below(m.size())].v.key;
         unsigned o = r.below(6);
         if (o == 0 && v.key < INT_MAX)
            ++v.key;
         else if (o == 1 && v.key > INT_MIN)
            --v.key;
         v = El<K>::norm(v);
      }
      return v;
   }
   void insert(int i, V v, bool unique, const K *own = 0)
   {
      C &c = *s[i].c;
      Seq &m = s[i].m;
      size_t lo = lower(m, v.key), up = upper(m, v.key);
      Node *n = 0;
      bool added = true;
      uint64_t c0 = S->elem_compare;
      {
         K copy(El<K>::make(v));
         const K &t = own ? *own : copy;
         if (unique)
         {
            ttl::pair<Node *, bool> re = lib([&]{ return c.insert_unique(t); });
            n = re.first;
            added = re.second;
         }
         else
            n = lib([&]{ return c.insert_equal(t); });
      }
      cost(c0, m.size());
      bool expect = !unique || lo == up;
      if (added != expect)
         fail(SEM, "inserted-flag", "reports %d for a key that was%s there", added, lo == up ? " not" : "");
      if (expect)
      {
         m.insert(m.begin() + up, E(v));
         m[up].addr = &n->data;
      }
      else if (!(lo < m.size() && (const void *)&n->data >= (const void *)0))
         return;
      else
      {
         bool ok = false;
         for (size_t q = lo; q < up; ++q)
            ok = ok || (const void *)&n->data == m[q].addr;
         if (!ok)
            fail(SEM, "returned-node", "insert_unique() of a present key does not return its node");
      }
   }
   void cost(uint64_t c0, size_t n)
   {
      unsigned l = 1;
      for (size_t q = n + 1; q > 1; q /= 2)
         ++l;
      if (El<K>::tracked && S->elem_compare - c0 > 24ull * l + 48)
         fail(SEM, "comparisons", "%llu key comparisons with %zu elements", (unsigned long long)(S->elem_compare - c0), n);
   }
   void remove(int i, V v, const K *own = 0)
   {
      C &c = *s[i].c;
      Seq &m = s[i].m;
      size_t lo = lower(m, v.key), up = upper(m, v.key);
      Node *n;
      uint64_t c0 = S->elem_compare;
      {
         K t(El<K>::make(v));
         n = lib([&]{ return c.remove(own ? *own : t); });
      }
      cost(c0, m.size());
      if (lo == up)
      {
         if (n)
            fail(SEM, "removed-missing", "remove() of a key that is not there returned a node");
         return;
      }
      if (!n)
      {
         fail(SEM, "not-removed", "remove() did not find a key that is there");
         return;
      }
      for (size_t q = lo; q < up; ++q)
         if ((const void *)&n->data == m[q].addr)
         {
            if (!El<K>::same(n->data, m[q].v))
               fail(SEM, "content", "the removed node has another value");
            m.erase(m.begin() + q);
            lib([&]{ delete n; return 0; });
            return;
         }
      fail(SEM, "removed-other", "remove() returned a node with another key");
      lib([&]{ delete n; return 0; });
   }
   void lookup(int i)
   {
      C &c = *s[i].c;
      const C &cc = c;
      Seq &m = s[i].m;
      V v = pick(m);
      size_t lo = lower(m, v.key), up = upper(m, v.key);
      K t(El<K>::make(v));
      switch (r.below(5))
      {
      case 0:
      {
         op("find", " %d", v.key);
         Node *n = lib([&]{ return c.find(t); });
         const Node *cn = lib([&]{ return cc.find(t); });
         bool ok = n == cn && (lo == up ? n == c.end() : false);
         for (size_t q = lo; q < up && n != c.end(); ++q)
            ok = ok || (n == cn && (const void *)&n->data == m[q].addr);
         if (!ok)
            fail(SEM, "find", "does not denote an element with the key (%zu of them)", up - lo);
         break;
      }
      case 1:
      {
         op("count", " %d", v.key);
         size_t n = lib([&]{ return cc.count(t); });
         if (n != up - lo)
            fail(SEM, "count", "count() is %zu, expected %zu", n, up - lo);
         break;
      }
      case 2:
      {
         op("lower_bound", " %d", v.key);
         if (!is_node(lib([&]{ return c.lower_bound(t); }), c, m, lo) || !is_node(lib([&]{ return cc.lower_bound(t); }), cc, m, lo))
            fail(SEM, "lower_bound", "does not denote element %zu of %zu", lo, m.size());
         break;
      }
      case 3:
      {
         op("upper_bound", " %d", v.key);
         if (!is_node(lib([&]{ return c.upper_bound(t); }), c, m, up) || !is_node(lib([&]{ return cc.upper_bound(t); }), cc, m, up))
            fail(SEM, "upper_bound", "does not denote element %zu of %zu", up, m.size());
         break;
      }
      default:
      {
         op("equal_range", " %d", v.key);
         ttl::pair<Node *, Node *> a = lib([&]{ return c.equal_range(t); });
         ttl::pair<const Node *, const Node *> b = lib([&]{ return cc.equal_range(t); });
         if (!is_node(a.first, c, m, lo) || !is_node(b.first, cc, m, lo) || !is_node(a.second, c, m, up) || !is_node(b.second, cc, m, up))
            fail(SEM, "equal_range", "does not denote elements [%zu,%zu) of %zu", lo, up, m.size());
      }
      }
   }
   void assign(int i, int j)
   {
      op(i == j ? "assign(self)" : "assign", " t%d (%zu) = t%d (%zu)", i, s[i].m.size(), j, s[j].m.size());
      C &c = *s[i].c;
      const C &o = *s[j].c;
      lib([&]{ c.assign(o); return 0; });
      mcopy(s[i].m, s[j].m);
   }
   void step()
   {
      int i = (int)r.below(NS);
      ensure(i);
      Seq &m = s[i].m;
      if (is("alias") && !m.empty() && r.below(3) == 0)
      {
         const size_t at = r.below(m.size());
         const V v = m[at].v;
         const K *own = (const K *)m[at].addr;
         S->alias_ops++;
         switch (r.below(4))
         {
         case 0: assign(i, i); break;
         case 1: op("insert_equal(own)", " t%d %d", i, v.key); insert(i, v, false, own); break;
         case 2: op("insert_unique(own)", " t%d %d", i, v.key); insert(i, v, true, own); break;
         case 3: op("remove(own)", " t%d %d", i, v.key); remove(i, v, own); break;
         }
         observe_all(i);
         return;
      }
      switch (r.below(20))
      {
      case 0: case 1: case 2: case 3: case 4: case 5:
      {
         V v = pick(m);
         op("insert_equal", " t%d %d", i, v.key);
         insert(i, v, false);
         break;
      }
      case 6: case 7:
      {
         V v = pick(m);
         op("insert_unique", " t%d %d", i, v.key);
         insert(i, v, true);
         break;
      }
      case 8: case 9: case 10: case 11: case 12: case 13:
      {
         V v = pick(m);
         op("remove", " t%d %d", i, v.key);
         remove(i, v);
         break;
      }
      case 14:
         if (r.below(4))
            return;
         op("clear", " t%d (%zu)", i, m.size());
         lib([&]{ s[i].c->clear(); return 0; });
         m.clear();
         break;
      case 15:
      {
         int j = 1 - i;
         if (r.below(4) == 0)
         {
            j = i;
            S->alias_ops++;
         }
         ensure(j);
         assign(i, j);
         break;
      }
      default:
         for (int q = 0; q < 4; ++q)
            lookup(i);
         return;
      }
      observe_all(i);
   }
   void end()
   {
      for (int i = 0; i < NS; ++i)
      {
         op("~rbtree", " t%d", i);
         s[i].destroy();
         live_check(total());
         if (H.lib_blocks != (long)all())
            fail(ALLOC, "blocks", "%ld library blocks alive for %zu elements", H.lib_blocks, all());
      }
   }
   void run(unsigned ops)
   {
      for (unsigned q = 0; q < ops; ++q)
         step();
      end();
   }
   void large(unsigned n)
   {
      S->large_cases++;
      ensure(0);
      int how = (int)r.below(4);
      op("insert_equal*", " n=%u order=%d", n, how);
      for (unsigned q = 0; q < n; ++q)
      {
         V v = {how == 0 ? (int)q : how == 1 ? -(int)q : how == 2 ? (int)r.below(n / 3 + 1) : (int)r.next(), q + 1};
         insert(0, El<K>::norm(v), r.below(8) == 0);
         if (q % 32 == 0)
            observe_all();
      }
      observe_all();
      ensure(1);
      assign(1, 0);
      observe_all();
      op("remove*", " n=%u", n);
      for (unsigned q = 0; q < n && !s[0].m.empty(); ++q)
      {
         Seq &m = s[0].m;
         size_t at = how == 0 ? 0 : how == 1 ? m.size() - 1 : r.below(m.size());
         if (r.below(10) == 0)
            at = r.below(m.size());
         V v = m[at].v;
         if (r.below(20) == 0)
            v = El<K>::norm(k.v());
         remove(0, v);
         if (q % 8 == 0)
            observe_all(0);
      }
      observe_all();
      end();
   }
   // insertion in one order, removal in another, everything audited in between
   void perms(unsigned n)
   {
      ensure(0);
      std::vector<int> p;
      unsigned dup = r.below(3);
      for (unsigned q = 0; q < n; ++q)
         p.push_back(dup == 0 ? (int)q : (int)(q / (dup + 1)));
      for (int t = 0; t < 12; ++t)
      {
         for (unsigned q = n; q > 1; --q)
            std::swap(p[q - 1], p[r.below(q)]);
         for (unsigned q = 0; q < n; ++q)
         {
            V v = {p[q], q + 1};
            op("insert_equal", " %d", v.key);
            insert(0, v, false);
            observe_all(0);
         }
         for (int q = 0; q < 6; ++q)
            lookup(0);
         for (unsigned q = n; q > 1; --q)
            std::swap(p[q - 1], p[r.below(q)]);
         for (unsigned q = 0; q < n; ++q)
         {
            V v = {p[q], 1};
            op("remove", " %d", v.key);
            remove(0, v);
            observe_all(0);
         }
      }
      end();
   }
};

static void the_case(Rng &r, uint64_t c)
{
   unsigned ops = r.range(20, 150);
   if (c % 9 == 4)
   {
      if (c % 2)
         Case<Fine, ttl::less<Fine> >(r).run(ops);
      else
         Case<Fine, Desc<Fine> >(r).run(ops);
      return;
   }
   if (c % 61 == 50)
   {
      unsigned n = r.below(3) ? r.range(60, 300) : r.range(300, 1500);
      if (c & 1)
         Case<int, ttl::less<int> >(r).large(n);
      else
         Case<Tr, ttl::less<Tr> >(r).large(n);
      return;
   }
   switch (c % 8)
   {
   case 0: case 1: Case<Tr, ttl::less<Tr> >(r).run(ops); break;
   case 2: Case<Tr, ttl::less<Tr> >(r).perms(r.range(2, 14)); break;
   case 3: Case<Fat, ttl::less<Fat> >(r).run(ops); break;
   case 4: Case<int, ttl::less<int> >(r).run(ops); break;
   case 5: Case<Tr, Desc<Tr> >(r).run(ops); break;
   case 6: Case<Wide, ttl::less<Wide> >(r).run(ops); break;
   default: Case<Tr, ttl::less<Tr> >(r).perms(r.range(10, 40)); break;
   }
}
int main(int argc, char **argv) { return run(argc, argv, "rbtree", the_case); }
