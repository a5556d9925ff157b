// A program of many units, each with its own selection and order of the library's headers:
// objects created by one unit are worked on, looked at and destroyed by the others.
#include "core_impl.hpp"
#include <algorithm>
#include "unit_api.hpp"
using namespace mon;

namespace
{
   void born(const void *p)
   {
      if (!reg_add(p))
         fail(LIFE, "construct-over-live", "element constructed over a live one at %p", p);
      S->elem_ctor++;
   }
   void gone(const void *p)
   {
      if (!reg_del(p))
         fail(LIFE, "destroy-of-dead", "destructor of an element that is not alive at %p", p);
      S->elem_dtor++;
   }
   void used(const void *p)
   {
      if (!p || !reg_has(p))
         fail(LIFE, "use-of-dead", "use of an element that is not alive at %p", p);
      S->elem_compare++;
   }
   void *get(unsigned long n, int array) { return array ? operator new[](n) : operator new(n); }
   void put(void *p, int array)
   {
      if (array)
         operator delete[](p);
      else
         operator delete(p);
   }
}
extern "C" UnitHooks unit_hooks = {born, gone, used, get, put};

namespace
{
   const char *const kinds[] = {"vector", "fixed_vector", "list", "forward_list", "backward_list", "lazy_queue", "map", "set",
                                "vector_map", "sorted_vector_map", "rbtree", "bitset", "array", "algorithm", "vocabulary", "types"};
   bool support[U_KINDS][128];
   int nsupport[U_KINDS];
   int out[256];
   int g_kind;
   Rng *g;
   uint64_t g_units; // which units the case used

   int ask(int unit, int kind, int op, void **obj = 0, void *other = 0, const int *a = 0, int na = 0)
   {
      UnitCall u = {kind, op, obj ? *obj : 0, other, a, na, out};
      g_units = mon::mix(g_units, (uint64_t)unit);
      int n = lib([&] { return unit_table[unit].fn(&u); });
      if (obj)
         *obj = u.obj;
      return n;
   }
   int some_unit(int kind)
   {
      for (;;)
      {
         int u = (int)g->below((unsigned)unit_count);
         if (support[kind][u])
            return u;
      }
   }
   // obj is made, changed or asked by any unit that can
   int call(const char *name, int op, void *&obj, void *other, std::initializer_list<int> args, const int *more = 0, int nmore = 0)
   {
      int a[64], na = 0;
      for (int x : args)
         a[na++] = x;
      for (int i = 0; i < nmore; ++i)
         a[na++] = more[i];
      int u = some_unit(g_kind);
      char t[120] = "";
      for (int i = 0; i < na && strlen(t) < 100; ++i)
         sprintf(t + strlen(t), "%s%d", i ? "," : "", a[i]);
      mon::op(name, " %s(%s) by %s", kinds[g_kind], t, unit_table[u].what);
      int n = ask(u, g_kind, op, &obj, other, a, na);
      if (n < 0)
         fail(SEM, "refused", "%s knows no %s", unit_table[u].what, name);
      return n;
   }
   void expect(const char *what, int got, int want)
   {
      S->observations++;
      if (got != want)
         fail(SEM, what, "is %d, expected %d", got, want);
   }

   struct Model
   {
      int n;
      int a[200], b[200];
      Model(): n(0) {}
      void insert(int at, int x, int y = 0)
      {
         for (int i = n++; i > at; --i)
            a[i] = a[i - 1], b[i] = b[i - 1];
         a[at] = x, b[at] = y;
      }
      void erase(int at)
      {
         for (--n; at < n; ++at)
            a[at] = a[at + 1], b[at] = b[at + 1];
      }
      int find(int x) const
      {
         int i = 0;
         while (i < n && a[i] != x)
            ++i;
         return i;
      }
      int from(int x) const // elements not less than x
      {
         int c = 0;
         for (int i = 0; i < n; ++i)
            c += a[i] >= x;
         return c;
      }
      void put_sorted(int x, int y)
      {
         insert(n - from(x), x, y);
      }
      bool operator==(const Model &o) const
      {
         if (n != o.n)
            return false;
         for (int i = 0; i < n; ++i)
            if (a[i] != o.a[i] || b[i] != o.b[i])
               return false;
         return true;
      }
      bool sorted() const { return std::is_sorted(a, a + n); }
   };
   bool pairs() { return g_kind == U_MAP || g_kind == U_VECTOR_MAP || g_kind == U_SORTED_VECTOR_MAP; }
   bool seqs() { return g_kind <= U_LAZY_QUEUE; }
   bool arrayish() { return g_kind == U_VECTOR || g_kind == U_FIXED_VECTOR; }
   bool tree() { return g_kind == U_MAP || g_kind == U_SET || g_kind == U_RBTREE || g_kind == U_SORTED_VECTOR_MAP; }

   struct Obj { void *p; Model m; };

   void look(Obj &o)
   {
      int n = call("dump", O_DUMP, o.p, 0, {});
      int w = pairs() ? 2 : 1;
      S->elem_checks += (uint64_t)n;
      expect("elements", n, o.m.n * w);
      uint64_t h = (uint64_t)g_kind;
      for (int i = 0; i < o.m.n; ++i)
      {
         expect("element", out[i * w], o.m.a[i]);
         if (w == 2)
            expect("value", out[i * 2 + 1], o.m.b[i]);
         h = mon::mix(h, (uint64_t)o.m.a[i] * 131 + (uint64_t)o.m.b[i]);
      }
      note_state(mon::mix(h, g_units));
   }
   void look_more(Obj &o)
   {
      Model &m = o.m;
      if ((arrayish() || g_kind == U_LIST || g_kind == U_SET || g_kind == U_BITSET || g_kind == U_ARRAY) && g_kind != U_BITSET && g->chance(1, 2))
      {
         int n = call("dump_back", O_DUMP_BACK, o.p, 0, {});
         expect("elements", n, m.n);
         for (int i = 0; i < n; ++i)
            expect("element", out[i], m.a[n - 1 - i]);
         return;
      }
      if (g_kind == U_RBTREE)
         return;
      int n = call("state", O_STATE, o.p, 0, {});
      if (g_kind == U_BITSET)
      {
         expect("count", out[0], m.n);
         expect("any", out[1], m.n > 0);
         expect("none", out[2], m.n == 0);
         expect("all", out[3], m.n == 70);
         return;
      }
      if (g_kind == U_ARRAY)
      {
         expect("size", out[0], 7);
         expect("empty", out[1], 0);
         expect("front", out[2], m.a[0]);
         expect("back", out[3], m.a[6]);
         return;
      }
      expect("empty", out[0], m.n == 0);
      if (seqs() && g_kind >= U_FORWARD_LIST)
         expect("front", out[1], m.n ? m.a[0] : 0);
      else if (n > 1)
         expect("size", out[1], m.n);
      if (arrayish() || g_kind == U_LIST)
      {
         expect("front", out[2], m.n ? m.a[0] : 0);
         expect("back", out[3], m.n ? m.a[m.n - 1] : 0);
      }
      if (arrayish())
      {
         expect("middle", out[4], m.n ? m.a[m.n / 2] : 0);
         expect("capacity", out[5], 1);
      }
   }
   int value() { return g->range(1, 9); }

   void sequence(Obj &o, Obj &p)
   {
      Model &m = o.m;
      const int room = g_kind == U_FIXED_VECTOR ? 12 - m.n : std::max(0, 60 - m.n);
      int v[12], k = g->range(0, std::min(4, room)), at = g->range(0, m.n), del = g->range(0, std::min(3, m.n - at)), x = value();
      for (int i = 0; i < 12; ++i)
         v[i] = value();
      const bool sl = g_kind >= U_FORWARD_LIST;
      switch (g->below(18))
      {
      case 0: case 1:
         if (g_kind == U_FORWARD_LIST || !room)
            return;
         call("push_back", O_PUSH_BACK, o.p, 0, {x});
         m.insert(m.n, x);
         break;
      case 2:
         if (arrayish() || !room)
            return;
         call("push_front", O_PUSH_FRONT, o.p, 0, {x});
         m.insert(0, x);
         break;
      case 3:
         if (sl || !m.n)
            return;
         call("pop_back", O_POP_BACK, o.p, 0, {});
         m.erase(m.n - 1);
         break;
      case 4:
         if (arrayish() || !m.n)
            return;
         call("pop_front", O_POP_FRONT, o.p, 0, {});
         m.erase(0);
         break;
      case 5: case 6:
         call("insert(range)", O_INSERT, o.p, 0, {at}, v, k);
         for (int i = 0; i < k; ++i)
            m.insert(at + i, v[i]);
         if (arrayish())
            expect("position", out[0], at);
         break;
      case 7:
         call("insert(n)", O_INSERT_N, o.p, 0, {at, k, x});
         for (int i = 0; i < k; ++i)
            m.insert(at, x);
         if (arrayish())
            expect("position", out[0], at);
         break;
      case 8: case 9:
         call("erase", O_ERASE, o.p, 0, {at, del});
         for (int i = 0; i < del; ++i)
            m.erase(at);
         if (arrayish())
            expect("position", out[0], at);
         break;
      case 10:
      {
         if (sl)
            return;
         int to = g->range(0, std::min(m.n + room, m.n + 4)), w = g->chance(1, 2) ? x : 0;
         call("resize", O_RESIZE, o.p, 0, {to, w});
         while (m.n > to)
            m.erase(m.n - 1);
         while (m.n < to)
            m.insert(m.n, w);
         break;
      }
      case 11:
         if (g_kind == U_LAZY_QUEUE)
            return;
         k = g->range(0, 8);
         if (g->chance(1, 2))
         {
            call("assign(n)", O_ASSIGN_N, o.p, 0, {k, x});
            for (m.n = 0; m.n < k;)
               m.insert(m.n, x);
         }
         else
         {
            call("assign(range)", O_ASSIGN_RANGE, o.p, 0, {}, v, k);
            for (m.n = 0; m.n < k;)
               m.insert(m.n, v[m.n]);
         }
         break;
      case 12:
         if (g->chance(1, 3))
         {
            call("clear", O_CLEAR, o.p, 0, {});
            m.n = 0;
         }
         break;
      case 13:
         call("operator=", O_ASSIGN, o.p, p.p, {});
         m = p.m;
         break;
      case 14:
         call("swap", O_SWAP, o.p, p.p, {});
         std::swap(m, p.m);
         break;
      case 15:
         if (g_kind == U_LAZY_QUEUE)
            return;
         call("operator==", O_EQ, o.p, p.p, {});
         expect("equal", out[0], m == p.m);
         break;
      case 16:
         if (g_kind == U_LIST || g_kind == U_FORWARD_LIST || g_kind == U_BACKWARD_LIST)
         {
            call("reverse", O_REVERSE, o.p, 0, {});
            std::reverse(m.a, m.a + m.n);
         }
         else if (g_kind == U_LAZY_QUEUE)
            call("cleanup", O_ROLL, o.p, 0, {});
         break;
      case 17:
         if ((g_kind == U_LIST || g_kind == U_FORWARD_LIST) && p.m.n + m.n <= 60)
         {
            call("splice", O_SPLICE, o.p, p.p, {at});
            for (int i = 0; i < p.m.n; ++i)
               m.insert(at + i, p.m.a[i]);
            p.m.n = 0;
         }
         break;
      }
      if (g_kind != U_LIST || !g->chance(1, 5))
         return;
      switch (g->below(3))
      {
      case 0:
         x = g->chance(1, 3) ? 0 : x;
         call("remove", O_REMOVE, o.p, 0, {x});
         for (int i = m.n; i-- > 0;)
            if (x ? m.a[i] == x : m.a[i] & 1)
               m.erase(i);
         break;
      case 1:
         call("unique", O_UNIQUE, o.p, 0, {});
         m.n = (int)(std::unique(m.a, m.a + m.n) - m.a);
         break;
      case 2:
         if (m.sorted() && p.m.sorted() && m.n + p.m.n <= 60)
         {
            int t[200];
            std::merge(m.a, m.a + m.n, p.m.a, p.m.a + p.m.n, t);
            call("merge", O_MERGE, o.p, p.p, {});
            m.n += p.m.n;
            p.m.n = 0;
            std::copy(t, t + m.n, m.a);
         }
         break;
      }
   }
   void keyed(Obj &o, Obj &p)
   {
      Model &m = o.m;
      int k = g->range(0, 24), v = value(), at = m.find(k);
      const bool has = at < m.n;
      switch (g->below(13))
      {
      case 0: case 1: case 2: case 3:
         call("insert", O_PUT, o.p, 0, {k, v});
         expect("inserted", out[0], !has);
         if (!has)
            g_kind == U_VECTOR_MAP ? m.insert(m.n, k, v) : m.put_sorted(k, pairs() ? v : 0);
         break;
      case 4:
         if (!pairs())
            return;
         call("operator[]", O_INDEX, o.p, 0, {k, v});
         if (has)
            m.b[at] = v;
         else
            g_kind == U_VECTOR_MAP ? m.insert(m.n, k, v) : m.put_sorted(k, v);
         break;
      case 5: case 6:
         if (g_kind == U_SORTED_VECTOR_MAP)
            return;
         call("erase", O_DROP, o.p, 0, {k});
         expect("erased", out[0], has);
         if (has)
            m.erase(at);
         break;
      case 7:
         call("find", O_FIND, o.p, 0, {k});
         expect("found", out[0], has);
         break;
      case 8:
         if (g_kind == U_RBTREE)
            return;
         call("count", O_COUNT, o.p, 0, {k});
         expect("count", out[0], has);
         break;
      case 9:
         if (g_kind == U_VECTOR_MAP || g_kind == U_RBTREE)
            return;
         call("lower_bound", O_LOWER, o.p, 0, {k});
         expect("elements from there", out[0], m.from(k));
         call("upper_bound", O_UPPER, o.p, 0, {k});
         expect("elements from there", out[0], m.from(k + 1));
         break;
      case 10:
         if (g->chance(1, 4))
         {
            call("clear", O_CLEAR, o.p, 0, {});
            m.n = 0;
         }
         break;
      case 11:
         if (g_kind == U_VECTOR_MAP)
         {
            call("swap", O_SWAP, o.p, p.p, {});
            std::swap(m, p.m);
         }
         else if (g_kind != U_SORTED_VECTOR_MAP)
         {
            call("operator=", O_ASSIGN, o.p, p.p, {});
            m = p.m;
         }
         break;
      case 12:
         if (g_kind == U_MAP || g_kind == U_SET)
         {
            call("operator==", O_EQ, o.p, p.p, {});
            expect("equal", out[0], m == p.m);
         }
         break;
      }
   }
   void bits(Obj &o, Obj &p)
   {
      bool a[70] = {}, b[70] = {}, r[70] = {};
      for (int i = 0; i < o.m.n; ++i)
         a[o.m.a[i]] = true;
      for (int i = 0; i < p.m.n; ++i)
         b[p.m.a[i]] = true;
      int x = g->range(0, 69), on = (int)g->below(2), w = (int)g->below(10);
      static const int ops[] = {O_SET, O_FLIP, O_LEFT, O_RIGHT, O_AND, O_OR, O_XOR, O_ASSIGN, O_CLEAR, O_EQ};
      static const char *const names[] = {"set", "flip", "<<=", ">>=", "&=", "|=", "^=", "operator=", "reset", "operator=="};
      if (w == 8 && g->chance(2, 3))
         w = 0;
      if (w == 1 && g->chance(1, 4))
         x = -1;
      call(names[w], ops[w], o.p, p.p, {x, on});
      if (w == 9)
         return expect("equal", out[0], o.m == p.m);
      for (int i = 0; i < 70; ++i)
         r[i] = w == 0 ? (i == x ? on : a[i]) : w == 1 ? (i == x || x < 0 ? !a[i] : a[i]) : w == 2 ? i >= x && a[i - x] : w == 3 ? i + x < 70 && a[i + x]
              : w == 4 ? a[i] && b[i] : w == 5 ? a[i] || b[i] : w == 6 ? a[i] != b[i] : w == 7 ? b[i] : false;
      o.m.n = 0;
      for (int i = 0; i < 70; ++i)
         if (r[i])
            o.m.insert(o.m.n, i);
   }
   void array(Obj &o, Obj &p)
   {
      int x = value(), i = (int)g->below(7);
      switch (g->below(5))
      {
      case 0:
         call("fill", O_FILL, o.p, 0, {x});
         std::fill(o.m.a, o.m.a + 7, x);
         break;
      case 1:
         call("operator[]", O_INDEX, o.p, 0, {i, x});
         o.m.a[i] = x;
         break;
      case 2:
         call("operator=", O_ASSIGN, o.p, p.p, {});
         o.m = p.m;
         break;
      case 3:
         call("swap", O_SWAP, o.p, p.p, {});
         std::swap(o.m, p.m);
         break;
      case 4:
         call("operator==", O_EQ, o.p, p.p, {});
         expect("equal", out[0], o.m == p.m);
         break;
      }
   }
   void objects()
   {
      static int size[U_KINDS];
      const int units = 1 + (int)g->below(3);
      for (int i = 0; i < units; ++i) // all of them over many cases
      {
         int u = some_unit(g_kind);
         ask(u, g_kind, O_SIZEOF);
         if (!size[g_kind])
            size[g_kind] = out[0];
         mon::op("sizeof", " %s in %s", kinds[g_kind], unit_table[u].what);
         expect("sizeof", out[0], size[g_kind]);
      }
      Obj o[3];
      for (int i = 0; i < 3; ++i)
      {
         o[i].p = 0;
         Model &m = o[i].m;
         if (g_kind == U_ARRAY)
            for (m.n = 0; m.n < 7;)
               m.insert(m.n, 0);
         if (i && g_kind != U_RBTREE && g->chance(1, 3))
         {
            call("copy", O_NEW_COPY, o[i].p, o[i - 1].p, {});
            m = o[i - 1].m;
         }
         else if (seqs() && g_kind != U_LAZY_QUEUE && g->chance(1, 2))
         {
            int n = (int)g->below(9);
            for (m.n = 0; m.n < n;)
               m.insert(m.n, value());
            if (g->chance(1, 2))
               std::sort(m.a, m.a + n);
            call("make from", O_NEW_RANGE, o[i].p, 0, {}, m.a, n);
         }
         else
            call("make", O_NEW, o[i].p, 0, {});
         look(o[i]);
      }
      const int ops = 6 + (int)g->below(40);
      for (int i = 0; i < ops; ++i)
      {
         int x = (int)g->below(3), y = (x + 1 + (int)g->below(2)) % 3;
         if (seqs())
            sequence(o[x], o[y]);
         else if (g_kind == U_BITSET)
            bits(o[x], o[y]);
         else if (g_kind == U_ARRAY)
            array(o[x], o[y]);
         else
            keyed(o[x], o[y]);
         look(o[x]);
         if (g->chance(1, 3))
            look(o[y]);
         if (g->chance(1, 2))
            look_more(o[x]);
         if (pairs() || (seqs()) || g_kind == U_ARRAY)
            live_check((size_t)(o[0].m.n + o[1].m.n + o[2].m.n));
      }
      for (int i = 0; i < 3; ++i)
      {
         call("destroy", O_DELETE, o[i].p, 0, {});
         o[i].p = 0;
      }
      live_check(0);
   }

   struct Want
   {
      int n, v[256];
      Want(): n(0) {}
      Want &add(long x) { v[n++] = (int)x; return *this; }
      Want &all(const int *f, const int *l) { for (; f != l; ++f) add(*f); return *this; }
   };
   bool odd(int x) { return x & 1; }
   bool near(int a, int b) { return a == b || a == b + 1; }
   void algorithms()
   {
      int a[64], n = g->range(2, 30), x = g->range(0, 6), w = (int)g->below(41), hi = g->chance(1, 2) ? 3 : 6;
      int *c = a + 2, *e = c + n;
      a[0] = w;
      a[1] = x;
      for (int i = 0; i < n; ++i)
         c[i] = g->range(0, hi);
      if (w == 32 || w == 38 || (w == 33 && g->chance(1, 2)))
         std::sort(c, e);
      if (w == 34)
         std::sort(c, c + n / 2), std::sort(c + n / 2, e);
      int f[64], b[64], *l = f + n;
      std::copy(c, e, f);
      std::copy(c, e, b);
      Want W;
      const int h = n / 2;
      switch (w)
      {
      case 0: W.add(std::find(c, e, x) - c); break;
      case 1: W.add(std::find_if(c, e, odd) - c); break;
      case 2: W.add(std::find_if_not(c, e, odd) - c); break;
      case 3: W.add(std::count(c, e, x)); break;
      case 4: W.add(std::count_if(c, e, odd)); break;
      case 5: W.add(std::all_of(c, e, odd)).add(std::any_of(c, e, odd)).add(std::none_of(c, e, odd)); break;
      case 6: W.add(std::search(c, e, c + h, e) - c).add(std::search(c, e, c + h, e, near) - c); break;
      case 7: W.add(std::search_n(c, e, 2, x) - c).add(std::search_n(c, e, 2, x, near) - c); break;
      case 8: W.add(std::adjacent_find(c, e) - c).add(std::adjacent_find(c, e, std::greater<int>()) - c); break;
      case 9: W.add(1); b[h] ^= 1; W.add(0).add(std::equal(c, e, b, near)).add(0); break;
      case 10: { int s = 0; for (int i = 0; i < n; ++i) s += c[i]; W.add(s); } break;
      case 11: std::fill(f, l, x); W.all(f, l); break;
      case 12: std::fill_n(f, h, x); W.all(f, l); break;
      case 13: std::copy(c, e - h, f + h); W.all(f, l); break;
      case 14: std::copy_backward(c, e - h, l); W.all(f, l); break;
      case 15: for (int i = 0; i < n; ++i) if (odd(c[i])) W.add(c[i]); break;
      case 16: std::copy_n(c, h, f + h); W.all(f, l); break;
      case 17: for (int i = 0; i < n; ++i) W.add(x + i); break;
      case 18: for (int i = 0; i < h; ++i) f[i] = x + i; W.all(f, l); break;
      case 19: case 21: for (int i = 0; i < n; ++i) W.add(c[i] == x ? -5 : c[i]); break;
      case 20: case 22: for (int i = 0; i < n; ++i) W.add(odd(c[i]) ? x : c[i]); break;
      case 23: case 25: for (int i = 0; i < n; ++i) if (c[i] != x) W.add(c[i]); break;
      case 24: case 26: for (int i = 0; i < n; ++i) if (!odd(c[i])) W.add(c[i]); break;
      case 27: case 28: for (int i = 0; i < n; ++i) W.add(2 * c[i]); break;
      case 29: case 35: std::reverse(f, l); W.all(f, l); break;
      case 30: for (int i = 0; i < 2; ++i) i ? W.add(std::max(c[0], x)).add(std::min(c[0], x)) : W.add(std::min(c[0], x)).add(std::max(c[0], x)); break;
      case 31: W.add(std::min_element(c, e) - c).add(std::max_element(c, e) - c); break;
      case 32: W.add(std::lower_bound(c, e, x) - c).add(std::upper_bound(c, e, x) - c).add(std::binary_search(c, e, x)); break;
      case 33: W.add(std::is_sorted(c, e)).add(std::is_sorted_until(c, e) - c); break;
      case 34: { int t[64]; W.all(t, std::merge(c, c + h, c + h, e, t)); } break;
      case 36: std::swap_ranges(f, f + h, b + h); W.all(f, l).all(b, b + n); break;
      case 37: W.add(h).add(h); break;
      case 38: W.add(std::lower_bound(c, e, x) - c).add(std::upper_bound(c, e, x) - c); break;
      case 39: W.add(std::min(c[0], x)).add(std::max(c[0], x)); break;
      case 40: W.add(*std::min_element(c, e)).add(*std::max_element(c, e)); break;
      }
      int got = -1, u = 0;
      while (got < 0)
         got = ask(u = some_unit(U_ALGORITHM), U_ALGORITHM, O_RUN, 0, 0, a, n + 2);
      mon::op("algorithm", " %d on %d elements, value %d, by %s", w, n, x, unit_table[u].what);
      expect("results", got, W.n);
      uint64_t s = (uint64_t)w;
      for (int i = 0; i < got; ++i)
         expect("result", out[i], W.v[i]), s = mon::mix(s, (uint64_t)out[i]);
      note_state(mon::mix(s, (uint64_t)u));
   }
   void vocabulary()
   {
      int a[64], n = g->range(1, 20), x = g->range(0, 6), w = (int)g->below(6);
      int *c = a + 2;
      a[0] = w;
      a[1] = x;
      for (int i = 0; i < n; ++i)
         c[i] = g->range(0, 6);
      Want W;
      switch (w)
      {
      case 0: { int s = x; for (int i = 0; i < n; ++i) s += c[i]; W.add(s); } break;
      case 1: for (int i = 0; i < n; ++i) W.add(x + i); break;
      case 2: W.add(c[0] < x).add(c[0] > x).add(c[0] == x).add(c[0] != x); break;
      case 3: W.add(c[0] + 1).add(x).add(c[0]).add(0).add(c[0]); break;
      case 4: W.add(x).add(c[0]); break;
      case 5: W.add(7).add(n).add(c[n - 1]); break;
      }
      int got = -1, u = 0;
      while (got < 0)
         got = ask(u = some_unit(U_VOCAB), U_VOCAB, O_RUN, 0, 0, a, n + 2);
      mon::op("vocabulary", " %d on %d elements, value %d, by %s", w, n, x, unit_table[u].what);
      expect("results", got, W.n);
      uint64_t s = 77;
      for (int i = 0; i < got; ++i)
         expect("result", out[i], W.v[i]), s = mon::mix(s, (uint64_t)out[i]);
      note_state(mon::mix(s, (uint64_t)u));
   }
   void type_answers()
   {
      int u = some_unit(U_TYPES);
      int n = ask(u, U_TYPES, O_RUN);
      mon::op("types", " by %s", unit_table[u].what);
      for (int i = 0; i < n; ++i)
         expect("type query", out[i], 1);
      note_state(mon::mix(99, (uint64_t)u));
   }
   void the_case(Rng &r, uint64_t no)
   {
      g = &r;
      g_units = 0;
      if (!nsupport[0])
         for (int k = 0; k < U_KINDS; ++k)
            for (int u = 0; u < unit_count; ++u)
            {
               static const int a[] = {0, 1, 2, 3};
               int n = k == U_VOCAB ? 1 : k == U_ALGORITHM || k == U_TYPES ? ask(u, k, O_RUN, 0, 0, a, 4) : ask(u, k, O_SIZEOF);
               for (int w = 0; k == U_VOCAB && w < 6; ++w)
               {
                  const int b[] = {w, 1, 2, 3};
                  n = ask(u, k, O_RUN, 0, 0, b, 4);
                  if (n >= 0)
                     break;
               }
               support[k][u] = n >= 0;
               nsupport[k] += n >= 0;
            }
      g_units = 0;
      for (int k = 0; k < U_KINDS; ++k)
         if (!nsupport[k])
            monitor_error("no unit with that kind");
      g_kind = (int)(no % 20);
      if (g_kind <= U_ARRAY)
         return objects();
      for (int i = 0; i < 40; ++i)
         switch (r.below(10))
         {
         case 0: type_answers(); break;
         case 1: case 2: vocabulary(); break;
         default: algorithms();
         }
      live_check(0);
   }
}
int main(int argc, char **argv) { return run(argc, argv, "units", the_case); }
