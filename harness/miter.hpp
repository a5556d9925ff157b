// Monitored ranges for the algorithms: iterators of every category over an exact
// buffer that report any access the category or the range does not allow.
#ifndef MON_MITER_HPP
#define MON_MITER_HPP
#include "core.hpp"
#include "seq.hpp"
#include "ttl/ttl.hpp"

namespace mon
{
   enum { IN = 0, FW = 1, BI = 2, RA = 3 };

   template<class T> struct Arr
   {
      T *p;
      size_t n;
      explicit Arr(const std::vector<V> &v): p((T *)malloc(v.size() * sizeof(T) + !v.size())), n(v.size())
      {
         for (size_t i = 0; i < n; ++i)
            ::new(p + i) T(El<T>::make(v[i]));
      }
      ~Arr()
      {
         for (size_t i = 0; i < n; ++i)
            p[i].~T();
         free(p);
      }
      std::vector<V> read() const
      {
         std::vector<V> o;
         for (size_t i = 0; i < n; ++i)
            o.push_back(El<T>::read(p[i]));
         return o;
      }
      Arr(const Arr &) = delete;
   };

   struct Ctl
   {
      size_t n, pos;
      explicit Ctl(size_t len): n(len), pos(0) {}
   };
   [[noreturn]] inline void stop_range(const char *what, size_t p, size_t n)
   {
      fail(DISC | MEM, what, "at %zu of a range of %zu", p, n);
      _exit(EXIT_VIOL);
   }

   template<class T, int CAT> struct MIt
   {
      typedef typename std::remove_const<T>::type value_type;
      typedef T *pointer;
      typedef T &reference;
      typedef ptrdiff_t difference_type;
      T *b;
      Ctl *c;
      size_t p;
      MIt(T *base, Ctl &ctl, size_t at): b(base), c(&ctl), p(at) {}
      void stale() const
      {
         if (CAT == IN && p != c->pos)
            fail(DISC, "second-pass", "single-pass range used at %zu after advancing to %zu", p, c->pos);
      }
      T &operator*() const
      {
         S->disc_events++;
         if (p >= c->n)
            stop_range("dereferenced outside", p, c->n);
         stale();
         return b[p];
      }
      T *operator->() const { return &**this; }
      MIt &operator++()
      {
         S->disc_events++;
         if (p >= c->n)
            stop_range("advanced past the end", p, c->n);
         stale();
         ++p;
         if (CAT == IN)
            c->pos = p;
         return *this;
      }
      struct Post { value_type v; const value_type &operator*() const { return v; } };
      template<int C = CAT> typename std::enable_if<C == IN, Post>::type operator++(int)
      {
         Post o = {**this};
         ++*this;
         return o;
      }
      template<int C = CAT> typename std::enable_if<C != IN, MIt>::type operator++(int)
      {
         MIt o(*this);
         ++*this;
         return o;
      }
      template<int C = CAT> typename std::enable_if<C >= BI, MIt &>::type operator--()
      {
         S->disc_events++;
         if (p == 0)
            stop_range("moved before the beginning", p, c->n);
         --p;
         return *this;
      }
      template<int C = CAT> typename std::enable_if<C >= BI, MIt>::type operator--(int)
      {
         MIt o(*this);
         --*this;
         return o;
      }
      template<int C = CAT> typename std::enable_if<C >= RA, MIt &>::type operator+=(ptrdiff_t d)
      {
         S->disc_events++;
         if (d < 0 ? (size_t)-d > p : (size_t)d > c->n - p)
            stop_range("moved outside", p, c->n);
         p += d;
         return *this;
      }
      template<int C = CAT> typename std::enable_if<C >= RA, MIt &>::type operator-=(ptrdiff_t d) { return *this += -d; }
      template<int C = CAT> typename std::enable_if<C >= RA, MIt>::type operator+(ptrdiff_t d) const
      {
         MIt o(*this);
         o += d;
         return o;
      }
      template<int C = CAT> typename std::enable_if<C >= RA, MIt>::type operator-(ptrdiff_t d) const { return *this + -d; }
      template<int C = CAT> friend typename std::enable_if<C >= RA && C == CAT, MIt>::type operator+(ptrdiff_t d, const MIt &i) { return i + d; }
      template<int C = CAT> typename std::enable_if<C >= RA, ptrdiff_t>::type operator-(const MIt &o) const { same(o); return (ptrdiff_t)p - (ptrdiff_t)o.p; }
      template<int C = CAT> typename std::enable_if<C >= RA, T &>::type operator[](ptrdiff_t d) const { return *(*this + d); }
      template<int C = CAT> typename std::enable_if<C >= RA, bool>::type operator<(const MIt &o) const { same(o); return p < o.p; }
      template<int C = CAT> typename std::enable_if<C >= RA, bool>::type operator>(const MIt &o) const { same(o); return p > o.p; }
      template<int C = CAT> typename std::enable_if<C >= RA, bool>::type operator<=(const MIt &o) const { same(o); return p <= o.p; }
      template<int C = CAT> typename std::enable_if<C >= RA, bool>::type operator>=(const MIt &o) const { same(o); return p >= o.p; }
      void same(const MIt &o) const
      {
         if (c != o.c)
            fail(DISC, "mixed-ranges", "iterators of two ranges compared");
      }
      bool operator==(const MIt &o) const { same(o); return p == o.p; }
      bool operator!=(const MIt &o) const { same(o); return p != o.p; }
   };

   // Output: positions written once each, in order
   template<class T> struct OutCtl
   {
      std::vector<V> vals;
      size_t cap;
      explicit OutCtl(size_t n): cap(n) {}
   };
   template<class T> struct Out
   {
      OutCtl<T> *c;
      size_t p;
      Out(OutCtl<T> &ctl): c(&ctl), p(0) {}
      struct Proxy
      {
         OutCtl<T> *c;
         size_t p;
         template<class U> const Proxy &operator=(const U &u) const
         {
            OutLib out;
            const T &t = u;
            S->disc_events++;
            if (p != c->vals.size())
               fail(DISC, "output-order", "output position %zu written after %zu values", p, c->vals.size());
            if (c->vals.size() >= c->cap + 1000)
               _exit(EXIT_VIOL);
            if (c->vals.size() >= c->cap)
               fail(DISC, "output-excess", "more than the expected %zu values written", c->cap);
            c->vals.push_back(El<T>::read(t));
            return *this;
         }
         // assigning from another proxy would read an output iterator
         const Proxy &operator=(const Proxy &) const = delete;
      };
      Proxy operator*() const { Proxy x = {c, p}; return x; }
      Out &operator++()
      {
         S->disc_events++;
         if (p >= c->cap + 1000)
            _exit(EXIT_VIOL);
         ++p;
         return *this;
      }
      Out operator++(int)
      {
         Out o(*this);
         ++*this;
         return o;
      }
   };

   // Calls f(first, last, index, stream) on some kind of range over a, where
   // index(it) is the position of it and stream() how far a single-pass range got
   // (or -1).
   template<class T, class L, bool WRITE, class F> inline void on_list(Arr<T> &a, F f)
   {
      L l;
      std::vector<T *> nodes;
      for (size_t i = a.n; i--;)
         l.push_front(a.p[i]);
      auto ix = [&](auto it)
      {
         size_t n = 0;
         auto q = l.begin();
         for (; !(q == it); ++q, ++n)
            if (n > a.n)
            {
               fail(SEM, "returned-iterator", "a returned list iterator is not in the list");
               _exit(EXIT_VIOL);
            }
         return n;
      };
      if constexpr (WRITE)
      {
         f(l.begin(), l.end(), ix, []{ return (size_t)-1; });
         size_t i = 0;
         for (auto q = l.begin(); q != l.end() && i < a.n; ++q, ++i)
            a.p[i] = *q;
         if (i != a.n)
            fail(SEM, "content", "list length changed");
      }
      else
      {
         const L &cl = l;
         f(cl.begin(), cl.end(), ix, []{ return (size_t)-1; });
      }
   }
   template<class T, int CAT, class F> inline void on_miter(Arr<T> &a, F f)
   {
      Ctl c(a.n);
      f(MIt<T, CAT>(a.p, c, 0), MIt<T, CAT>(a.p, c, a.n), [&](const MIt<T, CAT> &i)
        {
           if (i.c != &c)
              fail(SEM, "returned-iterator", "a returned iterator belongs to another range");
           return i.p;
        }, [&]{ return CAT == IN ? c.pos : (size_t)-1; });
   }
   template<class T, class F> inline void on_ptr(Arr<T> &a, F f)
   {
      const T *b = a.p;
      f(b, b + a.n, [&](const T *i)
        {
           if (i < b || i > b + a.n)
           {
              fail(SEM, "returned-iterator", "a returned pointer is outside of the range");
              _exit(EXIT_VIOL);
           }
           return (size_t)(i - b);
        }, []{ return (size_t)-1; });
   }
   template<class T, class F> inline void on_mptr(Arr<T> &a, F f)
   {
      T *b = a.p;
      f(b, b + a.n, [&](T *i)
        {
           if (i < b || i > b + a.n)
           {
              fail(SEM, "returned-iterator", "a returned pointer is outside of the range");
              _exit(EXIT_VIOL);
           }
           return (size_t)(i - b);
        }, []{ return (size_t)-1; });
   }
   // read-only, single pass suffices
   template<class T, class F> inline void with_in(Rng &r, Arr<T> &a, F f)
   {
      switch (r.below(4))
      {
      case 0: on_ptr(a, f); break;
      case 1: on_list<T, ttl::list<T>, false>(a, f); break;
      default: on_miter<T, IN>(a, f); break;
      }
   }
   template<class T, class F> inline void with_fw(Rng &r, Arr<T> &a, F f)
   {
      switch (r.below(4))
      {
      case 0: on_mptr(a, f); break;
      case 1: on_list<T, ttl::forward_list<T>, true>(a, f); break;
      default: on_miter<T, FW>(a, f); break;
      }
   }
   template<class T, class F> inline void with_bi(Rng &r, Arr<T> &a, F f)
   {
      switch (r.below(4))
      {
      case 0: on_mptr(a, f); break;
      case 1: on_list<T, ttl::list<T>, true>(a, f); break;
      default: on_miter<T, BI>(a, f); break;
      }
   }
   template<class T, class F> inline void with_ra(Rng &r, Arr<T> &a, F f)
   {
      if (r.below(3) == 0)
         on_mptr(a, f);
      else
         on_miter<T, RA>(a, f);
   }
   // f(out) returns where the output ended; gives what was written
   template<class T, class F> inline std::vector<V> with_out(Rng &r, size_t cap, F f)
   {
      if (r.below(3))
      {
         OutCtl<T> c(cap);
         Out<T> e = f(Out<T>(c));
         if (e.c != &c || e.p != c.vals.size())
            fail(SEM | DISC, "returned-output", "returns output position %zu after writing %zu values", e.p, c.vals.size());
         return c.vals;
      }
      V canary = {12321, 99};
      canary = El<T>::norm(canary);
      size_t extra = MON_ASAN ? 0 : 4;
      Arr<T> a(std::vector<V>(cap + extra, canary));
      T *e = f(a.p);
      if (e < a.p || e > a.p + a.n)
      {
         fail(SEM, "returned-output", "returns a pointer outside of the output");
         _exit(EXIT_VIOL);
      }
      size_t n = e - a.p;
      std::vector<V> o = a.read();
      for (size_t i = n; i < a.n; ++i)
         if (o[i].key != canary.key || o[i].tag != canary.tag)
            fail(SEM | MEM, "output-excess", "wrote behind the returned output position");
      o.resize(n);
      return o;
   }
}
#endif
