// Values and types for the harnesses that mix arithmetic and pointer types
#ifndef MON_MIXED_HPP
#define MON_MIXED_HPP
#include "algo.hpp"
#include <math.h>
#include <deque>
#include <type_traits>
#ifndef MON_PART
#define MON_PART 0
#endif
#ifndef MON_MIXED
#define MON_MIXED 0
#endif

static const long long numbers[] = {
   0, 1, -1, 2, 3, 44, 300, -212, 65, 65 + 256, 127, 128, -128, -129, 255, 256, -256, 257, 32767, 32768, -32768, -32769, 65535, 65536, 65537,
   2147483647LL, 2147483648LL, -2147483648LL, -2147483649LL, 4294967295LL, 4294967296LL, 4294967297LL, 16777216LL, 16777217LL,
   1LL << 40, (1LL << 53), (1LL << 53) + 1, -(1LL << 53) - 1, LLONG_MAX, LLONG_MIN, LLONG_MAX - 1
};
static const double reals[] = {0.0, -0.0, 0.5, -0.5, 1.5, 1e-300, 1e300, 0.1, 3.0000000000000004, 256.0, 300.25};
static char cells[64];
template<class T> struct Is_real { enum { v = std::is_floating_point<T>::value }; };
template<class T> struct Mk
{
   static T number(Rng &r, bool odd)
   {
      long long n = r.below(3) ? numbers[r.below(sizeof(numbers) / sizeof(*numbers))] : (long long)r.below(6);
      if constexpr (Is_real<T>::v)
      {
         switch (r.below(odd ? 4 : 3))
         {
         case 0: return (T)n;
         case 1: return (T)(float)n;
         case 2: return (T)reals[r.below(sizeof(reals) / sizeof(*reals))];
         default: return r.below(2) ? (T)NAN : r.below(2) ? (T)INFINITY : -(T)INFINITY;
         }
      }
      else
         return (T)n;
   }
};
template<class T> struct Mk<T *>
{
   static T *number(Rng &r, bool) { return (T *)(cells + sizeof(T) * r.below(8)); }
};
enum Colour { RED, GREEN = 44, BLUE = 300 };
template<> struct Mk<Colour>
{
   static Colour number(Rng &r, bool) { static const Colour c[] = {RED, GREEN, BLUE}; return c[r.below(3)]; }
};
enum class Small: unsigned char { a, b, c = 200 };
template<> struct Mk<Small>
{
   static Small number(Rng &r, bool) { static const Small c[] = {Small::a, Small::b, Small::c}; return c[r.below(3)]; }
};
template<class E> inline bool bits(const E &a, const E &b) { return !memcmp(&a, &b, sizeof(E)); }
// long double is not used, so that every byte of an element counts
// whether a value can be assigned to an element with a defined result
template<class E, class V> struct Fits { enum { v = std::is_convertible<V, E>::value && !(Is_real<V>::v && !Is_real<E>::v) && !(std::is_same<V, double>::value && std::is_same<E, float>::value) }; };
template<class E, class V> struct Same { bool operator()(const E &a, const V &b) const { return a == b; } };

// A few values of each type, many of them equal, or equal only after a conversion
template<class E, class V> struct Pool
{
   std::deque<E> e;
   std::deque<V> v;
   Pool(Rng &r, bool odd)
   {
      std::deque<E> &pe = e;
      std::deque<V> &pv = v;
      unsigned k = 1 + r.below(4);
      for (unsigned i = 0; i < k; ++i)
      {
         pe.push_back(Mk<E>::number(r, odd));
         if constexpr (std::is_convertible<E, V>::value && !(Is_real<E>::v && !Is_real<V>::v) && !(std::is_same<E, double>::value && std::is_same<V, float>::value))
            pv.push_back((V)pe.back());
         pv.push_back(Mk<V>::number(r, odd));
         if constexpr (std::is_integral<E>::value && std::is_integral<V>::value && !std::is_same<V, bool>::value)
            if (sizeof(V) > sizeof(E)) // equal only after narrowing
               pv.push_back((V)((long long)pe.back() + (1LL << (8 * sizeof(E) % 63))));
         if constexpr (Is_real<V>::v && !Is_real<E>::v && std::is_convertible<E, V>::value)
            pv.push_back((V)pe.back() + (V)0.5);
      }
   }
};
#endif
