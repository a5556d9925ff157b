// Compiled as C++98: the answers of type_traits.hpp in that language.
#include "ttl/type_traits.hpp"
#include "types98.hpp"
namespace t98
{
   template<class A, class B> struct Same { enum { yes = 0 }; };
   template<class A> struct Same<A, A> { enum { yes = 1 }; };
   // what the transformations must yield, told in other words
   template<class T> struct NoC { typedef T type; };
   template<class T> struct NoC<const T> { typedef T type; };
   template<class T> struct NoV { typedef T type; };
   template<class T> struct NoV<volatile T> { typedef T type; };
   template<class T> struct NoR { typedef T type; };
   template<class T> struct NoR<T &> { typedef T type; };

   static Answer *g_a;
   static unsigned g_n, g_max;
   static void put(const char *q, const char *t, int yes)
   {
      if (g_n < g_max)
      {
         g_a[g_n].query = q;
         g_a[g_n].type = t;
         g_a[g_n].yes = yes;
      }
      g_n++;
   }
   template<class T> static void ask(const char *t)
   {
#define ASK(q) put(#q, t, ttl::q<T>::value ? 1 : 0);
      ASK(is_const) ASK(is_volatile) ASK(is_signed) ASK(is_unsigned) ASK(is_void) ASK(is_integral) ASK(is_floating_point)
      ASK(is_arithmetic) ASK(is_fundamental) ASK(is_pointer) ASK(is_scalar) ASK(is_array)
      put("remove_const", t, Same<typename ttl::remove_const<T>::type, typename NoC<T>::type>::yes);
      put("remove_volatile", t, Same<typename ttl::remove_volatile<T>::type, typename NoV<T>::type>::yes);
      put("remove_cv", t, Same<typename ttl::remove_cv<T>::type, typename NoV<typename NoC<T>::type>::type>::yes);
      put("remove_reference", t, Same<typename ttl::remove_reference<T>::type, typename NoR<T>::type>::yes);
      put("is_same(itself)", t, ttl::is_same<T, T>::value ? 1 : 0);
      put("is_same(template)", t, ttl::is_same<T, Tpl<T> >::value ? 1 : 0);
   }
   unsigned answers(Answer *a, unsigned max)
   {
      g_a = a, g_n = 0, g_max = max;
#define X(...) ask< __VA_ARGS__ >(#__VA_ARGS__);
      T98_TYPES(X)
      return g_n;
   }
}
