// All of a C++ library that a program without one provides to the units.
#include "unit_api.hpp"
#include <stddef.h>
#if __cplusplus >= 201103L
#define NOTHROW noexcept
#define THROW
#else
#define NOTHROW throw()
#define THROW
#endif
void *operator new(size_t n) THROW { return unit_hooks.get(n, 0); }
void *operator new[](size_t n) THROW { return unit_hooks.get(n, 1); }
void operator delete(void *p) NOTHROW { unit_hooks.put(p, 0); }
void operator delete[](void *p) NOTHROW { unit_hooks.put(p, 1); }
#if __cplusplus >= 201402L
void operator delete(void *p, size_t) NOTHROW { unit_hooks.put(p, 0); }
void operator delete[](void *p, size_t) NOTHROW { unit_hooks.put(p, 1); }
#endif
// what compilers may call for plain copies
extern "C"
{
   void *memcpy(void *d, const void *s, size_t n)
   {
      volatile char *a = (volatile char *)d;
      const char *b = (const char *)s;
      while (n--)
         *a++ = *b++;
      return d;
   }
   void *memmove(void *d, const void *s, size_t n)
   {
      volatile char *a = (volatile char *)d;
      const char *b = (const char *)s;
      if (a <= b)
         while (n--)
            *a++ = *b++;
      else
         while (n--)
            a[n] = b[n];
      return d;
   }
   void *memset(void *d, int c, size_t n)
   {
      volatile char *a = (volatile char *)d;
      while (n--)
         *a++ = (char)c;
      return d;
   }
   int memcmp(const void *x, const void *y, size_t n)
   {
      const unsigned char *a = (const unsigned char *)x, *b = (const unsigned char *)y;
      for (; n--; ++a, ++b)
         if (*a != *b)
            return *a < *b ? -1 : 1;
      return 0;
   }
}
