// The types asked about by both the C++98 and the C++17 part of the type query harness.
#ifndef TYPES98_HPP
#define TYPES98_HPP
namespace t98
{
   struct Cls { int x; };
   enum Enm { enm };
   union Uni { int a; float b; };
   template<class T> struct Tpl {};
   typedef int Cls::*MemPtr;
   typedef int (Cls::*MemFun)(int) const;
   typedef void (*Fun)(int);
   struct Answer { const char *query, *type; int yes; };
   // fills the table with what the library answers when compiled as C++98
   unsigned answers(Answer *, unsigned max);
}
#define T98_CV(X, T) X(T) X(const T) X(volatile T) X(const volatile T)
#define T98_OBJ(X, T) T98_CV(X, T) X(T &) X(const T &) X(volatile T &) X(const volatile T &) \
   X(T *) X(const T *) X(volatile T *) X(T *const) X(const T *const) X(T *volatile) X(T *const volatile) X(T **) X(T *const *) X(T *&) X(T *const &) X(T *[2]) \
   X(T[3]) X(const T[3]) X(volatile T[2]) X(const volatile T[1]) X(T[]) X(const T[]) X(T[2][3]) X(const T[2][3]) X(T (&)[3]) X(T (*)[3])
#define T98_TYPES(X) T98_OBJ(X, bool) T98_OBJ(X, char) T98_OBJ(X, signed char) T98_OBJ(X, unsigned char) T98_OBJ(X, wchar_t) \
   T98_OBJ(X, short) T98_OBJ(X, unsigned short) T98_OBJ(X, int) T98_OBJ(X, unsigned) T98_OBJ(X, long) T98_OBJ(X, unsigned long) \
   T98_OBJ(X, long long) T98_OBJ(X, unsigned long long) T98_OBJ(X, float) T98_OBJ(X, double) T98_OBJ(X, long double) \
   T98_OBJ(X, t98::Cls) T98_OBJ(X, t98::Enm) T98_OBJ(X, t98::Uni) T98_OBJ(X, t98::Tpl<int>) T98_OBJ(X, t98::MemPtr) T98_OBJ(X, t98::MemFun) T98_OBJ(X, t98::Fun) \
   T98_CV(X, void) X(void *) X(const void *) X(void *const) X(void **)
#endif
