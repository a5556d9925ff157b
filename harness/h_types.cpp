// type_traits: the answers for a closed set of types against the compiler's own
// <type_traits>, asked at run time.
#include "core_impl.hpp"
#include <type_traits>
#include "types98.hpp"
#include "ttl/type_traits.hpp"
#include "ttl/utility.hpp"
using namespace mon;

struct Cls { int x; };
enum Enm { enm };
enum class Scoped { s };
union Uni { int a; float b; };
template<class T> struct Tpl {};

static const char *g_type;
static void ask(const char *trait, bool got, bool expect)
{
   op(trait, " of %s", g_type);
   S->observations++;
   S->elem_checks++;
   if (got != expect)
      fail(SEM, g_type, "is %d, expected %d", (int)got, (int)expect);
   note_state(mix(hstr(trait), hstr(g_type)));
}
#define BOTH(name, expect) ask(#name, bool(ttl::name<T>::value), bool(expect))

template<class T> struct NoFloatSign { static const bool value = std::is_signed<T>::value && !std::is_floating_point<T>::value; };

template<class T> static void traits(const char *nm)
{
   g_type = nm;
   typedef typename std::remove_cv<T>::type B;
   BOTH(is_const, std::is_const<T>::value);
   BOTH(is_volatile, std::is_volatile<T>::value);
   // documented as "one of these integer types"
   BOTH(is_signed, NoFloatSign<T>::value);
   BOTH(is_unsigned, (std::is_unsigned<T>::value && !std::is_same<B, bool>::value));
   BOTH(is_void, std::is_void<T>::value);
   BOTH(is_integral, std::is_integral<T>::value);
   BOTH(is_floating_point, std::is_floating_point<T>::value);
   BOTH(is_arithmetic, std::is_arithmetic<T>::value);
   // documented as void, integers and floating point only
   BOTH(is_fundamental, (std::is_arithmetic<T>::value || std::is_void<T>::value));
   BOTH(is_pointer, std::is_pointer<T>::value);
   // documented to leave out enumerations, member pointers and nullptr_t
   BOTH(is_scalar, (std::is_arithmetic<T>::value || std::is_pointer<T>::value));
   BOTH(is_array, std::is_array<T>::value);
   ask("remove_const", std::is_same<typename ttl::remove_const<T>::type, typename std::remove_const<T>::type>::value, true);
   ask("remove_volatile", std::is_same<typename ttl::remove_volatile<T>::type, typename std::remove_volatile<T>::type>::value, true);
   ask("remove_cv", std::is_same<typename ttl::remove_cv<T>::type, typename std::remove_cv<T>::type>::value, true);
   ask("remove_reference", std::is_same<typename ttl::remove_reference<T>::type, typename std::remove_reference<T>::type>::value, true);
   ask("is_same(itself)", bool(ttl::is_same<T, T>::value), true);
   ask("is_same(pointer)", bool(ttl::is_same<T, Tpl<T> >::value), false);
   ask("is_same(template)", bool(ttl::is_same<Tpl<T>, Tpl<typename std::remove_cv<T>::type> >::value), std::is_same<T, typename std::remove_cv<T>::type>::value);
   ask("is_same(const)", bool(ttl::is_same<T, const T>::value), std::is_same<T, const T>::value);
   ask("is_same(volatile)", bool(ttl::is_same<T, volatile T>::value), std::is_same<T, volatile T>::value);
   ask("is_same(swapped)", bool(ttl::is_same<const T, T>::value), std::is_same<T, const T>::value);
}
#define TRAITS(...) traits<__VA_ARGS__>(#__VA_ARGS__)
#define CV(T) TRAITS(T); TRAITS(const T); TRAITS(volatile T); TRAITS(const volatile T)
// objects: also pointers to, references to and arrays of
#ifdef MON_AS98 // there are no rvalue references
#define REF(T) TRAITS(T &); TRAITS(const T &); TRAITS(volatile T &); TRAITS(const volatile T &)
#else
#define REF(T) TRAITS(T &); TRAITS(const T &); TRAITS(volatile T &); TRAITS(const volatile T &); TRAITS(T &&); TRAITS(const T &&); TRAITS(volatile T &&)
#endif
#define ARR(T) TRAITS(T[3]); TRAITS(const T[3]); TRAITS(volatile T[2]); TRAITS(const volatile T[1]); TRAITS(T[]); TRAITS(const T[]); TRAITS(T[2][3]); TRAITS(const T[2][3]); TRAITS(T(&)[3]); TRAITS(const T(&)[3]); TRAITS(T(*)[3])
#define PTR(T) TRAITS(T *); TRAITS(const T *); TRAITS(volatile T *); TRAITS(T *const); TRAITS(const T *const); TRAITS(T *volatile); TRAITS(T *const volatile); TRAITS(T **); TRAITS(T *const *); TRAITS(T *&); TRAITS(T *const &); TRAITS(T *[2])
#define OBJ(T) CV(T); REF(T); ARR(T); PTR(T)

static void numbers()
{
   OBJ(bool); OBJ(char); OBJ(signed char); OBJ(unsigned char); OBJ(wchar_t);
   OBJ(short); OBJ(unsigned short); OBJ(int); OBJ(unsigned int); OBJ(unsigned); OBJ(long); OBJ(unsigned long);
   OBJ(long long); OBJ(unsigned long long); OBJ(float); OBJ(double); OBJ(long double);
   OBJ(size_t); OBJ(ptrdiff_t);
}
static void others()
{
   CV(void); PTR(void);
   OBJ(Cls); OBJ(Enm); OBJ(Scoped); OBJ(Uni); OBJ(Tpl<int>); OBJ(Tpl<const int>);
   typedef int Cls::*MemPtr;
   typedef int (Cls::*MemFun)(int) const;
   typedef void (*Fun)(int);
   OBJ(MemPtr); OBJ(MemFun); OBJ(Fun); OBJ(std::nullptr_t);
}
template<int V> static void constant()
{
   typedef ttl::integral_constant<int, V> C;
   int v = C::value;
   S->observations++;
   if (v != V || !std::is_same<typename C::value_type, int>::value || !std::is_same<typename C::type, C>::value)
      fail(SEM, "constant", "integral_constant<int,%d>", V);
}
static void constants()
{
   op("integral_constant", "");
   constant<0>(); constant<1>(); constant<-1>(); constant<INT_MAX>(); constant<INT_MIN>();
   S->observations++;
   bool t = ttl::true_type::value, f = ttl::false_type::value;
   if (!t || f || !std::is_same<ttl::true_type::value_type, bool>::value)
      fail(SEM, "constant", "true_type is %d, false_type is %d", t, f);
   op("move", " value category");
   int x = 3;
   S->observations++;
#ifdef MON_AS98
   if (!std::is_same<decltype(ttl::move(x)), int &>::value || !std::is_same<decltype(ttl::move((const int &)x)), const int &>::value)
      fail(SEM, "category", "move does not yield a reference to its operand");
#else
   if (!std::is_same<decltype(ttl::move(x)), int &&>::value || !std::is_same<decltype(ttl::move((const int &)x)), const int &&>::value ||
       !std::is_same<decltype(ttl::move(3)), int &&>::value)
      fail(SEM, "category", "move does not yield an rvalue reference");
#endif
}
// the same queries in a part compiled as C++98
struct Expect { const char *query, *type; bool yes; };
static std::vector<Expect> g_expect;
template<class T> static void expect98(const char *t)
{
   typedef typename std::remove_cv<T>::type B;
#define EXP(q, e) g_expect.push_back(Expect{q, t, bool(e)})
   EXP("is_const", std::is_const<T>::value);
   EXP("is_volatile", std::is_volatile<T>::value);
   EXP("is_signed", NoFloatSign<T>::value);
   EXP("is_unsigned", (std::is_unsigned<T>::value && !std::is_same<B, bool>::value));
   EXP("is_void", std::is_void<T>::value);
   EXP("is_integral", std::is_integral<T>::value);
   EXP("is_floating_point", std::is_floating_point<T>::value);
   EXP("is_arithmetic", std::is_arithmetic<T>::value);
   EXP("is_fundamental", (std::is_arithmetic<T>::value || std::is_void<T>::value));
   EXP("is_pointer", std::is_pointer<T>::value);
   EXP("is_scalar", (std::is_arithmetic<T>::value || std::is_pointer<T>::value));
   EXP("is_array", std::is_array<T>::value);
   EXP("remove_const", true);
   EXP("remove_volatile", true);
   EXP("remove_cv", true);
   EXP("remove_reference", true);
   EXP("is_same(itself)", true);
   EXP("is_same(template)", false);
}
static void cxx98()
{
   static t98::Answer a[16384];
   unsigned n = t98::answers(a, 16384);
   g_expect.clear();
#define X(...) expect98<__VA_ARGS__>(#__VA_ARGS__);
   T98_TYPES(X)
#undef X
   if (n != g_expect.size())
      monitor_error("the parts ask different questions");
   for (unsigned i = 0; i < n; ++i)
   {
      const Expect &e = g_expect[i];
      if (strcmp(a[i].query, e.query) || strcmp(a[i].type, e.type))
         monitor_error("the parts ask different questions");
      g_type = e.type;
      op(e.query, " of %s in C++98", e.type);
      S->observations++;
      S->elem_checks++;
      if (a[i].yes != e.yes)
         fail(SEM, e.type, "is %d in C++98, expected %d", a[i].yes, (int)e.yes);
      note_state(mix(mix(hstr(e.query), hstr(e.type)), 98));
   }
}
static void the_case(Rng &, uint64_t c)
{
   switch (c % 4)
   {
   case 3: cxx98(); break;
   case 0: numbers(); break;
   case 1: others(); break;
   default: constants(); break;
   }
}
int main(int argc, char **argv) { return run(argc, argv, "type_traits", the_case); }
