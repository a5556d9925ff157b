#include "assoc.hpp"
template<class K> using Up = Case<ttl::set<K>, false, K, int>;
template<class K> using Down = Case<ttl::set<K, Desc<K> >, false, K, int>;
static void the_case(Rng &r, uint64_t c)
{
   unsigned ops = r.range(8, 60);
   if (c % 9 == 4)
   {
      if (c % 2)
         Up<Fine>(r).run(ops * 2);
      else
         Down<Fine>(r).run(ops * 2);
      return;
   }
   if (c % 61 == 50)
   {
      unsigned n = r.below(3) ? r.range(60, 300) : r.range(300, 2000);
      if (c % 3 == 0)
         Up<int>(r).large(n);
      else if (c % 3 == 1)
         Up<Tr>(r).large(n);
      else
         Down<Tr>(r).large(n);
      return;
   }
   if (c % 16 == 15)
   {
      Up<Tr>(r).perms(3 + (c / 16) % 5, r.below(5040));
      return;
   }
   switch (c % 8)
   {
   case 0: case 1: Up<Tr>(r).run(ops * 2); break;
   case 2: Down<Tr>(r).run(ops * 2); break;
   case 3: Up<Fat>(r).run(ops); break;
   case 4: Up<int>(r).run(ops); break;
   case 5: Up<unsigned char>(r).run(ops); break;
   case 6: Down<Wide>(r).run(ops); break;
   default: Up<short>(r).run(ops); break;
   }
}
int main(int argc, char **argv) { return run(argc, argv, "set", the_case); }
