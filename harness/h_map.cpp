#include "assoc.hpp"
template<class K, class M> using Up = Case<ttl::map<K, M>, true, K, M>;
template<class K, class M> using Down = Case<ttl::map<K, M, Desc<K> >, true, K, M>;
static void the_case(Rng &r, uint64_t c)
{
   unsigned ops = r.range(8, 60);
   if (c % 9 == 4)
   {
      if (c % 2)
         Up<Fine, Tr>(r).run(ops * 2);
      else
         Down<Fine, Fine>(r).run(ops * 2);
      return;
   }
   if (c % 61 == 50)
   {
      unsigned n = r.below(3) ? r.range(60, 300) : r.range(300, 2000);
      if (c % 3 == 0)
         Up<int, int>(r).large(n);
      else if (c % 3 == 1)
         Up<Tr, Tr>(r).large(n);
      else
         Down<Tr, int>(r).large(n);
      return;
   }
   if (c % 16 == 15)
   {
      Up<Tr, Tr>(r).perms(3 + (c / 16) % 5, r.below(5040));
      return;
   }
   switch (c % 8)
   {
   case 0: case 1: Up<Tr, Tr>(r).run(ops * 2); break;
   case 2: Down<Tr, Tr>(r).run(ops * 2); break;
   case 3: Up<Tr, Fat>(r).run(ops); break;
   case 4: Up<int, int>(r).run(ops); break;
   case 5: Up<unsigned char, Tr>(r).run(ops); break;
   case 6: Down<int, Wide>(r).run(ops); break;
   default: Up<short, unsigned char>(r).run(ops); break;
   }
}
int main(int argc, char **argv) { return run(argc, argv, "map", the_case); }
