#include "slist.hpp"
int main(int argc, char **argv) { return run(argc, argv, "lazy_queue", the_case<LAZY>); }
