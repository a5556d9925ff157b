#include "slist.hpp"
int main(int argc, char **argv) { return run(argc, argv, "backward_list", the_case<BWD>); }
