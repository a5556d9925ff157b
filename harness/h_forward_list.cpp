#include "slist.hpp"
int main(int argc, char **argv) { return run(argc, argv, "forward_list", the_case<FWD>); }
