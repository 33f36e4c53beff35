#include "explore.h"
#include <cstdio>
#include <unistd.h>
// _exit: static destructors of the server must not run in the exploring process, which never ran its threads.
int main(int argc, char **argv) { int rc = mc::main_explore(argc, argv); fflush(nullptr); _exit(rc); }
