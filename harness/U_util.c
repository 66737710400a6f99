// the command-line tool's own source, to be run inside a process of the harness
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
static void __attribute__((noreturn)) util_exit(int rc) { fflush(NULL); _exit(rc); }
#define exit util_exit
#define main sasutil_main
#include "sasutil.c"
