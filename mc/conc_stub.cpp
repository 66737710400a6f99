#include "conc.h"
bool conc_active() { return false; }
int conc_self() { return 0; }
void conc_point(const void *, size_t, int, void *) {}
void conc_block(std::function<bool()>, const char *) {}
void conc_yield() {}
void conc_event(int) {}
void conc_share(void *, size_t) {}
extern "C" { uint64_t conc_regs[8]; }
int conc_tid_dummy;
