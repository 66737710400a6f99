// Helpers for the concurrency harnesses: programs run by the controlled threads.
#pragma once
#include "mc.h"
#include "conc.h"
#include <string.h>
#include <sys/mman.h>
#include "sasshm.h"
#include "sassim.h"
#include "sasalloc.h"
#include "saslock.h"
using namespace mc;
static inline void *lock_seg() { return (void *)__SAS_TEMP_ADDRESS; }
static inline size_t lock_heap_free() { SASBlockHeader *b = (SASBlockHeader *)lock_seg(); return b->blockFreeSpace ? freeNode_freeSpaceTotal(b->blockFreeSpace) : 0; }
static inline void share_locks() { conc_share(lock_seg(), __SAS_SHMAP_MAX); }
// a fixed-address arena outside the SAS region (for deterministic replay)
static inline char *arena(size_t n, unsigned long at = 0x200000000000ul) {
  char *p = (char *)mmap((void *)at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { fprintf(stderr, "arena\n"); _exit(3); }
  return p;
}
