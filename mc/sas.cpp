// Joining a private SAS region and tracking it.
#include "mc.h"
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/stat.h>
#include "sasshm.h"
#include "sassim.h"
namespace mc {
void join_region() {
  std::string d = opts.scratch + "/store";
  mkdir(d.c_str(), 0700);
  setenv("SASSTOREPATH", d.c_str(), 1);
  int rc = SASJoinRegion();
  if (rc) { fprintf(stderr, "SASJoinRegion failed: %d\n", rc); violation("join", "SASJoinRegion failed with %d on an empty store", rc); }
  install_handlers();
}
void track_region() {
  FILE *f = fopen("/proc/self/maps", "r"); char l[4096]; std::vector<std::pair<unsigned long, unsigned long>> v;
  unsigned long lo = getMemLow(), hi = getMemHigh() + 0x40000000ul;
  while (fgets(l, sizeof l, f)) { unsigned long a, b; if (sscanf(l, "%lx-%lx", &a, &b) == 2 && a >= lo && b <= hi) v.push_back({a, b}); }
  fclose(f);
  for (auto &x : v) track_add((void *)x.first, x.second - x.first);
  track_statics();
}
}
