// Core of the model-checking machinery: options, reporting, tracked memory with undo.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <unordered_map>

namespace mc {

struct Opts {
  std::string prop;            // property id
  std::string cfg;             // configuration (scenario) to run
  int shard = 0, nshards = 1;
  int thorough = 0;
  std::string out;             // statistics file
  std::string replay;          // replay file (read) if replaying
  std::string replay_out;      // replay file to write on a violation
  double budget = 1e9;         // seconds
  std::string scratch;         // scratch directory (created/removed by the driver)
};
extern Opts opts;

// ---- statistics (written to opts.out) ----
struct Stats {
  uint64_t states = 0, transitions = 0, executions = 0, evaluations = 0, nontrivial = 0;
  uint64_t outcomes = 0;       // distinct outcomes
  int depth = 0;               // deepest completed bound
  bool exhaustive = true;      // finished inside its bound
  std::vector<std::string> samples;
  std::string note;
};
extern Stats st;
void sample(const std::string &s);   // keep a few samples

// ---- current position (for replay) ----
extern std::vector<int> path;               // sequential: operation indexes
extern std::vector<std::string> path_names;
extern std::vector<int> sched;              // concurrent: choices made
extern std::function<std::string()> replay_extra;  // optional: raw lines for the replay file (read back into replay_lines)
extern std::vector<std::string> replay_lines;
extern std::function<std::string()> describe;  // optional: extra text for the replay file

// Report a violation; `sig` identifies the specific failing input/call site/history class.  Known findings
// (listed in known-findings) are recorded and the function returns true; otherwise it never returns.
bool violation(const std::string &sig, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
bool is_known(const std::string &sig);      // records it as hit if known
#define MC_CHECK(cond, sig, ...) do { if (!(cond)) mc::violation(sig, __VA_ARGS__); } while (0)

bool out_of_time();
void heartbeat();                           // tells the watchdog that progress is being made
void watchdog(int seconds);                 // per-step limit: an operation that runs longer is a hang

// ---- tracked memory ----
void track_add(void *base, size_t len);     // snapshot/undo region (must be page aligned)
void track_push();
void track_pop();
uint64_t track_hash();                      // hash of everything tracked, relative to the first snapshot
size_t track_level();
void track_statics();                       // also track the library's own static data
bool track_is_tracked(const void *p);

uint64_t hash_bytes(const void *p, size_t n, uint64_t seed);
static inline uint64_t mix(uint64_t a, uint64_t b) {
  a ^= b + 0x9e3779b97f4a7c15ull + (a << 12) + (a >> 4);
  a *= 0xff51afd7ed558ccdull; a ^= a >> 33; a *= 0xc4ceb9fe1a85ec53ull; a ^= a >> 29;
  return a;
}
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

// ---- guarded call: converts a crash inside `f` into a violation ----
void install_handlers();                    // SIGSEGV/SIGBUS/SIGFPE/SIGABRT/SIGALRM
extern std::string where;                   // what is being executed (for crash messages)
extern std::string crash_sig;               // signature to report if a crash happens now
// run f; returns false if it crashed AND the crash signature is a known finding
bool guarded(const std::function<void()> &f);

// ---- SAS region ----
void join_region();                         // private store in opts.scratch, lock table in private shm; tracked if track=true
void track_region();                        // track all mapped segments, the lock table and statics

// ---- the address locks as seen by the rest of the library ----
void ideal_locks(int log2n = 7);                         // from now on SASLock/SASUnlock are ideal locks (the real ones are L01/L02's business)
void share_ideal_locks();
void ideal_lock_touch(void *a);             // gives the lock of a its place in the (tracked) table of ideal locks
std::vector<void *> ideal_lock_addrs();              // every lock the table knows
// ---- a virtual file system for the segment files, with undo (the caller keeps vfs.files in its model) and faults ----
struct Vfs { bool on = false; std::map<std::string, long> files; int calls = 0, fail_at = -1, fail_errno = 28; bool failed = false, fail_all = false; std::string failed_call; };
extern Vfs vfs; int vfs_open(); void vfs_close();   // open descriptors of segment files
void vfs_arena(void *base, size_t len);     // where virtual files may be mapped: zero memory, tracked
extern int64_t fixed_time, fixed_tod;       // what the library sees as the time (ns; us), when not negative
void heap_arena(); size_t heap_used();      // the library's malloc from tracked memory; number of live allocations
std::string locks_held();                   // "" when no lock is held

// ---- configurations ----
struct Config { std::string name; int shards_quick; int shards_thorough; std::function<void()> run; };
std::vector<Config> &configs();
struct Reg { Reg(const char *n, int q, int t, std::function<void()> f) { configs().push_back({n, q, t, f}); } };
#define MC_CONFIG(fn, name, q, t) static void fn(); static mc::Reg reg_##fn(name, q, t, fn); static void fn()

// ---- sequential exploration ----
struct SeqSys {
  virtual ~SeqSys() {}
  virtual int nops() = 0;                   // size of the alphabet in the current state
  virtual bool enabled(int op) { (void)op; return true; }
  virtual void apply(int op) = 0;           // performs the operation and checks it against the model
  virtual std::string name(int op) = 0;
  virtual uint64_t mhash() = 0;             // hash of the model state
  virtual void save() = 0;                  // push/pop the model
  virtual void restore() = 0;
  virtual void check() {}                   // state invariant, after every operation
  virtual void leaf() {}                    // at the end of every maximal sequence (may mutate: it is undone)
};
template <class M> struct SeqSysT : SeqSys {
  M m; std::vector<M> stk;
  void save() override { stk.push_back(m); }
  void restore() override { m = stk.back(); stk.pop_back(); }
};
struct SeqOpts { int depth = 4; int min_depth = 1; bool dedup = true; bool leaf = false; };
void seq_explore(SeqSys &s, SeqOpts o);

int main_(int argc, char **argv);
}
