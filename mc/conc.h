// Controlled-scheduler exploration of the real code (coroutines; scheduling points from compiler instrumentation).
#pragma once
#include "mc.h"
enum { CONC_READ = 0, CONC_WRITE = 1, CONC_RMW = 2, CONC_BLIND = 3 };   // BLIND: a read-modify-write whose value the thread does not see
bool conc_active();                       // inside a controlled thread?
int conc_self();                          // its index (0 outside; threads are 1..n)
void conc_point(const void *addr, size_t size, int kind, void *pc);
// entry points from instrumented code save the caller's registers first (HOOK), then run impl_NAME
extern "C" { extern uint64_t conc_regs[8]; }
#define HOOK(name) asm(".text\n.globl " #name "\n.type " #name ",@function\n" #name ":\n" \
  "movq %rbx,conc_regs(%rip)\nmovq %rbp,conc_regs+8(%rip)\nmovq %r12,conc_regs+16(%rip)\nmovq %r13,conc_regs+24(%rip)\n" \
  "movq %r14,conc_regs+32(%rip)\nmovq %r15,conc_regs+40(%rip)\nmovq %rsp,conc_regs+48(%rip)\njmp impl_" #name "\n");
void conc_block(std::function<bool()> ready, const char *what);
void conc_yield();
void conc_event(int ev);                  // harness: order-sensitive event (operation invoked/returned)
void conc_share(void *base, size_t len);  // memory whose accesses are scheduling points
struct ConcSys {
  int nthreads = 2;
  virtual ~ConcSys() {}
  virtual void share() {}                 // announce shared memory with conc_share
  virtual void setup() {}                 // before every execution (memory is at its initial state)
  // State-based exploration: two executions are merged when shared memory, every thread's stack and registers, and
  // mhash() agree; everything else the threads' future depends on must be in mhash().  Otherwise they are merged when
  // the conflicting memory and every thread's history of observed values agree.
  bool state_based = false;
  virtual uint64_t mhash() { return 0; }
  virtual void thread(int tid) = 0;       // 1..nthreads
  virtual void finish() = 0;              // after every complete execution: the oracle
  virtual std::string outcome() { return ""; }
  virtual bool ignore_deadlock() { return false; }   // the execution is then dropped
  virtual void during() {}                // invariant at every scheduling decision
};
struct ConcOpts { int preemptions = -1; uint64_t max_exec = 0; int max_steps = 20000; };
extern int conc_tid[17];                  // thread identity shown to the library, by conc_self()
void conc_explore(ConcSys &s, ConcOpts o, const std::string &name);
