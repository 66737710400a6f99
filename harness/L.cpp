// L01/L02: the address locks (SASLock/SASUnlock) under every interleaving.
#include "conc_common.h"
#include <unistd.h>
struct Op { char k; int a; };          // 'W'/'R' lock, 'u' unlock, 'w' wait for another thread's 's' (number a)
static bool L01() { return opts.prop == "L01"; }
static char *AD[8]; static size_t node_cost;
static bool same_slot_found;
// addresses 0..3 share a lock-table entry (found by watching the lock heap), 4..7 are in other entries
static void addresses() {
  track_push();
  char *base = (char *)getMemLow(); auto one = [](void *a) { SASLock((vm_address_t)a, SasUserLock__WRITE); SASUnlock((vm_address_t)a); };
  size_t f0 = lock_heap_free(); AD[0] = base + 0x10000; one(AD[0]); size_t f1 = lock_heap_free(); node_cost = f0 - f1;
  int n = 1; for (int i = 2; i < 4000 && n < 4; i++) { char *x = base + 0x10000 * i; size_t f = lock_heap_free(); track_push(); one(x); bool same = lock_heap_free() == f; track_pop(); if (same) AD[n++] = x; }
  same_slot_found = n == 4 && node_cost > 0;
  for (int i = n; i < 4; i++) AD[i] = base + 0x10000 * (5000 + i);
  n = 4; for (int i = 2; i < 4000 && n < 8; i++) { char *x = base + 0x10000 * i; size_t f = lock_heap_free(); one(x); if (lock_heap_free() != f || node_cost == 0) AD[n++] = x; }
  track_pop();
}
struct LSys : ConcSys {
  std::string nm; std::vector<Op> prog[5]; std::vector<Op> pre; int pre_tid = 0; bool independence = false;
  std::vector<std::pair<int, int>> pre_readers;     // (address, thread identity) read locks held at the start
  int wr[8], wcnt[8], rd[8][32]; bool sig[8]; int maxaddr; size_t free0;
  LSys() { state_based = true; }
  uint64_t mhash() override { uint64_t h = hash_bytes(wr, sizeof wr, 1); h = hash_bytes(wcnt, sizeof wcnt, h); h = hash_bytes(rd, sizeof rd, h); h = hash_bytes(sig, sizeof sig, h); return hash_bytes(conc_tid, sizeof conc_tid, h); }
  void share() override { share_locks(); }
  void setup() override {
    memset(wr, 0, sizeof wr); memset(wcnt, 0, sizeof wcnt); memset(rd, 0, sizeof rd); memset(sig, 0, sizeof sig);
    free0 = lock_heap_free();
    for (auto &p : pre_readers) { conc_tid[0] = p.second; SASLock((vm_address_t)AD[p.first], SasUserLock__READ); rd[p.first][p.second]++; }
    conc_tid[0] = 0;
    for (auto &o : pre) step(0, o);                 // what happened before (single threaded)
  }
  void step(int t, const Op &o) {
    int id = conc_tid[t];
    if (o.k == 'W' || o.k == 'R') {
      conc_event(0);
      SASLock((vm_address_t)AD[o.a], o.k == 'W' ? SasUserLock__WRITE : SasUserLock__READ);
      conc_event(1);
      bool own = wr[o.a] == id && wcnt[o.a];
      if (L01()) {
        MC_CHECK(!wcnt[o.a] || own, "exclusion", "thread %d got a %s lock on address %d while thread %d holds the write lock", id, o.k == 'W' ? "write" : "read", o.a, wr[o.a]);
        if (o.k == 'W') for (int i = 0; i < 32; i++) MC_CHECK(!rd[o.a][i] || own, "exclusion", "thread %d got the write lock on address %d while thread %d holds a read lock", id, o.a, i);
      }
      if (o.k == 'W' || own) { wr[o.a] = id; wcnt[o.a]++; } else rd[o.a][id]++;
    } else if (o.k == 'u') {
      if (wcnt[o.a] && wr[o.a] == id) wcnt[o.a]--; else if (rd[o.a][id] > 0) rd[o.a][id]--;
      conc_event(0);
      SASUnlock((vm_address_t)AD[o.a]);
      conc_event(1);
    } else if (o.k == 's') sig[o.a] = true;
    else if (o.k == 'w') { int k = o.a; conc_block([this, k]() { return sig[k]; }, "waiting for another thread's progress"); }
  }
  void thread(int t) override { for (auto &o : prog[t]) step(t, o); }
  bool ignore_deadlock() override { return L01() && !independence; }
  void finish() override {
    st.evaluations++;
    if (L01()) return;
    // nothing may be left behind: a fresh thread can take every lock at once, and the table has not grown
    conc_tid[0] = 30;
    std::set<int> used; for (int t = 0; t < 5; t++) for (auto &o : prog[t]) if (o.k == 'W' || o.k == 'R') used.insert(o.a); for (auto &o : pre) if (o.k == 'W' || o.k == 'R') used.insert(o.a); for (auto &p : pre_readers) used.insert(p.first);
    where = nm + ": locking every address after all locks were released";
    for (int rnd = 0; rnd < 2; rnd++) {
      for (int a : used) SASLock((vm_address_t)AD[a], rnd ? SasUserLock__READ : SasUserLock__WRITE);
      for (int a : used) SASUnlock((vm_address_t)AD[a]);
    }
    if (same_slot_found) {
      // as many other addresses of the same table entry: no new entries may be needed beyond one per address
      std::vector<int> s; for (int a : used) if (a < 4) s.push_back(a);
      std::vector<char *> fr; for (size_t i = 0; i < s.size(); i++) fr.push_back(FR[i]);
      for (char *x : fr) SASLock((vm_address_t)x, SasUserLock__WRITE);
      for (char *x : fr) SASUnlock((vm_address_t)x);
      size_t lost = free0 - lock_heap_free();
      MC_CHECK(lost <= node_cost * used.size(), "table-growth", "after all locks were released, locking %zu other addresses of the same table entry needed new entries: lock heap use grew by %zu bytes, at most %zu can be needed", fr.size(), lost, node_cost * used.size());
    }
    conc_tid[0] = 0;
  }
  static char *FR[4];
};
char *LSys::FR[4];
static std::vector<Op> P(const char *s) {          // "W0 u0 R1 u1"
  std::vector<Op> v; for (; *s; s++) if (*s != ' ') { Op o; o.k = *s++; o.a = *s - '0'; v.push_back(o); } return v;
}
static bool inited;
static void init() {
  if (inited) return; inited = true;
  join_region(); track_region(); addresses();
  if (same_slot_found) {                            // four more addresses of the same entry
    track_push(); char *base = (char *)getMemLow(); SASLock((vm_address_t)AD[0], SasUserLock__WRITE); SASUnlock((vm_address_t)AD[0]);
    int n = 0; for (int i = 4000; i < 20000 && n < 4; i++) { char *x = base + 0x10000 * i; size_t f = lock_heap_free(); track_push(); SASLock((vm_address_t)x, SasUserLock__WRITE); SASUnlock((vm_address_t)x); bool same = lock_heap_free() == f; track_pop(); if (same) LSys::FR[n++] = x; }
    track_pop(); if (n < 4) same_slot_found = false;
  }
}
struct Sc { const char *name, *pre, *p1, *p2, *p3, *p4; int pb, pbt; bool indep; };
static void run(const std::vector<Sc> &v) {
  init();
  for (auto &c : v) {
    LSys s; s.nm = c.name; s.pre = P(c.pre); const char *p[4] = {c.p1, c.p2, c.p3, c.p4}; s.nthreads = 0;
    for (int i = 0; i < 4; i++) if (p[i]) { s.prog[i + 1] = P(p[i]); s.nthreads = i + 1; }
    s.independence = c.indep;
    ConcOpts o; o.preemptions = opts.thorough ? c.pbt : c.pb; o.max_steps = 60000;
    conc_explore(s, o, strf("%s, preemption bound %d", c.name, o.preemptions));
  }
}
MC_CONFIG(two, "two-threads", 8, 8) {
  run({
    {"writer/writer", "", "W0u0", "W0u0", 0, 0, -1, -1, false},
    {"reader/writer", "", "R0u0", "W0u0", 0, 0, -1, -1, false},
    {"reader/reader", "", "R0u0", "R0u0", 0, 0, -1, -1, false},
    {"writer/writer, warm table", "W0u0W1u1", "W0u0", "W0u0", 0, 0, -1, -1, false},
    {"two addresses, one table entry", "", "W0u0", "W1u1", 0, 0, -1, -1, false},
    {"two addresses, one warm table entry", "W2u2", "W0u0", "W1u1", 0, 0, -1, -1, false},
    {"two addresses, two table entries", "", "W4u4", "W5u5", 0, 0, -1, -1, false},
    {"nested write and read under write", "W0u0", "W0W0R0u0u0u0", "W0u0", 0, 0, 3, -1, false},
    {"nested read", "W0u0", "R0R0u0u0", "W0u0", 0, 0, 3, -1, false},
    {"crossing addresses", "", "W0u0W1u1", "W1u1W0u0", 0, 0, 2, 4, false},
    {"held pair", "", "W0W1u1u0", "W1u1R0u0", 0, 0, 2, 4, false},
    {"repeated write", "W0u0", "W0u0W0u0", "W0u0W0u0", 0, 0, 2, 4, false},
    {"repeated read/write", "W0u0", "R0u0W0u0", "W0u0R0u0", 0, 0, 2, 4, false},
  });
}
MC_CONFIG(indep, "independence", 8, 8) {
  run({
    {"other address of the same entry while one is held", "", "W0w1u0", "W1u1s1", 0, 0, -1, -1, true},
    {"other address of the same entry while one is held, warm", "W2u2", "W0w1u0", "W1u1s1", 0, 0, -1, -1, true},
    {"other address of another entry while one is held", "", "W0w1u0", "W4u4s1", 0, 0, -1, -1, true},
    {"second reader while one reads", "", "R0w1u0", "R0u0s1", 0, 0, -1, -1, true},
    {"two holders of two addresses wait for a third", "W2u2", "W0w1u0", "W1w1u1", "W3u3s1", 0, 2, 3, true},
    {"holder, waiter, and another address", "W2u2", "W0w1u0", "W0u0", "W1u1s1", 0, 2, 3, true},
    {"reader holds, another address", "W2u2", "R0w1u0", "R0u0", "W1u1s1", 0, 2, 3, true},
  });
}
MC_CONFIG(three, "three-threads", 8, 8) {
  run({
    {"three writers", "W0u0", "W0u0", "W0u0", "W0u0", 0, 2, 3, false},
    {"reader and two writers", "W0u0", "R0u0", "W0u0", "W0u0", 0, 2, 3, false},
    {"two readers and a writer", "W0u0", "R0u0", "R0u0", "W0u0", 0, 2, 3, false},
    {"writers of two addresses, one entry", "W2u2", "W0u0", "W1u1", "W0u0", 0, 2, 3, false},
    {"reader and writers of two addresses, one entry", "", "R0u0", "W1u1", "W0u0", 0, 2, 3, false},
    {"three addresses, one entry", "", "W0u0", "W1u1", "W2u2", 0, 2, 3, false},
    {"three entries", "", "W4u4", "W5u5", "W6u6", 0, 2, 3, false},
  });
}
MC_CONFIG(four, "four-threads", 8, 8) {
  run({
    {"reader and three writers", "W0u0", "R0u0", "W0u0", "W0u0", "W0u0", 1, 2, false},
    {"two readers and two writers", "W0u0", "R0u0", "R0u0", "W0u0", "W0u0", 1, 2, false},
    {"two addresses, two threads each", "W0u0", "W0u0", "W0u0", "W1u1", "W1u1", 1, 2, false},
    {"mixed readers and writers of two addresses", "W0u0", "R0u0", "W0u0", "R1u1", "W1u1", 1, 2, false},
  });
}
// more readers than the lock object has places for
static void many(int holders, const char *p1, const char *p2, const char *p3, bool ident) {
  LSys s; s.nm = strf("%d readers at the start", holders);
  for (int i = 0; i < holders; i++) s.pre_readers.push_back({0, 10 + i});
  // thread 1 releases the first holder's lock, the others are new
  s.prog[1] = P(p1); s.prog[2] = P(p2); s.nthreads = 2; if (p3) { s.prog[3] = P(p3); s.nthreads = 3; }
  conc_tid[1] = 10; s.independence = true;
  // the remaining holders are released by thread 1 as well, one after the other
  struct Rel : LSys { int holders; void thread(int t) override { if (t != 1) { LSys::thread(t); return; } for (int i = 0; i < holders; i++) { conc_tid[1] = 10 + i; step(1, {'u', 0}); } conc_tid[1] = 10; } };
  Rel r; (LSys &)r = s; r.holders = holders;
  ConcOpts o; o.preemptions = opts.thorough ? (p3 ? 2 : 3) : (p3 ? 1 : 2); o.max_steps = 60000;
  conc_explore(r, o, strf("%s; %s | %s, preemption bound %d", s.nm.c_str(), p2, p3 ? p3 : "", o.preemptions));
  conc_tid[1] = 1;
}
MC_CONFIG(manyr, "many-readers", 4, 8) {
  init();
  for (int h : {9, 10}) { many(h, "", "R0u0", 0, false); many(h, "", "R0u0", "R0u0", false); many(h, "", "R0u0", "W0u0", false); many(h, "", "W0u0", 0, false); }
}
