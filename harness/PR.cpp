// M03, M04 (and the parts of L01, C01 and G01 that concern several processes): real processes on real stores.  The
// library's system calls are redirected to the pr_ functions below: each is a point at which the controller can hold
// the process, let another one go first, kill it, or make the call fail.
#include "mc.h"
#include "sassim.h"
#include "saslock.h"
#include "sasalloc.h"
#include "sasshm.h"
#include "sasmsync.h"
#include "sassimpleheap.h"
#include "sasstringbtree.h"
#include "sphcontext.h"
#include "sphlflogger.h"
#include "sphlflogentry.h"
#include <atomic>
#include <algorithm>
#include <errno.h>
#include <fcntl.h>
#include <dirent.h>
#include <poll.h>
#include <linux/futex.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <sys/file.h>
#include <sys/ipc.h>
#include <sys/mman.h>
#include <sys/shm.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <sys/prctl.h>
using namespace mc;
typedef unsigned long U; typedef std::string S;
enum { RUN, POINT, BLOCKED, DONE, GONE, STUCK };
struct Slot { std::atomic<int> go, st; int pid; bool other, points; char what[120]; int calls, kill_at, fail_at, fail_errno; char failed[40]; unsigned seen_rel, seen_step; bool yield; int cmd; U arg[4]; long res[4]; };
struct Blk { char *p; U n; U tag; };
struct Ctl { int pid; std::atomic<int> note; std::atomic<unsigned> rel, step; Slot s[4]; int nblk; Blk blk[128]; int nshm; int shm[64]; int nsem; struct { void *a; int shared; int by; } sem[8192]; std::atomic<int> readers, writers; char text[4][200]; char prog[4][64]; U out[4][640]; int nout[4]; };
static Ctl *ctl; static int me = -1; static const int NP = 4;
static void fwait(std::atomic<int> *a, int v, int ms) { struct timespec t{ms / 1000, ms % 1000 * 1000000}; syscall(SYS_futex, a, FUTEX_WAIT, v, ms < 0 ? nullptr : &t, nullptr, 0); }
static void fwake(std::atomic<int> *a) { syscall(SYS_futex, a, FUTEX_WAKE, 99, nullptr, nullptr, 0); }
static Slot &my() { return ctl->s[me]; }
static void tell(int st) { my().st = st; ctl->note++; fwake(&ctl->note); }
static void pause_(int st) { Slot &s = my(); s.go = 0; tell(st); while (!s.go) { fwait(&s.go, 0, 3000); if (!s.go && kill(ctl->pid, 0)) _exit(0); } s.st = RUN; }
// a point before a call; true: the call fails
static bool point(const char *what, const char *arg, bool shared, bool can_fail) {
  if (me < 0) return false; Slot &s = my(); int e = errno; int n = ++s.calls;
  if (n == s.kill_at) { raise(SIGKILL); for (;;) pause(); }
  if (s.points && shared) { snprintf(s.what, sizeof s.what, "%s %s", what, arg ? arg : ""); pause_(POINT); }
  errno = e; if (can_fail && n == s.fail_at) { snprintf(s.failed, sizeof s.failed, "%s", what); errno = s.fail_errno; return true; } return false; }
static void blocked(const char *what, bool yield) { Slot &s = my(); snprintf(s.what, sizeof s.what, "%s", what); s.seen_rel = ctl->rel; s.seen_step = ctl->step; s.yield = yield; pause_(BLOCKED); }
static void rel() { if (me >= 0) ctl->rel++; }
static const char *base(const char *p) { const char *b = strrchr(p, '/'); return b ? b + 1 : p; }
extern "C" {
int pr_open(const char *p, int fl, ...) { va_list a; va_start(a, fl); int mode = va_arg(a, int); va_end(a); if (point(fl & O_CREAT ? "open-create" : "open", base(p), true, true)) return -1; return open(p, fl, mode); }
int pr_close(int fd) { if (point("close", 0, false, false)) return -1; int r = close(fd); rel(); return r; }
int pr_ftruncate(int fd, off_t n) { if (point("ftruncate", 0, true, true)) return -1; return ftruncate(fd, n); }
int pr_stat(const char *p, struct stat *b) { if (point("stat", base(p), true, false)) return -1; return stat(p, b); }
int pr_fstat(int fd, struct stat *b) { if (point("fstat", 0, true, false)) return -1; return fstat(fd, b); }
int pr_access(const char *p, int m) { if (point("access", base(p), true, false)) return -1; return access(p, m); }
int pr_remove(const char *p) { if (point("remove", base(p), true, false)) return -1; return remove(p); }
int pr_unlink(const char *p) { if (point("unlink", base(p), true, false)) return -1; return unlink(p); }
int pr_link(const char *p, const char *q) { if (point("link", base(q), true, true)) return -1; return link(p, q); }
int pr_rename(const char *p, const char *q) { if (point("rename", base(q), true, true)) return -1; return rename(p, q); }
void *pr_mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) { if (point("mmap", 0, fl & MAP_SHARED, fl & MAP_SHARED)) return MAP_FAILED; return mmap(a, n, pr, fl, fd, o); }
int pr_munmap(void *a, size_t n) { if (point("munmap", 0, false, false)) return -1; return munmap(a, n); }
int pr_msync(void *a, size_t n, int f) { if (point("msync", 0, false, true)) return -1; return msync(a, n, f); }
int pr_madvise(void *a, size_t n, int f) { if (point("madvise", 0, false, true)) return -1; return madvise(a, n, f); }
int pr_shmget(key_t k, size_t n, int f) { if (point("shmget", 0, true, !(f & IPC_EXCL))) return -1; int r = shmget(k, n, f); if (r >= 0 && me >= 0 && ctl->nshm < 64) { int e = errno; ctl->shm[ctl->nshm++] = r; errno = e; } return r; }
void *pr_shmat(int id, const void *a, int f) { if (point("shmat", 0, true, true)) return (void *)-1; return shmat(id, a, f); }
int pr_shmdt(const void *a) { if (point("shmdt", 0, false, false)) return -1; return shmdt(a); }
int pr_shmctl(int id, int c, struct shmid_ds *b) { if (point("shmctl", 0, true, false)) return -1; return shmctl(id, c, b); }
static int semat(void *a) { unsigned i = ((U)a * 0x9e3779b97f4a7c15ull) >> 51; while (ctl->sem[i].a && ctl->sem[i].a != a) i = (i + 1) % 8192; return i; }
int pr_sem_init(sem_t *s, int sh, unsigned v) { static int k; if (me >= 0 && my().calls == 0) k = 0; if (k++ < 3 || k % 64 == 0) point("sem_init", 0, true, false); if (me >= 0) { int i = semat(s); if (!ctl->sem[i].a && ctl->nsem < 8000) ctl->nsem++; if (ctl->nsem < 8000) ctl->sem[i] = {s, sh, me}; } int r = sem_init(s, sh, v); rel(); return r; }
int pr_sem_destroy(sem_t *s) { return 0; }
static bool foreign(sem_t *s) { int i = semat(s); return ctl->sem[i].a && !ctl->sem[i].shared; }
int pr_sem_post(sem_t *s) { int r = sem_post(s); rel(); return r; }
int pr_sem_trywait(sem_t *s) { point("sem_trywait", 0, true, false); return sem_trywait(s); }
// a process that waits on a semaphore which is not shared between processes is not woken by another one
int pr_sem_wait(sem_t *s) { point("sem_wait", 0, true, false); if (me < 0) return sem_wait(s); for (;;) { if (!sem_trywait(s)) return 0; if (errno != EAGAIN) return -1; if (!my().points) return sem_wait(s); if (foreign(s)) for (;;) { blocked("sem_wait on a semaphore of one process", false); my().seen_rel = ctl->rel; } blocked("sem_wait", false); } }
int pr_sem_timedwait(sem_t *s, const struct timespec *) { return pr_sem_wait(s); }
int pr_flock(int fd, int op) { if (point("flock", op & LOCK_UN ? "unlock" : "lock", !(op & LOCK_UN), true)) return -1; if (me < 0 || (op & (LOCK_UN | LOCK_NB))) { int r = flock(fd, op); rel(); return r; } for (;;) { int r = flock(fd, op | LOCK_NB); if (!r || errno != EWOULDBLOCK) return r; if (!my().points) return flock(fd, op); blocked("flock", false); } }
int pr_lockf(int fd, int op, off_t n) { if (point("lockf", 0, op != F_ULOCK, true)) return -1; if (me < 0 || op != F_LOCK) { int r = lockf(fd, op, n); rel(); return r; } for (;;) { int r = lockf(fd, F_TLOCK, n); if (!r || (errno != EACCES && errno != EAGAIN)) return r; if (!my().points) return lockf(fd, op, n); blocked("lockf", false); } }
int pr_fcntl(int fd, int op, ...) { va_list a; va_start(a, op); void *p = va_arg(a, void *); va_end(a); if (point("fcntl", 0, true, true)) return -1; if (me < 0 || (op != F_SETLKW && op != F_OFD_SETLKW)) { int r = fcntl(fd, op, p); rel(); return r; } for (;;) { int r = fcntl(fd, op == F_SETLKW ? F_SETLK : F_OFD_SETLK, p); if (!r || (errno != EACCES && errno != EAGAIN)) { rel(); return r; } if (!my().points) return fcntl(fd, op, p); blocked("fcntl lock", false); } }
static void nap(const char *w) { if (me >= 0 && my().points) blocked(w, true); else usleep(1000); }
int pr_usleep(unsigned) { nap("usleep"); return 0; } int pr_nanosleep(const struct timespec *, struct timespec *) { nap("nanosleep"); return 0; } unsigned pr_sleep(unsigned) { nap("sleep"); return 0; } int pr_sched_yield() { nap("sched_yield"); return 0; }
}
// ---------------------------------------------------------------- what a process does
enum { JOIN, ALLOC, FREE, WRITE, VERIFY, CLEANUP, REMOVE, RESET, RESETSEM, LISTS, MSYNC, LOCKED, PROJECT, PFIND, PROG, IDENT, CURRENT, JOINPATH, FDS, FORK, CCREATE, CADD, CFIND, TOUCH, UTIL, BIG, HOLD, MANY };
#ifdef PR_U01
static void util_exec(U *a, long *r);
#endif
static S dirs[2]; static const U LX = 0x300000;
static_assert(sizeof(Ctl::out) >= 0, ""); static U word(char *p, U off, U tag) { return mix((U)p + off, tag); }
static std::vector<U> offs(U n) { std::vector<U> v{64, n - 8}; if (n > 8192) { v.push_back(n / 2); v.push_back(4096 + 128); } return v; }
static void fill(char *p, U n, U tag) { for (U o : offs(n)) *(U *)(p + o) = word(p, o, tag); }
static long bad(const Blk &b) { for (U o : offs(b.n)) if (*(volatile U *)(b.p + o) != word(b.p, o, b.tag)) return o; return -1; }
typedef void Lister(void **, unsigned long *, int *);
static void list(Lister *f, std::vector<std::pair<U, U>> &v) { static void *a[4096]; static U n[4096]; int c = 0; f(a, n, &c); for (int i = 0; i < c; i++) v.push_back({(U)a[i], n[i]}); std::sort(v.begin(), v.end()); }
static std::atomic<int> &lockw() { return ctl->writers; }
// L: the write lock of one address, with a look round inside; K: nested; R: the read lock; a A: a block of 1M, of a whole segment; f: frees its last; v: verifies all
static void locked(bool wr, bool nested) {
  vm_address_t x = (vm_address_t)(__SAS_BASE_ADDRESS + LX); SASLock(x, wr ? SasUserLock__WRITE : SasUserLock__READ); if (nested) SASLock(x, wr ? SasUserLock__WRITE : SasUserLock__READ);
  if (wr) { int w = ctl->writers++, r = ctl->readers; if (w || r) snprintf(ctl->text[me], 200, "a process has the write lock while another has the %s lock", w ? "write" : "read"); } else { ctl->readers++; if (ctl->writers) snprintf(ctl->text[me], 200, "a process has the read lock while another has the write lock"); }
  point("holding the lock", 0, true, false); if (nested) { SASUnlock(x); point("holding the lock once", 0, true, false); }
  if (wr) { if (ctl->writers != 1 || ctl->readers) snprintf(ctl->text[me], 200, "another process got a lock while one held the write lock"); ctl->writers--; } else { if (ctl->writers) snprintf(ctl->text[me], 200, "another process got the write lock while one held the read lock"); ctl->readers--; }
  SASUnlock(x); }
static void record(char *p, U n, U tag) { fill(p, n, tag); int k = ctl->nblk++; ctl->blk[k] = {p, n, tag}; }
static long verify() { for (int i = 0; i < ctl->nblk; i++) if (ctl->blk[i].p) { long o = bad(ctl->blk[i]); if (o >= 0) { snprintf(ctl->text[me], 200, "the block at %p of %lu bytes has changed at offset %ld", ctl->blk[i].p, ctl->blk[i].n, o); return i + 1; } } return 0; }
static void loop();
static void exec() {
  Slot &s = my(); U *a = s.arg; long *r = s.res; r[0] = 0; r[1] = 0; switch (s.cmd) {
    case JOIN: r[0] = a[1] == 2 ? SASJoinRegionByName((dirs[a[0]] + "/").c_str()) : a[1] ? (setenv("SASSTOREPATH", dirs[a[0]].c_str(), 1), SASJoinRegion()) : SASJoinRegionByName(dirs[a[0]].c_str()); break;
    case ALLOC: { char *p = (char *)SASBlockAlloc(a[0]); r[0] = (long)p; if (p) fill(p, a[0], a[1]); break; }
    case FREE: SASBlockDealloc((void *)a[0], a[1]); break;
    case WRITE: fill((char *)a[0], a[1], a[2]); break;
    case VERIFY: r[0] = verify(); break;
    case CLEANUP: SASCleanUp(); break; case REMOVE: SASRemove(); break; case RESET: SASReset(); break; case RESETSEM: SASResetSem(); break;
    case LISTS: { U h = 0; ctl->nout[me] = 0; std::vector<std::pair<U, U>> v; Lister *f[] = {SASListInUseMem, SASListAllocatedRegion, SASListFreeMem, SASListUncommittedMem, SASListFreeRegion}; for (auto x : f) { v.clear(); list(x, v); U t = 0; for (auto &y : v) { h = mix(h, mix(y.first, y.second)); t += y.second; } ctl->out[me][ctl->nout[me]++] = t; } h = mix(h, SASAnchorFreeSpace()); h = mix(h, getSASUseListFlag()); r[0] = (long)(h >> 1); break; }
    case MSYNC: { char *p = (char *)a[0] + a[2] % 3 * 100; U n = a[1] - a[2] % 3 * 200; switch (a[2]) { case 0: case 1: r[0] = sasMsyncRelease(p, n); break; case 2: r[0] = sasMsyncPurge(p, n, 0); break; case 3: r[0] = sasMsyncPurge(p, n, 1); break; case 4: r[0] = sasMsyncBring(p, n); break; case 5: r[0] = sasMsyncSequential(p, n); break; case 6: r[0] = sasMsyncRandom(p, n); break; case 7: r[0] = sasMsyncWrite(p, n, 0); break; case 8: r[0] = sasMsyncWrite(p, n, 1); break; } break; }
    case LOCKED: locked(a[0], false); break;
    case PROJECT: r[0] = (long)SPHSetupProjectContext("proj"); break;
    case FORK: { signal(SIGCHLD, SIG_IGN); int p = fork(); if (!p) { me = a[0]; loop(); } r[0] = p; break; }
    case CURRENT: r[0] = (long)getCurrentProjectContext(); break;
    case JOINPATH: { S p((char *)ctl->out[0], a[0]); if (a[1] == 2) { unsetenv("SASSTOREPATH"); r[1] = chdir(p.c_str()); r[0] = SASJoinRegion(); } else if (a[1] == 3) r[0] = SASJoinRegionByName(0); else if (a[1]) { setenv("SASSTOREPATH", p.c_str(), 1); r[0] = SASJoinRegion(); } else r[0] = SASJoinRegionByName(p.c_str()); break; }
    case FDS: { DIR *D = opendir("/proc/self/fd"); while (readdir(D)) r[0]++; closedir(D); FILE *f = fopen("/proc/self/maps", "r"); int c; while ((c = fgetc(f)) != EOF) r[1] += c == '\n'; fclose(f); struct sigaction sa; sigaction(SIGSEGV, 0, &sa); r[2] = sa.sa_handler != SIG_DFL; break; }
    case PFIND: r[0] = (long)getProjectContextByName("proj"); break;
    case CADD: r[0] = SPHContextAddName((SPHContext_t)a[0], "entry", (void *)a[1]); break;
    case CFIND: r[0] = (long)SPHContextFindByName((SPHContext_t)a[0], "entry"); break;
#ifdef PR_U01
    case UTIL: case BIG: case HOLD: case MANY: util_exec(a, r); break;
#endif
    case TOUCH: r[0] = *(volatile char *)a[0]; break;
    case PROG: for (char *c = ctl->prog[me]; *c; c++) switch (*c) {
        case 'J': { long rc = SASJoinRegionByName(dirs[0].c_str()); if (rc) { r[0] = rc; snprintf(ctl->text[me], 200, "joining returned %ld", rc); return; } r[1] = 1; break; }
        case 'a': case 'A': { U n = *c == 'a' ? 1 << 20 : SegmentSize; char *p = (char *)SASBlockAlloc(n); if (!p) { r[0] = 1; snprintf(ctl->text[me], 200, "a block of %lu bytes was refused", n); return; } record(p, n, 77 + me * 10 + ctl->nblk); break; }
        case 'f': for (int i = ctl->nblk - 1; i >= 0; i--) if (ctl->blk[i].p && ctl->blk[i].tag >= 77 + me * 10ul && ctl->blk[i].tag < 87 + me * 10ul + 0 * ctl->nblk) { Blk b = ctl->blk[i]; ctl->blk[i].p = 0; SASBlockDealloc(b.p, b.n); break; } break;
        case 'v': if (verify()) { r[0] = 1; return; } break;
        case 'L': locked(true, false); break; case 'K': locked(true, true); break; case 'R': locked(false, false); break; case 'Q': locked(false, true); break;
        case 'h': case 'H': { vm_address_t x = (vm_address_t)(__SAS_BASE_ADDRESS + LX); for (int i = 0; i < 2; i++) SASLock(x, *c == 'h' ? SasUserLock__WRITE : SasUserLock__READ); break; }   // never given back
        case 'r': SASLockReset(); break;
        case 'c': SASCleanUp(); break; }
      break;
    case IDENT: { // a logger entry made by a child of a process that has made one
      SPHLFLogger_t l = SPHLFLoggerCreate(65536); SPHLFLoggerHandle_t h; auto one = [&](long *o) { SPHLFLoggerHandle_t *e = SPHLFLoggerAllocTimeStamped(l, 1, 1, 32, &h); if (e) SPHLFLogEntryComplete(e); o[0] = e ? SPHLFLogEntryPID(e) : -1; o[1] = e ? SPHLFLogEntryTID(e) : -1; };
      long *sh = (long *)ctl->out[me]; one(sh); sh[2] = getpid(); sh[3] = syscall(SYS_gettid); pid_t c = fork(); if (!c) { one(sh + 4); sh[6] = getpid(); sh[7] = syscall(SYS_gettid); _exit(0); } int w; waitpid(c, &w, 0); break; }
  } }
static void child() { prctl(PR_SET_PDEATHSIG, SIGKILL); if (!getenv("MC_DEBUG")) { int n = open("/dev/null", O_RDWR); dup2(n, 1); dup2(n, 2); } for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGALRM}) signal(s, SIG_DFL); loop(); }
static void loop() { for (;;) { pause_(DONE); exec(); } }
// ---------------------------------------------------------------- the controller
static bool gone(int i) { Slot &s = ctl->s[i]; int w; if (s.pid && s.other) { if (waitpid(s.pid, &w, WNOHANG) != s.pid && !kill(s.pid, 0)) return false; s.pid = 0; s.st = GONE; snprintf(s.what, sizeof s.what, "signal"); ctl->rel++; return true; } if (s.pid && waitpid(s.pid, &w, WNOHANG) == s.pid) { s.pid = 0; s.st = GONE; snprintf(s.what, sizeof s.what, WIFSIGNALED(w) ? "signal %d" : "exit %d", WIFSIGNALED(w) ? WTERMSIG(w) : WEXITSTATUS(w)); ctl->rel++; return true; } return s.pid == 0; }
static void until_rest(int i, int ms) { Slot &s = ctl->s[i]; struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0); heartbeat(); for (;;) { int n = ctl->note; if (s.st != RUN) return; if (gone(i)) return; fwait(&ctl->note, n, 2); if (s.st != RUN) return; clock_gettime(CLOCK_MONOTONIC, &t1); if ((t1.tv_sec - t0.tv_sec) * 1000 + (t1.tv_nsec - t0.tv_nsec) / 1000000 > ms) return; } }
static void kill_(int i) { Slot &s = ctl->s[i]; if (s.pid) { kill(s.pid, SIGKILL); int w; if (s.other) while (waitpid(s.pid, &w, WNOHANG) != s.pid && !kill(s.pid, 0)) usleep(50); else waitpid(s.pid, &w, 0); s.pid = 0; } s.st = GONE; ctl->rel++; }
static void spawn(int i) { kill_(i); Slot &s = ctl->s[i]; memset((void *)&s, 0, sizeof s); fflush(stdout); fflush(stderr); s.st = RUN; int pid = fork(); if (!pid) { me = i; child(); _exit(0); } s.pid = pid; until_rest(i, 20000); if (s.st != DONE) { fprintf(stderr, "a process did not start\n"); _exit(3); } }
static void start(int i, int cmd, U a = 0, U b = 0, U c = 0, bool points = false) { Slot &s = ctl->s[i]; s.cmd = cmd; s.arg[0] = a; s.arg[1] = b; s.arg[2] = c; s.points = points; s.calls = 0; s.failed[0] = 0; ctl->text[i][0] = 0; s.st = RUN; s.go = 1; fwake(&s.go); }
static int LIMIT = 10000;
// returns true if it came back; a crash or a hang is reported unless `quiet`
static bool call(int i, int cmd, U a = 0, U b = 0, U c = 0, bool quiet = false) {
  start(i, cmd, a, b, c); until_rest(i, LIMIT); st.transitions++; Slot &s = ctl->s[i]; if (s.st == DONE) return true; if (quiet && s.st == GONE) return false;
  if (s.st == GONE) violation("process-crash", "process %d ended by %s, after %s", i + 1, s.what, where.c_str()); else { kill_(i); violation("process-hang", "process %d did not come back, after %s", i + 1, where.c_str()); } return false; }
static void fork_from(int i, int j) { kill_(j); Slot &s = ctl->s[j]; memset((void *)&s, 0, sizeof s); s.st = RUN; s.other = true; if (!call(i, FORK, j)) return; s.pid = ctl->s[i].res[0]; until_rest(j, 20000); if (s.st != DONE) { fprintf(stderr, "a forked process did not start\n"); _exit(3); } }
static long res(int i) { return ctl->s[i].res[0]; }
static std::vector<S> files(int d) { std::vector<S> v; DIR *D = opendir(dirs[d].c_str()); while (D) { auto *e = readdir(D); if (!e) break; if (e->d_name[0] != '.') v.push_back(e->d_name); } if (D) closedir(D); return v; }
static void wipe() { for (int i = 0; i < NP; i++) kill_(i); for (int d = 0; d < 2; d++) for (auto &f : files(d)) unlink((dirs[d] + "/" + f).c_str()); for (int i = 0; i < ctl->nshm; i++) shmctl(ctl->shm[i], IPC_RMID, 0); ctl->nshm = 0; ctl->nblk = 0; if (ctl->nsem) memset(ctl->sem, 0, sizeof ctl->sem); ctl->nsem = 0; ctl->readers = 0; ctl->writers = 0; }
static void setup() {
  replay_extra = [] { for (int i = 0; ctl && i < NP; i++) kill_(i); for (int i = 0; ctl && i < ctl->nshm; i++) shmctl(ctl->shm[i], IPC_RMID, 0); return S(); };
  ctl = (Ctl *)mmap(0, sizeof(Ctl), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); ctl->pid = getpid(); prctl(PR_SET_CHILD_SUBREAPER, 1); for (int d = 0; d < 2; d++) { dirs[d] = opts.scratch + strf("/p%d", d); mkdir(dirs[d].c_str(), 0700); } watchdog(60); wipe(); }
static U stores_hash() { U h = 0; for (int d = 0; d < 2; d++) { auto v = files(d); std::sort(v.begin(), v.end()); for (auto &f : v) { h = mix(h, hash_bytes(f.data(), f.size(), d)); int fd = open((dirs[d] + "/" + f).c_str(), O_RDONLY); off_t at = 0; static char buf[1 << 16]; for (;;) { off_t x = lseek(fd, at, SEEK_DATA); if (x < 0) break; off_t y = lseek(fd, x, SEEK_HOLE); for (off_t o = x; o < y; o += sizeof buf) { ssize_t n = pread(fd, buf, std::min<off_t>(sizeof buf, y - o), o); if (n <= 0) break; for (ssize_t q = 0; q < n; q += 4096) { bool z = true; for (int w = 0; w < 512 && z; w++) z = !((U *)(buf + q))[w]; if (!z) h = mix(h, hash_bytes(buf + q, 4096, o + q)); } } at = y; } close(fd); } } return h; }
static std::vector<U> SIZES; static int NPROC, NSTORE, KINDS; static U NFRESH = 0; static U fresh_hash[2];
// what a new region looks like: joined by one process, nothing done
static void measure() { for (int d = 0; d < 2; d++) { wipe(); spawn(0); where = "joining a new store"; call(0, JOIN, d); MC_CHECK(res(0) == 0, "join", "joining a new store returned %ld", res(0)); call(0, LISTS); fresh_hash[d] = res(0); } wipe(); }
// ---- histories of whole operations
struct P { bool up = false; int store = -1; U ctx = 0; };
struct Store { bool there = false; std::vector<Blk> b; U proj = 0; bool entry = false, loose = false; };
struct World { P p[NP]; Store s[2]; U tag = 1; };
struct Op { int p; char c; int x; S name() const { static const std::map<char, const char *> N{{'J', "joins store"}, {'E', "joins (by environment) store"}, {'a', "allocates"}, {'f', "frees the oldest block"}, {'F', "frees the newest block"}, {'w', "rewrites the newest block"}, {'c', "cleans up"}, {'k', "is killed"}, {'x', "removes the store"}, {'r', "resets the region"}, {'p', "sets up the project"}, {'m', "syncs the newest block, way"}, {'l', "locks"}, {'y', "forks"}}; return strf("%d %s", p + 1, N.at(c)) + (c == 'J' || c == 'E' ? strf(" %d", x + 1) : c == 'a' ? strf(" %d", x) : c == 'm' ? strf(" %d", x) : S()); } };
static std::vector<Op> enabled(const World &w) { std::vector<Op> v; for (int i = 0; i < NPROC; i++) { if (KINDS & 64) { if (w.p[i].store < 0) { for (int d = 0; d < NSTORE; d++) v.push_back({i, 'J', d}); } else { for (size_t z = 0; z < SIZES.size(); z++) v.push_back({i, 'a', (int)z}); v.push_back({i, 'c', 0}); } continue; } auto &p = w.p[i]; if (p.store < 0) { for (int d = 0; d < NSTORE; d++) { v.push_back({i, i == 1 ? 'E' : 'J', d}); } continue; } auto &s = w.s[p.store]; int sharers = 0; for (auto &q : w.p) sharers += q.store == p.store;
    for (size_t z = 0; z < SIZES.size(); z++) v.push_back({i, 'a', (int)z}); if (!s.b.empty()) { auto fr = [&](const Blk &b) { return !(KINDS & 32) || b.n < 16u << 20; }; if (fr(s.b[0])) v.push_back({i, 'f', 0}); if (s.b.size() > 1 && fr(s.b.back())) v.push_back({i, 'F', 0}); v.push_back({i, 'w', 0}); } v.push_back({i, 'c', 0}); v.push_back({i, 'k', 0}); if (sharers == 1) { v.push_back({i, 'x', 0}); if (KINDS & 1) v.push_back({i, 'r', 0}); } if (KINDS & 2) v.push_back({i, 'p', 0}); if (KINDS & 4) v.push_back({i, 'l', 0}); if (KINDS & 16) for (int j = 0; j < NPROC; j++) if (!w.p[j].up) { v.push_back({i, 'y', j}); break; } if (KINDS & 8 && !s.b.empty()) for (int m = 0; m < 9; m++) v.push_back({i, 'm', m}); } return v; }
static void publish(const Store &s) { ctl->nblk = 0; for (auto &b : s.b) ctl->blk[ctl->nblk++] = b; }
static void check_proc(World &w, int i) { auto &p = w.p[i]; if (p.store < 0) return; auto &s = w.s[p.store]; publish(s); S at = where; where = at + strf(" (then process %d reads every block)", i + 1); call(i, VERIFY); MC_CHECK(res(i) == 0, "content-lost", "%s, after %s", ctl->text[i], at.c_str());
  if (KINDS & 2 && NSTORE) { where = at + strf(" (then process %d asks for its current project)", i + 1); call(i, CURRENT); MC_CHECK((U)res(i) == p.ctx, "current-project", "the current project is %#lx, not %#lx, after %s", res(i), p.ctx, at.c_str()); where = at; }
  if (s.proj) { where = at + strf(" (then process %d looks for the project)", i + 1); call(i, PFIND); MC_CHECK((U)res(i) == s.proj, "project-lost", "the project's context is found at %#lx instead of %#lx, after %s", res(i), s.proj, at.c_str()); if (s.entry) { call(i, CFIND, s.proj); MC_CHECK((U)res(i) == s.proj + 64, "project-lost", "the entry in the project's context is found at %#lx, after %s", res(i), at.c_str()); } } where = at; }
static void check_lists(World &w) { for (int d = 0; d < 2; d++) { int f = -1; long h = 0; S at = where; for (int i = 0; i < NPROC; i++) if (w.p[i].store == d) { where = at + strf(" (then process %d lists the region)", i + 1); call(i, LISTS); U *o = ctl->out[i]; U want = 1 << 20; for (auto &b : w.s[d].b) want += b.n; if (!w.s[d].proj && !w.s[d].loose) MC_CHECK(o[0] == want, "use-list", "%lu bytes are listed in use, %lu should be, after %s", o[0], want, at.c_str()); MC_CHECK(o[0] + o[2] + o[3] == o[1], "lists", "%lu bytes in use, %lu free, %lu uncommitted, but %lu bytes of segments, after %s", o[0], o[2], o[3], o[1], at.c_str()); if (f < 0) { f = i; h = res(i); } else MC_CHECK(res(i) == h, "different-regions", "processes %d and %d see different regions, after %s", f + 1, i + 1, at.c_str()); } where = at; } }
static void apply(World &w, const Op &o) {
  auto &p = w.p[o.p]; Store *s = p.store >= 0 ? &w.s[p.store] : nullptr; int i = o.p; switch (o.c) {
    case 'J': case 'E': { if (!p.up) { spawn(i); p.up = true; } call(i, JOIN, o.x, o.c == 'E' ? 1 : i == 2 ? 2 : 0); MC_CHECK(res(i) == 0, "join", "joining returned %ld, after %s", res(i), where.c_str()); p.store = o.x; p.ctx = 0; s = &w.s[o.x]; if (!s->there) { call(i, LISTS); MC_CHECK((U)res(i) == fresh_hash[o.x], "not-fresh", "joining a store that does not exist gave a region that is not a new one, after %s", where.c_str()); MC_CHECK(s->b.empty() && !s->proj, "model", "model"); } s->there = true; break; }
    case 'a': { U n = SIZES[o.x]; U t = 1; call(i, ALLOC, n, t); char *q = (char *)res(i); MC_CHECK(q, "refused", "a block of %lu bytes was refused, after %s", n, where.c_str()); if (!q) break; MC_CHECK(!((U)q & (n - 1)) && (U)q >= __SAS_BASE_ADDRESS && (U)q + n <= __SAS_BASE_ADDRESS + RegionSize, "place", "a block of %lu bytes at %p, after %s", n, q, where.c_str()); MC_CHECK((U)q >= __SAS_BASE_ADDRESS + (1 << 20), "overlap", "a block at %p overlaps the anchor, after %s", q, where.c_str()); for (auto &b : s->b) MC_CHECK(q + n <= b.p || b.p + b.n <= q, "overlap", "a block of %lu bytes at %p overlaps the live one of %lu bytes at %p, after %s", n, q, b.n, b.p, where.c_str()); s->b.push_back({q, n, t}); break; }
    case 'f': case 'F': { size_t k = o.c == 'f' ? 0 : s->b.size() - 1; Blk b = s->b[k]; s->b.erase(s->b.begin() + k); call(i, FREE, (U)b.p, b.n); break; }
    case 'w': { Blk &b = s->b.back(); b.tag ^= 3; call(i, WRITE, (U)b.p, b.n, b.tag); break; }
    case 'm': { Blk &b = s->b.back(); call(i, MSYNC, (U)b.p, b.n, o.x); MC_CHECK(res(i) == 0, "msync", "syncing returned %ld, after %s", res(i), where.c_str()); break; }
    case 'l': call(i, LOCKED, 1); MC_CHECK(!ctl->text[i][0], "lock", "%s, after %s", ctl->text[i], where.c_str()); break;
    case 'p': { call(i, PROJECT); U c = res(i); MC_CHECK(c, "project", "the project could not be set up, after %s", where.c_str()); MC_CHECK(!s->proj || s->proj == c, "project-lost", "setting up the project gave %#lx, it was at %#lx, after %s", c, s->proj, where.c_str()); s->proj = c; p.ctx = c; if (!s->entry) { call(i, CADD, c, c + 64); MC_CHECK(res(i) == 1, "project", "adding an entry to the new project returned %ld, after %s", res(i), where.c_str()); s->entry = true; } break; }
    case 'c': call(i, CLEANUP); p.store = -1; break;
    case 'y': fork_from(i, o.x); w.p[o.x] = p; break;
    case 'k': kill_(i); p = P(); break;
    case 'x': { call(i, REMOVE); int d = p.store; p.store = -1; w.s[d] = Store(); auto v = files(d); MC_CHECK(v.empty(), "remove", "%zu files (%s) are left, after %s", v.size(), v.empty() ? "" : v[0].c_str(), where.c_str()); break; }
    case 'r': { call(i, RESET); int d = p.store; w.s[d] = Store(); w.s[d].there = true; p.ctx = 0; call(i, LISTS); MC_CHECK((U)res(i) == fresh_hash[d], "not-fresh", "a reset region is not as a new one, after %s", where.c_str()); for (auto &f : files(d)) MC_CHECK(f == "SAS00000.DAT", "reset-files", "the file %s is left, after %s", f.c_str(), where.c_str()); break; }
  }
  st.evaluations++; for (int k = 0; k < NPROC; k++) check_proc(w, k); check_lists(w); }
static std::vector<Op> trail; static std::unordered_map<U, int> seen; static int DEPTH;
static World redo(const std::vector<Op> &t) { wipe(); World w; S d; for (auto &o : t) { d += (d.empty() ? "" : "; ") + o.name(); where = d; apply(w, o); } st.executions++; return w; }
static U world_hash(World &w) { U h = stores_hash(); for (auto &p : w.p) h = mix(h, (p.up ? 2 : 1) * 64 + p.store); for (auto &s : w.s) { h = mix(h, s.there + 2 * s.entry + 4 * s.loose); h = mix(h, s.proj); for (auto &b : s.b) h = mix(h, mix((U)b.p, mix(b.n, b.tag))); } return h; }
static void note(const std::vector<Op> &t) { path.clear(); path_names.clear(); for (auto &o : t) { path.push_back(o.p * 10000 + o.c * 16 + o.x); path_names.push_back(o.name()); } }
static void dfs(std::vector<Op> &t, int left, int &count) {
  note(t); if (out_of_time()) { st.exhaustive = false; return; } World w = redo(t); U h = world_hash(w); auto &q = seen[h]; if (q > left) return; if (!q) st.states++; q = left + 1; if (!left) return; if ((int)t.size() > st.depth) st.depth = t.size();
  for (auto &o : enabled(w)) { if (t.empty() && (o.p || (o.c == 'J' && o.x))) continue; if (t.size() == 2 && opts.nshards > 1 && count++ % opts.nshards != opts.shard) continue; t.push_back(o); if (t.size() <= 4) { S d; for (auto &x : t) d += x.name() + "; "; sample(d); } dfs(t, left - 1, count); t.pop_back(); } }
static void replayed() { std::vector<Op> t; for (int k : path) t.push_back({k / 10000, (char)(k % 10000 / 16), k % 16}); auto keep = t; redo(keep); wipe(); }
static void hist(int np, int ns, std::vector<U> sizes, int kinds, int depth) { setup(); NPROC = np; NSTORE = ns; SIZES = sizes; KINDS = kinds; measure(); if (!opts.replay.empty()) { replayed(); return; } seen.clear(); std::vector<Op> t; int c = 0; dfs(t, depth, c); wipe(); }
static const U SEG = 256ul << 20; static int D(int q, int t) { return opts.thorough ? t : q; }
#ifdef PR_M03
MC_CONFIG(h1, "two-stores", 8, 16) { hist(2, 2, {1 << 20}, 0, D(6, 8)); }
MC_CONFIG(h2, "one-store", 8, 16) { hist(2, 1, {1 << 20, SegmentSize}, 32 + 1, D(7, 9)); }
MC_CONFIG(h3, "segments", 8, 16) { hist(2, 1, {SegmentSize / 2, SegmentSize}, 0, D(4, 6)); }
MC_CONFIG(h4, "projects", 8, 16) { hist(2, 2, {}, 3, D(7, 9)); }
MC_CONFIG(h5, "sync", 2, 4) { hist(1, 1, {4096, 1 << 20}, 8, D(6, 8)); }
MC_CONFIG(h6, "three-processes", 8, 16) { hist(3, 1, {1 << 20, SegmentSize}, 32, D(6, 8)); }
#endif
// ---- a process dies, or a call fails, in the middle of an operation
static S scen;
struct Act { char c; const char *name; };
static void dying(bool fails) {
  setup(); NPROC = 3; NSTORE = 1; SIZES = {1 << 20, SegmentSize, SegmentSize / 2}; KINDS = 2; measure(); int idx = 0;
  // what was done before, by process 2 (who stays, or has gone) and 1; what process 1 does
  for (S before : {"", "K", "Ka", "KA", "Kp", "S", "Sa", "SA", "SH", "Sp"}) for (S what : {"J", "a", "A", "f", "F", "c", "p", "x"}) {
    bool other = !before.empty() && before[0] == 'S'; if (what == "x" && other) continue; if (what[0] != 'J' && before == "") continue;
    if (idx++ % opts.nshards != opts.shard && opts.replay.empty()) continue;
    for (int err : fails ? std::vector<int>{ENOSPC, EACCES} : std::vector<int>{0}) for (int n = 1; n < 60; n++) {
      if (!opts.replay.empty()) { if (path.size() != 3 || idx - 1 != path[0] || n != path[1] || err != path[2]) continue; } else { path = {idx - 1, n, err}; path_names = {"scenario " + before + "/" + what, strf("call %d", n), strf("errno %d", err)}; }
      if (out_of_time()) { st.exhaustive = false; return; }
      wipe(); World w; S d; auto op = [&](Op o) { d += (d.empty() ? "" : "; ") + o.name(); where = d; apply(w, o); };
      if (before != "") { op({1, 'J', 0}); if (before.size() > 1) { if (before[1] == 'a') op({1, 'a', 0}); else if (before[1] == 'A') { op({1, 'a', 1}); } else if (before[1] == 'H') { op({1, 'a', 2}); } else op({1, 'p', 0}); } if (!other) op({1, 'k', 0}); }
      if (what != "J") { op({0, 'J', 0}); if (what == "f") op({0, 'a', 0}); if (what == "F") op({0, 'a', 1}); } else { spawn(0); w.p[0].up = true; }
      Slot &s = ctl->s[0]; s.kill_at = fails ? 0 : n; s.fail_at = fails ? n : 0; s.fail_errno = err; bool ok; Blk fb{}; st.states++; st.evaluations++;
      d += strf("; 1 %s %s", what == "J" ? "joins" : what == "a" ? "allocates 1M" : what == "A" ? "allocates a segment" : what == "f" || what == "F" ? "frees the block" : what == "c" ? "cleans up" : what == "x" ? "removes the store" : "sets up the project", fails ? strf("while its call %d fails with errno %d", n, err).c_str() : strf("and is killed at its call %d", n).c_str()); where = d; sample(d); U t = w.tag++;
      if (what == "J") ok = call(0, JOIN, 0, 0, 0, true); else if (what == "a" || what == "A") ok = call(0, ALLOC, what == "a" ? 1 << 20 : SegmentSize, t, 0, true); else if (what == "f" || what == "F") { fb = w.s[0].b.back(); w.s[0].b.pop_back(); ok = call(0, FREE, (U)fb.p, fb.n, 0, true); } else if (what == "c") ok = call(0, CLEANUP, 0, 0, 0, true); else if (what == "x") ok = call(0, REMOVE, 0, 0, 0, true); else ok = call(0, PROJECT, 0, 0, 0, true);
      bool hit = fails ? s.failed[0] != 0 : !ok; S fc = s.failed; s.kill_at = s.fail_at = 0; st.executions++; long r = ok ? res(0) : 0;
      if (fails) { MC_CHECK(ok, "fault-crash", "process 1 ended by %s when %s failed, after %s", s.what, fc.c_str(), d.c_str()); if (!ok) continue; if (!hit) { if (n > ctl->s[0].calls) break; continue; } d += " (" + fc + ")"; where = d; }
      else if (ok) break; else w.p[0] = P();
      // afterwards
      if (what == "J") { bool was = w.s[0].there; if (fails) { if (!r) { w.p[0].store = 0; w.s[0].there = true; for (int k = 0; k < 3; k++) check_proc(w, k); check_lists(w); op({0, 'l', 0}); op({0, 'a', 0}); } else { d += " (refused)"; op({0, 'J', 0}); } } else { op({0, 'J', 0}); } (void)was; op({0, 'l', 0}); if (other) op({1, 'a', 0}); op({2, 'J', 0}); op({2, 'a', 1}); op({2, 'l', 0}); op({2, 'c', 0}); }
      else if (what == "x") { if (!fails || files(0).empty()) { if (files(0).empty()) { w.s[0] = Store(); w.p[0].store = -1; op({2, 'J', 0}); op({2, 'a', 0}); op({2, 'l', 0}); } } }
      else if (what == "c") { w.p[0].store = -1; op({0, 'J', 0}); op({0, 'a', 0}); op({0, 'l', 0}); }
      else if (what == "p") { w.s[0].loose = true; if (fails) { U c = r; if (c) w.s[0].proj = w.s[0].proj ? w.s[0].proj : c; for (int k = 0; k < 3; k++) check_proc(w, k); } else { int k = other ? 1 : 2; if (!other) { op({2, 'J', 0}); } (void)k; } }
      else { // allocation or free: what was allocated before is there, and is not given out again
        if (fails) { if (what[0] == 'a' || what[0] == 'A') { if (r) w.s[0].b.push_back({(char *)r, what == "a" ? 1ul << 20 : SegmentSize, t}); } for (int k = 0; k < 3; k++) check_proc(w, k); check_lists(w); op({0, 'a', 0}); op({0, 'a', 1}); op({0, 'f', 0}); op({2, 'J', 0}); op({2, 'a', 1}); }
        else { int k = other ? 1 : 2; if (!other) { spawn(2); w.p[2].up = true; call(2, JOIN, 0); MC_CHECK(res(2) == 0, "join", "joining returned %ld, after %s", res(2), d.c_str()); w.p[2].store = 0; } call(k, RESETSEM); w.p[k].store = 0; check_proc(w, k); w.tag += 5; call(k, ALLOC, 1 << 20, w.tag); if (res(k)) for (auto &b : w.s[0].b) MC_CHECK((char *)res(k) + (1 << 20) <= b.p || b.p + b.n <= (char *)res(k), "overlap", "a block at %#lx overlaps the live one at %p, after %s", res(k), b.p, d.c_str()); if (res(k)) w.s[0].b.push_back({(char *)res(k), 1 << 20, w.tag}); check_proc(w, k); } }
    } }
  wipe(); }
// ---- store paths of every length and spelling; refused joins leave the process able to join
static void paths() {
  setup(); NPROC = 1; NSTORE = 1; measure(); wipe(); spawn(0); S bad1 = opts.scratch + "/none", bad2 = opts.scratch + "/file"; { int f = open(bad2.c_str(), O_CREAT | O_RDWR, 0600); close(f); }
  std::vector<std::pair<S, int>> v{{"", 0}, {"", 1}, {"", 3}, {bad1, 0}, {bad1, 1}, {bad2, 0}, {dirs[0], 2}, {dirs[0], 0}, {dirs[0] + "/", 0}, {dirs[0], 1}, {dirs[0] + "/", 1}, {dirs[0] + "//", 0}};
  size_t n0 = dirs[0].size(); auto of = [&](size_t n, bool slash) { S p = opts.scratch; size_t pad = n - n0 - slash; if (pad % 2) { p += "/"; pad--; } while (pad) { p += "/."; pad -= 2; } p += "/p0"; if (slash) p += "/"; return p; };
  for (size_t n = n0 + 1; n < n0 + 24; n++) for (int sl : {0, 1}) v.push_back({of(n, sl), (int)(n % 2)}); for (size_t n : {250, 255, 256, 257, 511, 512, 513, 1000, 2048}) v.push_back({of(n, false), 0}); for (size_t n = 4060; n < 4120; n++) for (int sl : {0, 1}) for (int e : {0, 1}) v.push_back({of(n, sl), e}); for (size_t n : {4200, 4500, 5000}) v.push_back({of(n, false), 0});
  U block = 0; bool there = false; int k = 0; for (auto &x : v) { const S &p = x.first; st.states++; st.executions++; st.evaluations++; if (!opts.replay.empty() && (path.size() != 1 || path[0] < k)) break; path = {k++}; S kind = x.second == 0 ? "by name" : x.second == 1 ? "by environment" : x.second == 2 ? "in the working directory" : "without a name"; path_names = {strf("join %s, %zu characters %s", kind.c_str(), p.size(), p.size() < 200 ? p.c_str() : "")}; where = path_names[0]; sample(where);
    memcpy(ctl->out[0], p.data(), p.size()); if (!call(0, JOINPATH, p.size(), x.second)) return; bool ok = !res(0); S t = p; if (!t.empty() && t.back() == '/') t.pop_back(); bool good = x.second == 2 || (!p.empty() && p != bad1 && p != bad2 && t.size() + 13 < 4096); if (x.second == 3) good = false;
    MC_CHECK(ok == good, "join-path", "joining returned %ld, the store %s", res(0), good ? "can be used" : "cannot be used"); if (!ok) { call(0, FDS); MC_CHECK(!ctl->s[0].res[2], "handler-left", "a refused join leaves its signal handler installed"); continue; }
    call(0, CURRENT); MC_CHECK(!res(0), "current-project", "a process that has just joined has a current project"); if (!there) { there = true; call(0, ALLOC, 4096, 5); block = res(0); MC_CHECK(block, "refused", "a block was refused"); }
    ctl->nblk = 1; ctl->blk[0] = {(char *)block, 4096, 5}; call(0, VERIFY); MC_CHECK(!res(0), "content-lost", "%s", ctl->text[0]); call(0, PROJECT); call(0, LOCKED, 1); MC_CHECK(!ctl->text[0][0], "lock", "%s", ctl->text[0]); call(0, CLEANUP); auto f = files(0); MC_CHECK(f.size() == 1, "files", "%zu files in the store", f.size()); call(0, FDS); MC_CHECK(!ctl->s[0].res[2], "handler-left", "the signal handler is still installed after leaving"); }
  unlink(bad2.c_str()); wipe(); }
// ---- the same life many times over: nothing runs out
static void repeated() {
  setup(); NPROC = 2; NSTORE = 1; measure(); for (int what = 0; what < 5; what++) { int N = opts.thorough ? 600 : what == 2 ? 220 : 40; if (!opts.replay.empty() && path[0] != what) continue; wipe(); spawn(0); path = {what}; path_names = {what == 0 ? "join, leave" : what == 1 ? "join, remove" : what == 2 ? "reset" : what == 3 ? "reset semaphore" : "join, be killed"}; long fd = -1, maps = 0; U live = 0; where = path_names[0]; call(0, JOIN, 0); if (what != 1 && what != 2) { call(0, ALLOC, 65536, 9); live = res(0); }
    for (int k = 0; k < N; k++) { st.executions++; st.evaluations++; st.states++; where = path_names[0] + strf(", %d times", k); if (out_of_time()) { st.exhaustive = false; break; }
      switch (what) { case 0: call(0, CLEANUP); call(0, JOIN, 0); break; case 1: call(0, REMOVE); call(0, JOIN, 0); break; case 2: call(0, RESET); break; case 3: call(0, RESETSEM); break; case 4: kill_(0); spawn(0); call(0, JOIN, 0); break; }
      if (what < 2 || what == 4) MC_CHECK(!res(0), "join", "joining returned %ld after %s", res(0), where.c_str()); call(0, LOCKED, 1); MC_CHECK(!ctl->text[0][0], "lock", "%s", ctl->text[0]); ctl->nblk = 0; if (live) { ctl->nblk = 1; ctl->blk[0] = {(char *)live, 65536, 9}; } call(0, VERIFY); MC_CHECK(!res(0), "content-lost", "%s after %s", ctl->text[0], where.c_str());
      call(0, ALLOC, SegmentSize / 2, 3); U b = res(0); MC_CHECK(b, "refused", "a block was refused after %s", where.c_str()); call(0, FREE, b, SegmentSize / 2); call(0, PROJECT); MC_CHECK(res(0), "project", "the project could not be set up after %s", where.c_str()); call(0, FDS); Slot &s = ctl->s[0]; if (k == 3) { fd = s.res[0]; maps = s.res[1]; } if (k > 3) MC_CHECK(s.res[0] <= fd && s.res[1] <= maps + 2, "leak", "%ld descriptors and %ld mappings, it was %ld and %ld, after %s", s.res[0], s.res[1], fd, maps, where.c_str());
      if (what == 2 || what == 1) continue; call(0, LISTS); static U h0; if (k <= 3) h0 = res(0); MC_CHECK((U)res(0) == h0, "region-changed", "the region's lists have changed after %s", where.c_str()); } sample(path_names[0]); } wipe(); }
#ifdef PR_M03
MC_CONFIG(ha, "two-stores-segments", 8, 16) { hist(2, 2, {SegmentSize}, 64, D(10, 12)); }
MC_CONFIG(h9, "forks", 8, 16) { hist(3, 1, {SegmentSize}, 32 + 16 + 4 + 2, D(6, 7)); }
MC_CONFIG(h7, "paths", 1, 1) { paths(); }
MC_CONFIG(h8, "repeated", 1, 1) { repeated(); }
MC_CONFIG(k1, "killed-inside", 8, 8) { dying(false); }
MC_CONFIG(k2, "call-fails", 8, 8) { dying(true); }
#endif
// ---- interleavings of system calls
static std::vector<S> PROGS; static S BEFORE; static int victim; static bool KILLS;
struct Choice { std::vector<int> alt; int chosen; int cost; };
static void run_prog(int i, const char *p) { strcpy(ctl->prog[i], p); start(i, PROG, 0, 0, 0, true); for (;;) { until_rest(i, LIMIT); Slot &s = ctl->s[i]; if (s.st != POINT) break; s.st = RUN; s.go = 1; fwake(&s.go); } MC_CHECK(ctl->s[i].st == DONE || ctl->s[i].st == BLOCKED, "process-hang", "process %d did not come back, or ended (%s), while %s", i + 1, ctl->s[i].what, where.c_str()); }
// choices: process i goes on (i), or is killed (8 + i)
static bool go_on(const std::vector<int> &prefix, std::vector<Choice> &tr, int bound) {
  wipe(); int n = PROGS.size(); World w; LIMIT = 10000; if (BEFORE != "") { spawn(2); where = "preparing"; call(2, JOIN, 0); for (char c : BEFORE.substr(1)) { if (c == 'Z') continue; if (c == 'F') { call(2, LOCKED, 1); continue; }
      // a process holds a lock (w write, q read) with others waiting for it (v writer, u reader), all die; a new process (r) or one that was there all along (s, having joined at o) resets the locks
      if (c == 'o') { spawn(3); run_prog(3, "JL"); continue; } if (c == 'w' || c == 'q') { run_prog(2, c == 'w' ? "h" : "H"); continue; } if (c == 'v' || c == 'u') { int i = c == 'v'; spawn(i); run_prog(i, c == 'v' ? "JL" : "JR"); MC_CHECK(ctl->s[i].st == BLOCKED || BEFORE.find('w') == S::npos, "lock", "%s", "a process got a lock that another holds"); continue; }
      if (c == 'r' || c == 's') { for (int i : {0, 1, 2}) kill_(i); ctl->writers = ctl->readers = 0; where = "resetting the locks of processes that died"; if (c == 'r') { spawn(2); run_prog(2, "JrL"); } else run_prog(3, "rL"); continue; }
      call(2, ALLOC, c == 'a' ? 1 << 20 : SegmentSize, 7); ctl->blk[ctl->nblk++] = {(char *)res(2), c == 'a' ? 1ul << 20 : SegmentSize, 7}; } }
  bool forked = BEFORE.find('F') != S::npos; if (BEFORE != "" && !forked) kill_(2);
  for (int i = 0; i < n && forked; i++) if (i != 2) fork_from(2, i);
  if (BEFORE.find('Z') != S::npos) { where = "resetting the region"; call(2, RESET); }
  for (int i = 0; i < n; i++) { if (!forked) spawn(i); strcpy(ctl->prog[i], PROGS[i].c_str()); start(i, PROG, 0, 0, 0, true); until_rest(i, LIMIT); }
  int cur = 0, used = 0; bool killed = false; std::vector<bool> stuck(4, false); S hist;
  for (size_t k = 0;; k++) {
    heartbeat(); std::vector<int> en; bool open = false; for (int i = 0; i < n; i++) { Slot &s = ctl->s[i]; if (s.st == RUN) until_rest(i, 0); int t = s.st; if (t == DONE || t == GONE) continue; open = true; if (t == POINT || (t == BLOCKED && (s.yield ? s.seen_step != ctl->step : s.seen_rel != ctl->rel))) en.push_back(i); }
    if (!open) break;
    if (en.empty()) { bool run = false; for (int i = 0; i < n; i++) if (ctl->s[i].st == RUN) { until_rest(i, 3000); run = run || ctl->s[i].st != RUN; } if (run) { k--; continue; } S d; for (int i = 0; i < n; i++) if (ctl->s[i].st != DONE && ctl->s[i].st != GONE) d += strf(" process %d: %s;", i + 1, ctl->s[i].st == RUN ? "running" : ctl->s[i].what); where = hist; sched = prefix; for (auto &c : tr) if (&c - &tr[0] >= (long)prefix.size()) sched.push_back(c.chosen); violation("deadlock", "no process can go on:%s after%s", d.c_str(), hist.c_str()); return false; }
    Choice c; bool cin = std::find(en.begin(), en.end(), cur) != en.end(); int def = cin ? cur : en[0]; c.alt.push_back(def); for (int e : en) if (e != def && (!cin || used < bound)) c.alt.push_back(e); if (KILLS && !killed && cin && !ctl->s[cur].res[1]) c.alt.push_back(8 + cur);
    int pick = k < prefix.size() ? prefix[k] : def; c.chosen = pick; tr.push_back(c); sched.clear(); for (auto &x : tr) sched.push_back(x.chosen);
    if (pick >= 8) { hist += strf(" %d is killed at %s;", pick - 7, ctl->s[pick - 8].what); kill_(pick - 8); killed = true; st.transitions++; continue; }
    if (pick != cur && cin) used++; if (std::find(en.begin(), en.end(), pick) == en.end()) { fprintf(stderr, "nondeterministic replay\n"); _exit(3); }
    Slot &s = ctl->s[pick]; hist += strf(" %d:%s;", pick + 1, s.what); where = hist; cur = pick; ctl->step++; s.st = RUN; s.go = 1; fwake(&s.go); until_rest(pick, 1500); st.transitions++; if (hist.size() > 6000) { violation("no-termination", "the processes do not come to an end:%s", hist.substr(0, 600).c_str()); return false; } }
  st.executions++; st.evaluations++; where = hist; S kd = killed ? " (one was killed)" : "";
  for (int i = 0; i < n; i++) { Slot &s = ctl->s[i]; if (s.st == GONE) { if (strncmp(s.what, "signal", 6) == 0 || strncmp(s.what, "exit", 4) == 0) violation("process-crash", "process %d ended by %s:%s", i + 1, s.what, hist.c_str()); continue; } if (ctl->text[i][0]) violation(s.res[0] ? "failed" : "lock", "process %d: %s:%s", i + 1, ctl->text[i], hist.c_str()); }
  if (PROGS[0].find('c') != S::npos || PROGS[0].find('J') == S::npos) return true;
  // the survivors and a new process see the same region with the same content
  for (int i = 0; i < ctl->nblk; i++) for (int j = 0; j < i; j++) { Blk &a = ctl->blk[i], &b = ctl->blk[j]; if (a.p && b.p) MC_CHECK(a.p + a.n <= b.p || b.p + b.n <= a.p, "overlap", "blocks at %p (%lu bytes) and %p (%lu bytes) overlap:%s", a.p, a.n, b.p, b.n, hist.c_str()); }
  long h = 0; bool have = false; if (!killed || ctl->nblk == 0) {} spawn(3); call(3, JOIN, 0); MC_CHECK(res(3) == 0, "join", "a later process could not join (%ld):%s", res(3), hist.c_str());
  bool held = killed; for (int i : {3, 0, 1, 2}) { if (i < 3 && (i >= n || ctl->s[i].st != DONE)) continue; if (!held || PROGS[0] == "J" || PROGS[0] == "JL") { call(i, VERIFY); MC_CHECK(res(i) == 0, "content-lost", "process %d: %s:%s", i + 1, ctl->text[i], hist.c_str()); call(i, LISTS); U *o = ctl->out[i]; MC_CHECK(o[0] + o[2] + o[3] == o[1], "lists", "%lu bytes in use, %lu free, %lu uncommitted, but %lu bytes of segments:%s", o[0], o[2], o[3], o[1], hist.c_str()); if (!have) { have = true; h = res(i); } else MC_CHECK(res(i) == h, "different-regions", "process %d sees another region than a new process:%s", i + 1, hist.c_str()); call(i, LOCKED, 1); MC_CHECK(!ctl->text[i][0], "lock", "%s:%s", ctl->text[i], hist.c_str()); } }
  return true; }
static void inter(const std::vector<std::pair<S, std::vector<S>>> &what, int bound, bool kills, bool locks) {
  setup(); NPROC = 0; KILLS = kills; if (!opts.replay.empty()) { auto &x = what[path[0]]; BEFORE = x.first; PROGS = x.second; std::vector<Choice> tr; auto sc = sched; go_on(sc, tr, 99); wipe(); return; }
  U counter = 0; for (size_t q = 0; q < what.size(); q++) { BEFORE = what[q].first; PROGS = what[q].second; S d = BEFORE; for (auto &x : PROGS) d += " | " + x; path = {(int)q}; path_names = {d}; std::set<S> outs;
    std::vector<std::vector<int>> stack{{}}; while (!stack.empty()) { if (out_of_time()) { st.exhaustive = false; break; } auto pre = stack.back(); stack.pop_back(); std::vector<Choice> tr; sched = pre; 
      // shards: by the second deviation from the default schedule
      go_on(pre, tr, bound); st.states += tr.size() - pre.size(); if (outs.size() < 2) { sample(d + ":" + where); outs.insert(where); }
      for (size_t k = tr.size(); k-- > pre.size();) for (int a : tr[k].alt) if (a != tr[k].chosen) { std::vector<int> np; for (size_t j = 0; j < k; j++) np.push_back(tr[j].chosen); np.push_back(a); if (pre.empty() && opts.nshards > 1 && (int)(counter++ % opts.nshards) != opts.shard) continue; stack.push_back(np); } }
    st.depth = bound; } wipe(); }
typedef std::vector<std::pair<S, std::vector<S>>> W;
#ifdef PR_M04
MC_CONFIG(i1, "first-join", 8, 16) { inter(W{{"", {"Ja", "Ja"}}, {"", {"JL", "JL"}}, {"", {"JA", "Ja"}}}, D(3, 5), false, false); }
MC_CONFIG(i2, "first-join-three", 8, 16) { inter(W{{"", {"J", "J", "J"}}, {"", {"Ja", "JL", "Ja"}}}, D(2, 3), false, false); }
MC_CONFIG(i3, "first-join-killed", 8, 16) { inter(W{{"", {"J", "J"}}, {"", {"J", "JL"}}}, D(2, 3), true, false); }
MC_CONFIG(i4, "later-join", 8, 16) { inter(W{{"K", {"Ja", "Ja"}}, {"KA", {"Jva", "JAv"}}, {"KA", {"JA", "JA"}}, {"Ka", {"Jaf", "JA"}}}, D(3, 4), false, false); }
#endif
#ifdef PR_L01
MC_CONFIG(i5, "locks", 8, 16) { inter(W{{"K", {"JL", "JL"}}, {"K", {"JLL", "JR"}}, {"K", {"JR", "JK"}}, {"K", {"JQ", "JR"}}, {"K", {"JK", "JK"}}, {"K", {"JL", "JL", "JR"}}, {"KF", {"L", "L"}}, {"KF", {"K", "R"}}, {"KF", {"L", "R", "L"}}, {"KFZ", {"L", "R", "L"}}}, D(2, 3), false, true); }
// recovery of the locks from processes that died with them
MC_CONFIG(i6, "locks-after-death", 8, 16) { std::vector<S> B{"Kwr", "Kows", "Kqr", "Koqs", "Kwvr", "Kovus"}; B.back() = "Kowvus"; W w; for (auto &b : B) { w.push_back({b, {"JL", "JL"}}); w.push_back({b, {"JK", "JR"}}); } inter(w, D(2, 3), false, true); }
#endif
#ifdef PR_G01
// ---- entries of a logger carry the identity of the process that made them
MC_CONFIG(g1, "identity", 1, 1) { setup(); measure(); wipe(); spawn(0); where = "joining"; call(0, JOIN, 0); where = "a log entry by a process and one by its child"; call(0, IDENT); long *o = (long *)ctl->out[0]; st.states += 2; st.executions++; for (int k = 0; k < 8; k += 4) { sample(strf("pid %s, tid %s", o[k] == o[k + 2] ? "own" : "other", o[k + 1] == o[k + 3] ? "own" : "other")); MC_CHECK(o[k] == (o[k + 2] & 0xffff), "entry-pid", "an entry made by %s carries process %ld, not its own %ld", k ? "a child process" : "a process", o[k], o[k + 2]); MC_CHECK(o[k + 1] == (o[k + 3] & 0xffff), "entry-tid", "an entry made by %s carries thread %ld, not its own %ld", k ? "a child process" : "a process", o[k + 1], o[k + 3]); } wipe(); }
#endif
