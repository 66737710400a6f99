// Stand-ins for the few external calls of the library whose effect must be deterministic or visible to the
// scheduler (the library's objects have these references renamed with objcopy).
#include "mc.h"
#include "conc.h"
#include <string.h>
#include <sys/ipc.h>
#include <sys/shm.h>
#include <sys/types.h>
#include <semaphore.h>
#include <errno.h>
#include <time.h>
#include <sys/time.h>
using namespace mc;
static uint64_t fake_clock = 1000;
namespace mc { int64_t fixed_time = -1, fixed_tod = -1; }   // nanoseconds / microseconds
int conc_tid[17] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16};
extern "C" {
int mc_shmget(key_t, size_t size, int flg) {
  errno = 0; int id = shmget(IPC_PRIVATE, size, (flg & 0777) | IPC_CREAT); return id;
}
void *mc_shmat(int id, const void *addr, int flg) {
  void *p = shmat(id, addr, flg); int e = errno; if (p != (void *)-1) shmctl(id, IPC_RMID, 0); errno = e; return p;
}
static volatile int *semv(sem_t *s) { return (volatile int *)s; }
int mc_sem_init(sem_t *s, int, unsigned v) { memset((void *)s, 0, sizeof *s); *semv(s) = v; return 0; }
int mc_sem_destroy(sem_t *) { return 0; }
HOOK(mc_sem_post) int impl_mc_sem_post(sem_t *s) { conc_point((void *)s, 4, CONC_BLIND, __builtin_return_address(0)); *semv(s) = *semv(s) + 1; return 0; }
HOOK(mc_sem_wait) int impl_mc_sem_wait(sem_t *s) {
  if (!conc_active()) {
    if (*semv(s) <= 0) { violation("sem-deadlock", "a single thread blocked for ever on a semaphore during %s", where.c_str()); return -1; }
    *semv(s) = *semv(s) - 1; return 0;
  }
  conc_point((void *)s, 4, CONC_BLIND, __builtin_return_address(0));
  while (*semv(s) <= 0) conc_block([s]() { return *semv(s) > 0; }, "semaphore");
  *semv(s) = *semv(s) - 1; return 0;
}
HOOK(mc_sem_trywait) int impl_mc_sem_trywait(sem_t *s) { conc_point((void *)s, 4, CONC_RMW, __builtin_return_address(0)); if (*semv(s) > 0) { *semv(s) = *semv(s) - 1; return 0; } errno = EAGAIN; return -1; }
HOOK(mc_sched_yield) int impl_mc_sched_yield() { conc_yield(); return 0; }
pid_t mc_gettid_shim() { return 100000 + conc_tid[conc_self()]; }
uint64_t mc_now() { if (conc_active()) return 1000 + conc_self(); if (fixed_time >= 0) return fixed_time; return ++fake_clock; }
int mc_clock_gettime(clockid_t, struct timespec *ts) { uint64_t t = mc_now(); ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000; return 0; }
int mc_gettimeofday(struct timeval *tv, void *) { uint64_t t = fixed_tod >= 0 ? fixed_tod : (int64_t)(1700000000000000ll + mc_now() / 1000); tv->tv_sec = t / 1000000; tv->tv_usec = t % 1000000; return 0; }
}
// ---- the address locks, as used by everything but the lock manager itself ----
#include "saslock.h"
#include <sys/mman.h>
namespace mc {
int lock_mode = 0;                                   // 0: the real lock manager, 1: ideal locks (granted as soon as free)
struct AL { struct { uint8_t writer, wcount; uint16_t readers; uint32_t nr; } w; void *addr; uint8_t rc[16]; };
static AL *al; static int NAL = 128, NALSH = 25; static size_t NALB = 4096;
static std::map<void *, int> held_real;              // outside controlled threads, with the real locks
void ideal_locks(int log2n) {
  lock_mode = 1; if (al) return; NAL = 1 << log2n; NALSH = 32 - log2n; NALB = ((sizeof(AL) << log2n) + 4095) & ~4095ul;
  al = (AL *)mmap((void *)0x1ff000000000ul, NALB, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
  track_add(al, NALB);
}
void share_ideal_locks() { conc_share(al, NALB); }
std::string locks_held() {                           // "" when no lock is held
  std::string s; if (al) for (int i = 0; i < NAL; i++) if (al[i].addr && (al[i].w.wcount || al[i].w.nr)) s += strf(" %p(%s by %d)", al[i].addr, al[i].w.wcount ? "write" : "read", al[i].w.writer);
  for (auto &h : held_real) if (h.second) s += strf(" %p", h.first);
  return s;
}
static AL &ale(void *a) { unsigned i = (uint32_t)((uintptr_t)a >> 4) * 0x9E3779B1u >> NALSH; while (al[i].addr && al[i].addr != a) i = (i + 1) % NAL; if (!al[i].addr) al[i].addr = a; return al[i]; }
void ideal_lock_touch(void *a) { ale(a); }
std::vector<void *> ideal_lock_addrs() { std::vector<void *> v; if (al) for (int i = 0; i < NAL; i++) if (al[i].addr) v.push_back(al[i].addr); return v; }
static void unlock_error(void *a) { violation("unlock-not-held", "a lock on %p was released by a thread that does not hold it, during %s", a, where.c_str()); }
}
extern "C" {
HOOK(mc_SASLock) void impl_mc_SASLock(vm_address_t a, sas_userlock_request_t t) {
  if (!lock_mode) { SASLock(a, t); if (!conc_active()) held_real[(void *)a]++; return; }
  AL *e = &ale((void *)a); int me = conc_self() + 1; void *pc = __builtin_return_address(0);
  conc_point(&e->w, 8, CONC_RMW, pc);
  auto ok = [e, me, t]() { if (e->w.wcount) return e->w.writer == me; if (t == SasUserLock__READ) return true; return e->w.readers == 0; };
  if (!conc_active()) { if (!ok()) { violation("sem-deadlock", "a single thread blocked for ever on the lock of %p during %s", a, where.c_str()); return; } }
  else while (!ok()) conc_block(ok, "SASLock");
  if (e->w.wcount || t == SasUserLock__WRITE) { e->w.writer = me; e->w.wcount++; } else { e->w.readers |= 1 << (me - 1); e->w.nr++; e->rc[me - 1]++; }
}
HOOK(mc_SASUnlock) void impl_mc_SASUnlock(vm_address_t a) {
  if (!lock_mode) { if (!conc_active() && held_real[(void *)a]-- <= 0) { held_real[(void *)a] = 0; if (opts.prop == "L03") unlock_error(a); } SASUnlock(a); return; }
  AL *e = &ale((void *)a); int me = conc_self() + 1; void *pc = __builtin_return_address(0);
  conc_point(&e->w, 8, CONC_RMW, pc);
  if (e->w.wcount && e->w.writer == me) { if (!--e->w.wcount) e->w.writer = 0; }
  else if (e->rc[me - 1]) { e->w.nr--; if (!--e->rc[me - 1]) e->w.readers &= ~(1 << (me - 1)); }
  else unlock_error(a);
}
}
// ---- malloc, as used by the library: from a tracked arena once heap_arena() was called, so that it is part of the state
struct MB { uint32_t size, used; };
static char *ha; static const size_t HAN = 1 << 16;
namespace mc {
void heap_arena() { if (ha) return; ha = (char *)mmap((void *)0x1fe000000000ul, HAN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0); MB *b = (MB *)ha; b->size = HAN - sizeof(MB); track_add(ha, HAN); }
size_t heap_used() { size_t n = 0; if (ha) for (char *p = ha; p < ha + HAN;) { MB *b = (MB *)p; if (b->used) n++; p += sizeof(MB) + b->size; } return n; }
}
extern "C" {
void *mc_malloc(size_t n) {
  if (!ha) return malloc(n);
  size_t z = (n + 15) & ~7ul; 
  for (char *p = ha; p < ha + HAN;) {
    MB *b = (MB *)p;
    if (!b->used) {
      for (;;) { MB *x = (MB *)(p + sizeof(MB) + b->size); if ((char *)x >= ha + HAN || x->used) break; b->size += sizeof(MB) + x->size; }
      if (b->size >= z) { if (b->size >= z + 2 * sizeof(MB)) { MB *x = (MB *)(p + sizeof(MB) + z); x->size = b->size - z - sizeof(MB); x->used = 0; b->size = z; } b->used = 1; memset(b + 1, 0xA7, b->size); return b + 1; }
    }
    p += sizeof(MB) + b->size;
  }
  return 0;
}
void mc_free(void *p) {
  if (!p) return; if (!ha || (char *)p < ha || (char *)p >= ha + HAN) { free(p); return; }
  MB *b = (MB *)p - 1; if (!b->used) { violation("double-free", "memory was freed twice during %s", where.c_str()); return; } b->used = 0; memset(p, 0xDD, b->size);
}
void *mc_calloc(size_t a, size_t b) { void *p = mc_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
void *mc_realloc(void *p, size_t n) { if (!p) return mc_malloc(n); if (!ha || (char *)p < ha || (char *)p >= ha + HAN) return realloc(p, n); void *q = mc_malloc(n); if (q) { size_t o = ((MB *)p - 1)->size; memcpy(q, p, o < n ? o : n); mc_free(p); } return q; }
char *mc_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)mc_malloc(n); if (p) memcpy(p, s, n); return p; }
}

// ---- virtual segment files ----
#include <fcntl.h>
#include <stdarg.h>
#include <unistd.h>
#include <sys/stat.h>
namespace mc { Vfs vfs; static char *vlo, *vhi;
void vfs_arena(void *base, size_t len) { if (mmap(base, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != base) { perror("vfs_arena"); _exit(3); } vlo = (char *)base; vhi = vlo + len; vfs.on = true; } }
static std::string vfd[64];
namespace mc { int vfs_open() { int n = 0; for (auto &s : vfd) n += !s.empty(); return n; } void vfs_close() { for (auto &s : vfd) s.clear(); } }
static bool vfail(const char *what) { if (vfs.calls++ != vfs.fail_at && !vfs.fail_all) return false; vfs.failed = true; vfs.failed_call = what; errno = vfs.fail_errno; return true; }
static int vnum(int fd) { return vfs.on && fd >= 5000 && fd < 5064 && !vfd[fd - 5000].empty() ? fd - 5000 : -1; }
extern "C" {
int mc_open(const char *path, int fl, ...) {
  if (!vfs.on || !strstr(path, ".DAT")) { va_list a; va_start(a, fl); int mode = va_arg(a, int); va_end(a); return open(path, fl, mode); }
  if (vfail("open")) return -1;
  auto it = vfs.files.find(path); if (it == vfs.files.end()) { if (!(fl & O_CREAT)) { errno = ENOENT; return -1; } vfs.files[path] = 0; } else { if ((fl & O_CREAT) && (fl & O_EXCL)) { errno = EEXIST; return -1; } if (fl & O_TRUNC) it->second = 0; }
  for (int i = 0; i < 64; i++) if (vfd[i].empty()) { vfd[i] = path; return 5000 + i; }
  violation("vfs-descriptors", "64 segment files are open at once (descriptors are not closed)"); errno = EMFILE; return -1; }
int mc_close(int fd) { int v = vnum(fd); if (v < 0) return close(fd); vfd[v].clear(); return vfail("close") ? -1 : 0; }
int mc_ftruncate(int fd, off_t n) { int v = vnum(fd); if (v < 0) return ftruncate(fd, n); if (vfail("ftruncate")) return -1; vfs.files[vfd[v]] = n; return 0; }
int mc_stat(const char *p, struct stat *s) { if (!vfs.on || !strstr(p, ".DAT")) return stat(p, s); if (vfail("stat")) return -1; auto it = vfs.files.find(p); if (it == vfs.files.end()) { errno = ENOENT; return -1; } memset(s, 0, sizeof *s); s->st_mode = S_IFREG | 0766; s->st_size = it->second; return 0; }
static int vunlink(const char *p) { if (!vfs.files.erase(p)) { errno = ENOENT; return -1; } return 0; }
int mc_unlink(const char *p) { return vfs.on ? vunlink(p) : unlink(p); }
int mc_remove(const char *p) { return vfs.on ? vunlink(p) : remove(p); }
void *mc_mmap(void *a, size_t n, int pr, int fl, int fd, off_t off) { int v = vnum(fd); if (v < 0) return mmap(a, n, pr, fl, fd, off); if (vfail("mmap")) return MAP_FAILED;
  if ((char *)a < vlo || (char *)a + n > vhi || !(fl & MAP_SHARED) || (off_t)(off + n) > vfs.files[vfd[v]]) { violation("vfs-mmap", "a segment file of %ld bytes is mapped at %p for %lu bytes with flags %x", vfs.files[vfd[v]], a, n, fl); errno = EINVAL; return MAP_FAILED; } return a; }
int mc_munmap(void *a, size_t n) { if (vfs.on && (char *)a >= vlo && (char *)a < vhi) return 0; return munmap(a, n); }
}
