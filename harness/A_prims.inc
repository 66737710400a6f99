/* The primitives under test, wrapped one by one exactly as user code gets them (compiled twice: optimised C++, unoptimised C). */
#include <stddef.h>
#include <sched.h>
static inline int a_yield (void) { __asm__ volatile ("" ::: "memory"); return 0; }
#define sched_yield a_yield
#include "sasatom.h"
#undef sched_yield
#ifdef __cplusplus
#define X extern "C" __attribute__ ((noinline))
#else
#define X __attribute__ ((noinline))
#endif
typedef long L; typedef unsigned int U;
X L N(add_ptr) (L *p, L a, L b) { return (L) sas_fetch_and_add_ptr ((void **) p, a); }
X L N(add) (L *p, L a, L b) { return sas_fetch_and_add (p, a); }
X L N(and_int) (L *p, L a, L b) { return sas_fetch_and_and ((U *) p, (int) a); }
X L N(and_long) (L *p, L a, L b) { return sas_fetch_and_and_long ((unsigned long *) p, a); }
X L N(or_int) (L *p, L a, L b) { return sas_fetch_and_or ((U *) p, (int) a); }
X L N(or_long) (L *p, L a, L b) { return sas_fetch_and_or_long ((unsigned long *) p, a); }
X L N(cas) (L *p, L a, L b) { return sas_compare_and_swap (p, a, b); }
X L N(swap) (L *p, L a, L b) { return sas_atomic_swap (p, a); }
X L N(swap_void) (L *p, L a, L b) { sas_atomic_swap (p, a); return 0; }
X L N(swap_twice) (L *p, L a, L b) { L x = sas_atomic_swap (p, a); L y = sas_atomic_swap (p, b); return x * 3 + y; }
X L N(inc) (L *p, L a, L b) { sas_atomic_inc (p); return 0; }
X L N(dec) (L *p, L a, L b) { sas_atomic_dec (p); return 0; }
X L N(inc_long) (L *p, L a, L b) { return sas_atomic_inc_long (p); }
X L N(dec_long) (L *p, L a, L b) { return sas_atomic_dec_long (p); }
/* lock programs; the shared area: [0] the lock, [1] inside flags are bytes 0..2 of word 2, counter in word 3, results in words 4..6 */
typedef volatile L *V;
#define IN(t) ((volatile unsigned char *) (s + 2))[t]
#define CRIT(t) do { IN (t) = 1; L c = s[3]; s[3] = c + 1; IN (t) = 0; } while (0)
X L N(spin) (V s, L t, L n) { for (L i = 0; i < n; i++) { sas_spin_lock ((sas_spin_lock_t *) s); CRIT (t); sas_spin_unlock ((sas_spin_lock_t *) s); } return n; }
X L N(spin_yield) (V s, L t, L n) { for (L i = 0; i < n; i++) { sas_spin_lock_with_yield ((sas_spin_lock_t *) s); CRIT (t); sas_spin_unlock ((sas_spin_lock_t *) s); } return n; }
X L N(spin_try) (V s, L t, L n) { L k = 0; for (L i = 0; i < n; i++) if (!sas_spin_trylock ((sas_spin_lock_t *) s)) { k++; CRIT (t); sas_spin_unlock ((sas_spin_lock_t *) s); } return k; }
X L N(spin_tryhold) (V s, L t, L n) { if (sas_spin_trylock ((sas_spin_lock_t *) s)) return 0; CRIT (t); return 1; }
X L N(spin_init) (V s, L t, L n) { sas_spin_lock_init ((sas_spin_lock_t *) s); return 0; }
/* pointer locks: each lock call's value is remembered; t's pointer values are t * 0x1000 + i * 16 + 2 (bit 0 clear) */
#define PV(t, i) ((sas_lock_ptr_t) (((t) + 1) * 0x1000 + (i) * 16 + 2))
X L N(ptr) (V s, L t, L n) { L bad = 0; for (L i = 0; i < n; i++) { L v = (L) sas_lock_ptr ((sas_lock_ptr_t *) s); if (v != s[4]) bad = 1; CRIT (t); sas_unlock_ptr ((sas_lock_ptr_t *) s); } return bad ? -1 : n; }
X L N(ptr_yield) (V s, L t, L n) { for (L i = 0; i < n; i++) { sas_lock_ptr_with_yield ((sas_lock_ptr_t *) s); CRIT (t); sas_unlock_ptr ((sas_lock_ptr_t *) s); } return n; }
X L N(ptr_try) (V s, L t, L n) { L k = 0; for (L i = 0; i < n; i++) if (!sas_trylock_ptr ((sas_lock_ptr_t *) s)) { k++; CRIT (t); sas_unlock_ptr ((sas_lock_ptr_t *) s); } return k; }
X L N(ptr_tryhold) (V s, L t, L n) { if (sas_trylock_ptr ((sas_lock_ptr_t *) s)) return 0; CRIT (t); return 1; }
X L N(ptr_set) (V s, L t, L n) { L bad = 0; for (L i = 0; i < n; i++) { L v = (L) sas_lock_ptr ((sas_lock_ptr_t *) s); if (v != s[4]) bad = 1; IN (t) = 1; s[4] = (L) PV (t, i); sas_set_locked_ptr ((sas_lock_ptr_t *) s, PV (t, i)); s[3] = s[3] + 1; IN (t) = 0; sas_unlock_ptr ((sas_lock_ptr_t *) s); } return bad ? -1 : n; }
X L N(ptr_swap) (V s, L t, L n) { for (L i = 0; i < n; i++) { sas_set_unlocked_ptr ((sas_lock_ptr_t *) s, PV (t, i)); IN (t) = 1; s[4] = (L) PV (t, i); s[3] = s[3] + 1; IN (t) = 0; sas_unlock_ptr ((sas_lock_ptr_t *) s); } return n; }
X L N(ptr_init) (V s, L t, L n) { sas_lock_ptr_init ((sas_lock_ptr_t *) s); return 0; }
