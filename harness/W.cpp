// W01: every operation refuses a handle of another kind and changes nothing, in every state of a world that holds one object of each kind.
#include "mc.h"
#include <string.h>
extern "C" {
#include "sasalloc.h"
#include "sasindexkey.h"
#include "sassimpleheap.h"
#include "sassimplestack.h"
#include "sassimplespace.h"
#include "sascompoundheap.h"
#include "sphcompoundpcqheap.h"
#include "sasstringbtree.h"
#include "sasstringbtreeenum.h"
#include "sasindex.h"
#include "sasindexenum.h"
#include "sphcontext.h"
#include "sphlockfreeheap.h"
#include "sphlflogger.h"
#include "sphlogportal.h"
#include "sphsinglepcqueue.h"
#include "sphmultipcqueue.h"
#include "sassim.h"
}
#include "sasstringbtreenode.h"
#include "sasindexnode.h"
using namespace mc;
typedef long L;
enum Kind { SH, SN, IN_, CX, ST, SP, LF, LG, CL, PT, PQ, TQ, CH, FH, SB, IX, RW, NK };
static const char *KN[] = {"simple heap", "string-tree node", "index node", "context", "simple stack", "simple space", "lock-free heap", "logger", "circular logger", "log portal", "single-producer queue", "multi-producer queue", "compound heap", "fixed compound heap", "string tree", "index", "plain block"};
static void *O[NK];
#define B(k) (1u << (k))
static const unsigned HEAPS = B(SH) | B(SN) | B(IN_) | B(CX), COMP = B(CH) | B(FH) | B(SB) | B(IX), LOGS = B(LG) | B(CL), ALL = B(NK) - 1;
enum Ret { NUL, NZ, ANY };       // how a refusal reports: null/zero, not zero, unspecified
struct Op { const char *name; unsigned serves, skip; Ret ret; L (*f)(char *h); };
static SASIndexKey_t K1, K2; static char ks[16] = "kb"; static void *in_sh, *in_st, *in_lf, *sub_ch, *sub_q, *stq, *lent; static SPHLFEntryHandle_t eh; static SPHLFLoggerHandle_t lh; static SPHLFLogIterator_t lit; static SPHLFPortalIterator_t pit;
#define OP(...) OP_(__VA_ARGS__)
#define VOP(...) VOP_(__VA_ARGS__)
#define OP_(fn, serves, skip, ret, ...) {#fn, serves, skip, ret, [](char *h) -> L { return (L)fn(__VA_ARGS__); }},
#define VOP_(fn, serves, skip, ...) {#fn, serves, skip, ANY, [](char *h) -> L { fn(__VA_ARGS__); return 0; }},
static const Op OPS[] = {
  // simple heap: contexts and tree nodes are simple heaps too
  OP(SASSimpleHeapAlloc, HEAPS, 0, NUL, h, 32) OP(SASSimpleHeapAllocNoLock, HEAPS, 0, NUL, h, 32) OP(SASSimpleHeapFree, HEAPS, 0, NZ, h, h + 512, 32) OP(SASSimpleHeapFreeNoLock, HEAPS, 0, NZ, h, h + 512, 32)
  OP(SASSimpleHeapFree, HEAPS, 0, NZ, h, in_sh, 64) OP(SASSimpleHeapFreeNoLock, HEAPS, 0, NZ, h, in_sh, 64)
  OP(SASSimpleHeapFreeSpace, HEAPS, 0, NUL, h) OP(SASSimpleHeapFreeSpaceNoLock, HEAPS, 0, NUL, h) OP(SASSimpleHeapEmpty, HEAPS, 0, ANY, h) OP(SASSimpleHeapEmptyNoLock, HEAPS, 0, ANY, h)
  OP(SASSimpleHeapDestroy, B(SH), 0, NZ, h) OP(SASSimpleHeapDestroyNoLock, B(SH), 0, NZ, h) OP(SASSimpleHeapNearFind, HEAPS, B(CH) | B(FH) | B(SB) | B(IX), NUL, h + 300)
  // stack
  OP(SASSimpleStackAlloc, B(ST), 0, NUL, h, 32) OP(SASSimpleStackAllocNoLock, B(ST), 0, NUL, h, 32) OP(SASSimpleStackNearAlloc, B(ST), 0, NUL, h + 64, 32) OP(SASSimpleStackNearAllocNoLock, B(ST), 0, NUL, h + 64, 32)
  OP(SASSimpleStackDealloc, B(ST), 0, NZ, h, h + 4096) OP(SASSimpleStackDeallocNoLock, B(ST), 0, NZ, h, h + 4096) OP(SASSimpleStackDealloc, B(ST), 0, NZ, h, in_st) OP(SASSimpleStackDeallocNoLock, B(ST), 0, NZ, h, in_st)
  OP(SASSimpleStackFreeSpace, B(ST), 0, NUL, h) OP(SASSimpleStackFreeSpaceNoLock, B(ST), 0, NUL, h) OP(SASSimpleStackDestroy, B(ST), 0, NZ, h) OP(SASSimpleStackDestroyNoLock, B(ST), 0, NZ, h)
  // space
  OP(SASSimpleSpaceToAddr, B(SP), 0, NUL, h) OP(SASSimpleSpaceFromAddr, B(SP), 0, NUL, h + 128) OP(SASSimpleSpaceFromAddr, B(SP), 0, NUL, h + 4096) OP(SASSimpleSpaceFreeSpace, B(SP), 0, NUL, h) OP(SASSimpleSpaceDestroy, B(SP), 0, NZ, h) OP(SASSimpleSpaceDestroyNoLock, B(SP), 0, NZ, h)
  // compound heap: the trees are compound heaps too
  OP(SASCompoundHeapAlloc, COMP, 0, NUL, h) OP(SASCompoundHeapAllocNoLock, COMP, 0, NUL, h) OP(SASCompoundHeapExpandCreate, COMP, 0, NUL, h) OP(SASCompoundHeapFreeSpace, COMP, 0, NUL, h) OP(SASCompoundHeapFreeSpaceNoLock, COMP, 0, NUL, h) OP(SASCompoundHeapAllocSize, COMP, 0, NUL, h) OP(SASCompoundHeapAllocSpace, COMP, 0, NUL, h) OP(SASCompoundHeapWriteAll, COMP, 0, NUL, h, 0) OP(SASCompoundHeapPurgeAll, COMP, 0, NUL, h, 0) OP(SASCompoundHeapReleaseAll, COMP, 0, NUL, h) OP(SASCompoundHeapBringAll, COMP, 0, NUL, h) OP(SASCompoundHeapSeqAccessAll, COMP, 0, NUL, h) OP(SASCompoundHeapRandomAccessAll, COMP, 0, NUL, h)
  VOP(SASCompoundHeapFree, COMP, 0, h, sub_ch) VOP(SASCompoundHeapFreeNoLock, COMP, 0, h, sub_ch) VOP(SASCompoundHeapFree, COMP, 0, h, h + 8192) VOP(SASCompoundHeapDestroy, B(CH) | B(FH), B(SB) | B(IX), h) VOP(SASCompoundHeapDestroyNoLock, B(CH) | B(FH), B(SB) | B(IX), h)
  {"SASCompoundHeapFree of the object", B(SH), 0, ANY, [](char *h) -> L { SASCompoundHeapFree(O[CH], h); return 0; }}, {"SASCompoundHeapFreeNoLock of the object", B(SH), 0, ANY, [](char *h) -> L { SASCompoundHeapFreeNoLock(O[CH], h); return 0; }}, {"SASCompoundHeapNearDealloc", B(SH), 0, ANY, [](char *h) -> L { SASCompoundHeapNearDealloc(h); return 0; }}, {"SASCompoundHeapNearDeallocNoLock", B(SH), 0, ANY, [](char *h) -> L { SASCompoundHeapNearDeallocNoLock(h); return 0; }},
  OP(SPHCompoundPCQAlloc, COMP, 0, NUL, h) OP(SPHCompoundPCQAllocNoLock, COMP, 0, NUL, h) VOP(SPHCompoundPCQFree, COMP, 0, h, (SPHSinglePCQueue_t)sub_q) VOP(SPHCompoundPCQFreeNoLock, COMP, 0, h, (SPHSinglePCQueue_t)sub_q)
  {"SPHCompoundPCQFree of the object", B(PQ), 0, ANY, [](char *h) -> L { SPHCompoundPCQFree(O[FH], (SPHSinglePCQueue_t)h); return 0; }}, {"SPHCompoundPCQFreeNoLock of the object", B(PQ), 0, ANY, [](char *h) -> L { SPHCompoundPCQFreeNoLock(O[FH], (SPHSinglePCQueue_t)h); return 0; }},
  OP(SASCompoundHeapNearAlloc, COMP | HEAPS, 0, NUL, h + 64) OP(SASCompoundHeapNearAllocNoLock, COMP | HEAPS, 0, NUL, h + 64) OP(SPHCompoundPCQNearAlloc, COMP | B(PQ) | B(TQ), HEAPS, NUL, h + 64) OP(SPHCompoundPCQNearAllocNoLock, COMP | B(PQ) | B(TQ), HEAPS, NUL, h + 64)
  // string tree
#define T(x) SASStringBTree##x
  OP(T(Put), B(SB), 0, NUL, h, ks, in_sh) OP(T(Put_nolock), B(SB), 0, NUL, h, ks, in_sh) OP(T(Replace), B(SB), 0, NUL, h, ks, in_sh) OP(T(Replace_nolock), B(SB), 0, NUL, h, ks, in_sh) OP(T(Remove), B(SB), 0, NUL, h, ks) OP(T(Remove_nolock), B(SB), 0, NUL, h, ks)
  OP(T(Get), B(SB), 0, NUL, h, ks) OP(T(Get_nolock), B(SB), 0, NUL, h, ks) OP(T(ContainsKey), B(SB), 0, NUL, h, ks) OP(T(ContainsKey_nolock), B(SB), 0, NUL, h, ks) OP(T(GetMaxKey), B(SB), 0, NUL, h) OP(T(GetMaxKey_nolock), B(SB), 0, NUL, h) OP(T(GetMinKey), B(SB), 0, NUL, h) OP(T(GetMinKey_nolock), B(SB), 0, NUL, h)
  OP(T(IsEmpty), B(SB), 0, ANY, h) OP(T(IsEmpty_nolock), B(SB), 0, ANY, h) OP(T(GetCurCount), B(SB), 0, ANY, h) OP(T(GetModCount), B(SB), 0, ANY, h) OP(T(GetModCount_nolock), B(SB), 0, ANY, h) OP(T(GetRootNode), B(SB), 0, NUL, h) OP(T(GetRootNodeNoLock), B(SB), 0, NUL, h)
  OP(T(AllocSize), B(SB), 0, NUL, h) OP(T(FreeSpace), B(SB), 0, NUL, h) OP(T(FreeSpaceNoLock), B(SB), 0, NUL, h) OP(T(Alloc), B(SB), 0, NUL, h) OP(T(AllocNoLock), B(SB), 0, NUL, h) OP(T(ExpandCreate), B(SB), 0, NUL, h) VOP(T(Free), B(SB), 0, h, (SASStringBTreeNode_t)O[SN]) VOP(T(FreeNoLock), B(SB), 0, h, (SASStringBTreeNode_t)O[SN])
  {"SASStringBTreeFree of the object", B(SN), 0, ANY, [](char *h) -> L { T(Free)(O[SB], (SASStringBTreeNode_t)h); return 0; }}, {"SASStringBTreeFreeNoLock of the object", B(SN), 0, ANY, [](char *h) -> L { T(FreeNoLock)(O[SB], (SASStringBTreeNode_t)h); return 0; }}, VOP(T(NearDealloc), B(SN), 0, h) VOP(T(NearDeallocNoLock), B(SN), 0, h)
  OP(T(NearAlloc), B(SB) | B(SN), 0, NUL, h + 64) OP(T(NearAllocNoLock), B(SB) | B(SN), 0, NUL, h + 64) OP(T(EnumCreate), B(SB), 0, NUL, h) OP(T(EnumCreateStartAt), B(SB), 0, NUL, h, ks) VOP(T(Destroy), B(SB), 0, h) VOP(T(DestroyNoLock), B(SB), 0, h)
#undef T
#define T(x) SASIndex##x
  OP(T(Put), B(IX), 0, NUL, h, &K2, in_sh) OP(T(Put_nolock), B(IX), 0, NUL, h, &K2, in_sh) OP(T(Replace), B(IX), 0, NUL, h, &K1, in_sh) OP(T(Replace_nolock), B(IX), 0, NUL, h, &K1, in_sh) OP(T(Remove), B(IX), 0, NUL, h, &K1) OP(T(Remove_nolock), B(IX), 0, NUL, h, &K1)
  OP(T(Get), B(IX), 0, NUL, h, &K1) OP(T(Get_nolock), B(IX), 0, NUL, h, &K1) OP(T(ContainsKey), B(IX), 0, NUL, h, &K1) OP(T(ContainsKey_nolock), B(IX), 0, NUL, h, &K1) OP(T(GetMaxKey), B(IX), 0, NUL, h) OP(T(GetMaxKey_nolock), B(IX), 0, NUL, h) OP(T(GetMinKey), B(IX), 0, NUL, h) OP(T(GetMinKey_nolock), B(IX), 0, NUL, h)
  OP(T(IsEmpty), B(IX), 0, ANY, h) OP(T(IsEmpty_nolock), B(IX), 0, ANY, h) OP(T(GetModCount), B(IX), 0, ANY, h) OP(T(GetModCount_nolock), B(IX), 0, ANY, h)
  OP(T(AllocSize), B(IX), 0, NUL, h) OP(T(FreeSpace), B(IX), 0, NUL, h) OP(T(ExpandCreate), B(IX), 0, NUL, h) OP(T(EnumCreate), B(IX), 0, NUL, h) VOP(T(Destroy), B(IX), 0, h)
#undef T
  // context
  OP(SPHContextAddName, B(CX), 0, NUL, h, ks, in_sh) OP(SPHContextRename, B(CX), 0, NUL, h, "ka", ks, in_sh) OP(SPHContextRename, B(CX), 0, NUL, h, "ka", ks, in_sh) OP(SPHContextFindByName, B(CX), 0, NUL, h, ks) OP(SPHContextFindByAddr, B(CX), 0, NUL, h, in_sh) OP(SPHContextRemoveByName, B(CX), 0, NZ, h, "ka") OP(SPHContextRemoveByAddr, B(CX), 0, NZ, h, in_st)
  OP(SPHContextGetNameEnum, B(CX), 0, NUL, h) OP(SPHContextFreeSpace, B(CX), 0, NUL, h) OP(SPHContextDestroy, B(CX), 0, NZ, h)
  // lock-free heap
#define T(x) SPHLockFreeHeap##x
  OP(T(Alloc), B(LF), 0, NUL, h, 32) OP(T(AlignAlloc), B(LF), 0, NUL, h, 32, 64) OP(T(Free), B(LF), 0, NZ, h, in_lf) OP(T(FreeIn), B(LF), 0, NZ, h, in_lf) OP(T(FreeChk), B(LF), 0, NZ, h, in_lf, 64) OP(T(FreeSpace), B(LF), 0, NUL, h) OP(T(Empty), B(LF), 0, ANY, h) OP(T(Full), B(LF), 0, ANY, h) OP(T(Destroy), B(LF), 0, NZ, h)
  OP(T(Free), B(LF), 0, NZ, h, h + 512) OP(T(FreeIn), B(LF), 0, NZ, h, h + 512) OP(T(FreeChk), B(LF), 0, NZ, h, h + 512, 64) OP(T(NearAlloc), B(LF), 0, NUL, h + 512, 32) OP(T(NearFind), B(LF), 0, NUL, h + 512) OP(T(FreeNear), B(LF), 0, NZ, h + 512) OP(T(FreeNearChk), B(LF), 0, NZ, h + 512, 64)
#undef T
  // loggers
#define T(x) SPHLFLogger##x
  OP(T(AllocRaw), LOGS, 0, NUL, h, 32) OP(T(AllocTimeStamped), LOGS, 0, NUL, h, 1, 2, 64, &lh) OP(T(AllocStrideTimeStamped), LOGS, 0, NUL, h, 1, 2, &lh) OP(T(AllocTimeStampedNoLock), LOGS, 0, NUL, h, 1, 2, 64, &lh) OP(T(AllocStrideTimeStampedNoLock), LOGS, 0, NUL, h, 1, 2, &lh) OP(T(CreateIterator), LOGS, 0, NUL, h, &lit)
  OP(T(Empty), LOGS, 0, ANY, h) OP(T(Full), LOGS, 0, ANY, h) OP(T(Wrapped), LOGS, 0, ANY, h) OP(T(FreeSpace), LOGS, 0, NUL, h) OP(T(ResetIfFullSync), LOGS, 0, NZ, h) OP(T(ResetAsync), LOGS, 0, NZ, h) OP(T(Prefetch), LOGS, 0, NZ, h) OP(T(SetCachePrefetch), LOGS, 0, NZ, h, 0) OP(T(SetCachePrefetch), LOGS, 0, NZ, h, 1) OP(T(Destroy), LOGS, 0, NZ, h)
#undef T
#define T(x) SPHLogPortal##x
  OP(T(Empty), B(PT), 0, ANY, h) OP(T(Entries), B(PT), 0, ANY, h) OP(T(Capacity), B(PT), 0, ANY, h) OP(T(AddLogger), B(PT), 0, NUL, h, (SPHLFLogger_t)O[LG]) {"SPHLogPortalAddLogger of the object", LOGS, 0, NUL, [](char *h) -> L { return (L)T(AddLogger)(O[PT], h); }}, OP(T(GetCurrentLogger), B(PT), 0, NUL, h) OP(T(GetLoggerByIndex), B(PT), 0, NUL, h, 0) OP(T(GetLoggerByIndex), B(PT), 0, NUL, h, 1) OP(T(GetCurrentIndex), B(PT), 0, ANY, h)
  OP(T(AllocStrideTimeStamped), B(PT), 0, NUL, h, 1, 2, &lh) OP(T(AllocTimeStamped), B(PT), 0, NUL, h, 1, 2, 64, &lh) OP(T(AllocRaw), B(PT), 0, NUL, h, 32) OP(T(Destroy), B(PT), 0, NZ, h) OP(SPHLFPortalCreateIterator, B(PT), 0, NUL, h, &pit)
#undef T
#define T(x) SPHSinglePCQueue##x
  OP(T(GetStride), B(PQ), 0, ANY, h) OP(T(AllocRaw), B(PQ), 0, NUL, h) OP(T(AllocStrideEntry), B(PQ), 0, NUL, h, 1, 2, &eh) OP(T(AllocStrideTimeStamped), B(PQ), 0, NUL, h, 1, 2, &eh) OP(T(GetNextComplete), B(PQ), 0, NUL, h, &eh) OP(T(FreeNextEntry), B(PQ), 0, NUL, h) OP(T(Empty), B(PQ), 0, ANY, h) OP(T(FreeSpace), B(PQ), 0, NUL, h) OP(T(Full), B(PQ), 0, ANY, h)
  OP(T(ResetAsync), B(PQ), 0, NZ, h) OP(T(Prefetch), B(PQ), 0, NZ, h) OP(T(SetCachePrefetch), B(PQ), 0, NZ, h, 0) OP(T(SetCachePrefetch), B(PQ), 0, NZ, h, 1) OP(T(Destroy), B(PQ), 0, NZ, h)
#undef T
#define T(x) SPHMPMCQ##x
  OP(T(GetStride), B(TQ), 0, ANY, h) OP(T(GetEntries), B(TQ), 0, ANY, h) OP(T(AllocStrideDirectSync), B(TQ), 0, NUL, h) OP(SPHSPMCQAllocStrideDirect, B(TQ), 0, NUL, h) OP(T(GetNextCompleteDirectSync), B(TQ), 0, NUL, h) OP(SPHMPSCQGetNextCompleteDirect, B(TQ), 0, NUL, h) OP(T(FreeEntryDirect), B(TQ), 0, ANY, h, (SPHLFEntryDirect_t)(h + 256)) OP(T(GetNextEntry), B(TQ), 0, NUL, h) OP(T(IsEmpty), B(TQ), 0, ANY, h) OP(T(IsFull), B(TQ), 0, ANY, h) OP(T(FreeSpace), B(TQ), 0, NUL, h) OP(T(GetEntryTemplate), B(TQ), 0, ANY, h)
  OP(T(Prefetch), B(TQ), 0, NZ, h) OP(T(SetCachePrefetch), B(TQ), 0, ANY, h, 0) OP(T(Destroy), B(TQ), 0, NZ, h)
#undef T
};
static const int NOPS = sizeof OPS / sizeof *OPS;
static void world() {
  SASIndexKeyInitUInt64(&K1, 7); SASIndexKeyInitUInt64(&K2, 9);
  O[SH] = SASSimpleHeapCreate(4096); O[SN] = SASStringBTreeNodeCreate(4096); O[IN_] = SASIndexNodeCreate(4096); O[CX] = SPHContextCreate(65536); O[ST] = SASSimpleStackCreate(16384); O[SP] = SASSimpleSpaceCreate(8192);
  O[LF] = SPHLockFreeHeapCreate(16384, 64); O[LG] = SPHLFLoggerCreate(4096); O[CL] = SPHLFCircularLoggerCreate(4096, 256); O[PT] = SPHLogPortalCreate(4096); O[PQ] = SPHSinglePCQueueCreateWithStride(4096, 256); O[TQ] = SPHMPMCQCreateWithStride(4096, 256);
  O[CH] = SASCompoundHeapCreatePageSize(65536, 4096); O[FH] = SASCompoundFixedHeapCreate(65536); O[SB] = SASStringBTreeCreate(65536); O[IX] = SASIndexCreate(65536); O[RW] = SASBlockAlloc(8192); memset(O[RW], 0x5a, 8192);
  for (int k = 0; k < NK; k++) if (!O[k]) { violation("setup", "cannot create a %s", KN[k]); return; }
  for (int k = 0; k < NK; k++) ideal_lock_touch(O[k]);
  in_sh = SASSimpleHeapAlloc(O[SH], 64); in_st = SASSimpleStackAlloc(O[ST], 32); SASSimpleStackAlloc(O[ST], 32); in_lf = SPHLockFreeHeapAlloc(O[LF], 64); sub_ch = SASCompoundHeapAlloc(O[CH]); SASCompoundHeapAlloc(O[CH]); sub_q = SPHCompoundPCQAlloc(O[FH]);
  SASStringBTreePut(O[SB], "ka", in_sh); SASIndexPut(O[IX], &K1, in_sh); SPHContextAddName(O[CX], "ka", in_st); SPHLogPortalAddLogger(O[PT], O[LG]);
}
static std::string g_what; static bool compat(const Op &o, int k) { return (o.serves | o.skip) & B(k); }
// one call on an object the operation does not serve
static void refuse(const Op &o, void *h, const std::string &what) {
  g_what = std::string(o.name) + " on " + what; where = g_what; memset(&lh, 0x33, sizeof lh); memset(&eh, 0x33, sizeof eh); lit = SPHLFLogIterator_t(); uint64_t h0 = track_hash(); L r = 0; crash_sig = std::string("crash-") + o.name; heartbeat();
  if (!guarded([&] { r = o.f((char *)h); })) return; st.transitions++; st.evaluations++;
  if (track_hash() != h0 && locks_held().empty()) {   // the call may only have met a lock for the first time: again, with the lock known
    auto known = ideal_lock_addrs(); track_pop(); for (void *a : known) ideal_lock_touch(a); track_push(); h0 = track_hash(); if (!guarded([&] { r = o.f((char *)h); })) return; }
  MC_CHECK(track_hash() == h0, std::string("changed-") + o.name, "%s changed the region", g_what.c_str());
  std::string lk = locks_held(); MC_CHECK(lk.empty(), std::string("locked-") + o.name, "%s left locks held: %s", g_what.c_str(), lk.c_str());
  if (o.ret == NUL) MC_CHECK(r == 0, std::string("accepted-") + o.name, "%s reported success: %lx", g_what.c_str(), r);
  if (o.ret == NZ) MC_CHECK((int)r != 0, std::string("accepted-") + o.name, "%s reported success", g_what.c_str());
}
static void matrix(bool part) { int n = 0; for (int i = 0; i < NOPS; i++) for (int k = 0; k < NK; k++) if (!compat(OPS[i], k)) { if (part && n++ % opts.nshards != opts.shard) continue; track_push(); refuse(OPS[i], O[k], KN[k]); track_pop(); } st.states++; }
static void prep() { join_region(); ideal_locks(); install_handlers(); watchdog(20); track_region(); world(); }
MC_CONFIG(mx, "matrix", 2, 2) { prep(); track_push(); matrix(true); track_pop(); sample(strf("%d operations on %d kinds of objects", NOPS, NK)); }
// every kind number: the object the operation serves, relabelled as another kind
MC_CONFIG(lab, "relabelled", 8, 8) {
  prep(); track_push(); int n = 0; std::set<unsigned> types; for (unsigned g : {0x10u, 0x20u, 0x90u}) for (unsigned t = 0; t < 256; t++) { if (!opts.thorough && g != 0x10 && t > 0x11 && (t & 0xf)) continue; for (unsigned s : {1u, 2u, 3u, 4u}) types.insert(g << 24 | t << 16 | s << 8); }
  for (int i = 0; i < NOPS; i++) for (int k = 0; k < NK; k++) if (OPS[i].serves & B(k)) {
    sample(std::string(OPS[i].name) + " on relabelled objects"); unsigned own = ((SASBlockHeader *)O[k])->blockType;
    for (unsigned t : types) { if ((t & 0x80ff0000) == (own & 0x80ff0000)) continue; bool other = false; for (int j = 0; j < NK - 1; j++) if (compat(OPS[i], j) && (((SASBlockHeader *)O[j])->blockType & 0x80ff0000) == (t & 0x80ff0000)) other = true; if (other) continue; if (n++ % opts.nshards != opts.shard) continue;
      track_push(); ((SASBlockHeader *)O[k])->blockType = t; refuse(OPS[i], O[k], strf("a %s relabelled as type %08x", KN[k], t)); track_pop(); }
    if (strstr(OPS[i].name, "Near")) { st.states++; continue; } // without a signature there is no block there, and the near functions take the nearest one
    for (int sig = 0; sig < 2; sig++) for (int b = 0; b < 64; b++) { if (n++ % opts.nshards != opts.shard) continue; track_push(); SASBlockHeader *hd = (SASBlockHeader *)O[k]; if (sig) hd->blockSig2 ^= (decltype(hd->blockSig2))1 << (b % (8 * sizeof hd->blockSig2)); else hd->blockSig1 ^= (decltype(hd->blockSig1))1 << (b % (8 * sizeof hd->blockSig1)); refuse(OPS[i], O[k], strf("a %s with bit %d of signature %d flipped", KN[k], b, sig + 1)); track_pop(); }
    st.states++; }
  track_pop();
}
// every state reached by short histories of proper operations
struct M { int dummy = 0; };
struct Sys : SeqSysT<M> {
  int nops() override { return 22; }
  std::string name(int op) override { static const char *n[] = {"heap alloc", "heap free", "stack alloc", "stack free", "lf alloc", "lf free", "log", "log circular", "portal log", "queue put", "queue take", "mp put", "mp take", "compound alloc", "compound free", "tree put", "tree remove", "index put", "index remove", "name", "unname", "fill compound"}; return n[op]; }
  void apply(int op) override {
    where = name(op); switch (op) {
      case 0: SASSimpleHeapAlloc(O[SH], 2000); break; case 1: SASSimpleHeapFree(O[SH], in_sh, 64); break; case 2: SASSimpleStackAlloc(O[ST], 8000); break; case 3: SASSimpleStackDealloc(O[ST], in_st); break; case 4: SPHLockFreeHeapAlloc(O[LF], 2048); break; case 5: SPHLockFreeHeapFree(O[LF], in_lf); break;
      case 6: SPHLFLoggerAllocTimeStamped(O[LG], 1, 1, 1800, &lh); break; case 7: for (int i = 0; i < 6; i++) SPHLFLoggerAllocStrideTimeStamped(O[CL], 1, 1, &lh); break; case 8: SPHLogPortalAllocTimeStamped(O[PT], 1, 1, 500, &lh); break;
      case 9: for (int i = 0; i < 8; i++) if (SPHSinglePCQueueAllocStrideEntry(O[PQ], 1, 1, &eh)) SPHSinglePCQueueEntryComplete(&eh); break; case 10: if (SPHSinglePCQueueGetNextComplete(O[PQ], &eh)) SPHSinglePCQueueFreeNextEntry(O[PQ]); break;
      case 11: for (int i = 0; i < 8; i++) { SPHLFEntryDirect_t e = SPHMPMCQAllocStrideDirectSync(O[TQ]); (void)e; } break; case 12: SPHMPMCQGetNextCompleteDirectSync(O[TQ]); break;
      case 13: SASCompoundHeapAlloc(O[CH]); break; case 14: SASCompoundHeapFree(O[CH], sub_ch); break; case 15: SASStringBTreePut(O[SB], "kc", in_sh); break; case 16: SASStringBTreeRemove(O[SB], "ka"); break; case 17: SASIndexPut(O[IX], &K2, in_sh); break; case 18: SASIndexRemove(O[IX], &K1); break;
      case 19: SPHContextAddName(O[CX], "kc", in_lf); break; case 20: SPHContextRemoveByName(O[CX], "ka"); break; case 21: for (int i = 0; i < 20; i++) SASCompoundHeapAlloc(O[CH]); break;
    }
  }
  uint64_t mhash() override { return 0; }
  void check() override { auto sp = path_names; matrix(false); path_names = sp; }
};
MC_CONFIG(hist, "histories", 8, 8) { prep(); Sys s; seq_explore(s, {opts.thorough ? 3 : 2, 1, true, false}); sample("every wrong call in every state reached by short histories"); }
// setting the subtype of an object sets exactly that
MC_CONFIG(sub, "subtypes", 1, 1) { prep(); track_push();
  for (int k = 0; k < NK - 1; k++) for (unsigned t = 0; t < 256; t++) for (unsigned rest : {0u, SAS_SUB_TYPE_MASK ^ ~0u}) { SASBlockHeader *h = (SASBlockHeader *)O[k], b = *h; unsigned want = (b.blockType & ~SAS_SUB_TYPE_MASK) | (((t * 0x01010101u) | rest) & SAS_SUB_TYPE_MASK); where = strf("setting subtype %08x of a %s", t * 0x01010101u | rest, KN[k]);
    SOMSASSetBlockSubType(h, (sas_type_t)(t * 0x01010101u | rest)); MC_CHECK((unsigned)SOMSASGetBlockType(h) == want && (unsigned)SOMSASGetBlockSubType(h) == (want & SAS_SUB_TYPE_MASK) && SOMSASCheckBlockSubType(h, want) && SOMSASCheckBlockSig(h), "subtype", "%s made its type %08x, not %08x", where.c_str(), (unsigned)h->blockType, want); h->blockType = b.blockType; MC_CHECK(!memcmp(&b, h, sizeof b), "subtype", "%s changed its header", where.c_str()); st.states++; st.transitions++; st.evaluations++; }
  track_pop(); sample("every kind by 512 subtypes"); }
