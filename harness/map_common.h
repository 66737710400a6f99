// String tree and index behind one interface; keys are numbered in their order, values are small tokens.
#pragma once
#include "mc.h"
#include <string.h>
#include <map>
#include <functional>
#include "sasalloc.h"
#include "sassim.h"
#include "sasstringbtree.h"
#include "sasstringbtreeenum.h"
#include "sasindex.h"
#include "sasindexenum.h"
using namespace mc;
int conc_self();
static inline void *VAL(long v) { return (void *)v; }

struct Map {
  bool nolock = false; void *h = 0; bool is_string = false;
  virtual ~Map() {}
  virtual int nkeys() = 0;
  virtual void create(size_t block, bool fixed, size_t page) = 0;
  virtual void destroy() = 0;
  virtual int put(int k, long v) = 0;
  virtual long replace(int k, long v) = 0;
  virtual long remove(int k) = 0;
  virtual long get(int k) = 0;
  virtual int contains(int k) = 0;
  virtual int minkey() = 0;      // -1: none, -2: not a known key
  virtual int maxkey() = 0;
  virtual long modcount() = 0;
  virtual long count() = 0;      // -1 not available
  virtual int empty() = 0;
  virtual size_t freespace() = 0;
  // enumeration
  virtual void *ecreate(int start /* -1: all */) = 0;
  virtual void edestroy(void *e) = 0;
  virtual int emore(void *e) = 0;
  virtual long enext(void *e) = 0;
  virtual int ecur(void *e) { return -3; }   // key of the current position (string tree only)
  virtual std::string kname(int k) = 0;
  virtual size_t klen(int) { return 0; }
};

struct StrMap : Map {
  std::vector<std::string> keys; std::map<std::string, int> idx;
  StrMap(const std::vector<std::string> &ks) {
    is_string = true; keys = ks;
    std::sort(keys.begin(), keys.end(), [](const std::string &a, const std::string &b) { return strcmp(a.c_str(), b.c_str()) < 0; });
    for (size_t i = 0; i < keys.size(); i++) idx[keys[i]] = i;
  }
  int nkeys() override { return keys.size(); }
  char *K(int k) { return (char *)keys[k].c_str(); }
  int id(const char *s) { if (!s) return -1; auto it = idx.find(s); return it == idx.end() ? -2 : it->second; }
  size_t klen(int k) override { return keys[k].size(); }
  void create(size_t b, bool fixed, size_t page) override { h = fixed ? SASStringBTreeFixedCreate(b) : page ? SASStringBTreeCreatePageSize(b, page) : SASStringBTreeCreate(b); }
  void destroy() override { SASStringBTreeDestroy(h); }
  int put(int k, long v) override { return nolock ? SASStringBTreePut_nolock(h, K(k), VAL(v)) : SASStringBTreePut(h, K(k), VAL(v)); }
  long replace(int k, long v) override { return (long)(nolock ? SASStringBTreeReplace_nolock(h, K(k), VAL(v)) : SASStringBTreeReplace(h, K(k), VAL(v))); }
  long remove(int k) override { return (long)(nolock ? SASStringBTreeRemove_nolock(h, K(k)) : SASStringBTreeRemove(h, K(k))); }
  long get(int k) override { return (long)(nolock ? SASStringBTreeGet_nolock(h, K(k)) : SASStringBTreeGet(h, K(k))); }
  int contains(int k) override { return nolock ? SASStringBTreeContainsKey_nolock(h, K(k)) : SASStringBTreeContainsKey(h, K(k)); }
  int minkey() override { return id(nolock ? SASStringBTreeGetMinKey_nolock(h) : SASStringBTreeGetMinKey(h)); }
  int maxkey() override { return id(nolock ? SASStringBTreeGetMaxKey_nolock(h) : SASStringBTreeGetMaxKey(h)); }
  long modcount() override { return nolock ? SASStringBTreeGetModCount_nolock(h) : SASStringBTreeGetModCount(h); }
  long count() override { return SASStringBTreeGetCurCount(h); }
  int empty() override { return nolock ? SASStringBTreeIsEmpty_nolock(h) : SASStringBTreeIsEmpty(h); }
  size_t freespace() override { return SASStringBTreeFreeSpace(h); }
  void *ecreate(int s) override { return s < 0 ? SASStringBTreeEnumCreate(h) : SASStringBTreeEnumCreateStartAt(h, K(s)); }
  void edestroy(void *e) override { SASStringBTreeEnumDestroy(e); }
  int emore(void *e) override { return SASStringBTreeEnumHasMore(e); }
  long enext(void *e) override { return (long)(nolock ? SASStringBTreeEnumNext_nolock(e) : SASStringBTreeEnumNext(e)); }
  int ecur(void *e) override { return id(SASStringBTreeEnumCurrent(e)); }
  std::string kname(int k) override { std::string o = "\""; for (unsigned char c : keys[k]) { if (o.size() > 24) { o += strf("...(%zu)", keys[k].size()); break; } if (c >= 32 && c < 127) o += c; else o += strf("\\x%02x", c); } return o + "\""; }
};

struct IdxMap : Map {
  std::vector<SASIndexKey_t> keys;     // in semantic order
  std::map<std::vector<unsigned long>, int> idx;
  static std::vector<unsigned long> vec(const SASIndexKey_t &k) { return std::vector<unsigned long>(k.data, k.data + k.compare_size / sizeof(long)); }
  IdxMap(const std::vector<SASIndexKey_t> &ks) { keys = ks; for (size_t i = 0; i < ks.size(); i++) idx[vec(ks[i])] = i; }
  static SASIndexKey_t words(const std::vector<unsigned long> &w) { SASIndexKey_t k; memset(&k, 0, sizeof k); k.compare_size = w.size() * sizeof(long); k.copy_size = k.compare_size + sizeof(long); for (size_t i = 0; i < w.size(); i++) k.data[i] = w[i]; return k; }
  SASIndexKey_t tmps[17];
  // a caller's key structure need only be as long as the key says: the rest is poisoned
  SASIndexKey_t *K(int k) { SASIndexKey_t &tmp = tmps[conc_self()]; memset(&tmp, 0xA5, sizeof tmp); memcpy(&tmp, &keys[k], keys[k].copy_size); return &tmp; }
  int id(SASIndexKey_t *k) { if (!k) return -1; auto it = idx.find(vec(*k)); return it == idx.end() ? -2 : it->second; }
  int nkeys() override { return keys.size(); }
  void create(size_t b, bool fixed, size_t page) override { h = fixed ? SASIndexFixedCreate(b) : page ? SASIndexCreatePageSize(b, page) : SASIndexCreate(b); }
  void destroy() override { SASIndexDestroy(h); }
  int put(int k, long v) override { return nolock ? SASIndexPut_nolock(h, K(k), VAL(v)) : SASIndexPut(h, K(k), VAL(v)); }
  long replace(int k, long v) override { return (long)(nolock ? SASIndexReplace_nolock(h, K(k), VAL(v)) : SASIndexReplace(h, K(k), VAL(v))); }
  long remove(int k) override { return (long)(nolock ? SASIndexRemove_nolock(h, K(k)) : SASIndexRemove(h, K(k))); }
  long get(int k) override { return (long)(nolock ? SASIndexGet_nolock(h, K(k)) : SASIndexGet(h, K(k))); }
  int contains(int k) override { return nolock ? SASIndexContainsKey_nolock(h, K(k)) : SASIndexContainsKey(h, K(k)); }
  int minkey() override { return id(nolock ? SASIndexGetMinKey_nolock(h) : SASIndexGetMinKey(h)); }
  int maxkey() override { return id(nolock ? SASIndexGetMaxKey_nolock(h) : SASIndexGetMaxKey(h)); }
  long modcount() override { return nolock ? SASIndexGetModCount_nolock(h) : SASIndexGetModCount(h); }
  long count() override { return -1; }
  int empty() override { return nolock ? SASIndexIsEmpty_nolock(h) : SASIndexIsEmpty(h); }
  size_t freespace() override { return SASIndexFreeSpace(h); }
  void *ecreate(int) override { return SASIndexEnumCreate(h); }
  void edestroy(void *e) override { SASIndexEnumDestroy(e); }
  int emore(void *e) override { return SASIndexEnumHasMore(e); }
  long enext(void *e) override { return (long)(nolock ? SASIndexEnumNext_nolock(e) : SASIndexEnumNext(e)); }
  std::string kname(int k) override { std::string o = "<"; for (auto w : vec(keys[k])) o += strf("%s%lx", o.size() > 1 ? "," : "", w); return o + ">"; }
};

// ---- key families
static inline std::vector<std::string> str_keys(const std::string &fam, int n) {
  std::vector<std::string> v;
  for (int i = 0; i < n; i++) {
    if (fam == "short") v.push_back(strf("%04d", i));
    else if (fam == "long") v.push_back(std::string(200, 'p') + strf("%04d", i) + std::string(96, 's'));
    else if (fam == "mixed") v.push_back(strf("%04d", i) + std::string((i * 37) % 251, 'x'));
    else if (fam == "lens") v.push_back(strf("%04d", i) + std::string((i * 7) % 29, 'x'));
    else if (fam == "l15") v.push_back(strf("%04d", i) + std::string(i % 2 ? 11 : 27, 'y'));
    else if (fam == "pfx") { static const char *p[] = {"", "a", "aa", "ab", "b", "\x80", "a\xff", "\xff\xff", "aab", "B", "ba", "\x7f"}; v.push_back(p[i]); }
    else if (fam == "nest") v.push_back(std::string(i, 'n'));      // every key a prefix of the next, starting with ""
  }
  return v;
}
static inline std::vector<SASIndexKey_t> idx_keys(const std::string &fam, int n) {
  std::vector<SASIndexKey_t> v; SASIndexKey_t k;
  for (int i = 0; i < n; i++) {
    memset(&k, 0, sizeof k);
    if (fam == "u64") SASIndexKeyInitUInt64(&k, (unsigned long long)i * (0xffffffffffffffffull / (n > 1 ? n - 1 : 1)));   // starts at 0, ends near the top
    else if (fam == "i64") SASIndexKeyInitInt64(&k, (i - n / 2) * 1000003ll);
    else if (fam == "dbl") SASIndexKeyInitDouble(&k, (i - n / 2) * 0.37);
    else if (fam == "ref") SASIndexKeyInitRef(&k, (void *)(0x80000000000ul + i * 4096ul));
    else if (fam == "w2") k = IdxMap::words({(unsigned long)(i / 7), (unsigned long)(i % 7) << 56 | 255});
    else if (fam == "w4") k = IdxMap::words({5, (unsigned long)(i / 9), 1ul << 40, (unsigned long)(i % 9) * 0x101});
    else if (fam == "w15") { std::vector<unsigned long> w(15, 3); w[14] = i; k = IdxMap::words(w); }
    else if (fam == "mixw") {     // different lengths: prefixes ordered before extensions
      int g = i / 3; std::vector<unsigned long> w = {(unsigned long)g}; if (i % 3 >= 1) w.push_back(0x100); if (i % 3 == 2) w.push_back(0x2); k = IdxMap::words(w);
    }
    v.push_back(k);
  }
  return v;
}
static inline Map *make_map(const std::string &kind, const std::string &fam, int n) { if (kind == "str") return new StrMap(str_keys(fam, n)); return new IdxMap(idx_keys(fam, n)); }

struct MModel { std::map<int, long> m; };
struct MapSys : SeqSysT<MModel> {
  Map *t; std::vector<int> univ;   // keys of the alphabet
  bool full_check = true, counts = true; bool fixed = false; int ops_mask = 7; bool lookups = true; size_t longest = ~0ul;   // keys longer than this may be refused
  int nk() { return univ.size(); }
  std::vector<int> kinds;           // 0 put 1 remove 2 replace
  void init() { kinds.clear(); for (int b = 0; b < 3; b++) if (ops_mask >> b & 1) kinds.push_back(b); }
  int nops() override { return kinds.size() * nk(); }
  std::string name(int op) override { static const char *n[] = {"put", "remove", "replace"}; return strf("%s(%s)", n[kinds[op / nk()]], t->kname(univ[op % nk()]).c_str()); }
  void apply(int op) override { step(kinds[op / nk()], univ[op % nk()]); }
  void step(int kind, int k) {
    long mc0 = t->modcount(); bool had = m.m.count(k); long old = had ? m.m[k] : 0; bool changed = false;
    if (kind == 0) {
      long v = (k + 1) * 8L + 1; size_t fs = fixed ? t->freespace() : 0;
      int rc = t->put(k, v);
      if (had) { MC_CHECK(rc == 0, "put-dup-accepted", "put of existing key %s returned %d", t->kname(k).c_str(), rc); }
      else if (rc == 0 && t->klen(k) > longest) st.nontrivial++;
      else if (rc == 0 && fixed && fs < 5 * 4096) { /* refused for lack of space: content must be unchanged */ st.nontrivial++; }
      else { MC_CHECK(rc == 1, "put-failed", "put of new key %s returned %d (keys present: %zu)", t->kname(k).c_str(), rc, m.m.size()); if (rc) { m.m[k] = v; changed = true; } }
    } else if (kind == 1) {
      long r = t->remove(k);
      MC_CHECK(r == old, had ? "remove-value" : "remove-absent", "remove(%s) returned %#lx, expected %#lx", t->kname(k).c_str(), r, old);
      if (had) { m.m.erase(k); changed = true; }
    } else {
      long v = had ? (old ^ 2) : (k + 1) * 8L + 3;
      long r = t->replace(k, v);
      MC_CHECK(r == old, had ? "replace-value" : "replace-absent", "replace(%s) returned %#lx, expected %#lx", t->kname(k).c_str(), r, old);
      if (had) { m.m[k] = v; changed = true; }
    }
    long mc1 = t->modcount();
    if (changed) MC_CHECK(mc1 > mc0, "modcount-still", "content changed but the modification count went from %ld to %ld", mc0, mc1);
  }
  void check_key(int k) {
    auto it = m.m.find(k); long want = it == m.m.end() ? 0 : it->second;
    long got = t->get(k);
    MC_CHECK(got == want, "get", "get(%s) returned %#lx, expected %#lx", t->kname(k).c_str(), got, want);
    int c = t->contains(k);
    MC_CHECK(!!c == (it != m.m.end()), "contains", "contains(%s) returned %d", t->kname(k).c_str(), c);
  }
  void check() override {
    long mc0 = t->modcount();
    if (full_check) for (int k = 0; k < t->nkeys(); k++) check_key(k); else for (int k : univ) check_key(k);
    if (counts) check_counts();
    MC_CHECK(t->modcount() == mc0, "modcount-lookup", "the modification count changed because of lookups: %ld -> %ld", mc0, t->modcount());
  }
  void check_counts() {
    long n = m.m.size();
    long c = t->count(); if (c >= 0) MC_CHECK(c == n, "count", "count reports %ld, %ld keys are present", c, n);
    int e = t->empty(); MC_CHECK(!!e == (n == 0), "empty", "empty reports %d with %ld keys present", e, n);
    int mn = t->minkey(), mx = t->maxkey();
    int wn = n ? m.m.begin()->first : -1, wx = n ? m.m.rbegin()->first : -1;
    auto nm = [&](int k) { return k < 0 ? std::string(k == -1 ? "none" : "unknown key") : t->kname(k); };
    MC_CHECK(mn == wn, "min", "minimum key is reported as %s, is %s", nm(mn).c_str(), nm(wn).c_str());
    MC_CHECK(mx == wx, "max", "maximum key is reported as %s, is %s", nm(mx).c_str(), nm(wx).c_str());
  }
  uint64_t mhash() override { uint64_t h = 1; for (auto &x : m.m) h = mix(h, mix(x.first, x.second)); return h; }
};

// orders in which n keys are visited
static inline std::vector<int> order(const std::string &o, int n) {
  std::vector<int> v; for (int i = 0; i < n; i++) v.push_back(i);
  if (o == "desc") std::reverse(v.begin(), v.end());
  else if (o == "stride") { int s = n > 3 ? 0 : 1; std::vector<int> w; int step = 1; for (int p : {617, 311, 97, 37, 13, 7, 5, 3}) if (n % p && p < n) { step = p; break; } (void)s; for (int i = 0; i < n; i++) w.push_back((int)((long)i * step % n)); v = w; }
  else if (o == "middle") { std::vector<int> w; int a = n / 2, b = n / 2 + 1; while (a >= 0 || b < n) { if (a >= 0) w.push_back(a--); if (b < n) w.push_back(b++); } v = w; }
  else if (o == "edges") { std::vector<int> w; int a = 0, b = n - 1; while (a <= b) { w.push_back(a++); if (a <= b) w.push_back(b--); } v = w; }
  else if (o == "bitrev") { std::vector<int> w; int bits = 0; while ((1 << bits) < n) bits++; for (int i = 0; i < 1 << bits; i++) { int r = 0; for (int b = 0; b < bits; b++) if (i >> b & 1) r |= 1 << (bits - 1 - b); if (r < n) w.push_back(r); } v = w; }
  else if (o == "evenodd") { std::vector<int> w; for (int i = 0; i < n; i += 2) w.push_back(i); for (int i = 1; i < n; i += 2) w.push_back(i); v = w; }
  return v;
}
