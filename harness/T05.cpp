// T05: index keys order as the values they encode.
#include "mc.h"
#include <string.h>
#include <math.h>
#include "sasalloc.h"
#include "sassim.h"
#include "sasindex.h"
using namespace mc;
typedef SASIndexKey_t K;
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
static K fresh() { K k; memset(&k, 0xA5, sizeof k); return k; }
// compare through copies that are only as long as the key says, the rest poisoned differently
static int cmp(const K &a, const K &b) {
  K x, y; memset(&x, 0x11, sizeof x); memset(&y, 0xEE, sizeof y); memcpy(&x, &a, a.copy_size); memcpy(&y, &b, b.copy_size);
  int c = SASIndexKeyCompare(&x, &y), d = SASIndexKeyCompare(&y, &x); st.transitions += 2;
  MC_CHECK(sgn(c) == -sgn(d), "antisymmetric", "comparison gives %d one way and %d the other", c, d); return sgn(c);
}
static void sizes(const K &k, size_t words, const std::string &what) {
  MC_CHECK(k.compare_size == words * 8 && k.copy_size == words * 8 + 8 && SASIndexKeySize((K *)&k) == words * 8 + 8, "size", "%s: compare size %u, copy size %u for %zu words", what.c_str(), (unsigned)k.compare_size, (unsigned)k.copy_size, words);
  K c; memset(&c, 0x5A, sizeof c); SASIndexKeyCopy(&c, (K *)&k);
  MC_CHECK(!memcmp(&c, &k, k.copy_size), "copy", "%s: the copy differs", what.c_str());
  for (size_t i = k.copy_size; i < sizeof c; i++) MC_CHECK(((unsigned char *)&c)[i] == 0x5A, "copy", "%s: copying wrote behind the key", what.c_str());
  MC_CHECK(cmp(c, k) == 0, "copy", "%s: the copy compares unequal", what.c_str());
}
template <class T, class I, class R> static void all(const char *type, const std::vector<T> &v, I init, R ret, std::function<std::string(T)> pr) {
  std::vector<K> k; install_handlers();
  for (auto &x : v) { K a = fresh(); init(&a, x); sizes(a, 1, pr(x)); T back = ret(&a); MC_CHECK(back == x, "round-trip", "%s %s comes back as %s", type, pr(x).c_str(), pr(back).c_str()); k.push_back(a); }
  for (size_t i = 0; i < v.size(); i++) { heartbeat(); where = strf("%s %s", type, pr(v[i]).c_str()); if ((int)(i % opts.nshards) != opts.shard) continue; for (size_t j = 0; j < v.size(); j++) {
    int want = v[i] < v[j] ? -1 : v[i] > v[j]; int got = cmp(k[i], k[j]); st.states++; st.evaluations++;
    MC_CHECK(got == want, "order", "%s %s and %s: their keys compare %d, the values %d", type, pr(v[i]).c_str(), pr(v[j]).c_str(), got, want); } }
  st.executions += v.size(); sample(strf("%s: all pairs of %zu values", type, v.size()));
}
static std::vector<uint64_t> patterns() {
  std::set<uint64_t> s; for (int b = 0; b < 64; b++) for (int d = -2; d <= 2; d++) { s.insert((1ull << b) + d); s.insert(-(1ull << b) + d); }
  for (int b = 0; b < 64; b += 8) for (uint64_t v : {0x7full, 0x80ull, 0xffull, 0x01ull}) s.insert(v << b);
  return std::vector<uint64_t>(s.begin(), s.end());
}
MC_CONFIG(ints, "integers-and-pointers", 2, 2) {
  auto p = patterns();
  all<unsigned long long>("unsigned", {p.begin(), p.end()}, [](K *k, unsigned long long v) { SASIndexKeyInitUInt64(k, v); }, [](K *k) { return SASIndexKeyReturn1stUInt64(k); }, [](unsigned long long v) { return strf("%llu", v); });
  std::vector<long long> s; for (auto x : p) s.push_back((long long)x);
  all<long long>("signed", s, [](K *k, long long v) { SASIndexKeyInitInt64(k, v); }, [](K *k) { return SASIndexKeyReturn1stInt64(k); }, [](long long v) { return strf("%lld", v); });
  all<uint64_t>("pointer", p, [](K *k, uint64_t v) { SASIndexKeyInitRef(k, (void *)v); }, [](K *k) { return (uint64_t)k->data[0]; }, [](uint64_t v) { return strf("%#lx", v); });
}
MC_CONFIG(dbl, "doubles", 4, 8) {
  std::vector<double> v; std::vector<int> ex; for (int e = 0; e < 2047; e += e < 4 || e > 2042 || abs(e - 1023) < 70 ? 1 : opts.thorough ? 8 : 32) ex.push_back(e);
  for (int sg = 0; sg < 2; sg++) for (int e : ex) for (uint64_t m : {0ull, 1ull, 0x7ffffffffffffull, 0x8000000000000ull, 0xfffffffffffffull}) { uint64_t b = (uint64_t)sg << 63 | (uint64_t)e << 52 | m; double d; memcpy(&d, &b, 8); v.push_back(d); }
  v.push_back(INFINITY); v.push_back(-INFINITY);
  all<double>("double", v, [](K *k, double x) { SASIndexKeyInitDouble(k, x); }, [](K *k) { return SASIndexKeyReturn1stDouble(k); }, [](double x) { return strf("%.17g", x); });
}
// composite keys against the lexicographic order of their words, a prefix first
MC_CONFIG(comp, "composite", 8, 8) {
  install_handlers(); std::vector<unsigned long> W = {0, 1, 0x100, 0xff, 1ul << 63, ~0ul}; if (opts.thorough) W.push_back(0x0100000000000000ul);
  std::vector<std::vector<unsigned long>> v; std::vector<std::vector<unsigned long>> cur = {{}};
  for (int n = 1; n <= 4; n++) { std::vector<std::vector<unsigned long>> nx; for (auto &c : cur) for (auto w : W) { auto d = c; d.push_back(w); nx.push_back(d); } cur = nx; v.insert(v.end(), cur.begin(), cur.end()); }
  for (int n : {5, 8, 14, 15}) for (int pos = 0; pos < n; pos++) for (unsigned long w : {0ul, 1ul, 0x100ul, ~0ul}) { std::vector<unsigned long> d(n, 1); d[pos] = w; v.push_back(d); }
  std::vector<K> k; for (auto &x : v) { K a = fresh(); a.compare_size = x.size() * 8; a.copy_size = a.compare_size + 8; for (size_t i = 0; i < x.size(); i++) a.data[i] = x[i]; sizes(a, x.size(), "composite"); k.push_back(a); }
  auto pr = [](const std::vector<unsigned long> &x) { std::string s = "<"; for (auto w : x) s += strf(" %lx", w); return s + " >"; };
  for (size_t i = opts.shard; i < v.size(); i += opts.nshards) { heartbeat(); for (size_t j = 0; j < v.size(); j++) {
    int want = v[i] < v[j] ? -1 : v[j] < v[i]; int got = cmp(k[i], k[j]); st.states++; st.evaluations++;
    MC_CHECK(got == want, "order-composite", "keys %s and %s compare %d, their words %d", pr(v[i]).c_str(), pr(v[j]).c_str(), got, want); } }
  st.executions += v.size(); sample(strf("all pairs of %zu composite keys", v.size()));
}
