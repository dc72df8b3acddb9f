// Monitors for the shared algorithms behind aggregates and sorting: exact and approximate quantiles (quantile),
// distinct-count sets and null bitmaps (distinct), key/value sorting and top-n buffers (sort), and the memory owner
// of a query (arena). The real code runs on exact-size memory under sanitizers.
#include "QueryEngine/RuntimeFunctions.cpp"
#include "IR/Context.h"
#include "Logger/Logger.h"
#include "ResultSet/BitmapGenerators.h"
#include "ResultSet/CountDistinct.h"
#include "ResultSet/QuantileAccessors.h"
#include "ResultSet/RowSetMemoryOwner.h"
#include "ResultSet/StreamingTopN.h"
#include "Shared/DoubleSort.h"
#include "Shared/parallel_sort.h"
#include "vh.h"
#include <tbb/global_control.h>
using namespace vh;
template <class T>
std::string S(T v) { return std::to_string(v); }
static long CASE;
static void bad(const std::string& k, const std::string& d) { violation(k, "case " + S(CASE) + ": " + d); }

struct Alloc final : public SimpleAllocator {
  std::vector<std::unique_ptr<int8_t[]>> mem;
  int8_t* allocate(const size_t n, const size_t = 0) override {
    mem.emplace_back(new int8_t[n]);
    memset(mem.back().get(), 0x5a, n);
    return mem.back().get();
  }
  ~Alloc() = default;
};

// ------------------------------------------------------------------------------------------------ exact quantiles
template <class T>
T gen_val(Rng& r, int shape) {
  if constexpr (std::is_floating_point_v<T>) {
    switch (shape) {
      case 0: return (T)r.range(-5, 5);
      case 1: return (T)(r.range(-1000000, 1000000) / 7.0);
      default: return (T)(r.range(-1000, 1000) * std::pow(10.0, (double)r.range(-20, 20)));
    }
  } else {
    switch (shape) {
      case 0: return (T)r.range(-5, 5);
      case 1: return (T)r.range(std::numeric_limits<T>::min() / 4, std::numeric_limits<T>::max() / 4);
      default: return (T)r.range((int64_t)std::numeric_limits<T>::min() + 1, std::numeric_limits<T>::max());
    }
  }
}
template <class T, class R>
void exact_quantile(Rng& r, const hdk::ir::Type* at, const hdk::ir::Type* rt, void (*agg)(int64_t*, T)) {
  using hdk::quantile::Quantile;
  using hdk::ir::Interpolation;
  Alloc al;
  const size_t per_chunk = 65536 / sizeof(T);
  const int shape = (int)r.below(3);
  const int parts = (int)r.range(1, 6);
  std::vector<T> all;
  std::vector<std::unique_ptr<Quantile>> qs;
  for (int p = 0; p < parts; ++p) {
    qs.push_back(std::make_unique<Quantile>(&al));
    size_t n = r.below(12);
    if (r.chance(15)) n = 0;
    if (r.chance(5)) n = per_chunk + r.range(-2, 2);
    if (r.chance(2)) n = 2 * per_chunk + r.range(-2, 30);
    for (size_t i = 0; i < n; ++i) {
      T v = gen_val<T>(r, shape);
      all.push_back(v);
      int64_t h = (int64_t)qs.back().get();
      agg(&h, v);
    }
  }
  // merge in a random order into a random survivor
  while (qs.size() > 1) {
    size_t a = r.below(qs.size()), b = r.below(qs.size());
    if (a == b) continue;
    qs[a]->merge(*qs[b]);
    ev("quantile_merge");
    if (r.chance(20)) {  // more values after a merge
      T v = gen_val<T>(r, shape);
      all.push_back(v);
      int64_t h = (int64_t)qs[a].get();
      agg(&h, v);
    }
    qs.erase(qs.begin() + b);
  }
  Quantile& q = *qs[0];
  const Interpolation ip = r.pick({Interpolation::kLower, Interpolation::kHigher, Interpolation::kNearest, Interpolation::kMidpoint, Interpolation::kLinear});
  const double qv = r.chance(30) ? r.pick({0.0, 0.5, 1.0, 0.25}) : r.below(1001) / 1000.0;
  TargetInfo ti{true, hdk::ir::AggType::kQuantile, rt, at, true, false, 0, false, qv, ip};
  distinct(hash_str(cat("q", typeid(T).name(), typeid(R).name(), (int)ip, qv, all.size(), shape, parts)));
  if (q.empty() != all.empty()) return bad("quantile emptiness", cat("of ", all.size(), " values"));
  std::sort(all.begin(), all.end());
  auto get = [&](bool internal) -> R {
    if (internal) {
      auto v = getQuantileInternal(&q, ti);
      if constexpr (std::is_same_v<R, float>) {
        int32_t i = (int32_t)v.i1;
        float f;
        memcpy(&f, &i, 4);
        return f;
      } else if constexpr (std::is_same_v<R, double>) {
        double d;
        memcpy(&d, &v.i1, 8);
        return d;
      } else
        return (R)v.i1;
    }
    auto tv = getQuantile(&q, ti);
    auto s = boost::get<ScalarTargetValue>(&tv);
    if constexpr (std::is_same_v<R, float>) return *boost::get<float>(s);
    else if constexpr (std::is_same_v<R, double>) return *boost::get<double>(s);
    else return (R)*boost::get<int64_t>(s);
  };
  auto check = [&](R got, const char* how) {
    eval();
    const std::string what = cat("q ", qv, " interpolation ", (int)ip, " of ", all.size(), " values of ", sizeof(T), std::is_floating_point_v<T> ? " byte fp " : " byte int ", how);
    if (all.empty()) {
      ev("quantile_empty");
      if (got != inline_null_value<R>()) bad("quantile of nothing", what);
      return;
    }
    const double pos = (double)(all.size() - 1) * qv;
    const size_t lo = (size_t)std::floor(pos), hi = (size_t)std::ceil(pos);
    ev("quantile");
    bool ok;
    if (ip == Interpolation::kLower) ok = got == (R)all[lo];
    else if (ip == Interpolation::kHigher) ok = got == (R)all[hi];
    else if (ip == Interpolation::kNearest) {
      const double f = pos - std::floor(pos);
      ok = f == 0.5 ? got == (R)all[lo] || got == (R)all[hi] : got == (R)all[f < 0.5 ? lo : hi];
    } else {
      const long double f = ip == Interpolation::kMidpoint ? (lo == hi ? 0.0L : 0.5L) : (long double)(pos - std::floor(pos));
      const long double x = (long double)all[lo] + ((long double)all[hi] - (long double)all[lo]) * f;
      const long double mag = std::max(std::fabs((long double)all[lo]), std::fabs((long double)all[hi]));
      const long double eps = mag * (std::is_same_v<R, float> || std::is_same_v<T, float> ? 1e-6L : 1e-14L) + (std::is_floating_point_v<R> ? 0 : 1);
      ok = std::fabs((long double)got - x) <= eps;
      ev("quantile_interpolated", lo != hi);
    }
    if (!ok) bad("quantile", what + cat(" got ", (double)got, " between ", (double)all[lo], " and ", (double)all[hi]));
  };
  if (r.chance(30)) {
    check(get(false), "before the end");
    if (!all.empty() && r.chance(50)) {
      check(get(true), "before the end, again");
      T v = gen_val<T>(r, shape);
      int64_t h = (int64_t)&q;
      agg(&h, v);
      all.insert(std::upper_bound(all.begin(), all.end(), v), v);
    }
  }
  finalizeQuantile(&q, ti);
  check(get(false), "final");
  check(get(true), "final, internal form");
}

// ------------------------------------------------------------------------------------------------ t-digest
static void tdigest_case(Rng& r) {
  Alloc al;
  const size_t cent = r.pick({(size_t)10, (size_t)20, (size_t)50, (size_t)100, (size_t)300});
  const size_t buf = cent + r.below(4) * cent;
  const bool linear = r.chance(50);
  const double q0 = linear ? 0.5 : r.pick({0.01, 0.05, 0.99});
  const int parts = (int)r.range(1, 5);
  const int shape = (int)r.below(6);
  size_t n = r.chance(40) ? r.below(cent) : r.below(r.chance(10) ? 60000 : 4000);
  std::vector<double> all;
  std::vector<std::unique_ptr<quantile::TDigest>> ds;
  for (int p = 0; p < parts; ++p) {
    ds.push_back(std::make_unique<quantile::TDigest>(q0, &al, buf, cent));
    ds.back()->allocate();
  }
  for (size_t i = 0; i < n; ++i) {
    double v;
    switch (shape) {
      case 0: v = (double)r.range(-1000000, 1000000) / 3; break;
      case 1: v = (double)r.range(0, 3); break;
      case 2: v = (double)i; break;
      case 3: v = -(double)i; break;
      case 4: v = std::exp((double)r.range(-2000, 2000) / 100); break;
      default: v = (i % 2 ? 1e6 : -1e6) + (double)r.range(-10, 10);
    }
    ds[r.below(parts)]->add(v);
    all.push_back(v);
  }
  while (ds.size() > 1) {
    size_t b = 1 + r.below(ds.size() - 1);
    ds[0]->mergeTDigest(*ds[b]);
    ev("tdigest_merge");
    ds.erase(ds.begin() + b);
  }
  auto& d = *ds[0];
  d.mergeBuffer();
  distinct(hash_str(cat("t", cent, buf, linear, shape, n, parts)));
  std::sort(all.begin(), all.end());
  const std::string what = cat(n, " values, ", cent, " centroids, buffer ", buf, " parts ", parts, linear ? " linear" : "", " shape ", shape);
  eval();
  if (d.totalWeight() != all.size()) return bad("digest weight", what + cat(" weight ", d.totalWeight()));
  double sum = 0, mag = 0;
  for (auto s : d.centroids().sums_) sum += s;
  double ref = 0;
  for (auto v : all) ref += v, mag += std::fabs(v);
  if (std::fabs(sum - ref) > 1e-9 * mag + 1e-9) bad("digest sum", what + cat(" sum ", sum, " expected ", ref));
  if (all.empty()) {
    if (!std::isnan(d.quantile(0.5))) bad("digest of nothing", what);
    ev("tdigest_empty");
    return;
  }
  ev("tdigest");
  if (d.quantile(0.0) != all[0] || d.quantile(1.0) != all.back()) bad("digest extremes", what + cat(" ", d.quantile(0.0), " ", d.quantile(1.0)));
  const bool exact = n <= cent;
  for (int k = 0; k < 20; ++k) {
    const double q = r.below(10001) / 10000.0;
    const double v = d.quantile(q);
    eval();
    ev(exact ? "tdigest_exact" : "tdigest_estimate");
    const double tol = (std::fabs(all[0]) + std::fabs(all.back())) * 1e-9;
    if (!(v >= all[0] - tol && v <= all.back() + tol)) {
      bad("digest range", what + cat(" q ", q, " gives ", v));
      break;
    }
    const double x = q * n;
    if (exact) {  // every value is kept: the answer is the value at that rank, or the middle of two at a boundary
      const size_t i = std::min<size_t>((size_t)x, n - 1);
      const bool ok = std::fabs(v - all[i]) <= tol || (i > 0 && std::fabs(x - i) < 1e-6 * n && std::fabs(v - (all[i] + all[i - 1]) / 2) <= tol + 1e-9) ||
                      (i + 1 < n && std::fabs(x - (i + 1)) < 1e-6 * n && (std::fabs(v - all[i + 1]) <= tol || std::fabs(v - (all[i] + all[i + 1]) / 2) <= tol + 1e-9));
      if (!ok) {
        bad("digest of few values", what + cat(" q ", q, " gives ", v, " expected about ", all[i]));
        break;
      }
    } else {
      // the value lies between the order statistics around the requested rank
      // (the outermost centroids are only assumed to hold the extremes, so no rank is promised there)
      const double err = 20.0 * n / cent + 5;
      if (x < err || x > n - err) continue;
      ev("tdigest_rank");
      const long a = std::max<long>(0, (long)(x - err)), b = std::min<long>(n - 1, (long)(x + err));
      if (v < all[a] - tol || v > all[b] + tol) {
        bad("digest rank", what + cat(" q ", q, " gives ", v, " outside ", all[a], "..", all[b]));
        break;
      }
    }
  }
}

static void mode_quantile() {
  auto& ctx = hdk::ir::Context::defaultCtx();
  const long n = st().thorough ? 40000 : 6000;
  for (long c = 0; c < n && !too_many(); ++c) {
    if (st().only_case >= 0 && c != st().only_case) continue;
    CASE = c;
    Rng r = case_rng(c);
    note("quantile case " + S(c));
    switch (r.below(12)) {
      case 0: exact_quantile<int8_t, int8_t>(r, ctx.int8(), ctx.int8(), agg_quantile_impl_int8); break;
      case 1: exact_quantile<int16_t, int16_t>(r, ctx.int16(), ctx.int16(), agg_quantile_impl_int16); break;
      case 2: exact_quantile<int32_t, int32_t>(r, ctx.int32(), ctx.int32(), agg_quantile_impl_int32); break;
      case 3: exact_quantile<int64_t, int64_t>(r, ctx.int64(), ctx.int64(), agg_quantile_impl_int64); break;
      case 4: exact_quantile<int32_t, double>(r, ctx.int32(), ctx.fp64(), agg_quantile_impl_int32); break;
      case 5: exact_quantile<int64_t, double>(r, ctx.int64(), ctx.fp64(), agg_quantile_impl_int64); break;
      case 6: exact_quantile<float, float>(r, ctx.fp32(), ctx.fp32(), agg_quantile_impl_float); break;
      case 7: exact_quantile<double, double>(r, ctx.fp64(), ctx.fp64(), agg_quantile_impl_double); break;
      case 8: exact_quantile<int8_t, double>(r, ctx.int8(), ctx.fp64(), agg_quantile_impl_int8); break;
      default: tdigest_case(r);
    }
  }
}

// ------------------------------------------------------------------------------------------------ distinct sets
static void bitmap_case(Rng& r) {
  CountDistinctDescriptor d;
  d.impl_type_ = CountDistinctImplType::Bitmap;
  d.min_val = r.range(-1000, 1000);
  d.bitmap_sz_bits = r.chance(20) ? r.range(1, 9) : r.range(1, 3000);
  d.approximate = false;
  d.device_type = r.chance(30) ? ExecutorDeviceType::GPU : ExecutorDeviceType::CPU;
  d.sub_bitmap_count = r.chance(40) ? (size_t)r.pick({2, 4, 16}) : 1;
  const size_t bytes = d.bitmapPaddedSizeBytes();
  eval();
  if (bytes < d.sub_bitmap_count * (size_t)((d.bitmap_sz_bits + 7) / 8)) bad("bitmap size", cat(d.bitmap_sz_bits, " bits in ", bytes, " bytes"));
  const int sets = (int)r.range(1, 4);
  std::vector<std::unique_ptr<int64_t[]>> mem;
  std::vector<int64_t> h;
  std::vector<std::set<int64_t>> ref(sets);
  for (int s = 0; s < sets; ++s) {
    // sub-bitmaps are padded to 8 bytes; plain ones may end at any byte
    mem.emplace_back((int64_t*)new int8_t[bytes]);
    memset(mem.back().get(), 0, bytes);
    h.push_back((int64_t)mem.back().get());
    const size_t n = r.below(r.chance(30) ? 3 : 400);
    for (size_t i = 0; i < n; ++i) {
      const int64_t off = r.chance(10) ? d.bitmap_sz_bits - 1 : r.below(d.bitmap_sz_bits);
      int64_t sub = h[s] + (d.sub_bitmap_count > 1 ? (int64_t)(r.below(d.sub_bitmap_count) * (bytes / d.sub_bitmap_count)) : 0);
      if (r.chance(50)) agg_count_distinct_bitmap(&sub, d.min_val + off, d.min_val);
      else agg_count_distinct_bitmap_skip_val(&sub, d.min_val + off, d.min_val, INT64_MIN);
      if (r.chance(5)) agg_count_distinct_bitmap_skip_val(&sub, INT64_MIN, d.min_val, INT64_MIN);
      ref[s].insert(off);
    }
  }
  distinct(hash_str(cat("b", d.bitmap_sz_bits, d.sub_bitmap_count, (int)d.device_type, sets, ref[0].size())));
  const std::string what = cat(d.bitmap_sz_bits, " bits, ", d.sub_bitmap_count, " sub-bitmaps");
  if (r.chance(40)) {
    const int64_t got = count_distinct_set_size(h[0], d);
    eval();
    if (got != (int64_t)ref[0].size()) bad("distinct count", what + cat(" got ", got, " expected ", ref[0].size()));
  }
  for (int s = 1; s < sets; ++s) {
    count_distinct_set_union(h[0], h[s], d, d);
    ref[0].insert(ref[s].begin(), ref[s].end());
    ev("bitmap_union");
  }
  for (int s = 0; s < sets; ++s) {
    const int64_t got = count_distinct_set_size(h[s], d);
    eval();
    ev("bitmap_count");
    if (got != (int64_t)ref[s].size()) bad("distinct count", what + cat(" after unions, set ", s, " of ", sets, ": got ", got, " expected ", ref[s].size()));
  }
  if (count_distinct_set_size(0, d) != 0) bad("distinct count of no set", what);
  for (auto& m : mem) delete[] (int8_t*)m.release();
}
static void hashset_case(Rng& r) {
  CountDistinctDescriptor d{CountDistinctImplType::HashSet, 0, 0, false, ExecutorDeviceType::CPU, 1};
  const int sets = (int)r.range(1, 4);
  std::vector<std::unique_ptr<robin_hood::unordered_set<int64_t>>> s;
  std::vector<std::set<int64_t>> ref(sets);
  for (int i = 0; i < sets; ++i) {
    s.push_back(std::make_unique<robin_hood::unordered_set<int64_t>>());
    const size_t n = r.below(r.chance(20) ? 5000 : 100);
    for (size_t k = 0; k < n; ++k) {
      int64_t v = r.chance(50) ? r.range(-20, 20) : (int64_t)r.next();
      s[i]->insert(v);
      ref[i].insert(v);
    }
  }
  for (int i = 1; i < sets; ++i) {
    count_distinct_set_union((int64_t)s[0].get(), (int64_t)s[i].get(), d, d);
    ref[0].insert(ref[i].begin(), ref[i].end());
  }
  distinct(hash_str(cat("h", sets, ref[0].size())));
  for (int i = 0; i < sets; ++i) {
    eval();
    ev("hashset_count");
    if (count_distinct_set_size((int64_t)s[i].get(), d) != (int64_t)ref[i].size()) bad("distinct set size", cat("set ", i, " of ", sets));
  }
}
static void hll_case(Rng& r) {
  const int b = (int)r.pick({4, 6, 8, 11, 12, 14, 16});
  const size_t m = (size_t)1 << b;
  CountDistinctDescriptor d{CountDistinctImplType::Bitmap, 0, b, true, ExecutorDeviceType::CPU, 1};
  eval();
  if (d.bitmapPaddedSizeBytes() != m) bad("register size", S(b));
  const int parts = (int)r.range(1, 4);
  std::unique_ptr<int8_t[]> whole(new int8_t[m]());
  std::vector<std::unique_ptr<int8_t[]>> p;
  for (int i = 0; i < parts; ++i) p.emplace_back(new int8_t[m]());
  std::unordered_set<int64_t> vals;
  const size_t n = r.chance(30) ? r.below(30) : r.chance(20) ? r.below(40000) : r.below(3000);
  const int64_t base = (int64_t)r.next();
  for (size_t i = 0; i < n; ++i) {
    const int64_t v = (int64_t)((uint64_t)base + r.below(n + n / 2 + 1));
    vals.insert(v);
    int64_t h = (int64_t)whole.get();
    agg_approximate_count_distinct(&h, v, b);
    h = (int64_t)p[r.below(parts)].get();
    agg_approximate_count_distinct(&h, v, b);
  }
  distinct(hash_str(cat("l", b, parts, n)));
  const std::string what = cat("2^", b, " registers, ", vals.size(), " distinct of ", n, " in ", parts, " parts");
  for (int i = 1; i < parts; ++i) count_distinct_set_union((int64_t)p[0].get(), (int64_t)p[i].get(), d, d);
  eval();
  ev("hll_union", parts - 1);
  if (memcmp(p[0].get(), whole.get(), m)) bad("estimate depends on the partition", what);
  const double est = (double)count_distinct_set_size((int64_t)whole.get(), d), t = (double)vals.size();
  ev("hll_estimate");
  if (t == 0 ? est != 0 : b >= 8 && std::fabs(est - t) > 6 * 1.04 / std::sqrt((double)m) * t + 3) bad("estimate", what + cat(" estimate ", est));
  // the documented size for an error rate
  for (int e = 1; e <= 100; ++e) {
    const int k = hll_size_for_rate(e);
    eval();
    if (k < 4 || k > 16 || (k < 16 && k > 4 && 1.04 / std::sqrt(std::pow(2.0, k)) > e / 100.0 + 1e-12) || (k > 4 && k < 16 && 1.04 / std::sqrt(std::pow(2.0, k - 1)) < e / 100.0 - 1e-12)) {
      bad("registers for an error rate", cat(e, "% gives 2^", k));
      break;
    }
  }
}
template <class U>
void nullmap(Rng& r, size_t (*f)(uint8_t*, const U*, size_t, U)) {
  const size_t per = 64 / sizeof(U);
  const size_t n = per * r.below(12);
  std::unique_ptr<U[]> src(new U[n + 1]);
  std::unique_ptr<uint8_t[]> dst(new uint8_t[n / 8 + 1]);
  memset(dst.get(), 0xa5, n / 8 + 1);
  const U nv = r.chance(50) ? (U)((U)1 << (sizeof(U) * 8 - 1)) : (U)r.next();
  const int pct = (int)r.pick({0, 5, 50, 100});
  size_t nulls = 0;
  for (size_t i = 0; i < n; ++i) {
    src[i] = r.chance(pct) ? nv : r.chance(30) ? (U)(nv ^ ((U)1 << r.below(sizeof(U) * 8))) : (U)r.next();
    nulls += src[i] == nv;
  }
  const size_t got = f(dst.get(), src.get(), n, nv);
  eval();
  ev("null_bitmap");
  distinct(hash_str(cat("n", sizeof(U), n, nulls)));
  const std::string what = cat(sizeof(U), " byte values, ", n, " rows, ", nulls, " nulls");
  if (got != nulls) bad("null count", what + cat(" got ", got));
  for (size_t i = 0; i < n; ++i)
    if (((dst[i / 8] >> (i % 8)) & 1) != (src[i] != nv)) {
      bad("validity bit", what + cat(" row ", i));
      break;
    }
  if (dst[n / 8] != 0xa5) bad("validity bitmap overrun", what);
}
static void mode_distinct() {
  const long n = st().thorough ? 30000 : 4000;
  for (long c = 0; c < n && !too_many(); ++c) {
    if (st().only_case >= 0 && c != st().only_case) continue;
    CASE = c;
    Rng r = case_rng(c);
    note("distinct case " + S(c));
    switch (r.below(8)) {
      case 0: case 1: bitmap_case(r); break;
      case 2: hashset_case(r); break;
      case 3: hll_case(r); break;
      case 4: nullmap<uint8_t>(r, gen_null_bitmap_8); break;
      case 5: nullmap<uint16_t>(r, gen_null_bitmap_16); break;
      case 6: nullmap<uint32_t>(r, gen_null_bitmap_32); break;
      default: nullmap<uint64_t>(r, gen_null_bitmap_64);
    }
  }
}

// ------------------------------------------------------------------------------------------------ sorting
template <class K>
void sort_case(Rng& r) {
  const size_t n = r.chance(40) ? r.below(20) : r.chance(50) ? r.range(490, 520) : r.chance(80) ? r.below(5000) : r.below(200000);
  std::vector<K> k(n);
  std::vector<uint64_t> v(n);
  const int shape = (int)r.below(7);
  for (size_t i = 0; i < n; ++i) {
    switch (shape) {
      case 0: k[i] = (K)r.next(); break;
      case 1: k[i] = (K)r.range(0, 3); break;
      case 2: k[i] = (K)i; break;
      case 3: k[i] = (K)(n - i); break;
      case 4: k[i] = (K)(i < n / 2 ? i : n - i); break;
      case 5: k[i] = (K)7; break;
      default: k[i] = (K)(i % 17);
    }
    v[i] = i;
  }
  const bool desc = r.chance(50);
  const auto k0 = k;
  std::unique_ptr<K[]> kb(new K[n]);
  std::unique_ptr<uint64_t[]> vb(new uint64_t[n]);
  std::copy(k.begin(), k.end(), kb.get());
  std::copy(v.begin(), v.end(), vb.get());
  const bool dbl = r.chance(30);
  if (dbl) {
    double_sort::Iterator<K, uint64_t> b(kb.get(), vb.get()), e(kb.get() + n, vb.get() + n);
    if (n < 100000) {
      if (desc) std::sort(b, e, [](auto& x, auto& y) { return x.value0() > y.value0(); });
      else std::sort(b, e, [](auto& x, auto& y) { return x.value0() < y.value0(); });
    } else return;
    ev("double_sort");
  } else {
    auto less = [desc](const K& a, const K& b) { return desc ? b < a : a < b; };
    parallel_sort_by_key(kb.get(), vb.get(), n, less);
    ev("sort_by_key");
  }
  eval(n);
  distinct(hash_str(cat("s", sizeof(K), n, shape, desc, dbl)));
  const std::string what = cat(n, " keys of ", sizeof(K), " bytes, shape ", shape, desc ? " descending" : "", dbl ? " two arrays" : "");
  std::vector<bool> seen(n);
  for (size_t i = 0; i < n; ++i) {
    if (i && (desc ? kb[i - 1] < kb[i] : kb[i] < kb[i - 1])) return bad("not sorted", what + cat(" at ", i));
    if (vb[i] >= n || seen[vb[i]]) return bad("value lost or repeated", what + cat(" at ", i));
    seen[vb[i]] = true;
    if (k0[vb[i]] != kb[i]) return bad("value separated from its key", what + cat(" at ", i));
  }
}
static void topn_case(Rng& r) {
  const size_t rowq = r.range(1, 6), n = r.range(1, 30), th = r.range(1, 8);
  const size_t sz = streaming_top_n::get_heap_size(rowq * 8, n, th), off = streaming_top_n::get_rows_offset_of_heaps(n, th);
  eval();
  ev("topn_layout");
  distinct(hash_str(cat("t", rowq, n, th)));
  if (sz != off + rowq * 8 * n * th || off < th * (1 + n) * 8) return bad("top-n layout", cat("row ", rowq, " n ", n, " threads ", th, ": ", sz, " ", off));
  std::unique_ptr<int64_t[]> h(new int64_t[sz / 8]);
  for (size_t i = 0; i < sz / 8; ++i) h[i] = (int64_t)r.next();
  auto rows = streaming_top_n::get_rows_copy_from_heaps(h.get(), sz, n, th);
  if (rows.size() != rowq * 8 * n * th || memcmp(rows.data(), (int8_t*)h.get() + off, rows.size())) bad("top-n rows", cat("row ", rowq, " n ", n, " threads ", th));
}
static void mode_sort() {
  const long n = st().thorough ? 16000 : 2000;
  for (long c = 0; c < n && !too_many(); ++c) {
    if (st().only_case >= 0 && c != st().only_case) continue;
    CASE = c;
    Rng r = case_rng(c);
    note("sort case " + S(c));
    switch (r.below(6)) {
      case 0: sort_case<int8_t>(r); break;
      case 1: sort_case<int32_t>(r); break;
      case 2: sort_case<int64_t>(r); break;
      case 3: sort_case<double>(r); break;
      case 4: sort_case<uint64_t>(r); break;
      default: topn_case(r);
    }
  }
}

// ------------------------------------------------------------------------------------------------ memory owner
static void arena_case(Rng& r) {
  auto owner = std::make_unique<RowSetMemoryOwner>(nullptr, 1 << 20, 8);
  const int threads = (int)r.range(1, 6);
  struct Blk {
    int8_t* p;
    size_t n;
    uint8_t tag;
  };
  std::vector<std::vector<Blk>> blks(threads);
  std::vector<std::vector<std::pair<std::string*, std::string>>> strs(threads);
  std::vector<std::vector<std::pair<std::vector<int64_t>*, std::vector<int64_t>>>> arrs(threads);
  std::vector<Rng> rs;
  for (int t = 0; t < threads; ++t) rs.emplace_back(r.next());
  std::vector<std::thread> ts;
  std::atomic<int> go{0};
  for (int t = 0; t < threads; ++t)
    ts.emplace_back([&, t] {
      ++go;
      while (go < threads)
        ;
      Rng& q = rs[t];
      const int ops = 60;
      for (int i = 0; i < ops; ++i) {
        const uint8_t tag = (uint8_t)(t * 40 + i);
        switch (q.below(6)) {
          case 0: {
            size_t n = q.chance(10) ? 0 : q.range(1, 5000);
            int8_t* p = owner->allocate(n);
            memset(p, tag, n);
            blks[t].push_back({p, n, tag});
            break;
          }
          case 1:
          case 2: {
            size_t n = q.chance(3) ? q.range(1 << 20, 11 << 20) : q.chance(30) ? q.range(1, 16) : q.range(1, 40000);
            // one thread per index; indexes beyond the pools are allowed and fall back
            int8_t* p = owner->allocateSmallMtNoLock(n, q.chance(5) ? (size_t)-2 : (size_t)t);
            if ((uintptr_t)p % 8) bad("misaligned block", cat(n, " bytes"));
            memset(p, tag, n);
            blks[t].push_back({p, n, tag});
            break;
          }
          case 3: {
            std::string s(q.below(50), 'a' + (char)q.below(26));
            strs[t].push_back({owner->addString(s), s});
            break;
          }
          case 4: {
            std::vector<int64_t> a(q.below(20), (int64_t)q.next());
            arrs[t].push_back({owner->addArray(a), a});
            break;
          }
          default: {
            size_t n = q.range(1, 3000);
            int8_t* p = owner->allocateCountDistinctBuffer(n);
            for (size_t k = 0; k < n; ++k)
              if (p[k]) {
                bad("distinct buffer not zeroed", cat(n, " bytes"));
                break;
              }
            memset(p, tag, n);
            blks[t].push_back({p, n, tag});
          }
        }
      }
    });
  for (auto& x : ts) x.join();
  ev("alloc", threads * 60);
  std::vector<std::pair<int8_t*, size_t>> iv;
  for (int t = 0; t < threads; ++t) {
    for (auto& b : blks[t]) {
      eval();
      for (size_t k = 0; k < b.n; ++k)
        if ((uint8_t)b.p[k] != b.tag) {
          bad("block overwritten", cat(b.n, " bytes of thread ", t));
          break;
        }
      if (b.n) iv.push_back({b.p, b.n});
    }
    for (auto& [p, s] : strs[t])
      if (*p != s) bad("string changed", s);
    for (auto& [p, a] : arrs[t])
      if (*p != a) bad("array changed", cat(a.size(), " elements"));
  }
  std::sort(iv.begin(), iv.end());
  for (size_t i = 1; i < iv.size(); ++i)
    if (iv[i - 1].first + iv[i - 1].second > iv[i].first) {
      bad("blocks overlap", cat(iv[i - 1].second, " and ", iv[i].second, " bytes"));
      break;
    }
  distinct(hash_str(cat("a", threads, iv.size(), CASE)));
}
static void mode_arena() {
  long n = st().thorough ? 3000 : 250;
#ifdef VERIF_VARIANT_tsan
  n /= 4;
#endif
  for (long c = 0; c < n && !too_many(); ++c) {
    if (st().only_case >= 0 && c != st().only_case) continue;
    CASE = c;
    Rng r = case_rng(c);
    note("arena case " + S(c));
    arena_case(r);
  }
}

int main(int argc, char** argv) {
  init(argc, argv);
  const std::string mode = st().mode;
  logger::LogOptions lo("h_alg");
  lo.severity_ = logger::Severity::FATAL;
  lo.severity_clog_ = logger::Severity::FATAL;
  logger::init(lo);
#ifdef VERIF_VARIANT_tsan
  tbb::global_control gc(tbb::global_control::max_allowed_parallelism, 1);
#endif
  if (mode == "quantile") mode_quantile();
  else if (mode == "distinct") mode_distinct();
  else if (mode == "sort") mode_sort();
  else if (mode == "arena") mode_arena();
  return finish();
}
