// Monitors for the join hash tables: tables are built by the real multi-threaded builders and probed with the real
// probe functions; the rows found for every probe key are compared with the rows of the build column.
#include "QueryEngine/RuntimeFunctions.cpp"
#include "ResultSet/HyperLogLog.h"
#include "QueryEngine/JoinHashTable/Runtime/HashJoinKeyHandlers.h"
#include "QueryEngine/JoinHashTable/Runtime/HashJoinRuntime.h"
#include "QueryEngine/JoinHashTable/Runtime/HashJoinRuntimeCpu.h"
#include "Logger/Logger.h"
#include "vh.h"
#include <future>
#include <tbb/global_control.h>
using namespace vh;

template <class T>
std::string S(T v) {
  return std::to_string(v);
}
static long CASE;

// A build column in chunks of exactly allocated memory.
struct Col {
  int width;
  ColumnType kind;
  std::vector<int64_t> vals;     // as stored (small dates: days)
  std::vector<bool> isnull;
  int64_t stored_null, null_val;  // as stored, as decoded
  std::vector<std::unique_ptr<int8_t[]>> mem;
  std::vector<JoinChunk> chunks;
  int64_t decoded(size_t i) const { return kind == SmallDate ? vals[i] * 86400 : vals[i]; }
  JoinColumn jc() const { return {(const int8_t*)chunks.data(), chunks.size() * sizeof(JoinChunk), chunks.size(), vals.size(), (size_t)width}; }
};
static void layout(Col& c, Rng& r, const std::vector<size_t>& sizes) {
  size_t at = 0;
  for (size_t n : sizes) {
    c.mem.emplace_back(new int8_t[n * c.width ? n * c.width : 1]);
    for (size_t i = 0; i < n; ++i) {
      int64_t v = c.isnull[at + i] ? c.stored_null : c.vals[at + i];
      memcpy(c.mem.back().get() + i * c.width, &v, c.width);
    }
    c.chunks.push_back({c.mem.back().get(), n, at});
    at += n;
  }
}
static std::vector<size_t> split(size_t n, Rng& r) {
  std::vector<size_t> s;
  size_t left = n;
  const int k = (int)r.range(1, 6);
  for (int i = 0; i < k - 1; ++i) {
    size_t x = r.chance(20) ? 0 : r.below(left + 1);
    s.push_back(x);
    left -= x;
  }
  s.push_back(left);
  return s;
}
static void mkcol(Col& c, Rng& r, int64_t lo, int64_t hi, size_t n, bool unique, int nullpct, const std::vector<size_t>& sizes) {
  std::vector<int64_t> pool;
  if (unique) {
    for (int64_t v = lo; v <= hi; ++v) pool.push_back(v);
    for (size_t i = pool.size(); i > 1; --i) std::swap(pool[i - 1], pool[r.below(i)]);
  }
  for (size_t i = 0; i < n; ++i) {
    bool nl = r.chance(nullpct);
    c.isnull.push_back(nl);
    int64_t v = unique ? pool[i % pool.size()] : r.range(lo, hi);
    c.vals.push_back(v);
  }
  layout(c, r, sizes);
}
static void kindof(Col& c, Rng& r) {
  switch (r.below(7)) {
    case 0: c.width = 1; c.kind = Signed; break;
    case 1: c.width = 2; c.kind = Signed; break;
    case 2: c.width = 4; c.kind = Signed; break;
    case 3: c.width = 8; c.kind = Signed; break;
    case 4: c.width = r.chance(50) ? 1 : 2; c.kind = Unsigned; break;
    case 5: c.width = 4; c.kind = Signed; break;
    default: c.width = r.chance(50) ? 2 : 4; c.kind = SmallDate;
  }
  if (c.kind == Unsigned) c.stored_null = c.null_val = c.width == 1 ? 255 : 65535;
  else c.stored_null = c.null_val = c.width == 1 ? INT8_MIN : c.width == 2 ? INT16_MIN : c.width == 4 ? INT32_MIN : INT64_MIN;
}

static void bad(const std::string& k, const std::string& d) { violation("join " + k, "case " + S(CASE) + ": " + d); }

struct Multi {  // key -> rows
  std::map<std::vector<int64_t>, std::set<int32_t>> rows;
  size_t maxdup() const {
    size_t m = 0;
    for (auto& [k, v] : rows) m = std::max(m, v.size());
    return m;
  }
};

// Checks the three areas of a one-to-many table against the expected rows per slot.
static bool check_one_to_many(const int32_t* buff, size_t entries, size_t nrows, const std::map<size_t, std::set<int32_t>>& want, const std::string& what) {
  const int32_t *off = buff, *cnt = buff + entries, *ids = buff + 2 * entries;
  size_t total = 0;
  std::set<size_t> used;
  for (size_t e = 0; e < entries; ++e) {
    eval();
    auto it = want.find(e);
    const size_t w = it == want.end() ? 0 : it->second.size();
    if ((size_t)cnt[e] != w) {
      bad("one-to-many count", what + " slot " + S(e) + ": " + S(cnt[e]) + " rows, expected " + S(w));
      return false;
    }
    if (!w) continue;
    if (off[e] < 0 || off[e] + w > nrows) {
      bad("one-to-many offset", what + " slot " + S(e) + ": offset " + S(off[e]));
      return false;
    }
    std::set<int32_t> got(ids + off[e], ids + off[e] + w);
    for (size_t i = 0; i < w; ++i)
      if (!used.insert(off[e] + i).second) {
        bad("one-to-many overlap", what + " slot " + S(e));
        return false;
      }
    if (got != it->second) {
      bad("one-to-many rows", what + " slot " + S(e) + ": other rows than the " + S(w) + " matching ones");
      return false;
    }
    total += w;
  }
  ev("rows_in_one_to_many", total);
  return true;
}

static int run_threads(int n, const std::function<int(int)>& f) {
  std::vector<std::future<int>> fs;
  for (int i = 0; i < n; ++i) fs.push_back(std::async(std::launch::async, f, i));
  int e = 0;
  for (auto& x : fs) {
    int q = x.get();
    if (q && !e) e = q;
  }
  return e;
}

static void perfect_case(Rng& r, long c) {
  Col col;
  kindof(col, r);
  int64_t lo, hi;
  if (col.kind == Unsigned) {
    lo = r.range(0, 100);
    hi = lo + r.range(0, 150);
    if (col.width == 2 && r.chance(50)) lo += 40000, hi += 40000;
    if (col.width == 1) hi = std::min<int64_t>(hi, 254);
  } else if (col.width == 1) {
    lo = r.range(-127, 100);
    hi = r.range(lo, 127);
  } else {
    const int64_t big = col.width == 2 ? 30000 : col.width == 4 ? 2000000000ll : (int64_t)4e18;
    lo = r.chance(30) ? r.range(-big, big - 3000) : r.range(-50, 50);
    hi = lo + r.range(0, r.chance(10) ? 2500 : 120);
    if (col.kind == SmallDate && col.width == 4) {
      int64_t d = r.range(-100000, 100000);
      hi = hi - lo + d, lo = d;
    }
  }
  const bool unique = r.chance(40);
  const int nullpct = (int)r.pick({0, 0, 20, 100});
  const bool large = r.chance(5);
  size_t n = unique ? r.below(hi - lo + 2) : r.below(large ? 20000 : 300);
  if (unique) n = std::min<size_t>(n, hi - lo + 1);
  mkcol(col, r, lo, hi, n, unique, nullpct, split(n, r));
  const bool bw_eq = col.kind != SmallDate && r.chance(30);
  const int64_t bucket = col.kind == SmallDate ? 86400 : 1;
  const int64_t mn = col.kind == SmallDate ? lo * 86400 : lo;
  int64_t mx = col.kind == SmallDate ? hi * 86400 : hi;
  const int64_t null_dec = col.kind == SmallDate ? (col.width == 4 ? (int64_t)INT32_MIN : INT16_MIN) : col.null_val;
  if (col.kind == SmallDate)
    for (int64_t d = lo; d <= hi; ++d)
      if (d * 86400 == null_dec) return;
  // a string dictionary join translates the ids of the build side first; unknown ids are not in the table
  std::vector<int32_t> tr;
  const bool translate = col.kind != SmallDate && col.width >= 4 ? (lo >= 0 && hi < 3000 && r.chance(60)) : (lo >= 0 && col.kind == Unsigned && hi < 3000 && r.chance(60));
  if (translate && r.chance(50)) mx = r.range(std::max(mn, mx - 6), mx);  // inner ids can lie beyond the range of the outer column
  JoinColumnTypeInfo ti{(size_t)col.width, mn, mx, null_dec, bw_eq, mx + 1, col.kind};
  if (translate) {
    // the map is indexed by the id in the inner dictionary; its results are ids of the outer one, not all in the range
    tr.resize(hi + 1);
    std::vector<int32_t> perm;
    for (int64_t v = 0; v <= hi; ++v) perm.push_back((int32_t)v);
    for (int64_t v = 1; v <= 20; ++v) perm.push_back((int32_t)(hi + v));
    for (size_t i = perm.size(); i > 1; --i) std::swap(perm[i - 1], perm[r.below(i)]);
    for (size_t i = 0; i < tr.size(); ++i) tr[i] = r.chance(25) ? StringDictionary::INVALID_STR_ID : perm[i];
    ev("translated");
  }
  const HashEntryInfo hei{(size_t)(mx - mn + 1 + (bw_eq ? 1 : 0)), bucket};
  const size_t entries = hei.getNormalizedHashEntryCount();
  std::map<size_t, std::set<int32_t>> want;
  bool dup = false;
  for (size_t i = 0; i < n; ++i) {
    int64_t k = col.decoded(i);
    if (col.isnull[i]) {
      if (!bw_eq) continue;
      k = mx + 1;
    } else if (translate) {
      if (tr[k] == StringDictionary::INVALID_STR_ID || tr[k] < mn || tr[k] > mx) continue;
      k = tr[k];
    }
    auto& s = want[(k - mn) / bucket];
    dup |= !s.empty();
    s.insert((int32_t)i);
  }
  const int32_t* trp = translate ? tr.data() : nullptr;
  const int32_t INV = -1;
  const int threads = (int)r.range(1, 8);
  const bool semi = r.chance(30);
  distinct(hash_str(cat("p", col.kind, col.width, unique, nullpct, bw_eq, translate, threads, semi, n, hi - lo, c)));
  // one to one, three builders
  for (int b = 0; b < 3; ++b) {
    if (b == 1 && bucket != 1) continue;
    std::unique_ptr<int32_t[]> buff(new int32_t[entries]);
    init_hash_join_buff(buff.get(), entries, INV);
    for (size_t e = 0; e < entries; ++e)
      if (buff[e] != INV) bad("init", "entry " + S(e) + " of " + S(entries) + " is not initialized");
    auto jc = col.jc();
    int err;
    if (b == 0)
      err = fill_hash_join_buff_bucketized_cpu(buff.get(), INV, semi, jc, ti, trp, bucket);
    else if (b == 1)
      err = run_threads(threads, [&](int t) { return fill_hash_join_buff(buff.get(), INV, semi, jc, ti, trp, t, threads); });
    else
      err = run_threads(threads, [&](int t) { return fill_hash_join_buff_bucketized(buff.get(), INV, semi, jc, ti, trp, t, threads, bucket); });
    eval();
    const std::string what = cat("builder ", b, " kind ", (int)col.kind, " width ", col.width, " range ", lo, "..", hi, " rows ", n, " threads ", threads, semi ? " semi" : "");
    if (semi || !dup) {
      if (err) {
        bad("one-to-one refused", what);
        continue;
      }
    } else {
      ev("one_to_one_refused");
      if (!err) bad("duplicate keys accepted", what);
      continue;
    }
    ev("one_to_one_built");
    // probe every key of the range and around it
    for (int64_t k = lo - 3; k <= hi + 3; ++k) {
      const int64_t key = col.kind == SmallDate ? k * 86400 : k;
      int64_t got = bucket == 1 ? hash_join_idx((int64_t)buff.get(), key, mn, mx) : bucketized_hash_join_idx((int64_t)buff.get(), key, mn, mx, bucket);
      auto it = key >= mn && key <= mx ? want.find((key - mn) / bucket) : want.end();
      eval();
      ev(it == want.end() ? "probe_miss" : "probe_hit");
      const bool ok = it == want.end() ? got == -1 : it->second.count((int32_t)got) > 0;
      if (!ok) {
        bad("one-to-one probe", what + cat(" key ", key, " gives row ", got));
        break;
      }
      int64_t g2 = bucket == 1 ? hash_join_idx_nullable((int64_t)buff.get(), key, mn, mx, INT64_MIN) : bucketized_hash_join_idx_nullable((int64_t)buff.get(), key, mn, mx, INT64_MIN, bucket);
      if (g2 != got) bad("nullable probe", what + cat(" key ", key, " gives row ", g2));
    }
    int64_t gn = bucket == 1 ? hash_join_idx_nullable((int64_t)buff.get(), mn, mn, mx, mn) : bucketized_hash_join_idx_nullable((int64_t)buff.get(), mn, mn, mx, mn, bucket);
    if (gn != -1) bad("null probe", what + cat(" gives row ", gn));
    if (bw_eq) {
      int64_t g = hash_join_idx_bitwise((int64_t)buff.get(), INT64_MIN, mn, mx, INT64_MIN, mx + 1);
      int64_t g2 = bucketized_hash_join_idx_bitwise((int64_t)buff.get(), INT64_MIN, mn, mx, INT64_MIN, mx + 1, 1);
      auto it = want.find(mx + 1 - mn);
      const bool ok = it == want.end() ? g == -1 : it->second.count((int32_t)g) > 0;
      eval();
      ev("probe_null_equal");
      if (!ok || g2 != g) bad("null-safe probe", what + cat(" gives row ", g, "/", g2));
    }
  }
  // one to many
  if (n) {
    const size_t sz = 2 * entries + n;
    std::unique_ptr<int32_t[]> buff(new int32_t[sz]);
    init_hash_join_buff(buff.get(), entries, INV);
    if (bucket == 1) fill_one_to_many_hash_table(buff.get(), hei, INV, col.jc(), ti, trp, threads);
    else fill_one_to_many_hash_table_bucketized(buff.get(), hei, INV, col.jc(), ti, trp, threads);
    ev("one_to_many_built");
    const std::string what = cat("perfect kind ", (int)col.kind, " width ", col.width, " range ", lo, "..", hi, " rows ", n, " threads ", threads);
    check_one_to_many(buff.get(), entries, n, want, what);
    for (size_t e = 0; e < entries; ++e)
      if (!want.count(e) && buff[e] != INV) {
        bad("one-to-many empty slot", what + " slot " + S(e) + " is not marked empty");
        break;
      }
  }
}

template <class T>
static void baseline_case(Rng& r, long c) {
  const size_t kc = r.range(1, 5);
  const bool large = r.chance(4);
  const size_t n = r.chance(8) ? r.below(2) : 1 + r.below(large ? 15000 : 250);
  const auto sizes = split(n, r);
  std::vector<Col> cols(kc);
  std::vector<JoinColumn> jcs;
  std::vector<JoinColumnTypeInfo> tis;
  std::vector<std::vector<int32_t>> maps(kc);
  std::vector<const int32_t*> mapp(kc, nullptr);
  const int64_t span = r.pick({(int64_t)2, (int64_t)10, (int64_t)100000});
  const bool unique = r.chance(40);
  const bool any_bw = r.chance(30);
  for (size_t k = 0; k < kc; ++k) {
    Col& col = cols[k];
    do kindof(col, r);
    while (sizeof(T) == 4 && (col.width == 8 || col.kind == SmallDate));
    int64_t lo, hi;
    if (col.kind == Unsigned) lo = 0, hi = std::min<int64_t>(span, col.width == 1 ? 254 : 65534);
    else if (col.width == 1) lo = -std::min<int64_t>(span, 127), hi = std::min<int64_t>(span, 127);
    else if (col.width == 2) lo = -std::min<int64_t>(span, 32767), hi = std::min<int64_t>(span, 32767);
    else lo = -span, hi = span;
    if (k == 0 && unique) {  // make the tuples distinct through the first component
      if (col.width < 4) { col.width = 4; col.kind = Signed; col.stored_null = col.null_val = INT32_MIN; }
      if (col.kind == SmallDate) col.kind = Signed, col.null_val = col.stored_null = col.width == 4 ? INT32_MIN : INT16_MIN;
      lo = 0, hi = (int64_t)std::max<size_t>(n, 1) * 2;
    }
    if (r.chance(20) && col.width == 8) lo += (int64_t)1 << 40, hi += (int64_t)1 << 40;
    const int nullpct = unique && any_bw && k == 0 ? 0 : (int)r.pick({0, 0, 15});
    mkcol(col, r, lo, hi, n, k == 0 && unique, nullpct, r.chance(70) ? sizes : split(n, r));
    if (col.kind == Signed && col.width == 4 && span <= 10 && !(k == 0 && unique) && r.chance(30)) {
      for (auto& v : col.vals) v = v < 0 ? -v : v;
      col.mem.clear();
      col.chunks.clear();
      layout(col, r, sizes);
      maps[k].resize(span + 1);
      for (auto& m : maps[k]) m = r.chance(20) ? StringDictionary::INVALID_STR_ID : (int32_t)r.range(0, span);
      mapp[k] = maps[k].data();
      ev("translated");
    }
    const int64_t null_dec = col.kind == SmallDate ? (col.width == 4 ? (int64_t)INT32_MIN : INT16_MIN) : col.null_val;
    tis.push_back(JoinColumnTypeInfo{(size_t)col.width, lo, hi, null_dec, any_bw && r.chance(60), hi + 1, col.kind});
  }
  for (auto& c : cols) jcs.push_back(c.jc());
  Multi m;
  for (size_t i = 0; i < n; ++i) {
    std::vector<int64_t> key;
    bool skip = false;
    for (size_t k = 0; k < kc && !skip; ++k) {
      int64_t v = cols[k].isnull[i] ? tis[k].null_val : cols[k].decoded(i);
      if (!cols[k].isnull[i] && v == tis[k].null_val) return;  // a small date that collides with the sentinel
      if (cols[k].isnull[i]) {
        if (!tis[k].uses_bw_eq) skip = true;
      } else if (mapp[k]) {
        v = mapp[k][v];
        if (v == StringDictionary::INVALID_STR_ID) skip = true;
      }
      key.push_back((T)v);
    }
    if (!skip) m.rows[key].insert((int32_t)i);
  }
  const bool semi = r.chance(30);
  const int threads = (int)r.range(1, 8);
  const size_t distinct_keys = m.rows.size();
  const int shape = (int)r.below(4);
  // also tables that are exactly full, and too small ones
  size_t entries = shape == 0 ? std::max<size_t>(distinct_keys, 1) : shape == 1 && distinct_keys > 1 ? distinct_keys - 1 : 2 * std::max<size_t>(distinct_keys, 1);
  distinct(hash_str(cat("b", sizeof(T), kc, n, unique, any_bw, semi, threads, shape, c)));
  const int32_t INV = -1;
  const std::string what = cat("baseline ", sizeof(T), " bytes, ", kc, " components, rows ", n, " keys ", distinct_keys, " entries ", entries, " threads ", threads, semi ? " semi" : "");
  note(what);
  auto build = [&](bool with_val, std::unique_ptr<int8_t[]>& buf) {
    buf.reset(new int8_t[entries * (kc + with_val) * sizeof(T)]);
    if (sizeof(T) == 4) init_baseline_hash_join_buff_32(buf.get(), entries, kc, with_val, INV);
    else init_baseline_hash_join_buff_64(buf.get(), entries, kc, with_val, INV);
    GenericKeyHandler kh(kc, true, jcs.data(), tis.data(), mapp.data());
    return run_threads(threads, [&](int t) {
      return sizeof(T) == 4 ? fill_baseline_hash_join_buff_32(buf.get(), entries, INV, semi, kc, with_val, &kh, n, t, threads)
                            : fill_baseline_hash_join_buff_64(buf.get(), entries, INV, semi, kc, with_val, &kh, n, t, threads);
    });
  };
  auto probe_keys = [&]() {
    std::vector<std::vector<T>> ps;
    for (auto& [k, rows] : m.rows) {
      ps.emplace_back(k.begin(), k.end());
      if (ps.size() > 400) break;
    }
    const size_t have = ps.size();
    for (size_t i = 0; i < 60; ++i) {
      std::vector<T> k(kc);
      if (have && r.chance(60)) {
        k = ps[r.below(have)];
        { auto& x = k[r.below(kc)]; x = (T)((std::make_unsigned_t<T>)x + (r.chance(50) ? 1 : -1)); }
      } else
        for (auto& x : k) x = (T)r.range(-span, span);
      if (k[0] == std::numeric_limits<T>::max() || k[0] == std::numeric_limits<T>::max() - 1) continue;
      ps.push_back(k);
    }
    return ps;
  };
  std::unique_ptr<int8_t[]> buf;
  int err = build(true, buf);
  eval();
  if (entries < distinct_keys) {
    ev("baseline_too_small");
    if (!err) bad("overfull table accepted", what);
    return;
  }
  if (!semi && m.maxdup() > 1) {
    ev("one_to_one_refused");
    if (!err) bad("duplicate keys accepted", what);
  } else if (err) {
    bad("one-to-one refused", what + cat(" error ", err));
  } else {
    ev("baseline_one_to_one_built");
    for (auto& k : probe_keys()) {
      int64_t got = sizeof(T) == 4 ? baseline_hash_join_idx_32(buf.get(), (const int8_t*)k.data(), kc * sizeof(T), entries)
                                   : baseline_hash_join_idx_64(buf.get(), (const int8_t*)k.data(), kc * sizeof(T), entries);
      auto it = m.rows.find(std::vector<int64_t>(k.begin(), k.end()));
      eval();
      ev(it == m.rows.end() ? "probe_miss" : "probe_hit");
      const bool ok = it == m.rows.end() ? got < 0 : it->second.count((int32_t)got) > 0;
      if (!ok) {
        std::string ks;
        for (auto x : k) ks += S(x) + " ";
        bad("baseline probe", what + " key " + ks + "gives row " + S(got));
        break;
      }
    }
  }
  // one to many: dictionary of composite keys, then offsets, counts and row ids
  std::unique_ptr<int8_t[]> dict;
  err = build(false, dict);
  if (err) {
    bad("key dictionary refused", what + cat(" error ", err));
    return;
  }
  if (!n) return;
  std::unique_ptr<int32_t[]> tab(new int32_t[2 * entries + n]);
  init_hash_join_buff(tab.get(), entries, INV);
  if constexpr (sizeof(T) == 4)
    fill_one_to_many_baseline_hash_table_32(tab.get(), (const int32_t*)dict.get(), entries, INV, kc, jcs, tis, mapp, threads);
  else
    fill_one_to_many_baseline_hash_table_64(tab.get(), (const int64_t*)dict.get(), entries, INV, kc, jcs, tis, mapp, threads);
  ev("baseline_one_to_many_built");
  std::map<size_t, std::set<int32_t>> want;
  for (auto& k : probe_keys()) {
    int64_t at;
    if constexpr (sizeof(T) == 4) at = get_composite_key_index_32((const int32_t*)k.data(), kc, (const int32_t*)dict.get(), entries);
    else at = get_composite_key_index_64((const int64_t*)k.data(), kc, (const int64_t*)dict.get(), entries);
    auto it = m.rows.find(std::vector<int64_t>(k.begin(), k.end()));
    eval();
    if (it == m.rows.end() ? at != -1 : (at < 0 || at >= (int64_t)entries)) {
      bad("composite key index", what + " index " + S(at) + (it == m.rows.end() ? " for an absent key" : " for a present key"));
      return;
    }
    if (it != m.rows.end()) want[at] = it->second;
  }
  if (want.size() == m.rows.size()) check_one_to_many(tab.get(), entries, n, want, what);
  else if (distinct_keys <= 400) bad("composite key index", what + " two keys share an index");
  // distinct tuples estimate of the planner
  if (!large || r.chance(50)) {
    const uint32_t b = 11;
    const size_t padded = (1u << b);
    std::vector<uint8_t> hll(padded * threads);
    approximate_distinct_tuples(hll.data(), b, padded, jcs, tis, threads);
    for (int t = 1; t < threads; ++t) hll_unify((int8_t*)hll.data(), (int8_t*)hll.data() + t * padded, 1 << b);
    // the estimate counts tuples without NULLs in columns that are not null-safe, before translation
    std::set<std::vector<int64_t>> s;
    for (size_t i = 0; i < n; ++i) {
      std::vector<int64_t> key;
      for (size_t k = 0; k < kc; ++k) key.push_back(cols[k].isnull[i] ? tis[k].null_val : cols[k].decoded(i));
      s.insert(key);
    }
    const double est = hll_size((int8_t*)hll.data(), b), tr = s.size();
    eval();
    ev("estimate");
    if (std::fabs(est - tr) > 8 + 0.2 * tr) bad("distinct tuple estimate", what + cat(" estimate ", est, " of ", tr));
  }
}

int main(int argc, char** argv) {
  init(argc, argv);
  logger::LogOptions lo("h_join");
  lo.severity_ = logger::Severity::FATAL;
  lo.severity_clog_ = logger::Severity::FATAL;
  logger::init(lo);
#ifdef VERIF_VARIANT_tsan
  tbb::global_control gc(tbb::global_control::max_allowed_parallelism, 1);
#endif
  const bool tsan =
#ifdef VERIF_VARIANT_tsan
      true;
#else
      false;
#endif
  long n = st().thorough ? 12000 : 1500;
  if (tsan) n /= 3;
  for (long c = 0; c < n && !too_many(); ++c) {
    if (st().only_case >= 0 && c != st().only_case) continue;
    CASE = c;
    Rng r = case_rng(c);
    note("join case " + S(c));
    switch (r.below(3)) {
      case 0: perfect_case(r, c); break;
      case 1: baseline_case<int32_t>(r, c); break;
      default: baseline_case<int64_t>(r, c);
    }
  }
  return finish();
}
