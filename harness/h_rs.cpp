// Monitors for result sets: the buffer layout of a query memory descriptor (layout), everything a consumer can read
// from a result set (rows), lazily fetched columns over fragments (lazy) and shared cursors (rconc). Buffers are
// written through the descriptor the way generated code does, and read back through the public ResultSet interface
// under sanitizers; the oracle is the row model the buffers were written from.
#include "IR/Context.h"
#include "QueryEngine/InputMetadata.h"
#include "IR/CardinalityEstimator.h"
#include "ResultSet/ColRangeInfo.h"
#include "ResultSet/CountDistinct.h"
#include "Logger/Logger.h"
#include "ResultSet/QueryMemoryDescriptor.h"
#include "ResultSet/ResultSet.h"
#include "ResultSet/ResultSetBufferAccessors.h"
#include "ResultSet/RowSetMemoryOwner.h"
#include "Shared/EmptyKeyValues.h"
#include "Shared/InlineNullValues.h"
#include "StringDictionary/StringDictionary.h"
#include "vh.h"
#include <tbb/global_control.h>
#include <thread>
using namespace vh;
using hdk::ir::AggType;
template <class T>
std::string S(T v) { return std::to_string(v); }
static long CASE;
static std::string DESC;
static void bad(const std::string& k, const std::string& d) { violation(k, "case " + S(CASE) + ": " + d + " in " + DESC); }
static hdk::ir::Context& cx() { return hdk::ir::Context::defaultCtx(); }

// ---------------------------------------------------------------------------------------------------- layout
static void layout_case(Rng& r) {
  const int kind = (int)r.below(6);  // 0 perfect row 1 perfect keyless row 2 baseline row 3 projection row 4 hash col 5 projection col
  const bool columnar = kind >= 4;
  const auto type = kind <= 1 ? QueryDescriptionType::GroupByPerfectHash
                    : kind == 2 ? QueryDescriptionType::GroupByBaselineHash
                    : kind == 3 || kind == 5 ? QueryDescriptionType::Projection
                    : r.chance(50) ? QueryDescriptionType::GroupByPerfectHash
                                   : QueryDescriptionType::GroupByBaselineHash;
  const bool proj = type == QueryDescriptionType::Projection;
  const size_t nkeys = proj ? 1 : (size_t)r.range(1, 5);
  std::vector<int8_t> kw;
  for (size_t i = 0; i < nkeys; ++i) kw.push_back(proj ? 8 : (int8_t)r.pick({1, 2, 4, 8}));
  QueryMemoryDescriptor q(type, 0, 100, false, kw);
  const size_t ncols = (size_t)r.range(1, 8);
  const int wide = (int)r.below(3);  // all 8, all 4, mixed
  std::vector<int> w;
  std::string d = cat("kind ", kind, " keys");
  for (auto k : kw) d += " " + S((int)k);
  d += " slots";
  for (size_t c = 0; c < ncols; ++c) {
    std::vector<std::tuple<int8_t, int8_t>> sl;
    for (int k = r.chance(25) ? 2 : 1; k > 0; --k) {
      int pw = wide == 0 ? 8 : wide == 1 ? 4 : (int)r.pick({4, 8});
      if (kind == 5) pw = (int)r.pick({1, 2, 4, 8});
      if (kind != 5 && r.chance(5) && c) pw = 0;
      w.push_back(pw);
      sl.emplace_back((int8_t)pw, (int8_t)pw);
      d += " " + S(pw);
    }
    q.addColSlotInfo(sl);
  }
  const size_t n = (size_t)r.range(1, 70);
  q.setEntryCount(n);
  if (kind == 1) {
    q.setHasKeylessHash(true);
    q.setTargetIdxForKey(0);
  }
  if (kind == 2 && r.chance(50)) q.setGroupColCompactWidth(4);
  else if (!columnar && !proj) q.setGroupColCompactWidth(8);
  if (columnar) q.setOutputColumnar(true);
  d += cat(" entries ", n, " key width ", q.getEffectiveKeyWidth());
  DESC = d;
  note("layout " + d);
  eval();
  struct Iv {
    size_t b, e;
    std::string what;
  };
  std::vector<Iv> iv;
  const size_t size = q.getBufferSizeBytes(ExecutorDeviceType::CPU);
  if (size != q.getBufferSizeBytes(ExecutorDeviceType::CPU, n)) bad("buffer size", "the two size functions differ");
  if (columnar) {
    ev("columnar_layout");
    if (!proj)
      for (size_t k = 0; k < nkeys; ++k)
        iv.push_back({q.getPrependedGroupColOffInBytes(k), q.getPrependedGroupColOffInBytes(k) + (size_t)kw[k] * n, cat("key ", k)});
    else
      iv.push_back({0, 8 * n, "row index"});
    if (q.getPrependedGroupBufferSizeInBytes() > size) bad("prepended keys", "larger than the buffer");
    size_t walk = 0;
    for (size_t s = 0; s < w.size(); ++s) {
      const size_t off = q.getColOffInBytes(s);
      if (s == 0) walk = get_cols_ptr((size_t)0, q);
      if (walk != off) bad("column offset", cat("slot ", s, " at ", off, " but reached at ", walk));
      walk = advance_to_next_columnar_target_buff(walk, q, s);
      iv.push_back({off, off + (size_t)w[s] * n, cat("slot ", s)});
      if (off % 8) bad("column alignment", cat("slot ", s, " at ", off));
      if ((int)q.getPaddedSlotWidthBytes(s) != w[s]) bad("slot width", cat("slot ", s));
      if (nkeys == 1 && s + 1 < w.size() && w[s] && w[s + 1]) {
        const size_t b = (size_t)r.below(n);
        const size_t here = off + b * w[s];
        const size_t there = q.getColOffInBytes(s + 1) + b * w[s + 1];
        if (here + q.getNextColOffInBytes((const int8_t*)here, b, s) != there)
          bad("next column offset", cat("slot ", s, " entry ", b, ": ", here + q.getNextColOffInBytes((const int8_t*)here, b, s), " expected ", there));
        if (q.getColOffInBytesInNextBin(s) != (size_t)w[s]) bad("next bin offset", cat("slot ", s));
      }
    }
    for (auto& i : iv)
      if (i.e > size) bad("beyond the buffer", cat(i.what, " ends at ", i.e, " of ", size));
  } else {
    ev("row_layout");
    const size_t row = q.getRowSize();
    if (row % 8) bad("row alignment", cat("row size ", row));
    if (row * n != size) bad("buffer size", cat(n, " rows of ", row, " in ", size));
    const size_t keyb = q.hasKeylessHash() ? 0 : nkeys * q.getEffectiveKeyWidth();
    iv.push_back({0, keyb, "keys"});
    auto f = ResultSet::fixupQueryMemoryDescriptor(q);
    f.setEntryCount(n);
    if (get_row_bytes(f) != row) bad("row size", cat("generated code uses ", row, ", readers ", get_row_bytes(f)));
    const size_t key_pad = align_to_int64(get_key_bytes_rowwise(f));
    size_t walk = 0, walk2 = 0;
    for (size_t s = 0; s < w.size(); ++s) {
      const size_t off = q.getColOffInBytes(s);
      if (off != q.getColOnlyOffInBytes(s) + key_pad) bad("slot offset", cat("slot ", s, " at ", off));
      const size_t foff = key_pad + result_set::get_byteoff_of_slot(s, f);
      if (w[s] && off != foff) bad("slot offset for readers", cat("slot ", s, " written at ", off, " read at ", foff));
      if (w[s] && foff != f.getColOffInBytes(s)) bad("slot offset after fixup", cat("slot ", s, " at ", f.getColOffInBytes(s), " walked ", foff));
      if (s == 0) walk = walk2 = off;
      if (w[s] && walk != off) bad("next slot offset", cat("slot ", s, " at ", off, " reached ", walk));
      if (w[s] && walk2 != off) bad("next slot offset (row only)", cat("slot ", s, " at ", off, " reached ", walk2));
      walk += q.getNextColOffInBytes((const int8_t*)walk, 0, s);
      walk2 += q.getNextColOffInBytesRowOnly((const int8_t*)walk2, s);
      if (s + 1 == w.size() && walk != row) bad("row end", cat("walked to ", walk, " of ", row));
      iv.push_back({off, off + (size_t)w[s], cat("slot ", s)});
      if (w[s] && off % w[s]) bad("slot alignment", cat("slot ", s, " of ", w[s], " at ", off));
      if (f.getPaddedSlotWidthBytes(s) < w[s] && w[s]) bad("slot width after fixup", cat("slot ", s));
    }
    for (auto& i : iv)
      if (i.e > row) bad("beyond the row", cat(i.what, " ends at ", i.e, " of ", row));
    for (size_t e = 0; e < n; e += 7)
      if (row_ptr_rowwise((size_t)0, f, e) != e * row) bad("row start", cat("entry ", e));
  }
  std::sort(iv.begin(), iv.end(), [](const Iv& a, const Iv& b) { return a.b < b.b || (a.b == b.b && a.e < b.e); });
  for (size_t i = 1; i < iv.size(); ++i)
    if (iv[i - 1].e > iv[i].b && iv[i - 1].e != iv[i - 1].b && iv[i].e != iv[i].b)
      bad("overlap", cat(iv[i - 1].what, " [", iv[i - 1].b, ",", iv[i - 1].e, ") and ", iv[i].what, " [", iv[i].b, ",", iv[i].e, ")"));
  // comparison of descriptors: the one of another layout is never equal, a copy always is
  {
    auto c = q;
    if (!(c == q)) bad("descriptor equality", "copy differs");
    auto e = q;
    e.addColSlotInfo({{(int8_t)8, (int8_t)8}});
    if (e == q || q == e) bad("descriptor equality", "one more column is equal");
    auto g = q;
    g.setPaddedSlotWidthBytes(r.below(w.size()), 16);
    if (g == q || q == g) bad("descriptor equality", "other slot width is equal");
    if (!columnar && !proj) {
      auto h = q;
      h.setOutputColumnar(true);
      if (h == q) bad("descriptor equality", "other orientation is equal");
    }
    const size_t x = r.below(3);
    auto m = q;
    const char* what = x == 0 ? "key slot" : x == 1 ? "group indexes" : "keyless";
    if (x == 0) m.setTargetIdxForKey(q.getTargetIdxForKey() + 1);
    else if (x == 1) m.setAllTargetGroupbyIndices(std::vector<int64_t>(ncols, 0));
    else if (type == QueryDescriptionType::GroupByPerfectHash && !columnar) m.setHasKeylessHash(!q.hasKeylessHash());
    else what = nullptr;
    if (what && (m == q || q == m)) bad("descriptor equality", cat("other ", what, " is equal"));
    if (QueryMemoryDescriptor(type, 0, 100, true, kw) == QueryMemoryDescriptor(type, 1, 100, true, kw) ||
        QueryMemoryDescriptor(type, 0, 100, true, kw) == QueryMemoryDescriptor(type, 0, 101, true, kw))
      bad("descriptor equality", "other range is equal");
    ev("compared", 6);
  }
  // widths and slots the buffers are sized with
  {
    const size_t nslots = w.size();
    if (q.getSlotCount() != nslots || q.getBufferColSlotCount() != nslots) bad("slot count", cat(q.getSlotCount(), "/", q.getBufferColSlotCount(), " of ", nslots));
    auto g = q;
    std::vector<int64_t> idx;
    size_t keys = 0;
    for (size_t c = 0; c < nslots; ++c) {
      idx.push_back(r.chance(40) ? (int64_t)r.below(nkeys) : -1);
      keys += idx.back() >= 0;
    }
    g.setAllTargetGroupbyIndices(idx);
    if (g.getBufferColSlotCount() != nslots - keys) bad("slot count", cat("with ", keys, " key targets ", g.getBufferColSlotCount(), " of ", nslots - keys));
    const int least = *std::min_element(w.begin(), w.end()), cap = (int)r.pick({1, 4, 8});
    if (least && (int)q.updateActualMinByteWidth(cap) != std::min(least, cap)) bad("smallest slot", cat((int)q.updateActualMinByteWidth(cap), " with slots of ", least, " and cap ", cap));
    ev("slots_counted");
  }
  distinct(d);
}

// ---------------------------------------------------------------------------------------------------- rows
struct Val {
  bool null = false;
  int64_t i = 0;     // integers, dates, decimals, dictionary ids
  double f = 0;      // floating point
  std::string s;     // text
  std::vector<Val> arr;
  int64_t cnt = 1;   // count of an average
};
enum Kind { KInt, KFp, KDec, KDict, KText, KArr, KAvg };
struct Target {
  Kind kind;
  TargetInfo ti;
  int width;      // slot width of the first slot
  int width2 = 0; // second slot
  bool lazy = false;
};
struct World {
  std::shared_ptr<RowSetMemoryOwner> mo;
  std::shared_ptr<StringDictionary> dict;
  std::vector<std::string> strs;
};
struct NoProvider : DataProvider {
  std::shared_ptr<Chunk_NS::Chunk> getChunk(ColumnInfoPtr, const ChunkKey&, const Data_Namespace::MemoryLevel, const int, const size_t, const size_t) override { return nullptr; }
  std::unique_ptr<Data_Namespace::AbstractDataToken> getZeroCopyColumnData(const ColumnRef&) override { return nullptr; }
  std::shared_ptr<const TableFragmentsInfo> getTableMetadata(int, int) const override { return nullptr; }
  const DictDescriptor* getDictMetadata(int, bool) const override { return nullptr; }
};
static World& world() {
  static World* w = nullptr;
  if (!w) {
    w = new World();
    w->mo = std::make_shared<RowSetMemoryOwner>(new NoProvider(), size_t(1) << 20, 1);
    w->dict = std::make_shared<StringDictionary>(DictRef{1, 7}, -1);
    for (int k = 0; k < 33500; ++k) w->strs.push_back(k == 0 ? "zero" : k % 9 == 0 && k < 400 ? std::string(k, 'x') : "str" + S(k * 37));
    for (size_t k = 0; k < w->strs.size(); ++k) {
      int id = w->dict->getOrAdd(w->strs[k]);
      if (id != (int)k) bad("dictionary", "ids are not dense");
    }
    w->mo->addStringDict(w->dict, 7, -1);
  }
  return *w;
}
static bool agg_float4(const TargetInfo& t) {
  return t.is_agg && t.type->isFp32() && (t.agg_kind == AggType::kSum || t.agg_kind == AggType::kMin || t.agg_kind == AggType::kMax ||
                                          t.agg_kind == AggType::kAvg || t.agg_kind == AggType::kSingleValue);
}
static Val gen_val(Rng& r, const Target& t) {
  Val v;
  const auto ty = t.ti.type;
  if (t.kind == KAvg) {
    v.cnt = r.chance(15) ? 0 : r.range(1, 1000);
    v.null = v.cnt == 0;
    v.i = r.chance(50) ? r.range(-1000, 1000) : r.range(-1000000000000ll, 1000000000000ll);
    if (t.ti.agg_arg_type->isFloatingPoint()) {
      v.f = r.range(-1000000, 1000000) / 16.0;
      if (t.ti.agg_arg_type->isFp32()) v.f = (double)(float)v.f;
    }
    return v;
  }
  if (ty->nullable() && r.chance(15) && !(t.ti.is_agg && t.ti.agg_kind == AggType::kCount)) {
    v.null = true;
    return v;
  }
  switch (t.kind) {
    case KInt: {
      const int sz = t.ti.is_agg && t.ti.agg_kind == AggType::kCount ? t.width : (int)ty->size();
      const int64_t mx = sz == 8 ? INT64_MAX : ((int64_t)1 << (sz * 8 - 1)) - 1;
      if (ty->isBoolean()) v.i = r.below(2);
      else if (t.ti.is_agg && t.ti.agg_kind == AggType::kCount) v.i = r.chance(50) ? r.range(0, 100) : r.range(0, mx);
      else v.i = r.chance(50) ? r.range(-100, 100) : r.chance(20) ? r.pick({-mx, mx, mx - 1}) : r.range(-mx, mx);
      if (ty->isDateTime() || ty->isInterval()) v.i = r.range(-100000000000ll, 100000000000ll);
      break;
    }
    case KFp:
      v.f = r.chance(50) ? r.range(-1000, 1000) / 8.0 : r.range(-1000000000, 1000000000) * 1024.0;
      if (ty->isFp32()) v.f = (double)(float)v.f;
      break;
    case KDec: v.i = r.range(-999999999999ll, 999999999999ll); break;
    case KDict: v.i = (int64_t)r.below(r.chance(60) ? 400 : world().strs.size()); break;
    case KText: {
      size_t n = r.below(12);
      for (size_t k = 0; k < n; ++k) v.s += (char)r.pick({'a', 'b', '\0', '\xff', 'z'});
      break;
    }
    case KArr: {
      size_t n = r.below(6);
      for (size_t k = 0; k < n; ++k) {
        Val e;
        auto et = ty->as<hdk::ir::ArrayBaseType>()->elemType();
        if (et->isFloatingPoint()) e.f = r.range(-100, 100) / 4.0;
        else if (et->isExtDictionary()) { e.i = (int64_t)r.below(world().strs.size()); e.null = r.chance(10); }
        else e.i = r.range(-100, 100);
        v.arr.push_back(e);
      }
      break;
    }
    case KAvg: break;
  }
  return v;
}
static std::string vstr(const Val& v) {
  if (v.null) return "NULL";
  std::string o = cat("i=", v.i, " f=", v.f, " s=", v.s, " n=", v.cnt, " a=[");
  for (auto& e : v.arr) o += cat(e.i, "/", e.f, ",");
  return o + "]";
}
static void wput(int8_t* p, int w, int64_t v) {
  if (w == 8) memcpy(p, &v, 8);
  else if (w == 4) { int32_t x = (int32_t)v; memcpy(p, &x, 4); }
  else if (w == 2) { int16_t x = (int16_t)v; memcpy(p, &x, 2); }
  else if (w == 1) { int8_t x = (int8_t)v; memcpy(p, &x, 1); }
}
static std::vector<std::shared_ptr<std::vector<int8_t>>>* KEEP;  // memory the variable length cells point to
static int64_t keep(const void* d, size_t n) {
  auto b = std::make_shared<std::vector<int8_t>>(std::max<size_t>(n, 1));
  if (n) memcpy(b->data(), d, n);
  KEEP->push_back(b);
  return (int64_t)b->data();
}
// What generated code leaves in the slot(s) of a target.
static void write_cell(int8_t* p1, int8_t* p2, const Target& t, const Val& v, bool columnar_proj) {
  const auto ty = t.ti.type;
  switch (t.kind) {
    case KInt: wput(p1, t.width, v.null ? inline_int_null_value(ty) : v.i); break;
    case KDec: wput(p1, t.width, v.null ? inline_int_null_value(ty) : v.i); break;
    case KDict: wput(p1, t.width, v.null ? (int64_t)NULL_INT : v.i); break;
    case KFp: {
      const bool f4 = agg_float4(t.ti) || (ty->isFp32() && columnar_proj);
      if (f4) {
        float x = v.null ? NULL_FLOAT : (float)v.f;
        memcpy(p1, &x, 4);
      } else {
        double x = v.null ? (ty->isFp32() ? (double)NULL_FLOAT : NULL_DOUBLE) : v.f;
        memcpy(p1, &x, 8);
      }
      break;
    }
    case KText:
      if (v.null) { wput(p1, 8, 0); wput(p2, 8, 0); }
      else { wput(p1, 8, keep(v.s.data(), v.s.size())); wput(p2, 8, (int64_t)v.s.size()); }
      break;
    case KArr: {
      if (v.null) { wput(p1, 8, 0); wput(p2, 8, 0); break; }
      auto et = ty->as<hdk::ir::ArrayBaseType>()->elemType();
      std::vector<int8_t> b(v.arr.size() * et->size());
      for (size_t k = 0; k < v.arr.size(); ++k) {
        if (et->isFp32()) { float x = (float)v.arr[k].f; memcpy(&b[k * 4], &x, 4); }
        else if (et->isFp64()) { double x = v.arr[k].f; memcpy(&b[k * 8], &x, 8); }
        else wput(&b[k * et->size()], (int)et->size(), v.arr[k].null ? (int64_t)NULL_INT : v.arr[k].i);
      }
      wput(p1, 8, keep(b.data(), b.size()));
      wput(p2, 8, (int64_t)v.arr.size());
      break;
    }
    case KAvg: {
      auto at = t.ti.agg_arg_type;
      if (at->isFp32()) { float x = (float)v.f; memcpy(p1, &x, 4); }
      else if (at->isFp64()) memcpy(p1, &v.f, 8);
      else wput(p1, t.width, v.i);
      wput(p2, t.width2, v.cnt);
      break;
    }
  }
}
// The value a reader must get.
static bool same(const TargetValue& tv, const Target& t, const Val& v, bool strings, bool dec_double, std::string* got) {
  const auto ty = t.ti.type;
  const auto* sc = boost::get<ScalarTargetValue>(&tv);
  if (t.kind == KArr) {
    const auto* a = boost::get<ArrayTargetValue>(&tv);
    if (!a) { *got = "not an array"; return false; }
    if (!a->is_initialized()) { *got = "null array"; return v.null; }
    if (v.null) { *got = "an array"; return false; }
    auto et = ty->as<hdk::ir::ArrayBaseType>()->elemType();
    if (a->get().size() != v.arr.size()) { *got = cat(a->get().size(), " elements"); return false; }
    for (size_t k = 0; k < v.arr.size(); ++k) {
      auto& e = a->get()[k];
      bool ok = false;
      if (et->isFp32()) { auto p = boost::get<float>(&e); ok = p && *p == (float)v.arr[k].f; }
      else if (et->isFp64()) { auto p = boost::get<double>(&e); ok = p && *p == v.arr[k].f; }
      else if (et->isExtDictionary() && strings) {
        auto p = boost::get<NullableString>(&e);
        if (!p) ok = false;
        else if (v.arr[k].null) ok = boost::get<void*>(p) != nullptr;
        else { auto q = boost::get<std::string>(p); ok = q && *q == world().strs[v.arr[k].i]; }
      } else { auto p = boost::get<int64_t>(&e); ok = p && *p == (v.arr[k].null ? (int64_t)NULL_INT : v.arr[k].i); }
      if (!ok) { *got = cat("element ", k, " differs"); return false; }
    }
    return true;
  }
  if (!sc) { *got = "not a scalar"; return false; }
  auto ns = [&](bool null, const std::string& s) {
    auto p = boost::get<NullableString>(sc);
    if (!p) { *got = "not a string"; return false; }
    auto q = boost::get<std::string>(p);
    *got = q ? *q : "null string";
    return null ? q == nullptr : (q && *q == s);
  };
  switch (t.kind) {
    case KText: return ns(v.null, v.s);
    case KDict:
      if (strings) return ns(v.null, v.null ? "" : world().strs[v.i]);
      else {
        auto p = boost::get<int64_t>(sc);
        if (!p) { *got = "not an id"; return false; }
        *got = S(*p);
        return *p == (v.null ? (int64_t)NULL_INT : v.i);
      }
    case KInt: {
      auto p = boost::get<int64_t>(sc);
      if (!p) { *got = "not an integer"; return false; }
      *got = S(*p);
      return *p == (v.null ? inline_int_null_value(ty) : v.i);
    }
    case KDec: {
      if (!dec_double) {
        auto p = boost::get<int64_t>(sc);
        if (!p) { *got = "not an integer"; return false; }
        *got = S(*p);
        return *p == (v.null ? inline_int_null_value(ty) : v.i);
      }
      auto p = boost::get<double>(sc);
      if (!p) { *got = "not a double"; return false; }
      *got = cat(*p);
      return *p == (v.null ? NULL_DOUBLE : (double)v.i / std::pow(10.0, ty->as<hdk::ir::DecimalType>()->scale()));
    }
    case KFp:
      if (ty->isFp32()) {
        auto p = boost::get<float>(sc);
        if (!p) { *got = "not a float"; return false; }
        *got = cat(*p);
        return *p == (v.null ? NULL_FLOAT : (float)v.f);
      } else {
        auto p = boost::get<double>(sc);
        if (!p) { *got = "not a double"; return false; }
        *got = cat(*p);
        return *p == (v.null ? NULL_DOUBLE : v.f);
      }
    case KAvg: {
      auto p = boost::get<double>(sc);
      if (!p) { *got = "not a double"; return false; }
      *got = cat(*p);
      if (v.null) return *p == NULL_DOUBLE;
      auto at = t.ti.agg_arg_type;
      double e = at->isFloatingPoint() ? v.f / v.cnt : at->isDecimal() ? (double)v.i / ((double)v.cnt * std::pow(10.0, at->as<hdk::ir::DecimalType>()->scale()))
                                                                       : (double)v.i / (double)v.cnt;
      return *p == e || std::fabs(*p - e) <= 1e-12 * std::fabs(e);
    }
    case KArr: break;
  }
  return false;
}
static TargetInfo mk(bool agg, AggType k, const hdk::ir::Type* t, const hdk::ir::Type* a, bool skip) {
  return TargetInfo{agg, k, t, a, skip, false, 0, false, 0.0, hdk::ir::Interpolation::kLower};
}
static Target gen_target(Rng& r, bool proj, bool columnar, int narrow) {
  Target t;
  const bool nl = r.chance(70);
  auto& c = cx();
  const auto int_type = [&]() -> const hdk::ir::Type* {
    switch (r.below(9)) {
      case 0: return c.int8(nl);
      case 1: return c.int16(nl);
      case 2: return c.int32(nl);
      case 3: return c.int64(nl);
      case 4: return c.boolean(nl);
      case 5: return c.timestamp(hdk::ir::TimeUnit::kSecond, nl);
      case 6: return c.time64(hdk::ir::TimeUnit::kSecond, nl);
      case 7: return c.date64(hdk::ir::TimeUnit::kSecond, nl);
      default: return c.int64(nl);
    }
  };
  const auto num_type = [&]() -> const hdk::ir::Type* {
    switch (r.below(4)) {
      case 0: return c.int8(nl);
      case 1: return c.int16(nl);
      case 2: return c.int32(nl);
      default: return c.int64(nl);
    }
  };
  if (proj) {
    switch (r.below(7)) {
      case 0: case 1: t.kind = KInt; t.ti = mk(false, AggType::kMin, int_type(), nullptr, false); break;
      case 2: t.kind = KFp; t.ti = mk(false, AggType::kMin, r.chance(50) ? (const hdk::ir::Type*)c.fp32(nl) : c.fp64(nl), nullptr, false); break;
      case 3: t.kind = KDec; t.ti = mk(false, AggType::kMin, c.decimal64((int)r.range(13, 18), (int)r.below(8), nl), nullptr, false); break;
      case 4: t.kind = KDict; t.ti = mk(false, AggType::kMin, c.extDict(c.text(nl), 7, 4), nullptr, false); break;
      case 5: t.kind = KText; t.ti = mk(false, AggType::kMin, c.text(nl), nullptr, false); break;
      default: {
        const hdk::ir::Type* et = r.chance(25) ? (const hdk::ir::Type*)c.fp32() : r.chance(30) ? (const hdk::ir::Type*)c.fp64()
                                  : r.chance(30) ? (const hdk::ir::Type*)c.extDict(c.text(), 7, 4) : (const hdk::ir::Type*)c.integer((int)r.pick({1, 2, 4, 8}));
        t.kind = KArr;
        t.ti = mk(false, AggType::kMin, c.arrayVarLen(et, 4, nl), nullptr, false);
      }
    }
    t.width = 8;
    if (t.kind == KText || t.kind == KArr) t.width2 = 8;
    else if (columnar) t.width = (int)t.ti.type->canonicalSize();
    return t;
  }
  if (narrow == 4) {
    // compact layouts: counts and dictionary ids only
    if (r.chance(60)) { t.kind = KInt; t.ti = mk(true, AggType::kCount, c.int32(false), nullptr, false); }
    else { t.kind = KDict; t.ti = mk(false, AggType::kMin, c.extDict(c.text(nl), 7, 4), nullptr, false); }
    t.width = 4;
    return t;
  }
  switch (r.below(10)) {
    case 0: t.kind = KInt; t.ti = mk(true, AggType::kCount, c.integer(narrow == 4 ? 4 : 8, false), nullptr, false); break;
    case 1: t.kind = KInt; t.ti = mk(true, AggType::kSum, c.int64(nl), num_type()->withNullable(nl), nl); break;
    case 2: { auto x = int_type(); t.kind = KInt; t.ti = mk(true, r.chance(50) ? AggType::kMin : AggType::kMax, x, x, nl); break; }
    case 3: { auto x = r.chance(50) ? (const hdk::ir::Type*)c.fp32(nl) : c.fp64(nl); t.kind = KFp; t.ti = mk(true, r.chance(50) ? AggType::kMin : AggType::kSum, x, x, nl); break; }
    case 4: { auto x = c.decimal64(18, (int)r.below(6), nl); t.kind = KDec; t.ti = mk(true, r.chance(50) ? AggType::kMax : AggType::kSum, x, x, nl); break; }
    case 5: case 6: {
      t.kind = KAvg;
      const hdk::ir::Type* a = r.chance(40) ? num_type() : r.chance(40) ? (const hdk::ir::Type*)c.fp64(nl) : r.chance(50) ? (const hdk::ir::Type*)c.fp32(nl)
                                                                                                        : (const hdk::ir::Type*)c.decimal64(18, 3, nl);
      t.ti = mk(true, AggType::kAvg, a->isInteger() ? (const hdk::ir::Type*)c.int64(nl) : a, a, nl);
      break;
    }
    case 7: { auto x = c.extDict(c.text(nl), 7, 4); t.kind = KDict; t.ti = mk(true, AggType::kSample, x, x, nl); break; }
    default: { auto x = int_type(); t.kind = KInt; t.ti = mk(false, AggType::kMin, x, nullptr, false); }
  }
  t.width = 8;
  if (t.kind == KAvg) t.width2 = 8;
  return t;
}

struct Storage {
  size_t entries;
  std::vector<bool> used;
  std::vector<std::vector<int64_t>> keys;
  std::vector<std::vector<Val>> vals;  // per entry, per target
};
struct Plan {
  QueryDescriptionType type;
  bool columnar = false, keyless = false;
  int key_width = 8;
  std::vector<int8_t> group_widths;
  std::vector<Target> targets;
  std::vector<ssize_t> groupby_idx;  // target -> key component, or empty
  size_t key_slot = 0;               // slot that marks a keyless entry as used
  size_t key_target = 0;
};
static QueryMemoryDescriptor make_qmd(const Plan& p, size_t entries, bool fix) {
  QueryMemoryDescriptor q(p.type, 0, (int64_t)entries, false, p.group_widths);
  for (size_t i = 0; i < p.targets.size(); ++i) {
    auto& t = p.targets[i];
    if (!p.groupby_idx.empty() && p.groupby_idx[i] >= 0) {
      q.addColSlotInfo({{(int8_t)0, (int8_t)0}});
      continue;
    }
    const int8_t lw = (int8_t)(t.kind == KText || t.kind == KArr || t.lazy ? 8
                               : !p.columnar && p.type == QueryDescriptionType::GroupByPerfectHash && !t.ti.is_agg
                                   ? std::min<int>(t.width, (int)t.ti.type->canonicalSize())
                                   : t.width);
    std::vector<std::tuple<int8_t, int8_t>> sl{{lw, (int8_t)t.width}};
    if (t.width2) sl.push_back({(int8_t)t.width2, (int8_t)t.width2});
    q.addColSlotInfo(sl);
  }
  q.setEntryCount(entries);
  if (p.keyless) {
    q.setHasKeylessHash(true);
    q.setTargetIdxForKey((int)p.key_slot);
  }
  if (p.type != QueryDescriptionType::Projection) q.setGroupColCompactWidth((int8_t)p.key_width);
  if (!p.groupby_idx.empty()) q.setAllTargetGroupbyIndices(std::vector<int64_t>(p.groupby_idx.begin(), p.groupby_idx.end()));
  if (p.columnar) q.setOutputColumnar(true);
  if (fix && !p.columnar && p.type != QueryDescriptionType::Projection) {
    auto gw = q;
    auto f = ResultSet::fixupQueryMemoryDescriptor(q);
    return f;
  }
  return q;
}
static void fill(int8_t* buff, const Plan& p, const QueryMemoryDescriptor& q, const Storage& s) {
  const bool proj = p.type == QueryDescriptionType::Projection;
  for (size_t e = 0; e < s.entries; ++e) {
    int8_t* row = p.columnar ? nullptr : buff + e * q.getRowSize();
    auto slot = [&](size_t k) {
      return p.columnar ? buff + q.getColOffInBytes(k) + e * q.getPaddedSlotWidthBytes(k) : row + q.getColOffInBytes(k);
    };
    if (!p.keyless) {
      const size_t nk = proj ? 1 : p.group_widths.size();
      for (size_t k = 0; k < nk; ++k) {
        if (p.columnar) {
          const int w = proj ? 8 : p.type == QueryDescriptionType::GroupByBaselineHash ? 8 : p.group_widths[k];
          int8_t* kp = buff + (proj ? 0 : q.getPrependedGroupColOffInBytes(k)) + e * w;
          const int64_t empty = w == 8 ? EMPTY_KEY_64 : w == 4 ? EMPTY_KEY_32 : w == 2 ? EMPTY_KEY_16 : EMPTY_KEY_8;
          wput(kp, w, s.used[e] ? s.keys[e][k] : empty);
        } else {
          wput(row + k * p.key_width, p.key_width, s.used[e] ? s.keys[e][k] : p.key_width == 8 ? EMPTY_KEY_64 : (int64_t)EMPTY_KEY_32);
        }
      }
    }
    size_t k = 0;
    for (size_t t = 0; t < p.targets.size(); ++t) {
      auto& tg = p.targets[t];
      const bool from_key = !p.groupby_idx.empty() && p.groupby_idx[t] >= 0;
      if (!from_key) {
        if (s.used[e]) write_cell(slot(k), tg.width2 ? slot(k + 1) : nullptr, tg, s.vals[e][t], p.columnar && proj);
        else {
          memset(slot(k), p.keyless && k == p.key_slot ? 0 : 0x6b, tg.width);
          if (tg.width2) memset(slot(k + 1), 0x6b, tg.width2);
        }
      }
      k += tg.width2 && !from_key ? 2 : 1;
    }
  }
}

static std::string pdesc(const Plan& p) {
  std::string d = p.type == QueryDescriptionType::Projection ? "projection" : p.type == QueryDescriptionType::GroupByPerfectHash ? "perfect hash" : "baseline hash";
  d += p.columnar ? " columnar" : " row-wise";
  if (p.keyless) d += " keyless";
  d += cat(" key width ", p.key_width, " groups");
  for (auto g : p.group_widths) d += " " + S((int)g);
  for (size_t i = 0; i < p.targets.size(); ++i) {
    auto& t = p.targets[i];
    d += cat("; ", t.ti.is_agg ? toString(t.ti.agg_kind) : std::string("col"), " ", t.ti.type->toString(), " w", t.width, t.lazy ? " lazy" : "");
    if (!p.groupby_idx.empty()) d += cat(" key ", p.groupby_idx[i]);
  }
  return d;
}
static Plan gen_plan(Rng& r) {
  Plan p;
  const int kind = (int)r.below(8);
  p.type = kind <= 1 ? QueryDescriptionType::Projection : kind <= 5 ? QueryDescriptionType::GroupByPerfectHash : QueryDescriptionType::GroupByBaselineHash;
  p.columnar = kind == 1 || kind == 3 || kind == 5 || kind == 7;
  p.keyless = kind == 4 || kind == 5;
  const bool proj = p.type == QueryDescriptionType::Projection;
  const size_t nk = proj ? 1 : (size_t)r.range(1, 3);
  for (size_t k = 0; k < nk; ++k) p.group_widths.push_back(p.type == QueryDescriptionType::GroupByPerfectHash && p.columnar ? (int8_t)r.pick({1, 2, 4, 8}) : 8);
  if (p.type == QueryDescriptionType::GroupByBaselineHash && !p.columnar && r.chance(50)) p.key_width = 4;
  const int narrow = !p.columnar && p.type == QueryDescriptionType::GroupByPerfectHash && r.chance(40) ? 4 : 8;
  const size_t nt = (size_t)r.range(1, 6);
  for (size_t i = 0; i < nt; ++i) p.targets.push_back(gen_target(r, proj, p.columnar, narrow));
  if (p.keyless) {
    Target t;
    t.kind = KInt;
    t.ti = mk(true, AggType::kCount, cx().integer(narrow == 4 ? 4 : 8, false), nullptr, false);
    t.width = narrow;
    p.key_target = r.below(p.targets.size() + 1);
    p.targets.insert(p.targets.begin() + p.key_target, t);
    p.key_slot = 0;
    for (size_t i = 0; i < p.key_target; ++i) p.key_slot += p.targets[i].width2 ? 2 : 1;
  }
  if (p.type == QueryDescriptionType::GroupByBaselineHash) {
    // targets that are group keys are read from the key components
    p.groupby_idx.assign(p.targets.size(), -1);
    for (size_t k = 0; k < nk; ++k)
      if (r.chance(70)) {
        Target t;
        const int w = p.key_width;
        auto& c = cx();
        switch (r.below(3)) {
          case 0: t.kind = KDict; t.ti = mk(false, AggType::kMin, c.extDict(c.text(true), 7, 4), nullptr, false); break;
          case 1: t.kind = KInt; t.ti = mk(false, AggType::kMin, w == 4 ? (const hdk::ir::Type*)c.int32() : c.int64(), nullptr, false); break;
          default: t.kind = KInt; t.ti = mk(false, AggType::kMin, r.chance(50) ? (const hdk::ir::Type*)c.int16() : c.int8(), nullptr, false);
        }
        t.width = w;
        const size_t at = r.below(p.targets.size() + 1);
        p.targets.insert(p.targets.begin() + at, t);
        p.groupby_idx.insert(p.groupby_idx.begin() + at, (ssize_t)k);
      }
  }
  return p;
}
static Storage gen_storage(Rng& r, const Plan& p, size_t max_entries, int64_t& serial) {
  Storage s;
  const bool proj = p.type == QueryDescriptionType::Projection;
  s.entries = (size_t)r.range(1, (int64_t)max_entries);
  const size_t prefix = proj ? (r.chance(30) ? s.entries : r.below(s.entries + 1)) : 0;
  const int density = (int)r.pick({0, 20, 50, 90, 100});
  for (size_t e = 0; e < s.entries; ++e) {
    s.used.push_back(proj ? e < prefix : r.chance(density));
    s.keys.emplace_back();
    s.vals.emplace_back();
    for (size_t k = 0; k < p.group_widths.size(); ++k) {
      const int w = p.columnar && p.type == QueryDescriptionType::GroupByPerfectHash ? p.group_widths[k] : p.key_width;
      // keys of narrow components never collide with the empty marker
      s.keys.back().push_back(w == 8 ? serial++ * 3 - 100 : w == 4 ? (int64_t)(int32_t)(serial++ % 100000) - 50000 : r.range(-50, 50));
    }
    for (size_t t = 0; t < p.targets.size(); ++t) {
      Val v = gen_val(r, p.targets[t]);
      if (p.keyless && t == p.key_target) { v.i = r.range(1, 1000); }
      if (!p.groupby_idx.empty() && p.groupby_idx[t] >= 0) {
        auto& key = s.keys.back()[p.groupby_idx[t]];
        const auto ty = p.targets[t].ti.type;
        key = v.null ? (p.targets[t].kind == KDict ? (int64_t)NULL_INT : inline_int_null_value(ty)) : v.i;
      }
      s.vals.back().push_back(v);
    }
  }
  return s;
}
using RowRef = std::pair<size_t, size_t>;  // storage, entry
static void check_row(const std::vector<TargetValue>& row, const Plan& p, const Storage& s, size_t e, bool strings, bool dd, const char* how) {
  if (row.size() != p.targets.size()) {
    bad(cat(how, ": columns"), cat(row.size(), " values for ", p.targets.size(), " columns, entry ", e));
    return;
  }
  for (size_t t = 0; t < row.size(); ++t) {
    std::string got;
    if (!same(row[t], p.targets[t], s.vals[e][t], strings, dd, &got))
      bad(cat(how, ": value"), cat("entry ", e, " column ", t, " expected ", vstr(s.vals[e][t]), " got ", got));
  }
  ev("row_read");
}

static void rows_case(Rng& r, bool big) {
  std::vector<std::shared_ptr<std::vector<int8_t>>> keepers;
  KEEP = &keepers;
  Plan p = gen_plan(r);
  const bool proj = p.type == QueryDescriptionType::Projection;
  DESC = pdesc(p);
  note("rows " + DESC);
  auto& w = world();
  std::vector<TargetInfo> tis;
  for (auto& t : p.targets) tis.push_back(t.ti);
  // values of narrow key targets come from the target: keep them away from the empty marker
  const size_t nst = r.chance(40) ? (size_t)r.range(2, 4) : 1;
  std::vector<Storage> st;
  int64_t serial = 1;
  std::vector<std::unique_ptr<std::vector<int64_t>>> buffs;
  std::unique_ptr<ResultSet> rs;
  for (size_t k = 0; k < nst; ++k) {
    st.push_back(gen_storage(r, p, big ? 30000 : 40, serial));
    if (p.type == QueryDescriptionType::GroupByBaselineHash && p.group_widths.size() && !p.groupby_idx.empty())
      for (size_t e = 0; e < st[k].entries; ++e) {
        const auto& k0 = st[k].keys[e][0];
        if (k0 == EMPTY_KEY_64 || (p.key_width == 4 && (int32_t)k0 == EMPTY_KEY_32)) st[k].used[e] = false;
      }
    auto raw = make_qmd(p, st[k].entries, false);
    auto fixed = make_qmd(p, st[k].entries, true);
    const size_t size = raw.getBufferSizeBytes(ExecutorDeviceType::CPU);
    // the exact-size buffer of the storage: an access beyond it is reported by the sanitizer
    buffs.push_back(std::make_unique<std::vector<int64_t>>());
    auto b = std::shared_ptr<std::vector<int8_t>>(new std::vector<int8_t>(size, p.targets[0].width == 4 ? 0 : 0x77));  // compact rows: the padding is zero
    keepers.push_back(b);
    fill(b->data(), p, raw, st[k]);
    auto one = std::make_unique<ResultSet>(tis, ExecutorDeviceType::CPU, fixed, w.mo, nullptr, 0, 0);
    std::vector<int64_t> init;
    for (auto& t : p.targets) {
      init.push_back(t.ti.is_agg && t.ti.agg_kind == AggType::kCount ? 0 : -1);
      if (t.width2) init.push_back(0);
    }
    one->allocateStorage(b->data(), init);
    if (rs && r.chance(30)) rs->rowCount();  // counted before it grows
    if (!rs) rs = std::move(one);
    else rs->append(*one);
  }
  ev(cat("storage_", nst > 1 ? "many" : "one"));
  ev(cat("plan_", p.type == QueryDescriptionType::Projection ? "projection" : p.type == QueryDescriptionType::GroupByPerfectHash ? (p.keyless ? "keyless" : "perfect") : "baseline",
         p.columnar ? "_col" : "_row"));
  std::vector<RowRef> all;  // rows in storage order
  std::vector<RowRef> entry_of;
  for (size_t k = 0; k < nst; ++k)
    for (size_t e = 0; e < st[k].entries; ++e) {
      entry_of.push_back({k, e});
      if (st[k].used[e]) all.push_back({k, e});
    }
  if (r.chance(50) && rs->rowCount() != all.size()) bad("row count", cat(rs->rowCount(), " of ", all.size(), " after ", nst - 1, " results were appended"));
  if (rs->entryCount() != entry_of.size()) bad("entry count", cat(rs->entryCount(), " of ", entry_of.size()));
  if (rs->colCount() != p.targets.size()) bad("column count", cat(rs->colCount()));
  auto ent = [&](size_t global) -> RowRef { return entry_of[global]; };
  // every entry by its index
  if (!big)
    for (size_t g = 0; g < entry_of.size(); ++g) {
      auto [k, e] = ent(g);
      const bool empty = rs->isRowAtEmpty(g);
      if (empty != !st[k].used[e]) { bad("entry emptiness", cat("entry ", g)); continue; }
      auto row = rs->getRowAt(g);
      if (empty) {
        if (!row.empty()) bad("row of an empty entry", cat("entry ", g));
        ev("empty_entry");
        continue;
      }
      check_row(row, p, st[k], e, true, false, "getRowAt(entry)");
      if (r.chance(20)) {
        std::vector<bool> skip;
        for (size_t t = 0; t < p.targets.size(); ++t) skip.push_back(r.chance(50));
        auto part = rs->getRowAtNoTranslations(g, skip);
        if (part.size() != skip.size()) bad("partial row", cat("entry ", g));
        else
          for (size_t t = 0; t < skip.size(); ++t) {
            std::string got;
            if (!skip[t] && !same(part[t], p.targets[t], st[k].vals[e][t], false, false, &got))
              bad("partial row: value", cat("entry ", g, " column ", t, " expected ", vstr(st[k].vals[e][t]), " got ", got));
          }
      }
    }
  if (rs->isRowAtEmpty(entry_of.size()) != true) bad("entry emptiness", "past the end");
  // a permutation as a sort leaves it
  std::vector<RowRef> order = all;
  if (!all.empty() && r.chance(35)) {
    std::vector<uint32_t> mem(entry_of.size());
    PermutationView pv(mem.data(), 0, mem.size());
    const size_t mid = r.below(entry_of.size() + 1);
    pv = rs->initPermutationBuffer(pv, 0, (PermutationIdx)mid);
    pv = rs->initPermutationBuffer(pv, (PermutationIdx)mid, (PermutationIdx)entry_of.size());
    if (pv.size() != all.size()) bad("permutation", cat(pv.size(), " indexes for ", all.size(), " rows"));
    Permutation perm(pv.begin(), pv.end());
    for (size_t i = 0; i < perm.size() && i < all.size(); ++i)
      if (perm[i] >= entry_of.size() || ent(perm[i]) != all[i]) { bad("permutation", cat("index ", i)); break; }
    std::shuffle(perm.begin(), perm.end(), r);
    if (r.chance(50)) perm.resize((size_t)r.range(1, (int64_t)perm.size()));
    order.clear();
    for (auto i : perm) order.push_back(ent(i));
    rs->setPermutationBuffer(perm);
    ev("permuted");
    for (size_t i = 0; i < order.size() && i < 20; ++i) check_row(rs->getRowAt(i), p, st[order[i].first], order[i].second, true, false, "getRowAt(permuted)");
  }
  const bool permuted = order.size() != all.size() || order != all;
  const int rounds = (int)r.range(1, 4);
  for (int round = 0; round < rounds; ++round) {
    size_t lim = r.chance(50) ? 0 : r.below(order.size() + 3), off = r.chance(50) ? 0 : r.below(order.size() + 3);
    if (round == 0 && r.chance(50)) lim = off = 0;
    rs->keepFirstN(lim);
    rs->dropFirstN(off);
    if (rs->getLimit() != lim || rs->getOffset() != off) bad("limit", "getters");
    std::vector<RowRef> want;
    for (size_t i = off; i < order.size() && (!lim || want.size() < lim); ++i) want.push_back(order[i]);
    const bool par = r.chance(50);
    if (rs->rowCount(par) != want.size())
      bad("row count", cat(rs->rowCount(), " of ", want.size(), par ? " (parallel)" : "", " limit ", lim, " offset ", off, permuted ? " permuted" : ""));
    if (rs->isEmpty() != want.empty()) bad("emptiness", cat(want.size(), " rows"));
    const bool strings = r.chance(50), dd = r.chance(50);
    rs->moveToBegin();
    size_t n = 0;
    for (;; ++n) {
      auto row = rs->getNextRow(strings, dd);
      if (row.empty()) break;
      if (n >= want.size()) { ++n; break; }
      check_row(row, p, st[want[n].first], want[n].second, strings, dd, "getNextRow");
    }
    if (n != want.size()) bad("rows iterated", cat(n, " of ", want.size(), " limit ", lim, " offset ", off, permuted ? " permuted" : ""));
    if (!rs->getNextRow(strings, dd).empty()) bad("rows iterated", "a row after the end");
    size_t from = want.empty() ? 0 : r.below(want.size() + 1);
    auto it = rs->rowIterator(from, strings, dd);
    size_t m = from;
    for (; it.isValid(); ++it, ++m) {
      if (m >= want.size()) { ++m; break; }
      if (!big || m % 16 == 0) check_row(*it, p, st[want[m].first], want[m].second, strings, dd, "rowIterator");
    }
    if (m != want.size()) bad("iterator rows", cat(m, " of ", want.size(), " from ", from, " limit ", lim, " offset ", off));
    if (!want.empty() && !big) {
      const size_t i = r.below(want.size());
      check_row(rs->getRowAt(i, strings, dd), p, st[want[i].first], want[i].second, strings, dd, "getRowAt(row)");
      const size_t c = r.below(p.targets.size());
      std::string got;
      if (!same(rs->getRowAt(i, c, strings, dd), p.targets[c], st[want[i].first].vals[want[i].second][c], strings, dd, &got))
        bad("getRowAt(row, column): value", cat("row ", i, " column ", c, " got ", got));
    }
    // columnar projections hand out their buffers
    if (proj && p.columnar && !permuted && rs->isPermutationBufferEmpty()) {
      for (size_t c = 0; c < p.targets.size(); ++c) {
        if (!rs->isChunkedZeroCopyColumnarConversionPossible(c)) {
          if (p.targets[c].kind != KText && p.targets[c].kind != KArr) bad("column buffer", "not offered");
          continue;
        }
        const int wd = p.targets[c].width;
        auto chunks = rs->getChunkedColumnarBuffer(c);
        size_t at = 0;
        auto cell = [&](const int8_t* q, const char* how) {
          if (at >= want.size()) { ++at; return; }
          int8_t exp[8];
          memset(exp, 0, 8);
          write_cell(exp, nullptr, p.targets[c], st[want[at].first].vals[want[at].second][c], true);
          if (memcmp(exp, q, wd)) bad(cat(how, ": value"), cat("column ", c, " row ", at, " limit ", lim, " offset ", off));
          ++at;
        };
        for (auto& [q, cnt] : chunks)
          for (size_t i = 0; i < cnt; ++i) cell(q + i * wd, "column chunk");
        if (at != want.size()) bad("column chunks", cat(at, " values of ", want.size(), " limit ", lim, " offset ", off));
        std::vector<int8_t> out(want.size() * wd + 1, 0x33);
        rs->copyColumnIntoBuffer(c, out.data(), want.size() * wd);
        at = 0;
        for (size_t i = 0; i < want.size(); ++i) cell(&out[i * wd], "copied column");
        if (out.back() != 0x33) bad("copied column", "beyond the end");
        if (rs->isZeroCopyColumnarConversionPossible(c)) {
          if (nst != 1) bad("zero copy", "offered for several storages");
          const int8_t* q = rs->getColumnarBuffer(c);
          for (size_t i = 0; i < st[0].entries; ++i)
            if (st[0].used[i]) {
              int8_t exp[8];
              memset(exp, 0, 8);
              write_cell(exp, nullptr, p.targets[c], st[0].vals[i][c], true);
              if (memcmp(exp, q + i * wd, wd)) bad("zero copy: value", cat("column ", c, " row ", i));
            }
        }
        ev("column_buffer");
      }
    }
    // offsets of variable length columns
    for (size_t c = 0; c < p.targets.size(); ++c)
      if (p.targets[c].kind == KText || p.targets[c].kind == KArr) {
        std::vector<int32_t> o(want.size() + 2, 0x5555);
        const size_t cnt = rs->computeVarLenOffsets(c, o.data());
        if (cnt != want.size() + 1) { bad("offsets", cat(cnt, " for ", want.size(), " rows")); continue; }
        if (o[want.size() + 1] != 0x5555) bad("offsets", "beyond the end");
        int32_t pos = 0;
        if (o[0] != 0) bad("offsets", "do not start at 0");
        for (size_t i = 0; i < want.size(); ++i) {
          const Val& v = st[want[i].first].vals[want[i].second][c];
          const int32_t len = v.null ? 0 : p.targets[c].kind == KText ? (int32_t)v.s.size()
                                                                      : (int32_t)(v.arr.size() * p.targets[c].ti.type->as<hdk::ir::ArrayBaseType>()->elemType()->size());
          pos += len;
          if (std::abs(o[i + 1]) != pos) { bad("offsets", cat("row ", i, " ends at ", o[i + 1], " expected ", pos)); break; }
          const bool neg = o[i + 1] < 0;
          if (p.targets[c].kind == KText ? neg : pos && neg != v.null) { bad("offsets", cat("row ", i, " null mark ", neg)); break; }
        }
        ev("varlen_offsets");
      }
  }
  rs->keepFirstN(0);
  rs->dropFirstN(0);
  // direct access to the buffers of a group by
  if (!proj && nst == 1 && !big) {
    auto slots = rs->getSlotIndicesForTargetIndices();
    for (size_t t = 0, k = 0; t < p.targets.size(); ++t) {
      auto& tg = p.targets[t];
      const bool from_key = !p.groupby_idx.empty() && p.groupby_idx[t] >= 0;
      if (slots[t] != k) bad("slot index", cat("target ", t, " slot ", slots[t], " expected ", k));
      if (tg.kind == KInt && (tg.width == 8 || tg.width == 4) && (!from_key || p.key_width == tg.width))
        for (size_t e = 0; e < st[0].entries; ++e)
          if (st[0].used[e]) {
            const int64_t want = st[0].vals[e][t].null ? inline_int_null_value(tg.ti.type) : st[0].vals[e][t].i;
            int64_t got;
            const int wd = from_key ? p.key_width : tg.width;
            using Q = QueryDescriptionType;
#define AT(Q, C) (wd == 8 ? rs->getEntryAt<int64_t, Q, C>(e, t, slots[t]) : (int64_t)rs->getEntryAt<int32_t, Q, C>(e, t, slots[t]))
            if (p.type == Q::GroupByPerfectHash) got = p.columnar ? AT(Q::GroupByPerfectHash, true) : AT(Q::GroupByPerfectHash, false);
            else got = p.columnar ? AT(Q::GroupByBaselineHash, true) : AT(Q::GroupByBaselineHash, false);
#undef AT
            if (got != want) bad("getEntryAt", cat("entry ", e, " target ", t, " got ", got, " expected ", want));
            ev("entry_at");
          }
      k += tg.width2 && !from_key ? 2 : 1;
    }
  }
  // accessors used by sorting
  if (!big && (p.groupby_idx.empty() || true)) {
    auto check_acc = [&](auto& acc) {
      for (size_t g = 0; g < entry_of.size(); ++g) {
        auto [k, e] = ent(g);
        if (!st[k].used[e]) continue;
        auto f = rs->findStorage(g);
        if (f.storage_idx != k || f.fixedup_entry_idx != e) bad("storage of an entry", cat("entry ", g));
        for (size_t t = 0; t < p.targets.size(); ++t) {
          auto& tg = p.targets[t];
          const Val& v = st[k].vals[e][t];
          if (tg.kind == KArr || (tg.kind == KText && v.null)) continue;
          auto iv = acc.getColumnInternal(f.storage_ptr->getUnderlyingBuffer(), e, t, f);
          bool ok = true;
          if (tg.kind == KAvg) {
            ok = iv.isPair() && iv.i2 == v.cnt;
            if (ok && !tg.ti.agg_arg_type->isFloatingPoint()) ok = iv.i1 == v.i;
          } else if (tg.kind == KText) ok = iv.isStr() && *reinterpret_cast<const std::string*>(iv.i1) == v.s;
          else if (tg.kind == KFp) {
            if (tg.ti.type->isFp64()) { double x; memcpy(&x, &iv.i1, 8); ok = x == (v.null ? NULL_DOUBLE : v.f); }
            else if (agg_float4(tg.ti)) { float x; int32_t b = (int32_t)iv.i1; memcpy(&x, &b, 4); ok = x == (v.null ? NULL_FLOAT : (float)v.f); }
          } else ok = iv.isInt() && iv.i1 == (v.null ? (tg.kind == KDict ? (int64_t)NULL_INT : inline_int_null_value(tg.ti.type)) : v.i);
          if (!ok) bad("accessor value", cat("entry ", g, " target ", t, " got ", iv.i1, "/", iv.i2, " expected ", vstr(v)));
          ev("accessor_value");
        }
      }
    };
    if (p.columnar) {
      ResultSet::ColumnWiseTargetAccessor a(rs.get());
      check_acc(a);
    } else {
      ResultSet::RowWiseTargetAccessor a(rs.get());
      check_acc(a);
    }
  }
  // a copy reads the same rows on its own cursor
  if (!big && r.chance(50)) {
    rs->moveToBegin();
    if (order.size() > 1) rs->getNextRow(true, false);
    auto cp = rs->shallowCopy();
    if (cp->rowCount() != order.size()) bad("copy", cat(cp->rowCount(), " rows of ", order.size()));
    for (size_t n = 0; n < order.size(); ++n) {
      auto row = cp->getNextRow(true, false);
      if (row.empty()) { bad("copy", "ends early"); break; }
      check_row(row, p, st[order[n].first], order[n].second, true, false, "copy");
    }
    if (order.size() > 1) check_row(rs->getNextRow(true, false), p, st[order[1].first], order[1].second, true, false, "original after copy");
    ev("copied");
  }
  for (size_t c = 0; c < p.targets.size(); ++c)
    if (p.targets[c].kind == KDict && !big && rs->isPermutationBufferEmpty()) {
      std::set<std::string> want;
      for (auto& [k, e] : all)
        if (!st[k].vals[e][c].null) want.insert(w.strs[st[k].vals[e][c].i]);
      auto [ids, strs] = rs->getUniqueStringsForDictEncodedTargetCol(c);
      std::set<std::string> got(strs.begin(), strs.end());
      if (got != want || strs.size() != want.size() || ids.size() != strs.size()) bad("unique strings", cat(got.size(), " of ", want.size()));
      else
        for (size_t i = 0; i < ids.size(); ++i)
          if (w.strs[ids[i]] != strs[i]) bad("unique strings", "id and text differ");
      ev("unique_strings");
      break;
    }
  distinct(DESC);
  eval();
}
static void mode_rows() {
  const long n = st().thorough ? 40000 : 3000;
  for (long c = 0; c < n && !too_many(); ++c) {
    if (st().only_case >= 0 && c != st().only_case) continue;
    CASE = c;
    Rng r = case_rng(c);
    rows_case(r, c % 150 == 149);
    if (c % 500 == 0) sample(DESC);
  }
}
// ---------------------------------------------------------------------------------------------------- api
// Results without stored rows, one-entry results, estimators and the printed form.
static void api_case(Rng& r) {
  std::vector<std::shared_ptr<std::vector<int8_t>>> keepers;
  KEEP = &keepers;
  auto& c = cx();
  auto& w = world();
  DESC = "api";
  switch (r.below(5)) {
    case 0: {  // an explanation is one row of one text
      std::string text;
      for (size_t k = r.below(30); k > 0; --k) text += (char)r.pick({'a', '\n', ' ', '\xff'});
      DESC = "explanation";
      ResultSet e(text);
      for (int round = 0; round < 2; ++round) {
        if (!e.isExplain() || e.getExplanation() != text || e.rowCount() != 1 || e.isEmpty() || e.definitelyHasNoRows() || e.colCount() != 1 || !e.colType(0)->isText()) bad("explanation", "attributes");
        auto row = e.getNextRow(true, false);
        const auto* sc = row.size() == 1 ? boost::get<ScalarTargetValue>(&row[0]) : nullptr;
        const auto* ns = sc ? boost::get<NullableString>(sc) : nullptr;
        const auto* str = ns ? boost::get<std::string>(ns) : nullptr;
        if (!str || *str != text) bad("explanation", "text");
        for (int k = 0; k < 2; ++k)
          if (!e.getNextRow(true, false).empty()) bad("explanation", "more than one row");
        e.moveToBegin();
      }
      ResultSet q((int64_t)r.below(1000), w.mo);
      const int64_t base = q.getQueueTime();
      q.setKernelQueueTime(5);
      q.addCompilationQueueTime(7);
      q.addCompilationQueueTime(9);
      if (q.getQueueTime() != base + 21) bad("queue time", cat(q.getQueueTime(), " of ", base + 21));
      q.setQueueTime(100);
      if (q.getQueueTime() != 121) bad("queue time", cat(q.getQueueTime(), " of 121"));
      ev("explanation");
      break;
    }
    case 1: {  // linear counting of distinct values
      const size_t mul = r.chance(80) ? 1 : 2;
      DESC = cat("estimator x", mul);
      auto est = std::make_shared<const hdk::ir::NDVEstimator>(hdk::ir::ExprPtrList{}, mul);
      ResultSet e(est, ExecutorDeviceType::CPU, 0, nullptr);
      if (e.definitelyHasNoRows()) bad("estimator", "has no rows");
      const size_t bytes = est->getBufferSize(), bits = bytes * 8;
      auto* b = (uint8_t*)e.getHostEstimatorBuffer();
      for (size_t k = 0; k < bytes; k += 4096)
        if (b[k]) bad("estimator", "buffer is not cleared");
      if (e.getNDVEstimator() != 1) bad("estimator", cat("of nothing ", e.getNDVEstimator()));
      size_t set = 0;
      const size_t want = (size_t)r.pick({1, 2, 10, 1000, 60000});
      while (set < want) {
        const size_t x = r.below(bits);
        if (!(b[x / 8] >> (x % 8) & 1)) { b[x / 8] |= 1 << (x % 8); ++set; }
      }
      const double exp = -(double)bits * std::log(1.0 - (double)set / bits);
      if (std::fabs((double)e.getNDVEstimator() - exp) > 1 + exp * 1e-6) bad("estimator", cat(e.getNDVEstimator(), " of ", exp, " for ", set, " bits"));
      if (r.chance(10)) {
        memset(b, 0xff, bytes);
        if (e.getNDVEstimator() != 0) bad("estimator", "a full buffer gives an estimate");
      }
      ev("estimate");
      break;
    }
    case 2: case 3: {  // storage of the result's own, cleared, then one entry
      const bool columnar = r.chance(50);
      const size_t nk = (size_t)r.range(1, 3), nt = (size_t)r.range(1, 5);
      QueryMemoryDescriptor q(QueryDescriptionType::GroupByBaselineHash, 0, 100, false, std::vector<int8_t>(nk, 8));
      Plan p;
      p.type = QueryDescriptionType::GroupByBaselineHash;
      p.columnar = columnar;
      p.group_widths.assign(nk, 8);
      std::vector<TargetInfo> tis;
      size_t slots = 0;
      for (size_t i = 0; i < nt; ++i) {
        Target t;
        switch (r.below(5)) {
          case 0: t.kind = KInt; t.ti = mk(true, AggType::kCount, c.int64(false), nullptr, false); break;
          case 1: t.kind = KAvg; t.ti = mk(true, AggType::kAvg, c.int64(), c.int64(), true); t.width2 = 8; break;
          case 2: t.kind = KFp; t.ti = mk(true, AggType::kMax, c.fp64(), c.fp64(), true); break;
          case 3: t.kind = r.chance(50) ? KText : KArr; t.ti = mk(true, AggType::kSample, t.kind == KText ? (const hdk::ir::Type*)c.text() : c.arrayVarLen(c.int32(), 4), nullptr, true); t.width2 = 8; break;
          default: t.kind = KInt; t.ti = mk(true, AggType::kSum, c.int64(), c.int32(), true);
        }
        t.width = 8;
        p.targets.push_back(t);
        tis.push_back(t.ti);
        if (t.width2) q.addColSlotInfo({{(int8_t)8, (int8_t)8}, {(int8_t)8, (int8_t)8}});
        else q.addColSlotInfo({{(int8_t)8, (int8_t)8}});
        slots += t.width2 ? 2 : 1;
      }
      const bool one = r.chance(60);
      const size_t n = one ? 1 : (size_t)r.range(1, 50);
      q.setEntryCount(n);
      if (columnar) q.setOutputColumnar(true);
      DESC = pdesc(p) + cat(" entries ", n);
      note("api " + DESC);
      ResultSet rs(tis, ExecutorDeviceType::CPU, q, w.mo, nullptr, 0, 0);
      if (!rs.definitelyHasNoRows() || rs.rowCount() != 0 || !rs.getNextRow(true, false).empty()) bad("no storage", "has rows");
      rs.moveToBegin();
      rs.invalidateCachedRowCount();
      auto iv = result_set::initialize_target_values_for_storage(tis);
      if (iv.size() != slots) bad("initial values", cat(iv.size(), " for ", slots, " slots"));
      const ResultSetStorage* s = r.chance(50) ? rs.allocateStorage() : rs.allocateStorage(iv);
      if (rs.getTargetInitVals() != iv) bad("initial values", "of the storage differ");
      // the exact bytes of the buffer are written
      const size_t size = q.getBufferSizeBytes(ExecutorDeviceType::CPU);
      if (rs.getBufferSizeBytes(ExecutorDeviceType::CPU) != size) bad("buffer size", "of the result");
      memset(s->getUnderlyingBuffer(), 0x5a, size);
      rs.initializeStorage();
      if (rs.rowCount() != 0 || !rs.isEmpty()) bad("cleared storage", cat(rs.rowCount(), " rows"));
      for (size_t e = 0; e < n; ++e) {
        if (!rs.isRowAtEmpty(e) || !s->isEmptyEntry(e)) bad("cleared storage", cat("entry ", e, " is not empty"));
        for (size_t x = 0; x < slots; ++x) {
          int64_t v;
          memcpy(&v, columnar ? s->getUnderlyingBuffer() + q.getColOffInBytes(x) + e * 8 : s->getUnderlyingBuffer() + e * q.getRowSize() + q.getColOffInBytes(x), 8);
          if (v != iv[x]) { bad("cleared storage", cat("slot ", x, " of entry ", e, " is ", v, " not ", iv[x])); break; }
        }
      }
      ev("cleared");
      if (one) {
        Storage st;
        st.entries = 1;
        st.used = {true};
        st.keys.emplace_back();
        st.vals.emplace_back();
        std::vector<int64_t> entry;
        for (size_t k = 0; k < nk; ++k) entry.push_back(r.range(-1000, 1000));
        for (auto& t : p.targets) {
          Val v = gen_val(r, t);
          int64_t a = 0, b = 0;
          write_cell((int8_t*)&a, (int8_t*)&b, t, v, false);
          st.vals[0].push_back(v);
          entry.push_back(a);
          if (t.width2) entry.push_back(b);
        }
        rs.invalidateCachedRowCount();
        rs.fillOneEntry(entry);
        if (rs.rowCount() != 1) bad("one entry", cat(rs.rowCount(), " rows"));
        auto row = rs.getNextRow(true, false);
        if (row.empty()) bad("one entry", "no row");
        else check_row(row, p, st, 0, true, false, "one entry");
        if (!rs.getNextRow(true, false).empty()) bad("one entry", "more than one row");
        ev("one_entry");
      }
      break;
    }
    default: {  // a single integer column, and the printed rows
      Plan p;
      p.type = QueryDescriptionType::Projection;
      p.group_widths = {8};
      const size_t nt = r.chance(40) ? 1 : (size_t)r.range(1, 4);
      for (size_t i = 0; i < nt; ++i) {
        Target t;
        const bool nl = r.chance(70);
        switch (i ? r.below(6) : 0) {
          case 0: t.kind = KInt; t.ti = mk(false, AggType::kMin, c.integer((int)r.pick({1, 2, 4, 8}), nl), nullptr, false); break;
          case 1: t.kind = KFp; t.ti = mk(false, AggType::kMin, c.fp64(nl), nullptr, false); break;
          case 2: t.kind = KDict; t.ti = mk(false, AggType::kMin, c.extDict(c.text(nl), 7, 4), nullptr, false); break;
          case 3: t.kind = KText; t.ti = mk(false, AggType::kMin, c.text(nl), nullptr, false); t.width2 = 8; break;
          case 4: t.kind = KFp; t.ti = mk(false, AggType::kMin, c.fp32(nl), nullptr, false); break;
          default: t.kind = KArr; t.ti = mk(false, AggType::kMin, c.arrayVarLen(c.integer((int)r.pick({2, 4, 8})), 4, nl), nullptr, false); t.width2 = 8;
        }
        t.width = 8;
        p.targets.push_back(t);
      }
      DESC = pdesc(p);
      note("api " + DESC);
      int64_t serial = 1;
      std::vector<TargetInfo> tis;
      for (auto& t : p.targets) tis.push_back(t.ti);
      Storage st = gen_storage(r, p, 20, serial);
      for (auto& row : st.vals)
        for (auto& v : row) {
          if (v.f != std::floor(v.f) || std::fabs(v.f) > 1e5) v.f = std::floor(std::fmod(v.f, 1000));
          for (auto& ch : v.s)
            if (ch == '\0' || ch == '\xff') ch = 'q';
        }
      auto q = make_qmd(p, st.entries, true);
      auto b = std::make_shared<std::vector<int8_t>>(q.getBufferSizeBytes(ExecutorDeviceType::CPU), 0x77);
      keepers.push_back(b);
      fill(b->data(), p, make_qmd(p, st.entries, false), st);
      ResultSet rs(tis, ExecutorDeviceType::CPU, q, w.mo, nullptr, 0, 0);
      rs.allocateStorage(b->data(), std::vector<int64_t>(q.getSlotCount(), -1));
      std::string want;
      for (size_t e = 0; e < st.entries; ++e) {
        auto one = rs.getOneColRow(e);
        const Val& v0 = st.vals[e][0];
        if (one.valid != st.used[e] || (st.used[e] && one.value != (v0.null ? inline_int_null_value(tis[0].type) : v0.i))) bad("single column", cat("entry ", e, " got ", one.value));
        if (!st.used[e]) continue;
        for (size_t t = 0; t < nt; ++t) {
          const Val& v = st.vals[e][t];
          if (t) want += "|";
          if (p.targets[t].kind == KDict) want += v.null ? "idx:null, str:\"\"" : cat("idx:", v.i, ", str:\"", w.strs[v.i], "\"");
          else if (v.null) want += "null";
          else if (p.targets[t].kind == KInt) want += cat(v.i);
          else if (p.targets[t].kind == KFp) want += cat(v.f);
          else if (p.targets[t].kind == KText) want += v.s;
          else {
            want += "[";
            for (auto& x : v.arr) want += cat(x.i, ",");
            want += "]";
          }
        }
        want += "\n";
        ev("printed_row");
      }
      const auto got = rs.contentToString(false);
      if (got != want) bad("printed rows", "got " + got.substr(0, 300) + " expected " + want.substr(0, 300));
      const auto full = rs.contentToString(true);
      if (full.size() < got.size() || full.substr(full.size() - got.size()) != got) bad("printed rows", "with header differ");
      const bool lim = r.chance(50);
      if (lim) rs.keepFirstN((size_t)r.range(1, 5));
      if (rs.isTruncated() != lim) bad("truncated", "flag");
      const auto sum = rs.summaryToString();
      if (sum.find(cat("Rows: ", rs.rowCount(), "\n")) == std::string::npos || sum.find(cat("Columns: ", nt, "\n")) == std::string::npos) bad("summary", sum);
      if (rs.hasColNames()) bad("names", "before they are set");
      std::vector<std::string> names;
      for (size_t t = 0; t < nt; ++t) names.push_back(cat("n", r.below(1000)));
      rs.setColNames(names);
      if (!rs.hasColNames() || rs.getColNames() != names || rs.colName(nt - 1) != names.back()) bad("names", "differ");
      auto [bm, cnt] = rs.getSingleSlotTargetBitmap();
      size_t exp = 0;
      for (size_t t = 0; t < nt; ++t) {
        exp += !p.targets[t].width2;
        if (bm.size() != nt || bm[t] != !p.targets[t].width2) { bad("single slots", cat("target ", t)); break; }
      }
      if (cnt != exp) bad("single slots", cat(cnt, " of ", exp));
    }
  }
  distinct(DESC);
  eval();
}
static void mode_api() {
  const long n = st().thorough ? 30000 : 1500;
  for (long c = 0; c < n && !too_many(); ++c) {
    if (st().only_case >= 0 && c != st().only_case) continue;
    CASE = c;
    Rng r = case_rng(c);
    api_case(r);
    if (c % 300 == 0) sample(DESC);
  }
}
static void mode_layout() {
  const long n = st().thorough ? 400000 : 40000;
  for (long c = 0; c < n && !too_many(); ++c) {
    if (st().only_case >= 0 && c != st().only_case) continue;
    CASE = c;
    Rng r = case_rng(c);
    layout_case(r);
    if (c % 10000 == 0) sample(DESC);
  }
}

// ---------------------------------------------------------------------------------------------------- lazy
// A projection over a fragmented table: lazily fetched targets hold row positions and are read from the fragments.
struct LCol {
  Target t;
  const hdk::ir::Type* stored;           // type of the column in the fragments
  std::vector<Val> vals;                 // per table row
  std::vector<std::vector<int8_t>> data; // per fragment
  std::vector<std::vector<int8_t>> second;
  std::vector<std::unique_ptr<ChunkIter>> iters;
};
static void lazy_case(Rng& r) {
  std::vector<std::shared_ptr<std::vector<int8_t>>> keepers;
  KEEP = &keepers;
  auto& c = cx();
  auto& w = world();
  Plan p;
  p.type = QueryDescriptionType::Projection;
  p.columnar = r.chance(50);
  p.group_widths = {8};
  const size_t nst = r.chance(40) ? (size_t)r.range(2, 3) : 1;
  const size_t nt = (size_t)r.range(1, 5);
  std::vector<bool> lazy(nt);
  std::vector<const hdk::ir::Type*> stored(nt, nullptr);
  for (size_t i = 0; i < nt; ++i) {
    Target t;
    lazy[i] = r.chance(70);
    if (!lazy[i]) t = gen_target(r, true, p.columnar, 8);
    else {
      const bool nl = r.chance(70);
      switch (r.below(8)) {
        case 0: case 1: t.kind = KInt; stored[i] = c.integer((int)r.pick({1, 2, 4, 8}), nl); break;
        case 2: t.kind = KFp; stored[i] = r.chance(50) ? (const hdk::ir::Type*)c.fp32(nl) : c.fp64(nl); break;
        case 3: t.kind = KDec; stored[i] = c.decimal64(15, (int)r.below(6), nl); break;
        case 4: t.kind = KDict; stored[i] = c.extDict(c.text(nl), 7, (int)r.pick({1, 2, 4})); break;
        case 5: t.kind = KText; stored[i] = c.text(true); break;
        case 6:
          t.kind = KInt;
          switch (r.below(4)) {
            case 0: stored[i] = c.timestamp(hdk::ir::TimeUnit::kSecond, nl); break;
            case 1: stored[i] = c.boolean(nl); break;
            case 2: stored[i] = c.date16(hdk::ir::TimeUnit::kDay, nl); break;
            default: stored[i] = c.date32(hdk::ir::TimeUnit::kDay, nl);
          }
          break;
        default: {
          const hdk::ir::Type* et = r.chance(30) ? (const hdk::ir::Type*)c.fp64() : r.chance(30) ? (const hdk::ir::Type*)c.extDict(c.text(), 7, 4) : (const hdk::ir::Type*)c.integer((int)r.pick({1, 2, 4, 8}));
          t.kind = KArr;
          stored[i] = c.arrayVarLen(et, 4, true);
        }
      }
      const bool days = stored[i]->isDate() && stored[i]->size() < 8;  // kept as days, read as seconds
      t.ti = mk(false, AggType::kMin, t.kind == KDict ? c.extDict(c.text(stored[i]->nullable()), 7, 4) : days ? c.date64(hdk::ir::TimeUnit::kSecond, nl) : stored[i], nullptr, false);
      t.width = 8;
      if (t.kind == KText || t.kind == KArr) t.width2 = 8;
      t.lazy = true;
    }
    p.targets.push_back(t);
  }
  DESC = pdesc(p);
  note("lazy " + DESC);
  std::vector<TargetInfo> tis;
  std::vector<ColumnLazyFetchInfo> info;
  // several targets may read the same table column
  std::vector<int> local(nt);
  for (size_t i = 0; i < nt; ++i) local[i] = (int)i;
  std::shuffle(local.begin(), local.end(), r);
  for (size_t i = 0; i < nt; ++i) {
    tis.push_back(p.targets[i].ti);
    info.push_back(ColumnLazyFetchInfo{(bool)lazy[i], lazy[i] ? local[i] : -1, lazy[i] ? stored[i] : nullptr});
  }
  std::vector<Storage> st;
  std::vector<std::unique_ptr<LCol>> cols;
  std::unique_ptr<ResultSet> rs;
  size_t nfrag = 0, es = 0, rows = 0;
  bool even = false;
  std::vector<size_t> fs, start;
  ColBuffers bufs;
  std::vector<LCol*> here;
  FragOffsetsPtr op;
  for (size_t k = 0; k < nst; ++k) {
    const bool shared = k && r.chance(40);  // several kernels over the same fragments
    if (shared) ev("shared_fragments");
    else {
      nfrag = (size_t)r.range(1, 5);
      even = r.chance(40);
      es = (size_t)r.range(1, 8);
      rows = 0;
      fs.clear();
      start.clear();
      for (size_t f = 0; f < nfrag; ++f) {
        fs.push_back(even ? (f + 1 < nfrag ? es : (size_t)r.range(1, (int64_t)es)) : (size_t)r.range(1, 9));
        start.push_back(rows);
        rows += fs.back();
      }
      bufs.assign(nfrag, std::vector<const int8_t*>(nt, nullptr));
      here.assign(nt, nullptr);
    }
    for (size_t i = 0; i < nt && !shared; ++i) {
      if (!lazy[i]) continue;
      auto col = std::make_unique<LCol>();
      col->t = p.targets[i];
      for (size_t x = 0; x < rows; ++x) {
        Val v = gen_val(r, col->t);
        if (col->t.kind == KText && v.s.empty()) v.null = true;  // stored text does not tell an empty string from NULL
        if (stored[i]->isDate()) v.i = r.range(stored[i]->size() == 2 ? -32767 : -1000000, stored[i]->size() == 2 ? 32767 : 1000000) * 86400;
        if (stored[i]->isExtDictionary() && stored[i]->size() == 1) v.i %= 255;
        col->vals.push_back(v);
      }
      for (size_t f = 0; f < nfrag; ++f) {
        std::vector<int8_t> d, sec;
        if (col->t.kind == KText || col->t.kind == KArr) {
          std::vector<int32_t> off;
          int32_t pos = col->t.kind == KArr ? 8 : 0;
          sec.resize(pos);
          off.push_back(pos);
          for (size_t x = 0; x < fs[f]; ++x) {
            const Val& v = col->vals[start[f] + x];
            if (!v.null) {
              if (col->t.kind == KText) sec.insert(sec.end(), v.s.begin(), v.s.end());
              else {
                int8_t a[8], b[8];
                write_cell(a, b, col->t, v, false);
                int64_t ptr;
                memcpy(&ptr, a, 8);
                const size_t n = v.arr.size() * stored[i]->as<hdk::ir::ArrayBaseType>()->elemType()->size();
                sec.insert(sec.end(), (int8_t*)ptr, (int8_t*)ptr + n);
              }
            }
            off.push_back(v.null && col->t.kind == KArr ? -(int32_t)sec.size() : (int32_t)sec.size());
          }
          d.resize(off.size() * 4);
          memcpy(d.data(), off.data(), d.size());
          col->data.push_back(std::move(d));
          col->second.push_back(std::move(sec));
          auto it = std::make_unique<ChunkIter>();
          memset(it.get(), 0, sizeof(ChunkIter));
          it->type_id = (int)stored[i]->id();
          it->type_size = (int)stored[i]->size();
          it->type_nullable = stored[i]->nullable();
          it->second_buf = col->second.back().data();
          it->start_pos = it->current_pos = col->data.back().data();
          it->end_pos = it->start_pos + (fs[f] + 1) * 4;
          it->skip = 1;
          it->skip_size = 0;
          it->num_elems = fs[f];
          bufs[f][local[i]] = (const int8_t*)it.get();
          col->iters.push_back(std::move(it));
        } else {
          const size_t sz = stored[i]->size();
          d.resize(sz * fs[f]);
          for (size_t x = 0; x < fs[f]; ++x) {
            const Val& v = col->vals[start[f] + x];
            int8_t* q = &d[x * sz];
            if (stored[i]->isFp32()) { float y = v.null ? NULL_FLOAT : (float)v.f; memcpy(q, &y, 4); }
            else if (stored[i]->isFp64()) { double y = v.null ? NULL_DOUBLE : v.f; memcpy(q, &y, 8); }
            else wput(q, (int)sz, v.null ? inline_fixed_encoding_null_value(stored[i]) : stored[i]->isDate() ? v.i / 86400 : v.i);
          }
          col->data.push_back(std::move(d));
          bufs[f][local[i]] = col->data.back().data();
        }
      }
      // the vectors do not move any more
      here[i] = col.get();
      for (size_t f = 0; f < nfrag; ++f)
        if (!col->iters.empty()) {
          col->iters[f]->second_buf = col->second[f].data();
          col->iters[f]->start_pos = col->iters[f]->current_pos = col->data[f].data();
        } else bufs[f][local[i]] = col->data[f].data();
      cols.push_back(std::move(col));
    }
    // rows of the result: positions of the table, any order as parallel kernels leave it
    Storage s;
    s.entries = (size_t)r.range(1, 30);
    const size_t used = r.chance(20) ? s.entries : r.below(s.entries + 1);
    std::vector<int64_t> pos;
    for (size_t e = 0; e < s.entries; ++e) {
      pos.push_back((int64_t)r.below(rows));
      if (r.chance(30)) pos.back() = (int64_t)r.pick(start);
      s.used.push_back(e < used);
      s.keys.push_back({pos.back()});
      s.vals.emplace_back();
      for (size_t i = 0; i < nt; ++i) s.vals.back().push_back(lazy[i] ? here[i]->vals[pos.back()] : gen_val(r, p.targets[i]));
    }
    auto q = make_qmd(p, s.entries, false);
    const size_t size = q.getBufferSizeBytes(ExecutorDeviceType::CPU);
    auto b = std::make_shared<std::vector<int8_t>>(size, 0x77);
    keepers.push_back(b);
    // positions instead of values for the lazy targets
    for (size_t e = 0; e < s.entries; ++e) {
      int8_t* row = p.columnar ? nullptr : b->data() + e * q.getRowSize();
      auto slot = [&](size_t x) { return p.columnar ? b->data() + q.getColOffInBytes(x) + e * q.getPaddedSlotWidthBytes(x) : row + q.getColOffInBytes(x); };
      wput(p.columnar ? b->data() + e * 8 : row, 8, s.used[e] ? pos[e] : EMPTY_KEY_64);
      for (size_t i = 0, x = 0; i < nt; ++i) {
        auto& t = p.targets[i];
        if (s.used[e]) {
          if (lazy[i]) wput(slot(x), 8, pos[e]);
          else write_cell(slot(x), t.width2 ? slot(x + 1) : nullptr, t, s.vals[e][i], p.columnar);
        }
        x += t.width2 ? 2 : 1;
      }
    }
    std::vector<std::vector<int64_t>> offs(nfrag);
    std::vector<int64_t> sizes;
    for (size_t i = 0; i < nt; ++i) sizes.push_back(even && nfrag > 1 ? (int64_t)es : -1);
    for (size_t f = 0; f < nfrag; ++f)
      for (size_t i = 0; i < nt; ++i) offs[f].push_back((int64_t)start[f]);
    // a table of one fragment passes its only buffers
    auto cb = std::make_shared<const ColBuffers>(bufs);
    if (!shared || r.chance(30)) op = std::make_shared<const FragOffsets>(offs);
    auto one = std::make_unique<ResultSet>(tis, info, cb, op, std::make_shared<const FragSizes>(sizes), ExecutorDeviceType::CPU, 0, q, w.mo, nullptr, 0u, 0u);
    std::vector<int64_t> init(q.getSlotCount(), -1);
    one->allocateStorage(b->data(), init);
    st.push_back(std::move(s));
    if (!rs) rs = std::move(one);
    else rs->append(*one);
    ev(even ? "even_fragments" : "uneven_fragments");
    ev("fragments", nfrag);
  }
  std::vector<RowRef> all, entry_of;
  for (size_t k = 0; k < nst; ++k)
    for (size_t e = 0; e < st[k].entries; ++e) {
      entry_of.push_back({k, e});
      if (st[k].used[e]) all.push_back({k, e});
    }
  const bool strings = r.chance(50), dd = r.chance(50);
  if (rs->rowCount() != all.size()) bad("lazy row count", cat(rs->rowCount(), " of ", all.size()));
  rs->moveToBegin();
  size_t n = 0;
  for (;; ++n) {
    auto row = rs->getNextRow(strings, dd);
    if (row.empty()) break;
    if (n >= all.size()) { ++n; break; }
    check_row(row, p, st[all[n].first], all[n].second, strings, dd, "lazy getNextRow");
    ev("lazy_row");
  }
  if (n != all.size()) bad("lazy rows", cat(n, " of ", all.size()));
  for (size_t g = 0; g < entry_of.size(); ++g) {
    auto [k, e] = entry_of[g];
    auto row = rs->getRowAt(g);
    if (st[k].used[e] == row.empty()) { bad("lazy emptiness", cat("entry ", g)); continue; }
    if (!row.empty()) check_row(row, p, st[k], e, true, false, "lazy getRowAt");
  }
  if (r.chance(30)) {
    auto cp = rs->shallowCopy();
    for (n = 0; n < all.size(); ++n) {
      auto row = cp->getNextRow(strings, dd);
      if (row.empty()) { bad("lazy copy", "ends early"); break; }
      check_row(row, p, st[all[n].first], all[n].second, strings, dd, "lazy copy");
    }
    ev("lazy_copy");
  }
  auto check_acc = [&](auto& acc) {
    for (size_t g = 0; g < entry_of.size(); ++g) {
      auto [k, e] = entry_of[g];
      if (!st[k].used[e]) continue;
      auto f = rs->findStorage(g);
      for (size_t t = 0; t < nt; ++t) {
        auto& tg = p.targets[t];
        const Val& v = st[k].vals[e][t];
        if (tg.kind == KArr || (!tg.lazy && tg.kind == KText && v.null)) continue;
        auto iv = acc.getColumnInternal(f.storage_ptr->getUnderlyingBuffer(), e, t, f);
        bool ok = true;
        if (tg.kind == KText) ok = v.null ? ResultSet::isNull(tg.ti.type, iv, false) : iv.isStr() && iv.i1 && *reinterpret_cast<const std::string*>(iv.i1) == v.s;
        else if (tg.kind == KFp) {
          if (tg.lazy || tg.ti.type->isFp64()) {
            double x;
            memcpy(&x, &iv.i1, 8);
            ok = x == (v.null ? (tg.ti.type->isFp32() ? (double)NULL_FLOAT : NULL_DOUBLE) : v.f);
          }
        } else ok = iv.isInt() && iv.i1 == (v.null ? (tg.kind == KDict ? (int64_t)NULL_INT : inline_int_null_value(tg.ti.type)) : v.i);
        if (!ok) bad(tg.lazy ? "lazy accessor value" : "accessor value", cat("entry ", g, " target ", t, " got ", iv.i1, "/", iv.i2, " expected ", vstr(v)));
        ev("lazy_accessor");
      }
    }
  };
  if (p.columnar) {
    ResultSet::ColumnWiseTargetAccessor a(rs.get());
    check_acc(a);
  } else {
    ResultSet::RowWiseTargetAccessor a(rs.get());
    check_acc(a);
  }
  for (size_t t = 0; t < nt; ++t)
    if (lazy[t] && p.targets[t].kind == KText) {
      std::vector<int32_t> o(all.size() + 2, 0x5555);
      if (rs->computeVarLenOffsets(t, o.data()) != all.size() + 1) { bad("lazy offsets", "count"); continue; }
      int32_t at = 0;
      for (size_t i = 0; i < all.size(); ++i) {
        const Val& v = st[all[i].first].vals[all[i].second][t];
        at += v.null ? 0 : (int32_t)v.s.size();
        if (std::abs(o[i + 1]) != at) { bad("lazy offsets", cat("row ", i, " ends at ", o[i + 1], " expected ", at)); break; }
      }
      ev("lazy_offsets");
    }
  if (rs->areAnyColumnsLazyFetched() != (std::count(lazy.begin(), lazy.end(), true) > 0)) bad("lazy flags", "any");
  if (rs->getNumColumnsLazyFetched() != (size_t)std::count(lazy.begin(), lazy.end(), true)) bad("lazy flags", "number");
  distinct(DESC);
  eval();
}
static void mode_lazy() {
  const long n = st().thorough ? 60000 : 6000;
  for (long c = 0; c < n && !too_many(); ++c) {
    if (st().only_case >= 0 && c != st().only_case) continue;
    CASE = c;
    Rng r = case_rng(c);
    lazy_case(r);
    if (c % 1000 == 0) sample(DESC);
  }
}
// ---------------------------------------------------------------------------------------------------- rconc
// Threads share one result set: the cursor hands out every row exactly once; reads by index are unaffected.
static void rconc_case(Rng& r) {
  std::vector<std::shared_ptr<std::vector<int8_t>>> keepers;
  KEEP = &keepers;
  Plan p = gen_plan(r);
  // a unique number per row
  Target id;
  id.kind = KInt;
  id.ti = mk(false, AggType::kMin, cx().int64(false), nullptr, false);
  id.width = 8;
  p.targets.push_back(id);
  if (!p.groupby_idx.empty()) p.groupby_idx.push_back(-1);
  DESC = pdesc(p);
  note("rconc " + DESC);
  std::vector<TargetInfo> tis;
  for (auto& t : p.targets) tis.push_back(t.ti);
  int64_t serial = 1;
  std::vector<Storage> st;
  std::unique_ptr<ResultSet> rs;
  std::vector<RowRef> all;
  const size_t nst = (size_t)r.range(1, 3);
  for (size_t k = 0; k < nst; ++k) {
    st.push_back(gen_storage(r, p, 120, serial));
    auto& s = st.back();
    for (size_t e = 0; e < s.entries; ++e) {
      const auto& k0 = s.keys[e][0];
      if (p.type == QueryDescriptionType::GroupByBaselineHash && (k0 == EMPTY_KEY_64 || (p.key_width == 4 && (int32_t)k0 == EMPTY_KEY_32))) s.used[e] = false;
      s.vals[e].back().null = false;
      s.vals[e].back().i = (int64_t)all.size();
      if (s.used[e]) all.push_back({k, e});
    }
    auto raw = make_qmd(p, s.entries, false);
    auto b = std::make_shared<std::vector<int8_t>>(raw.getBufferSizeBytes(ExecutorDeviceType::CPU), p.targets[0].width == 4 ? 0 : 0x77);
    keepers.push_back(b);
    fill(b->data(), p, raw, s);
    auto one = std::make_unique<ResultSet>(tis, ExecutorDeviceType::CPU, make_qmd(p, s.entries, true), world().mo, nullptr, 0, 0);
    std::vector<int64_t> init;
    for (auto& t : p.targets) {
      init.push_back(t.ti.is_agg && t.ti.agg_kind == AggType::kCount ? 0 : -1);
      if (t.width2) init.push_back(0);
    }
    one->allocateStorage(b->data(), init);
    if (!rs) rs = std::move(one);
    else rs->append(*one);
  }
  const size_t off = r.chance(40) ? r.below(all.size() + 1) : 0, lim = r.chance(40) ? r.below(all.size() + 2) : 0;
  rs->keepFirstN(lim);
  rs->dropFirstN(off);
  std::vector<RowRef> want;
  for (size_t i = off; i < all.size() && (!lim || want.size() < lim); ++i) want.push_back(all[i]);
  const int nth = (int)r.range(2, 5);
  std::vector<std::vector<int64_t>> got(nth);
  std::vector<std::string> err(nth);
  std::vector<uint64_t> seeds;
  for (int t = 0; t < nth; ++t) seeds.push_back(r.next());
  std::vector<std::thread> th;
  const bool strings = r.chance(50);
  for (int t = 0; t < nth; ++t)
    th.emplace_back([&, t] {
      Rng q(seeds[t]);
      for (int guard = 0; guard < 1000; ++guard) {
        auto row = rs->getNextRow(strings, false);
        if (row.empty()) break;
        const auto* sc = boost::get<ScalarTargetValue>(&row.back());
        const auto* v = sc ? boost::get<int64_t>(sc) : nullptr;
        if (!v || *v < 0 || *v >= (int64_t)all.size()) { err[t] = "row number lost"; break; }
        got[t].push_back(*v);
        auto [k, e] = all[*v];
        for (size_t c = 0; c < p.targets.size(); ++c) {
          std::string g;
          if (!same(row[c], p.targets[c], st[k].vals[e][c], strings, false, &g)) err[t] = cat("row ", *v, " column ", c, " got ", g);
        }
        if (q.chance(30) && rs->rowCount() != want.size()) err[t] = cat("row count ", rs->rowCount());
        if (q.chance(20) && rs->isEmpty() != want.empty()) err[t] = "emptiness";
      }
    });
  for (auto& t : th) t.join();
  std::set<int64_t> seen;
  size_t total = 0;
  for (int t = 0; t < nth; ++t) {
    if (!err[t].empty()) bad("shared result set", err[t]);
    for (size_t i = 0; i < got[t].size(); ++i) {
      ++total;
      if (!seen.insert(got[t][i]).second) bad("shared cursor", cat("row ", got[t][i], " given out twice"));
      if (i && got[t][i] < got[t][i - 1]) bad("shared cursor", "rows out of order within a thread");
    }
  }
  if (total != want.size()) bad("shared cursor", cat(total, " rows of ", want.size()));
  for (auto& x : want)
    if (!seen.count(st[x.first].vals[x.second].back().i)) { bad("shared cursor", "row missing"); break; }
  ev("shared_row", total);
  ev("threads", nth);
  eval();
  distinct(DESC);
}
static void mode_rconc() {
  const long n = st().thorough ? 12000 : 1200;
  for (long c = 0; c < n && !too_many(); ++c) {
    if (st().only_case >= 0 && c != st().only_case) continue;
    CASE = c;
    Rng r = case_rng(c);
    rconc_case(r);
    if (c % 300 == 0) sample(DESC);
  }
}
// ------------------------------------------------------------------------------------------------ sketch valued aggregates
// Distinct counts, quantiles and top-K lists live behind pointers (or in the slot itself): the cells are filled the way
// kernels fill them, the result set is optionally cut and finalized, and read back.
enum SKind { SCount, SKey, SBitmap, SSub, SHash, SHll, SDig, SQuant, STop };
struct STarget {
  SKind kind;
  TargetInfo ti;
  CountDistinctDescriptor cd{CountDistinctImplType::Invalid, 0, 0, false, ExecutorDeviceType::CPU, 1};
};
struct SCell {
  int64_t i = 0;
  double f = 0;
  bool null = false;
  std::vector<double> arr;
};
static void put_typed(int8_t* p, const hdk::ir::Type* t, double v) {
  if (t->isFp32()) { float x = (float)v; memcpy(p, &x, 4); }
  else if (t->isFp64()) memcpy(p, &v, 8);
  else wput(p, (int)t->canonicalSize(), (int64_t)v);
}
static void put_null(int8_t* p, const hdk::ir::Type* t) {
  if (t->isFp32()) { float x = NULL_FLOAT; memcpy(p, &x, 4); }
  else if (t->isFp64()) { double x = NULL_DOUBLE; memcpy(p, &x, 8); }
  else wput(p, (int)t->canonicalSize(), inline_int_null_value(t));
}
static void sketch_case(Rng& r) {
  auto& c = cx();
  const bool baseline = r.chance(40), global = !baseline && r.chance(15);
  const size_t nk = global ? 0 : baseline ? (size_t)r.range(1, 2) : 1;
  const size_t nt = (size_t)r.range(1, 5);
  std::vector<STarget> ts;
  bool any_quant = false;
  const auto elem = [&]() -> const hdk::ir::Type* {
    switch (r.below(6)) {
      case 0: return c.int8();
      case 1: return c.int16();
      case 2: return c.int32();
      case 3: return c.int64();
      case 4: return c.fp32();
      default: return c.fp64();
    }
  };
  for (size_t i = 0; i < nt; ++i) {
    STarget t;
    t.kind = (SKind)r.below(9);
    if (t.kind == SKey && !nk) t.kind = SCount;
    if (t.kind == SQuant && any_quant) t.kind = SHash;  // a quantile takes 64 KB per group
    switch (t.kind) {
      case SCount: t.ti = mk(true, AggType::kCount, c.int64(false), nullptr, false); break;
      case SKey: t.ti = mk(false, AggType::kMin, c.int64(), nullptr, false); break;
      case SBitmap: case SSub: case SHash: {
        t.ti = mk(true, AggType::kCount, c.int64(false), c.int64(), true);
        t.ti.is_distinct = true;
        const int64_t bits = r.range(1, 300);
        if (t.kind == SHash) t.cd = CountDistinctDescriptor{CountDistinctImplType::HashSet, 0, 0, false, ExecutorDeviceType::CPU, 1};
        else t.cd = CountDistinctDescriptor{CountDistinctImplType::Bitmap, r.range(-50, 50), bits, false, ExecutorDeviceType::CPU, t.kind == SSub ? (size_t)r.range(2, 6) : 1};
        break;
      }
      case SHll:
        t.ti = mk(true, AggType::kApproxCountDistinct, c.int64(false), c.int64(), true);
        t.ti.is_distinct = true;
        t.cd = CountDistinctDescriptor{CountDistinctImplType::Bitmap, 0, r.range(4, 9), true, ExecutorDeviceType::CPU, 1};
        break;
      case SDig: t.ti = mk(true, AggType::kApproxQuantile, c.fp64(), c.fp64(), true); break;
      case SQuant: {
        any_quant = true;
        auto a = elem();
        t.ti = mk(true, AggType::kQuantile, a, a, true);
        t.ti.quantile_param = r.pick({0.0, 0.25, 0.5, 0.75, 1.0});
        t.ti.interpolation = r.pick({hdk::ir::Interpolation::kLower, hdk::ir::Interpolation::kHigher, hdk::ir::Interpolation::kNearest, hdk::ir::Interpolation::kLinear});
        if (t.ti.interpolation == hdk::ir::Interpolation::kLinear && !a->isFp32()) t.ti.type = c.fp64();
        break;
      }
      case STop: {
        auto a = elem();
        t.ti = mk(true, AggType::kTopK, c.arrayVarLen(a, 4), a, true);
        t.ti.topk_param = (int)r.range(1, 7) * (r.chance(50) ? 1 : -1);
        t.ti.topk_inline_buffer = (size_t)a->canonicalSize() * std::abs(t.ti.topk_param) <= 8;
        break;
      }
    }
    ts.push_back(t);
  }
  std::vector<TargetInfo> tis;
  CountDistinctDescriptors cds;
  std::vector<int64_t> gidx;
  ColSlotContext slots;
  DESC = cat(global ? "no groups" : baseline ? "baseline hash" : "perfect hash");
  for (auto& t : ts) {
    tis.push_back(t.ti);
    cds.push_back(t.cd);
    const bool from_key = baseline && t.kind == SKey;
    gidx.push_back(from_key ? (int64_t)r.below(nk) : -1);
    slots.addColumn({{(int8_t)(from_key ? 0 : 8), (int8_t)(from_key ? 0 : 8)}});
    DESC += cat("; ", (int)t.kind, " ", t.ti.type->toString());
  }
  note("sketch " + DESC);
  auto mo = std::make_shared<RowSetMemoryOwner>(new NoProvider(), size_t(1) << 20, 1);
  const auto mk_qmd = [&](size_t entries) {
    ColRangeInfo ri{global ? QueryDescriptionType::NonGroupedAggregate : baseline ? QueryDescriptionType::GroupByBaselineHash : QueryDescriptionType::GroupByPerfectHash, 0, (int64_t)entries, 0, false};
    return QueryMemoryDescriptor(nullptr, nullptr, {}, any_quant, true, false, false, false, -1, ri, slots, std::vector<int8_t>(nk, 8), 8,
                                 baseline ? gidx : std::vector<int64_t>{}, entries, cds, false, false, false, false);
  };
  const bool big = !global && r.chance(15);
  const size_t nst = global ? 1 : (size_t)r.range(1, 3);
  std::vector<std::shared_ptr<std::vector<int64_t>>> buffs;
  std::unique_ptr<ResultSet> rs;
  std::vector<std::vector<SCell>> rows;  // non-empty entries in order
  std::vector<int> entry_row;
  int64_t serial = 0;
  for (size_t k = 0; k < nst; ++k) {
    const size_t n = global ? 1 : (size_t)r.range(1, big ? 260 : 30);
    auto q = mk_qmd(n);
    if (q.didOutputColumnar()) return bad("layout", "columnar output with distinct or quantile targets");
    auto b = std::make_shared<std::vector<int64_t>>(q.getBufferSizeBytes(ExecutorDeviceType::CPU) / 8, 0x6b6b6b6b);
    buffs.push_back(b);
    const int dens = (int)r.pick({10, 50, 100});
    for (size_t e = 0; e < n; ++e) {
      int8_t* row = (int8_t*)b->data() + e * q.getRowSize();
      const bool used = global || r.chance(dens);
      std::vector<int64_t> key;
      for (size_t x = 0; x < nk; ++x) {
        key.push_back(++serial * 7 - 90);
        wput(row + x * 8, 8, used ? key[x] : EMPTY_KEY_64);
      }
      entry_row.push_back(used ? (int)rows.size() : -1);
      if (!used) continue;
      std::vector<SCell> cells;
      for (size_t t = 0; t < ts.size(); ++t) {
        SCell v;
        auto& tg = ts[t];
        int8_t* p = row + q.getColOffInBytes(t);
        const size_t cnt = r.chance(15) ? 0 : r.below(12);
        switch (tg.kind) {
          case SCount: v.i = r.range(0, 1000000); wput(p, 8, v.i); break;
          case SKey:
            if (baseline) v.i = key[gidx[t]];
            else wput(p, 8, v.i = r.range(-1000, 1000));
            break;
          case SBitmap: case SSub: {
            const size_t sz = tg.cd.bitmapPaddedSizeBytes();
            auto bm = std::make_shared<std::vector<int8_t>>(sz + 0, 0);
            KEEP->push_back(bm);
            std::set<int64_t> seen;
            for (size_t x = 0; x < cnt; ++x) {
              const int64_t bit = r.range(0, tg.cd.bitmap_sz_bits - 1);
              const size_t sub = r.below(tg.cd.sub_bitmap_count);
              (*bm)[sub * (sz / tg.cd.sub_bitmap_count) + bit / 8] |= (int8_t)(1 << (bit % 8));
              seen.insert(bit);
            }
            v.i = (int64_t)seen.size();
            wput(p, 8, (int64_t)bm->data());
            break;
          }
          case SHash: {
            auto hs = new robin_hood::unordered_set<int64_t>();
            mo->addCountDistinctSet(hs);
            std::set<int64_t> seen;
            for (size_t x = 0; x < cnt; ++x) {
              const int64_t y = r.range(-20, 20);
              hs->insert(y);
              seen.insert(y);
            }
            v.i = (int64_t)seen.size();
            wput(p, 8, (int64_t)hs);
            break;
          }
          case SHll: {
            auto bm = std::make_shared<std::vector<int8_t>>((size_t)1 << tg.cd.bitmap_sz_bits, 0);
            KEEP->push_back(bm);
            for (size_t x = 0; x < cnt * 4; ++x) (*bm)[r.below(bm->size())] = (int8_t)r.range(1, 20);
            v.i = (int64_t)hll_size((const int8_t*)bm->data(), tg.cd.bitmap_sz_bits);
            wput(p, 8, (int64_t)bm->data());
            break;
          }
          case SDig: {
            auto d = mo->nullTDigest(0.5), d2 = mo->nullTDigest(0.5);
            d->allocate();
            d2->allocate();
            for (size_t x = 0; x < cnt; ++x) {
              const double y = r.range(-100, 100) / 4.0;
              d->add(y);
              d2->add(y);
            }
            d2->mergeBuffer();
            v.null = cnt == 0;
            if (cnt) v.f = d2->quantile();
            wput(p, 8, (int64_t)d);
            break;
          }
          case SQuant: {
            auto qu = mo->quantiles(1);
            auto a = tg.ti.agg_arg_type;
            std::vector<double> all;
            for (size_t x = 0; x < cnt; ++x) {
              const double y = (double)r.range(-100, 100);
              all.push_back(y);
              if (a->isFp32()) qu->add<float>((float)y);
              else if (a->isFp64()) qu->add<double>(y);
              else if (a->size() == 1) qu->add<int8_t>((int8_t)y);
              else if (a->size() == 2) qu->add<int16_t>((int16_t)y);
              else if (a->size() == 4) qu->add<int32_t>((int32_t)y);
              else qu->add<int64_t>((int64_t)y);
            }
            std::sort(all.begin(), all.end());
            v.null = all.empty();
            if (!v.null) {
              const double pos = (all.size() - 1) * tg.ti.quantile_param, lo = all[(size_t)std::floor(pos)], hi = all[(size_t)std::ceil(pos)];
              v.f = tg.ti.interpolation == hdk::ir::Interpolation::kLower ? lo : tg.ti.interpolation == hdk::ir::Interpolation::kHigher ? hi
                    : tg.ti.interpolation == hdk::ir::Interpolation::kNearest ? all[(size_t)std::round(pos)] : lo + (hi - lo) * (pos - std::floor(pos));
            }
            wput(p, 8, (int64_t)qu);
            break;
          }
          case STop: {
            const int kk = std::abs(tg.ti.topk_param);
            auto a = tg.ti.agg_arg_type;
            const int w = (int)a->canonicalSize();
            int8_t* hp = p;
            if (!tg.ti.topk_inline_buffer) {
              hp = mo->topKBuffer((size_t)kk * w);
              wput(p, 8, (int64_t)hp);
            }
            std::vector<double> h;
            for (size_t x = 0; x < std::min<size_t>(cnt, kk); ++x) h.push_back((double)r.range(-100, 100));
            for (int x = 0; x < kk; ++x)
              if (x < (int)h.size()) put_typed(hp + x * w, a, h[x]);
              else put_null(hp + x * w, a);
            std::sort(h.begin(), h.end());
            if (tg.ti.topk_param > 0) std::reverse(h.begin(), h.end());
            v.arr = h;
            break;
          }
        }
        ev(cat("cell_", (int)tg.kind));
        cells.push_back(v);
      }
      rows.push_back(cells);
    }
    auto one = std::make_unique<ResultSet>(tis, ExecutorDeviceType::CPU, q, mo, nullptr, 0, 0);
    one->allocateStorage((int8_t*)b->data(), {});
    if (!rs) rs = std::move(one);
    else rs->append(*one);
  }
  const auto ok_row = [&](const std::vector<TargetValue>& row, const std::vector<SCell>& want, const char* how) {
    if (row.size() != want.size()) return bad(cat(how, ": columns"), cat(row.size(), " of ", want.size()));
    for (size_t t = 0; t < row.size(); ++t) {
      auto& tg = ts[t];
      auto& v = want[t];
      if (tg.kind == STop) {
        auto a = boost::get<ArrayTargetValue>(&row[t]);
        if (!a || !a->is_initialized()) { bad(cat(how, ": top list"), "not an array"); continue; }
        bool ok = a->get().size() == v.arr.size();
        for (size_t x = 0; ok && x < v.arr.size(); ++x) {
          auto& e = a->get()[x];
          auto et = tg.ti.agg_arg_type;
          if (et->isFp32()) { auto p = boost::get<float>(&e); ok = p && *p == (float)v.arr[x]; }
          else if (et->isFp64()) { auto p = boost::get<double>(&e); ok = p && *p == v.arr[x]; }
          else { auto p = boost::get<int64_t>(&e); ok = p && *p == (int64_t)v.arr[x]; }
        }
        if (!ok) bad(cat(how, ": top list"), cat("column ", t, " k ", tg.ti.topk_param, " of ", v.arr.size(), " kept values gives ", a->get().size()));
        continue;
      }
      auto sc = boost::get<ScalarTargetValue>(&row[t]);
      if (!sc) { bad(cat(how, ": scalar"), cat("column ", t)); continue; }
      if (tg.kind == SDig || tg.kind == SQuant) {
        auto ty = tg.ti.type;
        double got = 0;
        bool null = false, typed = true;
        if (ty->isFp32()) { auto p = boost::get<float>(sc); typed = p; if (p) got = *p, null = *p == NULL_FLOAT; }
        else if (ty->isFp64()) { auto p = boost::get<double>(sc); typed = p; if (p) got = *p, null = *p == NULL_DOUBLE; }
        else { auto p = boost::get<int64_t>(sc); typed = p; if (p) got = (double)*p, null = *p == inline_int_null_value(ty); }
        if (!typed) bad(cat(how, ": quantile"), cat("column ", t, " has another type"));
        else if (null != v.null || (!null && std::fabs(got - v.f) > 1e-9 * (1 + std::fabs(v.f)))) bad(cat(how, ": quantile"), cat("column ", t, " got ", got, " expected ", v.null ? std::string("NULL") : cat(v.f)));
        continue;
      }
      auto p = boost::get<int64_t>(sc);
      if (!p || *p != v.i) bad(cat(how, tg.kind <= SKey ? ": value" : ": distinct count"), cat("column ", t, " kind ", (int)tg.kind, " got ", p ? *p : -1, " expected ", v.i));
    }
    ev("sketch_row");
  };
  const auto by_entry = [&](const char* how) {
    for (size_t g = 0; g < entry_row.size(); ++g) {
      if (big && !r.chance(10)) continue;
      auto row = rs->getRowAt(g);
      if (row.empty() != (entry_row[g] < 0)) { bad(cat(how, ": emptiness"), cat("entry ", g)); continue; }
      if (entry_row[g] >= 0) ok_row(row, rows[entry_row[g]], how);
    }
  };
  size_t limit = 0, offset = 0;
  if (!global && r.chance(40)) {
    if (r.chance(70)) rs->keepFirstN(limit = 1 + r.below(rows.size() + 2));
    if (r.chance(60)) rs->dropFirstN(offset = r.below(rows.size() + 2));
  }
  const bool fin = r.chance(80);
  const bool early = !fin && r.chance(50);
  if (early) by_entry("before finalization");
  if (fin) {
    rs->finalizeAggregates();
    ev("finalized");
    if (big) ev("finalized_parallel");
  }
  size_t first = std::min(offset, rows.size()), cnt = rows.size() - first;
  if (limit) cnt = std::min(cnt, limit);
  if (rs->rowCount() != cnt) bad("row count", cat(rs->rowCount(), " rows instead of ", cnt, " (", rows.size(), " groups, limit ", limit, ", offset ", offset, fin ? ", finalized)" : ")"));
  rs->moveToBegin();
  for (size_t x = 0;; ++x) {
    auto row = rs->getNextRow(true, false);
    if (row.empty()) {
      if (x != cnt) bad("rows", cat(x, " rows instead of ", cnt));
      break;
    }
    if (x >= cnt) { bad("rows", cat("more than ", cnt)); break; }
    ok_row(row, rows[first + x], "getNextRow");
  }
  if (!limit && !offset) by_entry("getRowAt(entry)");
  if (!limit && !offset && !big) {
    // the lists as one variable length column: offsets add up to the sizes of the lists
    for (size_t t = 0; t < ts.size(); ++t)
      if (ts[t].kind == STop) {
        const auto w = (int)ts[t].ti.agg_arg_type->canonicalSize();
        std::vector<int32_t> off(rows.size() + 1, -1);
        rs->computeVarLenOffsets(t, off.data());
        int32_t want = 0;
        for (size_t x = 0; x < rows.size(); ++x) {
          if (off[x] != want) { bad("list offsets", cat("row ", x, " of column ", t, " got ", off[x], " expected ", want)); break; }
          want += (int32_t)rows[x][t].arr.size() * w;
        }
        if (off[rows.size()] != want) bad("list offsets", cat("end of column ", t, " got ", off[rows.size()], " expected ", want));
        ev("list_offsets");
      }
  }
  eval();
  distinct(DESC);
}
static void mode_sketch() {
  const long n = st().thorough ? 20000 : 1500;
  for (long c = 0; c < n && !too_many(); ++c) {
    if (st().only_case >= 0 && c != st().only_case) continue;
    CASE = c;
    std::vector<std::shared_ptr<std::vector<int8_t>>> keepers;
    KEEP = &keepers;
    Rng r = case_rng(c);
    sketch_case(r);
    if (c % 300 == 0) sample(DESC);
  }
}
int main(int argc, char** argv) {
  init(argc, argv);
  const std::string mode = st().mode;
  logger::LogOptions lo("h_rs");
  lo.severity_ = logger::Severity::FATAL;
  lo.severity_clog_ = logger::Severity::FATAL;
  logger::init(lo);
#ifdef VERIF_VARIANT_tsan
  tbb::global_control gc(tbb::global_control::max_allowed_parallelism, 1);
#endif
  if (mode == "rows") mode_rows();
  else if (mode == "layout") mode_layout();
  else if (mode == "api") mode_api();
  else if (mode == "lazy") mode_lazy();
  else if (mode == "rconc") mode_rconc();
  else if (mode == "sketch") mode_sketch();
  else return 3;
  return finish();
}
