// In-memory storage + engine wrapper used by the end-to-end harnesses (no Arrow needed).
#pragma once
#include "vh.h"

#include "DataMgr/AbstractDataProvider.h"
#include "DataMgr/DataMgr.h"
#include "DataMgr/DataMgrBufferProvider.h"
#include "DataMgr/DataMgrDataProvider.h"
#include "QueryBuilder/QueryBuilder.h"
#ifndef VERIF_NO_ENGINE
#include "QueryEngine/Execute.h"
#include "QueryEngine/RelAlgExecutor.h"
#include "ResultSetRegistry/ResultSetRegistry.h"
#include "ResultSetRegistry/ResultSetTableToken.h"
#endif
#include "SchemaMgr/SchemaMgr.h"
#include "SchemaMgr/SimpleSchemaProvider.h"
#include "Shared/InlineNullValues.h"

namespace ve {
using hdk::ir::Context;
using hdk::ir::Type;

struct Val {
  enum K { Null, Int, Fp, Str } k = Null;
  int64_t i = 0;
  double d = 0;
  std::string s;
  static Val null() { return {}; }
  static Val I(int64_t v) { Val r; r.k = Int; r.i = v; return r; }
  static Val D(double v) { Val r; r.k = Fp; r.d = v; return r; }
  static Val S(std::string v) { Val r; r.k = Str; r.s = std::move(v); return r; }
  bool isNull() const { return k == Null; }
  double num() const { return k == Fp ? d : (double)i; }
  std::string show() const {
    switch (k) {
      case Null: return "NULL";
      case Int: return std::to_string(i);
      case Fp: { char b[40]; snprintf(b, sizeof b, "%.9g", d); return b; }
      default: return vh::show(s);
    }
  }
  // exact ordering, NULL first
  int cmp(const Val& o) const {
    if (k != o.k) return k < o.k ? -1 : 1;
    switch (k) {
      case Null: return 0;
      case Int: return i < o.i ? -1 : i > o.i;
      case Fp: return d < o.d ? -1 : d > o.d;
      default: return s < o.s ? -1 : s > o.s;
    }
  }
  bool operator==(const Val& o) const { return cmp(o) == 0; }
  bool operator<(const Val& o) const { return cmp(o) < 0; }
};
using Row = std::vector<Val>;
using Rows = std::vector<Row>;
inline std::string show(const Row& r) {
  std::string s = "(";
  for (size_t i = 0; i < r.size(); ++i) s += (i ? "," : "") + r[i].show();
  return s + ")";
}
inline std::string show(const Rows& rs, size_t max = 12) {
  std::string s = "[" + std::to_string(rs.size()) + " rows]";
  for (size_t i = 0; i < rs.size() && i < max; ++i) s += show(rs[i]);
  return s;
}

struct ColDef {
  std::string name;
  const Type* type;
};

struct Column {
  std::string name;
  const Type* type = nullptr;
  std::vector<std::vector<int8_t>> raw;          // per fragment
  std::vector<std::vector<uint32_t>> offsets;    // varlen
  std::vector<std::vector<bool>> vnull;
};

constexpr int SCHEMA = 1;
constexpr int DB = (SCHEMA << 24) + 1;

class Storage : public SimpleSchemaProvider, public AbstractDataProvider {
 public:
  struct Table {
    std::string name;
    int id;
    std::vector<Column> cols;
    Rows rows;                       // logical contents, in order
    std::vector<size_t> frag_sizes;
    TableFragmentsInfo info;
  };
  Storage() : SimpleSchemaProvider(Context::defaultCtx(), SCHEMA, "v") {}

  std::vector<int> listDatabases() const override { return {DB}; }
  const Type* newDictType(int index_size = 4) {
    int id = addSchemaIdChecked(next_dict_++, SCHEMA);
    auto dd = std::make_unique<DictDescriptor>(DB, id, "d" + std::to_string(id), 32, true, 1, "", true);
    dd->stringDict = std::make_shared<StringDictionary>(DictRef{DB, id});
    dicts_[id] = std::move(dd);
    return ctx_.extDict(ctx_.text(), id, index_size);
  }
  StringDictionary* dict(const Type* t) {
    return dicts_.at(t->as<hdk::ir::ExtDictionaryType>()->dictId())->stringDict.get();
  }

  // frag_sizes must sum to rows.size()
  int addTable(const std::string& name, const std::vector<ColDef>& defs, const Rows& rows, std::vector<size_t> frags, int reuse_id = -1) {
    int id = reuse_id > 0 ? reuse_id : next_table_++;
    auto t = std::make_unique<Table>();
    t->name = name;
    t->id = id;
    t->rows = rows;
    t->frag_sizes = frags;
    if (reuse_id > 0) dropTable(DB, id);
    SimpleSchemaProvider::addTableInfo(DB, id, name, false, frags.size(), rows.size());
    int cid = 1;
    for (auto& d : defs) {
      addColumnInfo(DB, id, cid++, d.name, d.type, false);
      Column c;
      c.name = d.name;
      c.type = d.type;
      t->cols.push_back(std::move(c));
    }
    addRowidColumn(DB, id, cid);
    t->info.chunkKeyPrefix = {DB, id};
    size_t start = 0;
    TableStats ts;
    for (size_t f = 0; f < frags.size(); ++f) {
      auto& fi = t->info.fragments.emplace_back();
      fi.fragmentId = f + 1;
      fi.physicalTableId = id;
      fi.setPhysicalNumTuples(frags[f]);
      fi.deviceIds = {0, 0, 0};
      for (size_t c = 0; c < defs.size(); ++c) {
        ChunkStats st = fill(t->cols[c], rows, start, frags[f], c);
        size_t nb = t->cols[c].raw.back().size();
        auto md = std::make_shared<ChunkMetadata>(defs[c].type, nb, frags[f], st);
        fi.setChunkMetadata(c + 1, md);
        if (ts.count(c + 1)) mergeStats(ts.at(c + 1), st, defs[c].type);
        else ts.emplace(c + 1, st);
      }
      start += frags[f];
    }
    t->info.setPhysicalNumTuples(rows.size());
    t->info.setTableStats(ts);
    std::lock_guard<std::mutex> g(m_);
    tables_[id] = std::move(t);
    return id;
  }
  Table& table(int id) { return *tables_.at(id); }
  void drop(int id) {
    dropTable(DB, id);
    std::lock_guard<std::mutex> g(m_);
    tables_.erase(id);
  }

  void fetchBuffer(const ChunkKey& key, Data_Namespace::AbstractBuffer* dest, const size_t num_bytes) override {
    std::lock_guard<std::mutex> g(m_);
    auto& t = *tables_.at(key[CHUNK_KEY_TABLE_IDX]);
    auto& c = t.cols.at(key[CHUNK_KEY_COLUMN_IDX] - 1);
    size_t f = key[CHUNK_KEY_FRAGMENT_IDX] - 1;
    dest->reserve(num_bytes);
    if (!num_bytes) {
      if (c.type->isVarLen() && key[CHUNK_KEY_VARLEN_IDX] == 1 && !dest->hasEncoder()) dest->initEncoder(c.type);
      dest->setSize(0);
      return;
    }
    if (!c.type->isVarLen()) {
      memcpy(dest->getMemoryPtr(), c.raw.at(f).data(), std::min(num_bytes, c.raw.at(f).size()));
    } else if (key[CHUNK_KEY_VARLEN_IDX] == 1) {
      if (!dest->hasEncoder()) dest->initEncoder(c.type);
      memcpy(dest->getMemoryPtr(), c.raw.at(f).data(), std::min(num_bytes, c.raw.at(f).size()));
    } else {
      memcpy(dest->getMemoryPtr(), c.offsets.at(f).data(), std::min(num_bytes, c.offsets.at(f).size() * 4));
    }
    dest->setSize(num_bytes);
    fetches++;
  }
  std::shared_ptr<const TableFragmentsInfo> getTableMetadata(int db_id, int table_id) const override {
    std::lock_guard<std::mutex> g(m_);
    return std::make_shared<TableFragmentsInfo>(tables_.at(table_id)->info);
  }
  const DictDescriptor* getDictMetadata(int dict_id, bool load = true) override {
    auto it = dicts_.find(dict_id);
    return it == dicts_.end() ? nullptr : it->second.get();
  }
  std::atomic<uint64_t> fetches{0};

 private:
  template <class T>
  static void put(std::vector<int8_t>& b, T v) {
    size_t n = b.size();
    b.resize(n + sizeof(T));
    memcpy(b.data() + n, &v, sizeof(T));
  }
  ChunkStats fill(Column& c, const Rows& rows, size_t start, size_t n, size_t ci) {
    auto& raw = c.raw.emplace_back();
    ChunkStats st;
    memset(&st.min, 0, sizeof st.min);
    memset(&st.max, 0, sizeof st.max);
    st.has_nulls = false;
    auto t = c.type;
    if (t->isText() || t->isVarChar()) {
      auto& off = c.offsets.emplace_back();
      off.push_back(0);
      for (size_t r = start; r < start + n; ++r) {
        auto& v = rows[r][ci];
        if (v.isNull()) st.has_nulls = true;
        else raw.insert(raw.end(), v.s.begin(), v.s.end());
        off.push_back(raw.size());
      }
      return st;
    }
    int64_t mn = std::numeric_limits<int64_t>::max(), mx = std::numeric_limits<int64_t>::lowest();
    double dmn = std::numeric_limits<double>::max(), dmx = std::numeric_limits<double>::lowest();
    bool is_fp = t->isFloatingPoint();
    int sz = t->size();
    for (size_t r = start; r < start + n; ++r) {
      auto& v = rows[r][ci];
      if (is_fp) {
        if (v.isNull()) st.has_nulls = true;
        else { dmn = std::min(dmn, v.d); dmx = std::max(dmx, v.d); }
        if (sz == 4) put<float>(raw, v.isNull() ? inline_fp_null_value<float>() : (float)v.d);
        else put<double>(raw, v.isNull() ? inline_fp_null_value<double>() : v.d);
        continue;
      }
      int64_t x;
      if (v.isNull()) {
        st.has_nulls = true;
        if (t->isExtDictionary())
          x = sz == 1 ? 255 : sz == 2 ? 65535 : inline_int_null_value<int32_t>();
        else
          x = sz == 1 ? inline_int_null_value<int8_t>() : sz == 2 ? inline_int_null_value<int16_t>()
              : sz == 4 ? inline_int_null_value<int32_t>() : inline_int_null_value<int64_t>();
      } else {
        x = t->isExtDictionary() ? dict(t)->getOrAdd(v.s) : v.i;
        mn = std::min(mn, x);
        mx = std::max(mx, x);
      }
      switch (sz) {
        case 1: put<int8_t>(raw, x); break;
        case 2: put<int16_t>(raw, x); break;
        case 4: put<int32_t>(raw, x); break;
        default: put<int64_t>(raw, x);
      }
    }
    if (is_fp) {
      // keep well defined limits for all-null chunks
      if (sz == 4 && dmn > dmx) { dmn = std::numeric_limits<float>::max(); dmx = std::numeric_limits<float>::lowest(); }
      ::fillChunkStats<double>(st, t, dmn, dmx, st.has_nulls);
    } else {
      if (mn > mx) {
        switch (t->isExtDictionary() ? 4 : sz) {
          case 1: mn = 127; mx = -128; break;
          case 2: mn = 32767; mx = -32768; break;
          case 4: mn = std::numeric_limits<int32_t>::max(); mx = std::numeric_limits<int32_t>::min(); break;
        }
        if (t->isDate()) { mn = std::numeric_limits<int64_t>::max(); mx = std::numeric_limits<int64_t>::min(); }
      } else if (t->isDate()) {
        auto u = t->as<hdk::ir::DateType>()->unit();
        if (u == hdk::ir::TimeUnit::kDay) { mn *= 86400; mx *= 86400; }
      }
      ::fillChunkStats<int64_t>(st, t, mn, mx, st.has_nulls);
    }
    return st;
  }
  int next_table_ = 1;
  int next_dict_ = 1;
  mutable std::mutex m_;
  std::map<int, std::unique_ptr<Table>> tables_;
  std::map<int, std::unique_ptr<DictDescriptor>> dicts_;
};

#ifndef VERIF_NO_ENGINE
class Engine {
 public:
  std::shared_ptr<Config> config;
  std::shared_ptr<Storage> storage;
  std::shared_ptr<Data_Namespace::DataMgr> data_mgr;
  std::shared_ptr<Executor> executor;
  SchemaProviderPtr schema;

  explicit Engine(std::shared_ptr<Config> cfg = nullptr, std::shared_ptr<Storage> st = nullptr) {
    config = cfg ? cfg : std::make_shared<Config>();
    config->mem.cpu.min_slab_size = std::min<size_t>(config->mem.cpu.min_slab_size, 16 << 20);
    config->mem.cpu.max_slab_size = std::min<size_t>(config->mem.cpu.max_slab_size, 256 << 20);
    config->exec.cpu_only = true;
    config->cache.hashtable_cache_total_bytes = 256 << 20;
    config->cache.max_cacheable_hashtable_size_bytes = 64 << 20;
    storage = st ? st : std::make_shared<Storage>();
    data_mgr = std::make_shared<Data_Namespace::DataMgr>(*config, 1);
    data_mgr->getPersistentStorageMgr()->registerDataProvider(SCHEMA, storage);
    executor = Executor::getExecutor(data_mgr.get(), config, "", "");
    std::vector<SchemaProviderPtr> ps{storage, hdk::ResultSetRegistry::getOrCreate(data_mgr.get(), config)};
    schema = mergeProviders(ps);
  }
  hdk::ir::QueryBuilder builder() { return hdk::ir::QueryBuilder(Context::defaultCtx(), schema, config); }

  ExecutionResult run(std::unique_ptr<hdk::ir::QueryDag> dag) {
    RelAlgExecutor ra(executor.get(), schema, std::move(dag));
    auto eo = ExecutionOptions::fromConfig(*config);
    return ra.executeRelAlgQuery(CompilationOptions::defaults(ExecutorDeviceType::CPU), eo, false);
  }
};

inline Val toVal(const TargetValue& tv, const Type* t) {
  if (auto* p = boost::get<ScalarTargetValue>(&tv)) {
    if (auto* i = boost::get<int64_t>(p)) {
      if (t->isText() || t->isVarChar()) return Val::I(*i);
      if (t->isFloatingPoint()) return Val::S("<int for fp column>");
      bool n = t->nullable() && *i == inline_int_null_value(t);
      return n ? Val::null() : Val::I(*i);
    }
    if (auto* d = boost::get<double>(p)) return t->nullable() && *d == inline_fp_null_value<double>() ? Val::null() : Val::D(*d);
    if (auto* f = boost::get<float>(p)) return t->nullable() && *f == inline_fp_null_value<float>() ? Val::null() : Val::D(*f);
    auto& ns = boost::get<NullableString>(*p);
    if (auto* s = boost::get<std::string>(&ns)) return Val::S(*s);
    return Val::null();
  }
  if (auto* a = boost::get<ArrayTargetValue>(&tv)) {
    if (!*a) return Val::null();
    auto et = t->as<hdk::ir::ArrayBaseType>()->elemType();
    std::string s = "[";
    for (auto& x : **a) s += (s.size() > 1 ? "," : "") + toVal(TargetValue(x), et).show();
    return Val::S(s + "]");
  }
  return Val::S("<array>");
}

inline Rows fetch(const ExecutionResult& res) {
  auto tok = res.getToken();
  Rows rows;
  for (size_t k = 0; k < tok->resultSetCount(); ++k) {
    auto rs = tok->resultSet(k);
    size_t nc = rs->colCount();
    rs->moveToBegin();
    while (true) {
      auto r = rs->getNextRow(true, false);
      if (r.empty()) break;
      Row o;
      for (size_t c = 0; c < nc; ++c) o.push_back(toVal(r[c], rs->colType(c)));
      rows.push_back(std::move(o));
    }
  }
  return rows;
}
#endif
}  // namespace ve
