// Service libraries under monitoring: SqliteConnector, SchemaMgr, CostModel, ConfigBuilder, Logger.
#include <dirent.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <fstream>
#include <optional>
#include <regex>
#include <thread>

#include <boost/filesystem.hpp>

#include "ConfigBuilder/ConfigBuilder.h"
#include "IR/Context.h"
#include "Logger/Logger.h"
#include "QueryEngine/CostModel/Dispatchers/DefaultExecutionPolicy.h"
#include "QueryEngine/CostModel/Dispatchers/ProportionBasedExecutionPolicy.h"
#include "QueryEngine/CostModel/Dispatchers/RRExecutionPolicy.h"
#include "QueryEngine/CostModel/ExtrapolationModels/LinearExtrapolation.h"
#include "QueryEngine/CostModel/IterativeCostModel.h"
#include "SchemaMgr/SchemaMgr.h"
#include "SchemaMgr/SimpleSchemaProvider.h"
#include "SqliteConnector/SqliteConnector.h"

#include "vh.h"
using namespace vh;
namespace fs = boost::filesystem;

#define EXPECT(cond, key, ...)                          \
  do {                                                  \
    eval();                                             \
    if (!(cond)) violation(key, cat(ctx, " ", __VA_ARGS__)); \
  } while (0)

static long case_limit(long quick, long thorough) {
  long n = st().thorough ? thorough : quick;
  if (const char* e = getenv("VN")) n = atol(e);
  return n;
}
#define CASES(quick, thorough)                                                             \
  for (long cn = st().only_case >= 0 ? st().only_case : 0,                                 \
            clim = st().only_case >= 0 ? st().only_case + 1 : case_limit(quick, thorough); \
       cn < clim && !too_many();                                                           \
       ++cn)

struct Scratch {
  std::string dir;
  Scratch() {
    char t[] = "/tmp/vsvc.XXXXXX";
    dir = mkdtemp(t);
  }
  ~Scratch() {
    if (dir.rfind("/tmp/vsvc.", 0) == 0) {
      boost::system::error_code ec;
      fs::remove_all(dir, ec);
    }
  }
};

static std::string slurp(const std::string& p) {
  std::ifstream f(p, std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}

// ------------------------------------------------------------------------------------------ sqlite
struct Cell {
  int type = SQLITE_NULL;  // what sqlite reports for it
  std::string s;
  bool operator==(const Cell& o) const { return type == o.type && s == o.s; }
};
static std::string rand_bytes(Rng& r) {
  static const std::vector<std::string> odd = {"", " ", "'", "''", "\"", "a'b", "NULL", "0", "-1", "1e3", std::string(1, 0), std::string("a\0b", 3), std::string("\0\0", 2), "\xc3\xa9\xe4\xb8\xad", "\xff\xfe", "?", "?1", ");--", "\n\t\r", "x'00'"};
  if (r.chance(35)) return r.pick(odd);
  size_t n = r.chance(5) ? r.below(9000) : r.below(14);
  std::string s;
  for (size_t i = 0; i < n; ++i) s += r.chance(90) ? (char)('a' + r.below(26)) : (char)r.below(256);
  return s;
}
static void mode_sqlite() {
  CASES(260, 4000) {
    Rng r = case_rng(cn);
    std::string ctx = cat("case ", cn);
    note(ctx);
    Scratch sc;
    using Row = std::array<Cell, 3>;
    std::map<std::string, std::pair<int64_t, Row>> rows;  // key text (unique) -> (insertion order, cells)
    int64_t order = 0;
    auto db = std::make_unique<SqliteConnector>("t.db", r.chance(50) ? sc.dir : sc.dir + "/");
    SqliteConnector other("t.db", sc.dir);
    db->query("CREATE TABLE t(id INTEGER PRIMARY KEY AUTOINCREMENT, k TEXT UNIQUE, a, b, c)");
    db->query("CREATE TABLE u(k TEXT UNIQUE, a, b, c)");  // target of batches
    db->query("CREATE TABLE w(x)");
    std::map<std::string, Row> urows;
    // Nobody holds a lock: another connection can write.
    auto unlocked = [&](const std::string& what) {
      eval();
      try {
        other.query("BEGIN IMMEDIATE");
        other.query("ROLLBACK");
        ev("lock probes");
      } catch (std::exception& e) {
        violation("locked after " + what, cat(ctx, " another connection cannot write: ", e.what()));
        try {
          other.query("ROLLBACK");
        } catch (...) {
        }
      }
    };
    auto dump = [&](SqliteConnector& c, const std::string& tab, const std::string& who) {
      // full contents against the model
      c.query("SELECT k, a, b, c FROM " + tab + " ORDER BY rowid");
      std::vector<std::pair<std::string, Row>> want;
      if (tab == "t") {
        std::vector<std::pair<int64_t, std::pair<std::string, Row>>> v;
        for (auto& [k, p] : rows) v.push_back({p.first, {k, p.second}});
        std::sort(v.begin(), v.end(), [](auto& x, auto& y) { return x.first < y.first; });
        for (auto& x : v) want.push_back(x.second);
      } else {
        for (auto& [k, p] : urows) want.push_back({k, p});
      }
      EXPECT(c.getNumRows() == want.size(), "row count", who, " ", tab, " rows ", c.getNumRows(), " expected ", want.size());
      if (c.getNumRows() != want.size()) return;
      if (want.empty()) {
        EXPECT(c.getNumCols() == 0 && c.columnNames.empty() && c.columnTypes.empty(), "empty result", who);
        return;
      }
      EXPECT(c.getNumCols() == 4, "column count", c.getNumCols());
      EXPECT(c.columnNames == (std::vector<std::string>{"k", "a", "b", "c"}), "column names", who);
      EXPECT(c.columnTypes.size() == 4, "column types", who);
      std::map<std::string, Row> seen;
      for (size_t i = 0; i < want.size(); ++i) {
        std::string k = c.getData<std::string>(i, 0);
        const Row* w = nullptr;
        if (tab == "t") {
          EXPECT(k == want[i].first, "row order", who, " row ", i, " key ", show(k), " expected ", show(want[i].first));
          w = &want[i].second;
        } else {
          auto it = urows.find(k);
          EXPECT(it != urows.end(), "unknown row", who, " key ", show(k));
          if (it == urows.end()) continue;
          EXPECT(seen.emplace(k, Row{}).second, "row twice", show(k));
          w = &it->second;
        }
        if (k != want[i].first && tab == "t") continue;
        for (int j = 0; j < 3; ++j) {
          const Cell& x = (*w)[j];
          EXPECT(c.isNull(i, j + 1) == (x.type == SQLITE_NULL), "nullness", who, " row ", i, " column ", j, " key ", show(k));
          std::string got = c.getData<std::string>(i, j + 1);
          EXPECT(got == x.s, "value", who, " row ", i, " column ", j, " got ", show(got.substr(0, 60)), " (", got.size(), " bytes) expected ", show(x.s.substr(0, 60)), " (", x.s.size(), ")");
          if (i == 0) EXPECT(c.columnTypes[j + 1] == x.type, "column type", who, " ", j, " got ", c.columnTypes[j + 1], " expected ", x.type);
        }
      }
      ev("rows compared", want.size());
    };
    auto new_key = [&](auto& m) {
      for (;;) {
        std::string k = rand_bytes(r);
        if (!m.count(k)) return k;
        k += std::to_string(r.next() % 100000);
        if (!m.count(k)) return k;
      }
    };
    int ops = r.range(8, 40);
    for (int op = 0; op < ops && !too_many(); ++op) {
      int kind = r.below(12);
      ctx = cat("case ", cn, " op ", op, " kind ", kind);
      note(ctx);
      distinct(cat(kind, "/", rows.size(), "/", urows.size(), "/", op));
      try {
        if (kind <= 2) {  // single insert with bound parameters
          Row row;
          std::string k = new_key(rows);
          std::vector<std::string> params{k};
          std::vector<SqliteConnector::BindType> types{SqliteConnector::BindType::TEXT};
          bool plain = r.chance(30);
          for (int j = 0; j < 3; ++j) {
            int t = plain ? 0 : r.below(3);
            std::string v = rand_bytes(r);
            params.push_back(v);
            if (t == 0) types.push_back(SqliteConnector::BindType::TEXT), row[j] = {SQLITE_TEXT, v};
            if (t == 1) types.push_back(SqliteConnector::BindType::BLOB), row[j] = {SQLITE_BLOB, v};
            if (t == 2) types.push_back(SqliteConnector::BindType::NULL_TYPE), row[j] = {SQLITE_NULL, ""};
          }
          std::string q = "INSERT INTO t(k, a, b, c) VALUES(?, ?, ?, ?)";
          if (plain) {
            if (r.chance(50)) {
              db->query_with_text_params(q, params);
            } else {
              std::vector<std::string> all{q};
              all.insert(all.end(), params.begin(), params.end());
              db->query_with_text_params(all);
            }
          } else {
            db->query_with_text_params(q, params, types);
          }
          rows[k] = {order++, row};
          ev("inserts");
        } else if (kind == 3) {  // batch that succeeds
          std::vector<std::vector<std::string>> b;
          std::map<std::string, Row> add;
          int n = r.range(0, 30);
          while ((int)b.size() < n) {
            std::string k = new_key(urows);
            if (add.count(k)) continue;
            Row row;
            std::vector<std::string> v{k};
            for (int j = 0; j < 3; ++j) {
              v.push_back(rand_bytes(r));
              row[j] = {SQLITE_TEXT, v.back()};
            }
            b.push_back(v);
            add[k] = row;
          }
          auto copy = b;
          db->batch_insert("u", b);
          EXPECT(copy == b, "batch changed", "");
          for (auto& a : add) urows.insert(a);
          unlocked("a batch");
          ev("batches");
          dump(other, "u", "batch seen elsewhere");
        } else if (kind == 4) {  // batch that fails at a random row: nothing of it may stay
          std::vector<std::vector<std::string>> b;
          int n = r.range(1, 12), bad = r.below(n);
          int how = urows.empty() ? r.range(1, 3) : r.below(4);
          std::set<std::string> used;
          for (int i = 0; i < n; ++i) {
            std::string k = cat("fail", i, "-", r.next() % 100000);
            if (i == bad && how == 0) k = urows.begin()->first;
            std::vector<std::string> v{k, "1", "2", "3"};
            if (i == bad && how == 1 && i > 0) v.push_back("4");
            b.push_back(v);
          }
          if (how == 2) b.push_back(b.front());  // duplicate inside the batch
          bool thrown = false;
          std::string target = how == 3 ? "missing_table" : "u";
          if (how == 1 && bad == 0) b.push_back(b.front());
          try {
            db->batch_insert(target, b);
          } catch (std::runtime_error& e) {
            thrown = true;
          }
          EXPECT(thrown, "failing batch accepted", "how ", how);
          EXPECT(sqlite3_get_autocommit(db->getSqlitePtr()) != 0, "transaction open", "after a failed batch, how ", how);
          unlocked(cat("a failed batch (", how == 3 ? "missing table" : how == 1 ? "too many values" : "duplicate", ")"));
          if (!sqlite3_get_autocommit(db->getSqlitePtr())) sqlite3_exec(db->getSqlitePtr(), "ROLLBACK", nullptr, nullptr, nullptr);
          dump(*db, "u", "after a failed batch");
          dump(other, "u", "after a failed batch, elsewhere");
          ev("failed batches");
        } else if (kind == 5) {  // errors: reported, nothing changed, still usable
          std::string q;
          std::vector<std::string> params;
          switch (r.below(6)) {
            case 0: q = "SELEC 1"; break;
            case 1: q = "SELECT * FROM nothing"; break;
            case 2: q = "INSERT INTO t(k) VALUES(?)"; params = {"x", "y"}; break;
            case 3:
              if (rows.empty()) continue;
              q = "INSERT INTO t(k, a) VALUES(?, ?)";
              params = {rows.begin()->first, "z"};
              break;
            case 4:  // fails in the middle of a result
              q = "WITH RECURSIVE n(i) AS (SELECT 1 UNION ALL SELECT i + 1 FROM n WHERE i < 9) SELECT abs(CASE WHEN i = 5 THEN -9223372036854775807 - 1 ELSE i END), (SELECT count(*) FROM t) FROM n";
              break;
            default:  // a writer that fails midway
              q = "INSERT INTO w SELECT abs(CASE WHEN i = 3 THEN -9223372036854775807 - 1 ELSE i END) FROM (SELECT 1 AS i UNION ALL SELECT 2 UNION ALL SELECT 3)";
          }
          bool thrown = false;
          try {
            db->query_with_text_params(q, params);
          } catch (std::runtime_error& e) {
            thrown = true;
            EXPECT(std::string(e.what()).size() > std::string("Sqlite3 Error: ").size(), "error text", e.what());
          }
          EXPECT(thrown, "error not reported", q);
          unlocked("a failed statement");
          dump(*db, "t", "after an error");
          db->query("SELECT count(*) FROM w");
          EXPECT(db->getNumRows() == 1 && db->getData<int>(0, 0) == 0, "half statement kept", db->getData<std::string>(0, 0));
          ev("failed statements");
        } else if (kind == 6) {
          dump(*db, r.chance(70) ? "t" : "u", "writer");
        } else if (kind == 7) {
          dump(other, r.chance(70) ? "t" : "u", "other connection");
        } else if (kind == 8) {  // reopen: everything is in the file
          db.reset();
          db = std::make_unique<SqliteConnector>("t.db", sc.dir);
          dump(*db, "t", "reopened");
          dump(*db, "u", "reopened");
          ev("reopened");
        } else if (kind == 9) {  // lookup by parameter
          if (rows.empty()) continue;
          auto it = rows.begin();
          std::advance(it, r.below(rows.size()));
          db->query_with_text_param("SELECT b, id FROM t WHERE k = ?", it->first);
          EXPECT(db->getNumRows() == 1 && db->getNumCols() == 2, "lookup", show(it->first), " rows ", db->getNumRows());
          if (db->getNumRows() == 1) {
            EXPECT(db->isNull(0, 0) == (it->second.second[1].type == SQLITE_NULL), "lookup null", "");
            EXPECT(db->getData<std::string>(0, 0) == it->second.second[1].s, "lookup value", "");
          }
        } else if (kind == 10) {  // numbers
          int64_t v = r.chance(20) ? r.pick({INT64_MIN, INT64_MAX, int64_t(0), int64_t(-1)}) : (int64_t)r.next() >> r.below(64);
          db->query(cat("SELECT ", v == INT64_MIN ? std::string("-9223372036854775807 - 1") : std::to_string(v), " AS n, NULL AS z, 2.5 AS d, 'q' AS s, x'4100' AS y"));
          EXPECT(db->getNumRows() == 1 && db->getNumCols() == 5, "number result", "");
          EXPECT(db->getData<int64_t>(0, 0) == v, "number", v, " got ", db->getData<std::string>(0, 0));
          EXPECT(db->isNull(0, 1) && !db->isNull(0, 0) && !db->isNull(0, 3), "nulls of constants", "");
          EXPECT(db->getData<double>(0, 2) == 2.5, "double", "");
          EXPECT(db->getData<std::string>(0, 4) == std::string("A\0", 2), "blob constant", "");
          EXPECT(db->columnTypes == (std::vector<int>{SQLITE_INTEGER, SQLITE_NULL, SQLITE_FLOAT, SQLITE_TEXT, SQLITE_BLOB}), "types of constants", "");
          EXPECT(db->columnNames == (std::vector<std::string>{"n", "z", "d", "s", "y"}), "names of constants", "");
        } else {  // delete
          if (rows.empty()) continue;
          auto it = rows.begin();
          std::advance(it, r.below(rows.size()));
          db->query_with_text_param("DELETE FROM t WHERE k = ?", it->first);
          EXPECT(db->getNumRows() == 0 && db->getNumCols() == 0, "result of a delete", db->getNumRows());
          rows.erase(it);
          ev("deletes");
        }
      } catch (std::exception& e) {
        violation("unexpected error", cat(ctx, " ", e.what()));
      }
    }
    // A database that cannot be opened is an error, not a connection.
    bool thrown = false;
    try {
      SqliteConnector bad("x.db", sc.dir + "/no/such/folder");
    } catch (std::runtime_error&) {
      thrown = true;
    }
    EXPECT(thrown, "missing folder accepted", "");
    // A borrowed handle is not closed.
    sqlite3* raw = nullptr;
    if (sqlite3_open((sc.dir + "/t.db").c_str(), &raw) == SQLITE_OK) {
      {
        SqliteConnector borrowed(raw);
        dump(borrowed, "t", "borrowed handle");
      }
      char* err = nullptr;
      EXPECT(sqlite3_exec(raw, "SELECT 1", nullptr, nullptr, &err) == SQLITE_OK, "borrowed handle closed", "");
      sqlite3_close(raw);
    }
  }
}

// ------------------------------------------------------------------------------------------ schema
struct Prov : SimpleSchemaProvider {
  using SimpleSchemaProvider::SimpleSchemaProvider;
  void table(int db, int t, const std::string& name, bool view, size_t frags, size_t rows, bool stream, const std::vector<std::tuple<int, std::string, const hdk::ir::Type*>>& cols, int rowid) {
    mapd_unique_lock<mapd_shared_mutex> l(schema_mutex_);
    addTableInfo(db, t, name, view, frags, rows, stream);
    for (auto& [id, n, ty] : cols) addColumnInfo(db, t, id, n, ty, false);
    if (rowid) addRowidColumn(db, t, rowid);
  }
  void drop(int db, int t) {
    mapd_unique_lock<mapd_shared_mutex> l(schema_mutex_);
    dropTable(db, t);
  }
};
struct MTab {
  std::string name;
  bool view, stream;
  size_t frags, rows;
  std::map<int, std::tuple<std::string, const hdk::ir::Type*, bool>> cols;
};
static void check_table(const SchemaProvider& p, int db, int t, const MTab& m, const std::string& ctx) {
  for (int how = 0; how < 3; ++how) {
    auto ti = how == 0 ? p.getTableInfo(db, t) : how == 1 ? p.getTableInfo(db, m.name) : p.getTableInfo(TableRef(db, t));
    EXPECT(ti, "table lost", "db ", db, " table ", t, " ", m.name, " how ", how);
    if (!ti) return;
    EXPECT(ti->db_id == db && ti->table_id == t && ti->name == m.name && ti->is_view == m.view && ti->is_stream == m.stream && ti->fragments == m.frags && ti->row_count == m.rows, "table info", ti->toString(), " expected ", db, "/", t, " ", m.name);
  }
  auto cols = p.listColumns(db, t);
  EXPECT(cols.size() == m.cols.size(), "column count", cols.size(), " expected ", m.cols.size());
  size_t i = 0;
  for (auto& [id, c] : m.cols) {
    if (i >= cols.size()) break;
    auto same = [&](const ColumnInfoPtr& ci) { return ci && ci->db_id == db && ci->table_id == t && ci->column_id == id && ci->name == std::get<0>(c) && ci->type == std::get<1>(c) && ci->is_rowid == std::get<2>(c); };
    EXPECT(same(cols[i]), "column list", "position ", i, " ", cols[i]->toString(), " expected id ", id, " ", std::get<0>(c));
    EXPECT(same(p.getColumnInfo(db, t, id)), "column by id", db, "/", t, "/", id);
    EXPECT(same(p.getColumnInfo(db, t, std::get<0>(c))), "column by name", db, "/", t, "/", std::get<0>(c));
    EXPECT(same(p.getColumnInfo(ColumnRef(db, t, id))), "column by reference", db, "/", t, "/", id);
    EXPECT(same(p.getColumnInfo(TableRef(db, t), id)) && same(p.getColumnInfo(TableRef(db, t), std::get<0>(c))), "column by table reference", id);
    ++i;
  }
}
static void mode_schema() {
  auto& tctx = hdk::ir::Context::defaultCtx();
  std::vector<const hdk::ir::Type*> types{tctx.int8(), tctx.int32(false), tctx.int64(), tctx.fp64(), tctx.text(), tctx.boolean(), tctx.decimal64(10, 2)};
  CASES(300, 6000) {
    Rng r = case_rng(cn);
    std::string ctx = cat("case ", cn);
    note(ctx);
    int nprov = r.range(1, 5);
    std::vector<std::shared_ptr<Prov>> provs;
    std::vector<int> schema_ids;
    std::map<std::pair<int, int>, MTab> model;  // (db, table)
    std::vector<std::vector<int>> dbs(nprov);
    std::vector<std::set<int>> had(nprov);
    for (int i = 0; i < nprov; ++i) {
      int sid;
      do sid = r.chance(30) ? r.pick({0, 1, 126, 127}) : r.range(0, 127);
      while (std::count(schema_ids.begin(), schema_ids.end(), sid));
      schema_ids.push_back(sid);
      provs.push_back(std::make_shared<Prov>(tctx, sid, cat("p", i)));
      EXPECT(provs[i]->getId() == sid && provs[i]->getName() == cat("p", i), "provider identity", "");
      int nd = r.range(1, 3);
      for (int d = 0; d < nd; ++d) {
        int raw = r.chance(30) ? r.pick({0, 1, MAX_DB_ID, MAX_DB_ID - 1}) : r.range(0, MAX_DB_ID);
        int db = addSchemaIdChecked(raw, sid);
        EXPECT(getSchemaId(db) == sid && db == addSchemaId(raw, sid) && (db & MAX_DB_ID) == raw, "schema id arithmetic", "raw ", raw, " schema ", sid, " db ", db);
        dbs[i].push_back(db);
      }
    }
    auto pick_ref = [&](int& i, int& db, int& t) {
      i = r.below(nprov);
      db = r.pick(dbs[i]);
      t = r.chance(10) ? r.pick({0, 1, INT32_MAX, -1}) : r.range(1, 12);
    };
    auto names = [&](int db) {
      std::set<std::string> s;
      for (auto& [k, m] : model)
        if (k.first == db) s.insert(m.name);
      return s;
    };
    auto build_mgr = [&]() {
      std::vector<SchemaProviderPtr> v(provs.begin(), provs.end());
      return mergeProviders(v);
    };
    int ops = r.range(5, 60);
    for (int op = 0; op < ops; ++op) {
      int i, db, t;
      pick_ref(i, db, t);
      bool exists = model.count({db, t});
      distinct(cat(op, ":", model.size(), ":", exists));
      if (r.chance(60) && !exists) {
        MTab m;
        auto used = names(db);
        do m.name = r.chance(20) ? r.pick({std::string("t"), std::string("T"), std::string(""), std::string("a b"), std::string("rowid")}) : cat("t", r.below(30));
        while (used.count(m.name));
        m.view = r.chance(20);
        m.stream = r.chance(20);
        m.frags = r.below(5);
        m.rows = r.below(1000);
        std::vector<std::tuple<int, std::string, const hdk::ir::Type*>> cols;
        int nc = r.range(1, 9);
        std::set<int> ids;
        std::set<std::string> cn2;
        for (int c = 0; c < nc; ++c) {
          int id;
          do id = r.chance(20) ? r.range(-5, 2000000) : r.range(1, 20);
          while (!ids.insert(id).second);
          std::string n;
          do n = cat(r.chance(50) ? "c" : "C", r.below(40));
          while (!cn2.insert(n).second);
          auto ty = r.pick(types);
          cols.push_back({id, n, ty});
          m.cols[id] = {n, ty, false};
        }
        int rowid = r.chance(70) ? 3000000 : 0;
        if (rowid) m.cols[rowid] = {"rowid", tctx.int64(), true};
        provs[i]->table(db, t, m.name, m.view, m.frags, m.rows, m.stream, cols, rowid);
        model[{db, t}] = m;
        had[i].insert(db);
        ev("tables added");
      } else if (exists && r.chance(60)) {
        provs[i]->drop(db, t);
        auto m = model[{db, t}];
        model.erase({db, t});
        ev("tables dropped");
        EXPECT(!provs[i]->getTableInfo(db, t) && !provs[i]->getTableInfo(db, m.name), "dropped table visible", db, "/", t);
        for (auto& [id, c] : m.cols) EXPECT(!provs[i]->getColumnInfo(db, t, id) && !provs[i]->getColumnInfo(db, t, std::get<0>(c)), "column of a dropped table visible", db, "/", t, "/", id);
      }
      if (op % 4 == 3 || op == ops - 1) {
        std::shared_ptr<SchemaProvider> mgr = build_mgr();
        std::map<int, std::set<int>> by_db;
        for (auto& [k, m] : model) by_db[k.first].insert(k.second);
        for (int pi = 0; pi < nprov; ++pi) {
          auto l = provs[pi]->listDatabases();
          std::set<int> ls(l.begin(), l.end());
          EXPECT(ls.size() == l.size(), "database listed twice", "");
          for (int d : ls) EXPECT(had[pi].count(d), "unknown database", d);
          for (int d : dbs[pi])
            if (by_db.count(d)) EXPECT(ls.count(d), "database not listed", d);
          for (int d : dbs[pi])
            for (auto* p : {(const SchemaProvider*)provs[pi].get(), (const SchemaProvider*)mgr.get()}) {
              auto tl = p->listTables(d);
              std::set<int> ts;
              for (auto& x : tl) {
                EXPECT(x->db_id == d, "table of another database", x->toString());
                EXPECT(ts.insert(x->table_id).second, "table listed twice", x->toString());
              }
              EXPECT(ts == by_db[d], "table list", "db ", d, " has ", ts.size(), " expected ", by_db[d].size());
            }
        }
        for (auto& [k, m] : model) {
          check_table(*mgr, k.first, k.second, m, ctx + " merged");
          for (int pi = 0; pi < nprov; ++pi)
            if (schema_ids[pi] == getSchemaId(k.first)) check_table(*provs[pi], k.first, k.second, m, ctx + " own");
            else EXPECT(!provs[pi]->getTableInfo(k.first, k.second), "table in another provider", "");
        }
        auto all = mgr->listDatabases();
        std::set<int> alls(all.begin(), all.end());
        EXPECT(alls.size() == all.size(), "merged database listed twice", "");
        for (auto& [d, x] : by_db)
          if (!x.empty()) EXPECT(alls.count(d), "merged database missing", d);
        // things that do not exist
        for (int q = 0; q < 6; ++q) {
          int i2, db2, t2;
          pick_ref(i2, db2, t2);
          if (!model.count({db2, t2})) {
            EXPECT(!mgr->getTableInfo(db2, t2), "table from nowhere", db2, "/", t2);
            EXPECT(!mgr->getColumnInfo(db2, t2, 1) && !mgr->getColumnInfo(db2, t2, "c1"), "column from nowhere", "");
          }
          EXPECT(!mgr->getTableInfo(db2, "no such table"), "table by unknown name", "");
          int sid = r.range(0, 127);
          if (!std::count(schema_ids.begin(), schema_ids.end(), sid)) {
            int d3 = addSchemaId(1, sid);
            EXPECT(mgr->listTables(d3).empty() && mgr->listColumns(d3, 1).empty() && !mgr->getTableInfo(d3, 1) && !mgr->getTableInfo(d3, "t") && !mgr->getColumnInfo(d3, 1, 1) && !mgr->getColumnInfo(d3, 1, "c"), "unknown schema", sid);
          }
        }
        ev("full comparisons");
      }
    }
    // Two providers of one schema are refused.
    if (!model.empty()) {
      auto dup = std::make_shared<Prov>(tctx, 7, "dup");
      int db = model.begin()->first.first;
      dup->table(addSchemaId(5, getSchemaId(db)), 1, "x", false, 0, 0, false, {{1, "a", tctx.int64()}}, 0);
      std::vector<SchemaProviderPtr> v(provs.begin(), provs.end());
      v.insert(v.begin() + r.below(v.size() + 1), dup);
      bool thrown = false;
      try {
        mergeProviders(v);
      } catch (std::runtime_error&) {
        thrown = true;
      }
      EXPECT(thrown, "duplicate schema accepted", "");
      ev("duplicate schemas");
    }
  }
}
// Readers against a writer: a table is seen whole or not at all.
static void mode_sconc() {
  auto& tctx = hdk::ir::Context::defaultCtx();
  CASES(12, 120) {
    std::string ctx = cat("case ", cn);
    note(ctx);
    Rng r0 = case_rng(cn);
    auto p = std::make_shared<Prov>(tctx, 1, "p");
    int db = addSchemaId(1, 1);
    p->table(db, 1, "base", false, 1, 1, false, {{1, "a", tctx.int64()}, {2, "b", tctx.int64()}}, 3);
    std::vector<SchemaProviderPtr> v{p};
    auto mgr = mergeProviders(v);
    std::atomic<bool> stop{false};
    std::vector<std::thread> th;
    for (int t = 0; t < 4; ++t)
      th.emplace_back([&, t] {
        Rng r(cn * 31 + t + st().seed);
        uint64_t seen = 0, none = 0;
        while (!stop) {
          int id = r.range(1, 5);
          switch (r.below(4)) {
            case 0: {
              for (auto& ti : mgr->listTables(db)) {
                eval();
                if (ti->name != cat(ti->table_id == 1 ? "base" : "n", ti->table_id == 1 ? "" : std::to_string(ti->table_id))) violation("torn table", cat(ctx, " ", ti->toString()));
              }
              break;
            }
            case 1: {
              auto ti = mgr->getTableInfo(db, id);
              ti ? ++seen : ++none;
              break;
            }
            case 2: {
              auto cols = mgr->listColumns(db, 1);
              eval();
              if (cols.size() != 3) violation("torn columns", cat(ctx, " ", cols.size()));
              break;
            }
            default: {
              auto c = mgr->getColumnInfo(db, id, "a");
              if (c) {
                eval();
                if (c->column_id != 1 || c->table_id != id) violation("torn column", cat(ctx, " ", c->toString()));
              }
            }
          }
        }
        ev("tables seen", seen);
        ev("tables absent", none);
        distinct(cat(cn, ":", t, ":", seen, ":", none));
      });
    Rng r(cn + 5);
    std::set<int> have;
    for (int i = 0; i < 300; ++i) {
      int id = r.range(2, 5);
      if (have.count(id)) {
        p->drop(db, id);
        have.erase(id);
      } else {
        p->table(db, id, cat("n", id), false, 1, 1, false, {{1, "a", tctx.int64()}, {2, "b", tctx.int64()}}, 3);
        have.insert(id);
      }
      ev("schema changes");
      if (r.chance(20)) std::this_thread::yield();
    }
    stop = true;
    for (auto& t : th) t.join();
  }
}

// ------------------------------------------------------------------------------------------ cost model
using namespace costmodel;
using Meas = std::vector<Detail::Measurement>;
struct TestSource : DataSource {
  Detail::DeviceMeasurements dm;
  bool fail = false;
  std::vector<ExecutorDeviceType> asked_devices;
  TestSource(std::set<ExecutorDeviceType> d = {ExecutorDeviceType::CPU, ExecutorDeviceType::GPU}, std::set<AnalyticalTemplate> t = {GroupBy, Scan, Join, Reduce, Sort})
      : DataSource(DataSourceConfig{"test", d, t}) {}
  Detail::DeviceMeasurements getMeasurements(const std::vector<ExecutorDeviceType>& devices, const std::vector<AnalyticalTemplate>& templates) override {
    asked_devices = devices;
    if (fail) throw std::runtime_error("no measurements");
    Detail::DeviceMeasurements res;
    for (auto d : devices)
      for (auto t : templates)
        if (dm.count(d) && dm[d].count(t)) res[d][t] = dm[d][t];
    return res;
  }
};
static Meas rand_meas(Rng& r, bool inc, bool single = true) {
  Meas m;
  int n = single && r.chance(10) ? 1 : r.range(2, 8);
  size_t b = r.below(1000), t = r.below(2000) + 1;
  size_t scale = r.pick({size_t(1), size_t(1000), size_t(1) << 20, size_t(1) << 32});
  for (int i = 0; i < n; ++i) {
    m.push_back({b, t});
    b += (1 + r.below(5000)) * scale;
    if (inc) t += r.below(3000);
    else t = r.below(5000);
  }
  return m;
}
static double ref_extra(const Meas& m, size_t bytes) {
  if (m.size() == 1) return m[0].milliseconds;
  size_t i2 = 1;
  while (i2 + 1 < m.size() && m[i2].bytes <= bytes) ++i2;
  auto& a = m[i2 - 1];
  auto& b = m[i2];
  long double v = (long double)a.milliseconds + ((long double)bytes - a.bytes) / ((long double)b.bytes - a.bytes) * ((long double)b.milliseconds - a.milliseconds);
  return v < 0 ? 0 : (double)v;
}
// Least squares line through the measurements.
static double ref_regr(const Meas& m, size_t bytes) {
  long double n = m.size(), sx = 0, sy = 0, sxx = 0, sxy = 0;
  for (auto& p : m) sx += p.bytes, sy += p.milliseconds;
  long double mx = sx / n, my = sy / n;
  for (auto& p : m) sxx += (p.bytes - mx) * (p.bytes - mx), sxy += (p.bytes - mx) * (p.milliseconds - my);
  long double v = my + sxy / sxx * ((long double)bytes - mx);
  return v < 0 ? 0 : (double)v;
}
#ifdef HAVE_ARMADILLO
#define ref_model ref_regr
#else
#define ref_model ref_extra
#endif
static FragmentInfo frag(int cpu_dev, int gpu_dev) {
  FragmentInfo f;
  f.deviceIds = std::vector<int>{0, cpu_dev, gpu_dev};
  return f;
}
static const std::map<ExecutorDeviceType, ExecutorDispatchMode> both_modes{{ExecutorDeviceType::CPU, ExecutorDispatchMode::KernelPerFragment}, {ExecutorDeviceType::GPU, ExecutorDispatchMode::MultifragmentKernel}};

static void mode_cost() {
  CASES(900, 20000) {
    Rng r = case_rng(cn);
    std::string ctx = cat("case ", cn);
    note(ctx);
    // 1. interpolation between measurements
    Meas m = rand_meas(r, r.chance(60));
    LinearExtrapolation le{m};
    for (int q = 0; q < 20; ++q) {
      size_t x = q < (int)m.size() ? m[q].bytes : r.chance(50) ? m[0].bytes + r.next() % (m.back().bytes - m[0].bytes + 1) : r.chance(50) ? m.back().bytes + r.next() % (2 * m.back().bytes + 5) : r.below(m[0].bytes + 1);
      size_t got = le.getExtrapolatedData(x);
      double want = ref_extra(m, x);
      EXPECT(std::fabs((double)got - want) <= 1.0 + want * 1e-9, "extrapolation", "at ", x, " got ", got, " expected ", want);
      if (q < (int)m.size()) EXPECT(std::fabs((double)got - m[q].milliseconds) <= 1, "measured point", "at ", x, " got ", got, " measured ", m[q].milliseconds);
    }
    ev("extrapolations", 20);
    if (m.size() > 1) {
      ExtrapolationModelProvider prov;
      auto em = r.chance(50) ? prov.provide(m) : prov.provide(Meas(m));
      for (int q = 0; q < 10; ++q) {
        size_t x = r.chance(30) ? r.pick(m).bytes : r.next() % (2 * m.back().bytes + 5);
        size_t got = em->getExtrapolatedData(x);
        double want = ref_model(m, x);
        EXPECT(std::fabs((double)got - want) <= 1.0 + want * 1e-5, "model", "at ", x, " got ", got, " expected ", want);
      }
    }
    // 2. proportions
    {
      int kind = r.below(4);
      unsigned c = kind == 0 ? r.below(5) : kind == 1 ? r.below(1000) : kind == 2 ? UINT32_MAX - r.below(3) : r.next();
      unsigned g = kind == 0 ? r.below(5) : kind == 1 ? r.below(1000) : kind == 2 ? r.below(5) : r.next();
      if (c == 0 && g == 0) {
        bool thrown = false;
        try {
          policy::ProportionBasedExecutionPolicy p({{ExecutorDeviceType::CPU, 0u}, {ExecutorDeviceType::GPU, 0u}}, both_modes);
        } catch (std::runtime_error&) {
          thrown = true;
        }
        EXPECT(thrown, "empty proportion accepted", "");
      } else {
        policy::ProportionBasedExecutionPolicy p({{ExecutorDeviceType::CPU, c}, {ExecutorDeviceType::GPU, g}}, both_modes);
        size_t n = r.chance(50) ? r.range(1, 40) : r.range(1, 700);
        size_t ncpu = 0, ngpu = 0;
        for (size_t f = 0; f < n; ++f) {
          int cd = r.below(3), gd = r.below(7);
          auto a = p.scheduleSingleFragment(frag(cd, gd), f, n);
          a.dt == ExecutorDeviceType::CPU ? ++ncpu : ++ngpu;
          EXPECT(a.device_id == (a.dt == ExecutorDeviceType::CPU ? cd : gd), "device of a fragment", "fragment ", f);
        }
        // Each device gets its share, rounded to whole fragments.
        long double share = (long double)n * c / ((long double)c + g);
        EXPECT(std::fabs((double)(ncpu - share)) < 1.0 + 1e-6, "share", "cpu:gpu ", c, ":", g, " of ", n, " fragments: ", ncpu, " cpu ", ngpu, " gpu, expected ", (double)share);
        if (c == 0) EXPECT(ncpu == 0, "share of zero", ncpu);
        if (g == 0) EXPECT(ngpu == 0, "share of zero", ngpu);
        EXPECT(p.getExecutionModes() == both_modes && p.hasDevice(ExecutorDeviceType::CPU) && p.getExecutionMode(ExecutorDeviceType::GPU) == ExecutorDispatchMode::MultifragmentKernel, "dispatch modes", "");
        distinct(cat(c, ":", g, ":", n));
        ev("fragments assigned", n);
      }
      policy::RoundRobinExecutionPolicy rr(both_modes);
      size_t nc = 0, n = r.range(1, 50);
      for (size_t f = 0; f < n; ++f) {
        auto a = rr.scheduleSingleFragment(frag(1, 2), f, n);
        if (a.dt == ExecutorDeviceType::CPU) ++nc;
        EXPECT(a.device_id == (a.dt == ExecutorDeviceType::CPU ? 1 : 2), "device of a fragment", "round robin ", f);
      }
      EXPECT(nc == (n + 1) / 2 || nc == n / 2, "round robin", nc, " of ", n);
      for (auto dt : {ExecutorDeviceType::CPU, ExecutorDeviceType::GPU}) {
        policy::FragmentIDAssignmentExecutionPolicy d(dt, both_modes);
        EXPECT(d.devices() == std::set<ExecutorDeviceType>{dt}, "devices of the default policy", "");
        for (size_t f = 0; f < 5; ++f) {
          int cd = r.below(9), gd = r.below(9);
          auto a = d.scheduleSingleFragment(frag(cd, gd), f, 5);
          EXPECT(a.dt == dt && a.device_id == (dt == ExecutorDeviceType::CPU ? cd : gd), "default policy", f);
        }
      }
    }
    // 3. the chosen split is the best of the examined ones
    {
      auto src = std::make_unique<TestSource>();
      auto* sp = src.get();
      std::vector<AnalyticalTemplate> all{Scan, Sort, Join, GroupBy};
      for (auto d : {ExecutorDeviceType::CPU, ExecutorDeviceType::GPU})
        for (auto t : all) sp->dm[d][t] = rand_meas(r, r.chance(70), false);
      Detail::DeviceMeasurements dm = sp->dm;
      IterativeCostModel model(CostModelConfig{std::move(src)});
      bool missing = r.chance(15);
      std::vector<ExecutorDeviceType> devs{ExecutorDeviceType::CPU};
      if (!missing) devs.push_back(ExecutorDeviceType::GPU);
      QueryInfo qi;
      int nt = r.range(1, 3);
      for (int i = 0; i < nt; ++i) qi.templs.push_back(r.pick(all));
      bool unknown = r.chance(10);
      if (unknown) qi.templs.push_back(Reduce);
      qi.bytes_size = r.chance(20) ? r.below(3000) : r.chance(30) ? (size_t(1) << 32) + r.range(-2, 2) : r.next() % (size_t(1) << r.range(11, 36));
      auto predict = [&](bool& thrown) -> std::unique_ptr<policy::ExecutionPolicy> {
        thrown = false;
        try {
          return model.predict(qi, both_modes);
        } catch (CostModelException&) {
          thrown = true;
        }
        return nullptr;
      };
      bool thrown;
      predict(thrown);
      EXPECT(thrown, "prediction without calibration", "");
      if (r.chance(30)) {  // failed calibration changes nothing
        sp->fail = true;
        model.calibrate({devs});
        sp->fail = false;
        predict(thrown);
        EXPECT(thrown, "failed calibration used", "");
      }
      model.calibrate({devs});
      EXPECT(sp->asked_devices == devs, "devices measured", "");
      if (!missing && r.chance(20)) {
        sp->fail = true;
        model.calibrate({devs});  // keeps the old calibration
      }
      auto p = predict(thrown);
      EXPECT(thrown == (missing || unknown), "missing measurements", "missing device ", missing, " unknown template ", unknown, " thrown ", thrown);
      if (p && !thrown) {
        // The boundary between the devices, in units of 1/N.
        size_t N = qi.bytes_size && qi.bytes_size <= (1u << 22) ? qi.bytes_size : (1u << 22);
        auto dt = [&](size_t f) { return p->scheduleSingleFragment(frag(0, 0), f, N).dt; };
        size_t lo = 0, hi = N;  // first fragment that is not CPU
        while (lo < hi) {
          size_t mid = (lo + hi) / 2;
          if (dt(mid) == ExecutorDeviceType::CPU) lo = mid + 1;
          else hi = mid;
        }
        auto cost = [&](size_t cpu) {
          double a = 0, b = 0;
          for (auto t : qi.templs) {
            a += ref_model(dm[ExecutorDeviceType::CPU][t], cpu);
            b += ref_model(dm[ExecutorDeviceType::GPU][t], qi.bytes_size - cpu);
          }
          return std::max(a, b);
        };
        if (qi.bytes_size == 0) {
          EXPECT(lo == N, "nothing to split", lo);
        } else {
          size_t step = std::ceil((float)qi.bytes_size / 1024);
          double best = INFINITY;
          for (size_t s = 0; s < qi.bytes_size; s += step) best = std::min(best, cost(s));
          // every split the schedule is consistent with
          double got = INFINITY;
          size_t from = (size_t)((long double)(lo ? lo - 1 : 0) / N * qi.bytes_size), to = (size_t)((long double)(lo + 1) / N * qi.bytes_size);
          if (N == qi.bytes_size) from = to = lo;
          for (size_t s = from / step * step; s < qi.bytes_size && s <= to + step; s += step)
            if (s + step >= from) got = N == qi.bytes_size && s != lo ? got : std::min(got, cost(s));
          EXPECT(got <= best * (1 + 1e-6) + 2 * qi.templs.size(), "worse split chosen", "bytes ", qi.bytes_size, " cpu part ", lo, "/", N, " predicted ", got, " best ", best);
          ev("splits judged");
        }
        EXPECT(p->getExecutionModes() == both_modes, "dispatch modes kept", "");
      }
    }
    // 4. unsupported sources are refused
    if (cn % 20 == 0) {
      auto refuse = [&](std::unique_ptr<TestSource> s) {
        try {
          IterativeCostModel model(CostModelConfig{std::move(s)});
        } catch (CostModelException&) {
          return true;
        }
        return false;
      };
      EXPECT(refuse(std::make_unique<TestSource>(std::set<ExecutorDeviceType>{ExecutorDeviceType::CPU})), "source without gpu accepted", "");
      EXPECT(refuse(std::make_unique<TestSource>(std::set<ExecutorDeviceType>{ExecutorDeviceType::GPU})), "source without cpu accepted", "");
      for (auto drop : {GroupBy, Scan, Join, Sort}) {
        std::set<AnalyticalTemplate> t{GroupBy, Scan, Join, Reduce, Sort};
        t.erase(drop);
        EXPECT(refuse(std::make_unique<TestSource>(std::set<ExecutorDeviceType>{ExecutorDeviceType::CPU, ExecutorDeviceType::GPU}, t)), "source without a template accepted", toString(drop));
      }
      EXPECT(!refuse(std::make_unique<TestSource>(std::set<ExecutorDeviceType>{ExecutorDeviceType::CPU, ExecutorDeviceType::GPU}, std::set<AnalyticalTemplate>{GroupBy, Scan, Join, Sort})), "good source refused", "");
    }
  }
}
// Predictions while calibrations replace the models: each uses one whole calibration.
static void mode_cconc() {
  CASES(6, 60) {
    std::string ctx = cat("case ", cn);
    note(ctx);
    auto src = std::make_unique<TestSource>();
    auto* sp = src.get();
    // Either the CPU or the GPU is hopeless, in all templates at once.
    auto fill = [&](bool cpu_slow) {
      for (auto t : {Scan, Sort, Join, GroupBy}) {
        sp->dm[ExecutorDeviceType::CPU][t] = {{0, 0}, {1000000, size_t(cpu_slow ? 1000000000 : 1)}};
        sp->dm[ExecutorDeviceType::GPU][t] = {{0, 0}, {1000000, size_t(cpu_slow ? 1 : 1000000000)}};
      }
    };
    fill(true);
    IterativeCostModel model(CostModelConfig{std::move(src)});
    model.calibrate({{ExecutorDeviceType::CPU, ExecutorDeviceType::GPU}});
    std::atomic<bool> stop{false};
    std::vector<std::thread> th;
    for (int t = 0; t < 3; ++t)
      th.emplace_back([&] {
        uint64_t c[3] = {0, 0, 0};
        while (!stop) {
          auto p = model.predict({{Scan, Join}, 1024}, both_modes);
          size_t ncpu = 0;
          for (size_t f = 0; f < 1024; ++f) ncpu += p->scheduleSingleFragment(frag(0, 0), f, 1024).dt == ExecutorDeviceType::CPU;
          eval();
          // all data on the GPU, or all but the smallest step on the CPU
          if (ncpu > 2 && ncpu < 1021) violation("mixed calibrations", cat(ctx, " ", ncpu, " of 1024 on the CPU"));
          ++c[ncpu <= 2 ? 0 : 1];
          usleep(3000);
        }
        ev("predictions with a slow cpu", c[0]);
        ev("predictions with a slow gpu", c[1]);
        distinct(cat(cn, ":", c[0], ":", c[1]));
      });
    for (int i = 0; i < 25; ++i) {
      fill(i % 2);
      model.calibrate({{ExecutorDeviceType::CPU, ExecutorDeviceType::GPU}});
      ev("calibrations");
      usleep(200);
    }
    stop = true;
    for (auto& t : th) t.join();
  }
}

// ------------------------------------------------------------------------------------------ config
template <class T>
static std::string fstr(const T& v) {
  if constexpr (std::is_same_v<T, std::string>) return v;
  else return cat(v);
}
static std::map<std::string, std::string> config_dump(const Config& c) {
  std::map<std::string, std::string> m;
#define F(path, type, opt, implicit) m[#path] = fstr(c.path);
#include "config_fields.inc"
#undef F
  m["debug_timer"] = fstr(g_enable_debug_timer);
  return m;
}
template <class T>
static T rand_val(Rng& r, const std::string& opt) {
  if constexpr (std::is_same_v<T, bool>) return r.chance(50);
  else if constexpr (std::is_same_v<T, std::string>) {
    return r.pick({std::string("intel"), std::string("/tmp/x.bin"), std::string("a b"), std::string("it's"), std::string("q\"q")});
  } else if constexpr (std::is_floating_point_v<T>) {
    if (opt == "gpu-input-mem-limit") return r.chance(20) ? r.pick({0.01, 0.99}) : 0.01 + (T)r.below(98) / 100;
    return (T)r.range(-40, 400) / 8;
  } else {
    if (opt == "hll-precision-bits") return r.range(1, 16);
    if (std::is_signed_v<T> && r.chance(30)) return -(T)r.below(30000);
    return r.chance(10) ? std::numeric_limits<T>::max() - r.below(2) : r.chance(50) ? r.below(30000) : (T)(r.next() >> (65 - 8 * sizeof(T) + r.below(7)));
  }
}
struct Opt {
  std::string path, opt, type;
  bool implicit;
};
static std::vector<Opt> all_opts() {
  std::vector<Opt> v;
#define F(path, type, opt, implicit) v.push_back({#path, opt, #type, implicit});
#include "config_fields.inc"
#undef F
  v.push_back({"debug_timer", "enable-debug-timer", "bool", true});
  return v;
}
static void rand_config(Rng& r, Config& c) {
#define F(path, type, opt, implicit) \
  if (r.chance(50)) c.path = rand_val<type>(r, opt);
#include "config_fields.inc"
#undef F
}
static std::string rand_text(Rng& r, const Opt& o, std::string& canon) {
  auto num = [&](auto v) {
    canon = fstr(v);
    return canon;
  };
  if (o.type == "bool") {
    bool v = r.chance(50);
    canon = fstr(v);
    return v ? r.pick({std::string("1"), std::string("true"), std::string("yes"), std::string("on")}) : r.pick({std::string("0"), std::string("false"), std::string("no"), std::string("off")});
  }
  if (o.type == "size_t") return num(rand_val<size_t>(r, o.opt));
  if (o.type == "unsigned") return num(rand_val<unsigned>(r, o.opt));
  if (o.type == "int64_t") return num(rand_val<int64_t>(r, o.opt));
  if (o.type == "short") return num(rand_val<short>(r, o.opt));
  if (o.type == "double") return num(rand_val<double>(r, o.opt));
  if (o.type == "float") return num(rand_val<float>(r, o.opt));
  return num(rand_val<std::string>(r, o.opt));
}
static std::string quote_unix(const std::string& s) {
  std::string q = "\"";
  for (char c : s) {
    if (c == '"' || c == '\'' || c == '\\') q += '\\';
    q += c;
  }
  return q + "\"";
}
static void mode_config() {
  auto opts = all_opts();
  std::vector<Opt> real;
  for (auto& o : opts)
    if (!o.opt.empty()) real.push_back(o);
  CASES(420, 8000) {
    Rng r = case_rng(cn);
    std::string ctx = cat("case ", cn);
    note(ctx);
    auto cfg = std::make_shared<Config>();
    bool preset = r.chance(60);
    if (preset) rand_config(r, *cfg);
    g_enable_debug_timer = r.chance(50);
    auto before = config_dump(*cfg);
    std::vector<std::string> args;
    std::map<std::string, std::string> want = before;
    int n = cn % 3 == 0 ? 1 : r.range(0, 12);
    std::set<std::string> used;
    for (int i = 0; i < n; ++i) {
      const Opt& o = cn % 3 == 0 ? real[(cn / 3 + st().shard * 37) % real.size()] : r.pick(real);
      if (!used.insert(o.opt).second) continue;
      if (o.implicit && r.chance(30)) {
        args.push_back("--" + o.opt);
        want[o.path] = "1";
      } else {
        std::string canon, text = rand_text(r, o, canon);
        if (o.type == "float") canon = fstr((float)atof(canon.c_str()));
        want[o.path] = canon;
        if (o.implicit || r.chance(60)) args.push_back("--" + o.opt + "=" + text);
        else if (!text.empty() && text[0] == '-') args.push_back("--" + o.opt + "=" + text);
        else {
          // implicit values of some numeric options are taken when the value is a separate word
          args.push_back("--" + o.opt + "=" + text);
        }
      }
      distinct(o.opt);
    }
    std::string line;
    for (auto& a : args) line += (line.empty() ? "" : " ") + (r.chance(50) || a.find_first_of(" '\"\\") != std::string::npos ? quote_unix(a) : a);
    ctx = cat("case ", cn, preset ? " preset" : "", " args: ", line);
    note(ctx);
    ConfigBuilder b(cfg);
    bool help = true;
    try {
      bool dbg = g_enable_debug_timer;
      if (r.chance(50)) {
        help = b.parseCommandLineArgs("app", line, r.chance(20));
      } else {
        std::vector<const char*> argv{"app"};
        for (auto& a : args) argv.push_back(a.c_str());
        help = b.parseCommandLineArgs((int)argv.size(), argv.data(), r.chance(20));
      }
      (void)dbg;
      EXPECT(!help, "help reported", "");
      EXPECT(b.config() == cfg, "config replaced", "");
      auto got = config_dump(*b.config());
      for (auto& [k, v] : want) EXPECT(got[k] == v, k == "" ? "" : (used.empty() || before[k] == v ? "untouched setting changed" : "setting"), k, " is ", got[k], " expected ", v, " (was ", before[k], ")");
      ev("settings compared", want.size());
      ev("options parsed", used.size());
    } catch (std::exception& e) {
      violation("valid options refused", cat(ctx, " ", e.what()));
    }
    // Bad input is refused.
    std::string bad;
    switch (r.below(7)) {
      case 0: bad = "--no-such-option-" + std::to_string(r.below(100)); break;
      case 1: bad = "--hll-precision-bits=" + r.pick({std::string("0"), std::string("17"), std::string("100"), std::string("4294967295")}); break;
      case 2: bad = "--gpu-input-mem-limit=" + r.pick({std::string("0"), std::string("0.009"), std::string("0.991"), std::string("1"), std::string("-0.5"), std::string("90")}); break;
      case 3: {
        const Opt* o;
        do o = &r.pick(real);
        while (o->type == "std::string");
        bad = "--" + o->opt + "=" + r.pick({std::string("abc"), std::string("1x"), std::string("tru e"), std::string("--")});
        break;
      }
      case 4: {
        const Opt* o;
        do o = &r.pick(real);
        while (o->type != "size_t" && o->type != "unsigned");
        bad = "--" + o->opt + "=" + r.pick({std::string("1.5"), std::string("99999999999999999999999"), std::string("0x10")});
        break;
      }
      case 5: bad = "--dump-after-all=40000"; break;
      default: bad = "--loop-join-limit=4294967296";
    }
    auto cfg2 = std::make_shared<Config>();
    bool thrown = false;
    try {
      ConfigBuilder(cfg2).parseCommandLineArgs("app", quote_unix(bad));
    } catch (std::exception&) {
      thrown = true;
    }
    EXPECT(thrown, "bad option accepted", bad);
    ev("bad options");
    if (cn % 50 == 0) {
      ConfigBuilder d;
      Config fresh;
      bool t = g_enable_debug_timer;
      d.parseCommandLineArgs("app", "");
      EXPECT(t == g_enable_debug_timer && config_dump(*d.config()) == config_dump(fresh), "defaults changed by parsing nothing", "");
      std::stringstream ss;
      auto* old = std::cout.rdbuf(ss.rdbuf());
      bool h = d.parseCommandLineArgs("app", "--help");
      std::cout.rdbuf(old);
      EXPECT(h, "help not reported", "");
      for (auto& o : real) EXPECT(ss.str().find("--" + o.opt) != std::string::npos, "option missing in help", o.opt);
    }
  }
}

// ------------------------------------------------------------------------------------------ logger
static void fatal_mark() noexcept {
  const char* p = getenv("VSVC_FATAL");
  int fd = open(p, O_WRONLY | O_CREAT | O_APPEND, 0644);
  if (fd >= 0) {
    (void)!write(fd, "F", 1);
    close(fd);
  }
}
struct LogLine {
  char sym;
  long pid;
  uint64_t qid, tid;
  std::string file, msg;
};
static bool parse_line(const std::string& l, LogLine& o) {
  static const std::regex re(R"(^\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d\.\d{6} ([4321IWEFRPA]) (\d+) (\d+) (\d+) (\S+):\d+ (.*)$)");
  std::smatch m;
  if (!std::regex_match(l, m, re)) return false;
  o.sym = m[1].str()[0];
  o.pid = std::stol(m[2]);
  o.qid = std::stoull(m[3]);
  o.tid = std::stoull(m[4]);
  o.file = m[5];
  o.msg = m[6];
  return true;
}
static std::vector<std::string> lines_of(const std::string& txt) {
  std::vector<std::string> v;
  std::stringstream s(txt);
  std::string l;
  while (std::getline(s, l)) v.push_back(l);
  return v;
}
static void mode_log() {
  using namespace logger;
  CASES(26, 300) {
    Rng r = case_rng(cn);
    std::string ctx = cat("case ", cn);
    note(ctx);
    Scratch sc;
    int sev = r.range(0, 6), clog = r.range(0, 7);
    bool to_files = r.chance(85);
    std::set<int> chans;
    for (int c = 0; c < 3; ++c)
      if (r.chance(40)) chans.insert(c);
    int nthreads = r.range(1, 6), nmsg = r.range(5, 120);
    bool rotate = r.chance(30), fatal = r.chance(40), as_check = r.chance(50), flush = r.chance(50);
    bool rel = r.chance(30);
    std::string logdir = sc.dir + "/logs";
    std::vector<std::string> args{"app", cat("--log-severity=", SeverityNames[sev]), cat("--log-severity-clog=", SeverityNames[clog]), cat("--log-max-files=", to_files ? 1000 : 0), cat("--log-auto-flush=", flush)};
    args.push_back(rel ? "--log-directory=logs" : "--log-directory=" + logdir);
    std::string cl;
    for (int c : chans) cl += (cl.empty() ? "" : " ") + std::string(ChannelNames[c]);
    if (!cl.empty()) args.push_back("--log-channels=" + cl);
    if (rotate) args.push_back("--log-rotation-size=2000"), args.push_back("--log-file-name=r.{SEVERITY}.%5N.log");
    ctx = cat("case ", cn, " severity ", SeverityNames[sev], " console ", SeverityNames[clog], " channels [", cl, "] threads ", nthreads, " rotate ", rotate, " fatal ", fatal, " files ", to_files);
    note(ctx);
    distinct(ctx);
    std::string errf = sc.dir + "/stderr", fatalf = sc.dir + "/fatal";
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
      int fd = open(errf.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
      dup2(fd, 2);
      setenv("VSVC_FATAL", fatalf.c_str(), 1);
      LogOptions lo("vsvc");
      if (rel) lo.set_base_path(sc.dir);
      std::vector<const char*> argv;
      for (auto& a : args) argv.push_back(a.c_str());
      lo.parse_command_line((int)argv.size(), argv.data());
      logger::init(lo);
      set_once_fatal_func(&fatal_mark);
      std::vector<std::thread> th;
      for (int t = 0; t < nthreads; ++t)
        th.emplace_back([=] {
          Rng q(st().seed * 77 + cn * 1000 + t);
          for (int i = 0; i < nmsg; ++i) {
            auto guard = set_thread_local_query_id(1000 + t);
            {
              auto inner = set_thread_local_query_id(5555);  // no effect inside
            }
            int s = q.range(0, 6);
            std::string pad(q.below(60), 'p');
            if (q.chance(20)) {
              int c = q.below(3);
              if (c == 0) LOG(IR) << "M" << t << "." << i << "." << "c" << c << " " << pad << " end";
              if (c == 1) LOG(PTX) << "M" << t << "." << i << "." << "c" << c << " " << pad << " end";
              if (c == 2) LOG(ASM) << "M" << t << "." << i << "." << "c" << c << " " << pad << " end";
            } else {
              SLOG(Severity(s)) << "M" << t << "." << i << "." << s << " " << pad << " end";
            }
          }
        });
      for (auto& t : th) t.join();
      if (query_id() != 0) LOG(ERROR) << "QID leaked";
      if (fatal) {
        int side = 0;
        auto f = [&](int v) {
          ++side;
          return v;
        };
        CHECK_EQ(f(3), 3);
        CHECK(f(1));
        CHECK_LT(f(2), 3);
        if (side != 3) LOG(ERROR) << "SIDE " << side;
        // With another severity than INFO for files, the message still has to come out.
        if (as_check) {
          CHECK_EQ(f(41), 42) << "FATALMSG";
        } else {
          LOG(FATAL) << "FATALMSG";
        }
        _exit(7);
      }
      logger::shutdown();
      LOG(ERROR) << "after shutdown";
      _exit(0);
    }
    int status = 0;
    waitpid(pid, &status, 0);
    if (getenv("VSHOW")) fputs(slurp(errf).c_str(), stderr);
    if (fatal) {
      EXPECT(WIFSIGNALED(status) && WTERMSIG(status) == SIGABRT, "fatal message does not abort", "status ", status);
      EXPECT(slurp(fatalf) == "F", "fatal function", "called ", slurp(fatalf).size(), " times");
    } else {
      EXPECT(WIFEXITED(status) && WEXITSTATUS(status) == 0, "logging process failed", "status ", status, " ", slurp(errf).substr(0, 1500));
      EXPECT(slurp(fatalf).empty(), "fatal function called", "");
    }
    // What each destination has to hold.
    struct Msg {
      int t, i, s;
    };
    std::vector<std::vector<std::pair<int, std::string>>> sent(nthreads);  // per thread: severity (or 100+channel), full text
    for (int t = 0; t < nthreads; ++t) {
      Rng q(st().seed * 77 + cn * 1000 + t);
      for (int i = 0; i < nmsg; ++i) {
        int s = q.range(0, 6);
        std::string pad(q.below(60), 'p');
        if (q.chance(20)) {
          int c = q.below(3);
          sent[t].push_back({100 + c, cat("M", t, ".", i, ".c", c, " ", pad, " end")});
        } else {
          sent[t].push_back({s, cat("M", t, ".", i, ".", s, " ", pad, " end")});
        }
      }
    }
    auto judge = [&](const std::string& dest, const std::vector<std::string>& lines, std::function<bool(int)> wanted, bool expect_fatal) {
      // Without auto flush an abort may lose what is still buffered.
      bool buffered = dest != "console" && fatal && !flush;
      std::vector<size_t> pos(nthreads, 0);
      bool fatal_seen = false;
      int count = 0;
      for (auto& l : lines) {
        LogLine o;
        bool ok = parse_line(l, o);
        if (dest == "console" && !ok) continue;  // sanitizer or boost output
        if (buffered && &l == &lines.back()) continue;
        EXPECT(ok, "malformed line", dest, ": ", show(l.substr(0, 200)));
        if (!ok) continue;
        EXPECT(o.pid == pid, "process id", dest, " ", o.pid, " is not ", pid);
        if (o.msg.find("FATALMSG") != std::string::npos) {
          fatal_seen = true;
          EXPECT(o.sym == 'F', "symbol", dest, " ", l);
          if (as_check) EXPECT(o.msg.find("f(41) == 42") != std::string::npos && o.msg.find("(41 == 42)") != std::string::npos, "text of a failed check", dest, " ", o.msg);
          continue;
        }
        EXPECT(o.msg.find("SIDE") != 0, "check operands", dest, " ", o.msg);
        EXPECT(o.msg.find("QID") != 0 && o.msg.find("after shutdown") != 0, "unexpected message", dest, " ", o.msg);
        if (o.msg[0] != 'M') continue;
        int t = atoi(o.msg.c_str() + 1);
        if (t < 0 || t >= nthreads) {
          EXPECT(false, "unknown thread", l);
          continue;
        }
        EXPECT(o.qid == uint64_t(1000 + t), "query id", dest, " ", l);
        // next wanted message of this thread
        while (pos[t] < sent[t].size() && !wanted(sent[t][pos[t]].first)) ++pos[t];
        if (pos[t] >= sent[t].size()) {
          EXPECT(false, "message that does not belong there", dest, ": ", l);
          continue;
        }
        auto& w = sent[t][pos[t]];
        EXPECT(o.msg == w.second, "message lost, repeated, reordered or torn", dest, ": got ", show(o.msg), " expected ", show(w.second));
        char sym = w.first >= 100 ? ChannelSymbols[w.first - 100] : SeveritySymbols[w.first];
        EXPECT(o.sym == sym, "symbol", dest, " ", l);
        ++pos[t];
        ++count;
      }
      for (int t = 0; t < nthreads; ++t) {
        while (pos[t] < sent[t].size() && !wanted(sent[t][pos[t]].first)) ++pos[t];
        if (!buffered) EXPECT(pos[t] == sent[t].size(), "messages missing", dest, " thread ", t, " stops at ", pos[t], " of ", sent[t].size());
      }
      if (!buffered) EXPECT(fatal_seen == expect_fatal, "fatal message", dest, " seen ", fatal_seen);
      ev("log lines judged", count);
      ev("destinations judged");
    };
    judge("console", lines_of(slurp(errf)), [&](int s) { return s < 100 && s >= clog; }, fatal);
    std::map<std::string, std::vector<std::string>> files;  // tag -> file names
    if (DIR* d = opendir(logdir.c_str())) {
      while (auto* e = readdir(d)) {
        std::string n = e->d_name;
        struct stat sb;
        if (n == "." || n == ".." || lstat((logdir + "/" + n).c_str(), &sb) || S_ISLNK(sb.st_mode)) continue;
        auto a = n.find('.');
        auto b = n.find('.', a + 1);
        files[n.substr(a + 1, b - a - 1)].push_back(n);
      }
      closedir(d);
    }
    if (!to_files) {
      EXPECT(files.empty(), "files without file logging", files.size());
      continue;
    }
    std::set<std::string> expect_tags;
    for (int l = std::max(4, sev); l < 8; ++l) expect_tags.insert(SeverityNames[l]);
    for (int c : chans) expect_tags.insert(ChannelNames[c]);
    for (auto& [tag, v] : files) {
      EXPECT(expect_tags.count(tag), "unexpected log file", v[0]);
      std::sort(v.begin(), v.end());
      if (!rotate) {
        EXPECT(v.size() == 1, "log files", tag, " ", v.size());
        std::string link = logdir + "/vsvc." + tag;
        char buf[512];
        ssize_t k = readlink(link.c_str(), buf, sizeof buf - 1);
        EXPECT(k > 0 && std::string(buf, k) == v[0], "symlink", link, " -> ", k > 0 ? std::string(buf, k) : "nothing");
      } else if (v.size() > 1) {
        ev("rotations", v.size() - 1);
        for (auto& f : v) {
          struct stat sb;
          stat((logdir + "/" + f).c_str(), &sb);
          EXPECT(sb.st_size <= 2000 + 400, "rotation size", f, " ", sb.st_size);
        }
      }
    }
    for (int l = std::max(4, sev); l < 8; ++l) {
      std::vector<std::string> all;
      for (auto& f : files[SeverityNames[l]])
        for (auto& x : lines_of(slurp(logdir + "/" + f))) all.push_back(x);
      int min = l == 4 ? sev : l;
      judge(SeverityNames[l], all, [&](int s) { return s < 100 && s >= min; }, fatal);
    }
    for (int c : chans) {
      std::vector<std::string> all;
      for (auto& f : files[ChannelNames[c]])
        for (auto& x : lines_of(slurp(logdir + "/" + f))) all.push_back(x);
      judge(ChannelNames[c], all, [&](int s) { return s == 100 + c; }, false);
    }
  }
}

#include "rapidjson/document.h"
// Timers: the reported tree is the nesting of the timers.
struct TNode {
  std::string name;
  bool thread = false;
  std::vector<TNode> kids;
};
static std::vector<std::string>& timer_names() {
  static auto* v = [] {
    auto* n = new std::vector<std::string>();
    for (int i = 0; i < 64; ++i) n->push_back(cat("t", i));
    return n;
  }();
  return *v;
}
static TNode run_timers(Rng& r, int depth, int& budget, bool threads) {
  int id = r.below(64);
  TNode n;
  n.name = timer_names()[id];
  auto t = DEBUG_TIMER(timer_names()[id].c_str());
  int kids = depth > 5 ? 0 : r.below(4);
  for (int k = 0; k < kids && budget > 0; ++k) {
    --budget;
    if (threads && r.chance(25)) {
      TNode tn;
      tn.thread = true;
      uint64_t seed = r.next();
      auto parent = logger::thread_id();
      std::thread th([&] {
        Rng q(seed);
        DEBUG_TIMER_NEW_THREAD(parent);
        int c = q.below(3);
        for (int i = 0; i < c; ++i) tn.kids.push_back(run_timers(q, depth + 2, budget, false));
      });
      th.join();
      n.kids.push_back(tn);
    } else {
      n.kids.push_back(run_timers(r, depth + 1, budget, threads));
    }
  }
  if (r.chance(30)) {
    std::string j = t.stopAndGetJson();
    eval();
    if (!j.empty()) violation("inner timer reports", j);
  } else if (r.chance(30)) {
    t.stop();
    t.stop();
  }
  return n;
}
static std::string tstr(const TNode& n) {
  std::string s = n.thread ? "<" : n.name + "(";
  for (auto& k : n.kids) s += tstr(k);
  return s + (n.thread ? ">" : ")");
}
static std::string jstr(const rapidjson::Value& v) {
  bool th = std::string(v["type"].GetString()) == "duration_tree";
  std::string s = th ? "<" : std::string(v["name"].GetString()) + "(";
  for (auto& k : v["children"].GetArray()) s += jstr(k);
  return s + (th ? ">" : ")");
}
static void mode_timer() {
  // Reports go to the JSON only.
  logger::LogOptions lo("vsvc");
  lo.max_files_ = 0;
  lo.severity_clog_ = logger::FATAL;
  logger::init(lo);
  CASES(500, 10000) {
    std::string ctx = cat("case ", cn);
    note(ctx);
    Rng r = case_rng(cn);
    g_enable_debug_timer = r.chance(90);
    auto work = [&](uint64_t seed, bool threads) {
      Rng q(seed);
      TNode root;
      root.name = "root";
      logger::DebugTimer t(logger::INFO, "f.cpp", 1, "root");
      int k = q.below(5), budget = 60;
      for (int i = 0; i < k; ++i) root.kids.push_back(run_timers(q, 1, budget, threads));
      std::string j = t.stopAndGetJson();
      if (!g_enable_debug_timer) {
        EXPECT(j.empty(), "report with timers off", j);
        return;
      }
      rapidjson::Document d;
      d.Parse(j.c_str());
      bool ok = !d.HasParseError() && d.HasMember("timer") && d["timer"].HasMember("children");
      EXPECT(ok, "report", j);
      if (!ok) return;
      EXPECT(jstr(d["timer"]) == tstr(root), "timer tree", "reported ", jstr(d["timer"]), " expected ", tstr(root));
      EXPECT(t.stopAndGetJson().empty(), "second report", "");
      distinct(tstr(root));
      ev("trees compared");
    };
    int nt = r.chance(40) ? r.range(2, 4) : 0;
    bool threads = r.chance(50);
    if (!nt) work(r.next(), threads);
    std::vector<std::thread> th;
    for (int t = 0; t < nt; ++t) th.emplace_back(work, r.next(), threads);
    for (auto& t : th) t.join();
  }
  g_enable_debug_timer = false;
}

int main(int argc, char** argv) {
  init(argc, argv);
  auto& m = st().mode;
  if (m == "sqlite") mode_sqlite();
  else if (m == "schema") mode_schema();
  else if (m == "sconc") mode_sconc();
  else if (m == "cost") mode_cost();
  else if (m == "cconc") mode_cconc();
  else if (m == "config") mode_config();
  else if (m == "log") mode_log();
  else if (m == "timer") mode_timer();
  else return 2;
  return finish();
}
