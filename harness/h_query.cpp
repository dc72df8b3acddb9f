// End-to-end query monitoring: random tables and queries through the public builder and executor, compared row by row
// with a reference evaluator that shares no code with the engine.
#include "vrel.h"

#include "QueryEngine/ExtensionFunctionsWhitelist.h"

#include <chrono>
using namespace vq;

static const char* NOFIND = "";

// An exception the engine documents as "cannot do this"; anything else that escapes is a violation.
static bool is_refusal(const std::exception& e, string& what) {
  what = e.what();
  return true;
}

struct Ctx {
  Rng& r;
  Engine& e;
  QueryBuilder qb;
  Ctx(Rng& r, Engine& e) : r(r), e(e), qb(e.builder()) {}
};

static int run_cases(long quick, long thorough, std::function<void(Rng&, long)> f) {
  auto& s = vh::st();
  long n = s.thorough ? thorough : quick;
  for (long i = 0; i < n && !vh::too_many(); ++i) {
    if (s.only_case >= 0 && i != s.only_case) continue;
    Rng r = vh::case_rng(i);
    f(r, i);
  }
  return 0;
}

static std::map<string, int> refused_seen;
static void refused(const string& ctx, const string& what) {
  string w = what.substr(0, 160);
  for (auto& c : w) if (isdigit((unsigned char)c)) c = '#';
  if (refused_seen[w]++ == 0 && getenv("VH_REFUSALS")) fprintf(stderr, "REFUSED %s: %s\n", ctx.substr(0, 300).c_str(), what.substr(0, 300).c_str());
  vh::ev("refused");
}

// ------------------------------------------------------------------ expr
// dates are stored in days and delivered in seconds
static Val norm_out(const Val& v, K k) { return k == DATE && !v.isNull() ? Val::I(v.i * 86400) : v; }

static void mode_expr(Engine& eng) {
  run_cases(60, 700, [&](Rng& r, long n) {
    TabGen tg(r, *eng.storage);
    TabOpts o;
    o.rows = r.pick({0, 1, 7, 40, 40, 120});
    o.null_pct = r.pick({0, 15, 15, 60});
    o.small_range = r.chance(25);
    Tab t = tg.make("t", o);
    tg.store(t);
    int nq = 8;
    for (int q = 0; q < nq; ++q) {
      auto qb = eng.builder();
      auto scan = qb.scan("t");
      string text;
      try {
        BuilderNode cur = scan;
        Gen g0(r, qb, *eng.storage, t.cols, [&](size_t i) { return cur.ref(t.cols[i].name); });
        std::vector<E> filt, proj;
        bool use_filter = r.chance(70);
        if (use_filter) {
          filt.push_back(g0.gen(BOOL, 1 + r.below(4)));
          cur = scan.filter(filt[0].b);
        }
        Gen g(r, qb, *eng.storage, t.cols, [&](size_t i) { return cur.ref(t.cols[i].name); });
        int np = 1 + r.below(4);
        for (int p = 0; p < np; ++p) proj.push_back(g.gen(r.pick({INT, INT, FP, BOOL, STR, DATE, TS, DEC}), r.below(4)));
        std::vector<BuilderExpr> pe{cur.ref("id")};
        std::vector<string> names{"rid"};
        for (auto& p : proj) {
          pe.push_back(p.b);
          names.push_back("c" + std::to_string(names.size()));
        }
        text = use_filter ? "filter " + filt[0].t : "all";
        for (auto& p : proj) text += " ; " + p.t;
        vh::note(cat("case ", n, " q", q, ": ", text));
        if (vh::st().only_case >= 0 && getenv("VH_V")) fprintf(stderr, "q%d %s\n", q, text.c_str());
        auto res = eng.run(cur.proj(pe, names).finalize());
        auto got = fetch(res);
        // reference
        std::map<i64, Row> want;
        for (auto& row : t.rows) {
          if (use_filter) {
            Val v = filt[0].f(row);
            if (v.isNull() || !v.i) continue;
          }
          Row o{row[0]};
          for (auto& p : proj) o.push_back(norm_out(p.f(row), p.k));
          want[row[0].i] = o;
        }
        vh::eval(t.rows.size());
        vh::ev("queries");
        vh::ev("rows_out", got.size());
        vh::distinct(text);
        std::vector<double> tol{0};
        for (auto& p : proj) tol.push_back(p.k == FP ? (p.b.type()->size() == 4 ? 1e-5 : 1e-9) : 0);
        std::set<i64> seen;
        for (auto& row : got) {
          i64 id = row[0].i;
          if (!seen.insert(id).second) vh::violation("row-twice", cat(text, " id ", id));
          auto it = want.find(id);
          if (it == want.end()) {
            vh::violation("row-not-expected", cat(text, " case ", n, " q", q, " got ", show(row), " source ", id < (i64)t.rows.size() ? show(t.rows[id]) : "?"));
            break;
          }
          if (!same(row, it->second, tol)) {
            vh::violation("wrong-value", cat(text, " case ", n, " q", q, " got ", show(row), " want ", show(it->second), " source ", show(t.rows[id])));
            break;
          }
        }
        if (got.size() < want.size())
          for (auto& [id, row] : want)
            if (!seen.count(id)) {
              vh::violation("row-missing", cat(text, " case ", n, " q", q, " want ", show(row), " source ", show(t.rows[id])));
              break;
            }
      } catch (std::logic_error& e) {
        vh::violation("result-type", cat(e.what(), " in ", text));
      } catch (std::exception& e) {
        refused(text, e.what());
      }
    }
    eng.storage->drop(t.id);
  });
}


// ------------------------------------------------------------------ pipelines
struct Tables {
  std::vector<Tab> t;
  void drop(Storage& st) { for (auto& x : t) if (x.id > 0) { st.drop(x.id); x.id = -1; } }
};

static Tab make_tab(Rng& r, Storage& st, const string& name, const string& prefix, const TabOpts& o) {
  TabGen tg(r, st);
  Tab t = tg.make(name, o);
  for (auto& c : t.cols) c.name = prefix + c.name;
  return t;
}

// a projection to a few columns: "id" first when keep_id
static Rel some_proj(Rng& r, QueryBuilder& qb, Storage& st, const Rel& in, int n, bool keep_id, const string& prefix, int depth = 2) {
  Gen g = gen_of(r, qb, st, in);
  std::vector<E> es;
  if (keep_id) es.push_back(g.col(0));
  for (int i = 0; i < n; ++i) {
    E e;
    try {
      e = r.chance(60) ? g.col(r.below(in.cols.size())) : g.gen(r.pick({INT, INT, INT, FP, BOOL, STR, DATE, TS, DEC}), r.below(depth + 1));
    } catch (Skip&) {
      e = g.col(r.below(in.cols.size()));
    }
    es.push_back(e);
  }
  return op_proj(in, es, prefix);
}
static Rel maybe_filter(Rng& r, QueryBuilder& qb, Storage& st, const Rel& in, int pct, int depth = 3) {
  if (!r.chance(pct)) return in;
  Gen g = gen_of(r, qb, st, in);
  try {
    return op_filter(in, g.gen(BOOL, 1 + r.below(depth)));
  } catch (Skip&) {
    return in;
  }
}

static Rel make_agg(Rng& r, QueryBuilder& qb, Storage& st, const Tables& T, const AggOpts& ao = {}) {
  Rel rel = scan(qb, T.t[0]);
  rel = maybe_filter(r, qb, st, rel, 40);
  if (r.chance(60)) rel = some_proj(r, qb, st, rel, 2 + r.below(5), false, "p");
  int keys = r.pick({0, 1, 1, 1, 2, 2, 3, 4});
  rel = op_agg(r, qb, rel, keys, 1 + r.below(4), ao, "x");
  bool has_loose = !rel.loose.empty() || rel.empty_global || rel.has_distinct;
  if (!has_loose && r.chance(25)) {
    bool arr = false;
    for (auto& c : rel.cols) arr |= c.k == STR && c.w == 0;
    if (!arr) {
      if (r.chance(50)) rel = maybe_filter(r, qb, st, rel, 100, 2);
      else rel = some_proj(r, qb, st, rel, 2, false, "q");
      if (r.chance(30)) rel = op_agg(r, qb, rel, r.below(2), 1, ao, "y");
    }
  }
  return rel;
}

static E join_cond(Rng& r, QueryBuilder& qb, Storage& st, const Rel& a, const Rel& b) {
  auto cols = std::make_shared<std::vector<Col>>(a.cols);
  cols->insert(cols->end(), b.cols.begin(), b.cols.end());
  BuilderNode an = a.node, bn = b.node;
  size_t na = a.cols.size();
  auto names = std::make_shared<std::vector<string>>();
  for (auto& c : *cols) names->push_back(c.name);
  static thread_local std::shared_ptr<std::vector<Col>> keep;
  keep = cols;
  Gen g(r, qb, st, *cols, [an, bn, na, names](size_t i) { return i < na ? an.ref((*names)[i]) : bn.ref((*names)[i]); });
  std::vector<std::pair<size_t, size_t>> pairs;
  // Hash tables over no values are outside of what is decided here (see DESIGN.md).
  auto some = [](const Rel& x, size_t c) { for (auto& row : x.rows) if (!row[c].isNull()) return true; return false; };
  for (size_t i = 0; i < na; ++i)
    for (size_t j = na; j < cols->size(); ++j) {
      auto &x = (*cols)[i], &y = (*cols)[j];
      if (x.k != y.k) continue;
      if (x.k == FP || x.k == BOOL || x.k == TS || x.k == DATE || x.k == DEC || (x.k == STR && (x.w == 0 || y.w == 0))) continue;
      if (x.w != y.w || x.type->size() != y.type->size() || x.derived || y.derived) continue;
      if (!some(a, i) || !some(b, j - na)) continue;
      pairs.push_back({i, j});
    }
  if (pairs.empty()) throw Skip();
  auto p = r.pick(pairs);
  E x = g.col(p.first), y = g.col(p.second), c;
  c.k = BOOL;
  if (r.chance(30)) std::swap(x, y);
  c.b = x.b == y.b;
  c.f = Gen::bin(x.f, y.f, [](auto& u, auto& v) { return Val::I(u == v); });
  c.t = "(" + x.t + "=" + y.t + ")";
  return c;
}

// columns of plain text are not joined in: see DESIGN.md
static Rel scan_no_text(QueryBuilder& qb, const Tab& t) {
  Rel o = scan(qb, t);
  for (size_t i = o.cols.size(); i-- > 0;)
    if (o.cols[i].k == STR && o.cols[i].w == 0) {
      o.cols.erase(o.cols.begin() + i);
      for (auto& row : o.rows) row.erase(row.begin() + i);
    }
  return o;
}
static Rel make_join(Rng& r, QueryBuilder& qb, Storage& st, const Tables& T) {
  Rel a = scan_no_text(qb, T.t[0]), b = scan_no_text(qb, T.t[1]);
  JoinType jt = r.pick({JoinType::INNER, JoinType::INNER, JoinType::LEFT});
  Rel j = op_join(a, b, join_cond(r, qb, st, a, b), jt, jt == JoinType::INNER ? "inner" : "left");
  if (j.rows.size() > 20000) throw Skip();
  for (auto& c : j.cols) c.derived = true;
  if (r.chance(40)) {
    AggOpts ao;
    ao.approx = ao.topk = ao.sample = ao.distinct = false;
    return op_agg(r, qb, j, r.below(3), 1 + r.below(3), ao, "x");
  }
  return some_proj(r, qb, st, j, 2 + r.below(4), true, "z", 1);
}

static Rel with_sort(Rng& r, QueryBuilder& qb, const Rel& in) {
  std::vector<SortKey> ks;
  int n = 1 + r.below(3);
  for (int i = 0; i < n; ++i) {
    size_t ix = r.below(in.cols.size());
    auto& c = in.cols[ix];
    if (c.k == FP && !c.exact) continue;
    if (c.k == STR && c.w == 0) continue;
    if (!in.loose.empty() && in.loose.count({0, ix})) continue;
    bool dup = false;
    for (auto& k : ks) dup |= k.ix == ix;
    if (!dup) ks.push_back({ix, r.chance(50), r.chance(50)});
  }
  if (ks.empty()) throw Skip();
  size_t limit = r.chance(50) ? r.pick({1, 2, 5, 20, 1000}) : 0, offset = r.chance(25) ? r.pick({1, 3, 10, 500}) : 0;
  return op_sort(in, ks, limit, offset);
}
static Rel make_sort(Rng& r, QueryBuilder& qb, Storage& st, const Tables& T) {
  Rel rel;
  AggOpts ao;
  ao.topk = ao.approx = false;
  switch (r.below(4)) {
    case 0: rel = make_agg(r, qb, st, T, ao); break;
    
    default: {
      rel = scan(qb, T.t[0]);
      rel = maybe_filter(r, qb, st, rel, 40);
      rel = some_proj(r, qb, st, rel, 1 + r.below(5), r.chance(50), "p");
    }
  }
  return with_sort(r, qb, rel);
}

// ------------------------------------------------------------------ window functions
static E gen_window(Rng& r, QueryBuilder& qb, const Rel& in, bool& need_total) {
  std::vector<size_t> parts;
  int np = r.pick({0, 1, 1, 2});
  for (int i = 0; i < np; ++i) {
    size_t ix = 1 + r.below(in.cols.size() - 1);
    if (groupable(in.cols[ix]) && in.cols[ix].k != FP && in.cols[ix].k != BOOL && in.cols[ix].k != TS && in.cols[ix].k != DATE) parts.push_back(ix);
  }
  std::sort(parts.begin(), parts.end());
  parts.erase(std::unique(parts.begin(), parts.end()), parts.end());
  int fn = r.below(14);
  bool order = fn < 9 || r.chance(50);
  bool total = !(fn == 1 || fn == 2 || fn == 3);  // rank-like functions are defined with ties
  std::vector<SortKey> ks;
  if (order) {
    int n = r.pick({0, 1, 1, 2});
    for (int i = 0; i < n; ++i) {
      size_t ix = 1 + r.below(in.cols.size() - 1);
      auto& c = in.cols[ix];
      if ((c.k == FP && !c.exact) || (c.k == STR)) continue;
      bool dup = false;
      for (auto& k : ks) dup |= k.ix == ix;
      if (!dup) ks.push_back({ix, r.chance(50), r.chance(50)});
    }
    if (total || ks.empty()) ks.push_back({0, r.chance(50), r.chance(50)});
  }
  size_t ax = r.below(in.cols.size());
  const Col ac = in.cols[ax];
  auto ref = in.node.ref(ac.name);
  E e;
  bool num = ac.k == INT || ac.k == FP || ac.k == DEC;
  int n = r.pick({1, 1, 2, 5, 0});
  e.k = INT;
  e.bound = 1e6;
  switch (fn) {
    case 0: e.b = qb.rowNumber(); e.t = "row_number"; break;
    case 1: e.b = qb.rank(); e.t = "rank"; break;
    case 2: e.b = qb.denseRank(); e.t = "dense_rank"; break;
    case 3: e.b = qb.percentRank(); e.t = "percent_rank"; e.k = FP; e.exact = false; break;
    case 4: n = r.pick({1, 2, 3, 7}); e.b = qb.nTile(n); e.t = cat("ntile", n); break;
    case 5: case 6: case 7: case 8:
      if (ac.k == STR && ac.w == 0) throw Skip();
      if (!ac.nullable && fn < 7) throw Skip();  // the builder gives them the type of the column: see DESIGN.md
      e.k = ac.k;
      e.bound = ac.bound;
      e.exact = ac.exact;
      e.w = ac.w;
      if (fn == 5) { e.b = ref.lag(n); e.t = cat("lag(", ac.name, ",", n, ")"); }
      if (fn == 6) { e.b = ref.lead(n); e.t = cat("lead(", ac.name, ",", n, ")"); }
      if (fn == 7) { e.b = ref.firstValue(); e.t = "first_value(" + ac.name + ")"; }
      if (fn == 8) { e.b = ref.lastValue(); e.t = "last_value(" + ac.name + ")"; }
      break;
    case 9: if (ac.k == STR && ac.w == 0) throw Skip(); e.b = ref.count(); e.t = "count(" + ac.name + ")"; break;
    case 10: if (!num) throw Skip(); e.b = ref.sum(); e.t = "sum(" + ac.name + ")"; e.k = ac.k; e.w = ac.w; e.exact = ac.exact; e.bound = ac.bound * in.rows.size(); break;
    case 11: if (!num) throw Skip(); e.b = ref.avg(); e.t = "avg(" + ac.name + ")"; e.k = FP; e.exact = false; break;
    default:
      if (!num && ac.k != TS) throw Skip();
      if ((ac.k == INT || ac.k == FP) && ac.w != 64) throw Skip();  // narrow columns: see DESIGN.md
      e.b = fn == 12 ? ref.min() : ref.max();
      e.t = cat(fn == 12 ? "min(" : "max(", ac.name, ")");
      e.k = ac.k; e.w = ac.w; e.exact = ac.exact; e.bound = ac.bound;
  }
  std::vector<BuilderExpr> pk;
  e.t += " over(";
  for (size_t p : parts) { pk.push_back(in.node.ref(in.cols[p].name)); e.t += in.cols[p].name + " "; }
  e.b = pk.empty() ? e.b.over() : e.b.over(pk);
  if (!ks.empty()) {
    std::vector<hdk::ir::BuilderOrderByKey> ok;
    e.t += "order";
    for (auto& k : ks) {
      ok.emplace_back(in.node.ref(in.cols[k.ix].name), k.desc ? SortDirection::Descending : SortDirection::Ascending, k.nulls_first ? NullSortedPosition::First : NullSortedPosition::Last);
      e.t += cat(" ", in.cols[k.ix].name, k.desc ? " desc" : "", k.nulls_first ? " nf" : " nl");
    }
    e.b = e.b.orderBy(ok);
  }
  e.t += ")";
  if (e.k == INT || e.k == FP) e.w = e.b.type()->size() * 8;
  // reference
  auto out = std::make_shared<std::map<i64, Val>>();
  std::map<Row, std::vector<const Row*>> groups;
  for (auto& row : in.rows) {
    Row k;
    for (size_t p : parts) k.push_back(row[p]);
    groups[k].push_back(&row);
  }
  for (auto& [k, g] : groups) {
    std::stable_sort(g.begin(), g.end(), [&](const Row* a, const Row* b) { return cmp_keys(*a, *b, ks) < 0; });
    size_t N = g.size(), rank = 0, dense = 0;
    for (size_t i = 0; i < N; ++i) {
      if (i == 0 || cmp_keys(*g[i - 1], *g[i], ks) != 0) { rank = i + 1; ++dense; }
      Val v;
      switch (fn) {
        case 0: v = Val::I(i + 1); break;
        case 1: v = Val::I(rank); break;
        case 2: v = Val::I(dense); break;
        case 3: v = Val::D(N == 1 ? 0.0 : (double)(rank - 1) / (N - 1)); break;
        case 4: {
          size_t tile = (N + n - 1) / n;  // full tiles first
          v = Val::I(i / tile + 1);
          break;
        }
        case 5: v = i >= (size_t)n ? (*g[i - n])[ax] : Val::null(); break;
        case 6: v = i + n < N ? (*g[i + n])[ax] : Val::null(); break;
        case 7: v = (*g[0])[ax]; break;
        case 8: v = (*g[i])[ax]; break;  // the frame ends at the current row
        default: {
          size_t end = ks.empty() ? N : i + 1;
          std::vector<Val> vs;
          for (size_t j = 0; j < end; ++j) if (!(*g[j])[ax].isNull()) vs.push_back((*g[j])[ax]);
          if (fn == 9) v = Val::I(vs.size());
          else if (vs.empty()) v = Val::null();
          else if (fn == 12) v = *std::min_element(vs.begin(), vs.end());
          else if (fn == 13) v = *std::max_element(vs.begin(), vs.end());
          else {
            i64 s = 0;
            double d = 0;
            for (auto& x : vs) { s += x.k == Val::Int ? x.i : 0; d += fn == 11 ? scaled(x, ac) : x.num(); }
            v = fn == 11 ? Val::D(d / vs.size()) : ac.k == FP ? Val::D(d) : Val::I(s);
          }
        }
      }
      (*out)[(*g[i])[0].i] = v;
    }
  }
  e.f = [out](const Row& row) { return out->at(row[0].i); };
  return e;
}
static Rel make_window(Rng& r, QueryBuilder& qb, Storage& st, const Tables& T) {
  Rel rel = scan(qb, T.t[0]);
  if (r.chance(30)) {
    rel = maybe_filter(r, qb, st, rel, 60);
    rel = some_proj(r, qb, st, rel, 5, true, "p", 1);
  }
  Gen g = gen_of(r, qb, st, rel);
  std::vector<E> es{g.col(0)};
  int n = 1 + r.below(3);
  for (int i = 0; i < n; ++i) {
    bool t;
    for (int k = 0; k < 20; ++k) {
      try {
        es.push_back(gen_window(r, qb, rel, t));
        break;
      } catch (Skip&) {
      }
    }
  }
  if (r.chance(30)) es.push_back(g.col(r.below(rel.cols.size())));
  return op_proj(rel, es, "w");
}

// ------------------------------------------------------------------ running
enum class Kind { Agg, Join, Sort, Window };
static Rel make(Kind k, Rng& r, QueryBuilder& qb, Storage& st, const Tables& T) {
  for (int i = 0;; ++i) {
    try {
      switch (k) {
        case Kind::Agg: return make_agg(r, qb, st, T);
        case Kind::Join: return make_join(r, qb, st, T);
        case Kind::Sort: return make_sort(r, qb, st, T);
        case Kind::Window: return make_window(r, qb, st, T);
      }
    } catch (Skip&) {
      if (i > 50) throw std::runtime_error("nothing to generate");
    }
  }
}
static Tables make_tables(Rng& r, Storage& st, Kind k) {
  Tables T;
  std::vector<const Type*> dicts{st.newDictType(), st.newDictType()};
  int n = k == Kind::Join ? 2 + r.below(2) : 1;
  for (int i = 0; i < n; ++i) {
    TabOpts o;
    o.dicts = dicts;
    o.rows = k == Kind::Join || n > 1 ? r.pick({0, 1, 5, 30, 60}) : r.pick({0, 1, 10, 60, 60, 300});
    if (n == 1 && k != Kind::Window && r.chance(5)) o.rows = 3000;
    o.null_pct = r.pick({0, 15, 15, 60});
    o.small_range = r.chance(n > 1 ? 60 : 40);
    T.t.push_back(make_tab(r, st, "t" + std::to_string(i), i ? string(1, 'q' + i) + "_" : "", o));
    TabGen tg(r, st);
    tg.store(T.t.back());
  }
  return T;
}

// Execution settings that must not change any answer.
static string random_settings(Rng& r, Config& c) {
  static const Config defaults = c;
  c.rs = defaults.rs;
  c.exec = defaults.exec;
  c.opts = defaults.opts;
  string d;
  static const int only = getenv("VH_SET") ? atoi(getenv("VH_SET")) : -1;
  static const string skip = getenv("VH_SKIP") ? string(",") + getenv("VH_SKIP") + "," : "";
  int k = 0;
  auto on = [&] { return (only < 0 || only == k) && skip.find(cat(",", k, ",")) == string::npos; };
  auto flag = [&](const char* n, bool& f) {
    if (r.chance(30) && on()) {
      f = !f;
      d += cat(" ", n, "=", f);
    }
    ++k;
  };
  auto num = [&](const char* n, auto& f, std::initializer_list<int> vs) {
    const int v = r.pick(vs);
    if (r.chance(30) && on()) {
      f = v;
      d += cat(" ", n, "=", v);
    }
    ++k;
  };
  flag("columnar_output", c.rs.enable_columnar_output);
  flag("row_init", c.rs.optimize_row_initialization);
  flag("direct_columnarization", c.rs.enable_direct_columnarization);
  flag("lazy_fetch", c.rs.enable_lazy_fetch);
  flag("multifrag_rs", c.exec.enable_multifrag_rs);
  flag("multifrag_result", c.exec.enable_multifrag_execution_result);
  flag("hoist", c.exec.codegen.hoist_literals);
  flag("filter_function", c.exec.codegen.enable_filter_function);
  flag("multifrag_kernels", c.exec.group_by.enable_cpu_multifrag_kernels);
  flag("partitioned_groupby", c.exec.group_by.enable_cpu_partitioned_groupby);
  flag("table_reordering", c.opts.from_table_reordering);
  flag("left_join_hoisting", c.opts.enable_left_join_filter_hoisting);
  flag("inner_materialize", c.exec.materialize_inner_join_tables);
  flag("window_par", c.exec.window_func.parallel_window_partition_compute);
  flag("window_sort", c.exec.window_func.parallel_window_partition_sort);
  num("window_par_at", c.exec.window_func.parallel_window_partition_compute_threshold, {0, 1, 10});
  num("window_sort_at", c.exec.window_func.parallel_window_partition_sort_threshold, {0, 1, 10});
  num("topn_max", c.exec.streaming_topn_max, {0, 1, 3});
  num("parallel_top_min", c.exec.parallel_top_min, {0, 1, 20});
  num("linearize_at", c.exec.parallel_linearization_threshold, {0, 1, 20});
  flag("sub_tasks", c.exec.sub_tasks.enable);
  num("sub_task_size", c.exec.sub_tasks.sub_task_size, {1, 3, 50});
  num("groups_guess", c.exec.group_by.default_max_groups_buffer_entry_guess, {1, 4, 64});
  num("big_group", c.exec.group_by.big_group_threshold, {1, 10});
  num("baseline", c.exec.group_by.baseline_threshold, {1, 10});
  num("loop_join", c.exec.join.trivial_loop_join_threshold, {0, 1000000});
  num("in_threshold", c.opts.constrained_by_in_threshold, {0, 1000});
  num("partition_at", c.exec.group_by.partitioning_buffer_size_threshold, {1, 1000});
  num("min_partitions", c.exec.group_by.min_partitions, {1, 4});
  return d;
}
static void mode_pipeline(Engine& eng, Kind kind, long quick, long thorough, bool settings = false) {
  run_cases(quick, thorough, [&](Rng& r, long n) {
    string set;
    if (settings) {
      set = random_settings(r, *eng.config);
      kind = r.pick({Kind::Agg, Kind::Agg, Kind::Sort, Kind::Join, Kind::Window});
      vh::ev("settings_changed", !set.empty());
      vh::distinct(set);
    }
    Tables T = make_tables(r, *eng.storage, kind);
    for (int q = 0; q < 8; ++q) {
      auto qb = eng.builder();
      string text = "(building)";
      try {
        Rel rel = make(kind, r, qb, *eng.storage, T);
        text = rel.text + (set.empty() ? "" : " WITH" + set);
        vh::note(cat("case ", n, " q", q, ": ", text));
        if (vh::st().only_case >= 0 && getenv("VH_V")) fprintf(stderr, "q%d %s\n", q, text.c_str());
        if (vh::st().only_case >= 0 && getenv("VH_Q") && atoi(getenv("VH_Q")) != q) continue;
        auto res = eng.run(rel.node.finalize());
        auto got = fetch(res);
        vh::eval(rel.rows.size() + 1);
        vh::ev("queries");
        vh::ev("rows_out", got.size());
        vh::distinct(text);
        if (vh::st().only_case >= 0 && getenv("VH_VV")) {
          for (auto& t : T.t) { for (auto& c : t.cols) fprintf(stderr, "%s ", c.name.c_str()); fprintf(stderr, "\n"); for (auto& row : t.rows) fprintf(stderr, "%s\n", show(row).c_str()); }
          for (auto& row : got) fprintf(stderr, "GOT %s\n", show(row).c_str());
        }
        string bad = verify(rel, got);
        if (!bad.empty()) vh::violation("wrong-result", cat("case ", n, " q", q, " ", text, ": ", bad));
      } catch (std::logic_error& e) {
        vh::violation("result-type", cat("case ", n, " q", q, " ", e.what(), " in ", text));
      } catch (std::exception& e) {
        refused(text, e.what());
      }
    }
    T.drop(*eng.storage);
  });
}

int main(int argc, char** argv) {
  vh::init(argc, argv);
  logger::LogOptions lo("h_query");
  lo.severity_ = logger::Severity::FATAL;
  lo.severity_clog_ = logger::Severity::FATAL;
  logger::init(lo);
  auto& m = vh::st().mode;
  ExtensionFunctionsWhitelist::add(R"([{"name":"power","ret":"double","args":["double","double"]},
    {"name":"Ceil","ret":"double","args":["double"]},{"name":"Ceil__","ret":"float","args":["float"]},
    {"name":"Floor","ret":"double","args":["double"]},{"name":"Floor__","ret":"float","args":["float"]}])");
  Engine eng;
  if (m == "expr") mode_expr(eng);
  if (m == "agg") mode_pipeline(eng, Kind::Agg, 60, 700);
  if (m == "join") mode_pipeline(eng, Kind::Join, 60, 700);
  if (m == "sort") mode_pipeline(eng, Kind::Sort, 60, 700);
  if (m == "window") mode_pipeline(eng, Kind::Window, 60, 700);
  if (m == "settings") mode_pipeline(eng, Kind::Agg, 60, 700, true);
  return vh::finish();
}
