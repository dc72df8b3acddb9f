// Query plans as values: what QueryBuilder builds, what the plan nodes say about themselves and what the canonicalizer
// turns a plan into, judged by an interpreter of plans and by a reference evaluation made while the plan was requested.
#include "vinterp.h"

#include "IR/ExprCollector.h"
#include "IR/InputRewriter.h"
#include "QueryBuilder/QueryBuilder.h"
#include "QueryOptimizer/CanonicalizeQuery.h"

using namespace hdk::ir;
using namespace vh;
using ve::Row;
using ve::Rows;
using ve::Val;
using std::string;
using std::vector;
using vi::Interp;

struct BN : BuilderNode {
  BN(const QueryBuilder* b, NodePtr n) : BuilderNode(b, n) {}
};
struct RC {
  string name;
  char k;         // i integer, f fp64, d decimal, b boolean, t text
  double mx;      // bound of |value|
  bool approx = false;
  bool hidden = false;
};
struct SK { size_t ix; bool desc, nf; };
struct R {
  BuilderNode n;
  vector<RC> cols;
  Rows rows;              // reference rows, numbers as Val::D
  vector<SK> order;       // the order the rows must come in
  string txt;
  bool scan = false;
};
struct X {
  BuilderExpr e;
  std::function<Val(const Row&)> f;
  char k;
  double mx;
  bool approx = false;
  string txt;
};

static int cmpk(const Row& a, const Row& b, const vector<SK>& ks) {
  for (auto& k : ks) {
    int c = Interp::cmp_null(a[k.ix], b[k.ix], k.desc, k.nf);
    if (c) return c;
  }
  return 0;
}

static bool near(const Val& a, const Val& b, bool approx) {
  if (a.isNull() || b.isNull()) return a.isNull() && b.isNull();
  if (a.k == Val::Str || b.k == Val::Str) return a == b;
  if (a.d == b.d) return true;
  return approx && std::fabs(a.d - b.d) <= 1e-6 * (1 + std::max(std::fabs(a.d), std::fabs(b.d)));
}
// exact columns first, so that rows pair up however the approximate ones differ in the last digits
static Rows canon_rows(Rows r, const vector<RC>& cols) {
  std::sort(r.begin(), r.end(), [&](const Row& a, const Row& b) {
    for (int ap = 0; ap < 2; ++ap)
      for (size_t i = 0; i < cols.size(); ++i)
        if (cols[i].approx == (bool)ap && !cols[i].hidden) {
          int c = a[i].cmp(b[i]);
          if (c) return c < 0;
        }
    return false;
  });
  return r;
}

static string check_rows(const R& w, const Rows& got0, const vector<const Type*>& types) {
  Rows got = got0;
  for (auto& g : got) {
    if (g.size() != w.cols.size()) return cat("width ", g.size(), " want ", w.cols.size());
    for (size_t i = 0; i < g.size(); ++i) g[i] = vi::num(g[i], types[i]);
  }
  if (got.size() != w.rows.size()) return cat(got.size(), " rows, want ", w.rows.size());
  if (!w.order.empty())
    for (size_t i = 1; i < got.size(); ++i)
      if (cmpk(got[i - 1], got[i], w.order) > 0) return cat("row ", i, " out of order ", ve::show(got[i - 1]), " ", ve::show(got[i]));
  Rows a = canon_rows(w.rows, w.cols), b = canon_rows(got, w.cols);
  for (size_t i = 0; i < a.size(); ++i)
    for (size_t c = 0; c < w.cols.size(); ++c)
      if (!w.cols[c].hidden && !near(a[i][c], b[i][c], w.cols[c].approx))
        return cat("column ", w.cols[c].name, ": got row ", ve::show(b[i]), " want ", ve::show(a[i]), " all got ", ve::show(b), " all want ", ve::show(a));
  return "";
}

struct World {
  Rng& r;
  std::shared_ptr<Config> cfg = std::make_shared<Config>();
  std::shared_ptr<ve::Storage> st = std::make_shared<ve::Storage>();
  QueryBuilder qb;
  Interp in;
  std::map<int, Rows> typed;    // table id -> rows as stored, with the rowid
  std::map<int, R> base;
  int uniq = 0;
  bool allow_corr_nulls = true;
  explicit World(Rng& rr) : r(rr), qb(Context::defaultCtx(), st, cfg) {
    in.scan_rows = [this](const Scan* s) -> const Rows& { return typed.at(s->getTableId()); };
    cfg->exec.group_by.bigint_count = r.chance(50);
  }
  string nm(const string& p) { return p + std::to_string(++uniq); }

  void table(const string& name, int rows, int np, int frags) {
    auto& ctx = Context::defaultCtx();
    auto dict = st->newDictType();
    bool nn = r.chance(25);
    string p = name;
    vector<ve::ColDef> defs{{p + "_k", ctx.int32(!nn)}, {p + "_s", ctx.int16(true)}, {p + "_l", ctx.int64(true)}, {p + "_f", ctx.fp64(true)},
                            {p + "_d", ctx.decimal64(r.pick({8, 10, 12}), 2, true)}, {p + "_b", ctx.boolean(true)}, {p + "_t", dict}};
    R b;
    int span = r.pick({2, 4, 9}), big = r.pick({5, 20, 200, 1000, 30000});
    b.cols = {{p + "_k", 'i', (double)span}, {p + "_s", 'i', (double)big}, {p + "_l", 'i', (double)big}, {p + "_f", 'f', 50}, {p + "_d", 'd', 50}, {p + "_b", 'b', 1}, {p + "_t", 't', 0}};
    Rows raw;
    for (int i = 0; i < rows; ++i) {
      Row t, u;
      auto put = [&](Val v, double x, bool nullable = true) {
        if (nullable && r.chance(np)) { t.push_back(Val::null()); u.push_back(Val::null()); return; }
        t.push_back(v);
        u.push_back(v.k == Val::Str ? v : Val::D(x));
      };
      int64_t k = r.range(-span, span), s = r.range(-big, big), l = r.range(-big, big);
      put(Val::I(k), k, !nn);
      put(Val::I(s), s);
      put(Val::I(l), l);
      double f = r.range(-200, 200) * 0.25;
      put(Val::D(f), f);
      int64_t d = r.range(-200, 200) * 25;
      put(Val::I(d), d / 100.0);
      int64_t bo = r.below(2);
      put(Val::I(bo), bo);
      string tx = r.pick({string("a"), string("b"), string("abc"), string("B")});
      put(Val::S(tx), 0);
      raw.push_back(t);
      b.rows.push_back(u);
    }
    vector<size_t> fr;
    size_t left = rows;
    for (int f = 0; f < frags; ++f) {
      size_t n = f + 1 == frags ? left : r.below(left + 1);
      fr.push_back(n);
      left -= n;
    }
    int id = st->addTable(name, defs, raw, fr);
    for (size_t i = 0; i < raw.size(); ++i) raw[i].push_back(Val::I(i));
    typed[id] = raw;
    b.txt = name;
    b.scan = true;
    base[id] = b;
  }

  R scan(int id) {
    R b = base.at(id);
    switch (r.below(4)) {
      case 0: b.n = qb.scan(b.txt); break;
      case 1: b.n = qb.scan(ve::DB, b.txt); break;
      case 2: b.n = qb.scan(ve::DB, id); break;
      default: b.n = qb.scan(TableRef{ve::DB, id}); break;
    }
    return b;
  }

  BuilderExpr ref(const R& a, size_t ix) {
    switch (r.below(4)) {
      case 0: return a.n.ref((int)ix);
      case 1: return a.n.ref(a.cols[ix].name);
      case 2: return a.n[(int)ix];
      default: return a.n[a.cols[ix].name];
    }
  }

  vector<size_t> pick_cols(const R& a, const string& kinds, bool exact = true) {
    vector<size_t> v;
    for (size_t i = 0; i < a.cols.size(); ++i)
      if (kinds.find(a.cols[i].k) != string::npos && !a.cols[i].hidden && !(exact && a.cols[i].approx)) v.push_back(i);
    return v;
  }

  X col(const R& a, size_t ix) {
    return {ref(a, ix), [ix](const Row& r) { return r[ix]; }, a.cols[ix].k, a.cols[ix].mx, a.cols[ix].approx, a.cols[ix].name};
  }
  X lit(char k) {
    if (k == 'i') {
      int v = r.range(-9, 9);
      auto e = r.pick({0, 1, 2}) == 0 ? qb.cst(v) : r.chance(50) ? qb.cst((int64_t)v) : qb.cst(v, Context::defaultCtx().int32(false));
      return {e, [v](const Row&) { return Val::D(v); }, 'i', 9, false, std::to_string(v)};
    }
    double v = r.range(-20, 20) * 0.25;
    return {qb.cst(v), [v](const Row&) { return Val::D(v); }, 'f', 5, false, cat(v)};
  }

  // numeric expression
  X numx(const R& a, int depth) {
    auto ns = pick_cols(a, "ifd");
    if (depth <= 0 || r.chance(25)) {
      if (ns.empty() || r.chance(15)) return lit(r.chance(50) ? 'i' : 'f');
      return col(a, r.pick(ns));
    }
    int op = r.below(8);
    if (op < 3) {
      X l = numx(a, depth - 1), q = numx(a, depth - 1);
      char k = l.k == 'f' || q.k == 'f' ? 'f' : l.k == 'd' || q.k == 'd' ? 'd' : 'i';
      double mx = op == 2 ? l.mx * q.mx : l.mx + q.mx;
      if (mx > 30000) return l;
      auto lf = l.f, qf = q.f;
      auto f = [lf, qf, op](const Row& r) {
        Val x = lf(r), y = qf(r);
        if (x.isNull() || y.isNull()) return Val::null();
        return Val::D(op == 0 ? x.d + y.d : op == 1 ? x.d - y.d : x.d * y.d);
      };
      bool oper = r.chance(50);
      BuilderExpr e = op == 0 ? (oper ? l.e + q.e : l.e.add(q.e)) : op == 1 ? (oper ? l.e - q.e : l.e.sub(q.e)) : (oper ? l.e * q.e : l.e.mul(q.e));
      if (op == 2 && k == 'd' && l.k == 'd' && q.k == 'd' && r.chance(0)) return l;
      return {e, f, k, mx, false, "(" + l.txt + "+-*"[op] + q.txt + ")"};
    }
    if (op == 3) {
      X l = numx(a, depth - 1);
      if (l.mx + 9 > 30000) return l;
      int v = r.range(-9, 9);
      int which = r.below(9);
      auto lf = l.f;
      BuilderExpr e = which == 0 ? l.e.add(v) : which == 1 ? l.e.add((int64_t)v) : which == 2 ? l.e + v : which == 3 ? v + l.e : which == 4 ? l.e.sub(v) : which == 5 ? l.e.sub((int64_t)v) : which == 6 ? l.e - v : which == 7 ? v - l.e : l.e.add((double)v);
      char k = which == 8 ? 'f' : l.k;
      return {e, [lf, which, v](const Row& r) {
                Val x = lf(r);
                if (x.isNull()) return x;
                return Val::D(which < 4 || which == 8 ? x.d + v : which == 7 ? v - x.d : x.d - v);
              }, k, l.mx + 9, false, cat("(", l.txt, " addsub", which, " ", v, ")")};
    }
    if (op == 4) {
      X l = numx(a, depth - 1);
      auto lf = l.f;
      if (l.e.expr()->is<Constant>()) return l;
      return {r.chance(50) ? l.e.uminus() : -l.e, [lf](const Row& r) { Val x = lf(r); return x.isNull() ? x : Val::D(-x.d); }, l.k, l.mx, false, "(-" + l.txt + ")"};
    }
    if (op == 5) {  // widening casts only
      X l = numx(a, depth - 1);
      auto& ctx = Context::defaultCtx();
      auto lf = l.f;
      if (l.k == 'i') {
        int w = r.below(3);
        BuilderExpr e = w == 0 ? l.e.cast(ctx.int64()) : w == 1 ? l.e.cast("fp64") : l.e.cast(ctx.decimal64(12, 3));
        return {e, lf, w == 0 ? 'i' : w == 1 ? 'f' : 'd', l.mx, false, "cast(" + l.txt + ")"};
      }
      if (l.k == 'd') return {r.chance(50) ? l.e.cast(ctx.fp64()) : l.e.cast("fp64"), lf, 'f', l.mx, false, "castf(" + l.txt + ")"};
      return l;
    }
    if (op == 6) {
      X c = boolx(a, depth - 1), l = numx(a, depth - 1);
      auto cf = c.f, lf = l.f;
      // branches of one type: the second is a function of the first
      int v = r.range(1, 5);
      X q{l.e.add(v), [lf, v](const Row& r) { Val x = lf(r); return x.isNull() ? x : Val::D(x.d + v); }, l.k, l.mx + v, false, ""};
      if (q.mx > 30000 || !q.e.type()->equal(l.e.type())) return l;
      auto qf = q.f;
      return {qb.ifThenElse(c.e, l.e, q.e), [cf, lf, qf](const Row& r) { Val x = cf(r); return !x.isNull() && x.d ? lf(r) : qf(r); }, l.k, q.mx, false, "if(" + c.txt + "," + l.txt + "," + l.txt + "+" + std::to_string(v) + ")"};
    }
    X l = numx(a, depth - 1);
    if (l.k != 'i') return l;
    int v = r.range(2, 7);
    auto lf = l.f;
    int w = r.below(3);
    return {w == 0 ? l.e.mod(v) : w == 1 ? l.e.mod((int64_t)v) : l.e % v, [lf, v](const Row& r) { Val x = lf(r); return x.isNull() ? x : Val::D((double)((int64_t)x.d % v)); }, 'i', (double)v, false, "(" + l.txt + "%" + std::to_string(v) + ")"};
  }

  X boolx(const R& a, int depth) {
    int op = r.below(depth > 0 ? 9 : 5);
    auto bs = pick_cols(a, "b");
    auto ts = pick_cols(a, "t");
    if (op == 0 && !bs.empty()) return col(a, r.pick(bs));
    if (op == 1 && !ts.empty()) {
      X t = col(a, r.pick(ts));
      string v = r.pick({string("a"), string("abc"), string("zz")});
      auto tf = t.f;
      bool ne = r.chance(40);
      int w = r.below(2);
      auto e = ne ? (w ? t.e.ne(v) : t.e != v) : (w ? t.e.eq(v) : t.e == v);
      return {e, [tf, v, ne](const Row& r) { Val x = tf(r); return x.isNull() ? x : Val::D((x.s == v) != ne); }, 'b', 1, false, "(" + t.txt + (ne ? "!=" : "=") + v + ")"};
    }
    if (op == 2) {
      auto all = pick_cols(a, "ifdbt", false);
      if (!all.empty()) {
        X t = col(a, r.pick(all));
        auto tf = t.f;
        bool neg = r.chance(40);
        // a type that excludes NULL makes the test a constant; outer joins and empty sums are the exception to such types
        if (!t.e.type()->nullable()) return {t.e.isNull().logicalNot(), [](const Row&) { return Val::D(1); }, 'b', 1, false, "notnull'(" + t.txt + ")"};
        return {neg ? (r.chance(50) ? t.e.isNull().logicalNot() : !t.e.isNull()) : t.e.isNull(), [tf, neg](const Row& r) { return Val::D(tf(r).isNull() != neg); }, 'b', 1, false, cat(neg ? "notnull(" : "isnull(", t.txt, ")")};
      }
    }
    if (op == 6 || op == 7) {
      X l = boolx(a, depth - 1), q = boolx(a, depth - 1);
      bool an = r.chance(50), o = r.chance(50);
      auto lf = l.f, qf = q.f;
      return {an ? (o ? l.e && q.e : l.e.logicalAnd(q.e)) : (o ? l.e || q.e : l.e.logicalOr(q.e)), [lf, qf, an](const Row& r) {
                Val x = lf(r), y = qf(r);
                int t = x.isNull() ? -1 : x.d != 0, u = y.isNull() ? -1 : y.d != 0;
                int z = an ? (t == 0 || u == 0 ? 0 : t < 0 || u < 0 ? -1 : 1) : (t == 1 || u == 1 ? 1 : t < 0 || u < 0 ? -1 : 0);
                return z < 0 ? Val::null() : Val::D(z);
              }, 'b', 1, false, "(" + l.txt + (an ? " and " : " or ") + q.txt + ")"};
    }
    if (op == 8) {
      X l = boolx(a, depth - 1);
      auto lf = l.f;
      return {r.chance(50) ? l.e.logicalNot() : !l.e, [lf](const Row& r) { Val x = lf(r); return x.isNull() ? x : Val::D(x.d == 0); }, 'b', 1, false, "not " + l.txt};
    }
    X l = numx(a, depth - 1), q = numx(a, depth - 1);
    if (l.e.expr()->is<Constant>() && q.e.expr()->is<Constant>()) {
      auto ns = pick_cols(a, "ifd");
      if (!ns.empty()) l = col(a, r.pick(ns));
    }
    int c = r.below(6), form = r.below(3);
    auto lf = l.f, qf = q.f;
    auto dec = [c](double x, double y) { return c == 0 ? x == y : c == 1 ? x != y : c == 2 ? x < y : c == 3 ? x <= y : c == 4 ? x > y : x >= y; };
    const char* on[] = {"=", "!=", "<", "<=", ">", ">="};
    if (form == 2) {
      int v = r.range(-5, 5);
      int w = r.below(5);
      BuilderExpr e;
#define CMPS(m, o) e = w == 0 ? l.e.m(v) : w == 1 ? l.e.m((int64_t)v) : w == 2 ? (l.e o v) : w == 3 ? (l.e o (int64_t)v) : l.e.m((double)v)
      switch (c) {
        case 0: CMPS(eq, ==); break;
        case 1: CMPS(ne, !=); break;
        case 2: CMPS(lt, <); break;
        case 3: CMPS(le, <=); break;
        case 4: CMPS(gt, >); break;
        default: CMPS(ge, >=);
      }
      return {e, [lf, v, dec](const Row& r) { Val x = lf(r); return x.isNull() ? x : Val::D(dec(x.d, v)); }, 'b', 1, false, cat("(", l.txt, on[c], v, ")")};
    }
    BuilderExpr e;
    switch (c) {
      case 0: e = form ? l.e.eq(q.e) : l.e == q.e; break;
      case 1: e = form ? l.e.ne(q.e) : l.e != q.e; break;
      case 2: e = form ? l.e.lt(q.e) : l.e < q.e; break;
      case 3: e = form ? l.e.le(q.e) : l.e <= q.e; break;
      case 4: e = form ? l.e.gt(q.e) : l.e > q.e; break;
      default: e = form ? l.e.ge(q.e) : l.e >= q.e;
    }
    return {e, [lf, qf, dec](const Row& r) {
              Val x = lf(r), y = qf(r);
              return x.isNull() || y.isNull() ? Val::null() : Val::D(dec(x.d, y.d));
            }, 'b', 1, false, "(" + l.txt + on[c] + q.txt + ")"};
  }

  R op_proj(const R& a) {
    R o;
    vector<BuilderExpr> es;
    vector<X> xs;
    int n = r.range(1, 4);
    vector<size_t> vis;
    for (size_t i = 0; i < a.cols.size(); ++i)
      if (!a.cols[i].hidden) vis.push_back(i);
    bool simple = r.chance(25);
    if (simple) {  // a plain column list, through one of the column-list overloads
      vector<int> ix;
      vector<string> names, fresh;
      for (size_t i = 0; i < vis.size(); ++i)
        if (r.chance(70) || ix.empty()) {
          ix.push_back(r.chance(30) ? (int)vis[i] - (int)a.n.size() : (int)vis[i]);
          names.push_back(a.cols[vis[i]].name);
          fresh.push_back(nm("p"));
          o.cols.push_back(a.cols[vis[i]]);
          xs.push_back(col(a, vis[i]));
        }
      int w = r.below(5);
      if (w == 0) o.n = a.n.proj(ix);
      else if (w == 1) o.n = a.n.proj(names);
      else if (w == 2) o.n = a.n.proj(ix, fresh);
      else if (w == 3) o.n = a.n.proj(names, fresh);
      else o.n = a.n.proj(a.n.ref(ix), fresh);
      for (size_t i = 0; i < o.cols.size(); ++i) o.cols[i].name = w < 2 ? names[i] : fresh[i];
    } else {
      for (size_t i : vis)
        if (r.chance(60)) xs.push_back(col(a, i));
      for (int i = 0; i < n; ++i) xs.push_back(r.chance(70) ? numx(a, 2) : boolx(a, 2));
      vector<string> names;
      for (auto& x : xs) {
        string f = nm("e");
        o.cols.push_back({f, x.k, x.mx, x.approx});
        names.push_back(f);
        es.push_back(x.e);
      }
      if (r.chance(50)) {
        for (size_t i = 0; i < es.size(); ++i) es[i] = es[i].rename(names[i]);
        o.n = a.n.proj(es);
      } else
        o.n = a.n.proj(es, names);
    }
    for (auto& row : a.rows) {
      Row z;
      for (auto& x : xs) z.push_back(x.f(row));
      o.rows.push_back(z);
    }
    o.txt = "proj(" + a.txt;
    for (auto& x : xs) o.txt += "," + x.txt;
    o.txt += ")";
    return o;
  }

  R op_filter(const R& a) {
    X c = boolx(a, 2);
    R o = a;
    o.scan = false;
    o.n = a.n.filter(c.e);
    o.rows.clear();
    for (auto& row : a.rows) {
      Val v = c.f(row);
      if (!v.isNull() && v.d) o.rows.push_back(row);
    }
    o.txt = "filter(" + a.txt + "," + c.txt + ")";
    return o;
  }

  R op_sort(const R& a, bool all_keys, bool limit) {
    vector<size_t> cand = pick_cols(a, "ifdbt");
    R o = a;
    o.scan = false;
    vector<SK> ks;
    if (all_keys) {
      for (auto& c : a.cols)
        if (c.approx || c.hidden) limit = false;
      for (size_t i = 0; i < a.cols.size(); ++i)
        if (!a.cols[i].approx && !a.cols[i].hidden) ks.push_back({i, r.chance(50), r.chance(50)});
      for (size_t i = ks.size(); i > 1; --i) std::swap(ks[i - 1], ks[r.below(i)]);
    } else {
      int n = r.range(1, 3);
      for (int i = 0; i < n && !cand.empty(); ++i) {
        ks.push_back({r.pick(cand), r.chance(50), r.chance(50)});
        cand.erase(std::find(cand.begin(), cand.end(), ks.back().ix));
      }
      limit = false;
    }
    if (ks.empty()) return a;
    size_t lim = limit && r.chance(80) ? r.range(1, 12) : 0, off = limit && r.chance(40) ? r.range(0, 5) : 0;
    bool uniform = r.chance(30);
    if (uniform)
      for (auto& k : ks) { k.desc = ks[0].desc; k.nf = ks[0].nf; }
    auto dir = [&](const SK& k) { return k.desc ? SortDirection::Descending : SortDirection::Ascending; };
    auto pos = [&](const SK& k) { return k.nf ? NullSortedPosition::First : NullSortedPosition::Last; };
    if (uniform) {
      vector<int> ix;
      vector<string> names;
      vector<BuilderExpr> refs;
      for (auto& k : ks) {
        ix.push_back(k.ix);
        names.push_back(a.cols[k.ix].name);
        refs.push_back(a.n.ref((int)k.ix));
      }
      string ds = k_dir(ks[0].desc), ps = ks[0].nf ? "first" : r.chance(50) ? "last" : "LAST";
      int w = r.below(6);
      if (w == 0) o.n = a.n.sort(ix, dir(ks[0]), pos(ks[0]), lim, off);
      else if (w == 1) o.n = a.n.sort(ix, ds, ps, lim, off);
      else if (w == 2) o.n = a.n.sort(names, dir(ks[0]), pos(ks[0]), lim, off);
      else if (w == 3) o.n = a.n.sort(names, ds, ps, lim, off);
      else if (w == 4) o.n = a.n.sort(refs, dir(ks[0]), pos(ks[0]), lim, off);
      else o.n = a.n.sort(refs, ds, ps, lim, off);
    } else {
      vector<BuilderSortField> fs;
      for (auto& k : ks) {
        switch (r.below(6)) {
          case 0: fs.emplace_back((int)k.ix, dir(k), pos(k)); break;
          case 1: fs.emplace_back((int)k.ix, k_dir(k.desc), k.nf ? "first" : "last"); break;
          case 2: fs.emplace_back(a.cols[k.ix].name, dir(k), pos(k)); break;
          case 3: fs.emplace_back(a.cols[k.ix].name, k_dir(k.desc), k.nf ? "first" : "last"); break;
          case 4: fs.emplace_back(a.n.ref((int)k.ix), dir(k), pos(k)); break;
          default: fs.emplace_back(a.n.ref((int)k.ix), k_dir(k.desc), k.nf ? "first" : "last");
        }
      }
      o.n = a.n.sort(fs, lim, off);
    }
    std::stable_sort(o.rows.begin(), o.rows.end(), [&](const Row& x, const Row& y) { return cmpk(x, y, ks) < 0; });
    off = std::min(off, o.rows.size());
    o.rows.erase(o.rows.begin(), o.rows.begin() + off);
    if (lim && o.rows.size() > lim) o.rows.resize(lim);
    o.order = ks;
    o.txt = cat("sort(", a.txt, " by");
    for (auto& k : ks) o.txt += cat(" ", a.cols[k.ix].name, k.desc ? " desc" : " asc", k.nf ? " nf" : " nl");
    o.txt += cat(" lim ", lim, " off ", off, ")");
    return o;
  }
  string k_dir(bool desc) { return desc ? r.pick({string("desc"), string("descending"), string("DESC")}) : r.pick({string("asc"), string("ascending"), string(" Asc ")}); }

  // the order of the input is what a bare limit counts in
  R op_limit(const R& a) {
    R o = a;
    size_t lim = r.range(1, 9);
    o.n = a.n.sort(vector<BuilderSortField>{}, lim, 0);
    if (o.rows.size() > lim) o.rows.resize(lim);
    o.txt = cat("limit(", a.txt, ",", lim, ")");
    return o;
  }

  R op_agg(const R& a, bool compound) {
    auto ks = pick_cols(a, "idbt");
    for (size_t i = ks.size(); i > 1; --i) std::swap(ks[i - 1], ks[r.below(i)]);
    size_t nk = std::min<size_t>(ks.size(), r.pick({0, 1, 1, 2, 3}));
    ks.resize(nk);
    struct A { BuilderExpr e; int op; size_t ix, ix2; string str; };
    vector<A> as;
    auto ns = pick_cols(a, "ifd");
    int na = r.range(nk ? 0 : 1, 4);
    if (compound) na = std::max(na, 1);
    R o;
    vector<RC> acols;
    for (int i = 0; i < na; ++i) {
      int op = compound && (i == 0 || r.chance(40)) ? r.pick({6, 6, 7}) : r.below(6);
      auto anyc = pick_cols(a, "idbt");
      if (op == 7 && ns.size() < 2) op = 6;
      if (ns.empty() && (op >= 1 && op != 1)) op = 0;
      if (op == 1 && anyc.empty()) op = 0;
      A x;
      x.op = op;
      x.ix = x.ix2 = 0;
      string f = nm("a");
      if (op == 0) {
        x.e = r.chance(50) ? qb.count() : a.n.count();
        x.str = "count";
        acols.push_back({f, 'i', 1e5});
      } else if (op == 1) {
        x.ix = r.pick(anyc);
        x.e = a.n.count((int)x.ix, false);
        x.str = "count(" + a.cols[x.ix].name + ")";
        if (r.chance(40)) {
          x.op = 11;
          x.e = r.chance(50) ? a.n.ref((int)x.ix).count(true) : a.n.count(a.cols[x.ix].name, true);
          x.str = "count_distinct(" + a.cols[x.ix].name + ")";
        }
        acols.push_back({f, 'i', 1e5});
      } else {
        x.ix = r.pick(ns);
        auto e = ref(a, x.ix);
        string cn = a.cols[x.ix].name;
        char k = a.cols[x.ix].k;
        if (op == 2) { x.e = r.chance(50) ? e.sum() : e.agg("sum"); x.str = "sum(" + cn + ")"; acols.push_back({f, k, 1e6}); }
        else if (op == 3) { x.e = r.chance(50) ? e.min() : e.agg(AggType::kMin); x.str = "MIN( " + cn + " )"; acols.push_back({f, k, a.cols[x.ix].mx}); }
        else if (op == 4) { x.e = r.chance(50) ? e.max() : e.agg("max"); x.str = "max(" + cn + ")"; acols.push_back({f, k, a.cols[x.ix].mx}); }
        else if (op == 5) { x.e = r.chance(50) ? e.avg() : e.agg(AggType::kAvg); x.str = "avg(" + cn + ")"; acols.push_back({f, 'f', 1e6, true}); }
        else if (op == 6) { x.e = r.chance(50) ? e.stdDev() : e.agg("stddev"); x.str = "stddev(" + cn + ")"; acols.push_back({f, 'f', 1e6, true}); }
        else {
          do x.ix2 = r.pick(ns); while (x.ix2 == x.ix);
          auto e2 = ref(a, x.ix2);
          x.e = r.chance(50) ? e.corr(e2) : e.agg("corr", e2);
          x.str = "corr(" + cn + ", " + a.cols[x.ix2].name + ")";
          acols.push_back({f, 'f', 1, true});
        }
      }
      as.push_back(x);
    }
    // field names chosen by the caller, or (aggregates given as strings) by the builder
    bool bystr = !as.empty() && r.chance(30) ;
    for (auto& c : a.cols) for (char ch : c.name) if (isupper(ch)) bystr = false;
    vector<BuilderExpr> ae;
    vector<string> astr;
    for (size_t i = 0; i < as.size(); ++i) {
      ae.push_back(as[i].e.rename(acols[i].name));
      astr.push_back(as[i].str);
    }
    vector<int> ki;
    vector<string> kn;
    vector<BuilderExpr> ke;
    for (auto k : ks) {
      ki.push_back(k);
      kn.push_back(a.cols[k].name);
      ke.push_back(ref(a, k));
      o.cols.push_back(a.cols[k]);
      o.cols.back().hidden = false;
    }
    int w = r.below(3);
    if (nk == 0) w = 2;
    if (bystr) o.n = w == 0 ? a.n.agg(ki, astr) : w == 1 ? a.n.agg(kn, astr) : a.n.agg(ke, astr);
    else o.n = w == 0 ? a.n.agg(ki, ae) : w == 1 ? a.n.agg(kn, ae) : a.n.agg(ke, ae);
    for (auto& c : acols) o.cols.push_back(c);
    for (size_t i = 0; i < o.cols.size() && i < o.n.node()->size(); ++i)
      if (bystr) o.cols[i].name = o.n.node()->getFieldName(i);
    std::map<Row, vector<const Row*>> g;
    if (!nk) g[{}];
    for (auto& row : a.rows) {
      Row k;
      for (auto x : ks) k.push_back(row[x]);
      g[k].push_back(&row);
    }
    for (auto& [k, rows] : g) {
      Row z = k;
      for (auto& x : as) {
        vector<Val> v;
        for (auto p : rows)
          if (!(*p)[x.ix].isNull()) v.push_back((*p)[x.ix]);
        double s = 0, q = 0;
        for (auto& t : v) { s += t.d; q += t.d * t.d; }
        switch (x.op) {
          case 0: z.push_back(Val::D(rows.size())); break;
          case 1: z.push_back(Val::D(v.size())); break;
          case 11: z.push_back(Val::D(std::set<Val>(v.begin(), v.end()).size())); break;
          case 2: z.push_back(v.empty() ? Val::null() : Val::D(s)); break;
          case 3: z.push_back(v.empty() ? Val::null() : *std::min_element(v.begin(), v.end())); break;
          case 4: z.push_back(v.empty() ? Val::null() : *std::max_element(v.begin(), v.end())); break;
          case 5: z.push_back(v.empty() ? Val::null() : Val::D(s / v.size())); break;
          case 6: {
            if (v.size() < 2) { z.push_back(Val::null()); break; }
            double m = s / v.size(), d = 0;
            for (auto& t : v) d += (t.d - m) * (t.d - m);
            z.push_back(Val::D(std::sqrt(d / (v.size() - 1))));
            break;
          }
          default: {
            double sx = 0, sy = 0, n = 0, cxy = 0, cxx = 0, cyy = 0;
            for (auto p : rows) if (!(*p)[x.ix].isNull() && !(*p)[x.ix2].isNull()) { sx += (*p)[x.ix].d; sy += (*p)[x.ix2].d; ++n; }
            for (auto p : rows) if (!(*p)[x.ix].isNull() && !(*p)[x.ix2].isNull()) {
              double dx = (*p)[x.ix].d - sx / n, dy = (*p)[x.ix2].d - sy / n;
              cxy += dx * dy; cxx += dx * dx; cyy += dy * dy;
            }
            z.push_back(n < 2 || cxx < 1e-9 || cyy < 1e-9 ? Val::null() : Val::D(cxy / std::sqrt(cxx * cyy)));
          }
        }
      }
      o.rows.push_back(z);
    }
    o.txt = "agg(" + a.txt + " by";
    for (auto& k : kn) o.txt += " " + k;
    o.txt += ":";
    for (auto& s : astr) o.txt += " " + s;
    o.txt += ")";
    return o;
  }

  R fresh(const R& a) {  // same rows through a new projection with new names
    R o;
    vector<int> ix;
    vector<string> names;
    for (size_t i = 0; i < a.cols.size(); ++i)
      if (!a.cols[i].hidden) {
        ix.push_back(i);
        names.push_back(nm("j"));
        o.cols.push_back(a.cols[i]);
        o.cols.back().name = names.back();
      }
    o.n = a.n.proj(ix, names);
    for (auto& row : a.rows) {
      Row z;
      for (int i : ix) z.push_back(row[i]);
      o.rows.push_back(z);
    }
    o.txt = "fresh(" + a.txt + ")";
    return o;
  }

  R op_join(const R& a, const R& b0) {
    R b = fresh(b0), o;
    auto la = pick_cols(a, "i"), lb = pick_cols(b, "i");
    if (la.empty() || lb.empty()) return a;
    size_t x = r.pick(la), y = r.pick(lb);
    JoinType jt = r.pick({JoinType::INNER, JoinType::INNER, JoinType::LEFT, JoinType::SEMI, JoinType::ANTI});
    string js = jt == JoinType::INNER ? "inner" : jt == JoinType::LEFT ? " Left" : jt == JoinType::SEMI ? "semi" : "ANTI";
    bool byname = r.chance(40);
    X extra;
    bool has_extra = !byname && r.chance(40);
    std::function<bool(const Row&, const Row&)> cond = [x, y](const Row& l, const Row& q) { return !l[x].isNull() && !q[y].isNull() && l[x].d == q[y].d; };
    if (byname) {
      vector<string> ln{a.cols[x].name}, rn{b.cols[y].name};
      o.n = r.chance(50) ? a.n.join(b.n, ln, rn, jt) : a.n.join(b.n, ln, rn, js);
    } else {
      auto e = ref(a, x).eq(ref(b, y));
      if (has_extra) {
        extra = boolx(r.chance(50) ? a : b, 1);
        bool left = false;
        // decide which side the extra condition is about
        for (auto& c : a.cols) if (extra.txt.find(c.name) != string::npos) left = true;
        for (auto& c : b.cols) if (extra.txt.find(c.name) != string::npos) left = false;
        e = e.logicalAnd(extra.e);
        auto base = cond;
        auto ef = extra.f;
        cond = [base, ef, left](const Row& l, const Row& q) { if (!base(l, q)) return false; Val v = ef(left ? l : q); return !v.isNull() && v.d; };
      }
      o.n = r.chance(50) ? a.n.join(b.n, e, jt) : a.n.join(b.n, e, js);
    }
    o.cols = a.cols;
    for (size_t i = 0; i < b.cols.size(); ++i)
      if (!(byname && i == y)) {
        o.cols.push_back(b.cols[i]);
        if (jt == JoinType::SEMI || jt == JoinType::ANTI) o.cols.back().hidden = true;
      }
    for (auto& l : a.rows) {
      bool any = false;
      auto emit = [&](const Row* q) {
        Row z = l;
        for (size_t i = 0; i < b.cols.size(); ++i)
          if (!(byname && i == y)) z.push_back(q ? (*q)[i] : Val::null());
        o.rows.push_back(z);
      };
      for (auto& q : b.rows)
        if (cond(l, q)) {
          any = true;
          if (jt == JoinType::INNER || jt == JoinType::LEFT) emit(&q);
        }
      if ((jt == JoinType::LEFT && !any) || (jt == JoinType::SEMI && any) || (jt == JoinType::ANTI && !any)) emit(nullptr);
    }
    o.txt = "join" + js + "(" + a.txt + "," + b.txt + " on " + a.cols[x].name + "=" + b.cols[y].name + (has_extra ? " and " + extra.txt : "") + ")";
    return o;
  }

  R op_window(const R& a) {
    R o;
    vector<BuilderExpr> es;
    vector<std::function<Val(size_t)>> fs;
    vector<vector<Val>> keep;
    for (size_t i = 0; i < a.cols.size(); ++i)
      if (!a.cols[i].hidden && r.chance(60)) {
        string f = nm("w");
        es.push_back(ref(a, i).rename(f));
        o.cols.push_back(a.cols[i]);
        o.cols.back().name = f;
        vector<Val> v;
        for (auto& row : a.rows) v.push_back(row[i]);
        keep.push_back(v);
      }
    int n = r.range(1, 2);
    auto exact = pick_cols(a, "ifdbt");
    for (auto& c : a.cols)
      if (c.approx || c.hidden) exact.clear();
    for (int w = 0; w < n; ++w) {
      auto ps = pick_cols(a, "ibt");
      vector<size_t> part;
      if (!ps.empty() && r.chance(80)) part.push_back(r.pick(ps));
      int op = r.below(9);
      auto ns = pick_cols(a, "ifd");
      if (ns.empty()) op = 0;
      size_t ix = ns.empty() ? 0 : r.pick(ns);
      BuilderExpr e;
      string f = nm("w");
      vector<SK> ok;
      bool frame = op >= 5;
      char k = ns.empty() ? 'i' : a.cols[ix].k;
      bool approx = false;
      int64_t lagn = r.range(0, 3);
      switch (op) {
        case 0: e = qb.count().over(); k = 'i'; frame = true; break;
        case 1: e = qb.rowNumber(); k = 'i'; break;
        case 2: e = qb.rank(); k = 'i'; break;
        case 3: e = r.chance(50) ? a.n.ref((int)ix).lag(lagn) : a.n.ref((int)ix).lag(lagn); break;
        case 4: e = a.n.ref((int)ix).lead(lagn); break;
        case 5: e = a.n.ref((int)ix).sum(); break;
        case 6: e = a.n.ref((int)ix).min(); break;
        case 7: e = a.n.ref((int)ix).max(); break;
        default: e = a.n.ref((int)ix).avg(); k = 'f'; approx = true; break;
      }
      if (part.empty()) e = e.over();
      else e = r.chance(50) ? e.over(a.n.ref((int)part[0])) : e.over(vector<BuilderExpr>{a.n.ref((int)part[0])});
      if (!frame) {
        // ties would leave row_number, lag and lead open: order by every column (equal rows are interchangeable)
        if (exact.empty()) {
          if (op != 2) { e = qb.count().over(); op = 0; k = 'i'; part.clear(); frame = true; }
        }
        if (!frame) {
          vector<size_t> keys = op == 2 ? vector<size_t>{ps.empty() ? ix : r.pick(ps)} : exact;
          for (size_t i = keys.size(); i > 1; --i) std::swap(keys[i - 1], keys[r.below(i)]);
          vector<BuilderOrderByKey> bk;
          for (auto q : keys) {
            ok.push_back({q, r.chance(50), r.chance(50)});
            bk.emplace_back(a.n.ref((int)q), ok.back().desc ? SortDirection::Descending : SortDirection::Ascending, ok.back().nf ? NullSortedPosition::First : NullSortedPosition::Last);
          }
          e = e.orderBy(bk);
        }
      }
      vector<Val> out(a.rows.size());
      for (size_t i = 0; i < a.rows.size(); ++i) {
        vector<size_t> g;
        for (size_t j = 0; j < a.rows.size(); ++j) {
          bool same = true;
          for (auto p : part) same &= a.rows[i][p] == a.rows[j][p];
          if (same) g.push_back(j);
        }
        auto less = [&](size_t x, size_t y) { int c = cmpk(a.rows[x], a.rows[y], ok); return c ? c < 0 : x < y; };
        if (!frame) {
          std::sort(g.begin(), g.end(), less);
          size_t p = std::find(g.begin(), g.end(), i) - g.begin();
          if (op == 1) out[i] = Val::D(p + 1);
          else if (op == 2) {
            size_t c = 0;
            for (auto j : g) c += cmpk(a.rows[j], a.rows[i], ok) < 0;
            out[i] = Val::D(c + 1);
          } else {
            int64_t q = op == 3 ? (int64_t)p - lagn : (int64_t)p + lagn;
            out[i] = q >= 0 && q < (int64_t)g.size() ? a.rows[g[q]][ix] : Val::null();
          }
          continue;
        }
        vector<double> v;
        for (auto j : g) if (!a.rows[j][ix].isNull()) v.push_back(a.rows[j][ix].d);
        if (op == 0) out[i] = Val::D(g.size());
        else if (v.empty()) out[i] = Val::null();
        else {
          double s = 0;
          for (auto d : v) s += d;
          out[i] = Val::D(op == 5 ? s : op == 6 ? *std::min_element(v.begin(), v.end()) : op == 7 ? *std::max_element(v.begin(), v.end()) : s / v.size());
        }
      }
      es.push_back(e.rename(f));
      o.cols.push_back({f, k, 1e5, approx});
      keep.push_back(out);
      o.txt += cat(" win", op, part.empty() ? "" : " part " + a.cols[part[0]].name);
    }
    o.n = a.n.proj(es);
    for (size_t i = 0; i < a.rows.size(); ++i) {
      Row z;
      for (auto& k : keep) z.push_back(k[i]);
      o.rows.push_back(z);
    }
    o.txt = "window(" + a.txt + o.txt + ")";
    return o;
  }

  R op_union(const R& a) {
    R b = op_filter(a);
    R o = a;
    if (a.scan) return a;
    NodeInputs ins{a.n.node(), b.n.node()};
    o.n = BN(&qb, std::make_shared<LogicalUnion>(ins, true));
    o.rows.insert(o.rows.end(), b.rows.begin(), b.rows.end());
    o.order.clear();
    o.txt = "union(" + a.txt + "," + b.txt + ")";
    return o;
  }
};

struct Refs : ExprCollector<vector<const hdk::ir::ColumnRef*>, Refs> {
  void visitColumnRef(const hdk::ir::ColumnRef* c) override { result_.push_back(c); }
};
static vector<const Expr*> exprs_of(const Node* n) {
  vector<const Expr*> r;
  if (auto p = n->as<Project>()) for (auto& e : p->getExprs()) r.push_back(e.get());
  if (auto p = n->as<Aggregate>()) for (auto& e : p->getAggs()) r.push_back(e.get());
  if (auto p = n->as<Filter>()) r.push_back(p->getConditionExpr());
  if (auto p = n->as<Join>()) r.push_back(p->getCondition());
  return r;
}
static const Node* home(const Node* n) { return n->is<Join>() ? n : n->getInput(0); }

// what has to hold of the node list and of every node of a plan
static string well_formed(const QueryDag& dag) {
  auto& ns = dag.getNodes();
  std::map<const Node*, size_t> pos;
  for (size_t i = 0; i < ns.size(); ++i) {
    if (pos.count(ns[i].get())) return "node listed twice: " + ns[i]->toString();
    pos[ns[i].get()] = i;
    for (size_t k = 0; k < ns[i]->inputCount(); ++k)
      if (!pos.count(ns[i]->getInput(k))) return "input of " + ns[i]->toString() + " is not listed before it: " + ns[i]->getInput(k)->toString();
  }
  if (ns.empty() || ns.back().get() != dag.getRootNode()) return "the root is not the last node of the list";
  for (auto& n : ns) {
    for (auto e : exprs_of(n.get()))
      for (auto c : Refs::collect(e)) {
        auto in = home(n.get());
        int ix = Interp::resolve(in, c->node(), c->index());
        if (ix < 0) return cat(c->toString(), " in ", n->toString(), " is not an input column");
        auto t = getColumnType(in, ix);
        if (!t->withNullable(true)->equal(c->type()->withNullable(true))) return cat(c->toString(), " has type ", c->type()->toString(), ", the column has ", t->toString());
      }
    if (getNodeColumnCount(n.get()) != n->size()) return "column count of " + n->toString();
    auto refs = getNodeColumnRefs(n.get());
    if (refs.size() != n->size()) return "column refs of " + n->toString();
    for (size_t i = 0; i < refs.size(); ++i) {
      auto c = refs[i]->as<hdk::ir::ColumnRef>();
      auto d = getNodeColumnRef(n.get(), i);
      if (!c || c->node() != n.get() || c->index() != i || !(*d == *refs[i]) || d->hash() != refs[i]->hash() || !c->type()->equal(getColumnType(n.get(), i))) return cat("column ref ", i, " of ", n->toString());
    }
  }
  return "";
}
static bool has_window_over(const QueryDag& dag, string& bad) {
  bool any = false;
  for (auto& n : dag.getNodes()) {
    auto p = n->as<Project>();
    if (!p || !p->hasWindowFunctionExpr()) continue;
    any = true;
    auto in = p->getInput(0);
    if (in->is<Filter>() || (in->is<Scan>() && in->as<Scan>()->getNumFragments() > 1)) bad = "window projection straight over " + in->toString();
  }
  return any;
}

static R build(World& w, Rng& r, int steps, bool canon) {
  vector<R> pool;
  vector<int> ids;
  for (auto& [id, b] : w.base) ids.push_back(id);
  pool.push_back(w.scan(r.pick(ids)));
  for (int s = 0; s < steps; ++s) {
    R a = r.chance(80) ? pool.back() : r.pick(pool);
    if (a.rows.size() > 300) continue;
    int op = r.below(canon ? 20 : 14);
    R o;
    if (op < 3) o = w.op_proj(a);
    else if (op < 5) o = w.op_filter(a);
    else if (op < 7) o = w.op_sort(a, r.chance(60), r.chance(50));
    else if (op < 9) o = w.op_agg(a, canon && r.chance(40));
    else if (op < 11) o = w.op_join(a, r.chance(50) ? w.scan(r.pick(ids)) : r.pick(pool));
    else if (op == 11) o = a.rows.size() <= 60 ? w.op_window(a) : a;
    else if (op == 12) o = w.op_union(a);
    else if (op == 13) o = w.op_proj(a);
    else if (op < 16) {  // sorts whose order nobody can see
      o = w.op_sort(a, r.chance(50), false);
      for (int k = r.below(3); k > 0; --k) o = r.chance(70) ? w.op_sort(o, r.chance(50), false) : w.op_proj(o);
      if (r.chance(70)) o = w.op_agg(o, r.chance(40));
    } else if (op == 16) {
      o = w.op_sort(a, true, false);
      bool ok = !o.order.empty();
      for (auto& c : o.cols) ok &= !c.approx && !c.hidden;
      if (ok) { o = w.op_limit(o); ev("bare_limit"); }
    } else if (op == 17) {
      o = w.op_filter(a);
      if (o.rows.size() <= 60) o = w.op_window(o);
    } else o = w.op_agg(a, true);
    // a projection keeps what it projects in order, but only a sort promises it
    pool.push_back(o);
  }
  return pool.back();
}

static void mode_plan(bool canon) {
  long n = st().thorough ? 40000 : 2000;
  for (long c = 0; c < n && !too_many(); ++c) {
    if (st().only_case >= 0 && c != st().only_case) continue;
    Rng r = case_rng(c);
    World w(r);
    int nt = r.range(1, 3);
    for (int i = 0; i < nt; ++i) w.table("t" + std::to_string(i), r.pick({0, 1, 3, 8, 20}), r.pick({0, 10, 40}), r.pick({1, 1, 2, 3}));
    R q;
    string stage = "build";
    bool overflow_before = false;
    note(cat("case ", c));
    try {
      q = build(w, r, r.range(1, canon ? 7 : 6), canon);
      note(cat("case ", c, " ", q.txt));
      auto dag = q.n.finalize();
      // finalize over a bare scan or join hides the row ids
      auto root = dag->getRootNode();
      auto types = [&]() { vector<const Type*> t; for (size_t i = 0; i < dag->getRootNode()->size(); ++i) t.push_back(getColumnType(dag->getRootNode(), i)); return t; };
      auto names = [&]() { vector<string> t; for (size_t i = 0; i < dag->getRootNode()->size(); ++i) t.push_back(dag->getRootNode()->getFieldName(i)); return t; };
      auto t0 = types();
      auto n0 = names();
      string key = canon ? "plan-before" : "built-plan";
      string bad = well_formed(*dag);
      eval();
      VH_EXPECT(bad.empty(), key + "-form", "case ", c, " ", q.txt, ": ", bad);
      VH_EXPECT(root->size() == q.cols.size(), key + "-width", "case ", c, " ", q.txt, ": ", root->size());
      if (root->size() != q.cols.size()) continue;
      for (size_t i = 0; i < q.cols.size(); ++i) {
        char k = q.cols[i].k;
        auto t = t0[i];
        bool ok = k == 'i' ? t->isInteger() : k == 'f' ? t->isFp64() : k == 'd' ? t->isDecimal() : k == 'b' ? t->isBoolean() : t->isExtDictionary();
        VH_EXPECT(ok, key + "-type", "case ", c, " ", q.txt, ": column ", i, " ", t->toString());
        VH_EXPECT(n0[i] == q.cols[i].name, key + "-name", "case ", c, " ", q.txt, ": column ", i, " ", n0[i], " want ", q.cols[i].name);
      }
      VH_EXPECT(std::set<string>(n0.begin(), n0.end()).size() == n0.size(), key + "-names-unique", "case ", c, " ", q.txt);
      stage = "interpret";
      try {
        auto rows = w.in.run(root);
        bad = check_rows(q, rows, t0);
        eval(rows.size() + 1);
        VH_EXPECT(bad.empty(), key + "-meaning", "case ", c, " ", q.txt, ": ", bad);
        ev("plan_rows", rows.size());
      } catch (const vi::Overflow& e) {
        overflow_before = true;
        ev("overflow_domain");
      }
      for (auto& nd : dag->getNodes()) ev(string("node_") + (nd->is<Scan>() ? "scan" : nd->is<Project>() ? "project" : nd->is<Filter>() ? "filter" : nd->is<Aggregate>() ? "aggregate" : nd->is<Sort>() ? "sort" : nd->is<Join>() ? "join" : "union"));
      distinct(q.txt);
      ev("plans");
      if (!canon) { sample(q.txt); continue; }
      size_t before = dag->getNodes().size(), sorts0 = 0, sorts1 = 0;
      for (auto& nd : dag->getNodes()) sorts0 += nd->is<Sort>();
      stage = "canonicalize";
      canonicalizeQuery(*dag);
      stage = "interpret canonical plan";
      bad = well_formed(*dag);
      VH_EXPECT(bad.empty(), "canonical-form", "case ", c, " ", q.txt, ": ", bad);
      auto t1 = types();
      auto n1 = names();
      VH_EXPECT(n0 == n1, "canonical-names", "case ", c, " ", q.txt);
      VH_EXPECT(t0.size() == t1.size(), "canonical-width", "case ", c, " ", q.txt);
      for (size_t i = 0; i < t0.size() && i < t1.size(); ++i)
        VH_EXPECT(t0[i]->withNullable(true)->equal(t1[i]->withNullable(true)), "canonical-type", "case ", c, " ", q.txt, ": column ", i, " ", t0[i]->toString(), " -> ", t1[i]->toString());
      for (auto& nd : dag->getNodes()) {
        sorts1 += nd->is<Sort>();
        if (auto a = nd->as<Aggregate>())
          for (auto& e : a->getAggs()) {
            auto k = e->as<AggExpr>()->aggType();
            VH_EXPECT(k != AggType::kStdDevSamp && k != AggType::kCorr, "compound-left", "case ", c, " ", q.txt);
          }
      }
      string wb;
      if (has_window_over(*dag, wb)) ev("window_plans");
      VH_EXPECT(wb.empty(), "window-preproject", "case ", c, " ", q.txt, ": ", wb);
      if (sorts1 < sorts0) ev("sorts_dropped", sorts0 - sorts1);
      if (dag->getNodes().size() > before) ev("plans_expanded");
      w.in.reset();
      try {
        auto rows = w.in.run(dag->getRootNode());
        bad = check_rows(q, rows, t1);
        eval(rows.size() + 1);
        VH_EXPECT(bad.empty(), "canonical-meaning", "case ", c, " ", q.txt, ": ", bad);
      } catch (const vi::Overflow& e) {
        VH_EXPECT(overflow_before, "canonical-overflow", "case ", c, " ", q.txt, ": ", e.what());
      }
      sample(q.txt);
    } catch (const vi::Unmodelled& e) {
      ev("unmodelled");
      violation("unmodelled", cat("case ", c, " ", q.txt, ": ", e.what()));
    } catch (const vi::IllFormed& e) {
      violation("ill-formed", cat("case ", c, " ", stage, " ", q.txt, ": ", e.what()));
    } catch (const std::exception& e) {
      violation("refused-" + stage, cat("case ", c, " ", q.txt, ": ", e.what()));
    }
  }
}


// requests that mean nothing must be refused with the error meant for that, and leave the builder usable
static void mode_reject() {
  long n = st().thorough ? 60000 : 2200;
  auto& ctx = Context::defaultCtx();
  for (long c = 0; c < n && !too_many(); ++c) {
    if (st().only_case >= 0 && c != st().only_case) continue;
    Rng r = case_rng(c);
    World w(r);
    for (int i = 0; i < 2; ++i) w.table("t" + std::to_string(i), r.pick({0, 1, 5}), 20, 1);
    note(cat("case ", c));
    R a = build(w, r, r.range(0, 3), false);
    R sib = w.fresh(a);           // a sibling: its columns are not columns of a
    auto& qb = w.qb;
    auto any = [&](const string& kinds) { auto v = w.pick_cols(a, kinds, false); return v.empty() ? -1 : (int)r.pick(v); };
    int ii = any("i"), ni = any("ifd"), ti = any("t"), bi = any("b"), xi = any("ifdbt");
    if (xi < 0) continue;
    size_t sx = r.below(sib.cols.size());
    int sz = a.n.size();
    struct Req { const char* what; std::function<void()> f; bool ok = true; };
    BuilderExpr X = a.n.ref(xi), S = sib.n.ref((int)sx);
    BuilderExpr I = ii >= 0 ? a.n.ref(ii) : X, N = ni >= 0 ? a.n.ref(ni) : X, T = ti >= 0 ? a.n.ref(ti) : X, B = bi >= 0 ? a.n.ref(bi) : X;
    bool hi = ii >= 0, hn = ni >= 0, ht = ti >= 0, hb = bi >= 0;
    string bad = r.pick({string("nosuch"), string(""), string("t0_kk"), string("T0_K"), string("t0_k ")});
    for (auto& cc : a.cols) if (cc.name == bad) bad = "nosuch";
    int over = r.pick({sz, sz + 1, -sz - 1, 1000000, INT_MIN});
    string nm1 = w.nm("q");
    vector<Req> reqs{
        {"column index out of range", [&] { a.n.ref(over); }},
        {"unknown column name", [&] { a.n.ref(bad); }},
        {"projection of an unknown column", [&] { a.n.proj(vector<string>{a.cols[xi].name, bad}); }},
        {"projection of an index out of range", [&] { a.n.proj(vector<int>{xi, over}); }},
        {"empty projection", [&] { a.n.proj(vector<BuilderExpr>{}, vector<string>{}); }},
        {"projection with too few names", [&] { a.n.proj(vector<BuilderExpr>{X, X}, vector<string>{nm1}); }},
        {"projection with too many names", [&] { a.n.proj(vector<BuilderExpr>{X}, vector<string>{nm1, nm1 + "x"}); }},
        {"two columns of one name", [&] { a.n.proj(vector<BuilderExpr>{X, X}, vector<string>{nm1, nm1}); }},
        {"two columns renamed alike", [&] { a.n.proj(vector<BuilderExpr>{X.rename(nm1), N.rename(nm1)}); }},
        {"empty name", [&] { a.n.proj(vector<BuilderExpr>{X.rename("")}); }},
        {"projection of a column of another node", [&] { a.n.proj(vector<BuilderExpr>{X, S.rename(nm1)}); }},
        {"projection of an expression over another node", [&] { a.n.proj(vector<BuilderExpr>{X.rename(nm1), I.add(sib.n.ref((int)sx).isNull().cast(ctx.int32())).rename(nm1 + "x")}); }, hi && S.type()->nullable()},
        {"filter on a column of another node", [&] { a.n.filter(S.isNull().logicalNot().logicalNot()); }, S.type()->nullable()},
        {"aggregate of a column of another node", [&] { a.n.agg(vector<BuilderExpr>{}, vector<BuilderExpr>{S.count()}); }},
        {"group by a column of another node", [&] { a.n.agg(vector<BuilderExpr>{S}, vector<BuilderExpr>{qb.count()}); }},
        {"group by an expression", [&] { a.n.agg(vector<BuilderExpr>{N.add(1)}, vector<BuilderExpr>{qb.count()}); }, hn},
        {"aggregation of nothing by nothing", [&] { a.n.agg(vector<BuilderExpr>{}, vector<BuilderExpr>{}); }},
        {"plain column as an aggregate", [&] { a.n.agg(vector<BuilderExpr>{}, vector<BuilderExpr>{X}); }},
        {"group by an unknown column", [&] { a.n.agg(vector<string>{bad}, vector<BuilderExpr>{qb.count()}); }},
        {"group by an index out of range", [&] { a.n.agg(vector<int>{over}, vector<BuilderExpr>{qb.count()}); }},
        {"unknown aggregate name", [&] { X.agg("median"); }},
        {"aggregate string over an unknown column", [&] { a.n.parseAggString("min(" + bad + "z)"); }},
        {"aggregate string without a closing parenthesis", [&] { a.n.parseAggString("min(" + a.cols[xi].name); }},
        {"aggregate string of an unknown aggregate", [&] { a.n.parseAggString("foo(" + a.cols[xi].name + ")"); }},
        {"aggregate string with a bad parameter", [&] { a.n.parseAggString("approx_quantile(" + a.cols[xi].name + ", 1..5)"); }},
        {"quantile above one", [&] { N.quantile(1.5, Interpolation::kLower); }},
        {"quantile below zero", [&] { N.quantile(-0.01, Interpolation::kLinear); }},
        {"approx quantile above one", [&] { N.approxQuantile(1.0001); }},
        {"approx quantile below zero", [&] { N.approxQuantile(-1); }},
        {"quantile without parameter", [&] { N.agg("quantile"); }},
        {"approx quantile without parameter", [&] { N.agg("approx_quantile"); }},
        {"topk without parameter", [&] { N.agg("topk"); }},
        {"corr without parameter", [&] { N.agg("corr"); }},
        {"topk of zero", [&] { N.topK(0); }},
        {"bottomk of zero", [&] { N.agg("bottomk", 0); }},
        {"topk of a fraction", [&] { N.agg("topk", 1.5); }},
        {"quantile of an integer parameter", [&] { N.agg("quantile", 1); }},
        {"distinct sum", [&] { N.agg(AggType::kSum, true, BuilderExpr()); }},
        {"parameter of an aggregate that takes none", [&] { N.agg("sum", 2); }},
        {"corr with a literal", [&] { N.corr(qb.cst(1.5)); }},
        {"count of an expression", [&] { N.add(1).count(); }, hn},
        {"approximate count of an expression", [&] { N.add(1).approxCountDist(); }, hn},
        {"sum of text", [&] { T.sum(); }, ht},
        {"avg of text", [&] { T.avg(); }, ht},
        {"min of text", [&] { T.min(); }, ht},
        {"max of text", [&] { T.max(); }, ht},
        {"stddev of text", [&] { T.stdDev(); }, ht},
        {"corr of text", [&] { T.corr(N); }, ht},
        {"corr with text", [&] { N.corr(T); }, ht && hn},
        {"quantile of text", [&] { T.quantile(0.5, Interpolation::kLower); }, ht},
        {"topk of text", [&] { T.topK(2); }, ht},
        {"sum of boolean", [&] { B.sum(); }, hb},
        {"avg of boolean", [&] { B.avg(); }, hb},
        {"min of boolean", [&] { B.min(); }, hb},
        {"stddev of boolean", [&] { B.stdDev(); }, hb},
        {"not of a number", [&] { N.logicalNot(); }, hn},
        {"not of text", [&] { T.logicalNot(); }, ht},
        {"minus of text", [&] { T.uminus(); }, ht},
        {"minus of boolean", [&] { B.uminus(); }, hb},
        {"unnest of a scalar", [&] { X.unnest(); }},
        {"element of a scalar", [&] { X.at(1); }},
        {"cardinality of a scalar", [&] { X.cardinality(); }},
        {"and of a number", [&] { N.logicalAnd(N); }, hn},
        {"or of text", [&] { T.logicalOr(T); }, ht},
        {"text plus number", [&] { T.add(N); }, ht && hn},
        {"text times text", [&] { T.mul(T); }, ht},
        {"number over text", [&] { N.div(T); }, ht && hn},
        {"remainder of text", [&] { T.mod(2); }, ht},
        {"bitwise and of text", [&] { T.bwAnd(1); }, ht},
        {"bitwise not of text", [&] { T.bwNot(); }, ht},
        {"bitwise not of boolean", [&] { B.bwNot(); }, hb},
        {"ceil of text", [&] { T.ceil(); }, ht},
        {"floor of boolean", [&] { B.floor(); }, hb},
        {"power of text", [&] { T.pow(2); }, ht},
        {"power to text", [&] { N.pow(T); }, ht && hn},
        {"year of a number", [&] { N.extract("year"); }, hn},
        {"unknown field of a date", [&] { qb.cst("2001-02-03 04:05:06", ctx.timestamp(TimeUnit::kSecond)).extract("lustrum"); }},
        {"unknown unit of a date addition", [&] { qb.cst("2001-02-03 04:05:06", ctx.timestamp(TimeUnit::kSecond)).add(1, "lustrum"); }},
        {"days added to a number", [&] { N.add(1, DateAddField::kDay); }, hn},
        {"fraction of days added to a date", [&] { qb.cst("2001-02-03 04:05:06", ctx.timestamp(TimeUnit::kSecond)).add(qb.cst(1.5), DateAddField::kDay); }},
        {"text column cast to a number", [&] { T.cast(ctx.int32()); }, ht && T.expr()->is<hdk::ir::ColumnRef>()},
        {"boolean cast to a timestamp", [&] { B.cast(ctx.timestamp(TimeUnit::kSecond)); }, hb},
        {"case of two types", [&] { qb.ifThenElse(X.isNull(), qb.cst(1), qb.cst(1.5)); }},
        {"case of text and number", [&] { qb.ifThenElse(X.isNull(), qb.cst("a"), qb.cst(1)); }},
        {"window frame of a plain column", [&] { X.over(); }},
        {"window frame of stddev", [&] { N.stdDev().over(); }, hn},
        {"window partition by an expression", [&] { qb.rowNumber().over(N.add(1)); }, hn},
        {"order of a plain column", [&] { X.orderBy(vector<BuilderOrderByKey>{{X, SortDirection::Ascending, NullSortedPosition::Last}}); }},
        {"order of a window by an expression", [&] { qb.rowNumber().over().orderBy(vector<BuilderOrderByKey>{{N.add(1), SortDirection::Ascending, NullSortedPosition::Last}}); }, hn},
        {"ntile of zero", [&] { qb.nTile(0); }},
        {"ntile of a negative number", [&] { qb.nTile(-r.range(1, 9)); }},
        {"sort by an expression", [&] { BuilderSortField(N.add(1), SortDirection::Ascending, NullSortedPosition::Last); }, hn},
        {"sort by an expression, textual direction", [&] { BuilderSortField(N.add(1), string("asc"), string("last")); }, hn},
        {"sort direction misspelt", [&] { BuilderSortField(0, string("ascend"), string("last")); }},
        {"null position misspelt", [&] { BuilderSortField(0, string("asc"), string("middle")); }},
        {"sort by an unknown column", [&] { a.n.sort(vector<string>{bad}); }},
        {"sort by an index out of range", [&] { a.n.sort(vector<int>{over}); }},
        {"sort by a column of another node", [&] { a.n.sort(vector<BuilderExpr>{S}); }},
        {"join by an unknown left column", [&] { a.n.join(sib.n, vector<string>{bad}, vector<string>{sib.cols[sx].name}, JoinType::INNER); }},
        {"join by an unknown right column", [&] { a.n.join(sib.n, vector<string>{a.cols[xi].name}, vector<string>{bad}, JoinType::LEFT); }},
        {"join by lists of different length", [&] { a.n.join(sib.n, vector<string>{a.cols[xi].name, a.cols[xi].name}, vector<string>{sib.cols[sx].name}, JoinType::INNER); }},
        {"join by no columns", [&] { a.n.join(sib.n, vector<string>{}, vector<string>{}, JoinType::INNER); }},
        {"join of unknown kind", [&] { a.n.join(sib.n, X.eq(X), string("outer")); }},
        {"natural join without common columns", [&] { a.n.join(sib.n, JoinType::INNER); }, !a.scan},
        {"join on columns of another node", [&] { a.n.join(sib.n, w.fresh(sib).n.ref((int)sx).eq(S), JoinType::INNER); }},
        {"ambiguous column of a join", [&] {
           R y = w.fresh(a);
           NodePtr z = w.fresh(a).n.proj(vector<BuilderExpr>{qb.cst(1).rename(y.cols[0].name)}).node();
           auto j = BN(&qb, std::make_shared<Join>(y.n.node(), z, qb.trueCst().expr(), JoinType::INNER));
           j.ref(y.cols[0].name);
         }},
        {"unknown table", [&] { qb.scan("nosuch"); }},
        {"unknown table of a database", [&] { qb.scan(ve::DB, "nosuch"); }},
        {"unknown table id", [&] { qb.scan(ve::DB, 7777); }},
        {"table of an unknown database", [&] { qb.scan(ve::DB + 5, 1); }},
        {"integer literal of type text", [&] { qb.cst(5, ctx.text()); }},
        {"fp literal of type integer", [&] { qb.cst(1.5, ctx.int32()); }},
        {"text literal that is no number", [&] { qb.cst("12a", ctx.int32()); }},
        {"text literal that is no date", [&] { qb.cst("not a date", ctx.timestamp(TimeUnit::kSecond)); }},
        {"unscaled literal of an integer type", [&] { qb.cstNoScale(5, ctx.int32()); }},
        {"row count of a derived node", [&] { sib.n.rowCount(); }},
    };
    for (int k = 0; k < 6; ++k) {
      auto& q = r.pick(reqs);
      if (!q.ok) continue;
      note(cat("case ", c, " ", q.what, " on ", a.txt));
      string got = "accepted";
      try {
        q.f();
      } catch (const InvalidQueryError& e) {
        got = "";
        VH_EXPECT(string(e.what()).size() > 0, "reject-empty-message", q.what);
      } catch (const std::exception& e) {
        got = string("other error: ") + e.what();
      }
      eval();
      ev("requests");
      distinct(q.what);
      VH_EXPECT(got.empty(), string("not-refused:") + q.what, "case ", c, " on ", a.txt, " (column ", a.cols[xi].name, " ", X.type()->toString(), "): ", got);
    }
  }
}

static string show_all(const Node* root) {
  string s;
  std::set<const Node*> seen;
  std::function<void(const Node*)> go = [&](const Node* n) {
    if (!seen.insert(n).second) return;
    for (size_t i = 0; i < n->inputCount(); ++i) go(n->getInput(i));
    s += n->toString() + "\n";
  };
  go(root);
  return s;
}
// plan nodes as values: copies, replaced inputs, hashes, node lists
static void mode_nodes() {
  long n = st().thorough ? 30000 : 2200;
  for (long c = 0; c < n && !too_many(); ++c) {
    if (st().only_case >= 0 && c != st().only_case) continue;
    Rng r = case_rng(c);
    World w(r);
    int nt = r.range(1, 2);
    for (int i = 0; i < nt; ++i) w.table("t" + std::to_string(i), r.pick({1, 4, 12}), r.pick({0, 20}), r.pick({1, 2}));
    note(cat("case ", c));
    string txt;
    try {
      R q = build(w, r, r.range(1, 6), true);
      txt = q.txt;
      note(cat("case ", c, " ", txt));
      auto dag = q.n.finalize();
      auto root = dag->getRootNodeShPtr();
      string before = show_all(root.get());
      vector<const Type*> t0;
      for (size_t i = 0; i < root->size(); ++i) t0.push_back(getColumnType(root.get(), i));
      auto meaning = [&](const Node* nd, const char* key) {
        try {
          string bad = check_rows(q, w.in.run(nd), t0);
          eval();
          VH_EXPECT(bad.empty(), key, "case ", c, " ", txt, ": ", bad);
        } catch (const vi::Overflow&) {
          ev("overflow_domain");
        }
        w.in.reset();
      };
      // a list made from the root alone is complete, ordered and without repetitions
      QueryDag d2(w.cfg, root);
      string bad = well_formed(d2);
      VH_EXPECT(bad.empty(), "dag-of-root", "case ", c, " ", txt, ": ", bad);
      VH_EXPECT(d2.getNodes().size() == dag->getNodes().size(), "dag-of-root-size", "case ", c, " ", txt, " ", d2.getNodes().size(), " ", dag->getNodes().size());
      VH_EXPECT(std::llabs((long long)d2.now() - (long long)time(nullptr)) < 3600, "dag-now", d2.now());
      // copy every node and rebind the copies to each other
      std::map<const Node*, NodePtr> cp;
      InputRewriter rw;
      for (auto& nd : dag->getNodes()) {
        if (nd->is<Scan>()) continue;  // scans are not copied by design
        if (auto a = std::dynamic_pointer_cast<Aggregate>(nd); a && r.chance(30)) {
          a->setPartitioned(r.chance(50));
          a->setBufferEntryCountHint(r.below(1000));
          before = show_all(root.get());
        }
        auto k = nd->deepCopy();
        VH_EXPECT(k->getId() != nd->getId(), "copy-id", k->toString());
        VH_EXPECT(k->size() == nd->size() && k->inputCount() == nd->inputCount(), "copy-shape", nd->toString(), " ", k->toString());
        VH_EXPECT(k->toHash() == nd->toHash(), "copy-hash", nd->toString(), " ", k->toString());
        for (size_t i = 0; i < nd->size(); ++i) {
          VH_EXPECT(k->getFieldName(i) == nd->getFieldName(i), "copy-field", nd->toString(), " ", i);
          VH_EXPECT(getColumnType(k.get(), i)->equal(getColumnType(nd.get(), i)), "copy-type", nd->toString(), " ", i);
        }
        if (auto a = nd->as<Aggregate>()) {
          auto b = k->as<Aggregate>();
          VH_EXPECT(b && a->isPartitioned() == b->isPartitioned() && a->bufferEntryCountHint() == b->bufferEntryCountHint() && a->getGroupByCount() == b->getGroupByCount(), "copy-aggregate", nd->toString());
        }
        eval();
        ev("node_copies");
        if (nd->inputCount() == 1) {  // the copy over the same input means the same
          Rows x = w.in.run(nd.get()), y = w.in.run(k.get());
          VH_EXPECT(x == y, "copy-meaning", "case ", c, " ", nd->toString());
        }
        string was = show_all(nd.get());
        for (size_t i = 0; i < k->inputCount(); ++i) {
          auto in = k->getAndOwnInput(i);
          auto it = cp.find(in.get());
          if (it == cp.end()) continue;
          rw.addNodeMapping(in.get(), it->second.get());
          k->replaceInput(in, it->second, rw);
          VH_EXPECT(k->getInput(i) == it->second.get() && !k->hasInput(in.get()), "replace-input", nd->toString());
        }
        rw.addNodeMapping(nd.get(), k.get());
        VH_EXPECT(show_all(nd.get()) == was, "copy-shares-state", "case ", c, " ", was, " now ", show_all(nd.get()));
        cp[nd.get()] = k;
      }
      w.in.reset();
      QueryDag d3(w.cfg, cp.at(root.get()));
      bad = well_formed(d3);
      VH_EXPECT(bad.empty(), "copied-plan-form", "case ", c, " ", txt, ": ", bad);
      for (auto& nd : d3.getNodes()) VH_EXPECT(!nd->is<Scan>() ? !cp.count(nd.get()) : true, "copied-plan-shares", nd->toString());
      meaning(cp.at(root.get()).get(), "copied-plan-meaning");
      // another input with the same columns elsewhere: expressions follow
      for (auto& [old, k] : cp) {
        if (k->inputCount() != 1 || !r.chance(30)) continue;
        auto in = k->getAndOwnInput(0);
        bool positional = k->is<Aggregate>() || k->is<Sort>() || k->is<Filter>() || in->is<Join>();
        size_t m = in->size();
        vector<unsigned> perm(m);
        for (size_t i = 0; i < m; ++i) perm[i] = i;
        if (!positional)
          for (size_t i = m; i > 1; --i) std::swap(perm[i - 1], perm[r.below(i)]);
        if (in->is<Join>() || in->is<Scan>()) continue;  // conditions above may read the scan below a projection
        if (k->is<Filter>() && in->is<Project>() && in->getInput(0)->is<Scan>()) continue;  // its condition reads the scan below
        ExprPtrVector es;
        vector<string> fs;
        std::unordered_map<unsigned, unsigned> map;
        for (size_t i = 0; i < m; ++i) {
          es.push_back(getNodeColumnRef(in.get(), perm[i]));
          fs.push_back(in->getFieldName(perm[i]));
          map[perm[i]] = i;
        }
        auto p = std::make_shared<Project>(es, fs, in);
        if (positional && r.chance(50)) k->replaceInput(in, p);
        else k->replaceInput(in, p, map);
        ev("inputs_replaced");
      }
      QueryDag d4(w.cfg, cp.at(root.get()));
      bad = well_formed(d4);
      VH_EXPECT(bad.empty(), "rewired-plan-form", "case ", c, " ", txt, ": ", bad);
      meaning(cp.at(root.get()).get(), "rewired-plan-meaning");
      VH_EXPECT(show_all(root.get()) == before, "original-changed", "case ", c, " ", txt);
      meaning(root.get(), "original-meaning");
      // nodes that differ in what they do differ in hash
      for (auto& nd : dag->getNodes()) {
        NodePtr v;
        string what;
        if (auto s = nd->as<Sort>()) {
          size_t lim = s->getLimit(), off = s->getOffset(), nf = s->collationCount();
          int ch = r.below(5);
          auto in = std::const_pointer_cast<Node>(s->getAndOwnInput(0));
          if (ch == 0) lim++;
          else if (ch == 1) off++;
          else if (!nf) continue;
          size_t x = nf ? r.below(nf) : 0;
          vector<SortField> fs;
          for (size_t i = 0; i < nf; ++i) {
            auto f = s->getCollation(i);
            if (i != x || ch < 2) fs.push_back(f);
            else
              fs.push_back(SortField(ch == 4 ? (f.getField() + 1) % std::max<size_t>(2, s->size()) : f.getField(),
                                     ch == 2 ? (f.getSortDir() == SortDirection::Ascending ? SortDirection::Descending : SortDirection::Ascending) : f.getSortDir(),
                                     ch == 3 ? (f.getNullsPosition() == NullSortedPosition::First ? NullSortedPosition::Last : NullSortedPosition::First) : f.getNullsPosition()));
          }
          v = std::make_shared<Sort>(fs, lim, off, in);
          what = cat("sort ", ch);
          if (s->size() < 2 && ch == 4) continue;
        } else if (auto p = nd->as<Project>()) {
          auto es = p->getExprs();
          auto fs = p->getFields();
          auto in = std::const_pointer_cast<Node>(p->getAndOwnInput(0));
          int ch = r.below(3);
          if (ch == 0) fs[r.below(fs.size())] += "_";
          else if (ch == 1) { es.push_back(es[0]); fs.push_back("zz"); }
          else {
            size_t i = r.below(es.size());
            size_t j = r.below(es.size());
            if (*es[i] == *es[j]) continue;
            std::swap(es[i], es[j]);
          }
          v = std::make_shared<Project>(es, fs, in);
          what = cat("project ", ch);
        } else if (auto a = nd->as<Aggregate>()) {
          auto es = a->getAggs();
          auto fs = a->getFields();
          auto in = std::const_pointer_cast<Node>(a->getAndOwnInput(0));
          if (es.empty() || r.chance(50)) fs[r.below(fs.size())] += "_";
          else es.pop_back(), fs.pop_back();
          v = std::make_shared<Aggregate>(a->getGroupByCount(), es, fs, in);
          what = "aggregate";
        } else if (auto j = nd->as<Join>()) {
          auto l = std::const_pointer_cast<Node>(j->getAndOwnInput(0)), q2 = std::const_pointer_cast<Node>(j->getAndOwnInput(1));
          auto jt = j->getJoinType() == JoinType::INNER ? JoinType::LEFT : JoinType::INNER;
          v = std::make_shared<Join>(l, q2, j->getConditionShared(), jt);
          what = "join";
        } else if (auto f = nd->as<Filter>()) {
          auto cnd = f->getConditionExprShared();
          auto in = std::const_pointer_cast<Node>(f->getAndOwnInput(0));
          v = std::make_shared<Filter>(makeExpr<UOper>(cnd->type(), false, OpType::kNot, cnd), in);
          what = "filter";
        } else
          continue;
        eval();
        ev("hash_pairs");
        VH_EXPECT(v->toHash() != nd->toHash(), "hash-collision", what, " ", nd->toString(), " ", v->toString());
      }
      distinct(txt);
      sample(txt);
    } catch (const vi::Overflow&) {
      ev("overflow_domain");
    } catch (const vi::Unmodelled& e) {
      violation("unmodelled", cat("case ", c, " ", txt, ": ", e.what()));
    } catch (const vi::IllFormed& e) {
      violation("ill-formed", cat("case ", c, " ", txt, ": ", e.what()));
    } catch (const std::exception& e) {
      violation("refused", cat("case ", c, " ", txt, ": ", e.what()));
    }
  }
}

int main(int argc, char** argv) {
  init(argc, argv);
  logger::LogOptions lo("h_plan");
  lo.severity_ = logger::Severity::FATAL;
  lo.severity_clog_ = logger::Severity::FATAL;
  logger::init(lo);
  auto& m = st().mode;
  if (m == "canon") mode_plan(true);
  else if (m == "build") mode_plan(false);
  else if (m == "reject") mode_reject();
  else if (m == "nodes") mode_nodes();
  else return 3;
  return finish();
}
