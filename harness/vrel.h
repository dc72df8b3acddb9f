// Relational pipelines: every operator is applied both through the query builder and to a reference bag of rows.
#pragma once
#include "vquery.h"

namespace vq {
using hdk::ir::Interpolation;
using ::JoinType;
using hdk::ir::NullSortedPosition;
using hdk::ir::SortDirection;

using Pred = std::function<bool(const Val&)>;

struct Rel {
  BuilderNode node;
  std::vector<Col> cols;
  Rows rows;
  // a column whose accepted values are a set described by a predicate (approximate or free choice); key: row index, column
  std::map<std::pair<size_t, size_t>, std::pair<Pred, string>> loose;
  string text;
  bool empty_global = false;
  bool has_distinct = false;  // the engine holds such counts in a wider type than the builder says
  bool ordered = false;  // rows are in the required order
  std::vector<size_t> tie_group;  // ordered: rows with the same number may come in any order
  size_t limit = 0, offset = 0;   // applied after ordering
  size_t col(const string& n) const {
    for (size_t i = 0; i < cols.size(); ++i) if (cols[i].name == n) return i;
    throw Skip();
  }
};

inline Rel scan(QueryBuilder& qb, const Tab& t) {
  Rel r;
  r.node = qb.scan(t.name);
  r.cols = t.cols;
  r.rows = t.rows;
  r.text = t.name;
  return r;
}
inline Gen gen_of(Rng& r, QueryBuilder& qb, Storage& st, const Rel& rel) {
  BuilderNode n = rel.node;
  auto names = std::make_shared<std::vector<string>>();
  for (auto& c : rel.cols) names->push_back(c.name);
  return Gen(r, qb, st, rel.cols, [n, names](size_t i) { return n.ref((*names)[i]); });
}
inline Col col_of(const E& e, const string& name) {
  Col c;
  c.name = name;
  c.type = e.b.type();
  c.k = e.k;
  c.w = e.w;
  c.bound = e.bound;
  c.nullable = e.b.type()->nullable();
  c.lo = -e.bound;
  c.hi = e.bound;
  c.exact = e.exact;
  c.derived = true;
  return c;
}

// ---------------------------------------------------------------- operators
inline Rel op_filter(const Rel& in, const E& cond) {
  Rel o = in;
  o.node = in.node.filter(cond.b);
  o.rows.clear();
  for (auto& r : in.rows) {
    Val v = cond.f(r);
    if (!v.isNull() && v.i) o.rows.push_back(r);
  }
  o.text += " | filter " + cond.t;
  return o;
}
inline Rel op_proj(const Rel& in, const std::vector<E>& es, const string& prefix) {
  Rel o;
  std::vector<BuilderExpr> b;
  std::vector<string> n;
  o.text = in.text + " | proj";
  for (auto& e : es) {
    b.push_back(e.b);
    n.push_back(prefix + std::to_string(n.size()));
    o.cols.push_back(col_of(e, n.back()));
    o.text += " " + e.t + " as " + n.back();
  }
  o.node = in.node.proj(b, n);
  for (auto& r : in.rows) {
    Row x;
    for (auto& e : es) x.push_back(e.f(r));
    o.rows.push_back(std::move(x));
  }
  return o;
}

// ---------------------------------------------------------------- aggregates
struct Agg {
  BuilderExpr b;
  Col c;
  string t;
  std::function<Val(const std::vector<const Row*>&)> f;
  std::function<std::pair<Pred, string>(const std::vector<const Row*>&)> loose;  // instead of f
};

inline std::vector<Val> vals(const std::vector<const Row*>& g, size_t ix) {
  std::vector<Val> v;
  for (auto* r : g) if (!(*r)[ix].isNull()) v.push_back((*r)[ix]);
  return v;
}
inline double scaled(const Val& v, const Col& c) { return c.k == DEC ? (double)v.i / p10(c.w) : v.num(); }

struct AggOpts {
  bool approx = true, topk = true, quantile = true, distinct = true, sample = true, stddev = true, single = true;
  double max_distinct_span = 4e8;
  std::vector<size_t> keys;
};

inline double value_span(const Rel& in, size_t ix) {
  double lo = 0, hi = 0;
  bool any = false;
  for (auto& row : in.rows) {
    if (row[ix].isNull()) continue;
    if (row[ix].k == Val::Str) return 500;
    if (row[ix].k == Val::Fp) return 16384;
    double v = row[ix].num() * (in.cols[ix].k == DATE ? 86400 : 1);
    lo = any ? std::min(lo, v) : v;
    hi = any ? std::max(hi, v) : v;
    any = true;
  }
  return hi - lo + 1;
}

inline Agg gen_agg(Rng& r, QueryBuilder& qb, const Rel& in, const string& name, const AggOpts& o = {}) {
  for (int tries = 0; tries < 50; ++tries) {
    Agg a;
    a.c.name = name;
    size_t ix = r.below(in.cols.size());
    const Col c = in.cols[ix];
    auto ref = in.node.ref(c.name);
    size_t n = std::max<size_t>(in.rows.size(), 1);
    bool num = c.k == INT || c.k == FP || c.k == DEC;
    auto setc = [&](K k, int w, double bound, bool exact) {
      a.c.k = k;
      a.c.w = w;
      a.c.bound = bound;
      a.c.lo = -bound;
      a.c.hi = bound;
      a.c.exact = exact;
      a.c.type = a.b.type();
      a.c.nullable = a.b.type()->nullable();
      a.c.derived = true;
    };
    switch (r.below(15)) {
      case 0:
        a.b = qb.count();
        a.t = "count()";
        a.f = [](auto& g) { return Val::I(g.size()); };
        setc(INT, a.b.type()->size() * 8, n, true);
        break;
      case 1:
        if (c.k == STR && c.w == 0) continue;  // a null text is stored like an empty one
        a.b = ref.count();
        a.t = "count(" + c.name + ")";
        a.f = [ix](auto& g) { return Val::I(vals(g, ix).size()); };
        setc(INT, a.b.type()->size() * 8, n, true);
        break;
      case 2:
        if (!o.distinct || (c.k == STR && c.w == 0) || (c.k == FP && !c.exact)) continue;
        if (c.k != FP && value_span(in, ix) > o.max_distinct_span) continue;
        a.b = ref.count(true);
        a.t = "count(distinct " + c.name + ")";
        a.f = [ix](auto& g) { auto v = vals(g, ix); return Val::I(std::set<Val>(v.begin(), v.end()).size()); };
        setc(INT, a.b.type()->size() * 8, n, true);
        break;
      case 3: case 4: {
        if (!num) continue;
        if (c.k != FP && c.bound * n > 1e17) continue;
        if (c.k == FP && c.bound * n > (c.w == 32 ? 3e5 : 1e12)) continue;
        a.b = ref.sum();
        a.t = "sum(" + c.name + ")";
        K k = c.k;
        a.f = [ix, k](auto& g) {
          auto v = vals(g, ix);
          if (v.empty()) return Val::null();
          i64 s = 0;
          double d = 0;
          for (auto& x : v) { if (k == FP) d += x.d; else s += x.i; }
          return k == FP ? Val::D(d) : Val::I(s);
        };
        setc(c.k, c.k == INT ? a.b.type()->size() * 8 : c.w, c.bound * n, c.exact);
        break;
      }
      case 5: {
        if (!num) continue;
        a.b = ref.avg();
        a.t = "avg(" + c.name + ")";
        a.f = [ix, c](auto& g) {
          auto v = vals(g, ix);
          if (v.empty()) return Val::null();
          double d = 0;
          for (auto& x : v) d += scaled(x, c);
          return Val::D(d / v.size());
        };
        setc(FP, 64, c.bound, false);
        break;
      }
      case 6: case 7: {
        bool mn = r.chance(50);
        if (!num && c.k != DATE && c.k != TS) continue;
        a.b = mn ? ref.min() : ref.max();
        a.t = cat(mn ? "min(" : "max(", c.name, ")");
        a.f = [ix, mn](auto& g) {
          auto v = vals(g, ix);
          if (v.empty()) return Val::null();
          return mn ? *std::min_element(v.begin(), v.end()) : *std::max_element(v.begin(), v.end());
        };
        setc(c.k, c.w, c.bound, c.exact);
        break;
      }
      case 8: {
        if (!o.sample || (c.k == STR && c.w == 0)) continue;
        if (std::find(o.keys.begin(), o.keys.end(), ix) != o.keys.end()) continue;
        a.b = ref.sample();
        a.t = "sample(" + c.name + ")";
        bool date = c.k == DATE;
        a.loose = [ix, date](auto& g) {
          auto all = std::make_shared<std::vector<Val>>();
          bool any_null = g.empty(), none = g.empty();
          for (auto* r : g) {
            if ((*r)[ix].isNull()) any_null = true;
            else all->push_back(date ? Val::I((*r)[ix].i * 86400) : (*r)[ix]);
          }
          Pred p = [all, any_null, none](const Val& v) {
            if (none) return true;  // the sample of no rows is not decided
            if (v.isNull()) return any_null;
            for (auto& x : *all) if (x == v || (x.k == Val::Fp && v.k == Val::Fp && near(x.d, v.d, 1e-5))) return true;
            return false;
          };
          return std::make_pair(p, string("one of the group's values"));
        };
        setc(c.k, c.w, c.bound, c.exact);
        break;
      }
      case 9: {
        if (!o.stddev || c.k != INT || c.bound > 1e4) continue;  // larger values make the sums of squares lose digits
        a.b = ref.stdDev();
        a.t = "stddev(" + c.name + ")";
        a.f = [ix, c](auto& g) {
          auto v = vals(g, ix);
          if (v.size() < 2) return Val::null();
          long double m = 0, s = 0;
          for (auto& x : v) m += scaled(x, c);
          m /= v.size();
          for (auto& x : v) s += (scaled(x, c) - m) * (scaled(x, c) - m);
          return Val::D(std::sqrt((double)(s / (v.size() - 1))));
        };
        setc(FP, 64, c.bound, false);
        break;
      }
      case 10: case 11: {
        if (!o.quantile || (!num && c.k != DATE && c.k != TS)) continue;
        double q = r.pick({0.0, 0.1, 0.25, 0.3, 0.5, 0.5, 0.75, 0.9, 1.0});
        auto ip = r.pick({Interpolation::kLower, Interpolation::kHigher, Interpolation::kNearest, Interpolation::kMidpoint, Interpolation::kLinear});
        a.b = ref.quantile(q, ip);
        a.t = cat("quantile(", c.name, ",", q, ",", (int)ip, ")");
        bool rounding = (c.k == DATE || c.k == TS || c.k == DEC) && (ip == Interpolation::kMidpoint || ip == Interpolation::kLinear);
        if (c.k == DATE) continue;
        K k = c.k;
        auto bounds = [ix, q, ip](auto& g, Val& lo, Val& hi, double& fr) {
          auto v = vals(g, ix);
          if (v.empty()) return false;
          std::sort(v.begin(), v.end());
          double pos = q * (v.size() - 1);
          size_t i = (size_t)pos;
          size_t j = std::min(v.size() - 1, (size_t)std::ceil(pos));
          fr = pos - i;
          lo = v[i];
          hi = v[j];
          return true;
        };
        a.loose = [bounds, ip, k, rounding](auto& g) -> std::pair<Pred, string> {
          Val lo, hi;
          double fr = 0;
          if (!bounds(g, lo, hi, fr)) return {[](const Val& v) { return v.isNull(); }, "NULL"};
          auto eq = [](const Val& a, const Val& b) { return a.k == Val::Fp && b.k == Val::Fp ? near(a.d, b.d, 1e-6) : a == b; };
          if (ip == Interpolation::kLower) return {[lo, eq](const Val& v) { return eq(v, lo); }, lo.show()};
          if (ip == Interpolation::kHigher) return {[hi, eq](const Val& v) { return eq(v, hi); }, hi.show()};
          if (ip == Interpolation::kNearest) {
            Val w = fr < 0.5 ? lo : hi;
            if (std::fabs(fr - 0.5) < 1e-9) return {[lo, hi, eq](const Val& v) { return eq(v, lo) || eq(v, hi); }, lo.show() + " or " + hi.show()};
            return {[w, eq](const Val& v) { return eq(v, w); }, w.show()};
          }
          double f = ip == Interpolation::kMidpoint ? (lo == hi ? 0 : 0.5) : fr;
          double w = lo.num() + (hi.num() - lo.num()) * f;
          double tol = rounding ? 1.0 + std::fabs(w) * 1e-12 : 1e-6;
          return {[w, tol, rounding](const Val& v) { return !v.isNull() && (rounding ? std::fabs(v.num() - w) <= tol : near(v.num(), w, tol)); }, cat(w)};
        };
        setc(a.b.type()->isFloatingPoint() ? FP : c.k, a.b.type()->isFloatingPoint() ? a.b.type()->size() * 8 : c.w, c.bound + 1, false);
        if (a.c.k == INT) a.c.w = a.b.type()->size() * 8;
        break;
      }
      case 12: {
        if (!o.topk || !num || (c.k == FP && !c.exact) || c.k == DEC) continue;
        int k = r.pick({1, 2, 5});
        bool top = r.chance(50);
        a.b = top ? ref.topK(k) : ref.bottomK(k);
        a.t = cat(top ? "topk(" : "bottomk(", c.name, ",", k, ")");
        a.f = [ix, k, top](auto& g) {
          auto v = vals(g, ix);
          std::sort(v.begin(), v.end());
          if (top) std::reverse(v.begin(), v.end());
          if (v.size() > (size_t)k) v.resize(k);
          string s = "[";
          for (auto& x : v) s += (s.size() > 1 ? "," : "") + x.show();
          return Val::S(s + "]");
        };
        a.c.k = STR;
        a.c.w = 0;
        a.c.type = a.b.type();
        break;
      }
      case 13: {
        if (!o.approx || (c.k == STR && c.w == 0) || (c.k == FP && !c.exact)) continue;
        a.b = ref.approxCountDist();
        a.t = "approx_count_distinct(" + c.name + ")";
        a.loose = [ix](auto& g) -> std::pair<Pred, string> {
          auto v = vals(g, ix);
          double n = std::set<Val>(v.begin(), v.end()).size();
          return {[n](const Val& x) { return !x.isNull() && std::fabs(x.num() - n) <= 2 + n * 0.12; }, cat("about ", n)};
        };
        setc(INT, a.b.type()->size() * 8, n, true);
        break;
      }
      default: {
        if (!o.approx || !num) continue;
        double q = r.pick({0.0, 0.25, 0.5, 0.9, 1.0});
        a.b = ref.approxQuantile(q);
        a.t = cat("approx_quantile(", c.name, ",", q, ")");
        a.loose = [ix, q, c](auto& g) -> std::pair<Pred, string> {
          auto v = vals(g, ix);
          if (v.empty()) return {[](const Val& x) { return x.isNull(); }, "NULL"};
          std::vector<double> d;
          for (auto& x : v) d.push_back(scaled(x, c));
          std::sort(d.begin(), d.end());
          // within the values ranked around the exact position
          double pos = q * (d.size() - 1), slack = 1.5 + 0.05 * d.size();
          double lo = d[(size_t)std::max(0.0, std::floor(pos - slack))], hi = d[(size_t)std::min<double>(d.size() - 1, std::ceil(pos + slack))];
          double e = 1e-6 * std::max(1.0, std::max(std::fabs(lo), std::fabs(hi)));
          return {[lo, hi, e](const Val& x) { return !x.isNull() && x.num() >= lo - e && x.num() <= hi + e; }, cat("in [", lo, ",", hi, "]")};
        };
        setc(FP, 64, c.bound, false);
        break;
      }
    }
    return a;
  }
  throw Skip();
}

inline bool groupable(const Col& c) { return !(c.k == STR && c.w == 0) && !(c.k == FP && !c.exact); }

inline Rel op_agg(Rng& r, QueryBuilder& qb, const Rel& in, int nkeys, int naggs, const AggOpts& ao, const string& prefix) {
  Rel o;
  std::vector<size_t> keys;
  std::vector<size_t> cand;
  for (size_t i = 0; i < in.cols.size(); ++i) if (groupable(in.cols[i])) cand.push_back(i);
  for (int i = 0; i < nkeys && !cand.empty(); ++i) {
    size_t p = r.below(cand.size());
    keys.push_back(cand[p]);
    cand.erase(cand.begin() + p);
  }
  std::vector<BuilderExpr> kb, ab;
  o.text = in.text + " | agg by(";
  for (size_t k : keys) {
    kb.push_back(in.node.ref(in.cols[k].name));
    o.text += in.cols[k].name + " ";
    Col c = in.cols[k];
    c.derived = true;
    o.cols.push_back(c);
  }
  o.text += ")";
  std::vector<Agg> aggs;
  // The engine may lay groups out by key range: keep memory hungry aggregates away from wide key ranges.
  double span = 1;
  for (size_t k : keys) span *= value_span(in, k) + 2;
  AggOpts ao2 = ao;
  ao2.keys = keys;
  ao2.max_distinct_span = 4e8 / span;
  // The builder types aggregates of a non-nullable column as non-nullable, so the NULL of an aggregate over no rows is
  // only recognisable while nothing is computed on top of it.
  o.empty_global = keys.empty() && in.rows.empty();
  if (o.empty_global) ao2.stddev = false;
  if (span > 2e4) ao2.approx = ao2.quantile = ao2.topk = false;
  for (int i = 0; i < naggs; ++i) {
    aggs.push_back(gen_agg(r, qb, in, prefix + "a" + std::to_string(i), ao2));
    o.has_distinct |= aggs.back().t.find("distinct") != string::npos;
    ab.push_back(aggs.back().b.rename(aggs.back().c.name));
    o.cols.push_back(aggs.back().c);
    o.text += " " + aggs.back().t + " as " + aggs.back().c.name;
  }
  o.node = in.node.agg(kb, ab);
  std::map<Row, std::vector<const Row*>> groups;
  for (auto& row : in.rows) {
    Row k;
    for (size_t i : keys) k.push_back(row[i]);
    groups[k].push_back(&row);
  }
  if (keys.empty() && groups.empty()) groups[{}];
  for (auto& [k, g] : groups) {
    Row row = k;
    for (auto& a : aggs) {
      if (a.loose) {
        o.loose[{o.rows.size(), row.size()}] = a.loose(g);
        row.push_back(Val::null());
      } else {
        row.push_back(a.f(g));
      }
    }
    o.rows.push_back(std::move(row));
  }
  return o;
}

// ---------------------------------------------------------------- joins
// names of the right side must not clash with those of the left side
inline Rel op_join(const Rel& l, const Rel& rr, const E& cond, JoinType jt, const string& jtext) {
  Rel o;
  o.node = l.node.join(rr.node, cond.b, jt);
  o.cols = l.cols;
  bool both = jt == JoinType::INNER || jt == JoinType::LEFT;
  for (auto c : rr.cols) {
    if (jt == JoinType::LEFT) c.nullable = true;
    if (both) o.cols.push_back(c);
  }
  o.text = "(" + l.text + ") " + jtext + " join (" + rr.text + ") on " + cond.t;
  for (auto& a : l.rows) {
    bool hit = false;
    for (auto& b : rr.rows) {
      Row row = a;
      row.insert(row.end(), b.begin(), b.end());
      Val v = cond.f(row);
      if (v.isNull() || !v.i) continue;
      hit = true;
      if (both) o.rows.push_back(std::move(row));
      else break;
    }
    if (jt == JoinType::LEFT && !hit) {
      Row row = a;
      row.resize(a.size() + rr.cols.size());
      o.rows.push_back(std::move(row));
    }
    if (jt == JoinType::SEMI && hit) o.rows.push_back(a);
    if (jt == JoinType::ANTI && !hit) o.rows.push_back(a);
  }
  if (jt == JoinType::LEFT) {
    // The builder keeps the type of a non-nullable column of the right side, so nothing may be computed from it.
    for (size_t i = o.cols.size(); i-- > l.cols.size();)
      if (!rr.cols[i - l.cols.size()].nullable) {
        o.cols.erase(o.cols.begin() + i);
        for (auto& row : o.rows) row.erase(row.begin() + i);
      }
  }
  return o;
}

// ---------------------------------------------------------------- ordering
inline int cmp_null(const Val& a, const Val& b, bool desc, bool nulls_first) {
  if (a.isNull() || b.isNull()) {
    if (a.isNull() && b.isNull()) return 0;
    return a.isNull() == nulls_first ? -1 : 1;
  }
  int c = a.k == Val::Str ? vstr::cmp(a.s, b.s) : a.cmp(b);
  return desc ? -c : c;
}
struct SortKey { size_t ix; bool desc, nulls_first; };
inline int cmp_keys(const Row& a, const Row& b, const std::vector<SortKey>& ks) {
  for (auto& k : ks) {
    int c = cmp_null(a[k.ix], b[k.ix], k.desc, k.nulls_first);
    if (c) return c;
  }
  return 0;
}
inline Rel op_sort(const Rel& in, const std::vector<SortKey>& ks, size_t limit, size_t offset) {
  Rel o = in;
  std::vector<hdk::ir::BuilderSortField> f;
  o.text += " | sort";
  for (auto& k : ks) {
    f.emplace_back(in.cols[k.ix].name, k.desc ? SortDirection::Descending : SortDirection::Ascending, k.nulls_first ? NullSortedPosition::First : NullSortedPosition::Last);
    o.text += cat(" ", in.cols[k.ix].name, k.desc ? " desc" : "", k.nulls_first ? " nf" : " nl");
  }
  o.text += cat(" limit ", limit, " offset ", offset);
  o.node = in.node.sort(f, limit, offset);
  std::vector<size_t> ord(in.rows.size());
  for (size_t i = 0; i < ord.size(); ++i) ord[i] = i;
  std::stable_sort(ord.begin(), ord.end(), [&](size_t x, size_t y) { return cmp_keys(in.rows[x], in.rows[y], ks) < 0; });
  o.rows.clear();
  o.loose.clear();
  o.tie_group.clear();
  size_t g = 0;
  for (size_t i = 0; i < ord.size(); ++i) {
    if (i && cmp_keys(in.rows[ord[i - 1]], in.rows[ord[i]], ks) != 0) ++g;
    o.rows.push_back(in.rows[ord[i]]);
    o.tie_group.push_back(g);
    for (size_t c = 0; c < in.cols.size(); ++c) {
      auto it = in.loose.find({ord[i], c});
      if (it != in.loose.end()) o.loose[{i, c}] = it->second;
    }
  }
  o.ordered = true;
  o.limit = limit;
  o.offset = offset;
  return o;
}

// ---------------------------------------------------------------- checking
inline bool row_ok(const Rel& w, size_t i, const Row& got) {
  auto& x = w.rows[i];
  if (x.size() != got.size()) return false;
  for (size_t c = 0; c < x.size(); ++c) {
    auto it = w.loose.find({i, c});
    if (it != w.loose.end()) {
      if (!it->second.first(got[c])) return false;
      continue;
    }
    const Val& e = x[c];
    const Val& g = got[c];
    if (e.isNull() != g.isNull()) return false;
    if (e.isNull()) continue;
    if (w.cols[c].k == FP) {
      if (g.k != Val::Fp) return false;
      if (!near(e.num(), g.num(), w.cols[c].w == 32 ? 1e-5 : w.cols[c].exact ? 1e-9 : 1e-6)) return false;
    } else if (w.cols[c].k == DATE) {
      if (g.k != Val::Int || g.i != e.i * 86400) return false;
    } else if (!(e == g)) {
      return false;
    }
  }
  return true;
}
inline string show_want(const Rel& w, size_t i) {
  string s = "(";
  for (size_t c = 0; c < w.cols.size(); ++c) {
    auto it = w.loose.find({i, c});
    s += (c ? "," : "") + (it != w.loose.end() ? "<" + it->second.second + ">" : w.cols[c].k == DATE && !w.rows[i][c].isNull() ? std::to_string(w.rows[i][c].i * 86400) : w.rows[i][c].show());
  }
  return s + ")";
}
// Empty string: the result is one of those the query may give.
inline string verify(const Rel& w, const Rows& got) {
  size_t n = w.rows.size();
  size_t from = std::min(w.offset, n), to = w.limit ? std::min(n, from + w.limit) : n;
  if (got.size() != to - from) {
    string s = cat("row count ", got.size(), " instead of ", to - from, "; got ", show(got, 8), " want ");
    for (size_t i = from; i < to && i < from + 8; ++i) s += show_want(w, i);
    return s;
  }
  // bucket expected rows by their exactly comparable columns
  auto key = [&](const Row& r, bool got_side) {
    string s;
    for (size_t c = 0; c < r.size() && c < w.cols.size(); ++c) {
      if (w.cols[c].k == FP) continue;
      bool is_loose = false;
      if (!w.loose.empty() && w.loose.count({0, c})) is_loose = true;
      if (is_loose) continue;
      Val v = r[c];
      if (!got_side && w.cols[c].k == DATE && !v.isNull()) v = Val::I(v.i * 86400);
      s += v.show() + "|";
    }
    return s;
  };
  std::vector<bool> used(n, false);
  if (!w.ordered) {
    std::unordered_map<string, std::vector<size_t>> idx;
    for (size_t i = 0; i < n; ++i) idx[key(w.rows[i], false)].push_back(i);
    for (auto& g : got) {
      bool ok = false;
      auto it = idx.find(key(g, true));
      if (it != idx.end())
        for (size_t i : it->second)
          if (!used[i] && row_ok(w, i, g)) { used[i] = ok = true; break; }
      if (!ok) {
        string s = "unexpected row " + show(g) + "; missing";
        int k = 0;
        if (it != idx.end())
          for (size_t i : it->second) if (!used[i] && k++ < 3) s += " " + show_want(w, i);
        if (!k) for (size_t i = 0; i < n && k < 3; ++i) if (!used[i]) { s += " " + show_want(w, i); ++k; }
        return s;
      }
    }
    return "";
  }
  // ordered: position i must hold a row of the tie group at that position
  std::vector<size_t> start;
  for (size_t i = 0; i < n; ++i) if (w.tie_group[i] >= start.size()) start.push_back(i);
  for (size_t i = from; i < to; ++i) {
    size_t g = w.tie_group[i];
    bool ok = false;
    size_t end = g + 1 < start.size() ? start[g + 1] : n;
    for (size_t j = start[g]; j < end && !ok; ++j)
      if (!used[j] && row_ok(w, j, got[i - from])) used[j] = ok = true;
    if (!ok) return cat("position ", i - from, ": ", show(got[i - from]), " where ", show_want(w, i), " or a tie of it belongs");
  }
  return "";
}
}  // namespace vq
