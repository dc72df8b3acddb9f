// An interpreter of IR query plans over in-memory rows. It gives every node and expression the textbook meaning and
// shares no code with the engine; anything a plan must not contain (dangling column references, operands whose types do
// not agree, columns out of range) is reported as ill-formed.
#pragma once
#define VERIF_NO_ENGINE 1
#include "vengine.h"

#include "IR/Node.h"

#include <cmath>

namespace vi {
using namespace hdk::ir;
using ve::Row;
using ve::Rows;
using ve::Val;
using std::string;

struct IllFormed : std::runtime_error {
  using runtime_error::runtime_error;
};
struct Unmodelled : std::runtime_error {
  using runtime_error::runtime_error;
};
struct Overflow : std::runtime_error {
  using runtime_error::runtime_error;
};

inline int scale_of(const Type* t) { return t->isDecimal() ? (int)t->as<DecimalType>()->scale() : 0; }
inline double p10d(int n) { double r = 1; while (n-- > 0) r *= 10; return r; }
inline bool intlike(const Type* t) { return t->isInteger() || t->isDecimal() || t->isBoolean(); }
inline Val num(const Val& v, const Type* t) {  // the value a user sees
  if (v.k == Val::Int) return Val::D((double)v.i / p10d(scale_of(t)));
  return v;
}

class Interp {
 public:
  std::function<const Rows&(const Scan*)> scan_rows;

  // position of a referenced column in the rows of node `in`, -1 when it is not there
  static int resolve(const Node* in, const Node* want, unsigned idx) {
    if (in == want) return idx < in->size() ? (int)idx : -1;
    if (auto j = in->as<Join>()) {
      int l = resolve(j->getInput(0), want, idx);
      if (l >= 0) return l;
      int r = resolve(j->getInput(1), want, idx);
      return r < 0 ? -1 : r + (int)j->getInput(0)->size();
    }
    if (auto p = in->as<Project>()) {
      for (size_t i = 0; i < p->size(); ++i) {
        auto c = p->getExpr(i)->as<hdk::ir::ColumnRef>();
        if (c && c->node() == want && c->index() == idx) return i;
      }
      return -1;
    }
    if (in->is<Filter>() || in->is<Sort>()) return resolve(in->getInput(0), want, idx);
    return -1;
  }

  const Rows& run(const Node* n) {
    auto it = memo_.find(n);
    if (it != memo_.end()) return it->second;
    Rows r = compute(n);
    for (auto& x : r)
      if (x.size() != n->size()) throw IllFormed(vh::cat("row of ", x.size(), " values from a node of size ", n->size(), ": ", n->toString()));
    return memo_[n] = std::move(r);
  }
  void reset() { memo_.clear(); }

 private:
  std::map<const Node*, Rows> memo_;

  static void fit(int64_t v, const Type* t) {
    int sz = t->isDecimal() ? 8 : t->size();
    if (sz >= 8) return;
    int64_t m = (1ll << (8 * sz - 1)) - 1;
    if (v > m || v < -m) throw Overflow(vh::cat(v, " does not fit ", t->toString()));
  }
  static Val tri(int t) { return t < 0 ? Val::null() : Val::I(t); }
  static int truth(const Val& v) { return v.isNull() ? -1 : v.i != 0; }

  Val cast(const Val& v, const Type* from, const Type* to, const Expr* e) {
    if (v.isNull()) return v;
    if (from->isText() || from->isVarChar() || from->isExtDictionary()) {
      if (to->isText() || to->isVarChar() || to->isExtDictionary()) return v;
      throw Unmodelled("cast " + e->toString());
    }
    if (from->isDateTime() || to->isDateTime()) {
      if (from->id() == to->id() && from->size() == to->size()) return v;
      throw Unmodelled("cast " + e->toString());
    }
    if (to->isFloatingPoint()) {
      double d = num(v, from).num();
      return Val::D(to->size() == 4 ? (double)(float)d : d);
    }
    if (to->isBoolean()) return Val::I(v.num() != 0);
    if (from->isFloatingPoint()) {
      int64_t r = (int64_t)std::llround(v.d * p10d(scale_of(to)));
      fit(r, to);
      return Val::I(r);
    }
    int ds = scale_of(to) - scale_of(from);
    __int128 r = v.i;
    if (ds >= 0)
      for (int k = 0; k < ds; ++k) r *= 10;
    else {
      int64_t q = (int64_t)p10d(-ds);
      r = v.i >= 0 ? (v.i + q / 2) / q : -((-v.i + q / 2) / q);
    }
    if (r > INT64_MAX || r < -INT64_MAX) throw Overflow("cast");
    fit((int64_t)r, to);
    return Val::I((int64_t)r);
  }

 public:
  Val eval(const Expr* e, const Node* in, const Row& row) {
    if (auto c = e->as<hdk::ir::ColumnRef>()) {
      int ix = resolve(in, c->node(), c->index());
      if (ix < 0) throw IllFormed(vh::cat("column ", c->toString(), " is not an input column of ", in->toString()));
      return row.at(ix);
    }
    if (auto c = e->as<Constant>()) {
      if (c->isNull()) return Val::null();
      auto t = c->type();
      if (t->isFloatingPoint()) return Val::D(c->fpVal());
      if (t->isText() || t->isVarChar()) return Val::S(*c->value().stringval);
      if (intlike(t) || t->isDateTime() || t->isInterval()) return Val::I(c->intVal());
      throw Unmodelled("constant " + c->toString());
    }
    if (auto u = e->as<UOper>()) {
      Val v = eval(u->operand(), in, row);
      switch (u->opType()) {
        case OpType::kNot: return tri(truth(v) < 0 ? -1 : !truth(v));
        case OpType::kIsNull: return Val::I(v.isNull());
        case OpType::kUMinus:
          if (v.isNull()) return v;
          if (v.k == Val::Fp) return Val::D(-v.d);
          return Val::I(-v.i);
        case OpType::kCast: return cast(v, u->operand()->type(), u->type(), u);
        default: throw Unmodelled(u->toString());
      }
    }
    if (auto b = e->as<BinOper>()) return bin(b, in, row);
    if (auto c = e->as<CaseExpr>()) {
      for (auto& [cond, val] : c->exprPairs())
        if (truth(eval(cond.get(), in, row)) == 1) return same_type(val.get(), c, eval(val.get(), in, row));
      if (!c->elseExpr()) return Val::null();
      return same_type(c->elseExpr(), c, eval(c->elseExpr(), in, row));
    }
    if (auto f = e->as<FunctionOper>()) {
      if (f->name() == "POWER") {
        Val a = eval(f->arg(0), in, row), b = eval(f->arg(1), in, row);
        if (a.isNull() || b.isNull()) return Val::null();
        if (a.k != Val::Fp || b.k != Val::Fp) throw IllFormed("POWER of a non-fp argument: " + f->toString());
        return Val::D(std::pow(a.d, b.d));
      }
      throw Unmodelled(f->toString());
    }
    throw Unmodelled(e->toString());
  }

 private:
  // the branches of a case must have the type the case has (NULL literals aside)
  Val same_type(const Expr* br, const Expr* c, const Val& v) {
    if (v.isNull()) return v;
    if (br->type()->id() != c->type()->id() || scale_of(br->type()) != scale_of(c->type()))
      throw IllFormed("branch of type " + br->type()->toString() + " in " + c->toString() + " of type " + c->type()->toString());
    return v;
  }
  Val bin(const BinOper* b, const Node* in, const Row& row) {
    auto op = b->opType();
    Val l = eval(b->leftOperand(), in, row), r = eval(b->rightOperand(), in, row);
    auto lt = b->leftOperand()->type(), rt = b->rightOperand()->type();
    if (op == OpType::kAnd || op == OpType::kOr) {
      int x = truth(l), y = truth(r);
      if (op == OpType::kAnd) return tri(x == 0 || y == 0 ? 0 : x == 1 && y == 1 ? 1 : -1);
      return tri(x == 1 || y == 1 ? 1 : x == 0 && y == 0 ? 0 : -1);
    }
    bool cmp = isComparison(op);
    bool lf = lt->isFloatingPoint(), rf = rt->isFloatingPoint();
    if (op == OpType::kBwEq) {
      if (l.isNull() || r.isNull()) return Val::I(l.isNull() && r.isNull());
    } else if (l.isNull() || r.isNull())
      return Val::null();
    if (cmp) {
      if (lt->isNumber() && rt->isNumber() && (lf != rf || scale_of(lt) != scale_of(rt))) {
        l = num(l, lt);
        r = num(r, rt);
      }
      if (l.k != r.k) throw IllFormed("comparison of different kinds: " + b->toString());
      int c = l.cmp(r);
      switch (op) {
        case OpType::kEq: case OpType::kBwEq: return Val::I(c == 0);
        case OpType::kNe: return Val::I(c != 0);
        case OpType::kLt: return Val::I(c < 0);
        case OpType::kGt: return Val::I(c > 0);
        case OpType::kLe: return Val::I(c <= 0);
        default: return Val::I(c >= 0);
      }
    }
    // operands are brought to one type later, when the execution unit is made: here values are combined
    if (lt->isNumber() && rt->isNumber()) {
      if (lf != rf) {
        l = num(l, lt);
        r = num(r, rt);
      } else if (!lf && op != OpType::kMul && scale_of(lt) != scale_of(rt)) {
        int m = std::max(scale_of(lt), scale_of(rt));
        for (int k = scale_of(lt); k < m; ++k) l.i *= 10;
        for (int k = scale_of(rt); k < m; ++k) r.i *= 10;
        if (scale_of(b->type()) != m) throw IllFormed(vh::cat("scale of a sum: ", b->toString(), " ", b->type()->toString()));
      }
    }
    if (l.k == Val::Fp) {
      if (!b->type()->isFloatingPoint()) throw IllFormed("fp operands, result " + b->type()->toString() + ": " + b->toString());
      double d;
      switch (op) {
        case OpType::kPlus: d = l.d + r.d; break;
        case OpType::kMinus: d = l.d - r.d; break;
        case OpType::kMul: d = l.d * r.d; break;
        case OpType::kDiv: if (r.d == 0) return Val::null(); d = l.d / r.d; break;
        default: throw Unmodelled(b->toString());
      }
      return Val::D(b->type()->size() == 4 ? (double)(float)d : d);
    }
    if (l.k != Val::Int || r.k != Val::Int) throw Unmodelled(b->toString());
    if (op == OpType::kMul && scale_of(b->type()) != scale_of(lt) + scale_of(rt))
      throw IllFormed(vh::cat("scale of a product: ", b->toString(), " ", b->type()->toString()));
    __int128 x = l.i, y = r.i, z;
    switch (op) {
      case OpType::kPlus: z = x + y; break;
      case OpType::kMinus: z = x - y; break;
      case OpType::kMul: z = x * y; break;
      case OpType::kDiv:
        if (lt->isDecimal() || rt->isDecimal()) throw Unmodelled(b->toString());
        if (!y) return Val::null();
        z = x / y;
        break;
      case OpType::kMod: if (!y) return Val::null(); z = x % y; break;
      case OpType::kBwAnd: z = l.i & r.i; break;
      case OpType::kBwOr: z = l.i | r.i; break;
      case OpType::kBwXor: z = l.i ^ r.i; break;
      default: throw Unmodelled(b->toString());
    }
    if (z > INT64_MAX || z < -(__int128)INT64_MAX) throw Overflow(b->toString());
    fit((int64_t)z, b->type());
    return Val::I((int64_t)z);
  }

 public:
  static int cmp_null(const Val& a, const Val& b, bool desc, bool nf) {
    if (a.isNull() && b.isNull()) return 0;
    if (a.isNull()) return nf ? -1 : 1;
    if (b.isNull()) return nf ? 1 : -1;
    int c = a.cmp(b);
    return desc ? -c : c;
  }

 private:
  Val agg(const AggExpr* a, const Node* in, const std::vector<const Row*>& g) {
    if (a->aggType() == AggType::kCount && !a->arg()) return Val::I(g.size());
    std::vector<Val> vs;
    auto t = a->arg()->type();
    for (auto r : g) {
      Val v = eval(a->arg(), in, *r);
      if (!v.isNull()) vs.push_back(v);
    }
    auto isum = [&]() {
      __int128 s = 0;
      for (auto& v : vs) s += v.i;
      if (s > INT64_MAX || s < -(__int128)INT64_MAX) throw Overflow("sum");
      return (int64_t)s;
    };
    auto fsum = [&]() { double s = 0; for (auto& v : vs) s += num(v, t).num(); return s; };
    switch (a->aggType()) {
      case AggType::kCount: {
        if (!a->isDistinct()) return Val::I(vs.size());
        std::set<Val> d(vs.begin(), vs.end());
        return Val::I(d.size());
      }
      case AggType::kMin: case AggType::kMax: {
        if (vs.empty()) return Val::null();
        if (a->type()->id() != t->id() || scale_of(a->type()) != scale_of(t)) throw IllFormed("min/max type: " + a->toString());
        return a->aggType() == AggType::kMin ? *std::min_element(vs.begin(), vs.end()) : *std::max_element(vs.begin(), vs.end());
      }
      case AggType::kSum: {
        if (vs.empty()) return Val::null();
        if (t->isFloatingPoint() != a->type()->isFloatingPoint() || scale_of(a->type()) != scale_of(t)) throw IllFormed("sum type: " + a->toString());
        if (t->isFloatingPoint()) return Val::D(fsum());
        int64_t s = isum();
        fit(s, a->type());
        return Val::I(s);
      }
      case AggType::kAvg: return vs.empty() ? Val::null() : Val::D(fsum() / vs.size());
      case AggType::kStdDevSamp: {
        if (vs.size() < 2) return Val::null();
        double m = fsum() / vs.size(), q = 0;
        for (auto& v : vs) q += (num(v, t).num() - m) * (num(v, t).num() - m);
        return Val::D(std::sqrt(q / (vs.size() - 1)));
      }
      case AggType::kCorr: {
        double sx = 0, sy = 0, sxx = 0, syy = 0, sxy = 0;
        int n = 0;
        for (auto r : g) {
          Val x = eval(a->arg(), in, *r), y = eval(a->arg1(), in, *r);
          if (x.isNull() || y.isNull()) continue;
          double dx = num(x, t).num(), dy = num(y, a->arg1()->type()).num();
          sx += dx; sy += dy; sxx += dx * dx; syy += dy * dy; sxy += dx * dy; ++n;
        }
        double d = (n * sxx - sx * sx) * (n * syy - sy * sy);
        if (!n || !(d > 0)) return Val::null();
        return Val::D((n * sxy - sx * sy) / std::sqrt(d));
      }
      default: throw Unmodelled(a->toString());
    }
  }

  std::vector<Val> window(const WindowFunction* w, const Node* in, const Rows& rows) {
    std::vector<Val> out(rows.size());
    std::map<Row, std::vector<size_t>> parts;
    for (size_t i = 0; i < rows.size(); ++i) {
      Row k;
      for (auto& p : w->partitionKeys()) k.push_back(eval(p.get(), in, rows[i]));
      parts[k].push_back(i);
    }
    if (w->collation().size() != w->orderKeys().size()) throw IllFormed("collation of " + w->toString());
    for (auto& [k, ix] : parts) {
      std::map<size_t, Row> keys;
      for (auto i : ix)
        for (auto& o : w->orderKeys()) keys[i].push_back(eval(o.get(), in, rows[i]));
      auto cmp = [&](size_t a, size_t b) {
        for (size_t o = 0; o < w->orderKeys().size(); ++o) {
          int c = cmp_null(keys[a][o], keys[b][o], w->collation()[o].is_desc, w->collation()[o].nulls_first);
          if (c) return c;
        }
        return 0;
      };
      std::stable_sort(ix.begin(), ix.end(), [&](size_t a, size_t b) { return cmp(a, b) < 0; });
      auto arg = [&](size_t i) { return eval(w->args().at(0).get(), in, rows[i]); };
      int64_t rank = 1, dense = 1;
      for (size_t p = 0; p < ix.size(); ++p) {
        if (p && cmp(ix[p - 1], ix[p]) != 0) { rank = p + 1; dense++; }
        Val& o = out[ix[p]];
        switch (w->kind()) {
          case WindowFunctionKind::RowNumber: o = Val::I(p + 1); break;
          case WindowFunctionKind::Rank: o = Val::I(rank); break;
          case WindowFunctionKind::DenseRank: o = Val::I(dense); break;
          case WindowFunctionKind::Lag: case WindowFunctionKind::Lead: {
            int64_t n = w->args().at(1)->as<Constant>()->intVal();
            int64_t q = w->kind() == WindowFunctionKind::Lag ? (int64_t)p - n : (int64_t)p + n;
            o = q >= 0 && q < (int64_t)ix.size() ? arg(ix[q]) : Val::null();
            break;
          }
          case WindowFunctionKind::FirstValue: o = arg(ix.front()); break;
          case WindowFunctionKind::LastValue: o = arg(ix.back()); break;
          case WindowFunctionKind::Count: case WindowFunctionKind::Sum: case WindowFunctionKind::Min: case WindowFunctionKind::Max:
          case WindowFunctionKind::Avg: {
            if (!w->orderKeys().empty()) throw Unmodelled("running frame");
            std::vector<Val> vs;
            for (auto i : ix) {
              Val v = w->args().empty() ? Val::I(1) : arg(i);
              if (!v.isNull()) vs.push_back(v);
            }
            if (w->kind() == WindowFunctionKind::Count) { o = Val::I(vs.size()); break; }
            if (vs.empty()) { o = Val::null(); break; }
            if (w->kind() == WindowFunctionKind::Min) { o = *std::min_element(vs.begin(), vs.end()); break; }
            if (w->kind() == WindowFunctionKind::Max) { o = *std::max_element(vs.begin(), vs.end()); break; }
            double s = 0;
            int64_t is = 0;
            for (auto& v : vs) { s += num(v, w->args()[0]->type()).num(); is += v.i; }
            if (w->kind() == WindowFunctionKind::Avg) o = Val::D(s / vs.size());
            else o = vs[0].k == Val::Fp ? Val::D(s) : Val::I(is);
            break;
          }
          default: throw Unmodelled(w->toString());
        }
      }
    }
    return out;
  }

  Rows compute(const Node* n) {
    if (auto s = n->as<Scan>()) return scan_rows(s);
    if (auto p = n->as<Project>()) {
      auto& in = run(p->getInput(0));
      Rows out(in.size(), Row(p->size()));
      for (size_t c = 0; c < p->size(); ++c) {
        auto e = p->getExpr(c).get();
        if (auto w = e->as<WindowFunction>()) {
          auto v = window(w, p->getInput(0), in);
          for (size_t i = 0; i < in.size(); ++i) out[i][c] = v[i];
        } else
          for (size_t i = 0; i < in.size(); ++i) out[i][c] = eval(e, p->getInput(0), in[i]);
      }
      return out;
    }
    if (auto f = n->as<Filter>()) {
      Rows out;
      for (auto& r : run(f->getInput(0)))
        if (truth(eval(f->getConditionExpr(), f->getInput(0), r)) == 1) out.push_back(r);
      return out;
    }
    if (auto a = n->as<Aggregate>()) {
      auto& in = run(a->getInput(0));
      size_t nk = a->getGroupByCount();
      if (nk > a->getInput(0)->size()) throw IllFormed("more keys than input columns: " + a->toString());
      std::map<Row, std::vector<const Row*>> groups;
      if (!nk) groups[{}];
      for (auto& r : in) groups[Row(r.begin(), r.begin() + nk)].push_back(&r);
      Rows out;
      for (auto& [k, g] : groups) {
        Row r = k;
        for (auto& x : a->getAggs()) {
          auto ag = x->as<AggExpr>();
          if (!ag) throw IllFormed("not an aggregate: " + x->toString());
          r.push_back(agg(ag, a->getInput(0), g));
        }
        out.push_back(r);
      }
      return out;
    }
    if (auto s = n->as<Sort>()) {
      Rows out = run(s->getInput(0));
      std::stable_sort(out.begin(), out.end(), [&](const Row& a, const Row& b) {
        for (size_t k = 0; k < s->collationCount(); ++k) {
          auto c = s->getCollation(k);
          if (c.getField() >= a.size()) throw IllFormed("sort field out of range: " + s->toString());
          int r = cmp_null(a[c.getField()], b[c.getField()], c.getSortDir() == SortDirection::Descending, c.getNullsPosition() == NullSortedPosition::First);
          if (r) return r < 0;
        }
        return false;
      });
      size_t off = std::min(out.size(), s->getOffset());
      out.erase(out.begin(), out.begin() + off);
      if (s->getLimit() && out.size() > s->getLimit()) out.resize(s->getLimit());
      return out;
    }
    if (auto j = n->as<Join>()) {
      auto l = run(j->getInput(0)), r = run(j->getInput(1));
      Rows out;
      for (auto& x : l) {
        bool any = false;
        for (auto& y : r) {
          Row z = x;
          z.insert(z.end(), y.begin(), y.end());
          if (truth(eval(j->getCondition(), j, z)) == 1) {
            any = true;
            if (j->getJoinType() == JoinType::INNER || j->getJoinType() == JoinType::LEFT) out.push_back(z);
            else break;
          }
        }
        Row pad = x;
        pad.resize(x.size() + j->getInput(1)->size());
        if (j->getJoinType() == JoinType::LEFT && !any) out.push_back(pad);
        if (j->getJoinType() == JoinType::SEMI && any) out.push_back(pad);
        if (j->getJoinType() == JoinType::ANTI && !any) out.push_back(pad);
      }
      return out;
    }
    if (auto u = n->as<LogicalUnion>()) {
      Rows out = run(u->getInput(0));
      auto& b = run(u->getInput(1));
      out.insert(out.end(), b.begin(), b.end());
      return out;
    }
    throw Unmodelled(n->toString());
  }
};
}  // namespace vi
