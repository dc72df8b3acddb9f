// Random typed query expressions built through the public query builder together with a reference evaluator.
#pragma once
#include "vengine.h"
#include "vstr.h"

#include "Analyzer/Analyzer.h"
#include "IR/Expr.h"

namespace vq {
using namespace ve;
using hdk::ir::BuilderExpr;
using hdk::ir::BuilderNode;
using hdk::ir::QueryBuilder;
using hdk::ir::TimeUnit;
using vh::Rng;
using vh::cat;
using std::string;
typedef int64_t i64;

enum K { INT, FP, BOOL, STR, DATE, TS, DEC };
inline const char* kname(K k) {
  static const char* n[] = {"int", "fp", "bool", "str", "date", "ts", "dec"};
  return n[k];
}
using F = std::function<Val(const Row&)>;

// ---------------------------------------------------------------- reference calendar (days since 1970-01-01)
struct Ymd { i64 y; int m, d; };
inline bool leap(i64 y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
inline int mdays(i64 y, int m) {
  static const int t[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  return m == 2 && leap(y) ? 29 : t[m - 1];
}
inline i64 fdiv(i64 a, i64 b) { i64 q = a / b; return (a % b != 0 && (a < 0) != (b < 0)) ? q - 1 : q; }
inline i64 ydays(i64 y) {  // days from 1970-01-01 to y-01-01
  i64 p = y - 1;
  return 365 * (y - 1970) + (fdiv(p, 4) - 492) - (fdiv(p, 100) - 19) + (fdiv(p, 400) - 4);
}
inline Ymd civil(i64 day) {
  i64 y = 1970 + fdiv(day, 366);
  while (ydays(y + 1) <= day) ++y;
  while (ydays(y) > day) --y;
  int r = day - ydays(y), m = 1;
  while (r >= mdays(y, m)) r -= mdays(y, m++);
  return {y, m, r + 1};
}
inline i64 days_of(i64 y, int m, int d) {
  i64 r = ydays(y);
  for (int k = 1; k < m; ++k) r += mdays(y, k);
  return r + d - 1;
}
inline i64 add_months_days(i64 day, i64 n) {
  auto c = civil(day);
  i64 mm = c.y * 12 + c.m - 1 + n;
  i64 y = fdiv(mm, 12);
  int m = mm - y * 12 + 1;
  return days_of(y, m, std::min(c.d, mdays(y, m)));
}

// ---------------------------------------------------------------- tables
struct Col {
  string name;
  const Type* type = nullptr;
  K k = INT;
  int w = 0;         // INT/FP: bits; TS: digits of sub-second precision; DEC: scale
  double bound = 0;  // largest magnitude (INT, FP, DEC in units)
  bool nullable = false;
  double lo = 0, hi = 0;
  bool exact = true;
  bool derived = false;  // not a column of a stored table: the engine may hold it in a wider type than the builder says
};
struct Tab {
  string name;
  int id = -1;
  std::vector<Col> cols;
  Rows rows;
};

inline i64 p10(int n) { i64 r = 1; while (n-- > 0) r *= 10; return r; }
inline TimeUnit unit_of(int digits) {
  return digits == 0 ? TimeUnit::kSecond : digits == 3 ? TimeUnit::kMilli : digits == 6 ? TimeUnit::kMicro : TimeUnit::kNano;
}

struct TabOpts {
  size_t rows = 50;
  int null_pct = 15;
  bool small_range = false;  // few distinct values
  bool times = true, strings = true, fps = true, text = true, decs = true;
  std::vector<const Type*> dicts;  // shared dictionary types to choose from (else new)
};

class TabGen {
 public:
  Rng& r;
  Storage& st;
  Context& ctx = Context::defaultCtx();
  TabGen(Rng& r, Storage& st) : r(r), st(st) {}

  static const std::vector<string>& words() {
    static const std::vector<string> w{"a", "b", "ab", "abc", "B", "Ab", "x y", "zz", "foo", "foobar", "bar", "%", "a_b", "\xc3\xa9t\xc3\xa9", "0", "10", "9"};
    return w;
  }
  // column 0 is always "id": a unique not-null int64
  Tab make(const string& name, const TabOpts& o) {
    Tab t;
    t.name = name;
    auto add = [&](const string& n, const Type* ty, K k, int w, double lo, double hi, bool nullable) {
      t.cols.push_back({n, ty, k, w, std::max(std::fabs(lo), std::fabs(hi)), nullable, lo, hi});
    };
    add("id", ctx.int64(false), INT, 64, 0, o.rows + 1, false);
    auto rng = [&](double cap) -> std::pair<double, double> {
      if (o.small_range) { double a = r.range(-3, 3); return {a, a + r.below(5)}; }
      switch (r.below(4)) {
        case 0: return {-3, 3};
        case 1: { double a = std::floor(r.unit() * cap / 2); return {a, std::min(cap, a + 10)}; }
        case 2: return {-cap, cap};
        default: return {0, cap / 4};
      }
    };
    for (int w : {8, 16, 32, 64}) {
      auto p = rng(w == 8 ? 30 : w == 16 ? 300 : w == 32 ? 20000 : 1e6);
      bool nn = r.chance(25);
      add("i" + std::to_string(w), ctx.integer(w / 8, !nn), INT, w, std::floor(p.first), std::floor(p.second), !nn);
    }
    {
      auto p = rng(50);
      add("k", ctx.int32(false), INT, 32, std::floor(p.first), std::floor(p.second), false);
      add("sp", ctx.int64(), INT, 64, r.chance(50) ? -1e12 : -1e5, r.chance(50) ? 1e12 : 1e5, true);  // sparse keys
    }
    if (o.fps) {
      add("f32", ctx.fp32(), FP, 32, -64, 64, true);
      add("f64", ctx.fp64(), FP, 64, -1000, 1000, true);
      add("g64", ctx.fp64(false), FP, 64, -100, 100, false);
    }
    add("b", ctx.boolean(), BOOL, 0, 0, 1, true);
    add("c", ctx.boolean(false), BOOL, 0, 0, 1, false);
    if (o.strings) {
      auto dt = [&](int sz) -> const Type* {
        if (!o.dicts.empty() && sz == 4) return r.pick(o.dicts);
        return st.newDictType(sz);
      };
      add("s", dt(4), STR, 1, 0, 0, true);
      add("s2", dt(4), STR, 1, 0, 0, true);
      add("s8", dt(r.pick({1, 2})), STR, 1, 0, 0, true);
      if (o.text) add("x", ctx.text(), STR, 0, 0, 0, true);
    }
    if (o.times) {
      add("d", ctx.date32(TimeUnit::kDay), DATE, 0, -40000, 40000, true);
      add("d16", ctx.date16(TimeUnit::kDay), DATE, 0, -3000, 20000, true);
      add("ts", ctx.timestamp(TimeUnit::kSecond), TS, 0, -3e9, 5e9, true);
      add("tm", ctx.timestamp(TimeUnit::kMilli), TS, 3, -3e12, 5e12, true);
      add("tu", ctx.timestamp(TimeUnit::kMicro), TS, 6, -3e15, 5e15, true);
      add("tn", ctx.timestamp(TimeUnit::kNano), TS, 9, -3e18, 5e18, true);
    }
    if (o.decs) {
      add("n2", ctx.decimal64(12, 2), DEC, 2, -20000, 20000, true);
      add("n4", ctx.decimal64(10, 4), DEC, 4, -50000, 50000, true);
    }
    std::vector<int> nullp(t.cols.size());
    for (size_t c = 0; c < t.cols.size(); ++c) nullp[c] = !t.cols[c].nullable ? 0 : r.chance(5) ? 100 : r.chance(15) ? 0 : o.null_pct;
    int few_times = r.chance(50);
    std::vector<int> sign(t.cols.size());  // some columns hold values of one sign only
    for (auto& x : sign) x = r.pick({0, 0, 0, -1, 1});
    auto signed_as = [&](i64 v, size_t c) { return sign[c] ? sign[c] * std::abs(v) : v; };
    for (size_t i = 0; i < o.rows; ++i) {
      Row row;
      row.push_back(Val::I(i));
      for (size_t c = 1; c < t.cols.size(); ++c) {
        auto& col = t.cols[c];
        if (r.chance(nullp[c])) { row.push_back(Val::null()); continue; }
        switch (col.k) {
          case INT: row.push_back(Val::I(r.range((i64)col.lo, (i64)col.hi))); break;
          case FP: {
            i64 q = o.small_range ? r.range(-3, 3) : r.range((i64)col.lo * 4, (i64)col.hi * 4);
            row.push_back(Val::D(signed_as(q, c) * 0.25));
            break;
          }
          case BOOL: row.push_back(Val::I(r.below(2))); break;
          case STR: row.push_back(Val::S(r.chance(o.small_range ? 0 : 10) ? "w" + std::to_string(r.below(40)) : words()[r.below(o.small_range ? 5 : words().size())])); break;
          case DATE: row.push_back(Val::I(o.small_range || few_times ? 11000 + (i64)r.below(6) * (col.name == "d16" ? 31 : 29) : r.range((i64)col.lo, (i64)col.hi))); break;
          case TS: {
            i64 s = p10(col.w);
            i64 v = o.small_range || few_times ? (950000000 + (i64)r.below(5) * 86400 * (col.w == 3 ? 100 : 20)) * s + (s > 1 ? (i64)r.below(3) * (s / 4) : 0) : r.range((i64)col.lo, (i64)col.hi);
            row.push_back(Val::I(v));
            break;
          }
          case DEC: row.push_back(Val::I(signed_as(o.small_range ? r.range(-3, 3) * 50 : r.range((i64)col.lo, (i64)col.hi), c))); break;
        }
      }
      t.rows.push_back(std::move(row));
    }
    return t;
  }
  std::vector<size_t> frags(size_t n, bool allow_empty = false) {
    std::vector<size_t> f;
    if (n == 0) return {0};
    int k = r.pick({1, 1, 2, 3, 5});
    size_t left = n;
    // all fragments but the last have the same size in this storage layout, as the engine's storages have
    size_t sz = std::max<size_t>(1, (n + k - 1) / k);
    while (left) {
      size_t x = std::min(left, sz);
      f.push_back(x);
      left -= x;
    }
    return f;
  }
  void store(Tab& t, std::vector<size_t> fr = {}) {
    std::vector<ColDef> defs;
    for (auto& c : t.cols) defs.push_back({c.name, c.type});
    if (fr.empty()) fr = frags(t.rows.size());
    t.id = st.addTable(t.name, defs, t.rows, fr);
  }
};

// ---------------------------------------------------------------- expressions
struct E {
  BuilderExpr b;
  K k = INT;
  int w = 0;
  double bound = 0;
  bool exact = true;  // FP value is exactly representable, so it may be compared
  bool cst = false;
  F f;
  string t;
};

struct Skip {};  // the drawn combination is outside the modelled domain

class Gen {
 public:
  Rng& r;
  QueryBuilder& qb;
  Storage& st;
  const std::vector<Col>& cols;
  std::function<BuilderExpr(size_t)> ref;  // column reference by index of cols
  Context& ctx = Context::defaultCtx();
  bool allow_div = true;
  int row_base = 0;  // where this table's columns start in the evaluated row
  Gen(Rng& r, QueryBuilder& qb, Storage& st, const std::vector<Col>& cols, std::function<BuilderExpr(size_t)> ref, int base = 0)
      : r(r), qb(qb), st(st), cols(cols), ref(ref), row_base(base) {}

  BuilderExpr mk(hdk::ir::ExprPtr e) { return BuilderExpr(&qb, e); }
  static double limit(int bits) { return bits == 8 ? 127 : bits == 16 ? 32767 : bits == 32 ? 2147483647.0 : 9.2e18; }
  // set width and check the modelled magnitude against the type the builder chose
  E fin(E e) {
    auto ty = e.b.type();
    switch (e.k) {
      case INT:
        if (!ty->isInteger()) throw std::logic_error("expected integer type, got " + ty->toString() + " for " + e.t);
        e.w = ty->size() * 8;
        if (e.bound >= limit(e.w) - 1) throw Skip();
        break;
      case FP:
        if (!ty->isFloatingPoint()) throw std::logic_error("expected fp type, got " + ty->toString() + " for " + e.t);
        e.w = ty->size() * 8;
        if (e.bound > (e.w == 32 ? 4e5 : 1e12)) throw Skip();  // keeps quarter steps exact
        break;
      case BOOL:
        if (!ty->isBoolean()) throw std::logic_error("expected boolean type, got " + ty->toString() + " for " + e.t);
        break;
      case DEC:
        if (!ty->isDecimal()) throw std::logic_error("expected decimal type, got " + ty->toString() + " for " + e.t);
        if (ty->as<hdk::ir::DecimalType>()->scale() != e.w) throw std::logic_error(cat("expected decimal scale ", e.w, ", got ", ty->toString(), " for ", e.t));
        if (e.bound > 1e15) throw Skip();
        break;
      default: break;
    }
    return e;
  }
  E col(size_t i) {
    auto& c = cols[i];
    E e;
    e.b = ref(i);
    e.k = c.k;
    e.w = c.w;
    e.bound = c.bound;
    e.exact = c.exact;
    size_t ix = row_base + i;
    e.f = [ix](const Row& row) { return row[ix]; };
    e.t = c.name;
    return e;
  }
  E colOf(K k, int w = -1) {
    std::vector<size_t> v;
    for (size_t i = 0; i < cols.size(); ++i)
      if (cols[i].k == k && (w < 0 || cols[i].w == w)) v.push_back(i);
    if (v.empty()) throw Skip();
    return col(r.pick(v));
  }
  E cstInt(i64 v, const Type* ty = nullptr) {
    E e;
    e.k = INT;
    e.b = ty ? qb.cst((int64_t)v, ty) : qb.cst((int64_t)v);
    e.bound = std::llabs(v);
    e.cst = true;
    e.f = [v](const Row&) { return Val::I(v); };
    e.t = std::to_string(v);
    return fin(e);
  }
  E cstFp(double v, bool f32 = false) {
    E e;
    e.k = FP;
    e.b = f32 ? qb.cst(v, ctx.fp32(false)) : qb.cst(v);
    e.bound = std::fabs(v);
    e.cst = true;
    e.f = [v](const Row&) { return Val::D(v); };
    e.t = cat(v);
    return fin(e);
  }
  E cstStr(const string& s) {
    E e;
    e.k = STR;
    e.b = qb.cst(s);
    e.cst = true;
    e.w = 2;
    e.f = [s](const Row&) { return Val::S(s); };
    e.t = vh::show(s);
    return e;
  }
  static F un(F a, std::function<Val(const Val&)> g) {
    return [a, g](const Row& row) { Val x = a(row); return x.isNull() ? x : g(x); };
  }
  static F bin(F a, F b, std::function<Val(const Val&, const Val&)> g) {
    return [a, b, g](const Row& row) {
      Val x = a(row);
      if (x.isNull()) return x;
      Val y = b(row);
      return y.isNull() ? y : g(x, y);
    };
  }
  static Val B(bool v) { return Val::I(v); }

  E gen(K k, int depth) {
    for (int tries = 0; tries < 30; ++tries) {
      try {
        switch (k) {
          case INT: return genInt(depth);
          case FP: return genFp(depth);
          case BOOL: return genBool(depth);
          case STR: return genStr(depth);
          case DATE: return genDate(depth);
          case TS: return genTs(depth);
          case DEC: return genDec(depth);
        }
      } catch (Skip&) {
      }
      if (depth > 0) --depth;
    }
    return col(0).k == k ? col(0) : colOf(k);
  }

  E genInt(int d) {
    if (d <= 0 || r.chance(15)) {
      if (r.chance(80)) return colOf(INT);
      i64 v = r.range(-20, 20);
      return r.chance(50) ? cstInt(v) : cstInt(v, ctx.integer(r.pick({1, 2, 4, 8}), false));
    }
    E e;
    e.k = INT;
    switch (r.below(16)) {
      case 0: case 1: case 2: {
        E a = genInt(d - 1), b = genInt(d - 1);
        int op = r.below(3);
        if (op == 0) { e.b = a.b + b.b; e.bound = a.bound + b.bound; e.f = bin(a.f, b.f, [](auto& x, auto& y) { return Val::I(x.i + y.i); }); }
        if (op == 1) { e.b = a.b - b.b; e.bound = a.bound + b.bound; e.f = bin(a.f, b.f, [](auto& x, auto& y) { return Val::I(x.i - y.i); }); }
        if (op == 2) { e.b = a.b * b.b; e.bound = a.bound * b.bound; e.f = bin(a.f, b.f, [](auto& x, auto& y) { return Val::I(x.i * y.i); }); }
        e.t = cat("(", a.t, "+-*"[op], b.t, ")");
        return fin(e);
      }
      case 3: {
        E a = genInt(d - 1);
        i64 v = r.range(1, 9) * (r.chance(30) ? -1 : 1);
        bool mod = r.chance(50);
        e.b = mod ? a.b % (int64_t)v : a.b / (int64_t)v;
        e.bound = mod ? std::llabs(v) : a.bound;
        e.f = un(a.f, [v, mod](auto& x) { return Val::I(mod ? x.i % v : x.i / v); });
        e.t = cat("(", a.t, mod ? "%" : "/", v, ")");
        return fin(e);
      }
      case 4: {
        E a = genInt(d - 1);
        e.b = a.b.uminus();
        e.bound = a.bound;
        e.f = un(a.f, [](auto& x) { return Val::I(-x.i); });
        e.t = "-" + a.t;
        return fin(e);
      }
      case 5: {
        E a = genInt(d - 1);
        int bytes = r.pick({1, 2, 4, 8});
        if (a.bound >= limit(bytes * 8) - 1) throw Skip();
        e.b = a.b.cast(ctx.integer(bytes, a.b.type()->nullable()));
        e.bound = a.bound;
        e.f = a.f;
        e.t = cat("cast(", a.t, " as int", bytes * 8, ")");
        return fin(e);
      }
      case 6: {
        E c = genBool(d - 1), a = genInt(d - 1), b = genInt(d - 1);
        auto ty = ctx.integer(std::max(a.w, b.w) / 8, true);
        e.b = qb.ifThenElse(c.b, a.b.cast(ty), b.b.cast(ty));
        e.bound = std::max(a.bound, b.bound);
        e.f = [c, a, b](const Row& row) { Val x = c.f(row); return !x.isNull() && x.i ? a.f(row) : b.f(row); };
        e.t = cat("if(", c.t, ",", a.t, ",", b.t, ")");
        return fin(e);
      }
      case 7: return genExtract(d);
      case 8: {
        E a = genInt(d - 1), b = genInt(d - 1);
        if (a.w != b.w) throw Skip();
        int op = r.below(3);
        e.b = op == 0 ? a.b.bwAnd(b.b) : op == 1 ? a.b.bwOr(b.b) : a.b.bwXor(b.b);
        e.bound = 2 * std::max(a.bound, b.bound) + 2;
        e.f = bin(a.f, b.f, [op](auto& x, auto& y) { return Val::I(op == 0 ? x.i & y.i : op == 1 ? x.i | y.i : x.i ^ y.i); });
        e.t = cat("(", a.t, "&|^"[op], b.t, ")");
        return fin(e);
      }
      case 9: {
        E a = genInt(d - 1);
        e.b = a.b.bwNot();
        e.bound = a.bound + 1;
        e.f = un(a.f, [](auto& x) { return Val::I(~x.i); });
        e.t = "~" + a.t;
        return fin(e);
      }
      case 10: {
        E a = genBool(d - 1);
        e.b = a.b.cast(ctx.int32(a.b.type()->nullable()));
        e.bound = 1;
        e.f = a.f;
        e.t = cat("int(", a.t, ")");
        return fin(e);
      }
      case 11: {
        E a = colOf(STR, 0);
        bool enc = r.chance(50);
        e.b = mk(hdk::ir::makeExpr<hdk::ir::CharLengthExpr>(a.b.expr(), enc));
        e.bound = 100;
        e.f = un(a.f, [enc](auto& x) {
          i64 n = 0;
          for (unsigned char ch : x.s) n += enc ? (ch & 0xc0) != 0x80 : 1;
          return Val::I(n);
        });
        e.t = cat("char_length(", a.t, ",", enc, ")");
        return fin(e);
      }
      case 12: {  // coalesce by case on is-null
        E a = genInt(d - 1);
        i64 v = r.range(-5, 5);
        auto ty = a.b.type()->withNullable(true);
        e.b = qb.ifThenElse(a.b.isNull(), qb.cst((int64_t)v, ty->withNullable(false)).cast(ty), a.b.cast(ty));
        e.bound = std::max(a.bound, 5.0);
        e.f = [a, v](const Row& row) { Val x = a.f(row); return x.isNull() ? Val::I(v) : x; };
        e.t = cat("coalesce(", a.t, ",", v, ")");
        return fin(e);
      }
      case 13: return genDateDiff(d);
      default: return genInt(d - 1);
    }
  }

  // instants: returns (days, seconds of day, sub-second fraction in ns)
  static void split(const Val& v, K k, int w, i64& day, i64& sod, i64& ns) {
    if (k == DATE) { day = v.i; sod = ns = 0; return; }
    i64 s = p10(w), sec = fdiv(v.i, s);
    ns = (v.i - sec * s) * p10(9 - w);
    day = fdiv(sec, 86400);
    sod = sec - day * 86400;
  }
  E genExtract(int d) {
    E a = r.chance(40) ? genDate(d - 1) : genTs(d - 1);
    static const std::vector<string> fs{"year", "quarter", "month", "day", "hour", "minute", "second", "millisecond", "microsecond", "nanosecond", "dow", "isodow", "doy", "epoch", "week", "week_sunday"};
    string f = r.pick(fs);
    E e;
    e.k = INT;
    e.b = a.b.extract(f);
    e.bound = 1e18;
    K k = a.k;
    int w = a.w;
    e.f = un(a.f, [f, k, w](auto& x) {
      i64 day, sod, ns;
      split(x, k, w, day, sod, ns);
      auto c = civil(day);
      int dow = ((day + 4) % 7 + 7) % 7;  // Sunday = 0
      if (f == "year") return Val::I(c.y);
      if (f == "quarter") return Val::I((c.m - 1) / 3 + 1);
      if (f == "month") return Val::I(c.m);
      if (f == "day") return Val::I(c.d);
      if (f == "hour") return Val::I(sod / 3600);
      if (f == "minute") return Val::I(sod / 60 % 60);
      if (f == "second") return Val::I(sod % 60);
      if (f == "millisecond") return Val::I(sod % 60 * 1000 + ns / 1000000);
      if (f == "microsecond") return Val::I(sod % 60 * 1000000 + ns / 1000);
      if (f == "nanosecond") return Val::I(sod % 60 * 1000000000 + ns);
      if (f == "dow") return Val::I(dow);
      if (f == "isodow") return Val::I(dow == 0 ? 7 : dow);
      if (f == "doy") return Val::I(day - ydays(c.y) + 1);
      if (f == "epoch") return Val::I(day * 86400 + sod);
      // week of the year that contains the week's fourth day
      int first = f == "week" ? 1 : 0;  // first day of the week, Sunday = 0
      int into = (dow - first + 7) % 7;
      i64 mid = day - into + 3;
      auto cm = civil(mid);
      return Val::I((mid - ydays(cm.y)) / 7 + 1);
    });
    e.t = cat("extract(", f, ",", a.t, ")");
    return fin(e);
  }
  E genDateDiff(int d) {
    E a = r.chance(30) ? genDate(d - 1) : genTs(d - 1);
    E b = r.chance(30) ? genDate(d - 1) : genTs(d - 1);
    using TF = hdk::ir::DateTruncField;
    static const std::vector<std::pair<TF, string>> fs{{TF::kYear, "year"}, {TF::kMonth, "month"}, {TF::kDay, "day"}, {TF::kHour, "hour"}, {TF::kSecond, "second"}, {TF::kQuarter, "quarter"}, {TF::kWeek, "week"}};
    auto f = r.pick(fs);
    E e;
    e.k = INT;
    e.b = mk(hdk::ir::makeExpr<hdk::ir::DateDiffExpr>(ctx.int64(a.b.type()->nullable() || b.b.type()->nullable()), f.first, a.b.expr(), b.b.expr()));
    e.bound = 1e13;
    string fn = f.second;
    K ka = a.k, kb = b.k;
    int wa = a.w, wb = b.w;
    e.f = bin(a.f, b.f, [=](auto& x, auto& y) {
      i64 d1, s1, n1, d2, s2, n2;
      split(x, ka, wa, d1, s1, n1);
      split(y, kb, wb, d2, s2, n2);
      __int128 diff = ((__int128)(d2 - d1) * 86400 + (s2 - s1)) * 1000000000 + (n2 - n1);
      i64 per = fn == "day" ? 86400 : fn == "hour" ? 3600 : fn == "second" ? 1 : fn == "week" ? 7 * 86400 : 0;
      if (per) return Val::I((i64)(diff / ((__int128)per * 1000000000)));
      auto c1 = civil(d1), c2 = civil(d2);
      i64 m = (c2.y - c1.y) * 12 + c2.m - c1.m;
      auto key = [](int dom, i64 s, i64 n) { return ((__int128)dom * 86400 + s) * 1000000000 + n; };
      auto k1 = key(c1.d, s1, n1), k2 = key(c2.d, s2, n2);
      if (m > 0 && k2 < k1) --m;
      else if (m < 0 && k2 > k1) ++m;
      return Val::I(fn == "month" ? m : fn == "quarter" ? m / 3 : m / 12);
    });
    e.t = cat("datediff(", fn, ",", a.t, ",", b.t, ")");
    return fin(e);
  }

  E genFp(int d) {
    if (d <= 0 || r.chance(20)) return r.chance(75) ? colOf(FP) : cstFp(r.range(-40, 40) * 0.25, r.chance(30));
    E e;
    e.k = FP;
    switch (r.below(9)) {
      case 0: case 1: case 2: {
        E a = genFp(d - 1), b = r.chance(70) ? genFp(d - 1) : genInt(d - 1);
        if (r.chance(30)) std::swap(a, b);
        if (a.k != FP && b.k != FP) throw Skip();
        int op = r.below(3);
        // products of quarter steps need more bits; keep the sum of exponents small
        if (op == 0) { e.b = a.b + b.b; e.bound = a.bound + b.bound; e.f = bin(a.f, b.f, [](auto& x, auto& y) { return Val::D(x.num() + y.num()); }); }
        if (op == 1) { e.b = a.b - b.b; e.bound = a.bound + b.bound; e.f = bin(a.f, b.f, [](auto& x, auto& y) { return Val::D(x.num() - y.num()); }); }
        if (op == 2) {
          e.b = a.b * b.b;
          e.bound = std::max(1.0, a.bound) * std::max(1.0, b.bound) * 16;
          e.f = bin(a.f, b.f, [](auto& x, auto& y) { return Val::D(x.num() * y.num()); });
        }
        e.exact = a.exact && b.exact && op != 2;
        if ((a.k == FP && a.w == 32) != (b.k == FP && b.w == 32)) {
          if (a.k == INT && a.bound > 1e5) throw Skip();
          if (b.k == INT && b.bound > 1e5) throw Skip();
        }
        e.t = cat("(", a.t, "+-*"[op], b.t, ")");
        return fin(e);
      }
      case 3: {
        E a = r.chance(60) ? genFp(d - 1) : genInt(d - 1);
        double v = r.pick({2.0, -2.0, 4.0, 3.0, 0.5, 10.0});
        e.b = a.b / v;
        e.bound = a.bound * 2;
        e.exact = false;
        e.f = un(a.f, [v](auto& x) { return Val::D(x.num() / v); });
        e.t = cat("(", a.t, "/", v, ")");
        return fin(e);
      }
      case 4: {
        E a = genFp(d - 1);
        e.b = a.b.uminus();
        e.bound = a.bound;
        e.exact = false;
        e.f = un(a.f, [](auto& x) { return Val::D(-x.d); });
        e.t = "-" + a.t;
        return fin(e);
      }
      case 5: {
        E a = r.chance(50) ? genInt(d - 1) : genFp(d - 1);
        bool f32 = r.chance(40);
        if (f32 && a.bound > 1e5) throw Skip();
        if (!a.exact && f32) throw Skip();
        e.b = a.b.cast(f32 ? ctx.fp32(a.b.type()->nullable()) : ctx.fp64(a.b.type()->nullable()));
        e.bound = a.bound;
        e.exact = a.exact && a.bound < 1e9;
        e.f = un(a.f, [](auto& x) { return Val::D(x.num()); });
        e.t = cat("cast(", a.t, " as fp", f32 ? 32 : 64, ")");
        return fin(e);
      }
      case 6: {
        E a = genDec(d - 1);
        int s = a.w;
        e.b = a.b.cast(ctx.fp64(a.b.type()->nullable()));
        e.bound = a.bound;
        e.exact = false;
        e.f = un(a.f, [s](auto& x) { return Val::D((double)x.i / p10(s)); });
        e.t = cat("fp64(", a.t, ")");
        return fin(e);
      }
      case 7: {
        E c = genBool(d - 1), a = genFp(d - 1), b = genFp(d - 1);
        if (!a.exact || !b.exact) throw Skip();
        auto ty = ctx.fp64(true);
        e.b = qb.ifThenElse(c.b, a.b.cast(ty), b.b.cast(ty));
        e.bound = std::max(a.bound, b.bound);
        e.f = [c, a, b](const Row& row) { Val x = c.f(row); return !x.isNull() && x.i ? a.f(row) : b.f(row); };
        e.t = cat("if(", c.t, ",", a.t, ",", b.t, ")");
        return fin(e);
      }
      default: {
        E a = genFp(d - 1);
        if (!a.exact || a.cst) throw Skip();
        bool up = r.chance(50);
        e.b = up ? a.b.ceil() : a.b.floor();
        e.bound = a.bound + 1;
        e.f = un(a.f, [up](auto& x) { return Val::D((up ? std::ceil(x.d) : std::floor(x.d)) + 0.0); });
        e.exact = !up;
        e.t = cat(up ? "ceil(" : "floor(", a.t, ")");
        return fin(e);
      }
    }
  }

  E genDec(int d) {
    if (d <= 0 || r.chance(30)) return colOf(DEC);
    E e;
    e.k = DEC;
    switch (r.below(5)) {
      case 4: {
        E a = genDec(d - 1);
        bool up = r.chance(50);
        i64 m = p10(a.w);
        e.b = up ? a.b.ceil() : a.b.floor();
        e.w = a.w;
        e.bound = a.bound + m;
        e.f = un(a.f, [up, m](auto& x) { i64 q = fdiv(x.i, m); return Val::I((up && q * m != x.i ? q + 1 : q) * m); });
        e.t = cat(up ? "ceil(" : "floor(", a.t, ")");
        return fin(e);
      }
      case 0: case 1: {
        E a = genDec(d - 1), b = r.chance(60) ? genDec(d - 1) : genInt(d - 1);
        if (b.k == INT && b.bound > 1e6) throw Skip();
        int sb = b.k == DEC ? b.w : 0;
        int s = std::max(a.w, sb);
        i64 ma = p10(s - a.w), mb = p10(s - sb);
        bool plus = r.chance(50);
        e.b = plus ? a.b + b.b : a.b - b.b;
        e.w = s;
        e.bound = a.bound * ma + b.bound * mb;
        e.f = bin(a.f, b.f, [=](auto& x, auto& y) { return Val::I(plus ? x.i * ma + y.i * mb : x.i * ma - y.i * mb); });
        e.t = cat("(", a.t, plus ? "+" : "-", b.t, ")");
        return fin(e);
      }
      case 2: {
        E a = genDec(d - 1), b = r.chance(50) ? genDec(d - 1) : genInt(d - 1);
        int sb = b.k == DEC ? b.w : 0;
        if (a.w + sb > 8) throw Skip();
        e.b = a.b * b.b;
        e.w = a.w + sb;
        e.bound = a.bound * b.bound * 100;
        e.f = bin(a.f, b.f, [=](auto& x, auto& y) { return Val::I(x.i * y.i); });
        e.t = cat("(", a.t, "*", b.t, ")");
        return fin(e);
      }
      default: {
        E a = genInt(d - 1);
        if (a.bound > 1e6) throw Skip();
        int s = r.pick({1, 2, 3});
        e.b = a.b.cast(ctx.decimal64(15, s, a.b.type()->nullable()));
        e.w = s;
        e.bound = a.bound * p10(s);
        e.f = un(a.f, [s](auto& x) { return Val::I(x.i * p10(s)); });
        e.t = cat("dec", s, "(", a.t, ")");
        return fin(e);
      }
    }
  }

  E genStr(int d) {
    if (d <= 0 || r.chance(70)) return r.chance(75) ? colOf(STR, 1) : colOf(STR);
    E e;
    e.k = STR;
    E c = genBool(d - 1), a = colOf(STR, 1);
    // same dictionary on both branches
    E b = a;
    e.b = qb.ifThenElse(c.b, a.b, qb.nullCst(a.b.type()));
    e.w = 1;
    e.f = [c, a](const Row& row) { Val x = c.f(row); return !x.isNull() && x.i ? a.f(row) : Val::null(); };
    e.t = cat("if(", c.t, ",", a.t, ",null)");
    return e;
  }
  E genDate(int d) {
    if (d <= 0 || r.chance(70)) return colOf(DATE);
    // day arithmetic on a date column
    E a = colOf(DATE), e;
    e.k = DATE;
    string f = r.pick({string("day"), string("month"), string("year")});
    i64 n = r.range(-50, 50);
    e.b = r.chance(50) ? a.b.add((int64_t)n, f) : (n = -n, a.b.sub((int64_t)-n, f));
    e.f = un(a.f, [f, n](auto& x) { return Val::I(f == "day" ? x.i + n : add_months_days(x.i, f == "month" ? n : 12 * n)); });
    e.t = cat("(", a.t, "+", n, f, ")");
    auto ty = e.b.type();
    if (ty->isTimestamp()) throw Skip();
    if (!ty->isDate()) throw std::logic_error("expected date type, got " + ty->toString() + " for " + e.t);
    return e;
  }
  E genTs(int d) {
    if (d <= 0 || r.chance(50)) return colOf(TS);
    E e;
    e.k = TS;
    if (r.chance(50)) {
      E a = colOf(TS);
      string f = r.pick({string("day"), string("month"), string("year"), string("hour"), string("second"), string("minute")});
      i64 n = r.range(-50, 50);
      e.w = a.w;
      int w = a.w;
      e.b = a.b.add((int64_t)n, f);
      auto ty = e.b.type();
      if (!ty->isTimestamp() || ty->as<hdk::ir::DateTimeBaseType>()->unit() != unit_of(w)) throw std::logic_error("unexpected type " + ty->toString() + " of dateadd");
      if (w == 9 && f == "year") throw Skip();
      e.f = un(a.f, [f, n, w](auto& x) {
        i64 s = p10(w);
        if (f == "day") return Val::I(x.i + n * 86400 * s);
        if (f == "hour") return Val::I(x.i + n * 3600 * s);
        if (f == "minute") return Val::I(x.i + n * 60 * s);
        if (f == "second") return Val::I(x.i + n * s);
        i64 day = fdiv(x.i, 86400 * s), rest = x.i - day * 86400 * s;
        return Val::I(add_months_days(day, f == "month" ? n : 12 * n) * 86400 * s + rest);
      });
      e.t = cat("(", a.t, "+", n, f, ")");
      return e;
    }
    // truncation
    E a = genTs(d - 1);
    using TF = hdk::ir::DateTruncField;
    static const std::vector<std::pair<TF, string>> fs{{TF::kYear, "year"}, {TF::kMonth, "month"}, {TF::kDay, "day"}, {TF::kHour, "hour"}, {TF::kMinute, "minute"}, {TF::kSecond, "second"}, {TF::kQuarter, "quarter"}, {TF::kWeek, "week"}};
    auto f = r.pick(fs);
    e.w = a.w;
    int w = a.w;
    e.b = mk(hdk::ir::makeExpr<hdk::ir::DateTruncExpr>(a.b.type(), false, f.first, a.b.expr()));
    string fn = f.second;
    e.f = un(a.f, [fn, w](auto& x) {
      i64 s = p10(w);
      i64 sec = fdiv(x.i, s), day = fdiv(sec, 86400);
      auto c = civil(day);
      i64 o = fn == "year" ? days_of(c.y, 1, 1) * 86400
              : fn == "quarter" ? days_of(c.y, (c.m - 1) / 3 * 3 + 1, 1) * 86400
              : fn == "month" ? days_of(c.y, c.m, 1) * 86400
              : fn == "week" ? (day - ((day + 3) % 7 + 7) % 7) * 86400
              : fn == "day" ? day * 86400
              : fn == "hour" ? fdiv(sec, 3600) * 3600
              : fn == "minute" ? fdiv(sec, 60) * 60 : sec;
      return Val::I(o * s);
    });
    e.t = cat("trunc(", fn, ",", a.t, ")");
    return e;
  }

  static int cmpv(const Val& x, const Val& y) {
    if (x.k == Val::Str) return vstr::cmp(x.s, y.s);
    if (x.k == Val::Int && y.k == Val::Int) return x.i < y.i ? -1 : x.i > y.i;
    double a = x.num(), b = y.num();
    return a < b ? -1 : a > b;
  }
  E cmp(const E& a, const E& b, F fa, F fb, bool eq_only = false) {
    E e;
    e.k = BOOL;
    int op = eq_only ? r.below(2) : r.below(6);
    switch (op) {
      case 0: e.b = a.b == b.b; break;
      case 1: e.b = a.b != b.b; break;
      case 2: e.b = a.b < b.b; break;
      case 3: e.b = a.b <= b.b; break;
      case 4: e.b = a.b > b.b; break;
      default: e.b = a.b >= b.b;
    }
    e.f = bin(fa, fb, [op](auto& x, auto& y) {
      int c = cmpv(x, y);
      return B(op == 0 ? c == 0 : op == 1 ? c != 0 : op == 2 ? c < 0 : op == 3 ? c <= 0 : op == 4 ? c > 0 : c >= 0);
    });
    static const char* on[] = {"=", "<>", "<", "<=", ">", ">="};
    e.t = cat("(", a.t, on[op], b.t, ")");
    return fin(e);
  }
  E genBool(int d) {
    if (d <= 0) {
      if (r.chance(30)) return colOf(BOOL);
      E a = colOf(INT);
      E b = r.chance(50) ? cstInt(r.range((i64)-10, 10)) : colOf(INT);
      return cmp(a, b, a.f, b.f);
    }
    E e;
    e.k = BOOL;
    switch (r.below(17)) {
      case 0: case 1: {
        E a = genBool(d - 1), b = genBool(d - 1);
        bool is_and = r.chance(50);
        e.b = is_and ? (a.b && b.b) : (a.b || b.b);
        e.f = [a, b, is_and](const Row& row) {
          Val x = a.f(row), y = b.f(row);
          i64 dom = is_and ? 0 : 1;
          if ((!x.isNull() && x.i == dom) || (!y.isNull() && y.i == dom)) return Val::I(dom);
          if (x.isNull() || y.isNull()) return Val::null();
          return Val::I(!dom);
        };
        e.t = cat("(", a.t, is_and ? " and " : " or ", b.t, ")");
        return fin(e);
      }
      case 2: {
        E a = genBool(d - 1);
        e.b = !a.b;
        e.f = un(a.f, [](auto& x) { return B(!x.i); });
        e.t = cat("not ", a.t);
        return fin(e);
      }
      case 3: {
        E a = gen(r.pick({INT, FP, BOOL, STR, DATE, TS, DEC}), d - 1);
        e.b = a.b.isNull();
        e.f = [a](const Row& row) { return B(a.f(row).isNull()); };
        e.t = cat("(", a.t, " is null)");
        return fin(e);
      }
      case 4: case 5: {
        E a = genInt(d - 1), b = genInt(d - 1);
        return cmp(a, b, a.f, b.f);
      }
      case 6: {
        E a = genFp(d - 1), b = r.chance(50) ? genFp(d - 1) : genInt(d - 1);
        if (!a.exact || !b.exact) throw Skip();
        if (b.bound > 1e5) throw Skip();
        return cmp(a, b, a.f, b.f);
      }
      case 7: {
        E a = genDec(d - 1), b = r.chance(60) ? genDec(d - 1) : genInt(d - 1);
        int s = std::max(a.w, b.k == DEC ? b.w : 0);
        if (b.bound * p10(s) > 1e15) throw Skip();
        i64 ma = p10(s - a.w), mb = p10(s - (b.k == DEC ? b.w : 0));
        return cmp(a, b, un(a.f, [ma](auto& x) { return Val::I(x.i * ma); }), un(b.f, [mb](auto& x) { return Val::I(x.i * mb); }));
      }
      case 8: {
        E a = genStr(d - 1);
        E b = cstStr(r.pick(TabGen::words()));
        return cmp(a, b, a.f, b.f, a.t.find('(') != string::npos);
      }
      case 9: {
        E a = colOf(STR, 1), b = colOf(STR, 1);
        return cmp(a, b, a.f, b.f, true);
      }
      case 10: {
        E a = genStr(0);
        char esc = '\\';
        string p = r.chance(40) ? "%" + vstr::rand_over(r, "abfoz", 2) + "%" : vstr::rand_like(r, "abfoz ", esc, true);
        if (p.empty()) throw Skip();
        bool ic = r.chance(40);
        string lp = p;
        if (ic) for (auto& c : lp) c = vstr::low(c);
        auto pat = qb.cst(p);
        e.b = mk(Analyzer::getLikeExpr(a.b.expr(), pat.expr(), nullptr, ic, false));
        e.f = un(a.f, [lp, ic](auto& x) { return B(vstr::like(x.s, lp, '\\', ic)); });
        e.t = cat("(", a.t, ic ? " ilike " : " like ", vh::show(lp), ")");
        return fin(e);
      }
      case 11: {
        bool str = r.chance(40);
        for (auto& c : cols) if (c.derived) throw Skip();
        E a = str ? colOf(STR, 1) : colOf(INT);
        hdk::ir::ExprPtrList l;
        std::vector<Val> vs;
        int n = 1 + r.below(r.chance(30) ? 30 : 6);
        for (int i = 0; i < n; ++i) {
          if (str) {
            string s = r.pick(TabGen::words());
            vs.push_back(Val::S(s));
            l.push_back(qb.cst(s).expr()->cast(a.b.type()->withNullable(false)));
          } else {
            i64 v = r.range(-20, 20);
            vs.push_back(Val::I(v));
            l.push_back(qb.cst((int64_t)v, a.b.type()->withNullable(false)).expr());
          }
        }
        e.b = mk(hdk::ir::makeExpr<hdk::ir::InValues>(a.b.expr(), l));
        e.f = un(a.f, [vs](auto& x) { return B(std::find(vs.begin(), vs.end(), x) != vs.end()); });
        e.t = cat("(", a.t, " in [", n, "])");
        return fin(e);
      }
      case 12: {
        E a = genTs(d - 1), b = genTs(d - 1);
        int w = std::max(a.w, b.w);
        // rescaling must not overflow
        if (w == 9 && (a.w != 9 || b.w != 9)) throw Skip();
        i64 ma = p10(w - a.w), mb = p10(w - b.w);
        return cmp(a, b, un(a.f, [ma](auto& x) { return Val::I(x.i * ma); }), un(b.f, [mb](auto& x) { return Val::I(x.i * mb); }));
      }
      case 13: {
        E a = genDate(d - 1), b = genDate(d - 1);
        return cmp(a, b, a.f, b.f);
      }
      case 14: {
        E a = genDate(d - 1), b = colOf(TS, r.pick({0, 3, 6}));
        i64 m = 86400 * p10(b.w);
        return cmp(a, b, un(a.f, [m](auto& x) { return Val::I(x.i * m); }), b.f);
      }
      case 15: {
        E c = genBool(d - 1), a = genBool(d - 1), b = genBool(d - 1);
        e.b = qb.ifThenElse(c.b, a.b.cast(ctx.boolean(true)), b.b.cast(ctx.boolean(true)));
        e.f = [c, a, b](const Row& row) { Val x = c.f(row); return !x.isNull() && x.i ? a.f(row) : b.f(row); };
        e.t = cat("if(", c.t, ",", a.t, ",", b.t, ")");
        return fin(e);
      }
      default: return genBool(d - 1);
    }
  }
};

// ---------------------------------------------------------------- comparing
inline bool near(double a, double b, double rel) {
  if (a == b) return true;
  double m = std::max(std::fabs(a), std::fabs(b));
  return std::fabs(a - b) <= rel * std::max(m, 1.0);
}
// tol[i] > 0: floating point column compared with that relative tolerance
inline bool same(const Row& a, const Row& b, const std::vector<double>& tol) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) {
    if (i < tol.size() && tol[i] > 0 && !a[i].isNull() && !b[i].isNull() && a[i].k != Val::Str && b[i].k != Val::Str) {
      if (!near(a[i].num(), b[i].num(), tol[i])) return false;
    } else if (!(a[i] == b[i])) {
      return false;
    }
  }
  return true;
}
}  // namespace vq
