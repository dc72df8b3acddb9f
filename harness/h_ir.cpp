// Monitors for types (C30), operator typing (C31), expressions (C32), literals (C42) and LIKE/REGEXP analysis (C43).
#include "vh.h"
#include "vstr.h"

#include <thread>

#include "Analyzer/Analyzer.h"
#include "IR/Context.h"
#include "IR/Exception.h"
#include "IR/Expr.h"
#include "IR/ExprCollector.h"
#include "IR/ExprRewriter.h"
#include "IR/TypeUtils.h"
#include "Logger/Logger.h"
#include "Shared/misc.h"
#include "Utils/Regexp.h"
#include "Utils/StringLike.h"

using namespace vh;
using namespace hdk::ir;
using std::string;

typedef __int128 i128;

// ------------------------------------------------------------------------------------------------ types (C30)
struct TSpec {
  Type::Id id = Type::kInteger;
  int a = 4, b = 0, c = 0;  // size / precision / scale / length / dictionary id
  TimeUnit unit = TimeUnit::kSecond;
  bool nullable = true;
  std::shared_ptr<TSpec> elem;

  string key() const { return cat((int)id, ",", a, ",", b, ",", c, ",", (int)unit, ",", nullable, elem ? "<" + elem->key() + ">" : ""); }
  bool operator==(const TSpec& o) const { return key() == o.key(); }

  bool elem_ok() const {
    return id == Type::kBoolean || id == Type::kInteger || id == Type::kFloatingPoint || id == Type::kDecimal || id == Type::kDate ||
           id == Type::kTime || id == Type::kTimestamp || id == Type::kInterval || id == Type::kExtDictionary || id == Type::kNull;
  }
  bool valid() const {
    switch (id) {
      case Type::kInteger:
        return a == 1 || a == 2 || a == 4 || a == 8;
      case Type::kDecimal:
        return a == 8 && b >= 0 && c >= 0;
      case Type::kVarChar:
        return a >= 0;
      case Type::kDate:
        if (a != 2 && a != 4 && a != 8) return false;
        if (unit == TimeUnit::kMonth) return false;
        if (a == 2) return unit == TimeUnit::kDay;
        if (a == 4) return unit == TimeUnit::kDay || unit == TimeUnit::kSecond;
        return true;
      case Type::kTime:
        if (a != 2 && a != 4 && a != 8) return false;
        if (unit == TimeUnit::kMonth || unit == TimeUnit::kDay) return false;
        if (a == 2) return unit == TimeUnit::kSecond;
        if (a == 4) return unit == TimeUnit::kSecond || unit == TimeUnit::kMilli;
        return true;
      case Type::kTimestamp:
        return unit != TimeUnit::kMonth && unit != TimeUnit::kDay;
      case Type::kFixedLenArray:
        return elem->valid() && elem->elem_ok() && a >= 0;
      case Type::kVarLenArray:
        return elem->valid() && elem->elem_ok() && a == 4;
      case Type::kExtDictionary:
        return elem->valid() && (elem->id == Type::kText || elem->id == Type::kVarChar) && (a == 1 || a == 2 || a == 4);
      case Type::kColumn:
        return elem->valid();
      case Type::kColumnList:
        return elem->valid() && a >= 1;
      default:
        return true;
    }
  }
  const Type* make(Context& ctx) const {
    switch (id) {
      case Type::kNull:
        return ctx.null();
      case Type::kBoolean:
        return ctx.boolean(nullable);
      case Type::kInteger:
        return ctx.integer(a, nullable);
      case Type::kFloatingPoint:
        return ctx.fp(a == 4 ? FloatingPointType::kFloat : FloatingPointType::kDouble, nullable);
      case Type::kDecimal:
        return ctx.decimal(a, b, c, nullable);
      case Type::kVarChar:
        return ctx.varChar(a, nullable);
      case Type::kText:
        return ctx.text(nullable);
      case Type::kDate:
        return ctx.date(a, unit, nullable);
      case Type::kTime:
        return ctx.time(a, unit, nullable);
      case Type::kTimestamp:
        return ctx.timestamp(unit, nullable);
      case Type::kInterval:
        return ctx.interval(a, unit, nullable);
      case Type::kFixedLenArray:
        return ctx.arrayFixed(a, elem->make(ctx), nullable);
      case Type::kVarLenArray:
        return ctx.arrayVarLen(elem->make(ctx), a, nullable);
      case Type::kExtDictionary:
        return ctx.extDict(elem->make(ctx), b, a);
      case Type::kColumn:
        return ctx.column(elem->make(ctx), nullable);
      case Type::kColumnList:
        return ctx.columnList(elem->make(ctx), a, nullable);
    }
    return nullptr;
  }
  int size() const {
    switch (id) {
      case Type::kNull:
        return 0;
      case Type::kBoolean:
        return 1;
      case Type::kVarChar:
      case Type::kText:
      case Type::kVarLenArray:
        return -1;
      case Type::kTimestamp:
        return 8;
      case Type::kFixedLenArray:
        return a * elem->size();
      case Type::kColumn:
      case Type::kColumnList:
        return elem->size();
      default:
        return a;
    }
  }
  bool null_ok() const { return id == Type::kNull ? true : id == Type::kExtDictionary ? elem->nullable : nullable; }
};

static TSpec gen_spec(Rng& r, bool allow_bad, int depth = 0) {
  TSpec s;
  static const std::vector<Type::Id> leafs{Type::kNull, Type::kBoolean, Type::kInteger, Type::kFloatingPoint, Type::kDecimal, Type::kVarChar,
                                           Type::kText, Type::kDate, Type::kTime, Type::kTimestamp, Type::kInterval};
  static const std::vector<Type::Id> nest{Type::kFixedLenArray, Type::kVarLenArray, Type::kExtDictionary, Type::kExtDictionary, Type::kColumn, Type::kColumnList};
  bool nested = depth == 0 ? r.chance(40) : depth == 1 && r.chance(10);
  s.id = nested ? r.pick(nest) : r.pick(leafs);
  s.nullable = s.id == Type::kNull || r.chance(50);
  s.a = s.b = s.c = 0;
  s.unit = TimeUnit::kMonth;
  bool bad = allow_bad && r.chance(15);
  static const std::vector<TimeUnit> units{TimeUnit::kMonth, TimeUnit::kDay, TimeUnit::kSecond, TimeUnit::kMilli, TimeUnit::kMicro, TimeUnit::kNano};
  switch (s.id) {
    case Type::kInteger:
      s.a = bad ? r.pick({0, 3, 5, 7, 16, -1}) : r.pick({1, 2, 4, 8});
      break;
    case Type::kFloatingPoint:
      s.a = r.pick({4, 8});
      break;
    case Type::kDecimal:
      s.a = bad && r.chance(40) ? r.pick({1, 2, 4, 16}) : 8;
      s.b = bad && r.chance(40) ? -1 : r.below(20);
      s.c = bad && r.chance(40) ? -2 : r.below(19);
      break;
    case Type::kVarChar:
      s.a = bad ? -1 : r.pick({0, 1, 5, 10, 32767});
      break;
    case Type::kDate:
    case Type::kTime:
      for (;;) {
        s.a = r.pick({1, 2, 4, 8});
        s.unit = r.pick(units);
        if (bad || s.valid()) break;
      }
      break;
    case Type::kTimestamp:
      for (;;) {
        s.unit = r.pick(units);
        if (bad || s.valid()) break;
      }
      break;
    case Type::kInterval:
      s.a = r.pick({2, 4, 8});
      s.unit = r.pick(units);
      break;
    case Type::kFixedLenArray:
    case Type::kVarLenArray:
    case Type::kExtDictionary:
    case Type::kColumn:
    case Type::kColumnList:
      for (int i = 0;; ++i) {
        s.elem = std::make_shared<TSpec>(gen_spec(r, false, depth + 1));
        s.a = s.id == Type::kFixedLenArray ? (bad ? -1 : (int)r.below(6)) : s.id == Type::kVarLenArray ? (bad && r.chance(50) ? 8 : 4) : s.id == Type::kExtDictionary ? (bad && r.chance(50) ? 8 : r.pick({1, 2, 4})) : s.id == Type::kColumnList ? (bad && r.chance(50) ? 0 : 1 + (int)r.below(4)) : 0;
        if (s.id == Type::kExtDictionary) {
          s.b = r.pick({-1, 0, 1, 2, 77, 16777217});
          if (!(bad && r.chance(50))) {
            *s.elem = TSpec();
            s.elem->id = r.pick({Type::kText, Type::kText, Type::kVarChar});
            s.elem->a = s.elem->id == Type::kVarChar ? (int)r.below(8) : 0;
            s.elem->unit = TimeUnit::kMonth;
            s.elem->nullable = r.chance(50);
          }
          s.nullable = s.elem->nullable;
        }
        if (bad || s.valid()) break;
      }
      break;
    default:
      break;
  }
  return s;
}

static bool text_form(const TSpec& s) {  // has a textual form that names it completely
  if (s.id == Type::kColumn || s.id == Type::kColumnList) return false;
  return !s.elem || text_form(*s.elem);
}

static void mode_types() {
  const int ncase = st().thorough ? 20000 : 500;
  for (int c = 0; c < ncase && !too_many(); ++c) {
    if (st().only_case >= 0 && c != st().only_case) continue;
    Rng r = case_rng(c);
    auto ctx1 = std::make_unique<Context>();
    auto ctx2 = std::make_unique<Context>();
    std::map<string, const Type*> seen;
    std::vector<TSpec> specs;
    int n = 3 + r.below(25);
    for (int i = 0; i < n && !too_many(); ++i) {
      TSpec s = !specs.empty() && r.chance(30) ? r.pick(specs) : gen_spec(r, true);
      note(cat("case ", c, " type ", s.key()));
      eval();
      bool want = s.valid();
      const Type* t = nullptr;
      bool thrown = false;
      for (int k = 0; k < 2; ++k) {  // a refusal has to be repeatable
        thrown = false;
        try {
          t = s.make(*ctx1);
        } catch (const std::exception&) {
          thrown = true;
        }
        VH_EXPECT(thrown == !want, "type-validity", "case ", c, " attempt ", k, " ", s.key(), " valid ", want, " refused ", thrown);
      }
      if (thrown || !want) {
        ev("refused_type");
        continue;
      }
      ev("type_built");
      auto it = seen.find(s.key());
      if (it != seen.end()) {
        VH_EXPECT(it->second == t, "interning", "case ", c, " two objects for ", t->toString());
        ev("interned_again");
      } else
        seen[s.key()] = t;
      specs.push_back(s);
      VH_EXPECT(t->id() == s.id && t->size() == s.size() && t->nullable() == s.null_ok() && &t->ctx() == ctx1.get(), "type-attributes", "case ", c, " ", s.key(), " -> ", t->toString(), " size ", t->size());
      int flags = t->isNull() + t->isBoolean() + t->isInteger() + t->isFloatingPoint() + t->isDecimal() + t->isVarChar() + t->isText() + t->isDate() + t->isTime() + t->isTimestamp() + t->isInterval() + t->isFixedLenArray() + t->isVarLenArray() + t->isExtDictionary() + t->isColumn() + t->isColumnList();
      VH_EXPECT(flags == 1, "type-flags", "case ", c, " ", t->toString(), " answers to ", flags, " kinds");
      VH_EXPECT(t->isNumber() == (t->isInteger() || t->isFloatingPoint() || t->isDecimal()) && t->isString() == (t->isText() || t->isVarChar()) && t->isDateTime() == (t->isDate() || t->isTime() || t->isTimestamp()) && t->isArray() == (t->isFixedLenArray() || t->isVarLenArray()) && t->isVarLen() == (t->size() < 0 && !t->isColumn() && !t->isColumnList()), "type-classes", "case ", c, " ", t->toString());
      if (s.id == Type::kDecimal) VH_EXPECT(t->as<DecimalType>()->precision() == s.b && t->as<DecimalType>()->scale() == s.c, "decimal-attributes", "case ", c, " ", t->toString());
      if (s.id == Type::kExtDictionary) VH_EXPECT(t->as<ExtDictionaryType>()->dictId() == s.b && t->as<ExtDictionaryType>()->elemType() == s.elem->make(*ctx1), "dict-attributes", "case ", c, " ", t->toString());
      if (s.id == Type::kDate || s.id == Type::kTime || s.id == Type::kTimestamp || s.id == Type::kInterval) VH_EXPECT(t->as<DateTimeBaseType>()->unit() == s.unit, "unit-attribute", "case ", c, " ", t->toString());
      // nullability can be switched back and forth and nothing else changes
      auto nt = t->withNullable(!t->nullable());
      if (s.id != Type::kNull) {
        TSpec o = s;
        o.nullable = !o.nullable;
        if (o.elem && o.id == Type::kExtDictionary) {
          o.elem = std::make_shared<TSpec>(*o.elem);
          o.elem->nullable = !o.elem->nullable;
        }
        VH_EXPECT(nt == o.make(*ctx1) && nt->withNullable(t->nullable()) == t && !nt->equal(t), "with-nullable", "case ", c, " ", t->toString(), " -> ", nt->toString());
        ev("nullable_switch");
      }
      // the canonical form is canonical, keeps kind and nullability
      auto ct = t->canonicalize();
      VH_EXPECT(ct->canonicalize() == ct && ct->id() == t->id() && ct->nullable() == t->nullable() && t->canonicalSize() == ct->size(), "canonical", "case ", c, " ", t->toString(), " -> ", ct->toString());
      if (s.id == Type::kDate) VH_EXPECT(ct == ctx1->date64(TimeUnit::kSecond, s.nullable), "canonical-date", "case ", c, " ", t->toString(), " -> ", ct->toString());
      if (s.id == Type::kTime) VH_EXPECT(ct == ctx1->time64(s.unit, s.nullable), "canonical-time", "case ", c, " ", t->toString(), " -> ", ct->toString());
      if (s.id == Type::kInterval) VH_EXPECT(ct == ctx1->interval64(s.unit, s.nullable), "canonical-interval", "case ", c, " ", t->toString(), " -> ", ct->toString());
      if (s.id == Type::kExtDictionary) VH_EXPECT(ct == ctx1->extDict(s.elem->make(*ctx1), s.b, 4), "canonical-dict", "case ", c, " ", t->toString(), " -> ", ct->toString());
      // a copy in another context is that context's own object, equal to the original
      const Type* t2 = nullptr;
      try {
        t2 = t->copyTo(*ctx2);
      } catch (const std::exception& e) {
        violation("copy-refused", cat("case ", c, " copyTo of ", t->toString(), ": ", e.what()));
      }
      if (t2) {
        VH_EXPECT(&t2->ctx() == ctx2.get() && t2 == s.make(*ctx2) && t2->equal(t) && t->equal(t2) && t2->toString() == t->toString(), "copy-type", "case ", c, " ", t->toString(), " -> ", t2->toString());
        ev("copied");
      }
      // its text names it
      if (text_form(s)) {
        string txt = t->toString();
        if (r.chance(30)) txt = r.pick({string(" "), string("\t"), string("")}) + txt + r.pick({string(" "), string("")});
        if (r.chance(30))
          for (auto& ch : txt) ch = r.chance(50) ? tolower(ch) : toupper(ch);
        try {
          const Type* back = ctx1->typeFromString(txt);
          VH_EXPECT(back == t, "type-text", "case ", c, " ", show(txt), " read as ", back->toString());
        } catch (const std::exception& e) {
          violation("type-text-refused", cat("case ", c, " own text ", show(txt), " refused: ", e.what()));
        }
        ev("text_round_trip");
      }
      distinct("T" + s.key());
    }
    // equality across all pairs, within a context and between contexts
    for (auto& x : specs)
      for (auto& y : specs) {
        auto a = x.make(*ctx1), b = y.make(*ctx1), b2 = y.make(*ctx2);
        bool same = x == y;
        VH_EXPECT(a->equal(b) == same && (a == b) == same, "type-equal", "case ", c, " ", a->toString(), " vs ", b->toString());
        VH_EXPECT(a->equal(b2) == same && b2->equal(a) == same, "type-equal-across", "case ", c, " ", a->toString(), " vs ", b2->toString());
        if (!same && text_form(x) && text_form(y)) VH_EXPECT(a->toString() != b->toString(), "type-text-collision", "case ", c, " ", a->toString());
        eval();
      }
    // malformed text is refused, defaults are the documented ones
    for (int i = 0; i < 6; ++i) {
      static const std::vector<string> badt{"", "int7", "int128", "int 32", "bool[n]", "fp16", "dec(1)", "decimal(1,2", "varchar", "varchar(-1)", "varchar()", "text(3)", "date[x]", "date128", "date16[s]", "date32[ns]", "time16[ms]", "time[m]", "time[d]", "timestamp[d]", "timestamp[m]", "timestamp32", "array()", "array(foo)", "array(text)", "dict64", "dict(int32)", "dict(text)[x]", "[nn]", "int32[nn][nn]", "int32nn", "xint32", "int32x", "interval8"};
      const string& x = r.pick(badt);
      bool thr = false;
      const Type* t = nullptr;
      try {
        t = ctx1->typeFromString(x);
      } catch (const std::exception&) {
        thr = true;
      }
      VH_EXPECT(thr, "bad-type-text", "case ", c, " ", show(x), " read as ", t ? t->toString() : string("?"));
      ev("bad_text_refused");
    }
    struct D {
      const char* s;
      const Type* t;
    } defs[] = {{"int", ctx1->int64()}, {"fp", ctx1->fp64()}, {"dec(10,2)", ctx1->decimal64(10, 2)}, {"decimal64( 10 , 2 )[nn]", ctx1->decimal64(10, 2, false)}, {"date16", ctx1->date16()}, {"date", ctx1->date64(TimeUnit::kSecond)}, {"time", ctx1->time64(TimeUnit::kMicro)}, {"time32", ctx1->time32(TimeUnit::kMilli)}, {"timestamp", ctx1->timestamp(TimeUnit::kMicro)}, {"timestamp64[ns]", ctx1->timestamp(TimeUnit::kNano)}, {"interval", ctx1->interval64(TimeUnit::kMicro)}, {"dict", ctx1->extDict(ctx1->text(), 0)}, {"dict16(varchar(4)[nn])[-5]", ctx1->extDict(ctx1->varChar(4, false), -5, 2)}, {"array(int)(3)", ctx1->arrayFixed(3, ctx1->int64())}, {"array(fp32[nn])[nn]", ctx1->arrayVarLen(ctx1->fp32(false), 4, false)}};
    auto& d = defs[r.below(sizeof defs / sizeof defs[0])];
    VH_EXPECT(ctx1->typeFromString(d.s) == d.t, "type-text-default", "case ", c, " ", d.s, " read as ", ctx1->typeFromString(d.s)->toString());
    if (c < 2 && !specs.empty()) sample(cat(specs.size(), " types, e.g. ", specs[0].make(*ctx1)->toString()));
  }
}

static void mode_tconc() {
  const int ncase = st().thorough ? 6000 : 500;
  for (int c = 0; c < ncase && !too_many(); ++c) {
    if (st().only_case >= 0 && c != st().only_case) continue;
    Rng r = case_rng(c);
    note(cat("case ", c, " interning by threads"));
    auto ctx = std::make_unique<Context>(), other = std::make_unique<Context>();
    std::vector<TSpec> specs;
    for (int i = 0; i < 24; ++i) specs.push_back(gen_spec(r, false));
    const int nt = 2 + r.below(5);
    std::vector<std::vector<const Type*>> got(nt, std::vector<const Type*>(specs.size()));
    std::atomic<int> go{0};
    std::vector<std::thread> th;
    uint64_t sd = r.next();
    for (int t = 0; t < nt; ++t)
      th.emplace_back([&, t] {
        Rng q(sd + t);
        go++;
        while (go < nt) std::this_thread::yield();
        for (int k = 0; k < 60; ++k) {
          size_t i = q.below(specs.size());
          // (typeFromString stays out of the threads: std::regex has a benign cache race of its own)
          const Type* x = q.chance(70) ? specs[i].make(*ctx) : ctx->copyType(specs[i].make(*other));
          if (got[t][i] && got[t][i] != x) violation("interning-unstable", cat("case ", c, " thread ", t, " ", x->toString()));
          got[t][i] = x;
          if (q.chance(20)) {
            auto y = x->withNullable(!x->nullable())->withNullable(x->nullable());
            if (y != x) violation("interning-unstable", cat("case ", c, " nullable ", x->toString()));
            x->canonicalize();
          }
        }
      });
    for (auto& x : th) x.join();
    for (size_t i = 0; i < specs.size(); ++i) {
      const Type* f = specs[i].make(*ctx);
      for (int t = 0; t < nt; ++t)
        if (got[t][i]) {
          VH_EXPECT(got[t][i] == f, "interning-threads", "case ", c, " two objects for ", f->toString());
          eval();
          ev("concurrent_lookup");
        }
    }
    ev("thread_rounds");
    distinct(cat("X", c, nt, sd));
  }
}

// ------------------------------------------------------------------------------------------------ operator typing (C31)
struct Dicts : StringDictionaryProvider {
  std::map<int, std::unique_ptr<StringDictionary>> d;
  Dicts() {
    for (int i : {1, 2}) {
      d[i] = std::make_unique<StringDictionary>(DictRef{7, i}, 8);
      for (int k = 0; k < 3 + 4 * i; ++k) d[i]->getOrAdd(cat("w", k));
    }
  }
  StringDictionary* getStringDictionary(const int id, const bool) const override { return d.at(id).get(); }
};

static void mode_promo() {
  Dicts dicts;
  auto& ctx = Context::defaultCtx();
  std::vector<const Type*> types;
  for (bool n : {true, false}) {
    types.push_back(ctx.boolean(n));
    for (int s : {1, 2, 4, 8}) types.push_back(ctx.integer(s, n));
    types.push_back(ctx.fp32(n));
    types.push_back(ctx.fp64(n));
    for (auto [p, s] : std::vector<std::pair<int, int>>{{3, 0}, {5, 2}, {10, 4}, {10, 10}, {18, 6}, {19, 0}, {19, 18}}) types.push_back(ctx.decimal64(p, s, n));
    types.push_back(ctx.text(n));
    types.push_back(ctx.varChar(5, n));
    types.push_back(ctx.extDict(ctx.text(n), 1, 4));
    types.push_back(ctx.extDict(ctx.text(n), 2, 2));
    for (auto u : {TimeUnit::kSecond, TimeUnit::kMilli, TimeUnit::kMicro, TimeUnit::kNano}) {
      types.push_back(ctx.timestamp(u, n));
      types.push_back(ctx.time64(u, n));
      types.push_back(ctx.interval64(u, n));
    }
    types.push_back(ctx.time32(TimeUnit::kSecond, n));
    types.push_back(ctx.date16(TimeUnit::kDay, n));
    types.push_back(ctx.date32(TimeUnit::kDay, n));
    types.push_back(ctx.date64(TimeUnit::kSecond, n));
    types.push_back(ctx.date64(TimeUnit::kMilli, n));
    types.push_back(ctx.interval64(TimeUnit::kDay, n));
    types.push_back(ctx.interval64(TimeUnit::kMonth, n));
    types.push_back(ctx.arrayVarLen(ctx.int32(), 4, n));
  }
  const std::vector<OpType> ops{OpType::kEq, OpType::kBwEq, OpType::kNe, OpType::kLt, OpType::kGt, OpType::kLe, OpType::kGe, OpType::kAnd, OpType::kOr, OpType::kMinus, OpType::kPlus, OpType::kMul, OpType::kDiv, OpType::kMod, OpType::kBwAnd, OpType::kBwOr, OpType::kBwXor};
  struct R {
    bool ok = false;
    const Type *res = nullptr, *l = nullptr, *r = nullptr;
  };
  auto run = [&](OpType op, const Type* a, const Type* b) {
    R x;
    try {
      auto e = Analyzer::normalizeOperExpr(op, Qualifier::kOne, makeExpr<ColumnVar>(a, 7, 1, 1, 0), makeExpr<ColumnVar>(b, 7, 1, 2, 0), &dicts);
      auto bo = e->as<BinOper>();
      if (!bo || bo->opType() != op) violation("operator-kept", cat((int)op, " on ", a->toString(), " and ", b->toString(), " became ", e->toString()));
      else {
        x.res = e->type(), x.l = bo->leftOperand()->type(), x.r = bo->rightOperand()->type();
        x.ok = true;
      }
    } catch (const std::exception&) {
    }
    return x;
  };
  auto prec = [](const Type* t) { return t->isDecimal() ? t->as<DecimalType>()->precision() : 0; };
  auto scale = [](const Type* t) { return t->isDecimal() ? t->as<DecimalType>()->scale() : 0; };
  auto unit = [](const Type* t) { return t->as<DateTimeBaseType>()->unit(); };
  auto str = [](const Type* t) { return t->isString() || t->isExtDictionary(); };
  long idx = 0;
  for (auto op : ops)
    for (auto a : types)
      for (auto b : types) {
        long me = idx++;
        if (me % st().shards != st().shard) continue;
        if (too_many()) return;
        string what = cat((int)op, " on ", a->toString(), " and ", b->toString());
        note(cat("typing of operator ", what));
        R x = run(op, a, b), y = run(op, b, a);
        eval();
        bool nul = a->nullable() || b->nullable();
        bool comp = isComparison(op), num = a->isNumber() && b->isNumber();
        bool expect;
        if (isLogic(op)) expect = a->isBoolean() && b->isBoolean();
        else if (comp) expect = a->equal(b) || num || (str(a) && str(b)) || (a->isBoolean() && b->isBoolean()) || (a->isDateTime() && b->isDateTime() && a->isTime() == b->isTime());
        else if (isBitwise(op)) expect = a->isInteger() && b->isInteger();
        else if (op == OpType::kMod) expect = a->isInteger() && b->isInteger();
        else if (num) expect = true;
        else if (op == OpType::kMinus && (a->isDate() || a->isTimestamp()) && b->isInterval()) expect = true;
        else if (a->isInterval() || b->isInterval()) {
          bool both = a->isInterval() && b->isInterval();
          expect = both ? op != OpType::kMul && op != OpType::kDiv : (a->isInterval() ? b->isInteger() : a->isInteger()) && !(op == OpType::kDiv && b->isInterval());
        } else
          expect = false;
        VH_EXPECT(x.ok == expect, "operand-types", what, x.ok ? " accepted" : " refused");
        if (!x.ok) {
          ev("refused");
          continue;
        }
        ev(comp ? "comparison" : isArithmetic(op) ? "arithmetic" : isLogic(op) ? "logic" : "bitwise");
        distinct(what);
        VH_EXPECT(x.res->nullable() == nul, "result-nullability", what, " gives ", x.res->toString());
        if (comp || isLogic(op)) VH_EXPECT(x.res->isBoolean(), "result-bool", what, " gives ", x.res->toString());
        bool sym = op != OpType::kMinus && op != OpType::kDiv && op != OpType::kMod;
        if (sym) VH_EXPECT(y.ok && y.res->equal(x.res) && (!num || (y.l->equal(x.r) && y.r->equal(x.l))), "operand-order", what, " gives ", x.res->toString(), " or ", y.ok ? y.res->toString() : string("refusal"));
        if (num) {
          VH_EXPECT(x.l->nullable() == a->nullable() && x.r->nullable() == b->nullable(), "operand-nullability", what, " converts to ", x.l->toString(), " ", x.r->toString());
          bool fp = a->isFloatingPoint() || b->isFloatingPoint(), dec = !fp && (a->isDecimal() || b->isDecimal());
          VH_EXPECT(x.l->isFloatingPoint() == fp && x.l->isDecimal() == dec && x.r->id() == x.l->id(), "common-kind", what, " converts to ", x.l->toString(), " ", x.r->toString());
          for (auto [from, to] : {std::make_pair(a, x.l), std::make_pair(b, x.r)}) {
            bool widens = true;
            if (from->isInteger() && to->isInteger()) widens = to->size() >= from->size();
            else if (from->isFloatingPoint()) widens = to->isFloatingPoint() && to->size() >= from->size();
            else if (from->isDecimal() && to->isDecimal()) widens = scale(to) >= scale(from) && (prec(to) >= prec(from) || prec(to) >= 19);
            else if (from->isInteger() && to->isDecimal()) {
              int digits = from->size() == 1 ? 3 : from->size() == 2 ? 5 : from->size() == 4 ? 10 : 19;
              widens = prec(to) >= std::min(19, digits + (op == OpType::kMul ? 0 : scale(to)));
            }
            VH_EXPECT(widens, "operand-narrowed", what, " converts ", from->toString(), " to ", to->toString());
          }
          if (!comp) {
            if (a->isInteger() && b->isInteger()) VH_EXPECT(x.res->isInteger() && x.res->size() == std::max(a->size(), b->size()), "integer-result", what, " gives ", x.res->toString());
            if (fp) VH_EXPECT(x.res->isFloatingPoint() && x.res->size() >= std::max(a->isFloatingPoint() ? a->size() : 0, b->isFloatingPoint() ? b->size() : 0), "fp-result", what, " gives ", x.res->toString());
            if (dec) {
              int want = op == OpType::kMul ? scale(a) + scale(b) : std::max(scale(a), scale(b));
              VH_EXPECT(x.res->isDecimal() && scale(x.res) == want, "decimal-scale", what, " gives ", x.res->toString());
              if (op == OpType::kMul) VH_EXPECT(scale(x.l) == scale(a) && scale(x.r) == scale(b), "decimal-mul-operands", what, " converts to ", x.l->toString(), " ", x.r->toString());
              else VH_EXPECT(scale(x.l) == want && scale(x.r) == want, "decimal-operands", what, " converts to ", x.l->toString(), " ", x.r->toString());
            }
          } else {
            VH_EXPECT(x.l->withNullable(true)->equal(x.r->withNullable(true)), "compare-common", what, " converts to ", x.l->toString(), " ", x.r->toString());
          }
        }
        if (comp && a->isDateTime() && b->isDateTime() && !a->equal(b)) {
          VH_EXPECT(x.l->withNullable(true)->equal(x.r->withNullable(true)), "compare-time-common", what, " converts to ", x.l->toString(), " ", x.r->toString());
          VH_EXPECT(x.l->nullable() == a->nullable() && x.r->nullable() == b->nullable(), "operand-nullability", what, " converts to ", x.l->toString(), " ", x.r->toString());
          if (a->id() == b->id() && !a->isDate()) VH_EXPECT(unit(x.l) == std::max(unit(a), unit(b)), "compare-unit", what, " converts to ", x.l->toString());
          if (a->isTimestamp() != b->isTimestamp()) VH_EXPECT(x.l->isTimestamp() && unit(x.l) == unit(a->isTimestamp() ? a : b), "compare-date-timestamp", what, " converts to ", x.l->toString());
        }
        if (op == OpType::kMinus && (a->isDate() || a->isTimestamp()) && b->isInterval()) VH_EXPECT(a->isDate() ? x.res->isDate() : x.res->withNullable(true)->equal(a->withNullable(true)), "date-minus-interval", what, " gives ", x.res->toString());
      }
  // integer literals take the smallest of the three literal types that holds them
  for (int c = 0; c < 4000; ++c) {
    Rng r = case_rng(c);
    int64_t v = r.chance(30) ? r.pick({0l, 32767l, 32768l, -32768l, -32769l, 2147483647l, 2147483648l, -2147483648l, -2147483649l, INT64_MAX, INT64_MIN + 1}) : (int64_t)(r.next() >> r.below(64)) * (r.chance(50) ? 1 : -1);
    auto e = Analyzer::analyzeIntValue(v);
    auto k = e->as<Constant>();
    int want = v >= -32768 && v <= 32767 ? 2 : v >= INT32_MIN && v <= INT32_MAX ? 4 : 8;
    VH_EXPECT(k && !k->isNull() && k->type()->isInteger() && k->type()->size() == want && k->intVal() == v, "int-literal", v, " became ", e->toString(), " of ", e->type()->toString());
    eval();
    ev("int_literal");
  }
}

// ------------------------------------------------------------------------------------------------ expressions (C32)
// A description of an expression from which any number of independent copies can be built.
struct ES {
  enum K { COL, CONST, NULLC, UNARY, CAST, BIN, RANGE, INV, INSET, CHARLEN, LOWER, LIKE, REGEXP, WIDTH, LIKELY, CASE, EXTRACT, TRUNC, ADD, DIFF, FUNC, FUNCT, ARRAY, WINDOW, AGG, CARD, KEYFOR, SAMPLE, ARRCONST, TUPLE, NKINDS } k = COL;
  std::vector<int64_t> v;
  string s;
  std::vector<ES> kids;
  string key() const {
    string r = cat((int)k, "{");
    for (auto x : v) r += cat(x, ",");
    r += s + "|";
    for (auto& x : kids) r += x.key();
    return r + "}";
  }
};

static const Type* etype(int64_t i) {
  auto& c = Context::defaultCtx();
  switch (((i % 14) + 14) % 14) {
    case 0: return c.int32();
    case 1: return c.int64();
    case 2: return c.int16();
    case 3: return c.int8();
    case 4: return c.fp32();
    case 5: return c.fp64();
    case 6: return c.decimal64(10, 2);
    case 7: return c.boolean();
    case 8: return c.text();
    case 9: return c.timestamp(TimeUnit::kMicro);
    case 10: return c.timestamp(TimeUnit::kSecond);
    case 11: return c.date64(TimeUnit::kSecond);
    case 12: return c.extDict(c.text(), 1);
    default: return c.int64(false);
  }
}

static ExprPtr mkconst(const Type* t, int64_t v) {
  Datum d{0};
  if (t->isString()) d.stringval = new string(cat("s", v));
  else if (t->isFp32()) d.floatval = v / 4.0f;
  else if (t->isFp64()) d.doubleval = v / 8.0;
  else if (t->isBoolean()) d.boolval = v & 1;
  else if (t->isInteger() && t->size() == 1) d.tinyintval = v;
  else if (t->isInteger() && t->size() == 2) d.smallintval = v;
  else if (t->isInteger() && t->size() == 4) d.intval = v;
  else d.bigintval = v;
  return makeExpr<Constant>(t, false, d);
}

static ExprPtr build(const ES& e) {
  auto& c = Context::defaultCtx();
  auto kid = [&](size_t i) { return build(e.kids[i]); };
  switch (e.k) {
    case ES::COL:
      return makeExpr<ColumnVar>(etype(e.v[3]), 7, (int)e.v[0], (int)e.v[1], (int)e.v[2]);
    case ES::CONST:
      return mkconst(etype(e.v[1]), e.v[0]);
    case ES::NULLC:
      return makeExpr<Constant>(etype(e.v[0]), true, Datum{0});
    case ES::UNARY: {
      static const OpType o[] = {OpType::kNot, OpType::kUMinus, OpType::kIsNull, OpType::kBwNot};
      return makeExpr<UOper>(e.v[0] == 0 || e.v[0] == 2 ? (const Type*)c.boolean() : c.int64(), o[e.v[0] & 3], kid(0));
    }
    case ES::CAST:
      return makeExpr<UOper>(etype(e.v[0]), OpType::kCast, kid(0));
    case ES::BIN:
      return makeExpr<BinOper>(etype(e.v[2]), (OpType)e.v[0], (Qualifier)e.v[1], kid(0), kid(1));
    case ES::RANGE:
      return makeExpr<RangeOper>(e.v[0] & 1, e.v[0] & 2, kid(0), kid(1));
    case ES::INV: {
      std::list<ExprPtr> l;
      for (size_t i = 1; i < e.kids.size(); ++i) l.push_back(kid(i));
      return makeExpr<InValues>(kid(0), l);
    }
    case ES::INSET:
      return makeExpr<InIntegerSet>(kid(0), e.v, false);
    case ES::CHARLEN:
      return makeExpr<CharLengthExpr>(kid(0), e.v[0] & 1);
    case ES::LOWER:
      return makeExpr<LowerExpr>(kid(0));
    case ES::LIKE:
      return makeExpr<LikeExpr>(kid(0), kid(1), e.kids.size() > 2 ? kid(2) : nullptr, e.v[0] & 1, e.v[0] & 2);
    case ES::REGEXP:
      return makeExpr<RegexpExpr>(kid(0), kid(1), e.kids.size() > 2 ? kid(2) : nullptr);
    case ES::WIDTH:
      return makeExpr<WidthBucketExpr>(kid(0), kid(1), kid(2), kid(3));
    case ES::LIKELY:
      return makeExpr<LikelihoodExpr>(kid(0), e.v[0] / 16.0f);
    case ES::CASE: {
      std::list<std::pair<ExprPtr, ExprPtr>> l;
      size_t i = 0;
      for (; i + 1 < e.kids.size(); i += 2) l.emplace_back(kid(i), kid(i + 1));
      return makeExpr<CaseExpr>(etype(e.v[0]), false, l, i < e.kids.size() ? kid(i) : nullptr);
    }
    case ES::EXTRACT:
      return makeExpr<ExtractExpr>(c.int64(), false, (DateExtractField)e.v[0], kid(0));
    case ES::TRUNC:
      return makeExpr<DateTruncExpr>(c.timestamp(TimeUnit::kSecond), false, (DateTruncField)e.v[0], kid(0));
    case ES::ADD:
      return makeExpr<DateAddExpr>(c.timestamp(TimeUnit::kSecond), (DateAddField)e.v[0], kid(0), kid(1));
    case ES::DIFF:
      return makeExpr<DateDiffExpr>(c.int64(), (DateTruncField)e.v[0], kid(0), kid(1));
    case ES::FUNC:
    case ES::FUNCT: {
      ExprPtrVector a;
      for (size_t i = 0; i < e.kids.size(); ++i) a.push_back(kid(i));
      if (e.k == ES::FUNC) return makeExpr<FunctionOper>(etype(e.v[0]), e.s, a);
      return makeExpr<FunctionOperWithCustomTypeHandling>(etype(e.v[0]), e.s, a);
    }
    case ES::ARRAY: {
      ExprPtrVector a;
      for (size_t i = 0; i < e.kids.size(); ++i) a.push_back(kid(i));
      return makeExpr<ArrayExpr>(c.arrayVarLen(c.int32()), a, e.v[0] & 1);
    }
    case ES::WINDOW: {
      ExprPtrVector a, p, o;
      size_t n = e.kids.size(), na = e.v[1], np = e.v[2];
      std::vector<OrderEntry> col;
      for (size_t i = 0; i < n; ++i) (i < na ? a : i < na + np ? p : o).push_back(kid(i));
      for (size_t i = 0; i < o.size(); ++i) col.emplace_back(i + 1, (e.v[3] >> (2 * i)) & 1, (e.v[3] >> (2 * i)) & 2);
      return makeExpr<WindowFunction>(c.int64(), (WindowFunctionKind)e.v[0], a, p, o, col);
    }
    case ES::AGG: {
      static const AggType ats[] = {AggType::kMin, AggType::kMax, AggType::kSum, AggType::kCount, AggType::kAvg, AggType::kApproxQuantile, AggType::kTopK, AggType::kQuantile, AggType::kCorr, AggType::kApproxCountDistinct, AggType::kSample};
      auto at = ats[e.v[0] % 11];
      return makeExpr<AggExpr>(etype(e.v[3]), at, e.kids.size() ? kid(0) : nullptr, e.v[1] & 1, e.kids.size() > 1 ? kid(1) : nullptr, at == AggType::kQuantile ? (Interpolation)e.v[2] : Interpolation::kLinear);
    }
    case ES::CARD:
      return makeExpr<CardinalityExpr>(kid(0));
    case ES::KEYFOR:
      return makeExpr<KeyForStringExpr>(kid(0));
    case ES::SAMPLE:
      return makeExpr<SampleRatioExpr>(kid(0));
    case ES::ARRCONST: {
      ExprPtrList l;
      for (size_t i = 0; i < e.v.size(); ++i) l.push_back(mkconst(c.int32(), e.v[i]));
      return makeExpr<Constant>(c.arrayVarLen(c.int32()), false, l);
    }
    case ES::TUPLE: {
      ExprPtrVector a;
      for (size_t i = 0; i < e.kids.size(); ++i) a.push_back(kid(i));
      return makeExpr<ExpressionTuple>(a);
    }
    default:
      return nullptr;
  }
}

static ES gen_col(Rng& r) {
  ES e;
  e.k = ES::COL;
  int64_t t = 1 + r.below(3), c = 1 + r.below(4), rte = r.below(2);
  e.v = {t, c, rte, t * 5 + c * 3 + rte};
  return e;
}
static ES gen_cst(Rng& r, int type = -1) {
  ES e;
  e.k = ES::CONST;
  e.v = {(int64_t)r.below(6), type >= 0 ? type : (int64_t)r.pick({0, 1, 2, 3, 4, 5, 6, 7, 8, 9})};
  return e;
}
static ES gen_es(Rng& r, int depth) {
  ES e;
  if (depth <= 0 || r.chance(12)) return r.chance(60) ? gen_col(r) : r.chance(85) ? gen_cst(r) : [&] { ES n; n.k = ES::NULLC; n.v = {(int64_t)r.below(9)}; return n; }();
  e.k = (ES::K)(ES::UNARY + r.below(ES::NKINDS - ES::UNARY));
  auto sub = [&] { return gen_es(r, depth - 1); };
  auto subs = [&](int n) {
    for (int i = 0; i < n; ++i) e.kids.push_back(sub());
  };
  switch (e.k) {
    case ES::UNARY:
      e.v = {(int64_t)r.below(4)};
      subs(1);
      break;
    case ES::CAST:
      e.v = {(int64_t)r.below(8)};
      subs(1);
      break;
    case ES::BIN:
      e.v = {r.pick({(int64_t)OpType::kEq, (int64_t)OpType::kBwEq, (int64_t)OpType::kNe, (int64_t)OpType::kLt, (int64_t)OpType::kGe, (int64_t)OpType::kAnd, (int64_t)OpType::kOr, (int64_t)OpType::kPlus, (int64_t)OpType::kMinus, (int64_t)OpType::kMul, (int64_t)OpType::kDiv, (int64_t)OpType::kMod, (int64_t)OpType::kArrayAt, (int64_t)OpType::kBwXor}), (int64_t)(r.chance(80) ? 0 : r.below(3)), 0};
      e.v[2] = e.v[0] <= (int64_t)OpType::kOr ? 7 : 1;
      subs(2);
      break;
    case ES::RANGE:
      e.v = {(int64_t)r.below(4)};
      subs(2);
      break;
    case ES::INV:
      subs(1);
      for (int n = 1 + r.below(4); n > 0; --n) e.kids.push_back(gen_cst(r));
      break;
    case ES::INSET:
      subs(1);
      for (int n = r.below(5); n >= 0; --n) e.v.push_back(r.below(9));
      break;
    case ES::CHARLEN:
      e.v = {(int64_t)r.below(2)};
      subs(1);
      break;
    case ES::LIKE:
      e.v = {(int64_t)r.below(4)};
      subs(1);
      e.kids.push_back(gen_cst(r, 8));
      if (r.chance(40)) e.kids.push_back(gen_cst(r, 8));
      break;
    case ES::REGEXP:
      subs(1);
      e.kids.push_back(gen_cst(r, 8));
      if (r.chance(40)) e.kids.push_back(gen_cst(r, 8));
      break;
    case ES::WIDTH:
      subs(1);
      for (int i = 0; i < 3; ++i) e.kids.push_back(gen_cst(r, i == 2 ? 0 : 5));
      break;
    case ES::LIKELY:
      e.v = {(int64_t)r.below(17)};
      subs(1);
      break;
    case ES::CASE:
      e.v = {(int64_t)r.below(6)};
      subs(2 * (1 + r.below(2)) + 1);  // an ELSE is always there once normalized
      break;
    case ES::EXTRACT:
    case ES::TRUNC:
      e.v = {(int64_t)r.below(12)};
      subs(1);
      break;
    case ES::ADD:
    case ES::DIFF:
      e.v = {(int64_t)r.below(10)};
      subs(2);
      break;
    case ES::FUNC:
    case ES::FUNCT:
      e.v = {(int64_t)r.below(6)};
      e.s = r.pick({string("pow"), string("log"), string("f")});
      subs(r.below(3));
      break;
    case ES::ARRAY:
      e.v = {0};
      subs(r.below(4));
      break;
    case ES::WINDOW: {
      int na = r.below(2), np = r.below(3), no = r.below(3);
      e.v = {(int64_t)r.below(15), na, np, no ? (int64_t)r.below(1 << (2 * no)) : 0};
      subs(na + np + no);
      break;
    }
    case ES::AGG: {
      e.v = {(int64_t)r.below(11), (int64_t)r.below(2), 4, (int64_t)r.below(6)};
      if (e.v[0] == 7) e.v[2] = r.below(5);
      if (e.v[0] == 3 && r.chance(30)) break;
      subs(1);
      if (e.v[0] == 8) subs(1);
      else if (e.v[0] == 5 || e.v[0] == 6 || e.v[0] == 7 || e.v[0] == 9) e.kids.push_back(gen_cst(r, e.v[0] == 6 || e.v[0] == 9 ? 0 : 5));
      break;
    }
    case ES::ARRCONST:
      for (int n = r.below(4); n > 0; --n) e.v.push_back(r.below(4));
      break;
    case ES::TUPLE:
      subs(1 + r.below(3));
      break;
    default:
      subs(1);
  }
  return e;
}

// change exactly one thing that the expression means
static bool mutate(Rng& r, ES& e) {
  if (!e.kids.empty() && r.chance(55)) {
    size_t i = r.below(e.kids.size());
    bool fixed = e.k == ES::AGG && i == 1 && e.v[0] != 8;  // must stay a constant
    if (!fixed || e.kids[i].k == ES::CONST) {
      if (mutate(r, e.kids[i])) return true;
    }
  }
  switch (e.k) {
    case ES::COL: {
      int w = r.below(3);
      e.v[w] = w == 2 ? 1 - e.v[2] : e.v[w] + 1;
      return true;
    }
    case ES::CONST:
      if (r.chance(70) || e.v[1] == 7) e.v[0] ^= 1;
      else e.v[1] = e.v[1] == 0 ? 1 : e.v[1] == 1 ? 2 : e.v[1] == 4 ? 5 : e.v[1] == 5 ? 4 : e.v[1] == 9 ? 10 : 0;
      return true;
    case ES::NULLC:
      e.v[0] = (e.v[0] + 1) % 9;
      return true;
    case ES::UNARY:
      e.v[0] = (e.v[0] + 1) & 3;
      return true;
    case ES::CAST:
      e.v[0] = (e.v[0] + 1 + r.below(6)) % 8;
      return true;
    case ES::BIN: {
      int w = r.below(3);
      if (w == 0) {
        int64_t o = e.v[0];
        e.v[0] = o == (int64_t)OpType::kEq ? (int64_t)OpType::kBwEq : o == (int64_t)OpType::kNe ? (int64_t)OpType::kLt : o == (int64_t)OpType::kLt ? (int64_t)OpType::kLe : o == (int64_t)OpType::kAnd ? (int64_t)OpType::kOr : o == (int64_t)OpType::kPlus ? (int64_t)OpType::kMinus : o == (int64_t)OpType::kMul ? (int64_t)OpType::kDiv : o == (int64_t)OpType::kDiv ? (int64_t)OpType::kMod : o < (int64_t)OpType::kAnd ? (int64_t)OpType::kGt : (int64_t)OpType::kBwOr;
        return e.v[0] != o;
      }
      if (w == 1) {
        e.v[1] = (e.v[1] + 1) % 3;
        return true;
      }
      if (e.kids[0].key() == e.kids[1].key()) return false;
      std::swap(e.kids[0], e.kids[1]);
      return true;
    }
    case ES::RANGE:
      e.v[0] ^= 1 + r.below(2);
      return true;
    case ES::INV:
      if (r.chance(50)) e.kids.push_back(gen_cst(r));
      else e.kids.back().v[0] ^= 1;
      return true;
    case ES::INSET:
      if (r.chance(50)) e.v.push_back(3);
      else e.v[r.below(e.v.size())] += 1;
      return true;
    case ES::CHARLEN:
      e.v[0] ^= 1;
      return true;
    case ES::LIKE:
      if (r.chance(60)) e.v[0] ^= 1 + r.below(2);
      else if (e.kids.size() > 2) e.kids.pop_back();
      else e.kids.push_back(gen_cst(r, 8));
      return true;
    case ES::REGEXP:
      if (e.kids.size() > 2) e.kids.pop_back();
      else e.kids.push_back(gen_cst(r, 8));
      return true;
    case ES::WIDTH:
      e.kids[1 + r.below(3)].v[0] ^= 1;
      return true;
    case ES::LIKELY:
      e.v[0] += 1;
      return true;
    case ES::CASE:
      if (e.kids.size() % 2) e.kids.pop_back();
      else e.kids.push_back(gen_col(r));
      return true;
    case ES::EXTRACT:
    case ES::TRUNC:
    case ES::ADD:
    case ES::DIFF:
      if ((e.k == ES::ADD || e.k == ES::DIFF) && r.chance(40) && e.kids[0].key() != e.kids[1].key()) {
        std::swap(e.kids[0], e.kids[1]);
        return true;
      }
      e.v[0] = (e.v[0] + 1) % 10;
      return true;
    case ES::FUNC:
    case ES::FUNCT:
      if (r.chance(40)) e.s += "x";
      else if (r.chance(50) && !e.kids.empty()) e.kids.pop_back();
      else e.kids.push_back(gen_col(r));
      return true;
    case ES::ARRAY:
      if (r.chance(30)) e.v[0] ^= 1;
      else if (r.chance(50) && !e.kids.empty()) e.kids.pop_back();
      else e.kids.push_back(gen_col(r));
      return true;
    case ES::WINDOW: {
      int na = e.v[1], np = e.v[2], no = e.kids.size() - na - np;
      int w = r.below(4);
      if (w == 0) e.v[0] = (e.v[0] + 1) % 15;
      else if (w == 1 && no) e.v[3] ^= 1ll << r.below(2 * no);
      else if (w == 2 && np) {
        e.kids.erase(e.kids.begin() + na);
        e.v[2]--;
      } else if (w == 3 && no && np == 0) {
        e.v[2]++;  // the first order key becomes a partition key
        e.v[3] >>= 2;
      } else
        return false;
      return true;
    }
    case ES::AGG:
      if (e.v[0] == 7 && r.chance(50)) e.v[2] = (e.v[2] + 1) % 5;
      else if (e.kids.size() > 1 && e.kids[1].k == ES::CONST && r.chance(60)) e.kids[1].v[0] ^= 1;
      else if (r.chance(50)) e.v[1] ^= 1;
      else if (e.v[0] < 5) {
        if (e.kids.empty()) return false;
        e.v[0] = (e.v[0] + 1) % 5;
      } else
        return false;
      return true;
    case ES::ARRCONST:
      if (e.v.empty() || r.chance(50)) e.v.push_back(2);
      else e.v.back() ^= 1;
      return true;
    case ES::TUPLE:
      e.kids.push_back(gen_col(r));
      return true;
    default:
      return false;
  }
}

static void cols_of(const ES& e, std::multiset<string>& out) {
  if (e.k == ES::COL) out.insert(cat(e.v[0], ".", e.v[1], ".", e.v[2]));
  for (auto& k : e.kids) cols_of(k, out);
}
static bool has_kind(const ES& e, ES::K k) {
  if (e.k == k) return true;
  for (auto& x : e.kids)
    if (has_kind(x, k)) return true;
  return false;
}
static void subst(ES& e, const std::vector<int64_t>& from, const std::vector<int64_t>& to) {
  if (e.k == ES::COL && e.v == from) e.v = to;
  for (auto& k : e.kids) subst(k, from, to);
}

class ColColl : public ExprCollector<std::multiset<string>, ColColl> {
 protected:
  void visitColumnVar(const ColumnVar* c) override { result_.insert(cat(c->tableId(), ".", c->columnId(), ".", c->rteIdx())); }
};
class Ident : public ExprRewriter {};
class Subst : public ExprRewriter {
 public:
  std::vector<int64_t> from, to;
  int hits = 0;
  ExprPtr visitColumnVar(const ColumnVar* c) override {
    if (c->tableId() == from[0] && c->columnId() == from[1] && c->rteIdx() == from[2]) {
      hits++;
      return makeExpr<ColumnVar>(etype(to[3]), 7, (int)to[0], (int)to[1], (int)to[2]);
    }
    return defaultResult(c);
  }
};

static void norm_bools(ES& e) {
  if (e.k == ES::CONST && etype(e.v[1])->isBoolean()) e.v[0] &= 1;
  for (auto& k : e.kids) norm_bools(k);
}

static void mode_expr() {
  const int ncase = st().thorough ? 150000 : 12000;
  for (int c = 0; c < ncase && !too_many(); ++c) {
    if (st().only_case >= 0 && c != st().only_case) continue;
    Rng r = case_rng(c);
    ES e = gen_es(r, 1 + r.below(4));
    norm_bools(e);
    note(cat("case ", c, " ", e.key()));
    auto a = build(e), b = build(e);
    eval();
    ev("built");
    VH_EXPECT(*a == *a && *a == *b && *b == *a, "copy-not-equal", "case ", c, " ", a->toString());
    VH_EXPECT(a->hash() == b->hash() && a->hash() == a->hash(), "copy-hash", "case ", c, " ", a->toString());
    VH_EXPECT(a->toString() == b->toString(), "copy-text", "case ", c, " ", a->toString());
    distinct(e.key());
    // one changed detail makes it a different expression
    for (int k = 0; k < 4; ++k) {
      ES m = e;
      if (!mutate(r, m)) continue;
      norm_bools(m);
      if (m.key() == e.key()) continue;
      note(cat("case ", c, " ", e.key(), " vs ", m.key()));
      auto d = build(m);
      bool eq = *a == *d, eq2 = *d == *a;
      VH_EXPECT(!eq && !eq2, "different-equal", "case ", c, " ", a->toString(), " (", a->type()->toString(), ") == ", d->toString(), " (", d->type()->toString(), ") ", eq, eq2);
      if (a->hash() != d->hash()) ev("hash_differs");
      else ev("hash_collides");
      eval();
      ev("mutants");
      distinct(m.key());
    }
    // rewriting with nothing to do returns the very same expression (ranges are never visited: the visitor has no case for them)
    if (!has_kind(e, ES::RANGE)) {
      note(cat("case ", c, " rewrite ", e.key()));
      Ident id;
      auto x = id.visit(a.get());
      VH_EXPECT(x.get() == a.get(), "identity-rewrite", "case ", c, " ", a->toString(), " became ", x->toString());
      std::multiset<string> want;
      cols_of(e, want);
      ColColl cc;
      cc.visit(a.get());
      VH_EXPECT(cc.result() == want, "collected-columns", "case ", c, " ", a->toString(), " collected ", cc.result().size(), " want ", want.size());
      if (!want.empty() && !has_kind(e, ES::CAST)) {  // casts are re-applied through cast(), which folds and may refuse
        Subst s;
        std::vector<std::vector<int64_t>> cols;
        std::function<void(const ES&)> walk = [&](const ES& x) {
          if (x.k == ES::COL) cols.push_back(x.v);
          for (auto& k : x.kids) walk(k);
        };
        walk(e);
        s.from = r.pick(cols);
        s.to = s.from;
        s.to[0] += 7;
        auto y = s.visit(a.get());
        ES es = e;
        subst(es, s.from, s.to);
        auto z = build(es);
        VH_EXPECT(*y == *z && *z == *y && y->type()->equal(z->type()), "substituted", "case ", c, " ", a->toString(), " became ", y->toString(), " want ", z->toString());
        VH_EXPECT(y->hash() == z->hash(), "substituted-hash", "case ", c, " ", y->toString());
        VH_EXPECT(s.hits == (int)std::count(cols.begin(), cols.end(), s.from), "substituted-count", "case ", c, " replaced ", s.hits);
        VH_EXPECT(*a == *b && a->toString() == b->toString(), "original-changed", "case ", c, " ", a->toString());
        ev("rewritten");
      }
    }
    if (c < 3) sample(a->toString());
  }
}

// ------------------------------------------------------------------------------------------------ literals (C42)
static const struct {
  i128 operator[](int n) const {
    i128 x = 1;
    while (n-- > 0) x *= 10;
    return x;
  }
} P10;
static string dec_text(int64_t v, int scale) {
  bool neg = v < 0;
  uint64_t u = neg ? 0 - (uint64_t)v : v;
  string d = std::to_string(u);
  if ((int)d.size() <= scale) d = string(scale + 1 - d.size(), '0') + d;
  if (scale) d.insert(d.size() - scale, ".");
  return (neg ? "-" : "") + d;
}
static i128 round_div(i128 v, i128 p) {  // half away from zero
  i128 a = v < 0 ? -v : v;
  i128 q = a / p + (a % p * 2 >= p);
  return v < 0 ? -q : q;
}
static int64_t rand_int(Rng& r, int bytes) {
  int64_t mx = bytes == 8 ? INT64_MAX : (1ll << (8 * bytes - 1)) - 1;
  if (r.chance(25)) return r.pick({0l, 1l, -1l, mx, -mx, mx - 1, -mx - 1});
  int64_t v = (int64_t)(r.next() >> (64 - 8 * bytes + r.below(8 * bytes)));
  v &= mx;
  return r.chance(50) ? v : -v;
}
static int64_t dint(Datum d, int size) { return size == 1 ? d.tinyintval : size == 2 ? d.smallintval : size == 4 ? d.intval : d.bigintval; }

static void mode_lit() {
  auto& ctx = Context::defaultCtx();
  const int ncase = st().thorough ? 600000 : 60000;
  for (int c = 0; c < ncase && !too_many(); ++c) {
    if (st().only_case >= 0 && c != st().only_case) continue;
    Rng r = case_rng(c);
    int kind = r.below(10);
    if (kind < 2) {  // integers
      int size = r.pick({1, 2, 4, 8});
      bool nul = r.chance(50);
      auto t = ctx.integer(size, nul);
      i128 v = rand_int(r, r.chance(75) ? size : 8);
      if (r.chance(15)) {
        i128 mx = ((i128)1 << (8 * size - 1)) - 1;
        v = r.pick({mx, mx + 1, -mx, -mx - 1, -mx - 2});
      }
      string s = v == (i128)INT64_MAX + 1 ? "9223372036854775808" : v == (i128)INT64_MIN - 1 ? "-9223372036854775809" : std::to_string((int64_t)v);
      int form = r.below(9);
      bool bad = false;
      i128 want = v;
      if (form == 1) s += ".";
      else if (form == 2) s += ".0";
      else if (form == 3 && v < 1000000000 && v > -1000000000) {
        int f = r.below(1000);
        if (f == 500) f = 501;
        char b[8];
        snprintf(b, sizeof b, ".%03d", f);
        s = (v < 0 || (v == 0 && r.chance(50)) ? "-" : "") + std::to_string((int64_t)(v < 0 ? -v : v)) + b;
        want = f > 500 ? (s[0] == '-' ? v - 1 : v + 1) : v;
        ev("int_fraction");
      } else if (form == 4 && v < 1000000 && v > -1000000) {
        int ex = r.below(4);
        s += cat("e", ex);
        want = v * P10[ex];
      } else if (form == 5) {
        s = r.pick({string(""), string("-"), s + "x", "x" + s, s + " 1", s + "..", s + ".0.0", string("nan"), string("inf"), string("-inf"), string("1e400"), string("true"), s + string("\0", 1)});
        bad = true;
      }
      note(cat("case ", c, " integer text ", show(s), " as ", t->toString()));
      i128 lo = -((i128)1 << (8 * size - 1)), hi = -lo - 1;
      if (nul) lo++;
      bool ok = !bad && want >= lo && want <= hi;
      bool thr = false;
      Datum d{0};
      try {
        d = StringToDatum(s, t);
      } catch (const std::runtime_error&) {
        thr = true;
      }
      eval();
      VH_EXPECT(thr == !ok, "int-text-range", "case ", c, " ", show(s), " as ", t->toString(), thr ? " refused" : " accepted");
      if (!thr && ok) {
        VH_EXPECT(dint(d, size) == (int64_t)want, "int-text", "case ", c, " ", show(s), " as ", t->toString(), " gives ", dint(d, size));
        VH_EXPECT(DatumToString(d, t) == std::to_string((int64_t)want), "int-to-text", "case ", c, " ", (int64_t)want, " printed ", DatumToString(d, t));
      }
      ev(thr ? "int_refused" : "int_ok");
      distinct("I" + s + t->toString());
    } else if (kind < 4) {  // decimals
      int sc = r.below(19), fd = r.chance(85) ? r.below(18) : 18 + r.below(7);
      auto t = ctx.decimal64(19, sc, r.chance(50));
      int id = 1 + r.below(18 - std::min(fd, 17));
      uint64_t ip = r.next() % (uint64_t)P10[id];
      string frac;
      for (int i = 0; i < fd; ++i) frac += '0' + (r.chance(20) ? 9 : r.chance(20) ? 0 : r.below(10));
      bool neg = r.chance(50);
      string is = std::to_string(ip);
      if (r.chance(15)) is = string(r.below(8), '0') + is;
      string s = (neg ? "-" : "") + is;
      if (fd || r.chance(10)) s += "." + frac;
      if (!neg && ip == 0 && fd && r.chance(50)) s = "." + frac;
      note(cat("case ", c, " decimal text ", show(s), " as ", t->toString()));
      // leading zeros do not count
      i128 num = ip;
      for (char ch : frac) num = num * 10 + (ch - '0');
      if (sc >= 18 && fd > 17) sc = 17, t = ctx.decimal64(19, sc, t->nullable());
      i128 want;
      bool over = false;
      if (sc >= fd) {
        want = num * P10[sc - fd];
      } else
        want = round_div(num, P10[fd - sc]);
      if (want > INT64_MAX) over = true;
      if (neg) want = -want;
      bool thr = false;
      Datum d{0};
      try {
        d = StringToDatum(s, t);
      } catch (const std::runtime_error&) {
        thr = true;
      }
      eval();
      VH_EXPECT(thr == over, "decimal-text-range", "case ", c, " ", show(s), " as ", t->toString(), thr ? " refused" : " accepted");
      if (!thr && !over) {
        VH_EXPECT(d.bigintval == (int64_t)want, "decimal-text", "case ", c, " ", show(s), " as ", t->toString(), " gives ", d.bigintval, " want ", (int64_t)want);
        // and back again
        string back = DatumToString(d, t);
        VH_EXPECT(back == dec_text((int64_t)want, sc) || (want == 0 && back == "-" + dec_text(0, sc)), "decimal-to-text", "case ", c, " ", d.bigintval, " of ", t->toString(), " printed ", back);
      }
      ev(thr ? "decimal_refused" : "decimal_ok");
      distinct("D" + s + t->toString());
    } else if (kind == 4) {  // booleans
      static const std::vector<std::pair<string, int>> tx{{"t", 1}, {"T", 1}, {"1", 1}, {"true", 1}, {"TRUE", 1}, {"True", 1}, {"tRuE", 1}, {"f", 0}, {"F", 0}, {"0", 0}, {"false", 0}, {"FALSE", 0}, {"fAlsE", 0}, {"", -1}, {"yes", -1}, {"2", -1}, {"tr", -1}, {"truee", -1}, {" true", -1}, {"01", -1}, {"-1", -1}, {"n", -1}};
      auto& x = r.pick(tx);
      note(cat("case ", c, " boolean text ", x.first));
      int got = -1;
      try {
        got = StringToDatum(x.first, ctx.boolean()).boolval;
      } catch (const std::runtime_error&) {
      }
      eval();
      VH_EXPECT(got == x.second, "bool-text", "case ", c, " ", show(x.first), " gives ", got);
      ev("bool_text");
      distinct("B" + x.first);
    } else if (kind == 5) {  // floating point
      double v = r.chance(50) ? (int64_t)r.next() / 1048576.0 : ldexp((double)(int64_t)r.next(), r.range(-90, 60));
      char b[64];
      snprintf(b, sizeof b, r.pick({"%.17g", "%.9g", "%f", "%e"}), v);
      note(cat("case ", c, " fp text ", b));
      double wd = strtod(b, nullptr);
      float wf = strtof(b, nullptr);
      eval();
      VH_EXPECT(StringToDatum(b, ctx.fp64()).doubleval == wd, "fp64-text", "case ", c, " ", b);
      VH_EXPECT(StringToDatum(b, ctx.fp32()).floatval == wf, "fp32-text", "case ", c, " ", b);
      bool thr = false;
      string bad = r.pick({string(""), string("abc"), string("-"), string("1e999"), string(".")});
      try {
        StringToDatum(bad, r.chance(50) ? ctx.fp64() : ctx.fp32());
      } catch (const std::runtime_error&) {
        thr = true;
      }
      VH_EXPECT(thr, "fp-bad-text", "case ", c, " ", show(bad), " accepted");
      ev("fp_text");
      distinct(cat("F", b));
    } else if (kind == 6) {  // dates and times print as what they are and read back
      auto unit = r.pick({TimeUnit::kSecond, TimeUnit::kMilli, TimeUnit::kMicro, TimeUnit::kNano});
      int64_t ups = unit == TimeUnit::kSecond ? 1 : unit == TimeUnit::kMilli ? 1000 : unit == TimeUnit::kMicro ? 1000000 : 1000000000;
      int64_t sec = r.range(-9000000000ll, 9000000000ll);
      Datum d{0};
      const Type* t;
      int w = r.below(4);
      if (w == 0) {
        t = ctx.timestamp(unit);
        d.bigintval = sec * ups + (int64_t)r.below(ups);
      } else if (w == 1) {
        t = ctx.time64(unit);
        d.bigintval = (int64_t)r.below(86400) * ups;
      } else {
        int64_t day = r.range(-100000, 100000);
        if (w == 2) {
          t = r.chance(50) ? ctx.date32(TimeUnit::kDay) : ctx.date16(TimeUnit::kDay);
          d.bigintval = day * 86400;  // literals of day dates are held in seconds, like the parser returns them
        } else {
          t = ctx.date64(unit);
          d.bigintval = day * 86400 * ups;
        }
      }
      note(cat("case ", c, " value ", d.bigintval, " of ", t->toString()));
      string s = DatumToString(d, t);
      int64_t back = 0;
      bool thr = false;
      try {
        back = StringToDatum(s, t).bigintval;
      } catch (const std::runtime_error&) {
        thr = true;
      }
      eval();
      VH_EXPECT(!thr && back == d.bigintval, "datetime-round-trip", "case ", c, " ", d.bigintval, " of ", t->toString(), " printed ", show(s), " read as ", back, thr ? " (refused)" : "");
      ev(w == 0 ? "timestamp_text" : w == 1 ? "time_text" : "date_text");
      distinct(cat("W", d.bigintval, t->toString()));
    } else {  // casts of constants
      auto cst = [&](const Type* t, auto set) {
        Datum d{0};
        set(d);
        return makeExpr<Constant>(t, false, d);
      };
      std::shared_ptr<const Constant> a;
      i128 num = 0;     // value * 10^sc
      int sc = 0;
      bool isfp = false;
      double fv = 0;
      int w = r.below(4);
      bool nn = r.chance(50);
      if (w == 0) {
        int size = r.pick({1, 2, 4, 8});
        int64_t v = rand_int(r, size);
        num = size == 8 ? v : (v = std::max<int64_t>(v, -(1ll << (8 * size - 1))));
        auto t = ctx.integer(size, nn);
        a = cst(t, [&](Datum& d) { size == 1 ? (void)(d.tinyintval = v) : size == 2 ? (void)(d.smallintval = v) : size == 4 ? (void)(d.intval = v) : (void)(d.bigintval = v); });
      } else if (w == 1) {
        sc = r.below(19);
        int64_t v = rand_int(r, 8);
        if (v == INT64_MIN) v++;
        num = v;
        a = cst(ctx.decimal64(19, sc, nn), [&](Datum& d) { d.bigintval = v; });
      } else if (w == 2) {
        isfp = true;
        fv = r.chance(30) ? r.pick({0.5, -0.5, 1.5, 2.5, -2.5, 127.4, 127.5, 127.6, -128.4, -128.5, -128.6, 32767.5, -32768.6, 2147483647.4, 2147483647.6, -2147483648.6, 9223372036854774784.0, 9223372036854775808.0, -9223372036854775808.0, -9223372036854777856.0, 1e30, -1e30, (double)NAN, (double)INFINITY, -(double)INFINITY}) : (int64_t)(r.next() >> r.below(64)) / (r.chance(50) ? 8.0 : 3.0) * (r.chance(50) ? 1 : -1);
        bool f32 = r.chance(40);
        if (f32) fv = (float)fv;
        a = f32 ? cst(ctx.fp32(nn), [&](Datum& d) { d.floatval = fv; }) : cst(ctx.fp64(nn), [&](Datum& d) { d.doubleval = fv; });
      } else {
        num = r.below(2);
        a = cst(ctx.boolean(nn), [&](Datum& d) { d.boolval = num != 0; });
      }
      const Type* to;
      int tw = r.below(4);
      bool tn = r.chance(50);
      int tsc = 0, tsize = 8;
      if (tw == 0) to = ctx.integer(tsize = r.pick({1, 2, 4, 8}), tn);
      else if (tw == 1) to = ctx.decimal64(19, tsc = r.below(19), tn);
      else if (tw == 2) to = r.chance(50) ? (const Type*)ctx.fp32(tn) : ctx.fp64(tn);
      else to = r.chance(50) ? (const Type*)ctx.text(tn) : ctx.varChar(r.below(8), tn);
      note(cat("case ", c, " cast of ", a->type()->toString(), " ", (int64_t)num, " scale ", sc, " ", fv, " to ", to->toString()));
      eval();
      ExprPtr e;
      bool thr = false;
      try {
        e = a->cast(to);
      } catch (const std::exception&) {
        thr = true;
      }
      string what = cat("case ", c, " ", isfp ? cat(fv) : cat((int64_t)num, "e-", sc), " (", a->type()->toString(), ") to ", to->toString());
      if (!isfp && w == 2) isfp = true;
      auto k = e ? e->as<Constant>() : nullptr;
      if (e) VH_EXPECT(k && !k->isNull() && k->type()->withNullable(true)->equal(to->withNullable(true)), "cast-kind", what, " gives ", e->toString());
      if (k && !k->isNull() && tw != 3) {
        if (tw == 2) {
          double got = k->fpVal();
          double want = isfp ? fv : w == 3 ? (double)num : (double)num / std::pow(10.0, sc);
          if (to->size() == 4) want = (float)want;
          double tol = to->size() == 4 ? 2e-7 : 4e-16;
          bool okv = std::isnan(want) ? std::isnan(got) : got == want || std::fabs(got - want) <= tol * std::fabs(want);
          VH_EXPECT(okv, "cast-to-fp", what, " gives ", got, " want ", want);
          ev("cast_fp");
        } else {
          bool over = false;
          i128 want = 0;
          bool loose = false;
          if (isfp) {
            long double x = tw == 1 ? (long double)(fv * (double)P10[tsc]) : (long double)fv;
            if (!(std::fabs(x) < 1e25L)) over = true;
            else {
              want = (i128)std::round(x);
            }
          } else if (tsc >= sc) {
            want = num * P10[tsc - sc];
          } else
            want = round_div(num, P10[sc - tsc]);
          i128 hi = tw == 1 ? (i128)INT64_MAX : ((i128)1 << (8 * tsize - 1)) - 1, lo = -hi - 1;
          if (!over && (want > hi || want < lo)) over = true;
          (void)loose;
          VH_EXPECT(!over, "cast-overflow", what, " accepted, gives ", k->intVal());
          if (!over) VH_EXPECT(k->intVal() == (int64_t)want, "cast-value", what, " gives ", k->intVal(), " want ", (int64_t)want);
          ev("cast_exact");
        }
      } else if (k && tw == 3) {
        string s = *k->value().stringval;
        string full = isfp ? std::to_string(fv) : w == 3 ? (num ? "t" : "f") : dec_text((int64_t)num, sc);
        if (to->isVarChar()) full = full.substr(0, to->as<VarCharType>()->maxLength());
        if (!isfp || std::isfinite(fv)) VH_EXPECT(s == full || (num == 0 && s == "-" + full), "cast-to-text", what, " gives ", show(s), " want ", show(full));
        ev("cast_text");
      } else if (thr) {
        bool may = false;
        if (tw == 0 || tw == 1) {
          i128 hi = tw == 1 ? (i128)INT64_MAX : ((i128)1 << (8 * tsize - 1)) - 1, lo = -hi - 1;
          if (isfp) {
            long double x = tw == 1 ? (long double)(fv * (double)P10[tsc]) : (long double)fv;
            may = !(std::fabs(x) < 1e25L) || (i128)std::round(x) > hi || (i128)std::round(x) < lo;
          } else {
            i128 want = tsc >= sc ? num * P10[tsc - sc] : round_div(num, P10[sc - tsc]);
            may = want > hi || want < lo;
          }
        }
        VH_EXPECT(may, "cast-refused", what);
        ev("cast_refused");
      }
      // NULL stays NULL
      auto nl = makeExpr<Constant>(a->type()->withNullable(true), true, Datum{0})->cast(to->withNullable(true));
      VH_EXPECT(nl->is<Constant>() && nl->as<Constant>()->isNull() && nl->type()->equal(to->withNullable(true)), "cast-null", what, " NULL became ", nl->toString());
      distinct(what);
    }
  }
}

// ------------------------------------------------------------------------------------------------ LIKE and REGEXP (C43)
static bool run_like(const LikeExpr* l, const string& s, bool& ok) {
  auto p = l->likeExpr()->as<Constant>();
  ok = p != nullptr;
  if (!ok) return false;
  const string& pat = *p->value().stringval;
  char esc = '\\';
  if (l->escapeExpr()) esc = (*l->escapeExpr()->as<Constant>()->value().stringval)[0];
  if (l->isSimple()) return l->isIlike() ? string_ilike_simple(s.data(), s.size(), pat.data(), pat.size()) : string_like_simple(s.data(), s.size(), pat.data(), pat.size());
  return l->isIlike() ? string_ilike(s.data(), s.size(), pat.data(), pat.size(), esc) : string_like(s.data(), s.size(), pat.data(), pat.size(), esc);
}
static void mode_like() {
  auto& ctx = Context::defaultCtx();
  const int ncase = st().thorough ? 400000 : 40000;
  auto text = [&](const string& s) {
    Datum d{0};
    d.stringval = new string(s);
    return makeExpr<Constant>(ctx.text(), false, d);
  };
  for (int c = 0; c < ncase && !too_many(); ++c) {
    if (st().only_case >= 0 && c != st().only_case) continue;
    Rng r = case_rng(c);
    bool nn = r.chance(50);
    ExprPtr arg = makeExpr<ColumnVar>(r.chance(50) ? (const Type*)ctx.text(nn) : ctx.extDict(ctx.text(nn), 1), 7, 1, 1, 0);
    bool neg = r.chance(30);
    const Expr* inner;
    ExprPtr e;
    bool thr = false;
    if (r.chance(70)) {
      bool ic = r.chance(40);
      char esc = r.chance(60) ? '\\' : r.pick({'!', '#'});
      bool given = esc != '\\' || r.chance(30);
      string alpha = r.pick({string("ab"), string("aAbB"), string("ab%_\\!"), string("a[]%")});
      string p;
      if (r.chance(50)) {  // bounded by %: candidates for the substring search
        string mid;
        for (int n = r.below(6); n > 0; --n) {
          char ch = r.pick({'a', 'b', 'A', esc, '%', '_', '[', ']', ' '});
          if (ch == esc) {
            mid += esc;
            mid += r.pick({esc, '%', '_', '[', ']'});
          } else if (strchr("[]", ch)) {
            mid += esc;
            mid += ch;
          } else if (ch == '%' || ch == '_') {
            if (r.chance(70)) mid += esc;
            mid += ch;
          } else
            mid += ch;
        }
        p = "%" + mid + "%";
      } else
        p = vstr::rand_like(r, alpha, esc, true);
      if (r.chance(4)) p.clear();
      std::vector<vstr::LikeTok> toks;
      bool wf = vstr::like_parse(p, esc, toks);
      note(cat("case ", c, " LIKE ", show(p), " escape ", esc, " ilike ", ic));
      try {
        e = Analyzer::getLikeExpr(arg, text(p), given ? text(string(1, esc)) : nullptr, ic, neg);
      } catch (const std::runtime_error&) {
        thr = true;
      }
      eval();
      if (thr) {
        VH_EXPECT(!wf, "like-refused", "case ", c, " pattern ", show(p), " escape ", esc);
        ev("like_refused");
        continue;
      }
      inner = e.get();
      if (neg) {
        auto u = e->as<UOper>();
        VH_EXPECT(u && u->isNot(), "not-like", "case ", c, " ", e->toString());
        if (!u) continue;
        inner = u->operand();
      }
      auto l = inner->as<LikeExpr>();
      VH_EXPECT(l && l->isIlike() == ic && e->type()->isBoolean() && e->type()->nullable() == nn, "like-shape", "case ", c, " ", e->toString());
      if (!l || !wf) continue;
      ev(l->isSimple() ? "like_substring" : "like_general");
      for (int k = 0; k < 8; ++k) {
        string s;
        if (k % 2) s = vstr::rand_over(r, alpha + string(1, esc), r.pick({0, 3, 6, 10}));
        else {  // expand the pattern into a likely match
          for (size_t i = 0; i < p.size(); ++i) {
            if (p[i] == esc && i + 1 < p.size()) s += p[++i];
            else if (p[i] == '%') s += vstr::rand_over(r, alpha, 3);
            else if (p[i] == '_') s += alpha[r.below(alpha.size())];
            else s += p[i];
            if (r.chance(3)) s += esc;
          }
        }
        bool ok;
        bool got = run_like(l, s, ok);
        string lp = p;
        if (ic)
          for (auto& ch : lp) ch = vstr::low(ch);
        bool want = vstr::like(s, lp, esc, ic);
        eval();
        ev(want ? "like_true" : "like_false");
        VH_EXPECT(ok && got == want, "like-decision", "case ", c, " ", show(s), ic ? " ILIKE " : " LIKE ", show(p), " escape ", esc, " simple ", l->isSimple(), " got ", got, " want ", want);
      }
      distinct(cat("L", p, esc, ic));
    } else {
      string p;
      for (int n = r.below(7); n > 0; --n) p += r.pick({string("a"), string("b"), string("."), string(".*"), string(".+"), string(" "), string("a*"), string("\\."), string("[ab]"), string("b+"), string("1")});
      note(cat("case ", c, " REGEXP ", show(p)));
      try {
        e = Analyzer::getRegexpExpr(arg, text(p), r.chance(30) ? text("\\") : nullptr, neg);
      } catch (const std::runtime_error& x) {
        thr = true;
      }
      eval();
      VH_EXPECT(!thr, "regexp-refused", "case ", c, " ", show(p));
      if (thr) continue;
      inner = e.get();
      if (neg) {
        auto u = e->as<UOper>();
        VH_EXPECT(u && u->isNot(), "not-regexp", "case ", c, " ", e->toString());
        if (!u) continue;
        inner = u->operand();
      }
      auto l = inner->as<LikeExpr>();
      auto g = inner->as<RegexpExpr>();
      VH_EXPECT((l || g) && e->type()->nullable() == nn, "regexp-shape", "case ", c, " ", e->toString());
      if (!l && !g) continue;
      ev(l ? "regexp_as_like" : "regexp_kept");
      for (int k = 0; k < 6; ++k) {
        string s = vstr::rand_over(r, "ab .1", r.pick({0, 2, 4, 7}));
        bool ok = true, got;
        if (l) got = run_like(l, s, ok);
        else {
          auto& pat = *g->patternExpr()->as<Constant>()->value().stringval;
          got = regexp_like(s.data(), s.size(), pat.data(), pat.size(), '\\');
        }
        bool want = regexp_like(s.data(), s.size(), p.data(), p.size(), '\\');
        eval();
        ev(want ? "regexp_true" : "regexp_false");
        VH_EXPECT(ok && got == want, "regexp-decision", "case ", c, " ", show(s), " REGEXP ", show(p), " got ", got, " want ", want);
      }
      distinct(cat("R", p));
    }
  }
}

int main(int argc, char** argv) {
  init(argc, argv);
  logger::LogOptions lo("h_ir");
  lo.severity_ = logger::Severity::FATAL;
  lo.severity_clog_ = logger::Severity::FATAL;
  logger::init(lo);
  auto& m = st().mode;
  if (m == "types") mode_types();
  else if (m == "tconc") mode_tconc();
  else if (m == "promo") mode_promo();
  else if (m == "expr") mode_expr();
  else if (m == "lit") mode_lit();
  else if (m == "like") mode_like();
  else return 3;
  return finish();
}
