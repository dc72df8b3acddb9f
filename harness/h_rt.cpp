// Monitors for the runtime functions that generated query code calls for every row: scalar operations with NULL
// sentinels (arith), aggregate accumulators (agg) and group-by hash tables (group). The real functions are compiled
// in natively with sanitizers; each answer is compared with a reference computed from the definition.
#include "QueryEngine/RuntimeFunctions.cpp"
#include "QueryEngine/DynamicWatchdog.h"
#include "Logger/Logger.h"
#include "vh.h"
using namespace vh;
using i128 = __int128;

template <class T>
std::string S(T v) {
  std::ostringstream o;
  o.precision(20);
  if constexpr (sizeof(T) == 1) o << (int)v;
  else o << v;
  return o.str();
}
template <class T>
constexpr T nul() {
  if constexpr (std::is_floating_point_v<T>) return std::numeric_limits<T>::min();
  else return std::numeric_limits<T>::min();
}
template <class T>
T rndv(Rng& r) {
  if constexpr (std::is_floating_point_v<T>) {
    switch (r.below(8)) {
      case 0: return 0;
      case 1: return (T)r.range(-4, 4);
      case 2: return (T)r.range(-100, 100) / 2;
      case 3: return (T)((r.unit() - 0.5) * 1e6);
      case 4: return (T)((r.unit() - 0.5) * 1e-3);
      case 5: return (T)r.range(-1000000, 1000000);
      case 6: return -std::numeric_limits<T>::min();
      default: return (T)(r.unit() * 2 - 1);
    }
  } else {
    const T lo = std::numeric_limits<T>::min() + 1, hi = std::numeric_limits<T>::max();
    switch (r.below(8)) {
      case 0: return 0;
      case 1: return (T)r.range(-3, 3);
      case 2: return lo;
      case 3: return hi;
      case 4: return (T)(r.chance(50) ? lo + (T)r.below(4) : hi - (T)r.below(4));
      case 5: return (T)(r.chance(50) ? 1 : -1) * (T)(1ll << r.below(sizeof(T) * 8 - 1));
      case 6: {
        T v = (T)r.next();
        return v == std::numeric_limits<T>::min() ? lo : v;
      }
      default: return (T)r.range(-120, 120);
    }
  }
}
template <class T>
bool same(T a, T b) {
  return a == b || (a != a && b != b);
}
static Rng* R;
static long CASE;
static uint64_t DH;  // class of the operands, for the coverage measure
template <class T>
int cls(T v) {
  if (v == nul<T>()) return 0;
  if (v == 0) return 1;
  if (v < 0) return v == -1 ? 2 : 3;
  return v == 1 ? 4 : 5;
}
static void report(const char* f, const std::string& args, const std::string& got, const std::string& want) {
  violation(std::string("value ") + f, "case " + std::to_string(CASE) + ": " + f + "(" + args + ") = " + got + ", expected " + want);
}
template <class T>
void want(const char* f, const std::string& args, T got, T w) {
  eval();
  if (!same(got, w)) report(f, args, S(got), S(w));
}
#define TODO_ARGS(a, b) ("lhs " + S(a) + ", rhs " + S(b))

enum V { BOTH, LHS, RHS };
template <class T>
bool isnull(T a, T b, int v) {
  return (v != RHS && a == nul<T>()) || (v != LHS && b == nul<T>());
}
static bool fits(i128 v, i128 lo, i128 hi) { return v >= lo && v <= hi; }

template <class T>
void pickab(T& a, T& b, int v, bool any_sentinel) {
  Rng& r = *R;
  a = rndv<T>(r);
  b = r.chance(15) ? a : rndv<T>(r);
  if (r.chance(25) && (v != RHS || any_sentinel)) a = nul<T>();
  if (r.chance(25) && (v != LHS || any_sentinel)) b = nul<T>();
}
template <class T, class NT, class F>
void arith(const char* name, F f, int v, char op) {
  T a, b;
  const bool bw = op == '&' || op == '|' || op == '^';
  pickab<T>(a, b, v, bw);
  const bool n = isnull(a, b, v);
  T w;
  if (n) {
    w = nul<T>();
    // the other operand may be anything, a zero divisor included
  } else {
    if constexpr (std::is_floating_point_v<T>) {
      volatile T x = a, y = b;
      if (op == '/' && b == 0) return;
      w = op == '+' ? x + y : op == '-' ? x - y : op == '*' ? x * y : x / y;
    } else {
      i128 x = a, y = b, z;
      switch (op) {
        case '+': z = x + y; break;
        case '-': z = x - y; break;
        case '*': z = x * y; break;
        case '/': if (!y) return; z = x / y; break;
        case '%': if (!y) return; z = x % y; break;
        case '&': z = x & y; break;
        case '|': z = x | y; break;
        default: z = x ^ y;
      }
      if (!fits(z, std::numeric_limits<T>::min(), std::numeric_limits<T>::max())) return;
      w = (T)z;
    }
  }
  distinct(hash_str(name) ^ (cls(a) * 8 + cls(b)));
  ev(n ? "arith_null" : "arith_value");
  want<T>(name, TODO_ARGS(a, b), f(a, b, (NT)nul<T>()), w);
}
template <class T, class NT, class F>
void cmp(const char* name, F f, int v, int op) {
  T a, b;
  pickab<T>(a, b, v, true);
  const bool n = isnull(a, b, v);
  const int8_t nb = -128;
  bool t = op == 0 ? a == b : op == 1 ? a != b : op == 2 ? a < b : op == 3 ? a > b : op == 4 ? a <= b : a >= b;
  distinct(hash_str(name) ^ (cls(a) * 8 + cls(b)));
  ev("cmp");
  want<int8_t>(name, TODO_ARGS(a, b), f(a, b, (NT)nul<T>(), nb), n ? nb : (int8_t)t);
}
template <class F, class T, class U>
void cast_exact(const char* name, F f) {  // integer to integer or to floating point, floating point widening
  Rng& r = *R;
  T a = r.chance(20) ? nul<T>() : rndv<T>(r);
  if (std::is_unsigned_v<T>) a = (T)r.next();
  const bool n = a == nul<T>() && !std::is_unsigned_v<T>;
  const T fn = std::is_unsigned_v<T> ? std::numeric_limits<T>::max() : nul<T>();
  const bool n2 = a == fn;
  if (!n2) {
    if constexpr (std::is_integral_v<T> && std::is_integral_v<U>) {
      if (!fits((i128)a, (i128)std::numeric_limits<U>::min() + 1, (i128)std::numeric_limits<U>::max())) return;
    }
  }
  (void)n;
  U w = n2 ? nul<U>() : (U)a;
  distinct(hash_str(name) ^ cls(a));
  ev("cast");
  want<U>(name, S(a), f(a, fn, nul<U>()), w);
}
template <class F, class T, class U>
void cast_round(const char* name, F f) {
  Rng& r = *R;
  T a = r.chance(20) ? nul<T>() : rndv<T>(r);
  if (r.chance(40)) a = (T)r.range(-300, 300) + (T)0.5 * (T)r.range(0, 1);
  if (r.chance(10)) a = (T)((r.chance(50) ? 1 : -1) * (0.5 - r.unit() * 1e-8));
  if (a != nul<T>() && std::fabs((long double)a) > (long double)std::numeric_limits<U>::max() - 1) return;
  if (a != nul<T>() && std::fabs((long double)a) > (sizeof(T) == 4 ? 8388000.0L : 4503599627370000.0L)) return;
  U got = f(a, nul<T>(), nul<U>());
  eval();
  distinct(hash_str(name) ^ cls(a));
  ev("round");
  U w1 = a == nul<T>() ? nul<U>() : (U)std::llround((long double)a);
  // adding a half in the operand's own precision may reach the next integer from the last value below a half
  U w2 = a == nul<T>() ? nul<U>() : (U)std::trunc(a + (a < 0 ? (T)-0.5 : (T)0.5));
  if (got != w1 && got != w2) report(name, S(a), S(got), S(w1));
}

#define A1(T, NT, op, sym)                                                                                     \
  arith<T, NT>(#op "_" #T "_nullable", [](T a, T b, NT n) { return op##_##T##_nullable(a, b, n); }, BOTH, sym); \
  arith<T, NT>(#op "_" #T "_nullable_lhs", [](T a, T b, NT n) { return op##_##T##_nullable_lhs(a, b, n); }, LHS, sym); \
  arith<T, NT>(#op "_" #T "_nullable_rhs", [](T a, T b, NT n) { return op##_##T##_nullable_rhs(a, b, n); }, RHS, sym);
#define C1(T, NT, op, k)                                                                                     \
  cmp<T, NT>(#op "_" #T "_nullable", [](T a, T b, NT n, int8_t q) { return op##_##T##_nullable(a, b, n, q); }, BOTH, k); \
  cmp<T, NT>(#op "_" #T "_nullable_lhs", [](T a, T b, NT n, int8_t q) { return op##_##T##_nullable_lhs(a, b, n, q); }, LHS, k); \
  cmp<T, NT>(#op "_" #T "_nullable_rhs", [](T a, T b, NT n, int8_t q) { return op##_##T##_nullable_rhs(a, b, n, q); }, RHS, k);
template <class T, class NT, class F>
void safediv(const char* name, F f) {
  T a, b;
  pickab<T>(a, b, BOTH, true);
  if (R->chance(20)) b = 0;
  T w;
  if (isnull(a, b, BOTH) || b == 0) w = nul<T>();
  else {
    volatile T x = a, y = b;
    w = x / y;
  }
  ev("safe_div");
  want<T>(name, TODO_ARGS(a, b), f(a, b, (NT)nul<T>()), w);
}
template <class T, class F>
void uminus(const char* name, F f) {
  T a = R->chance(25) ? nul<T>() : rndv<T>(*R);
  ev("uminus");
  want<T>(name, S(a), f(a, nul<T>()), a == nul<T>() ? a : (T)-a);
}
template <class T, class F>
void bwnot(const char* name, F f) {
  T a = R->chance(25) ? nul<T>() : rndv<T>(*R);
  ev("bw_not");
  want<T>(name, S(a), f(a, (int64_t)nul<T>()), a == nul<T>() ? a : (T)~a);
}
#define ALLT(T, NT)                                                                                \
  A1(T, NT, add, '+') A1(T, NT, sub, '-') A1(T, NT, mul, '*') A1(T, NT, div, '/')                   \
  C1(T, NT, eq, 0) C1(T, NT, ne, 1) C1(T, NT, lt, 2) C1(T, NT, gt, 3) C1(T, NT, le, 4) C1(T, NT, ge, 5) \
  safediv<T, NT>("safe_div_" #T, [](T a, T b, NT n) { return safe_div_##T(a, b, n); });               \
  uminus<T>("uminus_" #T "_nullable", [](T a, T n) { return uminus_##T##_nullable(a, n); });
#define INTT(T)                                                                                    \
  ALLT(T, int64_t) A1(T, int64_t, mod, '%') A1(T, int64_t, bw_and, '&') A1(T, int64_t, bw_or, '|') A1(T, int64_t, bw_xor, '^') \
  bwnot<T>("bw_not_" #T "_nullable", [](T a, int64_t n) { return bw_not_##T##_nullable(a, n); });
#define CE(T, U)                                                                                        \
  {                                                                                                     \
    auto f = [](T a, T n, U m) { return cast_##T##_to_##U##_nullable(a, n, m); };                          \
    cast_exact<decltype(f), T, U>("cast_" #T "_to_" #U "_nullable", f);                                  \
  }
#define CR(T, U)                                                                                        \
  {                                                                                                     \
    auto f = [](T a, T n, U m) { return cast_##T##_to_##U##_nullable(a, n, m); };                          \
    cast_round<decltype(f), T, U>("cast_" #T "_to_" #U "_nullable", f);                                  \
  }

static i128 qdiv(i128 a, i128 b) {
  i128 q = a / b;
  if (a % b != 0 && ((a < 0) != (b < 0))) --q;
  return q;
}

static void mode_arith() {
  const long n = st().thorough ? 40000 : 4000;
  for (long c = 0; c < n && !too_many(); ++c) {
    if (st().only_case >= 0 && c != st().only_case) continue;
    CASE = c;
    Rng r = case_rng(c);
    R = &r;
    note("arith case " + std::to_string(c));
    INTT(int8_t) INTT(int16_t) INTT(int32_t) INTT(int64_t)
    ALLT(float, float) ALLT(double, double)
    CE(int8_t, int16_t) CE(int16_t, int8_t) CE(int8_t, int32_t) CE(int32_t, int8_t) CE(int8_t, int64_t) CE(int64_t, int8_t)
    CE(int16_t, int32_t) CE(int32_t, int16_t) CE(int16_t, int64_t) CE(int64_t, int16_t) CE(int32_t, int64_t) CE(int64_t, int32_t)
    CE(float, double) CE(double, float)
    CE(int8_t, float) CE(int16_t, float) CE(int32_t, float) CE(int64_t, float)
    CE(int8_t, double) CE(int16_t, double) CE(int32_t, double) CE(int64_t, double)
    CE(uint8_t, int32_t) CE(uint16_t, int32_t)
    CR(float, int8_t) CR(float, int16_t) CR(float, int32_t) CR(float, int64_t)
    CR(double, int8_t) CR(double, int16_t) CR(double, int32_t) CR(double, int64_t)
    // decimals
    for (int k = 0; k < 4; ++k) {
      const int64_t scale = [&] {
        int64_t s = 1;
        for (int i = (int)r.below(10); i; --i) s *= 10;
        return s;
      }();
      int64_t lim = std::numeric_limits<int64_t>::max() / scale / 2;
      int64_t a = r.chance(50) ? r.range(-lim, lim) : r.range(-20, 20);
      const int64_t NB = nul<int64_t>(), NO = -777;
      if (r.chance(20)) a = NB;
      want<int64_t>("scale_decimal_up", S(a) + " by " + S(scale), scale_decimal_up(a, scale, NB, NO), a == NB ? NO : a * scale);
      int64_t d = r.chance(60) ? r.range(-3000, 3000) : r.range(-(1ll << 60), 1ll << 60);
      if (r.chance(20)) d = scale / 2 * (2 * r.range(-9, 9) + 1) + r.range(-1, 1);
      i128 rd = ((i128)(d < 0 ? -(i128)d : (i128)d) * 2 + scale) / (2 * (i128)scale);
      int64_t wd = (int64_t)(d < 0 ? -rd : rd);
      want<int64_t>("scale_decimal_down_not_nullable", S(d) + " by " + S(scale), scale_decimal_down_not_nullable(d, scale, NB), wd);
      want<int64_t>("scale_decimal_down_nullable", S(d) + " by " + S(scale), scale_decimal_down_nullable(d, scale, NB), wd);
      want<int64_t>("scale_decimal_down_nullable", "null", scale_decimal_down_nullable(NB, scale, NB), NB);
      int64_t dv = r.chance(50) ? scale : r.range(1, 100000);
      want<int64_t>("floor_div_lhs", S(d) + "/" + S(dv), floor_div_lhs(d, dv), (int64_t)qdiv(d, dv));
      want<int64_t>("floor_div_nullable_lhs", S(d) + "/" + S(dv), floor_div_nullable_lhs(d, dv, NB), (int64_t)qdiv(d, dv));
      want<int64_t>("floor_div_nullable_lhs", "null", floor_div_nullable_lhs(NB, dv, NB), NB);
      want<int64_t>("decimal_floor", S(d) + " scale " + S(scale), decimal_floor(d, scale), (int64_t)(qdiv(d, scale) * scale));
      want<int64_t>("decimal_ceil", S(d) + " scale " + S(scale), decimal_ceil(d, scale), (int64_t)(-qdiv(-(i128)d, scale) * scale));
      float mf = 1.0f / scale;
      double md = 1.0 / scale;
      want<double>("cast_int64_t_to_double_scaled_nullable", S(d), cast_int64_t_to_double_scaled_nullable(d, NB, nul<double>(), md), md * d);
      want<float>("cast_int64_t_to_float_scaled_nullable", S(d), cast_int64_t_to_float_scaled_nullable(d, NB, nul<float>(), mf), mf * d);
      want<double>("cast_int64_t_to_double_scaled_nullable", "null", cast_int64_t_to_double_scaled_nullable(NB, NB, nul<double>(), md), nul<double>());
      ev("decimal", 11);
    }
    // three valued logic
    const int8_t N = -128, tv[] = {0, 1, N};
    for (int8_t a : tv) {
      want<int8_t>("logical_not", S(a), logical_not(a, N), a == N ? N : (int8_t)!a);
      for (int8_t b : tv) {
        want<int8_t>("logical_and", S(a) + "," + S(b), logical_and(a, b, N), (a == 0 || b == 0) ? (int8_t)0 : (a == N || b == N) ? N : (int8_t)1);
        want<int8_t>("logical_or", S(a) + "," + S(b), logical_or(a, b, N), (a == 1 || b == 1) ? (int8_t)1 : (a == N || b == N) ? N : (int8_t)0);
      }
    }
    // infinite division
    {
      double a = rndv<double>(r), b = r.chance(40) ? 0 : rndv<double>(r);
      const double inf = 1e300, nl = nul<double>();
      volatile double x = a, y = b;
      want<double>("safe_inf_div_double", TODO_ARGS(a, b), safe_inf_div_double(a, b, inf, nl), b != 0 ? x / y : a > 0 ? inf : a == 0 ? nl : -inf);
      float fa = rndv<float>(r), fb = r.chance(40) ? 0 : rndv<float>(r);
      volatile float fx = fa, fy = fb;
      want<float>("safe_inf_div_float", TODO_ARGS(fa, fb), safe_inf_div_float(fa, fb, 1e30f, nul<float>()), fb != 0 ? fx / fy : fa > 0 ? 1e30f : fa == 0 ? nul<float>() : -1e30f);
    }
    // buckets
    for (int k = 0; k < 6; ++k) {
      const int cnt = (int)r.range(1, 50);
      const double lo = (double)r.range(-50, 50), w = (double)r.range(1, 8) * cnt, hi = lo + w;
      double t = r.chance(50) ? (double)r.range((int64_t)lo - 5, (int64_t)hi + 5) : lo - 5 + r.unit() * (w + 10);
      if (r.chance(10)) t = lo;
      if (r.chance(10)) t = hi;
      const double per = w / cnt;  // an integer: boundaries are exact
      auto exp_fwd = [&](double t) { return t < lo ? 0 : t >= hi ? cnt + 1 : (int)std::floor((t - lo) / per) + 1; };
      auto exp_rev = [&](double t) { return t > hi ? 0 : t <= lo ? cnt + 1 : (int)std::floor((hi - t) / per) + 1; };
      auto chk = [&](const char* f, double got, int e, double exact) {
        eval();
        ev("bucket");
        const int g = (int)got;
        // a value within rounding distance of a boundary may land on either side
        const double fr = exact - std::floor(exact);
        if (g == e || (fr > 1 - 1e-9 && g == e + 1) || (fr < 1e-9 && g == e - 1 && exact >= 2)) return;
        report(f, S(t) + " in [" + S(lo) + "," + S(hi) + "] " + S(cnt), S(got), S(e));
      };
      const double ef = (t - lo) / per + 1, er = (hi - t) / per + 1;
      chk("width_bucket", width_bucket(t, lo, hi, cnt / w, cnt), exp_fwd(t), ef);
      chk("width_bucket_reversed", width_bucket_reversed(t, hi, lo, cnt / w, cnt), exp_rev(t), er);
      chk("width_bucket_nullable", width_bucket_nullable(t, lo, hi, cnt / w, cnt, nul<double>()), exp_fwd(t), ef);
      chk("width_bucket_reversed_nullable", width_bucket_reversed_nullable(t, hi, lo, cnt / w, cnt, nul<double>()), exp_rev(t), er);
      chk("width_bucket_expr", width_bucket_expr(t, false, lo, hi, cnt), exp_fwd(t), ef);
      chk("width_bucket_expr reversed", width_bucket_expr(t, true, hi, lo, cnt), exp_rev(t), er);
      chk("width_bucket_expr_nullable", width_bucket_expr_nullable(t, false, lo, hi, cnt, nul<double>()), exp_fwd(t), ef);
      if (t >= lo && t < hi) {
        chk("width_bucket_no_oob_check", width_bucket_no_oob_check(t, lo, cnt / w), exp_fwd(t), ef);
        chk("width_bucket_expr_no_oob_check", width_bucket_expr_no_oob_check(t, false, lo, hi, cnt), exp_fwd(t), ef);
      }
      if (t > lo && t <= hi) {
        chk("width_bucket_reversed_no_oob_check", width_bucket_reversed_no_oob_check(t, hi, cnt / w), exp_rev(t), er);
        chk("width_bucket_expr_no_oob_check reversed", width_bucket_expr_no_oob_check(t, true, hi, lo, cnt), exp_rev(t), er);
      }
      want<double>("width_bucket_nullable", "null", width_bucket_nullable(nul<double>(), lo, hi, cnt / w, cnt, nul<double>()), INT32_MIN);
      want<double>("width_bucket_reversed_nullable", "null", width_bucket_reversed_nullable(nul<double>(), hi, lo, cnt / w, cnt, nul<double>()), INT32_MIN);
      want<double>("width_bucket_expr_nullable", "null", width_bucket_expr_nullable(nul<double>(), r.chance(50), lo, hi, cnt, nul<double>()), INT32_MIN);
    }
    // column decoders: exactly sized heap columns, so that reads outside are seen by AddressSanitizer
    {
      const size_t len = 1 + r.below(40);
      for (int width : {1, 2, 4, 8}) {
        std::vector<int8_t> buf(len * width);
        for (auto& b : buf) b = (int8_t)r.next();
        const size_t nullpos = r.below(len);
        auto ref = [&](size_t p) -> int64_t {
          uint64_t v = 0;
          for (int i = 0; i < width; ++i) v |= (uint64_t)(uint8_t)buf[p * width + i] << (8 * i);
          if (width < 8) v = (uint64_t)((int64_t)(v << (64 - 8 * width)) >> (64 - 8 * width));
          return (int64_t)v;
        };
        const int64_t dn = width == 2 ? nul<int16_t>() : nul<int32_t>();
        if (width == 2 || width == 4) memcpy(&buf[nullpos * width], &dn, width);
        std::unique_ptr<int8_t[]> col(new int8_t[buf.size()]);
        memcpy(col.get(), buf.data(), buf.size());
        for (size_t p = 0; p < len; ++p) {
          const int64_t v = ref(p);
          want<int64_t>("fixed_width_int_decode", S(width) + "@" + S(p), fixed_width_int_decode_noinline(col.get(), width, p), v);
          want<int64_t>("fixed_width_unsigned_decode", S(width) + "@" + S(p), fixed_width_unsigned_decode_noinline(col.get(), width, p),
                        width == 8 ? v : (int64_t)((uint64_t)v & ((1ull << (8 * width)) - 1)));
          int64_t base = r.range(-1000, 1000);
          if (width < 8)
            want<int64_t>("diff_fixed_width_int_decode", S(width) + "@" + S(p), diff_fixed_width_int_decode(col.get(), width, base, p), v + base);
          if (width == 2 || width == 4)
            want<int64_t>("fixed_width_small_date_decode", S(v), fixed_width_small_date_decode_noinline(col.get(), width, (int32_t)dn, nul<int64_t>(), p), v == dn ? nul<int64_t>() : v * 86400);
          if (width == 4) {
            float f;
            memcpy(&f, col.get() + p * 4, 4);
            want<float>("fixed_width_float_decode", S(p), fixed_width_float_decode_noinline(col.get(), p), f);
          }
          if (width == 8) {
            double f;
            memcpy(&f, col.get() + p * 8, 8);
            want<double>("fixed_width_double_decode", S(p), fixed_width_double_decode_noinline(col.get(), p), f);
          }
          ev("decode");
        }
      }
    }
    // string handles, lengths, membership bitmaps
    {
      uint64_t p = r.next() & 0x7fffffffffffull;
      int32_t l = (int32_t)r.pick({(int64_t)0, (int64_t)1, (int64_t)32767, r.range(0, 32767)});
      uint64_t h = string_pack((const int8_t*)p, l);
      want<uint64_t>("extract_str_ptr", S(p), (uint64_t)extract_str_ptr_noinline(h), p);
      want<int32_t>("extract_str_len", S(l), extract_str_len_noinline(h), l);
      want<int32_t>("char_length", S(l), char_length("x", l), l);
      want<int32_t>("char_length_nullable", S(l), char_length_nullable("x", l, nul<int32_t>()), l);
      want<int32_t>("char_length_nullable", "null", char_length_nullable(nullptr, l, nul<int32_t>()), nul<int32_t>());
      const int64_t mn = r.range(-100, 100), mx = mn + r.range(0, 200);
      std::vector<int8_t> bits((mx - mn) / 8 + 1);
      std::set<int64_t> in;
      for (int k = (int)r.below(30); k > 0; --k) {
        int64_t v = r.range(mn, mx);
        in.insert(v);
        bits[(v - mn) / 8] |= 1 << ((v - mn) % 8);
      }
      std::unique_ptr<int8_t[]> bm(new int8_t[bits.size()]);
      memcpy(bm.get(), bits.data(), bits.size());
      const int64_t N64 = nul<int64_t>();
      for (int64_t v = mn - 3; v <= mx + 3; ++v)
        want<int8_t>("bit_is_set", S(v), bit_is_set((int64_t)bm.get(), v, mn, mx, N64, N), (int8_t)in.count(v));
      want<int8_t>("bit_is_set", "null", bit_is_set((int64_t)bm.get(), N64, mn, mx, N64, N), N);
      want<int8_t>("bit_is_set", "no set", bit_is_set(0, mn, mn, mx, N64, N), 0);
      ev("bitset", mx - mn + 9);
    }
    // sampling: the fraction kept is the proportion asked for; a larger proportion keeps a superset
    if (c % 50 == 0) {
      double p = r.unit(), q = p + (1 - p) * r.unit();
      long kept = 0;
      const int64_t base = r.range(0, 1 << 30);
      for (int64_t i = 0; i < 4000; ++i) {
        bool a = sample_ratio(p, base + i), b = sample_ratio(q, base + i);
        kept += a;
        if (a && !b) report("sample_ratio", S(p) + "<" + S(q) + " row " + S(base + i), "kept only by the smaller", "superset");
        if (!sample_ratio(1.0, base + i) || sample_ratio(0.0, base + i)) report("sample_ratio", "0 or 1", "wrong", "none or all");
      }
      eval(4000);
      if (std::fabs(kept / 4000.0 - p) > 0.05) report("sample_ratio", S(p), S(kept / 4000.0), S(p));
    }
    // error codes: the first persistent (positive) error stays
    {
      int32_t code[1] = {0}, m = 0;
      for (int k = 0; k < 12; ++k) {
        int32_t e = (int32_t)r.range(-3, 4);
        record_error_code(e, code);
        if (e && m <= 0) m = e;
        want<int32_t>("record_error_code", S(e), get_error_code(code), m);
      }
    }
  }
}

// ------------------------------------------------------------------------------------------------ aggregates
template <class T, class AT, class SumF, class MinF, class MaxF, class IdF, class SSum, class SMin, class SMax, class ChkF>
void agg_type(const char* tn, Rng& r, SumF sum, MinF mn, MaxF mx, IdF id, SSum ssum, SMin smin, SMax smax, ChkF chk, bool has_sum) {
  const size_t n = r.below(12);
  const int nullpct = (int)r.pick({0, 0, 30, 90, 100});
  std::vector<T> v(n);
  bool small = r.chance(60);
  for (auto& x : v) {
    x = small || std::is_floating_point_v<T> ? (T)r.range(-10, 10) : (T)(rndv<T>(r) / (T)16);
    if (std::is_same_v<T, int8_t> && !small) x = rndv<T>(r);
    if (r.chance(nullpct)) x = nul<T>();
  }
  if (r.chance(20) && n) v[r.below(n)] = r.chance(50) ? std::numeric_limits<T>::max() : (T)(std::is_floating_point_v<T> ? -std::numeric_limits<T>::max() : std::numeric_limits<T>::min() + 1);
  auto tos = [&] {
    std::string s;
    for (auto x : v) s += (x == nul<T>() ? std::string("null") : S(x)) + " ";
    return s;
  };
  const std::string args = tos();
  distinct(hash_str(std::string(tn) + args));
  auto enc = [](T x) {
    AT a;
    memcpy(&a, &x, sizeof a);
    return a;
  };
  auto dec = [](AT a) {
    T x;
    memcpy(&x, &a, sizeof x);
    return x;
  };
  // an accumulator sits in a row between its neighbours, which must not change
  AT row[3] = {enc((T)77), 0, enc((T)78)};
  auto fresh = [&](T init) { row[1] = enc(init); };
  auto check = [&](const char* f, T w) {
    eval();
    if (!same(dec(row[1]), w) || dec(row[0]) != (T)77 || dec(row[2]) != (T)78)
      report((std::string(f) + "_" + tn).c_str(), args, S(dec(row[1])), S(w));
  };
  std::vector<T> nn;
  for (auto x : v)
    if (x != nul<T>()) nn.push_back(x);
  // without nulls: start values as the code generator uses them
  fresh(std::numeric_limits<T>::max());
  T w = std::numeric_limits<T>::max();
  for (auto x : nn) mn(&row[1], x), w = std::min(w, x);
  check("agg_min", w);
  const T lowest = std::is_floating_point_v<T> ? -std::numeric_limits<T>::max() : std::numeric_limits<T>::min();
  fresh(lowest);
  w = lowest;
  for (auto x : nn) mx(&row[1], x), w = std::max(w, x);
  check("agg_max", w);
  fresh(nul<T>());
  for (auto x : v) smin(&row[1], x, nul<T>());
  check("agg_min_skip_val", nn.empty() ? nul<T>() : *std::min_element(nn.begin(), nn.end()));
  fresh(nul<T>());
  for (auto x : v) smax(&row[1], x, nul<T>());
  check("agg_max_skip_val", nn.empty() ? nul<T>() : *std::max_element(nn.begin(), nn.end()));
  if (has_sum) {
    bool ok = true;
    if constexpr (std::is_integral_v<T>) {
      i128 t = 0;
      for (auto x : nn) {
        t += x;
        // a running sum that overflows or equals the sentinel is outside the contract
        if (!fits(t, (i128)std::numeric_limits<T>::min() + 1, std::numeric_limits<T>::max())) ok = false;
      }
    }
    if (ok) {
      T t = 0;
      fresh(0);
      for (auto x : nn) {
        T old = dec(row[1]);
        AT o = sum(&row[1], x);
        if (std::is_integral_v<T> && dec(o) != old) report((std::string("agg_sum return ") + tn).c_str(), args, S(dec(o)), S(old));
        volatile T z = t + x;
        t = z;
      }
      check("agg_sum", t);
      fresh(nul<T>());
      bool first = true;
      t = 0;
      for (auto x : v) {
        T old = dec(row[1]);
        AT o = ssum(&row[1], x, nul<T>());
        if (std::is_integral_v<T> && dec(o) != old) report((std::string("agg_sum_skip_val return ") + tn).c_str(), args, S(dec(o)), S(old));
        if (x == nul<T>()) continue;
        volatile T z = first ? x : (T)(t + x);
        t = z;
        first = false;
      }
      check("agg_sum_skip_val", nn.empty() ? nul<T>() : t);
      ev("agg_sum");
    }
  }
  fresh(0);
  for (auto x : v) id(&row[1], x);
  check("agg_id", v.empty() ? (T)0 : v.back());
  // single value: accepted while all values are equal, refused at the first different one
  fresh(nul<T>());
  T cur = nul<T>();
  std::vector<T> sv = v;
  if (r.chance(50) && !nn.empty())
    for (auto& x : sv)
      if (x != nul<T>()) x = nn[0];
  for (auto x : sv) {
    int32_t e = chk(&row[1], x, nul<T>());
    int32_t we = 0;
    if (x != nul<T>()) {
      if (cur == nul<T>()) cur = x;
      else if (cur != x) we = 15;
    }
    eval();
    if (e != we) report((std::string("checked_single_agg_id_") + tn).c_str(), args, S(e), S(we));
  }
  check("checked_single_agg_id", cur);
  ev("agg_seq");
  if (nn.size() < v.size()) ev("agg_with_null");
}
#include "Shared/quantile.h"

template <class T, class F, class FS>
void topk_type(const char* tn, Rng& r, F f, FS fs) {
  const int k = (int)r.range(1, 9);
  const bool largest = r.chance(50);
  const bool inl = (size_t)k * sizeof(T) <= 8 && r.chance(60);
  const bool skip = r.chance(50);
  const size_t n = r.below(40);
  std::vector<T> v, nn;
  const bool small = r.chance(50);
  for (size_t i = 0; i < n; ++i) {
    T x = small ? (T)r.range(-4, 4) : rndv<T>(r);
    if (skip && r.chance(25)) x = nul<T>();
    if (x != nul<T>()) nn.push_back(x);
    else if (!skip) continue;
    v.push_back(x);
  }
  // the heap ends where the allocation ends
  std::unique_ptr<T[]> heap(new T[k]);
  for (int i = 0; i < k; ++i) heap[i] = nul<T>();
  int64_t slot = (int64_t)heap.get();
  T inlv[8];
  if (inl) {
    for (int i = 0; i < (int)(8 / sizeof(T)); ++i) inlv[i] = i < k ? nul<T>() : (T)99;
    memcpy(&slot, inlv, 8);
  }
  const int kk = largest ? k : -k;
  for (auto x : v) {
    if (skip) fs(&slot, x, nul<T>(), kk, inl);
    else f(&slot, x, nul<T>(), kk, inl);
  }
  std::vector<T> got;
  const T* p = inl ? (memcpy(inlv, &slot, 8), inlv) : heap.get();
  int hs = getTopKHeapSize<T>(p, nul<T>(), k);
  for (int i = 0; i < hs; ++i) got.push_back(p[i]);
  std::vector<T> w = nn;
  if (largest) std::sort(w.rbegin(), w.rend());
  else std::sort(w.begin(), w.end());
  if ((int)w.size() > k) w.resize(k);
  std::sort(w.begin(), w.end());
  std::sort(got.begin(), got.end());
  eval();
  ev("topk");
  std::string a;
  for (auto x : v) a += S(x) + " ";
  distinct(hash_str(tn + a) ^ kk);
  if (got != w) {
    std::string g, e;
    for (auto x : got) g += S(x) + " ";
    for (auto x : w) e += S(x) + " ";
    report((std::string("agg_topk_") + tn).c_str(), "k " + S(kk) + (inl ? " inline: " : ": ") + a, g, e);
  }
  if (inl)
    for (int i = k; i < (int)(8 / sizeof(T)); ++i)
      if (inlv[i] != (T)99) report((std::string("agg_topk_") + tn).c_str(), "inline k " + S(kk), "byte outside changed", "unchanged");
}

template <class T, class F>
void kheap_type(const char* tn, Rng& r, F f) {
  // streaming top-n: the rows kept are the n first of the requested order
  const uint32_t k = (uint32_t)r.range(1, 12), rsq = (uint32_t)r.range(2, 4);
  const uint32_t key_off = 8 * (uint32_t)r.range(1, rsq - 1);
  const bool min_heap = r.chance(50), has_null = r.chance(60), nulls_first = r.chance(50);
  const size_t n = r.below(60);
  std::unique_ptr<int64_t[]> heaps(new int64_t[1 + k + (size_t)rsq * k]);
  memset(heaps.get(), 0, 8 * (1 + k + (size_t)rsq * k));
  std::vector<T> in;
  const bool small = r.chance(50);
  for (size_t i = 0; i < n; ++i) {
    T x = small ? (T)r.range(-5, 5) : rndv<T>(r);
    if (has_null && r.chance(20)) x = nul<T>();
    in.push_back(x);
    int64_t* row = f(heaps.get(), k, rsq, key_off, min_heap, has_null, nulls_first, nul<T>(), x);
    if (row) {
      int64_t* base = heaps.get() + 1 + k;
      eval();
      if (row < base + 1 || row > base + (size_t)rsq * k || (row - 1 - base) % rsq) report((std::string("get_bin_from_k_heap_") + tn).c_str(), "k " + S(k), "row outside the buffer", "a row of the buffer");
      // the caller writes the row, its key included
      memcpy((int8_t*)(row - 1) + key_off, &x, sizeof x);
    }
  }
  // a min heap keeps the largest keys
  auto before = [&](T a, T b) {  // a strictly before b in the output order
    if (has_null) {
      const bool an = a == nul<T>(), bn = b == nul<T>();
      if (an != bn) return nulls_first ? an : bn;
      if (an) return false;
    }
    return min_heap ? a > b : a < b;
  };
  std::vector<T> w = in, got;
  std::stable_sort(w.begin(), w.end(), before);
  if (w.size() > k) w.resize(k);
  const int64_t cnt = heaps[0];
  for (int64_t i = 0; i < cnt && i < k; ++i) {
    T x;
    memcpy(&x, (int8_t*)(heaps.get() + 1 + k + i * rsq) + key_off, sizeof x);
    got.push_back(x);
  }
  std::stable_sort(got.begin(), got.end(), before);
  eval();
  ev("k_heap");
  std::string a;
  for (auto x : in) a += (x == nul<T>() ? std::string("null") : S(x)) + " ";
  distinct(hash_str(tn + a) ^ k);
  if (got != w || cnt != (int64_t)std::min<size_t>(k, n)) {
    std::string g, e;
    for (auto x : got) g += S(x) + " ";
    for (auto x : w) e += S(x) + " ";
    report((std::string("get_bin_from_k_heap_") + tn).c_str(), "k " + S(k) + (min_heap ? " min" : " max") + (has_null ? nulls_first ? " nulls first: " : " nulls last: " : ": ") + a, g, e);
  }
}
static int32_t r32(int32_t v) { return v; }

static void mode_agg() {
  const long n = st().thorough ? 60000 : 6000;
  for (long c = 0; c < n && !too_many(); ++c) {
    if (st().only_case >= 0 && c != st().only_case) continue;
    CASE = c;
    Rng r = case_rng(c);
    R = &r;
    note("agg case " + std::to_string(c));
    agg_type<int64_t, int64_t>("int64", r, agg_sum, agg_min, agg_max, agg_id, agg_sum_skip_val, agg_min_skip_val, agg_max_skip_val, checked_single_agg_id, true);
    agg_type<int32_t, int32_t>("int32", r, agg_sum_int32, agg_min_int32, agg_max_int32, agg_id_int32, agg_sum_int32_skip_val, agg_min_int32_skip_val, agg_max_int32_skip_val, checked_single_agg_id_int32, true);
    auto n16 = [](int16_t*, auto...) -> int16_t { return 0; };
    auto n8 = [](int8_t*, auto...) -> int8_t { return 0; };
    agg_type<int16_t, int16_t>("int16", r, n16, agg_min_int16, agg_max_int16, agg_id_int16, n16, agg_min_int16_skip_val, agg_max_int16_skip_val, checked_single_agg_id_int16, false);
    agg_type<int8_t, int8_t>("int8", r, n8, agg_min_int8, agg_max_int8, agg_id_int8, n8, agg_min_int8_skip_val, agg_max_int8_skip_val, checked_single_agg_id_int8, false);
    auto sd = [](int64_t* a, double v) { agg_sum_double(a, v); return *a; };
    auto ssd = [](int64_t* a, double v, double s) { agg_sum_double_skip_val(a, v, s); return *a; };
    auto sf = [](int32_t* a, float v) { agg_sum_float(a, v); return *a; };
    auto ssf = [](int32_t* a, float v, float s) { agg_sum_float_skip_val(a, v, s); return *a; };
    agg_type<double, int64_t>("double", r, sd, agg_min_double, agg_max_double, agg_id_double, ssd, agg_min_double_skip_val, agg_max_double_skip_val, checked_single_agg_id_double, true);
    agg_type<float, int32_t>("float", r, sf, agg_min_float, agg_max_float, agg_id_float, ssf, agg_min_float_skip_val, agg_max_float_skip_val, checked_single_agg_id_float, true);
    // counts, with and without NULLs
    {
      uint64_t a = 0, b = 0, d = 0, e = 0;
      uint32_t i = 0, j = 0, f = 0, g = 0;
      uint64_t all = 0, nn = 0;
      for (int k = (int)r.below(20); k > 0; --k) {
        bool z = r.chance(30);
        ++all;
        nn += !z;
        uint64_t ra = agg_count(&a, 5), rb = agg_count_skip_val(&b, z ? nul<int64_t>() : 3, nul<int64_t>());
        want<uint64_t>("agg_count return", "", ra, all - 1);
        want<uint64_t>("agg_count_skip_val return", z ? "null" : "", rb, z ? nn : nn - 1);
        agg_count_double(&d, 1.0);
        agg_count_double_skip_val(&e, z ? nul<double>() : 0.0, nul<double>());
        agg_count_int32(&i, 1);
        agg_count_int32_skip_val(&j, z ? nul<int32_t>() : 0, nul<int32_t>());
        agg_count_float(&f, 1.f);
        agg_count_float_skip_val(&g, z ? nul<float>() : 0.f, nul<float>());
      }
      want<uint64_t>("agg_count", "", a, all);
      want<uint64_t>("agg_count_double", "", d, all);
      want<uint64_t>("agg_count_int32", "", i, all);
      want<uint64_t>("agg_count_float", "", f, all);
      want<uint64_t>("agg_count_skip_val", "", b, nn);
      want<uint64_t>("agg_count_double_skip_val", "", e, nn);
      want<uint64_t>("agg_count_int32_skip_val", "", j, nn);
      want<uint64_t>("agg_count_float_skip_val", "", g, nn);
      ev("agg_count");
    }
    // averages read back
    {
      int64_t s = r.range(-1000000, 1000000), k = r.chance(20) ? 0 : r.range(1, 1000);
      const double nl = nul<double>();
      want<double>("load_avg_int", S(s) + "/" + S(k), load_avg_int(&s, &k, nl), k ? (double)s / k : nl);
      uint32_t sc = (uint32_t)r.below(10);
      double got = load_avg_decimal(&s, &k, nl, sc), w = k ? (double)s / std::pow(10, sc) / k : nl;
      eval();
      if (std::fabs(got - w) > 1e-12 * std::fabs(w) + 1e-300) report("load_avg_decimal", S(s), S(got), S(w));
      double ds = rndv<double>(r);
      int64_t di;
      memcpy(&di, &ds, 8);
      want<double>("load_avg_double", S(ds), load_avg_double(&di, &k, nl), k ? ds / k : nl);
      float fsv = rndv<float>(r);
      int32_t fi, k32 = (int32_t)k;
      memcpy(&fi, &fsv, 4);
      want<double>("load_avg_float", S(fsv), load_avg_float(&fi, &k32, nl), k ? (double)(fsv / k32) : nl);
      want<double>("load_double", S(ds), load_double(&di), ds);
      want<float>("load_float", S(fsv), load_float(&fi), fsv);
      ev("agg_avg");
    }
    // distinct values in a bitmap of exactly the needed size
    {
      const int64_t mn = r.range(-1000000, 1000000), span = r.range(1, 400);
      std::unique_ptr<int8_t[]> bm(new int8_t[(span + 7) / 8]);
      memset(bm.get(), 0, (span + 7) / 8);
      int64_t h = (int64_t)bm.get();
      std::set<int64_t> in;
      const int64_t N64 = nul<int64_t>();
      for (int k = (int)r.below(60); k > 0; --k) {
        int64_t v = mn + (int64_t)r.below(span);
        if (r.chance(20)) {
          agg_count_distinct_bitmap_skip_val(&h, N64, mn, N64);
          continue;
        }
        in.insert(v);
        if (r.chance(50)) agg_count_distinct_bitmap(&h, v, mn);
        else agg_count_distinct_bitmap_skip_val(&h, v, mn, N64);
      }
      for (int64_t i = 0; i < (span + 7) / 8 * 8; ++i) {
        bool b = bm[i / 8] >> (i % 8) & 1;
        eval();
        if (b != (bool)in.count(mn + i)) report("agg_count_distinct_bitmap", "min " + S(mn) + " value " + S(mn + i), S((int)b), S((int)!b));
      }
      ev("distinct_bitmap");
    }
    topk_type<int8_t>("int8", r, agg_topk_int8, agg_topk_int8_skip_val);
    topk_type<int16_t>("int16", r, agg_topk_int16, agg_topk_int16_skip_val);
    topk_type<int32_t>("int32", r, agg_topk_int32, agg_topk_int32_skip_val);
    topk_type<int64_t>("int64", r, agg_topk_int64, agg_topk_int64_skip_val);
    topk_type<float>("float", r, agg_topk_float, agg_topk_float_skip_val);
    topk_type<double>("double", r, agg_topk_double, agg_topk_double_skip_val);
    kheap_type<int32_t>("int32", r, get_bin_from_k_heap_int32_t);
    kheap_type<int64_t>("int64", r, get_bin_from_k_heap_int64_t);
    kheap_type<float>("float", r, get_bin_from_k_heap_float);
    kheap_type<double>("double", r, get_bin_from_k_heap_double);
    // projections: everything but the initial value is written
    {
      int64_t a = -1, v = rndv<int64_t>(r);
      write_projection_int64((int8_t*)&a, v, -1);
      want<int64_t>("write_projection_int64", S(v), a, v);
      int32_t b = -1, w = rndv<int32_t>(r);
      write_projection_int32((int8_t*)&b, w, -1);
      want<int32_t>("write_projection_int32", S(w), b, w);
    }
    // variable length values
    {
      size_t off = r.below(20), len = r.below(40);
      std::vector<int8_t> src(len), ref(off + len + 3, 9);
      for (auto& x : src) x = (int8_t)r.next();
      std::unique_ptr<int8_t[]> dst(new int8_t[ref.size()]);
      memset(dst.get(), 9, ref.size());
      int8_t* p = agg_id_varlen(dst.get(), off, src.data(), len);
      std::copy(src.begin(), src.end(), ref.begin() + off);
      eval();
      if (p != dst.get() + off || memcmp(dst.get(), ref.data(), ref.size())) report("agg_id_varlen", S(off) + "+" + S(len), "other bytes", "the value at the offset");
    }
    // linear counting: the bitmap answers within its error for a load below one half
    if (c % 20 == 0) {
      const uint32_t bytes = 1024;
      std::vector<uint32_t> bm(bytes / 4);
      const size_t cnt = r.below(3000);
      std::set<int64_t> s;
      for (size_t i = 0; i < cnt; ++i) {
        int64_t key = (int64_t)r.below(1500);
        s.insert(key);
        linear_probabilistic_count((uint8_t*)bm.data(), bytes, (const uint8_t*)&key, 8);
      }
      size_t set = 0;
      for (auto w : bm) set += __builtin_popcount(w);
      const double m = bytes * 8, est = -m * std::log(1 - set / m);
      eval();
      if (std::fabs(est - s.size()) > 5 + 0.1 * s.size()) report("linear_probabilistic_count", S(s.size()) + " distinct", S(est), S(s.size()));
    }
  }
}

// ------------------------------------------------------------------------------------------------ group by tables
static void mode_group() {
  const long n = st().thorough ? 40000 : 5000;
  dynamic_watchdog_init(600000);  // far deadline
  for (long c = 0; c < n && !too_many(); ++c) {
    if (st().only_case >= 0 && c != st().only_case) continue;
    CASE = c;
    Rng r = case_rng(c);
    note("group case " + std::to_string(c));
    const int kind = (int)r.below(10);
    const uint32_t entries = (uint32_t)r.pick({(int64_t)1, (int64_t)2, r.range(3, 40), r.range(3, 40), r.range(100, 700)});
    const uint32_t kc = (uint32_t)r.range(1, 5);
    const bool wd = r.chance(30);
    const int64_t spread = r.pick({(int64_t)3, (int64_t)20, (int64_t)1000, (int64_t)1 << 40});
    const size_t ops = r.range(1, entries * 3 + 5);
    const uint64_t cd = hash_str(S(kind) + "," + S(entries) + "," + S(kc) + "," + S(spread) + (wd ? "w" : ""));
    uint64_t hist = cd;
    auto bad = [&](const std::string& k, const std::string& d) {
      violation("group " + k, "case " + std::to_string(c) + " kind " + S(kind) + " entries " + S(entries) + " keys " + S(kc) + ": " + d);
    };
    if (kind <= 5) {
      // open addressing: row-wise (8 and 4 byte keys), columnar slot (8 and 4), columnar
      const bool w4 = kind == 1 || kind == 3;
      const bool rowwise = kind <= 1, slot = kind == 2 || kind == 3;
      const uint32_t kw = w4 ? 4 : 8;
      const uint32_t key_quad = rowwise ? (kc * kw + 7) / 8 : 0;
      const uint32_t aggs = (uint32_t)r.range(1, 3);
      const uint32_t rsq = key_quad + aggs;
      const size_t quads = rowwise ? (size_t)rsq * entries : slot ? ((size_t)kc * kw * entries + 7) / 8 : (size_t)(kc + aggs) * entries;
      std::unique_ptr<int64_t[]> buf(new int64_t[quads]);
      if (rowwise) {
        for (uint32_t e = 0; e < entries; ++e) {
          int64_t* row = buf.get() + (size_t)e * rsq;
          for (uint32_t q = 0; q < rsq; ++q) row[q] = -5;
          for (uint32_t k = 0; k < kc; ++k) {
            if (w4) ((int32_t*)row)[k] = EMPTY_KEY_32;
            else row[k] = EMPTY_KEY_64;
          }
        }
      } else if (slot) {
        for (size_t i = 0; i < quads; ++i) buf[i] = EMPTY_KEY_64;
        for (size_t i = 0; i < (size_t)kc * entries; ++i) {
          if (w4) ((int32_t*)buf.get())[i] = EMPTY_KEY_32;
          else buf[i] = EMPTY_KEY_64;
        }
      } else {
        for (size_t i = 0; i < quads; ++i) buf[i] = i < (size_t)kc * entries ? EMPTY_KEY_64 : -5;
      }
      std::map<std::vector<int64_t>, int64_t> model;  // key -> slot
      std::map<int64_t, std::vector<int64_t>> owner;
      for (size_t o = 0; o < ops; ++o) {
        std::vector<int64_t> key(kc);
        for (auto& k : key) {
          k = r.chance(8) ? (w4 ? (int64_t)nul<int32_t>() : nul<int64_t>()) : r.range(-spread, spread);
          if (w4) k = (int32_t)k;
          if (w4 ? k == EMPTY_KEY_32 : k == EMPTY_KEY_64) k = 1;
        }
        if (!model.empty() && r.chance(40)) {  // repeat a known key
          auto it = model.begin();
          std::advance(it, r.below(model.size()));
          key = it->first;
        } else if (!model.empty() && r.chance(30)) {  // differ from a known key in one component
          auto it = model.begin();
          std::advance(it, r.below(model.size()));
          key = it->first;
          auto& k = key[r.below(kc)];
          k = (int64_t)((uint64_t)k + (r.chance(50) ? 1 : -1));
          if (w4) k = (int32_t)k;
          if (w4 ? k == EMPTY_KEY_32 : k == EMPTY_KEY_64) k = 2;
        }
        std::vector<int64_t> kb64 = key;
        std::vector<int32_t> kb32(key.begin(), key.end());
        if (kb32.size() % 2) kb32.push_back(0);
        const int64_t* kp = w4 ? (const int64_t*)kb32.data() : kb64.data();
        int64_t at = -1;
        if (rowwise) {
          int64_t* p = wd ? get_group_value_with_watchdog(buf.get(), entries, kp, kc, kw, rsq) : get_group_value(buf.get(), entries, kp, kc, kw, rsq);
          if (p) {
            const ptrdiff_t d = p - buf.get();
            if (d < 0 || (size_t)d >= quads || d % rsq != (ptrdiff_t)key_quad) {
              bad("slot pointer", "offset " + S(d));
              break;
            }
            at = d / rsq;
          }
        } else if (slot) {
          at = wd ? get_group_value_columnar_slot_with_watchdog(buf.get(), entries, kp, kc, kw) : get_group_value_columnar_slot(buf.get(), entries, kp, kc, kw);
          if (at < -1 || at >= (int64_t)entries) {
            bad("slot number", S(at));
            break;
          }
        } else {
          int64_t* p = wd ? get_group_value_columnar_with_watchdog(buf.get(), entries, kp, kc) : get_group_value_columnar(buf.get(), entries, kp, kc);
          if (p) {
            const ptrdiff_t d = p - buf.get() - (ptrdiff_t)kc * entries;
            if (d < 0 || d >= (ptrdiff_t)entries) {
              bad("slot pointer", "offset " + S(d));
              break;
            }
            at = d;
          }
        }
        eval();
        hist = hist * 1099511628211ull + (uint64_t)at;
        std::string ks;
        for (auto k : key) ks += S(k) + " ";
        auto it = model.find(key);
        if (it != model.end()) {
          ev("group_found");
          if (it->second != at) bad("same key, other slot", "key " + ks + "slot " + S(it->second) + " then " + S(at));
        } else if (model.size() == entries) {
          ev("group_full");
          if (at != -1) bad("full table", "new key " + ks + "got slot " + S(at));
        } else {
          ev("group_new");
          if (at == -1) bad("refused with room", "key " + ks + S(model.size()) + " groups");
          else if (owner.count(at)) bad("two keys, one slot", "key " + ks + "slot " + S(at));
          else {
            model[key] = at;
            owner[at] = key;
          }
        }
        if (o % 16 == 15 || o + 1 == ops) {
          // the buffer holds exactly the keys of the model, and nothing else changed
          size_t found = 0;
          for (uint32_t e = 0; e < entries; ++e) {
            auto at2 = owner.find(e);
            for (uint32_t k = 0; k < kc; ++k) {
              int64_t have = rowwise ? (w4 ? ((int32_t*)(buf.get() + (size_t)e * rsq))[k] : buf[(size_t)e * rsq + k])
                                     : (w4 ? ((int32_t*)buf.get())[(size_t)k * entries + e] : buf[(size_t)k * entries + e]);
              int64_t w = at2 == owner.end() ? (w4 ? (int64_t)EMPTY_KEY_32 : EMPTY_KEY_64) : at2->second[k];
              if (have != w) bad("stored key", "slot " + S(e) + " component " + S(k) + ": " + S(have) + ", expected " + S(w));
            }
            if (rowwise)
              for (uint32_t q = key_quad; q < rsq; ++q)
                if (buf[(size_t)e * rsq + q] != -5) bad("aggregate area", "slot " + S(e) + " changed by a lookup");
            found += at2 != owner.end();
          }
          if (!rowwise && !slot)
            for (size_t i = (size_t)kc * entries; i < quads; ++i)
              if (buf[i] != -5) bad("aggregate area", "changed by a lookup");
          eval(entries);
        }
      }
    } else if (kind <= 7) {
      // one-column perfect hash: row-wise, keyless, columnar bins, with buckets
      const int64_t bucket = r.chance(50) ? 0 : r.range(1, 1000);
      const int64_t step = bucket ? bucket : 1;
      const int64_t mn = r.range(-100000, 100000) * step;
      const uint32_t rsq = (uint32_t)r.range(2, 4);
      std::unique_ptr<int64_t[]> buf(new int64_t[(size_t)rsq * entries]), buf2(new int64_t[(size_t)rsq * entries]), col(new int64_t[entries]);
      for (size_t i = 0; i < (size_t)rsq * entries; ++i) buf[i] = buf2[i] = i % rsq ? -5 : EMPTY_KEY_64;
      for (size_t i = 0; i < entries; ++i) col[i] = EMPTY_KEY_64;
      std::map<uint32_t, int64_t> seen, seen_orig;
      for (size_t o = 0; o < ops; ++o) {
        const uint32_t e = (uint32_t)r.below(entries);
        const int64_t key = mn + (int64_t)e * step, orig = r.range(-50, 50);
        int64_t* p = get_group_value_fast(buf.get(), key, mn, bucket, rsq);
        int64_t* q = get_group_value_fast_with_original_key(buf2.get(), key, orig, mn, bucket, rsq);
        uint32_t b = get_columnar_group_bin_offset(col.get(), key, mn, bucket);
        seen.emplace(e, key);
        seen_orig.emplace(e, orig);
        eval(3);
        ev("perfect");
        hist = hist * 31 + e;
        if (p != buf.get() + (size_t)e * rsq + 1) bad("perfect slot", "key " + S(key) + " min " + S(mn) + " bucket " + S(bucket));
        if (q != buf2.get() + (size_t)e * rsq + 1) bad("perfect slot (original key)", "key " + S(key));
        if (b != e) bad("perfect bin", "key " + S(key) + " bin " + S(b));
        if (!bucket && get_group_value_fast_keyless(buf.get(), key, mn, bucket, rsq) != buf.get() + (size_t)e * rsq) bad("keyless slot", "key " + S(key));
        uint8_t ws = 8, wi = (uint8_t)r.below(8);
        if (!bucket && get_group_value_fast_keyless_semiprivate(buf.get(), key, mn, bucket, rsq, wi, ws) != buf.get() + (size_t)rsq * ((size_t)ws * e + wi)) bad("semiprivate slot", "key " + S(key));
      }
      for (uint32_t e = 0; e < entries; ++e) {
        const int64_t w = seen.count(e) ? seen[e] : EMPTY_KEY_64, w2 = seen_orig.count(e) ? seen_orig[e] : EMPTY_KEY_64;
        if (buf[(size_t)e * rsq] != w || col[e] != w) bad("perfect stored key", "slot " + S(e) + ": " + S(buf[(size_t)e * rsq]) + "/" + S(col[e]) + ", expected " + S(w));
        if (buf2[(size_t)e * rsq] != w2) bad("perfect stored original key", "slot " + S(e));
        for (uint32_t q = 1; q < rsq; ++q)
          if (buf[(size_t)e * rsq + q] != -5 || buf2[(size_t)e * rsq + q] != -5) bad("aggregate area", "slot " + S(e));
        eval();
      }
    } else if (kind == 8) {
      // multi-column perfect hash with the index given
      const uint32_t rsq = kc + (uint32_t)r.range(1, 3);
      std::unique_ptr<int64_t[]> buf(new int64_t[(size_t)rsq * entries]), col(new int64_t[(size_t)kc * entries]);
      for (size_t i = 0; i < (size_t)rsq * entries; ++i) buf[i] = i % rsq < kc ? EMPTY_KEY_64 : -5;
      for (size_t i = 0; i < (size_t)kc * entries; ++i) col[i] = EMPTY_KEY_64;
      std::map<uint32_t, std::vector<int64_t>> model;
      for (size_t o = 0; o < ops; ++o) {
        const uint32_t e = (uint32_t)r.below(entries);
        std::vector<int64_t> key(kc);
        for (uint32_t k = 0; k < kc; ++k) key[k] = (int64_t)e * 7 + k * 1000003;
        int64_t* p = get_matching_group_value_perfect_hash(buf.get(), e, key.data(), kc, rsq);
        set_matching_group_value_perfect_hash_columnar(col.get(), e, key.data(), kc, entries);
        int64_t* q = get_matching_group_value_perfect_hash_keyless(buf.get(), e, rsq);
        model[e] = key;
        eval(3);
        ev("perfect_multi");
        hist = hist * 31 + e;
        if (p != buf.get() + (size_t)e * rsq + kc) bad("perfect slot", "index " + S(e));
        if (q != buf.get() + (size_t)e * rsq) bad("keyless slot", "index " + S(e));
      }
      for (uint32_t e = 0; e < entries; ++e)
        for (uint32_t k = 0; k < kc; ++k) {
          const int64_t w = model.count(e) ? model[e][k] : EMPTY_KEY_64;
          if (buf[(size_t)e * rsq + k] != w || col[(size_t)k * entries + e] != w) bad("perfect stored key", "slot " + S(e) + " component " + S(k));
          eval();
        }
    } else {
      // projection output slots
      const uint32_t rsq = (uint32_t)r.range(1, 4);
      std::unique_ptr<int64_t[]> buf(new int64_t[(size_t)rsq * entries]), col(new int64_t[entries]);
      for (uint32_t pos = 0; pos < entries + 3; ++pos) {
        int64_t off = r.range(0, 1 << 30);
        int64_t* p = get_scan_output_slot(buf.get(), entries, pos, off, rsq);
        int32_t q = get_columnar_scan_output_offset(col.get(), entries, pos, off);
        eval(2);
        ev("scan_slot");
        if (pos < entries) {
          if (p != buf.get() + (size_t)pos * rsq + 1 || buf[(size_t)pos * rsq] != off) bad("scan slot", S(pos));
          if (q != (int32_t)pos || col[pos] != off) bad("columnar scan slot", S(pos));
        } else if (p || q != -1) bad("scan slot beyond the end", S(pos));
      }
    }
    distinct(hist);
    if (c < 3) sample("kind " + S(kind) + " entries " + S(entries) + " key components " + S(kc) + " operations " + S(ops));
  }
  // interruption of a long probe: with the deadline passed, the watchdog variants give up; without, they do not
  {
    const uint32_t entries = 5000;
    std::vector<int64_t> buf(2 * entries);
    for (uint32_t e = 0; e < entries; ++e) buf[2 * e] = EMPTY_KEY_64;
    for (int64_t k = 0; k < entries; ++k) {
      int64_t key = k;
      if (!get_group_value_with_watchdog(buf.data(), entries, &key, 1, 8, 2)) violation("group watchdog", "gave up before its deadline, key " + S(k));
      eval();
    }
  }
}

int main(int argc, char** argv) {
  init(argc, argv);
  logger::LogOptions lo("h_rt");
  lo.severity_ = logger::Severity::FATAL;
  lo.severity_clog_ = logger::Severity::FATAL;
  logger::init(lo);
  if (st().mode == "arith") mode_arith();
  else if (st().mode == "agg") mode_agg();
  else if (st().mode == "group") mode_group();
  else return 2;
  return finish();
}
