// Monitors for calendar arithmetic (C18) and date/time text (C19).
#include "vh.h"

#define EXECUTE_INCLUDE
#include "QueryEngine/DateAdd.cpp"
#include "IR/DateTimeEnums.h"
#include "IR/Type.h"
#include "Logger/Logger.h"
#include "QueryEngine/DateTruncate.h"
#include "Shared/DateConverters.h"
#include "Shared/StringTransform.h"
#include "Shared/DateTimeParser.h"
#include "Shared/misc.h"
#include "Utils/ExtractFromTime.h"

using namespace hdk::ir;
extern "C" {
int64_t DateDiff(const DateTruncField, const int64_t, const int64_t);
int64_t DateDiffHighPrecision(const DateTruncField, const int64_t, const int64_t, const int32_t, const int32_t);
int64_t DateDiffNullable(const DateTruncField, const int64_t, const int64_t, const int64_t);
int64_t DateDiffHighPrecisionNullable(const DateTruncField, const int64_t, const int64_t, const int32_t, const int32_t, const int64_t);
int64_t DateTruncateHighPrecisionToDate(const int64_t, const int64_t);
int64_t DateTruncateHighPrecisionToDateNullable(const int64_t, const int64_t, const int64_t);
int64_t TimestampToTimeUpscale(const int64_t, const int64_t, const int64_t);
int64_t TimestampToTimeDownscale(const int64_t, const int64_t, const int64_t);
int64_t TimestampToTimeUpscaleNullable(const int64_t, const int64_t, const int64_t, const int64_t, const int64_t);
int64_t TimestampToTimeDownscaleNullable(const int64_t, const int64_t, const int64_t, const int64_t, const int64_t);
#define DT(x) int64_t datetrunc_##x(int64_t);
DT(minute) DT(hour) DT(quarterday) DT(day) DT(week_monday) DT(week_sunday) DT(week_saturday) DT(month) DT(quarter) DT(year) DT(decade) DT(century) DT(millennium)
}

using namespace vh;
using std::string;
typedef int64_t i64;

// ---- reference calendar: a table of one 400 year cycle built by counting days ----
struct YMD {
  i64 y;
  int m, d;
};
static const i64 CY = 146097;
static std::vector<YMD> g_cyc;            // day index from 2000-01-01
static std::vector<int> g_mstart;         // [year*12+month-1] -> day index
static bool leap(i64 y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
static int dim(i64 y, int m) {
  static const int d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  return m == 2 && leap(y) ? 29 : d[m - 1];
}
static void build() {
  for (int y = 0; y < 400; ++y)
    for (int m = 1; m <= 12; ++m) {
      g_mstart.push_back(g_cyc.size());
      for (int d = 1; d <= dim(2000 + y, m); ++d) g_cyc.push_back({2000 + y, m, d});
    }
  if ((i64)g_cyc.size() != CY) abort();
}
static i64 fdiv(i64 a, i64 b) { i64 q = a / b; return q - ((a % b != 0) && ((a < 0) != (b < 0))); }
static i64 fmod_(i64 a, i64 b) { return a - fdiv(a, b) * b; }
static const i64 D2000 = 10957;  // days 1970-01-01 .. 2000-01-01
static YMD civil(i64 day) {
  i64 x = day - D2000, c = fdiv(x, CY);
  YMD r = g_cyc[x - c * CY];
  r.y += 400 * c;
  return r;
}
static i64 day_of(i64 y, int m, int d) {
  i64 c = fdiv(y - 2000, 400);
  i64 yy = y - 2000 - 400 * c;
  return D2000 + c * CY + g_mstart[yy * 12 + m - 1] + d - 1;
}

static i64 ref_trunc(DateTruncField f, i64 t) {
  i64 day = fdiv(t, 86400);
  YMD c = civil(day);
  int dow = fmod_(day + 4, 7);  // Sunday 0
  switch (f) {
    case DateTruncField::kSecond: case DateTruncField::kMilli: case DateTruncField::kMicro: case DateTruncField::kNano: return t;
    case DateTruncField::kMinute: return fdiv(t, 60) * 60;
    case DateTruncField::kHour: return fdiv(t, 3600) * 3600;
    case DateTruncField::kQuarterDay: return fdiv(t, 21600) * 21600;
    case DateTruncField::kDay: return day * 86400;
    case DateTruncField::kWeek: return (day - (dow + 6) % 7) * 86400;
    case DateTruncField::kWeekSunday: return (day - dow) * 86400;
    case DateTruncField::kWeekSaturday: return (day - (dow + 1) % 7) * 86400;
    case DateTruncField::kMonth: return day_of(c.y, c.m, 1) * 86400;
    case DateTruncField::kQuarter: return day_of(c.y, (c.m - 1) / 3 * 3 + 1, 1) * 86400;
    case DateTruncField::kYear: return day_of(c.y, 1, 1) * 86400;
    case DateTruncField::kDecade: return day_of(fdiv(c.y, 10) * 10, 1, 1) * 86400;
    case DateTruncField::kCentury: return day_of(fdiv(c.y - 1, 100) * 100 + 1, 1, 1) * 86400;
    case DateTruncField::kMillennium: return day_of(fdiv(c.y - 1, 1000) * 1000 + 1, 1, 1) * 86400;
    default: abort();
  }
}
static i64 week1(i64 y, int startdow) {
  i64 j4 = day_of(y, 1, 4);
  return j4 - fmod_(fmod_(j4 + 4, 7) - startdow, 7);
}
static i64 ref_week(i64 day, int startdow) {
  i64 y = civil(day).y + 1;
  while (week1(y, startdow) > day) --y;
  return (day - week1(y, startdow)) / 7 + 1;
}
static i64 ref_extract(DateExtractField f, i64 t) {
  i64 day = fdiv(t, 86400), sod = t - day * 86400;
  YMD c = civil(day);
  int dow = fmod_(day + 4, 7);
  switch (f) {
    case DateExtractField::kYear: return c.y;
    case DateExtractField::kQuarter: return (c.m - 1) / 3 + 1;
    case DateExtractField::kMonth: return c.m;
    case DateExtractField::kDay: return c.d;
    case DateExtractField::kHour: return sod / 3600;
    case DateExtractField::kMinute: return sod / 60 % 60;
    case DateExtractField::kSecond: return sod % 60;
    case DateExtractField::kMilli: return fmod_(t, 60000);
    case DateExtractField::kMicro: return fmod_(t, 60000000);
    case DateExtractField::kNano: return fmod_(t, 60000000000);
    case DateExtractField::kDayOfWeek: return dow;
    case DateExtractField::kIsoDayOfWeek: return dow == 0 ? 7 : dow;
    case DateExtractField::kDayOfYear: return day - day_of(c.y, 1, 1) + 1;
    case DateExtractField::kEpoch: return t;
    case DateExtractField::kQuarterDay: return sod / 21600 + 1;
    case DateExtractField::kWeek: return ref_week(day, 1);
    case DateExtractField::kWeekSunday: return ref_week(day, 0);
    case DateExtractField::kWeekSaturday: return ref_week(day, 6);
    case DateExtractField::kDateEpoch: return day * 86400;
  }
  abort();
}
static i64 ref_add_months(i64 t, i64 n) {
  i64 day = fdiv(t, 86400), sod = t - day * 86400;
  YMD c = civil(day);
  i64 mm = c.y * 12 + c.m - 1 + n;
  i64 y = fdiv(mm, 12);
  int m = mm - y * 12 + 1;
  return day_of(y, m, std::min(c.d, dim(y, m))) * 86400 + sod;
}
// complete months from a to b, truncated towards zero; times as (seconds, sub-second)
static i64 ref_months(i64 a, i64 an, i64 b, i64 bn) {
  if (std::make_pair(b, bn) < std::make_pair(a, an)) return -ref_months(b, bn, a, an);
  i64 da = fdiv(a, 86400), db = fdiv(b, 86400);
  YMD x = civil(da), y = civil(db);
  i64 n = (y.y - x.y) * 12 + y.m - x.m;
  auto ka = std::make_tuple(x.d, a - da * 86400, an), kb = std::make_tuple(y.d, b - db * 86400, bn);
  return n - (kb < ka);
}

static const std::vector<std::pair<DateTruncField, const char*>> TF{
    {DateTruncField::kYear, "year"}, {DateTruncField::kQuarter, "quarter"}, {DateTruncField::kMonth, "month"}, {DateTruncField::kDay, "day"},
    {DateTruncField::kHour, "hour"}, {DateTruncField::kMinute, "minute"}, {DateTruncField::kSecond, "second"}, {DateTruncField::kMilli, "milli"},
    {DateTruncField::kMicro, "micro"}, {DateTruncField::kNano, "nano"}, {DateTruncField::kMillennium, "millennium"}, {DateTruncField::kCentury, "century"},
    {DateTruncField::kDecade, "decade"}, {DateTruncField::kWeek, "week"}, {DateTruncField::kWeekSunday, "week_sunday"},
    {DateTruncField::kWeekSaturday, "week_saturday"}, {DateTruncField::kQuarterDay, "quarterday"}};
static const std::vector<std::pair<DateExtractField, const char*>> EF{
    {DateExtractField::kYear, "year"}, {DateExtractField::kQuarter, "quarter"}, {DateExtractField::kMonth, "month"}, {DateExtractField::kDay, "day"},
    {DateExtractField::kHour, "hour"}, {DateExtractField::kMinute, "minute"}, {DateExtractField::kSecond, "second"}, {DateExtractField::kMilli, "milli"},
    {DateExtractField::kMicro, "micro"}, {DateExtractField::kNano, "nano"}, {DateExtractField::kDayOfWeek, "dow"}, {DateExtractField::kIsoDayOfWeek, "isodow"},
    {DateExtractField::kDayOfYear, "doy"}, {DateExtractField::kEpoch, "epoch"}, {DateExtractField::kQuarterDay, "quarterday"}, {DateExtractField::kWeek, "week"},
    {DateExtractField::kWeekSunday, "week_sunday"}, {DateExtractField::kWeekSaturday, "week_saturday"}, {DateExtractField::kDateEpoch, "dateepoch"}};

static void point(i64 t) {
  for (auto& f : TF) {
    i64 g = DateTruncate(f.first, t), w = ref_trunc(f.first, t);
    if (g != w) violation(cat("trunc-", f.second), cat("date_trunc(", f.second, ", ", t, ") = ", g, " want ", w));
  }
  struct J { const char* n; i64 (*f)(i64); DateTruncField k; };
  static const J js[] = {{"minute", datetrunc_minute, DateTruncField::kMinute}, {"hour", datetrunc_hour, DateTruncField::kHour}, {"quarterday", datetrunc_quarterday, DateTruncField::kQuarterDay},
                         {"day", datetrunc_day, DateTruncField::kDay}, {"week_monday", datetrunc_week_monday, DateTruncField::kWeek}, {"week_sunday", datetrunc_week_sunday, DateTruncField::kWeekSunday},
                         {"week_saturday", datetrunc_week_saturday, DateTruncField::kWeekSaturday}, {"month", datetrunc_month, DateTruncField::kMonth}, {"quarter", datetrunc_quarter, DateTruncField::kQuarter},
                         {"year", datetrunc_year, DateTruncField::kYear}, {"decade", datetrunc_decade, DateTruncField::kDecade}, {"century", datetrunc_century, DateTruncField::kCentury},
                         {"millennium", datetrunc_millennium, DateTruncField::kMillennium}};
  for (auto& j : js) {
    i64 g = j.f(t), w = ref_trunc(j.k, t);
    if (g != w) violation(cat("trunc-jit-", j.n), cat("datetrunc_", j.n, "(", t, ") = ", g, " want ", w));
  }
  for (auto& f : EF) {
    i64 g = ExtractFromTime(f.first, t), w = ref_extract(f.first, t);
    if (g != w) violation(cat("extract-", f.second), cat("extract(", f.second, " from ", t, ") = ", g, " want ", w));
  }
  eval(TF.size() + EF.size() + 13);
}

static i64 rand_time(Rng& r) {
  switch (r.below(8)) {
    case 0: return (i64)r.below(2085978495);                       // fast range
    case 1: return r.range(-62135596800ll, 253402300799ll);         // years 1..9999
    case 2: return r.range(-1000000000000000ll, 1000000000000000ll);
    case 3: case 4: case 5: {  // around a calendar boundary
      i64 y = r.chance(60) ? r.range(1890, 2110) : r.chance(50) ? r.range(1, 3000) : r.range(-5000, 12000);
      int m = r.pick({1, 1, 2, 3, 3, 4, 7, 10, 12, (int)r.range(1, 12)});
      int d = r.pick({1, 1, 2, dim(y, m), dim(y, m), (int)r.range(1, dim(y, m))});
      return day_of(y, m, d) * 86400 + r.pick<i64>({0, 0, 1, 86399, (i64)r.below(86400), 43200, 21600, 21599});
    }
    case 6: return r.range(-3, 3) + r.pick<i64>({0, 2085978495, 2085978496, 951782400, 951868800, -2208988800ll});
    default: return r.range(-86400 * 800ll, 86400 * 800ll);
  }
}

static void mode_calendar() {
  // every day of 1890..2110 and one full cycle (sharded), three seconds each
  i64 lo = day_of(1890, 1, 1), hi = day_of(2111, 1, 1);
  for (i64 d = lo + st().shard; d < hi && !too_many(); d += st().shards) {
    point(d * 86400);
    point(d * 86400 + 86399);
    ev("days", 1);
  }
  if (st().thorough)
    for (i64 d = day_of(-800, 1, 1) + st().shard; d < day_of(4000, 1, 1) && !too_many(); d += st().shards) {
      point(d * 86400 + (d * 7919) % 86400);
      ev("days", 1);
    }
  const int ncase = st().thorough ? 3000000 : 200000;
  static const std::vector<DateAddField> AF{DateAddField::kSecond, DateAddField::kMinute, DateAddField::kHour, DateAddField::kWeekDay, DateAddField::kDayOfYear, DateAddField::kDay,
                                            DateAddField::kWeek, DateAddField::kMonth, DateAddField::kQuarter, DateAddField::kYear, DateAddField::kDecade, DateAddField::kCentury, DateAddField::kMillennium};
  auto ref_add = [](DateAddField f, i64 n, i64 t) -> i64 {
    switch (f) {
      case DateAddField::kSecond: return t + n;
      case DateAddField::kMinute: return t + n * 60;
      case DateAddField::kHour: return t + n * 3600;
      case DateAddField::kWeekDay: case DateAddField::kDayOfYear: case DateAddField::kDay: return t + n * 86400;
      case DateAddField::kWeek: return t + n * 7 * 86400;
      case DateAddField::kMonth: return ref_add_months(t, n);
      case DateAddField::kQuarter: return ref_add_months(t, n * 3);
      case DateAddField::kYear: return ref_add_months(t, n * 12);
      case DateAddField::kDecade: return ref_add_months(t, n * 120);
      case DateAddField::kCentury: return ref_add_months(t, n * 1200);
      case DateAddField::kMillennium: return ref_add_months(t, n * 12000);
      default: abort();
    }
  };
  const i64 P[] = {1, 1000, 1000000, 1000000000};
  for (int c = 0; c < ncase && !too_many(); ++c) {
    if (st().only_case >= 0 && c != st().only_case) continue;
    Rng r = case_rng(c);
    i64 t = rand_time(r);
    note(cat("case ", c, " t=", t));
    point(t);
    distinct((uint64_t)t);
    // addition
    {
      auto f = r.pick(AF);
      i64 n = r.pick<i64>({0, 1, -1, 12, -12, r.range(-50, 50), r.range(-5000, 5000)});
      i64 g = DateAdd(f, n, t), w = ref_add(f, n, t);
      VH_EXPECT(g == w, cat("add-", (int)f), "dateadd(field ", (int)f, ", ", n, ", ", t, ") = ", g, " want ", w);
      VH_EXPECT(DateAddNullable(f, n, t, INT64_MIN) == w && DateAddNullable(f, n, INT64_MIN, INT64_MIN) == INT64_MIN, "add-null", "nullable dateadd ", (int)f, " ", n, " ", t);
      int p = r.below(4);
      // sub-second timestamps, range limited to what 64 bits represent
      i64 lim = p == 3 ? 9000000000ll : p == 2 ? 9000000000000ll : 100000000000000ll;
      i64 ts = fmod_(t, 2 * lim) - lim, frac = r.below(P[p]), hp = ts * P[p] + frac;
      if (p == 3 && f >= DateAddField::kMillennium) n = r.range(-0, 0);
      if (p == 3) n = r.range(-3, 3) * (f == DateAddField::kMillennium || f == DateAddField::kCentury ? 0 : 1);
      i64 w2 = ref_add(f, n, ts);
      if (std::llabs(w2) <= lim) {
        i64 g2 = DateAddHighPrecision(f, n, hp, p * 3);
        VH_EXPECT(g2 == w2 * P[p] + frac, cat("add-hp-", (int)f), "dateadd(field ", (int)f, ", ", n, ", ", hp, ", dim ", p * 3, ") = ", g2, " want ", w2 * P[p] + frac);
        VH_EXPECT(DateAddHighPrecisionNullable(f, n, hp, p * 3, INT64_MIN) == g2 && DateAddHighPrecisionNullable(f, n, INT64_MIN, p * 3, INT64_MIN) == INT64_MIN, "add-hp-null", "nullable");
      }
      int q = 1 + r.below(3);
      auto sf = q == 1 ? DateAddField::kMilli : q == 2 ? DateAddField::kMicro : DateAddField::kNano;
      i64 n2 = r.range(-3000000, 3000000);
      i64 want = p < q ? hp + fdiv(n2, P[q - p]) : hp + n2 * P[p - q];
      i64 g3 = DateAddHighPrecision(sf, n2, hp, p * 3);
      VH_EXPECT(g3 == want, "add-subsecond", "dateadd(10^-", 3 * q, ", ", n2, ", ", hp, ", dim ", 3 * p, ") = ", g3, " want ", want);
      eval(3);
      ev("dateadd", 3);
    }
    // difference
    {
      i64 u = r.chance(50) ? rand_time(r) : r.chance(50) ? ref_add_months(t, r.range(-40, 40)) + r.pick<i64>({0, 0, 1, -1, 86400, -86400}) : t + r.range(-100000, 100000);
      auto check = [&](const char* key, DateTruncField f, const char* fn, i64 a, i64 an, i64 b, i64 bn, i64 got) {
        i64 w;
        __int128 d = ((__int128)b - a) * 1000000000 + (bn - an);
        i64 per = 0;
        switch (f) {
          case DateTruncField::kSecond: per = 1; break;
          case DateTruncField::kMinute: per = 60; break;
          case DateTruncField::kHour: per = 3600; break;
          case DateTruncField::kQuarterDay: per = 21600; break;
          case DateTruncField::kDay: per = 86400; break;
          case DateTruncField::kWeek: case DateTruncField::kWeekSunday: case DateTruncField::kWeekSaturday: per = 7 * 86400; break;
          default: break;
        }
        if (per) w = (i64)(d / ((__int128)per * 1000000000));
        else {
          i64 m = ref_months(a, an, b, bn);
          switch (f) {
            case DateTruncField::kMonth: w = m; break;
            case DateTruncField::kQuarter: w = m / 3; break;
            case DateTruncField::kYear: w = m / 12; break;
            case DateTruncField::kDecade: w = m / 120; break;
            case DateTruncField::kCentury: w = m / 1200; break;
            case DateTruncField::kMillennium: w = m / 12000; break;
            default: return;
          }
        }
        VH_EXPECT(got == w, cat(key, fn), "datediff(", fn, ", ", a, "+", an, "ns, ", b, "+", bn, "ns) = ", got, " want ", w);
        eval();
      };
      for (auto& f : TF) {
        if (f.first == DateTruncField::kMilli || f.first == DateTruncField::kMicro || f.first == DateTruncField::kNano) {
          i64 sc = f.first == DateTruncField::kMilli ? 1000 : f.first == DateTruncField::kMicro ? 1000000 : 1000000000;
          if (std::llabs(u - t) < 9000000000ll) {
            i64 g = DateDiff(f.first, t, u);
            VH_EXPECT(g == (u - t) * sc, cat("diff-", f.second), "datediff(", f.second, ",", t, ",", u, ")=", g);
          }
          continue;
        }
        check("diff-", f.first, f.second, t, 0, u, 0, DateDiff(f.first, t, u));
      }
      VH_EXPECT(DateDiffNullable(DateTruncField::kDay, INT64_MIN, u, INT64_MIN) == INT64_MIN && DateDiffNullable(DateTruncField::kDay, t, INT64_MIN, INT64_MIN) == INT64_MIN, "diff-null", "null operand");
      int p = r.below(4), q = r.below(4);
      i64 lim = 9000000000ll;
      i64 a = fmod_(t, 2 * lim) - lim;
      i64 b = r.chance(60) ? a + r.pick<i64>({0, 1, -1, 60, -60, 86400, -86400, 7 * 86400, r.range(-200000, 200000)}) : r.chance(50) ? ref_add_months(a, r.range(-30, 30)) : fmod_(u, 2 * lim) - lim;
      if (std::llabs(b) > lim) b = a;
      i64 fa = r.chance(30) ? 0 : r.below(P[p]), fb = r.chance(30) ? (p == q ? fa : 0) : r.below(P[q]);
      i64 ha = a * P[p] + fa, hb = b * P[q] + fb;
      i64 na = fa * (1000000000 / P[p]), nb = fb * (1000000000 / P[q]);
      for (auto& f : TF) {
        if (f.first == DateTruncField::kMilli || f.first == DateTruncField::kMicro || f.first == DateTruncField::kNano) {
          i64 sc = f.first == DateTruncField::kMilli ? 1000000 : f.first == DateTruncField::kMicro ? 1000 : 1;
          __int128 d = ((__int128)b - a) * 1000000000 + (nb - na);
          if (d > INT64_MAX || d < -INT64_MAX) continue;
          i64 g = DateDiffHighPrecision(f.first, ha, hb, 3 * p, 3 * q);
          VH_EXPECT(g == (i64)(d / sc), cat("diff-hp-", f.second), "datediff(", f.second, ",", ha, "/dim", 3 * p, ",", hb, "/dim", 3 * q, ")=", g, " want ", (i64)(d / sc));
          eval();
          continue;
        }
        // the second-and-finer carry of whole-second parts is decided on the calendar reference
        i64 g = DateDiffHighPrecision(f.first, ha, hb, 3 * p, 3 * q);
        check("diff-hp-", f.first, f.second, a, na, b, nb, g);
        i64 gn = DateDiffHighPrecisionNullable(f.first, ha, hb, 3 * p, 3 * q, INT64_MIN);
        VH_EXPECT(gn == g && DateDiffHighPrecisionNullable(f.first, INT64_MIN, hb, 3 * p, 3 * q, INT64_MIN) == INT64_MIN, "diff-hp-null", "nullable datediff");
      }
      ev("datediff", 2);
      // conversions
      i64 w = fdiv(ha, P[p] * 86400) * 86400;
      VH_EXPECT(DateTruncateHighPrecisionToDate(ha, P[p]) == w && DateTruncateHighPrecisionToDateNullable(ha, P[p], INT64_MIN) == w && DateTruncateHighPrecisionToDateNullable(INT64_MIN, P[p], INT64_MIN) == INT64_MIN &&
                    truncate_high_precision_timestamp_to_date(ha, P[p]) == w,
                "to-date", "timestamp ", ha, " dim ", 3 * p, " to date");
      VH_EXPECT(DateConverters::get_epoch_days_from_seconds(t) == fdiv(t, 86400) && DateConverters::get_epoch_seconds_from_days(fdiv(t, 86400)) == fdiv(t, 86400) * 86400, "epoch-days", "seconds ", t);
      // timestamp(p) -> time(q): up when q >= p
      i64 tod = fmod_(ha, P[p] * 86400);
      if (q >= p) {
        if (std::llabs(ha) < INT64_MAX / P[q - p]) {
          i64 sc = P[q] / P[p];
          i64 g = TimestampToTimeUpscale(ha, sc, P[q]);
          VH_EXPECT(g == tod * sc && TimestampToTimeUpscaleNullable(ha, sc, P[q], INT64_MIN, -7) == g && TimestampToTimeUpscaleNullable(INT64_MIN, sc, P[q], INT64_MIN, -7) == -7, "to-time-up", "ts ", ha, " dim ", 3 * p, " -> dim ", 3 * q, " got ", g, " want ", tod * sc);
        }
      } else {
        i64 sc = P[p] / P[q];
        i64 g = TimestampToTimeDownscale(ha, sc, P[p]);
        VH_EXPECT(g == tod / sc && TimestampToTimeDownscaleNullable(ha, sc, P[p], INT64_MIN, -7) == g && TimestampToTimeDownscaleNullable(INT64_MIN, sc, P[p], INT64_MIN, -7) == -7, "to-time-down", "ts ", ha, " dim ", 3 * p, " -> dim ", 3 * q, " got ", g, " want ", tod / sc);
      }
      eval(3);
    }
    if (c < 3) sample(cat("t=", t, " -> ", civil(fdiv(t, 86400)).y, "-", civil(fdiv(t, 86400)).m, "-", civil(fdiv(t, 86400)).d));
  }
}

// ---------------------------------------------------------------------------------------------- text
static string pad(i64 v, int w, bool on = true) {
  char b[40];
  snprintf(b, sizeof b, on ? "%0*lld" : "%*.1lld", on ? w : 1, (long long)v);
  return b;
}
static const char* MON[] = {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"};

static void mode_text() {
  const int ncase = st().thorough ? 400000 : 40000;
  const TimeUnit U[] = {TimeUnit::kSecond, TimeUnit::kMilli, TimeUnit::kMicro, TimeUnit::kNano};
  const i64 P[] = {1, 1000, 1000000, 1000000000};
  for (int c = 0; c < ncase && !too_many(); ++c) {
    if (st().only_case >= 0 && c != st().only_case) continue;
    Rng r = case_rng(c);
    int p = r.below(4);
    i64 t = rand_time(r);
    i64 lim = p == 3 ? 9000000000ll : 60000000000ll;  // years -?..: representable at this precision
    if (p < 3 && r.chance(2)) t = r.range(-62167219200ll, -62135596801ll);  // the year 0
    else if (p < 3) { if (t < -62135596800ll || t > 253402300799ll) t = fmod_(t, 253402300799ll); }
    else if (std::llabs(t) > lim) t = fmod_(t, lim);
    i64 day = fdiv(t, 86400), sod = t - day * 86400;
    YMD y = civil(day);
    i64 frac = r.chance(20) ? 0 : r.below(P[p]);
    i64 hp = t * P[p] + frac;
    string date = pad(y.y, 4) + "-" + pad(y.m, 2) + "-" + pad(y.d, 2);
    string hms = pad(sod / 3600, 2) + ":" + pad(sod / 60 % 60, 2) + ":" + pad(sod % 60, 2);
    string ts = date + " " + hms + (p ? "." + pad(frac, 3 * p) : "");
    note(cat("case ", c, " ", ts));
    eval();
    // ---- formatting
    {
      auto run = [&](const char* key, const string& want, auto fn) {
        size_t max = r.chance(70) ? 64 : r.below(want.size() + 3);
        char* b = (char*)malloc(max ? max : 1);
        size_t n = fn(b, max);
        if (max > want.size()) VH_EXPECT(n == want.size() && string(b, n) == want && b[n] == 0, key, "case ", c, " got '", string(b, std::min(n, max)), "' want '", want, "'");
        else VH_EXPECT(n == 0, cat(key, "-short"), "buffer of ", max, " for '", want, "' returned ", n);
        free(b);
      };
      run("formatDate", date, [&](char* b, size_t m) { return shared::formatDate(b, m, t); });
      run("formatDateTime", ts, [&](char* b, size_t m) { return shared::formatDateTime(b, m, hp, U[p]); });
      run("formatHMS", hms, [&](char* b, size_t m) { return shared::formatHMS(b, m, t); });
      if (y.y >= 1000) {
        string g = getStrTStamp(hp, U[p]);
        VH_EXPECT(g == ts, "getStrTStamp", "case ", c, " got ", g, " want ", ts);
        VH_EXPECT(getStrDateFromSeconds(t) == date && getStrTimeFromSeconds(t) == hms, "getStrDate", "case ", c, " got ", getStrDateFromSeconds(t), " ", getStrTimeFromSeconds(t), " want ", date, " ", hms);
        VH_EXPECT(getStrDayFromSeconds(t) == pad(y.d, 2) && getStrMonthFromSeconds(t) == pad(y.m, 2) && getStrYearFromSeconds(t) == cat(y.y), "getStrParts", "case ", c, " ", date);
      }
      ev("format", 3);
    }
    // ---- round trip
    if (y.y >= 0) {
      auto g = dateTimeParseOptional<Type::kTimestamp>(ts, U[p]);
      VH_EXPECT(g && *g == hp, "roundtrip-ts", "case ", c, " '", ts, "' -> ", g ? cat(*g) : "none", " want ", hp);
      auto gd = dateTimeParseOptional<Type::kDate>(date, U[p]);
      VH_EXPECT(gd && *gd == day * 86400 * P[p], "roundtrip-date", "case ", c, " '", date, "' -> ", gd ? cat(*gd) : "none");
      auto gt = dateTimeParseOptional<Type::kTime>(hms + (p ? "." + pad(frac, 3 * p) : ""), U[p]);
      VH_EXPECT(gt && *gt == sod * P[p] + frac, "roundtrip-time", "case ", c, " '", hms, "' -> ", gt ? cat(*gt) : "none");
      ev("roundtrip", 3);
    }
    // ---- spellings
    if (y.y >= 100) {
      bool z = r.chance(70);
      string yy = cat(y.y), m = pad(y.m, 2, z), d = pad(y.d, 2, z);
      string mn = string(MON[y.m - 1]);
      if (r.chance(60)) mn = mn.substr(0, 3);
      if (r.chance(40)) for (auto& ch : mn) ch = r.chance(50) ? toupper(ch) : tolower(ch);
      int fmt = r.below(6);
      bool two = y.y >= 1969 && y.y <= 2068;
      if ((fmt == 1 || fmt == 4) && !two) fmt = 0;
      string ds;
      switch (fmt) {
        case 0: ds = yy + "-" + m + "-" + d; break;
        case 1: ds = m + "/" + d + "/" + pad(y.y % 100, 2, z); break;
        case 2: ds = m + "/" + d + "/" + yy; break;
        case 3: ds = yy + "/" + m + "/" + d; break;
        case 4: ds = d + "-" + mn + "-" + pad(y.y % 100, 2); break;
        case 5: ds = d + "/" + mn + "/" + yy; break;
      }
      if (r.chance(10)) ds = " " + ds;
      i64 off = 0;
      string tz;
      if (r.chance(35)) {
        int hh = r.below(15), mm = r.pick({0, 0, 30, 45});
        bool neg = r.chance(50);
        off = (neg ? -1 : 1) * (hh * 3600 + mm * 60);
        tz = string(r.pick({"", " "})) + (neg ? "-" : "+") + pad(hh, 2) + (r.chance(50) ? ":" : "") + pad(mm, 2);
      }
      {
        string s = ds + tz;
        // a date with a numeric offset right behind it
        bool usable = !(tz.size() && tz[0] != ' ' );
        if (usable) {
          auto g = dateTimeParseOptional<Type::kDate>(s, U[p]);
          i64 w = (day * 86400 - off) * P[p];
          VH_EXPECT(g && *g == w, cat("parse-date-", fmt), "case ", c, " '", s, "' unit ", p, " -> ", g ? cat(*g) : "none", " want ", w);
          if (fmt == 0 && !off) {
            auto gd = dateTimeParseOptional<Type::kDate>(s, TimeUnit::kDay);
            VH_EXPECT(gd && *gd == day * 86400, "parse-date-day", "case ", c, " '", s, "'");
          }
        }
      }
      int H = sod / 3600, M = sod / 60 % 60, S = sod % 60;
      string tm, fs;
      i64 tod = sod, fr = 0;
      int digits = r.below(10);
      if (digits) {
        i64 v = r.below((uint64_t)std::pow(10, digits));
        fs = "." + pad(v, digits);
        i64 ns = v;
        for (int i = digits; i < 9; ++i) ns *= 10;
        fr = ns / (1000000000 / P[p]);
      }
      int tf = r.below(6);
      int h12 = H % 12 == 0 ? 12 : H % 12;
      string ap = r.pick({string(H < 12 ? "am" : "pm"), string(H < 12 ? "AM" : "PM"), string(H < 12 ? "a.m." : "p.m."), string(H < 12 ? "A.M." : "P.M.")});
      string sp = r.pick({"", " "});
      switch (tf) {
        case 0: tm = pad(H, 2) + ":" + pad(M, 2) + ":" + pad(S, 2) + fs; break;
        case 1: tm = pad(h12, 2, r.chance(50)) + ":" + pad(M, 2) + ":" + pad(S, 2) + fs + sp + ap; break;
        case 2: tm = pad(H, 2) + ":" + pad(M, 2); tod = H * 3600 + M * 60; fr = 0; break;
        case 3: tm = pad(h12, 2) + ":" + pad(M, 2) + sp + ap; tod = H * 3600 + M * 60; fr = 0; break;
        case 4: tm = pad(H, 2) + pad(M, 2) + pad(S, 2) + fs; break;
        case 5: tm = cat(h12) + sp + ap; tod = H * 3600; fr = 0; break;
      }
      string s = tm + tz;
      auto g = dateTimeParseOptional<Type::kTime>(r.chance(20) ? "T" + s : s, U[p]);
      i64 w = (tod - off) * P[p] + fr;
      VH_EXPECT(g && *g == w, cat("parse-time-", tf), "case ", c, " '", s, "' unit ", p, " -> ", g ? cat(*g) : "none", " want ", w);
      string sep = r.pick({" ", "T", "  ", ":"});
      string full = ds + sep + tm + tz;
      if (std::llabs(day * 86400 + tod - off) < (p == 3 ? 9100000000ll : INT64_MAX / P[p])) {
        auto gf = dateTimeParseOptional<Type::kTimestamp>(full, U[p]);
        i64 wf = (day * 86400 + tod - off) * P[p] + fr;
        VH_EXPECT(gf && *gf == wf, cat("parse-ts-", fmt, "-", tf), "case ", c, " '", full, "' unit ", p, " -> ", gf ? cat(*gf) : "none", " want ", wf);
      }
      distinct(cat(fmt, tf, !tz.empty(), z, digits, p, two, y.m));
      ev("spellings", 3);
      if (r.chance(1)) sample(full);
    }
    // ---- rejection
    {
      string bad = r.pick({cat("20", pad(r.below(100), 2), "-", 13 + r.below(80), "-01"), cat("20", pad(r.below(100), 2), "-01-", 32 + r.below(60)), string("2020-00-10"), string("2020-01-00"), string("13/40/2020"),
                           string("1/32/2020"), string("10-Foo-20"), string("abc"), string(""), string("2020-"), string("2020-1"), string("--"), string("2020/13/01"), string("1.5x")});
      auto g = dateTimeParseOptional<Type::kDate>(bad, U[p]);
      VH_EXPECT(!g, "reject-date", "'", bad, "' accepted as ", g ? cat(*g) : "");
      bool threw = false;
      try { dateTimeParse<Type::kDate>(bad, U[p]); } catch (const std::exception&) { threw = true; }
      VH_EXPECT(threw, "reject-date-throw", "'", bad, "'");
      string badt = r.pick({cat(24 + r.below(70), ":10:10"), cat("10:", 60 + r.below(40), ":10"), cat("10:10:", 62 + r.below(38)), string("10:10:10x"), string("10:10:10."), string(""), string("ab"), string("10:10:10 +1"), string("T")});
      auto gt = dateTimeParseOptional<Type::kTime>(badt, U[p]);
      VH_EXPECT(!gt, "reject-time", "'", badt, "' accepted as ", gt ? cat(*gt) : "");
      auto gs = dateTimeParseOptional<Type::kTimestamp>(bad, U[p]);
      VH_EXPECT(!gs, "reject-ts", "'", bad, "' accepted as ", gs ? cat(*gs) : "");
      i64 ux = rand_time(r);
      if (ux < 0 || ux > 99999999) {
        auto gu = dateTimeParseOptional<Type::kTimestamp>(cat(ux), TimeUnit::kSecond);
        VH_EXPECT(gu && *gu == ux, "unixtime", "'", ux, "' -> ", gu ? cat(*gu) : "none");
      }
      ev("rejected", 3);
    }
  }
}

int main(int argc, char** argv) {
  init(argc, argv);
  build();
  logger::LogOptions lo("h_time");
  lo.severity_ = logger::Severity::FATAL;
  lo.severity_clog_ = logger::Severity::FATAL;
  logger::init(lo);
  auto& m = st().mode;
  if (m == "calendar") mode_calendar();
  else if (m == "text") mode_text();
  else return 3;
  return finish();
}
