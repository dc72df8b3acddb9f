// Monitors for string matching (C20), text utilities (C21), work intervals (C35) and SQL text rewriting (C41).
#include "vh.h"
#include "vstr.h"

#include <boost/regex.hpp>
#include <functional>
#include <limits>

#include "Logger/Logger.h"
#include "Shared/Intervals.h"
#include "Shared/MathUtils.h"
#include "Shared/StringTransform.h"
#include "Shared/base64.h"
#include "Shared/misc.h"
#include "Utils/Regexp.h"
#include "Utils/StringLike.h"
#include "Calcite/CalciteAdapter.h"

extern "C" {
int8_t string_like_nullable(const char*, int32_t, const char*, int32_t, char, int8_t);
int8_t string_ilike_nullable(const char*, int32_t, const char*, int32_t, char, int8_t);
int8_t string_like_simple_nullable(const char*, int32_t, const char*, int32_t, int8_t);
int8_t string_ilike_simple_nullable(const char*, int32_t, const char*, int32_t, int8_t);
int8_t string_lt_nullable(const char*, int32_t, const char*, int32_t, int8_t);
int8_t string_le_nullable(const char*, int32_t, const char*, int32_t, int8_t);
int8_t string_gt_nullable(const char*, int32_t, const char*, int32_t, int8_t);
int8_t string_ge_nullable(const char*, int32_t, const char*, int32_t, int8_t);
int8_t string_eq_nullable(const char*, int32_t, const char*, int32_t, int8_t);
int8_t string_ne_nullable(const char*, int32_t, const char*, int32_t, int8_t);
int8_t regexp_like_nullable(const char*, int32_t, const char*, int32_t, char, int8_t);
}

using namespace vh;
using std::string;

// exact-size heap copy, so that one byte past the end is caught by the address sanitizer
struct Buf {
  char* p;
  int n;
  explicit Buf(const string& s) : p((char*)malloc(s.size() ? s.size() : 1)), n(s.size()) {
    memcpy(p, s.data(), s.size());
    if (!n) {
      free(p);
      p = (char*)malloc(1);
    }
  }
  Buf(const Buf&) = delete;
  ~Buf() { free(p); }
};

static void mode_match() {
  const int ncase = st().thorough ? 400000 : 40000;
  const std::vector<string> alphas{"ab", "abAB", "aAbB c1zZ", "a\xc3\xa9z0\xff", string("ab\0c", 4), "ab%_[]\\!"};
  for (int c = 0; c < ncase && !too_many(); ++c) {
    if (st().only_case >= 0 && c != st().only_case) continue;
    Rng r = case_rng(c);
    const string& alpha = r.pick(alphas);
    const char esc = r.pick({'\\', '\\', '\\', '!', '#', 'a'});
    string s = vstr::rand_over(r, alpha, r.pick({0, 2, 5, 9, 20}));
    int kind = r.below(10);
    if (kind < 4) {
      bool wf = r.chance(85);
      string p = vstr::rand_like(r, alpha, esc, wf);
      if (r.chance(25)) {  // derive the pattern from the string: matches are then likely
        p.clear();
        for (char ch : s) {
          if (r.chance(20)) p += '_';
          else if (r.chance(10)) p += '%';
          else if (r.chance(10)) (p += '['), (p += ch == ']' ? 'b' : ch), p += ']';
          else {
            if (strchr("%_[]", ch) && ch) p += esc;
            else if (ch == esc) p += esc;
            p += ch;
          }
          if (r.chance(8)) p += '%';
        }
      }
      bool ic = r.chance(40);
      if (ic)
        for (auto& ch : p) ch = vstr::low(ch);
      const char e2 = ic ? vstr::low(esc) : esc;
      Buf bs(s), bp(p);
      note(cat("case ", c, " like s=", show(s), " p=", show(p), " esc=", e2, " ic=", ic));
      bool want = vstr::like(s, p, e2, ic);
      bool got = ic ? string_ilike(bs.p, bs.n, bp.p, bp.n, e2) : string_like(bs.p, bs.n, bp.p, bp.n, e2);
      eval();
      ev(want ? "like_true" : "like_false");
      VH_EXPECT(got == want, ic ? "ilike" : "like", "case ", c, " s=", show(s), " p=", show(p), " esc=", e2, " got ", got, " want ", want);
      int8_t gn = ic ? string_ilike_nullable(bs.p, bs.n, bp.p, bp.n, e2, -128) : string_like_nullable(bs.p, bs.n, bp.p, bp.n, e2, -128);
      VH_EXPECT(gn == (int8_t)want, "like-nullable", "case ", c, " got ", (int)gn, " want ", want);
      if (r.chance(5)) {
        int8_t nul = r.pick({(int8_t)-128, (int8_t)2});
        int8_t g1 = string_like_nullable(nullptr, 0, bp.p, bp.n, e2, nul), g2 = string_ilike_nullable(bs.p, bs.n, nullptr, 0, e2, nul);
        VH_EXPECT(g1 == nul && g2 == nul, "like-null", "null operand must give null: ", (int)g1, " ", (int)g2);
        ev("null_operand");
      }
      distinct(cat("L", ic, want, p, "|", s));
      if (want && p.size() > 3) sample(cat("like ", show(s), " ", show(p)), 2);
    } else if (kind < 6) {
      string p = vstr::rand_over(r, alpha, r.pick({1, 2, 4}));
      if (r.chance(50) && s.size()) {
        size_t a = r.below(s.size());
        p = s.substr(a, 1 + r.below(4));
      }
      bool ic = r.chance(50);
      if (ic)
        for (auto& ch : p) ch = vstr::low(ch);
      if (r.chance(4)) p.clear();
      Buf bs(s), bp(p);
      note(cat("case ", c, " simple s=", show(s), " p=", show(p), " ic=", ic));
      bool want = vstr::like_simple(s, p, ic);
      bool got = ic ? string_ilike_simple(bs.p, bs.n, bp.p, bp.n) : string_like_simple(bs.p, bs.n, bp.p, bp.n);
      eval();
      ev(want ? "simple_true" : "simple_false");
      VH_EXPECT(got == want, ic ? "ilike_simple" : "like_simple", "case ", c, " s=", show(s), " p=", show(p), " got ", got, " want ", want);
      int8_t gn = ic ? string_ilike_simple_nullable(bs.p, bs.n, bp.p, bp.n, -128) : string_like_simple_nullable(bs.p, bs.n, bp.p, bp.n, -128);
      VH_EXPECT(gn == (int8_t)want, "like-simple-nullable", "case ", c);
      VH_EXPECT(string_like_simple_nullable(nullptr, 0, bp.p, bp.n, -128) == -128, "like-simple-null", "case ", c);
      distinct(cat("S", ic, want, p, "|", s));
    } else if (kind < 8) {
      string t = r.chance(60) ? s : vstr::rand_over(r, alpha, 9);
      if (r.chance(50)) t += alpha[r.below(alpha.size())];
      else if (t.size() && r.chance(50)) t[r.below(t.size())] = alpha[r.below(alpha.size())];
      else if (t.size() && r.chance(50)) t.resize(t.size() - 1);
      if (r.chance(50)) std::swap(s, t);
      Buf a(s), b(t);
      note(cat("case ", c, " cmp ", show(s), " ", show(t)));
      int w = vstr::cmp(s, t);
      struct F {
        const char* n;
        bool (*f)(const char*, const int32_t, const char*, const int32_t);
        int8_t (*g)(const char*, int32_t, const char*, int32_t, int8_t);
        bool want;
      } fs[] = {{"lt", string_lt, string_lt_nullable, w < 0}, {"le", string_le, string_le_nullable, w <= 0},
                {"gt", string_gt, string_gt_nullable, w > 0}, {"ge", string_ge, string_ge_nullable, w >= 0},
                {"eq", string_eq, string_eq_nullable, w == 0}, {"ne", string_ne, string_ne_nullable, w != 0}};
      for (auto& f : fs) {
        bool got = f.f(a.p, a.n, b.p, b.n);
        eval();
        VH_EXPECT(got == f.want, cat("string_", f.n), "case ", c, " ", show(s), " ", f.n, " ", show(t), " got ", got);
        int8_t gn = f.g(a.p, a.n, b.p, b.n, -128);
        VH_EXPECT(gn == (int8_t)f.want, cat("string_", f.n, "_nullable"), "case ", c, " ", show(s), " ", show(t), " got ", (int)gn);
        VH_EXPECT(f.g(nullptr, 0, b.p, b.n, -128) == -128 && f.g(a.p, a.n, nullptr, 0, -128) == -128, cat("string_", f.n, "_null"), "null operand");
      }
      int got = StringCompare(a.p, a.n, b.p, b.n);
      VH_EXPECT((got < 0) == (w < 0) && (got > 0) == (w > 0), "StringCompare", "case ", c, " ", show(s), " ", show(t), " got ", got, " want ", w);
      ev(w < 0 ? "cmp_lt" : w > 0 ? "cmp_gt" : "cmp_eq");
      distinct(cat("C", w, s, "|", t));
    } else {
      string al = r.pick({string("ab"), string("abAB1"), string("a.b*+")});
      auto re = vstr::gen_re(r, 3, al);
      string ps = vstr::re_str(re);
      string x = vstr::rand_over(r, al, 8);
      Buf bs(x), bp(ps);
      note(cat("case ", c, " regexp ", show(x), " ", show(ps)));
      bool want = vstr::re_match(re, x);
      bool got = regexp_like(bs.p, bs.n, bp.p, bp.n, '\\');
      eval();
      ev(want ? "regexp_true" : "regexp_false");
      VH_EXPECT(got == want, "regexp_like", "case ", c, " ", show(x), " ~ ", show(ps), " got ", got, " want ", want);
      VH_EXPECT(regexp_like_nullable(bs.p, bs.n, bp.p, bp.n, '\\', -128) == (int8_t)want, "regexp_nullable", "case ", c);
      VH_EXPECT(regexp_like_nullable(nullptr, 0, bp.p, bp.n, '\\', -128) == -128, "regexp_null", "case ", c);
      distinct(cat("R", want, ps, "|", x));
      if (r.chance(10)) {
        Buf bad(r.pick({string("("), string("[a"), string("a{2,1}"), string("*a")}));
        bool g = regexp_like(bs.p, bs.n, bad.p, bad.n, '\\');
        VH_EXPECT(!g, "regexp_invalid", "invalid pattern matched");
        ev("regexp_invalid");
      }
    }
  }
}

// ------------------------------------------------------------------------------------------------ text utilities
static bool wsp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static std::vector<string> words(const string& s) {
  std::vector<string> v;
  string w;
  for (char c : s + " ")
    if (wsp(c)) {
      if (!w.empty()) v.push_back(w);
      w.clear();
    } else
      w += c;
  return v;
}
static string showv(const std::vector<string>& v) {
  string o = "[";
  for (auto& x : v) o += show(x) + ",";
  return o + "]";
}

static void mode_text() {
  const int ncase = st().thorough ? 120000 : 12000;
  for (int c = 0; c < ncase && !too_many(); ++c) {
    if (st().only_case >= 0 && c != st().only_case) continue;
    Rng r = case_rng(c);
    string alpha = r.pick({string("ab, "), string("a:bc \t\n"), string("aAzZ[{@`019"), string("a,,;"), string("\xc3\xa9z A")});
    string s = vstr::rand_over(r, alpha, r.pick({0, 3, 8, 20, 60}));
    note(cat("case ", c, " text ", show(s)));
    eval();
    {  // explicit delimiter
      string d = r.pick({string(","), string(":"), string("ab"), string(",,"), string("a")});
      std::optional<size_t> ms;
      if (r.chance(50)) ms = r.below(5);
      auto got = split(s, d, ms);
      std::vector<string> want;
      size_t p = 0;
      while (true) {
        size_t q = s.find(d, p);
        if (q == string::npos || (ms && want.size() >= *ms)) break;
        want.push_back(s.substr(p, q - p));
        p = q + d.size();
      }
      want.push_back(s.substr(p));
      VH_EXPECT(got == want, "split-delim", "case ", c, " ", show(s), " by ", show(d), " max ", ms ? (long)*ms : -1, " got ", showv(got), " want ", showv(want));
      VH_EXPECT(join(got, d) == s, "join-split", "case ", c, " ", show(s));
      ev("split", got.size());
    }
    {  // whitespace
      auto got = split(s), want = words(s);
      VH_EXPECT(got == want, "split-ws", "case ", c, " ", show(s), " got ", showv(got), " want ", showv(want));
      size_t k = 1 + r.below(4);
      auto g2 = split(s, {}, k);
      VH_EXPECT(g2.size() <= k + 1, "split-ws-max", "case ", c, " ", show(s), " max ", k, " got ", showv(g2));
      for (size_t i = 0; i < std::min(k, want.size()); ++i)
        VH_EXPECT(i < g2.size() && g2[i] == want[i], "split-ws-max", "case ", c, " ", show(s), " max ", k, " got ", showv(g2));
      if (want.size() > k && g2.size() == k + 1)
        VH_EXPECT(words(g2[k]) == std::vector<string>(want.begin() + k, want.end()), "split-ws-rest", "case ", c, " ", show(s), " max ", k, " got ", showv(g2));
    }
    {
      string got = strip(s), want = s;
      while (!want.empty() && wsp(want.back())) want.pop_back();
      while (!want.empty() && wsp(want[0])) want.erase(0, 1);
      VH_EXPECT(got == want, "strip", "case ", c, " ", show(s), " got ", show(got));
      string u = s, l = s;
      for (auto& ch : u)
        if (ch >= 'a' && ch <= 'z') ch -= 32;
      for (auto& ch : l)
        if (ch >= 'A' && ch <= 'Z') ch += 32;
      VH_EXPECT(to_upper(s) == u && to_lower(s) == l, "case-map", "case ", c, " ", show(s));
      size_t n = r.below(s.size() + 3);
      auto sub = substring(s, n);
      VH_EXPECT(sub.first == s.substr(0, n) && string(sub.second) == (n < s.size() ? "..." : ""), "substring", "case ", c, " ", show(s), " ", n);
      VH_EXPECT(generate_random_string(n).size() == n, "random-string", "length");
    }
    {  // quoting
      string t = vstr::rand_over(r, "a\"'\\ b", 12);
      char q = r.pick({'"', '\''}), e = r.pick({'\\', '"'});
      string got = get_quoted_string(t, q, e), back;
      bool ok = got.size() >= 2 && got[0] == q && got.back() == q;
      for (size_t i = 1; ok && i + 1 < got.size(); ++i) {
        if (got[i] == e || got[i] == q) {
          ok = got[i] == e && i + 2 < got.size();
          ++i;
        }
        if (ok) back += got[i];
      }
      VH_EXPECT(ok && back == t, "quoted", "case ", c, " ", show(t), " got ", show(got));
    }
    {  // unquoted whitespace
      string t;
      string want;
      int n = r.below(6);
      for (int i = 0; i < n; ++i) {
        if (r.chance(50)) {
          string x = vstr::rand_over(r, "ab\n\t\r ", 6);
          t += x;
          for (auto& ch : x)
            if (ch == '\n' || ch == '\t' || ch == '\r') ch = ' ';
          want += x;
        } else {
          char q = r.pick({'"', '\''});
          string x(1, q);
          int m = r.below(6);
          for (int j = 0; j < m; ++j) switch (r.below(5)) {
              case 0: x += "\\"; x += q; break;
              case 1: x += "\\\\"; break;
              case 2: x += q == '"' ? '\'' : '"'; break;
              case 3: x += r.pick({'\n', '\t', '\r'}); break;
              default: x += 'z';
            }
          x += q;
          t += x;
          want += x;
        }
      }
      string in = t;
      bool ok = remove_unquoted_newlines_linefeeds_and_tabs_from_sql_string(t);
      VH_EXPECT(ok && t == want, "unquoted-ws", "case ", c, " ", show(in), " got ", show(t), " want ", show(want));
      if (r.chance(20)) {
        string bad = in + "'x\n";
        VH_EXPECT(!remove_unquoted_newlines_linefeeds_and_tabs_from_sql_string(bad), "unbalanced-quote", "case ", c, " ", show(in));
      }
    }
    {  // secrets
      string q, want;
      std::vector<string> secrets;
      auto lit = [&](const string& x) { q += x; want += x; };
      lit(r.pick({"CREATE USER u (", "ALTER USER omnisci (", "COPY t FROM 's3://b/*' WITH ("}));
      int n = 1 + r.below(4);
      for (int i = 0; i < n; ++i) {
        if (i) lit(r.pick({", ", ",", " ,\t"}));
        string k = r.pick({string("password"), string("s3_access_key"), string("s3_secret_key"), string("s3_session_token"), string("username"), string("credential_string"), string("header"), string("is_super")});
        bool secret = k != "header" && k != "is_super";
        if (r.chance(30))
          for (auto& ch : k) ch = toupper(ch);
        lit(k + r.pick({"=", " = ", " =", "=  "}));
        string v = "Zq" + vstr::rand_over(r, "abK9!@#$ ,()=\"\\", 20) + "qZ";
        q += "'" + v + "'";
        want += secret ? "'XXXXXXXX'" : "'" + v + "'";
      }
      lit(r.pick({")", ");", "); SELECT 1"}));
      string got = hide_sensitive_data_from_query(q);
      VH_EXPECT(got == want, "hide-secret", "case ", c, " ", show(q), " got ", show(got));
      ev("secrets", n);
    }
    {  // base64
      string b;
      int n = r.below(30);
      for (int i = 0; i < n; ++i) b += (char)r.next();
      if (n && r.chance(50)) b.back() = 'x';
      static const char* T = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
      string want;
      for (size_t i = 0; i < b.size(); i += 3) {
        uint32_t v = (uint8_t)b[i] << 16 | (i + 1 < b.size() ? (uint8_t)b[i + 1] << 8 : 0) | (i + 2 < b.size() ? (uint8_t)b[i + 2] : 0);
        want += T[v >> 18];
        want += T[v >> 12 & 63];
        want += i + 1 < b.size() ? T[v >> 6 & 63] : '=';
        want += i + 2 < b.size() ? T[v & 63] : '=';
      }
      string got = shared::encode_base64(b);
      VH_EXPECT(got == want, "base64-encode", "case ", c, " ", show(b), " got ", got, " want ", want);
      string tr = b;
      while (!tr.empty() && tr.back() == 0) tr.pop_back();
      VH_EXPECT(shared::decode_base64(want) == tr, "base64-decode", "case ", c, " ", want);
      string d = shared::decode_base64(want, false);
      VH_EXPECT(d.size() >= b.size() && d.substr(0, b.size()) == b && d.find_first_not_of('\0', b.size()) == string::npos, "base64-decode-raw", "case ", c, " ", want, " got ", show(d));
      string uri;
      for (char ch : want)
        if (ch != '=') uri += ch == '+' ? '-' : ch == '/' ? '_' : ch;
      VH_EXPECT(shared::decode_base64_uri(uri) == tr, "base64-uri", "case ", c, " ", uri);
    }
    {  // integer helpers
      uint64_t v = 1 + (r.next() >> r.below(64)) % (1ull << 63);
      uint64_t up = shared::roundUpToPow2(v);
      bool ok = (up & (up - 1)) == 0 && up >= v && (up == 1 || up / 2 < v);
      VH_EXPECT(ok, "roundUpToPow2", v, " -> ", up);
      unsigned e = shared::getExpOfTwo(v);
      VH_EXPECT((v >> e) == 1, "getExpOfTwo", v, " -> ", e);
      VH_EXPECT(shared::isPowOfTwo(v) == (__builtin_popcountll(v) == 1), "isPowOfTwo", v);
      int64_t num = (int64_t)r.next() >> r.below(63), den = 1 + (int64_t)((r.next() >> 1) >> r.below(63));
      if (den <= 0) den = 1;
      auto dm = shared::divUMod(num, den);
      VH_EXPECT(dm.rem >= 0 && dm.rem < den && (__int128)dm.quot * den + dm.rem == num, "divUMod", num, "/", den, " -> ", dm.quot, " ", dm.rem);
      VH_EXPECT((int64_t)shared::unsignedMod(num, den) == dm.rem, "unsignedMod", num, "%", den);
      unsigned x = r.below(25);
      double p = shared::power10(x), pi = shared::power10inv(x), ref = std::pow(10.0L, (long double)x);
      VH_EXPECT(std::fabs(p / ref - 1) < 1e-12 && std::fabs(pi * ref - 1) < 1e-12, "power10", x, " ", p, " ", pi);
    }
    distinct(s);
    if (s.size() > 10) sample(show(s), 2);
  }
}

// ------------------------------------------------------------------------------------------------ intervals
template <class T>
static void one_interval(Rng& r, int c) {
  using L = std::numeric_limits<T>;
  T a, b;
  auto rnd = [&]() -> T {
    switch (r.below(5)) {
      case 0: return (T)r.next();
      case 1: return L::max() - (T)r.below(100);
      case 2: return L::min() + (T)r.below(100);
      default: return (T)r.below(100);
    }
  };
  a = rnd();
  b = r.chance(60) ? (T)((uint64_t)a + r.below(120)) : rnd();
  size_t n = r.chance(20) ? r.pick<size_t>({0, 1, 255, 256, 65535, 65536, (size_t)1 << 32, ~(size_t)0}) : r.below(150);
  __int128 total = a < b ? (__int128)b - (__int128)a : 0;
  // walking is bounded by the number of intervals
  if (n > 200000 && total > 200000) return;
  if (n == 0) total = 0;
  // more than the type's range of indexes is not representable in a signed end
  note(cat("case ", c, " ", sizeof(T), " ", (long long)a, " ", (long long)b, " ", n));
  auto iv = makeIntervals(a, b, n);
  eval();
  VH_EXPECT(iv.empty() == (total == 0), "empty", "a=", (long long)a, " b=", (long long)b, " n=", n);
  __int128 pos = a, cnt = 0, prev = -1;
  unsigned __int128 lo = ~(unsigned __int128)0, hi = 0;
  for (auto const& i : iv) {
    __int128 sz = (__int128)(i.end) - (__int128)(i.begin);
    bool ok = (__int128)i.begin == pos && sz > 0 && (__int128)i.size() == sz && (__int128)i.index == cnt && (prev < 0 || sz <= prev);
    if (!ok) {
      violation("interval", cat("width ", sizeof(T), " signed ", L::is_signed, " a=", (long long)a, " b=", (long long)b, " n=", n, " interval #", (long long)cnt, " [", (long long)i.begin, ",", (long long)i.end, ") index ", (long long)i.index));
      return;
    }
    prev = sz;
    lo = std::min<unsigned __int128>(lo, sz);
    hi = std::max<unsigned __int128>(hi, sz);
    pos = i.end;
    ++cnt;
    if (cnt > 300000) {
      violation("interval-count", cat("more than 300000 intervals, n=", n));
      return;
    }
  }
  eval(cnt);
  if (total) {
    VH_EXPECT(pos == (__int128)b && cnt <= (__int128)n && hi - lo <= 1, "cover", "width ", sizeof(T), " a=", (long long)a, " b=", (long long)b, " n=", n, " ended at ", (long long)pos, " count ", (long long)cnt, " spread ", (long long)(hi - lo));
    ev("nonempty");
    distinct(cat(sizeof(T), L::is_signed, (long long)total, ":", n));
  } else {
    VH_EXPECT(cnt == 0, "cover-empty", "intervals of an empty range");
    ev("empty");
  }
  if (r.chance(1)) sample(cat((long long)a, "..", (long long)b, " by ", n, " -> ", (long long)cnt, " intervals"));
}
static void mode_intervals() {
  const int ncase = st().thorough ? 800000 : 60000;
  for (int c = 0; c < ncase && !too_many(); ++c) {
    if (st().only_case >= 0 && c != st().only_case) continue;
    Rng r = case_rng(c);
    switch (r.below(8)) {
      case 0: one_interval<int8_t>(r, c); break;
      case 1: one_interval<uint8_t>(r, c); break;
      case 2: one_interval<int16_t>(r, c); break;
      case 3: one_interval<uint16_t>(r, c); break;
      case 4: one_interval<int32_t>(r, c); break;
      case 5: one_interval<uint32_t>(r, c); break;
      case 6: one_interval<int64_t>(r, c); break;
      case 7: one_interval<uint64_t>(r, c); break;
    }
  }
}

// ------------------------------------------------------------------------------------------------ SQL text rewriting
static void mode_shim() {
  const int ncase = st().thorough ? 40000 : 4000;
  for (int c = 0; c < ncase && !too_many(); ++c) {
    if (st().only_case >= 0 && c != st().only_case) continue;
    Rng r = case_rng(c);
    struct Piece {
      bool lit;
      string text, want;
    };
    bool pg = r.chance(50);
    std::vector<std::pair<string, string>> code =
        pg ? std::vector<std::pair<string, string>>{{" unnest (a)", " PG_UNNEST(a)"}, {",UNNEST(b)", ",PG_UNNEST(b)"}, {" corr(a, b)", " CORRELATION(a, b)"},
                                                    {" DATEADD(day, 1, d)", " DATEADD('day', 1, d)"}, {" date_trunc (month, d)", " PG_DATE_TRUNC('month', d)"},
                                                    {" TIMESTAMPDIFF(hour, d, e)", " DATEDIFF('hour', d, e)"}, {" x = any arr ", " x = PG_ANY(arr) "}, {" x < ALL arr2 ", " x < PG_ALL(arr2) "}}
           : std::vector<std::pair<string, string>>{{" foo ", " BAR(1) "}, {"foofoo", "BAR(1)BAR(1)"}, {" x+foo", " x+BAR(1)"}};
    if (pg) code.erase(code.begin() + 4);  // date_trunc goes through two rewritings that depend on each other
    std::vector<Piece> ps;
    ps.push_back({false, "SELECT ", "SELECT "});
    int n = 1 + r.below(7);
    bool prev_lit = false;
    for (int i = 0; i < n; ++i) {
      if (!prev_lit && r.chance(50)) {
        string t = "'";
        int m = r.below(4);
        for (int j = 0; j < m; ++j) switch (r.below(4)) {
            case 0: t += "''"; break;
            case 1: t += r.pick(code).first; break;
            case 2: t += "x "; break;
            default: t += r.pick({"a(b", ") c", ", ", "%"});
          }
        t += "'";
        ps.push_back({true, t, t});
        prev_lit = true;
      } else {
        auto& k = r.pick(code);
        string pre = r.pick({" a ", " , ", " b"}), post = r.pick({" , ", " c ", " "});
        ps.push_back({false, pre + k.first + post, pre + k.second + post});
        prev_lit = false;
      }
    }
    string q, want;
    size_t nlit = 0;
    std::vector<std::pair<size_t, size_t>> pos;
    for (auto& p : ps) {
      if (p.lit && p.text.size() > 2) pos.emplace_back(q.size(), q.size() + p.text.size());
      nlit += p.lit;
      q += p.text;
      want += p.want;
    }
    note(cat("case ", c, " ", show(q)));
    eval();
    auto lits = find_string_literals(q);
    if (lits != pos) {
      string d;
      for (auto& x : lits) d += cat("[", x.first, ",", x.second, ")");
      violation("find-literals", cat("case ", c, " ", show(q), " got ", d));
    }
    for (int k = 0; k < 12; ++k) {
      // a range of the text counts as inside a literal exactly when no byte of it lies outside
      size_t a = r.below(q.size()), e = a + 1 + r.below(q.size() - a);
      if (!pos.empty() && r.chance(50)) {
        auto& l = r.pick(pos);
        a = l.first + r.below(2), e = l.second - r.below(2);
      }
      std::optional<size_t> exp;
      for (auto& l : pos)
        if (a >= l.first && e <= l.second) exp = l.second;
      VH_EXPECT(inside_string_literal(a, e - a, pos) == exp, "inside-literal", "case ", c, " ", show(q), " range ", a, "..", e);
      ev("ranges");
    }
    string got = q;
    if (pg) {
      got = pg_shim(q);
    } else {
      static const boost::regex re{"foo"};
      int steps = 0;
      apply_shim(got, re, [&](string& s, const boost::smatch& w) {
        if (++steps > 200) throw std::runtime_error("no progress");
        s.replace(w.position(), w.length(), "BAR(1)");
      });
      ev("rewrites", steps);
    }
    VH_EXPECT(got == want, pg ? "pg-shim" : "apply-shim", "case ", c, " ", show(q), " got ", show(got), " want ", show(want));
    ev("literals", nlit);
    distinct(q);
    if (nlit > 1) sample(show(q), 3);
  }
}

int main(int argc, char** argv) {
  init(argc, argv);
  logger::LogOptions lo("h_misc");
  lo.severity_ = logger::Severity::FATAL;
  lo.severity_clog_ = logger::Severity::FATAL;
  logger::init(lo);
  auto& m = st().mode;
  if (m == "match") mode_match();
  else if (m == "text") mode_text();
  else if (m == "intervals") mode_intervals();
  else if (m == "shim") mode_shim();
  else return 3;
  return finish();
}
