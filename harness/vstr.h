// Reference semantics for string matching, written from the SQL definitions (independent of the code under test).
#pragma once
#include "vh.h"

namespace vstr {
using vh::Rng;

// ---- LIKE ----
struct LikeTok {
  enum K { Lit, Any1, AnyN, Cls } k;
  std::string chars;
};
// returns false when the pattern is malformed (dangling escape, unterminated class)
inline bool like_parse(const std::string& pat, char esc, std::vector<LikeTok>& out) {
  for (size_t i = 0; i < pat.size(); ++i) {
    char c = pat[i];
    if (c == esc) {
      if (i + 1 >= pat.size()) return false;
      out.push_back({LikeTok::Lit, std::string(1, pat[++i])});
    } else if (c == '%') {
      out.push_back({LikeTok::AnyN, ""});
    } else if (c == '_') {
      out.push_back({LikeTok::Any1, ""});
    } else if (c == '[') {
      auto e = pat.find(']', i + 1);
      if (e == std::string::npos) return false;
      out.push_back({LikeTok::Cls, pat.substr(i + 1, e - i - 1)});
      i = e;
    } else {
      out.push_back({LikeTok::Lit, std::string(1, c)});
    }
  }
  return true;
}
inline char low(char c) { return c >= 'A' && c <= 'Z' ? char(c - 'A' + 'a') : c; }

inline bool like(const std::string& s, const std::string& pat, char esc, bool icase) {
  std::vector<LikeTok> t;
  if (!like_parse(pat, esc, t)) return false;
  std::vector<char> cur(s.size() + 1, 0), nxt;
  cur[0] = 1;
  for (auto& k : t) {
    nxt.assign(s.size() + 1, 0);
    if (k.k == LikeTok::AnyN) {
      bool on = false;
      for (size_t i = 0; i <= s.size(); ++i) {
        on = on || cur[i];
        nxt[i] = on;
      }
    } else {
      for (size_t i = 0; i < s.size(); ++i) {
        if (!cur[i]) continue;
        char c = icase ? low(s[i]) : s[i];
        bool m = k.k == LikeTok::Any1 || k.chars.find(c) != std::string::npos;
        if (m) nxt[i + 1] = 1;
      }
    }
    cur.swap(nxt);
  }
  return cur[s.size()];
}
inline bool like_simple(const std::string& s, const std::string& pat, bool icase) {
  std::string h = s;
  if (icase)
    for (auto& c : h) c = low(c);
  return h.find(pat) != std::string::npos;
}

// ---- comparison: unsigned byte order, shorter first ----
inline int cmp(const std::string& a, const std::string& b) {
  size_t n = std::min(a.size(), b.size());
  for (size_t i = 0; i < n; ++i) {
    unsigned char x = a[i], y = b[i];
    if (x != y) return x < y ? -1 : 1;
  }
  return a.size() < b.size() ? -1 : a.size() > b.size() ? 1 : 0;
}

// ---- regular expressions (POSIX extended subset), random AST + own matcher ----
struct Re {
  enum K { Chr, Dot, Cls, NCls, Cat, Alt, Star, Plus, Opt, Rep } k = Chr;
  std::string chars;
  std::vector<Re> sub;
  int lo = 0, hi = 0;
};
inline bool re_fixed(const Re& x) {
  if (x.k == Re::Cat) {
    for (auto& y : x.sub)
      if (!re_fixed(y)) return false;
    return true;
  }
  return x.k == Re::Chr || x.k == Re::Dot || x.k == Re::Cls || x.k == Re::NCls;
}
inline Re gen_re(Rng& r, int depth, const std::string& alpha) {
  int c = depth <= 0 ? (int)r.below(4) : (int)r.below(11);
  Re x;
  auto set = [&] {
    std::string s;
    for (char a : alpha)
      if (r.chance(45)) s += a;
    if (s.empty()) s += alpha[r.below(alpha.size())];
    return s;
  };
  switch (c) {
    case 0: case 1: x.k = Re::Chr; x.chars = std::string(1, alpha[r.below(alpha.size())]); return x;
    case 2: x.k = Re::Dot; return x;
    case 3: x.k = r.chance(70) ? Re::Cls : Re::NCls; x.chars = set(); return x;
    case 4: case 5: {
      x.k = Re::Cat;
      int n = 2 + r.below(3);
      for (int i = 0; i < n; ++i) x.sub.push_back(gen_re(r, depth - 1, alpha));
      return x;
    }
    case 6: {
      x.k = Re::Alt;
      int n = 2 + r.below(2);
      for (int i = 0; i < n; ++i) x.sub.push_back(gen_re(r, depth - 1, alpha));
      return x;
    }
    case 7: x.k = Re::Star; break;
    case 8: x.k = Re::Plus; break;
    case 9: x.k = Re::Opt; break;
    default: x.k = Re::Rep; x.lo = r.below(3); x.hi = x.lo + r.below(3); if (!x.hi) x.hi = 1; break;
  }
  // Repetitions of ambiguous or possibly empty sub-expressions run into the regex library's complexity limit;
  // repeat only fixed-length pieces.
  Re y;
  do y = gen_re(r, std::min(depth - 1, 1), alpha); while (!re_fixed(y));
  x.sub.push_back(y);
  return x;
}
inline bool re_meta(char c) { return strchr(".[]{}()\\*+?|^$", c) != nullptr; }
inline std::string re_str(const Re& x) {
  auto atom = [](const Re& s) {
    auto t = re_str(s);
    return (s.k == Re::Chr || s.k == Re::Dot || s.k == Re::Cls || s.k == Re::NCls) ? t : "(" + t + ")";
  };
  switch (x.k) {
    case Re::Chr: return re_meta(x.chars[0]) ? "\\" + x.chars : x.chars;
    case Re::Dot: return ".";
    case Re::Cls: return "[" + x.chars + "]";
    case Re::NCls: return "[^" + x.chars + "]";
    case Re::Cat: { std::string s; for (auto& y : x.sub) s += y.k == Re::Alt ? "(" + re_str(y) + ")" : re_str(y); return s; }
    case Re::Alt: { std::string s; for (size_t i = 0; i < x.sub.size(); ++i) s += (i ? "|" : "") + re_str(x.sub[i]); return s; }
    case Re::Star: return atom(x.sub[0]) + "*";
    case Re::Plus: return atom(x.sub[0]) + "+";
    case Re::Opt: return atom(x.sub[0]) + "?";
    case Re::Rep: return atom(x.sub[0]) + "{" + std::to_string(x.lo) + "," + std::to_string(x.hi) + "}";
  }
  return "";
}
using PosSet = std::set<size_t>;
inline PosSet re_step(const Re& x, const std::string& s, const PosSet& in) {
  PosSet out;
  switch (x.k) {
    case Re::Chr: case Re::Dot: case Re::Cls: case Re::NCls:
      for (size_t p : in)
        if (p < s.size()) {
          bool f = x.chars.find(s[p]) != std::string::npos;
          if (x.k == Re::Dot || (x.k == Re::NCls ? !f : f)) out.insert(p + 1);
        }
      return out;
    case Re::Cat: { PosSet c = in; for (auto& y : x.sub) c = re_step(y, s, c); return c; }
    case Re::Alt: for (auto& y : x.sub) { auto c = re_step(y, s, in); out.insert(c.begin(), c.end()); } return out;
    case Re::Opt: out = re_step(x.sub[0], s, in); out.insert(in.begin(), in.end()); return out;
    case Re::Star: case Re::Plus: {
      out = x.k == Re::Star ? in : re_step(x.sub[0], s, in);
      PosSet fr = out;
      while (!fr.empty()) {
        PosSet n = re_step(x.sub[0], s, fr), f2;
        for (size_t p : n)
          if (out.insert(p).second) f2.insert(p);
        fr.swap(f2);
      }
      return out;
    }
    case Re::Rep: {
      PosSet c = in;
      for (int i = 0; i < x.lo; ++i) c = re_step(x.sub[0], s, c);
      out = c;
      for (int i = x.lo; i < x.hi; ++i) { c = re_step(x.sub[0], s, c); out.insert(c.begin(), c.end()); }
      return out;
    }
  }
  return out;
}
inline bool re_match(const Re& x, const std::string& s) { return re_step(x, s, {0}).count(s.size()) > 0; }

// ---- generators ----
inline std::string rand_over(Rng& r, const std::string& alpha, size_t maxlen) {
  std::string s;
  size_t n = r.below(maxlen + 1);
  for (size_t i = 0; i < n; ++i) s += alpha[r.below(alpha.size())];
  return s;
}
inline std::string rand_like(Rng& r, const std::string& alpha, char esc, bool well_formed) {
  std::string p;
  int n = r.below(8);
  for (int i = 0; i < n; ++i) {
    switch (r.below(9)) {
      case 0: case 1: p += '%'; break;
      case 2: p += '_'; break;
      case 3: {
        p += '[';
        int k = r.below(4);
        for (int j = 0; j < k; ++j) p += alpha[r.below(alpha.size())];
        p += ']';
        break;
      }
      case 4: p += esc; p += r.pick({'%', '_', '[', esc, alpha[0], alpha[r.below(alpha.size())]}); break;
      default: p += alpha[r.below(alpha.size())];
    }
  }
  if (!well_formed) {
    switch (r.below(4)) {
      case 0: p += esc; break;
      case 1: p += '['; break;
      case 2: p += "["; p += alpha[r.below(alpha.size())]; break;
      case 3: p += "%["; p += alpha.substr(0, r.below(alpha.size() + 1)); break;
    }
  }
  return p;
}
}  // namespace vstr
