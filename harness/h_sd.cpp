// String dictionary monitors: ids / search / translate / conc.
#include <tbb/global_control.h>
#include <atomic>
#include <chrono>
#include <thread>
#include "StringDictionary/StringDictionary.h"
#include "vh.h"
#include "vstr.h"

extern bool g_enable_stringdict_parallel;
using namespace vh;
using std::string;
using SD = StringDictionary;
static const int32_t NULL_ID = std::numeric_limits<int32_t>::min();

// ---------- reference model ----------
struct Node {
  std::shared_ptr<SD> d;
  Node* parent = nullptr;
  int64_t base = 0;
  std::vector<string> own;
  std::unordered_map<string, int32_t> idx;
  string desc;
  int64_t count() const { return base + (int64_t)own.size(); }
  const string& str(int64_t id) const { return id < base ? parent->str(id) : own[id - base]; }
  int32_t lookup(const string& s) const {  // -1 when absent
    if (s.empty()) return -1;
    if (parent) {
      int32_t r = parent->lookup(s);
      if (r >= 0 && r < base) return r;
    }
    auto it = idx.find(s);
    return it == idx.end() ? -1 : it->second;
  }
  int32_t add(const string& s) {
    if (s.empty()) return NULL_ID;
    int32_t r = lookup(s);
    if (r >= 0) return r;
    r = (int32_t)count();
    own.push_back(s);
    idx[s] = r;
    return r;
  }
};

// Strings with the same 32-bit hash (polynomial hash, multiplier 997): from (a,b) to (a+1,b-997) does not fit a
// byte, so use three positions: +1, -997, 0 -> c0+1, c1-997... realised with signed chars over 3 digits:
// 997 = 3*256+229; instead search by birthday over short strings.
static std::vector<std::vector<string>>& collision_groups() {
  static std::vector<std::vector<string>> g;
  if (g.empty()) {
    // char is added as a signed value: pairs (x,y),(x+1,y') collide when y' = y-997 mod 2^32, impossible for one
    // byte; a birthday search over 6-byte strings finds real 32-bit collisions.
    Rng r(777);
    std::unordered_map<uint32_t, string> seen;
    std::unordered_map<uint32_t, std::vector<string>> grp;
    for (int i = 0; i < 400000; ++i) {
      string s;
      for (int k = 0; k < 6; ++k) s += (char)r.range(1, 255);
      uint32_t h = 1;
      for (char c : s) h = h * 997 + c;
      auto it = seen.find(h);
      if (it == seen.end()) seen[h] = s;
      else if (it->second != s) {
        auto& v = grp[h];
        if (v.empty()) v.push_back(it->second);
        v.push_back(s);
      }
    }
    for (auto& [h, v] : grp) g.push_back(v);
  }
  return g;
}

struct StrGen {
  Rng& r;
  std::vector<string> pool;
  int style;
  explicit StrGen(Rng& rr) : r(rr), style(rr.below(6)) {}
  string fresh() {
    switch (r.below(10)) {
      case 0: {
        auto& g = collision_groups();
        return g.empty() ? string("x") : r.pick(r.pick(g));
      }
      case 1: {  // same low hash bits: permute tail so that buckets collide in small tables
        string s = "k";
        s += (char)r.range(-128, 127);
        s += (char)r.range(-128, 127);
        return s;
      }
      case 2: return string(r.below(4), '\0') + string(1 + r.below(3), (char)r.range(-128, 127));
      case 3: return string(1 + r.below(300), 'a' + r.below(3));
      case 4: return pool.empty() ? "p" : pool[r.below(pool.size())].substr(0, 1 + r.below(12));
      case 5: return pool.empty() ? "q" : (pool[r.below(pool.size())] + (char)r.below(256)).substr(0, 32767);
      case 6:
        if (style == 0) return string(r.pick({32767, 32766, 20000, 1}), 'A' + r.below(26)) .substr(1) + std::to_string(r.below(10));
        return std::to_string(r.below(100000));
      default: return std::to_string(r.below(style == 1 ? 200 : 1000000));
    }
  }
  string next() {
    if (r.chance(3)) return "";
    string s;
    if (!pool.empty() && r.chance(style == 2 ? 70 : 35)) s = pool[r.below(pool.size())];
    else s = fresh();
    if (s.size() > 32767) s.resize(32767);
    if (pool.size() < 4000) pool.push_back(s);
    else pool[r.below(pool.size())] = s;
    if (pool.back().empty()) pool.pop_back();
    return s;
  }
};

struct EachCb : SD::StringCallback {
  std::vector<std::pair<string, int32_t>> got;
  void operator()(string const& s, int32_t const id) override { got.emplace_back(s, id); }
  void operator()(std::string_view const s, int32_t const id) override { got.emplace_back(string(s), id); }
};

static void audit(Node& n, Rng& r, const string& ctx) {
  const int64_t cnt = n.count();
  VH_EXPECT((int64_t)n.d->entryCount() == cnt, "sd-entry-count", ctx, " entryCount=", n.d->entryCount(), " expected ", cnt);
  VH_EXPECT(n.d->storageEntryCount() == n.own.size(), "sd-storage-count", ctx, " storageEntryCount=", n.d->storageEntryCount(), " expected ", n.own.size());
  std::vector<int32_t> ids;
  if (cnt <= 3000)
    for (int64_t i = 0; i < cnt; ++i) ids.push_back(i);
  else
    for (int i = 0; i < 3000; ++i) ids.push_back(r.below(cnt));
  for (int32_t id : ids) {
    eval();
    auto s = n.d->getString(id);
    VH_EXPECT(s == n.str(id), "sd-getString", ctx, " id=", id, " got ", show(s.substr(0, 80)), " expected ", show(n.str(id).substr(0, 80)));
    auto back = n.d->getIdOfString(n.str(id));
    VH_EXPECT(back == id, "sd-getIdOfString", ctx, " string ", show(n.str(id).substr(0, 80)), " got ", back, " expected ", id);
    auto b = n.d->getStringBytes(id);
    VH_EXPECT(string(b.first, b.second) == n.str(id), "sd-getStringBytes", ctx, " id=", id);
  }
  auto ss = n.d->getStrings(ids);
  for (size_t i = 0; i < ids.size(); ++i)
    if (ss.size() != ids.size() || ss[i] != n.str(ids[i])) { violation("sd-getStrings", ctx); break; }
  VH_EXPECT(n.d->getString(NULL_ID) == "", "sd-null-string", ctx);
  ev("audits");
}

template <class T>
static void bulk_root(Node& n, std::vector<string>& v, Rng& r, const string& ctx) {
  // Narrow ids, standalone dictionary: refused only when the id space is exhausted.
  std::vector<T> out(v.size() + 1, (T)0x5a);
  bool threw = false;
  try {
    if (r.chance(50)) n.d->getOrAddBulk(v, out.data());
    else {
      std::vector<std::string_view> sv(v.begin(), v.end());
      n.d->getOrAddBulk(sv, out.data());
    }
  } catch (std::exception& e) {
    threw = true;
  }
  eval(v.size());
  const int64_t lim = (int64_t)std::numeric_limits<T>::max();  // max value is the null sentinel
  VH_EXPECT(out[v.size()] == (T)0x5a, "sd-bulk-overrun", ctx);
  bool ref_throw = false;
  for (size_t i = 0; i < v.size(); ++i) {
    if (n.lookup(v[i]) < 0 && !v[i].empty() && n.count() >= lim) {
      ref_throw = true;
      break;
    }
    int32_t e = n.add(v[i]);
    T want = v[i].empty() ? std::numeric_limits<T>::max() : (T)e;
    if (!v[i].empty() && e >= lim) {  // the string has an id that the narrow type cannot hold: not specified
      continue;
    }
    if (out[i] != want) {
      violation("sd-bulk-narrow", cat(ctx, " i=", i, " string ", show(v[i].substr(0, 60)), " got ", (int)out[i], " expected ", (int)want));
      break;
    }
  }
  VH_EXPECT(threw == ref_throw, "sd-bulk-narrow-refusal", ctx, " bits=", sizeof(T) * 8, " threw=", threw, " expected ", ref_throw, " count=", n.count());
  ev(threw ? "narrow_refused" : "narrow_bulk");
}

static void mode_ids() {
  const int ncase = st().thorough ? 400 : 40;
  for (int c = 0; c < ncase && !too_many(); ++c) {
    if (st().only_case >= 0 && c != st().only_case) continue;
    Rng r = case_rng(c);
    g_enable_stringdict_parallel = r.chance(50);
    StrGen gen(r);
    std::vector<std::unique_ptr<Node>> nodes;
    {
      auto n = std::make_unique<Node>();
      bool mat = r.chance(50);
      size_t cap = r.pick({0, 1, 2, 4, 64, 256, 4096});
      n->d = std::make_shared<SD>(DictRef{1, 7}, mat, cap);
      n->desc = cat("root(mat=", mat, ",cap=", cap, ")");
      nodes.push_back(std::move(n));
    }
    const bool big = c % 20 == 7;       // cross the 4 MB payload and the offset growth boundaries
    const bool narrow = c % 5 == 3;     // narrow ids: root only
    const int nops = r.range(20, 120);
    string ctx0 = cat("case ", c, " parallel=", g_enable_stringdict_parallel, " ");
    for (int op = 0; op < nops; ++op) {
      Node& n = *nodes[r.below(nodes.size())];
      int what = r.below(100);
      string ctx = cat(ctx0, n.desc, " op ", op, "/", what);
      note(ctx);
      eval();
      if (r.chance(5)) g_enable_stringdict_parallel = !g_enable_stringdict_parallel;
      if (what < 25) {
        int k = r.range(1, 12);
        for (int i = 0; i < k; ++i) {
          auto s = gen.next();
          auto e = n.add(s);
          auto g = n.d->getOrAdd(s);
          VH_EXPECT(g == e, "sd-getOrAdd", ctx, " ", show(s.substr(0, 80)), " got ", g, " expected ", e);
        }
        ev("getOrAdd", k);
      } else if (what < 55) {
        int k = big ? r.pick({1, 500, 3000}) : r.pick({0, 1, 2, 3, 17, 300, 1100});
        std::vector<string> v;
        for (int i = 0; i < k; ++i) {
          v.push_back(gen.next());
          if (big && r.chance(30)) v.back() = string(r.range(5000, 20000), 'z') + std::to_string(r.next());
          if (r.chance(10) && i) v[i] = v[r.below(i)];
        }
        if (narrow && !n.parent) {
          if (r.chance(60)) bulk_root<uint8_t>(n, v, r, ctx);
          else bulk_root<uint16_t>(n, v, r, ctx);
        } else {
          std::vector<int32_t> out;
          if (r.chance(30)) out = n.d->getOrAddBulk(v);
          else {
            out.resize(v.size());
            if (r.chance(50)) n.d->getOrAddBulk(v, out.data());
            else {
              std::vector<std::string_view> sv(v.begin(), v.end());
              n.d->getOrAddBulk(sv, out.data());
            }
          }
          for (size_t i = 0; i < v.size(); ++i) {
            eval();
            auto e = n.add(v[i]);
            if (out.size() != v.size() || out[i] != e) {
              violation("sd-getOrAddBulk", cat(ctx, " i=", i, " of ", k, " ", show(v[i].substr(0, 80)), " got ", out[i], " expected ", e));
              break;
            }
          }
          ev("getOrAddBulk");
        }
      } else if (what < 70) {
        int k = r.pick({0, 1, 5, 40, 2500});
        std::vector<string> v;
        for (int i = 0; i < k; ++i) v.push_back(r.chance(5) ? "" : gen.next());
        int64_t g = r.chance(50) ? -1 : (int64_t)r.below(n.count() + 1);
        bool hasempty = std::find(v.begin(), v.end(), "") != v.end();
        std::vector<int32_t> out(v.size(), 12345);
        size_t miss = g < 0 && r.chance(50) ? n.d->getBulk(v, out.data()) : n.d->getBulk(v, out.data(), g);
        int64_t lim = g < 0 ? n.count() : g;
        size_t em = 0;
        for (size_t i = 0; i < v.size(); ++i) {
          eval();
          if (v[i].empty()) continue;  // the id reported for a NULL among lookups is not specified
          int32_t e = n.lookup(v[i]);
          if (e >= lim) e = -1;
          if (e < 0) ++em;
          if (out[i] != e) {
            violation("sd-getBulk", cat(ctx, " gen=", g, " ", show(v[i].substr(0, 80)), " got ", out[i], " expected ", e));
            break;
          }
        }
        if (!hasempty) VH_EXPECT(miss == em, "sd-getBulk-missing", ctx, " gen=", g, " reported ", miss, " expected ", em);
        ev("getBulk");
      } else if (what < 78) {
        for (int i = 0; i < 20; ++i) {
          auto s = gen.next();
          if (s.empty()) continue;
          auto e = n.lookup(s);
          auto g = n.d->getIdOfString(s);
          auto g2 = n.d->getIdOfString(std::string_view(s));
          eval();
          VH_EXPECT(g == e && g2 == e, "sd-getIdOfString", ctx, " ", show(s.substr(0, 80)), " got ", g, " expected ", e);
        }
        ev("getIdOfString", 20);
      } else if (what < 84) {
        int64_t g = r.chance(50) ? -1 : (int64_t)r.below(n.count() + 1);
        auto v = g < 0 && r.chance(50) ? n.d->copyStrings() : n.d->copyStrings(g);
        int64_t lim = g < 0 ? n.count() : g;
        bool ok = (int64_t)v.size() == lim;
        for (int64_t i = 0; ok && i < lim; ++i) ok = v[i] == n.str(i);
        VH_EXPECT(ok, "sd-copyStrings", ctx, " gen=", g, " size ", v.size(), " expected ", lim);
        ev("copyStrings");
      } else if (what < 89) {
        int64_t g = r.chance(50) ? -1 : (int64_t)r.below(n.count() + 1);
        EachCb cb;
        if (g < 0) n.d->eachStringSerially(cb);
        else n.d->eachStringSerially(g, cb);
        int64_t lim = g < 0 ? n.count() : g;
        bool ok = (int64_t)cb.got.size() == lim;
        for (int64_t i = 0; ok && i < lim; ++i) ok = cb.got[i].second == i && cb.got[i].first == n.str(i);
        VH_EXPECT(ok, "sd-eachString", ctx, " gen=", g, " visited ", cb.got.size(), " expected ", lim);
        ev("eachString");
      } else if (what < 94) {
        audit(n, r, ctx);
      } else if (what < 97 && nodes.size() < 5) {
        auto k = std::make_unique<Node>();
        Node* p = nodes[r.below(nodes.size())].get();
        int64_t g = r.chance(50) ? -1 : (int64_t)r.below(p->count() + 1);
        bool mat = r.chance(50);
        size_t cap = r.pick({0, 1, 2, 16, 256});
        k->parent = p;
        k->base = g < 0 ? p->count() : g;
        k->d = std::make_shared<SD>(p->d, g, mat, cap);
        k->desc = cat("nested(gen=", k->base, ",mat=", mat, ",cap=", cap, ") of ", p->desc);
        VH_EXPECT(k->d->getBaseGeneration() == k->base, "sd-base-generation", ctx);
        nodes.push_back(std::move(k));
        ev("nested_dicts");
      } else {
        // equality: same content in the same order, other storage parameters
        auto d2 = n.parent ? std::make_shared<SD>(n.parent->d, n.base, r.chance(50), 4) : std::make_shared<SD>(DictRef{1, 8}, r.chance(50), 16);
        for (auto& s : n.own) d2->getOrAdd(s);
        VH_EXPECT(*n.d == *d2, "sd-equality", ctx, " equal dictionaries reported different, own=", n.own.size(), " base=", n.base);
        VH_EXPECT(!(*n.d != *d2), "sd-equality", ctx);
        if (!n.own.empty()) {
          auto d3 = n.parent ? std::make_shared<SD>(n.parent->d, n.base, r.chance(50), 4) : std::make_shared<SD>(DictRef{1, 8}, r.chance(50), 16);
          size_t bad = r.below(n.own.size());
          for (size_t i = 0; i < n.own.size(); ++i) d3->getOrAdd(i == bad ? "~~different~~" : n.own[i]);
          if (d3->entryCount() == n.d->entryCount())
            VH_EXPECT(!(*n.d == *d3), "sd-equality", ctx, " different dictionaries reported equal (string ", bad, " of ", n.own.size(), ", base ", n.base, ")");
        }
        ev("equality");
      }
    }
    for (auto& n : nodes) audit(*n, r, ctx0 + n->desc + " final");
    string sig = ctx0;
    for (auto& n : nodes) sig += cat(n->desc, ":", n->own.size(), ";");
    distinct(sig);
    sample(sig);
  }
  // One run past the offset-table growth boundary (524288 strings per 4 MB of entries).
  if (st().shard == 0 || st().thorough) {
    Rng r = case_rng(999);
    Node n;
    bool mat = r.chance(50);
    g_enable_stringdict_parallel = r.chance(50);
    n.d = std::make_shared<SD>(DictRef{1, 7}, mat, 256);
    note("offset growth");
    int64_t k = 0;
    while (k < 1100000) {
      int64_t m = r.pick({1, 4096, 70000, 262144, 524288});
      std::vector<string> v;
      for (int64_t i = 0; i < m; ++i) v.push_back(std::to_string(k + i));
      auto out = n.d->getOrAddBulk(v);
      for (int64_t i = 0; i < m; ++i)
        if (out[i] != k + i) { violation("sd-getOrAddBulk", cat("bulk growth id ", out[i], " expected ", k + i)); break; }
      k += m;
      eval(m);
    }
    for (int i = 0; i < 200000; ++i) {
      int64_t id = r.below(k);
      if (n.d->getString(id) != std::to_string(id)) { violation("sd-getString", cat("bulk growth id ", id)); break; }
      eval();
    }
    VH_EXPECT((int64_t)n.d->entryCount() == k, "sd-entry-count", "bulk growth");
    ev("offset_growth");
  }
}

// ---------- searches ----------
static std::vector<int32_t> sorted(std::vector<int32_t> v) {
  std::sort(v.begin(), v.end());
  return v;
}
static string ids_str(const std::vector<int32_t>& v) {
  string s = "[";
  for (size_t i = 0; i < v.size() && i < 12; ++i) s += std::to_string(v[i]) + " ";
  return s + cat("](", v.size(), ")");
}
struct Search {
  int kind;  // 0 like, 1 compare, 2 regexp
  string pat, op;
  bool icase = false, simple = false;
  char esc = '\\';
  vstr::Re re;
  string text() const {
    return kind == 0 ? cat("LIKE ", show(pat), " icase=", icase, " simple=", simple, " esc=", esc)
                     : kind == 1 ? cat("COMPARE ", op, " ", show(pat)) : cat("REGEXP ", show(pat));
  }
  bool ref(const string& s) const {
    if (kind == 0) return simple ? vstr::like_simple(s, pat, icase) : vstr::like(s, pat, esc, icase);
    if (kind == 2) return vstr::re_match(re, s);
    int c = vstr::cmp(s, pat);
    return op == "=" ? c == 0 : op == "<>" ? c != 0 : op == "<" ? c < 0 : op == "<=" ? c <= 0 : op == ">" ? c > 0 : c >= 0;
  }
  std::vector<int32_t> run(const SD& d, int64_t g) const {
    if (kind == 0) return d.getLike(pat, icase, simple, esc, g);
    if (kind == 2) return d.getRegexpLike(pat, esc, g);
    return d.getCompare(pat, op, g);
  }
};
static Search gen_search(Rng& r, const string& alpha, const std::vector<string>& pool) {
  Search q;
  int k = r.below(10);
  if (k < 4) {
    q.kind = 0;
    q.icase = r.chance(40);
    q.simple = r.chance(30);
    q.esc = r.pick({'\\', '\\', '!', '#'});
    if (q.simple) q.pat = vstr::rand_over(r, alpha, 3);
    else q.pat = vstr::rand_like(r, alpha, q.esc, !r.chance(8));
    if (r.chance(20) && !pool.empty() && !q.simple) q.pat = "%" + r.pick(pool).substr(0, 3) + "%";
    if (q.icase)
      for (auto& c : q.pat) c = vstr::low(c);
  } else if (k < 8) {
    q.kind = 1;
    q.op = r.pick({"=", "<>", "<", "<=", ">", ">="});
    q.pat = !pool.empty() && r.chance(60) ? r.pick(pool) : vstr::rand_over(r, alpha, 5);
    if (r.chance(20)) q.pat += (char)r.below(256);
  } else {
    q.kind = 2;
    string a2;
    for (char c : alpha)
      if (isalnum((unsigned char)c) || c == ' ') a2 += c;
    q.re = vstr::gen_re(r, 3, a2.empty() ? "ab" : a2);
    q.pat = vstr::re_str(q.re);
  }
  return q;
}

static void mode_search() {
  const int ncase = st().thorough ? 600 : 60;
  for (int c = 0; c < ncase && !too_many(); ++c) {
    if (st().only_case >= 0 && c != st().only_case) continue;
    Rng r = case_rng(c);
    g_enable_stringdict_parallel = r.chance(50);
    const string alpha = r.pick({string("ab"), string("abAB"), string("aAbB c1"), string("a\xc3\xa9z0"), string("ab\0c", 4)});
    std::vector<string> pool;
    auto newstr = [&] {
      string s = !pool.empty() && r.chance(20) ? r.pick(pool) + alpha[r.below(alpha.size())] : vstr::rand_over(r, alpha, r.pick({3, 6, 10}));
      if (r.chance(6)) s += r.pick({"%", "_", "[", "]", "\\", "a%", "!"});
      if (!s.empty()) pool.push_back(s);
      return s;
    };
    std::vector<std::unique_ptr<Node>> nodes;
    auto root = std::make_unique<Node>();
    root->d = std::make_shared<SD>(DictRef{1, 7}, r.chance(50), 16);
    root->desc = "root";
    nodes.push_back(std::move(root));
    std::vector<Search> recent;
    const int nops = 90;
    const bool nul = alpha.find('\0') != string::npos;
    for (int op = 0; op < nops; ++op) {
      Node& n = *nodes[r.below(nodes.size())];
      int what = r.below(100);
      if (what < 22) {
        int k = r.pick({1, 1, 2, 8, 40});
        std::vector<string> v;
        for (int i = 0; i < k; ++i) v.push_back(newstr());
        if (r.chance(50)) {
          for (auto& s : v) { n.d->getOrAdd(s); n.add(s); }
        } else {
          n.d->getOrAddBulk(v);
          for (auto& s : v) n.add(s);
        }
        ev("adds", k);
      } else if (what < 26 && nodes.size() < 4) {
        auto k = std::make_unique<Node>();
        Node* p = nodes[r.below(nodes.size())].get();
        int64_t g = r.chance(40) ? -1 : (int64_t)r.below(p->count() + 1);
        k->parent = p;
        k->base = g < 0 ? p->count() : g;
        k->d = std::make_shared<SD>(p->d, g, r.chance(50), 4);
        k->desc = cat("nested(", k->base, ") of ", p->desc);
        nodes.push_back(std::move(k));
      } else {
        Search q = !recent.empty() && r.chance(45) ? r.pick(recent) : gen_search(r, alpha, pool);
        if (!recent.empty() && q.kind == 0 && !q.simple && r.chance(30)) {
          // the same pattern under another escape character is another question
          if (r.chance(60)) q.pat = r.pick({"%!%%", "a!%%", "%#_", "%\\_%", "!a%", "%#%", "!%", "#a", "%!!%"});
          char o = r.pick({'\\', '!', '#'});
          std::vector<vstr::LikeTok> toks;
          if (vstr::like_parse(q.pat, o, toks)) q.esc = o;
        }
        if (nul && q.kind == 2) continue;
        recent.push_back(q);
        if (recent.size() > 12) recent.erase(recent.begin());
        int64_t g = r.chance(50) ? -1 : (int64_t)r.below(n.count() + 1);
        int64_t lim = g < 0 ? n.count() : g;
        string ctx = cat("case ", c, " op ", op, " ", n.desc, " gen=", g, " ", q.text());
        note(ctx);
        std::vector<int32_t> want;
        for (int64_t i = 0; i < lim; ++i)
          if (q.ref(n.str(i))) want.push_back(i);
        auto got = sorted(q.run(*n.d, g));
        eval(lim);
        if (got != want) {
          string ex;
          for (int64_t i = 0; i < lim; ++i) {
            bool a = std::binary_search(got.begin(), got.end(), (int32_t)i), b = std::binary_search(want.begin(), want.end(), (int32_t)i);
            if (a != b) { ex = cat(" e.g. id ", i, " ", show(n.str(i)), " reported ", a); break; }
          }
          violation(cat("sd-search-", q.kind == 0 ? "like" : q.kind == 1 ? "compare" : "regexp"), cat(ctx, " got ", ids_str(got), " expected ", ids_str(want), ex));
        }
        ev(q.kind == 0 ? "like" : q.kind == 1 ? "compare" : "regexp");
        if (!want.empty() && (int64_t)want.size() < lim) distinct(cat(q.text(), "|", n.desc, "|", lim, "|", want.size()));
        sample(cat(ctx, " -> ", want.size(), " of ", lim));
      }
    }
  }
}

// ---------- translation maps ----------
static void mode_translate() {
  const int ncase = st().thorough ? 600 : 60;
  for (int c = 0; c < ncase && !too_many(); ++c) {
    if (st().only_case >= 0 && c != st().only_case) continue;
    Rng r = case_rng(c);
    g_enable_stringdict_parallel = r.chance(50);
    StrGen gen(r);
    std::vector<std::unique_ptr<Node>> nodes;
    const int big = r.chance(25) ? 3000 : 60;
    for (int i = 0; i < 2 + (int)r.below(4); ++i) {
      auto n = std::make_unique<Node>();
      if (nodes.empty() || r.chance(50)) {
        n->d = std::make_shared<SD>(DictRef{1, i + 1}, r.chance(50), r.pick({2, 64}));
        n->desc = cat("root", i);
      } else {
        Node* p = r.pick(nodes).get();
        int64_t g = r.chance(50) ? -1 : (int64_t)r.below(p->count() + 1);
        n->parent = p;
        n->base = g < 0 ? p->count() : g;
        n->d = std::make_shared<SD>(p->d, g, r.chance(50), r.pick({0, 16}));
        n->desc = cat("nested", i, "(", n->base, ") of ", p->desc);
      }
      if (!r.chance(15)) {
        std::vector<string> v;
        int k = r.below(big);
        for (int j = 0; j < k; ++j) v.push_back(gen.next());
        n->d->getOrAddBulk(v);
        for (auto& s : v) n->add(s);
      }
      nodes.push_back(std::move(n));
    }
    for (int op = 0; op < 12; ++op) {
      Node& s = *r.pick(nodes);
      Node& d = *r.pick(nodes);
      bool self = false;
      for (Node* a = &s; a; a = a->parent) self |= a == &d;
      string ctx = cat("case ", c, " op ", op, " ", s.desc, "[", s.count(), "] -> ", d.desc, "[", d.count(), "]");
      note(ctx);
      if (self) {
        // translating a dictionary (or one derived from it) to itself is refused; nothing is modified
        continue;
      }
      int what = r.below(3);
      if (what == 0) {
        auto m = s.d->buildIntersectionTranslationMap(d.d.get());
        bool ok = (int64_t)m.size() == s.count();
        for (int64_t i = 0; ok && i < s.count(); ++i) {
          eval();
          int32_t e = d.lookup(s.str(i));
          if (m[i] != e) { ok = false; violation("sd-translate-intersection", cat(ctx, " id ", i, " ", show(s.str(i).substr(0, 60)), " -> ", m[i], " expected ", e)); }
        }
        VH_EXPECT((int64_t)m.size() == s.count(), "sd-translate-size", ctx);
        ev("intersection");
      } else if (what == 1) {
        auto m = s.d->buildUnionTranslationMap(d.d.get());
        bool ok = (int64_t)m.size() == s.count();
        VH_EXPECT(ok, "sd-translate-size", ctx);
        for (int64_t i = 0; ok && i < s.count(); ++i) {
          eval();
          int32_t e = d.add(s.str(i));
          if (m[i] != e) { ok = false; violation("sd-translate-union", cat(ctx, " id ", i, " ", show(s.str(i).substr(0, 60)), " -> ", m[i], " expected ", e)); }
        }
        audit(d, r, ctx);
        ev("union");
      } else {
        int64_t sg = r.below(s.count() + 1), dg = r.below(d.count() + 1);
        bool tr = r.chance(50);
        std::vector<int32_t> m(sg + 1, 7777);
        std::mutex mx;
        std::map<int32_t, string> calls;
        std::set<int> known_tr;  // which strings the callback's owner knows as transients
        if (r.chance(60)) for (int i = 0; i < 7; ++i) if (r.chance(40)) known_tr.insert(i);
        size_t miss = StringDictionaryTranslator::buildDictionaryTranslationMap(s.d.get(), d.d.get(), m.data(), sg, dg, tr, [&](std::string_view sv, int32_t id) {
          std::lock_guard<std::mutex> g(mx);
          calls[id] = string(sv);
          if (!known_tr.count(id % 7)) return true;
          m[id] = -1000 - id;
          return false;
        });
        size_t em = 0;
        bool ok = true;
        for (int64_t i = 0; ok && i < sg; ++i) {
          eval();
          int32_t e = d.lookup(s.str(i));
          if (e >= dg) e = -1;
          if (e < 0 && tr && dg > 0 && known_tr.count(i % 7)) { e = -1000 - i; ev("transient_translated"); }
          else em += e < 0;
          if (m[i] != e) { ok = false; violation("sd-translate-gen", cat(ctx, " gens ", sg, "->", dg, " id ", i, " ", show(s.str(i).substr(0, 60)), " -> ", m[i], " expected ", e)); }
          if (tr && e < 0 && dg > 0) VH_EXPECT(calls.count(i) && calls[i] == s.str(i), "sd-translate-callback", ctx, " id ", i);
        }
        VH_EXPECT(m[sg] == 7777, "sd-translate-overrun", ctx);
        if (ok) VH_EXPECT(miss == em, "sd-translate-count", ctx, " gens ", sg, "->", dg, " reported ", miss, " untranslated, expected ", em);
        ev("generation_translate");
      }
      distinct(ctx);
      sample(ctx);
    }
  }
}

// ---------- concurrency ----------
struct Ev {
  int kind;  // 0 add, 1 lookup, 2 count, 3 getString, 4 search, 5 copyStrings, 6 getStringBytes
  string s;
  int32_t id;
  int64_t n;
  uint64_t t0, t1;
  int q = -1;
  std::vector<int32_t> ids;
};
static std::atomic<uint64_t> g_clock{1};

static void mode_conc() {
  tbb::global_control gc(tbb::global_control::max_allowed_parallelism, 1);
  const int rounds = st().thorough ? 400 : 40;
  for (int c = 0; c < rounds && !too_many(); ++c) {
    if (st().only_case >= 0 && c != st().only_case) continue;
    Rng r0 = case_rng(c);
    g_enable_stringdict_parallel = r0.chance(40);
    const bool nested = r0.chance(50);
    const int T = r0.range(3, 6);
    auto root = std::make_shared<SD>(DictRef{1, 7}, r0.chance(50), r0.pick({2, 16, 256}));
    std::vector<string> base0;
    int pre = nested ? r0.below(30) : 0;
    for (int i = 0; i < pre; ++i) base0.push_back(cat("b", i));
    root->getOrAddBulk(base0);
    std::shared_ptr<SD> d = nested ? std::make_shared<SD>(root, -1, r0.chance(50), 2) : root;
    const int64_t bg = nested ? pre : 0;
    const int universe = r0.pick({20, 200, 2000});
    const int per = st().thorough ? 300 : 160;
    const bool searches = r0.chance(70);
    auto sname = [&](int i) { return cat("s", i, string(i % 7, 'x')); };
    std::vector<std::vector<Ev>> log(T);
    std::vector<Search> qs;
    for (int i = 0; i < 6; ++i) {
      Search q;
      if (i < 2) { q.kind = 0; q.pat = i ? "%1%" : "s_x%"; }
      else if (i < 5) { q.kind = 1; q.op = i == 2 ? "=" : i == 3 ? "<" : "<>"; q.pat = sname(r0.below(universe)); }
      else { q.kind = 2; q.re.k = vstr::Re::Cat; vstr::Re a, b; a.k = vstr::Re::Dot; b.k = vstr::Re::Star; vstr::Re e; e.k = vstr::Re::Cls; e.chars = "13579sx"; b.sub = {e}; q.re.sub = {a, b}; q.pat = vstr::re_str(q.re); }
      qs.push_back(q);
    }
    std::atomic<int> ready{0};
    auto worker = [&](int t) {
      Rng r(r0.s ^ (t * 7919 + 13));
      auto& L = log[t];
      L.reserve(per * 4);
      ready++;
      while (ready < T) {}
      int64_t known = bg;
      for (int k = 0; k < per; ++k) {
        int w = r.below(100);
        if (r.chance(10)) std::this_thread::yield();
        if (r.chance(2)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(200)));
        if (w < 35) {
          Ev e{0, sname(r.below(universe)), 0, 0, g_clock++, 0};
          e.id = d->getOrAdd(e.s);
          e.t1 = g_clock++;
          L.push_back(e);
        } else if (w < 55) {
          int n = r.range(1, 12);
          std::vector<string> v;
          for (int i = 0; i < n; ++i) v.push_back(sname(r.below(universe)));
          uint64_t t0 = g_clock++;
          auto out = d->getOrAddBulk(v);
          uint64_t t1 = g_clock++;
          for (int i = 0; i < n; ++i) L.push_back(Ev{0, v[i], out[i], 0, t0, t1});
        } else if (w < 70) {
          Ev e{1, sname(r.below(universe)), 0, 0, g_clock++, 0};
          e.id = d->getIdOfString(e.s);
          e.t1 = g_clock++;
          L.push_back(e);
        } else if (w < 76) {
          int n = r.range(1, 12);
          std::vector<string> v;
          for (int i = 0; i < n; ++i) v.push_back(sname(r.below(universe)));
          std::vector<int32_t> out(n);
          uint64_t t0 = g_clock++;
          d->getBulk(v, out.data());
          uint64_t t1 = g_clock++;
          for (int i = 0; i < n; ++i) L.push_back(Ev{1, v[i], out[i], 0, t0, t1});
        } else if (w < 84) {
          Ev e{2, "", 0, 0, g_clock++, 0};
          e.n = d->entryCount();
          e.t1 = g_clock++;
          L.push_back(e);
          known = e.n;
        } else if (w < 93) {
          if (!known) continue;
          Ev e{3, "", (int32_t)r.below(known), 0, g_clock++, 0};
          if (r.chance(50)) {
            e.s = d->getString(e.id);
          } else {
            // the bytes are only usable while nobody adds, so only the length is recorded
            e.kind = 6;
            e.n = d->getStringBytes(e.id).second;
            for (int k = 0; k < 60; ++k)
              if ((int64_t)d->getStringBytes(e.id).second != e.n) { e.n = -1; break; }
          }
          e.t1 = g_clock++;
          L.push_back(e);
        } else if (searches && w < 97) {
          Ev e{4, "", 0, r.chance(50) ? -1 : (int64_t)r.below(known + 1), g_clock++, 0};
          e.q = r.below(qs.size());
          e.ids = sorted(qs[e.q].run(*d, e.n));
          e.t1 = g_clock++;
          L.push_back(e);
        } else if (searches) {
          Ev e{5, "", 0, r.chance(50) ? -1 : (int64_t)r.below(known + 1), g_clock++, 0};
          auto v = d->copyStrings(e.n);
          e.t1 = g_clock++;
          e.id = v.size();
          e.s = "";
          for (auto& x : v) e.s += x + "\n";
          L.push_back(e);
        }
      }
    };
    note(cat("conc case ", c, " threads=", T, " universe=", universe, " nested=", nested));
    std::vector<std::thread> th;
    for (int t = 0; t < T; ++t) th.emplace_back(worker, t);
    if (nested)  // the base keeps growing underneath; its new strings must stay invisible
      th.emplace_back([&] {
        Rng r(r0.s + 99);
        for (int k = 0; k < per; ++k) {
          root->getOrAdd(sname(r.below(universe)));
          if (r.chance(10)) std::this_thread::yield();
        }
      });
    for (auto& x : th) x.join();
    // ---- offline check of the recorded history against a grow-only map ----
    const int64_t N = d->entryCount();
    std::vector<string> fin(N);
    std::map<string, int32_t> rev;
    for (int64_t i = 0; i < N; ++i) {
      fin[i] = d->getString(i);
      if (!rev.emplace(fin[i], i).second) violation("sd-conc-duplicate", cat("case ", c, " string ", show(fin[i]), " has two ids"));
      if (i < bg) VH_EXPECT(fin[i] == base0[i], "sd-conc-base", "case ", c, " id ", i);
    }
    const uint64_t INF = ~0ull;
    std::vector<uint64_t> min_add(N, INF), min_obs(N, INF);
    for (int64_t i = 0; i < bg; ++i) min_add[i] = min_obs[i] = 0;
    uint64_t nev = 0, overlaps = 0;
    for (auto& L : log)
      for (auto& e : L) {
        ++nev;
        if (e.kind == 0) {
          if (e.id < 0 || e.id >= N || fin[e.id] != e.s) { violation("sd-conc-id", cat("case ", c, " add ", show(e.s), " returned ", e.id, " which is not its id at the end")); continue; }
          min_add[e.id] = std::min(min_add[e.id], e.t0);
          min_obs[e.id] = std::min(min_obs[e.id], e.t1);
        } else if (e.kind == 1 && e.id >= 0) {
          if (e.id >= N || fin[e.id] != e.s) { violation("sd-conc-id", cat("case ", c, " lookup ", show(e.s), " returned ", e.id)); continue; }
          min_obs[e.id] = std::min(min_obs[e.id], e.t1);
        }
      }
    for (int64_t i = bg; i < N; ++i) VH_EXPECT(min_add[i] != INF, "sd-conc-phantom", "case ", c, " id ", i, " ", show(fin[i]), " was never added");
    // ids are handed out in order: i<j means i was assigned first
    uint64_t best = INF;
    for (int64_t j = N - 1; j >= 0; --j) {
      if (best != INF && min_add[j] > best && j >= bg)
        violation("sd-conc-order", cat("case ", c, " id ", j, " first requested at ", min_add[j], " after a larger id had been returned at ", best));
      best = std::min(best, min_obs[j]);
    }
    auto count_before = [&](uint64_t t) { int64_t n = 0; for (int64_t i = 0; i < N; ++i) if (min_obs[i] < t) n = i + 1; return n; };
    auto count_max = [&](uint64_t t) { int64_t n = N; for (int64_t i = 0; i < N; ++i) if (min_add[i] > t) { n = i; break; } return n; };
    for (auto& L : log)
      for (auto& e : L) {
        eval();
        if (e.kind == 1 && e.id < 0) {
          auto it = rev.find(e.s);
          if (it != rev.end() && min_obs[it->second] < e.t0) violation("sd-conc-stale", cat("case ", c, " lookup of ", show(e.s), " missed a string already visible"));
        } else if (e.kind == 2) {
          if (e.n < count_before(e.t0) || e.n > count_max(e.t1)) violation("sd-conc-count", cat("case ", c, " entryCount=", e.n, " not within [", count_before(e.t0), ",", count_max(e.t1), "]"));
        } else if (e.kind == 3) {
          if (e.s != fin[e.id]) violation("sd-conc-string", cat("case ", c, " getString(", e.id, ")=", show(e.s), " expected ", show(fin[e.id])));
        } else if (e.kind == 6) {
          if (e.n != (int64_t)fin[e.id].size()) violation("sd-conc-string", cat("case ", c, " getStringBytes(", e.id, ") has ", e.n, " bytes, expected ", fin[e.id].size()));
          ev("string_bytes");
        } else if (e.kind == 4) {
          int64_t lo = e.n >= 0 ? e.n : count_before(e.t0), hi = e.n >= 0 ? e.n : count_max(e.t1);
          std::set<int32_t> got(e.ids.begin(), e.ids.end());
          for (int64_t i = 0; i < N; ++i) {
            bool m = qs[e.q].ref(fin[i]);
            bool in = got.count(i) > 0;
            if ((in && (!m || i >= hi)) || (!in && m && i < lo)) {
              violation("sd-conc-search", cat("case ", c, " ", qs[e.q].text(), " gen=", e.n, " id ", i, " ", show(fin[i]), " reported=", in));
              break;
            }
          }
          ev("conc_search");
        } else if (e.kind == 5) {
          int64_t lo = e.n >= 0 ? e.n : count_before(e.t0), hi = e.n >= 0 ? e.n : count_max(e.t1);
          string want;
          for (int64_t i = 0; i < std::min<int64_t>(e.id, N); ++i) want += fin[i] + "\n";
          if (e.id < lo || e.id > hi || want != e.s) violation("sd-conc-copy", cat("case ", c, " copyStrings(", e.n, ") size ", e.id, " allowed [", lo, ",", hi, "]"));
          ev("conc_copy");
        }
      }
    // how interleaved the history was: operations that overlapped another thread's operation
    std::vector<std::tuple<uint64_t, int>> starts;
    string sig = cat(c, ":");
    std::vector<std::pair<uint64_t, int>> order;
    for (int t = 0; t < T; ++t)
      for (auto& e : log[t]) order.push_back({e.t1, t});
    std::sort(order.begin(), order.end());
    for (size_t i = 1; i < order.size(); ++i) overlaps += order[i].second != order[i - 1].second;
    for (auto& o : order) sig += char('a' + o.second);
    distinct(sig);
    ev("history_events", nev);
    ev("thread_switches_in_history", overlaps);
    sample(cat("history: threads=", T, " universe=", universe, " nested=", nested, " parallel=", g_enable_stringdict_parallel, " events=", nev, " switches=", overlaps, " strings=", N));
  }
}

int main(int argc, char** argv) {
  init(argc, argv);
  logger::LogOptions lo("h_sd");
  lo.severity_ = logger::Severity::FATAL;
  lo.severity_clog_ = logger::Severity::FATAL;
  logger::init(lo);
  auto& m = st().mode;
  if (m == "ids") mode_ids();
  else if (m == "search") mode_search();
  else if (m == "translate") mode_translate();
  else if (m == "conc") mode_conc();
  else return 3;
  return finish();
}
