// Buffer pools, buffer pool concurrency.
#include "vh.h"

#include "DataMgr/BufferMgr/CpuBufferMgr/CpuBufferMgr.h"
#include "DataMgr/BufferMgr/CpuBufferMgr/TieredCpuBufferMgr.h"
#include "DataMgr/BufferMgr/GpuBufferMgr/GpuBufferMgr.h"
#include "DataMgr/BufferMgr/Buffer.h"
#include "DataMgr/ChunkMetadata.h"
#include "DataMgr/Encoder.h"
#include "IR/Context.h"

#include <condition_variable>
#include <thread>

using namespace vh;
using namespace Buffer_Namespace;
using std::string;
using Bytes = std::vector<int8_t>;

static const hdk::ir::Type* the_type() {
  static const hdk::ir::Type* t = hdk::ir::Context::defaultCtx().int8();
  return t;
}

static void sched_delay(Rng& r) {
  int k = r.below(40);
  if (k < 6) std::this_thread::yield();
  else if (k == 6) usleep(r.below(60));
}

// A device whose memory is ordinary memory, tagged so that host and device pointers cannot be mixed up.
struct FakeGpu : GpuMgr {
  std::mutex m;
  std::map<int8_t*, size_t> mem;
  size_t total = 0, fail_above = ~0ull;
  bool own(const int8_t* p, size_t n) {
    std::lock_guard<std::mutex> g(m);
    auto it = mem.upper_bound(const_cast<int8_t*>(p));
    if (it == mem.begin()) return false;
    --it;
    return p + n <= it->first + it->second;
  }
  void need(const int8_t* p, size_t n, bool dev) {
    if (own(p, n) != dev) violation("device-pointer", cat("copy of ", n, " bytes with a ", dev ? "host" : "device", " address where the other kind is needed"));
  }
  void copyHostToDevice(int8_t* d, const int8_t* h, const size_t n, const int) override { need(d, n, true); need(h, n, false); memcpy(d, h, n); }
  void copyHostToDeviceAsync(int8_t* d, const int8_t* h, const size_t n, const int dev) override { copyHostToDevice(d, h, n, dev); }
  void synchronizeStream(const int) override {}
  void copyDeviceToHost(int8_t* h, const int8_t* d, const size_t n, const int) override { need(d, n, true); need(h, n, false); memcpy(h, d, n); }
  void copyDeviceToDevice(int8_t* d, int8_t* s, const size_t n, const int, const int) override { need(d, n, true); need(s, n, true); memmove(d, s, n); }
  void zeroDeviceMem(int8_t* d, const size_t n, const int) override { memset(d, 0, n); }
  void setDeviceMem(int8_t* d, const unsigned char c, const size_t n, const int) override { memset(d, c, n); }
  int8_t* allocateDeviceMem(const size_t n, const int) override {
    std::lock_guard<std::mutex> g(m);
    if (n > fail_above) throw DeviceException("out of device memory");
    int8_t* p = (int8_t*)malloc(n);
    mem[p] = n;
    total += n;
    return p;
  }
  void freeDeviceMem(int8_t* p) override {
    std::lock_guard<std::mutex> g(m);
    auto it = mem.find(p);
    if (it == mem.end()) { violation("device-free", "freeing device memory which is not allocated"); return; }
    total -= it->second;
    mem.erase(it);
    free(p);
  }
  void setContext(const int) const override {}
  void synchronizeDevices() const override {}
  int getDeviceCount() const override { return 1; }
  GpuMgrPlatform getPlatform() const override { return GpuMgrPlatform::CUDA; }
  size_t getTotalMem(const int) const override { return 1 << 30; }
  uint32_t getMaxBlockSize() const override { return 1; }
  int8_t getSubGroupSize() const override { return 1; }
  uint32_t getGridSize() const override { return 1; }
  uint32_t getMinEUNumForAllDevices() const override { return 1; }
  bool hasSharedMemoryAtomicsSupport() const override { return false; }
  bool canLoadAsync() const override { return false; }
  size_t getMinSharedMemoryPerBlockForAllDevices() const override { return 0; }
};

struct FetchFailed : std::runtime_error {
  FetchFailed() : std::runtime_error("injected fetch failure") {}
};

// The storage behind the pool: content of every chunk is a function of its key and version.
struct Source : AbstractBufferMgr {
  struct Token : AbstractDataToken {
    Bytes data;
    std::atomic<int>* live;
    Token(Bytes d, std::atomic<int>* l) : data(std::move(d)), live(l) { ++*live; }
    ~Token() override { --*live; }
    const int8_t* getMemoryPtr() const override { return data.data(); }
    size_t getSize() const override { return data.size(); }
    const hdk::ir::Type* getType() const override { return the_type(); }
  };
  std::mutex m;
  std::map<ChunkKey, size_t> sizes;
  std::set<ChunkKey> zero_copy;
  std::map<ChunkKey, int> in_fetch;
  std::atomic<int> tokens{0}, fetches{0}, failures{0};
  std::atomic<int> fail_pct{0};
  std::atomic<uint64_t> rnd{1};
  bool stress = false;

  Source() : AbstractBufferMgr(0) {}
  static int8_t at(const ChunkKey& k, size_t i) {
    uint64_t h = 0;
    for (int x : k) h = h * 1000003 + (uint32_t)x + 7;
    h += (i / 8) * 0x9E3779B97F4A7C15ull;
    h ^= h >> 29;
    h *= 0xBF58476D1CE4E5B9ull;
    return (int8_t)(h >> (8 * (i % 8)));
  }
  static Bytes content(const ChunkKey& k, size_t n) {
    Bytes b(n);
    for (size_t i = 0; i < n; ++i) b[i] = at(k, i);
    return b;
  }
  void fetchBuffer(const ChunkKey& key, AbstractBuffer* dest, const size_t n) override {
    ++fetches;
    {
      std::lock_guard<std::mutex> g(m);
      if (++in_fetch[key] > 1) violation("parallel-fetch", "the same chunk is fetched by two threads at once");
    }
    struct Done {
      Source* s;
      const ChunkKey& k;
      ~Done() {
        std::lock_guard<std::mutex> g(s->m);
        --s->in_fetch[k];
      }
    } done{this, key};
    Rng r(rnd.fetch_add(1));
    if (stress) sched_delay(r);
    bool fail = r.chance(fail_pct);
    if (!fail) {
      size_t want = n ? n : sizes.at(key);
      dest->reserve(want);
      Bytes b = content(key, want);
      if (dest->size() < want) {
        size_t have = dest->size();
        dest->append(b.data() + have, want - have, Data_Namespace::CPU_LEVEL, 0);
      }
      if (stress) sched_delay(r);
      dest->initEncoder(the_type());
    }
    if (fail) { ++failures; throw FetchFailed(); }
  }
  std::unique_ptr<AbstractDataToken> getZeroCopyBufferMemory(const ChunkKey& key, size_t n) override {
    if (!zero_copy.count(key)) return nullptr;
    return std::make_unique<Token>(content(key, n ? n : sizes.at(key)), &tokens);
  }
  std::unique_ptr<AbstractDataToken> getZeroCopyColumnData(const ColumnRef&) override { return nullptr; }
  AbstractBuffer* createBuffer(const ChunkKey&, const size_t, const size_t) override { abort(); }
  AbstractBuffer* createZeroCopyBuffer(const ChunkKey&, std::unique_ptr<AbstractDataToken>) override { abort(); }
  void deleteBuffer(const ChunkKey&, const bool) override {}
  void deleteBuffersWithPrefix(const ChunkKey&, const bool) override {}
  AbstractBuffer* getBuffer(const ChunkKey&, const size_t) override { abort(); }
  void getChunkMetadataVecForKeyPrefix(ChunkMetadataVector&, const ChunkKey&) override {}
  bool isBufferOnDevice(const ChunkKey&) override { return false; }
  string printSlabs() override { return ""; }
  size_t getMaxSize() override { return 0; }
  size_t getInUseSize() override { return 0; }
  size_t getAllocated() override { return 0; }
  bool isAllocationCapped() override { return false; }
  const DictDescriptor* getDictMetadata(int, bool) override { return nullptr; }
  std::shared_ptr<const TableFragmentsInfo> getTableMetadata(int, int) const override { return nullptr; }
  AbstractBuffer* alloc(const size_t) override { abort(); }
  void free(AbstractBuffer*) override {}
  MgrType getMgrType() override { return PERSISTENT_STORAGE_MGR; }
  string getStringMgrType() override { return "src"; }
  size_t getNumChunks() override { return 0; }
};

struct Cfg {
  size_t page, min_slab, max_slab, pool;
  int kind;  // 0 cpu, 1 tiered, 2 gpu over cpu, 3 cpu over cpu
  string text() const { return cat("kind", kind, " page", page, " slab", min_slab / page, "-", max_slab / page, " pool", pool / page); }
};

struct Pool {
  FakeGpu gpu;
  Source src;
  std::unique_ptr<BufferMgr> lower, top;
  Cfg c;
  explicit Pool(const Cfg& cfg) : c(cfg) {
    switch (c.kind) {
      case 0: top = std::make_unique<CpuBufferMgr>(0, c.pool, &gpu, c.min_slab, c.max_slab, c.page, &src); break;
      case 1: top = std::make_unique<TieredCpuBufferMgr>(0, c.pool, &gpu, c.min_slab, c.max_slab, c.page, Data_Namespace::CpuTierSizeVector{c.pool / 2, c.pool - c.pool / 2}, &src); break;
      case 2:
        lower = std::make_unique<CpuBufferMgr>(0, c.pool * 4, &gpu, c.max_slab * 2, c.max_slab * 4, c.page, &src);
        top = std::make_unique<GpuBufferMgr>(0, c.pool, &gpu, c.min_slab, c.max_slab, c.page, lower.get());
        break;
      default:
        lower = std::make_unique<CpuBufferMgr>(0, c.pool * 4, &gpu, c.max_slab * 2, c.max_slab * 4, c.page, &src);
        top = std::make_unique<CpuBufferMgr>(0, c.pool, &gpu, c.min_slab, c.max_slab, c.page, lower.get());
    }
  }
  ~Pool() {
    top.reset();
    lower.reset();
    if (src.tokens != 0) violation("token-leak", cat(src.tokens.load(), " zero-copy tokens are still held after the pool is gone: ", c.text()));
    if (!gpu.mem.empty()) violation("device-leak", "device memory is not released by the pool");
  }
};

static string layout_error(BufferMgr& mgr, const Cfg& c, size_t* in_use = nullptr) {
  auto mi = mgr.getMemoryInfo();
  size_t alloc = mi.numPageAllocated, used = 0;
  if (mi.pageSize != c.page) return cat("page size is ", mi.pageSize);
  if (alloc * c.page > c.pool) return cat("allocated ", alloc, " pages of ", c.pool / c.page);
  std::map<size_t, size_t> next;
  std::set<ChunkKey> keys;
  for (auto& d : mi.nodeMemoryData) {
    size_t& n = next[d.slabNum];
    if ((size_t)d.startPage != n) return cat("slab ", d.slabNum, " has a gap or an overlap at page ", n, " (next segment starts at ", d.startPage, ")");
    n += d.numPages;
    if (d.memStatus == USED) {
      used += d.numPages;
      ChunkKey k(d.chunk_key.begin(), d.chunk_key.end());
      if (!k.empty() && !keys.insert(k).second) return "one chunk has two segments";
    }
  }
  size_t tot = 0;
  for (auto& [s, n] : next) {
    tot += n;
    if (n * c.page > c.max_slab) return cat("slab ", s, " has ", n, " pages");
  }
  if (tot != alloc) return cat("segments cover ", tot, " pages of ", alloc, " allocated");
  if (in_use) *in_use = used * c.page;
  return "";
}

// ------------------------------------------------------------------ sequential histories
struct Held {
  ChunkKey key;
  AbstractBuffer* b = nullptr;
  Bytes data;
  int pins = 1;
  bool zero = false, mine = false;  // mine: created by the harness, not backed by the source
};

static void read_all(AbstractBuffer* b, Bytes& out) {
  out.resize(b->size());
  if (!out.empty()) b->read(out.data(), out.size(), 0, Data_Namespace::CPU_LEVEL, 0);
}

// Is there a run of segments that are free or not pinned with at least n pages?
static bool run_available(BufferMgr& mgr, const std::map<ChunkKey, Held>& held, size_t n) {
  auto mi = mgr.getMemoryInfo();
  size_t run = 0, slab = ~0ull;
  for (auto& d : mi.nodeMemoryData) {
    if (d.slabNum != slab) { slab = d.slabNum; run = 0; }
    bool pinned = false;
    if (d.memStatus == USED) {
      auto it = held.find(ChunkKey(d.chunk_key.begin(), d.chunk_key.end()));
      pinned = it != held.end() && it->second.pins > 0;
    }
    run = pinned ? 0 : run + d.numPages;
    if (!pinned && run >= n) return true;
  }
  return false;
}

static void mode_pool() {
  long cases = st().thorough ? 20000 : 3000;
  for (long n = 0; n < cases && !too_many(); ++n) {
    if (st().only_case >= 0 && n != st().only_case) continue;
    Rng r = case_rng(n);
    Cfg c;
    c.page = r.pick({64, 128, 512});
    c.max_slab = c.page * r.pick({4, 8, 16, 32});
    c.min_slab = c.page * r.pick({1, 2, 4});
    c.pool = c.max_slab * r.pick({1, 2, 3}) + (r.chance(40) ? c.page * r.below(c.max_slab / c.page) : 0);
    c.kind = r.pick({0, 0, 0, 1, 2, 3});
    Pool P(c);
    if (c.kind == 2 && r.chance(30)) P.gpu.fail_above = c.max_slab / r.pick({1, 2, 3});
    bool limited = P.gpu.fail_above != ~0ull;
    BufferMgr& mgr = *P.top;
    std::map<ChunkKey, Held> held;                // chunks the pool has to know, pinned or evictable
    std::vector<Held> detached;                   // zero-copy buffers: not in the index
    int nkeys = r.pick({3, 8, 20});
    auto key_of = [&](int i) { return ChunkKey{1, 1 + i % 3, i, 1}; };
    for (int i = 0; i < nkeys; ++i) {
      ChunkKey k = key_of(i);
      P.src.sizes[k] = 1 + r.below(r.chance(20) ? c.max_slab + c.max_slab / 4 : c.max_slab / 2);
      if (r.chance(10)) P.src.zero_copy.insert(k);
    }
    P.src.rnd = r.next();
    int ops = 60 + r.below(120);
    string hist = c.text();
    auto pages = [&](size_t b) { return (b + c.page - 1) / c.page; };
    auto can_add = [&](size_t np) {
      size_t left = c.pool / c.page - mgr.size();
      return np <= std::min(left, c.max_slab / c.page);
    };
    auto err = [&](const string& key, const string& what) { violation(key, cat("case ", n, " ", hist.size() > 1500 ? c.text() + " ..." + hist.substr(hist.size() - 1400) : hist, ": ", what)); };
    auto check = [&](bool deep) {
      size_t used = 0;
      string e = layout_error(mgr, c, &used);
      eval();
      if (!e.empty()) { err("pool-layout", e); return; }
      if (used != mgr.getInUseSize()) err("pool-accounting", cat("in use size ", mgr.getInUseSize(), " but segments in use hold ", used));
      if (!deep) return;
      Bytes got;
      for (auto& [k, h] : held) {
        if (h.pins <= 0) continue;
        eval();
        if (!mgr.isBufferOnDevice(k)) { err("pinned-evicted", "a pinned chunk is not in the pool any more"); continue; }
        if (h.b->size() != h.data.size()) { err("buffer-size", cat("size ", h.b->size(), " of ", h.data.size())); continue; }
        read_all(h.b, got);
        if (got != h.data) err("buffer-content", "content of a pinned buffer changed");
        if (h.b->getPinCount() != h.pins) err("pin-count", cat("pin count ", h.b->getPinCount(), " of ", h.pins));
      }
      for (auto& h : detached) {
        read_all(h.b, got);
        if (got != h.data) err("buffer-content", "content of a zero-copy buffer changed");
      }
    };
    auto drop_unpinned_evicted = [&]() {
      for (auto it = held.begin(); it != held.end();)
        if (it->second.pins == 0 && !mgr.isBufferOnDevice(it->first)) it = held.erase(it);
        else ++it;
    };
    for (int op = 0; op < ops && !too_many(); ++op) {
      int what = r.below(100);
      drop_unpinned_evicted();
      if (what < 34) {  // get a chunk
        ChunkKey k = key_of(r.below(nkeys));
        size_t full = P.src.sizes[k];
        size_t ask = r.chance(70) ? full : 1 + r.below(full);
        auto it = held.find(k);
        if (it != held.end() && it->second.mine) continue;
        bool zero = P.src.zero_copy.count(k) && c.kind != 2;
        size_t have = it == held.end() ? 0 : it->second.data.size();
        // growing a buffer that others hold moves it: the engine never asks for it
        if (it != held.end() && it->second.pins > 0 && ask > have) ask = have;
        if (it != held.end() && ask == 0) continue;
        bool present = it != held.end();
        bool must = zero || (present && ask <= have) || (!limited && c.kind != 1 && pages(ask) <= c.max_slab / c.page && !present && can_add(pages(ask))) ||
                    (pages(ask) <= c.max_slab / c.page && !present && run_available(mgr, held, pages(ask)));
        bool mustnt = !zero && !present && (pages(ask) > c.max_slab / c.page || (!run_available(mgr, held, pages(ask)) && !can_add(pages(ask))));
        P.src.fail_pct = c.kind <= 1 && r.chance(10) ? 100 : 0;
        int f0 = P.src.failures;
        hist += cat(" get(", k[2], ",", ask, ")");
        note(hist);
        try {
          AbstractBuffer* b = mgr.getBuffer(k, ask);
          ev("get_buffer");
          if (P.src.failures != f0) err("fetch-failure", "a failed fetch was reported as success");
          if (mustnt) err("capacity", "a chunk was provided although no space can be made for it");
          Bytes got;
          read_all(b, got);
          Bytes want = Source::content(k, std::max(ask, have));
          if (zero && !present) want = Source::content(k, ask);
          if (got.size() < ask || got != Bytes(want.begin(), want.begin() + std::min(want.size(), got.size()))) err("wrong-content", cat("chunk ", k[2], ": ", got.size(), " bytes, asked for ", ask, ", differ from the source"));
          if (zero && !present) {
            Held h;
            h.key = k;
            h.b = b;
            h.data = got;
            h.zero = true;
            detached.push_back(h);
            ev("zero_copy");
          } else {
            auto& h = held[k];
            if (present) {
              h.pins++;
              if (h.b != b) err("same-chunk", "two buffers for one chunk");
            }
            h.key = k;
            h.b = b;
            h.data = got;
          }
        } catch (OutOfMemory&) {
          ev("oom");
          hist += "OOM";
          if (must) err("needless-oom", cat("out of memory although ", pages(ask), " pages can be provided"));
          // a chunk that could not grow stays what it was
          if (!present && mgr.isBufferOnDevice(k)) err("oom-chunk", "a chunk that could not be provided is in the pool");
        } catch (FetchFailed&) {
          ev("fetch_failed");
          hist += "FAIL";
          eval();
          if (!present && mgr.isBufferOnDevice(k)) {
            mgr.deleteBuffersWithPrefix(k);
            if (mgr.isBufferOnDevice(k)) err("failed-fetch-pinned", "a chunk whose fetch failed stays pinned in the pool");
          }
        }
        P.src.fail_pct = 0;
      } else if (what < 54) {  // release
        std::vector<ChunkKey> ks;
        for (auto& [k, h] : held) if (h.pins > 0) ks.push_back(k);
        if (!detached.empty() && r.chance(30)) {
          size_t i = r.below(detached.size());
          detached[i].b->unPin();
          detached.erase(detached.begin() + i);
          continue;
        }
        if (ks.empty()) continue;
        auto& h = held[r.pick(ks)];
        hist += cat(" unpin(", h.key[2 < h.key.size() ? 2 : 1], ")");
        h.b->unPin();
        h.pins--;
        ev("unpin");
      } else if (what < 70) {  // allocate a scratch buffer
        size_t sz = r.chance(10) ? 0 : 1 + r.below(r.chance(15) ? c.max_slab * 5 / 4 : c.max_slab / 2);
        size_t np = pages(sz);
        bool fits = np <= c.max_slab / c.page;
        bool avail = sz == 0 || (fits && run_available(mgr, held, np));
        bool add = fits && can_add(np);
        hist += cat(" alloc(", sz, ")");
        note(hist);
        try {
          AbstractBuffer* b = mgr.alloc(sz);
          ev("alloc");
          if (!avail && !add && sz) err("capacity", "memory was provided although no space can be made for it");
          if (b->reservedSize() < sz) err("alloc-size", "less memory reserved than asked for");
          Held h;
          h.b = b;
          h.mine = true;
          auto mi = mgr.getMemoryInfo();
          h.key = {-1, -1};
          // the key of a scratch buffer is known to the pool only: find it through the segments
          std::set<ChunkKey> now;
          for (auto& d : mi.nodeMemoryData) if (d.memStatus == USED && d.chunk_key.size() == 2) now.insert(ChunkKey(d.chunk_key.begin(), d.chunk_key.end()));
          for (auto& k : now) if (!held.count(k)) h.key = k;
          if (sz == 0 || h.key[1] == -1) {
            mgr.free(b);
            if (sz) err("alloc-segment", "a scratch buffer has no segment");
            continue;
          }
          held[h.key] = h;
        } catch (OutOfMemory&) {
          ev("oom");
          hist += "OOM";
          if (avail || (add && !limited && c.kind != 1)) err("needless-oom", cat("out of memory although ", np, " pages can be provided"));
        }
      } else if (what < 84) {  // write to or grow a scratch buffer
        std::vector<ChunkKey> ks;
        for (auto& [k, h] : held) if (h.mine && h.pins > 0) ks.push_back(k);
        if (ks.empty()) continue;
        auto& h = held[r.pick(ks)];
        size_t room = c.max_slab / 3;
        int w = r.below(3);
        Bytes d(1 + r.below(room));
        for (auto& x : d) x = (int8_t)r.next();
        size_t off = w == 0 ? h.data.size() : r.below(h.data.size() + 1);
        size_t end = off + d.size();
        bool grows = end > h.b->reservedSize();
        bool fits = pages(end) <= c.max_slab / c.page;
        bool avail = !grows || (fits && run_available(mgr, held, pages(end)));
        hist += cat(w == 0 ? " append(" : w == 1 ? " write(" : " reserve(", h.key[1], ",", off, ",", d.size(), ")");
        note(hist);
        try {
          if (w == 0) h.b->append(d.data(), d.size(), Data_Namespace::CPU_LEVEL, 0);
          else if (w == 1) h.b->write(d.data(), d.size(), off, Data_Namespace::CPU_LEVEL, 0);
          else h.b->reserve(end);
          ev(grows ? "grow" : "write");
          if (w < 2) {
            if (h.data.size() < end) h.data.resize(end);
            std::copy(d.begin(), d.end(), h.data.begin() + off);
            if (!h.b->isDirty()) err("dirty-flag", "a written buffer is not dirty");
          }
          if (h.b->reservedSize() < end) err("alloc-size", "less memory reserved than written");
        } catch (OutOfMemory&) {
          ev("oom");
          hist += "OOM";
          if (avail) err("needless-oom", cat("out of memory while growing to ", pages(end), " pages"));
        }
      } else if (what < 92) {  // free a scratch buffer
        std::vector<ChunkKey> ks;
        for (auto& [k, h] : held) if (h.mine) ks.push_back(k);
        if (ks.empty()) continue;
        ChunkKey k = r.pick(ks);
        hist += cat(" free(", k[1], ")");
        note(hist);
        mgr.free(held[k].b);
        held.erase(k);
        if (mgr.isBufferOnDevice(k)) err("free", "a freed buffer is still in the pool");
        ev("free");
      } else if (what < 97) {  // drop a table
        ChunkKey p{1, (int)(1 + r.below(3))};
        if (r.chance(40)) p.push_back(r.below(nkeys));
        hist += cat(" drop(", p[1], p.size() > 2 ? cat(",", p[2]) : string(), ")");
        note(hist);
        mgr.deleteBuffersWithPrefix(p);
        ev("drop");
        for (auto it = held.begin(); it != held.end();) {
          auto& h = it->second;
          bool match = it->first.size() >= p.size() && std::equal(p.begin(), p.end(), it->first.begin());
          bool there = mgr.isBufferOnDevice(it->first);
          if (match && h.pins == 0) {
            if (there) err("drop", "an unpinned chunk of a dropped table is still in the pool");
            it = held.erase(it);
          } else {
            if (!there) err("drop", match ? "a pinned chunk is removed" : "a chunk of another table is removed");
            ++it;
          }
        }
      } else if (what < 98 || c.kind == 2) {
        size_t cnt = 0;
        for (auto& [k, h] : held) cnt += mgr.isBufferOnDevice(k);
        if (mgr.getNumChunks() != cnt) err("chunk-count", cat("pool counts ", mgr.getNumChunks(), " chunks, ", cnt, " expected"));
        ev("count");
      } else {  // release everything unpinned
        bool pinned = false;
        for (auto& [k, h] : held) pinned |= h.pins > 0;
        hist += " clear";
        note(hist);
        mgr.clearSlabs();
        ev(pinned ? "clear_partial" : "clear_all");
        for (auto it = held.begin(); it != held.end();)
          if (it->second.pins == 0) {
            if (mgr.isBufferOnDevice(it->first)) err("clear", "an unpinned chunk survives clearing");
            it = held.erase(it);
          } else ++it;
        if (!pinned && mgr.getInUseSize() != 0) err("clear", "memory in use after clearing");
        if (!pinned && mgr.getAllocated() != 0) err("clear", "memory allocated after clearing");
      }
      check(op % 4 == 0);
    }
    check(true);
    distinct(hist);
    sample(hist);
    for (auto& h : detached) h.b->unPin();
    for (auto& [k, h] : held) for (; h.pins > 0; --h.pins) h.b->unPin();
  }
}

// ------------------------------------------------------------------ concurrent use
static void mode_conc() {
#ifdef VERIF_VARIANT_tsan
  long cases = st().thorough ? 4000 : 500;
#else
  long cases = st().thorough ? 20000 : 2500;
#endif
  for (long n = 0; n < cases && !too_many(); ++n) {
    if (st().only_case >= 0 && n != st().only_case) continue;
    Rng r = case_rng(n);
    Cfg c;
    c.page = r.pick({64, 512});
    c.max_slab = c.page * r.pick({8, 16, 32});
    c.min_slab = c.page;
    c.pool = c.max_slab * r.pick({1, 2, 3});
    c.kind = r.pick({0, 0, 1, 2, 3});
    Pool P(c);
    P.src.stress = true;
    P.src.rnd = r.next();
    int nthreads = r.pick({2, 3, 4}), nkeys = r.pick({2, 4, 10});
    for (int i = 0; i < nkeys; ++i) {
      ChunkKey k{1, 1 + i % 2, i, 1};
      P.src.sizes[k] = 1 + r.below(c.max_slab / r.pick({2, 3, 6}));
      if (r.chance(15)) P.src.zero_copy.insert(k);
    }
    // tables used by one thread only, which it may drop
    for (int t = 0; t < nthreads; ++t)
      for (int i = 0; i < 2; ++i) P.src.sizes[{1, 100 + t, i, 1}] = 1 + r.below(c.max_slab / 4);
    // a fetch that fails inside a lower pool is fatal by design, so faults are injected below a single pool only
    P.src.fail_pct = c.kind <= 1 && r.chance(40) ? 10 : 0;
    BufferMgr& mgr = *P.top;
    note(cat("case ", n, " ", c.text(), " threads ", nthreads, " keys ", nkeys));
    std::atomic<uint64_t> seq{0};
    std::mutex hm;
    std::vector<std::pair<uint64_t, int>> order;
    std::vector<std::thread> ts;
    std::vector<uint64_t> seeds;
    for (int t = 0; t < nthreads; ++t) seeds.push_back(r.next());
    auto err = [&](const string& key, const string& what) { violation(key, cat("case ", n, " ", c.text(), " threads ", nthreads, ": ", what)); };
    for (int t = 0; t < nthreads; ++t)
      ts.emplace_back([&, t] {
        Rng q(seeds[t]);
        struct Mine { AbstractBuffer* b; ChunkKey k; Bytes d; bool scratch; };
        std::vector<Mine> mine;
        auto verify = [&](Mine& m) {
          Bytes got;
          read_all(m.b, got);
          eval();
          if (got != m.d) err("buffer-content", cat(m.scratch ? "scratch" : "chunk", " buffer content changed while pinned"));
        };
        auto release = [&](size_t i) {
          verify(mine[i]);
          if (mine[i].scratch) mgr.free(mine[i].b);
          else mine[i].b->unPin();
          mine.erase(mine.begin() + i);
        };
        for (int op = 0; op < 60; ++op) {
          sched_delay(q);
          int w = q.below(100);
          try {
            if (w < 50) {
              int i = q.below(nkeys);
              ChunkKey k{1, 1 + i % 2, i, 1};
              if (q.chance(20)) k = {1, 100 + t, i % 2, 1};
              size_t sz = P.src.sizes[k];
              bool have = false;
              for (auto& x : mine) have |= x.k == k;
              // a chunk nobody holds may be asked for in parts
              size_t ask = k[1] >= 100 && !have && q.chance(50) ? 1 + q.below(sz) : sz;
              if (have && k[1] >= 100) ask = 1;
              auto* b = mgr.getBuffer(k, ask);
              if (ask != sz && b->size() >= ask && b->size() <= sz) sz = b->size();
              if (b->size() != sz) err("buffer-size", cat("size ", b->size(), " of ", sz));
              mine.push_back({b, k, Source::content(k, sz), false});
              verify(mine.back());
              ev("get_buffer");
            } else if (w < 65) {
              size_t sz = 1 + q.below(c.max_slab / 4);
              auto* b = mgr.alloc(sz);
              mine.push_back({b, {}, Bytes(sz), true});
              for (auto& x : mine.back().d) x = (int8_t)q.next();
              b->write(mine.back().d.data(), sz, 0, Data_Namespace::CPU_LEVEL, 0);
              ev("alloc");
            } else if (w < 70) {
              (void)mgr.isBufferOnDevice({1, 1, 0, 1});
              (void)mgr.getNumChunks();
              string e = layout_error(mgr, c);
              if (!e.empty()) err("pool-layout", e);
              ev("observe");
            } else if (w < 74) {
              mgr.deleteBuffersWithPrefix({1, 100 + t});
              for (int i = 0; i < 2; ++i) {
                ChunkKey k{1, 100 + t, i, 1};
                bool held = false;
                for (auto& x : mine) held |= x.k == k;
                eval();
                if (!held && mgr.isBufferOnDevice(k)) err("drop", "a chunk of a dropped table is still in the pool");
                if (held && !mgr.isBufferOnDevice(k)) err("drop", "a pinned chunk is removed");
              }
              ev("drop");
            } else if (!mine.empty()) {
              release(q.below(mine.size()));
              ev("release");
            }
          } catch (OutOfMemory&) {
            ev("oom");
            while (!mine.empty() && q.chance(70)) release(0);
          } catch (FetchFailed&) {
            ev("fetch_failed");
          }
          if (mine.size() > 3) release(q.below(mine.size()));
          uint64_t s = seq.fetch_add(1);
          std::lock_guard<std::mutex> g(hm);
          order.push_back({s, t});
        }
        while (!mine.empty()) release(0);
      });
    for (auto& t : ts) t.join();
    // quiescent: nothing is pinned, so every page can be had again
    string e = layout_error(mgr, c);
    if (!e.empty()) err("pool-layout", "after all threads finished: " + e);
    try {
      size_t np = 0;
      std::map<size_t, size_t> slabs;
      for (auto& d : mgr.getMemoryInfo().nodeMemoryData) slabs[d.slabNum] += d.numPages;
      for (auto& [s, x] : slabs) np = std::max(np, x);
      if (np) mgr.free(mgr.alloc(np * c.page));
      eval();
    } catch (OutOfMemory&) {
      err("leaked-pin", "memory cannot be evicted although every buffer was released");
    }
    uint64_t h = nthreads;
    int last = -1, sw = 0;
    std::sort(order.begin(), order.end());
    for (auto& [s, t] : order) {
      h = h * 31 + t;
      sw += t != last;
      last = t;
    }
    ev("thread_switches_in_history", sw);
    distinct(h);
    ev("histories");
  }
}

// ------------------------------------------------------------------ chunk statistics
struct PlainBuffer : AbstractBuffer {
  explicit PlainBuffer(const hdk::ir::Type* t) : AbstractBuffer(0, t) {}
  void read(int8_t* const, const size_t, const size_t, const MemoryLevel, const int) override {}
  void write(int8_t*, const size_t, const size_t, const MemoryLevel, const int) override {}
  void reserve(size_t) override {}
  void append(int8_t*, const size_t, const MemoryLevel, const int) override {}
  int8_t* getMemoryPtr() override { return nullptr; }
  size_t pageCount() const override { return 0; }
  size_t pageSize() const override { return 0; }
  size_t reservedSize() const override { return 0; }
  MemoryLevel getType() const override { return Data_Namespace::CPU_LEVEL; }
};

struct Stats {
  bool any = false, nulls = false;
  int64_t imin = 0, imax = 0;
  double fmin = 0, fmax = 0;
  void add(int64_t v) {
    imin = any ? std::min(imin, v) : v;
    imax = any ? std::max(imax, v) : v;
    any = true;
  }
  void addf(double v) {
    fmin = any ? std::min(fmin, v) : v;
    fmax = any ? std::max(fmax, v) : v;
    any = true;
  }
  void merge(const Stats& o, bool fp) {
    nulls |= o.nulls;
    if (!o.any) return;
    if (fp) { addf(o.fmin); addf(o.fmax); }
    else { add(o.imin); add(o.imax); }
  }
};

struct EncType {
  const hdk::ir::Type* t;   // type of an element
  int raw, enc;             // bytes of a raw and of an encoded value
  bool fp, days, uns;
  int64_t lo, hi;           // range of raw values that are not NULL
  string name;
};

static int64_t int_of(const Datum& d, const hdk::ir::Type* t) {
  if (t->isExtDictionary()) return d.intval;
  if (t->isDateTime() || t->isInterval()) return d.bigintval;
  switch (t->size()) {
    case 1: return d.tinyintval;
    case 2: return d.smallintval;
    case 4: return d.intval;
    default: return d.bigintval;
  }
}
static double fp_of(const Datum& d, const hdk::ir::Type* t) { return t->size() == 4 ? (double)d.floatval : d.doubleval; }

static string stats_error(const ChunkStats& cs, const Stats& m, const EncType& e, bool array = false) {
  if (cs.has_nulls != m.nulls) return cat("has_nulls is ", cs.has_nulls);
  if (!m.any) {
    if (array) return "";
    bool empty = e.fp ? fp_of(cs.min, e.t) > fp_of(cs.max, e.t) : int_of(cs.min, e.t) > int_of(cs.max, e.t);
    return empty ? "" : "range is not empty although there is no value";
  }
  if (e.fp) {
    if (fp_of(cs.min, e.t) != m.fmin || fp_of(cs.max, e.t) != m.fmax) return cat("range [", fp_of(cs.min, e.t), ", ", fp_of(cs.max, e.t), "] for values of [", m.fmin, ", ", m.fmax, "]");
  } else if (int_of(cs.min, e.t) != m.imin || int_of(cs.max, e.t) != m.imax) {
    return cat("range [", int_of(cs.min, e.t), ", ", int_of(cs.max, e.t), "] for values of [", m.imin, ", ", m.imax, "]");
  }
  return "";
}

static void put_int(Bytes& b, int64_t v, int size) {
  size_t o = b.size();
  b.resize(o + size);
  memcpy(b.data() + o, &v, size);
}
static void put_fp(Bytes& b, double v, int size) {
  size_t o = b.size();
  b.resize(o + size);
  if (size == 4) { float f = (float)v; memcpy(b.data() + o, &f, 4); }
  else memcpy(b.data() + o, &v, 8);
}
static int64_t int_null(int size, bool uns) {
  if (uns) return size == 1 ? 255 : 65535;
  return size == 1 ? INT8_MIN : size == 2 ? INT16_MIN : size == 4 ? INT32_MIN : INT64_MIN;
}
static int64_t int_array_null(int size) { return size == 1 ? INT8_MIN + 1 : size == 2 ? INT16_MIN + 1 : size == 4 ? INT32_MIN + 1 : INT64_MIN + 1; }

static int64_t days_floor(int64_t s) { return s >= 0 ? s / 86400 : -((-s + 86399) / 86400); }

struct Val { bool null = false, arr_null = false; int64_t i = 0; double f = 0; };

static std::vector<Val> gen_vals(Rng& r, const EncType& e, size_t n) {
  std::vector<Val> v(n);
  int nullp = r.pick({0, 0, 1, 20, 100});
  int shape = r.below(4);
  int64_t c = r.range(e.lo, e.hi);
  for (auto& x : v) {
    x.null = r.chance(nullp);
    if (e.fp) {
      double m = shape == 0 ? 1 : shape == 1 ? 1e-3 : shape == 2 ? 1e30 : 1e6;
      x.f = (r.unit() * 2 - 1) * m + (shape == 3 ? 5e6 : 0);
      if (r.chance(5)) x.f = r.pick({0.0, -1.0, 1.0, 3.0e38, -3.0e38});
      if (e.raw == 4) x.f = (float)x.f;
    } else {
      int64_t span = shape == 0 ? 3 : shape == 1 ? 1000 : 0;
      if (span) {
        __int128 lo = std::max<__int128>(e.lo, (__int128)c - span), hi = std::min<__int128>(e.hi, (__int128)c + span);
        x.i = r.range((int64_t)lo, (int64_t)hi);
      }
      else x.i = r.chance(10) ? r.pick({e.lo, e.hi}) : r.range(e.lo, e.hi);
      if (e.days) x.i = days_floor(x.i) * 86400 + (shape == 3 ? (int64_t)r.below(86400) : 0);
    }
  }
  return v;
}

static void model_add(Stats& m, const EncType& e, const std::vector<Val>& v) {
  for (auto& x : v)
    if (x.null) m.nulls = true;
    else if (x.arr_null) continue;
    else if (e.fp) m.addf(x.f);
    else m.add(e.days ? days_floor(x.i) * 86400 : x.i);
}

static void mode_enc() {
  auto& ctx = hdk::ir::Context::defaultCtx();
  using U = hdk::ir::TimeUnit;
  std::vector<EncType> types;
  auto add = [&](const hdk::ir::Type* t, int raw, int enc, bool fp, bool days, bool uns, int64_t lo, int64_t hi) { types.push_back({t, raw, enc, fp, days, uns, lo, hi, t->toString()}); };
  add(ctx.boolean(), 1, 1, false, false, false, 0, 1);
  add(ctx.int8(), 1, 1, false, false, false, INT8_MIN + 2, INT8_MAX);
  add(ctx.int16(), 2, 2, false, false, false, INT16_MIN + 2, INT16_MAX);
  add(ctx.int32(), 4, 4, false, false, false, INT32_MIN + 2, INT32_MAX);
  add(ctx.int64(), 8, 8, false, false, false, INT64_MIN + 2, INT64_MAX);
  add(ctx.decimal64(10, 2), 8, 8, false, false, false, -9999999999ll, 9999999999ll);
  add(ctx.fp32(), 4, 4, true, false, false, 0, 0);
  add(ctx.fp64(), 8, 8, true, false, false, 0, 0);
  add(ctx.extDict(ctx.text(), 1, 1), 1, 1, false, false, true, 0, 253);
  add(ctx.extDict(ctx.text(), 1, 2), 2, 2, false, false, true, 0, 65533);
  add(ctx.extDict(ctx.text(), 1, 4), 4, 4, false, false, false, 0, INT32_MAX);
  add(ctx.date16(U::kDay), 8, 2, false, true, false, -32766 * 86400ll, 32767 * 86400ll);
  add(ctx.date32(U::kDay), 8, 4, false, true, false, -99999999 * 86400ll, 99999999 * 86400ll);
  add(ctx.date64(U::kMilli), 8, 8, false, false, false, INT64_MIN + 2, INT64_MAX);
  add(ctx.time16(U::kSecond), 8, 2, false, false, false, INT16_MIN + 2, INT16_MAX);
  add(ctx.time32(U::kSecond), 8, 4, false, false, false, INT32_MIN + 2, INT32_MAX);
  add(ctx.time64(U::kMicro), 8, 8, false, false, false, INT64_MIN + 2, INT64_MAX);
  add(ctx.interval16(U::kDay), 8, 2, false, false, false, INT16_MIN + 2, INT16_MAX);
  add(ctx.interval32(U::kSecond), 8, 4, false, false, false, INT32_MIN + 2, INT32_MAX);
  add(ctx.timestamp(U::kNano), 8, 8, false, false, false, INT64_MIN + 2, INT64_MAX);
  add(ctx.timestamp(U::kSecond), 8, 8, false, false, false, INT64_MIN + 2, INT64_MAX);

  long cases = st().thorough ? 20000 : 3000;
  for (long n = 0; n < cases && !too_many(); ++n) {
    if (st().only_case >= 0 && n != st().only_case) continue;
    Rng r = case_rng(n);
    const EncType& e = r.pick(types);
    string hist = cat("case ", n, " ", e.name);
    auto err = [&](const string& k, const string& what) { violation(k, cat(hist, ": ", what)); };
    bool is_arr = r.chance(30) && !(e.t->isDateTime() && e.t->size() != 8) && !(e.t->isInterval() && e.t->size() != 8) && !e.days &&
                  !(e.t->isExtDictionary() && e.t->size() != 4);
    if (is_arr) {
      bool fixed = r.chance(50);
      int cnt = 1 + r.below(5);
      const hdk::ir::Type* at = fixed ? (const hdk::ir::Type*)ctx.arrayFixed(cnt, e.t) : ctx.arrayVarLen(e.t);
      PlainBuffer b1(at), b2(at);
      PlainBuffer* b = &b1;
      hist += fixed ? cat("[", cnt, "]") : string("[]");
      Stats m;
      int ops = 1 + r.below(8);
      for (int op = 0; op < ops; ++op) {
        int w = r.below(10);
        Encoder* enc = b->getEncoder();
        if (w < 6) {
          size_t rows = r.below(r.chance(10) ? 300 : 6);
          std::vector<ArrayDatum> data;
          std::vector<Bytes> keep(rows);
          size_t start = r.below(3);
          for (size_t i = 0; i < start; ++i) data.emplace_back(0, nullptr, true, DoNothingDeleter());
          for (size_t i = 0; i < rows; ++i) {
            bool isnull = r.chance(10);
            size_t len = fixed ? cnt : r.below(6);
            auto v = gen_vals(r, e, len);
            for (auto& x : v)
              if (e.fp) put_fp(keep[i], x.null ? (e.raw == 4 ? (double)NULL_FLOAT : NULL_DOUBLE) : x.f, e.raw);
              else put_int(keep[i], x.null ? int_null(e.raw, e.uns) : x.i, e.raw);
            if (isnull) m.nulls = true;
            else model_add(m, e, v);
            data.emplace_back(keep[i].size(), keep[i].data(), isnull, DoNothingDeleter());
          }
          for (int i = 0; i < 2; ++i) data.emplace_back(0, nullptr, true, DoNothingDeleter());
          enc->updateStats(&data, start, rows);
          hist += cat(" arrays(", rows, ")");
          ev("array_updates");
        } else if (w == 6) {
          PlainBuffer* o = b == &b1 ? &b2 : &b1;
          enc->setNumElems(r.below(1000));
          o->getEncoder()->copyMetadata(enc);
          if (o->getEncoder()->getNumElems() != enc->getNumElems()) err("copy-count", "number of elements is not copied");
          b = o;
          hist += " copy";
          ev("copies");
        } else if (w == 7) {
          FILE* f = tmpfile();
          size_t k = r.below(100000);
          enc->setNumElems(k);
          enc->writeMetadata(f);
          rewind(f);
          PlainBuffer* o = b == &b1 ? &b2 : &b1;
          o->getEncoder()->resetChunkStats();
          o->getEncoder()->readMetadata(f);
          fclose(f);
          if (o->getEncoder()->getNumElems() != k) err("io-count", "number of elements is not restored");
          b = o;
          hist += " io";
          ev("write_read");
        } else if (w == 8) {
          enc->resetChunkStats();
          m = Stats();
          hist += " reset";
        } else if (m.any) {
          ChunkStats cs = enc->getMetadata(at)->chunkStats();
          if (enc->resetChunkStats(cs)) err("reset-same", "assigning equal statistics is reported as a change");
          cs.has_nulls = !cs.has_nulls;
          if (!enc->resetChunkStats(cs)) err("reset-other", "assigning other statistics is not reported as a change");
          m.nulls = cs.has_nulls;
          hist += " assign";
          PlainBuffer* o = b == &b1 ? &b2 : &b1;
          o->getEncoder()->resetChunkStats();
          o->getEncoder()->resetChunkStats(cs);
          b = o;
          ev("assign");
        }
        if (m.any || m.nulls) {
          eval();
          string x = stats_error(b->getEncoder()->getMetadata()->chunkStats(), m, e, true);
          if (!x.empty()) err("array-stats", x);
        }
      }
      distinct(hist);
      sample(hist);
      continue;
    }
    PlainBuffer b1(e.t), b2(e.t), b3(e.t);
    PlainBuffer* b = &b1;
    Stats m;
    int ops = 1 + r.below(8);
    for (int op = 0; op < ops; ++op) {
      int w = r.below(14);
      Encoder* enc = b->getEncoder();
      size_t cnt = r.chance(8) ? 20000 + r.below(60000) : r.chance(30) ? 1 : r.below(200);
      if (w < 3) {  // values before encoding
        auto v = gen_vals(r, e, cnt);
        Bytes d;
        for (auto& x : v)
          if (e.fp) put_fp(d, x.null ? (e.raw == 4 ? (double)NULL_FLOAT : NULL_DOUBLE) : x.f, e.raw);
          else put_int(d, x.null ? int_null(e.enc, e.uns) : x.i, e.raw);
        d.resize(d.size() + 8);
        enc->updateStats(d.data(), v.size());
        model_add(m, e, v);
        hist += cat(" raw(", v.size(), ")");
        ev("raw_updates");
      } else if (w < 7) {  // encoded values
        auto v = gen_vals(r, e, cnt);
        bool fixlen = r.chance(30) && !e.t->isExtDictionary();
        if (fixlen)
          for (auto& x : v) if (r.chance(5)) { x.null = false; x.arr_null = true; }
        Bytes d;
        for (auto& x : v)
          if (e.fp) put_fp(d, x.null ? (e.enc == 4 ? (double)NULL_FLOAT : NULL_DOUBLE) : x.arr_null ? (e.enc == 4 ? (double)NULL_ARRAY_FLOAT : NULL_ARRAY_DOUBLE) : x.f, e.enc);
          else put_int(d, x.null ? int_null(e.enc, e.uns) : x.arr_null ? int_array_null(e.enc) : e.days ? days_floor(x.i) : x.i, e.enc);
        d.resize(d.size() + 8);
        enc->updateStatsEncoded(d.data(), v.size(), fixlen);
        model_add(m, e, v);
        hist += cat(fixlen ? " fixlen(" : " encoded(", v.size(), ")");
        ev("encoded_updates");
        if (v.size() > 10000) ev("parallel_updates");
      } else if (w < 9) {  // one value at a time
        auto v = gen_vals(r, e, 1 + cnt % 10);
        for (auto& x : v)
          if (e.fp) enc->updateStats(x.f, x.null);
          else enc->updateStats(x.i, x.null);
        Stats o;
        for (auto& x : v)
          if (x.null) m.nulls = true;
          else if (e.fp) m.addf(x.f);
          else m.add(x.i);
        hist += cat(" single(", v.size(), ")");
        ev("single_updates");
      } else if (w == 9) {  // merge with another chunk
        auto v = gen_vals(r, e, r.below(30));
        Stats o;
        PlainBuffer ob(e.t);
        for (auto& x : v) {
          if (e.fp) ob.getEncoder()->updateStats(x.f, x.null);
          else ob.getEncoder()->updateStats(x.i, x.null);
          if (x.null) o.nulls = true;
          else if (e.fp) o.addf(x.f);
          else o.add(x.i);
        }
        ChunkStats left = enc->getMetadata()->chunkStats(), right = ob.getEncoder()->getMetadata()->chunkStats();
        enc->reduceStats(*ob.getEncoder());
        m.merge(o, e.fp);
        mergeStats(left, right, e.t);
        eval();
        if (m.any) {
          string x = stats_error(left, m, e);
          if (!x.empty()) err("merge-stats", x);
        }
        string x = stats_error(ob.getEncoder()->getMetadata()->chunkStats(), o, e);
        if (!x.empty()) err("merge-source", x);
        hist += cat(" reduce(", v.size(), ")");
        ev("reduce");
      } else if (w == 10) {
        PlainBuffer* o = b == &b1 ? &b2 : &b1;
        enc->setNumElems(r.below(1000));
        if (r.chance(50)) o->getEncoder()->copyMetadata(enc);
        else o->syncEncoder(b);
        if (o->getEncoder()->getNumElems() != enc->getNumElems()) err("copy-count", "number of elements is not copied");
        b = o;
        hist += " copy";
        ev("copies");
      } else if (w == 11) {
        FILE* f = tmpfile();
        size_t k = r.below(100000);
        enc->setNumElems(k);
        enc->writeMetadata(f);
        b3.getEncoder()->writeMetadata(f);
        rewind(f);
        PlainBuffer* o = b == &b1 ? &b2 : &b1;
        o->getEncoder()->readMetadata(f);
        PlainBuffer tail(e.t);
        tail.getEncoder()->updateStats((int64_t)1, false);
        tail.getEncoder()->readMetadata(f);
        fclose(f);
        string x = stats_error(tail.getEncoder()->getMetadata()->chunkStats(), Stats(), e);
        if (!x.empty()) err("io-sequence", x);
        if (o->getEncoder()->getNumElems() != k) err("io-count", "number of elements is not restored");
        b = o;
        hist += " io";
        ev("write_read");
      } else if (w == 12) {
        enc->resetChunkStats();
        m = Stats();
        hist += " reset";
      } else {
        ChunkStats cs{};
        enc->fillChunkStats(cs, e.t);
        if (m.any && enc->resetChunkStats(cs)) err("reset-same", "assigning equal statistics is reported as a change");
        cs.has_nulls = !cs.has_nulls;
        if (!enc->resetChunkStats(cs)) err("reset-other", "assigning other statistics is not reported as a change");
        m.nulls = cs.has_nulls;
        hist += " assign";
        ev("assign");
      }
      enc = b->getEncoder();
      eval();
      size_t k = r.below(500), bytes = r.below(5000);
      enc->setNumElems(k);
      b->setSize(bytes);
      auto md = enc->getMetadata();
      string x = stats_error(md->chunkStats(), m, e);
      if (x.empty()) x = stats_error(enc->getMetadata(e.t)->chunkStats(), m, e);
      ChunkStats cs{};
      enc->fillChunkStats(cs, e.t);
      if (x.empty()) x = stats_error(cs, m, e);
      if (!x.empty()) { err("chunk-stats", x); break; }
      if (md->numElements() != k || md->numBytes() != bytes || !md->type()->equal(e.t)) err("metadata", "count, size or type of the chunk is lost");
      if (r.chance(20)) {  // statistics computed on demand
        int calls = 0;
        ChunkMetadata lazy(e.t, bytes, k, [&](ChunkStats& s) { ++calls; s = cs; });
        if (lazy.hasComputedChunkStats() || calls) err("lazy", "statistics are computed before they are needed");
        string y = stats_error(lazy.chunkStats(), m, e);
        y += stats_error(lazy.chunkStats(), m, e);
        if (!y.empty()) err("lazy", y);
        if (calls != 1 || !lazy.hasComputedChunkStats()) err("lazy", cat("statistics computed ", calls, " times"));
        if (m.any && !(lazy == *md)) err("metadata-equal", "equal metadata compare unequal");
        if (m.any) {
          ChunkStats other = cs;
          other.has_nulls = !other.has_nulls;
          ChunkMetadata o2(e.t, bytes, k, other), o3(e.t, bytes + 1, k, cs), o4(e.t, bytes, k + 1, cs);
          if (o2 == *md || o3 == *md || o4 == *md) err("metadata-equal", "different metadata compare equal");
        }
        ev("lazy");
      }
    }
    // dates that do not fit their encoding are refused
    if (e.days) {
      int64_t lim = e.enc == 2 ? 32767 : INT32_MAX;
      int64_t d = r.pick({lim, lim + 1, -lim, -lim - 2, lim + 1 + (int64_t)r.below(1000), -lim - 2 - (int64_t)r.below(1000)});
      int64_t s = d * 86400 + r.below(86400);
      bool fits = d >= -lim - 1 && d <= lim, thrown = false;
      PlainBuffer t(e.t);
      Encoder* fresh = Encoder::Create(&t, e.t);
      try {
        fresh->updateStats((int8_t*)&s, 1);
      } catch (std::runtime_error&) {
        thrown = true;
      }
      delete fresh;
      eval();
      if (thrown == fits) err("date-overflow", cat("date of ", d, " days is ", thrown ? "refused" : "accepted"));
      ev("date_limits");
    }
    if (e.raw == 1) {
      PlainBuffer sb(ctx.text());
      std::vector<string> sv;
      bool nulls = false;
      for (size_t i = r.below(30); i > 0; --i) { sv.push_back(r.chance(5) ? "" : string(1 + r.below(4), 'a')); }
      size_t st0 = r.below(sv.size() + 1), len = r.below(sv.size() - st0 + 1);
      for (size_t i = st0; i < st0 + len; ++i) nulls |= sv[i].empty();
      sb.getEncoder()->updateStats(&sv, st0, len);
      eval();
      if (sb.getEncoder()->getMetadata()->chunkStats().has_nulls != nulls) err("text-nulls", cat("has_nulls is ", !nulls));
      ev("text_updates");
    }
    distinct(hist);
    sample(hist);
  }
}

int main(int argc, char** argv) {
  init(argc, argv);
  logger::LogOptions lo("h_dm");
  lo.severity_ = logger::Severity::FATAL;
  lo.severity_clog_ = logger::Severity::FATAL;
  logger::init(lo);
  auto& m = st().mode;
  if (m == "pool") mode_pool();
  if (m == "conc") mode_conc();
  if (m == "enc") mode_enc();
  return finish();
}
