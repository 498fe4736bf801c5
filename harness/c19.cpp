// Crash points: every write system call the writer issues on its file is
// recorded; the file image after each prefix of them is what a process death
// at that moment leaves behind. Every image is read back.
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#define C12_AS_LIBRARY
#include "c12.cpp"

namespace vh {
namespace {
struct Op { off_t pos; std::vector<char> data; };
std::mutex g_ops_mutex;
std::vector<Op> g_ops;
std::atomic<bool> g_rec{false};
std::string g_target;   // canonical path

void Log(int fd, const iovec* v, int n, ssize_t done) {
  if (!g_rec || fd <= 2 || done <= 0) return;
  char link[64], path[4096];
  snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
  const ssize_t len = readlink(link, path, sizeof path - 1);
  if (len <= 0) return;
  path[len] = 0;
  std::lock_guard<std::mutex> g(g_ops_mutex);
  if (g_target != path) return;
  Op op;
  op.pos = lseek(fd, 0, SEEK_CUR) - done;
  size_t left = size_t(done);
  for (int i = 0; i < n && left > 0; ++i) {
    const size_t m = std::min(left, v[i].iov_len);
    const char* p = static_cast<const char*>(v[i].iov_base);
    op.data.insert(op.data.end(), p, p + m);
    left -= m;
  }
  g_ops.push_back(std::move(op));
}
}  // namespace
}  // namespace vh

extern "C" ssize_t write(int fd, const void* p, size_t n) {
  const ssize_t r = syscall(SYS_write, fd, p, n);
  iovec v{const_cast<void*>(p), n};
  vh::Log(fd, &v, 1, r);
  return r;
}
extern "C" ssize_t writev(int fd, const iovec* v, int n) {
  const ssize_t r = syscall(SYS_writev, fd, v, n);
  vh::Log(fd, v, n, r);
  return r;
}

namespace vh {
const char* kPropId = "C19";
namespace {
using Image = std::vector<char>;
void Apply(Image& im, const Op& op) {
  const size_t end = size_t(op.pos) + op.data.size();
  if (end > im.size()) im.resize(end);
  std::copy(op.data.begin(), op.data.end(), im.begin() + op.pos);
}
void StartRec(const std::string& file) {
  std::lock_guard<std::mutex> g(g_ops_mutex);
  g_ops.clear();
  g_target = std::filesystem::weakly_canonical(file).string();
  g_rec = true;
}
size_t NofOps() { std::lock_guard<std::mutex> g(g_ops_mutex); return g_ops.size(); }
std::vector<Op> Ops(size_t from = 0) { std::lock_guard<std::mutex> g(g_ops_mutex); return {g_ops.begin() + long(from), g_ops.end()}; }

// What a reader gets from an image: the groups are cut to the samples that
// the reader delivered (the rest of a group is reported as invalid values).
Content ReadImage(const Image& im) {
  mdf::MdfReader rd(std::static_pointer_cast<std::streambuf>(std::make_shared<MemBuf>(im)));
  Content c = ReadContent(rd);
  if (!c.ok) return c;
  size_t d = 0;
  for (auto* dg : rd.GetHeader()->DataGroups()) {
    std::map<uint64_t, uint64_t> got;
    mdf::ISampleObserver all(*dg);
    all.DoOnSample = [&](uint64_t sample, uint64_t id, const std::vector<uint8_t>&) { got[id] = std::max(got[id], sample + 1); return true; };
    rd.ReadData(*dg);
    for (auto& cg : c.dg[d].cg) {
      if (cg.vlsd) continue;
      const uint64_t n = got[cg.rec_id];
      for (auto& ch : cg.ch) {
        for (size_t i = n; i < ch.v.size(); ++i) for (auto& e : ch.v[i]) if (e.valid) { c.ok = false; c.err = "sample " + std::to_string(i) + " of " + ch.name + " is valid but only " + std::to_string(n) + " were delivered"; return c; }
        if (ch.v.size() > n) ch.v.resize(n);
        if (ch.eng.size() > n) ch.eng.resize(n);
      }
      cg.nof = std::min(cg.nof, n);
    }
    ++d;
  }
  return c;
}
// Groups [from, to) of image content p against the finished file f: same
// groups and channels, samples a prefix of the finished ones.
std::string Prefix(const Content& p, const Content& f, size_t from, size_t to, bool whole, bool sd) {
  if (p.dg.size() < to) return "data groups missing: " + std::to_string(p.dg.size()) + " of " + std::to_string(to);
  Content a, b;
  a.ok = b.ok = true;
  for (size_t d = from; d < to; ++d) {
    RDg x = p.dg[d], y = f.dg[d];
    if (x.cg.size() != y.cg.size()) return "dg" + std::to_string(d) + " channel groups " + std::to_string(x.cg.size()) + " of " + std::to_string(y.cg.size());
    for (size_t g = 0; g < y.cg.size(); ++g) {
      auto &u = x.cg[g], &v = y.cg[g];
      if (u.nof > v.nof && !v.vlsd) return "dg" + std::to_string(d) + ".cg" + std::to_string(g) + " has " + std::to_string(u.nof) + " samples, saved " + std::to_string(v.nof);
      if (!whole) v.nof = u.nof;
      for (size_t n = 0; n < std::min(u.ch.size(), v.ch.size()); ++n) {
        auto &s = u.ch[n], &t = v.ch[n];
        if (!whole && t.v.size() > u.nof) { t.v.resize(u.nof); if (t.eng.size() > u.nof) t.eng.resize(u.nof); }
        if (!sd && t.type == ChannelType::VariableLength) { s.v.clear(); t.v.clear(); }
      }
    }
    a.dg.push_back(std::move(x)); b.dg.push_back(std::move(y));
  }
  return DiffContent(a, b);
}

// all prefixes: base image, ops, the content before (of the first `old` data
// groups), the content of the finished file, first op after InitMeasurement
void CheckPrefixes(Ctx& ctx, const Image& base, const std::vector<Op>& ops, const Content& before, const Content& fin, size_t init, bool sd_always) {
  auto& r = ctx.rng;
  const size_t old = before.dg.size();
  size_t vol = base.size();
  for (auto& op : ops) vol += op.data.size();
  const size_t limit = vol > 500000 ? 15 : ctx.thorough() ? 300 : 60;
  std::vector<bool> pick(ops.size() + 1, ops.size() + 1 <= limit);
  if (ops.size() + 1 > limit) {
    const size_t w = r.Below(ops.size());     // a dense window, the end and a random sample
    for (size_t i = 0; i < limit / 3; ++i) {
      if (w + i <= ops.size()) pick[w + i] = true;
      if (i <= ops.size()) pick[ops.size() - i] = true;
      pick[r.Below(ops.size() + 1)] = true;
    }
  }
  Image im = base;
  std::vector<std::vector<uint64_t>> low;   // samples seen so far per group
  for (size_t k = 0; k <= ops.size(); ++k) {
    if (k > 0) Apply(im, ops[k - 1]);
    if (!pick[k] || (k < init && old == 0)) continue;
    ctx.Count("crash_points");
    const Content c = ReadImage(im);
    const std::string at = "after write " + std::to_string(k) + " of " + std::to_string(ops.size()) + " (init " + std::to_string(init) + ")";
    if (!c.ok) { ctx.Viol(k < init ? "earlier measurement unreadable" : "image unreadable", c.err + " " + at); return; }
    if (old) {
      const std::string d = Prefix(c, before, 0, old, true, true);
      if (!d.empty()) { ctx.Viol("earlier measurement damaged", d + " " + at); return; }
      ctx.Count("earlier_groups", int64_t(old));
    }
    if (k < init) continue;
    const bool last = k == ops.size();
    if (const std::string d = Prefix(c, fin, old, fin.dg.size(), last, last || sd_always); !d.empty()) { ctx.Viol("interrupted measurement", d + " " + at); return; }
    if (low.empty()) for (auto& g : c.dg) low.emplace_back(g.cg.size());
    for (size_t d = old; d < fin.dg.size(); ++d) for (size_t g = 0; g < fin.dg[d].cg.size(); ++g) {
      if (fin.dg[d].cg[g].vlsd) continue;
      const uint64_t n = c.dg[d].cg[g].nof;
      if (n < low[d][g]) { ctx.Viol("samples lost again", "dg" + std::to_string(d) + ".cg" + std::to_string(g) + " " + std::to_string(n) + " after " + std::to_string(low[d][g]) + " " + at); return; }
      low[d][g] = n;
      ctx.Count("samples_recovered", int64_t(n));
      if (n > 0 && n < fin.dg[d].cg[g].nof) ctx.Count("partial_groups");
    }
  }
}

void Measure(Ctx& ctx) {
  auto& r = ctx.rng;
  const bool mdf3 = r.Chance(0.25);
  const std::string file = ctx.Path(mdf3 ? "a.dat" : "a.mf4");
  const size_t sessions = r.Chance(0.5) ? 1 : 2 + r.Below(2);
  Content before;
  std::string shape = mdf3 ? "mdf3" : "mdf4";
  for (size_t k = 0; k < sessions; ++k) {
    GenOpt o;
    o.mdf3 = mdf3; o.max_samples = 60; o.min_samples = 4; o.max_ch = 5; o.max_cg = 3; o.max_dg = r.Chance(0.7) ? 1 : 3;
    o.arrays = r.Chance(0.2); o.vlsd = r.Chance(0.3);
    // some with several compressed blocks while measuring
    const bool big = !mdf3 && k == 0 && r.Chance(0.04);
    Scen s = big ? BigScen(ctx, o, false) : GenScen(r, o);
    s.compress = r.Chance(big ? 0.8 : 0.2);
    s.periodic = big || r.Chance(0.85);
    if (big) ctx.Count("big_cases");
    s.flush_ms = 1;
    s.pretrig = 0;
    Image base;
    if (k > 0) { std::ifstream in(file, std::ios::binary); base.assign(std::istreambuf_iterator<char>(in), {}); }
    StartRec(file);
    auto w = mdf::MdfFactory::CreateMdfWriter(mdf3 ? mdf::MdfWriterType::Mdf3Basic : s.wtype);
    if (!w->Init(file)) { ctx.Viol("write", "Init"); return; }
    w->CompressData(s.compress); w->SavePeriodic(s.periodic); w->PreTrigTime(0);
    Handles h;
    if (!CreateGroups(*w, s, h)) { ctx.Viol("write", "CreateGroups"); return; }
    SetFlushPeriod(s.flush_ms);
    if (!w->InitMeasurement()) { ctx.Viol("write", "InitMeasurement"); return; }
    const size_t init = NofOps();
    const bool flushes = s.periodic && !big && !(mdf3 && k > 0) && !w->CompressData() && s.dg.size() == 1;
    w->StartMeasurement(s.start);
    std::vector<std::vector<uint64_t>> saved;
    for (auto& d : s.dg) saved.emplace_back(d.cg.size());
    Image im = base;
    size_t seen = 0;
    const size_t waits = flushes ? r.Below(3) : 0;
    std::set<size_t> stop;
    for (size_t i = 0; i < waits; ++i) stop.insert(r.Below(s.order.size() + 1));
    for (size_t i = 0; i < s.order.size(); ++i) {
      const auto& st = s.order[i];
      SaveStep(*w, s, h, st);
      ++saved[st.dg][st.cg];
      if (r.Chance(0.2)) std::this_thread::sleep_for(std::chrono::microseconds(r.Below(1500)));
      if (stop.count(i)) {
        // everything saved so far reaches the file without stopping
        const auto t0 = std::chrono::steady_clock::now();
        for (std::string miss = "x"; !miss.empty();) {
          if (NofOps() > seen) {
            for (auto& op : Ops(seen)) { Apply(im, op); ++seen; }
            const Content c = ReadImage(im);
            miss.clear();
            if (!c.ok || c.dg.size() < before.dg.size() + s.dg.size()) miss = "unreadable " + c.err;
            else for (size_t d = 0; d < s.dg.size(); ++d) for (size_t g = 0; g < s.dg[d].cg.size(); ++g) {
              const auto n = c.dg[before.dg.size() + d].cg[g].nof;
              if (n < saved[d][g]) miss = std::to_string(n) + " of " + std::to_string(saved[d][g]) + " samples of group " + std::to_string(g) + " in the file";
            }
          } else std::this_thread::sleep_for(std::chrono::milliseconds(1));
          if (!miss.empty() && std::chrono::steady_clock::now() - t0 > std::chrono::seconds(30)) { ctx.Viol("saved samples do not reach the file", miss); break; }
        }
        ctx.Count("flush_waits");
      }
    }
    w->StopMeasurement(s.stop);
    if (!w->FinalizeMeasurement()) { ctx.Viol("write", "FinalizeMeasurement"); return; }
    w.reset();
    g_rec = false;
    const auto ops = Ops();
    Image now = base;
    for (auto& op : ops) Apply(now, op);
    { std::ifstream in(file, std::ios::binary); Image real((std::istreambuf_iterator<char>(in)), {}); if (real != now) { ctx.Viol("harness", "the recorded writes do not give the file"); return; } }
    const Content fin = ReadImage(now);
    if (!fin.ok) { ctx.Viol("finished file unreadable", fin.err); return; }
    CompareScen(ctx, s, fin, "", before.dg.size());
    ctx.Count("writes", int64_t(ops.size()));
    if (getenv("VERIF_DUMP")) for (size_t i = 0; i < ops.size(); ++i) fprintf(stderr, "op %zu%s pos %ld len %zu %s\n", i + 1, i + 1 == init ? " INIT" : "", long(ops[i].pos), ops[i].data.size(), Hex(reinterpret_cast<const uint8_t*>(ops[i].data.data()), std::min<size_t>(ops[i].data.size(), 40)).c_str());
    CheckPrefixes(ctx, base, ops, before, fin, init, false);
    if (ctx.nviol) { ctx.sample = shape + " session " + std::to_string(k) + " " + Describe(s); return; }
    shape += (s.compress ? " c" : " u") + std::string(s.periodic ? "p" : "") + Describe(s);
    before = fin;
    ctx.nontrivial = ctx.nontrivial || s.order.size() > 1;
  }
  ctx.shape = shape;
  ctx.sample = shape;
}

// A bus log of any kind, at every crash point.
void Bus(Ctx& ctx) {
  struct Done {};
  size_t init = 0;
  bool variable = false;
  BusBeginHook() = [&](BusLog& b, const BusFile& f) {
    b.to_stream = false;
    b.flush_ms = 1;
    if (!b.pause_every) b.pause_every = 5;
    if (b.wtype == mdf::MdfWriterType::MdfConverter) b.wtype = mdf::MdfWriterType::MdfBusLogger;
    StartRec(f.file);
  };
  BusInitHook() = [&] { init = NofOps(); };
  BusHook() = [&](const BusLog& b, const BusFile&) {
    g_rec = false;
    const auto ops = Ops();
    Image now;
    for (auto& op : ops) Apply(now, op);
    const Content fin = ReadImage(now);
    if (!fin.ok) ctx.Viol("finished bus log unreadable", fin.err);
    ctx.Count("bus_logs");
    ctx.Count("writes", int64_t(ops.size()));
    // payloads in a group of their own are saved together with the records
    variable = b.storage == mdf::MdfStorageType::VlsdStorage && b.wtype == mdf::MdfWriterType::MdfBusLogger;
    if (fin.ok) CheckPrefixes(ctx, {}, ops, {}, fin, init, variable);
    ctx.sample = DescribeBus(b);
    ctx.shape = "bus " + ctx.sample;
    ctx.nontrivial = b.msg.size() > 1;
    throw Done();
  };
  try {
    if (ctx.rng.Chance(0.5)) RunCase07(ctx); else RunCase08(ctx);
  } catch (const Done&) {}
  BusHook() = nullptr; BusBeginHook() = nullptr; BusInitHook() = nullptr;
}
}  // namespace

void RunCase(Ctx& ctx) {
  if (ctx.rng.Chance(0.3)) Bus(ctx); else Measure(ctx);
  g_rec = false;
}
}  // namespace vh
