// Hostile files: everything the reader offers, under AddressSanitizer and
// UBSan, with a memory limit and a CPU time limit for every file.
#include <sys/time.h>
#include <new>
#include <sanitizer/common_interface_defs.h>
#define C12_AS_LIBRARY
#include "c12.cpp"
#include "mdfenc3.h"
#include "mutate.h"

// An allocation that a small file can not justify fails, as it would on a
// machine with limited memory.
namespace {
constexpr size_t kOneAlloc = 200u << 20;
bool g_limit = false;
void* Get(size_t n) {
  if (g_limit && n > kOneAlloc) return nullptr;
  return malloc(n ? n : 1);
}
}  // namespace
void* operator new(size_t n) { if (void* p = Get(n)) return p; throw std::bad_alloc(); }
void* operator new[](size_t n) { if (void* p = Get(n)) return p; throw std::bad_alloc(); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return Get(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return Get(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

namespace vh {
const char* kPropId = "C18";
namespace {
void Hang(int) {
  const char m[] = "terminate called: no end within the CPU time limit\n";
  (void)!write(2, m, sizeof m - 1);
  __sanitizer_print_stack_trace();
  _exit(79);
}
void Timer(int sec) { itimerval t{}; t.it_value.tv_sec = sec; setitimer(ITIMER_PROF, &t, nullptr); }

PBytes BaseFile(Ctx& ctx, bool& mdf3) {
  auto& r = ctx.rng;
  PBytes out;
  if (r.Chance(0.35)) { EncOpt o; o.max_samples = 12; out = EncodeMdf4(r, o).bytes; }
  else if (r.Chance(0.15)) { EncOpt o; o.max_samples = 12; out = EncodeMdf3(r, o).bytes; }
  else {
    FileHook() = [&](const PBytes& b) { out = b; };
    RunCase12(ctx);
    FileHook() = nullptr;
  }
  mdf3 = out.size() > 12 && out[8] == '3';
  return out;
}

uint64_t g_vals = 0;
void Use(const Val& v) { g_vals += v.valid; }
// reads everything a user could ask for
void Exercise(Ctx& ctx, mdf::MdfReader& rd, const std::string& dir, Rng& r) {
  const uint64_t first = r.Below(6);
  if (first == 0) rd.ReadHeader();
  if (first == 1) rd.ReadMeasurementInfo();
  const bool ok = rd.ReadEverythingButData();
  ctx.Count(ok ? "opened" : "reported_failures");
  (void)rd.IsFinalized(); (void)rd.ShortName(); (void)rd.GetStartTime();
  const auto* hd = rd.GetHeader();
  if (!hd) return;
  { const Facts f = Snapshot(rd, *hd, !rd.GetFile()->IsMdf4(), false); ctx.Count("facts_read", int64_t(f.size())); }
  size_t na = 0;
  for (auto* a : hd->Attachments()) if (a && na++ < 4) { rd.ExportAttachmentData(*a, dir + "/exp" + std::to_string(na)); }
  for (auto* dg : hd->DataGroups()) {
    if (!dg) continue;
    for (int pass = 0; pass < 2; ++pass) {
      std::vector<std::tuple<mdf::IChannelGroup*, mdf::IChannel*, mdf::ChannelObserverPtr>> ob;
      uint64_t total = 0;
      for (auto* cg : dg->ChannelGroups()) for (auto* cn : cg->Channels()) {
        const uint64_t n = cg->NofSamples(), a = cn->ArraySize();
        if (n > 100000 || a > 100000 || n * a > 200000 || total + n * a > 1000000) { ctx.Count("observers_not_created"); continue; }
        total += n * a;
        ob.emplace_back(cg, cn, mdf::CreateChannelObserver(*dg, *cg, *cn));
      }
      mdf::ISampleObserver all(*dg);
      uint64_t recs = 0, bytes = 0;
      all.DoOnSample = [&](uint64_t, uint64_t, const std::vector<uint8_t>& rec) { ++recs; bytes += rec.size(); return true; };
      const bool got = pass == 0 ? rd.ReadData(*dg) : rd.ReadPartialData(*dg, r.Below(4), r.Below(10));
      ctx.Count(got ? "data_read" : "data_read_failed");
      ctx.Count("records", int64_t(recs));
      for (auto& [cg, cn, o] : ob) {
        if (!o) continue;
        const uint64_t n = std::min<uint64_t>(cg->NofSamples(), 20), a = std::min<uint64_t>(cn->ArraySize(), 20);
        for (uint64_t s = 0; s < n; ++s) {
          for (uint64_t e = 0; e < a; ++e) {
            Use(GetObs(*o, cn->DataType(), s, e));
            double d = 0; std::string t;
            o->GetEngValue(s, d, e); o->GetEngValue(s, t, e);
          }
          if (cn->ArraySize() <= 10000) g_vals += o->EngValueToString(s).size();
        }
        g_vals += o->Unit().size() + o->Name().size();
        if (pass == 0 && cn->Type() == ChannelType::VariableLength) {
          auto off = o->GetOffsetList();
          if (off.size() > 10) off.resize(10);
          std::function<void(uint64_t, const std::vector<uint8_t>&)> cb = [&](uint64_t, const std::vector<uint8_t>& x) { bytes += x.size(); };
          rd.ReadVlsdData(*dg, *cn, off, cb);
          rd.ReadVlsdData(*dg, *cn, {}, cb);
          ctx.Count("signal_data_reads", 2);
        }
      }
    }
    dg->ClearData();
  }
  if (r.Chance(0.1)) rd.ReadEverythingButData();
}
}  // namespace

void RunCase(Ctx& ctx) {
  auto& r = ctx.rng;
  bool mdf3 = false;
  g_limit = false;
  signal(SIGPROF, Hang);
  const PBytes base = BaseFile(ctx, mdf3);
  const std::string shape0 = ctx.shape;
  if (base.size() < 64) { ctx.Viol("no base file", ctx.shape); return; }
  if (base.size() > 3000000) { ctx.shape = "big"; return; }
  const std::string dir = ctx.Path("x");
  std::filesystem::create_directories(dir);
  const int variants = base.size() > 200000 ? 3 : 10;
  std::string kinds;
  for (int v = 0; v < variants; ++v) {
    PBytes b = base;
    std::string how;
    const int edits = r.Chance(0.6) ? 1 : int(r.Range(2, 6));
    for (int i = 0; i < edits; ++i) { const std::string k = MutateOnce(r, b, mdf3); how += k + ","; ctx.Count("edit " + k); }
    kinds += how + ";";
    if (const char* d = getenv("VERIF_DUMP")) { FILE* o2 = fopen(d, "wb"); fwrite(b.data(), 1, b.size(), o2); fclose(o2); fprintf(stderr, "variant %d %s\n", v, how.c_str()); }
    ctx.Count("files");
    g_limit = true;
    Timer(30);
    try {
      if (r.Chance(0.2)) {
        const std::string f = ctx.Path("m.mf4");
        { std::ofstream of(f, std::ios::binary); of.write(reinterpret_cast<const char*>(b.data()), std::streamsize(b.size())); }
        (void)mdf::IsMdfFile(f);
        mdf::MdfReader rd(f);
        Exercise(ctx, rd, dir, r);
      } else {
        auto mem = std::make_shared<MemBuf>(MemBuf::Store(b.begin(), b.end()));
        mdf::MdfReader rd(std::static_pointer_cast<std::streambuf>(mem));
        Exercise(ctx, rd, dir, r);
      }
    } catch (const std::exception& e) {
      ctx.Viol(std::string("exception escaped: ") + e.what(), how);
    }
    Timer(0);
    g_limit = false;
  }
  ctx.shape = shape0 + "|" + kinds;
  ctx.sample = kinds;
  ctx.nontrivial = true;
}
}  // namespace vh
