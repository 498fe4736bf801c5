// Entry point common to all drivers.
#include "common.h"
#include <sys/resource.h>
#include <execinfo.h>

namespace vh {
std::atomic<uint64_t> g_log_errors{0};
bool g_verbose = false;
static void LogFn(const MdfLocation& loc, mdf::MdfLogSeverity sev, const std::string& text) {
  if (static_cast<int>(sev) >= static_cast<int>(mdf::MdfLogSeverity::kError)) ++g_log_errors;
  if (g_verbose) fprintf(stderr, "LOG %d %s:%d %s\n", static_cast<int>(sev), loc.file.c_str(), loc.line, text.c_str());
}
}  // namespace vh

int main(int argc, char** argv) {
  using namespace vh;
  uint64_t seed = 1, from = 0, to = 1, stride = 1;
  std::string out = "/dev/stderr", scratch = "/tmp/vh_scratch", tier = "quick";
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--seed") seed = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--from") from = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--to") to = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--stride") stride = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--out") out = next();
    else if (a == "--scratch") scratch = next();
    else if (a == "--tier") tier = next();
    else if (a == "-v") g_verbose = true;
  }
  std::filesystem::create_directories(scratch);
  setenv("TMPDIR", scratch.c_str(), 1);
  mdf::MdfLogStream::SetLogFunction1(LogFn);
  Out o;
  o.Open(out);
  std::map<std::string, int64_t> counters;
  signal(SIGPIPE, SIG_IGN);
  for (uint64_t c = from; c < to; c += stride) {
    o.Line("{\"ev\":\"begin\",\"case\":" + std::to_string(c) + "}");
    Ctx ctx;
    ctx.out = &o; ctx.prop = kPropId; ctx.scratch = scratch; ctx.tier = tier;
    ctx.seed = seed; ctx.index = c;
    ctx.rng = Rng(Mix(seed * 1000003ULL + HashStr(kPropId)) ^ Mix(c + 17));
    ctx.counters = &counters;
    SetFlushPeriod(10000);
    try {
      RunCase(ctx);
    } catch (const std::exception& e) {
      ctx.Viol("exception", std::string("exception escaped: ") + e.what());
    } catch (...) {
      ctx.Viol("exception", "unknown exception escaped");
    }
    ctx.Wipe();
    o.Line("{\"ev\":\"end\",\"case\":" + std::to_string(c) + ",\"sig\":\"" +
           std::to_string(HashStr(ctx.shape)) + "\",\"nontrivial\":" + (ctx.nontrivial ? "true" : "false") +
           ",\"viol\":" + std::to_string(ctx.nviol) +
           ((c < 4 || ctx.nviol) ? ",\"sample\":\"" + JsonEsc(ctx.sample.substr(0, 600)) + "\"" : "") + "}");
  }
  std::string l = "{\"ev\":\"counters\"";
  for (auto& [k, v] : counters) l += ",\"" + JsonEsc(k) + "\":" + std::to_string(v);
  counters.clear();
  o.Line(l + "}");
  return 0;
}
