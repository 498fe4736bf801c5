// Prompt stop: the worker's wait is delayed inside the mutex/predicate window
// so that a wake-up sent without the mutex would be lost.
#include <dlfcn.h>
#include <pthread.h>
#include <time.h>
#include "scen.h"
namespace vh {
const char* kPropId = "C04B";
static std::atomic<int> g_delay_us{0};
static std::atomic<uint64_t> g_waits{0};
static void Delay() {
  ++g_waits;
  const int d = g_delay_us.load();
  if (d > 0) { timespec t{0, d * 1000L}; nanosleep(&t, nullptr); }
}
}  // namespace vh
extern "C" int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const struct timespec* ts) {
  using F = int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
  static F f = reinterpret_cast<F>(dlsym(RTLD_NEXT, "pthread_cond_clockwait"));
  vh::Delay();
  return f(c, m, clk, ts);
}
extern "C" int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  using F = int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
  static F f = reinterpret_cast<F>(dlsym(RTLD_NEXT, "pthread_cond_timedwait"));
  vh::Delay();
  return f(c, m, ts);
}
namespace vh {
void RunCase(Ctx& ctx) {
  Rng& r = ctx.rng;
  const int kind = static_cast<int>(r.Below(3));
  g_delay_us = static_cast<int>(r.Pick({0, 200, 2000, 20000}));
  auto w = mdf::MdfFactory::CreateMdfWriter(kind == 0 ? mdf::MdfWriterType::Mdf4Basic : kind == 1 ? mdf::MdfWriterType::Mdf3Basic : mdf::MdfWriterType::MdfConverter);
  if (!w->Init(ctx.Path("p.mf4"))) { ctx.Viol("init", "Init"); return; }
  auto* dg = w->CreateDataGroup();
  auto* cg = mdf::MdfWriter::CreateChannelGroup(dg);
  auto* cn = mdf::MdfWriter::CreateChannel(cg);
  cn->Name("x"); cn->Type(ChannelType::FixedLength); cn->DataType(ChannelDataType::UnsignedIntegerLe); cn->DataBytes(4);
  const bool abandon = r.Chance(0.3);
  const bool start = r.Chance(0.7);
  const uint64_t n = r.Below(3);
  SetFlushPeriod(10000);
  if (!w->InitMeasurement()) { ctx.Viol("init-measurement", ""); return; }
  const uint64_t wait = r.Below(1 + static_cast<uint64_t>(g_delay_us.load()) * 2);
  if (start) w->StartMeasurement(1700000000000000000ULL);
  for (uint64_t i = 0; i < n; ++i) { cn->SetChannelValue(i); w->SaveSample(*cg, 1700000000000000000ULL + i); }
  std::this_thread::sleep_for(std::chrono::microseconds(wait));
  const auto t0 = std::chrono::steady_clock::now();
  if (abandon) w.reset(); else w->StopMeasurement(1700000000000000010ULL);
  const double s = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  if (s > 5.0) ctx.Viol("stop-slow", "stop took " + std::to_string(s) + " s");
  if (w) w->FinalizeMeasurement();
  g_delay_us = 0;
  ctx.Count("stops");
  ctx.Count("worker_waits_seen", static_cast<int64_t>(g_waits.exchange(0)));
  ctx.shape = std::to_string(kind) + " delay=" + std::to_string(g_delay_us.load()) + " wait=" + std::to_string(wait) + (abandon ? " destroyed" : " stopped") + (start ? " started" : "");
  ctx.sample = ctx.shape;
  ctx.nontrivial = true;
}
}  // namespace vh
