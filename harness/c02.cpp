// MDF3 write/finalize/read round trip.
#include "scen.h"
namespace vh {
const char* kPropId = "C02";
void RunCase(Ctx& ctx) {
  GenOpt o;
  o.mdf3 = true;
  o.max_samples = ctx.thorough() ? 400 : 80;
  if (ctx.rng.Chance(0.03)) o.max_ch = 60;
  if (ctx.rng.Chance(0.02)) { o.max_cg = ctx.rng.Chance(0.3) ? 150 : 40; o.max_ch = 2; o.max_samples = 300; }
  Scen s = GenScen(ctx.rng, o);
  ctx.shape = Describe(s);
  ctx.sample = ctx.shape;
  ctx.nontrivial = s.order.size() >= 2;
  ctx.Count("samples_saved", static_cast<int64_t>(s.order.size()));
  const std::string f = ctx.Path("a.dat");
  const std::string err = WriteScen(s, f);
  if (!err.empty()) { ctx.Viol("write-failed", err); return; }
  Content c = ReadContent(f);
  CompareScen(ctx, s, c);
}
}  // namespace vh
