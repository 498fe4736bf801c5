#include "scen.h"
namespace vh {
const char* kPropId = "C01";
void RunCase(Ctx& ctx) {
  GenOpt o;
  o.max_samples = ctx.thorough() ? 400 : 80;
  if (ctx.rng.Chance(0.03)) { o.max_ch = 60; }
  if (ctx.rng.Chance(0.02)) { o.max_cg = 300; o.max_dg = 1; o.max_ch = 2; o.min_samples = 900; }
  Scen s = GenScen(ctx.rng, o);
  ctx.shape = Describe(s);
  ctx.sample = ctx.shape;
  ctx.nontrivial = s.order.size() >= 2;
  ctx.Count("samples_saved", static_cast<int64_t>(s.order.size()));
  const std::string f = ctx.Path("a.mf4");
  const std::string err = WriteScen(s, f);
  if (!err.empty()) { ctx.Viol("write-failed", err); return; }
  Content c = ReadContent(f);
  if (c.ok && !c.finalized) ctx.Viol("not-finalized", "file is not finalized");
  CompareScen(ctx, s, c);
}
}  // namespace vh
