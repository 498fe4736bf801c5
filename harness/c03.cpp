// The same measurement written under every combination of writer options.
#include "scen.h"
#include "membuf.h"
namespace vh {
const char* kPropId = "C03";
void RunCase(Ctx& ctx) {
  Rng& r = ctx.rng;
  GenOpt o;
  o.max_samples = ctx.thorough() ? 300 : 60;
  Scen s;
  const double big_p = ctx.thorough() ? 0.12 : 0.06;
  const bool big = r.Chance(big_p);
  if (big) {
    s = BigScen(ctx, o, ctx.thorough());
    ctx.Count("big_cases");
  } else {
    s = GenScen(r, o);
  }
  ctx.shape = Describe(s);
  ctx.sample = ctx.shape;
  ctx.nontrivial = s.order.size() >= 2;
  ctx.Count("samples_saved", static_cast<int64_t>(s.order.size()));
  struct Combo { bool comp, per, stream; };
  std::vector<Combo> combos;
  for (int i = 0; i < 8; ++i) combos.push_back({(i & 1) != 0, (i & 2) != 0, (i & 4) != 0});
  if (big) {  // a compressed one, a plain one and one more
    const auto a = combos[r.Below(8)];
    combos = {{true, r.Chance(0.5), r.Chance(0.5)}, {false, r.Chance(0.5), r.Chance(0.5)}, a};
  }
  Content ref;
  for (size_t k = 0; k < combos.size(); ++k) {
    Scen t = s;
    t.compress = combos[k].comp; t.periodic = combos[k].per;
    const std::string name = std::string(t.compress ? "compressed" : "plain") + (t.periodic ? "/periodic" : "/at-stop") + (combos[k].stream ? "/stream" : "/file");
    Content c;
    std::string err;
    if (combos[k].stream) {
      auto buf = std::make_shared<MemBuf>();
      err = WriteScen(t, buf);
      if (err.empty()) {
        ctx.Count("bytes_written", static_cast<int64_t>(buf->Data().size()));
        c = ReadContent(std::make_shared<MemBuf>(buf->Data()));
      }
    } else {
      const std::string f = ctx.Path("f" + std::to_string(k) + ".mf4");
      err = WriteScen(t, f);
      if (err.empty()) {
        std::error_code ec;
        ctx.Count("bytes_written", static_cast<int64_t>(std::filesystem::file_size(f, ec)));
        c = ReadContent(f);
      }
    }
    if (!err.empty()) { ctx.Viol("write-failed", name + ": " + err); continue; }
    ctx.Count("variants");
    CompareScen(ctx, t, c, name + " ");
    if (k == 0) ref = std::move(c);
    else {
      const std::string d = DiffContent(ref, c);
      if (!d.empty()) ctx.Viol("variants-differ", name + " vs first: " + d);
    }
  }
}
}  // namespace vh
