// Conforming files of other tools: an independent encoder writes records and
// storage forms the library's writer never uses, the library reads them.
#include "mdfenc.h"
#include "membuf.h"
namespace vh {
const char* kPropId = "C13";
namespace {
void CompareEnc(Ctx& ctx, const EncFile& f, const Content& got, const std::string& pfx) {
  if (!got.ok) { ctx.Viol(pfx + "read failed", got.err); return; }
  const auto& w = f.want;
  if (got.dg.size() != w.dg.size()) { ctx.Viol(pfx + "data groups", std::to_string(got.dg.size()) + " want " + std::to_string(w.dg.size())); return; }
  for (size_t d = 0; d < w.dg.size(); ++d) {
    if (got.dg[d].cg.size() != w.dg[d].cg.size()) { ctx.Viol(pfx + "channel groups", std::to_string(got.dg[d].cg.size()) + " want " + std::to_string(w.dg[d].cg.size())); continue; }
    for (size_t g = 0; g < w.dg[d].cg.size(); ++g) {
      const auto &a = w.dg[d].cg[g], &b = got.dg[d].cg[g];
      const std::string at = "dg" + std::to_string(d) + ".cg" + std::to_string(g);
      if (a.nof != b.nof) ctx.Viol(pfx + "sample count", at + " " + std::to_string(b.nof) + " want " + std::to_string(a.nof));
      if (a.vlsd != b.vlsd || a.rec_id != b.rec_id) ctx.Viol(pfx + "group kind", at);
      if (a.vlsd) continue;
      if (a.name != b.name) ctx.Viol(pfx + "group name", at + " '" + b.name + "' want '" + a.name + "'");
      if (a.ch.size() != b.ch.size()) { ctx.Viol(pfx + "channels", at + " " + std::to_string(b.ch.size()) + " want " + std::to_string(a.ch.size())); continue; }
      for (size_t c = 0; c < a.ch.size(); ++c) {
        const auto &x = a.ch[c], &y = b.ch[c];
        const std::string w2 = at + "." + x.name + "[dt" + std::to_string(static_cast<int>(x.dt)) + " ty" + std::to_string(static_cast<int>(x.type)) + " b" + std::to_string(x.bits) + "]";
        const std::string kind = " (channel type " + std::to_string(static_cast<int>(x.type)) + ", data type " + std::to_string(static_cast<int>(x.dt)) + ")";
        if (x.name != y.name || x.unit != y.unit || x.desc != y.desc) ctx.Viol(pfx + "channel text", w2 + " '" + y.name + "' '" + y.unit + "' '" + y.desc + "'");
        if (x.dt != y.dt || x.type != y.type || x.bits != y.bits || x.shape != y.shape) { ctx.Viol(pfx + "channel type", w2); continue; }
        if (x.v.size() != y.v.size()) { ctx.Viol(pfx + "value count", w2 + " " + std::to_string(y.v.size())); continue; }
        for (size_t i = 0; i < x.v.size(); ++i) {
          if (x.v[i].size() != y.v[i].size()) { ctx.Viol(pfx + "elements", w2); break; }
          for (size_t e = 0; e < x.v[i].size(); ++e) {
            ctx.Count("values_compared");
            if (x.v[i][e].valid != y.v[i][e].valid) ctx.Viol(pfx + "validity" + kind, w2 + " sample " + std::to_string(i) + "/" + std::to_string(x.v.size()) + " elem " + std::to_string(e) + " got " + Str(y.v[i][e]) + " want " + Str(x.v[i][e]));
            else if (x.v[i][e].valid && !SameVal(x.v[i][e], y.v[i][e])) ctx.Viol(pfx + "value" + kind, w2 + " sample " + std::to_string(i) + "/" + std::to_string(x.v.size()) + " elem " + std::to_string(e) + " got " + Str(y.v[i][e]) + " want " + Str(x.v[i][e]));
          }
        }
      }
    }
  }
}
}  // namespace

void RunCase(Ctx& ctx) {
  EncOpt o;
  if (ctx.rng.Chance(1.0 / 40)) { o.max_samples = 3000; o.max_dg = 1; }
  EncFile f = EncodeMdf4(ctx.rng, o);
  ctx.shape = f.shape;
  for (auto& x : f.forms) ctx.Count(x);
  for (auto& d : f.want.dg) for (auto& g : d.cg) for (auto& c : g.ch) {
    ctx.Count("type" + std::to_string(static_cast<int>(c.type)) + "_dt" + std::to_string(static_cast<int>(c.dt)));
    if (g.nof) ctx.nontrivial = true;
  }
  auto mem = std::make_shared<MemBuf>(MemBuf::Store(f.bytes.begin(), f.bytes.end()));
  if (getenv("VERIF_DUMP")) { std::string n = getenv("VERIF_DUMP"); FILE* o2 = fopen(n.c_str(), "wb"); fwrite(f.bytes.data(), 1, f.bytes.size(), o2); fclose(o2); }
  mdf::MdfReader rd(std::static_pointer_cast<std::streambuf>(mem));
  const Content got = ReadContent(rd);
  CompareEnc(ctx, f, got, "");
  // engineering values of linear conversions and time axes
  if (!got.ok) return;
  rd.ReadEverythingButData();
  auto dgs = rd.GetHeader()->DataGroups();
  for (size_t d = 0; d < dgs.size(); ++d) {
    std::vector<std::pair<const EEng*, mdf::ChannelObserverPtr>> ob;
    for (auto& e : f.eng) if (e.dg == d) {
      auto* cg = dgs[d]->ChannelGroups()[e.cg];
      ob.push_back({&e, mdf::CreateChannelObserver(*dgs[d], *cg, *cg->Channels()[e.ch])});
    }
    if (ob.empty()) continue;
    if (!rd.ReadData(*dgs[d])) { ctx.Viol("second read failed", std::to_string(d)); continue; }
    for (auto& [e, p] : ob) for (size_t i = 0; i < e->v.size(); ++i) {
      double v = 0;
      if (!p->GetEngValue(i, v)) continue;   // invalid sample (validity is compared above)
      ctx.Count("engineering_values");
      if (!(std::fabs(v - e->v[i]) <= 1e-9 * std::max(1.0, std::fabs(e->v[i])))) { ctx.Viol("engineering value", "dg" + std::to_string(d) + ".cg" + std::to_string(e->cg) + ".ch" + std::to_string(e->ch) + " sample " + std::to_string(i) + " got " + std::to_string(v) + " want " + std::to_string(e->v[i])); break; }
    }
  }
}
}  // namespace vh
