// MDF 3 files of other tools: written by an independent encoder, read by the
// library, values, texts and structure compared with what the bytes mean.
#include "mdfenc3.h"
#include "membuf.h"
namespace vh {
const char* kPropId = "C21";
namespace {
void Compare(Ctx& ctx, const EncFile3& f, const Content& got) {
  if (!got.ok) { ctx.Viol("read failed", got.err); return; }
  const auto& w = f.want;
  if (got.dg.size() != w.dg.size()) { ctx.Viol("data groups", std::to_string(got.dg.size()) + " want " + std::to_string(w.dg.size())); return; }
  for (size_t d = 0; d < w.dg.size(); ++d) {
    if (got.dg[d].cg.size() != w.dg[d].cg.size()) { ctx.Viol("channel groups", std::to_string(got.dg[d].cg.size()) + " want " + std::to_string(w.dg[d].cg.size())); continue; }
    for (size_t g = 0; g < w.dg[d].cg.size(); ++g) {
      const auto &a = w.dg[d].cg[g], &b = got.dg[d].cg[g];
      const std::string at = "dg" + std::to_string(d) + ".cg" + std::to_string(g);
      if (a.nof != b.nof) ctx.Viol("sample count", at + " " + std::to_string(b.nof) + " want " + std::to_string(a.nof));
      if (a.rec_id != b.rec_id) ctx.Viol("record id", at);
      if (a.desc != b.desc) ctx.Viol("group comment", at + " '" + b.desc + "' want '" + a.desc + "'");
      if (a.ch.size() != b.ch.size()) { ctx.Viol("channels", at + " " + std::to_string(b.ch.size()) + " want " + std::to_string(a.ch.size())); continue; }
      for (size_t c = 0; c < a.ch.size(); ++c) {
        const auto &x = a.ch[c], &y = b.ch[c];
        const std::string w2 = at + "." + x.name + "[dt" + std::to_string(static_cast<int>(x.dt)) + " ty" + std::to_string(static_cast<int>(x.type)) + " b" + std::to_string(x.bits) + "]";
        if (x.name != y.name || x.unit != y.unit || x.desc != y.desc) ctx.Viol("channel text", w2 + " '" + y.name + "' '" + y.unit + "' '" + y.desc + "'");
        if (x.dt != y.dt || x.type != y.type || x.bits != y.bits) { ctx.Viol("channel type", w2 + " got dt" + std::to_string(static_cast<int>(y.dt))); continue; }
        if (x.v.size() != y.v.size()) { ctx.Viol("value count", w2 + " " + std::to_string(y.v.size())); continue; }
        for (size_t i = 0; i < x.v.size(); ++i) {
          ctx.Count("values_compared");
          if (y.v[i].size() != 1) { ctx.Viol("elements", w2); break; }
          if (!y.v[i][0].valid) ctx.Viol("validity (data type " + std::to_string(static_cast<int>(x.dt)) + ")", w2 + " sample " + std::to_string(i) + "/" + std::to_string(x.v.size()));
          else if (!SameVal(x.v[i][0], y.v[i][0])) ctx.Viol("value (data type " + std::to_string(static_cast<int>(x.dt)) + ")", w2 + " sample " + std::to_string(i) + "/" + std::to_string(x.v.size()) + " got " + Str(y.v[i][0]) + " want " + Str(x.v[i][0]));
        }
      }
    }
  }
}
}  // namespace

void RunCase(Ctx& ctx) {
  auto& r = ctx.rng;
  EncOpt o;
  if (r.Chance(1.0 / 40)) { o.max_samples = 3000; o.max_dg = 1; }
  EncFile3 f = EncodeMdf3(r, o);
  ctx.shape = f.shape;
  for (auto& x : f.forms) ctx.Count(x);
  for (auto& d : f.want.dg) for (auto& g : d.cg) for (auto& c : g.ch) { ctx.Count("data_type" + std::to_string(static_cast<int>(c.dt))); if (g.nof) ctx.nontrivial = true; }
  auto mem = std::make_shared<MemBuf>(MemBuf::Store(f.bytes.begin(), f.bytes.end()));
  if (getenv("VERIF_DUMP")) { FILE* o2 = fopen(getenv("VERIF_DUMP"), "wb"); fwrite(f.bytes.data(), 1, f.bytes.size(), o2); fclose(o2); }
  mdf::MdfReader rd(std::static_pointer_cast<std::streambuf>(mem));
  const Content got = ReadContent(rd);
  Compare(ctx, f, got);
  if (!got.ok || ctx.nviol) return;
  const auto* hd = rd.GetHeader();
  auto same = [&](const char* what, const std::string& a, const std::string& b) { if (a != b) ctx.Viol(std::string("header ") + what, "'" + b + "' want '" + a + "'"); };
  same("author", f.hdr.author, hd->Author()); same("department", f.hdr.department, hd->Department());
  same("project", f.hdr.project, hd->Project()); same("subject", f.hdr.subject, hd->Subject()); same("comment", f.hdr.comment, hd->Description());
  if (hd->StartTime() != f.hdr.ns) ctx.Viol("start time", std::to_string(hd->StartTime()) + " want " + std::to_string(f.hdr.ns));
  ctx.Count("headers_compared");
  // engineering values, texts of conversions and ranges of samples
  rd.ReadEverythingButData();
  auto dgs = rd.GetHeader()->DataGroups();
  for (size_t d = 0; d < dgs.size(); ++d) {
    auto cgs = dgs[d]->ChannelGroups();
    std::vector<std::vector<mdf::ChannelObserverPtr>> ob(cgs.size());
    for (size_t g = 0; g < cgs.size(); ++g) for (auto* cn : cgs[g]->Channels()) ob[g].push_back(mdf::CreateChannelObserver(*dgs[d], *cgs[g], *cn));
    uint64_t mx = 0;
    for (auto& g : f.want.dg[d].cg) mx = std::max(mx, g.nof);
    const bool part = r.Chance(1.0 / 2) && mx > 0;
    uint64_t lo = 1, hi = UINT64_MAX;
    if (part) { lo = 1 + r.Below(mx); hi = lo + r.Below(mx - lo + 2); }
    if (!(part ? rd.ReadPartialData(*dgs[d], lo, hi) : rd.ReadData(*dgs[d]))) { ctx.Viol("second read failed", std::to_string(d)); continue; }
    ctx.Count(part ? "range_reads" : "full_reads");
    auto in = [&](uint64_t i) { return i + 1 >= lo && i + 1 <= hi; };
    auto where = [&](size_t g, size_t c, size_t i) { return "dg" + std::to_string(d) + ".cg" + std::to_string(g) + "." + f.want.dg[d].cg[g].ch[c].name + " sample " + std::to_string(i) + (part ? " range " + std::to_string(lo) + ".." + std::to_string(hi) : ""); };
    for (size_t g = 0; g < cgs.size(); ++g) for (size_t c = 0; c < ob[g].size(); ++c) {
      const auto& x = f.want.dg[d].cg[g].ch[c];
      for (size_t i = 0; i < x.v.size(); ++i) {
        const Val v = GetObs(*ob[g][c], x.dt, i);
        ctx.Count("values_compared");
        if (v.valid != in(i)) { ctx.Viol(in(i) ? "range: sample missing" : "range: sample outside", where(g, c, i)); break; }
        if (v.valid && !SameVal(v, x.v[i][0])) { ctx.Viol("range: value", where(g, c, i) + " got " + Str(v) + " want " + Str(x.v[i][0])); break; }
      }
    }
    for (auto& e : f.eng) if (e.dg == d) for (size_t i = 0; i < e.v.size(); ++i) {
      if (!in(i)) continue;
      double v = 0;
      if (!ob[e.cg][e.ch]->GetEngValue(i, v)) { ctx.Viol("no engineering value", where(e.cg, e.ch, i)); break; }
      ctx.Count("engineering_values");
      if (!(std::fabs(v - e.v[i]) <= 1e-9 * std::max(1.0, std::fabs(e.v[i])))) { ctx.Viol("engineering value", where(e.cg, e.ch, i) + " got " + std::to_string(v) + " want " + std::to_string(e.v[i])); break; }
    }
    for (auto& e : f.text) if (e.dg == d) for (size_t i = 0; i < e.v.size(); ++i) {
      if (!in(i) || e.v[i] == "\x01") continue;
      std::string v;
      if (!ob[e.cg][e.ch]->GetEngValue(i, v)) { ctx.Viol("no conversion text", where(e.cg, e.ch, i) + " want '" + e.v[i] + "'"); break; }
      ctx.Count("conversion_texts");
      if (v != e.v[i]) { ctx.Viol("conversion text", where(e.cg, e.ch, i) + " got '" + v + "' want '" + e.v[i] + "'"); break; }
    }
  }
}
}  // namespace vh
