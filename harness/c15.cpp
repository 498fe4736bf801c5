// Descriptive data is read back as it was set.
#include <fstream>
#include "meta.h"
namespace vh {
const char* kPropId = "C15";
namespace {
void Mdf3Meta(Rng& r, const Scen& s, Handles& h, Facts& f) {
  for (size_t d = 0; d < s.dg.size(); ++d) for (size_t g = 0; g < s.dg[d].cg.size(); ++g) for (size_t n = 0; n < s.dg[d].cg[g].ch.size(); ++n) {
    const std::string k = "dg" + std::to_string(d) + ".cg" + std::to_string(g) + ".cn" + std::to_string(n) + ".";
    auto& cn = *h.ch[d][g][n];
    std::string t = Word(r, 1 + r.Below(r.Chance(0.2) ? 200 : 30), true) + std::to_string(n); cn.Name(t); f[k + "name"] = t;
    t = Word(r, r.Below(120), true); cn.Description(t); f[k + "desc"] = t;
    if (r.Chance(0.4)) { t = Word(r, 1 + r.Below(200), true); cn.DisplayName(t); f[k + "display"] = t; }
    if (r.Chance(0.5)) { t = Word(r, r.Below(18), true); cn.Unit(t); f[k + "unit"] = t; }
    if (r.Chance(0.3)) { const double a = std::fabs(AnyDouble(r)); cn.SamplingRate(a); f[k + "rate"] = Num(a); }
  }
  for (size_t d = 0; d < s.dg.size(); ++d) for (size_t g = 0; g < s.dg[d].cg.size(); ++g) if (r.Chance(0.4)) {
    const std::string k = "dg" + std::to_string(d) + ".cg" + std::to_string(g) + ".";
    const std::string t = Word(r, r.Below(r.Chance(0.1) ? 3000 : 60), true);
    h.cg[d][g]->Description(t); f[k + "desc"] = t;
  }
}
}  // namespace

void RunCase(Ctx& ctx) {
  Rng& r = ctx.rng;
  SetterLoss().clear();
  const bool mdf3 = r.Chance(0.15);
  GenOpt o;
  o.mdf3 = mdf3; o.max_samples = 12; o.max_ch = 4; o.max_cg = 3; o.max_dg = 3; o.vlsd = true;
  Scen s = GenScen(r, o);
  s.pause_every = 0; s.flush_ms = 10000;
  Facts want;
  const std::string file = ctx.Path(mdf3 ? "a.dat" : "a.mf4");
  auto w = mdf::MdfFactory::CreateMdfWriter(mdf3 ? mdf::MdfWriterType::Mdf3Basic : mdf::MdfWriterType::Mdf4Basic);
  if (!w->Init(file)) { ctx.Viol("init", "Init failed"); return; }
  auto* hd = w->Header();
  Handles h;
  size_t ats = 0, evs = 0, fhs = 0, chs = 0;
  EvRefs refs;
  ChRefs crefs;
  GenHeader(r, *hd, mdf3, want);
  if (!CreateGroups(*w, s, h)) { ctx.Viol("groups", "CreateGroups"); return; }
  if (mdf3) Mdf3Meta(r, s, h, want);
  else {
    GenGroupMeta(r, s, h, 0, want);
    const size_t na = r.Below(3);
    for (size_t i = 0; i < na; ++i) {
      const std::string an = ctx.Path("att" + std::to_string(i));
      { std::ofstream of(an); of << "attachment " << i; }
      auto* a = hd->CreateAttachment();
      const std::string k = "at" + std::to_string(ats++) + ".";
      const std::string fn = i > 0 && r.Chance(0.2) ? ctx.Path("att0") : an;  // the same file twice
      a->FileName(fn); want[k + "file"] = fn;
      a->IsEmbedded(r.Chance(0.7)); a->IsCompressed(r.Chance(0.5));
      want[k + "embedded"] = std::to_string(a->IsEmbedded()); want[k + "compressed"] = std::to_string(a->IsCompressed());
      std::string t = MText(r, 20, true); a->FileType(t); want[k + "type"] = t;
      const auto ci = static_cast<uint16_t>(r.Below(4)); a->CreatorIndex(ci); want[k + "creator"] = std::to_string(ci);
      if (r.Chance(0.5)) { mdf::AtComment c; FillComment(r, c); a->SetAtComment(c); CommentFacts(c, k + "c.", want); }
      else if (r.Chance(0.5)) FillMeta(r, a->CreateMetaData(), k + "md.", want);
      refs.at.emplace_back(a, "at" + std::to_string(i));
    }
    for (size_t d = 0; d < h.dg.size(); ++d) for (size_t g = 0; g < h.cg[d].size(); ++g) {
      const std::string gn = "dg" + std::to_string(d) + ".cg" + std::to_string(g);
      refs.scope.emplace_back(static_cast<const mdf::IChannelGroup*>(h.cg[d][g]), gn);
      for (size_t n = 0; n < h.ch[d][g].size(); ++n) {
        const std::string cn = gn + ".cn" + std::to_string(n);
        auto* c = h.ch[d][g][n];
        refs.scope.emplace_back(static_cast<const mdf::IChannel*>(c), cn);
        mdf::ElementLink l; l.data_group = h.dg[d]; l.channel_group = h.cg[d][g]; l.channel = c;
        crefs.link.emplace_back(l, "dg" + std::to_string(d) + "/" + gn + "/" + cn);
        if (r.Chance(0.2)) { mdf::ElementLink x = l; x.channel = nullptr; crefs.link.emplace_back(x, "dg" + std::to_string(d) + "/" + gn + "/nil"); }
      }
    }
    // references between channels, attachments of channels
    for (size_t d = 0; d < h.dg.size(); ++d) for (size_t g = 0; g < h.cg[d].size(); ++g) for (size_t n = 0; n < h.ch[d][g].size(); ++n) {
      const std::string k = "dg" + std::to_string(d) + ".cg" + std::to_string(g) + ".cn" + std::to_string(n) + ".";
      if (!refs.at.empty() && r.Chance(0.15)) {
        const size_t m = 1 + r.Below(2);
        std::set<std::string> seen;
        for (size_t i = 0; i < m; ++i) {
          auto& a = r.Pick(refs.at);
          if (!seen.insert(a.second).second) continue;
          h.ch[d][g][n]->AddAttachmentReference(a.first); want[k + "at" + std::to_string(seen.size() - 1)] = a.second;
        }
      }
    }
    for (size_t d = 0; d < h.dg.size(); ++d) for (size_t g = 0; g < h.cg[d].size(); ++g) for (size_t n = 0; n < h.ch[d][g].size(); ++n)
      if (r.Chance(0.15)) {
        auto& l = r.Pick(crefs.link);
        if (!l.first.channel) continue;
        h.ch[d][g][n]->DefaultX(l.first);
        want["dg" + std::to_string(d) + ".cg" + std::to_string(g) + ".cn" + std::to_string(n) + ".defaultx"] = l.second;
      }
    const size_t nh = r.Below(3), nf = r.Below(3), ne = r.Below(5);
    for (size_t i = 0; i < nf; ++i) GenHistory(r, *hd, fhs++, s.start, want);
    for (size_t i = 0; i < nh; ++i) if (auto* c = hd->CreateChannelHierarchy()) GenHierarchy(r, *c, "ch" + std::to_string(chs++) + ".", crefs, want, 3);
    for (size_t i = 0; i < ne; ++i) GenEvent(r, *hd, evs++, refs, want);
    // an event may refer to one that follows it
    if (refs.ev.size() >= 2 && r.Chance(0.5)) {
      auto* first = hd->Events()[0];
      first->RangeEvent(refs.ev.back().first); want["ev0.rangeev"] = refs.ev.back().second;
    }
  }
  // the flags as set (some setters above change them)
  for (size_t d = 0; !mdf3 && d < h.dg.size(); ++d) for (size_t g = 0; g < h.cg[d].size(); ++g) for (size_t n = 0; n < h.ch[d][g].size(); ++n)
    want["dg" + std::to_string(d) + ".cg" + std::to_string(g) + ".cn" + std::to_string(n) + ".flags"] = std::to_string(h.ch[d][g][n]->Flags());
  for (auto& m : SetterLoss()) ctx.Viol("value lost when set", m);
  // ---- the measurement; more history and events may come while it runs
  w->CompressData(s.compress);
  w->SavePeriodic(s.periodic);
  SetFlushPeriod(s.flush_ms);
  if (!w->InitMeasurement()) { ctx.Viol("write", "InitMeasurement failed"); return; }
  w->StartMeasurement(s.start);
  for (size_t i = 0; i < s.order.size(); ++i) SaveStep(*w, s, h, s.order[i]);
  if (!mdf3 && r.Chance(0.3)) {
    ctx.Count("events_while_running");
    GenEvent(r, *hd, evs++, refs, want);
    if (r.Chance(0.5)) GenHistory(r, *hd, fhs++, s.start, want);
  }
  w->StopMeasurement(s.stop);
  if (!w->FinalizeMeasurement()) { ctx.Viol("write", "FinalizeMeasurement failed"); return; }
  w.reset();
  want["hd.start"] = std::to_string(s.start);
  if (mdf3) want.erase("hd.start");  // resolution of MDF 3: see C17
  else { want["evs"] = std::to_string(evs); want["ats"] = std::to_string(ats); want["chs"] = std::to_string(chs); want["fhs"] = std::to_string(fhs); }
  want["dgs"] = std::to_string(s.dg.size());

  mdf::MdfReader rd(file);
  if (!rd.ReadEverythingButData()) { ctx.Viol("read", "ReadEverythingButData failed"); return; }
  Facts got = Snapshot(rd, *rd.GetHeader(), mdf3);
  CheckFacts(ctx, want, got);
  // reading again gives the same
  mdf::MdfReader rd2(file);
  rd2.ReadEverythingButData();
  if (Snapshot(rd2, *rd2.GetHeader(), mdf3) != got) ctx.Viol("second read differs", "");
  ctx.nontrivial = want.size() > 10;
  std::ostringstream o2;
  o2 << (mdf3 ? "mdf3" : "mdf4") << " facts=" << want.size() << " ev=" << evs << " at=" << ats << " ch=" << chs << " fh=" << fhs << " " << std::hex << (HashStr([&] { std::string x; for (auto& [k, v] : want) x += k; return x; }()) & 0xffffff);
  ctx.shape = ctx.sample = o2.str();
}
}  // namespace vh
