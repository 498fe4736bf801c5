// Sample reductions: mean, minimum and maximum of every channel and interval
// as the file defines them, whatever form the reduction data is stored in.
#include "mdfblock.h"
#include "mdf/isamplereduction.h"
#include "mdfenc.h"
#include "membuf.h"
namespace vh {
const char* kPropId = "C26";
namespace {
double Num(const Val& v) { return v.k == VK::U ? static_cast<double>(v.u) : v.k == VK::I ? static_cast<double>(v.i) : v.d; }
template <typename T> void Parts(const mdf::SrValue<T>& v, T (&x)[3], bool (&ok)[3]) {
  x[0] = v.MeanValue; x[1] = v.MinValue; x[2] = v.MaxValue; ok[0] = v.MeanValid; ok[1] = v.MinValid; ok[2] = v.MaxValid;
}
mdf::ISampleReduction* Find(const mdf::MdfReader& rd, int64_t pos) {
  auto* hd = dynamic_cast<const mdf::detail::MdfBlock*>(rd.GetHeader());
  auto* blk = hd ? const_cast<mdf::detail::MdfBlock*>(hd)->Find(pos) : nullptr;
  return dynamic_cast<mdf::ISampleReduction*>(blk);
}
const char* kPart[3] = {"mean", "minimum", "maximum"};
}  // namespace

void RunCase(Ctx& ctx) {
  Rng& r = ctx.rng;
  EncOpt o;
  o.max_dg = 2; o.max_cg = 3; o.sr = 0.7; o.sr_len = r.Chance(0.1) ? 200 : 8;
  o.vlsd = r.Chance(0.3); o.vlsd_cg = r.Chance(0.3); o.mlsd = r.Chance(0.3);
  EncFile f = EncodeMdf4(r, o);
  ctx.shape = f.shape + " sr" + std::to_string(f.sr.size());
  for (auto& e : f.sr) ctx.shape += " " + std::to_string(e.n);
  for (auto& x : f.forms) if (x.find("reduction") != std::string::npos) ctx.Count(x);
  ctx.nontrivial = !f.sr.empty();
  auto mem = std::make_shared<MemBuf>(MemBuf::Store(f.bytes.begin(), f.bytes.end()));
  if (getenv("VERIF_DUMP")) { std::string n = getenv("VERIF_DUMP"); FILE* o2 = fopen(n.c_str(), "wb"); fwrite(f.bytes.data(), 1, f.bytes.size(), o2); fclose(o2); }
  mdf::MdfReader rd(std::static_pointer_cast<std::streambuf>(mem));
  if (!rd.ReadEverythingButData()) { ctx.Viol("read failed", ""); return; }
  auto dgs = rd.GetHeader()->DataGroups();
  if (dgs.size() != f.want.dg.size()) { ctx.Viol("data groups", ""); return; }
  // through the group's data, or one reduction at a time
  const bool whole = r.Chance(0.4);
  std::vector<mdf::ChannelObserverPtr> keep;
  if (whole) for (auto* dg : dgs) {
    for (auto* cg : dg->ChannelGroups()) if (r.Chance(0.5)) for (auto* cn : cg->Channels()) keep.push_back(mdf::CreateChannelObserver(*dg, *cg, *cn));
    if (!rd.ReadData(*dg)) { ctx.Viol("read failed", "ReadData"); return; }
  }
  std::vector<size_t> order(f.sr.size());
  for (size_t i = 0; i < order.size(); ++i) order[i] = i;
  for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.Below(i)]);
  for (size_t q : order) {
    const auto& e = f.sr[q];
    const std::string at = "dg" + std::to_string(e.dg) + ".cg" + std::to_string(e.cg) + " reduction " + std::to_string(q);
    auto* sr = Find(rd, e.pos);
    if (!sr) { ctx.Viol("reduction missing", at); continue; }
    ctx.Count("reductions");
    if (sr->NofSamples() != e.n) ctx.Viol("number of intervals", at + " " + std::to_string(sr->NofSamples()) + " want " + std::to_string(e.n));
    if (sr->Interval() != e.interval) ctx.Viol("interval", at + " " + std::to_string(sr->Interval()));
    if (static_cast<unsigned>(sr->SyncType()) != e.sync) ctx.Viol("sync type", at + " " + std::to_string(static_cast<unsigned>(sr->SyncType())) + " want " + std::to_string(e.sync));
    if (sr->Flags() != e.flags) ctx.Viol("flags", at);
    auto* cg = dgs[e.dg]->ChannelGroups()[e.cg];
    if (sr->ChannelGroup() != cg) { ctx.Viol("group of reduction", at); continue; }
    if (!whole && !rd.ReadSrData(*sr)) { ctx.Viol("read failed", at); continue; }
    const auto& want = f.want.dg[e.dg].cg[e.cg];
    const auto chs = cg->Channels();
    if (chs.size() != want.ch.size()) { ctx.Viol("channels", at); continue; }
    for (size_t c = 0; c < chs.size(); ++c) {
      const auto& x = want.ch[c];
      if ((!IsInt(x.dt) && !IsFloat(x.dt)) || x.type == ChannelType::VirtualMaster || x.type == ChannelType::VirtualData || x.type == ChannelType::VariableLength) continue;
      const EEng* eng = nullptr;
      for (auto& g : f.eng) if (g.dg == e.dg && g.cg == e.cg && g.ch == c) eng = &g;
      for (size_t i = 0; i < e.n; ++i) for (size_t k = 0; k < x.v[e.idx[3 * i]].size(); ++k) {
        const std::string w = at + " " + x.name + "[dt" + std::to_string(static_cast<int>(x.dt)) + " b" + std::to_string(x.bits) + "] interval " + std::to_string(i) + "/" + std::to_string(e.n) + " elem " + std::to_string(k);
        mdf::SrValue<double> vd, ve; mdf::SrValue<uint64_t> vu; mdf::SrValue<int64_t> vi; mdf::SrValue<std::string> vs;
        sr->GetChannelValue(*chs[c], i, k, vd);
        sr->GetEngValue(*chs[c], i, k, ve);
        double d[3], en[3]; uint64_t u[3] = {}; int64_t s[3] = {}; std::string t[3]; bool ok[3], ok2[3], ok3[3], ok4[3];
        Parts(vd, d, ok); Parts(ve, en, ok2);
        if (IsInt(x.dt)) {
          if (x.v[0][0].k == VK::U) { sr->GetChannelValue(*chs[c], i, k, vu); Parts(vu, u, ok3); } else { sr->GetChannelValue(*chs[c], i, k, vi); Parts(vi, s, ok3); }
        }
        sr->GetChannelValue(*chs[c], i, k, vs); Parts(vs, t, ok4);
        for (size_t p = 0; p < 3; ++p) {
          const Val& v = x.v[e.idx[3 * i + p]][k];
          ctx.Count("reduced_values");
          if (ok[p] != v.valid || ok2[p] != v.valid || ok4[p] != v.valid || (IsInt(x.dt) && ok3[p] != v.valid)) { ctx.Viol(std::string(kPart[p]) + " validity", w + " got " + std::to_string(ok[p]) + std::to_string(ok2[p]) + " want " + std::to_string(v.valid)); continue; }
          if (!v.valid) continue;
          if (!SameDouble(d[p], Num(v))) ctx.Viol(std::string(kPart[p]) + " value", w + " got " + std::to_string(d[p]) + " want " + Str(v));
          if (v.k == VK::U && u[p] != v.u) ctx.Viol(std::string(kPart[p]) + " unsigned value", w + " got " + std::to_string(u[p]) + " want " + Str(v));
          if (v.k == VK::I && s[p] != v.i) ctx.Viol(std::string(kPart[p]) + " signed value", w + " got " + std::to_string(s[p]) + " want " + Str(v));
          if (v.k == VK::U && t[p] != std::to_string(v.u)) ctx.Viol(std::string(kPart[p]) + " text", w + " got " + t[p] + " want " + Str(v));
          if (v.k == VK::I && t[p] != std::to_string(v.i)) ctx.Viol(std::string(kPart[p]) + " text", w + " got " + t[p] + " want " + Str(v));
          if (k == 0 && eng) {
            const double we = eng->v[e.idx[3 * i + p]];
            if (!(std::fabs(en[p] - we) <= 1e-9 * std::max(1.0, std::fabs(we))) && !SameDouble(en[p], we)) ctx.Viol(std::string(kPart[p]) + " engineering value", w + " got " + std::to_string(en[p]) + " want " + std::to_string(we));
          }
        }
      }
    }
    // released data is not reported as values
    if (r.Chance(0.3)) {
      sr->ClearData();
      for (size_t c = 0; c < chs.size(); ++c) if (IsInt(want.ch[c].dt) && want.ch[c].type == ChannelType::FixedLength) {
        mdf::SrValue<double> v;
        sr->GetChannelValue(*chs[c], 0, 0, v);
        if (v.MeanValid || v.MinValid || v.MaxValid) ctx.Viol("values after release", at);
      }
    }
  }
}
}  // namespace vh
