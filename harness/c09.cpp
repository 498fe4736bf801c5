// Channel arrays: every element at its index, shape kept, text rendering complete.
#include "membuf.h"
#include "scen.h"
namespace vh {
const char* kPropId = "C09";

static ChSpec ArrayChannel(Rng& r, size_t n) {
  GenOpt o;
  o.vlsd = false;
  ChSpec c;
  do { c = GenChannel(r, o, n); } while (!IsInt(c.dt) && !IsFloat(c.dt));
  if (IsInt(c.dt) && r.Chance(0.15)) c.bytes = r.Pick({3u, 5u, 6u, 7u});
  const size_t nd = r.Pick<size_t>({1, 1, 1, 2, 2, 3, 4, 5});
  uint64_t left = r.Chance(0.1) ? 2000 : 120;
  for (size_t i = 0; i < nd; ++i) {
    const uint64_t d = 1 + r.Tail(std::min<uint64_t>(left - 1, i == 0 ? left - 1 : 6));
    c.dims.push_back(d);
    left = std::max<uint64_t>(1, left / d);
  }
  if (r.Chance(0.3)) { c.cc0 = r.Pick({0.0, 1.5, -3.0}); c.cc1 = r.Pick({0.5, 2.0, -0.25}); }
  return c;
}
static double Raw(const Val& v) { return v.k == VK::U ? static_cast<double>(v.u) : v.k == VK::I ? static_cast<double>(v.i) : v.d; }

void RunCase(Ctx& ctx) {
  Rng& r = ctx.rng;
  GenOpt o;
  o.max_dg = 2; o.max_cg = 3; o.max_ch = 5; o.max_samples = 25;
  Scen s = GenScen(r, o);
  // put array channels between the ordinary ones
  for (auto& d : s.dg) for (auto& g : d.cg) {
    const size_t n = r.Range(1, 3);
    for (size_t k = 0; k < n; ++k) {
      auto c = ArrayChannel(r, 100 + k);
      c.name = "Arr" + std::to_string(k);
      const size_t pos = r.Below(g.ch.size() + 1);
      g.ch.insert(g.ch.begin() + static_cast<long>(pos), c);
    }
    g.samples.clear();
  }
  s.order.clear();
  GenSamples(r, s, 1 + r.Tail(25), s.start + r.Below(5000000));
  const bool stream = r.Chance(0.5);
  const bool bulk = r.Chance(0.3), shuffle = r.Chance(0.5);
  struct Axis { uint8_t type; std::vector<double> v; };
  std::map<std::string, Axis> axes;
  ctx.shape = Describe(s);
  for (auto& d : s.dg) for (auto& g : d.cg) for (auto& c : g.ch) if (!c.dims.empty()) { ctx.shape += " "; for (auto x : c.dims) ctx.shape += "[" + std::to_string(x) + "]"; }
  ctx.sample = ctx.shape;
  ctx.nontrivial = s.order.size() >= 2;

  auto w = mdf::MdfFactory::CreateMdfWriter(s.wtype);
  auto mem = std::make_shared<MemBuf>();
  const std::string file = ctx.Path("a.mf4");
  if (stream ? !w->Init(std::static_pointer_cast<std::streambuf>(mem)) : !w->Init(file)) { ctx.Viol("write-failed", "Init"); return; }
  w->CompressData(s.compress);
  w->SavePeriodic(s.periodic);
  w->PreTrigTime(0);
  Handles h;
  if (!CreateGroups(*w, s, h)) { ctx.Viol("write-failed", "CreateGroups"); return; }
  for (size_t d = 0; d < s.dg.size(); ++d) for (size_t g = 0; g < s.dg[d].cg.size(); ++g) for (size_t n = 0; n < s.dg[d].cg[g].ch.size(); ++n) {
    auto& c = s.dg[d].cg[g].ch[n];
    if (c.dims.empty() || !r.Chance(0.4)) continue;
    auto* ca = h.ch[d][g][n]->ChannelArray(0);
    Axis a;
    a.type = static_cast<uint8_t>(r.Below(5));
    ca->Type(static_cast<mdf::ArrayType>(a.type));
    if (r.Chance(0.5)) {
      ca->Flags(mdf::CaFlag::Axis | mdf::CaFlag::FixedAxis);
      uint64_t sum = 0;
      for (auto x : c.dims) sum += x;
      for (uint64_t i = 0; i < sum; ++i) a.v.push_back(static_cast<double>(r.Range(-100, 100)) / 4);
      auto& av = ca->AxisValues();
      for (size_t i = 0; i < a.v.size() && i < av.size(); ++i) av[i] = a.v[i];
    }
    axes[std::to_string(d) + "." + std::to_string(g) + "." + std::to_string(n)] = a;
  }
  SetFlushPeriod(s.flush_ms);
  if (!w->InitMeasurement()) { ctx.Viol("write-failed", "InitMeasurement"); return; }
  w->StartMeasurement(s.start);
  for (auto& st : s.order) {
    const auto& g = s.dg[st.dg].cg[st.cg];
    const auto& smp = g.samples[st.idx];
    // channels and elements are set in any order
    std::vector<std::pair<size_t, size_t>> todo;
    for (size_t c = 0; c < g.ch.size(); ++c) {
      if (g.ch[c].type == ChannelType::Master) continue;
      if (bulk && !g.ch[c].dims.empty() && !g.ch[c].inval) {
        auto& cn = *h.ch[st.dg][st.cg][c];
        if (smp.v[c][0].k == VK::U) { std::vector<uint64_t> v; for (auto& x : smp.v[c]) v.push_back(x.u); cn.SetChannelValues(v); }
        else if (smp.v[c][0].k == VK::I) { std::vector<int64_t> v; for (auto& x : smp.v[c]) v.push_back(x.i); cn.SetChannelValues(v); }
        else { std::vector<double> v; for (auto& x : smp.v[c]) v.push_back(x.d); cn.SetChannelValues(v); }
        continue;
      }
      for (size_t e = 0; e < smp.v[c].size(); ++e) todo.emplace_back(c, e);
    }
    if (shuffle) for (size_t i = todo.size(); i > 1; --i) std::swap(todo[i - 1], todo[r.Below(i)]);
    for (auto [c, e] : todo) SetVal(*h.ch[st.dg][st.cg][c], smp.v[c][e], e);
    w->SaveSample(*h.dg[st.dg], *h.cg[st.dg][st.cg], smp.ts);
  }
  w->StopMeasurement(s.stop);
  if (!w->FinalizeMeasurement()) { ctx.Viol("write-failed", "FinalizeMeasurement"); return; }
  w.reset();

  auto open = [&] {
    if (stream) return std::make_unique<mdf::MdfReader>(std::static_pointer_cast<std::streambuf>(std::make_shared<MemBuf>(mem->Data())));
    return std::make_unique<mdf::MdfReader>(file);
  };
  { auto rd = open(); const auto c = ReadContent(*rd); CompareScen(ctx, s, c); if (!c.ok) return; }
  // the array view of each observer
  auto rd = open();
  if (!rd->ReadEverythingButData()) { ctx.Viol("read-failed", "second open"); return; }
  size_t d = 0;
  for (auto* dg : rd->GetHeader()->DataGroups()) {
    if (d >= s.dg.size()) break;
    std::vector<std::tuple<size_t, size_t, mdf::ChannelObserverPtr>> obs;
    size_t g = 0;
    for (auto* cg : dg->ChannelGroups()) {
      size_t n = 0;
      for (auto* cn : cg->Channels()) {
        if (g < s.dg[d].cg.size() && n < s.dg[d].cg[g].ch.size() && !s.dg[d].cg[g].ch[n].dims.empty()) {
          auto& c = s.dg[d].cg[g].ch[n];
          obs.emplace_back(g, n, mdf::CreateChannelObserver(*dg, *cg, *cn));
          auto* ca = cn->ChannelArray(0);
          if (!ca) { ctx.Viol("array-block-missing", c.name); ++n; continue; }
          std::string dim = "N";
          for (auto x : c.dims) dim += "[" + std::to_string(x) + "]";
          if (ca->DimensionAsString() != dim) ctx.Viol("dimension-text", ca->DimensionAsString() + " want " + dim);
          if (ca->Dimensions() != c.dims.size() || ca->NofArrayValues() != c.Elems() || cn->ArraySize() != c.Elems()) ctx.Viol("array-size", dim + " size " + std::to_string(cn->ArraySize()));
          auto it = axes.find(std::to_string(d) + "." + std::to_string(g) + "." + std::to_string(n));
          if (it != axes.end()) {
            if (static_cast<uint8_t>(ca->Type()) != it->second.type) ctx.Viol("array-type", std::to_string(static_cast<int>(ca->Type())));
            const auto& av = static_cast<const mdf::IChannelArray*>(ca)->AxisValues();
            if (av != it->second.v) ctx.Viol("axis-values", "size " + std::to_string(av.size()) + " want " + std::to_string(it->second.v.size()));
          }
        }
        ++n;
      }
      ++g;
    }
    if (!rd->ReadData(*dg)) ctx.Viol("read-failed", "ReadData");
    for (auto& [gi, ni, ob] : obs) {
      auto& c = s.dg[d].cg[gi].ch[ni];
      auto& smp = s.dg[d].cg[gi].samples;
      const uint64_t n = c.Elems();
      if (!ob->IsArray() || ob->ArraySize() != n || ob->Shape() != c.dims) ctx.Viol("observer-shape", c.name);
      for (size_t i = 0; i < smp.size(); ++i) {
        const auto& want = smp[i].v[ni];
        ctx.Count("array_samples");
        std::vector<double> raw, eng;
        const auto vr = ob->GetChannelValues(i, raw), ve = ob->GetEngValues(i, eng);
        if (raw.size() != n || eng.size() != n || vr.size() != n || ve.size() != n) { ctx.Viol("values-size", c.name); continue; }
        const std::string text = ob->EngValueToString(i);
        std::vector<std::string> part(1);
        for (char ch : text) { if (ch == ';') part.emplace_back(); else part.back() += ch; }
        if (part.size() != n) { ctx.Viol("text-elements", "'" + text.substr(0, 100) + "' has " + std::to_string(part.size()) + " elements, want " + std::to_string(n)); continue; }
        for (size_t e = 0; e < n; ++e) {
          const Val& v = want[e];
          if (vr[e] != v.valid || ve[e] != v.valid) { ctx.Viol("values-validity", c.name + " elem " + std::to_string(e)); continue; }
          if (!v.valid) { if (part[e] != "*") ctx.Viol("text-invalid", part[e]); continue; }
          if (!SameDouble(raw[e], Raw(v))) ctx.Viol("values-raw", c.name + " elem " + std::to_string(e) + " got " + std::to_string(raw[e]) + " want " + Str(v));
          const double we = c.cc1 != 0 ? c.cc0 + c.cc1 * Raw(v) : Raw(v);
          if (!SameDouble(eng[e], we) && !(std::fabs(eng[e] - we) <= std::fabs(we) * 1e-12)) ctx.Viol("values-eng", c.name + " elem " + std::to_string(e) + " got " + std::to_string(eng[e]) + " want " + std::to_string(we));
          std::string one;
          if (!ob->GetEngValue(i, one, e) || one != part[e]) ctx.Viol("text-order", c.name + " elem " + std::to_string(e) + " '" + part[e] + "' want '" + one + "'");
          if (c.cc1 == 0 && v.k != VK::D && part[e] != (v.k == VK::U ? std::to_string(v.u) : std::to_string(v.i))) ctx.Viol("text-value", part[e] + " want " + Str(v));
        }
      }
    }
    dg->ClearData();
    ++d;
  }
}
}  // namespace vh
