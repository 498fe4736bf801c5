// Samples saved before and after the start: which of them must be in the file.
#include "membuf.h"
#include "scen.h"
namespace vh {
const char* kPropId = "C05";
void RunCase(Ctx& ctx) {
  Rng& r = ctx.rng;
  GenOpt o;
  o.mdf3 = r.Chance(0.3);
  o.max_ch = 3; o.max_samples = 0;
  o.vlsd = r.Chance(0.4);
  Scen s = GenScen(r, o);
  s.order.clear();
  const bool conv = !s.mdf3 && r.Chance(0.25);
  if (conv) s.wtype = mdf::MdfWriterType::MdfConverter;
  const uint64_t unit = 125000000ULL;  // 1/8 s: exact in double
  s.start = 1600000000ULL * 1000000000ULL + unit * r.Below(1000);
  const uint64_t pre_ns = r.Chance(0.25) ? 0 : r.Chance(0.05) ? 4000000000ULL * 1000000000ULL : unit * r.Below(r.Chance(0.3) ? 4 : 80);
  s.pretrig = static_cast<double>(pre_ns) / 1e9;
  // sample times: from well before the window until after the stop
  const size_t n = r.Tail(60);
  std::vector<uint64_t> ts;
  const uint64_t w0 = pre_ns > s.start ? 0 : s.start - pre_ns;
  const bool has_pre = !r.Chance(0.15);
  for (size_t i = 0; i < n; ++i) {
    const uint64_t span = std::min<uint64_t>(pre_ns, 100 * unit) + 8 * unit;
    uint64_t t;
    switch (r.Below(8)) {
      case 0: t = w0 > 0 && pre_ns < 200 * unit ? w0 + r.Below(3) - 1 : s.start; break;   // at the window edge
      case 1: t = s.start + r.Below(3) - 1; break;                  // at the start
      case 2: case 3: t = s.start - std::min(s.start, r.Below(span)); break;
      default: t = s.start - std::min(s.start, span) + r.Below(2 * span);
    }
    ts.push_back(t);
  }
  std::sort(ts.begin(), ts.end());
  // the application saves in time order; start is given once its time is reached
  size_t npre = 0;
  for (auto t : ts) if (t < s.start || (t == s.start && r.Chance(0.5))) ++npre; else break;
  if (!has_pre) { ts.erase(ts.begin(), ts.begin() + static_cast<long>(npre)); npre = 0; }
  // threads may save slightly out of time order: nothing inside the window is lost by it
  const bool mixed = npre > 1 && r.Chance(0.15);
  if (mixed) {
    for (size_t i = 0; i < npre; ++i) ts[i] = std::max(ts[i], w0);
    for (size_t i = npre; i > 1; --i) std::swap(ts[i - 1], ts[r.Below(i)]);
    ctx.Count("saved_out_of_time_order");
  }
  std::vector<std::pair<size_t, size_t>> groups;
  for (size_t d = 0; d < s.dg.size(); ++d) for (size_t g = 0; g < s.dg[d].cg.size(); ++g) groups.emplace_back(d, g);
  for (auto t : ts) {
    auto [d, g] = groups[r.Below(groups.size())];
    auto& cg = s.dg[d].cg[g];
    for (auto& c : cg.ch) if (c.type == ChannelType::Master) { c.dt = ChannelDataType::FloatLe; c.bytes = 8; c.cc1 = 0; }
    SampleSpec sm; sm.ts = t;
    for (auto& c : cg.ch) { sm.v.emplace_back(); if (c.type != ChannelType::Master) sm.v.back().push_back(GenVal(r, c)); }
    s.order.push_back({d, g, cg.samples.size()});
    cg.samples.push_back(sm);
  }
  s.start_at = npre;
  // stop time: after, before or in the middle of the saved samples
  switch (r.Below(4)) {
    case 0: s.stop = s.start + 1; break;
    case 1: s.stop = ts.empty() ? s.start : ts.back() - std::min<uint64_t>(ts.back(), r.Below(4 * unit)); break;
    default: s.stop = (ts.empty() ? s.start : std::max(s.start, ts.back())) + r.Below(unit);
  }
  if (r.Chance(0.6)) { s.flush_ms = 1; s.pause_every = static_cast<unsigned>(r.Range(1, 8)); s.pause_us = 2000; }
  std::ostringstream sh;
  sh << Describe(s) << " pre=" << pre_ns / unit << " npre=" << npre << "/" << ts.size() << (conv ? " converter" : "");
  ctx.shape = sh.str(); ctx.sample = ctx.shape;
  ctx.nontrivial = npre > 0 && ts.size() > npre;
  const std::string f = ctx.Path("a.mf4");
  std::string err;
  Content c;
  if (r.Chance(0.3)) {
    auto b = std::make_shared<MemBuf>();
    err = WriteScen(s, b);
    if (err.empty()) c = ReadContent(std::make_shared<MemBuf>(b->Data()));
  } else {
    err = WriteScen(s, f);
    if (err.empty()) c = ReadContent(f);
  }
  if (!err.empty()) { ctx.Viol("write-failed", err); return; }
  if (!c.ok) { ctx.Viol("read-failed", c.err); return; }
  ctx.Count("samples_before_start", static_cast<int64_t>(npre));
  ctx.Count("samples_after_start", static_cast<int64_t>(ts.size() - npre));
  // Expected set
  Scen e = s;
  std::vector<std::vector<std::vector<char>>> keep(s.dg.size());
  for (size_t d = 0; d < s.dg.size(); ++d) { keep[d].resize(s.dg[d].cg.size()); for (size_t g = 0; g < s.dg[d].cg.size(); ++g) keep[d][g].assign(s.dg[d].cg[g].samples.size(), 1); }
  if (!conv) {
    std::vector<int64_t> edge(s.dg.size(), -1);  // order index of the latest sample older than the window
    for (size_t i = 0; i < npre; ++i) {
      const auto& st = s.order[i];
      if (s.dg[st.dg].cg[st.cg].samples[st.idx].ts < w0) { keep[st.dg][st.cg][st.idx] = 0; edge[st.dg] = static_cast<int64_t>(i); ctx.Count("older_than_window"); }
      else ctx.Count("inside_window");
    }
    for (size_t d = 0; d < s.dg.size(); ++d) {
      if (edge[d] < 0 || d >= c.dg.size()) continue;
      const auto& st = s.order[static_cast<size_t>(edge[d])];
      if (st.cg >= c.dg[d].cg.size()) continue;
      size_t want = 0;
      for (char k : keep[d][st.cg]) want += k != 0;
      if (c.dg[d].cg[st.cg].nof == want + 1) { keep[d][st.cg][st.idx] = 1; ctx.Count("edge_sample_kept"); }
    }
  }
  for (size_t d = 0; d < s.dg.size(); ++d) for (size_t g = 0; g < s.dg[d].cg.size(); ++g) {
    auto& v = e.dg[d].cg[g].samples; v.clear();
    for (size_t i = 0; i < s.dg[d].cg[g].samples.size(); ++i) if (keep[d][g][i]) v.push_back(s.dg[d].cg[g].samples[i]);
    if (d < c.dg.size() && g < c.dg[d].cg.size()) {
      if (c.dg[d].cg[g].nof < v.size()) ctx.Viol("dropped", "dg" + std::to_string(d) + ".cg" + std::to_string(g) + " has " + std::to_string(c.dg[d].cg[g].nof) + " samples, must keep " + std::to_string(v.size()));
      if (c.dg[d].cg[g].nof > v.size()) ctx.Viol("kept-too-old", "dg" + std::to_string(d) + ".cg" + std::to_string(g) + " has " + std::to_string(c.dg[d].cg[g].nof) + " samples, may keep " + std::to_string(v.size()));
    }
  }
  CompareScen(ctx, e, c);
}
}  // namespace vh
