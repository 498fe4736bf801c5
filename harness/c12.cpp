// Every finalized file, judged by a parser that shares no code with the library.
#include <fstream>
#include "md5.h"
#include "mdfparse.h"
#include "membuf.h"
#include "meta.h"
#include "bus.h"
#include "mdf/canbusobserver.h"
#define kPropId kPropId07
#define RunCase RunCase07
#include "c07.cpp"
#undef kPropId
#undef RunCase
#define kPropId kPropId08
#define RunCase RunCase08
#include "c08.cpp"
#undef kPropId
#undef RunCase
#ifdef C12_AS_LIBRARY
#define kPropId kPropId12
#define RunCase RunCase12
#endif
namespace vh {
const char* kPropId = "C12";
namespace {
PBytes SlurpFile(const std::string& f) {
  std::ifstream in(f, std::ios::binary);
  return {std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>()};
}
void Structure(Ctx& ctx, const PFile& p, const std::string& pfx) {
  for (auto& b : p.bad) ctx.Viol(pfx + b.key, b.msg);
  size_t n = 0;
  for (auto& [k, v] : p.blocks) { ctx.Count("blocks_" + k, static_cast<int64_t>(v)); n += v; }
  ctx.Count("blocks_checked", static_cast<int64_t>(n));
  ctx.Count("records_decoded", static_cast<int64_t>(p.records));
  ctx.Count("data_fragments", static_cast<int64_t>(p.fragments));
  ctx.Count("compressed_fragments", static_cast<int64_t>(p.compressed));
}
struct Done {};
// other drivers take the files generated here through this hook
inline std::function<void(const PBytes&)>& FileHook() { static std::function<void(const PBytes&)> h; return h; }

// ---- bus logs: layout and member values
void BusCase(Ctx& ctx) {
  BusHook() = [&](const BusLog& b, const BusFile& f) {
    if (FileHook()) { FileHook()(f.mem ? PBytes(f.mem->Data().begin(), f.mem->Data().end()) : SlurpFile(f.file)); throw Done(); }
    PFile p = ParseMdf(f.mem ? PBytes(f.mem->Data().begin(), f.mem->Data().end()) : SlurpFile(f.file));
    Structure(ctx, p, "bus log: ");
    if (!p.c.ok) throw Done();
    for (size_t d = 0; d < p.c.dg.size(); ++d) for (auto& g : p.c.dg[d].cg) {
      if (g.vlsd) continue;
      std::vector<const BusMsg*> msg;
      for (auto& m : b.msg) if (m.dg == d && m.group == g.name) msg.push_back(&m);
      if (msg.size() != g.nof) { ctx.Viol("bus log: message count", g.name + " " + std::to_string(g.nof) + " want " + std::to_string(msg.size())); continue; }
      std::map<std::string, const RCh*> ch;
      for (auto& c : g.ch) {
        ch.emplace(c.name, &c);
        if (c.type != ChannelType::Master) continue;
        for (size_t i = 0; i < msg.size(); ++i) {
          const double want = static_cast<double>(static_cast<int64_t>(msg[i]->ts - b.start)) / 1e9;
          if (!TimeClose(c.eng[i], want, 0)) ctx.Viol("bus log: time", g.name + " " + std::to_string(c.eng[i]) + " want " + std::to_string(want));
        }
      }
      for (size_t i = 0; i < msg.size(); ++i) for (auto& [name, v] : msg[i]->f) {
        auto it = ch.find(name);
        if (it == ch.end()) { ctx.Viol("bus log: member missing", name); continue; }
        Val got = it->second->v[i][0];
        if (got.k == VK::B && v.k == VK::B && it->second->type == ChannelType::FixedLength && got.b.size() > v.b.size()) {
          // the bytes that follow the used length are fill bytes
          got.b.resize(v.b.size());
        }
        ctx.Count("member_values");
        if (!SameVal(got, v)) ctx.Viol("bus log: member value", name + " storage " + std::to_string(static_cast<int>(b.storage)) + " got " + Str(got) + " want " + Str(v));
      }
    }
    throw Done();
  };
  try {
    if (ctx.rng.Chance(0.5)) RunCase07(ctx); else RunCase08(ctx);
  } catch (const Done&) { ctx.Count("bus_logs"); }
  BusHook() = nullptr;
  ctx.shape = "bus " + ctx.shape;
}

struct Att { std::string name; PBytes data; bool embedded, compressed; };
}  // namespace

void RunCase(Ctx& ctx) {
  Rng& r = ctx.rng;
  if (r.Chance(0.2)) { BusCase(ctx); return; }
  const bool mdf3 = r.Chance(0.2);
  const std::string file = ctx.Path(mdf3 ? "a.dat" : "a.mf4");
  const bool to_mem = r.Chance(0.3);
  const size_t steps = to_mem ? 1 : r.Chance(0.3) ? 1 + r.Below(3) : 1;
  std::vector<Scen> scens;
  std::vector<size_t> first;
  std::vector<Att> atts;
  PBytes bytes;
  Facts facts;
  size_t histories = 0, events = 0, hierarchies = 0;
  std::string shape = mdf3 ? "mdf3" : "mdf4";
  for (size_t k = 0; k < steps; ++k) {
    GenOpt o;
    o.mdf3 = mdf3; o.max_samples = ctx.thorough() ? 300 : 60;
    if (!mdf3) { o.vlsd = r.Chance(0.5); o.arrays = r.Chance(0.3); }
    if (r.Chance(0.02)) { o.max_cg = mdf3 ? (r.Chance(0.3) ? 150 : 40) : 300; o.max_dg = 1; o.max_ch = 2; }
    Scen s = GenScen(r, o);
    if (!mdf3 && k == 0 && r.Chance(ctx.thorough() ? 0.03 : 0.01)) { const bool c = s.compress; s = BigScen(ctx, o, false); s.compress = c || r.Chance(0.5); ctx.Count("big_cases"); }
    auto mem = std::make_shared<MemBuf>();
    auto w = mdf::MdfFactory::CreateMdfWriter(mdf3 ? mdf::MdfWriterType::Mdf3Basic : s.wtype);
    if (!(to_mem ? w->Init(std::static_pointer_cast<std::streambuf>(mem)) : w->Init(file))) { ctx.Viol("init", "step " + std::to_string(k)); return; }
    auto* hd = w->Header();
    Handles h;
    first.push_back(hd->DataGroups().size());
    const bool meta = r.Chance(0.4);
    if (k == 0 && meta) GenHeader(r, *hd, mdf3, facts);
    if (!CreateGroups(*w, s, h)) { ctx.Viol("groups", "CreateGroups"); return; }
    Facts junk;
    if (meta && !mdf3) {
      EvRefs refs; ChRefs crefs;
      const size_t na = r.Below(4);
      for (size_t i = 0; i < na; ++i) {
        Att a{ctx.Path("att" + std::to_string(atts.size()) + ".bin"), {}, r.Chance(0.8), r.Chance(0.5)};
        a.data.resize(r.Chance(0.1) ? r.Below(200000) : r.Tail(3000));
        for (auto& x : a.data) x = static_cast<uint8_t>(r.Below(r.Chance(0.5) ? 256 : 3));
        { std::ofstream of(a.name, std::ios::binary); of.write(reinterpret_cast<const char*>(a.data.data()), static_cast<std::streamsize>(a.data.size())); }
        auto* at = hd->CreateAttachment();
        at->FileName(a.name); at->IsEmbedded(a.embedded); at->IsCompressed(a.compressed); at->FileType("application/x-test");
        at->CreatorIndex(static_cast<uint16_t>(r.Below(4)));
        if (r.Chance(0.3)) { mdf::AtComment c; FillComment(r, c); at->SetAtComment(c); }
        refs.at.emplace_back(at, "");
        atts.push_back(std::move(a));
      }
      for (size_t d = 0; d < h.dg.size(); ++d) for (size_t g = 0; g < h.cg[d].size(); ++g) {
        refs.scope.emplace_back(static_cast<const mdf::IChannelGroup*>(h.cg[d][g]), "");
        for (auto* c : h.ch[d][g]) {
          refs.scope.emplace_back(static_cast<const mdf::IChannel*>(c), "");
          mdf::ElementLink l; l.data_group = h.dg[d]; l.channel_group = h.cg[d][g]; l.channel = c;
          crefs.link.emplace_back(l, "");
          if (!refs.at.empty() && r.Chance(0.1)) c->AddAttachmentReference(r.Pick(refs.at).first);
        }
      }
      for (auto& l : crefs.link) if (r.Chance(0.1)) const_cast<mdf::IChannel*>(l.first.channel)->DefaultX(r.Pick(crefs.link).first);
      const size_t nf = r.Below(3), ne = r.Below(4), nh = r.Below(3);
      for (size_t i = 0; i < nf; ++i) GenHistory(r, *hd, histories++, s.start, junk);
      for (size_t i = 0; i < nh; ++i) if (auto* c = hd->CreateChannelHierarchy()) { GenHierarchy(r, *c, "x", crefs, junk, 2); ++hierarchies; }
      for (size_t i = 0; i < ne; ++i) { GenEvent(r, *hd, i, refs, junk); ++events; }
      for (auto* g : hd->DataGroups()) (void)g;
      for (size_t d = 0; d < h.dg.size(); ++d) for (auto* cg : h.cg[d]) {
        if (r.Chance(0.2)) GenSource(r, cg->CreateSourceInformation(), "x", junk);
        if (r.Chance(0.2)) FillMeta(r, cg->CreateMetaData(), "x", junk);
      }
      for (auto& l : crefs.link) {
        auto* c = const_cast<mdf::IChannel*>(l.first.channel);
        if (r.Chance(0.1)) GenSource(r, c->CreateSourceInformation(), "x", junk);
        if (r.Chance(0.1)) { c->Range(-1, 1); c->Limit(-2, 2); }
      }
    }
    // conversions on plain numeric channels
    std::map<std::string, PConv> conv;
    if (r.Chance(0.4)) for (size_t d = 0; d < h.dg.size(); ++d) for (size_t g = 0; g < h.cg[d].size(); ++g) for (size_t n = 0; n < h.ch[d][g].size(); ++n) {
      const auto& sc = s.dg[d].cg[g].ch[n];
      if (sc.type == ChannelType::Master || !(IsInt(sc.dt) || IsFloat(sc.dt)) || r.Chance(0.6)) continue;
      auto* cc = h.ch[d][g][n]->CreateChannelConversion();
      if (!cc) continue;
      PConv want;
      if (mdf3 || r.Chance(0.4)) {
        cc->Type(mdf::ConversionType::Linear);
        want.type = mdf3 ? 0 : 1;
        for (unsigned i = 0; i < 2; ++i) { const double x = AnyDouble(r); cc->Parameter(i, x); want.val.push_back(x); }
      } else if (r.Chance(0.5)) {
        cc->Type(mdf::ConversionType::Rational);
        want.type = 2;
        for (unsigned i = 0; i < 6; ++i) { const double x = AnyDouble(r); cc->Parameter(i, x); want.val.push_back(x); }
      } else {
        cc->Type(mdf::ConversionType::ValueToText);
        want.type = 7;
        const unsigned m = static_cast<unsigned>(r.Range(1, 6));
        for (unsigned i = 0; i < m; ++i) { cc->Parameter(i, i); cc->Reference(i, "text <&> " + std::to_string(i)); want.val.push_back(i); want.ref.push_back("text <&> " + std::to_string(i)); }
        cc->Reference(m, "default"); want.ref.emplace_back("default");
      }
      conv[std::to_string(first.back() + d) + "/" + std::to_string(g) + "/" + std::to_string(n)] = want;
      ctx.Count("conversions");
    }
    const std::string err = RunMeasurement(*w, s, h);
    if (!err.empty()) { ctx.Viol("write", err); return; }
    w.reset();
    shape += " " + Describe(s);
    scens.push_back(std::move(s));
    bytes = to_mem ? PBytes(mem->Data().begin(), mem->Data().end()) : SlurpFile(file);
    if (FileHook()) { if (k + 1 == steps) FileHook()(bytes); continue; }
    PFile p = ParseMdf(bytes);
    Structure(ctx, p, k ? "appended: " : "");
    if (!p.c.ok) continue;
    for (size_t j = 0; j <= k; ++j) CompareScen(ctx, scens[j], p.c, "parsed ", first[j]);
    size_t want_dg = 0;
    for (auto& x : scens) want_dg += x.dg.size();
    if (p.c.dg.size() != want_dg) ctx.Viol("parsed dg count", std::to_string(p.c.dg.size()) + " want " + std::to_string(want_dg));
    for (auto& [key, c] : conv) {
      auto it = p.conv.find(key);
      if (it == p.conv.end() || it->second.type != c.type) { ctx.Viol("parsed conversion type", key + " want " + std::to_string(c.type) + " got " + (it == p.conv.end() ? "none" : std::to_string(it->second.type))); continue; }
      if (it->second.val.size() != c.val.size()) ctx.Viol("parsed conversion parameters", key + " number " + std::to_string(it->second.val.size()));
      else for (size_t i = 0; i < c.val.size(); ++i) if (!SameDouble(c.val[i], it->second.val[i])) ctx.Viol("parsed conversion parameters", key + " parameter " + std::to_string(i) + " type " + std::to_string(c.type));
      if (it->second.ref != c.ref) ctx.Viol("parsed conversion references", key);
    }
    if (!mdf3) {
      if (p.at.size() != atts.size()) ctx.Viol("parsed attachments", std::to_string(p.at.size()) + " want " + std::to_string(atts.size()));
      for (size_t i = 0; i < p.at.size() && i < atts.size(); ++i) {
        const auto& a = p.at[i]; const auto& x = atts[i];
        if (a.type != "application/x-test") ctx.Viol("parsed attachment type", a.type);
        if (((a.flags & 1) != 0) != x.embedded) ctx.Viol("parsed attachment flags", std::to_string(a.flags));
        if (x.embedded && a.data != x.data) ctx.Viol("parsed attachment content", std::to_string(a.data.size()) + " bytes, want " + std::to_string(x.data.size()));
        if (a.flags & 4) {
          std::string hex; char t[3];
          for (auto b : a.md5) { snprintf(t, sizeof t, "%02X", b); hex += t; }
          if (hex != Md5Hex(x.data)) ctx.Viol("parsed attachment checksum", "size " + std::to_string(x.data.size()));
        } else if (x.embedded) ctx.Viol("parsed attachment checksum", "not marked valid");
        ctx.Count("attachments");
      }
      if (p.events != events) ctx.Viol("parsed events", std::to_string(p.events) + " want " + std::to_string(events));
      if (p.histories < histories) ctx.Viol("parsed histories", std::to_string(p.histories) + " want " + std::to_string(histories));
      if (p.hierarchies < hierarchies) ctx.Viol("parsed hierarchies", std::to_string(p.hierarchies) + " want " + std::to_string(hierarchies));
    }
    // the start of the first measurement that has samples
    bool none_before = true;
    for (size_t j = 0; j < k; ++j) if (!scens[j].order.empty()) none_before = false;
    if (none_before && !scens[k].order.empty() && (!mdf3 || p.start_ns)) {
      if (p.start_ns != scens[k].start) ctx.Viol("parsed start time", std::to_string(p.start_ns) + " want " + std::to_string(scens[k].start));
      ctx.Count("start_times");
    }
  }
  size_t total = 0;
  for (auto& s : scens) total += s.order.size();
  ctx.shape = shape; ctx.sample = shape;
  ctx.nontrivial = total >= 2;
}
}  // namespace vh
#ifdef C12_AS_LIBRARY
#undef kPropId
#undef RunCase
#endif
