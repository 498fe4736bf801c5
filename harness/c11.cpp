// Adding measurements to a file: everything already stored stays readable and
// unchanged, followed by what was added.
#include "mdf/canmessage.h"
#include "mdf/linmessage.h"
#include "mdfenc3.h"
#include "meta.h"
namespace vh {
const char* kPropId = "C11";
namespace {
struct Blob { std::string name; std::vector<uint8_t> data; };
std::vector<uint8_t> Slurp(const std::string& f) {
  std::ifstream in(f, std::ios::binary);
  return {std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>()};
}
bool Volatile(const std::string& k) { return k == "dgs" || k == "fhs" || k == "evs" || k == "ats" || k == "chs"; }
// Bus logs added to a file, after measurements or other bus logs.
void BusSteps(Ctx& ctx) {
  Rng& r = ctx.rng;
  const std::string file = ctx.Path("b.mf4");
  struct Msg { uint64_t ts; uint32_t id; std::vector<uint8_t> data; };
  struct Step { size_t dg; bool lin; uint64_t start; std::vector<Msg> msg; };
  std::vector<Step> done;
  Content last;
  bool have = false;
  uint64_t now = 1600000000000000000ULL + r.Below(100000000000000000ULL);
  const size_t steps = 2 + r.Below(3);
  std::string shape = "bus";
  size_t total = 0;
  for (size_t k = 0; k < steps; ++k) {
    const std::string pfx = k == 0 ? "bus first " : "bus append ";
    auto w = mdf::MdfFactory::CreateMdfWriter(r.Chance(0.7) ? mdf::MdfWriterType::MdfBusLogger : mdf::MdfWriterType::Mdf4Basic);
    if (!w->Init(file)) { ctx.Viol(pfx + "init", std::to_string(k)); return; }
    Step st;
    st.lin = r.Chance(0.3);
    const auto storage = r.Pick({mdf::MdfStorageType::FixedLengthStorage, mdf::MdfStorageType::VlsdStorage, mdf::MdfStorageType::MlsdStorage});
    const bool compress = r.Chance(0.4), mandatory = r.Chance(0.4);
    w->BusType(st.lin ? mdf::MdfBusType::LIN : mdf::MdfBusType::CAN);
    w->StorageType(storage); w->MaxLength(8); w->MandatoryMembersOnly(mandatory); w->CompressData(compress); w->PreTrigTime(0);
    st.dg = w->Header()->DataGroups().size();
    if (!w->CreateBusLogConfiguration()) { ctx.Viol(pfx + "configuration", ""); return; }
    auto dgs = w->Header()->DataGroups();
    if (dgs.size() != st.dg + 1) { ctx.Viol(pfx + "data groups", std::to_string(dgs.size())); return; }
    auto* dg = dgs[st.dg];
    mdf::IChannelGroup* cg = nullptr;
    for (auto* g : dg->ChannelGroups()) if (g->Name() == (st.lin ? "_Frame" : "_DataFrame") || g->Name() == (st.lin ? "LIN_Frame" : "CAN_DataFrame")) cg = g;
    if (!cg) { ctx.Viol(pfx + "group", ""); return; }
    st.start = now;
    if (!w->InitMeasurement()) { ctx.Viol(pfx + "init measurement", ""); return; }
    w->StartMeasurement(now);
    const size_t n = r.Chance(0.1) ? 0 : r.Below(30);
    for (size_t i = 0; i < n; ++i) {
      Msg m;
      m.ts = now += 1000 * (1 + r.Below(1000000));
      m.id = static_cast<uint32_t>(r.Below(st.lin ? 64 : 0x800));
      m.data.resize(r.Below(9));
      for (auto& x : m.data) x = static_cast<uint8_t>(r.U64());
      if (st.lin) { mdf::LinMessage x; x.LinId(static_cast<uint8_t>(m.id)); x.DataBytes(m.data); w->SaveLinMessage(*dg, *cg, m.ts, x); }
      else { mdf::CanMessage x; x.TypeOfMessage(mdf::MessageType::CAN_DataFrame); x.MessageId(m.id); x.DataBytes(m.data); w->SaveCanMessage(*dg, *cg, m.ts, x); }
      st.msg.push_back(std::move(m));
    }
    w->StopMeasurement(now += 1000);
    if (!w->FinalizeMeasurement()) { ctx.Viol(pfx + "finalize", ""); return; }
    w.reset();
    now += 1000000000;
    shape += std::string(st.lin ? " L" : " C") + std::to_string(static_cast<int>(storage)) + (compress ? "c" : "") + (mandatory ? "m" : "") + std::to_string(n);
    total += n;
    done.push_back(std::move(st));
    mdf::MdfReader rd(file);
    Content c = ReadContent(rd);
    if (!c.ok) { ctx.Viol(pfx + "read-failed", c.err + " " + shape); return; }
    if (c.dg.size() != done.size()) { ctx.Viol(pfx + "dg-count", std::to_string(c.dg.size()) + " " + shape); return; }
    if (have) { const std::string d = DiffContent(last, c, last.dg.size()); if (!d.empty()) ctx.Viol("earlier bus log changed", d + " " + shape); }
    last = std::move(c); have = true;
    mdf::MdfReader rd2(file);
    if (!rd2.ReadEverythingButData()) { ctx.Viol(pfx + "read-failed", shape); return; }
    auto rdg = rd2.GetHeader()->DataGroups();
    for (size_t j = 0; j < done.size(); ++j) {
      const Step& s = done[j];
      const std::string age = j < k ? "earlier " : "new ";
      mdf::IChannelGroup* g = nullptr;
      for (auto* x : rdg[j]->ChannelGroups()) if (!(x->Flags() & mdf::CgFlag::VlsdChannel) && x->NofSamples() > 0) g = x;
      if (s.msg.empty()) { if (g) ctx.Viol(age + "messages", "unexpected in " + shape); continue; }
      if (!g || g->NofSamples() != s.msg.size()) { ctx.Viol(age + "message count", shape); continue; }
      mdf::ChannelObserverPtr id, data, time;
      for (auto* x : g->Channels()) {
        const std::string nm = x->Name();
        auto ends = [&](const std::string& e) { return nm.size() >= e.size() && nm.compare(nm.size() - e.size(), e.size(), e) == 0; };
        if (x->Type() == ChannelType::Master) time = mdf::CreateChannelObserver(*rdg[j], *g, *x);
        else if (ends(".ID")) id = mdf::CreateChannelObserver(*rdg[j], *g, *x);
        else if (ends(".DataBytes")) data = mdf::CreateChannelObserver(*rdg[j], *g, *x);
      }
      if (!id || !data || !time) { ctx.Viol(age + "message channels", shape); continue; }
      if (!rd2.ReadData(*rdg[j])) { ctx.Viol(age + "message data", shape); continue; }
      for (size_t i = 0; i < s.msg.size(); ++i) {
        const std::string at = "step " + std::to_string(j) + " message " + std::to_string(i) + " " + shape;
        uint64_t v = 0; std::vector<uint8_t> b; double t = 0;
        if (!id->GetChannelValue(i, v) || v != s.msg[i].id) ctx.Viol(age + "message id", at + " got " + std::to_string(v));
        data->GetChannelValue(i, b);
        b.resize(std::max(b.size(), s.msg[i].data.size()));
        if (!std::equal(s.msg[i].data.begin(), s.msg[i].data.end(), b.begin())) ctx.Viol(age + "message bytes", at);
        const double want = static_cast<double>(static_cast<int64_t>(s.msg[i].ts - s.start)) / 1e9;
        if (!time->GetEngValue(i, t) || std::fabs(t - want) > 1e-6) ctx.Viol(age + "message time", at + " got " + std::to_string(t) + " want " + std::to_string(want));
        ctx.Count("bus_messages");
      }
    }
  }
  ctx.shape = ctx.sample = shape;
  ctx.nontrivial = total >= 2;
}
}  // namespace

void RunCase(Ctx& ctx) {
  Rng& r = ctx.rng;
  if (r.Chance(0.12)) { BusSteps(ctx); return; }
  const bool mdf3 = r.Chance(0.25);
  const std::string file = ctx.Path(mdf3 ? "a.dat" : "a.mf4");
  const size_t steps = 2 + r.Below(4);
  std::vector<Scen> scens;
  std::vector<size_t> first;
  std::vector<Blob> blobs;
  std::unique_ptr<mdf::MdfWriter> w;
  Facts before, all;
  Content last;
  bool had_samples = false;
  std::string shape = mdf3 ? "mdf3" : "mdf4";
  size_t total = 0;
  uint64_t now = 1600000000000000000ULL + r.Below(100000000000000000ULL);
  EvRefs refs;
  bool ev_ok = true;
  size_t base_dg = 0;
  bool foreign = false;
  if (r.Chance(0.25)) {
    // a file of another tool is there already
    auto e = mdf3 ? static_cast<EncFile>(EncodeMdf3(r, EncOpt())) : EncodeMdf4(r, EncOpt());
    { std::ofstream of(file, std::ios::binary); of.write(reinterpret_cast<const char*>(e.bytes.data()), static_cast<std::streamsize>(e.bytes.size())); }
    foreign = true;
    shape += " foreign " + e.shape;
    mdf::MdfReader rd(file);
    last = ReadContent(rd);
    if (!last.ok) { ctx.Viol("foreign file unreadable", last.err); return; }
    before = Snapshot(rd, *rd.GetHeader(), mdf3);
    base_dg = last.dg.size();
    for (auto& d : last.dg) for (auto& g : d.cg) had_samples = had_samples || g.nof > 0;
    ctx.Count("foreign_files");
  }
  for (size_t k = 0; k < steps; ++k) {
    const std::string pfx = k == 0 ? "first " : "append ";
    const bool reopen = !w || r.Chance(0.6);
    if (reopen) {
      w.reset();
      w = mdf::MdfFactory::CreateMdfWriter(mdf3 ? mdf::MdfWriterType::Mdf3Basic : mdf::MdfWriterType::Mdf4Basic);
      if (!w->Init(file)) { ctx.Viol(pfx + "init", "Init failed at step " + std::to_string(k)); return; }
      refs = EvRefs();
    }
    auto* hd = w->Header();
    if (!hd) { ctx.Viol(pfx + "header", "no header"); return; }
    GenOpt o;
    o.mdf3 = mdf3; o.max_samples = 40; o.max_ch = 4; o.max_cg = 3;
    Scen s = GenScen(r, o);
    if ((k > 0 || foreign) && r.Chance(0.15)) { s.dg.clear(); s.order.clear(); s.start_at = 0; s.pause_every = 0; }
    s.start = s.dg.empty() ? now : s.start;
    if (s.stop < s.start) s.stop = s.start + 1;
    now = s.stop + 1;
    Facts add;
    if (k == 0 && !foreign) GenHeader(r, *hd, mdf3, add);
    if (!mdf3) {
      const size_t nf = r.Below(3), na = r.Below(3), ne = r.Below(3);
      for (size_t i = 0; i < nf; ++i) GenHistory(r, *hd, hd->FileHistories().size(), now, add);
      for (size_t i = 0; i < na; ++i) {
        Blob b;
        b.name = ctx.Path("att" + std::to_string(blobs.size()) + ".bin");
        b.data.resize(r.Tail(5000));
        for (auto& x : b.data) x = static_cast<uint8_t>(r.Below(r.Chance(0.5) ? 256 : 3));
        { std::ofstream of(b.name, std::ios::binary); of.write(reinterpret_cast<const char*>(b.data.data()), static_cast<std::streamsize>(b.data.size())); }
        const size_t idx = hd->Attachments().size();
        auto* a = hd->CreateAttachment();
        if (!a) { ctx.Viol(pfx + "attachment", "CreateAttachment"); return; }
        a->FileName(b.name); a->IsEmbedded(true); a->IsCompressed(r.Chance(0.5)); a->FileType("application/octet-stream");
        add["at" + std::to_string(idx) + ".embedded"] = "1";
        add["at" + std::to_string(idx) + ".type"] = "application/octet-stream";
        refs.at.emplace_back(a, "at" + std::to_string(idx));
        blobs.push_back(std::move(b));
      }
      if (ev_ok) for (size_t i = 0; i < ne; ++i) GenEvent(r, *hd, hd->Events().size(), refs, add);
    }
    const size_t fd = hd->DataGroups().size();
    Handles h;
    const std::string err = RunMeasurement(*w, s, h);
    if (!err.empty()) { ctx.Viol(pfx + "write", err + " step " + std::to_string(k)); return; }
    if (r.Chance(0.3)) w.reset();
    first.push_back(fd);
    total += s.order.size();
    shape += (reopen ? " R" : " S") + std::string(s.compress ? "c" : "") + (s.periodic ? "p" : "") + std::to_string(s.dg.size()) + "/" + std::to_string(s.order.size());
    scens.push_back(std::move(s));

    // ---- what a fresh reader sees now
    mdf::MdfReader rd(file);
    Content c = ReadContent(rd);
    if (!c.ok) { ctx.Viol(pfx + "read-failed", c.err + " step " + std::to_string(k) + shape); return; }
    if (!c.finalized) ctx.Viol(pfx + "not-finalized", "step " + std::to_string(k));
    size_t want_dg = base_dg;
    for (auto& x : scens) want_dg += x.dg.size();
    if (c.dg.size() != want_dg) ctx.Viol(pfx + "dg-count", std::to_string(c.dg.size()) + " want " + std::to_string(want_dg) + " step " + std::to_string(k) + " " + shape);
    for (size_t j = 0; j < scens.size(); ++j) CompareScen(ctx, scens[j], c, j < k ? "earlier " : "new ", first[j]);
    if (k > 0 || foreign) {
      const std::string d = DiffContent(last, c, last.dg.size());
      if (!d.empty()) ctx.Viol("earlier content changed", d + " " + shape);
    }
    Facts got = Snapshot(rd, *rd.GetHeader(), mdf3);
    CheckFacts(ctx, add, got, "new ");
    for (auto& [kk, v] : before) {
      if (Volatile(kk)) continue;
      if (kk == "hd.start" && !had_samples) continue;
      ctx.Count("earlier_facts");
      auto it = got.find(kk);
      if (it == got.end()) ctx.Viol("earlier fact missing", kk + " was '" + v.substr(0, 100) + "'");
      else if (it->second != v) ctx.Viol("earlier fact changed", kk + " was '" + v.substr(0, 200) + "' now '" + it->second.substr(0, 200) + "'");
    }
    if (!mdf3) {
      const auto list = rd.GetHeader()->Attachments();
      if (list.size() != blobs.size()) ctx.Viol("attachment count", std::to_string(list.size()) + " want " + std::to_string(blobs.size()));
      for (size_t i = 0; i < list.size() && i < blobs.size(); ++i) {
        const std::string out = ctx.Path("out.bin");
        std::filesystem::remove(out);
        if (!rd.ExportAttachmentData(*list[i], out)) { ctx.Viol("attachment export", "index " + std::to_string(i)); continue; }
        if (Slurp(out) != blobs[i].data) ctx.Viol("attachment content", "index " + std::to_string(i) + " size " + std::to_string(blobs[i].data.size()));
        ctx.Count("attachments_compared");
      }
    }
    for (size_t j = 0; j < scens.size(); ++j) had_samples = had_samples || !scens[j].order.empty();
    before = std::move(got);
    last = std::move(c);
    ctx.Count("append_steps");
  }
  ctx.shape = shape;
  ctx.sample = shape;
  ctx.nontrivial = total >= 2;
}
}  // namespace vh
