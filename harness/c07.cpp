// CAN logs: every member of every frame kind, read by channels and by the CAN
// bus observer.
#include "bus.h"
#include "mdf/canbusobserver.h"
namespace vh {
const char* kPropId = "C07";

struct CanKeep { mdf::CanMessage msg; };
static mdf::CanMessage GenCan(Rng& r, const BusLog& b) {
  mdf::CanMessage m;
  VH_SET(m, BusChannel, (static_cast<uint8_t>(r.Pick<uint64_t>({0, 1, 3, 127, 128, 255, r.Below(256)}))));
  const uint32_t id = static_cast<uint32_t>(r.Pick<uint64_t>({0, 1, 0x7ff, 0x800, 0x1fffffff, r.Below(0x800), r.Below(0x20000000)}));
  m.MessageId(id);
  bool ext = id > 0x7ff;
  if (r.Chance(0.5)) m.ExtendedId(ext = id > 0x7ff || r.Chance(0.5));
  static const std::vector<size_t> fd = {0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 20, 24, 32, 48, 64};
  size_t n = r.Pick(fd);
  if (r.Chance(0.1)) n = r.Below(65);
  if (b.storage == mdf::MdfStorageType::MlsdStorage) n = std::min<size_t>(n, std::max<uint32_t>(8, b.max_len));
  std::vector<uint8_t> data(n);
  for (auto& x : data) x = static_cast<uint8_t>(r.U64());
  VH_SET(m, DataBytes, (data));
  uint8_t dlc = static_cast<uint8_t>(std::lower_bound(fd.begin(), fd.end(), n) - fd.begin());
  if (r.Chance(0.2)) m.Dlc(dlc = static_cast<uint8_t>(r.Below(16)));
  VH_SET(m, Dir, (r.Chance(0.5))); VH_SET(m, Srr, (r.Chance(0.5))); VH_SET(m, Edl, (r.Chance(0.5))); VH_SET(m, Brs, (r.Chance(0.5))); VH_SET(m, Esi, (r.Chance(0.5)));
  VH_SET(m, Rtr, (r.Chance(0.5))); VH_SET(m, WakeUp, (r.Chance(0.5))); VH_SET(m, SingleWire, (r.Chance(0.5))); VH_SET(m, R0, (r.Chance(0.5))); VH_SET(m, R1, (r.Chance(0.5)));
  VH_SET(m, BitPosition, (static_cast<uint16_t>(r.U64())));
  VH_SET(m, ErrorType, (static_cast<mdf::CanErrorType>(r.Below(6))));
  VH_SET(m, FrameDuration, (static_cast<uint32_t>(r.Pick<uint64_t>({0, 1, 0xffffffff, r.Below(1ULL << 32)}))));
  VH_SET(m, Timestamp, (static_cast<double>(r.Below(1000)) / 8));
  VH_SET(m, Crc, (static_cast<uint32_t>(r.Pick<uint64_t>({0, 0x1fffff, 0xffffffff, r.Below(1 << 21)}))));
  KeepCheck();
  if (m.CanId() != id) KeepLoss().push_back("CanId");
  if (m.ExtendedId() != ext || ((m.MessageId() & 0x80000000) != 0) != ext) KeepLoss().push_back("ExtendedId");
  if (m.Dlc() != dlc) KeepLoss().push_back("Dlc of " + std::to_string(n) + " bytes");
  if (m.DataLength() != n) KeepLoss().push_back("DataLength");
  for (uint8_t i = 0; i < 16; ++i) if (mdf::CanMessage::DlcToLength(i) != fd[i]) KeepLoss().push_back("DlcToLength");
  VH_RESET(mdf::CanMessage, m, VH_R(BusChannel) VH_R(MessageId) VH_R(CanId) VH_R(ExtendedId) VH_R(Dlc) VH_R(DataLength) VH_R(DataBytes) VH_R(Dir) VH_R(Srr) VH_R(Edl) VH_R(Brs) VH_R(Esi) VH_R(Rtr)
    VH_R(WakeUp) VH_R(SingleWire) VH_R(R0) VH_R(R1) VH_R(BitPosition) VH_R(ErrorType) VH_R(FrameDuration) VH_R(Crc) VH_R(Timestamp));
  return m;
}
static Fields CanFields(const std::string& kind, const mdf::CanMessage& m, bool mand) {
  Fields f;
  const std::string p = "CAN_" + kind + ".";
  auto u = [&](const char* n, uint64_t v) { f.emplace_back(p + n, ValU(v)); };
  u("BusChannel", m.BusChannel());
  if (kind == "OverloadFrame") { u("Dir", m.Dir()); return f; }
  u("ID", m.CanId()); u("IDE", m.ExtendedId()); u("DLC", m.Dlc()); u("DataLength", m.DataLength());
  const bool err = kind == "ErrorFrame", rem = kind == "RemoteFrame";
  if (!mand || err) {
    u("Dir", m.Dir()); u("SRR", m.Srr());
    if (!rem) { u("EDL", m.Edl()); u("BRS", m.Brs()); u("ESI", m.Esi()); }
    u("WakeUp", m.WakeUp()); u("SingleWire", m.SingleWire()); u("R0", m.R0()); u("R1", m.R1());
    u("FrameDuration", m.FrameDuration()); u("CRC", m.Crc());
    if (err) { u("ErrorType", static_cast<uint64_t>(m.ErrorType())); u("BitPosition", m.BitPosition()); }
  }
  if (!rem) f.emplace_back(p + "DataBytes", ValB(m.DataBytes()));
  return f;
}
static mdf::MessageType KindOf(const std::string& kind) {
  return kind == "DataFrame" ? mdf::MessageType::CAN_DataFrame : kind == "RemoteFrame" ? mdf::MessageType::CAN_RemoteFrame
       : kind == "ErrorFrame" ? mdf::MessageType::CAN_ErrorFrame : mdf::MessageType::CAN_OverloadFrame;
}
struct Sent { size_t dg; std::string group, kind; uint64_t ts; mdf::CanMessage m; };

static void CheckMsg(Ctx& ctx, const std::string& how, const Sent& want, const mdf::CanMessage& g, const BusLog& b, size_t i) {
  ctx.Count("observer_messages");
  auto bad = [&](const char* n, uint64_t got, uint64_t w) { ctx.Viol(how + ":" + want.kind + "." + n, "message " + std::to_string(i) + " got " + std::to_string(got) + " want " + std::to_string(w) + " storage " + std::to_string(static_cast<int>(b.storage))); };
  if (g.TypeOfMessage() != KindOf(want.kind)) bad("type", static_cast<uint64_t>(g.TypeOfMessage()), static_cast<uint64_t>(KindOf(want.kind)));
  if (!TimeClose(g.Timestamp(), static_cast<double>(want.ts - b.start) / 1e9, 0)) ctx.Viol(how + ":timestamp", std::to_string(g.Timestamp()));
  for (auto& [name, v] : CanFields(want.kind, want.m, b.mandatory)) {
    const std::string n = name.substr(name.find('.') + 1);
    if (n == "DataBytes") { if (g.DataBytes() != v.b) ctx.Viol(how + ":" + want.kind + ".DataBytes", "message " + std::to_string(i) + " got " + Hex(g.DataBytes().data(), g.DataBytes().size()) + " want " + Hex(v.b.data(), v.b.size()) + " storage " + std::to_string(static_cast<int>(b.storage))); continue; }
    const uint64_t got = n == "BusChannel" ? g.BusChannel() : n == "ID" ? g.CanId() : n == "IDE" ? g.ExtendedId() : n == "DLC" ? g.Dlc() : n == "DataLength" ? g.DataLength()
      : n == "Dir" ? g.Dir() : n == "SRR" ? g.Srr() : n == "EDL" ? g.Edl() : n == "BRS" ? g.Brs() : n == "ESI" ? g.Esi() : n == "WakeUp" ? g.WakeUp() : n == "SingleWire" ? g.SingleWire()
      : n == "R0" ? g.R0() : n == "R1" ? g.R1() : n == "FrameDuration" ? g.FrameDuration() : n == "CRC" ? g.Crc() : n == "ErrorType" ? static_cast<uint64_t>(g.ErrorType()) : n == "BitPosition" ? g.BitPosition() : 0;
    if (got != v.u) bad(n.c_str(), got, v.u);
  }
}

static void Observers(Ctx& ctx, const BusLog& b, const BusFile& f, const std::vector<Sent>& sent, bool callback) {
  auto rd = f.Open();
  if (!rd->ReadEverythingButData()) { ctx.Viol("read-failed", "observer pass"); return; }
  const std::string how = callback ? "callback" : "buffer";
  size_t d = 0;
  for (auto* dg : rd->GetHeader()->DataGroups()) {
    struct Job { std::unique_ptr<mdf::CanBusObserver> obs; std::vector<const Sent*> want; size_t seen = 0; std::string group; };
    std::vector<std::unique_ptr<Job>> jobs;
    for (auto* cg : dg->ChannelGroups()) {
      if (cg->Flags() & mdf::CgFlag::VlsdChannel) continue;
      if (cg->GetBusType() != mdf::BusType::Can) { ctx.Viol("bus-type", cg->Name()); continue; }
      auto j = std::make_unique<Job>();
      j->group = cg->Name();
      for (auto& s : sent) if (s.dg == d && s.group == cg->Name()) j->want.push_back(&s);
      j->obs = std::make_unique<mdf::CanBusObserver>(*dg, *cg);
      if (callback) {
        Job* p = j.get();
        j->obs->OnCanMessage = [&ctx, &b, p, how](uint64_t sample, const mdf::CanMessage& m) {
          if (sample != p->seen) ctx.Viol(how + ":numbering", p->group + " message " + std::to_string(sample) + " delivered as number " + std::to_string(p->seen));
          ++p->seen;
          if (sample < p->want.size()) CheckMsg(ctx, how, *p->want[sample], m, b, sample);
          return true;
        };
      }
      jobs.push_back(std::move(j));
    }
    if (!rd->ReadData(*dg)) ctx.Viol("read-failed", "observer ReadData");
    for (auto& j : jobs) {
      if (callback) { if (j->seen != j->want.size()) ctx.Viol(how + ":count", j->group + " delivered " + std::to_string(j->seen) + " want " + std::to_string(j->want.size())); continue; }
      if (j->obs->NofSamples() != j->want.size()) ctx.Viol(how + ":count", j->group + " has " + std::to_string(j->obs->NofSamples()) + " want " + std::to_string(j->want.size()));
      for (size_t i = 0; i < j->want.size(); ++i) {
        auto* m = j->obs->GetCanMessage(i);
        if (!m) { ctx.Viol(how + ":missing", j->group + " message " + std::to_string(i) + "/" + std::to_string(j->want.size()) + " storage " + std::to_string(static_cast<int>(b.storage))); break; }
        CheckMsg(ctx, how, *j->want[i], *m, b, i);
      }
    }
    ++d;
  }
}

void RunCase(Ctx& ctx) {
  Rng& r = ctx.rng;
  BusLog b;
  GenBusLog(r, b);
  // 0: the standard configuration, 1: one data group per network through the adapter
  const int how = static_cast<int>(r.Below(3));
  struct Net { std::string net, proto, msgname; mdf::MessageFilter ft = mdf::MessageFilter::NoFilter; uint8_t ch = 0; uint64_t id = 0; std::string prefix, suffix; };
  std::vector<Net> nets(how == 2 ? r.Range(1, 3) : 1);
  if (how) for (auto& n : nets) {
    if (r.Chance(0.6)) n.net = "Net" + std::to_string(r.Below(9));
    if (r.Chance(0.4)) n.proto = "J1939";
    if (r.Chance(0.3)) n.msgname = "Msg";
    n.ft = r.Pick({mdf::MessageFilter::NoFilter, mdf::MessageFilter::ChannelFilter, mdf::MessageFilter::MessageIdFilter});
    if (r.Chance(0.6)) n.ch = static_cast<uint8_t>(r.Range(1, 20));
    if (r.Chance(0.6)) n.id = r.Below(2048);
    const std::string c = std::to_string(n.ch);
    n.prefix = n.ft == mdf::MessageFilter::ChannelFilter ? c : n.ft == mdf::MessageFilter::MessageIdFilter && n.ch > 0 ? c : "";
    n.suffix = n.ft == mdf::MessageFilter::MessageIdFilter ? "_" + std::to_string(n.id) : "";
  }
  b.config = [&](mdf::MdfWriter& w) {
    w.BusType(mdf::MdfBusType::CAN);
    if (how == 0) return w.CreateBusLogConfiguration();
    for (auto& n : nets) {
      auto* dg = w.CreateDataGroup();
      if (!dg) return false;
      mdf::CanConfigAdapter a(w);
      if (!n.net.empty()) a.NetworkName(n.net);
      if (!n.proto.empty()) a.Protocol(n.proto);
      if (!n.msgname.empty()) a.MessageName(n.msgname);
      a.FilterType(n.ft);
      if (n.ch) a.ChannelFilter(n.ch);
      if (n.id) a.IdFilter(n.id);
      a.CreateConfig(*dg);
    }
    return true;
  };
  std::vector<std::string> kinds = {"DataFrame", "DataFrame", "RemoteFrame", "ErrorFrame"};
  if (!b.mandatory) kinds.push_back("OverloadFrame");
  std::vector<Sent> sent;
  uint64_t ts = b.start + r.Below(1000000);
  const size_t total = r.Tail(120);
  for (size_t i = 0; i < total; ++i) {
    Sent s;
    s.dg = r.Below(nets.size());
    s.kind = r.Pick(kinds);
    s.group = "CAN" + nets[s.dg].prefix + "_" + s.kind + nets[s.dg].suffix;
    s.ts = ts;
    s.m = GenCan(r, b);
    sent.push_back(s);
    if (!r.Chance(0.1)) ts += 1 + r.Tail(20000000);
  }
  for (auto& s : sent) {
    BusMsg m;
    m.dg = s.dg; m.group = s.group; m.ts = s.ts;
    m.f = CanFields(s.kind, s.m, b.mandatory);
    m.save = [&s](mdf::MdfWriter& w, const mdf::IDataGroup& dg, const mdf::IChannelGroup& cg, uint64_t t, bool by_dg) {
      if (by_dg) w.SaveCanMessage(dg, cg, t, s.m); else w.SaveCanMessage(cg, t, s.m);
    };
    b.msg.push_back(std::move(m));
  }
  for (auto& l : KeepLoss()) ctx.Viol("message does not keep what was set", l);
  KeepLoss().clear();
  ctx.shape = DescribeBus(b); ctx.sample = ctx.shape; ctx.nontrivial = b.msg.size() >= 2;
  BusFile f;
  f.file = ctx.Path("c.mf4");
  const auto err = WriteBus(b, f);
  if (!err.empty()) { ctx.Viol("write-failed", err); return; }
  CompareBus(ctx, b, f);
  Observers(ctx, b, f, sent, false);
  Observers(ctx, b, f, sent, true);
}
}  // namespace vh
