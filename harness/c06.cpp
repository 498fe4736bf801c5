// Variable length data: three reading paths over every storage layout.
#include "membuf.h"
#include "scen.h"
#include "mdf/canmessage.h"
#include "mdf/ethmessage.h"
#include "mdf/isampleobserver.h"
namespace vh {
const char* kPropId = "C06";

static std::vector<uint8_t> U16(const std::string& s, bool be) {
  std::vector<uint8_t> o;
  auto put = [&](uint32_t w) { if (be) { o.push_back(uint8_t(w >> 8)); o.push_back(uint8_t(w)); } else { o.push_back(uint8_t(w)); o.push_back(uint8_t(w >> 8)); } };
  for (size_t i = 0; i < s.size();) {
    const uint8_t c = static_cast<uint8_t>(s[i]);
    const int n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4;
    uint32_t u = n == 1 ? c : n == 2 ? c & 31 : n == 3 ? c & 15 : c & 7;
    for (int k = 1; k < n && i + k < s.size(); ++k) u = u << 6 | (static_cast<uint8_t>(s[i + k]) & 63);
    i += static_cast<size_t>(n);
    if (u < 0x10000) put(u); else { u -= 0x10000; put(0xd800 | u >> 10); put(0xdc00 | (u & 0x3ff)); }
  }
  return o;
}
// stored bytes without string terminators
static std::vector<uint8_t> Stored(const ChSpec& c, const Val& v) {
  if (v.k == VK::B) return v.b;
  if (c.dt == ChannelDataType::StringUTF16Le) return U16(v.s, false);
  if (c.dt == ChannelDataType::StringUTF16Be) return U16(v.s, true);
  return {v.s.begin(), v.s.end()};
}
static bool SameStored(const ChSpec& c, const std::vector<uint8_t>& want, const std::vector<uint8_t>& got) {
  if (want == got) return true;
  if (!IsStr(c.dt) || got.size() < want.size()) return false;
  if (!std::equal(want.begin(), want.end(), got.begin())) return false;
  for (size_t i = want.size(); i < got.size(); ++i) if (got[i]) return false;
  return got.size() - want.size() <= 4;
}

struct Src { std::string file; std::shared_ptr<MemBuf> mem; };
static std::unique_ptr<mdf::MdfReader> Open(const Src& s) {
  if (s.mem) return std::make_unique<mdf::MdfReader>(std::static_pointer_cast<std::streambuf>(std::make_shared<MemBuf>(s.mem->Data())));
  return std::make_unique<mdf::MdfReader>(s.file);
}

// want(dg,cg,cn) gives payloads per sample, or null
using Want = std::function<const std::vector<std::pair<bool, std::vector<uint8_t>>>*(size_t, const mdf::IChannelGroup&, size_t, const mdf::IChannel&, const ChSpec**)>;
static void OffsetPath(Ctx& ctx, const Src& src, const Want& want) {
  Rng& r = ctx.rng;
  auto rd = Open(src);
  if (!rd->ReadEverythingButData()) { ctx.Viol("offset: read", "ReadEverythingButData"); return; }
  size_t d = 0;
  for (auto* dg : rd->GetHeader()->DataGroups()) {
    struct Job { mdf::IChannel* cn; mdf::ChannelObserverPtr obs; const std::vector<std::pair<bool, std::vector<uint8_t>>>* w; const ChSpec* spec; };
    std::vector<Job> jobs;
    for (auto* cg : dg->ChannelGroups()) {
      size_t n = 0;
      for (auto* cn : cg->Channels()) {
        const ChSpec* spec = nullptr;
        if (cn->Type() == ChannelType::VariableLength)
          if (auto* w = want(d, *cg, n, *cn, &spec)) {
            Job j{cn, mdf::CreateChannelObserver(*dg, *cg, *cn), w, spec};
            j.obs->ReadVlsdData(false);
            jobs.push_back(std::move(j));
          }
        ++n;
      }
    }
    if (!jobs.empty()) {
      if (!rd->ReadData(*dg)) { ctx.Viol("offset: ReadData", "failed"); return; }
      for (auto& j : jobs) {
        const auto& off = j.obs->GetOffsetList();
        const size_t n = std::min(off.size(), j.w->size());
        if (off.size() != j.w->size()) ctx.Viol("offset: count", std::to_string(off.size()) + " offsets, want " + std::to_string(j.w->size()));
        if (n == 0) continue;
        const int mode = static_cast<int>(r.Below(4));  // 0: all, by empty list, 1: all listed, 2: one, 3: random subset, any order
        std::vector<uint64_t> list;
        std::set<size_t> asked;
        if (mode == 2) asked.insert(r.Below(n));
        else for (size_t i = 0; i < n; ++i) if (mode != 3 || r.Chance(0.4)) asked.insert(i);
        if (mode != 0) { for (auto i : asked) list.push_back(off[i]); for (size_t i = list.size(); i > 1; --i) std::swap(list[i - 1], list[r.Below(i)]); }
        if (mode == 3 && list.empty()) continue;
        std::map<uint64_t, std::vector<std::vector<uint8_t>>> got;
        std::function<void(uint64_t, const std::vector<uint8_t>&)> cb = [&](uint64_t o, const std::vector<uint8_t>& b) { got[o].push_back(b); };
        if (!rd->ReadVlsdData(*dg, *j.cn, list, cb)) { ctx.Viol("offset: ReadVlsdData", "returned false"); continue; }
        std::set<uint64_t> expect;
        for (auto i : asked) {
          ctx.Count("payloads_by_offset");
          expect.insert(off[i]);
          auto it = got.find(off[i]);
          if (it == got.end()) { ctx.Viol("offset: missing", "mode " + std::to_string(mode) + " sample " + std::to_string(i) + "/" + std::to_string(n) + " offset " + std::to_string(off[i])); break; }
          if (it->second.size() != 1) ctx.Viol("offset: repeated", "offset delivered " + std::to_string(it->second.size()) + " times");
          if (!SameStored(*j.spec, (*j.w)[i].second, it->second[0]))
            ctx.Viol("offset: payload", "mode " + std::to_string(mode) + " sample " + std::to_string(i) + " got " + Hex(it->second[0].data(), it->second[0].size()) + " want " + Hex((*j.w)[i].second.data(), (*j.w)[i].second.size()));
        }
        if (mode != 0) for (auto& g : got) if (!expect.count(g.first)) { ctx.Viol("offset: unasked", "offset " + std::to_string(g.first) + " was not asked for"); break; }
      }
    }
    ++d;
  }
}

static void RecordPath(Ctx& ctx, const Src& src, const Want& want, const Scen* s) {
  auto rd = Open(src);
  if (!rd->ReadEverythingButData()) { ctx.Viol("record: read", "ReadEverythingButData"); return; }
  size_t d = 0;
  for (auto* dg : rd->GetHeader()->DataGroups()) {
    struct Job { mdf::IChannelGroup* cg; mdf::IChannel* cn; const std::vector<std::pair<bool, std::vector<uint8_t>>>* w; const ChSpec* spec; size_t seen = 0; size_t gi, ci; };
    std::vector<Job> jobs;
    size_t g = 0;
    for (auto* cg : dg->ChannelGroups()) {
      size_t n = 0;
      for (auto* cn : cg->Channels()) {
        const ChSpec* spec = nullptr;
        if (cn->Type() == ChannelType::VariableLength && cn->VlsdRecordId() == 0)
          if (auto* w = want(d, *cg, n, *cn, &spec)) jobs.push_back({cg, cn, w, spec, 0, g, n});
        ++n;
      }
      ++g;
    }
    if (!jobs.empty()) {
      mdf::ISampleObserver obs(*dg);
      obs.DoOnSample = [&](uint64_t sample, uint64_t id, const std::vector<uint8_t>& rec) {
        for (auto& j : jobs) {
          if (j.cg->RecordId() != id) continue;
          if (sample != j.seen) ctx.Viol("record: numbering", "sample " + std::to_string(sample) + " delivered as number " + std::to_string(j.seen));
          ++j.seen;
          if (sample >= j.w->size()) continue;
          ctx.Count("payloads_by_record");
          const auto& w = (*j.w)[sample];
          bool ok, valid;
          std::string show;
          if (IsStr(j.spec->dt)) {
            std::string v; valid = obs.GetChannelValue(*j.cn, sample, rec, v);
            ok = s == nullptr || v == s->dg[d].cg[j.gi].samples[sample].v[j.ci][0].s; show = v.substr(0, 40);
          } else {
            std::vector<uint8_t> v; valid = obs.GetChannelValue(*j.cn, sample, rec, v); ok = v == w.second; show = Hex(v.data(), v.size());
          }
          if (valid != w.first) ctx.Viol("record: validity", "sample " + std::to_string(sample));
          else if (valid && !ok) ctx.Viol("record: payload", "sample " + std::to_string(sample) + " got " + show);
        }
        return true;
      };
      if (!rd->ReadData(*dg)) ctx.Viol("record: ReadData", "failed");
      for (auto& j : jobs) if (j.seen != j.w->size()) ctx.Viol("record: count", std::to_string(j.seen) + " of " + std::to_string(j.w->size()));
    }
    ++d;
  }
}

static void Channels(Ctx& ctx) {
  Rng& r = ctx.rng;
  GenOpt o;
  o.max_ch = 3; o.max_samples = 0; o.max_cg = 3;
  Scen s = GenScen(r, o);
  s.order.clear();
  const bool big = r.Chance(0.04);
  for (auto& d : s.dg) for (auto& g : d.cg) {
    const size_t n = r.Range(g.ch.size() > 1 ? 0 : 1, 3);
    for (size_t i = 0; i < n; ++i) {
      ChSpec c;
      c.name = "V" + std::to_string(i);
      c.type = ChannelType::VariableLength;
      c.dt = r.Pick({ChannelDataType::ByteArray, ChannelDataType::StringUTF8, ChannelDataType::StringAscii, ChannelDataType::StringUTF16Le,
                     ChannelDataType::StringUTF16Be, ChannelDataType::MimeSample, ChannelDataType::MimeStream});
      c.bytes = r.Pick({0u, 8u});
      c.inval = r.Chance(0.3);
      c.entropy = static_cast<int>(r.Below(3));
      c.vl_max = big ? r.Pick({70000u, 1000000u, 5000000u}) : r.Pick({0u, 3u, 30u, 300u, 3000u, 70000u});
      g.ch.insert(g.ch.begin() + static_cast<long>(r.Below(g.ch.size() + 1)), c);
    }
    g.master = -1;
  }
  if (r.Chance(0.3)) s.wtype = mdf::MdfWriterType::MdfConverter;
  s.compress = r.Chance(0.5);
  GenSamples(r, s, big ? r.Range(2, 12) : r.Tail(80), s.start + 10);
  if (s.order.empty()) s.stop = s.start + 1;
  if (big) for (auto& d : s.dg) for (auto& g : d.cg) for (size_t n = 0; n < g.ch.size(); ++n) {  // several blocks of signal data
    if (g.ch[n].type != ChannelType::VariableLength || !IsBytes(g.ch[n].dt) || g.samples.empty() || !r.Chance(0.7)) continue;
    size_t left = static_cast<size_t>(r.Range(3900000, 9000000));
    while (left > 0) {
      auto& b = g.samples[r.Below(g.samples.size())].v[n][0].b;
      const size_t add = std::min<size_t>(left, 1 + r.Below(3000000)), old = b.size();
      b.resize(old + add); left -= add;
      for (size_t i = old; i < b.size(); ++i) b[i] = static_cast<uint8_t>(Mix(i >> 6) >> (i & 7));
    }
    ctx.Count("multi_megabyte_channels");
  }
  ctx.shape = Describe(s); ctx.sample = ctx.shape; ctx.nontrivial = s.order.size() >= 2;
  Src src;
  std::string err;
  if (r.Chance(0.5)) { src.mem = std::make_shared<MemBuf>(); err = WriteScen(s, src.mem); }
  else { src.file = ctx.Path("v.mf4"); err = WriteScen(s, src.file); }
  if (!err.empty()) { ctx.Viol("write-failed", err); return; }
  std::map<std::array<size_t, 3>, std::vector<std::pair<bool, std::vector<uint8_t>>>> pay;
  for (size_t d = 0; d < s.dg.size(); ++d) for (size_t g = 0; g < s.dg[d].cg.size(); ++g) {
    auto& cg = s.dg[d].cg[g];
    for (size_t n = 0; n < cg.ch.size(); ++n) {
      if (cg.ch[n].type != ChannelType::VariableLength) continue;
      auto& v = pay[{d, g, n}];
      for (auto& sm : cg.samples) { v.emplace_back(sm.v[n][0].valid, Stored(cg.ch[n], sm.v[n][0])); ctx.Count("payload_bytes", static_cast<int64_t>(v.back().second.size())); }
    }
  }
  { auto rd = Open(src); CompareScen(ctx, s, ReadContent(*rd), "pass: "); }
  std::map<const mdf::IChannelGroup*, size_t> pos;
  Want want = [&](size_t d, const mdf::IChannelGroup& cg, size_t n, const mdf::IChannel&, const ChSpec** spec) -> const std::vector<std::pair<bool, std::vector<uint8_t>>>* {
    size_t g = 0;
    for (auto* x : cg.DataGroup()->ChannelGroups()) { if (x == &cg) break; ++g; }
    auto it = pay.find({d, g, n});
    if (it == pay.end()) return nullptr;
    *spec = &s.dg[d].cg[g].ch[n];
    return &it->second;
  };
  OffsetPath(ctx, src, want);
  RecordPath(ctx, src, want, &s);
}

// Bus loggers store payloads in VLSD channel groups (or SD)
static void Bus(Ctx& ctx) {
  Rng& r = ctx.rng;
  const bool eth = r.Chance(0.5);
  const bool comp = r.Chance(0.5);
  const auto st = r.Pick({mdf::MdfStorageType::VlsdStorage, mdf::MdfStorageType::VlsdStorage, mdf::MdfStorageType::FixedLengthStorage});
  auto w = mdf::MdfFactory::CreateMdfWriter(mdf::MdfWriterType::MdfBusLogger);
  Src src;
  bool ok;
  if (r.Chance(0.5)) { src.mem = std::make_shared<MemBuf>(); ok = w->Init(src.mem); }
  else { src.file = ctx.Path("b.mf4"); ok = w->Init(src.file); }
  if (!ok) { ctx.Viol("bus: init", ""); return; }
  w->BusType(eth ? mdf::MdfBusType::Ethernet : mdf::MdfBusType::CAN);
  w->StorageType(st);
  w->CompressData(comp);
  w->MaxLength(eth ? 1500 : 64);
  if (!w->CreateBusLogConfiguration()) { ctx.Viol("bus: config", ""); return; }
  auto* dg = w->Header()->LastDataGroup();
  auto* cg = dg->GetChannelGroup(eth ? "ETH_Frame" : "CAN_DataFrame");
  if (!cg) { ctx.Viol("bus: group", ""); return; }
  std::vector<std::pair<bool, std::vector<uint8_t>>> pay;
  const size_t n = r.Tail(120);
  if (r.Chance(0.5)) { SetFlushPeriod(1); }
  w->InitMeasurement();
  w->StartMeasurement(1700000000000000000ULL);
  static const size_t can_len[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 20, 24, 32, 48, 64};
  for (size_t i = 0; i < n; ++i) {
    const size_t len = eth ? (r.Chance(0.1) ? 0 : r.Tail(1500)) : can_len[r.Below(16)];
    std::vector<uint8_t> b(len);
    for (auto& x : b) x = static_cast<uint8_t>(r.U64());
    const uint64_t t = 1700000000000000000ULL + i * 1000;
    if (eth) { mdf::EthMessage m; m.DataBytes(b); w->SaveEthMessage(*cg, t, m); }
    else { mdf::CanMessage m; m.MessageId(static_cast<uint32_t>(i)); m.DataBytes(b); w->SaveCanMessage(*cg, t, m); }
    pay.emplace_back(true, std::move(b));
    if (i % 16 == 15) std::this_thread::sleep_for(std::chrono::microseconds(r.Below(2500)));
  }
  w->StopMeasurement(1800000000000000000ULL);
  if (!w->FinalizeMeasurement()) { ctx.Viol("bus: finalize", ""); return; }
  w.reset();
  std::ostringstream sh;
  sh << (eth ? "ETH" : "CAN") << " storage=" << static_cast<int>(st) << " comp=" << comp << " n=" << n << " " << (pay.empty() ? 0 : HashBytes(pay[0].second.data(), pay[0].second.size()));
  ctx.shape = sh.str(); ctx.sample = ctx.shape; ctx.nontrivial = n >= 2;
  const std::string data_name = eth ? "ETH_Frame.DataBytes" : "CAN_DataFrame.DataBytes";
  {
    auto rd = Open(src);
    Content c = ReadContent(*rd);
    if (!c.ok) { ctx.Viol("bus: read", c.err); return; }
    bool found = false;
    for (auto& d : c.dg) for (auto& g : d.cg) for (auto& ch : g.ch) if (ch.name == data_name) {
      found = true;
      if (ch.v.size() != n) { ctx.Viol("bus: count", std::to_string(ch.v.size()) + " want " + std::to_string(n)); continue; }
      for (size_t i = 0; i < n; ++i) {
        ctx.Count("payloads_bus");
        if (!ch.v[i][0].valid || ch.v[i][0].b != pay[i].second)
          ctx.Viol("bus: payload", sh.str() + " sample " + std::to_string(i) + " got " + Str(ch.v[i][0]) + " want " + Hex(pay[i].second.data(), pay[i].second.size()));
      }
    }
    if (!found) ctx.Viol("bus: channel", "DataBytes channel missing");
  }
  ChSpec spec; spec.dt = ChannelDataType::ByteArray;
  Want want = [&](size_t, const mdf::IChannelGroup&, size_t, const mdf::IChannel& cn, const ChSpec** sp) -> const std::vector<std::pair<bool, std::vector<uint8_t>>>* {
    if (cn.Name() != data_name) return nullptr;
    *sp = &spec;
    return &pay;
  };
  OffsetPath(ctx, src, want);
  RecordPath(ctx, src, want, nullptr);
}

void RunCase(Ctx& ctx) {
  if (ctx.rng.Chance(0.65)) Channels(ctx); else Bus(ctx);
}
}  // namespace vh
