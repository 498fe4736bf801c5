// Concurrent producers against the background worker. Built with TSan.
// Every producer call is an event with a unique id (thread, sequence); the
// finalized file is checked offline: exactly once, not torn, per-thread order.
#include "membuf.h"
#include "scen.h"
#include "mdf/canmessage.h"
#include "mdf/idatawriter.h"
namespace vh {
const char* kPropId = "C04";

static std::vector<uint8_t> Payload(uint64_t tid, uint64_t seq, size_t n) {
  std::vector<uint8_t> b(n);
  for (size_t i = 0; i < n; ++i) b[i] = static_cast<uint8_t>(Mix(tid * 1000003 + seq * 31 + i / 8) >> (8 * (i % 8)));
  return b;
}

struct Grp {
  mdf::IDataGroup* dg = nullptr;
  mdf::IChannelGroup* cg = nullptr;
  std::vector<mdf::IChannel*> ch;  // t, tid, seq, mix, bytes, [text]
  bool vlsd = false;
  size_t payload = 16;
};
struct Ev { uint32_t seq; uint64_t ts; size_t grp; };

static void Busy(uint64_t x) {
  if (x % 64 == 0) std::this_thread::sleep_for(std::chrono::microseconds(x / 64 % 300));
  else if (x % 8 == 0) std::this_thread::yield();
}

void RunCase(Ctx& ctx) {
  Rng& r = ctx.rng;
  enum Kind { kMdf4, kMdf3, kConv, kCan };
  const Kind kind = static_cast<Kind>(r.Below(4));
  const size_t nth = static_cast<size_t>(r.Range(2, 6));
  const size_t per = static_cast<size_t>(r.Range(20, ctx.thorough() ? 600 : 200));
  const bool file = r.Chance(0.4);
  const bool compress = kind != kMdf3 && r.Chance(0.5);
  bool periodic = !r.Chance(0.15);
  bool late_start = kind != kConv && r.Chance(0.3);
  const bool big = compress && kind != kCan && r.Chance(0.12);  // several 4 MB blocks
  unsigned flush = r.Chance(0.15) ? 10000u : 1u;
  if (big && r.Chance(0.8)) { periodic = true; late_start = false; flush = 1; }
  const uint64_t start = 1700000000000000000ULL;
  std::ostringstream sh;
  sh << "kind=" << kind << " threads=" << nth << " per=" << per << " comp=" << compress << " per=" << periodic << " late=" << late_start << " flush=" << flush << " big=" << big;

  auto w = mdf::MdfFactory::CreateMdfWriter(kind == kMdf3 ? mdf::MdfWriterType::Mdf3Basic : kind == kConv ? mdf::MdfWriterType::MdfConverter : kind == kCan ? mdf::MdfWriterType::MdfBusLogger : mdf::MdfWriterType::Mdf4Basic);
  const std::string fname = ctx.Path("a.mf4");
  std::shared_ptr<MemBuf> mem;
  std::atomic<uint64_t> flushes{0};
  if (file) { if (!w->Init(fname)) { ctx.Viol("init", "Init"); return; } }
  else {
    mem = std::make_shared<MemBuf>();
    auto drng = std::make_shared<Rng>(r.U64());
    mem->on_write = [drng](size_t, const char*, size_t) { Busy(drng->Below(1000)); };
    mem->on_sync = [&flushes] { ++flushes; };
    if (!w->Init(mem)) { ctx.Viol("init", "Init"); return; }
  }
  w->CompressData(compress);
  w->SavePeriodic(periodic);
  if (late_start) w->PreTrigTime(1000000.0);

  std::vector<Grp> grps;
  bool shared_ok = false;
  if (kind == kCan) {
    w->BusType(mdf::MdfBusType::CAN);
    w->StorageType(r.Pick({mdf::MdfStorageType::FixedLengthStorage, mdf::MdfStorageType::VlsdStorage, mdf::MdfStorageType::MlsdStorage}));
    w->MaxLength(64);
    sh << " st=" << static_cast<int>(w->StorageType());
    if (!w->CreateBusLogConfiguration()) { ctx.Viol("config", "CreateBusLogConfiguration"); return; }
    auto* dg = w->Header()->LastDataGroup();
    Grp g; g.dg = dg; g.cg = dg->GetChannelGroup("CAN_DataFrame");
    if (!g.cg) { ctx.Viol("config", "no CAN_DataFrame"); return; }
    grps.push_back(g);
    shared_ok = true;
  } else {
    const size_t ndg = static_cast<size_t>(r.Range(1, kind == kMdf3 ? 2 : 3));
    shared_ok = r.Chance(0.5);  // all threads on all groups, each with its own data writer
    const size_t total = shared_ok ? static_cast<size_t>(r.Range(1, 3)) : nth;
    std::vector<mdf::IDataGroup*> dgs;
    for (size_t i = 0; i < std::min(ndg, total); ++i) dgs.push_back(w->CreateDataGroup());
    for (size_t i = 0; i < total; ++i) {
      Grp g;
      g.dg = dgs[i % dgs.size()];
      g.cg = mdf::MdfWriter::CreateChannelGroup(g.dg);
      g.cg->Name("G" + std::to_string(i));
      g.payload = big ? (r.Chance(0.5) ? 9000 : 25000) : static_cast<size_t>(r.Range(1, 40));
      g.vlsd = !shared_ok && kind != kMdf3 && r.Chance(0.4);
      auto add = [&](const char* n, ChannelType t, ChannelDataType dt, uint32_t bytes) {
        auto* c = mdf::MdfWriter::CreateChannel(g.cg);
        c->Name(n); c->Type(t);
        if (t == ChannelType::Master) c->Sync(mdf::ChannelSyncType::Time);
        c->DataType(dt); c->DataBytes(bytes);
        g.ch.push_back(c);
      };
      add("t", ChannelType::Master, ChannelDataType::FloatLe, 8);
      add("tid", ChannelType::FixedLength, ChannelDataType::UnsignedIntegerLe, 2);
      add("seq", ChannelType::FixedLength, ChannelDataType::UnsignedIntegerBe, 4);
      add("mix", ChannelType::FixedLength, ChannelDataType::UnsignedIntegerLe, 8);
      add("bytes", ChannelType::FixedLength, ChannelDataType::ByteArray, static_cast<uint32_t>(g.payload));
      if (g.vlsd) add("text", ChannelType::VariableLength, ChannelDataType::ByteArray, 8);
      grps.push_back(g);
    }
    sh << " dg=" << dgs.size() << " groups=" << total << " shared=" << shared_ok;
  }
  SetFlushPeriod(flush);
  if (!w->InitMeasurement()) { ctx.Viol("init-measurement", "InitMeasurement"); return; }
  if (!late_start) w->StartMeasurement(start);
  std::atomic<uint64_t> clock{1};
  std::atomic<bool> go{false};
  std::vector<std::vector<Ev>> log(nth);
  std::vector<std::thread> th;
  const uint64_t jit = r.U64();
  const int slow = big ? static_cast<int>(r.Range(2, 4)) : static_cast<int>(r.Below(5));
  const size_t nper = big ? 250 : per;
  for (size_t t = 0; t < nth; ++t) {
    th.emplace_back([&, t] {
      Rng lr(jit ^ Mix(t));
      std::vector<std::unique_ptr<mdf::IDataWriter>> dw;
      if (shared_ok && kind != kCan)
        for (auto& g : grps) dw.push_back(mdf::MdfFactory::CreateDataWriter(*g.cg));
      while (!go.load()) std::this_thread::yield();
      for (uint32_t s = 0; s < nper; ++s) {
        const size_t gi = shared_ok ? lr.Below(grps.size()) : t % grps.size();
        Grp& g = grps[gi];
        const uint64_t ts = start + clock.fetch_add(1) * 1000;
        if (kind == kCan) {
          mdf::CanMessage m;
          m.MessageId(static_cast<uint32_t>(t + 1));
          m.BusChannel(static_cast<uint8_t>(t));
          auto p = Payload(t, s, 4 + (s % 5) * 4);
          p[0] = static_cast<uint8_t>(s); p[1] = static_cast<uint8_t>(s >> 8); p[2] = static_cast<uint8_t>(t); p[3] = static_cast<uint8_t>(s ^ t);
          m.DataBytes(p);
          w->SaveCanMessage(*g.cg, ts, m);
        } else if (shared_ok) {
          auto& d = *dw[gi];
          for (const auto& l : d.ChannelLayouts()) {
            if (l.name == "tid") d.SetValue(l, static_cast<uint16_t>(t));
            else if (l.name == "seq") d.SetValue(l, s);
            else if (l.name == "mix") d.SetValue(l, Mix(t * 7919 + s));
            else if (l.name == "bytes") { auto p = Payload(t, s, g.payload); memcpy(d.Buffer().data() + l.byte_offset, p.data(), p.size()); }
          }
          w->AddSample(*g.dg, *g.cg, ts, d.Commit());
        } else {
          g.ch[1]->SetChannelValue(static_cast<uint64_t>(t));
          g.ch[2]->SetChannelValue(static_cast<uint64_t>(s));
          g.ch[3]->SetChannelValue(Mix(t * 7919 + s));
          g.ch[4]->SetChannelValue(Payload(t, s, g.payload));
          if (g.vlsd) g.ch[5]->SetChannelValue(Payload(t + 100, s, s % 50));
          if (s & 1) w->SaveSample(*g.cg, ts); else w->SaveSample(*g.dg, *g.cg, ts);
        }
        log[t].push_back({s, ts, gi});
        if (slow == 1) Busy(lr.Below(2000));
        else if (slow == 2) Busy(lr.Below(400));
        else if (slow >= 3) std::this_thread::sleep_for(std::chrono::microseconds(lr.Below(slow == 3 ? 150 : 600)));
      }
    });
  }
  go = true;
  if (late_start) {
    std::this_thread::sleep_for(std::chrono::microseconds(r.Below(3000)));
    w->StartMeasurement(start);
  }
  for (auto& t : th) t.join();
  const uint64_t during = flushes.load();
  const auto t0 = std::chrono::steady_clock::now();
  w->StopMeasurement(start + clock.load() * 1000 + 1);
  const double stop_s = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  if (flush == 10000u && stop_s > 6.0) ctx.Viol("stop-slow", "StopMeasurement took " + std::to_string(stop_s) + " s");
  if (!w->FinalizeMeasurement()) { ctx.Viol("finalize", "FinalizeMeasurement failed"); return; }
  w.reset();
  if (big) ctx.Count("big_cases");
  ctx.Count("flushes_while_producing", static_cast<int64_t>(during));
  ctx.Count("samples_saved", static_cast<int64_t>(nth * nper));

  // ---------------- offline check of the recorded history
  Content c = file ? ReadContent(fname) : ReadContent(std::make_shared<MemBuf>(mem->Data()));
  if (!c.ok) { ctx.Viol("read", c.err); return; }
  std::vector<std::map<uint32_t, Ev>> want(nth);
  for (size_t t = 0; t < nth; ++t) for (auto& e : log[t]) want[t][e.seq] = e;
  std::map<const mdf::IChannelGroup*, size_t> dummy;
  uint64_t order_hash = 14695981039346656037ULL;
  size_t seen = 0;
  auto check = [&](size_t gi, uint64_t tid, uint64_t seq, double time, std::map<uint64_t, int64_t>& last, bool intact) {
    ++seen;
    order_hash = (order_hash ^ (tid + 1)) * 1099511628211ULL;
    if (!intact) ctx.Viol("torn", "group " + std::to_string(gi) + " tid " + std::to_string(tid) + " seq " + std::to_string(seq) + " content does not belong together");
    if (tid >= nth || seq >= nper) { ctx.Viol("invented", "tid " + std::to_string(tid) + " seq " + std::to_string(seq)); return; }
    auto it = want[tid].find(static_cast<uint32_t>(seq));
    if (it == want[tid].end()) { ctx.Viol("duplicate", "tid " + std::to_string(tid) + " seq " + std::to_string(seq)); return; }
    if (it->second.grp != gi) ctx.Viol("wrong-group", "tid " + std::to_string(tid) + " seq " + std::to_string(seq));
    const double wt = static_cast<double>(static_cast<int64_t>(it->second.ts - start)) / 1e9;
    if (!TimeClose(time, wt, 0)) ctx.Viol("time", "tid " + std::to_string(tid) + " seq " + std::to_string(seq) + " got " + std::to_string(time) + " want " + std::to_string(wt));
    auto [li, fresh] = last.emplace(tid, -1);
    if (li->second >= static_cast<int64_t>(seq)) ctx.Viol("order", "tid " + std::to_string(tid) + " seq " + std::to_string(seq) + " after " + std::to_string(li->second));
    li->second = static_cast<int64_t>(seq);
    want[tid].erase(it);
    ctx.Count("samples_checked");
  };
  if (kind == kCan) {
    for (auto& d : c.dg) for (auto& g : d.cg) {
      if (g.name != "CAN_DataFrame" || g.vlsd) continue;
      const RCh *t = nullptr, *id = nullptr, *data = nullptr, *bc = nullptr;
      for (auto& ch : g.ch) {
        if (ch.type == ChannelType::Master) t = &ch;
        if (ch.name == "CAN_DataFrame.ID") id = &ch;
        if (ch.name == "CAN_DataFrame.DataBytes") data = &ch;
        if (ch.name == "CAN_DataFrame.BusChannel") bc = &ch;
      }
      if (!t || !id || !data || !bc) { ctx.Viol("config-read", "member channels missing"); return; }
      std::map<uint64_t, int64_t> last;
      for (size_t i = 0; i < data->v.size(); ++i) {
        const auto& b = data->v[i][0].b;
        if (!data->v[i][0].valid || b.size() < 4) { ctx.Viol("torn", "payload of sample " + std::to_string(i)); continue; }
        const uint64_t seq = b[0] | b[1] << 8, tid = b[2];
        auto p = Payload(tid, seq, 4 + (seq % 5) * 4);
        bool ok = b.size() == p.size() && memcmp(b.data() + 4, p.data() + 4, p.size() - 4) == 0 && id->v[i][0].u == tid + 1 && bc->v[i][0].u == tid;
        check(0, tid, seq, t->eng[i], last, ok);
      }
    }
  } else {
    for (size_t gi = 0; gi < grps.size(); ++gi) {
      const RCg* rg = nullptr;
      for (auto& d : c.dg) for (auto& g : d.cg) if (g.ch.size() >= 5 && (g.name == "G" + std::to_string(gi) || g.desc == "G" + std::to_string(gi))) rg = &g;
      if (!rg && kind == kMdf3) {  // MDF3 has no group name: by position
        size_t k = 0; const size_t ndg = c.dg.size();
        for (auto& d : c.dg) { size_t j = 0; for (auto& g : d.cg) { if (j * ndg + k == gi) rg = &g; ++j; } ++k; }
      }
      if (!rg) { ctx.Viol("group-missing", "G" + std::to_string(gi)); continue; }
      std::map<uint64_t, int64_t> last;
      for (size_t i = 0; i < rg->ch[1].v.size(); ++i) {
        const uint64_t tid = rg->ch[1].v[i][0].u, seq = rg->ch[2].v[i][0].u;
        bool ok = rg->ch[3].v[i][0].u == Mix(tid * 7919 + seq) && rg->ch[4].v[i][0].b == Payload(tid, seq, grps[gi].payload);
        if (grps[gi].vlsd && rg->ch.size() > 5) ok = ok && rg->ch[5].v[i][0].b == Payload(tid + 100, seq, seq % 50);
        check(gi, tid, seq, rg->ch[0].eng[i], last, ok);
      }
    }
  }
  for (size_t t = 0; t < nth; ++t)
    if (!want[t].empty()) ctx.Viol("lost", std::to_string(want[t].size()) + " samples of thread " + std::to_string(t) + " missing, first seq " + std::to_string(want[t].begin()->first));
  sh << " order=" << order_hash << " flushes=" << during;
  ctx.shape = sh.str();
  ctx.sample = ctx.shape;
  ctx.nontrivial = seen > 1;
}
}  // namespace vh
