// Histories of reads on one reader: ranges, channel subsets, observer kinds,
// repetition, aborts, signal data by offset. Every delivered value is compared
// with one full read made by a separate reader.
#include "mdf/samplerecordobserver.h"
#include "mdfenc3.h"
#include "membuf.h"
namespace vh {
const char* kPropId = "C14";
namespace {
struct Ev { uint64_t id, sample, hash; bool operator==(const Ev& o) const { return id == o.id && sample == o.sample && hash == o.hash; } };
using Seq = std::vector<Ev>;
std::string EvStr(const Ev& e) { return "(record " + std::to_string(e.id) + " sample " + std::to_string(e.sample) + ")"; }

struct Live {   // an attached channel observer and what it must hold
  size_t dg, cg, ch;
  mdf::ChannelObserverPtr o;
  bool vlsd_off = false, detached = false;
  std::set<uint64_t> got;      // samples delivered so far
};
struct Work {
  Ctx& ctx;
  Content base;
  std::vector<Seq> full;       // per data group: all callbacks of one full read
  std::unique_ptr<mdf::MdfReader> rd;
  std::vector<mdf::IDataGroup*> dgs;
  std::vector<Live> live;
  std::string log;
  const RCh& B(const Live& l) const { return base.dg[l.dg].cg[l.cg].ch[l.ch]; }
  void Bind() { dgs = rd->GetHeader()->DataGroups(); }
  void CheckLive(const std::string& after) {
    for (auto& l : live) {
      const auto& b = B(l);
      const bool vcg = l.o->Channel().VlsdRecordId() > 0;
      const std::string at = "dg" + std::to_string(l.dg) + ".cg" + std::to_string(l.cg) + "." + b.name + "[type " + std::to_string(int(b.type)) + " data type " + std::to_string(int(b.dt)) + "]";
      if (l.o->NofSamples() != b.v.size()) { ctx.Viol("sample count", at); continue; }
      for (uint64_t s = 0; s < b.v.size(); ++s) {
        const bool in = l.got.count(s) != 0;
        for (size_t e = 0; e < b.v[s].size(); ++e) {
          const Val v = GetObs(*l.o, b.dt, s, e);
          const Val& w = b.v[s][e];
          ctx.Count("values_compared");
          const std::string where = after + ": " + at + " sample " + std::to_string(s) + "/" + std::to_string(b.v.size()) + " elem " + std::to_string(e) + " got " + Str(v) + " want " + Str(w) + " | " + log;
          if (!in) { if (v.valid) { ctx.Viol("value outside the range read", where); return; } continue; }
          if (v.valid != w.valid && !(l.vlsd_off && !vcg)) { ctx.Viol("validity", where); return; }
          if (l.vlsd_off) continue;
          if (w.valid && !SameVal(v, w)) { ctx.Viol("value", where); return; }
        }
      }
    }
  }
};

struct RecObs : mdf::SampleRecordObserver {
  std::function<void(RecObs&)> f;
  RecObs(const mdf::IDataGroup& d, const mdf::IChannelGroup& g, uint64_t t, std::function<void(RecObs&)> fn) : SampleRecordObserver(d, g, t), f(std::move(fn)) {}
  void OnSampleRecord() override { f(*this); }
};
bool InRange(uint64_t s, uint64_t mn, uint64_t mx) { return s + 1 >= mn && s + 1 <= std::max(mn, mx); }

// decode every channel of a record through the sample observer
void CheckRecord(Work& w, size_t d, const mdf::ISampleObserver& ob, uint64_t sample, uint64_t id, const std::vector<uint8_t>& rec) {
  auto groups = w.dgs[d]->ChannelGroups();
  for (size_t g = 0; g < groups.size(); ++g) {
    const auto& bg = w.base.dg[d].cg[g];
    auto chs = groups[g]->Channels();
    for (size_t c = 0; c < chs.size(); ++c) {
      const auto& b = bg.ch[c];
      const uint64_t vid = chs[c]->VlsdRecordId();
      if (vid > 0 ? vid != id : groups[g]->RecordId() != id) continue;
      if (sample >= b.v.size()) { w.ctx.Viol("record beyond the samples of the group", b.name); return; }
      for (size_t e = 0; e < b.v[sample].size(); ++e) {
        Val v;
        const Val& x = b.v[sample][e];
        auto& cn = *chs[c];
        if (IsUns(b.dt) || IsCanOpen(b.dt)) { v.k = VK::U; v.valid = ob.GetChannelValue(cn, sample, rec, v.u, e); }
        else if (IsInt(b.dt)) { v.k = VK::I; v.valid = ob.GetChannelValue(cn, sample, rec, v.i, e); }
        else if (IsFloat(b.dt)) { v.k = VK::D; v.valid = ob.GetChannelValue(cn, sample, rec, v.d, e); }
        else if (IsStr(b.dt)) { v.k = VK::S; v.valid = ob.GetChannelValue(cn, sample, rec, v.s, e); }
        else { v.k = VK::B; v.valid = ob.GetChannelValue(cn, sample, rec, v.b, e); }
        w.ctx.Count("callback_values");
        if (vid > 0) { if (x.valid && !SameVal(v, x)) { w.ctx.Viol("callback value (VLSD group)", b.name + " got " + Str(v) + " want " + Str(x)); return; } continue; }
        if (v.valid != x.valid) w.ctx.Viol("callback validity", b.name + " sample " + std::to_string(sample) + " got " + Str(v) + " want " + Str(x) + " | " + w.log);
        else if (x.valid && !SameVal(v, x)) w.ctx.Viol("callback value", b.name + " sample " + std::to_string(sample) + " got " + Str(v) + " want " + Str(x) + " | " + w.log);
      }
    }
  }
}

void CheckSeq(Work& w, const Seq& got, const Seq& want, const std::string& kind) {
  for (size_t i = 0; i < std::max(got.size(), want.size()); ++i) {
    if (i >= want.size()) { w.ctx.Viol(kind + ": extra records", std::to_string(got.size()) + " want " + std::to_string(want.size()) + " extra " + EvStr(got[i]) + " | " + w.log); return; }
    if (i >= got.size()) { w.ctx.Viol(kind + ": missing records", std::to_string(got.size()) + " want " + std::to_string(want.size()) + " missing " + EvStr(want[i]) + " | " + w.log); return; }
    if (!(got[i] == want[i])) { w.ctx.Viol(kind + ": record differs", "position " + std::to_string(i) + " got " + EvStr(got[i]) + " want " + EvStr(want[i]) + " | " + w.log); return; }
  }
  w.ctx.Count("records_observed", got.size());
}
}  // namespace

void RunCase(Ctx& ctx) {
  auto& r = ctx.rng;
  Work w{ctx, {}, {}, nullptr, {}, {}, {}};
  std::shared_ptr<MemBuf> mem;
  std::string file;
  const uint64_t src = r.Below(6);
  if (src == 5) {
    EncFile3 f = EncodeMdf3(r, EncOpt());
    ctx.shape = "enc3 " + f.shape;
    mem = std::make_shared<MemBuf>(MemBuf::Store(f.bytes.begin(), f.bytes.end()));
  } else if (src < 2) {
    EncOpt o;
    if (r.Chance(0.05)) { o.max_samples = 800; o.max_dg = 1; }
    EncFile f = EncodeMdf4(r, o);
    ctx.shape = "enc " + f.shape;
    mem = std::make_shared<MemBuf>(MemBuf::Store(f.bytes.begin(), f.bytes.end()));
  } else {
    GenOpt o;
    o.mdf3 = src == 4;
    o.max_dg = 3; o.max_samples = r.Chance(0.05) ? 1500 : 60;
    o.vlsd = o.arrays = o.inval = !o.mdf3;
    const Scen s = GenScen(r, o);
    ctx.shape = Describe(s);
    if (r.Chance(0.2)) {
      file = ctx.Path("a.mf4");
      if (const auto e = WriteScen(s, file); !e.empty()) { ctx.Viol("write failed", ctx.shape); return; }
    } else {
      mem = std::make_shared<MemBuf>();
      if (const auto e = WriteScen(s, std::static_pointer_cast<std::streambuf>(mem)); !e.empty()) { ctx.Viol("write failed", ctx.shape); return; }
    }
  }
  auto open = [&] {
    return mem ? std::make_unique<mdf::MdfReader>(std::static_pointer_cast<std::streambuf>(std::make_shared<MemBuf>(mem->Data()))) : std::make_unique<mdf::MdfReader>(file);
  };
  {
    auto rd = open();
    w.base = ReadContent(*rd);
    if (!w.base.ok) { ctx.Viol("full read failed", w.base.err); return; }
    auto dgs = rd->GetHeader()->DataGroups();
    for (size_t d = 0; d < dgs.size(); ++d) {
      w.full.emplace_back();
      mdf::ISampleObserver ob(*dgs[d]);
      ob.DoOnSample = [&](uint64_t s, uint64_t id, const std::vector<uint8_t>& rec) { w.full.back().push_back({id, s, HashBytes(rec.data(), rec.size())}); return true; };
      if (!rd->ReadData(*dgs[d])) ctx.Viol("full callback read failed", "");
      // sample numbers of each group: 0..n-1, once each, in order
      std::map<uint64_t, uint64_t> next;
      for (auto& e : w.full.back()) if (e.sample != next[e.id]++) { ctx.Viol("sample numbering", EvStr(e)); return; }
      for (auto& g : w.base.dg[d].cg) {
        const uint64_t id = w.base.dg[d].cg.size() == 1 ? (next.empty() ? 0 : next.begin()->first) : g.rec_id;
        if (next[id] != g.nof) { ctx.Viol("records delivered", "group " + g.name + " " + std::to_string(next[id]) + " want " + std::to_string(g.nof)); return; }
      }
    }
  }
  w.rd = open();
  if (!w.rd->ReadEverythingButData()) { ctx.Viol("open failed", ""); return; }
  w.Bind();
  if (w.dgs.empty()) return;
  uint64_t most = 0;
  for (auto& d : w.base.dg) for (auto& g : d.cg) most = std::max<uint64_t>(most, g.nof);
  ctx.nontrivial = most > 1;
  const int steps = static_cast<int>(r.Range(3, 12));
  for (int st = 0; st < steps; ++st) {
    const size_t d = r.Below(w.dgs.size());
    auto& dg = *w.dgs[d];
    auto groups = dg.ChannelGroups();
    uint64_t mn = 0, mx = 0;
    auto range = [&] {
      mn = r.Pick<uint64_t>({0, 1, 1, 1 + r.Below(most + 1), 1 + r.Below(most + 1), 1 + r.Below(most + 1), most, most + 1, most + r.Below(5)});
      mx = r.Pick<uint64_t>({0, 1, mn, mn, mn + 1, mn + r.Below(most + 2), mn + r.Below(most + 2), most, most + 5, UINT64_MAX});
    };
    auto samples_of = [&](const Live& l) { return w.base.dg[l.dg].cg[l.cg].nof; };
    const uint64_t op = r.Below(13);
    ctx.Count("op" + std::to_string(op));
    if (op < 4) {           // attach channel observers
      const uint64_t how = r.Below(4);
      if (how == 0) {
        mdf::ChannelObserverList list;
        mdf::CreateChannelObserverForDataGroup(dg, list);
        w.log += " all" + std::to_string(d);
        size_t k = 0;
        for (size_t g = 0; g < groups.size(); ++g) {
          if (groups[g]->NofSamples() == 0) continue;
          for (size_t c = 0; c < groups[g]->Channels().size(); ++c) w.live.push_back({d, g, c, std::move(list.at(k++))});
        }
        if (k != list.size()) ctx.Viol("observers of the data group", std::to_string(list.size()) + " want " + std::to_string(k));
      } else if (how == 1) {
        const size_t g = r.Below(groups.size());
        mdf::ChannelObserverList list;
        mdf::CreateChannelObserverForChannelGroup(dg, *groups[g], list);
        w.log += " group" + std::to_string(d) + "." + std::to_string(g);
        if (list.size() != groups[g]->Channels().size()) ctx.Viol("observers of the channel group", "");
        for (size_t c = 0; c < list.size(); ++c) w.live.push_back({d, g, c, std::move(list[c])});
      } else {
        const int n = static_cast<int>(r.Range(1, 4));
        for (int i = 0; i < n; ++i) {
          const size_t g = r.Below(groups.size());
          auto chs = groups[g]->Channels();
          if (chs.empty()) continue;
          const size_t c = r.Below(chs.size());
          Live l{d, g, c, mdf::CreateChannelObserver(dg, *groups[g], *chs[c])};
          if (chs[c]->Type() == ChannelType::VariableLength && r.Chance(0.3)) {
            // offsets only: other observers of the same channel would load the data
            bool alone = true;
            for (auto& x : w.live) if (x.dg == d && x.cg == g && x.ch == c) alone = false;
            if (alone) { l.o->ReadVlsdData(false); l.vlsd_off = true; }
          }
          w.log += " ch" + std::to_string(d) + "." + std::to_string(g) + "." + std::to_string(c) + (l.vlsd_off ? "o" : "");
          w.live.push_back(std::move(l));
        }
      }
    } else if (op < 8) {    // read with whatever is attached, and perhaps a callback observer
      const bool part = r.Chance(0.6);
      if (part) range();
      std::unique_ptr<mdf::ISampleObserver> cb;
      Seq got;
      uint64_t stop = 0;
      const bool want_cb = r.Chance(0.4);
      if (want_cb) {
        cb = std::make_unique<mdf::ISampleObserver>(dg);
        // an abort also ends the delivery to the others: only with none attached
        bool others = false;
        for (auto& l : w.live) if (l.dg == d && !l.detached) others = true;
        if (!others && r.Chance(0.5)) stop = 1 + r.Tail(w.full[d].size() + 1);
        cb->DoOnSample = [&](uint64_t s, uint64_t id, const std::vector<uint8_t>& rec) {
          got.push_back({id, s, HashBytes(rec.data(), rec.size())});
          CheckRecord(w, d, *cb, s, id, rec);
          return !(stop && got.size() >= stop);
        };
      }
      w.log += (part ? " range" + std::to_string(d) + "[" + std::to_string(mn) + "," + std::to_string(mx) + "]" : " read" + std::to_string(d)) + (want_cb ? "+cb" : "") + (stop ? "/" + std::to_string(stop) : "");
      const bool ok = part ? w.rd->ReadPartialData(dg, mn, mx) : w.rd->ReadData(dg);
      if (!ok) ctx.Viol("read failed", w.log);
      for (auto& l : w.live) if (l.dg == d && !l.detached)
        for (uint64_t s = 0; s < samples_of(l); ++s) if (!part || InRange(s, mn, mx)) l.got.insert(s);
      if (want_cb) {
        Seq want;
        for (auto& e : w.full[d]) if (!part || InRange(e.sample, mn, mx)) { if (stop && want.size() >= stop) break; want.push_back(e); }
        CheckSeq(w, got, want, stop ? (part ? "aborted range" : "aborted read") : (part ? "range" : "read"));
      }
      w.CheckLive("read");
    } else if (op == 8) {   // drop or detach observers
      if (w.live.empty()) continue;
      const size_t k = r.Below(w.live.size());
      if (r.Chance(0.5)) { w.log += " drop" + std::to_string(k); w.live.erase(w.live.begin() + static_cast<long>(k)); }
      else { w.log += " detach" + std::to_string(k); w.live[k].o->DetachObserver(); w.live[k].detached = true; }
      w.CheckLive("detach");
    } else if (op == 9) {   // close/clear/reload
      const uint64_t how = r.Below(4);
      if (how == 0) { w.log += " close"; w.rd->Close(); }
      else if (how == 1) { w.log += " clear" + std::to_string(d); dg.ClearData(); }
      else if (how == 2) {
        w.log += " detachall" + std::to_string(d);
        dg.DetachAllSampleObservers();
        for (auto& l : w.live) if (l.dg == d) l.detached = true;
      } else {
        w.log += " reload";
        w.live.clear();
        if (!w.rd->ReadEverythingButData()) ctx.Viol("reload failed", w.log);
        w.Bind();
        if (w.dgs.size() != w.base.dg.size()) { ctx.Viol("data groups after reload", w.log); return; }
      }
      w.CheckLive("close");
    } else if (op == 12) {  // records of one group, as a task sees them
      const size_t g = r.Below(groups.size());
      const bool part = r.Chance(0.5);
      if (part) range();
      const uint64_t t0 = r.Range(1600000000, 1700000000) * 1000000000ULL + r.Below(1000000000);
      bool vlsd_cg = (groups[g]->Flags() & mdf::CgFlag::VlsdChannel) != 0;   // documented: only fixed length records, or records that alternate strictly
      for (auto* c : groups[g]->Channels()) if (c->VlsdRecordId() > 0) vlsd_cg = true;
      Seq got;
      uint64_t bad_time = 0, bad_base = 0;
      std::string bt;
      auto* tc = groups[g]->GetMasterTimeChannel();
      RecObs ob(dg, *groups[g], t0, [&](RecObs& o) {
        mdf::SampleRecord rec;
        const uint64_t index = o.GetSampleIndex(), time = o.GetSampleTime();
        o.GetSampleRecord(rec);
        got.push_back({rec.record_id, index, HashBytes(rec.record_buffer.data(), rec.record_buffer.size())});
        if (time != rec.timestamp) { ++bad_time; bt = "getter " + std::to_string(time) + " record " + std::to_string(rec.timestamp); }
        if (o.GetBaseTime() != t0) ++bad_base;
        double rel = 0;
        if (tc) o.GetEngValue(*tc, index, rec.record_buffer, rel);
        if (std::isfinite(rel) && std::abs(rel) < 1e9) {
          const int64_t diff = static_cast<int64_t>(rec.timestamp - t0) - static_cast<int64_t>(std::llround(rel * 1e9));
          if (std::abs(diff) > 1) { ++bad_time; bt = "time " + std::to_string(rel) + " timestamp " + std::to_string(rec.timestamp) + " base " + std::to_string(t0); }
          w.ctx.Count("record_times");
        }
      });
      w.log += " records" + std::to_string(d) + "." + std::to_string(g);
      if (!(part ? w.rd->ReadPartialData(dg, mn, mx) : w.rd->ReadData(dg))) ctx.Viol("read failed", w.log);
      ob.DetachObserver();
      for (auto& l : w.live) if (l.dg == d && !l.detached)
        for (uint64_t s = 0; s < samples_of(l); ++s) if (!part || InRange(s, mn, mx)) l.got.insert(s);
      if (groups[g]->StorageType() != mdf::MdfStorageType::VlsdStorage && !vlsd_cg) {
        Seq want;
        for (auto& e : w.full[d]) if ((!part || InRange(e.sample, mn, mx)) && e.id == groups[g]->RecordId()) want.push_back(e);
        CheckSeq(w, got, want, part ? "record observer range" : "record observer");
        if (bad_time) ctx.Viol("record observer time", bt + " | " + w.log);
        if (bad_base) ctx.Viol("record observer base time", w.log);
        ctx.Count("record_observer_records", got.size());
      }
      w.CheckLive("records");
    } else {                // signal data by offset
      std::vector<std::pair<size_t, size_t>> vs;
      for (size_t g = 0; g < groups.size(); ++g) for (size_t c = 0; c < groups[g]->Channels().size(); ++c)
        if (groups[g]->Channels()[c]->Type() == ChannelType::VariableLength) vs.push_back({g, c});
      if (vs.empty()) continue;
      const auto [g, c] = r.Pick(vs);
      bool busy = false;
      for (auto& l : w.live) if (l.dg == d && !l.detached) busy = true;
      if (busy) continue;
      auto* cn = groups[g]->Channels()[c];
      auto ob = mdf::CreateChannelObserver(dg, *groups[g], *cn);
      ob->ReadVlsdData(false);
      const bool part = r.Chance(0.3);
      if (part) range();
      w.log += " offsets" + std::to_string(d) + "." + std::to_string(g) + "." + std::to_string(c);
      if (!(part ? w.rd->ReadPartialData(dg, mn, mx) : w.rd->ReadData(dg))) ctx.Viol("read failed", w.log);
      const auto& off = ob->GetOffsetList();
      const auto& b = w.base.dg[d].cg[g].ch[c];
      if (off.size() != b.v.size()) { ctx.Viol("offset list", std::to_string(off.size())); continue; }
      std::map<uint64_t, uint64_t> want;   // offset -> sample
      std::vector<uint64_t> ask;
      for (uint64_t s = 0; s < off.size(); ++s) if ((!part || InRange(s, mn, mx)) && b.v[s][0].valid && r.Chance(0.5)) { want.emplace(off[s], s); ask.push_back(off[s]); }
      for (size_t i = ask.size(); i > 1; --i) std::swap(ask[i - 1], ask[r.Below(i)]);
      if (ask.empty()) continue;
      std::map<uint64_t, int> seen;
      std::function<void(uint64_t, const std::vector<uint8_t>&)> cb = [&](uint64_t o2, const std::vector<uint8_t>& bytes) {
        ++seen[o2];
        auto it = want.find(o2);
        if (it == want.end()) { ctx.Viol("signal data not asked for", w.log + " offset " + std::to_string(o2)); return; }
        const Val& v = b.v[it->second][0];
        ctx.Count("payloads_by_offset");
        if (IsBytes(b.dt)) { if (v.b != bytes) ctx.Viol("signal data by offset", b.name + " sample " + std::to_string(it->second) + " got " + Hex(bytes.data(), std::min<size_t>(bytes.size(), 20)) + " want " + Str(v)); }
        else if (b.dt == ChannelDataType::StringUTF8) {
          std::string t(bytes.begin(), bytes.end());
          t = t.substr(0, t.find('\0'));
          if (t != v.s) ctx.Viol("signal data by offset", b.name + " sample " + std::to_string(it->second) + " got '" + t + "' want " + Str(v));
        }
      };
      if (!w.rd->ReadVlsdData(dg, *cn, ask, cb)) ctx.Viol("ReadVlsdData failed", w.log);
      for (auto& [o2, s] : want) if (seen[o2] != 1) ctx.Viol("signal data by offset missing", w.log + " " + b.name + " offset " + std::to_string(o2) + " delivered " + std::to_string(seen[o2]) + " times");
      ob.reset();
      w.CheckLive("offsets");
    }
  }
  w.live.clear();
  // after all that, the reader still returns the whole content
  const Content end = ReadContent(*w.rd);
  const std::string diff = DiffContent(w.base, end, SIZE_MAX, true);
  if (!diff.empty()) ctx.Viol("content after the reads", diff + " | " + w.log);
  ctx.shape += " |" + std::to_string(HashStr(w.log));
}
}  // namespace vh
