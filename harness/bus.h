// Bus logs: messages saved through the writer, read back member by member.
#pragma once
#include "membuf.h"
#include "scen.h"
#include "mdf/canmessage.h"
#include "mdf/ethmessage.h"
#include "mdf/flexraymessage.h"
#include "mdf/linmessage.h"
#include "mdf/mostmessage.h"
#include "mdf/canconfigadapter.h"
#include "mdf/ethconfigadapter.h"
#include "mdf/flexrayconfigadapter.h"
#include "mdf/linconfigadapter.h"
#include "mdf/mostconfigadapter.h"

namespace vh {
using Fields = std::vector<std::pair<std::string, Val>>;
// A message gives back what was set, whatever else is set afterwards.
inline std::vector<std::pair<const char*, std::function<bool()>>>& KeepList() { static std::vector<std::pair<const char*, std::function<bool()>>> l; return l; }
inline std::vector<std::string>& KeepLoss() { static std::vector<std::string> l; return l; }
inline void KeepCheck() { for (auto& [n, ok] : KeepList()) if (!ok()) KeepLoss().push_back(n); KeepList().clear(); }
// a message that is reset carries nothing of its earlier life
#define VH_RESET(T, m, LIST) do { T q = (m); q.Reset(); const T z; LIST } while (0)
#define VH_R(X) if (!(q.X() == z.X())) KeepLoss().push_back(#X " after Reset()");
#define VH_SET(m, X, v) do { auto vh_v = v; (m).X(vh_v); KeepList().emplace_back(#X, [&m, vh_v] { return (m).X() == vh_v; }); } while (0)
struct BusMsg {
  size_t dg = 0;
  std::string group;   // full group name
  uint64_t ts = 0;
  Fields f;            // member channel name -> value a reader must see
  std::function<void(mdf::MdfWriter&, const mdf::IDataGroup&, const mdf::IChannelGroup&, uint64_t, bool)> save;
};
struct BusLog {
  mdf::MdfWriterType wtype = mdf::MdfWriterType::MdfBusLogger;
  mdf::MdfStorageType storage = mdf::MdfStorageType::FixedLengthStorage;
  bool compress = false, periodic = true, by_dg = true, to_stream = false;
  uint32_t max_len = 8;
  bool mandatory = false;
  unsigned flush_ms = 10000, pause_every = 0;
  uint64_t start = 0;
  std::vector<BusMsg> msg;
  std::function<bool(mdf::MdfWriter&)> config;
};
struct BusFile {
  std::string file;
  std::shared_ptr<MemBuf> mem;
  std::unique_ptr<mdf::MdfReader> Open() const {
    if (mem) return std::make_unique<mdf::MdfReader>(std::static_pointer_cast<std::streambuf>(std::make_shared<MemBuf>(mem->Data())));
    return std::make_unique<mdf::MdfReader>(file);
  }
};

inline void GenBusLog(Rng& r, BusLog& b) {
  b.wtype = r.Pick({mdf::MdfWriterType::MdfBusLogger, mdf::MdfWriterType::MdfBusLogger, mdf::MdfWriterType::Mdf4Basic, mdf::MdfWriterType::MdfConverter});
  b.storage = r.Pick({mdf::MdfStorageType::FixedLengthStorage, mdf::MdfStorageType::VlsdStorage, mdf::MdfStorageType::MlsdStorage});
  b.max_len = r.Pick({0u, 1u, 5u, 8u, 8u, 9u, 12u, 64u, 64u});
  b.mandatory = r.Chance(0.4);
  b.compress = r.Chance(0.4);
  b.periodic = r.Chance(0.6);
  b.by_dg = r.Chance(0.6);
  b.to_stream = r.Chance(0.5);
  if (r.Chance(0.3)) { b.flush_ms = 1; b.pause_every = static_cast<unsigned>(r.Range(3, 20)); }
  b.start = 1600000000000000000ULL + r.Below(200000000000000000ULL);
}

inline mdf::IChannelGroup* FindGroup(const mdf::IDataGroup& dg, const std::string& name) {
  for (auto* cg : dg.ChannelGroups()) if (cg && cg->Name() == name) return cg;
  return nullptr;
}

// called with every finished log, if set
inline std::function<void(const BusLog&, const BusFile&)>& BusHook() { static std::function<void(const BusLog&, const BusFile&)> f; return f; }

// called before the writer is created and after InitMeasurement, if set
inline std::function<void(BusLog&, const BusFile&)>& BusBeginHook() { static std::function<void(BusLog&, const BusFile&)> f; return f; }
inline std::function<void()>& BusInitHook() { static std::function<void()> f; return f; }

inline std::string WriteBus(BusLog& b, BusFile& out) {
  if (BusBeginHook()) BusBeginHook()(b, out);
  auto w = mdf::MdfFactory::CreateMdfWriter(b.wtype);
  if (!w) return "no writer";
  if (b.to_stream) { out.mem = std::make_shared<MemBuf>(); if (!w->Init(std::static_pointer_cast<std::streambuf>(out.mem))) return "Init"; }
  else if (!w->Init(out.file)) return "Init";
  w->StorageType(b.storage);
  w->MaxLength(b.max_len);
  w->MandatoryMembersOnly(b.mandatory);
  w->CompressData(b.compress);
  w->SavePeriodic(b.periodic);
  w->PreTrigTime(0);
  if (!b.config(*w)) return "configuration failed";
  SetFlushPeriod(b.flush_ms);
  const auto dgs = w->Header()->DataGroups();
  if (!w->InitMeasurement()) return "InitMeasurement";
  if (BusInitHook()) BusInitHook()();
  w->StartMeasurement(b.start);
  uint64_t last = b.start;
  size_t n = 0;
  for (auto& m : b.msg) {
    if (m.dg >= dgs.size()) return "no data group";
    auto* cg = FindGroup(*dgs[m.dg], m.group);
    if (!cg) return "no group " + m.group;
    m.save(*w, *dgs[m.dg], *cg, m.ts, b.by_dg);
    last = std::max(last, m.ts);
    if (b.pause_every && ++n % b.pause_every == 0) std::this_thread::sleep_for(std::chrono::microseconds(1500));
  }
  w->StopMeasurement(last + 1000);
  if (!w->FinalizeMeasurement()) return "FinalizeMeasurement";
  w.reset();
  if (BusHook()) BusHook()(b, out);
  return {};
}

// Every member channel of every group against the messages saved into it.
inline void CompareBus(Ctx& ctx, const BusLog& b, const BusFile& f) {
  auto rd = f.Open();
  if (!rd->ReadEverythingButData()) { ctx.Viol("read-failed", "ReadEverythingButData"); return; }
  size_t d = 0;
  for (auto* dg : rd->GetHeader()->DataGroups()) {
    struct Job { mdf::IChannelGroup* cg; std::vector<const BusMsg*> msg; std::map<std::string, mdf::ChannelObserverPtr> obs; mdf::ChannelObserverPtr master; };
    std::vector<Job> jobs;
    std::map<std::string, size_t> idx;
    for (auto* cg : dg->ChannelGroups()) {
      if (cg->Flags() & mdf::CgFlag::VlsdChannel) continue;
      idx[cg->Name()] = jobs.size();
      const auto kind = [](const std::string& n) {
        for (auto& [p, t] : {std::pair{"CAN", mdf::BusType::Can}, {"LIN", mdf::BusType::Lin}, {"ETH", mdf::BusType::Ethernet}, {"MOST", mdf::BusType::Most}, {"FLX", mdf::BusType::FlexRay}}) if (n.rfind(p, 0) == 0) return t;
        return mdf::BusType::None;
      }(cg->Name());
      // a reader finds the messages of a bus by the group's event flag and bus
      if (kind != mdf::BusType::None && !(cg->Flags() & mdf::CgFlag::BusEvent)) ctx.Viol("group not marked as bus events", cg->Name());
      if (kind != mdf::BusType::None && cg->GetBusType() != kind) ctx.Viol("bus of group", cg->Name() + " " + std::to_string(static_cast<int>(cg->GetBusType())));
      ctx.Count("bus_groups_identified");
      Job j;
      j.cg = cg;
      for (auto* cn : cg->Channels()) {
        if (cn->Type() == ChannelType::Master) j.master = mdf::CreateChannelObserver(*dg, *cg, *cn);
        else j.obs[cn->Name()] = mdf::CreateChannelObserver(*dg, *cg, *cn);
      }
      jobs.push_back(std::move(j));
    }
    for (auto& m : b.msg) {
      if (m.dg != d) continue;
      auto it = idx.find(m.group);
      if (it == idx.end()) { ctx.Viol("group-missing", m.group); continue; }
      jobs[it->second].msg.push_back(&m);
    }
    if (!rd->ReadData(*dg)) { ctx.Viol("read-failed", "ReadData"); return; }
    for (auto& j : jobs) {
      ctx.Count("groups");
      if (j.cg->NofSamples() != j.msg.size()) ctx.Viol("message-count", j.cg->Name() + " has " + std::to_string(j.cg->NofSamples()) + " want " + std::to_string(j.msg.size()));
      if (!j.master) { ctx.Viol("no-master", j.cg->Name()); continue; }
      for (size_t i = 0; i < j.msg.size() && i < j.cg->NofSamples(); ++i) {
        const auto& m = *j.msg[i];
        double t = 0;
        const double want = static_cast<double>(m.ts - b.start) / 1e9;
        if (!j.master->GetEngValue(i, t) || !TimeClose(t, want, 0)) ctx.Viol("time", m.group + " message " + std::to_string(i) + " at " + std::to_string(t) + " want " + std::to_string(want));
        for (auto& [name, v] : m.f) {
          auto it = j.obs.find(name);
          if (it == j.obs.end() || !it->second) { ctx.Viol("member-missing:" + name, "mandatory=" + std::to_string(b.mandatory)); continue; }
          Val g;
          g.k = v.k;
          bool ok = false;
          if (v.k == VK::U) ok = it->second->GetChannelValue(i, g.u);
          else if (v.k == VK::I) ok = it->second->GetChannelValue(i, g.i);
          else if (v.k == VK::D) ok = it->second->GetChannelValue(i, g.d);
          else if (v.k == VK::B) ok = it->second->GetChannelValue(i, g.b);
          ctx.Count("member_values");
          if (!ok) ctx.Viol("member-invalid:" + name, "message " + std::to_string(i));
          else if (!SameVal(g, v)) ctx.Viol("member:" + name, "storage " + std::to_string(static_cast<int>(b.storage)) + " mandatory " + std::to_string(b.mandatory) + " maxlen " + std::to_string(b.max_len) + " message " + std::to_string(i) + "/" + std::to_string(j.msg.size()) + " got " + Str(g) + " want " + Str(v));
        }
      }
    }
    ++d;
  }
}
inline std::string DescribeBus(const BusLog& b) {
  std::map<std::string, int> n;
  for (auto& m : b.msg) n[std::to_string(m.dg) + m.group]++;
  std::ostringstream o;
  o << "w" << static_cast<int>(b.wtype) << " st" << static_cast<int>(b.storage) << " len" << b.max_len << " mand" << b.mandatory << " comp" << b.compress << " per" << b.periodic << " strm" << b.to_stream << " fl" << b.flush_ms;
  for (auto& x : n) o << " " << x.first << ":" << x.second;
  return o.str();
}
}  // namespace vh
