// Scenario model: what the application hands to the library (reference log),
// writing it through MdfWriter, reading everything back through MdfReader.
#pragma once
#include <algorithm>
#include <array>
#include <iomanip>
#include <optional>

#include "common.h"
#include "mdf/ichannel.h"
#include "mdf/ichannelarray.h"
#include "mdf/ichannelconversion.h"
#include "mdf/ichannelgroup.h"
#include "mdf/ichannelobserver.h"
#include "mdf/idatagroup.h"
#include "mdf/iheader.h"
#include "mdf/mdffactory.h"
#include "mdf/mdffile.h"
#include "mdf/mdfreader.h"
#include "mdf/mdfwriter.h"
#include "mdf/mdfhelper.h"

namespace vh {
using mdf::ChannelDataType;
using mdf::ChannelType;

// ---------------------------------------------------------------- values
enum class VK { U, I, D, S, B };
struct Val {
  VK k = VK::U;
  uint64_t u = 0;
  int64_t i = 0;
  double d = 0;
  std::string s;
  std::vector<uint8_t> b;
  bool valid = true;
};
inline Val ValU(uint64_t u) { Val v; v.k = VK::U; v.u = u; return v; }
inline Val ValI(int64_t i) { Val v; v.k = VK::I; v.i = i; return v; }
inline Val ValD(double d) { Val v; v.k = VK::D; v.d = d; return v; }
inline Val ValS(std::string s) { Val v; v.k = VK::S; v.s = std::move(s); return v; }
inline Val ValB(std::vector<uint8_t> b) { Val v; v.k = VK::B; v.b = std::move(b); return v; }

inline bool SameDouble(double a, double b) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  return std::memcmp(&a, &b, sizeof a) == 0;
}
inline bool SameVal(const Val& a, const Val& b) {
  if (a.k != b.k) return false;
  switch (a.k) {
    case VK::U: return a.u == b.u;
    case VK::I: return a.i == b.i;
    case VK::D: return SameDouble(a.d, b.d);
    case VK::S: return a.s == b.s;
    case VK::B: return a.b == b.b;
  }
  return false;
}
inline std::string Str(const Val& v) {
  std::ostringstream o;
  if (!v.valid) o << "!";
  switch (v.k) {
    case VK::U: o << "u" << v.u; break;
    case VK::I: o << "i" << v.i; break;
    case VK::D: o << "d" << std::setprecision(17) << v.d; break;
    case VK::S: o << "s'" << v.s.substr(0, 40) << "'(" << v.s.size() << ")"; break;
    case VK::B: o << "b" << Hex(v.b.data(), v.b.size()) << "(" << v.b.size() << ")"; break;
  }
  return o.str();
}

// ---------------------------------------------------------------- specs
struct ChSpec {
  std::string name, unit, desc;
  ChannelType type = ChannelType::FixedLength;
  ChannelDataType dt = ChannelDataType::UnsignedIntegerLe;
  uint32_t bytes = 4;
  bool inval = false;
  std::vector<uint64_t> dims;
  uint32_t vl_max = 200;  // longest variable length payload
  int entropy = 0;        // 0 random, 1 constant, 2 repetitive bytes
  double cc0 = 0, cc1 = 0;  // linear conversion on the master if cc1 != 0
  uint64_t Elems() const { uint64_t n = 1; for (auto d : dims) n *= d; return n; }
};
struct SampleSpec {
  uint64_t ts = 0;
  std::vector<std::vector<Val>> v;  // [channel][element]
};
struct CgSpec {
  std::string name, desc;
  std::vector<ChSpec> ch;
  int master = -1;
  std::vector<SampleSpec> samples;
};
struct DgSpec { std::vector<CgSpec> cg; std::string desc; };
struct Step { size_t dg, cg, idx; };
struct Scen {
  bool mdf3 = false;
  mdf::MdfWriterType wtype = mdf::MdfWriterType::Mdf4Basic;
  bool compress = false, periodic = true;
  std::vector<DgSpec> dg;
  std::vector<Step> order;
  size_t start_at = 0;   // StartMeasurement is called before order[start_at]
  uint64_t start = 0, stop = 0;
  double pretrig = 0;
  unsigned flush_ms = 10000;
  unsigned pause_every = 0, pause_us = 0;  // pauses of the producer
  bool save_by_dg = false;
};

inline bool IsInt(ChannelDataType t) { return t <= ChannelDataType::SignedIntegerBe; }
inline bool IsFloat(ChannelDataType t) { return t == ChannelDataType::FloatLe || t == ChannelDataType::FloatBe; }
inline bool IsUns(ChannelDataType t) { return t <= ChannelDataType::UnsignedIntegerBe; }
inline bool IsStr(ChannelDataType t) { return t >= ChannelDataType::StringAscii && t <= ChannelDataType::StringUTF16Be; }
inline bool IsBytes(ChannelDataType t) {
  return t == ChannelDataType::ByteArray || t == ChannelDataType::MimeSample || t == ChannelDataType::MimeStream;
}
inline bool IsCanOpen(ChannelDataType t) { return t == ChannelDataType::CanOpenDate || t == ChannelDataType::CanOpenTime; }

inline std::string Utf8(Rng& r, size_t max_bytes, bool ascii = false, bool bmp = false) {
  std::string s;
  auto put = [&](uint32_t c) {
    if (c < 0x80) s += static_cast<char>(c);
    else if (c < 0x800) { s += char(0xC0 | c >> 6); s += char(0x80 | (c & 63)); }
    else if (c < 0x10000) { s += char(0xE0 | c >> 12); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
    else { s += char(0xF0 | c >> 18); s += char(0x80 | (c >> 12 & 63)); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
  };
  const size_t target = max_bytes;
  while (s.size() < target) {
    const size_t left = target - s.size();
    const int k = ascii ? 0 : static_cast<int>(r.Below(6));
    if (k < 3 || left < 4) put(static_cast<uint32_t>(r.Range(0x20, 0x7e)));
    else if (k == 3) put(static_cast<uint32_t>(r.Range(0xA1, 0x7ff)));
    else if (k == 4 || bmp) {
      uint32_t c = static_cast<uint32_t>(r.Range(0x800, 0xfffd));
      if (c >= 0xd800 && c <= 0xdfff) c = 0x20ac;
      put(c);
    } else put(static_cast<uint32_t>(r.Range(0x10000, 0x10ffff)));
  }
  return s;
}

// Names, descriptions: no leading/trailing white space (the reader trims it).
inline std::string Word(Rng& r, size_t max_bytes, bool ascii = false) {
  std::string s = Utf8(r, max_bytes, ascii);
  while (!s.empty() && s.back() == ' ') s.pop_back();
  size_t i = 0; while (i < s.size() && s[i] == ' ') ++i;
  return s.substr(i);
}

inline Val GenVal(Rng& r, const ChSpec& c) {
  Val v;
  if (IsUns(c.dt)) {
    const uint32_t w = (c.bytes == 1 || c.bytes == 2 || c.bytes == 4) ? c.bytes * 8 : 64;
    const uint64_t mask = w == 64 ? ~0ULL : (1ULL << w) - 1;
    switch (r.Below(5)) {
      case 0: v = ValU(0); break;
      case 1: v = ValU(mask); break;
      case 2: v = ValU(1ULL << r.Below(w)); break;
      default: v = ValU(r.U64() & mask);
    }
  } else if (IsInt(c.dt)) {
    const uint32_t w = (c.bytes == 1 || c.bytes == 2 || c.bytes == 4) ? c.bytes * 8 : 64;
    int64_t x;
    switch (r.Below(6)) {
      case 0: x = 0; break;
      case 1: x = -1; break;
      case 2: x = static_cast<int64_t>(1ULL << 63) >> (64 - w); break;
      case 3: x = static_cast<int64_t>(~0ULL >> 1) >> (64 - w); break;
      default: x = static_cast<int64_t>(r.U64()) >> (64 - w);
    }
    v = ValI(x);
  } else if (IsFloat(c.dt)) {
    double d;
    if (c.bytes == 4) {
      uint32_t bits = static_cast<uint32_t>(r.U64());
      float f;
      memcpy(&f, &bits, 4);
      switch (r.Below(8)) {
        case 0: f = 0; break; case 1: f = -0.0f; break; case 2: f = INFINITY; break;
        case 3: f = 1.17549435e-38f / 8; break; case 4: f = static_cast<float>(r.Unit()); break;
        default: break;
      }
      if (std::isnan(f)) f = NAN;
      d = f;
    } else {
      uint64_t bits = r.U64();
      memcpy(&d, &bits, 8);
      switch (r.Below(8)) {
        case 0: d = 0; break; case 1: d = -0.0; break; case 2: d = -INFINITY; break;
        case 3: d = 5e-324; break; case 4: d = r.Unit() * 1e6; break; case 5: d = static_cast<double>(r.Range(-1000, 1000)); break;
        default: break;
      }
      if (std::isnan(d)) d = NAN;
    }
    v = ValD(d);
  } else if (IsStr(c.dt)) {
    size_t maxb = c.bytes == 0 || c.type == ChannelType::VariableLength ? r.Tail(c.vl_max) : r.Below(c.bytes);
    const bool u16 = c.dt == ChannelDataType::StringUTF16Le || c.dt == ChannelDataType::StringUTF16Be;
    if (u16 && c.type != ChannelType::VariableLength && c.bytes != 0) maxb = c.bytes >= 2 ? r.Below((c.bytes - 2) / 2 + 1) : 0;
    v = ValS(Utf8(r, maxb, c.dt == ChannelDataType::StringAscii));
  } else if (IsBytes(c.dt)) {
    size_t n = c.bytes == 0 || c.type == ChannelType::VariableLength ? r.Tail(c.vl_max) : c.bytes;
    std::vector<uint8_t> b(n);
    if (c.entropy == 0) {
      size_t i = 0;
      for (; i + 8 <= n; i += 8) { const uint64_t x = r.U64(); memcpy(&b[i], &x, 8); }
      for (; i < n; ++i) b[i] = static_cast<uint8_t>(r.U64());
    } else {
      const auto base = static_cast<uint8_t>(r.U64());
      for (size_t i = 0; i < n; ++i) b[i] = c.entropy == 1 ? base : static_cast<uint8_t>(base + (i % 16));
    }
    v = ValB(b);
  } else if (c.dt == ChannelDataType::CanOpenDate || c.dt == ChannelDataType::CanOpenTime) {
    // 1984-01-01 .. 2083-12-31, whole ms
    v = ValU((441763200000ULL + r.Below(3155673600000ULL)) * 1000000ULL);
  }
  if (c.inval) v.valid = !r.Chance(0.25);
  return v;
}

// Expected value after storage (what a reader must see)
inline Val Expected(const ChSpec&, const Val& v) { return v; }

// ---------------------------------------------------------------- writing
struct Handles {
  std::vector<mdf::IDataGroup*> dg;
  std::vector<std::vector<mdf::IChannelGroup*>> cg;
  std::vector<std::vector<std::vector<mdf::IChannel*>>> ch;
};

inline void SetVal(mdf::IChannel& c, const Val& v, uint64_t elem = 0) {
  switch (v.k) {
    case VK::U: c.SetChannelValue(v.u, v.valid, elem); break;
    case VK::I: c.SetChannelValue(v.i, v.valid, elem); break;
    case VK::D: c.SetChannelValue(v.d, v.valid, elem); break;
    case VK::S: c.SetChannelValue(v.s, v.valid, elem); break;
    case VK::B: c.SetChannelValue(v.b, v.valid, elem); break;
  }
}

inline bool CreateGroups(mdf::MdfWriter& w, const Scen& s, Handles& h) {
  for (const auto& d : s.dg) {
    auto* dg = w.CreateDataGroup();
    if (!dg) return false;
    if (!d.desc.empty()) dg->Description(d.desc);
    h.dg.push_back(dg);
    h.cg.emplace_back();
    h.ch.emplace_back();
    for (const auto& g : d.cg) {
      auto* cg = mdf::MdfWriter::CreateChannelGroup(dg);
      if (!cg) return false;
      cg->Name(g.name);
      cg->Description(g.desc);
      h.cg.back().push_back(cg);
      h.ch.back().emplace_back();
      for (const auto& c : g.ch) {
        auto* cn = mdf::MdfWriter::CreateChannel(cg);
        if (!cn) return false;
        cn->Name(c.name);
        if (!c.desc.empty()) cn->Description(c.desc);
        cn->Unit(c.unit);
        cn->Type(c.type);
        if (c.type == ChannelType::Master) cn->Sync(mdf::ChannelSyncType::Time);
        cn->DataType(c.dt);
        cn->DataBytes(c.bytes);
        if (c.inval) cn->Flags(mdf::CnFlag::InvalidValid);
        if (!c.dims.empty()) {
          auto* ca = cn->CreateChannelArray();
          if (!ca) return false;
          ca->Shape(c.dims);
        }
        if (c.cc1 != 0) {
          auto* cc = cn->CreateChannelConversion();
          if (!cc) return false;
          cc->Type(mdf::ConversionType::Linear);
          cc->Parameter(0, c.cc0);
          cc->Parameter(1, c.cc1);
        }
        h.ch.back().back().push_back(cn);
      }
    }
  }
  return true;
}

inline void SaveStep(mdf::MdfWriter& w, const Scen& s, Handles& h, const Step& st) {
  const auto& g = s.dg[st.dg].cg[st.cg];
  const auto& smp = g.samples[st.idx];
  for (size_t c = 0; c < g.ch.size(); ++c) {
    if (g.ch[c].type == ChannelType::Master) continue;
    for (size_t e = 0; e < smp.v[c].size(); ++e) SetVal(*h.ch[st.dg][st.cg][c], smp.v[c][e], e);
  }
  if (s.save_by_dg) w.SaveSample(*h.dg[st.dg], *h.cg[st.dg][st.cg], smp.ts);
  else w.SaveSample(*h.cg[st.dg][st.cg], smp.ts);
}

// Runs a complete measurement on an initialised writer. Returns an error text.
inline std::string RunMeasurement(mdf::MdfWriter& w, const Scen& s, Handles& h) {
  w.CompressData(s.compress);
  w.SavePeriodic(s.periodic);
  w.PreTrigTime(s.pretrig);
  if (h.dg.empty() && !s.dg.empty() && !CreateGroups(w, s, h)) return "CreateGroups failed";
  SetFlushPeriod(s.flush_ms);
  if (!w.InitMeasurement()) return "InitMeasurement failed";
  if (s.order.empty() || s.start_at == 0) w.StartMeasurement(s.start);
  for (size_t i = 0; i < s.order.size(); ++i) {
    if (i == s.start_at && i > 0) w.StartMeasurement(s.start);
    SaveStep(w, s, h, s.order[i]);
    if (s.pause_every && i % s.pause_every == s.pause_every - 1)
      std::this_thread::sleep_for(std::chrono::microseconds(s.pause_us));
  }
  if (s.start_at > 0 && s.start_at >= s.order.size() && !s.order.empty()) w.StartMeasurement(s.start);
  w.StopMeasurement(s.stop);
  if (!w.FinalizeMeasurement()) return "FinalizeMeasurement failed";
  return {};
}

inline std::string WriteScen(const Scen& s, const std::string& file) {
  auto w = mdf::MdfFactory::CreateMdfWriter(s.mdf3 ? mdf::MdfWriterType::Mdf3Basic : s.wtype);
  if (!w) return "no writer";
  if (!w->Init(file)) return "Init failed";
  Handles h;
  return RunMeasurement(*w, s, h);
}
inline std::string WriteScen(const Scen& s, std::shared_ptr<std::streambuf> buf) {
  auto w = mdf::MdfFactory::CreateMdfWriter(s.mdf3 ? mdf::MdfWriterType::Mdf3Basic : s.wtype);
  if (!w) return "no writer";
  if (!w->Init(buf)) return "Init failed";
  Handles h;
  return RunMeasurement(*w, s, h);
}

// ---------------------------------------------------------------- reading
struct RCh {
  std::string name, unit, desc;
  ChannelType type{};
  ChannelDataType dt{};
  uint32_t bits = 0;
  std::vector<uint64_t> shape;
  bool has_cc = false;
  std::vector<std::vector<Val>> v;   // [sample][element]
  std::vector<double> eng;           // master only
};
struct RCg { std::string name, desc; uint64_t nof = 0; uint64_t rec_id = 0; std::vector<RCh> ch; bool vlsd = false; };
struct RDg { std::vector<RCg> cg; std::string desc; };
struct Content {
  bool ok = false, finalized = false;
  std::string err;
  std::vector<RDg> dg;
};

inline Val GetObs(const mdf::IChannelObserver& o, ChannelDataType dt, uint64_t sample, uint64_t elem = 0) {
  Val v;
  if (IsUns(dt) || IsCanOpen(dt)) { v.k = VK::U; v.valid = o.GetChannelValue(sample, v.u, elem); }
  else if (IsInt(dt)) { v.k = VK::I; v.valid = o.GetChannelValue(sample, v.i, elem); }
  else if (IsFloat(dt)) { v.k = VK::D; v.valid = o.GetChannelValue(sample, v.d, elem); }
  else if (IsStr(dt)) { v.k = VK::S; v.valid = o.GetChannelValue(sample, v.s, elem); }
  else if (IsBytes(dt)) { v.k = VK::B; v.valid = o.GetChannelValue(sample, v.b, elem); }
  else v.valid = false;
  return v;
}

inline void Collect(const mdf::IChannelGroup& cg, mdf::IChannel& cn, const mdf::IChannelObserver& o, RCh& r) {
  r.name = cn.Name(); r.unit = cn.Unit(); r.desc = cn.Description();
  r.type = cn.Type(); r.dt = cn.DataType(); r.bits = cn.BitCount();
  for (auto* a : cn.ChannelArrays()) if (a) for (auto d : a->Shape()) r.shape.push_back(d);
  r.has_cc = cn.ChannelConversion() != nullptr;
  const uint64_t n = o.NofSamples(), e = cn.ArraySize();
  r.v.resize(n);
  for (uint64_t s = 0; s < n; ++s) {
    r.v[s].reserve(e);
    for (uint64_t x = 0; x < e; ++x) r.v[s].push_back(GetObs(o, r.dt, s, x));
  }
  if (r.type == ChannelType::Master || r.type == ChannelType::VirtualMaster) {
    r.eng.resize(n);
    for (uint64_t s = 0; s < n; ++s) { double d = 0; o.GetEngValue(s, d); r.eng[s] = d; }
  }
}

inline Content ReadContent(mdf::MdfReader& reader) {
  Content c;
  if (!reader.IsOk()) { c.err = "reader not ok"; return c; }
  if (!reader.ReadEverythingButData()) { c.err = "ReadEverythingButData failed"; return c; }
  c.finalized = reader.IsFinalized();
  const auto* hd = reader.GetHeader();
  if (!hd) { c.err = "no header"; return c; }
  for (auto* dg : hd->DataGroups()) {
    if (!dg) { c.err = "null DG"; return c; }
    RDg rd;
    rd.desc = dg->Description();
    std::vector<std::vector<mdf::ChannelObserverPtr>> obs;
    for (auto* cg : dg->ChannelGroups()) {
      obs.emplace_back();
      for (auto* cn : cg->Channels()) obs.back().push_back(mdf::CreateChannelObserver(*dg, *cg, *cn));
    }
    if (!reader.ReadData(*dg)) { c.err = "ReadData failed"; return c; }
    size_t gi = 0;
    for (auto* cg : dg->ChannelGroups()) {
      RCg rc;
      rc.name = cg->Name(); rc.desc = cg->Description(); rc.nof = cg->NofSamples(); rc.rec_id = cg->RecordId();
      rc.vlsd = (cg->Flags() & mdf::CgFlag::VlsdChannel) != 0;
      size_t ci = 0;
      for (auto* cn : cg->Channels()) {
        rc.ch.emplace_back();
        auto& o = obs[gi][ci++];
        if (!o) { c.err = "null observer"; return c; }
        Collect(*cg, *cn, *o, rc.ch.back());
      }
      rd.cg.push_back(std::move(rc));
      ++gi;
    }
    obs.clear();
    dg->ClearData();
    c.dg.push_back(std::move(rd));
  }
  c.ok = true;
  return c;
}
inline Content ReadContent(const std::string& file) {
  mdf::MdfReader reader(file);
  return ReadContent(reader);
}
inline Content ReadContent(const std::shared_ptr<std::streambuf>& buf) {
  mdf::MdfReader reader(buf);
  return ReadContent(reader);
}

// ---------------------------------------------------------------- comparing
inline bool TimeClose(double got, double want, double res) {
  return std::fabs(got - want) <= std::max(1.01e-9, std::fabs(want) * 4e-16 * 2) + res;
}
inline double MasterRes(const ChSpec& c, double want) {
  if (IsFloat(c.dt)) return c.bytes == 4 ? std::fabs(want) * 1.3e-7 : 0.0;
  return 0.501 * (c.cc1 != 0 ? std::fabs(c.cc1) : 1.0);  // nearest value of an integer master
}

// Compares the read groups (from dg offset `first`) with the reference.
inline void CompareScen(Ctx& ctx, const Scen& s, const Content& c, const std::string& pfx = "", size_t first = 0) {
  if (!c.ok) { ctx.Viol(pfx + "read-failed", c.err); return; }
  if (c.dg.size() < first + s.dg.size()) {
    ctx.Viol(pfx + "dg-count", "data groups " + std::to_string(c.dg.size()) + " want " + std::to_string(first + s.dg.size()));
    return;
  }
  for (size_t d = 0; d < s.dg.size(); ++d) {
    const auto& rd = c.dg[first + d];
    if (rd.cg.size() != s.dg[d].cg.size()) {
      ctx.Viol(pfx + "cg-count", "channel groups " + std::to_string(rd.cg.size()) + " want " + std::to_string(s.dg[d].cg.size()));
      continue;
    }
    for (size_t g = 0; g < rd.cg.size(); ++g) {
      const auto& rg = rd.cg[g];
      const auto& sg = s.dg[d].cg[g];
      const std::string where = "dg" + std::to_string(d) + ".cg" + std::to_string(g);
      if (!s.mdf3 && rg.name != sg.name) ctx.Viol(pfx + "cg-name", where + " '" + rg.name + "' want '" + sg.name + "'");
      if (rg.nof != sg.samples.size())
        ctx.Viol(pfx + "sample-count", where + " samples " + std::to_string(rg.nof) + " want " + std::to_string(sg.samples.size()));
      if (rg.ch.size() != sg.ch.size()) {
        ctx.Viol(pfx + "cn-count", where + " channels " + std::to_string(rg.ch.size()) + " want " + std::to_string(sg.ch.size()));
        continue;
      }
      for (size_t n = 0; n < rg.ch.size(); ++n) {
        const auto& rc = rg.ch[n];
        const auto& sc = sg.ch[n];
        const std::string w2 = where + "." + sc.name + "[dt" + std::to_string(static_cast<int>(sc.dt)) + " b" + std::to_string(sc.bytes) + "]";
        if (rc.name != sc.name) ctx.Viol(pfx + "cn-name", w2 + " got '" + rc.name + "'");
        if (rc.unit != sc.unit) ctx.Viol(pfx + "cn-unit", w2 + " got '" + rc.unit + "' want '" + sc.unit + "'");
        if (!s.mdf3 && rc.desc != sc.desc) ctx.Viol(pfx + "cn-desc", w2 + " got '" + rc.desc + "' want '" + sc.desc + "'");
        if (rc.dt != sc.dt) { ctx.Viol(pfx + "cn-dtype", w2 + " got " + std::to_string(static_cast<int>(rc.dt))); continue; }
        if (rc.shape != sc.dims) ctx.Viol(pfx + "cn-shape", w2);
        const size_t m = std::min(rc.v.size(), sg.samples.size());
        for (size_t i = 0; i < m; ++i) {
          const auto& smp = sg.samples[i];
          if (sc.type == ChannelType::Master) {
            const double want = static_cast<double>(static_cast<int64_t>(smp.ts - s.start)) / 1e9;
            if (!TimeClose(rc.eng[i], want, MasterRes(sc, want))) {
              ctx.Viol(pfx + "master-time", w2 + " sample " + std::to_string(i) + " got " + std::to_string(rc.eng[i]) + " want " + std::to_string(want));
            }
            ctx.Count("master_times");
            continue;
          }
          if (rc.v[i].size() != smp.v[n].size()) {
            ctx.Viol(pfx + "array-size", w2 + " elements " + std::to_string(rc.v[i].size()) + " want " + std::to_string(smp.v[n].size()));
            break;
          }
          for (size_t e = 0; e < smp.v[n].size(); ++e) {
            const Val want = Expected(sc, smp.v[n][e]);
            const Val& got = rc.v[i][e];
            ctx.Count("values_compared");
            if (got.valid != want.valid) {
              ctx.Viol(pfx + "validity", w2 + " sample " + std::to_string(i) + "/" + std::to_string(m) + " elem " + std::to_string(e) + " got " + Str(got) + " want " + Str(want));
            } else if (want.valid && !SameVal(got, want)) {
              ctx.Viol(pfx + "value", w2 + " sample " + std::to_string(i) + "/" + std::to_string(m) + " elem " + std::to_string(e) + " got " + Str(got) + " want " + Str(want));
            }
          }
        }
      }
    }
  }
}

// Compares two read results (layout-level identity as seen by a user).
inline std::string DiffContent(const Content& a, const Content& b, size_t upto_dg = SIZE_MAX, bool times = true) {
  if (a.ok != b.ok) return "ok differs: " + a.err + " / " + b.err;
  if (!a.ok) return {};
  const size_t nd = std::min(a.dg.size(), upto_dg);
  if (b.dg.size() < nd || (upto_dg == SIZE_MAX && a.dg.size() != b.dg.size()))
    return "dg count " + std::to_string(a.dg.size()) + " vs " + std::to_string(b.dg.size());
  for (size_t d = 0; d < nd; ++d) {
    if (a.dg[d].cg.size() != b.dg[d].cg.size()) return "cg count in dg " + std::to_string(d);
    for (size_t g = 0; g < a.dg[d].cg.size(); ++g) {
      const auto& x = a.dg[d].cg[g];
      const auto& y = b.dg[d].cg[g];
      const std::string w = "dg" + std::to_string(d) + ".cg" + std::to_string(g);
      if (x.name != y.name) return w + " name";
      if (x.desc != y.desc) return w + " description '" + x.desc + "' vs '" + y.desc + "'";
      if (x.nof != y.nof) return w + " sample count " + std::to_string(x.nof) + " vs " + std::to_string(y.nof);
      if (x.ch.size() != y.ch.size()) return w + " channel count";
      for (size_t n = 0; n < x.ch.size(); ++n) {
        const auto& p = x.ch[n];
        const auto& q = y.ch[n];
        const std::string w2 = w + "." + p.name;
        if (p.name != q.name || p.unit != q.unit || p.desc != q.desc) return w2 + " channel text";
        if (p.dt != q.dt || p.type != q.type || p.bits != q.bits || p.shape != q.shape) return w2 + " channel type";
        if (p.v.size() != q.v.size()) return w2 + " value count";
        const bool vl = p.type == ChannelType::VariableLength;
        (void)vl;
        for (size_t i = 0; i < p.v.size(); ++i) {
          if (p.type == ChannelType::Master && times) {
            if (!TimeClose(p.eng[i], q.eng[i], 0)) return w2 + " time of sample " + std::to_string(i) + ": " + std::to_string(p.eng[i]) + " vs " + std::to_string(q.eng[i]) + " " + Str(p.v[i][0]) + " vs " + Str(q.v[i][0]);
          }
          if (p.v[i].size() != q.v[i].size()) return w2 + " elements";
          for (size_t e = 0; e < p.v[i].size(); ++e) {
            if (p.v[i][e].valid != q.v[i][e].valid) return w2 + " validity of sample " + std::to_string(i) + ": " + Str(p.v[i][e]) + " vs " + Str(q.v[i][e]);
            if (p.v[i][e].valid && !SameVal(p.v[i][e], q.v[i][e]))
              return w2 + " sample " + std::to_string(i) + ": " + Str(p.v[i][e]) + " vs " + Str(q.v[i][e]);
          }
        }
      }
    }
  }
  return {};
}

// ---------------------------------------------------------------- generating
struct GenOpt {
  bool mdf3 = false;
  size_t max_dg = 3, max_cg = 4, max_ch = 8, max_samples = 60, min_samples = 0;
  bool vlsd = true, arrays = false, inval = true, utf16 = true;
  bool multi_cg = true;
};

inline ChSpec GenChannel(Rng& r, const GenOpt& o, size_t n) {
  ChSpec c;
  c.name = "Ch" + std::to_string(n);
  if (r.Chance(0.3)) c.name += "_" + Word(r, r.Below(12), o.mdf3);
  if (r.Chance(0.4)) c.unit = o.mdf3 ? "V" : r.Pick<std::string>({"V", "km/h", "\xC2\xB0" "C", "%", "\xCE\xA9", "<&\"'>"});
  if (!o.mdf3 && r.Chance(0.3)) c.desc = "desc." + Word(r, r.Below(30));
  static const std::vector<ChannelDataType> num = {
      ChannelDataType::UnsignedIntegerLe, ChannelDataType::UnsignedIntegerBe, ChannelDataType::SignedIntegerLe,
      ChannelDataType::SignedIntegerBe, ChannelDataType::FloatLe, ChannelDataType::FloatBe};
  const int k = static_cast<int>(r.Below(10));
  if (k < 7) {
    c.dt = r.Pick(num);
    c.bytes = IsFloat(c.dt) ? r.Pick({4u, 8u}) : r.Pick({1u, 2u, 4u, 8u});
    if (!o.mdf3 && !IsFloat(c.dt) && r.Chance(0.05)) c.bytes = r.Pick({3u, 5u, 6u, 7u});
  } else if (k < 9) {
    std::vector<ChannelDataType> st = {ChannelDataType::StringAscii};
    if (!o.mdf3) {
      st.push_back(ChannelDataType::StringUTF8);
      if (o.utf16) { st.push_back(ChannelDataType::StringUTF16Le); st.push_back(ChannelDataType::StringUTF16Be); }
      st.push_back(ChannelDataType::MimeSample); st.push_back(ChannelDataType::MimeStream);
    }
    st.push_back(ChannelDataType::ByteArray); st.push_back(ChannelDataType::ByteArray);
    c.dt = r.Pick(st);
    c.bytes = static_cast<uint32_t>(r.Range(1, 40));
    if (c.dt == ChannelDataType::StringUTF16Le || c.dt == ChannelDataType::StringUTF16Be) c.bytes = c.bytes * 2;
    if (o.vlsd && !o.mdf3 && r.Chance(0.3)) { c.type = ChannelType::VariableLength; c.bytes = r.Pick({0u, 8u}); }
  } else {
    if (o.mdf3) { c.dt = ChannelDataType::UnsignedIntegerLe; c.bytes = 2; }
    else { c.dt = r.Pick({ChannelDataType::CanOpenDate, ChannelDataType::CanOpenTime}); c.bytes = c.dt == ChannelDataType::CanOpenDate ? 7 : 6; }
  }
  if (o.inval && !o.mdf3 && r.Chance(0.3)) c.inval = true;
  if (o.arrays && !o.mdf3 && k < 7 && r.Chance(0.3)) {
    const size_t nd = r.Range(1, 3);
    for (size_t i = 0; i < nd; ++i) c.dims.push_back(static_cast<uint64_t>(r.Range(1, 4)));
  }
  return c;
}

inline CgSpec GenGroup(Rng& r, const GenOpt& o, size_t idx) {
  CgSpec g;
  g.name = "Group" + std::to_string(idx);
  if (r.Chance(0.3)) g.name += Word(r, r.Below(10), o.mdf3);
  if (r.Chance(0.3)) g.desc = "d" + Word(r, r.Below(20), o.mdf3);
  if (o.mdf3) g.desc = g.name;
  const size_t n = r.Range(1, static_cast<int64_t>(o.max_ch));
  const bool master = !r.Chance(0.1);
  const size_t mpos = master && r.Chance(0.2) ? r.Below(n + 1) : 0;
  for (size_t i = 0; i < n; ++i) g.ch.push_back(GenChannel(r, o, i));
  if (n > 1 && o.max_ch >= 4 && r.Chance(0.01)) {   // the next channel starts around 8192 bytes into the record (MDF 3 splits offsets there)
    uint32_t sum = master && mpos == 0 ? 8 : 0;
    const size_t at = r.Below(n - 1);
    bool fixed = true;
    for (size_t i = 0; i < at; ++i) { sum += g.ch[i].bytes; fixed = fixed && g.ch[i].dims.empty() && g.ch[i].type != ChannelType::VariableLength; }
    if (fixed && sum < 8000) {
      uint32_t need = static_cast<uint32_t>(8192 * r.Range(1, 3) + r.Range(-2, 2)) - sum;
      for (size_t i = 0; need > 0; ++i) {     // an MDF 3 channel has at most 8191 bytes
        ChSpec c; c.name = "Fill" + std::to_string(i); c.dt = ChannelDataType::ByteArray; c.bytes = std::min(need, 7000u); need -= c.bytes;
        g.ch.insert(g.ch.begin() + static_cast<long>(at + i), c);
      }
    }
  }
  if (master) {
    ChSpec m;
    m.name = "t" + std::to_string(idx);
    m.unit = "s";
    m.type = ChannelType::Master;
    const int k = static_cast<int>(r.Below(8));
    m.dt = k < 6 ? ChannelDataType::FloatLe : ChannelDataType::FloatBe;
    m.bytes = k == 5 ? 4 : 8;
    if (k == 7) {
      m.dt = r.Pick({ChannelDataType::SignedIntegerLe, ChannelDataType::SignedIntegerBe, ChannelDataType::UnsignedIntegerLe, ChannelDataType::UnsignedIntegerBe});
      m.bytes = 8; m.cc1 = r.Pick({1e-9, 1e-6, 1e-3}); m.cc0 = r.Chance(0.3) ? -1.5 : 0.0;
      if (IsUns(m.dt)) m.cc0 = 0;
    }
    g.ch.insert(g.ch.begin() + static_cast<long>(mpos), m);
    g.master = static_cast<int>(mpos);
  }
  return g;
}

inline void GenSamples(Rng& r, Scen& s, size_t total, uint64_t first_ts, bool jitter_equal = true) {
  uint64_t ts = first_ts;
  std::vector<std::pair<size_t, size_t>> groups;
  for (size_t d = 0; d < s.dg.size(); ++d)
    for (size_t g = 0; g < s.dg[d].cg.size(); ++g) groups.emplace_back(d, g);
  if (groups.empty()) return;
  const bool burst = r.Chance(0.3);
  size_t cur = 0;
  for (size_t i = 0; i < total; ++i) {
    if (!burst || r.Chance(0.1)) cur = r.Below(groups.size());
    auto [d, g] = groups[cur];
    auto& cg = s.dg[d].cg[g];
    SampleSpec sm;
    sm.ts = ts;
    for (const auto& c : cg.ch) {
      sm.v.emplace_back();
      if (c.type == ChannelType::Master) continue;
      for (uint64_t e = 0; e < c.Elems(); ++e) sm.v.back().push_back(GenVal(r, c));
    }
    s.order.push_back({d, g, cg.samples.size()});
    cg.samples.push_back(std::move(sm));
    if (!jitter_equal || !r.Chance(0.1)) ts += 1 + r.Tail(r.Chance(0.1) ? 4000000000ULL : 20000000ULL);
  }
  s.stop = ts + r.Below(1000000000);
}

inline Scen GenScen(Rng& r, const GenOpt& o) {
  Scen s;
  s.mdf3 = o.mdf3;
  const size_t nd = r.Chance(0.5) ? 1 : r.Range(1, static_cast<int64_t>(o.max_dg));
  for (size_t d = 0; d < nd; ++d) {
    DgSpec dg;
    size_t nc = r.Chance(0.5) || !o.multi_cg ? 1 : r.Range(1, static_cast<int64_t>(o.max_cg));
    if (o.max_cg > 200) nc = r.Pick<size_t>({254, 255, 256, 257, 258, static_cast<size_t>(r.Range(200, 300))});
    for (size_t c = 0; c < nc; ++c) dg.cg.push_back(GenGroup(r, o, d * 10 + c));
    if (!o.mdf3 && r.Chance(0.3)) dg.desc = "dg." + Word(r, r.Below(20));
    s.dg.push_back(std::move(dg));
  }
  s.compress = !o.mdf3 && r.Chance(0.4);
  s.periodic = r.Chance(0.6);
  s.save_by_dg = r.Chance(0.5);
  s.start = 1600000000000000000ULL + r.Below(200000000000000000ULL);
  GenSamples(r, s, std::max<size_t>(o.min_samples, r.Tail(o.max_samples)), s.start + r.Below(5000000));
  if (s.order.empty()) s.stop = s.start + 1;
  if (r.Chance(0.3)) { s.flush_ms = 1; s.pause_every = static_cast<unsigned>(r.Range(3, 20)); s.pause_us = 1500; }
  return s;
}

inline std::string Describe(const Scen& s) {
  std::ostringstream o;
  o << (s.mdf3 ? "mdf3" : "mdf4") << " comp=" << s.compress << " per=" << s.periodic << " flush=" << s.flush_ms;
  for (auto& d : s.dg) {
    o << " DG{";
    for (auto& g : d.cg) {
      o << "CG(" << g.samples.size() << "):";
      for (auto& c : g.ch) o << static_cast<int>(c.type) << "/" << static_cast<int>(c.dt) << "/" << c.bytes << (c.inval ? "!" : "") << (c.dims.empty() ? "" : "[]") << " ";
    }
    o << "}";
  }
  return o.str();
}
// One or two data groups with large records, several MB in all.
inline Scen BigScen(Ctx& ctx, const GenOpt& o, bool thorough) {
  Rng& r = ctx.rng;
  Scen s;
  // one or two groups with large records, several MB in all
  const size_t nd = r.Range(1, 2);
  s.start = 1700000000000000000ULL;
  for (size_t d = 0; d < nd; ++d) {
    DgSpec dg;
    const size_t nc = r.Range(1, 2);
    for (size_t g = 0; g < nc; ++g) {
      GenOpt so = o; so.max_ch = 3; so.vlsd = false;
      CgSpec cg = GenGroup(r, so, d * 10 + g);
      ChSpec c;
      c.name = "Big"; c.dt = ChannelDataType::ByteArray; c.entropy = static_cast<int>(r.Below(3));
      if (r.Chance(0.5)) c.bytes = static_cast<uint32_t>(r.Range(1000, 60000));
      else { c.type = ChannelType::VariableLength; c.bytes = 8; c.vl_max = r.Pick({1000u, 100000u, 3000000u}); }
      cg.ch.push_back(c);
      dg.cg.push_back(std::move(cg));
    }
    s.dg.push_back(std::move(dg));
  }
  // choose the number of samples so the volume is about 1..12 MB
  uint64_t per = 0; size_t ng = 0;
  for (auto& d : s.dg) for (auto& g : d.cg) { per += g.ch.back().type == ChannelType::VariableLength ? g.ch.back().vl_max / 8 : g.ch.back().bytes; ++ng; }
  const uint64_t vol = static_cast<uint64_t>(r.Range(1, thorough ? 20 : 10)) * 1000000;
  GenSamples(r, s, std::max<uint64_t>(3, std::min<uint64_t>(4000, vol * ng / std::max<uint64_t>(per, 1))), s.start + 5);
  // volumes at the 4 MB block limit: stretch or shrink the last payloads of a variable length channel
  for (size_t d = 0; d < s.dg.size(); ++d) for (auto& g : s.dg[d].cg) {
    const size_t k = g.ch.size() - 1;
    if (g.ch[k].type != ChannelType::VariableLength || g.samples.empty() || !r.Chance(0.6)) continue;
    const int64_t target = r.Pick({1, 1, 1, 2}) * 4000000LL + r.Range(-130, 130);
    int64_t sum = 0;
    for (auto& sm : g.samples) sum += 4 + static_cast<int64_t>(sm.v[k][0].b.size());
    // cut from the end, then pad the first one
    for (size_t i = g.samples.size(); i-- > 0 && sum > target;) {
      auto& b = g.samples[i].v[k][0].b;
      const int64_t cut = std::min<int64_t>(sum - target, static_cast<int64_t>(b.size()));
      b.resize(b.size() - static_cast<size_t>(cut)); sum -= cut;
    }
    if (sum < target) {
      auto& b = g.samples[0].v[k][0].b;
      const size_t old = b.size();
      b.resize(old + static_cast<size_t>(target - sum));
      for (size_t i = old; i < b.size(); ++i) b[i] = static_cast<uint8_t>(Mix(i >> 3) >> (i & 7));
    }
    ctx.Count("boundary_volumes");
  }
  if (r.Chance(0.3)) { s.flush_ms = 1; s.pause_every = 200; s.pause_us = 3000; }
  return s;
}

}  // namespace vh
