// Conversions: engineering values equal the documented formula or table lookup.
#include <limits>

#include "mdf/isampleobserver.h"
#include "membuf.h"
#include "scen.h"
#ifdef C10_AS_LIBRARY
#define kPropId kPropId10
#define RunCase RunCase10
#endif
namespace vh {
const char* kPropId = "C10";
// other drivers take the files written here through this hook
inline std::function<void(const std::string&)>& ConvFileHook() { static std::function<void(const std::string&)> h; return h; }
using CT = mdf::ConversionType;

struct Conv {
  CT kind = CT::NoConversion;
  std::vector<double> par;
  std::vector<std::string> ref;
  int decimals = -1;
  bool inverse = false;   // a linear inverse with parameters inv0, inv1
  double inv0 = 0, inv1 = 0;
  std::string name, unit;
};
struct Eng {
  bool skip = false, valid = true, text = false;
  double d = 0, tol = 0;
  std::string s;
};

// The reference: written from the documentation of ConversionType and the MDF
// format description, in long double where rounding matters.
static Eng Eval(const Conv& c, ChannelDataType dt, const Val& raw) {
  Eng e;
  if (raw.k == VK::S) {
    if (c.kind == CT::NoConversion) { e.text = true; e.s = raw.s; return e; }
    if (c.kind == CT::TextToValue) {
      size_t i = 0;
      while (i < c.ref.size() && c.ref[i] != raw.s) ++i;
      e.d = c.par[i];
      return e;
    }
    e.text = true;
    e.s = c.ref.back();
    for (size_t i = 0; i + 1 < c.ref.size(); i += 2) if (c.ref[i] == raw.s) { e.s = c.ref[i + 1]; break; }
    return e;
  }
  const double x = raw.k == VK::U ? static_cast<double>(raw.u) : raw.k == VK::I ? static_cast<double>(raw.i) : raw.d;
  const bool integer = IsInt(dt);
  const auto& p = c.par;
  auto quot = [&](std::vector<long double> a, std::vector<long double> b) {
    long double na = 0, nb = 0, sa = 0, sb = 0;
    for (auto v : a) { na += v; sa += fabsl(v); }
    for (auto v : b) { nb += v; sb += fabsl(v); }
    if (sb == 0) { e.valid = false; return; }
    for (auto v : a) if (v != 0 && fabsl(v) < 1e-290L) { e.skip = true; return; }
    for (auto v : b) if (v != 0 && fabsl(v) < 1e-290L) { e.skip = true; return; }
    if (fabsl(nb) < sb * 1e-9L || !std::isfinite(static_cast<double>(sa)) || !std::isfinite(static_cast<double>(sb))) { e.skip = true; return; }
    e.d = static_cast<double>(na / nb);
    e.tol = static_cast<double>(1e-12L * (sa / fabsl(nb)) * (sb / fabsl(nb)));
    if (!std::isfinite(e.d) || !std::isfinite(e.tol)) e.skip = true;
  };
  switch (c.kind) {
    case CT::NoConversion: e.d = x; break;
    case CT::Linear:
      if (p.size() == 1) e.d = p[0];
      else { e.d = p[0] + p[1] * x; e.tol = 1e-12 * (std::fabs(p[0]) + std::fabs(p[1] * x)); }
      break;
    case CT::Rational:
      if (std::fabs(x) > 1e140) { e.skip = true; break; }  // the square overflows
      quot({p[0] * static_cast<long double>(x) * x, p[1] * static_cast<long double>(x), p[2]}, {p[3] * static_cast<long double>(x) * x, p[4] * static_cast<long double>(x), p[5]});
      break;
    case CT::Polynomial: {
      const long double t = static_cast<long double>(x) - p[4] - p[5];
      const long double mag = fabsl(x) + fabsl(p[4]) + fabsl(p[5]);
      if (fabsl(t) < mag * 1e-3L && t != 0) { e.skip = true; break; }
      quot({p[1], -p[3] * t}, {p[2] * t, -static_cast<long double>(p[0])});
      break;
    }
    case CT::Exponential:
    case CT::Logarithmic: {
      auto f = [&](long double v) { return c.kind == CT::Logarithmic ? std::log(static_cast<double>(v)) : std::exp(static_cast<double>(v)); };
      long double arg, mag;
      double den;
      if (p[3] == 0) {
        if (p[0] == 0 || p[1] == 0) { e.valid = false; break; }
        arg = ((static_cast<long double>(x) - p[6]) * p[5] - p[2]) / p[0];
        mag = (fabsl(static_cast<long double>(x) * p[5]) + fabsl(p[6] * p[5]) + fabsl(p[2])) / fabsl(p[0]);
        den = p[1];
      } else if (p[0] == 0) {
        const long double t = static_cast<long double>(x) - p[6];
        if (t == 0 || p[4] == 0) { e.valid = false; break; }
        if (fabsl(t) < 1e-3L * fabsl(x)) { e.skip = true; break; }
        arg = (p[2] / t - p[5]) / p[3];
        mag = (fabsl(p[2] / t) + fabsl(p[5])) / fabsl(p[3]);
        den = p[4];
      } else { e.valid = false; break; }
      if (fabsl(arg) < mag * 1e-6L && arg != 0) { e.skip = true; break; }
      e.d = f(arg) / den;
      const double slope = c.kind == CT::Logarithmic ? 1 / std::fabs(static_cast<double>(arg)) : std::fabs(std::exp(static_cast<double>(arg)));
      e.tol = (1e-13 * static_cast<double>(mag) * slope + 1e-13) / std::fabs(den) + std::fabs(e.d) * 1e-12;
      if (!std::isfinite(e.tol)) e.tol = 0;
      if (std::isnan(e.d)) e.tol = 0;
      break;
    }
    case CT::ValueToValueInterpolation:
    case CT::ValueToValue: {
      const size_t n = p.size() / 2;
      size_t i = 0;
      while (i < n && x > p[2 * i]) ++i;
      if (i == n) e.d = p[2 * n - 1];
      else if (i == 0 || p[2 * i] == x) e.d = p[2 * i + 1];
      else {
        const long double lo = p[2 * i - 2], hi = p[2 * i];
        if (c.kind == CT::ValueToValue) {
          const long double a = x - lo, b = hi - x;
          if (a != b && fabsl(a - b) < 1e-9L * (hi - lo)) { e.skip = true; break; }
          e.d = a <= b ? p[2 * i - 1] : p[2 * i + 1];   // the smaller key wins a tie
        } else {
          e.d = static_cast<double>(p[2 * i - 1] + (x - lo) / (hi - lo) * (static_cast<long double>(p[2 * i + 1]) - p[2 * i - 1]));
          e.tol = 1e-11 * (std::fabs(p[2 * i + 1]) + std::fabs(p[2 * i - 1]));
        }
      }
      break;
    }
    case CT::ValueRangeToValue:
      e.d = p.back();
      for (size_t i = 0; i + 2 < p.size(); i += 3)
        if (x >= p[i] && (integer ? x <= p[i + 1] : x < p[i + 1])) { e.d = p[i + 2]; break; }
      break;
    case CT::ValueToText:
      e.text = true;
      e.s = c.ref.back();
      for (size_t i = 0; i < p.size(); ++i) if (x == p[i]) { e.s = c.ref[i]; break; }
      break;
    case CT::ValueRangeToText:
      e.text = true;
      e.s = c.ref.back();
      for (size_t i = 0; i + 1 < p.size(); i += 2)
        if (x >= p[i] && (integer ? x <= p[i + 1] : x < p[i + 1])) { e.s = c.ref[i / 2]; break; }
      break;
    default: e.skip = true;
  }
  return e;
}

static double Par(Rng& r) {
  switch (r.Below(5)) {
    case 0: return static_cast<double>(r.Range(-5, 5));
    case 1: return static_cast<double>(r.Range(-1000, 1000)) / 8;
    case 2: return (r.Unit() - 0.5) * 1e-6;
    case 3: return (r.Unit() - 0.5) * 1e9;
    default: return (r.Unit() - 0.5) * 20;
  }
}
static std::string Txt(Rng& r, size_t n) {
  if (r.Chance(0.05)) return {};
  std::string s = Word(r, r.Chance(0.05) ? r.Below(2000) : r.Below(24));
  if (r.Chance(0.4)) s = "state " + std::to_string(n) + " " + s;
  while (!s.empty() && s.back() == ' ') s.pop_back();
  return s;
}
static Conv GenConv(Rng& r, bool text, bool mdf3, bool integer) {
  Conv c;
  const size_t n = 1 + r.Tail(r.Chance(0.05) ? 2000 : 12);
  if (text) c.kind = r.Pick({CT::TextToValue, CT::TextToTranslation, CT::TextToValue, CT::TextToTranslation, CT::NoConversion});
  else if (mdf3) c.kind = r.Pick({CT::NoConversion, CT::Linear, CT::Rational, CT::Polynomial, CT::Exponential, CT::Logarithmic, CT::ValueToValue, CT::ValueToValueInterpolation});
  else c.kind = r.Pick({CT::NoConversion, CT::Linear, CT::Linear, CT::Rational, CT::ValueToValue, CT::ValueToValueInterpolation, CT::ValueRangeToValue, CT::ValueToText, CT::ValueRangeToText});
  auto key = [&](double last) {
    const double step = static_cast<double>(1 + r.Tail(40));
    return last + (integer || r.Chance(0.7) ? step : step / 8);
  };
  double k = static_cast<double>(r.Range(-40, 10));
  if (r.Chance(0.3)) k = 0;
  switch (c.kind) {
    case CT::Linear: c.par = {Par(r), Par(r)}; if (!mdf3 && r.Chance(0.1)) c.par.resize(1); break;
    case CT::Rational: for (int i = 0; i < 6; ++i) c.par.push_back(r.Chance(0.3) ? 0 : Par(r)); break;
    case CT::Polynomial: for (int i = 0; i < 6; ++i) c.par.push_back(r.Chance(0.25) ? 0 : Par(r)); break;
    case CT::Exponential: case CT::Logarithmic:
      for (int i = 0; i < 7; ++i) c.par.push_back(r.Chance(0.1) ? 0 : c.kind == CT::Exponential ? (r.Unit() - 0.5) * 8 : Par(r));
      if (r.Chance(0.9)) c.par[r.Chance(0.5) ? 3 : 0] = 0;
      break;
    case CT::ValueToValue: case CT::ValueToValueInterpolation:
      for (size_t i = 0; i < n; ++i) { c.par.push_back(k); c.par.push_back(Par(r)); k = key(k); }
      break;
    case CT::ValueRangeToValue: case CT::ValueRangeToText:
      for (size_t i = 0; i < n; ++i) {
        const double hi = integer ? k + static_cast<double>(r.Below(5)) : key(k);
        c.par.push_back(k); c.par.push_back(hi);
        if (c.kind == CT::ValueRangeToValue) c.par.push_back(Par(r)); else c.ref.push_back(Txt(r, i));
        k = integer ? hi + 1 + static_cast<double>(r.Below(4)) : r.Chance(0.5) ? hi : key(hi);
      }
      if (c.kind == CT::ValueRangeToValue) c.par.push_back(Par(r)); else c.ref.push_back("default" + Txt(r, 0));
      break;
    case CT::ValueToText: {
      const bool shuffled = r.Chance(0.5);
      for (size_t i = 0; i < n; ++i) { c.par.push_back(k); c.ref.push_back(Txt(r, i)); k = key(k); }
      if (shuffled) for (size_t i = n; i > 1; --i) std::swap(c.par[i - 1], c.par[r.Below(i)]);
      c.ref.push_back("default" + Txt(r, 0));
      break;
    }
    case CT::TextToValue:
      for (size_t i = 0; i < n; ++i) { c.ref.push_back(Txt(r, i) + "#" + std::to_string(i)); c.par.push_back(Par(r)); }
      c.par.push_back(Par(r));
      break;
    case CT::TextToTranslation:
      for (size_t i = 0; i < n; ++i) { c.ref.push_back(Txt(r, i) + "#" + std::to_string(i)); c.ref.push_back(Txt(r, i)); }
      c.ref.push_back("default" + Txt(r, 0));
      break;
    default: break;
  }
  if (!mdf3 && r.Chance(0.3)) c.decimals = static_cast<int>(r.Below(8));
  if (!mdf3 && r.Chance(0.2)) { c.inverse = true; c.inv0 = Par(r); c.inv1 = Par(r); }
  if (!mdf3 && r.Chance(0.3)) c.name = "conv " + Word(r, 8);
  if (r.Chance(0.3)) c.unit = "kPa";
  return c;
}
// Raw values around the places where the result changes.
static Val GenRaw(Rng& r, const Conv& c, const ChSpec& ch) {
  if (IsStr(ch.dt)) {
    if (!c.ref.empty() && r.Chance(0.75)) {
      const size_t step = c.kind == CT::TextToTranslation ? 2 : 1;
      const size_t n = c.kind == CT::TextToTranslation ? c.ref.size() / 2 : c.ref.size();
      std::string s = c.ref[step * r.Below(n)];
      if (r.Chance(0.15)) s += "x";
      else if (r.Chance(0.1) && !s.empty()) s.pop_back();
      // keep valid UTF-8 only
      while (!s.empty() && (static_cast<uint8_t>(s.back()) & 0x80)) s.pop_back();
      Val v = ValS(s);
      v.valid = !ch.inval || !r.Chance(0.2);
      return v;
    }
    return GenVal(r, ch);
  }
  if (r.Chance(0.15)) {
    Val v = GenVal(r, ch);
    if (v.k == VK::D && std::isnan(v.d)) v.d = 1;
    return v;
  }
  double x;
  if (!c.par.empty() && c.kind >= CT::ValueToValueInterpolation && c.kind <= CT::ValueRangeToText) {
    const size_t stride = c.kind == CT::ValueRangeToValue ? 3 : c.kind == CT::ValueToText ? 1 : 2;
    const size_t n = c.par.size() / stride;
    const size_t i = r.Below(n);
    x = c.par[i * stride];
    if ((c.kind == CT::ValueRangeToText || c.kind == CT::ValueRangeToValue) && r.Chance(0.5)) x = c.par[i * stride + 1];
    if ((c.kind == CT::ValueToValue || c.kind == CT::ValueToValueInterpolation) && i + 1 < n && r.Chance(0.3)) x = (x + c.par[i * stride + 2]) / 2;  // midpoint
    switch (r.Below(6)) { case 0: x += 1; break; case 1: x -= 1; break; case 2: x += r.Chance(0.5) ? 1e-9 : -1e-9; break; case 3: x += r.Unit(); break; default: break; }
  } else x = r.Chance(0.5) ? static_cast<double>(r.Range(-20, 20)) : (r.Unit() - 0.5) * 1000;
  Val v;
  if (IsFloat(ch.dt)) v = ValD(ch.bytes == 4 ? static_cast<double>(static_cast<float>(x)) : x);
  else {
    int64_t i = static_cast<int64_t>(std::floor(x));
    const uint32_t w = ch.bytes * 8;
    if (IsUns(ch.dt)) v = ValU(w >= 64 ? static_cast<uint64_t>(std::max<int64_t>(0, i)) : static_cast<uint64_t>(std::max<int64_t>(0, i)) & ((1ULL << w) - 1));
    else { if (w < 64) i = std::clamp<int64_t>(i, -(1LL << (w - 1)), (1LL << (w - 1)) - 1); v = ValI(i); }
  }
  v.valid = !ch.inval || !r.Chance(0.2);
  return v;
}

static bool Close(double got, double want, double tol) {
  if (std::isnan(want) || std::isnan(got)) return std::isnan(want) && std::isnan(got);
  if (std::isinf(want) || std::isinf(got)) return want == got;
  return std::fabs(got - want) <= tol;
}
static void CheckText(Ctx& ctx, const std::string& where, const std::string& got, const Eng& e, int decimals) {
  if (e.text) { if (got != e.s) ctx.Viol(where + "-text", "got '" + got.substr(0, 200) + "' want '" + e.s.substr(0, 200) + "'"); return; }
  if (!std::isfinite(e.d) || std::fabs(e.d) > 1e15) return;
  char* end = nullptr;
  const double d = strtod(got.c_str(), &end);
  // numbers are shown with the wanted decimals, long ones with 6 digits
  const double tol = 0.5001 * std::pow(10.0, -(decimals < 0 ? 6 : decimals)) + std::fabs(e.d) * 6e-6 + e.tol;
  if (got.empty() || *end != 0 || std::fabs(d - e.d) > tol) ctx.Viol(where + "-number-text", "got '" + got + "' want " + std::to_string(e.d));
}

struct RawObs : mdf::ISampleObserver {
  const mdf::IChannel* cn;
  std::map<uint64_t, std::pair<bool, double>> num;
  std::map<uint64_t, std::pair<bool, std::string>> txt;
  RawObs(const mdf::IDataGroup& dg, const mdf::IChannel& c) : ISampleObserver(dg), cn(&c) {
    DoOnSample = [&](uint64_t sample, uint64_t id, const std::vector<uint8_t>& record) {
      if (id != cn->RecordId()) return true;
      double d = 0;
      std::string s;
      bool v = GetEngValue(*cn, sample, record, d);
      num[sample] = {v, d};
      v = GetEngValue(*cn, sample, record, s);
      txt[sample] = {v, s};
      return true;
    };
  }
};

void RunCase(Ctx& ctx) {
  Rng& r = ctx.rng;
  Scen s;
  s.mdf3 = r.Chance(0.25);
  s.compress = !s.mdf3 && r.Chance(0.3);
  s.periodic = r.Chance(0.5);
  s.start = 1600000000000000000ULL + r.Below(100000000000000000ULL);
  GenOpt o;
  o.mdf3 = s.mdf3; o.vlsd = false; o.utf16 = false;
  CgSpec g;
  g.name = "g";
  std::vector<Conv> cv;
  const size_t nch = 1 + r.Below(6);
  for (size_t i = 0; i < nch; ++i) {
    ChSpec c = GenChannel(r, o, i);
    if (IsCanOpen(c.dt) || IsBytes(c.dt)) { --i; continue; }
    if (s.mdf3 && IsStr(c.dt)) { --i; continue; }
    if (IsInt(c.dt)) c.bytes = r.Pick({1u, 2u, 4u, 8u});
    if (IsStr(c.dt)) { c.dt = r.Chance(0.7) ? ChannelDataType::StringUTF8 : ChannelDataType::StringAscii; if (c.type != ChannelType::VariableLength) c.bytes = 60; }
    c.unit.clear();
    Conv cc = GenConv(r, IsStr(c.dt), s.mdf3, IsInt(c.dt));
    if (IsStr(c.dt)) {
      for (auto& x : cc.ref) if (x.size() > 50) x = "short" + std::to_string(&x - &cc.ref[0]);
      if (c.dt == ChannelDataType::StringAscii) for (auto& x : cc.ref) for (auto& ch : x) if (ch & 0x80) ch = 'z';
    }
    g.ch.push_back(c);
    cv.push_back(cc);
  }
  const size_t n = 1 + r.Tail(60);
  uint64_t ts = s.start;
  for (size_t i = 0; i < n; ++i) {
    SampleSpec sm;
    sm.ts = ts += 1000 + r.Below(1000000);
    for (size_t k = 0; k < nch; ++k) sm.v.push_back({GenRaw(r, cv[k], g.ch[k])});
    s.order.push_back({0, 0, i});
    g.samples.push_back(sm);
  }
  s.stop = ts + 1;
  s.dg.push_back({{g}, ""});
  ctx.shape = std::string(s.mdf3 ? "mdf3" : "mdf4");
  for (size_t k = 0; k < nch; ++k) ctx.shape += " " + std::to_string(static_cast<int>(cv[k].kind)) + "(" + std::to_string(cv[k].par.size()) + "," + std::to_string(cv[k].ref.size()) + ")dt" + std::to_string(static_cast<int>(g.ch[k].dt));
  ctx.sample = ctx.shape + " samples " + std::to_string(n);
  ctx.nontrivial = n >= 2;

  auto w = mdf::MdfFactory::CreateMdfWriter(s.mdf3 ? mdf::MdfWriterType::Mdf3Basic : s.wtype);
  auto mem = std::make_shared<MemBuf>();
  if (!w->Init(std::static_pointer_cast<std::streambuf>(mem))) { ctx.Viol("write-failed", "Init"); return; }
  Handles h;
  if (!CreateGroups(*w, s, h)) { ctx.Viol("write-failed", "CreateGroups"); return; }
  std::vector<mdf::IChannelConversion*> wcc;
  for (size_t k = 0; k < nch; ++k) {
    auto* cc = h.ch[0][0][k]->CreateChannelConversion();
    if (!cc) { ctx.Viol("write-failed", "CreateChannelConversion"); return; }
    const auto& c = cv[k];
    cc->Type(c.kind);
    if (r.Chance(0.5)) for (size_t i = 0; i < c.par.size(); ++i) cc->Parameter(static_cast<uint16_t>(i), c.par[i]);
    else for (size_t i = c.par.size(); i-- > 0;) cc->Parameter(static_cast<uint16_t>(i), c.par[i]);
    for (size_t i = 0; i < c.ref.size(); ++i) cc->Reference(static_cast<uint16_t>(i), c.ref[i]);
    if (c.decimals >= 0) cc->Decimals(static_cast<uint8_t>(c.decimals));
    if (!c.name.empty()) cc->Name(c.name);
    if (!c.unit.empty()) cc->Unit(c.unit);
    if (c.inverse) {
      auto* inv = cc->CreateInverse();
      if (inv) { inv->Type(CT::Linear); inv->Parameter(0, c.inv0); inv->Parameter(1, c.inv1); }
    }
    wcc.push_back(cc);
  }
  auto direct = [&](const std::string& where, const mdf::IChannelConversion& cc, size_t k, const Val& v) {
    const Eng e = Eval(cv[k], g.ch[k].dt, v);
    if (e.skip) return;
    ctx.Count("conversions_" + std::to_string(static_cast<int>(cv[k].kind)));
    double d = 0;
    std::string t;
    bool ok = true, tok = true;
    if (v.k == VK::S) {
      if (e.text) tok = cc.Convert(v.s, t); else ok = cc.Convert(v.s, d);
    } else {
      if (v.k == VK::U) { if (!e.text) ok = cc.Convert(v.u, d); tok = cc.Convert(v.u, t); }
      else if (v.k == VK::I) { if (!e.text) ok = cc.Convert(v.i, d); tok = cc.Convert(v.i, t); }
      else { if (!e.text) ok = cc.Convert(v.d, d); tok = cc.Convert(v.d, t); }
    }
    const std::string id = where + " " + g.ch[k].name + " kind " + std::to_string(static_cast<int>(cv[k].kind)) + " raw " + Str(v);
    if (!e.text && (ok != e.valid || (e.valid && !Close(d, e.d, e.tol)))) ctx.Viol(where + "-value-" + std::to_string(static_cast<int>(cv[k].kind)), id + " got " + std::to_string(d) + (ok ? "" : " invalid") + " want " + std::to_string(e.d) + (e.valid ? "" : " invalid"));
    if (v.k != VK::S || e.text) {
      if (tok != e.valid) ctx.Viol(where + "-text-valid", id);
      else if (e.valid) CheckText(ctx, where, t, e, cv[k].decimals);
    }
  };
  for (size_t k = 0; k < nch; ++k) for (auto& sm : g.samples) direct("before", *wcc[k], k, sm.v[k][0]);
  const std::string err = RunMeasurement(*w, s, h);
  if (!err.empty()) { ctx.Viol("write-failed", err); return; }
  for (size_t k = 0; k < nch; ++k) for (auto& sm : g.samples) direct("writer", *wcc[k], k, sm.v[k][0]);
  w.reset();
  if (ConvFileHook()) { ConvFileHook()(std::string(mem->Data().begin(), mem->Data().end())); return; }

  mdf::MdfReader rd(std::static_pointer_cast<std::streambuf>(std::make_shared<MemBuf>(mem->Data())));
  if (!rd.ReadEverythingButData() || !rd.GetHeader() || rd.GetHeader()->DataGroups().size() != 1) { ctx.Viol("read-failed", "open"); return; }
  auto* dg = rd.GetHeader()->DataGroups()[0];
  auto* cg = dg->ChannelGroups()[0];
  const auto cns = cg->Channels();
  if (cns.size() != nch) { ctx.Viol("read-failed", "channels"); return; }
  std::vector<mdf::ChannelObserverPtr> obs;
  std::vector<std::unique_ptr<RawObs>> raw;
  for (auto* cn : cns) { obs.push_back(mdf::CreateChannelObserver(*dg, *cg, *cn)); raw.push_back(std::make_unique<RawObs>(*dg, *cn)); raw.back()->AttachObserver(); }
  if (!rd.ReadData(*dg)) { ctx.Viol("read-failed", "ReadData"); return; }
  for (size_t k = 0; k < nch; ++k) {
    const auto* cc = cns[k]->ChannelConversion();
    if (!cc) { ctx.Viol("conversion-lost", g.ch[k].name); continue; }
    const auto& c = cv[k];
    if (cc->Type() != c.kind) ctx.Viol("kind-changed", std::to_string(static_cast<int>(cc->Type())) + " want " + std::to_string(static_cast<int>(c.kind)));
    const size_t want_par = s.mdf3 && (c.kind == CT::ValueToValue || c.kind == CT::ValueToValueInterpolation) ? c.par.size() / 2 : c.par.size();
    if (cc->NofParameters() != want_par) ctx.Viol("parameter-count", std::to_string(cc->NofParameters()) + " want " + std::to_string(want_par));
    for (size_t i = 0; i < c.par.size(); ++i) if (!SameDouble(cc->Parameter(static_cast<uint16_t>(i)), c.par[i])) ctx.Viol("parameter-value", std::to_string(i));
    if (!s.mdf3 && cc->NofReferences() != c.ref.size()) ctx.Viol("reference-count", std::to_string(cc->NofReferences()));
    for (size_t i = 0; i < c.ref.size(); ++i) if (cc->Reference(static_cast<uint16_t>(i)) != c.ref[i]) ctx.Viol("reference-text", "'" + cc->Reference(static_cast<uint16_t>(i)) + "' want '" + c.ref[i] + "'");
    if (c.inverse) {
      const auto* inv = cc->Inverse();
      double d = 0;
      if (!inv) ctx.Viol("inverse-lost", g.ch[k].name);
      else if (!inv->Convert(2.5, d) || !Close(d, c.inv0 + c.inv1 * 2.5, 1e-12 * (std::fabs(c.inv0) + std::fabs(c.inv1) * 2.5))) ctx.Viol("inverse-value", std::to_string(d));
    }
    std::vector<double> all;
    const auto all_valid = obs[k]->GetEngSamples(all);
    for (size_t i = 0; i < n; ++i) {
      const Val& v = g.samples[i].v[k][0];
      direct("after", *cc, k, v);
      Eng e = Eval(c, g.ch[k].dt, v);
      if (e.skip) continue;
      if (!v.valid) e.valid = false;
      const std::string id = g.ch[k].name + " kind " + std::to_string(static_cast<int>(c.kind)) + " raw " + Str(v) + " sample " + std::to_string(i);
      auto& rn = raw[k]->num[i];
      auto& rt = raw[k]->txt[i];
      if (!e.text) {
        double d = 0;
        const bool ok = obs[k]->GetEngValue(i, d);
        if (ok != e.valid || (ok && !Close(d, e.d, e.tol))) ctx.Viol("observer-value-" + std::to_string(static_cast<int>(c.kind)), id + " got " + std::to_string(d) + (ok ? "" : " invalid") + " want " + std::to_string(e.d));
        if (i >= all.size() || all_valid[i] != e.valid || (e.valid && !Close(all[i], e.d, e.tol))) ctx.Viol("observer-samples", id);
        if (rn.first != e.valid || (e.valid && !Close(rn.second, e.d, e.tol))) ctx.Viol("sample-observer-value", id + " got " + std::to_string(rn.second));
        if (e.valid && std::fabs(e.d) < 1e15) {
          int64_t iv = 0;
          if (!obs[k]->GetEngValue(i, iv) || std::fabs(static_cast<double>(iv) - std::trunc(e.d)) > 1 + e.tol) ctx.Viol("observer-int-value", id + " got " + std::to_string(iv));
        }
      }
      std::string t;
      const bool ok = obs[k]->GetEngValue(i, t);
      if (ok != e.valid) ctx.Viol("observer-text-valid", id + " got '" + t + "'");
      else if (ok) {
        CheckText(ctx, "observer", t, e, c.decimals);
        if (obs[k]->EngValueToString(i) != t) ctx.Viol("observer-to-string", id);
      }
      if (e.text) {
        if (rt.first != e.valid) ctx.Viol("sample-observer-valid", id);
        else if (e.valid) CheckText(ctx, "sample-observer", rt.second, e, c.decimals);
      }
      ctx.Count("samples_checked");
    }
  }
}
}  // namespace vh
#ifdef C10_AS_LIBRARY
#undef kPropId
#undef RunCase
#endif
