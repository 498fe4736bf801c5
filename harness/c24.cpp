// Values set and read as other C++ types and as text keep their meaning; all
// ways of reading a sample agree. The reference is the value drawn by the
// generator, converted with plain C++ and calendar arithmetic written here.
#include <cfloat>
#include <limits>
#include "scen.h"
namespace vh {
const char* kPropId = "C24";
namespace {
// ---- exact representability
template <class T> bool Fits(const Val& v, T& t) {
  if constexpr (std::is_floating_point_v<T>) {
    if (v.k == VK::U) { t = static_cast<T>(v.u); const long double l = t; return l == static_cast<long double>(v.u); }
    if (v.k == VK::I) { t = static_cast<T>(v.i); const long double l = t; return l == static_cast<long double>(v.i); }
    if (std::isnan(v.d) || std::isinf(v.d)) { t = static_cast<T>(v.d); return true; }
    if (std::fabs(v.d) > static_cast<double>(std::numeric_limits<T>::max())) return false;
    t = static_cast<T>(v.d);
    return SameDouble(static_cast<double>(t), v.d);
  } else {
    if (v.k == VK::U) { if (v.u > static_cast<uint64_t>(std::numeric_limits<T>::max())) return false; t = static_cast<T>(v.u); return true; }
    if (v.k == VK::I) {
      if (v.i < 0) { if (!std::is_signed_v<T> || v.i < static_cast<int64_t>(std::numeric_limits<T>::min())) return false; }
      else if (static_cast<uint64_t>(v.i) > static_cast<uint64_t>(std::numeric_limits<T>::max())) return false;
      t = static_cast<T>(v.i); return true;
    }
    if (!std::isfinite(v.d) || v.d != std::floor(v.d) || (v.d == 0 && std::signbit(v.d))) return false;
    const double lim = std::ldexp(1.0, std::numeric_limits<T>::digits);
    if (v.d >= lim || v.d < (std::is_signed_v<T> ? -lim : 0.0)) return false;
    t = static_cast<T>(v.d); return true;
  }
}
// the value as T if the conversion is defined: exact, rounded to a float, or
// truncated towards zero
template <class T> bool Conv(const Val& v, T& t) {
  if (Fits(v, t)) return true;
  if constexpr (std::is_floating_point_v<T>) {
    if (v.k == VK::D && std::isfinite(v.d) && std::fabs(v.d) > static_cast<double>(std::numeric_limits<T>::max())) return false;
    return true;  // t is the rounded value already
  } else {
    if (v.k != VK::D || !std::isfinite(v.d)) return false;
    return Fits(ValD(std::trunc(v.d) + 0.0), t);
  }
}
std::string NumText(const Val& v, bool& ok) {
  ok = true;
  if (v.k == VK::U) return std::to_string(v.u);
  if (v.k == VK::I) return std::to_string(v.i);
  if (std::fpclassify(v.d) == FP_SUBNORMAL) { ok = false; return {}; }
  char b[64]; snprintf(b, sizeof b, "%.17g", v.d);
  return b;
}
// ---- setting
const int kSetForms = 12;
template <class F> bool WithType(int form, F f) {
  switch (form) {
    case 0: return f(uint8_t{}); case 1: return f(int8_t{}); case 2: return f(uint16_t{}); case 3: return f(int16_t{});
    case 4: return f(uint32_t{}); case 5: return f(int32_t{}); case 6: return f(uint64_t{}); case 7: return f(int64_t{});
    case 8: return f(float{}); case 9: return f(double{}); case 10: return f(static_cast<long long>(0)); case 11: return f(static_cast<unsigned long long>(0));
  }
  return false;
}
bool SetAs(Rng& r, mdf::IChannel& cn, const Val& v, uint64_t e, std::string& how) {
  for (int tries = 0; tries < 8; ++tries) {
    const int form = static_cast<int>(r.Below(kSetForms + 2));
    if (form >= kSetForms) {
      bool ok; const std::string t = NumText(v, ok);
      if (!ok) continue;
      cn.SetChannelValue(t, v.valid, e); how += "t"; return true;
    }
    if (WithType(form, [&](auto x) { if (!Fits(v, x)) return false; cn.SetChannelValue(x, v.valid, e); return true; })) { how += static_cast<char>('a' + form); return true; }
  }
  SetVal(cn, v, e);
  return true;
}
// all elements at once through one type that holds them all
bool SetAll(Rng& r, mdf::IChannel& cn, const std::vector<Val>& vs) {
  for (auto& v : vs) if (!v.valid) return false;
  for (int tries = 0; tries < 4; ++tries)
    if (WithType(static_cast<int>(r.Below(kSetForms)), [&](auto x) {
          using T = decltype(x);
          std::vector<T> l;
          for (auto& v : vs) { T t; if (!Fits(v, t)) return false; l.push_back(t); }
          cn.SetChannelValues(l); return true; })) return true;
  return false;
}
// ---- texts
std::string LocalIso(uint64_t ns) {
  const time_t t = static_cast<time_t>(ns / 1000000000ULL);
  struct tm tm{}; localtime_r(&t, &tm);
  char b[80]; snprintf(b, sizeof b, "%04d-%02d-%02d %02d:%02d:%02d", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec);
  std::string s = b;
  const unsigned ms = static_cast<unsigned>(ns / 1000000 % 1000);
  if (ms) { snprintf(b, sizeof b, ".%03u", ms); s += b; }
  return s;
}
std::string StripMs(std::string s) { if (s.size() == 23 && s.substr(19) == ".000") s.resize(19); return s; }
// the text of a float: a number within the promised decimals or 6 digits
bool FloatText(const std::string& t, double d, int decimals) {
  if (t.empty()) return false;
  char* end = nullptr;
  const double x = strtod(t.c_str(), &end);
  if (*end) return false;
  if (std::isnan(d) || std::isinf(d)) return std::isnan(d) ? std::isnan(x) : x == d;
  const double tol = std::max(0.5 * std::pow(10.0, -decimals), 5e-6 * std::fabs(d)) * 1.001;
  return std::fabs(x - d) <= tol;
}
struct Exp { ChSpec c; int decimals = -1; std::vector<std::vector<Val>> v; bool num_text = false; };

bool TextOk(const Exp& x, const Val& v, const std::string& t, bool record_level) {
  switch (v.k) {
    case VK::U: return IsCanOpen(x.c.dt) ? (record_level ? StripMs(t) : t) == LocalIso(v.u) : t == std::to_string(v.u);
    case VK::I: return t == std::to_string(v.i);
    case VK::D: return FloatText(t, v.d, x.decimals >= 0 ? std::min(x.decimals, 20) : 6);
    case VK::S: return t == v.s;
    case VK::B: { std::string h; char b[4]; for (auto y : v.b) { snprintf(b, sizeof b, "%02X", y); h += b; } return t == h; }
  }
  return false;
}

// one value read through get(T&) as every type
template <class Get>
void CheckReads(Ctx& ctx, const Exp& x, const Val& v, const std::string& at, bool record_level, Get get) {
  std::string t;
  const bool tv = get(t);
  ctx.Count("text_reads");
  if (tv != v.valid) { ctx.Viol("validity as text", at + " want " + Str(v)); return; }
  if (v.valid && !TextOk(x, v, t, record_level)) { ctx.Viol("read as text", at + " got '" + t.substr(0, 60) + "' want " + Str(v)); return; }
  if (v.k == VK::B) {
    std::vector<uint8_t> b; const bool ok = get(b);
    if (ok != v.valid || (ok && b != v.b)) ctx.Viol("read as bytes", at + " want " + Str(v));
    return;
  }
  if (v.k == VK::S && record_level) {
    std::vector<uint8_t> b; const bool ok = get(b);
    if (ok != v.valid || (ok && std::string(b.begin(), b.end()) != v.s)) ctx.Viol("text read as bytes", at + " want " + Str(v));
  }
  Val num = v;
  if (v.k == VK::S) {
    if (!x.num_text || !v.valid) return;
    num = v.s[0] == '-' ? ValI(std::stoll(v.s)) : ValU(std::stoull(v.s));
  }
  for (int f = 0; f < kSetForms; ++f) WithType(f, [&](auto t0) {
    using T = decltype(t0);
    if (v.k == VK::S && (sizeof(T) == 1 || !Fits(num, t0))) return false;   // a text read as a character
    if (v.valid ? !Conv(num, t0) : v.k == VK::D) return false;
    T got{};
    const bool ok = get(got);
    ctx.Count("typed_reads");
    if (ok != v.valid) ctx.Viol("validity as number", at + " type " + std::to_string(f) + " want " + Str(v));
    else if (ok && !(got == t0 || (std::is_floating_point_v<T> && got != got && t0 != t0))) {
      std::ostringstream o; o << std::setprecision(17) << +got << " expected " << +t0;
      ctx.Viol("read as number", at + " type " + std::to_string(f) + " got " + o.str() + " of " + Str(v));
    }
    return true;
  });
}

template <class T>
void CheckBulk(Ctx& ctx, const mdf::IChannelObserver& o, const Exp& x, const std::string& at) {
  const size_t n = x.v.size(), e = x.c.Elems();
  std::vector<T> a, b;
  const auto va = o.GetChannelSamples(a);
  const auto vb = o.GetEngSamples(b);
  ctx.Count("bulk_reads");
  if (va.size() != n || a.size() != n || vb.size() != n || b.size() != n) { ctx.Viol("bulk size", at); return; }
  for (size_t i = 0; i < n; ++i) {
    T s{};
    const bool ok = o.GetChannelValue(i, s, 0);
    if (va[i] != ok || vb[i] != ok || va[i] != x.v[i][0].valid) { ctx.Viol("bulk validity", at + " sample " + std::to_string(i)); return; }
    if (ok && (!(a[i] == s || a[i] != a[i]) || !(b[i] == s || b[i] != b[i]))) { ctx.Viol("bulk value", at + " sample " + std::to_string(i)); return; }
    std::vector<T> c, d;
    const auto vc = o.GetChannelValues(i, c);
    const auto vd = o.GetEngValues(i, d);
    if (vc.size() != e || c.size() != e || vd.size() != e || d.size() != e) { ctx.Viol("array bulk size", at); return; }
    for (size_t k = 0; k < e; ++k) {
      T y{};
      const bool ok2 = o.GetChannelValue(i, y, k);
      if (vc[k] != ok2 || vd[k] != ok2 || ok2 != x.v[i][k].valid) { ctx.Viol("array bulk validity", at + " sample " + std::to_string(i)); return; }
      if (ok2 && (!(c[k] == y || c[k] != c[k]) || !(d[k] == y || d[k] != d[k]))) { ctx.Viol("array bulk value", at + " sample " + std::to_string(i)); return; }
    }
  }
}
}  // namespace

void RunCase(Ctx& ctx) {
  Rng& r = ctx.rng;
  GenOpt o;
  o.mdf3 = r.Chance(0.2); o.max_samples = 12; o.max_ch = 6; o.max_cg = 2; o.max_dg = 2; o.vlsd = true;
  Scen s = GenScen(r, o);
  s.pause_every = 0; s.flush_ms = 10000; s.start_at = 0; s.pretrig = 0;
  static const char* zones[] = {"UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "IST-5:30", "PST8PDT,M3.2.0,M11.1.0"};
  setenv("TZ", zones[r.Below(4)], 1); tzset();
  const std::string file = ctx.Path(s.mdf3 ? "a.dat" : "a.mf4");
  auto w = mdf::MdfFactory::CreateMdfWriter(s.mdf3 ? mdf::MdfWriterType::Mdf3Basic : s.wtype);
  Handles h;
  if (!w->Init(file) || !CreateGroups(*w, s, h)) { ctx.Viol("init", ""); return; }
  std::vector<std::vector<std::vector<Exp>>> ex(s.dg.size());
  for (size_t d = 0; d < s.dg.size(); ++d) {
    ex[d].resize(s.dg[d].cg.size());
    for (size_t g = 0; g < s.dg[d].cg.size(); ++g) for (size_t n = 0; n < s.dg[d].cg[g].ch.size(); ++n) {
      Exp x; x.c = s.dg[d].cg[g].ch[n];
      if (IsFloat(x.c.dt) && !s.mdf3 && r.Chance(0.5)) { x.decimals = static_cast<int>(r.Below(r.Chance(0.1) ? 30 : 10)); h.ch[d][g][n]->Decimals(static_cast<uint8_t>(x.decimals)); }
      if (IsStr(x.c.dt) && r.Chance(0.4) && (x.c.type == ChannelType::VariableLength || x.c.bytes >= 44)) x.num_text = true;
      ex[d][g].push_back(x);
    }
  }
  w->CompressData(s.compress); w->SavePeriodic(s.periodic);
  SetFlushPeriod(s.flush_ms);
  if (!w->InitMeasurement()) { ctx.Viol("write", "InitMeasurement"); return; }
  w->StartMeasurement(s.start);
  std::string how;
  size_t total = 0;
  for (const auto& st : s.order) {
    auto& smp = s.dg[st.dg].cg[st.cg].samples[st.idx];
    for (size_t n = 0; n < smp.v.size(); ++n) {
      Exp& x = ex[st.dg][st.cg][n];
      if (x.c.type == ChannelType::Master) continue;
      auto& cn = *h.ch[st.dg][st.cg][n];
      auto& vs = smp.v[n];
      for (auto& v : vs) {   // friendlier numbers, so that other types can hold them
        if (v.k == VK::D && r.Chance(0.5)) v.d = r.Chance(0.5) ? static_cast<double>(r.Range(-130, 260)) : static_cast<double>(static_cast<float>(r.Range(-1000000, 1000000)) / 64.0F);
        else if (v.k == VK::D && x.c.bytes == 8 && r.Chance(0.5)) v.d = (r.Unit() - 0.5) * std::pow(10.0, static_cast<double>(r.Range(-6, 9)));
        else if (v.k == VK::U && !IsCanOpen(x.c.dt) && r.Chance(0.3)) v.u = r.Below(128);
        else if (v.k == VK::I && r.Chance(0.3)) v.i = r.Range(-128, 127);
      }
      if (vs.size() > 1 && (vs[0].k == VK::U || vs[0].k == VK::I || vs[0].k == VK::D) && !IsCanOpen(x.c.dt) && r.Chance(0.4) && SetAll(r, cn, vs)) { how += "A"; }
      else for (size_t e = 0; e < vs.size(); ++e) {
        Val& v = vs[e];
        if (IsCanOpen(x.c.dt)) SetVal(cn, v, e);
        else if (v.k == VK::S) {
          if (x.num_text) {
            const int64_t i = r.Chance(0.5) ? static_cast<int64_t>(r.U64()) : r.Range(-1000, 1000);
            const uint64_t u = r.U64();
            switch (r.Below(4)) {
              case 0: v.s = std::to_string(u); cn.SetChannelValue(u, v.valid, e); break;
              case 1: v.s = std::to_string(static_cast<uint16_t>(u)); cn.SetChannelValue(static_cast<uint16_t>(u), v.valid, e); break;
              case 2: v.s = std::to_string(i); cn.SetChannelValue(i, v.valid, e); break;
              default: v.s = std::to_string(static_cast<int32_t>(i)); cn.SetChannelValue(static_cast<int32_t>(i), v.valid, e); break;
            }
            how += "n";
          } else if ((x.c.dt == ChannelDataType::StringUTF8 || x.c.dt == ChannelDataType::StringAscii) && r.Chance(0.3)) {
            cn.SetChannelValue(std::vector<uint8_t>(v.s.begin(), v.s.end()), v.valid, e); how += "v";
          } else SetVal(cn, v, e);
        } else if (v.k == VK::B) {
          if (r.Chance(0.5)) { cn.SetChannelValue(std::string(v.b.begin(), v.b.end()), v.valid, e); how += "s"; }
          else SetVal(cn, v, e);
        } else SetAs(r, cn, v, e, how);
        ++total;
      }
    }
    w->SaveSample(*h.cg[st.dg][st.cg], smp.ts);
  }
  w->StopMeasurement(s.stop);
  if (!w->FinalizeMeasurement()) { ctx.Viol("write", "FinalizeMeasurement"); return; }
  w.reset();
  for (size_t d = 0; d < s.dg.size(); ++d) for (size_t g = 0; g < s.dg[d].cg.size(); ++g)
    for (auto& smp : s.dg[d].cg[g].samples) for (size_t n = 0; n < smp.v.size(); ++n) ex[d][g][n].v.push_back(smp.v[n]);

  mdf::MdfReader rd(file);
  if (!rd.ReadEverythingButData()) { ctx.Viol("read", ""); return; }
  auto dgs = rd.GetHeader()->DataGroups();
  if (dgs.size() != s.dg.size()) { ctx.Viol("data groups", ""); return; }
  for (size_t d = 0; d < dgs.size(); ++d) {
    auto cgs = dgs[d]->ChannelGroups();
    if (cgs.size() != ex[d].size()) { ctx.Viol("groups", ""); return; }
    std::vector<std::vector<mdf::ChannelObserverPtr>> obs(cgs.size());
    for (size_t g = 0; g < cgs.size(); ++g) {
      auto chs = cgs[g]->Channels();
      if (chs.size() != ex[d][g].size()) { ctx.Viol("channels", ""); return; }
      for (size_t n = 0; n < chs.size(); ++n) {
        obs[g].push_back(mdf::CreateChannelObserver(*dgs[d], *cgs[g], *chs[n]));
        auto& ob = *obs[g].back();
        auto& c = ex[d][g][n].c;
        if (ob.Name() != c.name || ob.Unit() != c.unit || ob.ChannelGroupName() != cgs[g]->Name() || &ob.Channel() != chs[n] ||
            ob.IsMaster() != (c.type == ChannelType::Master) || ob.IsArray() != !c.dims.empty() || ob.ArraySize() != c.Elems() ||
            ob.Shape() != (c.dims.empty() ? std::vector<uint64_t>{1} : c.dims))
          ctx.Viol("observer facts", c.name);
      }
    }
    // every record decoded in the callback, as every type
    mdf::ISampleObserver so(*dgs[d]);
    so.DoOnSample = [&](uint64_t sample, uint64_t id, const std::vector<uint8_t>& rec) {
      for (size_t g = 0; g < cgs.size(); ++g) {
        if (cgs[g]->RecordId() != id) continue;
        auto chs = cgs[g]->Channels();
        for (size_t n = 0; n < chs.size(); ++n) {
          auto& x = ex[d][g][n];
          if (x.c.type == ChannelType::Master || sample >= x.v.size()) continue;
          for (size_t e = 0; e < x.v[sample].size(); ++e) {
            const std::string at = "record " + x.c.name + "[dt" + std::to_string(int(x.c.dt)) + " b" + std::to_string(x.c.bytes) + " dec" + std::to_string(x.decimals) + "] sample " + std::to_string(sample) + " elem " + std::to_string(e);
            if (r.Chance(0.5)) CheckReads(ctx, x, x.v[sample][e], at, true, [&](auto& t) { return so.GetChannelValue(*chs[n], sample, rec, t, e); });
            else CheckReads(ctx, x, x.v[sample][e], at + " eng", true, [&](auto& t) { using T = std::decay_t<decltype(t)>; if constexpr (std::is_same_v<T, double> || std::is_same_v<T, std::string>) return so.GetEngValue(*chs[n], sample, rec, t, e); else return so.GetChannelValue(*chs[n], sample, rec, t, e); });
          }
        }
      }
      return true;
    };
    if (!rd.ReadData(*dgs[d])) { ctx.Viol("read data", ""); return; }
    so.DetachObserver();
    for (size_t g = 0; g < cgs.size(); ++g) for (size_t n = 0; n < obs[g].size(); ++n) {
      auto& x = ex[d][g][n];
      auto& ob = *obs[g][n];
      if (x.c.type == ChannelType::Master) continue;
      const std::string at = x.c.name + "[dt" + std::to_string(int(x.c.dt)) + " b" + std::to_string(x.c.bytes) + " dec" + std::to_string(x.decimals) + "]";
      if (ob.NofSamples() != x.v.size()) { ctx.Viol("samples", at); continue; }
      const auto& vl = ob.GetValidList();
      if (vl.size() != x.v.size() * x.c.Elems()) ctx.Viol("valid list", at);
      for (size_t i = 0; i < x.v.size(); ++i) {
        std::string joined;
        for (size_t e = 0; e < x.v[i].size(); ++e) {
          const Val& v = x.v[i][e];
          const size_t k = i * x.c.Elems() + e;
          if (k < vl.size() && vl[k] != v.valid) ctx.Viol("valid list", at);
          const std::string a2 = at + " sample " + std::to_string(i) + " elem " + std::to_string(e);
          if (r.Chance(0.5)) CheckReads(ctx, x, v, a2, false, [&](auto& t) { return ob.GetChannelValue(i, t, e); });
          else CheckReads(ctx, x, v, a2 + " eng", false, [&](auto& t) { return ob.GetEngValue(i, t, e); });
          std::string t; ob.GetChannelValue(i, t, e);
          joined += (e ? ";" : "") + (v.valid ? t : std::string("*"));
        }
        if (ob.EngValueToString(i) != joined) ctx.Viol("sample as text", at + " sample " + std::to_string(i) + " got '" + ob.EngValueToString(i).substr(0, 80) + "' want '" + joined.substr(0, 80) + "'");
      }
      if (IsUns(x.c.dt) || IsCanOpen(x.c.dt)) CheckBulk<uint64_t>(ctx, ob, x, at);
      if (IsInt(x.c.dt) && !IsUns(x.c.dt)) CheckBulk<int64_t>(ctx, ob, x, at);
      if (IsInt(x.c.dt) || IsFloat(x.c.dt)) CheckBulk<double>(ctx, ob, x, at);
      if (IsBytes(x.c.dt)) CheckBulk<std::vector<uint8_t>>(ctx, ob, x, at);
      CheckBulk<std::string>(ctx, ob, x, at);
    }
  }
  ctx.nontrivial = total > 0;
  std::ostringstream sh;
  sh << (s.mdf3 ? "mdf3" : "mdf4") << " values=" << total << " forms=" << std::hex << (HashStr(how) & 0xffffffff);
  ctx.shape = ctx.sample = sh.str();
}
}  // namespace vh
