// Instants in every stored and textual form, under many process time zones,
// against calendar arithmetic written here (no use of the C library's).
#include "membuf.h"
#include "scen.h"
#include <cstdarg>
#include "mdf/itimestamp.h"
#include "mdf/imdftimestamp.h"
#include "mdf/ifilehistory.h"
namespace vh {
const char* kPropId = "C17";
namespace {
constexpr uint64_t kS = 1000000000ULL, kMin = 60 * kS, kH = 60 * kMin, kDay = 24 * kH;
struct Civil { int64_t y; int m, d, hh, mm, ss; uint64_t ns; };
Civil ToCivil(int64_t sec, uint64_t ns) {
  int64_t days = sec >= 0 ? sec / 86400 : -((-sec + 86399) / 86400);
  const int64_t rem = sec - days * 86400;
  days += 719468;
  const int64_t era = days / 146097;
  const auto doe = days - era * 146097;
  const auto yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
  const auto doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
  const auto mp = (5 * doy + 2) / 153;
  Civil c;
  c.d = static_cast<int>(doy - (153 * mp + 2) / 5 + 1);
  c.m = static_cast<int>(mp < 10 ? mp + 3 : mp - 9);
  c.y = yoe + era * 400 + (c.m <= 2);
  c.hh = static_cast<int>(rem / 3600); c.mm = static_cast<int>(rem / 60 % 60); c.ss = static_cast<int>(rem % 60); c.ns = ns;
  return c;
}
std::string F(const char* f, ...) { char b[200]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }

struct Zone { std::string tz; int64_t off_min; bool fixed; int64_t std_min; };   // off_min incl. DST when fixed
Zone PickZone(Rng& r) {
  const uint64_t k = r.Below(10);
  if (k < 2) return {"UTC0", 0, true, 0};
  if (k < 7) {   // a fixed offset, whole hours, halves or quarters
    int64_t m = r.Range(-12, 14) * 60;
    if (r.Chance(0.3)) m += r.Pick({15, 30, 45});
    const int64_t a = m < 0 ? -m : m;
    return {"XXX" + std::string(m > 0 ? "-" : "") + F("%d:%02d", int(a / 60), int(a % 60)), m, true, m};
  }
  // The C library gets all-year daylight saving wrong around new year.
  const time_t now = time(nullptr);
  const auto today = ToCivil(now, 0);
  if (k < 8 && !(today.m == 12 && today.d > 29) && !(today.m == 1 && today.d < 3)) { const int64_t m = r.Range(-11, 12) * 60; const int64_t a = m < 0 ? -m : m;   // daylight saving all the year
    return {"XXX" + std::string(m > 0 ? "-" : "") + F("%d", int(a / 60)) + "YYY,0/0,J365/25", m + 60, true, m}; }
  if (k < 8) return {"UTC0", 0, true, 0};
  return {r.Pick<std::string>({"CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "AEST-10AEDT,M10.1.0,M4.1.0/3", "NST3:30NDT,M3.2.0,M11.1.0"}), 0, false, 0};
}
bool g_avoid_new_year = false;
void Use(const Zone& z) { g_avoid_new_year = z.tz.find("J365") != std::string::npos; setenv("TZ", z.tz.c_str(), 1); tzset(); }

uint64_t PickNs(Rng& r, uint64_t lo, uint64_t hi) {
  uint64_t t = lo + r.Below(hi - lo);
  switch (r.Below(8)) {
    case 0: t -= t % kS; break;
    case 1: t -= t % kDay; break;
    case 2: t = t - t % kDay + kDay - 1 - r.Below(3); break;
    case 3: t -= t % 1000000; break;
    case 4: {   // around a leap day
      static const uint64_t leap[] = {447638400, 573868800, 951782400, 1709164800, 1835395200, 2466720000};  // 29 February
      uint64_t s = leap[r.Below(6)] + static_cast<uint64_t>(r.Range(-1, 1)) * 86400;
      t = s * kS + r.Below(kDay); break; }
    case 5: {   // around the daylight saving changes of several years
      static const uint64_t dst[] = {1711846800, 1729990800, 1710054000, 1730613600, 1728144000, 1712419200};
      t = (dst[r.Below(6)] + r.Below(4) * 31536000ULL) * kS + static_cast<uint64_t>(r.Range(-7200, 7200)) * kS + r.Below(kS); break; }
    default: break;
  }
  t = std::min(std::max(t, lo), hi - 1);
  const auto c = ToCivil(static_cast<int64_t>(t / kS), 0);
  if (!g_avoid_new_year) return t;
  if (c.m == 12 && c.d > 29) t -= 3 * kDay;
  if (c.m == 1 && c.d < 3 && c.y > 1971) t += 3 * kDay;
  return t;
}

void Text(Ctx& ctx, Rng& r) {
  const uint64_t t = PickNs(r, 0, 4102444800ULL * kS);  // 1970..2099
  const auto c = ToCivil(static_cast<int64_t>(t / kS), t % kS);
  const std::string date = F("%04d-%02d-%02d", int(c.y), c.m, c.d), clock = F("%02d:%02d:%02d", c.hh, c.mm, c.ss);
  const std::string ms = c.ns / 1000000 ? F(".%03d", int(c.ns / 1000000)) : "";
  mdf::UtcTimestamp u(t);
  auto same = [&](const std::string& what, const std::string& got, const std::string& want) {
    ctx.Count("texts");
    if (got != want) ctx.Viol(what, "got '" + got + "' want '" + want + "' ns " + std::to_string(t));
  };
  same("ISO date", u.ToIsoDate(), date + "Z");
  same("ISO time", u.ToIsoTime(true), clock + ms + "Z");
  same("ISO time without ms", u.ToIsoTime(false), clock + "Z");
  same("ISO date time", u.ToIsoDateTime(true), date + "T" + clock + ms + "Z");
  same("ISO date time without ms", u.ToIsoDateTime(false), date + "T" + clock + "Z");
  auto back = [&](const std::string& text, uint64_t want) {
    mdf::UtcTimestamp x(text);
    ctx.Count("texts_parsed");
    if (x.GetUtcTimeNs() != want) ctx.Viol("time text read back", "'" + text + "' got " + std::to_string(x.GetUtcTimeNs()) + " want " + std::to_string(want));
  };
  back(u.ToIsoDateTime(true), t - t % 1000000);
  back(u.ToIsoDateTime(false), t - t % kS);
  back(u.ToIsoDate(), t - t % kDay);
  // other conforming texts: any fraction length, separator, basic form, zone offset
  const int digits = static_cast<int>(r.Range(0, 12));
  std::string frac = F("%09llu", static_cast<unsigned long long>(c.ns)) + "7777";
  frac.resize(static_cast<size_t>(digits));
  uint64_t part = 0;
  for (int i = 0; i < 9; ++i) part = part * 10 + (i < digits ? static_cast<uint64_t>(frac[static_cast<size_t>(i)] - '0') : 0);
  const int off = r.Chance(0.5) ? 0 : static_cast<int>(r.Range(-12 * 60 - 30, 14 * 60));
  const int64_t loc = static_cast<int64_t>(t / kS) + off * 60;
  if (loc < 0) return;
  const auto l = ToCivil(loc, 0);
  const std::string sep = r.Pick<std::string>({"T", " "});
  const bool basic = r.Chance(0.2);
  std::string txt = basic ? F("%04d%02d%02d", int(l.y), l.m, l.d) + sep + F("%02d%02d%02d", l.hh, l.mm, l.ss)
                          : F("%04d-%02d-%02d", int(l.y), l.m, l.d) + sep + F("%02d:%02d:%02d", l.hh, l.mm, l.ss);
  if (digits) txt += "." + frac;
  const int a = off < 0 ? -off : off;
  if (off == 0) txt += r.Pick<std::string>({"Z", "", "+00:00"});
  else txt += F("%c%02d:%02d", off < 0 ? '-' : '+', a / 60, a % 60);
  back(txt, t / kS * kS + part);
}

void Local(Ctx& ctx, Rng& r, const Zone& z) {
  const uint64_t t = PickNs(r, kDay, 4102444800ULL * kS);
  if (z.fixed) {
    const auto c = ToCivil(static_cast<int64_t>(t / kS) + z.off_min * 60, t % kS);
    const std::string ms = c.ns / 1000000 ? F(".%03d", int(c.ns / 1000000)) : "";
    auto same = [&](const std::string& what, const std::string& got, const std::string& want) {
      ctx.Count("texts");
      if (got != want) ctx.Viol(what, "zone " + z.tz + " got '" + got + "' want '" + want + "' ns " + std::to_string(t));
    };
    same("local ISO time", mdf::MdfHelper::NsToLocalIsoTime(t), F("%04d-%02d-%02d %02d:%02d:%02d", int(c.y), c.m, c.d, c.hh, c.mm, c.ss) + ms);
    same("local date", mdf::MdfHelper::NanoSecToDDMMYYYY(t), F("%02d:%02d:%04d", c.d, c.m, int(c.y)));
    same("local time", mdf::MdfHelper::NanoSecToHHMMSS(t), F("%02d:%02d:%02d", c.hh, c.mm, c.ss));
    if (mdf::MdfHelper::TimeZoneOffset() != z.off_min * 60) ctx.Viol("zone offset", z.tz + " " + std::to_string(mdf::MdfHelper::TimeZoneOffset()));
    if (mdf::MdfHelper::NanoSecToLocal(t) != t + static_cast<uint64_t>(z.off_min * 60) * kS) ctx.Viol("local nanoseconds", z.tz);
    mdf::LocalTimestamp lt(t);
    if (lt.GetTimeNs() != t || lt.GetUtcTimeNs() != t - static_cast<uint64_t>(z.off_min * 60) * kS) ctx.Viol("local timestamp instant", z.tz + " " + std::to_string(lt.GetUtcTimeNs()));
    if (lt.GetTimezoneMin() != z.std_min || lt.GetDstMin() != z.off_min - z.std_min) ctx.Viol("local timestamp offsets", z.tz + " zone " + std::to_string(lt.GetTimezoneMin()) + " dst " + std::to_string(lt.GetDstMin()));
  }
  const auto c = ToCivil(static_cast<int64_t>(t / kS), 0);
  if (mdf::MdfHelper::NanoSecUtcToDDMMYYYY(t) != F("%02d:%02d:%04d", c.d, c.m, int(c.y)) || mdf::MdfHelper::NanoSecUtcToHHMMSS(t) != F("%02d:%02d:%02d", c.hh, c.mm, c.ss)) ctx.Viol("UTC text", std::to_string(t));
  const auto tzm = static_cast<int16_t>(r.Range(-720, 840)), dst = static_cast<int16_t>(r.Pick({0, 60, 30, -60}));
  const auto k = ToCivil(static_cast<int64_t>(t / kS) + (tzm + dst) * 60, 0);
  if (mdf::MdfHelper::NanoSecTzToDDMMYYYY(t, tzm, dst) != F("%02d:%02d:%04d", k.d, k.m, int(k.y)) || mdf::MdfHelper::NanoSecTzToHHMMSS(t, tzm, dst) != F("%02d:%02d:%02d", k.hh, k.mm, k.ss)) ctx.Viol("zone text", std::to_string(t));
  // CANopen forms
  const uint64_t o = PickNs(r, 441763200ULL * kS + kDay, 3597523200ULL * kS - 2 * kDay);   // 1984-01-02 .. 2083
  const auto da = mdf::MdfHelper::NsToCanOpenDateArray(o), ta = mdf::MdfHelper::NsToCanOpenTimeArray(o);
  ctx.Count("canopen_forms", 2);
  if (da.size() != 7 || mdf::MdfHelper::CanOpenDateArrayToNs(da) != o - o % 1000000) ctx.Viol("CANopen date", z.tz + " " + std::to_string(o) + " back " + std::to_string(mdf::MdfHelper::CanOpenDateArrayToNs(da)));
  if (ta.size() != 6 || mdf::MdfHelper::CanOpenTimeArrayToNs(ta) != o - o % 1000000) ctx.Viol("CANopen time", z.tz + " " + std::to_string(o) + " back " + std::to_string(mdf::MdfHelper::CanOpenTimeArrayToNs(ta)));
  if (z.fixed && da.size() == 7) {   // the stored fields themselves
    const auto v = ToCivil(static_cast<int64_t>(o / kS) + z.off_min * 60, o % kS);
    const int64_t days = (static_cast<int64_t>(o / kS) + z.off_min * 60) / 86400;
    const int wd = static_cast<int>((days + 3) % 7) + 1;   // 1970-01-01 was a Thursday
    if ((da[0] | da[1] << 8) != v.ss * 1000 + int(v.ns / 1000000) || (da[2] & 0x3f) != v.mm || (da[3] & 0x1f) != v.hh || (da[4] & 0x1f) != v.d || (da[4] >> 5) != wd || da[5] != v.m || da[6] != v.y % 100)
      ctx.Viol("CANopen date fields", z.tz + " " + std::to_string(o) + " " + Hex(da.data(), 7));
  }
}

enum Kind { kPlain, kUtc, kLocal, kTz };
struct Stamp { int kind; uint64_t t; int16_t tz = 0, dst = 0; std::unique_ptr<mdf::ITimestamp> p; };
Stamp MakeStamp(Rng& r) {
  Stamp s{static_cast<int>(r.Below(4)), PickNs(r, kDay, 4102444800ULL * kS)};
  if (s.kind == kUtc) s.p = std::make_unique<mdf::UtcTimestamp>(s.t);
  if (s.kind == kLocal) s.p = std::make_unique<mdf::LocalTimestamp>(s.t);
  if (s.kind == kTz) {
    s.tz = static_cast<int16_t>(r.Chance(0.6) ? r.Range(-12, 14) * 60 : r.Range(-720, 840));
    s.dst = static_cast<int16_t>(r.Pick({0, 60, 60, 30, -60}));
    s.p = std::make_unique<mdf::TimezoneTimestamp>(s.t, s.tz, s.dst);
  }
  return s;
}
std::string St(const Stamp& s) { return "kind " + std::to_string(s.kind) + " " + std::to_string(s.t) + " tz " + std::to_string(s.tz) + " dst " + std::to_string(s.dst); }
void Check4(Ctx& ctx, const Stamp& s, const mdf::IMdfTimestamp* got, uint64_t plain, const std::string& what) {
  if (!got) { ctx.Viol(what + " missing", ""); return; }
  ctx.Count("stored_times");
  const std::string m = St(s) + " got " + std::to_string(got->GetTimeNs()) + " tz " + std::to_string(static_cast<int16_t>(got->GetTzOffsetMin())) + " dst " + std::to_string(static_cast<int16_t>(got->GetDstOffsetMin()));
  if (got->GetTimeNs() != s.t || plain != s.t) ctx.Viol(what + " time", m);
  if (static_cast<int16_t>(got->GetTzOffsetMin()) != s.tz || static_cast<int16_t>(got->GetDstOffsetMin()) != s.dst) ctx.Viol(what + " offsets", m);
  const auto want = s.kind == kLocal ? mdf::timetype::kLocalTime : s.kind == kTz ? mdf::timetype::kTimezoneTime : mdf::timetype::kUtcTime;
  if (got->GetTimeType() != want) ctx.Viol(what + " kind of time", m);
}

void Stored(Ctx& ctx, Rng& r, const Zone& z) {
  const bool mdf3 = r.Chance(0.4);
  Stamp hs = MakeStamp(r);
  Stamp fs = MakeStamp(r);
  const bool by_start = r.Chance(0.6);
  std::vector<uint64_t> dates, times;
  auto mem = std::make_shared<MemBuf>();
  {
    auto w = mdf::MdfFactory::CreateMdfWriter(mdf3 ? mdf::MdfWriterType::Mdf3Basic : mdf::MdfWriterType::Mdf4Basic);
    auto sb = std::static_pointer_cast<std::streambuf>(mem);
    if (!w->Init(sb)) { ctx.Viol("init failed", ""); return; }
    auto* hd = w->Header();
    if (!mdf3) if (auto* h = hd->CreateFileHistory()) { h->Description("x"); if (fs.p) h->Time(*fs.p); else h->Time(fs.t); }
    if (!by_start) { if (hs.p) hd->StartTime(*hs.p); else hd->StartTime(hs.t); }
    mdf::IChannel *cd = nullptr, *ct = nullptr, *ma = nullptr;
    mdf::IChannelGroup* cg = nullptr;
    if (by_start) {
      auto* dg = w->CreateDataGroup();
      cg = mdf::MdfWriter::CreateChannelGroup(dg);
      cg->Name("g");
      ma = mdf::MdfWriter::CreateChannel(cg);
      ma->Name("t"); ma->Type(ChannelType::Master); ma->Sync(mdf::ChannelSyncType::Time); ma->DataType(ChannelDataType::FloatLe); ma->DataBytes(8);
      if (!mdf3) {
        cd = mdf::MdfWriter::CreateChannel(cg); cd->Name("d"); cd->DataType(ChannelDataType::CanOpenDate); cd->DataBytes(7);
        ct = mdf::MdfWriter::CreateChannel(cg); ct->Name("c"); ct->DataType(ChannelDataType::CanOpenTime); ct->DataBytes(6);
      }
      if (!w->InitMeasurement()) { ctx.Viol("InitMeasurement failed", ""); return; }
      if (hs.p) w->StartMeasurement(*hs.p); else w->StartMeasurement(hs.t);
      const uint64_t start = w->StartTime();
      const uint64_t utc = hs.kind == kLocal ? hs.p->GetUtcTimeNs() : hs.t;
      if (start != utc) ctx.Viol("writer start time", St(hs) + " " + std::to_string(start));
      const int n = static_cast<int>(r.Range(1, 5));
      for (int i = 0; i < n; ++i) {
        const uint64_t a = PickNs(r, 441763200ULL * kS + kDay, 3597523200ULL * kS - 2 * kDay), b = PickNs(r, 441763200ULL * kS + kDay, 3597523200ULL * kS - 2 * kDay);
        if (cd) { cd->SetChannelValue(a); ct->SetChannelValue(b); dates.push_back(a); times.push_back(b); }
        w->SaveSample(*cg, start + static_cast<uint64_t>(i) * kS);
      }
      w->StopMeasurement(start + 10 * kS);
    } else if (!w->InitMeasurement()) { ctx.Viol("InitMeasurement failed", ""); return; }
    if (!w->FinalizeMeasurement()) { ctx.Viol("Finalize failed", ""); return; }
  }
  // Dates are stored in local time: read in the same zone. Everything else is
  // independent of the zone of the reading process.
  if (!dates.empty()) {
    const Content c = ReadContent(std::static_pointer_cast<std::streambuf>(std::make_shared<MemBuf>(mem->Data())));
    if (!c.ok || c.dg.size() != 1 || c.dg[0].cg.size() != 1 || c.dg[0].cg[0].ch.size() != 3) { ctx.Viol("read failed", c.err); return; }
    for (size_t i = 0; i < dates.size(); ++i) {
      const auto &d = c.dg[0].cg[0].ch[1].v.at(i)[0], &t = c.dg[0].cg[0].ch[2].v.at(i)[0];
      ctx.Count("channel_times", 2);
      if (!d.valid || d.u != dates[i] - dates[i] % 1000000) ctx.Viol("CANopen date channel", z.tz + " got " + Str(d) + " want " + std::to_string(dates[i]));
      if (!t.valid || t.u != times[i] - times[i] % 1000000) ctx.Viol("CANopen time channel", z.tz + " got " + Str(t) + " want " + std::to_string(times[i]));
      const double rel = c.dg[0].cg[0].ch[0].v.at(i)[0].d;
      if (std::fabs(rel - double(i)) > 1e-9) ctx.Viol("relative time", std::to_string(rel));
    }
  }
  const Zone other = PickZone(r);
  Use(other);
  mdf::MdfReader rd(std::static_pointer_cast<std::streambuf>(std::make_shared<MemBuf>(mem->Data())));
  if (!rd.ReadEverythingButData()) { ctx.Viol("read failed", ""); Use(z); return; }
  auto* hd = rd.GetHeader();
  if (!mdf3) {
    Check4(ctx, hs, hd->StartTimestamp(), hd->StartTime(), "header start");
    if (rd.GetStartTime() != hs.t) ctx.Viol("reader start time", St(hs));
    bool found = false;
    for (auto* h : hd->FileHistories()) if (h->Description() == "x") { found = true; Check4(ctx, fs, h->StartTimestamp(), h->Time(), "history"); }
    if (!found) ctx.Viol("history record lost", "");
  } else {
    const auto* st = hd->StartTimestamp();
    const int64_t off = static_cast<int16_t>(st->GetTzOffsetMin());
    const int64_t std_min = hs.kind == kTz ? hs.tz : z.std_min;
    // whole hours only: the format keeps no minutes. Zones with daylight
    // saving rules depend on the present date for this form.
    if ((z.fixed || hs.kind == kTz) && std_min % 60 == 0) {
      ctx.Count("stored_times");
      const uint64_t utc = hs.kind == kLocal ? hs.t - static_cast<uint64_t>(z.off_min * 60) * kS : hs.t;
      const std::string m = St(hs) + " zone " + z.tz + " got " + std::to_string(st->GetTimeNs()) + " offset " + std::to_string(off);
      if (off != std_min) ctx.Viol("MDF3 zone offset", m);
      if (st->GetTimeNs() - static_cast<uint64_t>(std_min * 60) * kS != utc) ctx.Viol("MDF3 instant", m);
      if (hd->StartTime() != st->GetTimeNs() || rd.GetStartTime() != hd->StartTime()) ctx.Viol("MDF3 start time", m);
    }
    if (st->GetTimeType() != mdf::timetype::kLocalTimeTz) ctx.Viol("MDF3 kind of time", "");
    // the printed date and time in the file: local wall clock
    const int64_t wall = hs.kind == kTz ? static_cast<int64_t>(hs.t / kS) + (hs.tz + hs.dst) * 60 : hs.kind == kLocal ? static_cast<int64_t>(hs.t / kS) : static_cast<int64_t>(hs.t / kS) + z.off_min * 60;
    if (z.fixed || hs.kind == kTz || hs.kind == kLocal) {
      const auto c = ToCivil(wall, 0);
      const auto& b = mem->Data();
      const std::string want = F("%02d:%02d:%04d%02d:%02d:%02d", c.d, c.m, int(c.y), c.hh, c.mm, c.ss);
      const std::string got(b.begin() + 64 + 18, b.begin() + 64 + 36);
      ctx.Count("stored_times");
      if (got != want) ctx.Viol("MDF3 date and time text", St(hs) + " zone " + z.tz + " got '" + got + "' want '" + want + "'");
    }
  }
  Use(z);
}
}  // namespace

void RunCase(Ctx& ctx) {
  auto& r = ctx.rng;
  const Zone z = PickZone(r);
  Use(z);
  for (int i = 0; i < 6; ++i) Text(ctx, r);
  for (int i = 0; i < 6; ++i) Local(ctx, r, z);
  for (int i = 0; i < 3; ++i) Stored(ctx, r, z);
  setenv("TZ", "UTC0", 1); tzset();
  ctx.nontrivial = true;
  ctx.shape = z.tz + " " + std::to_string(r.U64());
}
}  // namespace vh
