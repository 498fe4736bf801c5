// Independent MDF 3 encoder: conforming files of other tools (versions 3.00 to
// 3.30, both default byte orders, packed channels, any block order).
#pragma once
#include "mdfenc.h"
namespace vh {
struct EText { size_t dg, cg, ch; std::vector<std::string> v; };
struct Hdr3 { std::string author, department, project, subject, comment, date, time; uint64_t ns = 0; };
struct EncFile3 : EncFile { std::vector<EText> text; Hdr3 hdr; bool big = false; int version = 330; };

class Enc3 {
 public:
  Enc3(Rng& r, const EncOpt& o) : r_(r), o_(o) {}
  EncFile3 Build() {
    f_.big = big_ = r_.Chance(1.0 / 3);
    static const int ver[] = {300, 310, 320, 330};
    f_.version = ver_ = ver[r_.Below(4)];
    const int hd = Add("HD");
    Link(hd, -1); const size_t tx = b_[hd].d.size(); Link(hd, -1); const size_t pr = b_[hd].d.size(); Link(hd, -1);
    const size_t nd = 1 + r_.Tail(o_.max_dg - 1);
    N(hd, nd, 2);
    auto& h = f_.hdr;
    struct tm t{}; t.tm_year = static_cast<int>(r_.Range(80, 180)); t.tm_mon = static_cast<int>(r_.Below(12)); t.tm_mday = static_cast<int>(r_.Range(1, 28));
    t.tm_hour = static_cast<int>(r_.Below(24)); t.tm_min = static_cast<int>(r_.Below(60)); t.tm_sec = static_cast<int>(r_.Below(60));
    char b[32]; strftime(b, sizeof b, "%d:%m:%Y", &t); h.date = b; strftime(b, sizeof b, "%H:%M:%S", &t); h.time = b;
    h.ns = static_cast<uint64_t>(timegm(&t)) * 1000000000ULL;
    h.author = Word(31); h.department = Word(31); h.project = Word(31); h.subject = Word(31); h.comment = r_.Chance(1.0 / 2) ? Word(200) : "";
    S(hd, h.date, 10, false); S(hd, h.time, 8, false); S(hd, h.author, 32); S(hd, h.department, 32); S(hd, h.project, 32); S(hd, h.subject, 32);
    if (ver_ >= 320) { h.ns += r_.Below(1000000000); N(hd, h.ns, 8); N(hd, 1, 2); N(hd, 0, 2); S(hd, "Local PC Reference Time", 32); }
    if (!h.comment.empty()) SetLink(hd, tx, Tx(h.comment));
    if (r_.Chance(1.0 / 4)) { const int p = Add("PR"); S(p, "program data", 12 + r_.Below(9)); SetLink(hd, pr, p); }
    int prev = -1;
    for (size_t d = 0; d < nd; ++d) {
      const int dg = Group(d);
      SetLink(prev < 0 ? hd : prev, 0, dg);
      prev = dg;
    }
    f_.want.ok = f_.want.finalized = true;
    Serialize(hd);
    f_.forms.push_back(big_ ? "big endian file" : "little endian file");
    f_.forms.push_back("version " + std::to_string(ver_));
    return std::move(f_);
  }

 private:
  struct Blk { std::string id; PBytes d; std::vector<std::pair<size_t, int>> ln; bool raw = false; };
  struct Fld {
    RCh c;
    size_t byte = 0; unsigned bit = 0; uint32_t bits = 0; size_t len = 0;
    int kind = 0;        // 0 number anywhere, 1 text, 2 bytes, 6 master float, 7 master integer, 10 canopen, 12 number with a text conversion
    int sig = 0;         // signal data type
    int conv = -1;       // -1 none, else MDF 3 conversion type
    std::vector<double> par; std::vector<std::string> txt;
    std::string longname, display;
  };
  struct Grp { std::vector<Fld> f; size_t data = 0, n = 0; uint64_t id = 0; std::string desc; std::vector<PBytes> rec; };

  int Add(const std::string& id) { b_.push_back({id, {}, {}}); return static_cast<int>(b_.size()) - 1; }
  void N(int b, uint64_t v, unsigned n) { for (unsigned i = 0; i < n; ++i) b_[b].d.push_back(uint8_t(v >> (8 * (big_ ? n - 1 - i : i)))); }
  void D(int b, double v) { uint64_t u; memcpy(&u, &v, 8); N(b, u, 8); }
  void S(int b, const std::string& s, size_t n, bool term = true) {
    for (size_t i = 0; i < n; ++i) b_[b].d.push_back(i < s.size() ? uint8_t(s[i]) : uint8_t(0));
    (void)term;
  }
  void Link(int b, int to) { b_[b].ln.push_back({b_[b].d.size(), to}); for (int i = 0; i < 4; ++i) b_[b].d.push_back(0); }
  void SetLink(int b, size_t off, int to) { for (auto& l : b_[b].ln) if (l.first == off) l.second = to; }
  std::string Word(size_t max) {
    static const char a[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 _-.:/<&>";
    std::string s; const size_t n = r_.Tail(max);
    for (size_t i = 0; i < n; ++i) s += a[r_.Below(sizeof a - 1)];
    while (!s.empty() && s.front() == ' ') s.erase(s.begin());
    while (!s.empty() && s.back() == ' ') s.pop_back();
    return s;
  }
  int Tx(const std::string& s) { const int t = Add("TX"); S(t, s, s.size() + 1 + r_.Tail(9)); return t; }
  bool Be(int sig) const { return sig <= 6 ? big_ : sig >= 9 && sig <= 12; }
  ChannelDataType Dt(int sig) const {
    const bool be = Be(sig);
    switch (sig) {
      case 0: case 9: case 13: return be ? ChannelDataType::UnsignedIntegerBe : ChannelDataType::UnsignedIntegerLe;
      case 1: case 10: case 14: return be ? ChannelDataType::SignedIntegerBe : ChannelDataType::SignedIntegerLe;
      case 7: return ChannelDataType::StringAscii;
      case 8: return ChannelDataType::ByteArray;
      default: return be ? ChannelDataType::FloatBe : ChannelDataType::FloatLe;
    }
  }

  Grp MakeGroup() {
    Grp g;
    g.desc = r_.Chance(1.0 / 2) ? Word(60) : "";
    g.n = r_.Chance(1.0 / 12) ? 0 : 1 + r_.Tail(o_.max_samples);
    auto area = [&](Fld& f) { g.data += r_.Tail(3); f.byte = g.data; g.data += f.len; };
    if (r_.Chance(1.0 / 25)) g.data = 0x1F00 + r_.Below(0x4000);   // beyond the reach of a 16 bit bit offset
    if (r_.Chance(4.0 / 5)) {
      Fld f; f.c.type = ChannelType::Master; f.c.unit = "s";
      static const int dbl[] = {3, 12, 16}, flt[] = {2, 11, 15}, uns[] = {0, 9, 13};
      switch (r_.Below(3)) {
        case 0: f.kind = 6; f.len = 8; f.bits = 64; f.sig = dbl[r_.Below(3)]; break;
        case 1: f.kind = 6; f.len = 4; f.bits = 32; f.sig = flt[r_.Below(3)]; break;
        default: f.kind = 7; f.len = 8; f.bits = static_cast<uint32_t>(r_.Range(16, 56)); f.bit = static_cast<unsigned>(r_.Below(8)); f.sig = uns[r_.Below(3)]; f.conv = 0; f.par = {0.5, 0.001}; break;
      }
      area(f);
      g.f.push_back(f);
    }
    const size_t nc = 1 + r_.Tail(o_.max_ch);
    for (size_t i = 0; i < nc; ++i) {
      Fld f; f.c.type = ChannelType::FixedLength;
      const uint64_t k = r_.Below(14);
      if (k < 8) f.kind = 0;
      else if (k < 10) { f.kind = 1; f.sig = 7; f.len = 1 + r_.Tail(20); f.bits = static_cast<uint32_t>(f.len * 8); area(f); }
      else if (k < 11) { f.kind = 2; f.sig = 8; f.len = 1 + r_.Tail(20); f.bits = static_cast<uint32_t>(f.len * 8); area(f); }
      else if (k < 12) { f.kind = 10; f.sig = 8; f.conv = r_.Chance(1.0 / 2) ? 132 : 133; f.len = f.conv == 132 ? 7 : 6; f.bits = static_cast<uint32_t>(f.len * 8); area(f); }
      else f.kind = 12;
      if (r_.Chance(1.0 / 3)) f.c.unit = r_.Chance(1.0 / 2) ? "m/s" : Word(19);
      f.c.desc = r_.Chance(1.0 / 3) ? Word(127) : "";
      g.f.push_back(f);
    }
    g.data += r_.Tail(10);
    if (g.data == 0) g.data = 1;
    for (auto& f : g.f) {
      if (f.kind == 12) {          // small integer or float of its own, mapped to text
        static const int sig[] = {0, 9, 13, 1, 10, 14, 2, 11, 15};
        f.sig = sig[r_.Below(9)];
        const bool fl = f.sig == 2 || f.sig == 11 || f.sig == 15;
        f.len = fl ? 4 : 1 + r_.Below(3); f.bits = static_cast<uint32_t>(f.len * 8);
        area(f);
        f.conv = r_.Chance(1.0 / 2) ? 11 : 12;
        const size_t n = 1 + r_.Tail(6);
        if (f.conv == 11) for (size_t k = 0; k < n; ++k) { f.par.push_back(static_cast<double>(k * 2)); f.txt.push_back("T" + std::to_string(k) + Word(28)); }
        else {
          f.par = {0, 0}; f.txt = {r_.Chance(3.0 / 4) ? "default" : ""};
          double at = 0;
          for (size_t k = 0; k < n; ++k) { const double lo = at + static_cast<double>(r_.Below(3)), hi = lo + static_cast<double>(1 + r_.Below(3)); f.par.push_back(lo); f.par.push_back(hi); f.txt.push_back("R" + std::to_string(k) + Word(40)); at = hi + 1; }
        }
      }
    }
    for (auto& f : g.f) {
      f.c.name = "c" + std::to_string(n_++) + "." + Word(18);
      if (ver_ >= 300 && r_.Chance(1.0 / 5)) { f.longname = f.c.name + "_long_" + Word(120) + "x"; }
      if (f.kind != 0) continue;
      static const int num[] = {0, 1, 2, 3, 9, 10, 11, 12, 13, 14, 15, 16};
      f.sig = num[r_.Below(12)];
      const bool f4 = f.sig == 2 || f.sig == 11 || f.sig == 15, f8 = f.sig == 3 || f.sig == 12 || f.sig == 16;
      if (f4 || f8) {
        f.bits = f4 ? 32 : 64;
        if (g.data < f.bits / 8) g.data = f.bits / 8;
        f.byte = r_.Below(g.data - f.bits / 8 + 1);
      } else {
        f.bits = static_cast<uint32_t>(r_.Chance(1.0 / 3) ? 8 * r_.Range(1, 8) : r_.Range(1, 64));
        f.bit = static_cast<unsigned>(r_.Below(std::min<uint64_t>(8, 64 - f.bits + 1)));
        const size_t n = (f.bit + f.bits + 7) / 8;
        if (n > g.data) g.data = n;
        f.byte = r_.Below(g.data - n + 1);
        if (r_.Chance(1.0 / 3)) {
          switch (r_.Below(3)) {
            case 0: f.conv = 0; f.par = {10, 0.5}; break;
            case 1: f.conv = 9; f.par = {0, 2, 1, 0, 0, 4}; break;
            default: f.conv = 1; f.par = {-10, 5, 0, 20, 50, 30, 1000, -7}; break;
          }
        }
      }
    }
    // the order of the channel list is free
    if (r_.Chance(1.0 / 2)) for (size_t i = g.f.size(); i > 1; --i) std::swap(g.f[i - 1], g.f[r_.Below(i)]);
    return g;
  }
  static double Raw(const Val& v) { return v.k == VK::U ? static_cast<double>(v.u) : v.k == VK::I ? static_cast<double>(v.i) : v.d; }
  void MakeRecords(Grp& g) {
    for (size_t i = 0; i < g.n; ++i) {
      PBytes rec(g.data);
      if (g.data < 0x1000 || i == 0) for (auto& x : rec) x = static_cast<uint8_t>(r_.U64());
      else for (size_t k = g.data > 600 ? g.data - 600 : 0; k < g.data; ++k) rec[k] = static_cast<uint8_t>(r_.U64());
      for (auto& f : g.f) {
        uint8_t* p = rec.data() + f.byte;
        if (f.kind == 1) {
          std::string t; const size_t n = r_.Below(f.len + 1);
          for (size_t k = 0; k < n; ++k) t += char(r_.Range(32, 126));
          std::copy(t.begin(), t.end(), p);
          if (n < f.len) p[n] = 0;
          if (r_.Chance(1.0 / 2)) std::fill(p + n, p + f.len, uint8_t(0));
        } else if (f.kind == 6) {
          const double t = 0.125 * static_cast<double>(i) + 0.5;
          if (f.bits == 64) { uint64_t u; memcpy(&u, &t, 8); PutBits(rec.data(), f.byte, 0, 64, Be(f.sig), u); }
          else { const float q = static_cast<float>(t); uint32_t u; memcpy(&u, &q, 4); PutBits(rec.data(), f.byte, 0, 32, Be(f.sig), u); }
        } else if (f.kind == 7) PutBits(rec.data(), f.byte, f.bit, f.bits, Be(f.sig), i * 7);
        else if (f.kind == 10) {
          if (f.conv == 132) {
            const uint64_t ms = r_.Below(60000);
            p[0] = uint8_t(ms); p[1] = uint8_t(ms >> 8); p[2] = uint8_t(r_.Below(60)); p[3] = uint8_t(r_.Below(24)); p[4] = uint8_t(r_.Range(1, 28)); p[5] = uint8_t(r_.Range(1, 12)); p[6] = uint8_t(r_.Below(100));
          } else { const uint64_t ms = r_.Below(86400000); for (int k = 0; k < 4; ++k) p[k] = uint8_t(ms >> (8 * k)); p[4] = uint8_t(r_.Below(200)); p[5] = uint8_t(r_.Below(60)); }
        } else if (f.kind == 12) {
          const bool fl = f.bits == 32;
          if (fl) { const float q = static_cast<float>(r_.Below(20)) * (r_.Chance(1.0 / 2) ? 0.5f : 1.0f); uint32_t u; memcpy(&u, &q, 4); PutBits(rec.data(), f.byte, 0, 32, Be(f.sig), u); }
          else PutBits(rec.data(), f.byte, 0, f.bits, Be(f.sig), r_.Below(20));
        }
      }
      g.rec.push_back(std::move(rec));
    }
    for (auto& f : g.f) {
      f.c.dt = f.kind == 10 ? (f.conv == 132 ? ChannelDataType::CanOpenDate : ChannelDataType::CanOpenTime) : Dt(f.sig);
      f.c.bits = f.bits;
      for (auto& rec : g.rec) { Val v = PValue(f.c.dt, rec.data(), g.data, f.byte, f.bit, f.bits); v.valid = true; f.c.v.push_back({v}); }
    }
  }
  int Conv(const Fld& f) {
    const int cc = Add("CC");
    std::vector<int> tx;
    if (f.conv == 12) for (auto& t : f.txt) tx.push_back(t.empty() ? -1 : Tx(t));
    N(cc, 0, 2); D(cc, 0); D(cc, 0); S(cc, f.c.unit, 20);
    N(cc, f.conv < 0 ? 65535 : static_cast<uint64_t>(f.conv), 2);
    switch (f.conv) {
      case 1: N(cc, f.par.size() / 2, 2); for (double p : f.par) D(cc, p); break;
      case 11: N(cc, f.par.size(), 2); for (size_t i = 0; i < f.par.size(); ++i) { D(cc, f.par[i]); S(cc, f.txt[i], 32); } break;
      case 12: N(cc, f.txt.size(), 2); for (size_t i = 0; i < f.txt.size(); ++i) { D(cc, f.par[2 * i]); D(cc, f.par[2 * i + 1]); Link(cc, tx[i]); } break;
      case -1: case 132: case 133: N(cc, 0, 2); break;
      default: N(cc, f.par.size(), 2); for (double p : f.par) D(cc, p); break;
    }
    return cc;
  }
  int Channel(Fld& f) {
    const int cc = f.conv >= 0 || (!f.c.unit.empty() && !(f.c.type == ChannelType::Master && r_.Chance(1.0 / 2))) || r_.Chance(1.0 / 6) ? Conv(f) : -1;
    const int cn = Add("CN");
    Link(cn, -1); Link(cn, cc);
    int ce = -1;
    if (r_.Chance(1.0 / 6)) {
      ce = Add("CE");
      if (r_.Chance(1.0 / 2)) { N(ce, 2, 2); N(ce, 7, 2); N(ce, 0x1234, 4); S(ce, "a source", 80); S(ce, "ECU", 32); N(ce, 0, 4); }
      else { N(ce, 19, 2); N(ce, 77, 4); N(ce, 1, 4); S(ce, "message", 36); S(ce, "sender", 36); N(ce, 0, 4); }
    }
    Link(cn, ce); Link(cn, -1);
    Link(cn, r_.Chance(1.0 / 4) ? Tx("comment of a channel") : -1);
    N(cn, f.c.type == ChannelType::Master ? 1 : 0, 2);
    const std::string shortname = f.longname.empty() ? f.c.name : f.c.name.substr(0, 31);
    S(cn, shortname, 32); S(cn, f.c.desc, 128);
    const bool far = f.byte >= 0x2000;
    const size_t base = far ? f.byte / 0x2000 * 0x2000 : r_.Chance(1.0 / 6) ? r_.Below(f.byte + 1) : 0;
    N(cn, (f.byte - base) * 8 + f.bit, 2); N(cn, f.bits, 2); N(cn, static_cast<uint64_t>(f.sig), 2);
    N(cn, r_.Below(2), 2); D(cn, -1); D(cn, 1); D(cn, 0);
    const bool need = base > 0, lng = !f.longname.empty();
    if (need || lng || r_.Chance(3.0 / 4)) Link(cn, lng ? Tx(f.longname) : -1); else return cn;
    if (need || r_.Chance(3.0 / 4)) Link(cn, r_.Chance(1.0 / 4) ? Tx("display name") : -1); else { if (lng) f.c.name = f.longname; return cn; }
    if (need || r_.Chance(7.0 / 8)) N(cn, base, 2);
    if (lng) f.c.name = f.longname;
    return cn;
  }
  void Expect(const Grp& g, size_t d, size_t c, RCg& rc) {
    for (auto& f : g.f) {
      if (f.kind == 6 || f.conv == 0 || f.conv == 9 || f.conv == 1) {
        EEng e{d, c, rc.ch.size(), {}};
        for (auto& x : f.c.v) {
          const double v = Raw(x[0]);
          double o = v;
          if (f.conv == 0) o = f.par[0] + f.par[1] * v;
          if (f.conv == 9) o = (2 * v + 1) / 4;
          if (f.conv == 1) {
            const size_t n = f.par.size() / 2;
            if (v <= f.par[0]) o = f.par[1];
            else if (v >= f.par[2 * n - 2]) o = f.par[2 * n - 1];
            else for (size_t k = 0; k + 1 < n; ++k) if (v >= f.par[2 * k] && v <= f.par[2 * k + 2]) { o = f.par[2 * k + 1] + (v - f.par[2 * k]) * (f.par[2 * k + 3] - f.par[2 * k + 1]) / (f.par[2 * k + 2] - f.par[2 * k]); break; }
          }
          e.v.push_back(o);
        }
        f_.eng.push_back(std::move(e));
      }
      if (f.conv == 12 || f.conv == 11) {
        EText t{d, c, rc.ch.size(), {}};
        const bool fl = IsFloat(f.c.dt);
        for (auto& x : f.c.v) {
          const double v = Raw(x[0]);
          std::string o = f.conv == 12 ? f.txt[0] : "\x01";      // \x01: no entry
          if (f.conv == 11) { for (size_t k = 0; k < f.par.size(); ++k) if (f.par[k] == v) o = f.txt[k]; }
          else for (size_t k = 1; k < f.txt.size(); ++k) if (v >= f.par[2 * k] && (fl ? v < f.par[2 * k + 1] : v <= f.par[2 * k + 1])) { o = f.txt[k]; break; }
          t.v.push_back(o);
        }
        f_.text.push_back(std::move(t));
      }
      rc.ch.push_back(f.c);
    }
  }
  int Group(size_t dgi) {
    const int dg = Add("DG");
    const size_t ng = r_.Chance(1.0 / 2) ? 1 : 1 + r_.Tail(o_.max_cg - 1);
    std::vector<Grp> g;
    for (size_t i = 0; i < ng; ++i) { g.push_back(MakeGroup()); MakeRecords(g.back()); }
    const unsigned ids = ng > 1 || r_.Chance(1.0 / 6) ? 1 + static_cast<unsigned>(r_.Below(2)) : 0;
    std::set<uint64_t> used;
    for (auto& x : g) do x.id = ids ? r_.Below(256) : r_.Below(2); while (!used.insert(x.id).second);
    Link(dg, -1); const size_t cgl = b_[dg].d.size(); Link(dg, -1); const size_t trl = b_[dg].d.size(); Link(dg, -1); const size_t dtl = b_[dg].d.size(); Link(dg, -1);
    N(dg, ng, 2); N(dg, ids, 2);
    if (r_.Chance(1.0 / 2)) N(dg, 0, 4);
    if (r_.Chance(1.0 / 5)) {
      const int t = Add("TR"); Link(t, r_.Chance(1.0 / 2) ? Tx("trigger") : -1);
      const size_t n = r_.Below(4); N(t, n, 2);
      for (size_t i = 0; i < n; ++i) { D(t, 1.5); D(t, 0.5); D(t, 2); }
      SetLink(dg, trl, t);
    }
    PBytes s;
    std::vector<size_t> pos(ng, 0), left;
    for (size_t i = 0; i < ng; ++i) if (g[i].n) left.push_back(i);
    const bool burst = r_.Chance(1.0 / 3);
    while (!left.empty()) {
      const size_t w = r_.Below(left.size()), i = left[w], cnt = burst ? 1 + r_.Below(8) : 1;
      for (size_t k = 0; k < cnt && pos[i] < g[i].n; ++k, ++pos[i]) {
        if (ids) s.push_back(uint8_t(g[i].id));
        s.insert(s.end(), g[i].rec[pos[i]].begin(), g[i].rec[pos[i]].end());
        if (ids == 2) s.push_back(uint8_t(g[i].id));
      }
      if (pos[i] >= g[i].n) left.erase(left.begin() + static_cast<long>(w));
    }
    if (!s.empty()) { const int x = Add("DT"); b_[x].raw = true; b_[x].d = s; SetLink(dg, dtl, x); }
    f_.want.dg.emplace_back();
    int prev = -1;
    for (size_t i = 0; i < ng; ++i) {
      const int cg = Add("CG");
      Link(cg, -1); const size_t cnl = b_[cg].d.size(); Link(cg, -1); Link(cg, g[i].desc.empty() ? -1 : Tx(g[i].desc));
      N(cg, g[i].id, 2); N(cg, g[i].f.size(), 2); N(cg, g[i].data, 2); N(cg, g[i].n, 4);
      if (ver_ >= 330) {
        int sr = -1;
        if (g[i].n && r_.Chance(1.0 / 5)) {   // a sample reduction: mean, minimum, maximum records
          const int dt = Add("RD"); b_[dt].raw = true;
          const size_t n = 1 + r_.Below(3);
          for (size_t k = 0; k < 3 * n; ++k) b_[dt].d.insert(b_[dt].d.end(), g[i].rec[0].begin(), g[i].rec[0].end());
          sr = Add("SR"); Link(sr, -1); Link(sr, dt); N(sr, n, 4); D(sr, 1.0);
          f_.forms.push_back("sample reduction");
        }
        Link(cg, sr);
      }
      int pc = -1;
      for (auto& f : g[i].f) { const int cn = Channel(f); SetLink(pc < 0 ? cg : pc, pc < 0 ? cnl : 0, cn); pc = cn; }
      RCg rc; rc.desc = g[i].desc; rc.nof = g[i].n; rc.rec_id = g[i].id;
      Expect(g[i], dgi, i, rc);
      f_.want.dg.back().cg.push_back(std::move(rc));
      SetLink(prev < 0 ? dg : prev, prev < 0 ? cgl : 0, cg);
      prev = cg;
      f_.shape += "g" + std::to_string(g[i].n) + "/" + std::to_string(g[i].data) + " ";
    }
    f_.shape += "ids" + std::to_string(ids) + " ";
    f_.forms.push_back("record id mode " + std::to_string(ids));
    if (ng > 1) f_.forms.push_back("unsorted data");
    return dg;
  }
  void Serialize(int hd) {
    std::vector<int> order;
    for (size_t i = 1; i < b_.size(); ++i) order.push_back(static_cast<int>(i));
    const uint64_t mode = r_.Below(3);
    if (mode == 1) for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r_.Below(i)]);
    if (mode == 2) std::reverse(order.begin(), order.end());
    order.insert(order.begin(), hd);
    std::vector<uint64_t> pos(b_.size(), 0);
    uint64_t at = 64;
    const bool gaps = r_.Chance(1.0 / 3);
    for (int i : order) { pos[i] = at; at += b_[i].d.size() + (b_[i].raw ? 0 : 4); if (gaps) at += r_.Tail(30); }
    auto& o = f_.bytes;
    o.assign(at, 0);
    for (size_t i = 64; i < o.size(); ++i) o[i] = gaps ? static_cast<uint8_t>(r_.U64()) : 0;
    char vt[9]; snprintf(vt, sizeof vt, "%d.%02d    ", ver_ / 100, ver_ % 100);
    memcpy(o.data(), "MDF     ", 8); memcpy(o.data() + 8, vt, 8); memcpy(o.data() + 16, "othertl ", 8);
    auto put16 = [&](size_t p, unsigned v) { o[p + (big_ ? 1 : 0)] = uint8_t(v); o[p + (big_ ? 0 : 1)] = uint8_t(v >> 8); };
    put16(24, big_ ? 1 : 0); put16(28, static_cast<unsigned>(ver_));
    for (int i : order) {
      auto& k = b_[i];
      for (auto& l : k.ln) { const uint64_t p = l.second < 0 ? 0 : pos[l.second]; for (unsigned q = 0; q < 4; ++q) k.d[l.first + q] = uint8_t(p >> (8 * (big_ ? 3 - q : q))); }
      size_t w = pos[i];
      if (!k.raw) {
        o[w] = uint8_t(k.id[0]); o[w + 1] = uint8_t(k.id[1]);
        put16(w + 2, static_cast<unsigned>(k.d.size() + 4));
        w += 4;
      }
      std::copy(k.d.begin(), k.d.end(), o.begin() + static_cast<long>(w));
    }
    f_.forms.push_back(mode == 0 ? "creation order" : mode == 1 ? "shuffled blocks" : "reversed blocks");
  }
  Rng& r_;
  EncOpt o_;
  EncFile3 f_;
  std::vector<Blk> b_;
  bool big_ = false;
  int ver_ = 330, n_ = 0;
};
inline EncFile3 EncodeMdf3(Rng& r, const EncOpt& o = {}) { return Enc3(r, o).Build(); }
}  // namespace vh
