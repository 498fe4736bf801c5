// Independent MDF 4 encoder: synthesises conforming files whose layout the
// library's own writer never produces, together with the content they define.
#pragma once
#include <zlib.h>
#include "mdfparse.h"
namespace vh {
struct EEng { size_t dg, cg, ch; std::vector<double> v; };
// a sample reduction: for each interval the sample whose record is the mean, the minimum, the maximum
struct ESr { size_t dg = 0, cg = 0; int cg_blk = -1, blk = -1; int64_t pos = 0; uint64_t n = 0; double interval = 0; unsigned sync = 1, flags = 0; std::vector<size_t> idx; };
struct EncFile { PBytes bytes; Content want; std::vector<EEng> eng; std::vector<ESr> sr; std::string shape; std::vector<std::string> forms; };
struct EncOpt {
  size_t max_dg = 3, max_cg = 4, max_ch = 9, max_samples = 40;
  bool arrays = true, vlsd = true, vlsd_cg = true, mlsd = true, nested = true, dv = true;
  double sr = 1.0 / 8; size_t sr_len = 6;   // sample reductions
};

inline void Put(PBytes& d, uint64_t v, unsigned n) { for (unsigned i = 0; i < n; ++i) d.push_back(i < 8 ? uint8_t(v >> (8 * i)) : uint8_t(0)); }
inline void PutD(PBytes& d, double v) { uint64_t u; memcpy(&u, &v, 8); Put(d, u, 8); }
inline void PutBits(uint8_t* rec, size_t byte, unsigned bit, unsigned bits, bool be, uint64_t v) {
  const size_t n = (bit + bits + 7) / 8;
  for (unsigned k = 0; k < bits; ++k) {
    const unsigned pos = bit + k;
    uint8_t& x = rec[be ? byte + n - 1 - pos / 8 : byte + pos / 8];
    const uint8_t m = uint8_t(1u << (pos % 8));
    x = (v >> k & 1) ? uint8_t(x | m) : uint8_t(x & ~m);
  }
}
inline PBytes Zip(const PBytes& in, int level) {
  uLongf n = compressBound(static_cast<uLong>(in.size()));
  PBytes out(n);
  compress2(out.data(), &n, in.data(), static_cast<uLong>(in.size()), level);
  out.resize(n);
  return out;
}
inline PBytes TransposeBytes(const PBytes& in, size_t cols) {
  PBytes out = in;
  const size_t rows = cols ? in.size() / cols : 0;
  for (size_t r = 0; r < rows; ++r) for (size_t c = 0; c < cols; ++c) out[c * rows + r] = in[r * cols + c];
  return out;
}
inline std::string XmlText(const std::string& s) {
  std::string o;
  for (char c : s) { if (c == '&') o += "&amp;"; else if (c == '<') o += "&lt;"; else if (c == '>') o += "&gt;"; else o += c; }
  return o;
}

class Enc4 {
 public:
  Enc4(Rng& r, const EncOpt& o) : r_(r), o_(o) {}
  EncFile Build() {
    hd_ = Add("HD", 6);
    Put(b_[hd_].d, 1600000000000000000ULL + r_.Below(1000000000), 8); Put(b_[hd_].d, 0, 2); Put(b_[hd_].d, 0, 2);
    Put(b_[hd_].d, 0, 1); Put(b_[hd_].d, 0, 1); Put(b_[hd_].d, 0, 1); Put(b_[hd_].d, 0, 1); Put(b_[hd_].d, 0, 16);
    const int fh = Add("FH", 2);
    b_[fh].ln[1] = MdTx("created", "FHcomment", true);
    Put(b_[fh].d, 1600000000000000000ULL, 8); Put(b_[fh].d, 0, 8);
    b_[hd_].ln[1] = fh;
    const size_t nd = 1 + r_.Tail(o_.max_dg - 1);
    int prev = -1;
    for (size_t d = 0; d < nd; ++d) {
      const int dg = Group(d);
      if (prev < 0) b_[hd_].ln[0] = dg; else b_[prev].ln[0] = dg;
      prev = dg;
    }
    f_.want.ok = f_.want.finalized = true;
    Serialize();
    return std::move(f_);
  }

 private:
  struct Blk { std::string id; std::vector<int> ln; PBytes d; };
  struct Fld {
    RCh c;
    size_t byte = 0; unsigned bit = 0; uint32_t bits = 0; uint32_t flags = 0, inv = 0;
    int kind = 0;       // 0 anywhere, 1 text, 2 bytes, 3 VLSD SD, 4 VLSD CG, 5 MLSD, 6 master float, 7 master integer, 8 virtual, 9 array, 10 canopen
    size_t len = 0;     // bytes of the field
    bool be = false;
    double cc0 = 0, cc1 = 0; int cc = -1; bool lin = false;
    uint32_t inv_base = 0;
    std::vector<size_t> kids; int parent = -1;
    size_t mlsd = SIZE_MAX;
    PBytes sd;          // signal data of this channel
    std::map<PBytes, uint64_t> seen;
    std::vector<PBytes> vrec;  // records of the VLSD channel group
    size_t vcg = 0;
    int blk = -1;
  };
  struct Grp { std::vector<Fld> f; size_t data = 0, inval = 0, n = 0; uint64_t id = 0; std::string name; std::vector<PBytes> rec; };

  int Add(const std::string& id, size_t links) { b_.push_back({id, std::vector<int>(links, -1), {}}); return static_cast<int>(b_.size()) - 1; }
  int Tx(const std::string& s) {
    if (s.empty()) { if (r_.Chance(1.0 / 2)) return -1; }
    auto it = tx_.find(s);
    if (it != tx_.end() && r_.Chance(1.0 / 2)) return it->second;
    const int x = Add("TX", 0);
    b_[x].d.assign(s.begin(), s.end());
    b_[x].d.resize(s.size() + 1 + r_.Tail(20), 0);
    return tx_[s] = x;
  }
  int MdTx(const std::string& s, const std::string& root, bool force_md = false) {
    if (!force_md && r_.Chance(1.0 / 2)) return Tx(s);
    const int x = Add("MD", 0);
    const std::string t = "<" + root + "><TX>" + XmlText(s) + "</TX></" + root + ">";
    b_[x].d.assign(t.begin(), t.end());
    b_[x].d.resize(t.size() + 1 + r_.Tail(20), 0);
    return x;
  }
  int Fragment(const PBytes& s, const std::string& type, size_t rec, bool zip_ok, bool zip_must) {
    if (zip_must || (zip_ok && r_.Chance(1.0 / 2))) {
      const int x = Add("DZ", 0);
      auto& d = b_[x].d;
      const bool tr = r_.Chance(1.0 / 2);
      const size_t cols = r_.Chance(2.0 / 3) && rec ? rec : 1 + r_.Below(40);
      d.insert(d.end(), type.begin(), type.end());
      Put(d, tr ? 1 : 0, 1); Put(d, 0, 1); Put(d, tr ? cols : 0, 4); Put(d, s.size(), 8);
      const PBytes z = Zip(tr ? TransposeBytes(s, cols) : s, static_cast<int>(r_.Range(0, 9)));
      Put(d, z.size(), 8); d.insert(d.end(), z.begin(), z.end());
      f_.forms.push_back(tr ? "transposed fragment" : "deflated fragment");
      return x;
    }
    const int x = Add(type, 0);
    b_[x].d = s;
    f_.forms.push_back("plain fragment");
    return x;
  }
  // stores a byte stream in one of the forms the format permits; step = split granularity
  int Stream(const PBytes& s, const std::string& type, size_t rec, size_t step) {
    const bool ld = type == "DV" || type == "RV";
    if (s.empty() && r_.Chance(1.0 / 2)) return -1;
    const uint64_t form = r_.Below(5);
    if (form == 0) return Fragment(s, type, rec, false, false);
    if (form == 1 && !s.empty()) return Fragment(s, type, rec, false, true);
    // a list of fragments
    const bool hl = form != 2;
    std::vector<size_t> cut{0};
    const bool equal = r_.Chance(1.0 / 3) && !s.empty();
    bool many = false;
    if (equal) {
      const size_t units = std::max<size_t>(1, s.size() / step);
      const size_t len = step * (1 + r_.Below(units));
      while (cut.back() + len < s.size() && cut.size() < 60) cut.push_back(cut.back() + len);
      if (s.size() - cut.back() > len) { cut.assign(1, 0); }
      eq_len_ = cut.size() > 1 ? len : s.size();
    } else {
      many = s.size() > 100 && r_.Chance(1.0 / 30);
      const size_t k = many ? 200 + r_.Below(600) : r_.Tail(8);
      if (many) f_.forms.push_back("long list");
      for (size_t i = 0; i < k; ++i) cut.push_back(r_.Below(s.size() / step + 1) * step);
      std::sort(cut.begin(), cut.end());
    }
    std::vector<int> frag;
    std::vector<uint64_t> off;
    for (size_t i = 0; i < cut.size(); ++i) {
      const size_t e = i + 1 < cut.size() ? cut[i + 1] : s.size();
      PBytes part(s.begin() + cut[i], s.begin() + e);
      if (part.empty() && hl) f_.forms.push_back("empty fragment in zipped list"); else if (part.empty()) f_.forms.push_back("empty fragment");
      frag.push_back(Fragment(part, type, rec, hl && !part.empty(), false));
      off.push_back(cut[i]);
    }
    // distribute over a chain of list blocks
    int first = -1, prev = -1;
    const uint64_t deal = many ? r_.Below(3) : 2;
    for (size_t i = 0; i < frag.size();) {
      size_t n = deal == 0 ? frag.size() : deal == 1 ? 1 : std::min<size_t>(frag.size() - i, 1 + r_.Below(frag.size()));
      const int dl = Add(ld ? "LD" : "DL", 1 + n);
      for (size_t k = 0; k < n; ++k) b_[dl].ln[1 + k] = frag[i + k];
      auto& d = b_[dl].d;
      const bool times = v420_ && r_.Chance(1.0 / 4);
      uint32_t fl = (equal ? 1u : 0u) | (times ? 2u : 0u);
      if (ld) { Put(d, fl, 4); Put(d, n, 4); }
      else { Put(d, fl, 1); Put(d, 0, 3); Put(d, n, 4); }
      const uint64_t unit = ld ? rec : 1;
      if (equal) Put(d, eq_len_ / unit, 8); else for (size_t k = 0; k < n; ++k) Put(d, off[i + k] / unit, 8);
      if (times) for (size_t k = 0; k < n; ++k) Put(d, (i + k) * 1000, 8);
      if (first < 0) first = dl; else b_[prev].ln[0] = dl;
      prev = dl;
      i += n;
    }
    f_.forms.push_back(equal ? "equal length list" : "offset list");
    if (!hl) return first;
    const int h = Add("HL", 1);
    b_[h].ln[0] = first;
    Put(b_[h].d, equal ? 1 : 0, 2); Put(b_[h].d, r_.Below(2), 1); Put(b_[h].d, 0, 5);
    f_.forms.push_back("header list");
    return h;
  }

  static bool Be(ChannelDataType t) { return t == ChannelDataType::UnsignedIntegerBe || t == ChannelDataType::SignedIntegerBe || t == ChannelDataType::FloatBe; }
  std::string Name(const char* p) { return std::string(p) + std::to_string(n_++); }
  PBytes Text(ChannelDataType dt, const std::string& t, bool term) {
    PBytes p;
    if (dt == ChannelDataType::StringUTF16Le || dt == ChannelDataType::StringUTF16Be) {
      const bool be = dt == ChannelDataType::StringUTF16Be;
      for (size_t i = 0; i < t.size();) {
        const uint8_t c = static_cast<uint8_t>(t[i]);
        uint32_t cp; size_t n;
        if (c < 0x80) { cp = c; n = 1; } else if (c < 0xE0) { cp = c & 31; n = 2; } else if (c < 0xF0) { cp = c & 15; n = 3; } else { cp = c & 7; n = 4; }
        for (size_t k = 1; k < n; ++k) cp = cp << 6 | (static_cast<uint8_t>(t[i + k]) & 63);
        i += n;
        auto put = [&](uint32_t w) { if (be) { p.push_back(uint8_t(w >> 8)); p.push_back(uint8_t(w)); } else { p.push_back(uint8_t(w)); p.push_back(uint8_t(w >> 8)); } };
        if (cp >= 0x10000) { cp -= 0x10000; put(0xD800 + (cp >> 10)); put(0xDC00 + (cp & 0x3FF)); } else put(cp);
      }
      if (term) { p.push_back(0); p.push_back(0); }
    } else {
      p.assign(t.begin(), t.end());
      if (term) p.push_back(0);
    }
    return p;
  }
  std::string RandText(ChannelDataType dt) {
    if (dt == ChannelDataType::StringAscii) {
      std::string s; const size_t n = r_.Tail(24);
      for (size_t i = 0; i < n; ++i) s += char(r_.Range(1, 255));
      return s;       // ISO 8859-1 bytes
    }
    return r_.Chance(1.0 / 6) ? std::string() : Utf8(r_, r_.Tail(20));
  }
  Val TextVal(ChannelDataType dt, const std::string& t) {
    if (dt == ChannelDataType::StringAscii) return ValS(Latin1ToUtf8(reinterpret_cast<const uint8_t*>(t.data()), t.size()));
    return ValS(t);
  }

  Grp MakeGroup(bool may_vcg) {
    Grp g;
    g.name = r_.Chance(1.0 / 4) ? "" : Name("Group ");
    g.n = r_.Chance(1.0 / 12) ? 0 : 1 + r_.Tail(o_.max_samples);
    static const ChannelDataType kNum[] = {ChannelDataType::UnsignedIntegerLe, ChannelDataType::UnsignedIntegerBe, ChannelDataType::SignedIntegerLe,
                                           ChannelDataType::SignedIntegerBe, ChannelDataType::FloatLe, ChannelDataType::FloatBe};
    static const ChannelDataType kTxt[] = {ChannelDataType::StringAscii, ChannelDataType::StringUTF8, ChannelDataType::StringUTF16Le, ChannelDataType::StringUTF16Be};
    auto area = [&](Fld& f) { g.data += r_.Tail(3); f.byte = g.data; g.data += f.len; };
    // master
    if (r_.Chance(4.0 / 5)) {
      Fld f; f.c.name = Name("t"); f.c.type = ChannelType::Master; f.c.unit = "s";
      switch (r_.Below(4)) {
        case 0: f.kind = 6; f.len = 8; f.bits = 64; f.c.dt = r_.Chance(1.0 / 2) ? ChannelDataType::FloatLe : ChannelDataType::FloatBe; area(f); break;
        case 1: f.kind = 6; f.len = 4; f.bits = 32; f.c.dt = r_.Chance(1.0 / 2) ? ChannelDataType::FloatLe : ChannelDataType::FloatBe; area(f); break;
        case 2: f.kind = 7; f.len = 8; f.bits = static_cast<uint32_t>(r_.Range(16, 56)); f.bit = static_cast<unsigned>(r_.Below(8)); f.c.dt = kNum[r_.Below(2)]; f.lin = true; f.cc0 = 0.5; f.cc1 = 0.001; area(f); break;
        default: f.kind = 8; f.c.type = ChannelType::VirtualMaster; f.c.dt = ChannelDataType::UnsignedIntegerLe; f.lin = true; f.cc0 = r_.Unit(); f.cc1 = 0.25; break;
      }
      g.f.push_back(f);
    }
    const size_t nc = 1 + r_.Tail(o_.max_ch);
    size_t anywhere = 0;
    for (size_t i = 0; i < nc; ++i) {
      Fld f; f.c.name = Name("c"); f.c.type = ChannelType::FixedLength;
      f.c.unit = r_.Chance(1.0 / 3) ? "m/s" : ""; f.c.desc = r_.Chance(1.0 / 3) ? "a < b & c" : "";
      const uint64_t k = r_.Below(20);
      if (k < 9) { f.kind = 0; ++anywhere; }
      else if (k < 11) { f.kind = 1; f.c.dt = kTxt[r_.Below(4)]; f.len = 2 * (1 + r_.Tail(14)); f.bits = static_cast<uint32_t>(f.len * 8); area(f); }
      else if (k < 12) { f.kind = 2; f.c.dt = r_.Chance(3.0 / 4) ? ChannelDataType::ByteArray : ChannelDataType::MimeSample; f.len = 1 + r_.Tail(20); f.bits = static_cast<uint32_t>(f.len * 8); area(f); }
      else if (k < 14 && o_.vlsd) {
        f.kind = may_vcg && o_.vlsd_cg && r_.Chance(1.0 / 2) ? 4 : 3; f.c.type = ChannelType::VariableLength;
        f.c.dt = r_.Chance(2.0 / 3) ? kTxt[r_.Below(4)] : ChannelDataType::ByteArray;
        f.len = r_.Chance(1.0 / 4) ? 4 : 8; f.bits = static_cast<uint32_t>(f.len * 8); area(f);
      } else if (k < 15 && o_.mlsd) {
        Fld s; s.c.name = Name("size"); s.c.type = ChannelType::FixedLength; s.c.dt = kNum[r_.Below(2)]; s.kind = 11; s.len = 1 + r_.Below(4); s.bits = static_cast<uint32_t>(s.len * 8); area(s);
        f.kind = 5; f.c.type = ChannelType::MaxLength; f.c.dt = ChannelDataType::ByteArray; f.len = s.len > 1 && r_.Chance(0.1) ? 250 + r_.Below(300) : 1 + r_.Below(24); f.bits = static_cast<uint32_t>(f.len * 8); area(f);
        const bool before = r_.Chance(1.0 / 2);
        if (before) { g.f.push_back(s); f.mlsd = g.f.size() - 1; g.f.push_back(f); }
        else { f.mlsd = g.f.size() + 1; g.f.push_back(f); g.f.push_back(s); }
        continue;
      } else if (k < 16) { f.kind = 8; f.c.type = ChannelType::VirtualData; f.c.dt = ChannelDataType::UnsignedIntegerLe; f.lin = r_.Chance(1.0 / 2); f.cc0 = 3; f.cc1 = -2; }
      else if (k < 18 && o_.arrays) {
        f.kind = 9; f.c.dt = kNum[r_.Below(6)];
        const size_t eb = IsFloat(f.c.dt) ? (r_.Chance(1.0 / 2) ? 4 : 8) : 1 + r_.Below(8);
        const size_t nd = 1 + r_.Below(3); size_t prod = 1;
        for (size_t d = 0; d < nd; ++d) { f.c.shape.push_back(1 + r_.Below(4)); prod *= f.c.shape.back(); }
        f.bits = static_cast<uint32_t>(eb * 8); f.len = eb * prod; f.inv_base = r_.Chance(1.0 / 2); area(f);
      } else if (k < 19) { f.kind = 10; const bool date = r_.Chance(1.0 / 2); f.c.dt = date ? ChannelDataType::CanOpenDate : ChannelDataType::CanOpenTime; f.len = date ? 7 : 6; f.bits = static_cast<uint32_t>(f.len * 8); area(f); }
      else { f.kind = 0; ++anywhere; }
      g.f.push_back(f);
    }
    g.data += r_.Tail(10);
    if (g.data == 0) g.data = 1;
    // free numeric fields: anywhere, also on top of other fields
    for (auto& f : g.f) {
      if (f.kind != 0) continue;
      f.c.dt = kNum[r_.Below(6)];
      if (IsFloat(f.c.dt)) {
        static const uint32_t fb[] = {16, 32, 64};
        f.bits = fb[r_.Below(3)];
        while (f.bits / 8 > g.data) g.data = f.bits / 8;
        f.bit = 0;
        f.byte = r_.Below(g.data - f.bits / 8 + 1);
      } else {
        f.bits = static_cast<uint32_t>(r_.Chance(1.0 / 3) ? 8 * r_.Range(1, 8) : r_.Range(1, 64));
        f.bit = static_cast<unsigned>(r_.Below(std::min<uint64_t>(8, 64 - f.bits + 1)));
        const size_t n = (f.bit + f.bits + 7) / 8;
        if (n > g.data) g.data = n;
        f.byte = r_.Below(g.data - n + 1);
        if (r_.Chance(1.0 / 4)) { f.lin = true; f.cc0 = 10; f.cc1 = 0.5; }
      }
    }
    // compositions: some fixed length channels become members of the channel before
    if (o_.nested) for (size_t i = 1; i < g.f.size(); ++i) {
      auto& p = g.f[i - 1];
      if (p.kind == 2 && p.parent < 0 && g.f[i].kind == 0) { g.f[i].parent = static_cast<int>(i - 1); p.kids.push_back(i); }
      else if (g.f[i - 1].parent >= 0 && g.f[i].kind == 0 && r_.Chance(1.0 / 2)) { g.f[i].parent = g.f[i - 1].parent; g.f[static_cast<size_t>(g.f[i].parent)].kids.push_back(i); }
    }
    // invalidation bits
    if (r_.Chance(1.0 / 2)) {
      size_t need = 0;
      for (auto& f : g.f) {
        if (f.c.type == ChannelType::Master || f.kind == 8 || f.kind == 11 || r_.Chance(1.0 / 2)) continue;
        f.flags = 2; f.inv = static_cast<uint32_t>(r_.Below(40));
        size_t e = 1;
        for (auto x : f.c.shape) e *= x;
        need = std::max<size_t>(need, f.inv + (f.inv_base ? e : 1));
      }
      for (auto& f : g.f) if (f.c.type != ChannelType::Master && f.kind != 8 && f.kind != 11 && r_.Chance(0.03)) f.flags |= 1;
      if (need) g.inval = (need + 7) / 8 + r_.Below(2);
    }
    return g;
  }

  void MakeRecords(Grp& g) {
    for (size_t i = 0; i < g.n; ++i) {
      PBytes rec(g.data + g.inval);
      for (auto& x : rec) x = static_cast<uint8_t>(r_.U64());
      for (auto& f : g.f) {
        uint8_t* p = rec.data() + f.byte;
        if (f.kind == 1) {
          std::string t = RandText(f.c.dt);
          PBytes raw = Text(f.c.dt, t, false);
          while (raw.size() > f.len) {   // shorten by whole characters
            do { t.pop_back(); } while (f.c.dt != ChannelDataType::StringAscii && !t.empty() && (static_cast<uint8_t>(t.back()) & 0xC0) == 0x80);
            if (f.c.dt != ChannelDataType::StringAscii && !t.empty() && static_cast<uint8_t>(t.back()) >= 0xC0) t.pop_back();
            raw = Text(f.c.dt, t, false);
          }
          const size_t unit = f.c.dt == ChannelDataType::StringUTF16Le || f.c.dt == ChannelDataType::StringUTF16Be ? 2 : 1;
          std::copy(raw.begin(), raw.end(), p);
          if (raw.size() < f.len) for (size_t k = 0; k < unit && raw.size() + k < f.len; ++k) p[raw.size() + k] = 0;
          if (r_.Chance(1.0 / 2)) std::fill(p + raw.size(), p + f.len, uint8_t(0));
        } else if (f.kind == 3 || f.kind == 4) {
          PBytes pay;
          Val v;
          if (IsStr(f.c.dt)) { const std::string t = RandText(f.c.dt); pay = Text(f.c.dt, t, r_.Chance(2.0 / 3)); v = TextVal(f.c.dt, t); }
          else { pay.resize(r_.Chance(1.0 / 20) ? r_.Below(3000) : r_.Tail(40)); for (auto& x : pay) x = static_cast<uint8_t>(r_.U64()); v = ValB(pay); }
          uint64_t off = f.sd.size();
          if (f.kind == 3) {
            auto it = f.seen.find(pay);
            if (it != f.seen.end() && r_.Chance(1.0 / 2)) off = it->second;
            else { f.seen[pay] = off; Put(f.sd, pay.size(), 4); f.sd.insert(f.sd.end(), pay.begin(), pay.end()); }
          } else {
            Put(f.sd, pay.size(), 4); f.sd.insert(f.sd.end(), pay.begin(), pay.end());
            f.vrec.push_back(pay);
          }
          PutBits(rec.data(), f.byte, 0, f.bits, false, off);
          f.c.v.push_back({v});
        } else if (f.kind == 6) {
          const double t = 0.125 * static_cast<double>(i) + 0.5;
          if (f.bits == 64) { uint64_t u; memcpy(&u, &t, 8); PutBits(rec.data(), f.byte, 0, 64, Be(f.c.dt), u); }
          else { const float q = static_cast<float>(t); uint32_t u; memcpy(&u, &q, 4); PutBits(rec.data(), f.byte, 0, 32, Be(f.c.dt), u); }
        } else if (f.kind == 7) PutBits(rec.data(), f.byte, f.bit, f.bits, Be(f.c.dt), i * 7);
        else if (f.kind == 10) {
          if (f.c.dt == ChannelDataType::CanOpenDate) {
            const uint64_t ms = r_.Below(60000);
            p[0] = uint8_t(ms); p[1] = uint8_t(ms >> 8); p[2] = uint8_t(r_.Below(60)); p[3] = uint8_t(r_.Below(24)); p[4] = uint8_t(r_.Range(1, 28)); p[5] = uint8_t(r_.Range(1, 12)); p[6] = uint8_t(r_.Below(100));
          } else { const uint64_t ms = r_.Below(86400000); for (int k = 0; k < 4; ++k) p[k] = uint8_t(ms >> (8 * k)); }
        } else if (f.kind == 11) {
          size_t cap = 0;
          for (auto& m : g.f) if (m.kind == 5 && &g.f[m.mlsd] == &f) cap = m.len;
          PutBits(rec.data(), f.byte, 0, f.bits, Be(f.c.dt), r_.Below(cap + 1));
        }
      }
      if (g.inval) for (auto& f : g.f) if (f.flags & 2 && r_.Chance(2.0 / 3)) rec[g.data + f.inv / 8] &= static_cast<uint8_t>(~(1u << (f.inv % 8)));
      g.rec.push_back(std::move(rec));
    }
    // what the bytes mean
    for (size_t i = 0; i < g.n; ++i) {
      const auto& rec = g.rec[i];
      for (auto& f : g.f) {
        size_t e = 1;
        for (auto x : f.c.shape) e *= x;
        if (f.kind != 3 && f.kind != 4) {
          std::vector<Val> v;
          for (size_t k = 0; k < e; ++k) {
            if (f.kind == 8) v.push_back(ValU(i));
            else if (f.kind == 5) { auto& s = g.f[f.mlsd]; const uint64_t n = PBits(rec.data(), g.data, s.byte, 0, s.bits, Be(s.c.dt)); v.push_back(ValB(PBytes(rec.begin() + f.byte, rec.begin() + f.byte + n))); }
            else v.push_back(PValue(f.c.dt, rec.data(), g.data, f.byte + k * f.bits / 8, f.bit, f.bits));
          }
          f.c.v.push_back(std::move(v));
        }
        for (size_t k = 0; k < e; ++k) {
          auto& v = f.c.v[i][k];
          v.valid = (f.flags & 1) == 0;
          if (v.valid && (f.flags & 2)) { const size_t pos = f.inv + (f.inv_base ? k : 0); v.valid = !(rec[g.data + pos / 8] >> (pos % 8) & 1); }
        }
      }
    }
  }

  int Channel(Grp& g, size_t i, const std::vector<int>& vcg) {
    auto& f = g.f[i];
    const int cn = Add("CN", 8);
    f.blk = cn;
    b_[cn].ln[2] = Tx(f.c.name);
    if (f.lin) {
      const auto key = std::make_pair(f.cc0, f.cc1);
      auto it = cc_.find(key);
      if (it != cc_.end() && r_.Chance(1.0 / 2)) b_[cn].ln[4] = it->second;
      else {
        const int cc = Add("CC", 4);
        Put(b_[cc].d, 1, 1); Put(b_[cc].d, 0, 1); Put(b_[cc].d, 0, 2); Put(b_[cc].d, 0, 2); Put(b_[cc].d, 2, 2); PutD(b_[cc].d, 0); PutD(b_[cc].d, 0);
        PutD(b_[cc].d, f.cc0); PutD(b_[cc].d, f.cc1);
        b_[cn].ln[4] = cc_[key] = cc;
      }
    }
    if (r_.Chance(1.0 / 8)) b_[cn].ln[3] = Source();
    b_[cn].ln[6] = f.c.unit.empty() ? -1 : MdTx(f.c.unit, "CNunit");
    b_[cn].ln[7] = f.c.desc.empty() ? -1 : MdTx(f.c.desc, "CNcomment");
    if (f.kind == 3) { const int s = Stream(f.sd, "SD", 0, 1); b_[cn].ln[5] = s; }
    if (f.kind == 4) b_[cn].ln[5] = vcg[f.vcg];
    if (f.kind == 9) {
      const int ca = Add("CA", 1);
      auto& d = b_[ca].d;
      Put(d, 0, 1); Put(d, 0, 1); Put(d, f.c.shape.size(), 2); Put(d, 0, 4); Put(d, f.bits / 8, 4); Put(d, f.inv_base, 4);
      for (auto s : f.c.shape) Put(d, s, 8);
      b_[cn].ln[1] = ca;
    }
    auto& d = b_[cn].d;
    static const bool sync = true; (void)sync;
    const bool m = f.c.type == ChannelType::Master || f.c.type == ChannelType::VirtualMaster;
    Put(d, static_cast<uint64_t>(f.c.type), 1); Put(d, m ? 1 : 0, 1); Put(d, static_cast<uint64_t>(f.c.dt), 1); Put(d, f.bit, 1);
    Put(d, f.byte, 4); Put(d, f.bits, 4); Put(d, f.flags, 4); Put(d, f.flags & 2 ? f.inv : 0, 4); Put(d, r_.Chance(1.0 / 2) ? 0 : 255, 1); Put(d, 0, 1); Put(d, 0, 2);
    for (int k = 0; k < 6; ++k) PutD(d, 0);
    int prev = -1;
    for (size_t k : f.kids) {
      const int c = Channel(g, k, vcg);
      if (prev < 0) b_[cn].ln[1] = c; else b_[prev].ln[0] = c;
      prev = c;
    }
    f.c.bits = f.bits;
    return cn;
  }

  // a sample reduction: mean, minimum and maximum records per interval
  void Reduction(int cg, const Grp& g, size_t dgi) {
    int prev = -1;
    for (uint64_t k = 1 + r_.Below(3); k > 0; --k) {
      PBytes s, iv;
      ESr e;
      e.n = 1 + r_.Tail(o_.sr_len);
      e.interval = r_.Pick({1.0, 0.5, 10.25, 1e-3}); e.sync = 1 + static_cast<unsigned>(r_.Below(4)); e.flags = g.inval ? 1 : 0; e.dg = dgi; e.cg_blk = cg;
      const size_t rec = g.data + g.inval;
      const bool values = o_.dv && rec > 0 && r_.Chance(1.0 / 3);     // 4.20: values apart from invalidation bytes
      for (size_t q = 0; q < 3 * e.n; ++q) {
        const size_t i = r_.Below(g.rec.size());
        e.idx.push_back(i);
        const auto& b = g.rec[i];
        s.insert(s.end(), b.begin(), values ? b.begin() + static_cast<long>(g.data) : b.end());
        if (values) iv.insert(iv.end(), b.begin() + static_cast<long>(g.data), b.end());
      }
      const int sr = Add("SR", 2);
      if (!values) { b_[sr].ln[1] = Stream(s, "RD", rec, 1); f_.forms.push_back("reduction data"); }
      else if (!g.inval) { v420_ = true; b_[sr].ln[1] = Stream(s, "RV", g.data, g.data); f_.forms.push_back("reduction values"); }
      else {
        v420_ = true;
        std::vector<size_t> cut{0};
        for (uint64_t q = r_.Tail(5); q > 0; --q) cut.push_back(r_.Below(3 * e.n + 1));
        std::sort(cut.begin(), cut.end());
        cut.push_back(3 * e.n);
        const bool hl = r_.Chance(1.0 / 2);
        int first = -1, last = -1;
        for (size_t q = 0; q + 1 < cut.size();) {
          const size_t m = std::min<size_t>(cut.size() - 1 - q, 1 + r_.Below(3));
          const int ld = Add("LD", 1 + 2 * m);
          for (size_t w = 0; w < m; ++w) {
            const auto lo = static_cast<long>(cut[q + w]), hi = static_cast<long>(cut[q + w + 1]);
            const auto d = static_cast<long>(g.data), v = static_cast<long>(g.inval);
            const int x = Fragment(PBytes(s.begin() + lo * d, s.begin() + hi * d), "RV", g.data, hl && hi > lo, false);
            const int y = Fragment(PBytes(iv.begin() + lo * v, iv.begin() + hi * v), "RI", g.inval, hl && hi > lo, false);
            b_[ld].ln[1 + w] = x; b_[ld].ln[1 + m + w] = y;
          }
          Put(b_[ld].d, 0x80000000u, 4); Put(b_[ld].d, m, 4);
          for (size_t w = 0; w < m; ++w) Put(b_[ld].d, cut[q + w], 8);
          if (first < 0) first = ld; else b_[last].ln[0] = ld;
          last = ld; q += m;
        }
        int top = first;
        if (hl) { top = Add("HL", 1); b_[top].ln[0] = first; Put(b_[top].d, 0, 2); Put(b_[top].d, 0, 1); Put(b_[top].d, 0, 5); }
        b_[sr].ln[1] = top;
        f_.forms.push_back("reduction values and invalidation");
      }
      Put(b_[sr].d, e.n, 8); PutD(b_[sr].d, e.interval); Put(b_[sr].d, e.sync, 1); Put(b_[sr].d, e.flags, 1); Put(b_[sr].d, 0, 6);
      b_[prev < 0 ? cg : prev].ln[prev < 0 ? 4 : 0] = sr;
      prev = sr;
      e.blk = sr;
      f_.sr.push_back(std::move(e));
    }
    f_.forms.push_back("sample reduction");
  }
  int Source() {
    const int tx = Tx("a source"), si = Add("SI", 3);
    b_[si].ln[0] = tx; b_[si].ln[1] = tx;
    Put(b_[si].d, r_.Below(6), 1); Put(b_[si].d, r_.Below(9), 1); Put(b_[si].d, r_.Below(2), 1); Put(b_[si].d, 0, 5);
    return si;
  }

  int Group(size_t dgi) {
    const int dg = Add("DG", 4);
    f_.want.dg.emplace_back();
    std::vector<Grp> g;
    const size_t ng = r_.Chance(1.0 / 2) ? 1 : 1 + r_.Tail(o_.max_cg - 1);
    const bool vcg_ok = r_.Chance(1.0 / 2);
    for (size_t i = 0; i < ng; ++i) { g.push_back(MakeGroup(vcg_ok)); MakeRecords(g.back()); }
    size_t total = ng;
    struct V { size_t g, f; };
    std::vector<V> v;
    for (size_t i = 0; i < ng; ++i) for (size_t k = 0; k < g[i].f.size(); ++k) if (g[i].f[k].kind == 4) { g[i].f[k].vcg = v.size(); v.push_back({i, k}); ++total; }
    unsigned ids = 0;
    if (total > 1 || r_.Chance(1.0 / 5)) { static const unsigned sz[] = {1, 2, 4, 8}; ids = sz[r_.Below(4)]; }
    if (ids == 1 && total > 200) ids = 2;
    // record ids
    std::set<uint64_t> used;
    auto newid = [&]() -> uint64_t {
      for (;;) {
        uint64_t x = r_.Chance(1.0 / 2) ? 1 + r_.Below(250) : 1 + (ids >= 8 ? r_.U64() >> 1 : r_.Below((uint64_t(1) << (8 * std::max(1u, ids))) - 1));
        if (used.insert(x).second) return x;
      }
    };
    std::vector<uint64_t> vid;
    for (auto& x : g) x.id = ids ? newid() : (r_.Chance(1.0 / 2) ? 0 : 1);
    for (size_t i = 0; i < v.size(); ++i) vid.push_back(newid());
    // record stream, randomly interleaved, every group in its own order
    PBytes s;
    size_t step = 1;
    {
      std::vector<size_t> pos(ng + v.size(), 0);
      std::vector<size_t> left;
      for (size_t i = 0; i < ng + v.size(); ++i) if ((i < ng ? g[i].n : g[v[i - ng].g].n) > 0) left.push_back(i);
      const bool burst = r_.Chance(1.0 / 3);
      while (!left.empty()) {
        const size_t w = r_.Below(left.size());
        const size_t i = left[w];
        const size_t cnt = burst ? 1 + r_.Below(8) : 1;
        const size_t n = i < ng ? g[i].n : g[v[i - ng].g].n;
        for (size_t k = 0; k < cnt && pos[i] < n; ++k, ++pos[i]) {
          Put(s, i < ng ? g[i].id : vid[i - ng], ids);
          if (i < ng) s.insert(s.end(), g[i].rec[pos[i]].begin(), g[i].rec[pos[i]].end());
          else { auto& p = g[v[i - ng].g].f[v[i - ng].f].vrec[pos[i]]; Put(s, p.size(), 4); s.insert(s.end(), p.begin(), p.end()); }
        }
        if (pos[i] >= n) left.erase(left.begin() + static_cast<long>(w));
      }
    }
    size_t rec = ids + g[0].data + g[0].inval;
    std::string type = "DT";
    if (o_.dv && total == 1 && ids == 0 && g[0].inval == 0 && r_.Chance(1.0 / 4)) { type = "DV"; v420_ = true; step = rec; f_.forms.push_back("value block"); }
    const int data = Stream(s, type, rec, step);
    b_[dg].ln[2] = data;
    Put(b_[dg].d, ids, 1); Put(b_[dg].d, 0, 7);
    // channel groups (VLSD groups placed anywhere in the list)
    std::vector<int> vb;
    for (size_t i = 0; i < v.size(); ++i) {
      const int cg = Add("CG", 6);
      uint64_t bytes = 0;
      for (auto& p : g[v[i].g].f[v[i].f].vrec) bytes += p.size() + 4;
      auto& d = b_[cg].d;
      Put(d, vid[i], 8); Put(d, g[v[i].g].n, 8); Put(d, 1, 2); Put(d, 0, 2); Put(d, 0, 4); Put(d, bytes & 0xFFFFFFFF, 4); Put(d, bytes >> 32, 4);
      vb.push_back(cg);
    }
    std::vector<std::pair<int, RCg>> list;
    for (size_t i = 0; i < ng; ++i) {
      const int cg = Add("CG", 6);
      b_[cg].ln[2] = g[i].name.empty() ? -1 : Tx(g[i].name);
      RCg rc; rc.name = g[i].name; rc.nof = g[i].n; rc.rec_id = g[i].id;
      int prev = -1;
      for (size_t k = 0; k < g[i].f.size(); ++k) {
        if (g[i].f[k].parent >= 0) continue;
        const int cn = Channel(g[i], k, vb);
        if (prev < 0) b_[cg].ln[1] = cn; else b_[prev].ln[0] = cn;
        prev = cn;
      }
      for (auto& f : g[i].f) if (f.kind == 5) b_[f.blk].ln[5] = g[i].f[f.mlsd].blk;
      auto& d = b_[cg].d;
      Put(d, g[i].id, 8); Put(d, g[i].n, 8); Put(d, 0, 2); Put(d, 0, 2); Put(d, 0, 4); Put(d, g[i].data, 4); Put(d, g[i].inval, 4);
      if (g[i].n && type == "DT" && r_.Chance(o_.sr)) Reduction(cg, g[i], dgi);
      if (r_.Chance(1.0 / 6)) b_[cg].ln[3] = Source();
      auto add = [&](Fld& f) {
        if (f.lin || f.kind == 6) {
          EEng e{dgi, 0, rc.ch.size(), {}};
          for (auto& x : f.c.v) { const double raw = x[0].k == VK::U ? static_cast<double>(x[0].u) : x[0].k == VK::I ? static_cast<double>(x[0].i) : x[0].d; e.v.push_back(f.lin ? f.cc0 + f.cc1 * raw : raw); }
          eng_.push_back({cg, e});
        }
        rc.ch.push_back(f.c);
      };
      for (size_t k = 0; k < g[i].f.size(); ++k) {
        auto& f = g[i].f[k];
        if (f.parent >= 0) continue;
        add(f);
        for (size_t q : f.kids) add(g[i].f[q]);
      }
      list.push_back({cg, std::move(rc)});
      f_.shape += "g" + std::to_string(g[i].n) + "/" + std::to_string(g[i].data) + "+" + std::to_string(g[i].inval) + " ";
    }
    for (size_t i = 0; i < v.size(); ++i) { RCg rc; rc.vlsd = true; rc.nof = g[v[i].g].n; rc.rec_id = vid[i]; list.insert(list.begin() + static_cast<long>(r_.Below(list.size() + 1)), {vb[i], rc}); }
    for (size_t i = 0; i < list.size(); ++i) {
      if (i == 0) b_[dg].ln[1] = list[i].first; else b_[list[i - 1].first].ln[0] = list[i].first;
      for (auto& e : f_.sr) if (e.cg_blk == list[i].first) e.cg = i;
      for (auto& e : eng_) if (e.first == list[i].first) { e.second.cg = i; f_.eng.push_back(e.second); }
      f_.want.dg.back().cg.push_back(std::move(list[i].second));
    }
    f_.shape += "ids" + std::to_string(ids) + "/v" + std::to_string(v.size()) + " ";
    f_.forms.push_back("record id size " + std::to_string(ids));
    if (total > 1) f_.forms.push_back("unsorted data");
    return dg;
  }

  void Serialize() {
    std::vector<int> order;
    for (size_t i = 1; i < b_.size(); ++i) order.push_back(static_cast<int>(i));
    const uint64_t mode = r_.Below(3);      // creation order, shuffled, reversed
    if (mode == 1) for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r_.Below(i)]);
    if (mode == 2) std::reverse(order.begin(), order.end());
    order.insert(order.begin(), hd_);
    std::vector<uint64_t> pos(b_.size(), 0);
    uint64_t at = 64;
    const bool gaps = r_.Chance(1.0 / 3);
    for (int i : order) {
      pos[static_cast<size_t>(i)] = at;
      at += 24 + 8 * b_[static_cast<size_t>(i)].ln.size() + b_[static_cast<size_t>(i)].d.size();
      at = (at + 7) / 8 * 8;
      if (gaps) at += 8 * r_.Tail(5);
    }
    for (auto& e : f_.sr) e.pos = static_cast<int64_t>(pos[static_cast<size_t>(e.blk)]);
    auto& o = f_.bytes;
    o.assign(at, 0);
    for (size_t i = 64; i < o.size(); ++i) o[i] = gaps ? static_cast<uint8_t>(r_.U64()) : 0;
    static const uint16_t ver[] = {400, 410, 411, 420};
    const uint16_t vn = v420_ ? 420 : ver[r_.Below(4)];
    char vt[9]; snprintf(vt, sizeof vt, "%u.%02u    ", vn / 100u, vn % 100u);
    memcpy(o.data(), "MDF     ", 8); memcpy(o.data() + 8, vt, 8); memcpy(o.data() + 16, "othertl ", 8);
    o[28] = static_cast<uint8_t>(vn); o[29] = static_cast<uint8_t>(vn >> 8);
    for (int i : order) {
      const auto& k = b_[static_cast<size_t>(i)];
      PBytes x{'#', '#', static_cast<uint8_t>(k.id[0]), static_cast<uint8_t>(k.id[1]), 0, 0, 0, 0};
      Put(x, 24 + 8 * k.ln.size() + k.d.size(), 8); Put(x, k.ln.size(), 8);
      for (int l : k.ln) Put(x, l < 0 ? 0 : pos[static_cast<size_t>(l)], 8);
      x.insert(x.end(), k.d.begin(), k.d.end());
      std::copy(x.begin(), x.end(), o.begin() + static_cast<long>(pos[static_cast<size_t>(i)]));
    }
    f_.forms.push_back(mode == 0 ? "creation order" : mode == 1 ? "shuffled blocks" : "reversed blocks");
  }

  Rng& r_;
  EncOpt o_;
  EncFile f_;
  std::vector<Blk> b_;
  int hd_ = 0, n_ = 0;
  bool v420_ = false;
  uint64_t eq_len_ = 0;
  std::map<std::string, int> tx_;
  std::map<std::pair<double, double>, int> cc_;
  std::vector<std::pair<int, EEng>> eng_;
};
inline EncFile EncodeMdf4(Rng& r, const EncOpt& o = {}) { return Enc4(r, o).Build(); }
}  // namespace vh
