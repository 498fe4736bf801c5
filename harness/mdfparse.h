// Independent MDF 3 / MDF 4 parser. It works on the bytes of a file only and
// shares no code with the library. It records every deviation from the file
// layout and decodes all records into the Content structure of scen.h.
#pragma once
#include <expat.h>
#include <zlib.h>
#include <set>
#include "scen.h"
namespace vh {
using PBytes = std::vector<uint8_t>;

struct PProblem { std::string key, msg; };
struct PAttachment { PBytes data; std::string file, type; uint16_t flags = 0, creator = 0; PBytes md5; };
struct PConv { int type = -1; std::vector<double> val; std::vector<std::string> ref; };
struct PFile {
  Content c;
  std::vector<PProblem> bad;
  std::map<std::string, size_t> blocks;   // block type -> number seen
  std::vector<PAttachment> at;
  std::map<std::string, PConv> conv;      // "dg/cg/ch" -> conversion
  uint64_t start_ns = 0;
  int16_t tz = 0, dst = 0;
  uint8_t tflags = 0;
  std::string author, org, project, subject, hd_text;
  size_t events = 0, histories = 0, hierarchies = 0;
  uint64_t records = 0, fragments = 0, compressed = 0;
  void Bad(const std::string& k, const std::string& m) { if (bad.size() < 200) bad.push_back({k, m}); }
};

// ---------------------------------------------------------------- text
inline bool ValidUtf8(const std::string& s) {
  for (size_t i = 0; i < s.size();) {
    const uint8_t c = static_cast<uint8_t>(s[i]);
    size_t n = c < 0x80 ? 1 : (c >= 0xc2 && c < 0xe0) ? 2 : (c >= 0xe0 && c < 0xf0) ? 3 : (c >= 0xf0 && c < 0xf5) ? 4 : 0;
    if (n == 0 || i + n > s.size()) return false;
    for (size_t k = 1; k < n; ++k) if ((static_cast<uint8_t>(s[i + k]) & 0xc0) != 0x80) return false;
    i += n;
  }
  return true;
}
inline std::string Trim(std::string s) {
  const char* ws = " \t\r\n\f\v";
  const auto e = s.find_last_not_of(ws);
  if (e == std::string::npos) return {};
  s.erase(e + 1);
  return s.substr(s.find_first_not_of(ws));
}
struct XmlDoc { bool ok = false; std::string root, err; std::map<std::string, std::string> text; };  // path -> text
inline XmlDoc ParseXml(const std::string& s) {
  struct St { XmlDoc d; std::vector<std::string> path; std::vector<std::string> buf; } st;
  XML_Parser p = XML_ParserCreate("UTF-8");
  XML_SetUserData(p, &st);
  XML_SetElementHandler(p,
      [](void* u, const char* n, const char** a) {
        auto& x = *static_cast<St*>(u);
        std::string name = n;
        for (; a && *a; a += 2) if (std::string(a[0]) == "name") name += std::string("#") + a[1];
        if (x.path.empty()) x.d.root = n;
        x.path.push_back(x.path.empty() ? name : x.path.back() + "/" + name);
        x.buf.emplace_back();
      },
      [](void* u, const char*) {
        auto& x = *static_cast<St*>(u);
        x.d.text.emplace(x.path.back(), x.buf.back());
        x.path.pop_back(); x.buf.pop_back();
      });
  XML_SetCharacterDataHandler(p, [](void* u, const char* t, int n) {
    auto& x = *static_cast<St*>(u);
    if (!x.buf.empty()) x.buf.back().append(t, static_cast<size_t>(n));
  });
  st.d.ok = XML_Parse(p, s.data(), static_cast<int>(s.size()), 1) == XML_STATUS_OK;
  if (!st.d.ok) st.d.err = XML_ErrorString(XML_GetErrorCode(p));
  XML_ParserFree(p);
  return st.d;
}
inline std::string Utf16ToUtf8(const uint8_t* p, size_t n, bool be) {
  std::string s;
  auto put = [&](uint32_t c) {
    if (c < 0x80) s += static_cast<char>(c);
    else if (c < 0x800) { s += char(0xC0 | c >> 6); s += char(0x80 | (c & 63)); }
    else if (c < 0x10000) { s += char(0xE0 | c >> 12); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
    else { s += char(0xF0 | c >> 18); s += char(0x80 | (c >> 12 & 63)); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
  };
  for (size_t i = 0; i + 1 < n; i += 2) {
    uint32_t w = be ? uint32_t(p[i]) << 8 | p[i + 1] : uint32_t(p[i + 1]) << 8 | p[i];
    if (w == 0) break;
    if (w >= 0xd800 && w < 0xdc00 && i + 3 < n) {
      const uint32_t lo = be ? uint32_t(p[i + 2]) << 8 | p[i + 3] : uint32_t(p[i + 3]) << 8 | p[i + 2];
      if (lo >= 0xdc00 && lo < 0xe000) { w = 0x10000 + ((w - 0xd800) << 10) + (lo - 0xdc00); i += 2; }
    }
    put(w);
  }
  return s;
}
inline std::string Latin1ToUtf8(const uint8_t* p, size_t n) {
  std::string s;
  for (size_t i = 0; i < n && p[i]; ++i) {
    if (p[i] < 0x80) s += static_cast<char>(p[i]);
    else { s += char(0xC0 | p[i] >> 6); s += char(0x80 | (p[i] & 63)); }
  }
  return s;
}

// ---------------------------------------------------------------- values
// unsigned value of `bits` bits that starts at `bit` of a record
inline uint64_t PBits(const uint8_t* rec, size_t size, size_t byte, unsigned bit, unsigned bits, bool be) {
  const size_t n = (bit + bits + 7) / 8;
  if (bits == 0 || bits > 64 || byte + n > size) return 0;
  uint64_t v = 0;
  // value = the n bytes as one integer (in the byte order), shifted right by `bit`
  for (unsigned k = 0; k < bits; ++k) {
    const unsigned pos = bit + k;
    const size_t idx = be ? byte + n - 1 - pos / 8 : byte + pos / 8;
    if (rec[idx] >> (pos % 8) & 1) v |= uint64_t(1) << k;
  }
  return v;
}
inline int64_t PSign(uint64_t v, unsigned bits) {
  if (bits < 64 && bits > 0 && (v >> (bits - 1) & 1)) v |= ~uint64_t(0) << bits;
  int64_t o; memcpy(&o, &v, 8); return o;
}
inline double PFloat(uint64_t v, unsigned bits) {
  if (bits == 64) { double d; memcpy(&d, &v, 8); return d; }
  if (bits == 32) { const uint32_t u = static_cast<uint32_t>(v); float f; memcpy(&f, &u, 4); return f; }
  if (bits == 16) {
    const int e = static_cast<int>(v >> 10 & 31); const double m = static_cast<double>(v & 1023);
    double d = e == 0 ? std::ldexp(m, -24) : e == 31 ? (m != 0 ? NAN : INFINITY) : std::ldexp(1 + m / 1024, e - 15);
    return v >> 15 & 1 ? -d : d;
  }
  return NAN;
}
inline Val PValue(ChannelDataType dt, const uint8_t* p, size_t size, size_t byte, unsigned bit, uint32_t bits) {
  Val v;
  const bool be = dt == ChannelDataType::UnsignedIntegerBe || dt == ChannelDataType::SignedIntegerBe || dt == ChannelDataType::FloatBe;
  const size_t nb = bits / 8;
  const bool fits = byte + nb <= size;
  if (IsUns(dt)) v = ValU(PBits(p, size, byte, bit, bits, be));
  else if (IsInt(dt)) v = ValI(PSign(PBits(p, size, byte, bit, bits, be), bits));
  else if (IsFloat(dt)) v = ValD(PFloat(PBits(p, size, byte, bit, bits, be), bits));
  else if (IsStr(dt)) {
    if (!fits) return v;
    if (dt == ChannelDataType::StringAscii) v = ValS(Latin1ToUtf8(p + byte, nb));
    else if (dt == ChannelDataType::StringUTF8) v = ValS(std::string(reinterpret_cast<const char*>(p + byte), strnlen(reinterpret_cast<const char*>(p + byte), nb)));
    else v = ValS(Utf16ToUtf8(p + byte, nb, dt == ChannelDataType::StringUTF16Be));
  } else if (IsBytes(dt)) { if (fits) v = ValB(PBytes(p + byte, p + byte + nb)); else v = ValB({}); }
  else if (dt == ChannelDataType::CanOpenDate && fits && nb >= 7) {
    // ms (16), minute (6 bits), hour (5 bits), day (5 bits) week day (3), month (6 bits), year (7 bits)
    const uint8_t* q = p + byte;
    struct tm t {};
    const unsigned ms = q[0] | q[1] << 8;
    t.tm_min = q[2] & 63; t.tm_hour = q[3] & 31; t.tm_mday = q[4] & 31; t.tm_mon = (q[5] & 63) - 1;
    const int y = q[6] & 127; t.tm_year = y < 84 ? y + 100 : y;
    v = ValU(static_cast<uint64_t>(timegm(&t)) * 1000000000ULL + ms * 1000000ULL);
  } else if (dt == ChannelDataType::CanOpenTime && fits && nb >= 6) {
    const uint8_t* q = p + byte;
    const uint64_t ms = (uint64_t(q[0]) | uint64_t(q[1]) << 8 | uint64_t(q[2]) << 16 | uint64_t(q[3]) << 24) & 0xFFFFFFF;
    const uint64_t days = q[4] | q[5] << 8;
    v = ValU((5113 + days) * 86400ULL * 1000000000ULL + ms * 1000000ULL);   // days since 1984-01-01
  }
  return v;
}

// ---------------------------------------------------------------- MDF 4
class Parse4 {
 public:
  Parse4(const PBytes& b, PFile& f) : b_(b), f_(f) {}
  void Run() {
    if (b_.size() < 64 + 104) { f_.Bad("file size", std::to_string(b_.size())); return; }
    if (memcmp(b_.data(), "MDF     ", 8) != 0) f_.Bad("id text", "not 'MDF     '");
    const unsigned ver = U16(28);
    char vt[9] = {}; memcpy(vt, b_.data() + 8, 8);
    char want[16]; snprintf(want, sizeof want, "%u.%02u", ver / 100, ver % 100);
    if (Trim(vt) != want) f_.Bad("id version", std::string(vt) + " vs " + std::to_string(ver));
    if (ver < 400 || ver >= 500) f_.Bad("id version", std::to_string(ver));
    if (U16(60) != 0 || U16(62) != 0) f_.Bad("unfinalized flags", std::to_string(U16(60)) + "/" + std::to_string(U16(62)));
    f_.c.finalized = U16(60) == 0 && U16(62) == 0;
    Header();
    Overlaps();
    f_.c.ok = f_.bad.empty();
    if (!f_.c.ok) f_.c.err = f_.bad[0].key + ": " + f_.bad[0].msg;
  }

 private:
  struct Blk { uint64_t pos = 0, len = 0, links = 0; std::string id; uint64_t data() const { return pos + 24 + links * 8; } uint64_t end() const { return pos + len; } };
  struct Cn {
    Blk blk; std::string name, unit, desc;
    uint8_t type = 0, sync = 0, dt = 0, bit = 0; uint32_t byte = 0, bits = 0, flags = 0, inv = 0; uint16_t atc = 0;
    uint64_t data = 0; std::vector<uint64_t> dims; uint32_t stride = 0; uint32_t inv_stride = 0;
    PConv cc;
    PBytes sd; std::set<uint64_t> sd_start; bool has_sd = false; uint64_t vlsd_cg = 0;
  };
  struct Cg { Blk blk; std::string name, desc; uint64_t id = 0, count = 0; uint16_t flags = 0; uint32_t db = 0, ib = 0; std::vector<Cn> cn; std::vector<PBytes> rec; PBytes vlsd; std::set<uint64_t> vstart; };

  uint64_t U(uint64_t p, unsigned n) const { uint64_t v = 0; if (p + n > b_.size()) return 0; for (unsigned k = 0; k < n; ++k) v |= uint64_t(b_[p + k]) << (8 * k); return v; }
  uint16_t U16(uint64_t p) const { return static_cast<uint16_t>(U(p, 2)); }
  uint32_t U32(uint64_t p) const { return static_cast<uint32_t>(U(p, 4)); }
  uint64_t U64(uint64_t p) const { return U(p, 8); }
  double F64(uint64_t p) const { const uint64_t u = U64(p); double d; memcpy(&d, &u, 8); return d; }
  uint64_t L(const Blk& k, uint64_t i) const { return i < k.links ? U64(k.pos + 24 + 8 * i) : 0; }

  // Validates the block at `pos`; allowed: "TX|MD". Returns false if unusable.
  bool At(uint64_t pos, const std::string& allowed, const std::string& from, Blk& out, uint64_t min_links = 0, uint64_t min_data = 0) {
    const std::string w = from + " -> " + std::to_string(pos);
    if (pos % 8) { f_.Bad("alignment", w); return false; }
    if (pos < 64 || pos + 24 > b_.size()) { f_.Bad("link outside file", w + " size " + std::to_string(b_.size())); return false; }
    if (b_[pos] != '#' || b_[pos + 1] != '#') { f_.Bad("link to no block", w); return false; }
    out.pos = pos; out.id = std::string(reinterpret_cast<const char*>(&b_[pos + 2]), 2);
    out.len = U64(pos + 8); out.links = U64(pos + 16);
    if (("|" + allowed + "|").find("|" + out.id + "|") == std::string::npos) { f_.Bad("link to wrong block type", w + " " + out.id + " want " + allowed); return false; }
    if (U32(pos + 4) != 0) f_.Bad("reserved header bytes", w + " " + out.id);
    if (out.len < 24 || out.len > b_.size() - pos) { f_.Bad("block length", w + " " + out.id + " length " + std::to_string(out.len) + " file " + std::to_string(b_.size())); return false; }
    if (out.links > (out.len - 24) / 8) { f_.Bad("link count", w + " " + out.id + " links " + std::to_string(out.links)); return false; }
    if (out.links < min_links || out.len - 24 - 8 * out.links < min_data) { f_.Bad("block too short", w + " " + out.id + " links " + std::to_string(out.links) + " length " + std::to_string(out.len)); return false; }
    auto [it, fresh] = seen_.emplace(pos, out);
    if (fresh) ++f_.blocks[out.id];
    return true;
  }
  bool Once(const Blk& k) { if (!once_.insert(k.pos).second) { f_.Bad("block in two lists", k.id + " at " + std::to_string(k.pos)); return false; } return true; }

  std::string Text(uint64_t pos, const std::string& from, const char* allowed = "TX|MD", const char* root = nullptr, XmlDoc* doc = nullptr) {
    if (pos == 0) return {};
    Blk k;
    if (!At(pos, allowed, from, k)) return {};
    if (k.links) f_.Bad("text block with links", from);
    const uint64_t n = k.len - 24;
    std::string s(reinterpret_cast<const char*>(&b_[k.pos + 24 - 0]) , static_cast<size_t>(n));
    const auto z = s.find('\0');
    if (z == std::string::npos) { f_.Bad("text not terminated", from + " at " + std::to_string(pos)); }
    else {
      for (size_t i = z; i < s.size(); ++i) if (s[i]) { f_.Bad("bytes after text terminator", from); break; }
      s.resize(z);
    }
    if (!ValidUtf8(s)) f_.Bad("text not UTF-8", from + " at " + std::to_string(pos));
    if (k.id == "TX") return Trim(s);
    XmlDoc d = ParseXml(s);
    if (!d.ok) { f_.Bad("metadata not well-formed XML", from + ": " + d.err + ": " + s.substr(0, 200)); return {}; }
    if (root && d.root != root) f_.Bad("metadata root element", from + " <" + d.root + "> want <" + root + ">");
    if (doc) *doc = d;
    auto it = d.text.find(d.root + "/TX");
    return it == d.text.end() ? std::string() : Trim(it->second);
  }

  void Header() {
    Blk h;
    if (!At(64, "HD", "file", h, 6, 32)) return;
    f_.start_ns = U64(h.data()); f_.tz = static_cast<int16_t>(U16(h.data() + 8)); f_.dst = static_cast<int16_t>(U16(h.data() + 10)); f_.tflags = b_[h.data() + 12];
    XmlDoc d;
    f_.hd_text = Text(L(h, 5), "HD.comment", "TX|MD", "HDcomment", &d);
    auto prop = [&](const char* n) { auto it = d.text.find(std::string("HDcomment/common_properties/e#") + n); return it == d.text.end() ? std::string() : it->second; };
    f_.author = prop("author"); f_.org = prop("department"); f_.project = prop("project"); f_.subject = prop("subject");
    // file history
    for (uint64_t p = L(h, 1); p; ) {
      Blk k; if (!At(p, "FH", "FH list", k, 2, 16) || !Once(k)) break;
      ++f_.histories;
      Text(L(k, 1), "FH.comment", "MD", "FHcomment");
      p = L(k, 0);
    }
    // attachments
    for (uint64_t p = L(h, 3); p; ) {
      Blk k; if (!At(p, "AT", "AT list", k, 4, 40) || !Once(k)) break;
      Attachment(k);
      p = L(k, 0);
    }
    // data groups
    for (uint64_t p = L(h, 0); p; ) {
      Blk k; if (!At(p, "DG", "DG list", k, 4, 8) || !Once(k)) break;
      DataGroup(k);
      p = L(k, 0);
    }
    for (uint64_t p = L(h, 2); p; ) { Blk k; if (!At(p, "CH", "CH list", k, 4, 8) || !Once(k)) break; Hierarchy(k, 0); p = L(k, 0); }
    for (uint64_t p = L(h, 4); p; ) {
      Blk k; if (!At(p, "EV", "EV list", k, 5, 32) || !Once(k)) break;
      ++f_.events;
      const uint64_t d0 = k.data();
      const uint32_t sc = U32(d0 + 8); const uint16_t ac = U16(d0 + 12);
      if (k.links < 5 + uint64_t(sc) + ac) f_.Bad("EV link count", std::to_string(k.links) + " scope " + std::to_string(sc) + " attachments " + std::to_string(ac));
      Blk t;
      if (L(k, 1)) At(L(k, 1), "EV", "EV.parent", t);
      if (L(k, 2)) At(L(k, 2), "EV", "EV.range", t);
      Text(L(k, 3), "EV.name", "TX");
      Text(L(k, 4), "EV.comment", "TX|MD", "EVcomment");
      for (uint32_t i = 0; i < sc; ++i) if (At(L(k, 5 + i), "CN|CG", "EV.scope", t)) Linked(t.pos);
      for (uint32_t i = 0; i < ac; ++i) if (At(L(k, 5 + sc + i), "AT", "EV.attachment", t)) Linked(t.pos);
      p = L(k, 0);
    }
    for (auto x : linked_) if (!once_.count(x)) f_.Bad("reference to a block outside the tree", std::to_string(x));
  }
  void Linked(uint64_t p) { linked_.insert(p); }

  void Hierarchy(const Blk& k, int depth) {
    ++f_.hierarchies;
    Text(L(k, 2), "CH.name", "TX");
    Text(L(k, 3), "CH.comment", "TX|MD", "CHcomment");
    const uint32_t n = U32(k.data());
    if (k.links != 4 + 3 * uint64_t(n)) f_.Bad("CH link count", std::to_string(k.links) + " elements " + std::to_string(n));
    Blk t;
    for (uint32_t i = 0; i < n; ++i) {
      if (L(k, 4 + 3 * i)) { if (At(L(k, 4 + 3 * i), "DG", "CH.element", t)) Linked(t.pos); }
      if (L(k, 5 + 3 * i)) { if (At(L(k, 5 + 3 * i), "CG", "CH.element", t)) Linked(t.pos); }
      if (L(k, 6 + 3 * i)) { if (At(L(k, 6 + 3 * i), "CN", "CH.element", t)) Linked(t.pos); }
    }
    if (depth > 20) { f_.Bad("CH depth", ""); return; }
    for (uint64_t p = L(k, 1); p; ) { Blk c; if (!At(p, "CH", "CH child", c, 4, 8) || !Once(c)) break; Hierarchy(c, depth + 1); p = L(c, 0); }
  }
  void Attachment(const Blk& k) {
    PAttachment a;
    a.file = Text(L(k, 1), "AT.file", "TX"); a.type = Text(L(k, 2), "AT.mime", "TX"); Text(L(k, 3), "AT.comment", "TX|MD", "ATcomment");
    const uint64_t d = k.data();
    a.flags = U16(d); a.creator = U16(d + 2);
    a.md5.assign(b_.begin() + static_cast<long>(d) + 8, b_.begin() + static_cast<long>(d) + 24);
    const uint64_t orig = U64(d + 24), emb = U64(d + 32);
    if (a.creator >= std::max<size_t>(f_.histories, 1) && a.creator >= 4) f_.Bad("AT creator", std::to_string(a.creator));
    if (a.flags & 1) {
      if (d + 40 + emb > k.end()) { f_.Bad("AT embedded size", std::to_string(emb) + " block " + std::to_string(k.len)); return; }
      if (a.flags & 2) {
        a.data.resize(orig);
        uLongf n = orig;
        if (orig > 0) {
          if (uncompress(a.data.data(), &n, &b_[d + 40], emb) != Z_OK || n != orig) f_.Bad("AT compressed data", "orig " + std::to_string(orig) + " embedded " + std::to_string(emb));
        }
      } else {
        if (orig != emb) f_.Bad("AT sizes", std::to_string(orig) + "/" + std::to_string(emb));
        a.data.assign(b_.begin() + static_cast<long>(d) + 40, b_.begin() + static_cast<long>(d + 40 + emb));
      }
    } else if (emb != 0) f_.Bad("AT embedded size of an external attachment", std::to_string(emb));
    f_.at.push_back(std::move(a));
  }
  void Source(uint64_t p, const std::string& from) {
    if (!p) return;
    Blk k; if (!At(p, "SI", from, k, 3, 8)) return;
    Text(L(k, 0), from + " SI.name", "TX"); Text(L(k, 1), from + " SI.path", "TX"); Text(L(k, 2), from + " SI.comment", "TX|MD", "SIcomment");
  }
  PConv Conversion(uint64_t p, int depth) {
    PConv c;
    Blk k; if (!At(p, "CC", "CN.cc", k, 4, 24)) return c;
    Text(L(k, 0), "CC.name", "TX"); Text(L(k, 1), "CC.unit", "TX|MD", "CCunit"); Text(L(k, 2), "CC.comment", "TX|MD", "CCcomment");
    const uint64_t d = k.data();
    c.type = b_[d];
    const uint16_t rc = U16(d + 4), vc = U16(d + 6);
    if (k.links != 4 + uint64_t(rc)) f_.Bad("CC link count", std::to_string(k.links) + " refs " + std::to_string(rc) + " type " + std::to_string(c.type));
    if (d + 24 + 8 * uint64_t(vc) > k.end()) { f_.Bad("CC value count", std::to_string(vc) + " type " + std::to_string(c.type)); return c; }
    for (unsigned i = 0; i < vc; ++i) c.val.push_back(F64(d + 24 + 8 * i));
    if (L(k, 3)) { Blk t; At(L(k, 3), "CC", "CC.inverse", t); }
    for (unsigned i = 0; i < rc; ++i) {
      const uint64_t q = L(k, 4 + i);
      if (!q) { c.ref.emplace_back(); continue; }
      Blk t;
      if (!At(q, "TX|CC", "CC.ref", t)) continue;
      if (t.id == "TX") c.ref.push_back(Text(q, "CC.ref", "TX"));
      else { if (depth < 10) Conversion(q, depth + 1); c.ref.push_back("CC"); }
    }
    static const int need[12][2] = {{0, 0}, {2, 0}, {6, 0}, {0, 1}, {-1, 0}, {-1, 0}, {-1, 0}, {-1, -1}, {-1, -1}, {-1, -1}, {0, -1}, {0, -1}};
    if (c.type > 11) f_.Bad("CC type", std::to_string(c.type));
    else {
      const int nv = need[c.type][0], nr = need[c.type][1];
      if ((nv >= 0 && nv != vc) || (nr >= 0 && nr != rc)) f_.Bad("CC parameter count", "type " + std::to_string(c.type) + " values " + std::to_string(vc) + " refs " + std::to_string(rc));
      if ((c.type == 4 || c.type == 5) && vc % 2) f_.Bad("CC parameter count", "table with " + std::to_string(vc));
      if (c.type == 6 && vc % 3 != 1) f_.Bad("CC parameter count", "range table with " + std::to_string(vc));
      if (c.type == 7 && rc != vc + 1) f_.Bad("CC parameter count", "value to text " + std::to_string(vc) + " refs " + std::to_string(rc));
      if (c.type == 8 && 2 * (rc - 1) != vc) f_.Bad("CC parameter count", "range to text " + std::to_string(vc) + " refs " + std::to_string(rc));
      if (c.type == 9 && rc + 1 != vc) f_.Bad("CC parameter count", "text to value " + std::to_string(vc) + " refs " + std::to_string(rc));
      if (c.type == 10 && rc % 2 != 1) f_.Bad("CC parameter count", "text to text refs " + std::to_string(rc));
    }
    return c;
  }

  // ---- data blocks: the concatenated payload of a DT/SD/DZ/DL/HL tree
  bool Fragment(const Blk& k, const std::string& raw, PBytes& out) {
    ++f_.fragments;
    if (k.id == raw) { out.insert(out.end(), b_.begin() + static_cast<long>(k.data()), b_.begin() + static_cast<long>(k.end())); return true; }
    if (k.len - 24 - 8 * k.links < 24) { f_.Bad("DZ too short", std::to_string(k.len)); return false; }
    const uint64_t d = k.data();
    const std::string ot(reinterpret_cast<const char*>(&b_[d]), 2);
    if (ot != raw) f_.Bad("DZ original block type", ot + " want " + raw);
    const uint8_t zip = b_[d + 2]; const uint32_t par = U32(d + 4);
    const uint64_t orig = U64(d + 8), n = U64(d + 16);
    if (d + 24 + n > k.end()) { f_.Bad("DZ data length", std::to_string(n)); return false; }
    if (orig > 4 * 1024 * 1024 + (1 << 16) && raw != "SD") f_.Bad("DZ larger than 4 MB", std::to_string(orig));
    if (orig > (uint64_t(1) << 30)) { f_.Bad("DZ size", std::to_string(orig)); return false; }
    ++f_.compressed;
    PBytes tmp(orig + 1);
    uLongf m = orig + 1;
    if (uncompress(tmp.data(), &m, &b_[d + 24], n) != Z_OK || m != orig) { f_.Bad("DZ content", "original length " + std::to_string(orig) + " inflates to " + std::to_string(m)); return false; }
    tmp.resize(orig);
    if (zip == 1) {
      const uint64_t cols = par, rows = cols ? orig / cols : 0;
      if (cols == 0) { f_.Bad("DZ transpose parameter", "0"); return false; }
      PBytes t(tmp);
      for (uint64_t i = 0; i < rows; ++i) for (uint64_t j = 0; j < cols; ++j) t[i * cols + j] = tmp[j * rows + i];
      tmp.swap(t);
    } else if (zip != 0) f_.Bad("DZ zip type", std::to_string(zip));
    out.insert(out.end(), tmp.begin(), tmp.end());
    return true;
  }
  bool List(uint64_t first, const std::string& raw, const std::string& from, PBytes& out) {
    for (uint64_t p = first; p; ) {
      Blk k; if (!At(p, "DL", from + " DL list", k, 1, 8) || !Once(k)) return false;
      const uint64_t d = k.data();
      const uint8_t fl = b_[d]; const uint32_t n = U32(d + 4);
      if (k.links != 1 + uint64_t(n)) f_.Bad("DL link count", std::to_string(k.links) + " count " + std::to_string(n));
      if (!(fl & 1) && d + 8 + 8 * uint64_t(n) > k.end()) { f_.Bad("DL offsets", "count " + std::to_string(n)); return false; }
      const uint64_t equal = fl & 1 ? U64(d + 8) : 0;
      for (uint32_t i = 0; i < n; ++i) {
        const uint64_t at = out.size();
        if (!(fl & 1) && U64(d + 8 + 8 * i) != at) f_.Bad("DL offset", from + " entry " + std::to_string(i) + "/" + std::to_string(n) + " offset " + std::to_string(U64(d + 8 + 8 * i)) + " data before it " + std::to_string(at));
        Blk t; if (!At(L(k, 1 + i), raw + "|DZ", from + " DL.data", t) || !Once(t)) return false;
        if (!Fragment(t, raw, out)) return false;
        const bool last = i + 1 == n && L(k, 0) == 0;
        if ((fl & 1) && (last ? out.size() - at > equal : out.size() - at != equal)) f_.Bad("DL equal length", std::to_string(out.size() - at) + " want " + std::to_string(equal));
      }
      p = L(k, 0);
    }
    return true;
  }
  bool Data(uint64_t p, const std::string& raw, const std::string& from, PBytes& out) {
    if (!p) return true;
    Blk k; if (!At(p, raw + "|DZ|DL|HL", from, k)) return false;
    if (k.id == "HL") {
      if (!Once(k) || k.links < 1) return false;
      if (b_[k.data() + 2] > 1) f_.Bad("HL zip type", std::to_string(b_[k.data() + 2]));
      return List(L(k, 0), raw, from, out);
    }
    if (k.id == "DL") return List(p, raw, from, out);
    if (!Once(k)) return false;
    return Fragment(k, raw, out);
  }

  void Channels(uint64_t first, const std::string& from, Cg& g, int depth) {
    for (uint64_t p = first; p; ) {
      Cn c;
      if (!At(p, "CN", from, c.blk, 8, 72) || !Once(c.blk)) return;
      const Blk& k = c.blk; const uint64_t d = k.data();
      c.type = b_[d]; c.sync = b_[d + 1]; c.dt = b_[d + 2]; c.bit = b_[d + 3];
      c.byte = U32(d + 4); c.bits = U32(d + 8); c.flags = U32(d + 12); c.inv = U32(d + 16); c.atc = U16(d + 22);
      c.name = Text(L(k, 2), "CN.name", "TX");
      Source(L(k, 3), "CN.source");
      if (L(k, 4)) c.cc = Conversion(L(k, 4), 0);
      c.data = L(k, 5);
      c.unit = Text(L(k, 6), "CN.unit", "TX|MD", "CNunit");
      c.desc = Text(L(k, 7), "CN.comment", "TX|MD", "CNcomment");
      const std::string w = "channel '" + c.name + "'";
      const bool defx = c.flags & (1 << 12);
      if (k.links != 8 + uint64_t(c.atc) + (defx ? 3 : 0)) f_.Bad("CN link count", w + " links " + std::to_string(k.links) + " attachments " + std::to_string(c.atc) + " defaultX " + std::to_string(defx));
      Blk t;
      for (unsigned i = 0; i < c.atc; ++i) if (At(L(k, 8 + i), "AT", w + ".attachment", t)) Linked(t.pos);
      if (defx) {
        const char* want[3] = {"DG", "CG", "CN"};
        for (unsigned i = 0; i < 3; ++i) if (At(L(k, 8 + c.atc + i), want[i], w + ".defaultX", t)) Linked(t.pos);
      }
      if (c.type > 7) f_.Bad("CN type", w + " " + std::to_string(c.type));
      if (c.dt > 16) f_.Bad("CN data type", w + " " + std::to_string(c.dt));
      if ((c.type == 2 || c.type == 3) && (c.sync < 1 || c.sync > 4)) f_.Bad("CN sync type of a master", w + " " + std::to_string(c.sync));
      if (c.bit > 7) f_.Bad("CN bit offset", w);
      g.cn.push_back(std::move(c));
      const size_t me = g.cn.size() - 1;
      if (const uint64_t q = L(k_(g, me), 1)) {
        if (At(q, "CN|CA", w + ".composition", t)) {
          if (t.id == "CN") { if (depth < 8) Channels(q, "CN.composition", g, depth + 1); }
          else Array(t, g.cn[me], w);
        }
      }
      p = L(k_(g, me), 0);
    }
  }
  const Blk& k_(const Cg& g, size_t i) const { return g.cn[i].blk; }
  void Array(const Blk& k, Cn& c, const std::string& w) {
    if (!Once(k) || k.len - 24 - 8 * k.links < 16) { f_.Bad("CA too short", w); return; }
    const uint64_t d = k.data();
    const uint8_t storage = b_[d + 1]; const uint16_t nd = U16(d + 2); const uint32_t fl = U32(d + 4);
    if (storage != 0) { f_.Bad("CA storage", w); return; }
    if (d + 16 + 8 * uint64_t(nd) > k.end()) { f_.Bad("CA dimensions", w + " " + std::to_string(nd)); return; }
    uint64_t sum = 0;
    for (unsigned i = 0; i < nd; ++i) { c.dims.push_back(U64(d + 16 + 8 * i)); sum += c.dims.back(); }
    c.stride = U32(d + 8); c.inv_stride = U32(d + 12);
    uint64_t links = 1;
    if (fl & 1) links += 3 * uint64_t(nd);
    if (fl & 2) links += 3;
    if (fl & 4) links += 3;
    if (fl & 8) links += 2;
    if (fl & 16) links += 4 * uint64_t(nd);   // axis: conversion and three scale links
    if (k.links < links && k.links != 1 && !(fl & 16)) f_.Bad("CA link count", w + " links " + std::to_string(k.links) + " flags " + std::to_string(fl));
    if ((fl & 32) && d + 16 + 8 * uint64_t(nd) + 8 * sum > k.end()) f_.Bad("CA axis values", w);
  }

  void DataGroup(const Blk& dg) {
    RDg rd;
    const std::string di = std::to_string(f_.c.dg.size());
    rd.desc = Text(L(dg, 3), "DG.comment", "TX|MD", "DGcomment");
    const unsigned ids = b_[dg.data()];
    if (ids != 0 && ids != 1 && ids != 2 && ids != 4 && ids != 8) f_.Bad("DG record id size", std::to_string(ids));
    std::vector<Cg> cgs;
    for (uint64_t p = L(dg, 1); p; ) {
      Cg g;
      if (!At(p, "CG", "CG list", g.blk, 6, 32) || !Once(g.blk)) break;
      const Blk& k = g.blk; const uint64_t d = k.data();
      g.id = U64(d); g.count = U64(d + 8); g.flags = U16(d + 16); g.db = U32(d + 24); g.ib = U32(d + 28);
      g.name = Text(L(k, 2), "CG.name", "TX");
      Source(L(k, 3), "CG.source");
      g.desc = Text(L(k, 5), "CG.comment", "TX|MD", "CGcomment");
      for (uint64_t q = L(k, 4); q; ) { Blk s; if (!At(q, "SR", "CG.sr", s, 2, 24) || !Once(s)) break; q = L(s, 0); }
      Channels(L(k, 1), "CG.cn", g, 0);
      const uint64_t next = L(k, 0);
      cgs.push_back(std::move(g));
      p = next;
    }
    // layout of the records
    std::map<uint64_t, Cg*> by_id;
    for (auto& g : cgs) {
      const std::string w = "dg " + di + " cg '" + g.name + "'";
      if (ids > 0 && ids < 8 && (g.id >> (8 * ids))) f_.Bad("record id does not fit", w + " id " + std::to_string(g.id) + " size " + std::to_string(ids));
      if (!by_id.emplace(g.id, &g).second && ids > 0) f_.Bad("duplicate record id", w + " id " + std::to_string(g.id));
      const bool vlsd = g.flags & 1;
      if (vlsd && !g.cn.empty()) f_.Bad("VLSD group with channels", w);
      size_t masters = 0;
      std::vector<int> used(g.db, -1);
      for (size_t i = 0; i < g.cn.size(); ++i) {
        auto& c = g.cn[i];
        if (c.type == 2 || c.type == 3) ++masters;
        if (c.type == 3 || c.type == 6) continue;   // virtual
        uint64_t n = (c.bit + uint64_t(c.bits) + 7) / 8, elems = 1;
        for (auto x : c.dims) elems *= x;
        if (!c.dims.empty() && elems > 0) n += (elems - 1) * c.stride;
        if (c.byte + n > g.db) f_.Bad("channel outside record", w + "." + c.name + " byte " + std::to_string(c.byte) + " size " + std::to_string(n) + " record " + std::to_string(g.db));
        if ((c.flags & 2) && c.inv >= 8 * uint64_t(g.ib)) f_.Bad("invalidation bit outside record", w + "." + c.name + " bit " + std::to_string(c.inv) + " bytes " + std::to_string(g.ib));
        if (c.type == 1 && c.bits != 64) f_.Bad("variable length channel index size", w + "." + c.name + " bits " + std::to_string(c.bits));
        if (c.dt < 4 && (c.bits == 0 || c.bits > 64)) f_.Bad("integer bit count", w + "." + c.name + " " + std::to_string(c.bits));
        if ((c.dt == 4 || c.dt == 5) && c.bits != 16 && c.bits != 32 && c.bits != 64) f_.Bad("float bit count", w + "." + c.name + " " + std::to_string(c.bits));
        if (c.dt == 13 && c.bits != 56) f_.Bad("CANopen date bit count", w + "." + c.name + " " + std::to_string(c.bits));
        if (c.dt == 14 && c.bits != 48) f_.Bad("CANopen time bit count", w + "." + c.name + " " + std::to_string(c.bits));
      }
      if (masters > 1) f_.Bad("more than one master", w);
    }
    if (ids == 0 && cgs.size() > 1) f_.Bad("unsorted group without record ids", "dg " + di + " groups " + std::to_string(cgs.size()));
    // records
    PBytes data;
    if (!Data(L(dg, 2), "DT", "DG.data", data)) return;
    size_t pos = 0;
    while (pos < data.size()) {
      uint64_t id = cgs.empty() ? 0 : cgs[0].id;
      if (ids > 0) {
        if (pos + ids > data.size()) { f_.Bad("truncated record", "dg " + di); break; }
        id = 0;
        for (unsigned i = 0; i < ids; ++i) id |= uint64_t(data[pos + i]) << (8 * i);
        pos += ids;
      }
      auto it = by_id.find(id);
      if (it == by_id.end()) { f_.Bad("unknown record id", "dg " + di + " id " + std::to_string(id) + " at " + std::to_string(pos) + "/" + std::to_string(data.size())); break; }
      Cg& g = *it->second;
      if (g.flags & 1) {
        if (pos + 4 > data.size()) { f_.Bad("truncated record", "dg " + di); break; }
        const uint64_t n = uint64_t(data[pos]) | uint64_t(data[pos + 1]) << 8 | uint64_t(data[pos + 2]) << 16 | uint64_t(data[pos + 3]) << 24;
        if (pos + 4 + n > data.size()) { f_.Bad("truncated record", "dg " + di + " VLSD length " + std::to_string(n)); break; }
        g.vstart.insert(g.vlsd.size());
        g.vlsd.insert(g.vlsd.end(), data.begin() + static_cast<long>(pos), data.begin() + static_cast<long>(pos + 4 + n));
        g.rec.emplace_back(data.begin() + static_cast<long>(pos + 4), data.begin() + static_cast<long>(pos + 4 + n));
        pos += 4 + n;
      } else {
        const uint64_t n = uint64_t(g.db) + g.ib;
        if (n == 0) { f_.Bad("empty record", "dg " + di); break; }
        if (pos + n > data.size()) { f_.Bad("truncated record", "dg " + di + " left " + std::to_string(data.size() - pos) + " record " + std::to_string(n)); break; }
        g.rec.emplace_back(data.begin() + static_cast<long>(pos), data.begin() + static_cast<long>(pos + n));
        pos += n;
      }
    }
    for (size_t gi = 0; gi < cgs.size(); ++gi) {
      auto& g = cgs[gi];
      const std::string w = "dg " + di + " cg '" + g.name + "'";
      f_.records += g.rec.size();
      if (g.rec.size() != g.count) f_.Bad("cycle counter", w + " " + std::to_string(g.count) + " records present " + std::to_string(g.rec.size()) + " data bytes " + std::to_string(data.size()));
      if (g.flags & 1) {
        const uint64_t total = g.vlsd.size() - 4 * g.rec.size(), said = uint64_t(g.ib) << 32 | g.db;
        if (said != total) f_.Bad("VLSD group data size", w + " says " + std::to_string(said) + " present " + std::to_string(total));
      }
      RCg rc;
      rc.name = g.name; rc.desc = g.desc; rc.nof = g.rec.size(); rc.rec_id = g.id; rc.vlsd = g.flags & 1;
      for (auto& c : g.cn) {
        const std::string cw = w + "." + c.name;
        if (c.type == 1 && c.data) {
          Blk t;
          if (At(c.data, "SD|DZ|DL|HL|CG", cw + ".data", t)) {
            if (t.id == "CG") {
              c.vlsd_cg = t.pos;
              bool found = false;
              for (auto& o : cgs) if (o.blk.pos == t.pos) { found = true; c.sd = o.vlsd; c.sd_start = o.vstart; if (!(o.flags & 1)) f_.Bad("VLSD channel refers to a plain group", cw); }
              if (!found) f_.Bad("VLSD group outside the data group", cw);
            } else Data(c.data, "SD", cw + ".data", c.sd);
            c.has_sd = true;
            if (t.id != "CG") for (size_t q = 0; q < c.sd.size(); ) {
              c.sd_start.insert(q);
              if (q + 4 > c.sd.size()) { f_.Bad("signal data truncated", cw); break; }
              const uint64_t n = uint64_t(c.sd[q]) | uint64_t(c.sd[q + 1]) << 8 | uint64_t(c.sd[q + 2]) << 16 | uint64_t(c.sd[q + 3]) << 24;
              if (q + 4 + n > c.sd.size()) { f_.Bad("signal data truncated", cw + " at " + std::to_string(q) + " length " + std::to_string(n) + " of " + std::to_string(c.sd.size())); break; }
              q += 4 + n;
            }
          }
        } else if (c.type == 1 && !g.rec.empty()) f_.Bad("variable length channel without data", cw);
        RCh h;
        h.name = c.name; h.unit = c.unit; h.desc = c.desc; h.type = static_cast<ChannelType>(c.type); h.dt = static_cast<ChannelDataType>(c.dt);
        h.bits = c.bits; h.shape = c.dims; h.has_cc = c.cc.type >= 0;
        f_.conv[di + "/" + std::to_string(gi) + "/" + std::to_string(rc.ch.size())] = c.cc;
        uint64_t elems = 1;
        for (auto x : c.dims) elems *= x;
        for (size_t i = 0; i < g.rec.size(); ++i) {
          const PBytes& r = g.rec[i];
          std::vector<Val> v;
          for (uint64_t e = 0; e < elems; ++e) {
            Val x;
            if (c.type == 3 || c.type == 6) x = ValU(i);
            else if (c.type == 1) {
              const uint64_t off = PBits(r.data(), g.db, c.byte, 0, 64, false);
              if (!c.sd_start.count(off)) {
                const bool inv = (c.flags & 1) || ((c.flags & 2) && c.inv / 8 < g.ib && (r[g.db + c.inv / 8] >> (c.inv % 8) & 1));
                if (!inv) f_.Bad("variable length index", cw + " sample " + std::to_string(i) + " offset " + std::to_string(off) + " of " + std::to_string(c.sd.size()));
                x = IsStr(h.dt) ? ValS("") : ValB({});
              }
              else {
                const uint64_t n = uint64_t(c.sd[off]) | uint64_t(c.sd[off + 1]) << 8 | uint64_t(c.sd[off + 2]) << 16 | uint64_t(c.sd[off + 3]) << 24;
                x = PValue(h.dt, c.sd.data() + off + 4, n, 0, 0, static_cast<uint32_t>(8 * n));
              }
            } else x = PValue(h.dt, r.data(), g.db, c.byte + e * c.stride, c.bit, c.bits);
            if (c.flags & 1) x.valid = false;
            else if (c.flags & 2) { const uint64_t ib = c.inv + e * c.inv_stride; if (ib / 8 < g.ib) x.valid = !(r[g.db + ib / 8] >> (ib % 8) & 1); }
            v.push_back(std::move(x));
          }
          if (c.type == 2) {
            double t = v[0].k == VK::D ? v[0].d : v[0].k == VK::U ? static_cast<double>(v[0].u) : static_cast<double>(v[0].i);
            if (c.cc.type == 1 && c.cc.val.size() == 2) t = c.cc.val[0] + c.cc.val[1] * t;
            h.eng.push_back(t);
          }
          h.v.push_back(std::move(v));
        }
        rc.ch.push_back(std::move(h));
      }
      // maximum length channels: the used length is in another channel of the group
      for (size_t n = 0; n < g.cn.size(); ++n) {
        auto& c = g.cn[n];
        if (c.type != 5) continue;
        size_t at = g.cn.size();
        for (size_t m = 0; m < g.cn.size(); ++m) if (g.cn[m].blk.pos == c.data) at = m;
        if (at == g.cn.size()) { f_.Bad("maximum length channel without size channel", w + "." + c.name + " -> " + std::to_string(c.data)); continue; }
        for (size_t i = 0; i < g.rec.size(); ++i) {
          const uint64_t used = rc.ch[at].v[i][0].u;
          auto& v = rc.ch[n].v[i][0];
          if (used > c.bits / 8) f_.Bad("maximum length channel size", w + "." + c.name + " " + std::to_string(used) + " of " + std::to_string(c.bits / 8));
          else if (v.k == VK::B) v.b.resize(used);
        }
      }
      rd.cg.push_back(std::move(rc));
    }
    f_.c.dg.push_back(std::move(rd));
  }
  void Overlaps() {
    uint64_t end = 0; const Blk* prev = nullptr;
    for (auto& [p, k] : seen_) {
      if (prev && p < end) f_.Bad("blocks overlap", prev->id + " at " + std::to_string(prev->pos) + " length " + std::to_string(prev->len) + " and " + k.id + " at " + std::to_string(p));
      if (k.end() > end) { end = k.end(); prev = &k; }
    }
  }

  const PBytes& b_;
  PFile& f_;
  std::map<uint64_t, Blk> seen_;
  std::set<uint64_t> once_, linked_;
};

// ---------------------------------------------------------------- MDF 3
class Parse3 {
 public:
  Parse3(const PBytes& b, PFile& f) : b_(b), f_(f) {}
  void Run() {
    if (b_.size() < 64 + 164) { f_.Bad("file size", std::to_string(b_.size())); return; }
    if (memcmp(b_.data(), "MDF     ", 8) != 0) f_.Bad("id text", "not 'MDF     '");
    be_ = b_[24] || b_[25];
    const unsigned ver = U(28, 2);
    char vt[9] = {}; memcpy(vt, b_.data() + 8, 8);
    char want[16]; snprintf(want, sizeof want, "%u.%02u", ver / 100, ver % 100);
    if (Trim(vt) != want || ver < 300 || ver >= 400) f_.Bad("id version", std::string(vt) + " vs " + std::to_string(ver));
    if (U(60, 2) || U(62, 2)) f_.Bad("unfinalized flags", "");
    f_.c.finalized = true;
    Blk h;
    if (!At(64, "HD", "file", h, 164)) return;
    unsigned n = 0;
    f_.hd_text = Text(U(68 + 4, 4), "HD.comment");
    auto fix = [&](uint64_t p, size_t m) { return Trim(std::string(reinterpret_cast<const char*>(&b_[p]), strnlen(reinterpret_cast<const char*>(&b_[p]), m))); };
    f_.author = fix(64 + 36, 32); f_.org = fix(64 + 68, 32); f_.project = fix(64 + 100, 32); f_.subject = fix(64 + 132, 32);
    if (h.len >= 208) { f_.start_ns = U(64 + 164, 8); f_.tz = static_cast<int16_t>(U(64 + 172, 2)); }
    if (uint64_t p = U(64 + 12, 4)) { Blk k; At(p, "PR", "HD.pr", k, 4); }
    for (uint64_t p = U(64 + 4, 4); p; ) { Blk k; if (!At(p, "DG", "DG list", k, 28) || !Once(k)) break; ++n; DataGroup(k); p = U(k.pos + 4, 4); }
    if (n != U(64 + 16, 2)) f_.Bad("HD number of data groups", std::to_string(U(64 + 16, 2)) + " in list " + std::to_string(n));
    uint64_t end = 0; std::string prev;
    for (auto& [p, k] : seen_) {
      if (p < end) f_.Bad("blocks overlap", prev + " and " + k.second + " at " + std::to_string(p));
      if (p + k.first > end) { end = p + k.first; prev = k.second; }
    }
    f_.c.ok = f_.bad.empty();
    if (!f_.c.ok) f_.c.err = f_.bad[0].key + ": " + f_.bad[0].msg;
  }

 private:
  struct Blk { uint64_t pos = 0, len = 0; std::string id; };
  struct Cn { std::string name, desc, unit; unsigned type = 0, start = 0, bits = 0, dt = 0, add = 0; PConv cc; };
  struct Cg { unsigned id = 0, ncn = 0, size = 0; uint64_t count = 0; std::string text; std::vector<Cn> cn; std::vector<PBytes> rec; };
  uint64_t U(uint64_t p, unsigned n) const { uint64_t v = 0; if (p + n > b_.size()) return 0; for (unsigned k = 0; k < n; ++k) v |= uint64_t(b_[p + k]) << (8 * (be_ ? n - 1 - k : k)); return v; }
  double F64(uint64_t p) const { const uint64_t u = U(p, 8); double d; memcpy(&d, &u, 8); return d; }
  bool At(uint64_t pos, const std::string& want, const std::string& from, Blk& out, uint64_t min) {
    const std::string w = from + " -> " + std::to_string(pos);
    if (pos < 64 || pos + 4 > b_.size()) { f_.Bad("link outside file", w + " size " + std::to_string(b_.size())); return false; }
    out.pos = pos; out.id = std::string(reinterpret_cast<const char*>(&b_[pos]), 2); out.len = U(pos + 2, 2);
    if (out.id != want) { f_.Bad("link to wrong block type", w + " want " + want); return false; }
    if (out.len < min || pos + out.len > b_.size()) { f_.Bad("block length", w + " " + want + " " + std::to_string(out.len)); return false; }
    if (seen_.emplace(pos, std::make_pair(out.len, want)).second) ++f_.blocks[want];
    return true;
  }
  bool Once(const Blk& k) { if (!once_.insert(k.pos).second) { f_.Bad("block in two lists", k.id); return false; } return true; }
  std::string Text(uint64_t p, const std::string& from) {
    if (!p) return {};
    Blk k; if (!At(p, "TX", from, k, 4)) return {};
    std::string s(reinterpret_cast<const char*>(&b_[p + 4]), k.len - 4);
    const auto z = s.find('\0');
    if (z == std::string::npos) f_.Bad("text not terminated", from); else s.resize(z);
    return Trim(s);
  }
  std::string Fix(uint64_t p, size_t m) const { return Trim(std::string(reinterpret_cast<const char*>(&b_[p]), strnlen(reinterpret_cast<const char*>(&b_[p]), m))); }
  void DataGroup(const Blk& dg) {
    const std::string di = std::to_string(f_.c.dg.size());
    std::vector<Cg> cgs;
    std::map<unsigned, size_t> by;
    for (uint64_t p = U(dg.pos + 8, 4); p; ) {
      Blk k; if (!At(p, "CG", "CG list", k, 26) || !Once(k)) break;
      Cg g;
      g.text = Text(U(p + 12, 4), "CG.comment");
      g.id = static_cast<unsigned>(U(p + 16, 2)); g.ncn = static_cast<unsigned>(U(p + 18, 2)); g.size = static_cast<unsigned>(U(p + 20, 2)); g.count = U(p + 22, 4);
      for (uint64_t q = U(p + 8, 4); q; ) {
        Blk c; if (!At(q, "CN", "CN list", c, 218) || !Once(c)) break;
        Cn n;
        Text(U(q + 20, 4), "CN.comment");
        n.type = static_cast<unsigned>(U(q + 24, 2)); n.name = Fix(q + 26, 32); n.desc = Fix(q + 58, 128);
        n.start = static_cast<unsigned>(U(q + 186, 2)); n.bits = static_cast<unsigned>(U(q + 188, 2)); n.dt = static_cast<unsigned>(U(q + 190, 2));
        if (c.len >= 222) if (auto l = Text(U(q + 218, 4), "CN.long name"); !l.empty()) n.name = l;
        if (c.len >= 226) Text(U(q + 222, 4), "CN.display name");
        if (c.len >= 228) n.add = static_cast<unsigned>(U(q + 226, 2));
        if (uint64_t x = U(q + 8, 4)) {
          Blk cc;
          if (At(x, "CC", "CN.cc", cc, 46)) {
            n.unit = Fix(x + 22, 20); n.cc.type = static_cast<int>(U(x + 42, 2));
            const unsigned cnt = static_cast<unsigned>(U(x + 44, 2));
            if (n.cc.type <= 1 || (n.cc.type >= 6 && n.cc.type <= 9)) for (unsigned i = 0; i < cnt && x + 46 + 8 * i + 8 <= x + cc.len; ++i) n.cc.val.push_back(F64(x + 46 + 8 * i));
            if (n.cc.type == 0 && (cnt != 2 || cc.len < 62)) f_.Bad("CC parameter count", "linear " + std::to_string(cnt));
          }
        }
        g.cn.push_back(std::move(n));
        q = U(q + 4, 4);
      }
      const std::string w = "dg " + di + " cg " + std::to_string(cgs.size());
      if (g.cn.size() != g.ncn) f_.Bad("CG number of channels", w + " " + std::to_string(g.ncn) + " in list " + std::to_string(g.cn.size()));
      unsigned masters = 0;
      for (auto& n : g.cn) {
        masters += n.type == 1;
        // signal types: 2/11/15 are 32 bit floats, 3/12/16 64 bit floats
        if (((n.dt == 2 || n.dt == 11 || n.dt == 15) && n.bits != 32) || ((n.dt == 3 || n.dt == 12 || n.dt == 16) && n.bits != 64)) f_.Bad("float size", w + "." + n.name + " type " + std::to_string(n.dt) + " bits " + std::to_string(n.bits));
        const uint64_t bit = n.start + 8ull * n.add;
        if (bit / 8 + (bit % 8 + n.bits + 7) / 8 > g.size) f_.Bad("channel outside record", w + "." + n.name + " bit " + std::to_string(bit) + " bits " + std::to_string(n.bits) + " record " + std::to_string(g.size));
      }
      if (masters > 1) f_.Bad("more than one master", w);
      if (!by.emplace(g.id, cgs.size()).second && U(dg.pos + 22, 2) > 0) f_.Bad("duplicate record id", w);
      cgs.push_back(std::move(g));
      p = U(p + 4, 4);
    }
    if (cgs.size() != U(dg.pos + 20, 2)) f_.Bad("DG number of channel groups", std::to_string(U(dg.pos + 20, 2)) + " in list " + std::to_string(cgs.size()));
    const unsigned nid = static_cast<unsigned>(U(dg.pos + 22, 2));
    if (nid > 2 || (nid == 0 && cgs.size() > 1)) f_.Bad("DG number of record ids", std::to_string(nid));
    if (uint64_t t = U(dg.pos + 12, 4)) { Blk k; At(t, "TR", "DG.trigger", k, 10); }
    uint64_t total = 0, want = 0;
    for (auto& g : cgs) { want += g.count; total += g.count * (g.size + nid); }
    const uint64_t at = U(dg.pos + 16, 4);
    if (total > 0) {
      if (at < 64 || at + total > b_.size()) { f_.Bad("data outside file", "dg " + di + " at " + std::to_string(at) + " size " + std::to_string(total) + " file " + std::to_string(b_.size())); return; }
      seen_.emplace(at, std::make_pair(total, std::string("data")));
      uint64_t p = at;
      for (uint64_t i = 0; i < want; ++i) {
        size_t gi = 0;
        if (nid) {
          auto it = by.find(b_[p]);
          if (it == by.end()) { f_.Bad("unknown record id", "dg " + di + " id " + std::to_string(b_[p]) + " record " + std::to_string(i)); return; }
          gi = it->second;
        }
        auto& g = cgs[gi];
        if (p + g.size + nid > at + total) { f_.Bad("records do not fill the data block", "dg " + di); return; }
        p += nid ? 1 : 0;
        g.rec.emplace_back(b_.begin() + static_cast<long>(p), b_.begin() + static_cast<long>(p + g.size));
        p += g.size + (nid == 2 ? 1 : 0);
        if (nid == 2 && b_[p - 1] != g.id) f_.Bad("trailing record id", "dg " + di);
      }
      if (p != at + total) f_.Bad("records do not fill the data block", "dg " + di);
    }
    RDg rd;
    for (size_t gi = 0; gi < cgs.size(); ++gi) {
      auto& g = cgs[gi];
      f_.records += g.rec.size();
      if (g.rec.size() != g.count) f_.Bad("record counter", "dg " + di + " cg " + std::to_string(gi) + " " + std::to_string(g.count) + " present " + std::to_string(g.rec.size()));
      RCg rc; rc.desc = g.text; rc.nof = g.rec.size(); rc.rec_id = g.id;
      for (auto& n : g.cn) {
        RCh h;
        h.name = n.name; h.unit = n.unit; h.desc = n.desc; h.bits = n.bits;
        h.type = n.type == 1 ? ChannelType::Master : ChannelType::FixedLength;
        using T = ChannelDataType;
        const bool sw = n.dt >= 9 && n.dt <= 12, be = sw || (n.dt < 4 && be_);
        switch (n.dt) {
          case 0: case 9: case 13: h.dt = be ? T::UnsignedIntegerBe : T::UnsignedIntegerLe; break;
          case 1: case 10: case 14: h.dt = be ? T::SignedIntegerBe : T::SignedIntegerLe; break;
          case 2: case 3: case 11: case 12: case 15: case 16: h.dt = be ? T::FloatBe : T::FloatLe; break;
          case 7: h.dt = T::StringAscii; break;
          case 8: h.dt = T::ByteArray; break;
          default: f_.Bad("CN data type", std::to_string(n.dt));
        }
        if ((n.dt == 2 || n.dt == 11 || n.dt == 15) && n.bits != 32) f_.Bad("float bit count", n.name + " " + std::to_string(n.bits));
        if ((n.dt == 3 || n.dt == 12 || n.dt == 16) && n.bits != 64) f_.Bad("float bit count", n.name + " " + std::to_string(n.bits));
        h.has_cc = n.cc.type >= 0;
        f_.conv[di + "/" + std::to_string(gi) + "/" + std::to_string(rc.ch.size())] = n.cc;
        const uint64_t bit = n.start + 8ull * n.add;
        for (auto& r : g.rec) {
          Val x = PValue(h.dt, r.data(), r.size(), bit / 8, static_cast<unsigned>(bit % 8), n.bits);
          if (n.type == 1) {
            double t = x.k == VK::D ? x.d : x.k == VK::U ? static_cast<double>(x.u) : static_cast<double>(x.i);
            if (n.cc.type == 0 && n.cc.val.size() == 2) t = n.cc.val[0] + n.cc.val[1] * t;
            h.eng.push_back(t);
          }
          h.v.push_back({x});
        }
        rc.ch.push_back(std::move(h));
      }
      rd.cg.push_back(std::move(rc));
    }
    f_.c.dg.push_back(std::move(rd));
  }
  const PBytes& b_;
  PFile& f_;
  bool be_ = false;
  std::map<uint64_t, std::pair<uint64_t, std::string>> seen_;
  std::set<uint64_t> once_;
};

inline PFile ParseMdf(const PBytes& b) {
  PFile f;
  if (b.size() > 30 && b[8] == '3') Parse3(b, f).Run();
  else Parse4(b, f).Run();
  return f;
}
}  // namespace vh
