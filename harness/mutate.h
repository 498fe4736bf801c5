// Hostile variations of valid measurement files.
#pragma once
#include "mdfenc.h"
namespace vh {
struct MutBlk { size_t pos; std::string id; uint64_t len, links; };
inline uint64_t LoadLe(const PBytes& b, size_t p, unsigned n) { uint64_t v = 0; for (unsigned i = 0; i < n && p + i < b.size(); ++i) v |= uint64_t(b[p + i]) << (8 * i); return v; }
inline void StoreLe(PBytes& b, size_t p, uint64_t v, unsigned n) { for (unsigned i = 0; i < n && p + i < b.size(); ++i) b[p + i] = uint8_t(v >> (8 * i)); }
inline std::vector<MutBlk> Blocks4(const PBytes& b) {
  std::vector<MutBlk> v;
  for (size_t p = 64; p + 24 <= b.size(); p += 8) if (b[p] == '#' && b[p + 1] == '#' && isupper(b[p + 2])) v.push_back({p, std::string(b.begin() + long(p) + 2, b.begin() + long(p) + 4), LoadLe(b, p + 8, 8), LoadLe(b, p + 16, 8)});
  return v;
}
inline std::vector<MutBlk> Blocks3(const PBytes& b) {
  static const std::set<std::string> ids = {"HD", "TX", "PR", "TR", "SR", "DG", "CG", "CN", "CC", "CD", "CE"};
  std::vector<MutBlk> v;
  for (size_t p = 64; p + 4 <= b.size(); ++p) { const std::string id(b.begin() + long(p), b.begin() + long(p) + 2); const uint64_t l = LoadLe(b, p + 2, 2); if (ids.count(id) && l >= 4 && l < 2000) v.push_back({p, id, l, 0}); }
  return v;
}
inline uint64_t Edge(Rng& r, uint64_t near, uint64_t size) {
  switch (r.Below(12)) {
    case 0: return 0;
    case 1: return 1 + r.Below(4);
    case 2: return UINT64_MAX - r.Below(3);
    case 3: return 1ULL << r.Below(64);
    case 4: return (1ULL << r.Below(64)) - 1;
    case 5: return near + 1;
    case 6: return near - 1;
    case 7: return near * 2;
    case 8: return size - r.Below(32);
    case 9: return r.Below(size + 1) & ~7ULL;
    case 10: return r.U64();
    default: return r.Below(300);
  }
}
// one hostile edit; returns a word describing it
inline std::string MutateOnce(Rng& r, PBytes& b, bool mdf3) {
  if (b.size() < 100) { b.push_back(0); return "grow"; }
  const auto blk = mdf3 ? Blocks3(b) : Blocks4(b);
  const uint64_t kind = r.Below(20);
  if (blk.empty() || kind == 0) { b.resize(r.Chance(0.5) ? r.Below(b.size()) : b.size() - 1 - r.Below(std::min<size_t>(b.size() - 1, 64))); return "truncate"; }
  if (kind == 1) { const int n = int(r.Range(1, 8)); for (int i = 0; i < n; ++i) b[r.Below(b.size())] ^= uint8_t(1u << r.Below(8)); return "bitflip"; }
  if (kind == 2) { const size_t p = r.Below(b.size()), n = r.Below(64); for (size_t i = p; i < b.size() && i < p + n; ++i) b[i] = uint8_t(r.U64()); return "garbage"; }
  if (kind == 3) { const size_t p = r.Below(b.size()), n = 1 + r.Below(16); if (r.Chance(0.5)) b.insert(b.begin() + long(p), n, uint8_t(r.U64())); else b.erase(b.begin() + long(p), b.begin() + long(std::min(b.size(), p + n))); return "shift"; }
  if (kind == 4 && !mdf3 && r.Chance(0.5)) { const char u[] = "UnFinMF "; std::copy(u, u + 8, b.begin()); b[60] = uint8_t(r.Chance(0.5) ? r.U64() : r.Pick({1u, 4u, 5u, 32u, 37u, 0x3fu})); b[61] = 0; return "unfinalized"; }
  if (kind == 4) { const size_t p = r.Below(64); b[p] = r.Chance(0.5) ? uint8_t(r.U64()) : uint8_t(b[p] ^ (1u << r.Below(8))); return "id"; }
  if (kind == 5) { const auto &x = r.Pick(blk), &y = r.Pick(blk); const size_t n = std::min<size_t>({size_t(x.len), b.size() - x.pos, b.size() - y.pos, 4000}); const PBytes t(b.begin() + long(x.pos), b.begin() + long(x.pos + n)); std::copy(t.begin(), t.end(), b.begin() + long(y.pos)); return "splice"; }
  // pick a block, all kinds equally likely
  std::set<std::string> kinds; for (auto& x : blk) kinds.insert(x.id);
  auto it = kinds.begin(); std::advance(it, long(r.Below(kinds.size())));
  std::vector<const MutBlk*> of; for (auto& x : blk) if (x.id == *it) of.push_back(&x);
  const auto& x = *of[r.Below(of.size())];
  if (mdf3) {
    if (kind < 8) { StoreLe(b, x.pos + 2, Edge(r, x.len, b.size()), 2); return x.id + " length"; }
    if (kind < 9) { const auto& y = r.Pick(blk); b[x.pos] = uint8_t(y.id[0]); b[x.pos + 1] = uint8_t(y.id[1]); return x.id + " type"; }
    if (kind < 14) { const uint64_t t = r.Chance(0.6) ? r.Pick(blk).pos : Edge(r, x.pos, b.size()); StoreLe(b, x.pos + 4 + 4 * r.Below(5), t, 4); return x.id + " link"; }
    const unsigned w = r.Pick({1u, 2u, 2u, 4u, 8u});
    const size_t p = x.pos + 4 + r.Below(std::max<uint64_t>(x.len, 8) - 4);
    StoreLe(b, p, Edge(r, LoadLe(b, p, w), b.size()), w);
    return x.id + " field";
  }
  if (kind < 8) { StoreLe(b, x.pos + 8, Edge(r, x.len, b.size()), 8); return x.id + " length"; }
  if (kind < 9) { StoreLe(b, x.pos + 16, Edge(r, x.links, 40), 8); return x.id + " link count"; }
  if (kind < 10) { const auto& y = r.Pick(blk); b[x.pos + 2] = uint8_t(y.id[0]); b[x.pos + 3] = uint8_t(y.id[1]); return x.id + " type"; }
  if (kind < 15 && x.links > 0 && x.links < 10000) {
    // another block (often of the same kind, or itself) or a wild target
    uint64_t t = r.Chance(0.3) ? r.Pick(of)->pos : r.Chance(0.6) ? r.Pick(blk).pos : r.Chance(0.3) ? x.pos : Edge(r, x.pos, b.size());
    StoreLe(b, x.pos + 24 + 8 * r.Below(x.links), t, 8);
    return x.id + " link";
  }
  const size_t d = x.pos + 24 + 8 * std::min<uint64_t>(x.links, 1000);
  const uint64_t n = x.len > d - x.pos ? x.len - (d - x.pos) : 8;
  const size_t p = d + (r.Chance(0.7) ? r.Below(std::min<uint64_t>(n, 80)) : r.Below(std::min<uint64_t>(n, b.size())));
  const unsigned w = r.Pick({1u, 1u, 2u, 4u, 8u, 8u});
  StoreLe(b, r.Chance(0.5) ? p & ~size_t(w - 1) : p, Edge(r, LoadLe(b, p, w), b.size()), w);
  return x.id + " field";
}
}  // namespace vh
