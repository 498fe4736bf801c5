// Independent MD5 (RFC 1321), used as the reference for stored checksums.
#pragma once
#include <array>
#include <cmath>
#include <cstdint>
#include <string>
#include <vector>
namespace vh {
inline std::string Md5Hex(const std::vector<uint8_t>& in) {
  static const int rot[64] = {7,12,17,22,7,12,17,22,7,12,17,22,7,12,17,22,5,9,14,20,5,9,14,20,5,9,14,20,5,9,14,20,
                              4,11,16,23,4,11,16,23,4,11,16,23,4,11,16,23,6,10,15,21,6,10,15,21,6,10,15,21,6,10,15,21};
  static const std::array<uint32_t, 64> K = [] {
    std::array<uint32_t, 64> k{};
    for (int i = 0; i < 64; ++i) k[i] = static_cast<uint32_t>(std::floor(std::fabs(std::sin(static_cast<double>(i + 1))) * 4294967296.0));
    return k;
  }();
  std::vector<uint8_t> m(in);
  const uint64_t bits = static_cast<uint64_t>(in.size()) * 8;
  m.push_back(0x80);
  while (m.size() % 64 != 56) m.push_back(0);
  for (int i = 0; i < 8; ++i) m.push_back(static_cast<uint8_t>(bits >> (8 * i)));
  uint32_t h[4] = {0x67452301u, 0xefcdab89u, 0x98badcfeu, 0x10325476u};
  for (size_t o = 0; o < m.size(); o += 64) {
    uint32_t w[16];
    for (int i = 0; i < 16; ++i) w[i] = static_cast<uint32_t>(m[o + i * 4]) | static_cast<uint32_t>(m[o + i * 4 + 1]) << 8 | static_cast<uint32_t>(m[o + i * 4 + 2]) << 16 | static_cast<uint32_t>(m[o + i * 4 + 3]) << 24;
    uint32_t a = h[0], b = h[1], c = h[2], d = h[3];
    for (uint32_t i = 0; i < 64; ++i) {
      uint32_t f, g;
      if (i < 16) { f = (b & c) | (~b & d); g = i; }
      else if (i < 32) { f = (d & b) | (~d & c); g = (5 * i + 1) % 16; }
      else if (i < 48) { f = b ^ c ^ d; g = (3 * i + 5) % 16; }
      else { f = c ^ (b | ~d); g = (7 * i) % 16; }
      f = f + a + K[i] + w[g];
      a = d; d = c; c = b;
      b = b + ((f << rot[i]) | (f >> (32 - rot[i])));
    }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d;
  }
  std::string s;
  for (uint32_t x : h) for (int i = 0; i < 4; ++i) { char t[4]; snprintf(t, sizeof t, "%02X", (x >> (8 * i)) & 255); s += t; }
  return s;
}
}  // namespace vh
