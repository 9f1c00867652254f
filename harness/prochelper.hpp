// what the helper process and the harness agree on: the bytes of a piece of output
#ifndef PROCHELPER_HPP
#define PROCHELPER_HPP
#include <cstdint>
#include <string>
// n bytes of class `cls` (0..15, the low four bits of each byte) determined by the seed
inline std::string pattern(size_t n, unsigned seed, unsigned cls)
{
  std::string s(n, 0);
  uint32_t x = seed * 2654435761u + 12345u;
  for (size_t i = 0; i < n; ++i) { x = x * 1664525u + 1013904223u; s[i] = static_cast<char>(((x >> 24) & 0xf0u) | cls); }
  return s;
}
#endif
