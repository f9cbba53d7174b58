// Generators of HTTP headers.
#ifndef VP_HTTPGEN_H
#define VP_HTTPGEN_H
#include "gen.h"
#include <map>

namespace hg {
using vp::Src;

inline std::string lower(std::string t) { for (char& c : t) if (c >= 'A' && c <= 'Z') c = (char)(c + 32); return t; }

// Header value: printable text without line breaks or surrounding blanks.
inline std::string value(Src& s, size_t max = 30, bool empty_ok = true)
{
  std::string sug;
  if (!s.replaying()) {
    vp::Rng& r = s.rng();
    size_t n = r.chance(1, 3) ? r.below(4) : r.below(max + 1);
    if (r.chance(1, 6)) { sug = vp::dict_strings()[r.below(vp::dict_strings().size())]; if (sug.size() > max) sug.resize(max); }
    else for (size_t i = 0; i < n; ++i) sug += r.chance(1, 12) ? (char)(0x80 + r.below(128)) : r.chance(1, 4) ? " :\t=;,\"%/"[r.below(9)] : (char)(33 + r.below(94));
  }
  std::string o;
  for (size_t i = 0; i < max; ++i) {
    uint64_t v = s.draw(257, [&](vp::Rng&) -> uint64_t { return i < sug.size() ? (uint64_t)(unsigned char)sug[i] + 1 : 0; });
    if (!v) break;
    unsigned char c = (unsigned char)(v - 1);
    if (c < 32 && c != 9) c = 'a';
    if (c == 127) c = 'b';
    o += (char)c;
  }
  size_t b = o.find_first_not_of(" \t");
  if (b == std::string::npos) o.clear(); else o = o.substr(b, o.find_last_not_of(" \t") + 1 - b);
  if (o.empty() && !empty_ok) o = "v";
  return o;
}

// once in a while, the same text much longer (no blanks added; nothing of it changes meaning)
inline std::string grown(Src& s, std::string o, size_t max = 6000, unsigned one_in = 40)
{
  if (!s.chance(1, one_in)) return o;
  size_t n = s.draw(max, [&](vp::Rng& r) -> uint64_t { size_t m = max; for (unsigned k = (unsigned)r.below(6); k; --k) m = (m + 1) / 2; return r.below(m); });
  static const char al[] = "abcdefghijklmnopqrstuvwxyz0123456789";
  for (size_t i = 0; i < n; ++i) o += al[(i + i / 36) % 36];
  if (n > 100) s.label("long text");
  return o;
}

// HTTP token characters
inline std::string token(Src& s, size_t max = 12)
{
  static const char al[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.!#$%&'*+^`|~";
  size_t n = 1 + s.size(max - 1, 15);
  std::string o;
  for (size_t i = 0; i < n; ++i) o += al[s.draw(sizeof al - 1)];
  return o;
}

inline std::string recase(Src& s, const std::string& n)
{
  std::string o = n;
  switch (s.draw(4)) {
  case 0: break;
  case 1: for (char& c : o) c = (char)toupper(c); break;
  case 2: { bool up = true; for (char& c : o) { c = (char)(up ? toupper(c) : tolower(c)); up = c == '-'; } break; }
  default: for (char& c : o) c = (char)(s.chance(1, 2) ? toupper(c) : tolower(c));
  }
  return o;
}

inline std::string pad(Src& s) { std::string o; while (o.size() < 4 && s.chance(1, 4)) o += s.chance(1, 3) ? '\t' : ' '; return o; }

// cut a message into pieces; empty pieces are not produced
inline std::vector<std::string> cut(Src& s, const std::string& m)
{
  std::vector<std::string> r;
  if (m.empty()) return r;
  std::vector<size_t> at;
  switch (s.draw(5)) {
  case 0: break;
  case 1: if (m.size() <= 600) { for (size_t i = 1; i < m.size(); ++i) at.push_back(i); break; }
    // fall through
  case 2: { size_t k = 1 + s.draw(6); for (size_t i = 0; i < k; ++i) at.push_back(1 + s.draw(m.size())); break; }
  case 3: { // around the end of the header
    size_t e = m.find("\r\n\r\n"), f = m.find("\n\n"); if (f < e) e = f; if (e == std::string::npos) e = m.size() / 2;
    size_t k = 1 + s.draw(4); for (size_t i = 0; i < k; ++i) at.push_back(std::min(m.size(), e + s.draw(7))); break; }
  default: { size_t e = m.size(); size_t k = 1 + s.draw(3); for (size_t i = 0; i < k; ++i) at.push_back(e - std::min<size_t>(e, s.draw(6))); }
  }
  std::sort(at.begin(), at.end());
  size_t p = 0;
  for (size_t a : at) if (a > p && a < m.size()) { r.push_back(m.substr(p, a - p)); p = a; }
  r.push_back(m.substr(p));
  return r;
}

} // namespace hg
#endif
