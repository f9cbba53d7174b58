// Generators of scalars, text and bytes.
#ifndef VP_GEN_H
#define VP_GEN_H
#include "vp.h"
#include <string.h>
#include <math.h>
#include <stdlib.h>
#include <time.h>
#include <limits>
#include <algorithm>

namespace gen {
using vp::Src;
using vp::Rng;

// a size worth trying: small, near powers of two, near constants of the code
inline size_t interesting_size(Rng& r, size_t max)
{
  for (int t = 0; t < 20; ++t) {
    size_t v;
    switch (r.below(4)) {
    case 0: v = r.below(40); break;
    case 1: v = (size_t(1) << r.below(21)) + r.below(5) - 2; break;
    case 2: {
      int64_t d = vp::dict_ints()[r.below(vp::dict_ints().size())];
      if (d < 0) d = -d;
      v = (size_t)d + r.below(5) - 2;
      break;
    }
    default: v = r.below(max + 1);
    }
    if (v <= max) return v;
  }
  return r.below(max + 1);
}

inline uint64_t zig(int64_t v) { return ((uint64_t)v << 1) ^ (uint64_t)(v >> 63); }
inline int64_t zag(uint64_t u) { return (int64_t)(u >> 1) ^ -(int64_t)(u & 1); }

inline int64_t raw_int(Rng& r, int bits)
{
  int64_t v;
  switch (r.below(7)) {
  case 0: v = (int64_t)r.below(21) - 10; break;
  case 1: v = (int64_t)((uint64_t(1) << r.below(bits)) + r.below(3) - 1); if (r.chance(1, 2)) v = (int64_t)(0 - (uint64_t)v); break;
  case 2: { uint64_t p = 1; for (uint64_t k = r.below(bits == 32 ? 10 : 19); k; --k) p *= 10; v = (int64_t)(p + r.below(3) - 1); if (r.chance(1, 2)) v = -v; break; }
  case 3: { uint64_t d = (uint64_t)vp::dict_ints()[r.below(vp::dict_ints().size())] + r.below(3) - 1; if (r.chance(1, 4)) d = 0 - d; v = (int64_t)d; break; }
  case 4: v = bits == 32 ? (r.chance(1, 2) ? INT32_MIN : INT32_MAX) : (r.chance(1, 2) ? INT64_MIN : INT64_MAX); break;
  case 5: v = (int64_t)r.below(1000000) - 500000; break;
  default: v = (int64_t)r.next(); break;
  }
  if (bits == 32) v = (int32_t)v;
  return v;
}

inline int32_t int32(Src& s)
{
  return (int32_t)zag(s.draw(uint64_t(1) << 32, [](Rng& r) { return zig((int32_t)raw_int(r, 32)); }));
}
inline int64_t int64(Src& s)
{
  return zag(s.draw(0, [](Rng& r) { return zig(raw_int(r, 64)); }));
}

inline double dbl(Src& s)
{
  uint64_t u = s.draw(0, [](Rng& r) -> uint64_t {
    double d;
    switch (r.below(7)) {
    case 0: d = (double)((int64_t)r.below(2001) - 1000); break;
    case 1: d = (double)((int64_t)r.below(200001) - 100000) / 100.0; break;
    case 2: { static const double t[] = { 0.0, -0.0, 0.1, 1e21, 1e22, 1e15, 1e16, 1e17, 123456789012345678.0, 0.1 + 0.2, 1e-5, 1e-4, 1e-7,
                std::numeric_limits<double>::max(), -std::numeric_limits<double>::max(), std::numeric_limits<double>::min(),
                std::numeric_limits<double>::denorm_min(), std::numeric_limits<double>::epsilon(), 4294967296.0, 9007199254740993.0, 1.0/3 };
              d = t[r.below(sizeof t / sizeof *t)]; break; }
    case 3: d = (double)raw_int(r, 64); break;
    case 4: d = ldexp((double)(r.next() >> 11), (int)r.below(200) - 153); break;
    default: { uint64_t b = r.next(); memcpy(&d, &b, 8); }
    }
    if (!std::isfinite(d)) d = 1.5;
    uint64_t b; memcpy(&b, &d, 8); return b;
  });
  double d; memcpy(&d, &u, 8);
  if (!std::isfinite(d)) d = 0;
  return d;
}

inline bool xml_char(uint32_t c)
{
  return c == 9 || c == 10 || c == 13 || (c >= 0x20 && c <= 0xD7FF) || (c >= 0xE000 && c <= 0xFFFD) || (c >= 0x10000 && c <= 0x10FFFF);
}

inline void put_utf8(std::string& o, uint32_t c)
{
  if (c < 0x80) o += (char)c;
  else if (c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); }
  else if (c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
  else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
}

// decode valid UTF-8; returns false on malformed input
inline bool get_utf8(const std::string& s, std::vector<uint32_t>& o)
{
  for (size_t i = 0; i < s.size(); ) {
    unsigned char c = s[i];
    uint32_t v; int n;
    if (c < 0x80) { v = c; n = 0; }
    else if (c >= 0xC2 && c < 0xE0) { v = c & 31; n = 1; }
    else if (c >= 0xE0 && c < 0xF0) { v = c & 15; n = 2; }
    else if (c >= 0xF0 && c < 0xF5) { v = c & 7; n = 3; }
    else return false;
    if (i + n >= s.size()) return false;
    for (int k = 1; k <= n; ++k) { unsigned char d = s[i + k]; if ((d & 0xC0) != 0x80) return false; v = v << 6 | (d & 63); }
    if ((n == 2 && v < 0x800) || (n == 3 && (v < 0x10000 || v > 0x10FFFF)) || (v >= 0xD800 && v < 0xE000)) return false;
    o.push_back(v);
    i += n + 1;
  }
  return true;
}

struct TextOpts {
  size_t max_cp;        // explicit code points
  size_t max_rep_len;   // length limit of repeated (long) texts, bytes
  bool blank_ok, empty_ok;
  TextOpts(): max_cp(24), max_rep_len(0), blank_ok(true), empty_ok(true) {}
};

inline uint32_t raw_cp(Rng& r, int flavour)
{
  static const uint32_t special[] = { '<', '>', '&', '"', '\'', ']', '[', '!', '-', '?', '/', '=', ';', '#', '%', ':' };
  static const uint32_t blank[] = { ' ', '\n', '\t', '\r' };
  static const uint32_t edge[] = { 0x7f, 0x80, 0x85, 0xA0, 0xff, 0x100, 0x7ff, 0x800, 0x2028, 0xD7FF, 0xE000, 0xFEFF, 0xFFFD, 0x10000, 0x1F600, 0x10FFFF, 0x0301, 0x202E };
  switch (flavour) {
  case 0: return "abcxyzABC019_.-"[r.below(15)];
  case 1: return blank[r.below(4)];
  case 2: return r.chance(1, 2) ? special[r.below(16)] : (uint32_t)('a' + r.below(26));
  case 3: { uint32_t c; do c = (uint32_t)(r.chance(1, 2) ? edge[r.below(18)] : r.below(r.chance(1, 2) ? 0x800 : 0x110000)); while (!xml_char(c)); return c; }
  case 4: return (uint32_t)(0x20 + r.below(95));
  default: return raw_cp(r, (int)r.below(5));
  }
}

inline std::vector<uint32_t> raw_text(Rng& r, size_t maxcp)
{
  std::vector<uint32_t> o;
  switch (r.below(10)) {
  case 0: return o;
  case 1: { size_t n = 1 + r.below(4); for (size_t i = 0; i < n; ++i) o.push_back(raw_cp(r, 1)); break; }
  case 2: { static const char* t[] = { "]]>", "<!--", "-->", "<![CDATA[x]]>", "&amp;", "&lt;", "&#65;", "<?xml?>", "</string>", "</value>", "<value>", "<nil/>", "%s%n", "true", "0", "nil", "'", "\"",
                "faultCode", "faultString", "struct", "member", "name", "http://h:80/p", "\r\n\r\n", "\n\n", "Content-Length: 5\r\n\r\n" };
            std::string q = t[r.below(sizeof t / sizeof *t)];
            for (char c : q) o.push_back((unsigned char)c);
            if (r.chance(1, 3)) o.insert(o.begin(), raw_cp(r, 5));
            if (r.chance(1, 3)) o.push_back(raw_cp(r, 5));
            break; }
  case 3: { const std::string& q = vp::dict_strings()[r.below(vp::dict_strings().size())];
            for (unsigned char c : q) if (o.size() < 200) o.push_back(xml_char(c) && c < 128 ? c : '?');
            if (r.chance(1, 4)) o.push_back(raw_cp(r, 5));
            return o; }
  default: {
    size_t n = r.below(maxcp + 1);
    if (r.chance(1, 2)) n = r.below(6);
    int fl = (int)r.below(6);
    for (size_t i = 0; i < n; ++i) o.push_back(raw_cp(r, fl));
    // leading/trailing blanks
    if (r.chance(1, 6)) o.insert(o.begin(), raw_cp(r, 1));
    if (r.chance(1, 6)) o.push_back(raw_cp(r, 1));
  } }
  return o;
}

// Text XML 1.0 can carry, as UTF-8.
inline std::string text(Src& s, const TextOpts& o = TextOpts())
{
  std::vector<uint32_t> sug;
  size_t rep = 1;
  if (!s.replaying()) {
    sug = raw_text(s.rng(), o.max_cp);
    if (o.max_rep_len && !sug.empty() && s.rng().chance(1, 12)) {
      std::string one; for (uint32_t c : sug) put_utf8(one, c);
      rep = std::max<size_t>(1, interesting_size(s.rng(), o.max_rep_len) / one.size());
    }
  }
  std::string r, out;
  for (size_t i = 0; i < o.max_cp + 200; ++i) {   // 0 ends the text
    uint32_t c = (uint32_t)s.draw(0x110000, [&](Rng&) -> uint64_t { if (i >= sug.size()) return 0; uint32_t x = sug[i]; return x == 'a' ? 1 : x; });
    if (c == 0) break;
    if (c == 1) c = 'a';
    if (!xml_char(c)) c = 'b';
    put_utf8(r, c);
  }
  size_t k = o.max_rep_len ? s.draw(o.max_rep_len, [&](Rng&) { return rep - 1; }) + 1 : 1;
  if (k * r.size() > o.max_rep_len + 1000) k = 1;
  for (size_t i = 0; i < k; ++i) out += r;
  if (k > 1 && o.max_rep_len) { // odd tails
    size_t t = s.draw(8);
    out.append(t, 'x');
  }
  if (!o.empty_ok && out.empty()) out = "a";
  if (!o.blank_ok && out.find_first_not_of(" \t\r\n") == std::string::npos && !out.empty()) out += "a";
  return out;
}

inline bool blank(const std::string& t) { return t.find_first_not_of(" \t\r\n") == std::string::npos; }

// Arbitrary bytes.
inline std::string bytes(Src& s, size_t max_explicit = 48, size_t max_rep = 0)
{
  std::string sug; size_t rep = 1;
  if (!s.replaying()) {
    Rng& r = s.rng();
    size_t n = r.chance(1, 3) ? r.below(8) : r.below(max_explicit + 1);
    int fl = (int)r.below(5);
    for (size_t i = 0; i < n; ++i)
      sug += fl == 0 ? (char)r.below(256) : fl == 1 ? (char)(r.chance(1, 2) ? 0xff : 0) : fl == 2 ? (char)('a' + r.below(26)) : fl == 3 ? (char)(0x80 + r.below(128)) : "\0\r\n \t\xff\xfe=+/"[r.below(11)];
    if (max_rep && !sug.empty() && r.chance(1, 10)) rep = std::max<size_t>(1, interesting_size(r, max_rep) / sug.size());
  }
  std::string b, out;
  for (size_t i = 0; i < max_explicit; ++i) {     // 0 ends the list
    uint64_t v = s.draw(257, [&](Rng&) -> uint64_t { return i < sug.size() ? (uint64_t)(unsigned char)sug[i] + 1 : 0; });
    if (!v) break;
    b += (char)(v - 1);
  }
  size_t k = max_rep ? s.draw(max_rep, [&](Rng&) { return rep - 1; }) + 1 : 1;
  if (k * b.size() > max_rep + 1000) k = 1;
  for (size_t i = 0; i < k; ++i) out += b;
  if (k > 1) out.append(s.draw(4), '\x5a');
  return out;
}

inline bool leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
inline int mdays(int y, int m) { static const int d[] = { 31,28,31,30,31,30,31,31,30,31,30,31 }; return m == 2 && leap(y) ? 29 : d[m - 1]; }

struct DT { int y, mo, d, h, mi, s; };
inline DT date(Src& s)
{
  DT t;
  t.y = 1900 + (int)s.draw(8100, [](Rng& r) -> uint64_t { return r.chance(1, 4) ? r.below(3) * 100 + r.below(3) : r.chance(1, 8) ? 8099 - r.below(3) : r.chance(1, 2) ? 60 + r.below(80) : r.below(8100); });
  t.mo = 1 + (int)s.draw(12);
  t.d = 1 + (int)s.draw(mdays(t.y, t.mo), [&](Rng& r) -> uint64_t { return r.chance(1, 4) ? mdays(t.y, t.mo) - 1 : r.below(mdays(t.y, t.mo)); });
  t.h = (int)s.draw(24, [](Rng& r) -> uint64_t { return r.chance(1, 5) ? 23 : r.below(24); });
  t.mi = (int)s.draw(60, [](Rng& r) -> uint64_t { return r.chance(1, 5) ? 59 : r.below(60); });
  t.s = (int)s.draw(61, [](Rng& r) -> uint64_t { return r.chance(1, 5) ? 59 + r.below(2) : r.below(60); });
  return t;
}
inline std::string show(const DT& t)
{
  char b[64];
  snprintf(b, sizeof b, "%04d%02d%02dT%02d:%02d:%02d", t.y, t.mo, t.d, t.h, t.mi, t.s);
  return b;
}

// the time zone of the process; must be chosen while it has one thread
inline std::string zone(Src& s)
{
  static const char* zones[] = { "UTC0", "AAA-14", "BBB12", "CCC-5:45", "EST5EDT,M3.2.0,M11.1.0", "DDD-1EEE,M3.5.0,M10.5.0/3", "FFF3:30GGG,M10.1.0,M2.3.0" };
  const char* z = zones[s.draw(7)];
  setenv("TZ", z, 1);
  tzset();
  return z;
}

} // namespace gen
#endif
