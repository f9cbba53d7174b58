// Reference model of XML-RPC values, and its bridge to the library's values.
#ifndef VP_MODEL_H
#define VP_MODEL_H
#include "gen.h"
#include <map>
#include "libiqxmlrpc/libiqxmlrpc.h"

struct M {
  enum T { I4, STR, BOOL, DBL, I8, NIL, B64, DATE, ARR, STRUCT } t;
  int64_t i; double d; std::string s;          // s: text, raw bytes or date text
  std::vector<M> a; std::map<std::string, M> m;
  M(): t(I4), i(0), d(0) {}
  static M str(const std::string& x) { M v; v.t = STR; v.s = x; return v; }
  static M num(int x) { M v; v.i = x; return v; }
  bool operator==(const M& o) const
  {
    if (t != o.t) return false;
    switch (t) {
    case I4: case I8: case BOOL: return i == o.i;
    case DBL: return memcmp(&d, &o.d, sizeof d) == 0;
    case STR: case B64: case DATE: return s == o.s;
    case ARR: return a == o.a;
    case STRUCT: return m == o.m;
    case NIL: return true;
    }
    return false;
  }
  bool operator!=(const M& o) const { return !(*this == o); }
};

struct MOpts {
  unsigned depth; unsigned width; size_t big; bool blank_ok;
  MOpts(): depth(4), width(5), big(0), blank_ok(true) {}
};

inline M gen_value(vp::Src& s, const MOpts& o)
{
  M v;
  size_t k = o.depth ? s.weighted({14, 20, 6, 10, 8, 9, 8, 6, 16, 18}) : s.weighted({14, 20, 6, 10, 8, 9, 8, 6});
  v.t = (M::T)k;
  gen::TextOpts to;
  to.max_rep_len = o.big; to.blank_ok = o.blank_ok;
  switch (v.t) {
  case M::I4: v.i = gen::int32(s); break;
  case M::I8: v.i = gen::int64(s); break;
  case M::BOOL: v.i = s.draw(2); break;
  case M::DBL: v.d = gen::dbl(s); break;
  case M::STR: v.s = gen::text(s, to); break;
  case M::B64: v.s = gen::bytes(s, 48, o.big); break;
  case M::DATE: v.s = gen::show(gen::date(s)); break;
  case M::NIL: break;
  case M::ARR: {
    MOpts c = o; c.depth--; if (c.depth > 2) c.width = std::max(2u, o.width - 1);
    for (size_t i = 0; i < o.width && s.more(22); ++i) v.a.push_back(gen_value(s, c));
    break; }
  case M::STRUCT: {
    MOpts c = o; c.depth--; if (c.depth > 2) c.width = std::max(2u, o.width - 1);
    gen::TextOpts ko; ko.max_cp = 10;
    for (size_t i = 0; i < o.width && s.more(22); ++i) { std::string key = gen::text(s, ko); v.m[key] = gen_value(s, c); }
    break; }
  }
  return v;
}

// A deep chain of singleton containers around a value.
inline M gen_chain(vp::Src& s, size_t maxdepth)
{
  MOpts o; o.depth = 1; o.width = 3;
  M v = gen_value(s, o);
  size_t n = s.draw(maxdepth + 1, [maxdepth](vp::Rng& r) -> uint64_t { return r.below((r.chance(9, 10) ? std::min<size_t>(maxdepth, 60) : maxdepth) + 1); });
  if (n > 80) s.label("over 80 levels");
  for (size_t i = 0; i < n; ++i) {
    M w;
    unsigned k = (unsigned)s.draw(4);
    if (k & 1) { w.t = M::STRUCT; w.m[s.chance(1, 4) ? "" : "k"] = std::move(v); if (k & 2) w.m["z"] = M::num(7); }
    else { w.t = M::ARR; w.a.push_back(std::move(v)); if (k & 2) { M nil; nil.t = M::NIL; w.a.push_back(nil); } }
    v = std::move(w);
  }
  return v;
}

// A container of many elements or members.
inline M gen_wide(vp::Src& s, size_t max, bool blank_ok = true)
{
  size_t n = s.draw(2 * max, [max](vp::Rng& r) -> uint64_t { return gen::interesting_size(r, max); });
  MOpts o; o.depth = 1; o.width = 2; o.blank_ok = blank_ok;
  M base = gen_value(s, o), v;
  bool st = s.chance(1, 2);
  v.t = st ? M::STRUCT : M::ARR;
  for (size_t i = 0; i < n; ++i) {
    M x = i % 3 ? base : M::num((int)i);
    if (st) v.m["k" + std::to_string(i)] = x; else v.a.push_back(x);
  }
  return v;
}

inline std::string show(const M& v, size_t max = 300)
{
  std::string o;
  char b[64];
  switch (v.t) {
  case M::I4: return "i4:" + std::to_string(v.i);
  case M::I8: return "i8:" + std::to_string(v.i);
  case M::BOOL: return v.i ? "true" : "false";
  case M::DBL: snprintf(b, sizeof b, "dbl:%.17g", v.d); return b;
  case M::STR: return vp::quote(v.s, 80);
  case M::B64: return "b64:" + vp::quote(v.s, 80);
  case M::DATE: return "date:" + v.s;
  case M::NIL: return "nil";
  case M::ARR: o = "["; for (auto& x : v.a) { if (o.size() > max) { o += "..."; break; } o += show(x, max / 2) + ","; } return o + "]";
  case M::STRUCT: o = "{"; for (auto& x : v.m) { if (o.size() > max) { o += "..."; break; } o += vp::quote(x.first, 60) + ":" + show(x.second, max / 2) + ","; } return o + "}";
  }
  return "?";
}

inline size_t nodes(const M& v)
{
  size_t n = 1;
  for (auto& x : v.a) n += nodes(x);
  for (auto& x : v.m) n += nodes(x.second);
  return n;
}

inline void labels(vp::Src& s, const M& v)
{
  static const char* nm[] = { "i4", "string", "boolean", "double", "i8", "nil", "base64", "date", "array", "struct" };
  s.label(std::string("type:") + nm[v.t]);
  for (auto& x : v.a) labels(s, x);
  for (auto& x : v.m) labels(s, x.second);
}

inline iqxmlrpc::Value to_value(const M& v)
{
  using namespace iqxmlrpc;
  switch (v.t) {
  case M::I4: return Value((int)v.i);
  case M::I8: return Value((int64_t)v.i);
  case M::BOOL: return Value(v.i != 0);
  case M::DBL: return Value(v.d);
  case M::STR: return Value(v.s);
  case M::B64: return Value(Binary_data::from_data(v.s));
  case M::DATE: return Value(new Date_time(v.s));
  case M::NIL: return Value(Nil());
  case M::ARR: { Array a; for (auto& x : v.a) a.push_back(to_value(x)); return Value(a); }
  case M::STRUCT: { Struct st; for (auto& x : v.m) st.insert(x.first, to_value(x.second)); return Value(st); }
  }
  return Value(0);
}

// "" if equal, else where and how they differ
inline std::string diff(const M& e, const iqxmlrpc::Value& v, const std::string& path = "$")
{
  using namespace iqxmlrpc;
  static const char* nm[] = { "i4", "string", "boolean", "double", "i8", "nil", "base64", "dateTime.iso8601", "array", "struct" };
  bool is[10] = { v.is_int(), v.is_string(), v.is_bool(), v.is_double(), v.is_int64(), v.is_nil(), v.is_binary(), v.is_datetime(), v.is_array(), v.is_struct() };
  for (int k = 0; k < 10; ++k)
    if (is[k] != (k == (int)e.t)) return path + ": expected type " + nm[e.t] + ", is_" + nm[k] + " says " + (is[k] ? "true" : "false");
  switch (e.t) {
  case M::I4: if (v.get_int() != e.i) return path + ": expected " + std::to_string(e.i) + " got " + std::to_string(v.get_int()); break;
  case M::I8: if (v.get_int64() != e.i) return path + ": expected " + std::to_string(e.i) + " got " + std::to_string(v.get_int64()); break;
  case M::BOOL: if (v.get_bool() != (e.i != 0)) return path + ": wrong boolean"; break;
  case M::DBL: { double d = v.get_double(); if (memcmp(&d, &e.d, sizeof d)) { char b[100]; snprintf(b, sizeof b, ": expected %.17g got %.17g", e.d, d); return path + b; } break; }
  case M::STR: { std::string g = v.get_string(); if (g != e.s) return path + ": expected " + vp::quote(e.s) + " got " + vp::quote(g); break; }
  case M::B64: { Binary_data g = v.get_binary(); if (g.get_data() != e.s) return path + ": expected bytes " + vp::quote(e.s) + " got " + vp::quote(g.get_data()); break; }
  case M::DATE: { Date_time g = v.get_datetime(); if (g.to_string() != e.s) return path + ": expected date " + e.s + " got " + g.to_string(); break; }
  case M::NIL: break;
  case M::ARR: {
    if (v.size() != e.a.size()) return path + ": expected " + std::to_string(e.a.size()) + " elements, got " + std::to_string(v.size());
    for (size_t i = 0; i < e.a.size(); ++i) { std::string r = diff(e.a[i], v[(int)i], path + "[" + std::to_string(i) + "]"); if (!r.empty()) return r; }
    break; }
  case M::STRUCT: {
    const Struct& st = v.the_struct();
    if (st.size() != e.m.size()) return path + ": expected " + std::to_string(e.m.size()) + " members, got " + std::to_string(st.size());
    for (auto& x : e.m) {
      if (!v.has_field(x.first)) return path + ": member " + vp::quote(x.first) + " missing";
      std::string r = diff(x.second, v[x.first], path + "." + vp::quote(x.first, 40)); if (!r.empty()) return r;
    }
    break; }
  }
  return "";
}

// Reads a library value into the model.
inline M from_value(const iqxmlrpc::Value& v)
{
  M r;
  if (v.is_nil()) r.t = M::NIL;
  else if (v.is_int()) { r.t = M::I4; r.i = v.get_int(); }
  else if (v.is_int64()) { r.t = M::I8; r.i = v.get_int64(); }
  else if (v.is_bool()) { r.t = M::BOOL; r.i = v.get_bool(); }
  else if (v.is_double()) { r.t = M::DBL; r.d = v.get_double(); }
  else if (v.is_string()) { r.t = M::STR; r.s = v.get_string(); }
  else if (v.is_binary()) { r.t = M::B64; r.s = v.get_binary().get_data(); }
  else if (v.is_datetime()) { r.t = M::DATE; r.s = v.get_datetime().to_string(); }
  else if (v.is_array()) { r.t = M::ARR; for (size_t i = 0; i < v.size(); ++i) r.a.push_back(from_value(v[(int)i])); }
  else if (v.is_struct()) { r.t = M::STRUCT; for (auto& x : v.the_struct()) r.m[x.first] = from_value(*x.second); }
  return r;
}
#endif
