// An XML-RPC reader written independently of the library and of libxml2.
// Throws RefError when the document is not well-formed XML 1.0 in UTF-8 or not
// XML-RPC.
#ifndef VP_REFXML_H
#define VP_REFXML_H
#include "model.h"
#include <memory>

namespace ref {

struct RefError { std::string msg; };

struct Node {
  std::string name;                // empty: text
  std::string text;
  std::vector<Node> kids;
};

class Xml {
  const std::string& in; size_t p;
  [[noreturn]] void bad(const std::string& m) { throw RefError{m + " at byte " + std::to_string(p)}; }
  bool at(const char* t) const { return in.compare(p, strlen(t), t) == 0; }
  static bool sp(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
  void skip_ws() { while (p < in.size() && sp(in[p])) ++p; }
  static bool name_start(unsigned char c) { return isalpha(c) || c == '_' || c == ':' || c >= 0x80; }
  static bool name_char(unsigned char c) { return name_start(c) || isdigit(c) || c == '.' || c == '-'; }
  std::string name()
  {
    if (p >= in.size() || !name_start(in[p])) bad("name expected");
    size_t b = p;
    while (p < in.size() && name_char(in[p])) ++p;
    return in.substr(b, p - b);
  }
  void comment()
  {
    p += 4;
    size_t e = in.find("--", p);
    if (e == std::string::npos || e + 2 >= in.size() || in[e + 2] != '>') bad("bad comment");
    p = e + 3;
  }
  void pi()
  {
    p += 2;
    std::string n = name();
    if (n.size() == 3 && tolower(n[0]) == 'x' && tolower(n[1]) == 'm' && tolower(n[2]) == 'l') bad("misplaced xml declaration");
    size_t e = in.find("?>", p);
    if (e == std::string::npos) bad("bad processing instruction");
    p = e + 2;
  }
  void reference(std::string& o)
  {
    size_t e = in.find(';', p);
    if (e == std::string::npos || e - p > 12) bad("bad reference");
    std::string r = in.substr(p + 1, e - p - 1);
    if (r == "lt") o += '<'; else if (r == "gt") o += '>'; else if (r == "amp") o += '&'; else if (r == "quot") o += '"'; else if (r == "apos") o += '\'';
    else if (r.size() > 1 && r[0] == '#') {
      char* end; const char* st = r.c_str() + 1; unsigned long v;
      if (*st == 'x') v = strtoul(st + 1, &end, 16); else v = strtoul(st, &end, 10);
      if (*end || !gen::xml_char((uint32_t)v)) bad("bad character reference");
      gen::put_utf8(o, (uint32_t)v);
    } else bad("undeclared entity " + r);
    p = e + 1;
  }
  void attributes()
  {
    std::map<std::string, int> seen;
    for (;;) {
      size_t b = p;
      skip_ws();
      if (p >= in.size()) bad("unexpected end");
      if (in[p] == '>' || in[p] == '/') return;
      if (b == p) bad("space expected before attribute");
      std::string n = name();
      if (seen[n]++) bad("repeated attribute");
      skip_ws();
      if (p >= in.size() || in[p] != '=') bad("= expected");
      ++p; skip_ws();
      if (p >= in.size() || (in[p] != '"' && in[p] != '\'')) bad("quote expected");
      char q = in[p++];
      std::string v;
      while (p < in.size() && in[p] != q) { if (in[p] == '<') bad("< in attribute"); if (in[p] == '&') reference(v); else v += in[p++]; }
      if (p >= in.size()) bad("unexpected end");
      ++p;
    }
  }
  void text_piece(Node& parent, const std::string& t)
  {
    if (t.empty()) return;
    if (!parent.kids.empty() && parent.kids.back().name.empty()) parent.kids.back().text += t;
    else { Node n; n.text = t; parent.kids.push_back(n); }
  }
  void element(Node& out, unsigned depth)
  {
    if (depth > 5000) bad("too deep");
    ++p;
    out.name = name();
    attributes();
    if (in[p] == '/') { if (!at("/>")) bad("/> expected"); p += 2; return; }
    ++p;
    for (;;) {
      if (p >= in.size()) bad("unexpected end inside <" + out.name + ">");
      if (at("</")) {
        p += 2;
        std::string e = name();
        if (e != out.name) bad("</" + e + "> closes <" + out.name + ">");
        skip_ws();
        if (p >= in.size() || in[p] != '>') bad("> expected");
        ++p;
        return;
      }
      if (at("<!--")) { comment(); continue; }
      if (at("<![CDATA[")) {
        p += 9;
        size_t e = in.find("]]>", p);
        if (e == std::string::npos) bad("open CDATA");
        text_piece(out, newline(in.substr(p, e - p)));
        p = e + 3;
        continue;
      }
      if (at("<?")) { pi(); continue; }
      if (in[p] == '<') { out.kids.push_back(Node()); Node n; element(n, depth + 1); out.kids.back() = n; continue; }
      std::string t;
      if (in[p] == '&') { reference(t); text_piece(out, t); continue; }
      size_t b = p;
      while (p < in.size() && in[p] != '<' && in[p] != '&') { if (at("]]>")) bad("]]> in text"); ++p; }
      text_piece(out, newline(in.substr(b, p - b)));
    }
  }
  static std::string newline(const std::string& s)
  {
    std::string o;
    for (size_t i = 0; i < s.size(); ++i) {
      if (s[i] == '\r') { o += '\n'; if (i + 1 < s.size() && s[i + 1] == '\n') ++i; }
      else o += s[i];
    }
    return o;
  }
public:
  explicit Xml(const std::string& s): in(s), p(0) {}
  Node document()
  {
    std::vector<uint32_t> cps;
    if (!gen::get_utf8(in, cps)) bad("not UTF-8");
    for (uint32_t c : cps) if (!gen::xml_char(c)) bad("character not allowed in XML: " + std::to_string(c));
    if (at("\xEF\xBB\xBF")) p += 3;
    if (at("<?xml") && in.size() > p + 5 && sp(in[p + 5])) {
      size_t e = in.find("?>", p);
      if (e == std::string::npos) bad("open xml declaration");
      std::string d = in.substr(p, e - p);
      if (d.find("1.0") == std::string::npos) bad("xml version");
      size_t q = d.find("encoding");
      if (q != std::string::npos && d.find("UTF-8", q) == std::string::npos && d.find("utf-8", q) == std::string::npos) bad("declared encoding is not UTF-8");
      p = e + 2;
    }
    Node root; bool have = false;
    for (;;) {
      skip_ws();
      if (p >= in.size()) break;
      if (at("<!--")) comment();
      else if (at("<?")) pi();
      else if (in[p] == '<' && !have) { have = true; element(root, 0); }
      else bad("unexpected content outside the root element");
    }
    if (!have) bad("no root element");
    return root;
  }
};

inline bool blank(const std::string& t) { return gen::blank(t); }

// element children; text between them must be blank
inline std::vector<const Node*> elements(const Node& n)
{
  std::vector<const Node*> r;
  for (auto& k : n.kids) {
    if (!k.name.empty()) r.push_back(&k);
    else if (!blank(k.text)) throw RefError{"text inside <" + n.name + ">"};
  }
  return r;
}

inline std::string only_text(const Node& n)
{
  std::string t;
  for (auto& k : n.kids) { if (!k.name.empty()) throw RefError{"element inside <" + n.name + ">"}; t += k.text; }
  return t;
}

inline bool decode64(const std::string& in, std::string& out)
{
  static const char* al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  std::string t;
  for (char c : in) if (!strchr(" \t\r\n", c) || !c) t += c;
  if (t.size() % 4) return false;
  for (size_t i = 0; i < t.size(); i += 4) {
    int v[4]; int pad = 0;
    for (int k = 0; k < 4; ++k) {
      if (t[i + k] == '=') { if (i + 4 != t.size() || k < 2) return false; v[k] = 0; ++pad; }
      else { const char* q = t[i + k] ? strchr(al, t[i + k]) : 0; if (!q || pad) return false; v[k] = (int)(q - al); }
    }
    unsigned w = (unsigned)v[0] << 18 | (unsigned)v[1] << 12 | (unsigned)v[2] << 6 | (unsigned)v[3];
    out += (char)(w >> 16);
    if (pad < 2) out += (char)(w >> 8);
    if (pad < 1) out += (char)w;
  }
  return true;
}

inline std::string encode64(const std::string& in)
{
  static const char* al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  std::string o;
  for (size_t i = 0; i < in.size(); i += 3) {
    unsigned w = 0; size_t n = std::min<size_t>(3, in.size() - i);
    for (size_t k = 0; k < 3; ++k) w = w << 8 | (k < n ? (unsigned char)in[i + k] : 0u);
    o += al[w >> 18 & 63]; o += al[w >> 12 & 63];
    o += n > 1 ? al[w >> 6 & 63] : '=';
    o += n > 2 ? al[w & 63] : '=';
  }
  return o;
}

inline bool date_shape(const std::string& t)
{
  if (t.size() != 17) return false;
  for (int i = 0; i < 17; ++i) {
    char want = i == 8 ? 'T' : (i == 11 || i == 14) ? ':' : '0';
    if (want == '0' ? !(t[i] >= '0' && t[i] <= '9') : t[i] != want) return false;
  }
  return true;
}

inline int64_t integer(const std::string& t, int64_t lo, int64_t hi)
{
  size_t i = 0;
  if (i < t.size() && (t[i] == '-' || t[i] == '+')) ++i;
  if (i == t.size() || t.size() - i > 20) throw RefError{"bad integer " + t};
  unsigned __int128 v = 0;
  for (size_t k = i; k < t.size(); ++k) { if (t[k] < '0' || t[k] > '9') throw RefError{"bad integer " + t}; v = v * 10 + (unsigned)(t[k] - '0'); }
  __int128 r = t[0] == '-' ? -(__int128)v : (__int128)v;
  if (r < lo || r > hi) throw RefError{"integer out of range " + t};
  return (int64_t)r;
}

inline M value(const Node& n)
{
  if (n.name != "value") throw RefError{"<value> expected, found <" + n.name + ">"};
  bool has_el = false;
  for (auto& k : n.kids) has_el |= !k.name.empty();
  M v;
  if (!has_el) { v.t = M::STR; v.s = only_text(n); return v; }
  auto es = elements(n);
  if (es.size() != 1) throw RefError{"several types in <value>"};
  const Node& e = *es[0];
  if (e.name == "i4" || e.name == "int") { v.t = M::I4; v.i = integer(only_text(e), INT32_MIN, INT32_MAX); }
  else if (e.name == "i8") { v.t = M::I8; v.i = integer(only_text(e), INT64_MIN, INT64_MAX); }
  else if (e.name == "boolean") { v.t = M::BOOL; std::string t = only_text(e); if (t != "0" && t != "1") throw RefError{"bad boolean " + t}; v.i = t == "1"; }
  else if (e.name == "double") { v.t = M::DBL; std::string t = only_text(e); char* end; v.d = strtod(t.c_str(), &end); if (t.empty() || *end || isspace((unsigned char)t[0])) throw RefError{"bad double " + t}; }
  else if (e.name == "string") { v.t = M::STR; v.s = only_text(e); }
  else if (e.name == "base64") { v.t = M::B64; if (!decode64(only_text(e), v.s)) throw RefError{"bad base64"}; }
  else if (e.name == "dateTime.iso8601") { v.t = M::DATE; v.s = only_text(e); if (!date_shape(v.s)) throw RefError{"bad date " + v.s}; }
  else if (e.name == "nil") { v.t = M::NIL; if (!only_text(e).empty()) throw RefError{"text in nil"}; }
  else if (e.name == "array") {
    v.t = M::ARR;
    auto d = elements(e);
    if (d.size() != 1 || d[0]->name != "data") throw RefError{"bad array"};
    for (auto* k : elements(*d[0])) v.a.push_back(value(*k));
  }
  else if (e.name == "struct") {
    v.t = M::STRUCT;
    for (auto* k : elements(e)) {
      if (k->name != "member") throw RefError{"<member> expected"};
      auto nv = elements(*k);
      if (nv.size() != 2 || nv[0]->name != "name") throw RefError{"bad member"};
      std::string key = only_text(*nv[0]);
      if (v.m.count(key)) throw RefError{"repeated member " + key};
      v.m[key] = value(*nv[1]);
    }
  }
  else throw RefError{"unknown type <" + e.name + ">"};
  return v;
}

inline std::vector<M> params(const Node& n)
{
  std::vector<M> r;
  for (auto* p : elements(n)) {
    if (p->name != "param") throw RefError{"<param> expected"};
    auto v = elements(*p);
    if (v.size() != 1) throw RefError{"<param> must hold one value"};
    r.push_back(value(*v[0]));
  }
  return r;
}

struct Call { std::string name; std::vector<M> params; };
inline Call call(const std::string& xml)
{
  Node r = Xml(xml).document();
  if (r.name != "methodCall") throw RefError{"root is <" + r.name + ">"};
  auto es = elements(r);
  if (es.empty() || es.size() > 2 || es[0]->name != "methodName" || (es.size() == 2 && es[1]->name != "params")) throw RefError{"bad methodCall"};
  Call c;
  c.name = only_text(*es[0]);
  if (es.size() == 2) c.params = params(*es[1]);
  return c;
}

struct Resp { bool fault; M v; int code; std::string str; };
inline Resp response(const std::string& xml)
{
  Node r = Xml(xml).document();
  if (r.name != "methodResponse") throw RefError{"root is <" + r.name + ">"};
  auto es = elements(r);
  if (es.size() != 1) throw RefError{"bad methodResponse"};
  Resp o; o.code = 0;
  if (es[0]->name == "params") {
    auto ps = params(*es[0]);
    if (ps.size() != 1) throw RefError{"response must hold one value"};
    o.fault = false; o.v = ps[0];
  } else if (es[0]->name == "fault") {
    auto vs = elements(*es[0]);
    if (vs.size() != 1) throw RefError{"bad fault"};
    M f = value(*vs[0]);
    if (f.t != M::STRUCT || f.m.size() != 2 || !f.m.count("faultCode") || !f.m.count("faultString") || f.m["faultCode"].t != M::I4 || f.m["faultString"].t != M::STR) throw RefError{"bad fault struct"};
    o.fault = true; o.code = (int)f.m["faultCode"].i; o.str = f.m["faultString"].s;
  } else throw RefError{"unknown element <" + es[0]->name + ">"};
  return o;
}

} // namespace ref
#endif
