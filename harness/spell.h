// Writes a value tree as XML-RPC in a randomly chosen spelling.
#ifndef VP_SPELL_H
#define VP_SPELL_H
#include "refxml.h"

struct Spell {
  vp::Src& s;
  bool plain;            // canonical spelling, no choices drawn
  bool junk, refs, cdata, split, alias, untyped, encdecl;
  std::string pfx;       // namespace prefix with colon
  bool ascii;            // every non-ASCII character as a reference

  Spell(vp::Src& src, bool plain_ = false): s(src), plain(plain_), junk(false), refs(false), cdata(false), split(false), alias(false), untyped(false), encdecl(false), ascii(false)
  {
    if (plain) return;
    junk = s.chance(1, 2); refs = s.chance(1, 3); cdata = s.chance(1, 3); split = s.chance(1, 4); alias = s.chance(1, 2); untyped = s.chance(1, 2);
    if (s.chance(1, 5)) {
      static const char* t[] = { "x:", "ns-1.a:", "_:", "\xc3\xa9t\xc3\xa9:", "extension:", "value:", "i4:", "X.Y-Z_0:" };
      pfx = t[s.draw(8)];
      if (s.chance(1, 5)) pfx = "p" + std::string(s.draw(s.chance(1, 4) ? 2000 : 40), 'n') + ":";
    }
    ascii = s.chance(1, 8);
    if (ascii && !pfx.empty() && (unsigned char)pfx[0] > 126) pfx = "x:";
  }

  bool yes(unsigned n, unsigned d) { return !plain && s.chance(n, d); }

  std::string ws()         // between elements
  {
    std::string o;
    if (plain || !junk) return o;
    while (o.size() < 60 && s.chance(1, 3)) {
      switch (s.weighted({4, 4, 2, 2, 2, 1})) {
      case 0: o += ' '; break;
      case 1: o += '\n'; break;
      case 2: o += '\t'; break;
      case 3: o += "\r\n"; break;
      case 4: { static const char* c[] = { "<!-- c -->", "<!---->", "<!-- <value><i4>9</i4></value> -->", "<!-- &amp; ]]> -->" }; o += c[s.draw(4)]; break; }
      case 5: o += "<?pi some data?>"; break;
      }
    }
    return o;
  }
  std::string open(const std::string& n) { return "<" + pfx + n + (yes(1, 12) ? " " : "") + ">"; }
  std::string close(const std::string& n) { return "</" + pfx + n + (yes(1, 12) ? "\n" : "") + ">"; }
  std::string empty(const std::string& n)
  {
    if (plain) return "<" + pfx + n + "/>";
    switch (s.draw(3)) { case 0: return "<" + pfx + n + "/>"; case 1: return "<" + pfx + n + " />"; default: return "<" + pfx + n + "></" + pfx + n + ">"; }
  }

  std::string chars(const std::string& text)
  {
    std::vector<uint32_t> cps;
    gen::get_utf8(text, cps);
    // long texts: literal except what must be escaped
    bool lit = plain || cps.size() > 400;
    std::string o;
    char b[32];
    bool in_cdata = false;
    for (size_t i = 0; i < cps.size(); ++i) {
      uint32_t c = cps[i];
      if (!lit && cdata && !in_cdata && s.chance(1, 8)) { o += "<![CDATA["; in_cdata = true; }
      if (in_cdata) {
        bool cannot = c == '\r' || (ascii && c > 126) || (c == '>' && o.size() >= 2 && o.compare(o.size() - 2, 2, "]]") == 0);
        if (cannot || s.chance(1, 8)) { o += "]]>"; in_cdata = false; }
        else { gen::put_utf8(o, c); continue; }
      }
      if (!lit && split && s.chance(1, 8)) o += s.chance(1, 2) ? "<!-- split -->" : "<?p i?>";
      bool must = c == '<' || c == '&' || c == '\r' || (ascii && c > 126) || (c == '>' && o.size() >= 2 && o.compare(o.size() - 2, 2, "]]") == 0);
      if (must || (!lit && refs && s.chance(1, 6))) {
        unsigned k = lit ? 0 : (unsigned)s.draw(3);
        const char* nm = c == '<' ? "&lt;" : c == '&' ? "&amp;" : c == '>' ? "&gt;" : c == '"' ? "&quot;" : c == '\'' ? "&apos;" : 0;
        if (nm && k == 0) o += nm;
        else { snprintf(b, sizeof b, k == 2 ? "&#x%x;" : "&#%u;", c); o += b; }
      } else gen::put_utf8(o, c);
    }
    if (in_cdata) o += "]]>";
    if (!lit && split && s.chance(1, 8)) o += "<!-- end -->";
    return o;
  }

  std::string elem(const std::string& n, const std::string& text)
  {
    if (text.empty()) {
      if (plain) return "<" + pfx + n + "></" + pfx + n + ">";
      if (cdata && s.chance(1, 6)) return open(n) + "<![CDATA[]]>" + close(n);
      return empty(n);
    }
    return open(n) + chars(text) + close(n);
  }

  std::string value(const M& v)
  {
    if (v.t == M::STR && !plain) {
      if (v.s.empty() && untyped && s.chance(1, 2)) return s.chance(1, 3) ? open("value") + " " + close("value") : empty("value");
      if (!gen::blank(v.s) && untyped && s.chance(1, 2)) return open("value") + chars(v.s) + close("value");
    }
    std::string t;
    char b[400];
    switch (v.t) {
    case M::I4: t = elem(yes(1, 2) && alias ? "int" : "i4", std::to_string(v.i)); break;
    case M::I8: t = elem("i8", std::to_string(v.i)); break;
    case M::BOOL: t = elem("boolean", v.i ? "1" : "0"); break;
    case M::DBL:
      snprintf(b, sizeof b, "%.17g", v.d);
      if (yes(1, 3) && fabs(v.d) < 1e15 && fabs(v.d) > 1e-3) { snprintf(b, sizeof b, "%.25f", v.d); }
      t = elem("double", b); break;
    case M::STR: t = elem("string", v.s); break;
    case M::B64: {
      std::string e = ref::encode64(v.s);
      if (!plain && junk && e.size() < 2000) { std::string f; for (char c : e) { f += c; if (s.chance(1, 10)) f += "\n \t"[s.draw(3)]; } e = f; }
      t = elem("base64", e); break; }
    case M::DATE: t = elem("dateTime.iso8601", v.s); break;
    case M::NIL: t = plain ? "<" + pfx + "nil/>" : empty("nil"); break;
    case M::ARR: {
      if (v.a.empty() && !plain) { t = open("array") + ws() + (s.chance(1, 2) ? empty("data") : open("data") + ws() + close("data")) + ws() + close("array"); break; }
      t = open("array") + ws() + open("data") + ws();
      for (auto& x : v.a) t += value(x) + ws();
      t += close("data") + ws() + close("array"); break; }
    case M::STRUCT: {
      if (v.m.empty() && yes(1, 2)) { t = empty("struct"); break; }
      t = open("struct") + ws();
      std::vector<const std::pair<const std::string, M>*> ms;
      for (auto& x : v.m) ms.push_back(&x);
      if (!plain) for (size_t i = ms.size(); i > 1; --i) std::swap(ms[i - 1], ms[(i - 1) - s.draw(i)]);
      for (auto* x : ms) t += open("member") + ws() + elem("name", x->first) + ws() + value(x->second) + ws() + close("member") + ws();
      t += close("struct"); break; }
    }
    return open("value") + ws() + t + ws() + close("value");
  }

  std::string prolog()
  {
    std::string o;
    if (plain) return "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n";
    switch (s.draw(7)) {
    case 0: return o;
    case 1: o = "<?xml version=\"1.0\"?>"; break;
    case 2: o = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>"; break;
    case 3: o = "<?xml version='1.0' encoding='utf-8' standalone='yes'?>"; break;
    case 4: o = "\xEF\xBB\xBF<?xml version=\"1.0\" encoding=\"UTF-8\"?>"; break;
    case 5: o = ascii ? "<?xml version=\"1.0\" encoding=\"US-ASCII\"?>" : "<?xml version=\"1.0\" ?>"; break;
    case 6: o = ascii ? "<?xml version=\"1.0\" encoding=\"ISO-8859-1\"?>" : ""; break;
    }
    return o + ws();
  }
  std::string root_open(const std::string& n)
  {
    std::string o = "<" + pfx + n;
    if (!pfx.empty()) o += " xmlns:" + pfx.substr(0, pfx.size() - 1) + "=\"http://example.org/x\"";
    else if (yes(1, 10)) o += " xmlns=\"urn:rpc\"";
    return o + ">";
  }
  std::string call(const std::string& name, const std::vector<M>& ps)
  {
    std::string o = prolog() + root_open("methodCall") + ws() + elem("methodName", name) + ws();
    if (ps.empty() && !plain) {
      switch (s.draw(3)) { case 0: break; case 1: o += empty("params"); break; case 2: o += open("params") + ws() + close("params"); break; }
    } else {
      o += open("params") + ws();
      for (auto& p : ps) o += open("param") + ws() + value(p) + ws() + close("param") + ws();
      o += close("params");
    }
    return o + ws() + close("methodCall") + ws();
  }
  std::string response(const M& v)
  {
    return prolog() + root_open("methodResponse") + ws() + open("params") + ws() + open("param") + ws() + value(v) + ws() + close("param") + ws() + close("params") + ws() + close("methodResponse") + ws();
  }
  std::string fault(int code, const std::string& str)
  {
    M f; f.t = M::STRUCT; f.m["faultCode"] = M::num(code); f.m["faultString"] = M::str(str);
    return prolog() + root_open("methodResponse") + ws() + open("fault") + ws() + value(f) + ws() + close("fault") + ws() + close("methodResponse") + ws();
  }
};
#endif
