// Documents damaged in one stated way, given to must_refuse().
#ifndef VP_DAMAGE_H
#define VP_DAMAGE_H
#include "spell.h"

namespace damage {
using vp::Src;
using ref::Node;

static void must_refuse(Src& s, const std::string& xml, bool as_call, const std::string& how);   // the check's own
inline bool& only_calls() { static bool b = false; return b; }

struct Doc { bool call; std::string xml; };

static Doc doc(Src& s, bool plain, bool force_fault = false)
{
  MOpts o;
  o.depth = (unsigned)s.draw(4, [](vp::Rng& r) { return r.below(4); });
  o.width = 3;
  Spell sp(s, plain);
  Doc d;
  unsigned k = force_fault ? 2 : only_calls() ? 0 : (unsigned)s.draw(3);
  d.call = k == 0;
  gen::TextOpts no; no.max_cp = 8; no.blank_ok = false; no.empty_ok = false;
  if (k == 0) {
    std::string name = gen::text(s, no);
    std::vector<M> ps;
    for (size_t i = 0; i < 3 && s.more(30); ++i) ps.push_back(gen_value(s, o));
    d.xml = sp.call(name, ps);
  } else if (k == 1) d.xml = sp.response(gen_value(s, o));
  else { int c = gen::int32(s); d.xml = sp.fault(c, gen::text(s, no)); }
  return d;
}

static size_t root_end(const Doc& d)   // one past the '>' closing the root
{
  size_t p = d.xml.rfind(d.call ? "methodCall" : "methodResponse");
  return d.xml.find('>', p) + 1;
}

static void cut(Src& s)
{
  Doc d = doc(s, s.chance(1, 4));
  size_t end = root_end(d);
  size_t k = s.draw(end, [&](vp::Rng& r) -> uint64_t { return r.chance(1, 4) ? end - 1 - r.below(std::min<size_t>(end, 30)) : r.below(end); });
  must_refuse(s, d.xml.substr(0, k), d.call, "cut at " + std::to_string(k) + " of " + std::to_string(end));
}

// ---- tree damage ---------------------------------------------------------

static void collect(Node& n, std::vector<Node*>& out) { if (n.name.empty()) return; out.push_back(&n); for (auto& k : n.kids) collect(k, out); }

static std::string esc(const std::string& t)
{
  std::string o;
  for (char c : t) if (c == '<') o += "&lt;"; else if (c == '&') o += "&amp;"; else if (c == '>') o += "&gt;"; else if (c == '\r') o += "&#13;"; else o += c;
  return o;
}

static void put(const Node& n, std::string& o)
{
  if (n.name.empty()) { o += esc(n.text); return; }
  o += "<" + n.name + ">";
  for (auto& k : n.kids) put(k, o);
  o += "</" + n.name + ">";
}

static const char* scalar_names[] = { "i4", "int", "i8", "boolean", "double", "string", "base64", "dateTime.iso8601", "nil" };
static bool is_scalar(const std::string& n) { for (auto x : scalar_names) if (n == x) return true; return n == "name" || n == "methodName"; }
static bool is_type(const std::string& n) { for (auto x : scalar_names) if (n == x) return true; return n == "array" || n == "struct"; }

static Node el(const std::string& name, const std::string& text = "")
{
  Node n; n.name = name;
  if (!text.empty()) { Node t; t.text = text; n.kids.push_back(t); }
  return n;
}

static void insert_kid(Src& s, Node& p, const Node& k) { p.kids.insert(p.kids.begin() + (long)s.draw(p.kids.size() + 1), k); }

static const char* known[] = { "methodCall", "methodResponse", "methodName", "params", "param", "value", "array", "data", "struct", "member", "name", "fault",
  "i4", "int", "i8", "boolean", "double", "string", "base64", "dateTime.iso8601", "nil" };

static std::string unknown_name(Src& s)
{
  static const char* t[] = { "zzz", "Value", "VALUE", "integer", "i", "i44", "values", "params2", "methodcall", "bool", "float", "date", "dateTime", "null", "i16", "ex.i8", "_value", "str" };
  std::string n;
  switch (s.draw(6)) {
  case 0: n = t[s.draw(sizeof t / sizeof *t)]; break;
  case 3: {   // a word of the code under test
    auto& d = vp::dict_strings();
    if (d.empty()) throw vp::Discard();
    n = d[s.draw(d.size())];
    if (n.size() > 24) throw vp::Discard();
    for (char c : n) if (!(isalnum((unsigned char)c) || c == '.' || c == '_' || c == '-')) throw vp::Discard();
    break; }
  case 1: {   // a known name with one letter changed, added or left out
    n = known[s.draw(sizeof known / sizeof *known)];
    size_t p = s.draw(n.size());
    char c = "abcdeintrsxAZ0123456789"[s.draw(23)];
    switch (s.draw(3)) { case 0: n[p] = c; break; case 1: n.insert(p, 1, c); break; default: n.erase(p, 1); }
    break; }
  case 4: {   // a known name with something joined to it
    std::string k = known[s.draw(sizeof known / sizeof *known)], w;
    for (size_t i = 0; i < 3 && (i < 1 || s.more(40)); ++i) w += "abcdefghijklmnopqrstuvwxyz"[s.draw(26)];
    if (s.chance(1, 4)) w = known[s.draw(sizeof known / sizeof *known)];
    static const char* j[] = { "-", ".", "_", "" };
    const char* sep = j[s.draw(4)];
    n = s.chance(1, 2) ? w + sep + k : k + sep + w;
    break; }
  case 5: {   // a known name in other letter case
    n = known[s.draw(sizeof known / sizeof *known)];
    size_t m = s.draw(3);
    for (size_t i = 0; i < n.size(); ++i) if (m == 0 || (m == 1 && i == 0) || (m == 2 && s.chance(1, 3))) n[i] = (char)(islower((unsigned char)n[i]) ? toupper((unsigned char)n[i]) : tolower((unsigned char)n[i]));
    break; }
  default: for (size_t i = 0; i < 4 && (i < 1 || s.more(30)); ++i) n += "abcdefghijklmnopqrstuvwxyz0123456789"[s.draw(i ? 36 : 26)];
  }
  if (n.empty() || (n[0] >= '0' && n[0] <= '9') || n[0] == '.' || n[0] == '-') n = "z" + n;
  for (auto k : known) if (n == k) throw vp::Discard();
  return n;
}

static void structure(Src& s)
{
  Doc d = doc(s, true);
  Node root = ref::Xml(d.xml).document();
  if (d.call && root.kids.size() == 2 && root.kids[1].kids.empty() && s.chance(1, 2)) root.kids.pop_back();   // no parameters at all
  std::vector<Node*> all;
  collect(root, all);
  std::string how;
  switch (s.draw(6)) {
  case 0: {
    Node* p = all[s.draw(all.size())];
    std::string n = unknown_name(s);
    Node k = el(n, s.chance(1, 2) ? "1" : "");
    how = "unknown-element <" + n + "> in <" + p->name + ">";
    insert_kid(s, *p, k);
    break; }
  case 1: {
    Node* p = all[s.draw(all.size())];
    std::string n = unknown_name(s);
    how = "unknown-element <" + p->name + "> renamed <" + n + ">";
    p->name = n;
    break; }
  case 2: {   // a known element where the grammar has no place for it
    Node* p = all[s.draw(all.size())];
    std::string n = known[s.draw(sizeof known / sizeof *known)];
    bool allowed =
      (d.call && p->name == "params" && n == "param") || (p->name == "data" && n == "value") || (p->name == "struct" && n == "member");
    // anything else is either never allowed or present already (once is the limit)
    if (p->name == "methodCall" && n == "params") { bool has = false; for (auto& k : p->kids) has |= k.name == "params"; allowed |= !has; }
    if (allowed) throw vp::Discard();
    // repeated single elements must not be the only ones of their kind
    Node k = el(n, s.chance(1, 3) ? "1" : "");
    if (n == "i4" || n == "int" || n == "i8" || n == "boolean" || n == "double") k = el(n, "1");   // nothing else wrong with it
    if (n == "base64") k = el(n, "AAAA");
    if (n == "dateTime.iso8601") k = el(n, "20010203T04:05:06");
    if (n == "value" && s.chance(1, 2)) { k.kids.clear(); k.kids.push_back(el("i4", "5")); }
    if (n == "param" && s.chance(1, 2)) { Node v = el("value"); v.kids.push_back(el("i4", "5")); k.kids.clear(); k.kids.push_back(v); }
    how = "misplaced-element <" + n + "> in <" + p->name + ">";
    insert_kid(s, *p, k);
    break; }
  case 3: {
    static const char* names[] = { "methodCall", "methodResponse", "params", "value", "fault", "zzz", "methodCal", "methodcall", "array", "struct", "html" };
    std::string n = names[s.draw(sizeof names / sizeof *names)];
    if (n == root.name) throw vp::Discard();
    how = "wrong-root <" + n + ">";
    root.name = n;
    break; }
  case 4: {   // remove a required part
    std::vector<std::pair<Node*, size_t>> c;
    for (auto* p : all) for (size_t i = 0; i < p->kids.size(); ++i) {
      const std::string& kn = p->kids[i].name;
      if ((p->name == "methodCall" && kn == "methodName") || (p->name == "member" && (kn == "name" || kn == "value")) || (d.call && p->name == "param" && kn == "value") ||
          (!d.call && ((p->name == "methodResponse") || (p == &root.kids[0]) || (p->name == "param" && kn == "value" && root.kids[0].name == "params")))) {
        if (p->name == "data" || kn.empty()) continue;
        c.push_back({ p, i });
      }
    }
    if (c.empty()) throw vp::Discard();
    auto pick = c[s.draw(c.size())];
    how = "missing-part <" + pick.first->kids[pick.second].name + "> of <" + pick.first->name + ">";
    pick.first->kids.erase(pick.first->kids.begin() + (long)pick.second);
    break; }
  default: {   // parsed as the other kind of message
    must_refuse(s, d.xml, !d.call, "wrong-root message of the other kind");
    return; }
  }
  std::string xml;
  put(root, xml);
  must_refuse(s, xml, d.call, how);
}

static std::string bad_int(Src& s, bool wide)
{
  unsigned k = (unsigned)s.draw(8);
  switch (k) {
  case 0: return s.chance(1, 2) ? "" : " ";
  case 1: { // out of range
    unsigned __int128 v = wide ? ((unsigned __int128)1 << 63) : ((unsigned __int128)1 << 31);
    bool neg = s.chance(1, 2);
    v += s.draw(0, [](vp::Rng& r) -> uint64_t { return r.chance(1, 2) ? r.below(3) : r.next() >> r.below(64); });
    if (neg) v += 1;
    std::string t; do { t.insert(t.begin(), (char)('0' + (int)(v % 10))); v /= 10; } while (v);
    return (neg ? "-" : "") + t; }
  case 2: return std::to_string(gen::int32(s)) + (s.chance(1, 2) ? " " : "x");
  case 3: return " " + std::to_string(gen::int32(s));
  case 4: return std::to_string((int)s.draw(100)) + "." + std::to_string((int)s.draw(10));
  case 5: { std::string t = std::to_string(gen::int32(s)); size_t p = 1 + s.draw(t.size()); static const char b[] = "a-+ ,eE:_\xc3"; t.insert(p, 1, b[s.draw(9)]); return t; }
  case 6: { static const char* t[] = { "abc", "-", "+", "0x10", "1e3", "--1", "+-1", "true", "nil", "NaN", "1,000", "2147483648", "-2147483649", "9223372036854775808", "-9223372036854775809", "99999999999999999999999" };
            std::string r = t[s.draw(16)]; if (wide && (r == "2147483648" || r == "-2147483649")) r = "9223372036854775809"; return r; }
  default: { std::string t; size_t n = 20 + s.draw(30); for (size_t i = 0; i < n; ++i) t += (char)('1' + s.draw(9)); return t; }
  }
}

static void scalars(Src& s)
{
  static const char* tags[] = { "i4", "int", "i8", "boolean", "double", "dateTime.iso8601", "base64" };
  std::string tag = tags[s.draw(7)], txt;
  if (tag == "i4" || tag == "int") txt = bad_int(s, false);
  else if (tag == "i8") txt = bad_int(s, true);
  else if (tag == "boolean") {
    static const char* t[] = { "", "true", "false", "x", "1x", "0x1", "yes", " ", "1.0", "-", "99999999999999999999", "\xc3\xa9" };
    txt = t[s.draw(12)];
  } else if (tag == "double") {
    static const char* t[] = { "", "x", "1.5x", "1,5", "1.2.3", "--1", ".", "e5", "1e", "1e+", "1 2", " ", "12abc", "+-1", "1.5 ", " 1.5", "1..5", "infinite", "nanx", "1e5.5" };
    txt = t[s.draw(20)];
  } else if (tag == "dateTime.iso8601") {
    txt = gen::show(gen::date(s));
    switch (s.draw(4)) {
    case 0: txt = txt.substr(0, s.draw(17)); break;
    case 1: { size_t p = s.draw(17); static const char b[] = "xT:-/ .Z+"; char c = b[s.draw(9)]; if (txt[p] == c) c = '#'; txt[p] = c; break; }
    case 2: txt.insert(s.draw(18), 1, "0T: Z+"[s.draw(6)]); break;
    default: { // a field out of range
      static const struct { int at; const char* v; } f[] = { { 4, "00" }, { 4, "13" }, { 4, "99" }, { 6, "00" }, { 6, "32" }, { 9, "24" }, { 9, "99" }, { 12, "60" }, { 15, "62" }, { 15, "99" }, { 0, "1899" }, { 0, "0000" } };
      auto& q = f[s.draw(12)];
      txt.replace((size_t)q.at, strlen(q.v), q.v); }
    }
  } else {
    std::string b = gen::bytes(s, 12);
    txt = ref::encode64(b);
    switch (s.draw(3)) {
    case 0: { if (txt.empty()) txt = "AAAA"; txt.erase(s.draw(txt.size()), 1); break; }
    case 1: { if (txt.empty()) txt = "AAAA"; static const char bad[] = "-_!.,*$#@~"; txt[s.draw(txt.size())] = bad[s.draw(10)]; break; }
    default: { std::string g = "AAAA"; g[s.draw(2)] = '='; txt = g + txt; }
    }
  }
  // inside some structure
  Doc d;
  std::string v = "<value><" + tag + ">" + esc(txt) + "</" + tag + "></value>";
  static const char* wraps[] = { "%", "<value><array><data>%</data></array></value>", "<value><array><data><value>a</value>%<value><nil/></value></data></array></value>",
    "<value><struct><member><name>n</name>%</member></struct></value>", "<value><struct><member><name>a</name><value><array><data>%</data></array></value></member></struct></value>" };
  std::string w = wraps[s.draw(5)];
  w.replace(w.find('%'), 1, v);
  d.call = only_calls() || s.chance(1, 2);
  std::string pre = d.call && s.chance(1, 2) ? "<param><value><i4>1</i4></value></param>" : "";
  std::string post = d.call && s.chance(1, 2) ? "<param><value><i4>1</i4></value></param>" : "";
  d.xml = d.call ? "<methodCall><methodName>m</methodName><params>" + pre + "<param>" + w + "</param>" + post + "</params></methodCall>"
                 : "<methodResponse><params><param>" + w + "</param></params></methodResponse>";
  must_refuse(s, d.xml, d.call, "bad-" + tag + " " + vp::quote(txt, 60));
}

static void faults(Src& s)
{
  static const char* codes[] = { "<i4>5</i4>", "<int>-7</int>" };
  static const char* bad_codes[] = { "<string>5</string>", "5", "<i8>5</i8>", "<boolean>1</boolean>", "<double>5</double>", "<nil/>", "<struct></struct>", "<array><data></data></array>", "<base64>AAAA</base64>" };
  static const char* strs[] = { "<string>oops</string>", "oops", "" };
  static const char* bad_strs[] = { "<i4>5</i4>", "<nil/>", "<boolean>0</boolean>", "<array><data></data></array>", "<base64>AAAA</base64>", "<struct></struct>", "<dateTime.iso8601>20010203T04:05:06</dateTime.iso8601>" };
  auto mem = [](const std::string& n, const std::string& v) { return "<member><name>" + n + "</name><value>" + v + "</value></member>"; };
  std::string c = mem("faultCode", codes[s.draw(2)]), t = mem("faultString", strs[s.draw(3)]), v;
  bool swap = s.chance(1, 2);
  std::string how;
  switch (s.draw(7)) {
  case 0: how = "fault-no-code"; v = t; break;
  case 1: how = "fault-no-string"; v = c; break;
  case 2: how = "fault-code-type"; c = mem("faultCode", bad_codes[s.draw(9)]); v = swap ? t + c : c + t; break;
  case 3: how = "fault-string-type"; t = mem("faultString", bad_strs[s.draw(7)]); v = swap ? t + c : c + t; break;
  case 4: how = "fault-extra-member"; v = swap ? c + mem("extra", "<i4>1</i4>") + t : c + t + mem("faultcode", "<i4>1</i4>"); break;
  case 5: how = "fault-empty"; break;
  default: how = "fault-member-name"; v = swap ? mem("faultcode", "<i4>1</i4>") + t : c + mem("FaultString", "x"); break;
  }
  std::string val = "<struct>" + v + "</struct>";
  if (s.chance(1, 8)) { static const char* ns[] = { "<i4>1</i4>", "<string>faultCode</string>", "text", "<array><data></data></array>", "<nil/>" }; val = ns[s.draw(5)]; how = "fault-not-struct"; }
  must_refuse(s, "<?xml version=\"1.0\"?><methodResponse><fault><value>" + val + "</value></fault></methodResponse>", false, how);
}

static void malformed(Src& s)
{
  Doc d = doc(s, s.chance(1, 2));
  size_t end = root_end(d);
  size_t beg = d.xml.find(d.call ? "methodCall" : "methodResponse");
  beg = d.xml.find('>', beg) + 1;
  // damage points: right before a tag or within character data, outside comments, PIs and CDATA
  std::vector<size_t> tags, ends;
  for (size_t p = beg; p < end; ) {
    if (d.xml.compare(p, 4, "<!--") == 0) { p = d.xml.find("-->", p) + 3; continue; }
    if (d.xml.compare(p, 9, "<![CDATA[") == 0) { p = d.xml.find("]]>", p) + 3; continue; }
    if (d.xml.compare(p, 2, "<?") == 0) { p = d.xml.find("?>", p) + 2; continue; }
    if (d.xml[p] == '<') { tags.push_back(p); if (d.xml[p + 1] == '/') ends.push_back(p); p = d.xml.find('>', p) + 1; continue; }
    ++p;
  }
  std::string x = d.xml, how;
  size_t at = tags[s.draw(tags.size())];
  switch (s.draw(9)) {
  case 0: { size_t e = ends[s.draw(ends.size())]; how = "unclosed-tag"; x.erase(e, x.find('>', e) + 1 - e); break; }
  case 1: { size_t e = ends[s.draw(ends.size())]; how = "wrong-end-tag"; x.insert(e + 2, 1, 'q'); break; }
  case 2: how = "stray-angle"; x.insert(at, s.chance(1, 2) ? "<" : "< "); break;
  case 3: how = "stray-ampersand"; { static const char* t[] = { "&", "& ", "&;", "&amp ", "&#;", "&#x;", "&#0;", "&#xFFFE;", "&#x110000;", "&#8;" }; x.insert(at, t[s.draw(10)]); } break;
  case 4: how = "undeclared-entity"; x.insert(at, s.chance(1, 2) ? "&foo;" : "&nbsp;"); break;
  case 5: how = "control-character"; x.insert(at, 1, (char)"\x01\x02\x08\x0b\x0c\x0e\x1f\x1b"[s.draw(8)]); break;
  case 6: { how = "bad-utf8"; static const char* t[] = { "\xff", "\xc3(", "\xe2\x82", "\xf8\x88\x80\x80\x80", "\xed\xa0\x80", "\xc0\xaf", "\x80" };
            std::string b = t[s.draw(7)];
            if (d.xml.find("8859-1") != std::string::npos || d.xml.find("US-ASCII") != std::string::npos) throw vp::Discard();
            x.insert(at, b); break; }
  case 7: how = "bad-attribute"; { if (x[at + 1] == '/') throw vp::Discard(); size_t e = x.find_first_of(" />\n", at + 1); static const char* t[] = { " a", " a=", " a=1", " a='1' a='2'", " a='<'", " ='1'" }; x.insert(e, t[s.draw(6)]); } break;
  default: how = "extra-end-tag"; x.insert(at, "</value>");
    { // an end tag that happens to close the open element and leaves the rest unbalanced is still ill-formed
    } break;
  }
  must_refuse(s, x, d.call, how);
}

} // namespace damage
#endif
