// C06: hostile documents: no crash, no leak, no stack overflow, bounded time and memory
#include "spell.h"
#include "libiqxmlrpc/request.h"
#include "libiqxmlrpc/response.h"
#include <memory>
#include <sys/resource.h>
#include <time.h>

using namespace iqxmlrpc;
using vp::Src;

static double cpu() { timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return (double)t.tv_sec + (double)t.tv_nsec * 1e-9; }
static long rss_kb() { rusage r; getrusage(RUSAGE_SELF, &r); return r.ru_maxrss; }

static void survive(Src& s, const std::string& xml, bool as_call)
{
  // settings of the application that decide what an empty number means
  struct Reset { ~Reset() { Value::drop_default_int(); Value::drop_default_int64(); } } reset;
  if (s.chance(1, 4)) { Value::set_default_int(7); Value::set_default_int64(-8); }
  double c0 = cpu();
  long m0 = rss_kb();
  bool ok = false;
  try {
    if (as_call) {
      std::unique_ptr<Request> r(parse_request(xml));
      ok = true;
      Param_list copy(r->get_params());
      std::string d = dump_request(*r);
    } else {
      Response r(parse_response(xml));
      ok = true;
      if (!r.is_fault()) { Value v(r.value()); }
      std::string d = dump_response(r);
    }
  }
  catch (const std::exception&) {}
  catch (...) { vp::fail("foreign-exception", "something not derived from std::exception was thrown"); }
  double dt = cpu() - c0;
  long dm = rss_kb() - m0;
  // generous: about 100 times what well-formed documents of that size take
  VP_CHECK(dt < 3 + (double)xml.size() * 10e-6, "time", std::to_string(dt) + " s of CPU for " + std::to_string(xml.size()) + " bytes");
  VP_CHECK(dm < 300000 + (long)(xml.size() / 1024) * 200, "memory", std::to_string(dm) + " KB for " + std::to_string(xml.size()) + " bytes");
  s.label(ok ? "parsed" : "refused");
  s.nontrivial(vp::mix(vp::hash64(xml), as_call));
}

static const char* tokens[] = {
  "<methodCall>", "</methodCall>", "<methodName>", "</methodName>", "<params>", "</params>", "<param>", "</param>", "<value>", "</value>", "<value/>", "<i8/>", "<value><i8/></value>", "<value><i4></i4></value>",
  "<i4>", "</i4>", "<i4/>", "<int>", "</int>", "<i8>", "</i8>", "<boolean>", "</boolean>", "<double>", "</double>", "<string>", "</string>", "<string/>",
  "<base64>", "</base64>", "<dateTime.iso8601>", "</dateTime.iso8601>", "<nil/>", "<nil>", "</nil>", "<array>", "</array>", "<data>", "</data>", "<data/>",
  "<struct>", "</struct>", "<struct/>", "<member>", "</member>", "<name>", "</name>", "<name/>", "<methodResponse>", "</methodResponse>", "<fault>", "</fault>",
  "faultCode", "faultString", "1", "-5", "text", " ", "\n", "20010203T04:05:06", "AAAA", "<!-- c -->", "<![CDATA[x]]>", "<![CDATA[", "]]>", "<!--", "-->", "<?pi?>", "<?xml version=\"1.0\"?>",
  "&amp;", "&lt;", "&#65;", "&#0;", "&e;", "&", "<", ">", "<!DOCTYPE a [<!ENTITY e \"v\">]>", "<!DOCTYPE a SYSTEM \"x\">", "<!ENTITY e \"v\">", "<!ELEMENT value ANY>", "<x:value xmlns:x='u'>", "</x:value>",
  " a='1'", " xmlns='u'", "\xEF\xBB\xBF", "\xff", "\xc3", "\xe2\x82\xac", "<a", "/>", "=", "\"", "'", "<methodName><i4>", "<value><value>", "<name><name>", "<:value>", "<value:>", "<a:b:c/>" };
static const size_t n_tokens = sizeof tokens / sizeof *tokens;

static std::string token(Src& s)
{
  size_t k = s.draw(n_tokens + 3);
  if (k < n_tokens) return tokens[k];
  if (k == n_tokens) return gen::bytes(s, 8);
  if (k == n_tokens + 1) return gen::text(s);
  size_t len = s.draw(20000, [](vp::Rng& r) -> uint64_t { return gen::interesting_size(r, 5000); });
  return std::string(len, "a<& 0\xff"[s.draw(6)]);
}

static std::string valid(Src& s, bool& call)
{
  MOpts o; o.depth = (unsigned)s.draw(4); o.width = 3;
  Spell sp(s, s.chance(1, 3));
  unsigned k = (unsigned)s.draw(3);
  call = k == 0;
  if (k == 0) {
    std::vector<M> ps;
    for (size_t i = 0; i < 3 && s.more(30); ++i) ps.push_back(gen_value(s, o));
    return sp.call("m", ps);
  }
  if (k == 1) return sp.response(gen_value(s, o));
  return sp.fault(gen::int32(s), gen::text(s));
}

static void mutated(Src& s)
{
  bool call;
  std::string x = valid(s, call), other;
  size_t n = 1 + s.draw(6);
  for (size_t i = 0; i < n && x.size() < 300000; ++i) {
    size_t p = s.draw(x.size() + 1), q = std::min(x.size(), p + s.draw(x.size() + 1, [&](vp::Rng& r) -> uint64_t { return r.below(r.chance(1, 2) ? 20 : x.size() + 1); }));
    switch (s.draw(8)) {
    case 0: x.erase(p, q - p); break;
    case 1: x.insert(p, token(s)); break;
    case 2: x.insert(p, x.substr(p, q - p)); break;                // duplicate
    case 3: { std::string t = x.substr(p, q - p); x.erase(p, q - p); x.insert(s.draw(x.size() + 1), t); break; }
    case 4: if (p < x.size()) x[p] = (char)s.draw(256); break;
    case 5: { std::string t = x.substr(p, q - p); size_t k = s.draw(200); for (size_t j = 0; j < k && x.size() < 100000; ++j) x.insert(p, t); break; }
    case 6: { bool c2; if (other.empty()) other = valid(s, c2); size_t b = s.draw(other.size() + 1); x.insert(p, other.substr(b, s.draw(200))); break; }
    default: { // swap two tag-delimited pieces
      size_t a = x.find('<', p), b = a == std::string::npos ? a : x.find('<', a + 1), c = b == std::string::npos ? b : x.find('<', b + 1);
      if (c != std::string::npos) x = x.substr(0, a) + x.substr(b, c - b) + x.substr(a, b - a) + x.substr(c); }
    }
  }
  if (s.chance(1, 10)) call = !call;
  s.note(std::string(call ? "call " : "response ") + vp::quote(x, 1000));
  survive(s, x, call);
}

static void soup(Src& s)
{
  std::string x;
  bool call = s.chance(1, 2);
  if (s.chance(1, 2)) x = call ? "<methodCall><methodName>m</methodName><params><param>" : "<methodResponse><params><param>";
  for (size_t i = 0; i < 60 && s.more(6); ++i) x += token(s);
  s.note(std::string(call ? "call " : "response ") + vp::quote(x, 1000));
  survive(s, x, call);
}

static void raw(Src& s)
{
  bool call = s.chance(1, 2);
  std::string x = gen::bytes(s, 60, 3000);
  if (s.chance(1, 2)) x = "<methodCall>" + x;
  // UTF-16/UTF-32 marks and declared encodings
  static const char* pre[] = { "", "\xff\xfe", "\xfe\xff", "<?xml version='1.0' encoding='UTF-16'?>", "<?xml version='1.0' encoding='EBCDIC-CP-US'?>", "<?xml version='1.0' encoding='no-such'?>", "<?xml version='1.1'?>" };
  x = pre[s.draw(7)] + x;
  s.note(std::string(call ? "call " : "response ") + vp::quote(x, 600));
  survive(s, x, call);
}

static std::string rep(const std::string& t, size_t n) { std::string o; o.reserve(t.size() * n); for (size_t i = 0; i < n; ++i) o += t; return o; }

// size, nesting and entity bombs
static void bombs(Src& s)
{
  bool call = s.chance(1, 2);
  std::string pre = call ? "<methodCall><methodName>m</methodName><params><param>" : "<methodResponse><params><param>";
  std::string post = call ? "</param></params></methodCall>" : "</param></params></methodResponse>";
  size_t n = s.draw(400000, [](vp::Rng& r) -> uint64_t { return r.chance(1, 2) ? r.below(200000) : r.below(3000); });
  std::string x, how;
  unsigned kind = (unsigned)s.weighted({ 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 12 });
  switch (kind) {
  case 0: how = "nested arrays"; n %= 60000; x = pre + rep("<value><array><data>", n) + rep("</data></array></value>", n) + post; break;
  case 1: how = "nested structs"; n %= 50000; x = pre + rep("<value><struct><member><name>a</name>", n) + "<value/>" + rep("</member></struct></value>", n) + post; break;
  case 2: how = "unclosed arrays"; x = pre + rep("<value><array><data>", n % 60000); break;
  case 3: how = "nested unknown tags"; x = pre + rep("<a>", n); break;
  case 4: how = "nested tags in method name"; x = "<methodCall><methodName>" + rep("<a>", n); call = true; break;
  case 5: how = "nested root"; x = rep("<methodCall>", n % 100000); break;
  case 6: how = "nested values"; x = pre + rep("<value>", n); break;
  case 7: how = "many params"; x = call ? "<methodCall><methodName>m</methodName><params>" + rep("<param><value><i4>1</i4></value></param>", n % 20000) + "</params></methodCall>" : pre + "<value><array><data>" + rep("<value/>", n % 40000) + "</data></array></value>" + post; break;
  case 8: how = "many members"; { x = pre + "<value><struct>"; for (size_t i = 0; i < n % 20000; ++i) x += "<member><name>" + std::to_string(s.describing() ? i : i) + "</name><value/></member>"; x += "</struct></value>" + post; } break;
  case 9: how = "text in pieces"; { static const char* p[] = { "x<!-- c -->", "<![CDATA[x]]>", "x<?p?>", "&lt;", "&#65;", " <!---->" }; x = pre + "<value><string>" + rep(p[s.draw(6)], n % 40000) + "</string></value>" + post; } break;
  case 10: how = "long text"; x = pre + "<value><" + std::string(s.chance(1, 2) ? "string" : "base64") + ">" + std::string(n * 4, 'A') + "</string></value>" + post; break;
  case 11: how = "long number"; x = pre + "<value><i4>" + std::string(n, '1') + "</i4></value>" + post; break;
  case 12: how = "many attributes"; { x = pre + "<value"; for (size_t i = 0; i < n % 3000; ++i) x += " a" + std::to_string(i) + "='1'"; x += ">a</value>" + post; } break;
  case 13: how = "long names"; x = pre + "<" + std::string(n, 'a') + "/>" + post; break;
  case 14: case 15: case 16: {
    // exponential or quadratic entity definitions, used in text, attributes or other entities
    size_t levels = 1 + s.draw(12), fan = 1 + s.draw(12), len = 1 + s.draw(2000, [](vp::Rng& r) -> uint64_t { return r.below(r.chance(1, 2) ? 10 : 2000); }), uses = 1 + s.draw(200, [](vp::Rng& r) -> uint64_t { return r.below(r.chance(1, 2) ? 3 : 200); });
    bool pe = s.chance(1, 5);
    std::string d = "<!DOCTYPE methodCall [<!ENTITY e0 \"" + std::string(len, 'x') + "\">";
    for (size_t i = 1; i <= levels; ++i) d += "<!ENTITY " + std::string(pe && i == levels ? "% " : "") + "e" + std::to_string(i) + " \"" + rep("&e" + std::to_string(i - 1) + ";", fan) + "\">";
    if (s.chance(1, 3)) d += "<!ATTLIST value a CDATA \"" + rep("&e" + std::to_string(levels) + ";", 1) + "\">";
    d += "]>";
    std::string use = rep("&e" + std::to_string(levels) + ";", uses);
    unsigned where = (unsigned)s.draw(4);
    how = "entity bomb levels " + std::to_string(levels) + " fan " + std::to_string(fan) + " len " + std::to_string(len) + " uses " + std::to_string(uses) + " where " + std::to_string(where);
    if (where == 0) x = d + pre + "<value><string>" + use + "</string></value>" + post;
    else if (where == 1) x = d + pre + "<value a=\"" + use + "\">x</value>" + post;
    else if (where == 2) x = d + "<methodCall><methodName>" + use + "</methodName></methodCall>", call = true;
    else x = d + pre + "<value><struct><member><name>" + use + "</name><value>" + use + "</value></member></struct></value>" + post;
    break; }
  case 18: {
    // one piece over and over inside a construct that may never end
    static const char* open[] = { "<!-- ", "<?p ", "<![CDATA[", "<!DOCTYPE a [", "<value a='", "<value ", "<value><string>", "<value><base64>", "<value><", "<value>&", "<value></", "", "<!DOCTYPE a [<!ENTITY e '", "<!DOCTYPE a [<!ATTLIST a ", "<!DOCTYPE a [<!ELEMENT a (", "<?xml version='1.0' ", "<value xmlns:a='u' ", "<!DOCTYPE a SYSTEM '" };
    static const char* close[] = { "-->", "?>", "]]>", "]>", "'/>", "/>", "</string></value>", "</base64></value>", "></value>", ";</value>", "></value>", "", "'>]>", ">]>", ")>]>", "?>", "/>", "'>" };
    static const char* piece[] = { "--", "- ", "-->", "? ", "?>", "]]", "]]>", "<!--", "<![CDATA[", "<?p", "%e;", "&e;", "&amp;", "&#0;", "&#65;", "&", "<a", "<a>", "<a/>", "<b:a/>", "</a>", "a:", ":", "\"", "'", "=", " a='1'", " a", "a", "\n", "\r\n", "\t", "\x01", "\xc3\xa9", "\xff", "<!ENTITY e 'v'>", "<!ELEMENT a ANY>", "<!ATTLIST a b CDATA 'v'>", "<!NOTATION n SYSTEM 'x'>", "(", "a|", "a,", "<value/>", "<value>", "x<!-- -->", "<!---->" };
    size_t o = s.draw(18), p = s.draw(sizeof piece / sizeof *piece);
    bool fit = s.chance(1, 3);      // pieces that mean something in the construct, and many of them
    if (fit) {
      static const unsigned pairs[][2] = { { 0, 0 }, { 0, 1 }, { 1, 3 }, { 2, 5 }, { 4, 12 }, { 4, 29 }, { 5, 26 }, { 6, 12 }, { 6, 44 }, { 6, 30 }, { 7, 28 }, { 11, 45 }, { 12, 14 }, { 13, 27 }, { 14, 40 }, { 14, 39 }, { 16, 26 }, { 0, 0 } };
      const unsigned* k = pairs[s.draw(18)];
      o = k[0]; p = k[1]; n = 400000 - s.draw(100000) - 1;
    }
    std::string unit = piece[p];
    if (!fit && s.chance(1, 4)) unit += piece[s.draw(sizeof piece / sizeof *piece)];
    n = n % 400000 / unit.size();
    bool top = o == 3 || o == 11 || o == 12 || o == 13 || o == 14 || o == 15 || o == 17, closed = s.chance(1, 2);
    how = std::string("repeats of ") + unit + " in " + open[o] + (closed ? " closed" : "");
    x = (top ? "" : pre) + open[o] + rep(unit, n) + (closed ? std::string(close[o]) + (top ? pre : "") + "<value/>" + post : "");
    break; }
  default: how = "many DTD declarations"; { x = "<!DOCTYPE methodCall ["; for (size_t i = 0; i < n % 5000; ++i) x += "<!ENTITY e" + std::to_string(i) + " \"v\"><!ELEMENT x" + std::to_string(i) + " ANY>"; x += "]>" + pre + "<value>&e1;</value>" + post; } break;
  }
  s.note(how + " n=" + std::to_string(n) + " length " + std::to_string(x.size()) + " " + vp::quote(x, 300));
  s.label("bomb:" + how.substr(0, std::min(how.find(" bomb"), how.find(" of "))));
  survive(s, x, call);
}

int main(int argc, char** argv)
{
  vp::Config c;
  c.id = "C06";
  c.props = { { "mutated", mutated, 40 }, { "soup", soup, 20 }, { "raw", raw, 5 }, { "bombs", bombs, 3 } };
  c.leak_check = true;
  c.leak_every = 100;
  return vp::main_impl(argc, argv, c);
}
