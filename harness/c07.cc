// C07: DTDs and entities never make the parser open anything, and external text never becomes a value
#include "spell.h"
#include "libiqxmlrpc/request.h"
#include "libiqxmlrpc/response.h"
#include <libxml/xmlIO.h>
#include <libxml/parser.h>
#include <fstream>
#include <memory>
#include <unistd.h>

using namespace iqxmlrpc;
using vp::Src;

static std::vector<std::string> opened;
static const char canary[] = "<c>kAnArY</c>kAnArY";

// every attempt of libxml2 to open a resource passes through here first
static int cb_match(const char* uri) { opened.push_back(uri ? uri : "(null)"); return 1; }
struct Feed { size_t pos; };
static void* cb_open(const char*) { return new Feed{0}; }
static int cb_read(void* c, char* b, int n)
{
  Feed* f = (Feed*)c;
  size_t k = std::min<size_t>((size_t)n, sizeof canary - 1 - f->pos);
  memcpy(b, canary + f->pos, k);
  f->pos += k;
  return (int)k;
}
static int cb_close(void* c) { delete (Feed*)c; return 0; }

static std::string canary_file;
static void init()
{
  canary_file = std::string(getenv("VP_TMP") ? getenv("VP_TMP") : "/tmp") + "/canary-" + std::to_string(getpid()) + ".xml";
  std::ofstream(canary_file.c_str()) << canary;
  xmlInitParser();
  xmlRegisterInputCallbacks(cb_match, cb_open, cb_read, cb_close);
}

static bool has_canary(const M& v)
{
  if (v.s.find("kAnArY") != std::string::npos) return true;
  for (auto& x : v.a) if (has_canary(x)) return true;
  for (auto& x : v.m) if (x.first.find("kAnArY") != std::string::npos || has_canary(x.second)) return true;
  return false;
}

static std::string uri(Src& s)
{
  switch (s.draw(10)) {
  case 0: return canary_file;
  case 1: return "file://" + canary_file;
  case 2: return "http://127.0.0.1:9/x.dtd";
  case 3: return "ftp://127.0.0.1:9/x";
  case 4: return "x.dtd";
  case 5: return "../../etc/passwd";
  case 6: return "file:///etc/passwd";
  case 7: return "/dev/zero";
  case 8: return "http://[::1]:9/";
  default: return "urn:foo:bar";
  }
}

static std::string ext(Src& s)
{
  std::string q = s.chance(1, 2) ? "\"" : "'";
  return s.chance(2, 3) ? "SYSTEM " + q + uri(s) + q : "PUBLIC \"-//X//Y\" " + q + uri(s) + q;
}

static void entities(Src& s)
{
  std::string dtd = "<!DOCTYPE " + std::string(s.chance(1, 4) ? "foo" : "methodCall");
  if (s.chance(1, 3)) { dtd += " " + ext(s); s.label("external-subset"); }
  std::vector<std::string> ents;
  bool subset = s.chance(9, 10);
  if (subset) {
    dtd += " [";
    size_t n = 1 + s.draw(6);
    for (size_t i = 0; i < n; ++i) {
      std::string nm = "e" + std::to_string(i);
      switch (s.draw(9)) {
      case 0: case 1: case 2: dtd += "<!ENTITY " + nm + " " + ext(s) + ">"; ents.push_back(nm); s.label("external-entity"); break;
      case 3: dtd += "<!ENTITY " + nm + " \"" + (ents.empty() ? std::string("internal") : "&" + ents[s.draw(ents.size())] + ";") + "\">"; ents.push_back(nm); break;
      case 4: dtd += "<!ENTITY % " + nm + " " + ext(s) + ">"; if (s.chance(3, 4)) dtd += " %" + nm + ";"; s.label("parameter-entity"); break;
      case 5: dtd += "<!ENTITY % " + nm + " \"<!ENTITY i" + nm + " SYSTEM '" + uri(s) + "'>\"> %" + nm + ";"; ents.push_back("i" + nm); s.label("parameter-entity"); break;
      case 6: dtd += "<!ENTITY " + nm + " " + ext(s) + " NDATA n" + nm + "><!NOTATION n" + nm + " " + ext(s) + ">"; ents.push_back(nm); break;
      case 7: dtd += "<!ATTLIST value a CDATA \"" + (ents.empty() ? std::string("v") : "&" + ents[s.draw(ents.size())] + ";") + "\" b ENTITY #IMPLIED>"; break;
      default: dtd += "<!ELEMENT value ANY><!ENTITY " + nm + " \"<value>&#60;string>x&#60;/string></value>\">"; ents.push_back(nm); break;
      }
    }
    dtd += "]";
  }
  dtd += ">";
  if (ents.empty()) ents.push_back("e0");
  auto r = [&]() -> std::string {
    std::string o;
    for (size_t i = 0; i < 3 && s.more(40); ++i) { if (s.chance(1, 3)) o += "t"; o += "&" + ents[s.draw(ents.size())] + ";"; }
    return o.empty() && s.chance(1, 2) ? "t" : o;
  };
  std::string pi;
  if (s.chance(1, 6)) pi = "<?xml-stylesheet href=\"" + uri(s) + "\"?>";
  std::string xi;
  if (s.chance(1, 6)) xi = "<xi:include xmlns:xi=\"http://www.w3.org/2001/XInclude\" href=\"" + uri(s) + "\" parse=\"" + (s.chance(1, 2) ? "text" : "xml") + "\"/>";
  std::string at;
  if (s.chance(1, 5)) at = " a=\"" + r() + "\"";
  if (s.chance(1, 8)) at += " xmlns:xsi=\"http://www.w3.org/2001/XMLSchema-instance\" xsi:schemaLocation=\"" + uri(s) + " " + uri(s) + "\" xml:base=\"" + uri(s) + "\"";
  bool call = s.chance(1, 2);
  std::string v;
  switch (s.draw(7)) {
  case 0: v = "<value" + at + "><string>" + r() + "</string></value>"; break;
  case 1: v = "<value" + at + ">" + r() + xi + "</value>"; break;
  case 2: v = "<value><array><data>" + r() + "<value>" + r() + "</value>" + xi + "</data></array></value>"; break;
  case 3: v = "<value><struct><member><name" + at + ">" + r() + "</name><value><string>" + r() + "</string></value></member></struct></value>"; break;
  case 4: v = "<value><base64>" + r() + "</base64></value>"; break;
  case 5: v = "<value><i4" + at + ">" + r() + "1</i4></value>"; break;
  default: v = r() + "<value>" + r() + "</value>"; break;
  }
  std::string decl = s.chance(1, 2) ? std::string("<?xml version=\"1.0\"") + (s.chance(1, 3) ? " standalone=\"no\"" : "") + "?>" : "";
  std::string x;
  unsigned where = (unsigned)s.draw(3);
  if (where == 0 && call) x = decl + pi + dtd + "<methodCall" + at + "><methodName>" + r() + "</methodName><params><param>" + v + "</param></params></methodCall>";
  else if (call) x = decl + dtd + pi + "<methodCall><methodName>m" + "</methodName><params><param>" + v + "</param></params></methodCall>";
  else if (where == 1) x = decl + dtd + "<methodResponse><fault><value><struct><member><name>faultCode</name><value><i4>1</i4></value></member><member><name>faultString</name><value><string>" + r() + "</string></value></member></struct></value></fault></methodResponse>";
  else x = decl + dtd + pi + "<methodResponse" + at + "><params><param>" + v + "</param></params></methodResponse>";
  s.note(vp::quote(x, 1500));
  opened.clear();
  bool ok = false, leaked = false;
  try {
    if (call) {
      std::unique_ptr<Request> q(parse_request(x));
      ok = true;
      leaked = q->get_name().find("kAnArY") != std::string::npos;
      for (auto& p : q->get_params()) leaked |= has_canary(from_value(p));
    } else {
      Response q(parse_response(x));
      ok = true;
      leaked = q.is_fault() ? q.fault_string().find("kAnArY") != std::string::npos : has_canary(from_value(q.value()));
    }
  } catch (const std::exception&) {}
  VP_CHECK(opened.empty(), "opened", "the parser opened " + vp::quote(opened[0]) + " for " + vp::quote(x, 1200));
  VP_CHECK(!leaked, "external-text", "text of an external entity was delivered for " + vp::quote(x, 1200));
  s.label(ok ? "parsed" : "refused");
  s.nontrivial(x);
}

int main(int argc, char** argv)
{
  vp::Config c;
  c.id = "C07";
  c.props = { { "entities", entities, 1 } };
  c.worker_init = init;
  return vp::main_impl(argc, argv, c);
}
