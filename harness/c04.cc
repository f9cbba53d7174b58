// C04: every spelling of a message parses to the value it denotes
#include "spell.h"
#include "libiqxmlrpc/request.h"
#include "libiqxmlrpc/response.h"
#include <memory>

using namespace iqxmlrpc;
using vp::Src;

// the same document in another encoding, now and then
static std::string recode(Src& s, std::string xml)
{
  unsigned k = s.chance(1, 5) ? 1 + (unsigned)s.draw(5) : 0;
  if (!k) return xml;
  if (xml.compare(0, 3, "\xEF\xBB\xBF") == 0) xml.erase(0, 3);
  if (xml.compare(0, 6, "<?xml ") == 0) xml.erase(0, xml.find("?>") + 2);
  else if (!xml.empty() && xml[0] != '<') xml.erase(0, xml.find('<'));      // blanks before the declaration are not allowed
  static const char* names[] = { "", "UTF-16", "UTF-16", "UTF-16LE", "UTF-16BE", "ISO-8859-1" };
  bool bom = k < 3, decl = !bom || s.chance(1, 2);
  if (decl) xml = std::string("<?xml version=\"1.0\" encoding=") + (s.chance(1, 2) ? "\"" : "'") + names[k] + "?>" + xml, xml.insert(xml.find("?>"), 1, xml[29]);
  std::vector<uint32_t> cps;
  gen::get_utf8(xml, cps);
  std::string o;
  if (k == 5) {
    for (uint32_t c : cps) { if (c > 255) { s.label("encoding:none"); return xml.substr(xml.find("?>") + 2); } o += (char)c; }
  } else {
    bool le = k == 1 || k == 3;
    auto put = [&](uint32_t u) { if (le) { o += (char)(u & 255); o += (char)(u >> 8); } else { o += (char)(u >> 8); o += (char)(u & 255); } };
    if (bom) put(0xFEFF);
    for (uint32_t c : cps) if (c < 0x10000) put(c); else { put(0xD800 + ((c - 0x10000) >> 10)); put(0xDC00 + ((c - 0x10000) & 0x3FF)); }
  }
  s.label(std::string("encoding:") + names[k]);
  return o;
}

static void check_call(Src& s, const std::string& name, const std::vector<M>& ps)
{
  Spell sp(s);
  std::string xml = recode(s, sp.call(name, ps));
  s.note("call " + vp::quote(xml, 1500));
  std::unique_ptr<Request> r;
  try { r.reset(parse_request(xml)); }
  catch (const std::exception& e) { vp::fail("rejected", std::string(e.what()) + ": " + vp::quote(xml, 1500)); }
  VP_CHECK(r->get_name() == name, "name", "name " + vp::quote(name) + " read as " + vp::quote(r->get_name()) + " from " + vp::quote(xml, 1000));
  VP_CHECK(r->get_params().size() == ps.size(), "count", std::to_string(ps.size()) + " params read as " + std::to_string(r->get_params().size()) + " from " + vp::quote(xml, 1500));
  for (size_t i = 0; i < ps.size(); ++i) {
    std::string d = diff(ps[i], r->get_params()[i], "param" + std::to_string(i));
    VP_CHECK(d.empty(), "value", d + " from " + vp::quote(xml, 1500));
    labels(s, ps[i]);
  }
  if (!ps.empty()) s.nontrivial(xml);
}

static void calls(Src& s)
{
  MOpts o;
  o.depth = (unsigned)s.draw(5, [](vp::Rng& r) { return r.below(4); });
  o.width = 4;
  gen::TextOpts no; no.max_cp = 12; no.blank_ok = false; no.empty_ok = false;
  std::string name = gen::text(s, no);
  std::vector<M> ps;
  for (size_t i = 0; i < 4 && s.more(30); ++i) ps.push_back(gen_value(s, o));
  check_call(s, name, ps);
}

static void responses(Src& s)
{
  MOpts o;
  o.depth = (unsigned)s.draw(5, [](vp::Rng& r) { return r.below(4); });
  o.width = 5;
  M v = gen_value(s, o);
  Spell sp(s);
  std::string xml = recode(s, sp.response(v));
  s.note("response " + vp::quote(xml, 1500));
  std::unique_ptr<Response> r;
  try { r.reset(new Response(parse_response(xml))); }
  catch (const std::exception& e) { vp::fail("rejected", std::string(e.what()) + ": " + vp::quote(xml, 1500)); }
  VP_CHECK(!r->is_fault(), "fault", "read as a fault: " + vp::quote(xml, 1500));
  std::string d = diff(v, r->value(), "result");
  VP_CHECK(d.empty(), "value", d + " from " + vp::quote(xml, 1500));
  labels(s, v);
  s.nontrivial(xml);
}

static void faults(Src& s)
{
  int code = gen::int32(s);
  std::string str = gen::text(s);
  Spell sp(s);
  std::string xml = recode(s, sp.fault(code, str));
  s.note("fault " + vp::quote(xml, 1500));
  std::unique_ptr<Response> r;
  try { r.reset(new Response(parse_response(xml))); }
  catch (const std::exception& e) { vp::fail("rejected", std::string(e.what()) + ": " + vp::quote(xml, 1500)); }
  VP_CHECK(r->is_fault() && r->fault_code() == code && r->fault_string() == str, "fault",
    "read as " + std::to_string(r->fault_code()) + " " + vp::quote(r->fault_string()) + " from " + vp::quote(xml, 1500));
  s.label("fault");
  s.nontrivial(xml);
}

static void big(Src& s)
{
  MOpts o; o.depth = (unsigned)s.draw(3); o.width = 3; o.big = 60000;
  std::vector<M> ps(1, gen_value(s, o));
  check_call(s, "m", ps);
}

static void deep(Src& s) { check_call(s, "m", std::vector<M>(1, gen_chain(s, 250))); }
static void wide(Src& s) { check_call(s, "m", std::vector<M>(1, gen_wide(s, 800))); }

// Empty integers in a list of parameters/array/struct with defaults set or not.
static void defaults(Src& s)
{
  bool d4 = s.chance(2, 3), d8 = s.chance(2, 3);
  int v4 = gen::int32(s); int64_t v8 = gen::int64(s);
  struct Reset { ~Reset() { Value::drop_default_int(); Value::drop_default_int64(); } } reset;
  if (d4) Value::set_default_int(v4); else Value::drop_default_int();
  if (d8) Value::set_default_int64(v8); else Value::drop_default_int64();
  Spell sp(s);
  std::string xml = sp.prolog() + sp.root_open("methodResponse") + sp.open("params") + sp.open("param") + sp.open("value") + sp.open("array") + sp.open("data");
  M want; want.t = M::ARR;
  MOpts o; o.depth = 1; o.width = 2;
  bool refuse = false;
  size_t n = 1 + s.draw(5);
  for (size_t i = 0; i < n; ++i) {
    unsigned k = (unsigned)s.draw(5);
    std::string tag = k == 0 ? "i4" : k == 1 ? "int" : "i8";
    M m;
    if (k < 3) {
      bool d = k == 2 ? d8 : d4;
      m.t = k == 2 ? M::I8 : M::I4;
      m.i = k == 2 ? v8 : v4;
      if (!d) { if (refuse || i + 1 != n) continue; refuse = true; }
      xml += sp.open("value") + sp.ws() + sp.empty(tag) + sp.ws() + sp.close("value") + sp.ws();
    } else {
      m = gen_value(s, o);
      xml += sp.value(m) + sp.ws();
    }
    want.a.push_back(m);
  }
  xml += sp.close("data") + sp.close("array") + sp.close("value") + sp.close("param") + sp.close("params") + sp.close("methodResponse");
  s.note((d4 ? "default i4 " + std::to_string(v4) : std::string("no default i4")) + (d8 ? " default i8 " + std::to_string(v8) : std::string(" no default i8")) + " " + vp::quote(xml, 1200));
  std::unique_ptr<Response> r;
  try { r.reset(new Response(parse_response(xml))); }
  catch (const std::exception& e) {
    if (refuse) { s.nontrivial(xml); s.label("no-default-refused"); return; }
    vp::fail("rejected", std::string(e.what()) + ": " + vp::quote(xml, 1500));
  }
  VP_CHECK(!refuse, "accepted", "an empty integer was accepted without a default: " + vp::quote(xml, 1500));
  std::string d = diff(want, r->value(), "result");
  VP_CHECK(d.empty(), "default", d + " from " + vp::quote(xml, 1500));
  s.label("defaults");
  s.nontrivial(xml);
}

int main(int argc, char** argv)
{
  vp::Config c;
  c.id = "C04";
  c.props = { { "calls", calls, 20 }, { "responses", responses, 10 }, { "faults", faults, 4 }, { "big", big, 1 }, { "deep", deep, 1 }, { "wide", wide, 1 }, { "defaults", defaults, 4 } };
  c.leak_check = true;
  c.leak_every = 300;
  return vp::main_impl(argc, argv, c);
}
