// C03: what the library emits, an independent strict reader decodes to the same thing
#include "refxml.h"
#include "libiqxmlrpc/request.h"
#include "libiqxmlrpc/response.h"
#include <memory>

using namespace iqxmlrpc;
using vp::Src;

static void trees(Src& s, size_t big)
{
  MOpts o;
  o.depth = big ? (unsigned)s.draw(3) : (unsigned)s.draw(7, [](vp::Rng& r) { return r.below(5); });
  o.width = big ? 4 : 6;
  o.big = big;
  unsigned kind = (unsigned)s.draw(3);
  bool omit = kind == 1 && s.chance(1, 2);
  if (kind == 0) {
    std::string name = gen::text(s);
    std::vector<M> ps;
    for (size_t i = 0; i < 5 && s.more(30); ++i) ps.push_back(gen_value(s, o));
    if (s.describing()) { std::string d = "call " + vp::quote(name); for (auto& p : ps) d += " " + show(p); s.note(d); }
    Param_list pl;
    for (auto& p : ps) { labels(s, p); pl.push_back(to_value(p)); }
    std::string xml = dump_request(Request(name, pl));
    ref::Call c;
    try { c = ref::call(xml); } catch (const ref::RefError& e) { vp::fail("not-xmlrpc", e.msg + " in " + vp::quote(xml, 1500)); }
    VP_CHECK(c.name == name, "name", "name decodes as " + vp::quote(c.name) + " xml " + vp::quote(xml, 600));
    VP_CHECK(c.params.size() == ps.size(), "count", "param count " + std::to_string(c.params.size()) + " xml " + vp::quote(xml, 600));
    for (size_t i = 0; i < ps.size(); ++i) VP_CHECK(c.params[i] == ps[i], "value", "param " + std::to_string(i) + " " + show(ps[i]) + " decodes as " + show(c.params[i]) + " xml " + vp::quote(xml, 800));
    if (!ps.empty()) s.nontrivial(xml);
  } else if (kind == 1) {
    M v = gen_value(s, o);
    if (s.describing()) s.note(std::string(omit ? "omit-string-tag " : "") + "result " + show(v));
    labels(s, v);
    Value::omit_string_tag_in_responses(omit);
    Response r(new Value(to_value(v)));
    std::string xml = dump_response(r);
    Value::omit_string_tag_in_responses(false);
    ref::Resp b;
    try { b = ref::response(xml); } catch (const ref::RefError& e) { vp::fail("not-xmlrpc", e.msg + " in " + vp::quote(xml, 1500)); }
    VP_CHECK(!b.fault && b.v == v, "value", show(v) + " decodes as " + (b.fault ? "fault" : show(b.v)) + " xml " + vp::quote(xml, 800));
    s.label(omit ? "result-omit" : "result");
    s.nontrivial(xml);
  } else {
    int code = gen::int32(s);
    gen::TextOpts to; to.max_rep_len = big;
    std::string str = gen::text(s, to);
    s.note("fault " + std::to_string(code) + " " + vp::quote(str));
    std::string xml = dump_response(Response(code, str));
    ref::Resp b;
    try { b = ref::response(xml); } catch (const ref::RefError& e) { vp::fail("not-xmlrpc", e.msg + " in " + vp::quote(xml, 1500)); }
    VP_CHECK(b.fault && b.code == code && b.str == str, "fault", "fault decodes as " + std::to_string(b.code) + " " + vp::quote(b.str) + " xml " + vp::quote(xml, 800));
    s.label("fault");
    s.nontrivial(xml);
  }
}
static void small(Src& s) { trees(s, 0); }
static void big(Src& s) { trees(s, 100000); }
static void large(Src& s, const M& v)
{
  if (s.describing()) s.note(show(v));
  std::string xml = dump_response(Response(new Value(to_value(v))));
  ref::Resp b;
  try { b = ref::response(xml); } catch (const ref::RefError& e) { vp::fail("not-xmlrpc", e.msg + " in " + vp::quote(xml, 1500)); }
  VP_CHECK(!b.fault && b.v == v, "value", "decodes differently, xml " + vp::quote(xml, 800));
  s.nontrivial(xml);
}

static void deep(Src& s) { large(s, gen_chain(s, 250)); }
static void wide(Src& s) { large(s, gen_wide(s, 1500)); }

int main(int argc, char** argv)
{
  vp::Config c;
  c.id = "C03";
  c.props = { { "small", small, 30 }, { "big", big, 3 }, { "deep", deep, 2 }, { "wide", wide, 1 } };
  return vp::main_impl(argc, argv, c);
}
