// C02: parse_response(dump_response(r)) == r, values and faults
#include "model.h"
#include "libiqxmlrpc/response.h"
#include <memory>

using namespace iqxmlrpc;
using vp::Src;

struct OmitTag {
  explicit OmitTag(bool on) { Value::omit_string_tag_in_responses(on); }
  ~OmitTag() { Value::omit_string_tag_in_responses(false); }
};

static void check_value(Src& s, const M& v, bool omit)
{
  if (s.describing()) s.note(std::string(omit ? "omit-string-tag " : "") + "result " + show(v));
  labels(s, v);
  if (omit) s.label("omit-string-tag");
  OmitTag ot(omit);
  Response r(new Value(to_value(v)));
  std::string xml = dump_response(r);
  std::unique_ptr<Response> back;
  try { back.reset(new Response(parse_response(xml))); }
  catch (const std::exception& e) { vp::fail("own-output-rejected", std::string(e.what()) + " for " + vp::quote(xml, 1500)); }
  VP_CHECK(!back->is_fault(), "fault", "a result became a fault, xml " + vp::quote(xml, 800));
  std::string d = diff(v, back->value(), "result");
  VP_CHECK(d.empty(), "value", d + " xml " + vp::quote(xml, 1500));
  VP_CHECK(dump_response(*back) == xml, "redump", "second serialisation differs for " + vp::quote(xml, 500));
  s.nontrivial(xml);
}

static void trees(Src& s)
{
  bool omit = s.chance(1, 3);
  MOpts o;
  o.blank_ok = !omit;
  o.depth = (unsigned)s.draw(7, [](vp::Rng& r) { return r.below(5); });
  o.width = 6;
  check_value(s, gen_value(s, o), omit);
}

static void big(Src& s)
{
  bool omit = s.chance(1, 3);
  MOpts o; o.depth = (unsigned)s.draw(3); o.width = 4; o.big = 200000; o.blank_ok = !omit;
  check_value(s, gen_value(s, o), omit);
}

static void deep(Src& s)
{
  M v = gen_chain(s, 250);
  check_value(s, v, false);
}

static void wide(Src& s) { bool omit = s.chance(1, 3); check_value(s, gen_wide(s, 1500, !omit), omit); }

static void faults(Src& s)
{
  bool omit = s.chance(1, 3);
  int code = gen::int32(s);
  gen::TextOpts to; to.max_rep_len = 5000; to.blank_ok = !omit;
  std::string str = gen::text(s, to);
  s.note("fault " + std::to_string(code) + " " + vp::quote(str) + (omit ? " omit-string-tag" : ""));
  s.label("fault");
  OmitTag ot(omit);
  Response r(code, str);
  std::string xml = dump_response(r);
  std::unique_ptr<Response> back;
  try { back.reset(new Response(parse_response(xml))); }
  catch (const std::exception& e) { vp::fail("own-output-rejected", std::string(e.what()) + " for " + vp::quote(xml, 1500)); }
  VP_CHECK(back->is_fault(), "not-fault", "a fault became a result, xml " + vp::quote(xml, 800));
  VP_CHECK(back->fault_code() == code, "code", "code became " + std::to_string(back->fault_code()));
  VP_CHECK(back->fault_string() == str, "text", "text became " + vp::quote(back->fault_string()));
  bool threw = false;
  try { back->value(); }
  catch (const iqxmlrpc::Exception& e) {
    threw = true;
    VP_CHECK(e.code() == code, "exc-code", "exception code " + std::to_string(e.code()));
    VP_CHECK(std::string(e.what()) == str, "exc-text", "exception text " + vp::quote(e.what()));
  }
  VP_CHECK(threw, "no-exc", "value() of a fault returned");
  VP_CHECK(dump_response(*back) == xml, "redump", "second serialisation differs");
  s.nontrivial(xml);
}

int main(int argc, char** argv)
{
  vp::Config c;
  c.id = "C02";
  c.props = { { "trees", trees, 20 }, { "big", big, 2 }, { "deep", deep, 2 }, { "wide", wide, 1 }, { "faults", faults, 10 } };
  c.leak_check = true;
  c.leak_every = 400;
  return vp::main_impl(argc, argv, c);
}
