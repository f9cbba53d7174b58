// C01: parse_request(dump_request(r)) == r
#include "model.h"
#include "libiqxmlrpc/request.h"
#include <memory>

using namespace iqxmlrpc;
using vp::Src;

static void roundtrip(Src& s, const std::string& name, const std::vector<M>& ps)
{
  if (s.describing()) { std::string d = "method " + vp::quote(name) + " params"; for (auto& p : ps) d += " " + show(p); s.note(d); }
  Param_list pl;
  for (auto& p : ps) { pl.push_back(to_value(p)); labels(s, p); }
  Request req(name, pl);
  std::string xml = dump_request(req);
  std::unique_ptr<Request> back;
  try { back.reset(parse_request(xml)); }
  catch (const std::exception& e) { vp::fail("own-output-rejected", std::string(e.what()) + " for " + vp::quote(xml, 1500)); }
  VP_CHECK(back->get_name() == name, "name", "method name " + vp::quote(name) + " became " + vp::quote(back->get_name()) + " xml " + vp::quote(xml, 800));
  VP_CHECK(back->get_params().size() == ps.size(), "count", "expected " + std::to_string(ps.size()) + " params, got " + std::to_string(back->get_params().size()) + " xml " + vp::quote(xml, 1500));
  for (size_t i = 0; i < ps.size(); ++i) {
    std::string r = diff(ps[i], back->get_params()[i], "param" + std::to_string(i));
    VP_CHECK(r.empty(), "value", r + " xml " + vp::quote(xml, 1500));
  }
  // dumping again is stable
  VP_CHECK(dump_request(*back) == xml, "redump", "second serialisation differs");
  if (!ps.empty()) s.nontrivial(xml);
}

static void trees(Src& s)
{
  gen::TextOpts no; no.empty_ok = true;
  std::string name = gen::text(s, no);
  MOpts o;
  o.depth = (unsigned)s.draw(7, [](vp::Rng& r) { return r.below(5); });
  o.width = 6;
  std::vector<M> ps;
  for (size_t i = 0; i < 5 && s.more(30); ++i) ps.push_back(gen_value(s, o));
  roundtrip(s, name, ps);
}

static void big(Src& s)
{
  if (s.chance(1, 800)) {                         // more than libxml2 takes without being told to
    s.label("over 10 MB");
    roundtrip(s, "m", std::vector<M>(1, M::str(std::string(10000000 + s.draw(2000000), 'h'))));
    return;
  }
  MOpts o;
  o.depth = (unsigned)s.draw(3);
  o.width = 4;
  o.big = 200000;
  std::vector<M> ps;
  size_t n = 1 + s.draw(3);
  for (size_t i = 0; i < n; ++i) ps.push_back(gen_value(s, o));
  roundtrip(s, "m", ps);
}

static void deep(Src& s)
{
  std::vector<M> ps;
  size_t n = 1 + s.draw(2);
  for (size_t i = 0; i < n; ++i) ps.push_back(gen_chain(s, 250));
  roundtrip(s, "deep", ps);
}

static void wide(Src& s)
{
  // many elements / members / params
  size_t n = s.draw(3000, [](vp::Rng& r) -> uint64_t { return gen::interesting_size(r, 1500); });
  unsigned kind = (unsigned)s.draw(3);
  MOpts o; o.depth = 1; o.width = 2;
  M base = gen_value(s, o);
  std::vector<M> ps;
  if (kind == 0) { M a; a.t = M::ARR; for (size_t i = 0; i < n; ++i) a.a.push_back(i % 3 ? base : M::num((int)i)); ps.push_back(a); }
  else if (kind == 1) { M a; a.t = M::STRUCT; for (size_t i = 0; i < n; ++i) a.m["k" + std::to_string(i)] = i % 3 ? base : M::num((int)i); ps.push_back(a); }
  else for (size_t i = 0; i < n; ++i) ps.push_back(i % 3 ? base : M::num((int)i));
  roundtrip(s, "wide", ps);
}

int main(int argc, char** argv)
{
  vp::Config c;
  c.id = "C01";
  c.rule = "";
  c.props = { { "trees", trees, 30 }, { "big", big, 3 }, { "deep", deep, 3 }, { "wide", wide, 1 } };
  c.leak_check = true;
  c.leak_every = 400;
  return vp::main_impl(argc, argv, c);
}
