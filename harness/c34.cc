// C34: the codec works the same from several threads at once
#include "spell.h"
#include "libiqxmlrpc/request.h"
#include "libiqxmlrpc/response.h"
#include "libiqxmlrpc/http.h"
#include <atomic>
#include <memory>
#include <sstream>
#include <thread>

using namespace iqxmlrpc;
using vp::Src;

// What one thread does, all decided beforehand
struct Job {
  int kind;
  M v; std::string name, xml, want;
  bool refused;
};
static const char* kname[] = { "request", "response", "fault", "parse", "refuse", "base64", "date", "print", "packet", "shared" };

static std::string damaged(Src& s, const std::string& xml)
{
  std::string x = xml;
  switch (s.draw(3)) {
  case 0: x.resize(x.size() - 3); break;
  case 1: { size_t a = x.find("</"); x.erase(a, 2); break; }
  default: x = "<methodCall><methodName>x</methodName><params><param><value><int>z</int></value></param></params></methodCall>";
  }
  return x;
}

static std::string printed(const Value& v) { std::ostringstream o; print_value(v, o); return o.str(); }

// "" or what went wrong
static std::string run(const Job& j, const Value& shared, const M& sharedm)
{
  try {
    switch (j.kind) {
    case 0: {
      Param_list pl; pl.push_back(to_value(j.v)); pl.push_back(Value(j.name));
      std::string x = dump_request(Request(j.name, pl));
      if (x != j.want) return "serialised differently: " + vp::quote(x, 300) + " / " + vp::quote(j.want, 300);
      std::unique_ptr<Request> r(parse_request(x));
      if (r->get_name() != j.name || r->get_params().size() != 2) return "wrong request read back";
      return diff(j.v, r->get_params()[0]); }
    case 1: {
      std::string x = dump_response(Response(new Value(to_value(j.v))));
      if (x != j.want) return "serialised differently: " + vp::quote(x, 300) + " / " + vp::quote(j.want, 300);
      Response r = parse_response(x);
      if (r.is_fault()) return "read back as a fault";
      return diff(j.v, r.value()); }
    case 2: {
      Response r = parse_response(dump_response(Response((int)j.v.i, j.name)));
      if (!r.is_fault() || r.fault_code() != (int)j.v.i || r.fault_string() != j.name) return "wrong fault read back";
      return ""; }
    case 3: {
      std::unique_ptr<Request> r(parse_request(j.xml));
      if (r->get_name() != j.name || r->get_params().size() != 1) return "wrong request read";
      return diff(j.v, r->get_params()[0]); }
    case 4: {
      try { std::unique_ptr<Request> r(parse_request(j.xml)); } catch (const std::exception&) { return ""; }
      return "a damaged request was accepted"; }
    case 5: {
      std::unique_ptr<Binary_data> b(Binary_data::from_data(j.name));
      std::unique_ptr<Binary_data> c(Binary_data::from_base64(b->get_base64()));
      return c->get_data() == j.name ? "" : "base64 gives other bytes"; }
    case 6: {
      Date_time d(j.v.s);
      Date_time e(&d.get_tm());
      if (e.to_string() != j.v.s) return "date " + j.v.s + " became " + e.to_string();
      Date_time now(true), utc(false);
      return now.to_string().size() == 17 && utc.to_string().size() == 17 ? "" : "malformed current date"; }
    case 7: return printed(to_value(j.v)) == j.want ? "" : "printed differently";
    case 8: {
      http::Packet p(new http::Response_header(), j.name);
      std::string x = p.dump();
      http::Packet_reader rd;
      std::unique_ptr<http::Packet> q;
      size_t h = x.size() / 2;
      q.reset(rd.read_response(x.substr(0, h), false));
      if (!q) q.reset(rd.read_response(x.substr(h), false));
      if (!q) return "own packet is incomplete";
      return q->content() == j.name ? "" : "own packet has other content"; }
    default: {                                    // a value several threads look at and copy
      Value copy(shared);
      std::string d = diff(sharedm, copy);
      if (!d.empty()) return d;
      d = diff(sharedm, shared);
      if (!d.empty()) return d;
      return dump_response(Response(new Value(shared))) == j.want ? "" : "the shared value is serialised differently"; }
    }
  }
  catch (const std::exception& e) { return std::string("exception ") + e.what(); }
}

static void prop(Src& s)
{
  size_t nt = 2 + s.draw(5);
  MOpts o; o.depth = 3; o.width = 4;
  M sharedm = gen_value(s, o);
  Value shared = to_value(sharedm);
  std::string shared_xml = dump_response(Response(new Value(shared)));
  bool defaults = s.chance(1, 4);
  struct Reset { ~Reset() { Value::drop_default_int(); Value::omit_string_tag_in_responses(false); } } reset;
  if (defaults) Value::set_default_int(7);
  std::vector<std::vector<Job>> jobs(nt);
  uint64_t hash = nt;
  for (auto& js : jobs) {
    size_t n = 1 + s.draw(12);
    for (size_t i = 0; i < n; ++i) {
      Job j;
      j.kind = (int)s.draw(10);
      j.v = j.kind == 2 ? M::num(gen::int32(s)) : gen_value(s, o);
      if (j.kind == 6) { j.v = M(); j.v.t = M::DATE; j.v.s = gen::show(gen::date(s)); }
      gen::TextOpts no; no.max_cp = 12; no.blank_ok = false; no.empty_ok = false;
      j.name = gen::text(s, no);
      switch (j.kind) {
      case 0: { Param_list pl; pl.push_back(to_value(j.v)); pl.push_back(Value(j.name)); j.want = dump_request(Request(j.name, pl)); break; }
      case 1: j.want = dump_response(Response(new Value(to_value(j.v)))); break;
      case 3: { Spell sp(s); j.xml = sp.call(j.name, std::vector<M>(1, j.v)); break; }
      case 4: j.xml = damaged(s, dump_request(Request("n", Param_list(1, to_value(j.v))))); break;
      case 7: j.want = printed(to_value(j.v)); break;
      case 9: j.want = shared_xml; break;
      }
      s.label(kname[j.kind]);
      hash = vp::mix(hash, vp::hash64(show(j.v), j.kind));
      js.push_back(j);
    }
  }
  if (s.describing()) for (size_t t = 0; t < nt; ++t) { std::string d = "thread " + std::to_string(t) + ":"; for (auto& j : jobs[t]) d += std::string(" ") + kname[j.kind]; s.note(d); }
  std::vector<std::string> bad(nt);
  std::atomic<int> ready(0);
  std::vector<std::thread> ts;
  for (size_t t = 0; t < nt; ++t) ts.emplace_back([&, t] {
    ++ready;
    while (ready < (int)nt) {}
    for (int rep = 0; rep < 3; ++rep)
      for (auto& j : jobs[t]) {
        std::string b = run(j, shared, sharedm);
        if (!b.empty()) { bad[t] = std::string(kname[j.kind]) + ": " + b; return; }
      }
  });
  for (auto& t : ts) t.join();
  for (size_t t = 0; t < nt; ++t) VP_CHECK(bad[t].empty(), "differs", "with " + std::to_string(nt) + " threads, thread " + std::to_string(t) + ": " + bad[t]);
  s.nontrivial(hash);
}

int main(int argc, char** argv)
{
  vp::Config c;
  c.id = "C34";
  c.props = { { "threads", prop, 1 } };
  c.nondeterministic = true;
  return vp::main_impl(argc, argv, c);
}
