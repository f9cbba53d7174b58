// C38: a call that cannot be served is answered with the fault that says why
#include "net.h"
#include "damage.h"

using namespace iqxmlrpc;
using vp::Src;

static std::string bad_xml, bad_how;
static bool other_kind;
void damage::must_refuse(Src& s, const std::string& xml, bool as_call, const std::string& how)
{
  bad_xml = xml; bad_how = how; other_kind = !as_call;
}

static net::Log ran;
static void any(Method* m, const Param_list&, Value& r) { ran.add(m->name()); r = "R" + m->name(); }

class Disp: public Method_dispatcher_base {
  Method* do_create_method(const std::string& n) { return n.compare(0, 3, "un.") == 0 || n.compare(0, 6, "system") == 0 ? 0 : new net::Fn(any); }
  void do_get_methods_list(Array&) const {}
};

static void prop(Src& s)
{
  damage::only_calls() = true;
  ran.take();
  net::Options o;
  o.tls = s.chance(1, 10);
  o.pool = s.chance(1, 3) ? 1 + (unsigned)s.draw(3) : 0;
  net::Srv srv(o);
  srv.s->register_method("echo", new net::Fn_factory(any));
  srv.s->register_method("Un.echo", new net::Fn_factory(any));
  if (s.chance(3, 4)) srv.s->push_dispatcher(new Disp);
  bool strict = s.chance(1, 4), intro = s.chance(1, 3);
  if (strict) srv.s->set_verification_level(http::HTTP_CHECK_STRICT);
  if (intro) srv.s->enable_introspection();
  srv.start_and_wait();
  s.note(std::string(o.tls ? "https" : "http") + " pool " + std::to_string(o.pool));
  net::Conn c;
  c.tls = o.tls;
  uint64_t hash = 0; size_t refused = 0;
  for (size_t i = 0; i < 12 && (i < 1 || s.more(15)); ++i) {
    std::string xml, how;
    enum { GOOD, MALFORMED, NO_CALL, EITHER, UNKNOWN, SOME } want;
    std::string name;
    switch (s.weighted({ 3, 3, 5, 3, 4, 3, 1 })) {
    case 0: name = "echo"; xml = net::call_xml(name, "a"); want = GOOD; how = "good"; break;
    case 1: damage::cut(s); xml = bad_xml; how = bad_how; want = MALFORMED; break;
    case 2: damage::structure(s); xml = bad_xml; how = bad_how; want = NO_CALL; if (!other_kind) break;   // else fall through
    case 6: { MOpts mo; mo.depth = 2; mo.width = 3; Spell sp(s, s.chance(1, 2)); xml = sp.response(gen_value(s, mo)); how = "response sent as call"; want = NO_CALL; break; }
    case 3: damage::scalars(s); xml = bad_xml; how = bad_how; want = SOME; break;
    case 4: {
      damage::malformed(s); xml = bad_xml; how = bad_how;
      // a surplus or missing end tag may be seen first as an element in the wrong place
      want = how == "unclosed-tag" || how == "extra-end-tag" ? EITHER : MALFORMED; break; }
    default: {
      static const char* n[] = { "un.", "un.echo", "system.none", "system", "system.listmethods", "system.listMethods" };
      name = n[s.draw(intro ? 5 : 6)];
      if (name == "un.") { name += hg::token(s, 10); for (auto& ch : name) if (ch == '&') ch = '_'; }
      Spell sp(s, s.chance(1, 2)); MOpts mo; mo.depth = 2; mo.width = 3;
      std::vector<M> ps; for (size_t k = 0; k < 3 && s.more(40); ++k) ps.push_back(gen_value(s, mo));
      xml = sp.call(name, ps); how = "unknown-method " + name; want = UNKNOWN; }
    }
    bool keep = s.draw(5) != 4;
    s.note(how + (keep ? "" : " (close)") + ": " + vp::quote(xml, 1200));
    if (c.fd < 0) VP_CHECK(c.connect(srv.host, srv.port), "not-listening", "cannot connect");
    c.send(net::request(s, xml, keep));
    net::Resp a;
    net::Conn::RR rr = c.read(a);
    srv.check_alive();
    std::string what = how + ": " + vp::quote(xml, 800) + " was answered with ";
    VP_CHECK(rr == net::Conn::OK, "no-answer", what + net::Conn::name(rr));
    VP_CHECK(a.code == 200 && a.keep() == keep, "http-status", what + vp::quote(a.head, 300));
    net::Answer w = net::answer(a.body);
    std::vector<std::string> r = ran.take();
    what += w.fault ? "fault " + std::to_string(w.code) + " " + vp::quote(w.text, 200) : "result " + vp::quote(w.text, 100);
    if (want == GOOD) {
      VP_CHECK(!w.fault && w.text == "Recho" && r.size() == 1, "good-call", what);
    } else {
      VP_CHECK(w.fault, "no-fault", what);
      VP_CHECK(r.empty(), "executed", what + ", executed " + net::join(r));
      const int P = -32700, V = -32600;
      switch (want) {
      case MALFORMED: VP_CHECK(w.code == P, "code", what + ", expected -32700"); break;
      case NO_CALL: VP_CHECK(w.code == V, "code", what + ", expected -32600"); break;
      case EITHER: VP_CHECK(w.code == P || w.code == V, "code", what + ", expected -32700 or -32600"); break;
      case UNKNOWN: VP_CHECK(w.code == -32601, "code", what + ", expected -32601");
        VP_CHECK(w.text.find(name) != std::string::npos, "text", what + ", which does not name the method"); break;
      default: break;
      }
      s.label(how.substr(0, how.find(' ')));
      ++refused;
    }
    hash = vp::mix(hash, vp::hash64(xml, keep));
    if (!keep) { VP_CHECK(c.wait_end() == 0, "close", what + ": the connection did not end cleanly"); c.close(); }
  }
  s.label(o.pool ? "pool" : "serial"); s.label(o.tls ? "https" : "http");
  if (refused) s.nontrivial(hash);
  c.close();
  srv.stop();
}

int main(int argc, char** argv)
{
  vp::Config c;
  c.id = "C38";
  c.props = { { "calls", prop, 1 } };
  c.hard_fail = true;
  c.worker_init = net::small_stacks;
  c.nondeterministic = true;
  return vp::main_impl(argc, argv, c);
}
