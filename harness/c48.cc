// C48: threads that each use clients of their own do not influence each other
#include "net.h"
#include "model.h"

using namespace iqxmlrpc;
using vp::Src;

struct Call { unsigned kind; M v; std::string name, user; bool xh; };
struct Step { unsigned server; bool fresh, keep; Call c; };
static const char* kname[] = { "echo", "fault", "unknown", "nobody", "who", "relay", "big" };

class Plugin: public Auth_Plugin_base {
  bool do_authenticate(const std::string& u, const std::string& p) const { return p == "pw-" + u; }
  bool do_authenticate_anonymous() const { return true; }
};

static std::unique_ptr<Client_base> make(net::Srv& s)
{
  std::unique_ptr<Client_base> c;
  if (s.o.tls) c.reset(new Client<Https_client_connection>(s.addr())); else c.reset(new Client<Http_client_connection>(s.addr()));
  c->set_timeout(60);
  return c;
}

static void methods(net::Srv& s, net::Srv* behind)
{
  s.s->register_method("echo", new net::Fn_factory([](Method*, const Param_list& p, Value& r) { r = p.at(0); }));
  s.s->register_method("fault", new net::Fn_factory([](Method*, const Param_list& p, Value&) { throw Fault(p.at(0).get_int(), "F" + p.at(1).get_string()); }));
  s.s->register_method("who", new net::Fn_factory([](Method* m, const Param_list&, Value& r) {
    auto i = m->xheaders().find("X-me");
    r = (m->authenticated() ? m->authname() : std::string("-")) + "/" + (i == m->xheaders().end() ? "-" : i->second);
  }));
  if (behind) s.s->register_method("relay", new net::Fn_factory([behind](Method*, const Param_list& p, Value& r) { r = make(*behind)->execute("echo", p).value(); }));
}

// "" or what is wrong
static std::string run(Client_base& c, net::Srv& srv, const Step& st, size_t thread)
{
  const Call& k = st.c;
  try {
    switch (k.kind) {
    case 0: case 5: case 6: {
      Param_list p(1, to_value(k.v));
      Response r = c.execute(k.kind == 5 ? "relay" : "echo", p);
      if (r.is_fault()) return "fault " + r.fault_string();
      return diff(k.v, r.value(), "result"); }
    case 1: {
      Param_list p; p.push_back(Value((int)k.v.i)); p.push_back(Value(k.name));
      Response r = c.execute("fault", p);
      if (!r.is_fault()) return "no fault";
      if (r.fault_code() != (int)k.v.i || r.fault_string() != "F" + k.name) return "another fault: " + std::to_string(r.fault_code()) + " " + vp::quote(r.fault_string());
      return ""; }
    case 2: {
      Response r = c.execute("not-there-" + k.name, Value(1));
      return r.is_fault() && r.fault_code() == -32601 ? "" : "no fault for an unknown method";  }
    case 3: {
      Client<Http_client_connection> n(iqnet::Inet_addr(net::ip(), 1));
      n.set_timeout(20);
      try { n.execute("m", Value(1)); } catch (const iqnet::network_error&) { return ""; }
      return "a call to nobody succeeded"; }
    default: {
      XHeaders h;
      std::string want = k.user.empty() ? "-" : k.user, me = "t" + std::to_string(thread) + k.name;
      if (k.xh) h["X-me"] = me;
      want += "/" + (k.xh ? me : "-");
      if (!k.user.empty()) c.set_authinfo(k.user, "pw-" + k.user);
      else { std::unique_ptr<Client_base> f = make(srv); std::string got = f->execute("who", Param_list(1, Value(1)), h).value().get_string(); return got == want ? "" : "the method saw " + vp::quote(got) + " instead of " + vp::quote(want); }
      std::string got = c.execute("who", Param_list(1, Value(1)), h).value().get_string();
      return got == want ? "" : "the method saw " + vp::quote(got) + " instead of " + vp::quote(want); }
    }
  }
  catch (const std::exception& e) { return std::string("exception ") + e.what(); }
}

static void prop(Src& s)
{
  size_t nt = 2 + s.draw(5), ns = 1 + s.draw(3);
  Plugin pl;
  // the first server serves relayed calls; it never calls others
  std::vector<std::unique_ptr<net::Srv>> srv;
  std::string what;
  for (size_t i = 0; i < ns; ++i) {
    net::Options o;
    o.tls = s.chance(1, 3);
    o.pool = s.chance(2, 3) ? 1 + (unsigned)s.draw(4) : 0;
    srv.emplace_back(new net::Srv(o));
    srv.back()->s->set_auth_plugin(pl);
    methods(*srv.back(), i ? srv[0].get() : 0);
    what += std::string(o.tls ? " https" : " http") + "/" + std::to_string(o.pool);
  }
  bool tls = false;
  for (auto& x : srv) tls |= x->o.tls;
  net::tls_setup(tls);
  MOpts mo; mo.depth = 2; mo.width = 4;
  std::vector<std::vector<Step>> plan(nt);
  uint64_t hash = vp::hash64(what, nt);
  for (auto& p : plan) {
    size_t n = 1 + s.draw(8);
    for (size_t i = 0; i < n; ++i) {
      Step st;
      st.server = (unsigned)s.draw(ns);
      st.fresh = s.chance(1, 3); st.keep = s.chance(2, 3);
      st.c.kind = (unsigned)s.weighted({ 6, 2, 1, 1, 3, 2, 1 });
      if (st.c.kind == 5 && !st.server) st.c.kind = 0;
      st.c.v = st.c.kind == 1 ? M::num(gen::int32(s)) : st.c.kind == 6 ? M::str(std::string(1000 + s.draw(300000), (char)('a' + s.draw(26)))) : gen_value(s, mo);
      st.c.name = hg::token(s, 8);
      st.c.name.erase(std::remove_if(st.c.name.begin(), st.c.name.end(), [](char c) { return !isalnum((unsigned char)c); }), st.c.name.end());
      st.c.user = s.chance(1, 2) ? "u" + st.c.name : "";
      st.c.xh = s.chance(1, 2);
      hash = vp::mix(hash, vp::hash64(show(st.c.v), st.c.kind * 8 + st.server));
      s.label(std::string("call:") + kname[st.c.kind]);
      p.push_back(st);
    }
  }
  if (s.describing()) for (size_t t = 0; t < nt; ++t) {
    std::string d = "thread " + std::to_string(t) + ":";
    for (auto& st : plan[t]) d += std::string(" ") + kname[st.c.kind] + "@" + std::to_string(st.server) + (st.fresh ? " new" : "") + (st.keep ? " keep" : "");
    s.note(d);
  }
  s.note("servers" + what);
  for (auto& x : srv) x->start_and_wait();
  std::vector<std::string> bad(nt);
  std::atomic<size_t> ready(0);
  std::vector<std::thread> ts;
  for (size_t t = 0; t < nt; ++t) ts.emplace_back([&, t] {
    std::vector<std::unique_ptr<Client_base>> cs(ns);
    ++ready;
    while (ready < nt) usleep(50);
    for (auto& st : plan[t]) {
      auto& c = cs[st.server];
      if (!c || st.fresh) c = make(*srv[st.server]);
      c->set_keep_alive(st.keep);
      std::string b = run(*c, *srv[st.server], st, t);
      if (!b.empty()) { bad[t] = std::string(kname[st.c.kind]) + " at server " + std::to_string(st.server) + ": " + b; return; }
    }
  });
  for (auto& t : ts) t.join();
  for (auto& x : srv) x->check_alive();
  for (size_t t = 0; t < nt; ++t) VP_CHECK(bad[t].empty(), "differs", "with " + std::to_string(nt) + " threads, thread " + std::to_string(t) + ": " + bad[t]);
  s.nontrivial(hash);
  for (size_t i = ns; i-- > 0; ) srv[i].reset();
}

int main(int argc, char** argv)
{
  vp::Config c;
  c.id = "C48";
  c.props = { { "clients", prop, 1 } };
  c.nondeterministic = true;
  c.worker_init = net::small_stacks;
  c.case_timeout = 150;
  return vp::main_impl(argc, argv, c);
}
