// C42: an exception of application code becomes the fault of its own call and nothing else
#include "net.h"
#include "libiqxmlrpc/libiqxmlrpc.h"
#include <map>

using namespace iqxmlrpc;
using vp::Src;

enum Place { NOWHERE, METHOD, CREATE, BEFORE, AFTER, CAUGHT, AUTH, RELAY };
enum Kind { FAULT, DERIVED, EXCEPTION, RUNTIME, NETWORK, TIMEOUT, ALLOC, RANGE, INT, POINTER, ODD, UNPRINTABLE, KINDS };
static const char* pname[] = { "nowhere", "method", "creation", "interceptor before", "interceptor after", "caught", "authentication", "relayed" };
static const char* kname[] = { "Fault", "derived from Fault", "Exception", "runtime_error", "network_error", "Client_timeout", "bad_alloc", "out_of_range", "int", "pointer", "odd class", "unprintable Fault" };

struct Plan { Place place; Kind kind; int code; std::string text; size_t level; };

struct My_fault: Fault { My_fault(int c, const std::string& t): Fault(c, t), more(100, 'x') {} std::string more; };
struct Odd { std::string s; };

static void raise(const Plan& p)
{
  switch (p.kind) {
  case FAULT: case UNPRINTABLE: throw Fault(p.code, p.text);
  case DERIVED: throw My_fault(p.code, p.text);
  case EXCEPTION: throw Exception(p.text, p.code);
  case RUNTIME: throw std::runtime_error(p.text);
  case NETWORK: throw iqnet::network_error(p.text, false);
  case TIMEOUT: throw Client_timeout();
  case ALLOC: throw std::bad_alloc();
  case RANGE: throw std::out_of_range(p.text);
  case INT: throw p.code;
  case POINTER: throw "text";
  default: throw Odd{ p.text };
  }
}

static std::map<std::string, Plan> plans;   // by name of method or user; written while nothing runs
static net::Log ran;
static net::Srv* other;

static const Plan* plan(const std::string& n) { auto i = plans.find(n); return i == plans.end() ? 0 : &i->second; }

static void body(Method* m, const Param_list& p, Value& r)
{
  std::string id = p.at(0).get_string();
  ran.add(id);
  const Plan* q = plan(m->name());
  r = "half " + id;
  if (q && (q->place == METHOD || q->place == CAUGHT)) raise(*q);
  if (q && q->place == RELAY) {
    Client<Http_client_connection> c(other->addr());
    c.set_timeout(25);
    r = c.execute("fail", Value(id)).value();
  }
  r = "R" + id;
}

class Factory: public Method_factory_base {
public:
  explicit Factory(const std::string& n): n_(n) {}
  Method* create() { const Plan* q = plan(n_); if (q && q->place == CREATE) raise(*q); return new net::Fn(body); }
private:
  std::string n_;
};

// a method whose constructor raises
class Ctor: public Method {
public:
  explicit Ctor(const std::string& n): big_(200, 'b') { const Plan* q = plan(n); if (q && q->place == CREATE) raise(*q); }
private:
  void execute(const Param_list& p, Value& r) { body(this, p, r); }
  std::string big_;
};

class Disp: public Method_dispatcher_base {
  Method* do_create_method(const std::string& n) { if (n.compare(0, 2, "d.")) return 0; return new Ctor(n); }
  void do_get_methods_list(Array&) const {}
};

class Ic: public Interceptor {
public:
  explicit Ic(size_t l): l_(l) {}
  void process(Method* m, const Param_list& p, Value& r)
  {
    const Plan* q = plan(m->name());
    bool me = q && q->level == l_;
    if (me && q->place == BEFORE) raise(*q);
    if (me && q->place == CAUGHT) {
      try { yield(m, p, r); } catch (...) { r = "C" + p.at(0).get_string(); }
      return;
    }
    yield(m, p, r);
    if (me && q->place == AFTER) raise(*q);
  }
private:
  size_t l_;
};

struct Plugin: Auth_Plugin_base {
  bool do_authenticate(const std::string& u, const std::string&) const { const Plan* q = plan("user " + u); if (q) raise(*q); return true; }
  bool do_authenticate_anonymous() const { return true; }
};

static void prop(Src& s)
{
  plans.clear(); ran.take();
  Plugin plugin;
  net::Options o, oo;
  o.tls = s.chance(1, 12);
  o.pool = s.chance(1, 2) ? 1 + (unsigned)s.draw(3) : 0;
  size_t levels = s.draw(4);
  net::Srv second(oo);
  net::Srv srv(o);
  other = &second;
  struct Relayed { int code; std::string text; };
  static Relayed rel;
  rel.code = gen::int32(s); rel.text = hg::token(s, 10);
  second.s->register_method("fail", new net::Fn_factory([](Method*, const Param_list&, Value&) { throw Fault(rel.code, rel.text); }));
  for (size_t i = 0; i < levels; ++i) srv.s->push_interceptor(new Ic(i));
  srv.s->push_dispatcher(new Disp);
  srv.s->set_auth_plugin(plugin);
  for (int i = 0; i < 12; ++i) srv.s->register_method("f." + std::to_string(i), new Factory("f." + std::to_string(i)));
  struct Call { std::string name, user, id; Plan p; size_t conn; };
  std::vector<Call> calls;
  size_t nc = 1 + s.draw(3), n = 1 + s.draw(8);
  bool relay = false, raises = false;
  s.note(std::string(o.tls ? "https" : "http") + " pool " + std::to_string(o.pool) + ", " + std::to_string(levels) + " interceptors");
  uint64_t hash = o.pool * 8 + levels;
  for (size_t i = 0; i < n; ++i) {
    Call c;
    c.name = (s.chance(1, 2) ? "f." : "d.") + std::to_string(i); c.id = "i" + std::to_string(i);
    c.conn = s.draw(nc);
    c.p.place = (Place)s.weighted({ 3, 5, 3, levels ? 2u : 0u, levels ? 2u : 0u, levels ? 2u : 0u, 2, 1 });
    if (!levels && c.p.place >= BEFORE && c.p.place <= CAUGHT) c.p.place = METHOD;
    c.p.kind = (Kind)s.draw(KINDS);
    c.p.code = gen::int32(s);
    gen::TextOpts to; to.max_cp = 40;
    c.p.text = gen::text(s, to);
    if (s.chance(1, 4)) c.p.text += std::string(1 + s.draw(s.chance(1, 4) ? 70000 : 600), 'l');
    if (c.p.kind == UNPRINTABLE) { static const char* b[] = { "\x01", "\xff", "\xc3", "a\x80z", "\xed\xa0\x80", "\xef\xbf\xbf", "\x1b[1m" }; c.p.text += b[s.draw(7)]; }
    c.p.level = levels ? s.draw(levels) : 0;
    if (c.p.place == AUTH) { c.user = "u" + std::to_string(i); plans["user " + c.user] = c.p; }
    else if (c.p.place != NOWHERE) plans[c.name] = c.p;
    relay |= c.p.place == RELAY; raises |= c.p.place != NOWHERE;
    s.note("call " + c.id + " of " + c.name + " on connection " + std::to_string(c.conn) + ", raises " + pname[c.p.place] + " " + kname[c.p.kind] + " " + std::to_string(c.p.code) + " " + vp::quote(c.p.text, 100));
    hash = vp::mix(hash, vp::hash64(c.p.text, c.p.place * 100 + c.p.kind + c.conn * 1000));
    s.label(std::string("raised: ") + pname[c.p.place]);
    if (c.p.place != NOWHERE && c.p.place != RELAY) s.label(std::string("raised ") + kname[c.p.kind]);
    calls.push_back(c);
  }
  if (relay) second.start_and_wait();
  srv.start_and_wait();
  net::Conn cs[3];
  // rounds: at most one call under way per connection
  std::vector<std::vector<size_t>> q(3);
  for (size_t i = 0; i < n; ++i) q[calls[i].conn].push_back(i);
  for (size_t round = 0; ; ++round) {
    bool any = false;
    std::vector<size_t> out;
    for (size_t k = 0; k < 3; ++k) {
      if (round >= q[k].size()) continue;
      Call& c = calls[q[k][round]];
      cs[k].tls = o.tls;
      if (cs[k].fd < 0) VP_CHECK(cs[k].connect(srv.host, srv.port), "not-listening", "cannot connect");
      std::string extra = c.user.empty() ? "" : "Authorization: Basic " + ref::encode64(c.user + ":p") + "\r\n";
      cs[k].send(net::request(s, net::call_xml(c.name, c.id), true, extra));
      out.push_back(k); any = true;
    }
    if (!any) break;
    for (size_t k : out) {
      Call& c = calls[q[k][round]];
      const Plan& p = c.p;
      net::Resp a;
      net::Conn::RR rr = cs[k].read(a);
      srv.check_alive();
      std::string what = "call " + c.id + ", raising (" + pname[p.place] + ") " + (p.place == NOWHERE || p.place == RELAY ? "" : kname[p.kind]) + " " + std::to_string(p.code) + " " + vp::quote(p.text, 100) + ", is answered with ";
      if (rr != net::Conn::OK) {
        VP_CHECK(p.kind == UNPRINTABLE && p.place != NOWHERE && p.place != RELAY && p.place != CAUGHT && (rr == net::Conn::CLOSED || rr == net::Conn::RESET), "no-answer", what + net::Conn::name(rr));
        cs[k].close();
        s.label("unprintable: closed");
        continue;
      }
      if (p.place == AUTH) {
        VP_CHECK(a.code != 200 || (p.kind == UNPRINTABLE ? a.body.find("<fault>") != std::string::npos : net::answer(a.body).fault), "auth", what + vp::quote(a.body, 200));
        if (!a.keep()) { cs[k].wait_end(); cs[k].close(); }
        continue;
      }
      VP_CHECK(a.code == 200 && a.keep(), "http-status", what + vp::quote(a.head, 200));
      if (p.kind == UNPRINTABLE && p.place != NOWHERE && p.place != RELAY && p.place != CAUGHT) {     // what its reader makes of it is C36's business
        VP_CHECK(a.body.find("<fault>") != std::string::npos || (a.body.find("R" + c.id) == std::string::npos && a.body.find("half") == std::string::npos), "no-fault", what + vp::quote(a.body, 300));
        continue;
      }
      net::Answer w = net::answer(a.body);
      what += (w.fault ? "fault " + std::to_string(w.code) + " " : std::string("result ")) + vp::quote(w.text, 150);
      if (p.place == NOWHERE) VP_CHECK(!w.fault && w.text == "R" + c.id, "result", what);
      else if (p.place == CAUGHT) VP_CHECK(!w.fault && w.text == "C" + c.id, "result", what);
      else {
        VP_CHECK(w.fault, "no-fault", what);
        bool direct = p.place == CREATE || !o.pool;
        int code = p.code; std::string text = p.text; Kind kd = p.kind;
        if (p.place == RELAY) { kd = EXCEPTION; code = rel.code; text = rel.text; }
        if (kd == FAULT || kd == DERIVED || (kd == EXCEPTION && direct)) VP_CHECK(w.code == code && w.text == text, "fault", what);
        if (kd == EXCEPTION || kd == RUNTIME || kd == NETWORK || kd == RANGE) VP_CHECK(w.text.find(text) != std::string::npos, "text", what);
      }
    }
  }
  std::vector<std::string> got = ran.take(), want;
  for (auto& c : calls) if (c.p.place != CREATE && c.p.place != BEFORE && c.p.place != AUTH) want.push_back(c.id);
  std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
  VP_CHECK(got == want, "executions", "executed " + net::join(got) + " instead of " + net::join(want));
  // still served
  plans.clear();
  net::Conn e; e.tls = o.tls;
  VP_CHECK(e.connect(srv.host, srv.port), "not-listening", "cannot connect");
  e.send(net::request(net::call_xml("f.0", "end"), false));
  net::Resp a;
  net::Conn::RR rr = e.read(a);
  srv.check_alive();
  VP_CHECK(rr == net::Conn::OK && net::answer(a.body).text == "Rend", "afterwards", std::string("a call afterwards: ") + net::Conn::name(rr) + " " + vp::quote(a.body, 200));
  s.label(o.pool ? "pool" : "serial");
  if (raises) s.nontrivial(hash);
  for (auto& c : cs) c.close();
  e.close();
  srv.stop(); second.stop();
}

int main(int argc, char** argv)
{
  vp::Config c;
  c.id = "C42";
  c.props = { { "calls", prop, 1 } };
  c.hard_fail = true;
  c.worker_init = net::small_stacks;
  c.nondeterministic = true;
  c.leak_check = true; c.leak_every = 50;
  return vp::main_impl(argc, argv, c);
}
