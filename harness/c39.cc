// C39: servers listen exactly where they are told, clients connect exactly there
#include "net.h"

using namespace iqxmlrpc;
using vp::Src;

// Ports for servers that listen on every address or on a shared one: nobody else uses this range.
static int shared_port()
{
  static int p = 32000 + getpid() * 37 % 760;
  for (int i = 0; i < 760; ++i) {
    if (++p >= 32760) p = 32000;
    int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0), one = 1;
    setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
    sockaddr_in a = net::addr_of("0.0.0.0", p);
    bool ok = bind(fd, (sockaddr*)&a, sizeof a) == 0 && listen(fd, 1) == 0;
    close(fd);
    if (ok) return p;
  }
  throw vp::Discard();
}

struct Place { std::string host; int port; bool any, up, shared; unsigned id; std::unique_ptr<net::Srv> srv; bool tls; };

static std::string show(const Place& p) { return "server " + std::to_string(p.id) + " at " + (p.any ? "every address" : p.host) + ":" + std::to_string(p.port); }

static net::Srv* make(const Place& p, unsigned pool)
{
  net::Options o; o.tls = p.tls; o.pool = pool;
  std::unique_ptr<net::Srv> v(new net::Srv(o));
  iqnet::Inet_addr a = p.any ? iqnet::Inet_addr(p.port) : iqnet::Inet_addr(p.host, p.port);
  VP_CHECK(a.get_port() == p.port, "address", "an address made with port " + std::to_string(p.port) + " has port " + std::to_string(a.get_port()));
  if (!p.any) VP_CHECK(a.get_host_name() == p.host, "address", "an address made of " + p.host + " is named " + a.get_host_name());
  v->s.reset(p.tls ? (Server*)new Https_server(a, v->ef.get()) : (Server*)new Http_server(a, v->ef.get()));
  v->host = p.any ? "127.0.0.1" : p.host == "localhost" ? "127.0.0.1" : p.host; v->port = p.port;
  unsigned id = p.id;
  v->s->register_method("who", new net::Fn_factory([id](Method*, const Param_list&, Value& r) { r = (int)id; }));
  return v.release();
}

// Runs it; "" when it listens, else what work() raised
static std::string start(Place& p)
{
  p.srv->start();
  double end = vp::now() + net::LONG;
  for (;;) {
    { std::lock_guard<std::mutex> l(p.srv->mx); if (p.srv->returned) break; }
    net::Conn c;
    if (c.connect(p.srv->host, p.port, "", 0)) { usleep(300); std::lock_guard<std::mutex> l(p.srv->mx); if (!p.srv->returned) return ""; break; }
    if (vp::now() > end) vp::fail("not-listening", show(p) + " does not listen");
    usleep(200);
  }
  p.srv->th.join(); p.srv->running = false;
  return p.srv->died.empty() ? "ended" : p.srv->died;
}

// who answers at the address: -1 nobody
static int ask(Src& s, const std::string& host, int port, bool tls, bool lib)
{
  if (lib) {
    iqnet::Inet_addr a(host, port);
    static const char* vh[] = { "", "localhost", "other.example", "127.0.0.1:9" };
    std::string v = vh[s.draw(4)];
    std::unique_ptr<Client_base> c(tls ? (Client_base*)new Client<Https_client_connection>(a, "/RPC", v) : (Client_base*)new Client<Http_client_connection>(a, "/RPC", v));
    c->set_timeout((int)net::LONG);
    try { Response r = c->execute("who", Param_list()); if (r.is_fault()) vp::fail("answer", "fault " + r.fault_string()); return r.value().get_int(); }
    catch (const iqnet::network_error&) { return -1; }
    catch (const std::exception& e) { vp::fail("answer", "a call to " + host + ":" + std::to_string(port) + " raised " + e.what()); }
  }
  net::Conn c; c.tls = tls;
  if (!c.connect(host == "localhost" ? "127.0.0.1" : host, port, "", 0)) return -1;
  c.send(net::request("<methodCall><methodName>who</methodName></methodCall>", false));
  net::Resp r;
  net::Conn::RR rr = c.read(r);
  VP_CHECK(rr == net::Conn::OK && r.code == 200, "answer", "call to " + host + ":" + std::to_string(port) + ": " + net::Conn::name(rr));
  auto v = ref::response(r.body);
  return (int)v.v.i;
}

static std::string random_ip(Src& s)
{
  char b[32]; snprintf(b, sizeof b, "127.%u.%u.%u", 192 + (unsigned)s.draw(60), (unsigned)s.draw(256), 1 + (unsigned)s.draw(254));
  return b;
}

static void prop(Src& s)
{
  // Addresses: some at the same port, some at the same host
  std::vector<Place> ps;
  size_t n = 1 + s.draw(4);
  int common = net::next_port();
  uint64_t hash = 0;
  static unsigned salt = 0;
  for (size_t i = 0; i < n; ++i) {
    Place p; p.any = p.up = p.shared = false; p.id = 10 * ++salt + (unsigned)i; p.tls = s.chance(1, 6);
    switch (s.weighted({ 3, 4, 2, 1, 1, 1 })) {
    case 0: p.host = net::ip(); p.port = common; break;
    case 1: p.host = random_ip(s); p.port = common; break;
    case 2: p.host = net::ip(); p.port = net::next_port(); break;
    case 3: p.host = net::ip(1); p.port = common; break;
    case 4: p.any = p.shared = true; p.port = shared_port(); break;
    default: p.host = "localhost"; p.shared = true; p.port = shared_port(); break;
    }
    for (auto& q : ps) if (q.port == p.port && (q.any || p.any || q.host == p.host)) { p.port = net::next_port(); if (p.shared) throw vp::Discard(); }
    p.srv.reset(make(p, s.chance(1, 4) ? 1 : 0));
    hash = vp::mix(hash, p.any + 2 * p.shared + 4 * (p.port == common) + 8 * (p.host == net::ip()));
    ps.push_back(std::move(p));
    s.note(show(ps.back()) + (ps.back().tls ? " (https)" : ""));
  }
  for (auto& p : ps) p.srv->port = p.port;
  size_t ops = 2 + s.draw(10), asked = 0;
  for (size_t k = 0; k < ops; ++k) {
    Place& p = ps[s.draw(n)];
    unsigned op = (unsigned)s.weighted({ 3, 1, 6, 2, 1, 1 });
    hash = vp::mix(hash, op * 8 + p.id % 10);
    switch (op) {
    case 0: {   // start, or find the address taken
      if (p.up) {
        Place q; q.host = p.host; q.port = p.port; q.any = p.any; q.shared = p.shared; q.tls = p.tls; q.up = false; q.id = p.id + 5;
        q.srv.reset(make(q, 0));
        s.note("start another server at the address of " + show(p));
        q.srv->start();
        VP_CHECK(q.srv->join(), "taken", "a second server at the address of " + show(p) + " raised nothing");
        std::string e = q.srv->died;
        VP_CHECK(!e.empty(), "taken", "a second server at the address of " + show(p) + " ended without an exception");
        s.label("address taken");
        if (s.chance(1, 2)) {   // after the owner has gone it can be used
          s.note("and again after that one has stopped");
          p.srv->stop();
          std::string e2 = start(q);
          if (!e2.empty() && q.shared) throw vp::Discard();
          VP_CHECK(e2.empty(), "start", show(q) + " could not start: " + e2);
          VP_CHECK(ask(s, q.any ? "127.0.0.1" : q.host, q.port, q.tls, false) == (int)q.id, "reached", show(q) + " does not answer");
          q.srv->stop(); p.up = false;
        }
        break;
      }
      s.note("start " + show(p));
      std::string e = start(p);
      if (!e.empty() && p.shared) throw vp::Discard();      // the port went to another worker meanwhile
      VP_CHECK(e.empty(), "start", show(p) + " could not start: " + e);
      p.up = true;
      break; }
    case 1: s.note("stop " + show(p)); p.srv->stop(); p.up = false; break;
    case 2: case 3: {   // a call to its address, or to somewhere else at its port
      std::string host = p.any ? (s.chance(1, 2) ? "127.0.0.1" : random_ip(s)) : p.host;
      if (op == 3) host = s.chance(1, 2) ? random_ip(s) : net::ip((unsigned)s.draw(2));
      int port = p.port;
      if (s.chance(1, 8)) port = ps[s.draw(n)].port;
      Place* want = 0; bool shared = false;
      for (auto& q : ps) if (q.port == port && (q.any || q.host == host || (q.host == "localhost" && host == "127.0.0.1"))) { shared |= q.shared; if (q.up) want = &q; }
      bool lib = s.chance(1, 2);
      if (shared && !want) break;    // another worker may be there
      if (!want && port >= 32000) break;
      bool tls = want ? want->tls : p.tls;
      s.note(std::string(lib ? "client" : "raw client") + " calls " + host + ":" + std::to_string(port));
      int got = ask(s, host, port, tls, lib);
      VP_CHECK(got == (want ? (int)want->id : -1), "reached", "a call to " + host + ":" + std::to_string(port) + (got < 0 ? " found nobody" : " reached server " + std::to_string(got)) + "; expected " + (want ? show(*want) : "nobody"));
      s.label(want ? "reached" : "nobody there"); ++asked;
      break; }
    case 4: {   // stop with connections open and start again at once
      if (!p.up) break;
      s.note("restart " + show(p));
      net::Conn c; c.tls = p.tls;
      VP_CHECK(c.connect(p.srv->host, p.port), "not-listening", "cannot connect");
      c.send(net::request("<methodCall><methodName>who</methodName></methodCall>", true));
      net::Resp r; c.read(r);
      ask(s, p.srv->host, p.port, p.tls, true);
      p.srv->stop();
      if (s.chance(1, 2)) p.srv.reset(make(p, 0));
      std::string e = start(p);
      if (!e.empty() && p.shared) throw vp::Discard();
      VP_CHECK(e.empty(), "start", show(p) + " could not start again: " + e);
      s.label("restarted");
      break; }
    default: {  // names that are no host
      static const char* t[] = { "300.1.2.3", "-", "a\rb", "127.0.0.1\n", "\r\nX: y" };
      std::string h = t[s.draw(5)];
      s.note("client of host " + vp::quote(h, 30));
      bool refused = false;
      try { Client<Http_client_connection> c(iqnet::Inet_addr(h, p.port)); c.set_timeout(20); c.execute("who", Param_list()); }
      catch (const iqnet::network_error&) { refused = true; }
      catch (const std::exception& e) { vp::fail("bad-host", "host " + vp::quote(h, 30) + " raised " + std::string(e.what()) + ", which is no network_error"); }
      VP_CHECK(refused, "bad-host", "a call to host " + vp::quote(h, 30) + " was answered");
      if (h.find_first_of("\r\n") == std::string::npos) {   // however often it is asked for, and through copies
        iqnet::Inet_addr a(h, p.port);
        for (size_t k = 1 + s.draw(4); k; --k) {
          iqnet::Inet_addr b(a);
          bool raised = false;
          try { (s.chance(1, 2) ? a : b).get_sockaddr(); } catch (const std::exception&) { raised = true; }
          VP_CHECK(raised, "bad-host", "host " + vp::quote(h, 30) + " was given an address");
        }
      }
      s.label("no host");
      break; }
    }
    for (auto& q : ps) if (q.up) q.srv->check_alive();
  }
  if (asked) s.nontrivial(hash);
  for (auto& q : ps) q.srv->stop();
}

int main(int argc, char** argv)
{
  vp::Config c;
  c.id = "C39";
  c.props = { { "addresses", prop, 1 } };
  c.hard_fail = true;
  c.worker_init = net::small_stacks;
  c.nondeterministic = true;
  return vp::main_impl(argc, argv, c);
}
