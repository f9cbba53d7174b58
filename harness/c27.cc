// C27: histories of use leave no descriptors and no memory behind
#include "fake.h"
#include "spell.h"
#include "libiqxmlrpc/firewall.h"
#include "libiqxmlrpc/inet_addr.h"
#include <sstream>
#include <atomic>
#include <sys/syscall.h>
#include <unistd.h>

extern "C" size_t __sanitizer_get_current_allocated_bytes();

using namespace iqxmlrpc;
using vp::Src;

// closing a descriptor that is not open: whoever opens one in between loses it
static std::atomic<int> bad_close(-1);
static std::atomic<bool> watch_close(false);
extern "C" int close(int fd)
{
  int r = (int)syscall(SYS_close, fd);
  if (r < 0 && errno == EBADF && fd >= 0 && watch_close) { bad_close = fd; errno = EBADF; }
  return r;
}

// ------------------------------------------------------------------ steps
struct Use { int kind; size_t n; bool keep, left; };
enum UseKind { CALL, CALL_FAULT, CALL_UNKNOWN, CALL_BAD_AUTH, RAW_CALL, RAW_PART, RAW_RESET, RAW_UNREAD, RAW_GARBAGE, RAW_TOO_BIG, REFUSED_PEER, CLIENTS_SAME, NUSES };
static const char* uname[] = { "call", "faulting call", "unknown method", "wrong password", "raw call", "part of a request", "reset", "unread answer", "garbage", "too big", "refused peer", "kept client" };

struct Step {
  int kind;                    // 0 server, 1 client against a scripted server, 2 bare objects, 3 parsing, 4 pool
  bool tls; unsigned pool; bool start, twice, icept, disp, intro, wall, auth, restart, logged;
  std::vector<Use> uses;
  int peer; size_t at; std::string text; bool keep, verify;
  unsigned n;
};

struct Wall: iqnet::Firewall_base { std::string deny; bool grant(const iqnet::Inet_addr& a) { return a.get_host_name() != deny; } };
struct Icept: Interceptor { void process(Method* m, const Param_list& p, Value& r) { yield(m, p, r); } };
struct Auth: Auth_Plugin_base { bool do_authenticate(const std::string&, const std::string& p) const { return p == "right"; } bool do_authenticate_anonymous() const { return true; } };
struct Disp: Method_dispatcher_base { Method* do_create_method(const std::string& n) { if (n == "dyn") return new net::Fn([](Method*, const Param_list&, Value& r) { r = 1; }); return 0; } void do_get_methods_list(Array& a) const { a.push_back(Value("dyn")); } };
struct No: iqnet::ssl::ConnectionVerifier { int do_verify(bool, X509_STORE_CTX*) const { return 0; } };

static std::unique_ptr<Client_base> client(const Step& s, const iqnet::Inet_addr& a)
{
  std::unique_ptr<Client_base> c;
  if (s.tls) c.reset(new Client<Https_client_connection>(a)); else c.reset(new Client<Http_client_connection>(a));
  c->set_timeout(20);
  return c;
}

static void call(Client_base& c, const std::string& m, const std::string& arg)
{
  try { Param_list p; p.push_back(Value(arg)); Response r = c.execute(m, p); if (r.is_fault()) r.fault_string(); else r.value(); }
  catch (const std::exception&) {}
}

static void run_server(const Step& s)
{
  net::Options o; o.tls = s.tls; o.pool = s.pool;
  Wall wall; Auth auth; std::ostringstream log;
  std::string deny = net::ip(1);
  wall.deny = deny;
  std::vector<std::unique_ptr<net::Conn>> left;
  std::vector<std::unique_ptr<Client_base>> clients;
  {
    net::Srv srv(o);
    Server& sv = *srv.s;
    for (int k = 0; k < (s.twice ? 2 : 1); ++k)
      sv.register_method("echo", new net::Fn_factory([](Method*, const Param_list& p, Value& r) { r = p.empty() ? Value(0) : p[0]; }));
    sv.register_method("bad", new net::Fn_factory([](Method*, const Param_list&, Value&) { throw Fault(3, "x"); }));
    sv.register_method("worse", new net::Fn_factory([](Method*, const Param_list&, Value&) { throw std::runtime_error("x"); }));
    sv.register_method("http", new net::Fn_factory([](Method*, const Param_list&, Value&) { throw http::Error_response("Elsewhere", 503); }));
    sv.register_method("odd", new net::Fn_factory([](Method*, const Param_list&, Value&) { throw 5; }));
    sv.register_method("control", new net::Fn_factory([](Method*, const Param_list&, Value& r) { r = std::string("a\1b"); }));
    sv.register_method("big", new net::Fn_factory([](Method*, const Param_list&, Value& r) { r = std::string(3000000, 'b'); }));
    if (s.icept) { sv.push_interceptor(new Icept); if (s.twice) sv.push_interceptor(new Icept); }
    if (s.disp) sv.push_dispatcher(new Disp);
    if (s.intro) sv.enable_introspection();
    if (s.wall) sv.set_firewall(&wall);
    if (s.auth) sv.set_auth_plugin(auth);
    if (s.logged) sv.log_errors(&log);
    sv.set_max_request_sz(100000);
    if (s.start) {
      for (int round = 0; round < (s.restart ? 2 : 1); ++round) {
        srv.start_and_wait();
        for (auto& u : s.uses) {
          std::unique_ptr<net::Conn> c(new net::Conn);
          c->tls = s.tls;
          net::Resp r;
          static const char* faults[] = { "worse", "bad", "http", "odd", "control" };
          std::string echo = net::request(net::call_xml("echo", std::string(u.n % 5000, 'e')), u.keep);
          switch (u.kind) {
          case CALL: case CALL_FAULT: case CALL_UNKNOWN: case CALL_BAD_AUTH: case CLIENTS_SAME: {
            auto cl = client(s, srv.addr());
            cl->set_keep_alive(u.keep);
            if (u.kind == CALL_BAD_AUTH) cl->set_authinfo("u", u.n % 2 ? "wrong" : "right");
            std::string m = u.kind == CALL_FAULT ? faults[u.n % 5] : u.kind == CALL_UNKNOWN ? "nothing" : s.disp && u.n % 3 == 0 ? "dyn" : s.intro && u.n % 3 == 1 ? "system.listMethods" : "echo";
            for (int k = 0; k < (u.kind == CLIENTS_SAME ? 3 : 1); ++k) call(*cl, m, std::string(u.n, 'a'));
            if (u.left) clients.push_back(std::move(cl));
            break; }
          case RAW_CALL: if (c->connect(srv.host, srv.port) && c->send(echo)) c->read(r); break;
          case RAW_PART: if (c->connect(srv.host, srv.port)) c->send(echo.substr(0, u.n % echo.size())); break;
          case RAW_RESET: if (c->connect(srv.host, srv.port)) { c->send(echo.substr(0, u.n % (echo.size() + 1))); c->reset(); } break;
          case RAW_UNREAD: if (c->connect(srv.host, srv.port)) { c->send(net::request(net::call_xml("big", "x"), u.keep)); if (u.n % 2) usleep((useconds_t)u.n % 3000); } break;
          case RAW_GARBAGE: if (c->connect(srv.host, srv.port)) { c->tls = false; c->drop_ssl(); std::string g = s.text.empty() ? "\r\n\r\n" : s.text; c->send(u.n % 2 ? g : "POST / HTTP/1.0\r\ncontent-length: " + std::to_string(g.size()) + "\r\n\r\n" + g); if (!u.left) c->half_close(); if (u.n % 3) c->fill(0.003); } break;
          case RAW_TOO_BIG: if (c->connect(srv.host, srv.port)) { c->send(net::request(net::call_xml("echo", std::string(120000, 'x')), u.keep)); c->read(r, 2); } break;
          case REFUSED_PEER: if (c->connect(srv.host, srv.port, deny)) { c->send(echo); c->fill(0.01); } break;
          }
          if (u.left) left.push_back(std::move(c));
        }
        if (s.n % 2) left.clear();
        srv.stop();
      }
    }
  }
  // clients that outlive the server
}

static void run_peer(const Step& s)
{
  std::string body = fake::result_xml("answer" + s.text.substr(0, 20));
  std::string whole = std::string("HTTP/1.1 200 OK\r\ncontent-type: text/xml\r\nconnection: ") + (s.keep ? "keep-alive" : "close") + "\r\ncontent-length: " + std::to_string(body.size()) + "\r\n\r\n" + body;
  bool tls = s.tls;
  int how = s.peer; size_t at = s.at;
  std::string text = s.text;
  fake::Server f([=](fake::Peer& p) {
    if (how == 5) { p.send(text); return; }
    if (how >= 10) {
      // the way through a proxy, granted or refused
      fake::Req r; std::string err;
      if (fake::read_request(p, r, err, !tls) <= 0) return;
      if (!tls) { p.send(whole); return; }
      if (how == 11) { p.send("HTTP/1.0 " + std::to_string(300 + at % 300) + " no\r\n\r\n"); return; }
      p.send("HTTP/1.0 200 OK\r\n\r\n");
    }
    if (tls && !p.handshake()) return;
    for (;;) {
      fake::Req r; std::string err;
      if (fake::read_request(p, r, err) <= 0) return;
      switch (how) {
      case 0: p.send(whole); if (!s.keep) return; break;
      case 1: p.send(whole.substr(0, at % whole.size())); return;
      case 2: p.send(whole.substr(0, at % whole.size())); p.reset(); return;
      case 3: p.send("HTTP/1.0 " + std::to_string(200 + at % 400) + " no\r\ncontent-length: 2\r\n\r\nxx"); return;
      case 4: p.send("HTTP/1.0 200 OK\r\ncontent-length: " + std::to_string(text.size()) + "\r\n\r\n" + text); return;
      case 6: p.hold(); return;
      default: p.send(whole); return;
      }
    }
  });
  int lfd = -1; std::vector<int> fill;
  if (how == 9) {
    // a full queue: connections stay half open
    lfd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    sockaddr_in a = net::addr_of(f.host, f.port);
    if (::bind(lfd, (sockaddr*)&a, sizeof a) || ::listen(lfd, 0)) { ::close(lfd); throw vp::Discard(); }
    for (int i = 0; i < 4; ++i) { int x = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0); ::connect(x, (sockaddr*)&a, sizeof a); fill.push_back(x); }
  } else if (how != 7) f.listen();
  No no;
  if (tls && s.verify) iqnet::ssl::ctx->verify_server(&no);
  {
    auto c = client(s, f.addr());
    c->set_keep_alive(s.keep);
    if (how == 6 || how == 9) c->set_timeout(1);
    if (how >= 10) c->set_proxy(f.addr());
    call(*c, "m", "x");
    if (how != 9) call(*c, "m", "y");
    if (how == 8) { c->set_proxy(f.addr()); call(*c, "m", "z"); }
    try {
      auto d = client(s, iqnet::Inet_addr("no such host", 1));
      call(*d, "m", "x");
    } catch (const std::exception&) {}
  }
  if (tls && s.verify) iqnet::ssl::ctx->verify_server(0);
  f.finish();
  for (int x : fill) ::close(x);
  if (lfd >= 0) ::close(lfd);
}

static void run_objects(const Step& s)
{
  // things made and destroyed without being used
  Serial_executor_factory ef;
  std::unique_ptr<Server> a(new Http_server(iqnet::Inet_addr(net::ip(), net::next_port()), &ef));
  a->push_interceptor(new Icept);
  a->push_dispatcher(new Disp);
  a->register_method("m", new net::Fn_factory([](Method*, const Param_list&, Value&) {}));
  if (s.restart) {
    // the address is taken
    int port = net::next_port();
    int fd = ::socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in ad = net::addr_of(net::ip(), port);
    if (!::bind(fd, (sockaddr*)&ad, sizeof ad) && !::listen(fd, 1)) {
      Http_server b(iqnet::Inet_addr(net::ip(), port), &ef);
      try { b.work(); vp::fail("bind", "a server runs on an address that is taken"); } catch (const std::exception&) {}
    }
    ::close(fd);
  }
  auto c = client(s, iqnet::Inet_addr(net::ip(), 1));
  c->set_proxy(iqnet::Inet_addr(net::ip(), 2));
  c->set_authinfo("a", "b");
  call(*c, "m", "x");
  Value v = Struct();
  v.insert("a", Value(Array()));
  for (unsigned i = 0; i < s.n; ++i) v["a"].push_back(i % 2 ? Value(1.5) : v);
  Value w(v);
  w = v;
  try { w["a"].get_int(); } catch (const std::exception&) {}
  try { w["a"][100000].get_int(); } catch (const std::exception&) {}
  try { w.get_string(); } catch (const std::exception&) {}
  Request r("m", Param_list(2, w));
  dump_request(r);
}

static void run_parse(const Step& s)
{
  try { std::unique_ptr<Request> r(parse_request(s.text)); } catch (const std::exception&) {}
  try { parse_response(s.text); } catch (const std::exception&) {}
  try {
    std::unique_ptr<Binary_data> b(Binary_data::from_base64(s.text.substr(0, 200)));
    b->get_data();
  } catch (const std::exception&) {}
  try { Date_time d(s.text.substr(0, 17)); d.to_string(); } catch (const std::exception&) {}
}

static void run(const std::vector<Step>& h)
{
  bool tls = false;
  for (auto& s : h) tls = tls || s.tls;
  if (tls) iqnet::ssl::ctx = iqnet::ssl::Ctx::client_server(net::data_file("server.crt"), net::data_file("server.key"));
  for (auto& s : h) switch (s.kind) {
    case 0: run_server(s); break;
    case 1: run_peer(s); break;
    case 2: run_objects(s); break;
    case 3: run_parse(s); break;
    default: { Pool_executor_factory p(s.n); if (s.at % 2) p.add_threads(2); if (s.at % 3) usleep((useconds_t)s.at % 300); }
    }
  if (tls) { delete iqnet::ssl::ctx; iqnet::ssl::ctx = 0; }
}

// sockets other threads of this process hold for a moment are none: every thread is joined
struct Used { size_t fds, heap; };
static Used used() { Used u; u.fds = net::count_fds(); u.heap = __sanitizer_get_current_allocated_bytes(); return u; }

static void prop(Src& s)
{
  std::vector<Step> h(1 + s.draw(4));
  uint64_t hash = 0;
  bool slow = false, worked = false;
  for (auto& x : h) {
    x.kind = (int)s.weighted({ 6, 4, 1, 2, 1 });
    x.tls = x.kind <= 1 && s.chance(1, 4);
    x.pool = s.chance(1, 3) ? 1 + (unsigned)s.draw(3) : 0;
    x.start = s.draw(8) != 7; x.twice = s.chance(1, 4); x.icept = s.chance(1, 3); x.disp = s.chance(1, 4); x.intro = s.chance(1, 4); x.wall = s.chance(1, 3); x.auth = s.chance(1, 3); x.restart = s.chance(1, 5); x.logged = s.chance(1, 3);
    x.peer = x.kind == 1 ? (int)s.weighted({ 4, 4, 2, 2, 3, 2, 1, 1, 2, 1, 2, 1 }) : 0;
    if (x.peer == 6 || x.peer == 9) { if (slow) x.peer = 0; slow = true; }
    x.at = s.draw(5000); x.keep = s.chance(1, 2); x.verify = s.chance(1, 3); x.n = (unsigned)s.draw(6);
    if (x.kind == 3 || x.kind == 0 || x.kind == 1) {
      std::string t = s.chance(1, 3) ? gen::bytes(s, 60, 300) : s.chance(1, 2) ? net::call_xml("m", "abc") : fake::fault_xml(3, "abc");
      for (size_t k = s.draw(3); k; --k) { size_t at = s.draw(t.size() + 1); if (at < t.size()) { if (s.chance(1, 2)) t.erase(at, 1 + s.draw(9)); else t[at] = (char)s.draw(256); } }
      x.text = t;
    }
    static const char* kn[] = { "server", "client", "objects", "parse", "pool" };
    std::string note = std::string(kn[x.kind]) + (x.tls ? " tls" : "") + (x.kind == 0 ? x.pool ? " pool" : " serial" : "");
    if (x.kind == 0) {
      note += std::string(x.start ? "" : " never started") + (x.twice ? " twice" : "") + (x.icept ? " interceptor" : "") + (x.disp ? " dispatcher" : "") + (x.intro ? " introspection" : "") + (x.wall ? " firewall" : "") + (x.auth ? " auth" : "") + (x.restart ? " restarted" : "");
      for (size_t k = s.draw(6); k; --k) {
        Use u; u.kind = (int)s.draw(NUSES); u.n = s.draw(9000); u.keep = s.chance(1, 2); u.left = s.chance(1, 2);
        x.uses.push_back(u);
        note += std::string(", ") + uname[u.kind] + (u.left ? " left open" : "");
        hash = vp::mix(hash, u.kind * 4 + u.keep * 2 + u.left);
        s.label(uname[u.kind]);
        worked = true;
      }
    } else if (x.kind == 1) { note += " peer " + std::to_string(x.peer) + (x.keep ? " keep" : "") + (x.verify ? " verify" : ""); worked = true; }
    else if (x.kind == 3) { note += " " + vp::quote(x.text, 200); worked = true; }
    hash = vp::mix(hash, vp::mix((uint64_t)x.kind * 64 + x.tls * 32 + x.start * 16 + x.peer, vp::hash64(note)));
    s.label(kn[x.kind]);
    s.note(note);
  }
  net::own_context() = true;
  signal(SIGPIPE, SIG_IGN);
  // the first run fills caches; afterwards each run would have to leave something behind
  bad_close = -1; watch_close = true;
  run(h);
  watch_close = false;
  VP_CHECK(bad_close < 0, "closed twice", "a descriptor that is not open is closed: " + std::to_string(bad_close));
  const size_t reps = 2, more = 8;
  Used before = used(), u = before;
  for (size_t i = 0; i < reps; ++i) run(h);
  u = used();
  bool fd = u.fds > before.fds, heap = u.heap > before.heap;
  if (fd || heap) {
    size_t fds_up = 0, heap_up = 0;
    for (size_t i = 0; i < more; ++i) {
      run(h);
      Used v = used();
      fds_up += v.fds > u.fds; heap_up += v.heap > u.heap;
      u = v;
    }
    fd = fd && fds_up + 1 >= more; heap = heap && heap_up + 1 >= more;
    VP_CHECK(!fd, "descriptors", "every repetition leaves descriptors open: " + std::to_string(before.fds) + " before, " + std::to_string(u.fds) + " after " + std::to_string(reps + more) + " repetitions" + net::show_fds().substr(0, 300));
    VP_CHECK(!heap, "heap", "every repetition leaves memory allocated: " + std::to_string(before.heap) + " bytes before, " + std::to_string(u.heap) + " after " + std::to_string(reps + more) + " repetitions");
  }
  if (worked) s.nontrivial(hash);
}

int main(int argc, char** argv)
{
  vp::Config c;
  c.id = "C27";
  c.props = { { "history", prop, 1 } };
  c.hard_fail = true;
  c.worker_init = net::small_stacks;
  c.nondeterministic = true;
  c.workers = 16;
  c.case_timeout = 150;
  return vp::main_impl(argc, argv, c);
}
