// C47: waiting takes no processor time
#include "fake.h"
#include <time.h>

using namespace iqxmlrpc;
using vp::Src;

static std::mutex mx;
static std::condition_variable cv;
static bool opened;
static std::atomic<unsigned> inside;

static double cpu() { timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return (double)t.tv_sec + (double)t.tv_nsec * 1e-9; }

// processor time used while this thread sleeps must become small; work already begun may take its time first
static void calm(const std::string& what)
{
  double least = 1, end = vp::now() + 12;
  useconds_t nap = 40000;
  while (vp::now() < end) {
    double c = cpu(), w = vp::now();
    usleep(nap);
    double share = (cpu() - c) / (vp::now() - w);
    least = std::min(least, share);
    if (share < 0.15) return;
    nap = std::min<useconds_t>(nap * 2, 400000);
  }
  char b[32]; snprintf(b, sizeof b, "%.0f%%", least * 100);
  vp::fail("busy", "while everybody waits the process uses at least " + std::string(b) + " of a processor for 12 seconds: " + what);
}

static void gate(Method*, const Param_list& p, Value& r)
{
  ++inside;
  std::unique_lock<std::mutex> l(mx);
  cv.wait_for(l, std::chrono::seconds(60), [] { return opened; });
  --inside;
  r = p.empty() ? Value("R") : p[0];
}

static void open_gate() { std::lock_guard<std::mutex> l(mx); opened = true; cv.notify_all(); }

struct Wall: iqnet::Firewall_base {
  std::string refuse, text;
  bool grant(const iqnet::Inet_addr& a) { return a.get_host_name() != refuse; }
  std::string message() { return text; }
};

static void server(Src& s)
{
  net::Options o;
  o.tls = s.chance(1, 3);
  o.pool = s.chance(2, 3) ? 1 + (unsigned)s.draw(3) : 0;
  net::Log log;
  Wall wall;
  net::Srv srv(o);
  net::add_echo(*srv.s, log);
  opened = false; inside = 0;
  srv.s->register_method("gate", new net::Fn_factory(gate));
  size_t big = 1000 + s.draw(3000000, [](vp::Rng& r) -> uint64_t { return r.chance(1, 2) ? r.below(3000000) : r.below(3000); });
  srv.s->register_method("big", new net::Fn_factory([big](Method*, const Param_list&, Value& r) { r = std::string(big, 'b'); }));
  if (s.chance(1, 3)) srv.s->set_max_request_sz(5000);
  wall.refuse = net::ip(1);
  wall.text = s.chance(1, 2) ? "no" : "";
  if (s.chance(1, 4)) srv.s->set_firewall(&wall);
  srv.start_and_wait();
  struct Free { ~Free() { open_gate(); } } free_at_end;

  static const char* kinds[] = { "idle", "idle-after-a-call", "in-the-header", "in-the-body", "ended-in-the-middle", "call-in-progress", "caller-gone", "caller-half-closed",
    "more-bytes-while-in-progress", "response-not-read", "response-not-read-more-sent", "too-long", "refused", "waits-for-continue", "error-not-read", "answered-and-closed", "no-handshake", "half-handshake", "shutdown-unanswered", "firewall" };
  std::string what = std::string(o.tls ? "https" : "http") + (o.pool ? " pool " + std::to_string(o.pool) : " serial");
  std::vector<std::unique_ptr<net::Conn>> all;
  unsigned busy = 0;
  size_t n = 1 + s.draw(4);
  uint64_t shape = vp::mix(o.tls, o.pool);
  for (size_t i = 0; i < n; ++i) {
    unsigned k = (unsigned)s.draw(20);
    bool gated = k >= 5 && k <= 8;
    if (gated && !o.pool) k = 1, gated = false;   // the only thread would be in the method
    if ((k == 16 || k == 17 || k == 18) && !o.tls) k = 0;
    what += std::string(", ") + kinds[k];
    s.label(std::string("state:") + kinds[k]);
    shape = vp::mix(shape, k);
    all.emplace_back(new net::Conn);
    net::Conn& c = *all.back();
    c.tls = o.tls && k != 16 && k != 17;
    std::string src = k == 19 ? net::ip(1) : "";
    if (!c.connect(srv.host, srv.port, src)) { srv.check_alive(); vp::fail("not-accepted", "no connection"); }
    if (k == 19) { c.tls = false; c.fill(0.01); continue; }
    if (c.tls && !c.handshake()) vp::fail("handshake", "no handshake");
    net::Resp r;
    std::string call = net::request(net::call_xml("echo", "x"), true), g = net::request(net::call_xml("gate", "x"), s.chance(1, 2));
    switch (k) {
    case 1: c.send(call); c.read(r); break;
    case 2: c.send(call.substr(0, 1 + s.draw(40))); break;
    case 3: c.send(call.substr(0, call.find("\r\n\r\n") + 4 + s.draw(30))); break;
    case 4: c.send(call.substr(0, s.draw(call.size()))); c.half_close(); break;
    case 5: case 6: case 7: case 8: {
      unsigned want = std::min(o.pool, ++busy);
      c.send(g);
      double end = vp::now() + net::LONG;
      while (inside < want && vp::now() < end) usleep(200);
      VP_CHECK(inside >= want, "not-started", "a call is not started although a thread is free: " + what);
      if (k == 6) { if (s.chance(1, 2)) c.close(); else c.reset(); }
      if (k == 7) c.half_close();
      if (k == 8) c.send(g.substr(0, 1 + s.draw(g.size() - 1)));
      break; }
    case 9: c.send(net::request(net::call_xml("big", "x"), s.chance(1, 2))); break;
    case 10: c.send(net::request(net::call_xml("big", "x"), s.chance(1, 2))); usleep(2000); c.send(std::string(1 + s.draw(200000), 'x'), 0.05); break;
    case 11: c.send("POST /RPC HTTP/1.0\r\nContent-Length: 900000\r\n\r\n" + std::string(s.draw(300000), 'x'), 0.05); break;
    case 12: c.send("GET / HTTP/1.0\r\n\r\n"); break;
    case 13: { std::string h = net::request(net::call_xml("echo", "x"), true, "Expect: 100-continue\r\n"); c.send(h.substr(0, h.find("\r\n\r\n") + 4)); break; }
    case 14: c.send("nonsense\r\n\r\n" + std::string(s.draw(100000), 'y'), 0.05); break;
    case 15: c.send(net::request(net::call_xml("echo", "x"), false)); if (s.chance(1, 2)) c.read(r); break;
    case 17: { static const unsigned char hello[] = { 22, 3, 1, 2, 0, 1, 0, 1, 252, 3, 3 }; std::string h((const char*)hello, 1 + s.draw(11)); ::send(c.fd, h.data(), h.size(), MSG_NOSIGNAL); break; }
    case 18: c.send(net::request(net::call_xml("echo", "x"), false)); usleep(3000); break;   // the server's close is never answered
    }
  }
  s.note(what);
  s.nontrivial(vp::mix(shape, big));
  calm(what);
  srv.check_alive();
  open_gate();
  net::Conn c; net::Resp r;
  c.tls = o.tls;
  if (!c.connect(srv.host, srv.port)) vp::fail("not-accepted", "no connection: " + what);
  c.send(net::request(net::call_xml("echo", "z"), true));
  net::Conn::RR rr = c.read(r);
  VP_CHECK(rr == net::Conn::OK && r.code == 200, "not-served", std::string("a further client gets no answer (") + net::Conn::name(rr) + "): " + what);
  calm("after " + what);
}

// a client that waits
static void client(Src& s)
{
  bool tls = s.chance(1, 3), proxy = s.chance(1, 3), keep = s.chance(1, 2), timeout = s.chance(1, 2);
  net::tls_setup(tls);
  // where the server falls silent: 0 before accepting the TLS handshake or the tunnel, 1 before the answer, 2 within its header, 3 within its body, 4 while the request is sent
  unsigned where = (unsigned)s.draw(5);
  size_t big = where == 4 ? 8000000 : 10 + s.draw(100000);
  std::string what = std::string("client ") + (tls ? "https" : "http") + (proxy ? " proxy" : "") + (keep ? " keep" : "") + (timeout ? " timeout" : "") + ", silent at " + std::to_string(where);
  s.note(what);
  s.label("client:" + std::to_string(where));
  std::atomic<bool> silent(false), go_on(false);
  int lfd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
  int port = net::next_port(), one = 1;
  setsockopt(lfd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
  sockaddr_in a = net::addr_of(net::ip(), port);
  if (bind(lfd, (sockaddr*)&a, sizeof a) || listen(lfd, 5)) { close(lfd); throw vp::Discard(); }
  std::thread peer([&] {
    pollfd p = { lfd, POLLIN, 0 };
    if (::poll(&p, 1, 20000) != 1) return;
    int fd = accept(lfd, 0, 0);
    fcntl(fd, F_SETFL, O_NONBLOCK);
    std::atomic<bool> over(false);
    fake::Peer q(fd, 0, port, &over);
    auto wait = [&] { silent = true; double end = vp::now() + 60; while (!go_on && vp::now() < end) usleep(5000); };
    if (where == 0) { wait(); return; }
    fake::Req r; std::string err;
    if (tls && proxy) { if (fake::read_request(q, r, err, false) != 1) return; q.send("HTTP/1.0 200 OK\r\n\r\n"); }
    if (tls && !q.handshake()) return;
    if (where == 4) { wait(); return; }
    if (fake::read_request(q, r, err) != 1) return;
    if (where == 1) { wait(); return; }
    std::string x = fake::result_xml("r");
    std::string resp = "HTTP/1.0 200 OK\r\nContent-Type: text/xml\r\nContent-Length: " + std::to_string(x.size()) + "\r\n\r\n" + x;
    size_t h = resp.find("\r\n\r\n") + 4;
    q.send(resp.substr(0, where == 2 ? 1 + h / 2 : h + x.size() / 2));
    wait();
  });
  std::atomic<bool> ended(false);
  std::thread caller([&] {
    iqnet::Inet_addr to(net::ip(), port), far(net::ip(), 1);
    std::unique_ptr<Client_base> c;
    if (tls) c.reset(new Client<Https_client_connection>(proxy ? far : to)); else c.reset(new Client<Http_client_connection>(proxy ? far : to));
    if (proxy) c->set_proxy(to);
    c->set_keep_alive(keep);
    if (timeout) c->set_timeout(40);
    try { c->execute("m", Value(std::string(big, 'q'))); } catch (const std::exception&) {}
    ended = true;
  });
  struct End { std::thread &a, &b; std::atomic<bool>& go; int fd; ~End() { go = true; a.join(); b.join(); close(fd); } } end = { peer, caller, go_on, lfd };
  double t = vp::now() + net::LONG;
  while (!silent && vp::now() < t) usleep(500);
  VP_CHECK(silent, "no-request", "the client does not send its request: " + what);
  s.nontrivial(vp::mix(vp::hash64(what), big));
  usleep(5000);
  calm(what);
  VP_CHECK(!ended, "gave-up", "the call ended while the server was silent: " + what);
}

int main(int argc, char** argv)
{
  vp::Config c;
  c.id = "C47";
  c.props = { { "server", server, 3 }, { "client", client, 1 } };
  c.nondeterministic = true;
  c.worker_init = net::small_stacks;
  c.workers = 10;
  c.case_timeout = 200;
  return vp::main_impl(argc, argv, c);
}
