// C20: no client behaviour can take the server down or disturb other clients
#include "net.h"
#include <sstream>
#include <sys/resource.h>

using namespace iqxmlrpc;
using vp::Src;

static std::string garbage(Src& s)
{
  switch (s.draw(10)) {
  case 8: {   // an odd first line before an ordinary header and content
    static const char* l[] = { "POST", "POST ", " POST / HTTP/1.1", "POST\t/", "", " ", "\t", "POST  /  HTTP/9", "POST / HTTP/1.1 more words", "POST /\xff", "HTTP/1.1 200 OK", "POST:" };
    std::string t = net::request(net::call_xml("echo", "hostile"), s.chance(1, 2));
    return l[s.draw(sizeof l / sizeof *l)] + t.substr(t.find("\r\n")); }
  case 0: return gen::bytes(s, 60, 100000);
  case 1: return "POST / HTTP/1.1\r\n" + std::string(s.draw(200000), 'h');
  case 2: return std::string(1 + s.draw(50), '\n') + "POST";
  case 3: return "\r\n\r\n";
  case 4: return "POST / HTTP/1.1\r\nContent-Length: 4294967295\r\n\r\nxx";
  case 5: { std::string o = "POST / HTTP/1.1\r\n"; for (size_t k = s.draw(300); k; --k) o += "H" + std::to_string(k) + ": v\r\n"; return o + "\r\n"; }
  case 6: return std::string(1 + s.draw(40), '\0');
  case 7: return "GET / HTTP/1.0\r\n\r\n" + std::string(s.draw(100000), 'x');
  default: { // a request with bytes replaced, removed or doubled
    std::string t = net::request(net::call_xml("echo", "hostile"), s.chance(1, 2));
    for (size_t k = 1 + s.draw(6); k; --k) {
      size_t p = s.draw(t.size());
      switch (s.draw(3)) { case 0: t[p] = (char)s.draw(256); break; case 1: t.erase(p, 1 + s.draw(20)); break; default: t.insert(p, t.substr(s.draw(t.size()), s.draw(40))); }
      if (t.size() < 2) break;
    }
    return t; }
  }
}

static void tamper(net::Conn& c, Src& s, std::string& d)
{
  switch (s.draw(4)) {
  case 0: d += " close"; c.close(); break;
  case 1: d += " reset"; c.reset(); break;
  case 2: d += " half-close"; c.half_close(); break;
  default: d += " left open"; break;
  }
}

static void prop(Src& s)
{
  net::Options o;
  o.tls = s.chance(1, 4);
  o.pool = s.chance(1, 2) ? 1 + (unsigned)s.draw(3) : 0;
  net::Log log;
  std::ostringstream err;
  net::Srv srv(o);
  net::add_echo(*srv.s, log);
  srv.s->register_method("slow", new net::Fn_factory([](Method*, const Param_list& p, Value& r) { usleep((useconds_t)atol(p[0].get_string().c_str())); r = "done"; }));
  srv.s->register_method("big", new net::Fn_factory([](Method*, const Param_list& p, Value& r) { r = std::string((size_t)atol(p[0].get_string().c_str()), 'B'); }));
  if (s.chance(1, 2)) srv.s->log_errors(&err);
  if (s.chance(1, 4)) srv.s->set_max_request_sz(50000);
  srv.start_and_wait();
  s.note(std::string(o.tls ? "https" : "http") + " pool " + std::to_string(o.pool));
  net::Conn good;
  good.tls = o.tls;
  int seq = 0;
  auto call = [&](const char* when) {
    bool fresh = good.fd >= 0 && s.chance(1, 3);
    if (fresh) good.close();
    if (good.fd < 0) VP_CHECK(good.connect(srv.host, srv.port), "not-listening", "a well-behaved client cannot connect");
    std::string id = "good" + std::to_string(seq++);
    good.send(net::request(net::call_xml("echo", id), true));
    net::Resp a;
    net::Conn::RR rr = good.read(a);
    srv.check_alive();
    VP_CHECK(rr == net::Conn::OK && a.code == 200, "disturbed", std::string("a well-behaved client gets no answer ") + when + ": " + (rr == net::Conn::OK ? std::to_string(a.code) : net::Conn::name(rr)));
    net::Answer w = net::answer(a.body);
    VP_CHECK(!w.fault && w.text == "R" + id, "disturbed", "a well-behaved client gets a wrong answer: " + vp::quote(a.body, 200));
    VP_CHECK(good.buf.empty(), "disturbed", "a well-behaved client gets surplus bytes");
  };
  call("at first");
  size_t fds = net::count_fds();
  std::vector<std::unique_ptr<net::Conn>> bad;
  size_t n = 1 + s.draw(8);
  uint64_t hash = o.tls * 8 + o.pool;
  for (size_t i = 0; i < n; ++i) {
    std::unique_ptr<net::Conn> h(new net::Conn);
    std::string d;
    size_t kind = s.weighted({ 3, 4, 4, 3, 3, 2, 3, 1 });
    h->tls = o.tls && s.draw(5) != 4;               // sometimes plain text to a TLS port
    hash = vp::mix(hash, kind * 2 + h->tls);
    if (kind == 0) {      // many connections at once, gone at once
      size_t k = 1 + s.draw(30);
      d = "burst of " + std::to_string(k);
      std::vector<std::unique_ptr<net::Conn>> v;
      for (size_t j = 0; j < k; ++j) { v.emplace_back(new net::Conn); v.back()->connect(srv.host, srv.port); if (s.chance(1, 2)) v.back()->reset(); }
    } else if (kind == 7) {   // no descriptor left to accept with
      std::vector<int> socks;
      size_t k = 1 + s.draw(5);
      d = "descriptors exhausted for " + std::to_string(k);
      for (size_t j = 0; j < k; ++j) socks.push_back(::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0));
      rlimit old, low;
      getrlimit(RLIMIT_NOFILE, &old);
      low = old;
      // everything below the limit must be in use
      std::vector<int> fill;
      low.rlim_cur = (rlim_t)*std::max_element(socks.begin(), socks.end()) + 1;
      setrlimit(RLIMIT_NOFILE, &low);
      for (int f; (f = dup(0)) >= 0;) fill.push_back(f);
      sockaddr_in a = net::addr_of(srv.host, srv.port);
      for (int f : socks) if (::connect(f, (sockaddr*)&a, sizeof a) == 0 && s.chance(1, 2)) ::send(f, "POST", 4, MSG_NOSIGNAL);
      usleep(500 + (useconds_t)s.draw(3000));
      for (int f : fill) ::close(f);
      setrlimit(RLIMIT_NOFILE, &old);
      for (int f : socks) ::close(f);
      s.label("descriptors exhausted");
    } else {
      VP_CHECK(h->connect(srv.host, srv.port), "not-listening", "cannot connect");
      if (h->tls && kind != 6 && s.chance(3, 4)) h->handshake(5);
      switch (kind) {
      case 1: { std::string g = garbage(s); d = "garbage " + vp::quote(g, 60); h->send(hg::cut(s, g), 0); break; }
      case 2: { std::string t = net::request(net::call_xml("echo", "partial"), true); t.resize(s.draw(t.size())); d = "partial request of " + std::to_string(t.size()); h->send(t); break; }
      case 3: { d = "gone while the method runs"; h->send(net::request(net::call_xml("slow", std::to_string(s.draw(8000))), s.chance(1, 2))); if (s.chance(1, 2)) usleep((useconds_t)s.draw(2000)); break; }
      case 4: { size_t k = s.chance(1, 6) ? 3000000 + s.draw(3000000) : s.draw(500000); d = "does not read a response of " + std::to_string(k); h->send(net::request(net::call_xml("big", std::to_string(k)), s.chance(1, 2))); if (s.chance(1, 2)) usleep((useconds_t)s.draw(3000)); if (s.chance(1, 3)) h->fill(0.01); break; }
      case 5: { d = "several requests at once"; std::string t; for (size_t k = 2 + s.draw(4); k; --k) t += net::request(net::call_xml("echo", "pipelined"), s.chance(2, 3)); h->send(t); break; }
      case 6: { d = "broken handshake or nothing"; if (h->tls) { if (s.chance(1, 2)) { ERR_clear_error(); SSL_do_handshake(h->ssl); } if (s.chance(1, 2)) { SSL_free(h->ssl); h->ssl = 0; std::string g = gen::bytes(s, 40, 5000); h->send(g); } } break; }
      }
      hash = vp::mix(hash, vp::hash64(d));
      tamper(*h, s, d);
      if (h->fd >= 0 && s.chance(1, 3)) { h->fill(0.001); if (s.chance(1, 2)) { h->send(garbage(s), 1); d += " more garbage"; } }
      if (h->fd >= 0) bad.push_back(std::move(h));
    }
    s.note(d);
    s.label("kind " + std::to_string(kind));
    if (s.chance(2, 3)) call("after a hostile client");
    if (!bad.empty() && s.chance(1, 3)) { size_t k = s.draw(bad.size()); if (s.chance(1, 2)) bad[k]->reset(); bad.erase(bad.begin() + (long)k); }
  }
  call("next to hostile clients");
  bad.clear();
  call("after all hostile clients have gone");
  // everything hostile connections held is released
  double end = vp::now() + net::LONG;
  size_t left;
  while ((left = net::count_fds()) > fds && vp::now() < end) usleep(500);
  srv.check_alive();
  VP_CHECK(left <= fds, "leftover", std::to_string(left - fds) + " descriptors stay open after all hostile clients have gone:" + net::show_fds());
  log.take();
  s.label(o.tls ? "https" : "http"); s.label(o.pool ? "pool" : "serial");
  s.nontrivial(hash);
  good.close();
  srv.stop();
}

int main(int argc, char** argv)
{
  vp::Config c;
  c.id = "C20";
  c.props = { { "hostile", prop, 1 } };
  c.hard_fail = true;
  c.worker_init = net::small_stacks;
  c.nondeterministic = true;
  return vp::main_impl(argc, argv, c);
}
