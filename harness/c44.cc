// C44: a server serves as many connections as the system lets it have, and goes on when there are no more to be had
#include "net.h"
#include <sys/resource.h>

using namespace iqxmlrpc;
using vp::Src;

static void init()
{
  net::small_stacks();
  rlimit r;
  getrlimit(RLIMIT_NOFILE, &r);
  r.rlim_cur = std::min<rlim_t>(r.rlim_max, 4096);
  setrlimit(RLIMIT_NOFILE, &r);
}

struct C { net::Conn c; size_t sent; std::string req, id; size_t served; C(): sent(0), served(0) {} };

static void ask(net::Srv& srv, C& k, const std::string& id, bool keep)
{
  k.id = id; k.req = net::request(net::call_xml("echo", id), keep); k.sent = 0;
}

static void get(net::Srv& srv, C& k, const std::string& when)
{
  net::Resp a;
  net::Conn::RR rr = k.c.read(a);
  srv.check_alive();
  VP_CHECK(rr == net::Conn::OK && a.code == 200, "no-answer", "request " + k.id + " " + when + ": " + net::Conn::name(rr) + " " + vp::quote(a.head, 200));
  net::Answer w = net::answer(a.body);
  VP_CHECK(!w.fault && w.text == "R" + k.id, "answer", "request " + k.id + " " + when + " is answered with " + vp::quote(w.text, 100));
  ++k.served; k.req.clear();
}

static void many(Src& s)
{
  net::Options o;
  o.tls = s.chance(1, 12);
  o.pool = s.chance(1, 3) ? 1 + (unsigned)s.draw(4) : 0;
  net::Log log;
  net::Srv srv(o);
  net::add_echo(*srv.s, log);
  srv.start_and_wait();
  size_t n = o.tls ? 1 + s.draw(30) : 1 + s.draw(0, [](vp::Rng& r) -> uint64_t { return r.chance(1, 8) ? r.below(700) : r.below(40); }) % 700;
  s.note(std::string(o.tls ? "https" : "http") + " pool " + std::to_string(o.pool) + ", " + std::to_string(n) + " connections");
  std::vector<std::unique_ptr<C>> cs(n);
  auto open = [&](size_t i) {
    cs[i].reset(new C);
    cs[i]->c.tls = o.tls;
    VP_CHECK(cs[i]->c.connect(srv.host, srv.port), "not-listening", "connection " + std::to_string(i) + " of " + std::to_string(n) + " is not accepted");
  };
  for (size_t i = 0; i < n; ++i) open(i);
  uint64_t hash = n * 16 + o.pool;
  size_t rounds = 1 + s.draw(4), serial = 0, asked = 0;
  unsigned pct_act = 10 + (unsigned)s.draw(91), pct_part = (unsigned)s.draw(30), pct_gone = (unsigned)s.draw(40);
  uint64_t seed = s.draw(0);
  vp::Rng rng(seed);                              // per-connection details; its seed is a drawn choice
  s.note(std::to_string(rounds) + " rounds, " + std::to_string(pct_act) + "% ask, " + std::to_string(pct_part) + "% of them send half, " + std::to_string(pct_gone) + "% leave, details " + std::to_string(seed));
  for (size_t r = 0; r < rounds; ++r) {
    std::vector<size_t> out;
    for (size_t i = 0; i < n; ++i) {
      if (!cs[i]) open(i);
      C& k = *cs[i];
      if (k.req.empty()) {
        if (rng.below(100) >= pct_act) continue;
        ask(srv, k, "q" + std::to_string(++serial), true);
      }
      size_t upto = k.req.size();
      if (rng.below(100) < pct_part && k.sent == 0) upto = 1 + rng.below(k.req.size() - 1);
      VP_CHECK(k.c.send(k.req.substr(k.sent, upto - k.sent)), "closed", "connection " + std::to_string(i) + " is closed by the server");
      k.sent = upto;
      if (upto == k.req.size()) out.push_back(i);
    }
    for (size_t i = out.size(); i > 1; --i) std::swap(out[i - 1], out[rng.below(i)]);
    for (size_t i : out) { get(srv, *cs[i], "on connection " + std::to_string(i) + " of " + std::to_string(n)); ++asked; }
    for (size_t i = 0; i < n; ++i)
      if (rng.below(100) < pct_gone) { if (rng.below(3) == 0) cs[i]->c.reset(); else cs[i]->c.close(); cs[i].reset(); }
    hash = vp::mix(hash, out.size());
  }
  std::vector<std::string> ran = log.take();
  VP_CHECK(ran.size() == asked, "executions", std::to_string(asked) + " requests were executed " + std::to_string(ran.size()) + " times");
  // those left still work
  for (size_t i = 0; i < n; ++i)
    if (cs[i] && cs[i]->req.empty()) { ask(srv, *cs[i], "z" + std::to_string(i), false); cs[i]->c.send(cs[i]->req); get(srv, *cs[i], "at the end"); }
  s.label(n >= 300 ? "300 and more" : n >= 60 ? "60 and more" : n >= 10 ? "10 and more" : "fewer than 10");
  if (n > 1 && asked) s.nontrivial(vp::mix(hash, seed));
  cs.clear();
  srv.stop();
}

// No descriptor is left when a client connects.
static void exhausted(Src& s)
{
  net::Options o;
  o.pool = s.chance(1, 3) ? 1 + (unsigned)s.draw(2) : 0;
  net::Log log;
  net::Srv srv(o);
  net::add_echo(*srv.s, log);
  srv.start_and_wait();
  size_t n = 1 + s.draw(5), late = 1 + s.draw(4), spare = s.draw(3);
  s.note(std::to_string(n) + " connections, " + std::to_string(late) + " more with descriptors for " + std::to_string(spare));
  std::vector<std::unique_ptr<C>> cs(n);
  for (size_t i = 0; i < n; ++i) {
    cs[i].reset(new C);
    VP_CHECK(cs[i]->c.connect(srv.host, srv.port), "not-listening", "cannot connect");
    ask(srv, *cs[i], "a" + std::to_string(i), true); cs[i]->c.send(cs[i]->req); get(srv, *cs[i], "before");
  }
  std::vector<int> socks;
  for (size_t i = 0; i < late; ++i) socks.push_back(socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0));
  rlimit old, low;
  getrlimit(RLIMIT_NOFILE, &old);
  // all numbers below the limit are taken
  std::vector<int> fill;
  low = old; low.rlim_cur = 256;
  setrlimit(RLIMIT_NOFILE, &low);
  for (int f; (f = dup(socks[0])) >= 0; ) fill.push_back(f);
  for (size_t i = 0; i < spare && !fill.empty(); ++i) { ::close(fill.back()); fill.pop_back(); }
  std::string err;
  sockaddr_in a = net::addr_of(srv.host, srv.port);
  for (size_t i = 0; i < late; ++i) {
    fcntl(socks[i], F_SETFL, O_NONBLOCK);
    ::connect(socks[i], (sockaddr*)&a, sizeof a);
  }
  usleep(1000 * (unsigned)s.draw(20));
  for (size_t i = 0; i < n; ++i) {
    ask(srv, *cs[i], "b" + std::to_string(i), true); cs[i]->c.send(cs[i]->req); get(srv, *cs[i], "while no descriptor is left");
  }
  for (int f : fill) ::close(f);
  setrlimit(RLIMIT_NOFILE, &old);
  srv.check_alive();
  // the late ones were refused, or are served now
  size_t served = 0;
  for (size_t i = 0; i < late; ++i) {
    C k;
    k.c.fd = socks[i];
    ask(srv, k, "c" + std::to_string(i), false);
    if (!k.c.send(k.req)) continue;
    net::Resp r;
    net::Conn::RR rr = k.c.read(r);
    srv.check_alive();
    if (rr == net::Conn::CLOSED || rr == net::Conn::RESET) continue;
    VP_CHECK(rr == net::Conn::OK && net::answer(r.body).text == "R" + k.id, "answer", "a connection made while no descriptor was left: " + std::string(net::Conn::name(rr)));
    ++served;
  }
  C k;
  VP_CHECK(k.c.connect(srv.host, srv.port), "not-listening", "cannot connect after descriptors are free again");
  ask(srv, k, "d", false); k.c.send(k.req); get(srv, k, "after descriptors are free again");
  s.label(served ? "served later" : "refused");
  s.label("out of descriptors");
  s.nontrivial(vp::mix(n * 16 + late, o.pool * 4 + spare));
  k.c.close(); cs.clear();
  srv.stop();
}

int main(int argc, char** argv)
{
  vp::Config c;
  c.id = "C44";
  c.props = { { "many", many, 5 }, { "exhausted", exhausted, 2 } };
  c.hard_fail = true;
  c.worker_init = init;
  c.nondeterministic = true;
  return vp::main_impl(argc, argv, c);
}
