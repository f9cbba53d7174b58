// C43: signals the application handles disturb neither calls nor servers nor timeouts
#include "fake.h"
#include <dirent.h>
#include <signal.h>
#include <sys/syscall.h>

using namespace iqxmlrpc;
using vp::Src;

static std::atomic<long> delivered(0);
static void on_signal(int) { ++delivered; }

static void mask(int how) { sigset_t m; sigemptyset(&m); sigaddset(&m, SIGUSR1); pthread_sigmask(how, &m, 0); }

// signals reach the threads started, and the code run, while this exists
struct Open { Open() { mask(SIG_UNBLOCK); } ~Open() { mask(SIG_BLOCK); } };

static void init()
{
  net::small_stacks();
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_signal;              // without SA_RESTART
  sigaction(SIGUSR1, &sa, 0);
  mask(SIG_BLOCK);
}

// Sends a signal to every thread of the process, again and again.
class Storm {
public:
  Storm(unsigned gap_us, double secs): end_(false), th_([this, gap_us, secs] {
    pid_t me = (pid_t)syscall(SYS_gettid), pid = getpid();
    double stop = vp::now() + secs;
    while (!end_ && vp::now() < stop) {
      if (DIR* d = opendir("/proc/self/task")) {
        while (dirent* e = readdir(d)) { int t = atoi(e->d_name); if (t > 0 && t != me) syscall(SYS_tgkill, pid, t, SIGUSR1); }
        closedir(d);
      }
      for (unsigned w = 0; w < gap_us && !end_; w += 10000) usleep(std::min(gap_us - w, 10000u));
    }
  }) {}
  ~Storm() { end_ = true; th_.join(); }
private:
  std::atomic<bool> end_;
  std::thread th_;
};

static unsigned gap(Src& s) { return 100u << s.draw(7); }      // 0.1 to 6.4 ms

static void calls(Src& s)
{
  net::Options o;
  o.tls = s.chance(1, 3);
  o.pool = s.chance(1, 2) ? 1 + (unsigned)s.draw(3) : 0;
  unsigned g = gap(s), work = (unsigned)s.draw(4) * 700;
  size_t nc = 1 + s.draw(3);
  bool keep = s.chance(1, 2), timed = s.chance(2, 3);
  MOpts mo; mo.depth = (unsigned)s.draw(3); mo.width = 4; mo.big = s.chance(1, 3) ? 100000 : 0;
  std::vector<std::vector<M>> vs(nc);
  uint64_t hash = 0;
  for (auto& v : vs) for (size_t i = 0; i < 6 && (i < 1 || s.more(25)); ++i) { v.push_back(gen_value(s, mo)); hash = vp::mix(hash, vp::hash64(show(v.back()))); }
  s.note(std::string(o.tls ? "https" : "http") + " pool " + std::to_string(o.pool) + ", " + std::to_string(nc) + " clients, signals every " + std::to_string(g) + " us, " + (keep ? "keep-alive, " : "") + (timed ? "timeout" : "no timeout"));
  std::unique_ptr<net::Srv> srv;
  long before = delivered;
  { Open op; srv.reset(new net::Srv(o)); }
  srv->s->register_method("echo", new net::Fn_factory([work](Method*, const Param_list& p, Value& r) { double e = vp::now() + work * 1e-6; while (vp::now() < e) usleep(100); r = p.at(0); }));
  { Open op; srv->start_and_wait(); }
  std::vector<std::string> errs(nc);
  {
    Storm storm(g, 60);
    std::vector<std::thread> ts;
    Open op;
    for (size_t k = 0; k < nc; ++k) ts.emplace_back([&, k] {
      try {
        std::unique_ptr<Client_base> c(o.tls ? (Client_base*)new Client<Https_client_connection>(srv->addr()) : (Client_base*)new Client<Http_client_connection>(srv->addr()));
        c->set_keep_alive(keep);
        if (timed) c->set_timeout(25);
        for (auto& v : vs[k]) {
          Response r = c->execute("echo", to_value(v));
          if (r.is_fault()) { errs[k] = "fault " + r.fault_string(); return; }
          std::string d = diff(v, r.value());
          if (!d.empty()) { errs[k] = show(v) + " came back changed: " + d; return; }
        }
      } catch (const std::exception& e) { errs[k] = std::string("raised ") + e.what(); }
    });
    for (auto& t : ts) t.join();
    srv->check_alive();
    for (auto& e : errs) VP_CHECK(e.empty(), "call", "a call while signals arrive: " + e);
    srv->stop();
  }
  { Open op; srv.reset(); }
  s.label(o.tls ? "https" : "http");
  s.label(o.pool ? "pool" : "serial");
  if (delivered > before + 5) s.nontrivial(vp::mix(hash, g));
}

// a peer that stays silent: the timeout still comes, and not too early
static void timeouts(Src& s)
{
  bool tls = s.chance(1, 3);
  net::tls_setup(tls);
  enum { NO_ACCEPT, SILENT, PART } kind = (decltype(NO_ACCEPT))s.draw(3);
  unsigned g = (50u + (unsigned)s.draw(80) * 10) * 1000;       // 50 to 850 ms
  int secs = 1;
  std::string part = fake::result_xml("x");
  s.note(std::string(tls ? "https" : "http") + (kind == NO_ACCEPT ? " not accepted" : kind == SILENT ? " silent" : " silent in the answer") + ", timeout " + std::to_string(secs) + " s, signals every " + std::to_string(g / 1000) + " ms");
  fake::Server sv([&](fake::Peer& p) {
    if (kind == NO_ACCEPT) { p.hold(); return; }
    if (tls && !p.handshake()) return;
    fake::Req r; std::string err;
    if (fake::read_request(p, r, err) != 1) return;
    if (kind == PART) p.send("HTTP/1.1 200 OK\r\nContent-Length: " + std::to_string(part.size()) + "\r\n\r\n" + part.substr(0, part.size() / 2));
    p.hold();
  });
  sv.listen();
  std::string out;
  double t0, t;
  {
    Storm storm(g, 15);
    Open op;
    std::unique_ptr<Client_base> c(tls ? (Client_base*)new Client<Https_client_connection>(sv.addr()) : (Client_base*)new Client<Http_client_connection>(sv.addr()));
    c->set_timeout(secs);
    t0 = vp::now();
    try { c->execute("m", Value(1)); out = "a result"; }
    catch (const Client_timeout&) { out = "timeout"; }
    catch (const std::exception& e) { out = std::string("exception ") + e.what(); }
    t = vp::now() - t0;
  }
  sv.finish();
  char b[40]; snprintf(b, sizeof b, "%.2f s", t);
  VP_CHECK(out == "timeout", "outcome", "a silent peer gives " + out + " after " + b);
  VP_CHECK(t > secs * 0.95, "early", std::string("the timeout came after ") + b);
  VP_CHECK(t < secs + 9, "late", std::string("the timeout came after ") + b);
  s.label("timeout");
  s.nontrivial(vp::mix(g, tls * 4 + kind));
}

// an idle server, and stopping it
static void idle(Src& s)
{
  net::Options o;
  o.tls = s.chance(1, 6);
  o.pool = s.chance(1, 2) ? 1 + (unsigned)s.draw(3) : 0;
  unsigned g = gap(s), wait = (unsigned)s.draw(20) * 1000;
  s.note(std::string("pool ") + std::to_string(o.pool) + ", idle for " + std::to_string(wait / 1000) + " ms, signals every " + std::to_string(g) + " us");
  net::Log log;
  std::unique_ptr<net::Srv> srv;
  { Open op; srv.reset(new net::Srv(o)); }
  net::add_echo(*srv->s, log);
  size_t rounds = 1 + s.draw(3);
  long before = delivered;
  for (size_t i = 0; i < rounds; ++i) {
    Storm storm(g, 60);
    { Open op; srv->start(); }
    usleep(wait);
    net::Conn c; c.tls = o.tls;
    VP_CHECK(c.connect(srv->host, srv->port), "not-listening", "cannot connect to a server that gets signals");
    usleep(wait);
    c.send(net::request(net::call_xml("echo", "x"), true));
    net::Resp a;
    net::Conn::RR rr = c.read(a);
    srv->check_alive();
    VP_CHECK(rr == net::Conn::OK && net::answer(a.body).text == "Rx", "call", std::string("an answer while signals arrive: ") + net::Conn::name(rr));
    usleep(wait);
    srv->check_alive();
    srv->stop();
  }
  { Open op; srv.reset(); }
  s.label("idle");
  if (delivered > before + 2) s.nontrivial(vp::mix(vp::mix(g, wait), o.pool * 8 + rounds));
}

int main(int argc, char** argv)
{
  vp::Config c;
  c.id = "C43";
  c.props = { { "calls", calls, 8 }, { "timeouts", timeouts, 1 }, { "idle", idle, 3 } };
  c.hard_fail = true;
  c.worker_init = init;
  c.nondeterministic = true;
  return vp::main_impl(argc, argv, c);
}
