// C24: a client with a timeout does not wait for ever, and does not give up on a slow but active peer
#include "fake.h"

using namespace iqxmlrpc;
using vp::Src;

enum Kind { BEFORE_ACCEPT, BEFORE_READ, BEFORE_ANSWER, IN_ANSWER, IN_HANDSHAKE, SLOW, PROMPT, IN_TUNNEL, SLOW_TUNNEL };
static const char* kname[] = { "not accepted", "request not read", "no answer", "silent in the answer", "silent in the handshake", "slow answer", "prompt answer", "silent proxy", "slow proxy" };

struct State {
  bool tls, proxy; int kind; std::vector<std::string> pieces; std::vector<double> gaps; size_t stop; size_t hello;
  std::atomic<int> calls;
  std::atomic<double> last;                  // time of the server's last activity
  std::atomic<double> silence;               // longest silence of the server in its answer
  State(): tls(false), proxy(false), kind(0), stop(0), hello(0), calls(0), last(0), silence(0) {}
};

static void answer(fake::Peer& p, const std::string& body, bool keep)
{
  p.send("HTTP/1.1 200 OK\r\nContent-Length: " + std::to_string(body.size()) + "\r\nConnection: " + (keep ? "keep-alive" : "close") + "\r\n\r\n" + body);
}

// the first 'warm' calls are answered at once
static void serve(State& st, int warm, fake::Peer& p)
{
  bool bad = st.calls >= warm;
  if (bad && st.kind == BEFORE_READ && (!st.tls || st.proxy)) { st.last = vp::now(); while (!*p.over) usleep(5000); return; }
  if (st.tls && st.proxy) {
    // the way through: CONNECT is answered in one piece or in several
    fake::Req r; std::string err;
    if (fake::read_request(p, r, err, false) != 1) return;
    st.last = vp::now();
    if (!bad || st.kind < IN_TUNNEL) { if (!p.send("HTTP/1.0 200 Connection established\r\n\r\n")) return; st.last = vp::now(); }
    else {
      size_t n = st.kind == IN_TUNNEL ? st.stop : st.pieces.size();
      for (size_t i = 0; i < n; ++i) {
        if (i || st.kind == SLOW_TUNNEL) p.pause(st.gaps[i]);
        if (!p.send(st.pieces[i])) return;
        double t = vp::now();
        st.silence = std::max((double)st.silence, t - st.last);
        st.last = t;
      }
      if (st.kind == IN_TUNNEL) { p.hold(); return; }
    }
  }
  if (bad && st.kind == IN_HANDSHAKE) {
    double end = vp::now() + 60;
    size_t want = st.hello;
    while (want && p.buf.size() < 5 && p.fill(end) > 0) {}
    st.last = vp::now();
    while (!*p.over && !p.eof && !p.broken) p.fill(vp::now() + 60);
    return;
  }
  if (st.tls && !p.handshake()) return;
  for (;;) {
    bad = st.calls >= warm;
    if (bad && st.kind == BEFORE_READ) { st.last = vp::now(); while (!*p.over) usleep(5000); return; }
    fake::Req r; std::string err;
    if (fake::read_request(p, r, err) != 1) return;
    int k = st.calls++;
    if (k < warm || st.kind == PROMPT || st.kind >= IN_TUNNEL) { answer(p, fake::result_xml("R" + std::to_string(k)), true); continue; }
    st.last = vp::now();
    if (st.kind == BEFORE_ANSWER) { p.hold(); return; }
    size_t n = st.kind == IN_ANSWER ? st.stop : st.pieces.size();
    for (size_t i = 0; i < n; ++i) {
      if (i || st.kind == SLOW) p.pause(st.gaps[i]);
      if (!p.send(st.pieces[i])) return;
      double t = vp::now();
      st.silence = std::max((double)st.silence, t - st.last);
      st.last = t;
    }
    if (st.kind == IN_ANSWER) { p.hold(); return; }
  }
}

// time this thread has run or waited for a processor
static double own_time()
{
  unsigned long long run = 0, wait = 0;
  if (FILE* f = fopen("/proc/thread-self/schedstat", "r")) { if (fscanf(f, "%llu %llu", &run, &wait) != 2) run = wait = 0; fclose(f); }
  return (double)(run + wait) * 1e-9;
}

static void prop(Src& s)
{
  State st;
  st.tls = s.chance(1, 3);
  net::tls_setup(st.tls);
  st.proxy = s.chance(1, 3);
  st.kind = (int)s.weighted({ 2, 2, 3, 4, 1, 4, 1, (unsigned)(st.tls && st.proxy ? 5 : 0), (unsigned)(st.tls && st.proxy ? 5 : 0) });
  if (st.kind >= IN_TUNNEL && !(st.tls && st.proxy)) st.kind = IN_ANSWER;
  if (st.kind == IN_HANDSHAKE && !st.tls) st.kind = IN_ANSWER;
  int n = s.draw(4) == 3 ? 3 : st.kind == SLOW || st.kind == SLOW_TUNNEL ? 2 : 1 + (int)s.draw(2);
  bool keep = s.chance(1, 2);
  int warm = keep || s.chance(1, 3) ? (int)s.draw(3) : 0;
  if (st.kind == BEFORE_ACCEPT || st.kind == IN_HANDSHAKE) { warm = 0; }
  if (st.kind >= IN_TUNNEL && keep) warm = 0;
  size_t req = st.kind == BEFORE_READ || s.draw(5) == 4 ? 6000000 : s.draw(100);
  std::string want = "R" + std::to_string(warm), body;
  if (s.chance(1, 4)) body = fake::fault_xml(7, want); else body = fake::result_xml(want + (s.chance(1, 4) ? std::string(s.draw(100000), 'y') : ""));
  std::string text = "HTTP/1.1 200 OK\r\nContent-Length: " + std::to_string(body.size()) + "\r\nConnection: keep-alive\r\n\r\n" + body;
  if (st.kind >= IN_TUNNEL) { text = std::string("HTTP/1.") + (s.chance(1, 2) ? "0" : "1") + " 200 Connection established\r\n"; if (s.chance(1, 2)) text += "Via: p\r\n"; text += "\r\n"; }
  // pieces with silences shorter than the timeout in between
  size_t np = 2 + s.draw(5);
  size_t at = 0;
  for (size_t i = 0; i + 1 < np && at + 1 < text.size(); ++i) { size_t e = text.find("\r\n\r\n") + 4; size_t l = 1 + (s.chance(1, 2) ? s.draw(std::min<size_t>(e, text.size() - at - 1)) : s.draw(text.size() - at - 1)); l = std::min(l, text.size() - at - 1); if (!l) break; st.pieces.push_back(text.substr(at, l)); at += l; }
  st.pieces.push_back(text.substr(at));
  bool slow = st.kind == SLOW || st.kind == SLOW_TUNNEL;
  double share = slow ? 0.45 : 0.2;
  for (size_t i = 0; i < st.pieces.size(); ++i) st.gaps.push_back(share * n * (double)(s.draw(101)) / 100);
  st.stop = s.draw(st.pieces.size());
  if (slow && s.chance(2, 3)) for (auto& g : st.gaps) g = share * n;      // in total longer than the timeout
  st.hello = s.draw(2);
  // the limit itself may be very long or none, and another one may have been set before
  static const int huge[] = { 2147483, 2147484, 4294968, 8589935, 2147483647, 86400, 31536000, 2147483000 };
  int lim = n;
  if (slow || st.kind == PROMPT) switch (s.weighted({ 4, 2, 1 })) { case 1: lim = huge[s.draw(8)]; break; case 2: lim = -1; break; }
  int first = 0;
  switch (s.weighted({ 4, 1, 1, 1, 1 })) { case 1: first = 60; break; case 2: first = huge[s.draw(8)]; break; case 3: first = warm ? 10 : 1; break; case 4: first = -1; break; }
  double total = 0; for (double g : st.gaps) total += g;
  s.note(std::string(kname[st.kind]) + (st.tls ? " https" : " http") + (st.proxy ? " by proxy" : "") + " timeout " + std::to_string(lim) + (first ? " instead of " + std::to_string(first) : "") + (keep ? " keep-alive" : "") + " after " + std::to_string(warm) + " calls, " + std::to_string(st.pieces.size()) + " pieces" + (st.kind == IN_ANSWER || st.kind == IN_TUNNEL ? " silent after " + std::to_string(st.stop) : ""));
  fake::Server srv([&st, warm](fake::Peer& p) { serve(st, warm, p); });
  int lfd = -1; std::vector<int> fill;
  if (st.kind == BEFORE_ACCEPT) {
    // a listener whose queue is full does not even complete the connection
    lfd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    sockaddr_in a = net::addr_of(srv.host, srv.port);
    if (::bind(lfd, (sockaddr*)&a, sizeof a) || ::listen(lfd, 0)) { ::close(lfd); throw vp::Discard(); }
    for (int i = 0; i < 4; ++i) { int f = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0); ::connect(f, (sockaddr*)&a, sizeof a); fill.push_back(f); }
    usleep(20000);
  } else srv.listen();
  struct Out { bool done, raised, timeout; std::string what; double t0, t1, own; } o = { false, false, false, "", 0, 0, 0 };
  std::mutex mx; std::condition_variable cv;
  std::thread t([&] {
    Out r = { true, false, false, "", 0, 0, 0 };
    double own = 0;
    try {
      std::unique_ptr<Client_base> cl;
      iqnet::Inet_addr to = st.proxy ? iqnet::Inet_addr(net::ip(1), 1) : srv.addr();       // nothing listens there
      if (st.tls) cl.reset(new Client<Https_client_connection>(to)); else cl.reset(new Client<Http_client_connection>(to));
      if (st.proxy) cl->set_proxy(srv.addr());
      cl->set_keep_alive(keep);
      if (first) cl->set_timeout(first);
      for (int i = 0; i < warm; ++i) { Response x = cl->execute("m", Value("w")); if (x.is_fault() || x.value().get_string() != "R" + std::to_string(i)) throw std::runtime_error("a call before fails"); }
      cl->set_timeout(lim);
      own = own_time();
      r.t0 = vp::now();
      Response x = cl->execute("m", Value(std::string(req, 'q')));
      r.t1 = vp::now();
      r.what = x.is_fault() ? x.fault_string() : x.value().get_string();
    }
    catch (const Client_timeout& e) { r.t1 = vp::now(); r.raised = r.timeout = true; r.what = e.what(); }
    catch (const std::exception& e) { r.t1 = vp::now(); r.raised = true; r.what = e.what(); }
    r.own = own_time() - own;
    std::lock_guard<std::mutex> l(mx); o = r; cv.notify_all();
  });
  std::string where = std::string("call (") + kname[st.kind] + (st.tls ? ", https" : ", http") + (st.proxy ? ", by proxy" : "") + ", timeout " + std::to_string(lim) + " s)";
  {
    std::unique_lock<std::mutex> l(mx);
    VP_CHECK(cv.wait_for(l, std::chrono::milliseconds((long)(1000 * (net::LONG + n + total))), [&] { return o.done; }), "hang", where + " does not return");
  }
  t.join();
  double last = std::max((double)st.last, o.t0);
  if (slow || st.kind == PROMPT) {
    // with a stalled machine the silence may have been longer than planned
    if (o.timeout && lim == n && st.silence > 0.8 * n) { s.label("stalled"); srv.finish(); throw vp::Discard(); }
    VP_CHECK(!o.raised, "gave-up", where + " raised '" + o.what + "' after " + std::to_string(o.t1 - o.t0) + " s though the longest silence was " + std::to_string(share * n) + " s");
    VP_CHECK(o.what.compare(0, want.size(), want) == 0, "answer", where + " returned " + vp::quote(o.what, 60));
  } else {
    VP_CHECK(o.raised, "answer", where + " returned " + vp::quote(o.what, 60));
    VP_CHECK(o.timeout, "other-exception", where + " raised '" + o.what + "' instead of the timeout exception");
    VP_CHECK(o.t1 - o.t0 >= 0.95 * n, "early", where + " gave up after " + std::to_string(o.t1 - o.t0) + " s");
    VP_CHECK(o.t1 - last <= n + 4 + o.own, "late", where + " gave up " + std::to_string(o.t1 - last) + " s after the last activity of the server");
  }
  srv.finish();
  for (int f : fill) ::close(f);
  if (lfd >= 0) ::close(lfd);
  s.label(kname[st.kind]); s.label(st.tls ? "https" : "http"); if (warm && keep) s.label("kept connection");
  if (st.proxy) s.label("proxy");
  if (lim != n) s.label(lim < 0 ? "no timeout" : "very long timeout");
  if (first && first != lim) s.label("another timeout before");
  if (slow && total > n) s.label("slower in total than the timeout");
  if (st.kind != PROMPT) s.nontrivial(vp::mix(vp::mix(st.kind * 16 + st.proxy * 8 + st.tls * 4 + keep * 2, n * 8 + warm + 64ull * (unsigned)lim + 4099ull * (unsigned)first), vp::mix(st.pieces.size() * 16 + st.stop, text.size() ^ req)));
}

int main(int argc, char** argv)
{
  vp::Config c;
  c.id = "C24";
  c.props = { { "timeout", prop, 1 } };
  c.hard_fail = true;
  c.worker_init = net::small_stacks;
  c.nondeterministic = true;
  c.case_timeout = 120;
  c.workers = 48;
  return vp::main_impl(argc, argv, c);
}
