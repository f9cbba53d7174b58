// C30: HTTPS calls through a CONNECT proxy
#include "fake.h"

using namespace iqxmlrpc;
using vp::Src;

enum Kind { GOOD, STATUS, CLOSES, DAMAGED, NKINDS };
static const char* kname[] = { "tunnel", "refused with a status", "closed", "damaged answer" };

struct Plan { int kind; bool keep, timeout; int code; std::string head; std::vector<std::string> pieces; unsigned pause; size_t stop; bool reset; size_t big; };

struct State {
  std::string path;
  std::vector<Plan> plans;
  std::atomic<int> current;
  std::mutex mx;
  std::vector<std::string> errors, connects;
  std::vector<int> seen;
  std::string leaked;                     // bytes that reached the proxy outside of TLS after its answer
  State(): current(0) {}
};

static void serve(State& st, fake::Peer& p)
{
  fake::Req r; std::string err;
  int got = fake::read_request(p, r, err, false);
  if (got == 0) return;
  int id = st.current;
  {
    std::lock_guard<std::mutex> l(st.mx);
    if (got < 0) { st.errors.push_back(err); return; }
    if (!p.buf.empty()) { st.errors.push_back("bytes after the CONNECT request before it was answered"); return; }
    st.connects.push_back(r.line);
  }
  Plan& pl = st.plans[id];
  size_t sent = 0;
  for (auto& x0 : pl.pieces) {
    std::string x = x0;
    if (pl.kind == CLOSES && sent + x.size() > pl.stop) x.resize(pl.stop - sent);
    if (!x.empty() && !p.send(x)) return;
    sent += x.size();
    if (pl.pause) usleep(pl.pause);
  }
  if (pl.kind == CLOSES) { if (pl.reset) p.reset(); return; }
  if (pl.kind == STATUS || pl.kind == DAMAGED) {
    p.buf.clear();
    double end = vp::now() + (pl.kind == STATUS ? 5 : 0);
    while (p.fill(end) > 0) {}
    std::lock_guard<std::mutex> l(st.mx);
    if (pl.kind == STATUS) st.leaked += p.buf;
    return;
  }
  if (!p.handshake()) return;
  for (;;) {
    got = fake::read_request(p, r, err);
    if (got == 0) return;
    int k;
    {
      std::lock_guard<std::mutex> l(st.mx);
      if (got < 0) { if (!p.eof && !p.broken) st.errors.push_back(err); return; }
      size_t a = r.body.find("id-");
      if (a == std::string::npos) { st.errors.push_back("foreign request"); return; }
      k = atoi(r.body.c_str() + a + 3);
      ++st.seen[k];
      if (r.line.find("POST " + st.path + " ") != 0) st.errors.push_back("request line in the tunnel " + vp::quote(r.line));
    }
    std::string body = fake::result_xml("R" + std::to_string(k) + "-" + std::string(st.plans[k].big, 'b'));
    bool keep = r.get("connection") == "keep-alive";
    if (!p.send("HTTP/1.1 200 OK\r\nConnection: " + std::string(keep ? "keep-alive" : "close") + "\r\nContent-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body)) return;
    if (!keep) { p.hold(); return; }
  }
}

static void prop(Src& s)
{
  net::tls_setup(true);
  State st;
  size_t n = 1 + s.draw(6);
  uint64_t hash = 0;
  for (size_t i = 0; i < n; ++i) {
    Plan p;
    p.kind = (int)s.weighted({ 6, 2, 1, 1 });
    p.keep = s.chance(1, 2); p.timeout = s.chance(1, 3); p.reset = s.chance(1, 3); p.pause = s.chance(1, 3) ? 1 + (unsigned)s.draw(500) : 0;
    p.big = s.chance(1, 4) ? s.draw(300000) : s.draw(50);
    static const int cs[] = { 407, 403, 500, 502, 404, 201, 301, 100 };
    p.code = p.kind == STATUS ? cs[s.draw(8)] : 200;
    p.head = std::string("HTTP/1.") + (s.chance(1, 2) ? "0 " : "1 ") + std::to_string(p.code) + (s.chance(1, 2) ? " Connection established" : " OK") + "\r\n";
    for (size_t k = s.draw(4); k; --k) p.head += "Y-" + hg::token(s, 8) + ": " + hg::value(s, 20) + "\r\n";
    if (s.draw(5) == 4) p.head += "Content-Length: 0\r\n";
    p.head += "\r\n";
    if (p.kind == DAMAGED) p.head = s.chance(1, 2) ? gen::bytes(s, 30, 100) : "HTTP/1.0 200 OK\r\nno colon\r\n\r\n";
    p.stop = p.kind == CLOSES ? s.draw(p.head.size()) : 0;
    p.pieces = hg::cut(s, p.head);
    hash = vp::mix(hash, vp::hash64(p.head, p.kind * 4 + p.keep * 2 + p.pieces.size()));
    if (s.describing()) s.note(std::string(kname[p.kind]) + (p.keep ? " keep-alive " : " ") + std::to_string(p.pieces.size()) + " pieces " + vp::quote(p.head, 100));
    st.plans.push_back(p);
  }
  st.seen.resize(n);
  fake::Server proxy([&st](fake::Peer& p) { serve(st, p); });
  proxy.listen();
  std::string host = s.chance(1, 4) ? "localhost" : net::ip(1); int port = 1 + (int)s.draw(65000);   // nothing listens there
  std::unique_ptr<Client_base> clp = net::client(s, true, iqnet::Inet_addr(host, port), &st.path);
  Client_base& cl = *clp;
  cl.set_proxy(proxy.addr());
  bool tunnel = false, last_failed = false;
  for (size_t i = 0; i < n; ++i) {
    Plan& p = st.plans[i];
    st.current = (int)i;
    size_t before; { std::lock_guard<std::mutex> l(st.mx); before = st.connects.size(); }
    std::string err, text; bool done = false, raised = false;
    std::mutex mx; std::condition_variable cv;
    std::thread t([&] {
      std::string e, x; bool ra = false;
      try {
        cl.set_keep_alive(p.keep);
        cl.set_timeout(p.timeout ? 30 : -1);
        Param_list pl; pl.push_back(Value("id-" + std::to_string(i)));
        Response r = cl.execute("m", pl);
        if (r.is_fault()) e = "fault " + r.fault_string(); else x = r.value().get_string();
      } catch (const std::exception& ex) { ra = true; e = ex.what(); }
      std::lock_guard<std::mutex> l(mx); err = e; text = x; raised = ra; done = true; cv.notify_all();
    });
    {
      std::unique_lock<std::mutex> l(mx);
      VP_CHECK(cv.wait_for(l, std::chrono::seconds((long)net::LONG + 10), [&] { return done; }), "hang", std::string("call ") + std::to_string(i) + " (" + kname[p.kind] + ") does not return");
    }
    t.join();
    std::string where = "call " + std::to_string(i) + " (" + kname[p.kind] + (p.keep ? ", keep-alive" : "") + ")";
    bool fresh = !tunnel || !p.keep;
    std::lock_guard<std::mutex> l(st.mx);
    VP_CHECK(st.errors.empty(), "protocol", where + ": " + st.errors[0]);
    size_t made = st.connects.size() - before;
    VP_CHECK(fresh ? made == 1 : made == 0, "tunnels", where + ": " + std::to_string(made) + " CONNECT requests");
    if (made) { std::string want = "CONNECT " + host + ":" + std::to_string(port) + " HTTP/1."; VP_CHECK(st.connects.back().compare(0, want.size(), want) == 0, "line", where + ": request line " + vp::quote(st.connects.back()) + " instead of " + want); }
    if (p.kind == GOOD || !fresh) {
      VP_CHECK(!raised && text == "R" + std::to_string(i) + "-" + std::string(p.big, 'b'), "call", where + (fresh ? "" : " in the kept tunnel") + " fails: " + err + vp::quote(text, 60) + (last_failed ? " (after a failed call)" : ""));
      VP_CHECK(st.seen[i] == 1, "requests", where + ": " + std::to_string(st.seen[i]) + " requests");
      tunnel = p.keep; last_failed = false;
    } else {
      VP_CHECK(raised, "made-up", where + " returned " + vp::quote(text, 60));
      VP_CHECK(st.seen[i] == 0, "requests", where + ": a request was sent");
      tunnel = false; last_failed = true;
    }
    s.label(kname[p.kind]); if (!fresh) s.label("kept tunnel");
  }
  cl.set_keep_alive(false);
  proxy.finish();
  VP_CHECK(st.leaked.empty(), "leak", "bytes sent to a proxy that refused: " + vp::quote(st.leaked));
  s.nontrivial(hash);
}

int main(int argc, char** argv)
{
  vp::Config c;
  c.id = "C30";
  c.props = { { "tunnel", prop, 1 } };
  c.hard_fail = true;
  c.worker_init = net::small_stacks;
  c.nondeterministic = true;
  c.case_timeout = 150;
  return vp::main_impl(argc, argv, c);
}
