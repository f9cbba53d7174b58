// C22: a client call returns the answer to that call or raises, and the client recovers
#include "fake.h"

using namespace iqxmlrpc;
using vp::Src;

enum Kind { ANSWER, FAULT, STATUS, BAD_XML, DAMAGED, CUT, NO_ANSWER, SILENT, REFUSED, BAD_HELLO, NKINDS };
static const char* kname[] = { "answer", "fault", "error status", "bad xml", "damaged response", "cut response", "no answer", "silence", "connection refused", "broken connection setup" };

struct Plan {
  int kind; bool keep; int timeout;          // client: keep-alive, timeout
  bool says_keep, closes, reset, late;       // server
  std::string text, want;                    // bytes sent, string of the answer
  std::vector<std::string> pieces; unsigned pause; size_t stop; int code; size_t in;
};

struct State {
  std::vector<Plan> plans;
  bool tls;
  std::atomic<int> current, finished;
  std::mutex mx;
  std::vector<int> seen;                     // requests received per call
  State(): tls(false), current(-1), finished(-1) {}
};

// serves one connection by the plans of the calls that arrive on it
static void serve(State& st, fake::Peer& p)
{
  int at = st.current;
  if (at >= 0 && st.plans[at].kind == BAD_HELLO) {
    Plan& pl = st.plans[at];
    if (pl.stop) { double end = vp::now() + 5; while (p.buf.size() < pl.stop && p.fill(end) > 0) {} }
    p.send(pl.text);
    if (pl.reset) p.reset();
    return;
  }
  if (st.tls && !p.handshake()) return;
  for (;;) {
    int cur = st.current;
    if (cur >= 0 && st.plans[cur].kind == NO_ANSWER && st.plans[cur].in) {   // goes away in the middle of the request
      double end = vp::now() + 5;
      while (p.buf.size() < st.plans[cur].in && p.fill(end) > 0) { cur = st.current; if (st.plans[cur].kind != NO_ANSWER) break; }
      if (st.plans[cur].kind == NO_ANSWER && p.buf.size() >= st.plans[cur].in) { if (st.plans[cur].reset) p.reset(); return; }
    }
    fake::Req r; std::string err;
    int got = fake::read_request(p, r, err);
    if (got == 0) return;
    VP_CHECK(got > 0 || p.eof || p.broken, "request", "the client sent a malformed request: " + err);
    if (got < 0) return;
    size_t a = r.body.find("id-");
    VP_CHECK(a != std::string::npos, "request", "the client sent a foreign request: " + vp::quote(r.body));
    int id = atoi(r.body.c_str() + a + 3);
    VP_CHECK(id >= 0 && id < (int)st.plans.size(), "request", "foreign request");
    { std::lock_guard<std::mutex> l(st.mx); ++st.seen[id]; }
    Plan& pl = st.plans[id];
    size_t sent = 0;
    switch (pl.kind) {
    case REFUSED: case BAD_HELLO:            // on a kept connection
    case NO_ANSWER: if (pl.reset) p.reset(); return;
    case SILENT:
      while (st.finished < id && !*p.over) usleep(500);
      if (pl.late) { p.send(pl.text); p.hold(); }
      return;
    default:
      for (auto& piece : pl.pieces) {
        std::string x = piece;
        if (pl.kind == CUT && sent + x.size() > pl.stop) x.resize(pl.stop - sent);
        if (!x.empty() && !p.send(x)) return;
        sent += x.size();
        if (pl.kind == CUT && sent >= pl.stop) { if (pl.reset) p.reset(); return; }
        if (pl.pause) usleep(pl.pause);
      }
      if (pl.kind == CUT || pl.closes) { if (pl.reset) p.reset(); return; }
    }
  }
}

static std::string header(Src& s, int code, size_t len, bool says_keep)
{
  std::string nl = s.draw(12) == 11 ? "\n" : "\r\n";
  std::string o = std::string("HTTP/1.") + (s.chance(1, 2) ? "0 " : "1 ") + std::to_string(code) + (s.draw(4) == 3 ? "" : " Some phrase") + nl;
  std::vector<std::string> l;
  l.push_back(hg::recase(s, "content-length") + ":" + hg::pad(s) + std::to_string(len));
  if (says_keep) l.push_back(hg::recase(s, "connection") + ": keep-alive"); else if (s.chance(1, 2)) l.push_back(hg::recase(s, "connection") + ": close");
  if (s.chance(2, 3)) l.push_back(hg::recase(s, "content-type") + ": text/xml");
  for (size_t k = s.draw(3); k; --k) { std::string n = "Y-" + hg::token(s, 8); l.push_back(n + ": " + hg::value(s, 20)); }
  size_t rot = s.draw(l.size());
  for (size_t i = 0; i < l.size(); ++i) o += l[(i + rot) % l.size()] + nl;
  return o + nl;
}

struct Outcome { bool done; bool raised, timeout; std::string what; bool fault; int code; std::string text; bool str; };

static void prop(Src& s)
{
  State st;
  st.tls = s.chance(1, 4);
  net::tls_setup(st.tls);
  size_t n = 2 + s.draw(7);
  int silent = 0;
  uint64_t hash = st.tls;
  bool bad_any = false;
  for (size_t i = 0; i < n; ++i) {
    Plan p;
    p.kind = (int)s.weighted({ 10, 2, 2, 2, 2, 4, 3, 1, 1, 1 });
    if (p.kind == SILENT && ++silent > 1) p.kind = ANSWER;
    p.keep = s.chance(1, 2); p.timeout = p.kind == SILENT ? 1 : s.chance(1, 4) ? 30 : -1;
    p.says_keep = p.kind == SILENT ? true : s.chance(1, 2); p.closes = !p.says_keep ? s.chance(2, 3) : s.draw(8) == 7;
    p.reset = s.chance(1, 3); p.late = s.chance(3, 4); p.pause = s.chance(1, 3) ? 1 + (unsigned)s.draw(400) : 0;
    p.stop = 0; p.in = 0;
    if (p.kind == ANSWER || p.kind == FAULT) p.reset = false;   // a reset could destroy what was sent
    p.code = 200;
    p.want = "R" + std::to_string(i) + "-";
    if (s.chance(1, 3)) {
      size_t k = s.draw(200000, [](vp::Rng& r) -> uint64_t { return r.chance(1, 2) ? r.below(3000) : r.chance(1, 2) ? 65536 - r.below(600) : r.below(200000); });
      p.want += std::string(k, (char)('a' + i));
    }
    std::string body = p.kind == FAULT ? fake::fault_xml((int)i + 100, p.want) : fake::result_xml(p.want);
    if (p.kind == STATUS) { static const int cs[] = { 500, 404, 301, 201, 401, 403, 204, 100, 199, 599, 999, 0 }; p.code = cs[s.draw(12)]; if (s.chance(1, 2)) body = "<html/>"; }
    if (p.kind == BAD_XML) {
      switch (s.draw(5)) {
      case 0: body.clear(); break;
      case 1: body.resize(s.draw(body.size())); break;
      case 2: body = "<?xml version=\"1.0\"?><methodResponse><params></params></methodResponse>"; break;
      case 3: body = gen::bytes(s, 40, 100); break;
      default: body = net::call_xml("echo", p.want);
      }
    }
    std::string head = header(s, p.code, body.size(), p.says_keep);
    if (p.kind != FAULT && s.draw(6) == 5) {   // the whole response fills the read buffer exactly
      size_t total = 65536 * (1 + s.draw(2));
      if (p.kind == ANSWER && head.size() + body.size() < total) {
        for (int k = 0; k < 4 && head.size() + body.size() != total; ++k) {
          p.want += std::string(total - head.size() - body.size(), 'z');
          body = fake::result_xml(p.want);
          size_t c = hg::lower(head).find("\ncontent-length:");
          size_t d = head.find_first_of("0123456789", c), e = head.find_first_not_of("0123456789", d);
          std::string old = head;
          head = head.substr(0, d) + std::to_string(body.size()) + head.substr(e);
          if (head.size() + body.size() > total) { size_t over = head.size() + body.size() - total; p.want.resize(p.want.size() - over); body = fake::result_xml(p.want); head = old.substr(0, d) + std::to_string(body.size()) + old.substr(e); }
        }
      }
    }
    p.text = head + body;
    switch (p.kind) {
    case DAMAGED:
      for (size_t k = 1 + s.draw(4); k; --k) {
        size_t at = s.draw(std::min<size_t>(p.text.size(), head.size() + 200));
        switch (s.draw(3)) { case 0: p.text[at] = (char)s.draw(256); break; case 1: p.text.erase(at, 1 + s.draw(30)); break; default: p.text.insert(at, gen::bytes(s, 10, 20)); }
        if (p.text.empty()) p.text = "x";
      }
      p.closes = true;                       // whatever the length says now, the stream ends
      break;
    case CUT: p.stop = s.draw(p.text.size()); break;
    case NO_ANSWER: p.in = s.chance(1, 2) ? 1 + s.draw(300) : 0; break;
    case BAD_HELLO: p.text = s.chance(1, 2) ? gen::bytes(s, 30, 2000) : st.tls ? p.text : std::string("\x16\x03\x01\x00\x05hello", 10); p.stop = s.chance(1, 2) ? 1 : 0; break;
    case STATUS: if (p.code == 100 || p.code == 199) p.closes = true; break;
    }
    p.pieces = hg::cut(s, p.text);
    if (p.pieces.size() > 60) p.pause = p.pause ? 1 : 0;
    if (p.text.size() > 65536 && s.chance(1, 2)) {   // the client's buffer is full, and the rest comes later
      p.pieces.clear();
      for (size_t a = 0; a < p.text.size(); a += 65536) p.pieces.push_back(p.text.substr(a, 65536));
      p.pause = 2000;
    }
    st.plans.push_back(p);
    hash = vp::mix(hash, vp::mix(p.kind * 64 + p.keep * 32 + p.says_keep * 16 + p.closes * 8 + p.reset * 4 + (p.pieces.size() > 1), p.stop));
    if (s.describing()) s.note(std::string(kname[p.kind]) + (p.keep ? " keep-alive" : "") + (p.says_keep ? ", server keeps" : "") + (p.closes ? ", server closes" : "") + (p.reset ? " (reset)" : "") + " " + std::to_string(p.pieces.size()) + " pieces" + (p.kind == CUT ? " cut at " + std::to_string(p.stop) : "") + " of " + std::to_string(p.text.size()) + (p.kind == DAMAGED || p.kind == STATUS || p.kind == BAD_XML ? ": " + vp::quote(p.text, 200) : ""));
  }
  st.seen.resize(n);
  s.note(st.tls ? "https" : "http");
  fake::Server srv([&st](fake::Peer& p) { serve(st, p); });
  srv.listen();
  std::unique_ptr<Client_base> cl = net::client(s, st.tls, srv.addr());
  // doubt: the server dropped the connection that the client may still hold without having announced it
  bool cached = false, doubt = false;
  size_t ok = 0, failed = 0, recovered = 0; bool last_failed = false;
  for (size_t i = 0; i < n; ++i) {
    Plan& p = st.plans[i];
    if (p.kind == REFUSED) { srv.unlisten(); bad_any = true; }
    st.current = (int)i;
    Outcome o; o.done = o.raised = o.timeout = o.fault = o.str = false; o.code = 0;
    std::mutex mx; std::condition_variable cv;
    std::thread t([&] {
      Outcome r; r.done = true; r.raised = r.timeout = r.fault = r.str = false; r.code = 0;
      try {
        cl->set_keep_alive(p.keep);
        cl->set_timeout(p.timeout);
        Param_list pl; pl.push_back(Value("id-" + std::to_string(i)));
        Response x = cl->execute("m", pl);
        r.fault = x.is_fault();
        if (r.fault) { r.code = x.fault_code(); r.text = x.fault_string(); }
        else if (x.value().is_string()) { r.str = true; r.text = x.value().get_string(); }
      }
      catch (const Client_timeout& e) { r.raised = r.timeout = true; r.what = e.what(); }
      catch (const std::exception& e) { r.raised = true; r.what = e.what(); }
      std::lock_guard<std::mutex> l(mx); o = r; cv.notify_all();
    });
    {
      std::unique_lock<std::mutex> l(mx);
      VP_CHECK(cv.wait_for(l, std::chrono::seconds((long)net::LONG + 10), [&] { return o.done; }), "hang", std::string("call ") + std::to_string(i) + " (" + kname[p.kind] + ") does not return");
    }
    t.join();
    st.finished = (int)i;
    if (p.kind == REFUSED) srv.listen();
    bool had = cached && p.keep;             // the call went to the connection of an earlier one
    std::string where = "call " + std::to_string(i) + " (" + kname[p.kind] + (st.tls ? ", https" : ", http") + (p.keep ? ", keep-alive" : "") + ")";
    if (!o.raised) {
      VP_CHECK(p.kind == ANSWER || p.kind == FAULT || p.kind == DAMAGED, "made-up", where + " returned " + vp::quote(o.text, 100) + " though the server sent no complete answer");
      if (p.kind == ANSWER) VP_CHECK(!o.fault && o.str && o.text == p.want, "wrong-answer", where + " returned " + vp::quote(o.text, 100) + ", sent was " + vp::quote(p.want, 100));
      if (p.kind == FAULT) VP_CHECK(o.fault && o.code == (int)i + 100 && o.text == p.want, "wrong-answer", where + " returned a wrong fault " + vp::quote(o.text, 100));
      if (p.kind == DAMAGED) for (size_t k = 0; k < n; ++k) VP_CHECK(k == i || o.text.compare(0, st.plans[k].want.size(), st.plans[k].want) || st.plans[k].want.size() < 3, "stale", where + " returned the answer to call " + std::to_string(k));
      if (p.kind != DAMAGED) { std::lock_guard<std::mutex> l(st.mx); VP_CHECK(st.seen[i] == 1, "requests", where + ": the server received the request " + std::to_string(st.seen[i]) + " times"); }
      ++ok; if (last_failed) ++recovered;
      last_failed = false;
      cached = p.keep && p.says_keep && p.kind != DAMAGED;
      doubt = cached && p.closes;
      if (p.kind == DAMAGED) { cached = p.keep; doubt = true; }
    } else {
      bool healthy = !had || !doubt;
      VP_CHECK(!((p.kind == ANSWER || p.kind == FAULT) && healthy), "refused-answer", where + " raised '" + o.what + "' though the server answered properly" + (last_failed ? " (after a failed call)" : "") + (had ? " on a kept connection" : ""));
      if (p.kind == SILENT && healthy) VP_CHECK(o.timeout, "no-timeout", where + " raised '" + o.what + "' instead of the timeout");
      ++failed; bad_any = true; last_failed = true;
      cached = doubt = false;
    }
    s.label(kname[p.kind]);
  }
  cl.reset();
  srv.finish();
  s.label(st.tls ? "https" : "http"); if (recovered) s.label("recovered after a failure"); if (cached) s.label("kept connection");
  if (bad_any || n > 1) s.nontrivial(hash);
}

// a host name that does not resolve leads nowhere, however often it is tried
static void unresolved(Src& s)
{
  fake::Server srv([](fake::Peer& p) {
    fake::Req r; std::string err;
    if (fake::read_request(p, r, err) > 0) { std::string b = fake::result_xml("x"); p.send("HTTP/1.1 200 OK\r\ncontent-type: text/xml\r\ncontent-length: " + std::to_string(b.size()) + "\r\n\r\n" + b); }
  });
  srv.host = "127.0.0.1";
  srv.port = 20000 + (getpid() * 7 + (int)s.draw(64)) % 12000;
  srv.listen();
  size_t n = 1 + s.draw(4);
  bool keep = s.chance(1, 2), proxy = s.chance(1, 4), again = s.chance(1, 2);
  s.note(std::to_string(n) + " calls" + (keep ? " keep-alive" : "") + (proxy ? " by proxy" : "") + (again ? ", then the right address" : ""));
  iqnet::Inet_addr bad("no such host" + std::string(s.draw(3), 'x'), srv.port);
  Client<Http_client_connection> c(proxy ? srv.addr() : bad);
  if (proxy) c.set_proxy(bad);
  c.set_keep_alive(keep); c.set_timeout(20);
  for (size_t i = 0; i < n; ++i) {
    bool raised = false;
    try { c.execute("m", Param_list()); } catch (const std::exception&) { raised = true; }
    VP_CHECK(raised && !srv.accepted, "made-up", "call " + std::to_string(i) + " to a host that does not resolve reached another one");
  }
  if (again && proxy) {
    c.set_proxy(srv.addr());
    try { Response r = c.execute("m", Param_list()); VP_CHECK(!r.is_fault() && r.value().get_string() == "x", "wrong-answer", "wrong answer"); }
    catch (const std::exception& e) { vp::fail("refused-answer", std::string("the call with a proper proxy failed: ") + e.what()); }
  }
  srv.finish();
  s.label("unresolved name");
  s.nontrivial(vp::mix(n, keep * 4 + proxy * 2 + again));
}

int main(int argc, char** argv)
{
  vp::Config c;
  c.id = "C22";
  c.props = { { "client", prop, 30 }, { "unresolved", unresolved, 1 } };
  c.hard_fail = true;
  c.worker_init = net::small_stacks;
  c.nondeterministic = true;
  c.workers = 16;
  c.case_timeout = 150;
  return vp::main_impl(argc, argv, c);
}
