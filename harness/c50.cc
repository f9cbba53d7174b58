// C50: keep-alive decides how a client uses its connections
#include "fake.h"

using namespace iqxmlrpc;
using vp::Src;

enum Kind { RESULT, FAULT, STATUS, NOT_XML, NKIND };
enum Promise { KEEP, CLOSE, NONE };
struct Plan { Kind kind; Promise pr; std::string text; bool end; std::vector<std::string> pieces; };

static Plan plan(Src& s, const std::string& id)
{
  Plan p;
  p.kind = (Kind)s.weighted({ 8, 3, 1, 1 });
  p.pr = (Promise)s.weighted({ 6, 2, 1 });
  std::string b = p.kind == FAULT ? fake::fault_xml(gen::int32(s), id) : p.kind == NOT_XML ? "no xml" : fake::result_xml(hg::grown(s, id, 100000, 20));
  static const char* first[] = { "HTTP/1.1 200 OK", "HTTP/1.0 200 OK", "HTTP/1.1 200" };
  std::vector<std::string> h = { hg::recase(s, "Content-Length") + ": " + std::to_string(b.size()) };
  if (p.pr == KEEP) h.push_back(hg::recase(s, "Connection") + ":" + hg::pad(s) + "keep-alive" + hg::pad(s));
  if (p.pr == CLOSE) h.push_back(hg::recase(s, "Connection") + ":" + hg::pad(s) + "close");
  if (s.chance(1, 2)) h.push_back("Content-Type: text/xml");
  if (s.chance(1, 3)) h.push_back("Server: " + hg::value(s));
  for (size_t i = h.size(); i-- > 1; ) std::swap(h[i], h[s.draw(i + 1)]);
  p.text = std::string(p.kind == STATUS ? "HTTP/1.1 503 Busy" : first[s.draw(3)]) + "\r\n";
  for (auto& x : h) p.text += x + "\r\n";
  p.text += "\r\n" + b;
  p.end = p.pr != KEEP && s.chance(1, 2);       // the server closes first
  p.pieces = hg::cut(s, p.text);
  if (p.pieces.size() > 20) p.pieces = std::vector<std::string>(1, p.text);
  return p;
}

static void prop(Src& s)
{
  bool tls = s.chance(1, 4), proxy = !tls && s.chance(1, 6);
  net::tls_setup(tls);
  std::mutex mx; std::condition_variable cv;
  Plan now;
  std::vector<std::pair<int, std::string>> asked;   // connection and its Connection header
  std::set<int> open; std::string trouble;
  fake::Server srv([&](fake::Peer& p) {
    { std::lock_guard<std::mutex> l(mx); open.insert(p.index); }
    if (!tls || p.handshake())
      for (;;) {
        fake::Req r; std::string err;
        int k = fake::read_request(p, r, err);
        if (k < 0 && !*p.over) { std::lock_guard<std::mutex> l(mx); trouble = err; }
        if (k <= 0) break;
        Plan a;
        { std::lock_guard<std::mutex> l(mx); asked.push_back({ p.index, r.get("connection") }); a = now; }
        for (auto& x : a.pieces) { if (!p.send(x)) break; if (a.pieces.size() > 1) usleep(50); }
        if (a.end) { p.close(); break; }
      }
    std::lock_guard<std::mutex> l(mx);
    open.erase(p.index);
    cv.notify_all();
  });
  srv.listen();
  std::unique_ptr<Client_base> cl;
  auto fresh = [&] {
    cl = net::client(s, tls, srv.addr());
    if (proxy) cl->set_proxy(srv.addr());
    cl->set_timeout(60);
  };
  fresh();
  s.note(std::string(tls ? "https" : "http") + (proxy ? " by proxy" : ""));
  // no connection but the given one remains open
  auto only = [&](int idx, const std::string& what) {
    std::unique_lock<std::mutex> l(mx);
    auto ok = [&] { return open.empty() || (open.size() == 1 && *open.begin() == idx); };
    bool fine = cv.wait_for(l, std::chrono::seconds((long)net::LONG), ok);
    VP_CHECK(fine, "stays-open", what + ": a connection that is of no use any more stays open");
    VP_CHECK(idx < 0 || open.count(idx), "closed", what + ": the connection to be kept is closed");
  };
  bool keep = s.chance(2, 3); int kept = -1;
  if (keep) { cl->set_keep_alive(true); s.note("keep-alive on"); }
  size_t n = s.chance(1, 40) ? 30 + s.draw(100) : 2 + s.draw(10), reused = 0, own = 0;
  uint64_t hash = tls * 2 + proxy;
  for (size_t i = 0; i < n; ++i) {
    switch (s.weighted({ 10, 3, 1, 2 })) {
    case 1: {
      keep = s.draw(4) != 3;
      cl->set_keep_alive(keep);
      s.note(keep ? "keep-alive on" : "keep-alive off");
      if (!keep) kept = -1;
      only(kept, keep ? "keep-alive was turned on" : "keep-alive was turned off");
      hash = vp::mix(hash, 100 + keep);
      break; }
    case 2: {
      s.note("another client");
      bool del = s.chance(1, 2);
      if (del) cl.reset();
      if (del) only(-1, "the client is gone");
      fresh(); kept = -1; keep = false;
      if (s.chance(1, 2)) { keep = true; cl->set_keep_alive(true); }
      only(-1, "the client is gone");
      hash = vp::mix(hash, 200);
      break; }
    case 3:   // settings that have nothing to do with it
      switch (s.draw(3)) {
      case 0: cl->set_timeout(60 + (int)s.draw(10)); break;
      case 1: cl->set_authinfo(hg::token(s), hg::token(s)); break;
      default: { XHeaders x; x["X-a"] = hg::token(s); cl->set_xheaders(x); }
      }
      break;
    default: {
      std::string id = "c" + std::to_string(i);
      Plan p = plan(s, id);
      { std::lock_guard<std::mutex> l(mx); now = p; asked.clear(); }
      int before = srv.accepted;
      std::string what = "call " + std::to_string(i) + (keep ? " with" : " without") + " keep-alive, " + (kept >= 0 ? "a connection is kept" : "no connection is kept");
      if (s.describing()) s.note(what + ", the response is " + vp::quote(p.text.substr(0, p.text.find("\r\n\r\n")), 200) + (p.kind == NOT_XML ? " with a body that is no XML" : p.kind == FAULT ? " with a fault" : ""));
      bool raised = false; std::string err;
      try { Response r = cl->execute("m", Param_list()); VP_CHECK(r.is_fault() == (p.kind == FAULT), "outcome", what + ": result and fault mixed up"); }
      catch (const vp::Failure&) { throw; }
      catch (const std::exception& e) { raised = true; err = e.what(); }
      std::vector<std::pair<int, std::string>> a; std::string tr;
      { std::lock_guard<std::mutex> l(mx); a = asked; tr = trouble; }
      VP_CHECK(raised == (p.kind == STATUS || p.kind == NOT_XML), "outcome", what + ": " + (raised ? "raised " + err : "did not raise an exception"));
      VP_CHECK(tr.empty(), "request", what + ": " + tr);
      VP_CHECK(a.size() == 1, "requests", what + ": " + std::to_string(a.size()) + " requests");
      int on = a[0].first, opened = srv.accepted - before;
      VP_CHECK(a[0].second == (keep ? "keep-alive" : "close"), "header", what + ": the request says " + vp::quote(a[0].second));
      if (kept >= 0) VP_CHECK(on == kept && !opened, "not-reused", what + ": uses " + (on == kept ? "one connection more" : "another connection"));
      else VP_CHECK(on == before && opened == 1, "not-own", what + ": uses an old connection or opens " + std::to_string(opened));
      (kept >= 0 ? reused : own)++;
      kept = keep && !raised && p.pr == KEEP ? on : -1;
      only(kept, what);
      hash = vp::mix(hash, p.kind * 8 + p.pr * 2 + keep);
      s.label(kept >= 0 ? "connection kept" : keep ? "connection not kept" : "connection of its own");
    } }
  }
  cl.reset();
  only(-1, "the client is gone");
  srv.finish();
  s.label(tls ? "https" : proxy ? "http by proxy" : "http");
  if (reused) s.label("connection used again");
  if (reused && own) s.nontrivial(hash);
}

int main(int argc, char** argv)
{
  vp::Config c;
  c.id = "C50";
  c.props = { { "connections", prop, 1 } };
  c.hard_fail = true;
  c.worker_init = net::small_stacks;
  c.nondeterministic = true;
  return vp::main_impl(argc, argv, c);
}
