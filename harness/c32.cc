// C32: a failed call says what failed
#include "fake.h"
#include "spell.h"

using namespace iqxmlrpc;
using vp::Src;

enum Kind { ANSWER, FAULT, STATUS, NOT_XML, NOT_RPC, CLOSED, SILENT, REFUSED, NO_TLS, PROXY_STATUS, NKINDS };
static const char* kname[] = { "answer", "fault", "status", "not xml", "xml but no response", "connection closed", "silence", "connection refused", "no tls", "proxy status" };

struct Plan {
  Kind kind; int code; std::string phrase, text, want; size_t stop; bool reset, body, odd;
  std::vector<std::string> pieces;
};

struct Got {
  bool done; std::string cls, what, phrase, text; int code, http; bool str;
  Got(): done(false), code(0), http(0), str(false) {}
};

// a reason phrase: words of printable characters
static std::string phrase(Src& s)
{
  std::string o;
  for (size_t k = s.draw(6); k; --k) {
    if (!o.empty()) o += ' ';
    size_t n = 1 + s.draw(10);
    for (size_t i = 0; i < n; ++i) o += (char)('!' + s.draw(94, [](vp::Rng& r) -> uint64_t { return r.chance(1, 3) ? r.below(94) : 'a' - '!' + r.below(26); }));
  }
  return o.empty() ? o : hg::grown(s, o, 2000);
}

static std::string doc(Src& s, const Plan& p, bool tls)
{
  (void)tls;
  switch (p.kind) {
  case FAULT: return fake::fault_xml(p.code, p.want);
  case NOT_XML: {
    std::string x = fake::result_xml(p.want);
    switch (s.draw(6)) {
    case 0: return "";
    case 1: x.resize(x.size() - 1 - s.draw(x.size() - 1)); return x;                      // cut off
    case 2: { size_t at = x.find("</string>"); x.erase(at, 9); return x; }                // tags do not match
    case 3: x += "<x/>"; return x;                                                        // two roots
    case 4: { size_t at = x.find(p.want) ; x.insert(at, s.chance(1, 2) ? "&nosuch;" : "<"); return x; }
    default: return "plain text " + std::to_string(s.draw(100));
    }
  }
  case NOT_RPC: {
    std::string v = "<value><string>" + p.want + "</string></value>";
    switch (s.draw(8)) {
    case 0: return "<html><body>" + p.want + "</body></html>";
    case 1: return "<methodCall><methodName>x</methodName></methodCall>";
    case 2: return "<methodResponse/>";
    case 3: return "<methodResponse><params/></methodResponse>";
    case 4: return "<methodResponse><params><param>" + v + "</param><param>" + v + "</param></params></methodResponse>";
    case 5: return "<methodResponse><fault>" + v + "</fault></methodResponse>";
    case 6: return "<methodResponse><params><param><value><wrong>1</wrong></value></param></params></methodResponse>";
    default: return "<methodResponse><fault><value><struct><member><name>faultCode</name><value><int>1</int></value></member></struct></value></fault></methodResponse>";
    }
  }
  default: return fake::result_xml(p.want);
  }
}

static void prop(Src& s)
{
  bool tls = s.chance(1, 4), proxy = s.chance(1, 4);
  net::tls_setup(tls);
  size_t n = 1 + s.draw(4);
  std::vector<Plan> plans;
  uint64_t hash = tls * 2 + proxy;
  int silent = 0;
  for (size_t i = 0; i < n; ++i) {
    Plan p;
    p.kind = (Kind)s.weighted({ 3, 3, 12, 5, 6, 5, 1, 2, (unsigned)(tls ? 2 : 0), (unsigned)(tls && proxy ? 6 : 0) });
    if (p.kind == SILENT && ++silent > 1) p.kind = STATUS;
    p.want = "w" + std::to_string(i) + "-" + std::to_string(s.draw(1000));
    p.code = p.kind == STATUS || p.kind == PROXY_STATUS ? 100 + (int)s.draw(900, [](vp::Rng& r) -> uint64_t { static const int c[] = { 100, 201, 202, 204, 206, 301, 302, 304, 400, 401, 403, 404, 405, 407, 408, 411, 413, 415, 417, 429, 500, 501, 502, 503, 504 }; return r.chance(2, 3) ? c[r.below(25)] - 100 : r.below(900); }) : p.kind == FAULT ? gen::int32(s) : 200;
    if ((p.kind == STATUS || p.kind == PROXY_STATUS) && p.code == 200) p.code = 404;
    p.phrase = phrase(s);
    p.body = s.chance(1, 2); p.reset = s.chance(1, 3); p.stop = 0;
    std::string b = p.kind == STATUS && !p.body ? "" : doc(s, p, tls);
    std::string ver = s.chance(1, 2) ? "HTTP/1.1 " : "HTTP/1.0 ";
    std::string num = std::to_string(p.kind == STATUS || p.kind == PROXY_STATUS ? p.code : 200);
    p.odd = (p.kind == STATUS || p.kind == PROXY_STATUS) && s.chance(1, 6);
    if (p.odd) { static const char* t[] = { "OK", "2OO", "20O", "two", "0x200", "2e2", "200.0", "20,0", "-200", "0200x", "2147483848", "4294967496" }; num = t[s.draw(12)]; }   // no status anybody knows
    p.text = ver + num + (p.phrase.empty() && s.chance(1, 2) ? "" : " ") + p.phrase + "\r\n";
    if (s.chance(1, 2)) p.text += "content-type: text/xml\r\n";
    if (s.chance(1, 3)) p.text += "connection: close\r\n";
    if (p.kind == PROXY_STATUS) p.text += "\r\n";
    else p.text += "content-length: " + std::to_string(b.size()) + "\r\n\r\n" + b;
    if (p.kind == CLOSED) p.stop = s.draw(p.text.size());
    p.pieces = hg::cut(s, p.text);
    if (p.pieces.size() > 40) p.pieces = std::vector<std::string>(1, p.text);
    hash = vp::mix(hash, vp::mix(p.kind * 2 + p.reset, p.kind == STATUS || p.kind == PROXY_STATUS ? (uint64_t)p.code : p.stop));
    if (s.describing()) s.note(std::string(kname[p.kind]) + " " + (p.kind == CLOSED ? "after " + std::to_string(p.stop) + " bytes of " : p.kind == SILENT || p.kind == REFUSED || p.kind == NO_TLS ? "" : "") + vp::quote(p.text, 300));
    plans.push_back(p);
  }
  if (s.describing()) s.note(std::string(tls ? "https" : "http") + (proxy ? " by proxy" : ""));
  std::atomic<int> current(-1), finished(-1);

  auto one = [&](fake::Peer& p) {        // answers requests by the plan of the call
    for (;;) {
      fake::Req r; std::string err;
      if (fake::read_request(p, r, err) <= 0) return;
      int id = current;
      Plan& pl = plans[id];
      if (pl.kind == SILENT) { while (finished < id && !*p.over) usleep(500); return; }
      std::string left = pl.kind == CLOSED ? pl.text.substr(0, pl.stop) : pl.text;
      if (pl.kind == CLOSED) { if (!left.empty()) p.send(left); if (pl.reset) { p.pause(0.01); p.reset(); } return; }
      for (auto& x : pl.pieces) { if (!p.send(x)) return; if (pl.pieces.size() > 1) usleep(100); }
      if (hg::lower(pl.text.substr(0, pl.text.find("\r\n\r\n"))).find("connection: close") != std::string::npos) return;
    }
  };
  fake::Server srv([&](fake::Peer& p) {
    int id = current;
    Plan& pl = plans[id < 0 ? 0 : id];
    if (tls && proxy) {                   // the tunnel
      fake::Req r; std::string err;
      if (fake::read_request(p, r, err, false) <= 0) return;
      if (pl.kind == PROXY_STATUS) { for (auto& x : pl.pieces) if (!p.send(x)) return; p.hold(); return; }
      p.send("HTTP/1.1 200 Connection established\r\n\r\n");
    }
    if (tls && pl.kind == NO_TLS) { p.buf.clear(); p.fill(vp::now() + net::LONG); p.send("220 this is something else\r\n"); p.hold(); return; }
    if (tls && !p.handshake()) return;
    one(p);
  });
  srv.listen();

  std::unique_ptr<Client_base> cl = net::client(s, tls, srv.addr());
  if (proxy) cl->set_proxy(srv.addr());
  for (size_t i = 0; i < n; ++i) {
    Plan& p = plans[i];
    current = (int)i;
    if (p.kind == REFUSED) srv.unlisten();
    Got o; std::mutex mx; std::condition_variable cv;
    std::thread t([&] {
      Got r;
      try {
        cl->set_timeout(p.kind == SILENT ? 1 : 60);
        Response x = cl->execute("m", Param_list());
        r.cls = x.is_fault() ? "fault" : "answer";
        if (x.is_fault()) {
          r.code = x.fault_code(); r.text = x.fault_string();
          try { x.value(); r.cls = "fault without exception"; } catch (const Exception& e) { if (e.code() != r.code || r.text != e.what()) r.cls = "fault with a wrong exception"; }
        } else if (x.value().is_string()) { r.str = true; r.text = x.value().get_string(); }
      }
      catch (const Client_timeout& e) { r.cls = "timeout"; r.what = e.what(); }
      catch (const http::Error_response& e) {
        r.cls = "http"; r.what = e.what(); r.code = e.code();
        const http::Response_header* h = e.response_header();
        r.http = h->code(); r.phrase = h->phrase();
      }
      catch (const http::Malformed_packet& e) { r.cls = "malformed"; r.what = e.what(); }
      catch (const Parse_error& e) { r.cls = "parse"; r.what = e.what(); r.code = e.code(); }
      catch (const XML_RPC_violation& e) { r.cls = "violation"; r.what = e.what(); r.code = e.code(); }
      catch (const Exception& e) { r.cls = "other library exception"; r.what = e.what(); r.code = e.code(); }
      catch (const iqnet::network_error& e) { r.cls = "network"; r.what = e.what(); }
      catch (const iqnet::ssl::exception& e) { r.cls = "ssl"; r.what = e.what(); }
      catch (const std::exception& e) { r.cls = "other exception"; r.what = e.what(); }
      catch (...) { r.cls = "unknown exception"; }
      std::lock_guard<std::mutex> l(mx);
      r.done = true; o = r; cv.notify_all();
    });
    {
      std::unique_lock<std::mutex> l(mx);
      VP_CHECK(cv.wait_for(l, std::chrono::seconds(100), [&] { return o.done; }), "hang", std::string("call ") + std::to_string(i) + " (" + kname[p.kind] + ") does not return");
    }
    t.join();
    finished = (int)i;
    if (p.kind == REFUSED) srv.listen();
    std::string how = std::string(kname[p.kind]) + (tls ? " over https" : " over http") + (proxy ? " by proxy" : "") + ": " + o.cls + " '" + o.what + "'";
    switch (p.kind) {
    case ANSWER: VP_CHECK(o.cls == "answer" && o.str && o.text == p.want, "answer", how); break;
    case FAULT: VP_CHECK(o.cls == "fault" && o.code == p.code && o.text == p.want, "fault", how + " " + std::to_string(o.code) + " " + vp::quote(o.text)); break;
    case STATUS: case PROXY_STATUS:
      if (p.odd) { VP_CHECK(o.cls != "answer" && o.cls != "fault" && o.cls != "timeout" && o.cls != "unknown exception", "odd-status", how + " for " + vp::quote(p.text, 200)); break; }
      VP_CHECK(o.cls == "http", "status", how + " for " + vp::quote(p.text, 200));
      VP_CHECK(o.http == p.code, "status-code", how + ": code " + std::to_string(o.http) + ", the server said " + std::to_string(p.code));
      VP_CHECK(o.phrase == p.phrase, "status-phrase", how + ": phrase " + vp::quote(o.phrase) + ", the server said " + vp::quote(p.phrase));
      VP_CHECK(o.what.find(p.phrase) != std::string::npos, "status-text", how + " does not contain the phrase " + vp::quote(p.phrase));
      break;
    case NOT_XML: VP_CHECK(o.cls == "parse" || o.cls == "violation", "not-xml", how); break;
    case NOT_RPC: VP_CHECK(o.cls == "violation" || o.cls == "parse", "not-rpc", how); break;
    case CLOSED: case REFUSED: VP_CHECK(o.cls == "network" || (tls && o.cls == "ssl"), "network", how); break;
    case NO_TLS: VP_CHECK(o.cls == "ssl" || o.cls == "network", "ssl", how); break;
    case SILENT: VP_CHECK(o.cls == "timeout", "timeout", how); break;
    default: break;
    }
    VP_CHECK(o.cls == "answer" || o.cls == "fault" || !o.what.empty(), "no-text", how + ": the exception has no text");
    s.label(kname[p.kind]);
    s.label("raised: " + o.cls);
  }
  cl.reset();
  srv.finish();
  s.label(tls ? "https" : "http"); if (proxy) s.label("proxy");
  s.nontrivial(hash);
}

int main(int argc, char** argv)
{
  vp::Config c;
  c.id = "C32";
  c.props = { { "causes", prop, 1 } };
  c.hard_fail = true;
  c.worker_init = net::small_stacks;
  c.nondeterministic = true;
  c.workers = 16;
  c.case_timeout = 150;
  return vp::main_impl(argc, argv, c);
}
