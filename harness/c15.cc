// C15: Expect: 100-continue is answered once per request that asks for it
#include "net.h"

using namespace iqxmlrpc;
using vp::Src;

static void prop(Src& s)
{
  net::Options o;
  o.tls = s.chance(1, 5);
  o.pool = s.chance(1, 3) ? 1 + (unsigned)s.draw(3) : 0;
  net::Log log;
  net::Srv srv(o);
  net::add_echo(*srv.s, log);
  bool limited = s.chance(1, 4);
  if (limited) srv.s->set_max_request_sz(300000);
  srv.start();
  s.note(std::string(o.tls ? "https" : "http") + " pool " + std::to_string(o.pool));
  net::Conn c;
  c.tls = o.tls;
  size_t n = 1 + s.draw(6);
  uint64_t hash = 0; bool nt = false;
  for (size_t i = 0; i < n; ++i) {
    if (c.fd < 0) VP_CHECK(c.connect(srv.host, srv.port), "not-listening", "cannot connect");
    bool keep = s.draw(6) != 5, expect = s.draw(3) != 0;
    bool wait = expect && s.draw(4) != 3;
    bool large = limited && s.chance(1, 6);
    std::string id = "e" + std::to_string(i) + "-" + std::string(s.chance(1, 4) ? s.draw(100000) : s.draw(200), 'y');
    std::string body = net::call_xml("echo", id);
    std::vector<std::string> hs = { "Content-Length: " + std::to_string(large ? 400000 + s.draw(1000) : body.size()), "Connection: " + std::string(keep ? "keep-alive" : "close") };
    if (expect) hs.push_back(hg::recase(s, "Expect") + ":" + hg::pad(s) + (s.chance(1, 4) ? "100-Continue" : "100-continue"));
    if (s.chance(1, 3)) hs.push_back("Content-Type: text/xml");
    for (size_t k = hs.size(); k > 1; --k) std::swap(hs[k - 1], hs[s.draw(k)]);
    std::string head = "POST / HTTP/1.1\r\n";
    for (auto& h : hs) head += h + "\r\n";
    head += "\r\n";
    // how much of the body comes together with the header
    size_t with = expect && s.chance(2, 3) ? 0 : s.draw(body.size() + 1);
    if (large) with = 0;
    if (wait && with == body.size()) with = 0;
    std::string what = "request " + std::to_string(i) + (expect ? " with" : " without") + " expectation";
    if (s.describing()) s.note(what + ", body " + std::to_string(body.size()) + ", " + std::to_string(with) + " with the header" + (wait ? ", client waits" : "") + (keep ? "" : ", close"));
    std::vector<std::string> hp = hg::cut(s, head + body.substr(0, with));
    c.send(hp, hp.size() > 20 ? 0 : (unsigned)s.draw(3) * 100);
    hash = vp::mix(hash, vp::mix(hp.size() * 8 + (expect ? 4 : 0) + (wait ? 2 : 0) + (keep ? 1 : 0), vp::mix(body.size(), with)));
    int interim = 0;
    net::Resp a;
    if (large) {
      net::Conn::RR rr = c.read(a);
      if (rr == net::Conn::OK) VP_CHECK(a.code == 413, "refusal", what + " too large: answered with " + std::to_string(a.code));
      else VP_CHECK(rr != net::Conn::TIMEOUT && rr != net::Conn::BAD && hp.size() > 1, "refusal", what + " too large: " + net::Conn::name(rr));
      VP_CHECK(c.wait_end() != -1 && c.buf.empty(), "surplus", what + " too large: more than a refusal");
      VP_CHECK(log.size() == 0, "executed", what + " was executed");
      c.close();
      s.label("refused");
      continue;
    }
    if (wait) {
      net::Conn::RR rr = c.read(a);
      srv.check_alive();
      VP_CHECK(rr == net::Conn::OK && a.code == 100 && a.body.empty(), "interim", what + ": no interim response: " + (rr == net::Conn::OK ? std::to_string(a.code) : net::Conn::name(rr)));
      interim = 1;
      VP_CHECK(log.size() == 0, "executed-early", what + " was executed before its body arrived");
      s.label("waited for the interim response");
      nt = true;
    }
    std::vector<std::string> bp = hg::cut(s, body.substr(with));
    if (!bp.empty()) c.send(bp, bp.size() > 20 ? 0 : (unsigned)s.draw(4) * 200);
    hash = vp::mix(hash, bp.size());
    for (;;) {
      net::Conn::RR rr = c.read(a);
      srv.check_alive();
      VP_CHECK(rr == net::Conn::OK, "no-answer", what + ": " + net::Conn::name(rr));
      if (a.code != 100) break;
      ++interim;
      VP_CHECK(expect && interim == 1, "interim-surplus", what + ": interim response number " + std::to_string(interim));
      s.label("interim response, not waited for");
    }
    VP_CHECK(a.code == 200, "status", what + ": " + std::to_string(a.code));
    net::Answer w = net::answer(a.body);
    VP_CHECK(!w.fault && w.text == "R" + id, "result", what + ": wrong answer");
    std::vector<std::string> ran = log.take();
    VP_CHECK(ran.size() == 1 && ran[0] == id, "executions", what + ": executed " + std::to_string(ran.size()) + " times");
    if (!keep) { VP_CHECK(c.wait_end() != -1 && c.buf.empty(), "close", what + ": stays open or sends more"); c.close(); }
    else { VP_CHECK(c.buf.empty(), "surplus", what + ": surplus " + vp::quote(c.buf)); if (i + 1 == n && s.chance(1, 8)) VP_CHECK(c.quiet(0.01), "surplus", what + ": surplus or closed"); }
  }
  s.label(o.tls ? "https" : "http");
  if (nt || n > 1) s.nontrivial(hash);
  c.close();
  srv.stop();
}

int main(int argc, char** argv)
{
  vp::Config c;
  c.id = "C15";
  c.props = { { "sequence", prop, 1 } };
  c.hard_fail = true;
  c.worker_init = net::small_stacks;
  c.nondeterministic = true;
  return vp::main_impl(argc, argv, c);
}
