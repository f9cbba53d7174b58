// C14: each HTTP request gets exactly the answer its form calls for
#include "net.h"

using namespace iqxmlrpc;
using vp::Src;

struct Req {
  std::string text;
  int code;                 // expected status
  bool keep;                // connection stays open afterwards
  bool runs;                // a method is executed
  std::string mark;         // what the execution records
  int fault;                // 0: result, 1: fault with fcode/ftext, 2: some fault, 3: fault with ftext
  int fcode; std::string ftext;
};

static Req request(Src& s, bool strict, const std::string& id)
{
  Req r;
  r.fault = 0; r.fcode = 0; r.code = 200; r.runs = true;
  std::string body, mark = id;
  if (s.chance(1, 4)) { gen::TextOpts to; mark += gen::text(s, to); }
  r.mark = mark;
  switch (s.weighted({ 10, 2, 2, 2, 2, 1, 1 })) {
  case 0: body = net::call_xml("echo", mark); break;
  case 1: body = net::call_xml("nosuch" + id, mark); r.runs = false; r.fault = 1; r.fcode = -32601; r.ftext.clear(); break;
  case 2: body = net::call_xml("fault", mark); r.fault = 1; r.fcode = 4242; r.ftext = "F" + mark; break;
  case 3: body = net::call_xml("throw", mark); r.fault = 3; r.ftext = "T" + mark; break;
  case 4: { static const char* t[] = { "<methodCall><methodName>echo</methodName>", "no xml at all", "<?xml version=\"1.0\"?><methodCall/>", "<methodResponse></methodResponse>", "<methodCall><methodName>echo</methodName><params><param><value><i4>x</i4></value></param></params></methodCall>" };
    body = t[s.draw(5)]; r.runs = false; r.fault = 2; break; }
  case 5: body = ""; r.runs = false; r.fault = 2; break;
  default: mark = id + std::string(2000 + s.draw(150000), 'q'); r.mark = mark; body = net::call_xml("echo", mark); break;
  }
  std::vector<std::pair<std::string, std::string>> h;
  std::string meth = "POST", bad;
  bool len = true;
  r.keep = false;
  switch (s.draw(5)) { case 4: { static const char* t[] = { "upgrade", "closed", "TE", "x-keep-alive", "not-keep-alive", "" }; h.push_back({ "Connection", t[s.draw(6)] }); break; } case 0: h.push_back({ "Connection", "keep-alive" }); r.keep = true; break; case 1: h.push_back({ "Connection", "keep-alive" }); r.keep = true; break; case 2: h.push_back({ "Connection", "close" }); break; default: break; }
  if (s.chance(1, 2)) h.push_back({ "Host", hg::value(s, 20, false) });
  if (s.chance(1, 3)) h.push_back({ "X-" + hg::token(s), hg::value(s) });
  if (s.chance(1, 3)) h.push_back({ "Accept-" + hg::token(s), hg::value(s, 400) });
  std::string ctype = s.chance(1, 2) ? "text/xml" : s.chance(1, 2) ? "Text/XML; charset=utf-8" : "";
  if (s.chance(3, 10)) {
    switch (s.draw(7)) {
    case 0: { static const char* t[] = { "GET", "PUT", "post", "POSTX", "HEAD", "OPTIONS", "X" }; meth = t[s.draw(7)]; r.code = 405; break; }
    case 1: len = false; r.code = 411; break;
    case 2: { static const char* t[] = { "abc", "12x", "", "-1", "1.0", "0x10", "99999999999999", "+5", "1 2" }; h.push_back({ "Content-Length", t[s.draw(9)] }); len = false; r.code = 400; break; }
    case 3: bad = "there is no separator in this line"; r.code = 400; break;
    case 4: { static const char* t[] = { "200-ok", "continue", "100", "" }; h.push_back({ "Expect", t[s.draw(4)] }); r.code = 417; break; }
    case 5: { static const char* t[] = { "text/plain", "application/xml", "text/html", "xml" }; ctype = t[s.draw(4)]; if (strict) r.code = 415; break; }
    default: { static const char* t[] = { "text/plain", "application/xml" }; ctype = t[s.draw(2)]; if (strict) r.code = 415; break; }
    }
  }
  if (!ctype.empty()) h.push_back({ "Content-Type", ctype });
  if (len) h.push_back({ "Content-Length", std::to_string(body.size()) });
  for (size_t i = h.size(); i > 1; --i) std::swap(h[i - 1], h[s.draw(i)]);
  const char* nl = s.chance(1, 4) ? "\n" : "\r\n";
  r.text = meth + " /" + (s.chance(1, 2) ? hg::token(s) : "") + " HTTP/1." + (s.chance(1, 2) ? "1" : "0") + nl;
  size_t at = bad.empty() ? h.size() + 1 : s.draw(h.size() + 1);
  for (size_t i = 0; i < h.size(); ++i) {
    if (i == at) r.text += bad + nl;
    r.text += hg::recase(s, h[i].first) + ":" + hg::pad(s) + h[i].second + hg::pad(s) + nl;
  }
  if (at == h.size()) r.text += bad + nl;
  r.text += nl;
  if (r.code != 200) { r.runs = false; r.keep = false; }
  // a refused request's body may be missing; a served one has its body exactly
  if (r.code == 200 || s.chance(1, 2)) r.text += body;
  return r;
}

// the form of RFC 1123, in GMT, between the two times
static bool dated(const std::string& d, time_t from, time_t to)
{
  static const char* days[] = { "Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat" };
  static const char* months[] = { "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" };
  for (time_t t = from - 2; t <= to + 2; ++t) {
    tm g; gmtime_r(&t, &g);
    char b[64];
    snprintf(b, sizeof b, "%s, %02d %s %04d %02d:%02d:%02d GMT", days[g.tm_wday], g.tm_mday, months[g.tm_mon], g.tm_year + 1900, g.tm_hour, g.tm_min, g.tm_sec);
    if (d == b) return true;
  }
  return false;
}

static void prop(Src& s)
{
  gen::zone(s);
  net::Options o;
  o.tls = s.chance(1, 8);
  o.pool = s.chance(1, 3) ? 1 + (unsigned)s.draw(3) : 0;
  bool strict = s.chance(1, 2);
  net::Log log;
  net::Srv srv(o);
  srv.s->set_verification_level(strict ? http::HTTP_CHECK_STRICT : http::HTTP_CHECK_WEAK);
  net::add_echo(*srv.s, log);
  srv.s->register_method("fault", new net::Fn_factory([&log](Method*, const Param_list& p, Value&) { log.add(p[0].get_string()); throw Fault(4242, "F" + p[0].get_string()); }));
  srv.s->register_method("throw", new net::Fn_factory([&log](Method*, const Param_list& p, Value&) { log.add(p[0].get_string()); throw std::runtime_error("T" + p[0].get_string()); }));
  srv.start();
  s.note(std::string(o.tls ? "https" : "http") + " pool " + std::to_string(o.pool) + (strict ? " strict" : " weak"));
  std::unique_ptr<net::Conn> cs[3];
  size_t nc = 1 + s.draw(3), n = s.chance(1, 60) ? 100 + s.draw(300) : 1 + s.draw(8);
  uint64_t hash = 0; bool nt = false;
  auto open = [&](size_t k) {
    if (cs[k]) return;
    cs[k].reset(new net::Conn);
    cs[k]->tls = o.tls;
    VP_CHECK(cs[k]->connect(srv.host, srv.port), "not-listening", "cannot connect");
  };
  for (size_t i = 0; i < n; ++i) {
    size_t k = s.draw(nc);
    open(k);
    net::Conn& c = *cs[k];
    Req r = request(s, strict, "m" + std::to_string(i) + "-");
    std::vector<std::string> ps = hg::cut(s, r.text);
    if (s.describing()) s.note("connection " + std::to_string(k) + ", " + std::to_string(ps.size()) + " pieces, expect " + std::to_string(r.code) + (r.keep ? " keep" : " close") + ": " + vp::quote(r.text, 300));
    hash = vp::mix(hash, vp::hash64(r.text, ps.size()));
    time_t t0 = time(0);
    bool sent = c.send(ps, ps.size() > 20 ? 0 : (unsigned)s.draw(3) * 120);
    net::Resp a;
    net::Conn::RR rr = c.read(a);
    std::string what = "answer to " + vp::quote(r.text, 300) + ": ";
    if (rr != net::Conn::OK) {
      srv.check_alive();
      // the answer to a refused request can get lost when the client was still sending
      bool excused = r.code != 200 && (rr == net::Conn::RESET || rr == net::Conn::CLOSED) && (ps.size() > 1 || r.text.size() > 10000 || !sent);
      VP_CHECK(excused, "no-answer", what + net::Conn::name(rr));
      s.label("refusal lost to reset");
    } else {
      VP_CHECK(dated(a.h["date"], t0, time(0)), "date", what + "is dated " + vp::quote(a.h["date"]));
      VP_CHECK(a.code == r.code, "status", what + "status " + std::to_string(a.code) + " instead of " + std::to_string(r.code));
      if (a.code == 200) {
        VP_CHECK(a.keep() == r.keep, "keep-alive", what + "says " + vp::quote(a.head, 300));
        VP_CHECK(a.h.count("content-type") && a.h["content-type"].find("text/xml") == 0, "content-type", what + vp::quote(a.head));
        net::Answer w = net::answer(a.body);
        if (!r.fault) VP_CHECK(!w.fault && w.text == "R" + r.mark, "result", what + vp::quote(a.body, 300));
        else VP_CHECK(w.fault && (r.fault != 1 || w.code == r.fcode) && (r.ftext.empty() || w.text.find(r.ftext) != std::string::npos), "fault", what + vp::quote(a.body, 300));
      }
    }
    std::vector<std::string> ran = log.take();
    VP_CHECK(ran == (r.runs ? std::vector<std::string>(1, r.mark) : std::vector<std::string>()), "executions", what + "executed " + net::join(ran) + ", expected " + (r.runs ? vp::quote(r.mark, 60) : "none"));
    if (!r.keep) {
      int e = c.wait_end();
      VP_CHECK(e != -1, "stays-open", what + "connection stays open");
      VP_CHECK(e != 1, "surplus", what + "surplus bytes " + vp::quote(c.buf, 200));
      VP_CHECK(log.size() == 0, "executions", what + "executed later: " + net::join(log.take()));
      cs[k].reset();
    } else
      VP_CHECK(c.buf.empty(), "surplus", what + "surplus bytes " + vp::quote(c.buf, 200));
    s.label("status " + std::to_string(r.code));
    if (r.fault) s.label("fault");
    if (r.code != 200 || r.fault || i) nt = true;
  }
  // connections kept alive answer once more
  for (size_t k = 0; k < 3; ++k)
    if (cs[k]) {
      std::string id = "end" + std::to_string(k);
      VP_CHECK(cs[k]->send(net::request(net::call_xml("echo", id), false)), "closed", "a kept-alive connection is closed");
      net::Resp a;
      net::Conn::RR rr = cs[k]->read(a);
      VP_CHECK(rr == net::Conn::OK && a.code == 200 && net::answer(a.body).text == "R" + id, "closed", std::string("a kept-alive connection gives no proper answer: ") + net::Conn::name(rr));
      VP_CHECK(cs[k]->wait_end() != -1 && cs[k]->buf.empty(), "stays-open", "connection stays open or sends more");
      s.label("kept alive to the end");
    }
  s.label(o.tls ? "https" : "http");
  if (nt) s.nontrivial(hash);
  for (auto& c : cs) c.reset();
  srv.stop();
}

int main(int argc, char** argv)
{
  vp::Config c;
  c.id = "C14";
  c.props = { { "sequence", prop, 1 } };
  c.hard_fail = true;
  c.worker_init = net::small_stacks;
  c.nondeterministic = true;
  return vp::main_impl(argc, argv, c);
}
