// C13: the request size limit is exact and enforced in every segmentation
#include "net.h"
#include "libiqxmlrpc/http.h"

using namespace iqxmlrpc;
using vp::Src;

// limits and sizes of interest around powers of two, the read buffer and literals of the code
static size_t limit(Src& s, size_t floor)
{
  uint64_t v = s.draw(200000, [&](vp::Rng& r) -> uint64_t {
    switch (r.below(10)) {
    case 0: case 1: case 2: case 3: return r.below(400);
    case 4: case 5: case 6: return r.below(5000);
    case 7: case 8: { static const uint64_t b[] = { 1024, 4096, 8192, 16384, 65535, 65536, 131072 }; return b[r.below(7)] - floor % 1000 + r.below(9); }
    default: return r.below(200000);
    }
  });
  return floor + v;
}

// a request of exactly total bytes (header + empty line + body), with an unpredictable share of the header
struct Made { std::string text; size_t head; std::string arg; };
static bool make(Src& s, size_t total, bool keep, const std::string& id, Made& m)
{
  std::string extra;
  size_t filler = s.chance(1, 3) ? (size_t)s.draw(std::max<size_t>(1, std::min<size_t>(total / 2, 3000))) : 0;
  if (filler) extra = "X-Filler: " + std::string(filler, 'f') + "\r\n";
  std::string head0 = "POST /RPC HTTP/1.1\r\nHost: x\r\nContent-Type: text/xml\r\nConnection: " + std::string(keep ? "keep-alive" : "close") + "\r\n" + extra + "Content-Length: ";
  std::string c0 = net::call_xml("echo", id);
  // content length digits depend on the length
  for (size_t digits = 2; digits < 8; ++digits) {
    size_t h = head0.size() + digits + 4;
    if (h + c0.size() > total) continue;
    size_t body = total - h;
    std::string n = std::to_string(body);
    if (n.size() > digits) continue;
    n = std::string(digits - n.size(), ' ') + n;
    m.arg = id + std::string(body - c0.size(), 'z');
    m.text = head0 + n + "\r\n\r\n" + net::call_xml("echo", m.arg);
    m.head = h;
    return true;
  }
  return false;
}

static void live(Src& s)
{
  net::Options o;
  o.tls = s.chance(1, 8);
  o.pool = s.chance(1, 3) ? 1 + (unsigned)s.draw(3) : 0;
  net::Log log;
  bool limited = s.draw(8) != 7;
  size_t max = limited ? limit(s, 260) : 0;
  net::Srv srv(o);
  net::add_echo(*srv.s, log);
  if (limited) { srv.s->set_max_request_sz(max); VP_CHECK(srv.s->get_max_request_sz() == max, "getter", "get_max_request_sz differs from what was set"); }
  srv.start();
  if (s.describing()) s.note(std::string(o.tls ? "https" : "http") + " limit " + std::to_string(max) + " pool " + std::to_string(o.pool));
  net::Conn c;
  c.tls = o.tls;
  size_t n = 1 + s.draw(4);
  bool near = false;
  for (size_t i = 0; i < n; ++i) {
    if (c.fd < 0) VP_CHECK(c.connect(srv.host, srv.port), "not-listening", "cannot connect");
    bool keep = s.draw(3) != 2;
    bool declared = limited && s.chance(1, 5);
    std::string id = "r" + std::to_string(i) + "-";
    Made m;
    size_t total;
    if (limited) {
      switch (s.draw(6)) {
      case 0: total = max - 1; near = true; break;
      case 1: total = max; near = true; break;
      case 2: total = max + 1; near = true; break;
      case 3: total = max - std::min<size_t>(max, s.draw(20)); near = true; break;
      case 4: total = max + s.draw(20); near = true; break;
      default: total = 240 + s.draw(2 * max); break;
      }
    } else
      total = s.chance(1, 30) ? 3000000 + s.draw(3000000) : 240 + s.draw(s.chance(1, 6) ? 300000 : 9000);
    bool served, sent_all = true;
    if (declared) {
      // only the declared length is too large; the body never comes, or only a part of it
      uint64_t cl = s.chance(1, 2) ? max + 4 + s.draw(50) : (uint64_t)max * (2 + s.draw(100)) + s.draw(1000);
      if (s.chance(1, 4)) { static const uint64_t b[] = { 0x7fffffffull, 0x80000000ull, 0xffffffffull, 4000000000ull }; cl = std::max<uint64_t>(cl, b[s.draw(4)]); }
      std::string part = net::call_xml("echo", id);
      if (s.chance(1, 2)) part.clear();
      std::string head = "POST /RPC HTTP/1.1\r\nHost: x\r\nContent-Type: text/xml\r\nConnection: " + std::string(keep ? "keep-alive" : "close") + "\r\nContent-Length: ";
      if (s.chance(1, 3) && head.size() < max) cl = max - head.size() + s.draw(50), part.clear();   // header and body together are too large
      m.text = head + std::to_string(cl) + "\r\n\r\n" + part;
      m.arg = id; total = 0;
      served = false;
    } else {
      if (!make(s, total, keep, id, m)) throw vp::Discard();
      served = !limited || total < max;
    }
    std::vector<std::string> pieces = hg::cut(s, m.text);
    unsigned pause = pieces.size() > 20 ? 0 : (unsigned)s.draw(3) * 150;
    if (s.describing()) s.note(std::string(declared ? "declared-only " : "") + "request of " + std::to_string(m.text.size()) + " bytes in " + std::to_string(pieces.size()) + " pieces, keep-alive " + (keep ? "yes" : "no"));
    sent_all = c.send(pieces, pause);
    net::Resp r;
    net::Conn::RR rr = c.read(r);
    if (rr == net::Conn::TIMEOUT || rr == net::Conn::BAD) { srv.check_alive(); vp::fail("no-answer", "no proper answer to a request of " + std::to_string(m.text.size()) + " bytes, limit " + std::to_string(max) + ": " + net::Conn::name(rr)); }
    std::vector<std::string> ran = log.take();
    std::string what = std::to_string(m.text.size()) + " bytes with limit " + std::to_string(max) + (declared ? " (declared length)" : "");
    if (served) {
      VP_CHECK(rr == net::Conn::OK && r.code == 200, "served", "request of " + what + " is not served: " + (rr == net::Conn::OK ? std::to_string(r.code) : net::Conn::name(rr)));
      net::Answer a = net::answer(r.body);
      VP_CHECK(!a.fault && a.text == "R" + m.arg, "result", "wrong answer to a request of " + what);
      VP_CHECK(ran.size() == 1 && ran[0] == m.arg, "executions", "method ran " + std::to_string(ran.size()) + " times");
      s.label("served");
      if (!keep) { VP_CHECK(c.wait_end() != -1, "close", "connection stays open"); c.close(); }
    } else {
      VP_CHECK(ran.empty(), "executed", "method ran for a request of " + what);
      // a client that was still sending may lose the answer to the reset
      if (rr == net::Conn::OK) VP_CHECK(r.code == 413, "refused", "request of " + what + " answered with " + std::to_string(r.code));
      else VP_CHECK(!sent_all || pieces.size() > 1 || m.text.size() > 10000, "refused", "request of " + what + " closed without an answer");
      VP_CHECK(c.wait_end() != -1, "close", "connection stays open after a refusal");
      VP_CHECK(log.take().empty(), "executed", "method ran for a request of " + what);
      s.label(declared ? "refused by declaration" : rr == net::Conn::OK ? "refused" : "refused, answer lost");
      c.close();
    }
    s.nontrivial(vp::mix(total, vp::mix(max, pieces.size())));
  }
  s.label(near ? "near the limit" : "far from the limit");
  s.label(o.tls ? "https" : "http");
  if (o.pool) s.label("pool");
  c.close();
  srv.stop();
}

// The packet reader alone: any size, any segmentation, several packets
static void reader(Src& s)
{
  http::Packet_reader rd;
  rd.set_verification_level(http::HTTP_CHECK_WEAK);
  size_t max = limit(s, 150);
  rd.set_max_size(max);
  size_t n = 1 + s.draw(4);
  for (size_t i = 0; i < n; ++i) {
    size_t total;
    switch (s.draw(5)) {
    case 0: total = max - 1; break;
    case 1: total = max; break;
    case 2: total = max + s.draw(30); break;
    case 3: total = max - std::min<size_t>(max, s.draw(30)); break;
    default: total = 150 + s.draw(2 * max); break;
    }
    std::string pre = "POST / HTTP/1.1\r\nX-P: " + std::string(s.chance(1, 2) ? s.draw(60) : 0, 'p') + "\r\nContent-Length: ";
    if (total < pre.size() + 8 + 4) throw vp::Discard();
    size_t body = total - pre.size() - 6 - 4;
    std::string num = std::to_string(body);
    if (num.size() > 6) throw vp::Discard();
    std::string m = pre + std::string(6 - num.size(), ' ') + num + "\r\n\r\n" + std::string(body, 'b');
    std::vector<std::string> ps = hg::cut(s, m);
    bool got = false, refused = false;
    for (size_t k = 0; k < ps.size(); ++k) {
      try {
        std::unique_ptr<http::Packet> p(rd.read_request(ps[k]));
        if (p) {
          VP_CHECK(k + 1 == ps.size(), "early", "packet complete before its last piece");
          VP_CHECK(p->content().size() == body, "body", "wrong body size");
          got = true;
        }
        if (rd.expect_continue()) rd.set_continue_sent();
      } catch (const http::Request_too_large&) { refused = true; break; }
      catch (const std::exception& e) { vp::fail("exception", std::string("unexpected exception: ") + e.what()); }
    }
    std::string what = std::to_string(total) + " bytes, limit " + std::to_string(max) + ", " + std::to_string(ps.size()) + " pieces, packet " + std::to_string(i);
    s.nontrivial(vp::mix(total, vp::mix(max, ps.size())));
    if (total < max) { VP_CHECK(got && !refused, "served", "refused: " + what); s.label("reader served"); }
    else { VP_CHECK(refused && !got, "refused", "not refused: " + what); s.label("reader refused"); return; }
  }
}

int main(int argc, char** argv)
{
  vp::Config c;
  c.id = "C13";
  c.props = { { "live", live, 1 }, { "reader", reader, 1 } };
  c.hard_fail = true;
  c.worker_init = net::small_stacks;
  c.nondeterministic = true;
  return vp::main_impl(argc, argv, c);
}
