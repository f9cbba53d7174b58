// C45: no server behaviour can crash, hang or exhaust a client
#include "fake.h"
#include "damage.h"

using namespace iqxmlrpc;
using vp::Src;

static std::string bad_xml;
void damage::must_refuse(Src&, const std::string& xml, bool, const std::string&) { bad_xml = xml; }

static std::string body(Src& s)
{
  switch (s.weighted({ 4, 3, 2, 2, 2, 1, 1, 1, 1 })) {
  case 0: { MOpts mo; mo.depth = 3; mo.width = 4; Spell sp(s, s.chance(1, 3)); return sp.response(gen_value(s, mo)); }
  case 1: { damage::structure(s); return bad_xml; }
  case 2: { damage::scalars(s); return bad_xml; }
  case 3: { damage::malformed(s); return bad_xml; }
  case 4: { damage::cut(s); return bad_xml; }
  case 5: { size_t d = 1 + s.draw(3000); std::string o = "<methodResponse><params><param>"; for (size_t i = 0; i < d; ++i) o += "<value><array><data>"; return o; }
  case 6: return "<!DOCTYPE x [<!ENTITY a \"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa\"><!ENTITY b \"&a;&a;&a;&a;&a;&a;&a;&a;\"><!ENTITY c \"&b;&b;&b;&b;&b;&b;&b;&b;\"><!ENTITY d \"&c;&c;&c;&c;&c;&c;&c;&c;\"><!ENTITY e \"&d;&d;&d;&d;&d;&d;&d;&d;\"><!ENTITY f \"&e;&e;&e;&e;&e;&e;&e;&e;\">]><methodResponse><params><param><value><string>&f;</string></value></param></params></methodResponse>";
  case 7: return gen::bytes(s, 60, 60000);
  default: { damage::faults(s); return bad_xml; }
  }
}

static void mutate(Src& s, std::string& t)
{
  for (size_t k = 1 + s.draw(6); k && t.size() > 1; --k) {
    size_t p = s.draw(t.size());
    switch (s.draw(4)) {
    case 0: t[p] = (char)s.draw(256); break;
    case 1: t.erase(p, 1 + s.draw(20)); break;
    case 2: t.insert(p, t.substr(s.draw(t.size()), s.draw(60))); break;
    default: { static const char* w[] = { "\r\n", "\n", "\r\n\r\n", ":", " ", "\0", "HTTP/1.1 200 OK\r\n", "Content-Length: 5\r\n", "\xff", "99999999999" }; t.insert(p, w[s.draw(10)]); }
    }
  }
}

static std::string stream(Src& s, bool connect)
{
  std::string b = connect ? "" : body(s);
  static const char* first[] = { "HTTP/1.1 200 OK", "HTTP/1.0 200 OK", "HTTP/1.1 200", "HTTP/1.1 100 Continue\r\n\r\nHTTP/1.1 200 OK", "HTTP/1.1 404 Not Found", "HTTP/1.1 99999999999999 X", "HTTP/1.1 -200 X", "HTTP/1.1", "", " ", "200", "HTTP/1.1 200OK", "HTTP/1.1  200  OK ", "ICY 200 OK", "HTTP/1.1 2\xc2\xb2 x", "POST / HTTP/1.1" };
  std::string o = first[s.weighted({ 12, 4, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1 })];
  o += s.chance(1, 8) ? "\n" : "\r\n";
  static const char* len[] = { "0", "1", "-1", "4294967295", "4294967296", "18446744073709551615", "99999999999999999999", "2147483648", "1000000000", "", "x", "1 2", "0x10", "+5" };
  switch (s.weighted({ 6, 4, 1, 2 })) {
  case 0: o += "Content-Length: " + std::to_string(b.size()) + "\r\n"; break;
  case 1: o += std::string("Content-Length: ") + len[s.draw(14)] + "\r\n"; break;
  case 2: break;
  default: o += "Content-Length: " + std::to_string(b.size() + s.draw(200) - std::min<size_t>(b.size(), 100)) + "\r\n"; break;
  }
  if (s.chance(1, 2)) o += std::string("Connection: ") + (s.chance(2, 3) ? "keep-alive" : s.chance(1, 2) ? "close" : "\x01") + "\r\n";
  if (s.chance(1, 4)) o += "Content-Type: text/html\r\n";
  if (s.chance(1, 6)) for (size_t k = s.draw(300); k; --k) o += "H" + std::to_string(k) + ": v\r\n";
  if (s.chance(1, 10)) o += "X-Long: " + std::string(s.draw(300000), 'h') + "\r\n";
  if (s.chance(1, 10)) o += "no colon here\r\n";
  if (s.chance(1, 10)) o += "Transfer-Encoding: chunked\r\n";
  o += "\r\n" + b;
  if (s.chance(1, 3)) mutate(s, o);
  if (s.chance(1, 8)) o += o;
  return o;
}

static void prop(Src& s)
{
  bool tls = s.chance(1, 3), proxy = s.chance(1, 3);
  net::tls_setup(tls);
  struct Plan { std::string text, tunnel; std::vector<std::string> pieces; int when, end; unsigned pause; };
  std::vector<Plan> plans;
  size_t n = 1 + s.draw(4);
  uint64_t hash = tls * 2 + proxy;
  bool held = false;
  for (size_t i = 0; i < n; ++i) {
    Plan p;
    p.text = s.chance(1, 8) ? gen::bytes(s, 80, 50000) : stream(s, false);
    p.pieces = hg::cut(s, p.text);
    if (tls && proxy && s.chance(1, 2)) p.tunnel = stream(s, true);
    p.when = (int)s.weighted({ 8, 1, 1 });         // after the request, at once, after its first byte
    if (tls && p.when && s.chance(1, 2)) p.when = 0;
    p.end = (int)s.weighted({ 5, 3, 1 });          // close, reset, hold
    if (p.end == 2) { if (held) p.end = 0; held = true; }
    p.pause = p.pieces.size() > 20 ? 0 : (unsigned)s.draw(3) * 150;
    hash = vp::mix(hash, vp::hash64(p.text + p.tunnel, p.when * 4 + p.end));
    s.note("server sends " + vp::quote(p.text, 250) + (p.tunnel.empty() ? "" : " tunnel " + vp::quote(p.tunnel, 150)) + (p.when == 0 ? " after the request" : p.when == 1 ? " at once" : " in the request") + (p.end == 0 ? ", closes" : p.end == 1 ? ", resets" : ", holds"));
    plans.push_back(p);
  }
  std::atomic<size_t> at(0);
  auto serve = [&](fake::Peer& p) {
    bool tun = tls && proxy;
    size_t i = at;
    if (i < n && plans[i].when == 1) { p.send(plans[i].text); if (plans[i].end == 2) p.hold(); if (plans[i].end == 1) p.reset(); return; }
    for (bool first = true; ; first = false) {
      fake::Req r; std::string err;
      if (tun && first) {
        if (fake::read_request(p, r, err, false) != 1) return;
        i = at;
        if (i < n && !plans[i].tunnel.empty()) { p.send(plans[i].tunnel); if (plans[i].end == 2) p.hold(); if (plans[i].end == 1) p.reset(); return; }
        p.send("HTTP/1.1 200 OK\r\n\r\n");
      }
      if (tls && first && !p.handshake()) return;
      if (p.buf.empty() && !p.fill(vp::now() + net::LONG)) return;
      i = at;
      if (!(i < n && plans[i].when == 2) && fake::read_request(p, r, err) != 1) return;
      i = at;
      if (i >= n) {
        std::string x = fake::result_xml("good");
        p.send("HTTP/1.1 200 OK\r\nContent-Length: " + std::to_string(x.size()) + "\r\nContent-Type: text/xml\r\nConnection: keep-alive\r\n\r\n" + x);
        continue;
      }
      for (auto& x : plans[i].pieces) { if (!p.send(x)) break; if (plans[i].pause) usleep(plans[i].pause); }
      if (plans[i].end == 2) p.hold();
      if (plans[i].end == 1) p.reset();
      return;
    }
  };
  fake::Server sv(serve);
  sv.listen();
  size_t fds = net::count_fds();
  {
    std::unique_ptr<Client_base> c(tls ? (Client_base*)new Client<Https_client_connection>(sv.addr()) : (Client_base*)new Client<Http_client_connection>(sv.addr()));
    if (proxy) c->set_proxy(sv.addr());
    c->set_keep_alive(s.chance(1, 2));
    bool got = false;
    for (size_t i = 0; i < n; ++i) {
      at = i;
      c->set_timeout(plans[i].end == 2 ? 1 : 20);
      double t0 = vp::now();
      try { Response r = c->execute("m", Value("x")); if (!r.is_fault()) nodes(from_value(r.value())); got = true; s.label("result"); }
      catch (const std::exception& e) { s.label("exception"); }
      VP_CHECK(vp::now() - t0 < net::LONG, "hang", "the call took " + std::to_string(vp::now() - t0) + " s although the server sent " + vp::quote(plans[i].text, 300) + " and " + (plans[i].end == 2 ? "was silent with a timeout of 1 s" : "closed the connection"));
    }
    at = n;
    c->set_timeout(20);
    std::string out;
    for (int k = 0; k < 2; ++k) {          // a kept connection may be gone
      try { Response r = c->execute("m", Value("x")); out = r.is_fault() ? "a fault" : r.value().get_string(); }
      catch (const std::exception& e) { out = std::string("exception ") + e.what(); }
      if (out == "good") break;
    }
    VP_CHECK(out == "good", "afterwards", "the client cannot call a good server afterwards: " + out);
  }
  sv.finish();
  s.label(tls ? proxy ? "https by proxy" : "https" : proxy ? "http by proxy" : "http");
  s.nontrivial(hash);
  double end = vp::now() + net::LONG;
  size_t left;
  while ((left = net::count_fds()) > fds - 1 && vp::now() < end) usleep(500);       // the listening socket has gone too
  VP_CHECK(left <= fds - 1, "leftover", std::to_string(left - fds + 1) + " descriptors stay open:" + net::show_fds());
}

extern "C" const char* __asan_default_options() { return "max_allocation_size_mb=1000"; }

int main(int argc, char** argv)
{
  vp::Config c;
  c.id = "C45";
  c.props = { { "hostile", prop, 1 } };
  c.hard_fail = true;
  c.worker_init = net::small_stacks;
  c.nondeterministic = true;
  c.leak_check = true; c.leak_every = 50;
  return vp::main_impl(argc, argv, c);
}
