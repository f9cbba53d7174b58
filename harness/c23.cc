// C23: a client's request on the wire carries exactly what was configured
#include "fake.h"
#include "libiqxmlrpc/xheaders.h"

using namespace iqxmlrpc;
using vp::Src;
typedef std::map<std::string, std::string> Map;

struct Seen { int port; fake::Req r; };

struct Wire {
  std::mutex mx;
  std::vector<Seen> seen;
  std::vector<std::string> errors;
};

static void serve(Wire& w, bool tls, fake::Peer& p)
{
  if (tls && !p.handshake()) return;
  for (;;) {
    fake::Req r; std::string err;
    int got = fake::read_request(p, r, err);
    if (got == 0) return;
    std::string body;
    bool keep;
    {
      std::lock_guard<std::mutex> l(w.mx);
      if (got < 0) { w.errors.push_back(err); return; }
      // nothing may follow the request before it is answered
      Seen x; x.port = p.port; x.r = r;
      if (!p.buf.empty()) w.errors.push_back("bytes after the request: " + vp::quote(p.buf));
      w.seen.push_back(x);
      keep = r.get("connection") == "keep-alive";
      body = fake::result_xml("R" + std::to_string(w.seen.size()));
    }
    p.send("HTTP/1.1 200 OK\r\nContent-Type: text/xml\r\nConnection: " + std::string(keep ? "keep-alive" : "close") + "\r\nContent-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body);
    if (!keep) return;
  }
}

static std::string uri(Src& s)
{
  static const char al[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~!$&'()*+,;=:@/?%#[]";
  std::string o = s.draw(5) == 4 ? "" : "/";
  for (size_t k = s.size(20, 12); k; --k) o += al[s.draw(sizeof al - 1)];
  return hg::grown(s, o.empty() ? "/" : o, 3000);
}

static Map xmap(Src& s, std::vector<std::string>& used)
{
  Map m;
  for (size_t k = s.draw(4); k; --k) {
    std::string n = !used.empty() && s.chance(1, 2) ? s.one_of(used) : "X-" + hg::token(s, 8);
    used.push_back(n);
    m[hg::recase(s, n)] = hg::grown(s, hg::value(s, 20));
  }
  return m;
}

static XHeaders xh(const Map& m) { XHeaders x; for (auto& e : m) x[e.first] = e.second; return x; }
static Map lower(const Map& m) { Map r; for (auto& e : m) r[hg::lower(e.first)] = e.second; return r; }

static void prop(Src& s)
{
  bool tls = s.chance(1, 5);
  net::tls_setup(tls);
  Wire w;
  fake::Server origin([&](fake::Peer& p) { serve(w, tls, p); });
  fake::Server proxy1([&](fake::Peer& p) { serve(w, false, p); }), proxy2([&](fake::Peer& p) { serve(w, false, p); });
  origin.listen();
  std::string path = uri(s), vhost = s.chance(1, 2) ? hg::token(s, 14) : "";
  if (s.draw(6) == 5) path = "/RPC";
  std::unique_ptr<Client_base> cl;
  if (tls) cl.reset(new Client<Https_client_connection>(origin.addr(), path, vhost));
  else cl.reset(new Client<Http_client_connection>(origin.addr(), path, vhost));
  s.note(std::string(tls ? "https" : "http") + " path " + vp::quote(path) + " vhost " + vp::quote(vhost));
  bool keep = false, auth = false; std::string user, pw; Map xc; std::vector<std::string> used;
  fake::Server* to = &origin;
  fake::Server* px = 0;
  size_t n = s.chance(1, 60) ? 60 + s.draw(200) : 1 + s.draw(6);
  uint64_t hash = vp::hash64(path + " " + vhost);
  bool up1 = false, up2 = false;
  for (size_t i = 0; i < n; ++i) {
    for (size_t k = s.draw(4); k; --k) {
      switch (s.weighted({ 3, 2, 3, 1, 1, 1 })) {
      case 0: keep = s.chance(2, 3); cl->set_keep_alive(keep); s.note(keep ? "keep-alive" : "no keep-alive"); break;
      case 1: {
        gen::TextOpts to1; 
        user = s.chance(1, 3) ? gen::bytes(s, 20, 80) : hg::token(s); pw = s.chance(1, 2) ? gen::bytes(s, 20, 80) : hg::token(s);
        size_t c; while ((c = user.find(':')) != std::string::npos) user.erase(c, 1);
        if (user.empty()) user = "u";
        user = hg::grown(s, user, 3000); pw = hg::grown(s, pw, 3000);
        auth = true; cl->set_authinfo(user, pw); s.note("credentials " + vp::quote(user) + " " + vp::quote(pw)); break; }
      case 2: { Map m = xmap(s, used); xc = lower(m); cl->set_xheaders(xh(m)); s.note(std::to_string(m.size()) + " headers set"); break; }
      case 3: cl->set_timeout(s.chance(1, 2) ? 30 : -1); break;
      case 4: if (!tls) { if (!up1) proxy1.listen(); up1 = true; px = to = &proxy1; cl->set_proxy(proxy1.addr()); s.note("proxy"); s.label("proxy"); } break;
      default: if (!tls && px) { if (!up2) proxy2.listen(); up2 = true; px = to = &proxy2; cl->set_proxy(proxy2.addr()); s.note("other proxy"); s.label("proxy"); } break;
      }
    }
    Map mc = s.chance(1, 2) ? xmap(s, used) : Map();
    std::string method = hg::token(s, 12);
    for (char& c : method) if (c == '&') c = '_';
    MOpts mo; mo.depth = 2; mo.width = 3;
    std::vector<M> ps;
    while (ps.size() < 3 && s.draw(3) != 0) ps.push_back(gen_value(s, mo));
    if (s.draw(10) == 9) { M v; v.t = M::STR; v.s = std::string(s.draw(300000), 'x'); ps.push_back(v); }
    Param_list pl;
    for (auto& v : ps) pl.push_back(to_value(v));
    { std::lock_guard<std::mutex> l(w.mx); w.seen.clear(); }
    s.note("call with " + std::to_string(mc.size()) + " headers");
    std::string err, got;
    try {
      Response r = cl->execute(method, pl, xh(mc));
      if (r.is_fault() || !r.value().is_string() || r.value().get_string() != "R1") err = "wrong answer";
    } catch (const std::exception& e) { err = e.what(); }
    std::vector<Seen> seen;
    { std::lock_guard<std::mutex> l(w.mx); seen = w.seen; VP_CHECK(w.errors.empty(), "malformed", "malformed request: " + w.errors[0]); }
    VP_CHECK(err.empty(), "call", "the call fails: " + err);
    VP_CHECK(seen.size() == 1, "count", std::to_string(seen.size()) + " requests for one call");
    VP_CHECK(seen[0].port == to->port, "destination", std::string("the request went to ") + (seen[0].port == origin.port ? "the server" : "another proxy") + " instead of " + (px ? "the proxy" : "the server"));
    const fake::Req& r = seen[0].r;
    std::string host = (vhost.empty() ? origin.host : vhost) + ":" + std::to_string(origin.port);
    std::string target = px ? "http://" + host + (path[0] == '/' ? "" : "/") + path : path;
    VP_CHECK(r.line == "POST " + target + " HTTP/1.0" || r.line == "POST " + target + " HTTP/1.1", "line", "request line " + vp::quote(r.line) + " for path " + vp::quote(path));
    for (auto& h : r.h) VP_CHECK(r.count(hg::lower(h.first)) == 1, "twice", "header " + h.first + " sent twice");
    VP_CHECK(r.get("host") == host, "host", "host header " + vp::quote(r.get("host")) + " instead of " + vp::quote(host));
    VP_CHECK(r.get("content-type") == "text/xml", "type", "content type " + vp::quote(r.get("content-type")));
    VP_CHECK(hg::lower(r.get("connection")) == (keep ? "keep-alive" : "close"), "keep", "connection header " + vp::quote(r.get("connection")) + (keep ? " with" : " without") + " keep-alive");
    std::string want = auth ? "Basic " + ref::encode64(user + ":" + pw) : "";
    VP_CHECK(r.count("authorization") == (auth ? 1u : 0u) && r.get("authorization") == want, "credentials", "authorization header " + vp::quote(r.get("authorization")) + " instead of " + vp::quote(want));
    Map x = xc;
    for (auto& e : lower(mc)) x[e.first] = e.second;
    Map gx;
    for (auto& h : r.h) if (hg::lower(h.first).compare(0, 2, "x-") == 0) gx[hg::lower(h.first)] = h.second;
    for (auto& e : x) VP_CHECK(gx.count(e.first) && gx[e.first] == e.second, "xheader", "header " + e.first + " is " + (gx.count(e.first) ? vp::quote(gx[e.first]) : "missing") + " instead of " + vp::quote(e.second));
    for (auto& e : gx) VP_CHECK(x.count(e.first), "xheader", "header " + e.first + " was not set");
    try {
      ref::Call c = ref::call(r.body);
      VP_CHECK(c.name == method && c.params.size() == ps.size(), "body", "wrong method name or number of parameters");
      for (size_t k = 0; k < ps.size(); ++k) { std::string d = diff(ps[k], to_value(c.params[k])); VP_CHECK(d.empty(), "body", "parameter differs: " + d); }
    } catch (const ref::RefError& e) { vp::fail("body", "the body is no XML-RPC call: " + e.msg); }
    hash = vp::mix(hash, vp::hash64(r.raw.substr(0, r.raw.size() - r.body.size()), r.body.size()));
    if (px) s.label("through a proxy"); if (auth) s.label("credentials"); if (!x.empty()) s.label("headers"); if (keep && i) s.label("kept connection");
  }
  s.label(tls ? "https" : "http");
  s.nontrivial(hash);
  cl.reset();
  origin.finish(); proxy1.finish(); proxy2.finish();
}

int main(int argc, char** argv)
{
  vp::Config c;
  c.id = "C23";
  c.props = { { "wire", prop, 1 } };
  c.hard_fail = true;
  c.worker_init = net::small_stacks;
  c.nondeterministic = true;
  return vp::main_impl(argc, argv, c);
}
