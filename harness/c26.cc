// C26: HTTPS serves exactly the peers the certificate verifiers accept
#include "fake.h"
#include <openssl/pem.h>
#include <openssl/x509.h>

using namespace iqxmlrpc;
using vp::Src;

static std::string fingerprint(const std::string& cert)
{
  static std::map<std::string, std::string> all;
  std::string& f = all[cert];
  if (f.empty()) {
    FILE* fp = fopen(net::data_file(cert + ".crt").c_str(), "r");
    if (!fp) throw vp::Discard();
    X509* x = PEM_read_X509(fp, 0, 0, 0);
    fclose(fp);
    unsigned char* der = 0;
    int n = i2d_X509(x, &der);
    unsigned char md[32]; unsigned l = 32;
    EVP_Digest(der, (size_t)n, md, &l, EVP_sha256(), 0);
    OPENSSL_free(der); X509_free(x);
    char b[3];
    for (int i = 0; i < 32; ++i) { snprintf(b, sizeof b, "%02x", md[i]); f += b; }
  }
  return f;
}

enum Mode { BY_LIST, THROWS, BY_PRE };

class Verifier: public iqnet::ssl::ConnectionVerifier {
public:
  mutable std::mutex mx;
  std::set<std::string> ok; Mode mode;
  mutable std::vector<std::string> seen;
  Verifier(): mode(BY_LIST) {}
  bool accepts(const std::string& cert) const { std::lock_guard<std::mutex> l(mx); return mode == BY_LIST && ok.count(fingerprint(cert)); }
  std::vector<std::string> take() const { std::lock_guard<std::mutex> l(mx); std::vector<std::string> r; r.swap(seen); return r; }
private:
  int do_verify(bool pre, X509_STORE_CTX* c) const
  {
    std::string f = cert_finger_sha256(c);
    std::lock_guard<std::mutex> l(mx);
    seen.push_back(f);
    if (mode == THROWS) throw std::runtime_error("no");
    if (mode == BY_PRE) return pre;             // the certificates are self-signed: never
    return ok.count(f) != 0;
  }
};

static const char* certs[] = { "", "server", "peer", "stranger" };

static void prop(Src& s)
{
  net::Options o;
  o.tls = true;
  o.pool = s.chance(1, 3) ? 1 + (unsigned)s.draw(3) : 0;
  net::Log log;
  Verifier vc, vs;                               // of the client, of the server
  net::Srv srv(o);
  net::add_echo(*srv.s, log);
  srv.start_and_wait();
  bool have_c = false, have_s = false, require = false;
  std::string fcert = "server"; std::atomic<int> fcount(0);
  std::mutex fmx;
  fake::Server other([&](fake::Peer& p) {
    std::string c; { std::lock_guard<std::mutex> l(fmx); c = fcert; }
    if (!p.handshake(c)) return;
    fake::Req r; std::string err;
    if (fake::read_request(p, r, err) != 1) return;
    ++fcount;
    std::string b = fake::result_xml("F");
    p.send("HTTP/1.1 200 OK\r\nContent-Length: " + std::to_string(b.size()) + "\r\n\r\n" + b);
  });
  bool other_up = false;
  SSL_SESSION* session = 0;
  std::string session_cert;
  std::vector<std::unique_ptr<net::Conn>> open, broken;   // accepted, others
  uint64_t hash = o.pool; size_t refused = 0, served = 0;
  int seq = 0;
  auto draw_list = [&](Verifier& v) {
    std::lock_guard<std::mutex> l(v.mx);
    v.ok.clear();
    for (int i = 1; i < 4; ++i) if (s.chance(1, 2)) v.ok.insert(fingerprint(certs[i]));
    v.mode = s.draw(8) == 7 ? THROWS : s.draw(8) == 7 ? BY_PRE : BY_LIST;
  };
  auto check_seen = [&](Verifier& v, const std::string& cert, bool must, const std::string& who) {
    std::vector<std::string> f = v.take();
    for (auto& x : f) VP_CHECK(!cert.empty() && hg::lower(x) == fingerprint(cert), "fingerprint", who + " verifier saw the fingerprint " + x + " for the certificate with " + (cert.empty() ? "(none)" : fingerprint(cert)));
    VP_CHECK(!must || !f.empty(), "not-asked", who + " verifier was not asked");
  };
  size_t n = 2 + s.draw(10);
  for (size_t i = 0; i < n; ++i) {
    switch (s.weighted({ 6, 8, 4, 3, 2, 2, 1 })) {
    case 0: { // another configuration
      if (s.chance(1, 2)) { have_c = s.draw(4) != 3; require = have_c && s.chance(1, 2); if (have_c) draw_list(vc); iqnet::ssl::ctx->verify_client(require, have_c ? &vc : 0); s.note(have_c ? std::string("client certificates ") + (require ? "required" : "optional") + ", " + std::to_string(vc.ok.size()) + " accepted, mode " + std::to_string(vc.mode) : "client certificates not verified"); }
      else { have_s = s.draw(4) != 3; if (have_s) draw_list(vs); iqnet::ssl::ctx->verify_server(have_s ? &vs : 0); s.note(have_s ? "server certificates verified, " + std::to_string(vs.ok.size()) + " accepted, mode " + std::to_string(vs.mode) : "server certificates not verified"); }
      hash = vp::mix(hash, have_c * 4 + have_s * 2 + require + vc.ok.size() * 8 + vs.ok.size() * 64);
      break; }
    case 1: { // raw client
      std::string cert = certs[s.draw(4)];
      bool expect = !have_c || (cert.empty() ? !require : vc.accepts(cert));
      bool v12 = s.chance(1, 3);
      net::Conn* c = new net::Conn;
      std::unique_ptr<net::Conn> h(c);
      c->tls = true; c->cert = cert;
      VP_CHECK(c->connect(srv.host, srv.port), "not-listening", "cannot connect");
      if (v12) SSL_set_max_proto_version(c->ssl, TLS1_2_VERSION);
      bool resume = session && session_cert == cert && s.chance(1, 2);
      if (resume) SSL_set_session(c->ssl, session);
      std::string id = "raw" + std::to_string(seq++);
      s.note("raw client, certificate " + (cert.empty() ? "none" : cert) + (v12 ? ", TLS 1.2" : "") + (resume ? ", resumes a session" : "") + (expect ? " expected to be served" : " expected to be refused"));
      vc.take();
      bool hs = c->handshake();
      net::Resp a; net::Conn::RR rr = net::Conn::RESET;
      if (hs && c->send(net::request(s, net::call_xml("echo", id), true))) rr = c->read(a);
      srv.check_alive();
      std::vector<std::string> l = log.take();
      bool ok = rr == net::Conn::OK && a.code == 200;
      if (expect && !resume) {
        VP_CHECK(ok, "refused", std::string("a peer that is to be accepted is not served: ") + (hs ? net::Conn::name(rr) : "handshake failed"));
        VP_CHECK(net::answer(a.body).text == "R" + id && l.size() == 1 && l[0] == id, "answer", "wrong answer or executions");
      } else if (!expect) {
        VP_CHECK(!ok && rr != net::Conn::OK, "served", std::string("a peer that is to be refused is served") + (resume ? " (resumed session)" : "") + ", certificate " + (cert.empty() ? "none" : cert));
        VP_CHECK(rr != net::Conn::TIMEOUT, "stays-open", "the connection of a refused peer stays open");
        VP_CHECK(l.empty(), "ran", "executed for a refused peer: " + net::join(l));
      }
      if (!resume) check_seen(vc, cert, have_c && !cert.empty(), "the server's");
      if (ok) {
        ++served;
        if (SSL_session_reused(c->ssl)) s.label("session resumed");
        if (s.chance(1, 2)) { SSL_SESSION* n1 = SSL_get1_session(c->ssl); if (session) SSL_SESSION_free(session); session = n1; session_cert = cert; }
        if (s.chance(1, 2)) open.push_back(std::move(h));
      } else ++refused;
      s.label(cert.empty() ? "no certificate" : "with certificate");
      hash = vp::mix(hash, expect * 2 + resume + 4 * (uint64_t)(cert.size()));
      break; }
    case 2: { // the library's client to the library's server
      bool es = !have_s || vs.accepts("server"), ec = !have_c || vc.accepts("server");
      std::string id = "lib" + std::to_string(seq++);
      s.note(std::string("library client, server ") + (es ? "accepted" : "refused") + ", client " + (ec ? "accepted" : "refused"));
      vc.take(); vs.take();
      std::string err, text;
      try {
        Client<Https_client_connection> cl(srv.addr());
        cl.set_timeout(20);
        Response r = cl.execute("echo", Value(id));
        text = r.is_fault() ? "fault" : r.value().get_string();
      } catch (const std::exception& e) { err = std::string("!") + e.what(); }
      srv.check_alive();
      std::vector<std::string> l = log.take();
      if (es && ec) { VP_CHECK(err.empty() && text == "R" + id && l.size() == 1, "refused", "a call that is to be accepted fails: " + err + text); ++served; }
      else {
        VP_CHECK(!err.empty(), "served", std::string("a call succeeds though the ") + (es ? "server refuses the client" : "client refuses the server"));
        VP_CHECK(l.empty(), "ran", "executed though the handshake is to be refused: " + net::join(l));
        ++refused;
      }
      check_seen(vs, "server", have_s, "the client's");
      if (es) check_seen(vc, "server", have_c, "the server's");
      s.label("library client");
      hash = vp::mix(hash, 100 + es * 2 + ec);
      break; }
    case 3: { // the library's client to servers with other certificates
      std::string cert = certs[1 + s.draw(3)];
      { std::lock_guard<std::mutex> l(fmx); fcert = cert; }
      if (!other_up) { other.listen(); other_up = true; }
      bool es = !have_s || vs.accepts(cert);
      s.note("library client to a server with certificate " + cert + (es ? " accepted" : " refused"));
      vs.take();
      int before = fcount;
      std::string err, text;
      try {
        Client<Https_client_connection> cl(other.addr());
        cl.set_timeout(20);
        Response r = cl.execute("m", Value("x"));
        text = r.is_fault() ? "fault" : r.value().get_string();
      } catch (const std::exception& e) { err = std::string("!") + e.what(); }
      if (es) { VP_CHECK(err.empty() && text == "F", "refused", "a call to a server that is to be accepted fails: " + err + text); ++served; }
      else {
        VP_CHECK(!err.empty(), "served", "a call to a server that is to be refused succeeds");
        VP_CHECK(fcount == before, "sent", "a request was sent to a server that is to be refused");
        ++refused;
      }
      check_seen(vs, cert, have_s, "the client's");
      s.label("other server");
      hash = vp::mix(hash, 200 + es + 2 * cert.size());
      break; }
    case 4: { // a broken handshake
      std::unique_ptr<net::Conn> c(new net::Conn);
      c->tls = s.chance(1, 2);
      VP_CHECK(c->connect(srv.host, srv.port), "not-listening", "cannot connect");
      if (c->tls) { ERR_clear_error(); SSL_do_handshake(c->ssl); if (s.chance(1, 2)) { SSL_free(c->ssl); c->ssl = 0; c->send(gen::bytes(s, 30, 500), 1); } }
      else c->send(s.chance(1, 2) ? net::request(net::call_xml("echo", "plain"), true) : gen::bytes(s, 40, 500), 1);
      s.note(c->tls ? "broken handshake" : "no TLS at all");
      if (s.chance(1, 3)) c->reset(); else if (s.chance(1, 2)) c->close();
      if (c->fd >= 0) broken.push_back(std::move(c));
      hash = vp::mix(hash, 300);
      break; }
    case 5: { // an accepted connection goes on, whatever happened to others
      for (auto& c : open) {
        std::string id = "more" + std::to_string(seq++);
        c->send(net::request(s, net::call_xml("echo", id), true));
        net::Resp a; net::Conn::RR rr = c->read(a);
        srv.check_alive();
        VP_CHECK(rr == net::Conn::OK && a.code == 200 && net::answer(a.body).text == "R" + id, "disturbed", std::string("an accepted connection is no longer served: ") + net::Conn::name(rr));
        log.take();
        s.label("open connection used again");
      }
      break; }
    default: { auto& v = !open.empty() && s.chance(1, 2) ? open : broken; if (!v.empty()) v.erase(v.begin() + (long)s.draw(v.size())); }
    }
    std::vector<std::string> l = log.take();
    VP_CHECK(l.empty(), "ran", "executed unexpectedly: " + net::join(l));
  }
  iqnet::ssl::ctx->verify_client(false, 0); iqnet::ssl::ctx->verify_server(0);
  if (session) SSL_SESSION_free(session);
  open.clear(); broken.clear();
  if (refused) s.label("refused"); if (served) s.label("served");
  if (refused + served) s.nontrivial(hash);
  other.finish();
  srv.stop();
}

// calls of clients while no TLS context is set, in any order with calls that have one
static void nocontext(Src& s)
{
  net::tls_setup(true);
  std::atomic<int> ran(0);
  fake::Server srv([&ran](fake::Peer& p) {
    if (!p.handshake()) return;
    for (;;) {
      fake::Req r; std::string err;
      if (fake::read_request(p, r, err) <= 0) return;
      ++ran;
      std::string b = fake::result_xml("x");
      p.send("HTTP/1.1 200 OK\r\nConnection: keep-alive\r\nContent-Length: " + std::to_string(b.size()) + "\r\n\r\n" + b);
    }
  });
  srv.listen();
  struct Ctx { iqnet::ssl::Ctx* c; Ctx(): c(iqnet::ssl::ctx) {} ~Ctx() { iqnet::ssl::ctx = c; } } ctx;
  std::string steps; int without = 0;
  Client<Https_client_connection> kept(srv.addr());
  kept.set_timeout(20);
  for (size_t n = 2 + s.draw(5), i = 0; i < n; ++i) {
    bool set = s.chance(1, 2), same = s.chance(1, 2);
    iqnet::ssl::ctx = set ? ctx.c : 0;
    steps += std::string(set ? " with" : " without") + (same ? " same client" : " new client");
    int before = ran;
    bool ok = false; std::string err;
    try {
      Client<Https_client_connection> fresh(srv.addr());
      fresh.set_timeout(20);
      ok = (same ? kept : fresh).execute("echo", Value("x")).value().get_string() == "x";
    } catch (const std::exception& e) { err = e.what(); }
    VP_CHECK(ok == set, set ? "refused" : "served", "a call" + std::string(set ? " with" : " without") + " a TLS context is " + (ok ? "served" : "not served: " + err) + ";" + steps);
    VP_CHECK(ran == before + (set ? 1 : 0), "ran", "requests seen by the server: " + std::to_string(ran - before) + ";" + steps);
    if (!set) ++without;
  }
  s.note("no context:" + steps);
  s.label("context missing");
  srv.finish();
  if (without) s.nontrivial(vp::hash64(steps));
}

int main(int argc, char** argv)
{
  vp::Config c;
  c.id = "C26";
  c.props = { { "verify", prop, 12 }, { "nocontext", nocontext, 1 } };
  c.hard_fail = true;
  c.worker_init = net::small_stacks;
  c.nondeterministic = true;
  return vp::main_impl(argc, argv, c);
}
