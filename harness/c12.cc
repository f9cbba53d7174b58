// C12: headers written by one side are read back by the other
#include "httpgen.h"
#include "refxml.h"
#include "libiqxmlrpc/http.h"
#include "libiqxmlrpc/http_errors.h"
#include <functional>
#include <memory>
#include <set>

using namespace iqxmlrpc;
using vp::Src;

static std::string strip(const std::string& dump)   // the header as the reader hands it to the parser: without the empty line
{
  VP_CHECK(dump.size() >= 4 && dump.compare(dump.size() - 4, 4, "\r\n\r\n") == 0, "dump", "dump does not end with an empty line: " + vp::quote(dump));
  VP_CHECK(dump.find("\r\n\r\n") == dump.size() - 4, "dump", "empty line inside the header: " + vp::quote(dump));
  return dump.substr(0, dump.size() - 4);
}

static http::Verification_level level(Src& s) { return s.chance(1, 2) ? http::HTTP_CHECK_WEAK : http::HTTP_CHECK_STRICT; }

static XHeaders xheaders(Src& s, std::map<std::string, std::string>& model)
{
  XHeaders x;
  size_t most = s.chance(1, 40) ? 120 : 4;
  for (size_t i = 0; i < most && s.more(most > 4 ? 2 : 40); ++i) {
    std::string k = hg::recase(s, "x-") + hg::recase(s, hg::grown(s, hg::token(s), 600)), v = hg::grown(s, hg::value(s));
    x[k] = v; model[hg::lower(k)] = v;
  }
  return x;
}

static void check_x(const http::Header& h, const std::map<std::string, std::string>& m)
{
  XHeaders x;
  h.get_xheaders(x);
  VP_CHECK(x.size() == m.size(), "xheaders", std::to_string(x.size()) + " X- headers instead of " + std::to_string(m.size()));
  for (auto& kv : m) { auto i = x.find(kv.first); VP_CHECK(i != x.end() && i->second == kv.second, "xheaders", kv.first + " is " + (i == x.end() ? "missing" : vp::quote(i->second)) + " instead of " + vp::quote(kv.second)); }
}

static std::string creds(Src& s, bool colon)
{
  std::string b = gen::bytes(s, 16);
  std::string o;
  for (char c : b) if (colon || c != ':') o += c;
  return hg::grown(s, o, 3000);
}

static void requests(Src& s)
{
  std::string uri = "/"; { std::string v = hg::value(s); for (char c : v) if (c != ' ' && c != '\t') uri += c; uri = hg::grown(s, uri); }
  if (s.chance(1, 5)) uri = "http://" + hg::token(s) + ":80" + uri;
  std::string vhost = hg::grown(s, hg::token(s));
  int port = (int)s.draw(65536);
  http::Request_header h(uri, vhost, port);
  size_t len = s.draw(uint64_t(1) << 32, [](vp::Rng& r) -> uint64_t { return r.chance(1, 2) ? r.below(100000) : (r.next() >> r.below(32)) & 0xffffffffu; });
  h.set_content_length(len);
  bool ka = s.chance(1, 2), set_ka = s.chance(3, 4);
  if (set_ka) h.set_conn_keep_alive(ka); else ka = false;
  bool auth = s.chance(1, 2);
  std::string u, p;
  if (auth) { u = creds(s, false); p = creds(s, true); h.set_authinfo(u, p); }
  std::map<std::string, std::string> xm;
  XHeaders x = xheaders(s, xm);
  h.set_xheaders(x);
  std::string d = h.dump();
  s.note("request header " + vp::quote(d, 800));
  std::unique_ptr<http::Request_header> r;
  try { r.reset(new http::Request_header(level(s), strip(d))); }
  catch (const std::exception& e) { vp::fail("rejected", std::string(e.what()) + ": " + vp::quote(d, 800)); }
  VP_CHECK(r->uri() == uri, "uri", vp::quote(uri) + " read as " + vp::quote(r->uri()));
  VP_CHECK(r->host() == vhost + ":" + std::to_string(port), "host", "host read as " + vp::quote(r->host()));
  VP_CHECK(r->agent() == h.agent() && !r->agent().empty(), "agent", "agent read as " + vp::quote(r->agent()));
  VP_CHECK(r->content_length() == len, "length", std::to_string(len) + " read as " + std::to_string(r->content_length()));
  VP_CHECK(r->conn_keep_alive() == ka, "keep-alive", "keep-alive read as " + std::to_string(r->conn_keep_alive()));
  VP_CHECK(r->has_authinfo() == auth, "auth", "has_authinfo " + std::to_string(r->has_authinfo()));
  if (auth) {
    std::string u2, p2;
    r->get_authinfo(u2, p2);
    VP_CHECK(u2 == u && p2 == p, "auth", "credentials " + vp::quote(u) + "/" + vp::quote(p) + " read as " + vp::quote(u2) + "/" + vp::quote(p2));
  } else {
    bool threw = false;
    std::string u2, p2;
    try { r->get_authinfo(u2, p2); } catch (const http::Unauthorized&) { threw = true; }
    VP_CHECK(threw, "auth", "get_authinfo without credentials did not raise");
  }
  check_x(*r, xm);
  VP_CHECK(!r->expect_continue(), "expect", "expectation appeared");
  s.nontrivial(d);
  s.label("request");
}

static void responses(Src& s)
{
  int code = (int)s.range(100, 999);
  std::string phrase = hg::token(s);
  std::string rest = s.chance(1, 3) ? " " + hg::grown(s, hg::token(s)) : "";
  http::Response_header h(code, phrase + rest);
  size_t len = s.draw(uint64_t(1) << 32, [](vp::Rng& r) -> uint64_t { return r.chance(1, 2) ? r.below(100000) : (r.next() >> r.below(32)) & 0xffffffffu; });
  h.set_content_length(len);
  bool ka = s.chance(1, 2), set_ka = s.chance(3, 4);
  if (set_ka) h.set_conn_keep_alive(ka); else ka = false;
  std::map<std::string, std::string> xm;
  XHeaders x = xheaders(s, xm);
  h.set_xheaders(x);
  std::string d = h.dump();
  s.note("response header " + vp::quote(d, 800));
  std::unique_ptr<http::Response_header> r;
  try { r.reset(new http::Response_header(level(s), strip(d))); }
  catch (const std::exception& e) { vp::fail("rejected", std::string(e.what()) + ": " + vp::quote(d, 800)); }
  VP_CHECK(r->code() == code, "code", "code read as " + std::to_string(r->code()));
  VP_CHECK(r->phrase() == phrase + rest, "phrase", "phrase read as " + vp::quote(r->phrase()));
  VP_CHECK(r->server() == h.server() && !r->server().empty(), "server", "server read as " + vp::quote(r->server()));
  VP_CHECK(r->content_length() == len, "length", std::to_string(len) + " read as " + std::to_string(r->content_length()));
  VP_CHECK(r->conn_keep_alive() == ka, "keep-alive", "keep-alive read as " + std::to_string(r->conn_keep_alive()));
  check_x(*r, xm);
  s.nontrivial(d.substr(0, d.find("date")) + phrase + std::to_string(len));
  s.label("response");
}

// A handwritten header in any letter case, padding and repetition
static void spelled(Src& s)
{
  bool req = s.chance(2, 3);
  const char* nl = s.chance(1, 2) ? "\r\n" : "\n";
  std::string uri = "/" + hg::token(s), d = req ? "POST " + uri + " HTTP/1.1" : "HTTP/1.1 200 OK";
  std::string host, agent = "unknown", server = "unknown", u, p; bool ka = false, auth = false, has_len = false; unsigned len = 0;
  std::map<std::string, std::string> xm;
  int refuse = 0;
  size_t n = s.chance(1, 60) ? s.draw(150) : s.draw(9);
  for (size_t i = 0; i < n; ++i) {
    std::string k, v;
    switch (s.draw(8)) {
    case 0: k = "host"; v = host = hg::grown(s, hg::value(s, 20, false)); break;
    case 1: k = "user-agent"; v = agent = hg::grown(s, hg::value(s, 20, false)); break;
    case 2: k = "server"; v = server = hg::grown(s, hg::value(s, 20, false)); break;
    case 3: k = "connection"; ka = s.chance(1, 2); v = ka ? "keep-alive" : "close"; break;
    case 4: k = "content-length"; len = (unsigned)s.draw(uint64_t(1) << 32); has_len = true; v = std::to_string(len); break;
    case 5: if (!req) continue; k = "authorization"; auth = true; u = creds(s, false); p = creds(s, true);
      v = hg::recase(s, "basic") + (s.chance(1, 2) ? " " : "\t") + ref::encode64(u + ":" + p); break;
    default: if (s.chance(1, 3) && !xm.empty()) k = xm.begin()->first; else k = "x-" + hg::lower(hg::token(s)); v = hg::grown(s, hg::value(s)); xm[k] = v; break;
    }
    d += nl + hg::recase(s, k) + (s.chance(1, 8) ? " " : "") + ":" + hg::pad(s) + v + hg::pad(s);
  }
  if (s.chance(1, 6)) {
    switch (s.draw(3)) {
    case 0: d += std::string(nl) + hg::token(s); refuse = 400; break;
    case 1: { static const char* t[] = { "x", "1x", "-5", "", "0x5", "1 2", "4294967296", "1e3" }; d += std::string(nl) + hg::recase(s, "content-length") + ": " + t[s.draw(8)]; refuse = 400; break; }
    default: if (req) { static const char* t[] = { "GET", "PUT", "post", "DELETE", "POSTS", "XPOST" }; d = t[s.draw(6)] + d.substr(4); refuse = 405; } break;
    }
  }
  s.note(vp::quote(d, 800) + " expect " + std::to_string(refuse));
  std::unique_ptr<http::Header> h;
  try { if (req) h.reset(new http::Request_header(level(s), d)); else h.reset(new http::Response_header(level(s), d)); }
  catch (const http::Error_response& e) { VP_CHECK(refuse == e.response_header()->code(), "refusal", "refused with " + std::to_string(e.response_header()->code())); s.label("refused"); s.nontrivial(d); return; }
  catch (const http::Malformed_packet& e) { VP_CHECK(refuse == 400, "refusal", std::string("refused: ") + e.what()); s.label("refused"); s.nontrivial(d); return; }
  VP_CHECK(!refuse, "accepted", "accepted: " + vp::quote(d, 800));
  VP_CHECK(h->conn_keep_alive() == ka, "keep-alive", "keep-alive read as " + std::to_string(h->conn_keep_alive()));
  if (has_len) VP_CHECK(h->content_length() == len, "length", "length read as " + std::to_string(h->content_length()));
  else { bool threw = false; try { h->content_length(); } catch (const http::Length_required&) { threw = true; } VP_CHECK(threw, "length", "missing length not reported"); }
  check_x(*h, xm);
  if (auto* r = dynamic_cast<http::Request_header*>(h.get())) {
    VP_CHECK(r->uri() == uri && r->host() == host && r->agent() == agent, "fields", "uri/host/agent read as " + r->uri() + "/" + r->host() + "/" + r->agent());
    VP_CHECK(r->has_authinfo() == auth, "auth", "has_authinfo");
    if (auth) { std::string a, b; r->get_authinfo(a, b); VP_CHECK(a == u && b == p, "auth", "credentials read as " + vp::quote(a) + "/" + vp::quote(b)); }
  } else {
    auto* q = dynamic_cast<http::Response_header*>(h.get());
    VP_CHECK(q->code() == 200 && q->phrase() == "OK" && q->server() == server, "fields", "response fields");
  }
  if (n > 1) s.nontrivial(d);
  s.label("spelled");
}

// Any text at all: a header or an exception, and nothing else
static void raw(Src& s)
{
  bool req = s.chance(1, 2);
  static const char* lines[] = { "POST", "POST ", "POST  /", " POST / HTTP/1.1", "POST\t/\tHTTP/1.1", "", " ", "\t", "POST / HTTP/1.1 more words", "HTTP/1.1", "HTTP/1.1 ", "HTTP/1.1 200", "HTTP/1.1 200 ", " HTTP/1.1 200 OK", "HTTP/1.1 200 O K", "200", "HTTP/1.1 -1 x", "POST / HTTP/1.1", "HTTP/1.1 200 OK" };
  static const char* fields[] = { "", ":", " : ", "a", "a:", ":b", "::", "content-length:", "content-length: 5", "content-length: 5: 5", "connection", "connection:", "connection: keep-alive, x", "authorization:", "authorization: ", "authorization: Basic",
    "authorization: Basic ", "authorization: Basic =", "authorization: Basic QUFB", "authorization: Basic QTpC", "authorization: Digest x", "authorization: Basic QTpC extra", "authorization: Basic ====", "host", "host:", "host: a:b:c", "user-agent:", "expect:", "expect: 100-continue", "x-:", "X-a:", "x-a: \x01", " folded", "\tfolded: x", "date: x", "content-type:", "content-type: ;", "server:" };
  std::string d = lines[s.draw(sizeof lines / sizeof *lines)];
  if (s.chance(1, 6)) d = gen::bytes(s, 30);
  for (size_t i = 0; i < 6 && s.more(30); ++i) {
    d += s.chance(1, 5) ? "\n" : "\r\n";
    d += s.chance(1, 5) ? gen::bytes(s, 20) : std::string(fields[s.draw(sizeof fields / sizeof *fields)]);
  }
  for (size_t k = s.chance(1, 3) ? 1 + s.draw(4) : 0; k && !d.empty(); --k) {
    size_t p = s.draw(d.size());
    switch (s.draw(4)) { case 0: d[p] = (char)s.draw(256); break; case 1: d.erase(p, 1 + s.draw(8)); break; case 2: d.insert(p, d.substr(s.draw(d.size()), s.draw(20))); break; default: d.resize(p); }
  }
  if (s.chance(1, 4)) d += s.chance(1, 2) ? "\r\n" : "\n";
  s.note(std::string(req ? "request " : "response ") + vp::quote(d, 800));
  std::string o;
  // a size or an allocation no text this short can call for was read from somewhere else
  auto foreign = [&](const std::exception& e) { vp::fail("memory", "a header of " + std::to_string(d.size()) + " bytes calls for too much memory: " + e.what()); };
  auto ask = [&](const std::function<void()>& f) { try { f(); } catch (const std::bad_alloc& e) { foreign(e); } catch (const std::length_error& e) { foreign(e); } catch (const std::exception&) { s.label("a part raises"); } };
  try {
    std::unique_ptr<http::Header> h;
    http::Verification_level l = level(s);
    if (req) h.reset(new http::Request_header(l, d)); else h.reset(new http::Response_header(l, d));
    ask([&] { o += std::to_string(h->content_length()); });
    ask([&] { o += std::to_string(h->conn_keep_alive()); });
    ask([&] { o += std::to_string(h->expect_continue()); });
    ask([&] { XHeaders x; h->get_xheaders(x); });
    if (auto* r = dynamic_cast<http::Request_header*>(h.get())) {
      ask([&] { o += r->uri(); }); ask([&] { o += r->host(); }); ask([&] { o += r->agent(); });
      ask([&] { o += std::to_string(r->has_authinfo()); });
      ask([&] { std::string a, b; r->get_authinfo(a, b); o += a + b; });
    }
    if (auto* q = dynamic_cast<http::Response_header*>(h.get())) { ask([&] { o += std::to_string(q->code()); }); ask([&] { o += q->phrase(); }); ask([&] { o += q->server(); }); }
    ask([&] { o += h->dump(); });
    s.label("raw read");
  }
  catch (const std::bad_alloc& e) { foreign(e); }
  catch (const std::length_error& e) { foreign(e); }
  catch (const http::Error_response&) { s.label("raw refused"); }
  catch (const std::exception&) { s.label("raw refused"); }
  s.nontrivial(vp::mix(vp::hash64(d), req));
}

int main(int argc, char** argv)
{
  vp::Config c;
  c.id = "C12";
  c.props = { { "requests", requests, 2 }, { "responses", responses, 1 }, { "spelled", spelled, 3 }, { "raw", raw, 2 } };
  c.leak_check = true; c.leak_every = 500;
  return vp::main_impl(argc, argv, c);
}
