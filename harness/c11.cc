// C11: packets are recognised the same however the bytes are segmented
#include "httpgen.h"
#include "refxml.h"
#include "libiqxmlrpc/http.h"
#include "libiqxmlrpc/http_errors.h"
#include <memory>

using namespace iqxmlrpc;
using vp::Src;

struct Msg {
  std::string head, body;       // head includes the empty line
  int refuse;                   // 0, or the HTTP status the refusal stands for
  std::string uri, host, agent, server, phrase; int code;
  bool keep; bool expect;
  std::map<std::string, std::string> x;
};

static Msg message(Src& s, bool request, bool strict)
{
  Msg m; m.refuse = 0; m.keep = m.expect = false; m.code = 0; m.host = ""; m.agent = "unknown"; m.server = "unknown";
  const char* nl = s.chance(1, 2) ? "\n" : "\r\n";
  m.body = gen::bytes(s, 40, 40000);
  if (s.draw(60) == 59) { size_t k = 50000 + s.draw(150000); m.body.reserve(k); for (size_t i = m.body.size(); i < k; ++i) m.body += (char)(i * 7 + i / 251); s.label("long body"); }
  if (s.chance(1, 3)) { static const char* t[] = { "\r\n\r\n", "\n\n", "POST / HTTP/1.0\r\nContent-Length: 3\r\n\r\n", "\r\n", "0\r\n\r\n" }; m.body.insert(s.draw(m.body.size() + 1), t[s.draw(5)]); }
  std::vector<std::pair<std::string, std::string>> h;
  bool len = true;
  std::string first;
  if (request) {
    std::string meth = "POST";
    if (s.chance(1, 12)) { static const char* t[] = { "GET", "PUT", "post", "POSTX", "HEAD", "OPTIONS" }; meth = t[s.draw(6)]; m.refuse = 405; }
    m.uri = "/" + hg::token(s);
    first = meth + " " + m.uri + " HTTP/1." + (s.chance(1, 2) ? "0" : "1");
  } else {
    m.code = (int)s.range(100, 599);
    m.phrase = hg::token(s) + (s.chance(1, 3) ? " more words" : "");
    first = "HTTP/1.1 " + std::to_string(m.code) + " " + m.phrase;
  }
  size_t n = s.draw(6);
  for (size_t i = 0; i < n; ++i) {
    switch (s.draw(7)) {
    case 0: h.push_back({ "Host", m.host = hg::value(s, 20, false) }); break;
    case 1: h.push_back({ "User-Agent", m.agent = hg::value(s, 20, false) }); break;
    case 2: { bool k = s.chance(1, 2); h.push_back({ "Connection", k ? "keep-alive" : "close" }); m.keep = k; break; }
    case 3: { std::string k = "X-" + hg::token(s), v = hg::value(s); h.push_back({ k, v }); m.x[hg::lower(k)] = v; break; }
    case 4: if (request && s.chance(1, 2)) { h.push_back({ "Expect", "100-continue" }); m.expect = true; } break;
    case 5: h.push_back({ "Server", m.server = hg::value(s, 20, false) }); break;
    default: h.push_back({ "Accept-" + hg::token(s), hg::value(s) }); break;
    }
  }
  bool ct_ok = true;
  if (s.chance(2, 3)) { ct_ok = m.refuse || s.chance(5, 6); h.push_back({ "Content-Type", ct_ok ? (s.chance(1, 2) ? "text/xml" : "Text/XML; charset=utf-8") : "text/plain" }); }
  if (!ct_ok && strict && !m.refuse) m.refuse = 415;
  std::string bad_line;
  if (!m.refuse) {
    switch (s.draw(30)) {
    case 0: len = false; m.refuse = 411; break;
    case 1: bad_line = "no colon here"; m.refuse = 400; break;
    case 2: { static const char* t[] = { "abc", "12x", "", "-1", "1.0", "0x10", "99999999999999", "+5" }; h.push_back({ "Content-Length", t[s.draw(8)] }); len = false; m.refuse = 400; break; }
    case 3: if (request) { h.push_back({ "Expect", "200-ok" }); m.refuse = 417; } break;
    }
  }
  if (len) h.insert(h.begin() + (long)s.draw(h.size() + 1), { "Content-Length", std::to_string(m.body.size()) });
  m.head = first + nl;
  if (!bad_line.empty()) { m.head += bad_line + nl; h.clear(); }
  for (auto& x : h) m.head += hg::recase(s, x.first) + ":" + hg::pad(s) + x.second + hg::pad(s) + nl;
  m.head += nl;
  return m;
}

static int status_of(const std::exception& e)
{
  if (auto* r = dynamic_cast<const http::Error_response*>(&e)) return r->response_header()->code();
  if (dynamic_cast<const http::Malformed_packet*>(&e)) return 400;
  return -1;
}

static void check_packet(const Msg& m, bool request, http::Packet* p, bool head_only)
{
  std::string want = head_only ? "" : m.body;
  VP_CHECK(p->content() == want, "body", "body of " + std::to_string(p->content().size()) + " bytes instead of " + std::to_string(want.size()) + ": " + vp::quote(p->content(), 200));
  const http::Header* h = p->header();
  VP_CHECK(h->content_length() == want.size(), "length", "content_length() " + std::to_string(h->content_length()));
  VP_CHECK(h->conn_keep_alive() == m.keep, "keep-alive", "conn_keep_alive() is " + std::to_string(h->conn_keep_alive()));
  VP_CHECK(h->expect_continue() == m.expect, "expect", "expect_continue() is " + std::to_string(h->expect_continue()));
  XHeaders x;
  h->get_xheaders(x);
  VP_CHECK(x.size() == m.x.size(), "xheaders", std::to_string(x.size()) + " X- headers instead of " + std::to_string(m.x.size()));
  for (auto& kv : m.x) { auto i = x.find(kv.first); VP_CHECK(i != x.end() && i->second == kv.second, "xheaders", "header " + kv.first); }
  if (request) {
    auto* r = dynamic_cast<const http::Request_header*>(h);
    VP_CHECK(r && r->uri() == m.uri, "uri", "uri " + vp::quote(r ? r->uri() : ""));
    VP_CHECK(r->host() == m.host, "host", "host " + vp::quote(r->host()) + " instead of " + vp::quote(m.host));
    VP_CHECK(r->agent() == m.agent, "agent", "agent " + vp::quote(r->agent()) + " instead of " + vp::quote(m.agent));
  } else {
    auto* r = dynamic_cast<const http::Response_header*>(h);
    VP_CHECK(r && r->code() == m.code && r->phrase() == m.phrase, "status", "status " + std::to_string(r ? r->code() : -1) + " " + (r ? r->phrase() : ""));
    VP_CHECK(r->server() == m.server, "server", "server " + vp::quote(r->server()));
  }
}

static void sequence(Src& s)
{
  bool request = s.chance(2, 3), strict = s.chance(1, 3);
  std::unique_ptr<http::Packet_reader> rd(new http::Packet_reader);
  rd->set_verification_level(strict ? http::HTTP_CHECK_STRICT : http::HTTP_CHECK_WEAK);
  size_t n = 1 + s.draw(4);
  bool nontrivial = false; uint64_t hash = 0;
  for (size_t i = 0; i < n; ++i) {
    Msg m = message(s, request, strict);
    std::string all = m.head + m.body;
    std::vector<std::string> parts = hg::cut(s, all);
    bool head_only = !request && s.chance(1, 5);
    if (head_only) { // stop at the piece that completes the header
      size_t sum = 0, k = 0;
      while (sum < m.head.size()) sum += parts[k++].size();
      parts.resize(k);
    }
    // bytes that follow the message are no part of it
    if (i + 1 == n && !head_only && s.chance(1, 6)) { static const char* t[] = { "\r\n", "x", "\n", "POST / HTTP/1.0\r\nContent-Length: 0\r\n\r\n", "yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy" }; parts.back() += t[s.draw(5)]; s.label("bytes after the message"); }
    s.note((request ? "request " : head_only ? "response header " : "response ") + std::to_string(parts.size()) + " pieces, expect " + (m.refuse ? std::to_string(m.refuse) : "packet") + ": " + vp::quote(all, 500) + "\n");
    size_t sum = 0; bool done = false;
    for (size_t k = 0; k < parts.size() && !done; ++k) {
      sum += parts[k].size();
      bool head_here = sum >= m.head.size();
      bool last = head_only ? head_here : sum >= all.size();
      std::unique_ptr<http::Packet> p;
      try { p.reset(request ? rd->read_request(parts[k]) : rd->read_response(parts[k], head_only)); }
      catch (const std::exception& e) {
        int st = status_of(e);
        VP_CHECK(m.refuse && st == m.refuse, "refusal", "refused with " + std::to_string(st) + " (" + e.what() + "), expected " + std::to_string(m.refuse) + ", after " + std::to_string(sum) + " of " + std::to_string(all.size()) + " bytes");
        VP_CHECK(head_here, "refused-early", "refused after " + std::to_string(sum) + " bytes, header has " + std::to_string(m.head.size()));
        done = true;
        // a refused connection is not read further
        s.label("refused:" + std::to_string(st));
        s.nontrivial(vp::hash64(all, parts.size()));
        return;
      }
      VP_CHECK(!(m.refuse && head_here) || (head_only && m.refuse == 411), "not-refused", "expected refusal " + std::to_string(m.refuse) + " after " + std::to_string(sum) + " bytes");
      if (p.get()) {
        VP_CHECK(last, "early", "delivered after " + std::to_string(sum) + " of " + std::to_string(all.size()) + " bytes");
        Msg w = m;
        check_packet(w, request, p.get(), head_only);
        done = true;
      } else VP_CHECK(!last, "late", "not delivered with the last of " + std::to_string(all.size()) + " bytes");
    }
    if (parts.size() > 1) { nontrivial = true; s.label("pieces:" + std::string(parts.size() > 20 ? "many" : "few")); }
    hash = vp::mix(hash, vp::hash64(all, parts.size()));
  }
  if (nontrivial) s.nontrivial(hash);
}

int main(int argc, char** argv)
{
  vp::Config c;
  c.id = "C11";
  c.props = { { "sequence", sequence, 1 } };
  c.leak_check = true; c.leak_every = 300;
  return vp::main_impl(argc, argv, c);
}
