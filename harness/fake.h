// A scripted HTTP(S) server and proxy built on raw sockets: one thread per connection.
#ifndef VP_FAKE_H
#define VP_FAKE_H
#include "net.h"
#include <deque>

namespace fake {
using net::LONG;

inline SSL_CTX* server_ctx(const std::string& cert = "server")
{
  static std::map<std::string, SSL_CTX*> all;
  static std::mutex mx;
  std::lock_guard<std::mutex> l(mx);
  SSL_CTX*& c = all[cert];
  if (!c) {
    c = SSL_CTX_new(TLS_server_method());
    SSL_CTX_set_session_cache_mode(c, SSL_SESS_CACHE_OFF);
    SSL_CTX_use_certificate_file(c, net::data_file(cert + ".crt").c_str(), SSL_FILETYPE_PEM);
    SSL_CTX_use_PrivateKey_file(c, net::data_file(cert + ".key").c_str(), SSL_FILETYPE_PEM);
    SSL_CTX_set_mode(c, SSL_MODE_ENABLE_PARTIAL_WRITE | SSL_MODE_ACCEPT_MOVING_WRITE_BUFFER);
  }
  return c;
}

// One accepted connection
class Peer {
public:
  int fd; SSL* ssl; std::string buf; bool eof, broken; int index; int port;
  std::atomic<bool>* over;                 // set when the case ends
  Peer(int f, int i, int p, std::atomic<bool>* ov): fd(f), ssl(0), eof(false), broken(false), index(i), port(p), over(ov) {}
  ~Peer() { close(); }
  void close() { if (ssl) { ERR_clear_error(); if (SSL_is_init_finished(ssl) && !broken) SSL_shutdown(ssl); ERR_clear_error(); SSL_free(ssl); ssl = 0; } if (fd >= 0) ::close(fd); fd = -1; }
  void reset() { if (ssl) { SSL_free(ssl); ssl = 0; } if (fd >= 0) { linger l = { 1, 0 }; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); ::close(fd); } fd = -1; }

  bool wait(short ev, double end)
  {
    while (!*over && vp::now() < end) {
      pollfd p = { fd, ev, 0 };
      if (::poll(&p, 1, 20) > 0) return true;
    }
    return false;
  }

  bool handshake(const std::string& cert = "server")
  {
    ssl = SSL_new(server_ctx(cert));
    SSL_set_fd(ssl, fd);
    SSL_set_accept_state(ssl);
    double end = vp::now() + LONG;
    for (;;) {
      ERR_clear_error();
      int r = SSL_do_handshake(ssl);
      if (r == 1) return true;
      int e = SSL_get_error(ssl, r);
      if (e != SSL_ERROR_WANT_READ && e != SSL_ERROR_WANT_WRITE) { broken = true; return false; }
      if (!wait(e == SSL_ERROR_WANT_READ ? POLLIN : POLLOUT, end)) return false;
    }
  }

  // >0 bytes, 0 end or broken or time over
  ssize_t fill(double end)
  {
    for (;;) {
      char b[16384];
      short want = POLLIN;
      ssize_t n;
      if (ssl) {
        ERR_clear_error();
        n = SSL_read(ssl, b, sizeof b);
        if (n <= 0) {
          int e = SSL_get_error(ssl, (int)n);
          if (e == SSL_ERROR_WANT_READ || e == SSL_ERROR_WANT_WRITE) { n = -1; errno = EAGAIN; if (e == SSL_ERROR_WANT_WRITE) want = POLLOUT; }
          else { eof = true; return 0; }
        }
      } else n = ::recv(fd, b, sizeof b, MSG_DONTWAIT);
      if (n > 0) { buf.append(b, (size_t)n); return n; }
      if (n == 0) { eof = true; return 0; }
      if (errno != EAGAIN && errno != EINTR) { broken = true; return 0; }
      if (!wait(want, end)) return 0;
    }
  }

  // all of it, or false
  bool send(const std::string& d)
  {
    double end = vp::now() + LONG;
    size_t p = 0;
    while (p < d.size()) {
      ssize_t n;
      short want = POLLOUT;
      if (ssl) {
        ERR_clear_error();
        n = SSL_write(ssl, d.data() + p, (int)std::min<size_t>(d.size() - p, 1 << 20));
        if (n <= 0) { int e = SSL_get_error(ssl, (int)n); n = -1; errno = e == SSL_ERROR_WANT_READ || e == SSL_ERROR_WANT_WRITE ? EAGAIN : EPIPE; if (e == SSL_ERROR_WANT_READ) want = POLLIN; }
      } else n = ::send(fd, d.data() + p, d.size() - p, MSG_NOSIGNAL | MSG_DONTWAIT);
      if (n > 0) { p += (size_t)n; continue; }
      if (errno != EAGAIN && errno != EINTR) return false;
      if (!wait(want, end)) return false;
    }
    return true;
  }

  // sleeps unless the case ends
  void pause(double secs) { double end = vp::now() + secs; while (!*over && vp::now() < end) usleep((useconds_t)std::min(20000.0, std::max(1.0, (end - vp::now()) * 1e6))); }
  // until the client goes away or the case ends
  void hold() { while (!*over && !eof && !broken) { buf.clear(); fill(vp::now() + LONG); } }
};

// An HTTP request as it stands on the wire
struct Req {
  std::string raw, line, body;
  std::vector<std::pair<std::string, std::string>> h;    // names as sent
  std::string get(const std::string& n) const { for (auto& x : h) if (hg::lower(x.first) == n) return x.second; return ""; }
  size_t count(const std::string& n) const { size_t k = 0; for (auto& x : h) k += hg::lower(x.first) == n; return k; }
};

// Reads one request strictly (CRLF lines, "name: value", Content-Length digits).
// 1 read, 0 end of stream before any byte, -1 the stream is not a well-formed request (err says why)
inline int read_request(Peer& p, Req& r, std::string& err, bool body = true)
{
  double end = vp::now() + LONG;
  size_t e;
  while ((e = p.buf.find("\r\n\r\n")) == std::string::npos)
    if (!p.fill(end)) { if (p.buf.empty()) return 0; err = "incomplete header"; return -1; }
  r = Req();
  std::string head = p.buf.substr(0, e);
  size_t l = head.find("\r\n");
  r.line = head.substr(0, l);
  while (l != std::string::npos) {
    size_t s = l + 2; l = head.find("\r\n", s);
    std::string t = head.substr(s, l == std::string::npos ? l : l - s);
    size_t c = t.find(':');
    if (c == std::string::npos || !c) { err = "header line without a name: " + vp::quote(t); return -1; }
    std::string v = t.substr(c + 1);
    size_t a = v.find_first_not_of(" \t"); v = a == std::string::npos ? "" : v.substr(a, v.find_last_not_of(" \t") + 1 - a);
    r.h.push_back(std::make_pair(t.substr(0, c), v));
  }
  size_t n = 0;
  if (body) {
    std::string cl = r.get("content-length");
    if (cl.empty() || cl.find_first_not_of("0123456789") != std::string::npos || cl.size() > 10) { err = "bad content length " + vp::quote(cl); return -1; }
    n = strtoull(cl.c_str(), 0, 10);
    while (p.buf.size() < e + 4 + n) if (!p.fill(end)) { err = "body shorter than declared"; return -1; }
    r.body = p.buf.substr(e + 4, n);
  }
  r.raw = p.buf.substr(0, e + 4 + n);
  p.buf.erase(0, e + 4 + n);
  return 1;
}

// Listens on a port of this process' address; every connection is handled by fn in a thread of its own.
class Server {
public:
  typedef std::function<void(Peer&)> Fn;
  int port; std::string host;
  Fn fn;
  std::atomic<int> accepted;
  explicit Server(const Fn& f): port(net::next_port()), host(net::ip()), fn(f), accepted(0), fd_(-1), over_(false), stop_(false) {}
  ~Server() { finish(); }
  void listen(int backlog = 64)
  {
    fd_ = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    int one = 1;
    setsockopt(fd_, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
    sockaddr_in a = net::addr_of(host, port);
    if (::bind(fd_, (sockaddr*)&a, sizeof a) || ::listen(fd_, backlog)) throw vp::Discard();
    stop_ = false;
    th_ = std::thread([this] { run(); });
  }
  // no more connections; those accepted go on
  void unlisten()
  {
    if (fd_ < 0) return;
    stop_ = true;
    th_.join();
    ::close(fd_); fd_ = -1;
  }
  void finish()
  {
    over_ = true;
    unlisten();
    std::vector<std::thread> t;
    { std::lock_guard<std::mutex> l(mx_); t.swap(ts_); }
    for (auto& x : t) x.join();
    over_ = false;
  }
  iqnet::Inet_addr addr() const { return iqnet::Inet_addr(host, port); }
private:
  void run()
  {
    while (!stop_) {
      pollfd p = { fd_, POLLIN, 0 };
      if (::poll(&p, 1, 5) <= 0) continue;
      int f = ::accept4(fd_, 0, 0, SOCK_CLOEXEC | SOCK_NONBLOCK);
      if (f < 0) continue;
      int one = 1;
      setsockopt(f, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
      int i = accepted++;
      std::lock_guard<std::mutex> l(mx_);
      ts_.emplace_back([this, f, i] { Peer p(f, i, port, &over_); fn(p); });
    }
  }
  int fd_;
  std::thread th_;
  std::atomic<bool> over_, stop_;
  std::mutex mx_;
  std::vector<std::thread> ts_;
};

inline std::string xml_escape(const std::string& s)
{
  std::string e;
  for (char c : s) { if (c == '<') e += "&lt;"; else if (c == '&') e += "&amp;"; else if (c == '>') e += "&gt;"; else if (c == '\r') e += "&#13;"; else e += c; }
  return e;
}
inline std::string result_xml(const std::string& s) { return "<?xml version=\"1.0\"?>\r\n<methodResponse><params><param><value><string>" + xml_escape(s) + "</string></value></param></params></methodResponse>"; }
inline std::string fault_xml(int code, const std::string& s) { return "<?xml version=\"1.0\"?><methodResponse><fault><value><struct><member><name>faultCode</name><value><int>" + std::to_string(code) + "</int></value></member><member><name>faultString</name><value><string>" + xml_escape(s) + "</string></value></member></struct></value></fault></methodResponse>"; }

} // namespace fake
#endif
