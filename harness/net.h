// Raw sockets and a server of the library running in a thread.
#ifndef VP_NET_H
#define VP_NET_H
#include "httpgen.h"
#include "refxml.h"
#include "libiqxmlrpc/libiqxmlrpc.h"
#include "libiqxmlrpc/http_server.h"
#include "libiqxmlrpc/https_server.h"
#include "libiqxmlrpc/executor.h"
#include "libiqxmlrpc/http_client.h"
#include "libiqxmlrpc/https_client.h"
#include "libiqxmlrpc/auth_plugin.h"
#include "libiqxmlrpc/http_errors.h"
#include "libiqxmlrpc/request.h"
#include "libiqxmlrpc/response.h"
#include <arpa/inet.h>
#include <atomic>
#include <condition_variable>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <map>
#include <memory>
#include <mutex>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <set>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>
#include <signal.h>
#include <openssl/ssl.h>
#include <openssl/err.h>
#include "libiqxmlrpc/ssl_lib.h"

namespace net {
using vp::Src;

const double LONG = 25;    // seconds after which a missing answer counts as missing

// Every process gets its own loopback address, so ports never clash.
inline std::string ip(unsigned k = 0)
{
  unsigned p = (unsigned)getpid();
  char b[32];
  snprintf(b, sizeof b, "127.%u.%u.%u", 64 + ((p >> 15) & 63) + (k ? 64 : 0), (p >> 7) & 255, ((p & 127) << 1 | (k & 1)));
  return b;
}

inline sockaddr_in addr_of(const std::string& host, int port)
{
  sockaddr_in a;
  memset(&a, 0, sizeof a);
  a.sin_family = AF_INET; a.sin_port = htons((uint16_t)port);
  inet_pton(AF_INET, host.c_str(), &a.sin_addr);
  return a;
}

// A free port of this process' address
inline int next_port()
{
  static int p = 10000 + getpid() % 1000;
  for (int i = 0; i < 20000; ++i) {
    if (++p >= 32000) p = 10000;
    int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    int one = 1;
    setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
    sockaddr_in a = addr_of(ip(), p);
    bool ok = bind(fd, (sockaddr*)&a, sizeof a) == 0;
    close(fd);
    if (ok) return p;
  }
  throw vp::Discard();
}

// ------------------------------------------------------------------ TLS
inline std::string data_file(const std::string& n)
{
  const char* d = getenv("VP_DATA");
  return std::string(d ? d : "/verif/data") + "/" + n;
}

// The library's context, made once per process; the disposition of SIGPIPE it chose is kept for TLS cases.
// Set by a check that makes and deletes the context itself.
inline bool& own_context() { static bool b = false; return b; }

inline void tls_setup(bool use)
{
  if (own_context()) return;
  static sighandler_t chosen = SIG_DFL;
  static bool done = false;
  if (use && !done) {
    signal(SIGPIPE, SIG_DFL);
    iqnet::ssl::ctx = iqnet::ssl::Ctx::client_server(data_file("server.crt"), data_file("server.key"));
    struct sigaction sa;
    sigaction(SIGPIPE, 0, &sa);
    chosen = sa.sa_handler;
    done = true;
  }
  signal(SIGPIPE, use ? chosen : SIG_DFL);
  if (done) { iqnet::ssl::ctx->verify_server(0); iqnet::ssl::ctx->verify_client(false, 0); }
}

// A context of the raw client, without or with a certificate
inline SSL_CTX* raw_ctx(const std::string& cert = "")
{
  static std::mutex mx; std::lock_guard<std::mutex> l(mx);
  static std::map<std::string, SSL_CTX*> all;
  SSL_CTX*& c = all[cert];
  if (!c) {
    c = SSL_CTX_new(TLS_client_method());
    SSL_CTX_set_verify(c, SSL_VERIFY_NONE, 0);
    SSL_CTX_set_mode(c, SSL_MODE_ENABLE_PARTIAL_WRITE | SSL_MODE_ACCEPT_MOVING_WRITE_BUFFER);
    if (!cert.empty()) { SSL_CTX_use_certificate_file(c, data_file(cert + ".crt").c_str(), SSL_FILETYPE_PEM); SSL_CTX_use_PrivateKey_file(c, data_file(cert + ".key").c_str(), SSL_FILETYPE_PEM); }
  }
  return c;
}

struct Resp {
  int code;
  std::string phrase, head, body;
  std::map<std::string, std::string> h;
  bool keep() const { auto i = h.find("connection"); return i != h.end() && i->second == "keep-alive"; }
};

class Conn {
public:
  int fd;
  std::string buf;
  bool eof, broken;
  bool tls;                    // speak TLS as soon as connected
  std::string cert;            // with this certificate
  SSL* ssl;
  Conn(): fd(-1), eof(false), broken(false), tls(false), ssl(0) {}
  ~Conn() { close(); }
  Conn(const Conn&) = delete;
  Conn& operator=(const Conn&) = delete;

  // retries while the server is not listening yet
  bool connect(const std::string& host, int port, const std::string& src = "", double retry = LONG)
  {
    close();
    double end = vp::now() + retry;
    for (;;) {
      fd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
      if (fd < 0) throw vp::Discard();
      int one = 1;
      setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
      if (!src.empty()) { sockaddr_in a = addr_of(src, 0); if (::bind(fd, (sockaddr*)&a, sizeof a)) { ::close(fd); fd = -1; throw vp::Discard(); } }
      sockaddr_in a = addr_of(host, port);
      if (::connect(fd, (sockaddr*)&a, sizeof a) == 0) break;
      ::close(fd); fd = -1;
      if (vp::now() > end) return false;
      usleep(200);
    }
    fcntl(fd, F_SETFL, O_NONBLOCK);
    buf.clear(); eof = broken = false;
    if (tls) { ssl = SSL_new(raw_ctx(cert)); SSL_set_fd(ssl, fd); SSL_set_connect_state(ssl); }
    return true;
  }

  void close() { drop_ssl(); if (fd >= 0) ::close(fd); fd = -1; }
  void drop_ssl() { if (ssl) { ERR_clear_error(); if (!eof && !broken && SSL_is_init_finished(ssl)) SSL_shutdown(ssl); ERR_clear_error(); SSL_free(ssl); ssl = 0; } }
  // completes the handshake; false when refused or broken
  bool handshake(double timeout = LONG)
  {
    double end = vp::now() + timeout;
    for (;;) {
      ERR_clear_error();
      int r = SSL_do_handshake(ssl);
      if (r == 1) return true;
      int e = SSL_get_error(ssl, r);
      if (e != SSL_ERROR_WANT_READ && e != SSL_ERROR_WANT_WRITE) { broken = true; return false; }
      if (vp::now() > end) return false;
      pollfd p = { fd, (short)(e == SSL_ERROR_WANT_READ ? POLLIN : POLLOUT), 0 };
      ::poll(&p, 1, 500);
    }
  }
  void reset() { if (ssl) { SSL_free(ssl); ssl = 0; } if (fd >= 0) { linger l = { 1, 0 }; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); ::close(fd); fd = -1; } }
  void half_close() { if (ssl) { ERR_clear_error(); SSL_shutdown(ssl); } ::shutdown(fd, SHUT_WR); }

  // one read; returns >0 bytes, 0 end of stream, -1 nothing within the time, -2 connection broken
  int fill(double timeout)
  {
    if (eof) return 0;
    if (broken) return -2;
    double end = vp::now() + timeout;
    for (;;) {
      char b[16384];
      short want = POLLIN;
      ssize_t n;
      if (ssl) {
        ERR_clear_error();
        n = SSL_read(ssl, b, sizeof b);
        if (n <= 0) {
          int e = SSL_get_error(ssl, (int)n);
          bool gone = e == SSL_ERROR_ZERO_RETURN || (e == SSL_ERROR_SSL && ERR_GET_REASON(ERR_peek_error()) == SSL_R_UNEXPECTED_EOF_WHILE_READING);
          if (gone) n = 0;
          else { n = -1; errno = e == SSL_ERROR_WANT_READ || e == SSL_ERROR_WANT_WRITE ? EAGAIN : ECONNRESET; if (e == SSL_ERROR_WANT_WRITE) want = POLLOUT; }
        }
      } else
        n = ::recv(fd, b, sizeof b, 0);
      if (n > 0) { buf.append(b, (size_t)n); return (int)n; }
      if (n == 0) { eof = true; return 0; }
      if (errno != EAGAIN && errno != EINTR) { broken = true; return -2; }
      double left = end - vp::now();
      if (left <= 0) return -1;
      pollfd p = { fd, want, 0 };
      ::poll(&p, 1, (int)std::min(left * 1000 + 1, 1000.0));
    }
  }

  // Sends everything, reading meanwhile so that nobody blocks; false when the peer has gone.
  bool send(const std::string& d, double timeout = LONG)
  {
    double end = vp::now() + timeout;
    size_t p = 0;
    while (p < d.size()) {
      ssize_t n;
      short want = POLLOUT;
      if (ssl) {
        ERR_clear_error();
        n = SSL_write(ssl, d.data() + p, (int)std::min<size_t>(d.size() - p, 1 << 20));
        if (n <= 0) { int e = SSL_get_error(ssl, (int)n); n = -1; errno = e == SSL_ERROR_WANT_READ || e == SSL_ERROR_WANT_WRITE ? EAGAIN : ECONNRESET; if (e == SSL_ERROR_WANT_READ) want = 0; }
      } else
        n = ::send(fd, d.data() + p, d.size() - p, MSG_NOSIGNAL);
      if (n > 0) { p += (size_t)n; continue; }
      if (errno != EAGAIN && errno != EINTR) return false;
      if (vp::now() > end) return false;
      pollfd q = { fd, (short)(want | (eof || broken ? 0 : POLLIN)), 0 };
      ::poll(&q, 1, (int)std::min(200.0, timeout * 1000));
      if (q.revents & POLLIN) fill(0);
    }
    return true;
  }
  bool send(const std::vector<std::string>& pieces, unsigned pause_us)
  {
    for (size_t i = 0; i < pieces.size(); ++i) {
      if (i && pause_us) usleep(pause_us);
      if (!send(pieces[i])) return false;
    }
    return true;
  }

  enum RR { OK, CLOSED, RESET, TIMEOUT, BAD };
  static const char* name(RR r) { static const char* t[] = { "ok", "closed", "reset", "timeout", "malformed" }; return t[r]; }

  // Reads one HTTP message: header up to CRLF CRLF and Content-Length bytes.
  RR read(Resp& r, double timeout = LONG)
  {
    double end = vp::now() + timeout;
    size_t e;
    while ((e = buf.find("\r\n\r\n")) == std::string::npos) {
      int n = fill(end - vp::now());
      if (n == 0) return CLOSED;
      if (n == -1) return TIMEOUT;
      if (n == -2) return RESET;
    }
    r.head = buf.substr(0, e); r.h.clear(); r.body.clear(); r.code = 0; r.phrase.clear();
    std::string rest;
    size_t l = r.head.find("\r\n");
    std::string first = r.head.substr(0, l);
    if (first.compare(0, 7, "HTTP/1.") || first.size() < 12 || first[8] != ' ') return BAD;
    for (int i = 9; i < 12; ++i) { if (first[i] < '0' || first[i] > '9') return BAD; r.code = r.code * 10 + (first[i] - '0'); }
    if (first.size() > 13) r.phrase = first.substr(13);
    while (l != std::string::npos) {
      size_t s = l + 2; l = r.head.find("\r\n", s);
      std::string line = r.head.substr(s, l == std::string::npos ? l : l - s);
      size_t c = line.find(':');
      if (c == std::string::npos) return BAD;
      std::string k = hg::lower(line.substr(0, c)), v = line.substr(c + 1);
      size_t a = v.find_first_not_of(" \t"); v = a == std::string::npos ? "" : v.substr(a, v.find_last_not_of(" \t") + 1 - a);
      r.h[k] = v;
    }
    size_t len = 0;
    if (r.h.count("content-length")) {
      const std::string& v = r.h["content-length"];
      if (v.empty() || v.find_first_not_of("0123456789") != std::string::npos || v.size() > 12) return BAD;
      len = strtoull(v.c_str(), 0, 10);
    } else if (r.code >= 200) return BAD;
    while (buf.size() < e + 4 + len) {
      int n = fill(end - vp::now());
      if (n == 0) return CLOSED;
      if (n == -1) return TIMEOUT;
      if (n == -2) return RESET;
    }
    r.body = buf.substr(e + 4, len);
    buf.erase(0, e + 4 + len);
    return OK;
  }

  // Waits for the end of the stream. 0: ended with nothing more, 1: more bytes came, -1: stays open, -2: reset
  int wait_end(double timeout = LONG)
  {
    double end = vp::now() + timeout;
    while (!eof && !broken) { int n = fill(end - vp::now()); if (n == -1) return -1; }
    if (!buf.empty()) return 1;
    return eof ? 0 : -2;
  }
  // nothing arrives and the connection stays open for a while
  bool quiet(double secs) { return buf.empty() && fill(secs) == -1; }
};

// ------------------------------------------------------------------ server
struct Options {
  bool tls; unsigned pool;     // pool 0: serial executor
  Options(): tls(false), pool(0) {}
};

class Srv {
public:
  Options o;
  int port;
  std::string host;
  std::unique_ptr<iqxmlrpc::Executor_factory_base> ef;
  std::unique_ptr<iqxmlrpc::Server> s;
  std::thread th;
  std::mutex mx;
  std::condition_variable cv;
  bool running, returned;
  std::string died;            // exception that left work()

  explicit Srv(const Options& op): o(op), port(next_port()), host(ip()), running(false), returned(false)
  {
    tls_setup(o.tls);
    if (o.pool) ef.reset(new iqxmlrpc::Pool_executor_factory(o.pool));
    else ef.reset(new iqxmlrpc::Serial_executor_factory);
    iqnet::Inet_addr a(host, port);
    if (o.tls) s.reset(new iqxmlrpc::Https_server(a, ef.get()));
    else s.reset(new iqxmlrpc::Http_server(a, ef.get()));
  }

  void start()
  {
    running = true; returned = false; died.clear();
    th = std::thread([this] {
      std::string d;
      try { s->work(); }
      catch (const std::exception& e) { d = std::string("exception: ") + e.what(); }
      catch (...) { d = "unknown exception"; }
      std::lock_guard<std::mutex> l(mx);
      died = d; returned = true;
      cv.notify_all();
    });
  }

  // connects and closes again, to know that the server is listening
  void start_and_wait()
  {
    start();
    Conn c;
    if (!c.connect(host, port)) { check_alive(); vp::fail("not-listening", "the server does not listen"); }
  }

  void check_alive()
  {
    std::lock_guard<std::mutex> l(mx);
    VP_CHECK(!returned, "server-down", "the serving loop ended: " + died);
  }

  bool join(double timeout = LONG)
  {
    {
      std::unique_lock<std::mutex> l(mx);
      if (!cv.wait_for(l, std::chrono::milliseconds((long)(timeout * 1000)), [this] { return returned; })) return false;
    }
    th.join();
    running = false;
    return true;
  }

  void stop()
  {
    if (!running) return;
    s->set_exit_flag();
    VP_CHECK(join(), "stop-hang", "the serving loop did not return after a stop request");
    VP_CHECK(died.empty(), "server-down", "the serving loop ended: " + died);
  }

  // pool before server: the order in which they can be destroyed safely
  ~Srv() { stop(); ef.reset(); s.reset(); }

  iqnet::Inet_addr addr() const { return iqnet::Inet_addr(host, port); }
};

// A method made of a function object.
typedef std::function<void(iqxmlrpc::Method*, const iqxmlrpc::Param_list&, iqxmlrpc::Value&)> Body;

class Fn: public iqxmlrpc::Method {
public:
  explicit Fn(const Body& b): b_(b) {}
private:
  void execute(const iqxmlrpc::Param_list& p, iqxmlrpc::Value& r) { b_(this, p, r); }
  Body b_;
};

class Fn_factory: public iqxmlrpc::Method_factory_base {
public:
  explicit Fn_factory(const Body& b): b_(b) {}
  iqxmlrpc::Method* create() { return new Fn(b_); }
private:
  Body b_;
};

// What the methods saw; written by server threads, read by the case.
class Log {
public:
  void add(const std::string& e) { std::lock_guard<std::mutex> l(m_); v_.push_back(e); }
  std::vector<std::string> take() { std::lock_guard<std::mutex> l(m_); std::vector<std::string> r; r.swap(v_); return r; }
  std::vector<std::string> peek() { std::lock_guard<std::mutex> l(m_); return v_; }
  size_t size() { std::lock_guard<std::mutex> l(m_); return v_.size(); }
private:
  std::mutex m_;
  std::vector<std::string> v_;
};

inline std::string join(const std::vector<std::string>& v, const char* sep = ", ", size_t max = 60)
{
  std::string o;
  for (auto& e : v) { if (!o.empty()) o += sep; o += vp::quote(e, max); }
  return "[" + o + "]";
}

// "echo": records its string argument and returns it with "R" in front
inline void add_echo(iqxmlrpc::Server& s, Log& log)
{
  s.register_method("echo", new Fn_factory([&log](iqxmlrpc::Method*, const iqxmlrpc::Param_list& p, iqxmlrpc::Value& r) {
    std::string a = p.empty() || !p[0].is_string() ? "?" : p[0].get_string();
    log.add(a);
    r = "R" + a;
  }));
}

// Small thread stacks: the sanitizer clears the shadow of the whole stack with every thread.
inline void stacks(size_t kb)
{
  pthread_attr_t a;
  pthread_attr_init(&a);
  pthread_attr_setstacksize(&a, kb * 1024);
  pthread_setattr_default_np(&a);
  pthread_attr_destroy(&a);
}

inline void small_stacks() { stacks(512); }
inline void large_stacks() { stacks(4096); }

inline size_t count_fds()
{
  size_t n = 0;
  DIR* d = opendir("/proc/self/fd");
  if (!d) return 0;
  while (readdir(d)) ++n;
  closedir(d);
  return n;
}

// what the open descriptors are
inline std::string show_fds()
{
  std::string o;
  for (int f = 0; f < 200; ++f) {
    if (fcntl(f, F_GETFD) < 0) continue;
    sockaddr_in a, b; socklen_t la = sizeof a, lb = sizeof b;
    memset(&a, 0, sizeof a); memset(&b, 0, sizeof b);
    if (getsockname(f, (sockaddr*)&a, &la)) continue;
    getpeername(f, (sockaddr*)&b, &lb);
    tcp_info ti; socklen_t lt = sizeof ti; memset(&ti, 0, sizeof ti);
    getsockopt(f, IPPROTO_TCP, TCP_INFO, &ti, &lt);
    o += " " + std::to_string(f) + ":" + std::to_string(ntohs(a.sin_port)) + "-" + std::to_string(ntohs(b.sin_port)) + "/" + std::to_string(ti.tcpi_state);
  }
  return o;
}

// ------------------------------------------------------------- request text
inline std::string call_xml(const std::string& method, const std::string& arg)
{
  std::string e;
  for (char c : arg) { if (c == '<') e += "&lt;"; else if (c == '&') e += "&amp;"; else if (c == '>') e += "&gt;"; else if (c == '\r') e += "&#13;"; else e += c; }
  return "<?xml version=\"1.0\"?><methodCall><methodName>" + method + "</methodName><params><param><value><string>" + e + "</string></value></param></params></methodCall>";
}

// a client whose address, virtual host, credentials and X- headers must not matter
inline std::unique_ptr<iqxmlrpc::Client_base> client(vp::Src& s, bool tls, const iqnet::Inet_addr& a, std::string* path = 0)
{
  using namespace iqxmlrpc;
  std::string uri = "/RPC", vhost;
  bool plain = s.chance(2, 3);
  if (!plain) {
    static const char* uris[] = { "/", "/RPC2", "/RPC/", "/a/b?c=d&e=%20", "/%2e%2e/x;y", "//x" };
    uri = s.chance(1, 6) ? "/" + std::string(1 + s.draw(3000), 'u') : uris[s.draw(6)];
    static const char* hosts[] = { "", "example.org", "EXAMPLE.org", "127.0.0.77", "a" };
    vhost = s.chance(1, 6) ? std::string(1 + s.draw(200), 'h') : hosts[s.draw(5)];
    s.note("URI " + uri.substr(0, 30) + (vhost.empty() ? "" : " host " + vhost.substr(0, 30)));
  }
  if (path) *path = (uri[0] == '/' ? "" : "/") + uri;
  std::unique_ptr<Client_base> c;
  if (tls) c.reset(new Client<Https_client_connection>(a, uri, vhost)); else c.reset(new Client<Http_client_connection>(a, uri, vhost));
  if (!plain && s.chance(1, 3)) c->set_authinfo("u" + std::string(s.draw(60), 'n'), std::string(s.draw(60), 'p'));
  if (!plain && s.chance(1, 3)) { XHeaders h; for (size_t k = 1 + s.draw(4); k; --k) h["X-h" + std::to_string(k)] = std::string(s.draw(50), 'v'); c->set_xheaders(h); }
  return c;
}

inline std::string request(const std::string& body, bool keep, const std::string& extra = "")
{
  return "POST /RPC HTTP/1.1\r\nHost: x\r\nContent-Type: text/xml\r\nContent-Length: " + std::to_string(body.size()) + "\r\nConnection: " + (keep ? "keep-alive" : "close") + "\r\n" + extra + "\r\n" + body;
}

// the same with a request line and headers that mean the same to the server
inline std::string request(vp::Src& s, const std::string& body, bool keep, const std::string& extra = "")
{
  if (s.chance(2, 3)) return request(body, keep, extra);
  static const char* uris[] = { "/", "/RPC2", "*", "/a/b/c", "/RPC?x=1&y=2", "http://localhost:80/RPC", "/%20%00", "//", "/RPC/", "RPC", "/favicon.ico", "/index.html" };
  std::string uri = s.chance(3, 4) ? uris[s.draw(12)] : hg::grown(s, "/" + hg::token(s, 10), 3000, 10);
  std::vector<std::string> h = {
    hg::recase(s, "Content-Length") + ":" + (s.chance(1, 2) ? " " : "") + std::to_string(body.size()),
    hg::recase(s, "Connection") + ": " + (keep ? "keep-alive" : "close") };
  if (!keep && s.chance(1, 4)) h.pop_back();
  if (s.chance(2, 3)) h.push_back(hg::recase(s, "Content-Type") + (s.chance(1, 2) ? ": text/xml" : ": text/xml; charset=utf-8"));
  if (s.chance(2, 3)) h.push_back("Host: " + std::string(s.chance(1, 2) ? "localhost:8080" : s.chance(1, 2) ? "" : "127.0.0.1"));
  if (s.chance(1, 2)) h.push_back("User-Agent: " + hg::value(s));
  static const char* more[] = { "Accept: */*", "Accept-Encoding: gzip, deflate", "Accept-Language: en", "Cache-Control: no-cache", "Pragma: no-cache", "Date: Sun, 06 Nov 1994 08:49:37 GMT", "Via: 1.0 fred, 1.1 p.example.net", "Origin: null", "Referer: /", "Cookie: a=b", "Server: x" };
  while (h.size() < 12 && s.chance(1, 3)) h.push_back(more[s.draw(11)]);
  for (size_t i = h.size(); i-- > 1; ) std::swap(h[i], h[s.draw(i + 1)]);
  std::string o = "POST " + uri + (s.chance(1, 2) ? " HTTP/1.1\r\n" : " HTTP/1.0\r\n");
  size_t at = s.draw(h.size() + 1);
  for (size_t i = 0; i <= h.size(); ++i) { if (i == at) o += extra; if (i < h.size()) o += h[i] + "\r\n"; }
  return o + "\r\n" + body;
}

// the string in a successful response, by the reference reader
struct Answer { bool fault; int code; std::string text; };
inline Answer answer(const std::string& body)
{
  Answer a; a.fault = false; a.code = 0;
  try {
    auto r = ref::response(body);
    if (r.fault) { a.fault = true; a.code = r.code; a.text = r.str; return a; }
    if (r.v.t != M::STR) vp::fail("answer-type", "unexpected result type: " + vp::quote(body, 300));
    a.text = r.v.s;
  } catch (const ref::RefError& e) { vp::fail("answer-malformed", "the response is not valid XML-RPC (" + e.msg + "): " + vp::quote(body, 400)); }
  return a;
}

} // namespace net
#endif
