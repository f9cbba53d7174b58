// C41: the locale of the process changes nothing that is exchanged
#include "fake.h"
#include "damage.h"
#include <clocale>
#include <locale>
#include <sys/stat.h>
#include <sys/wait.h>

using namespace iqxmlrpc;
using vp::Src;

static std::string bad_xml; static bool bad_call;
void damage::must_refuse(Src&, const std::string& xml, bool as_call, const std::string&) { bad_xml = xml; bad_call = as_call; }

// ------------------------------------------------------------- locales
static const char* names[] = { "de_DE.UTF-8", "tr_TR.UTF-8", "en_IN.UTF-8", "fr_FR.UTF-8", "de_CH.UTF-8", "tr_TR.ISO-8859-9", "de_DE.ISO-8859-1" };
static bool have[7];

// Compiles them below the build folder, once.
static void make_locales()
{
  std::string dir = net::data_file("../build/locales");
  mkdir(net::data_file("../build").c_str(), 0777);
  mkdir(dir.c_str(), 0777);
  std::vector<pid_t> ps;
  for (auto n : names) {
    std::string out = dir + "/" + n, lang = std::string(n).substr(0, 5), cs = std::string(n).substr(6), tmp = out + ".tmp" + std::to_string(getpid());
    struct stat st;
    if (stat((out + "/LC_CTYPE").c_str(), &st) == 0) continue;
    pid_t p = fork();
    if (p == 0) {
      std::string cmd = "localedef -i " + lang + " -f " + cs + " '" + tmp + "' >/dev/null 2>&1; mv -T '" + tmp + "' '" + out + "' 2>/dev/null || rm -rf '" + tmp + "'";
      execl("/bin/sh", "sh", "-c", cmd.c_str(), (char*)0);
      _exit(1);
    }
    ps.push_back(p);
  }
  for (auto p : ps) waitpid(p, 0, 0);
  setenv("LOCPATH", dir.c_str(), 1);
  for (int i = 0; i < 7; ++i) { have[i] = setlocale(LC_ALL, names[i]) != 0; setlocale(LC_ALL, "C"); }
}

class Punct: public std::numpunct<char> {
public:
  Punct(char d, char t, const std::string& g): d_(d), t_(t), g_(g) {}
protected:
  char do_decimal_point() const { return d_; }
  char do_thousands_sep() const { return t_; }
  std::string do_grouping() const { return g_; }
  std::string do_truename() const { return "ja"; }
  std::string do_falsename() const { return "nein"; }
private:
  char d_, t_; std::string g_;
};

struct Locale {
  int kind; std::string name; char dec, sep; std::string grouping;
  explicit Locale(Src& s): dec(','), sep('.'), grouping("\3")
  {
    kind = (int)s.weighted({ 3, 3, 5 });
    if (kind == 0) {
      dec = ",.;'"[s.draw(4)]; sep = ".,' _"[s.draw(5)]; grouping = std::string(1, (char)(1 + s.draw(4)));
      if (s.chance(1, 3)) grouping += (char)(1 + s.draw(3));
      if (dec == sep) sep = ' ';
      s.note(std::string("C++ locale with decimal point ") + dec + " and separator " + sep);
      s.label("own facet");
    } else {
      size_t k = s.draw(7);
      if (!have[k]) throw vp::Discard();
      name = names[k];
      s.note((kind == 1 ? "setlocale " : "std::locale::global ") + name);
      s.label(name);
    }
  }
  void on() const
  {
    if (kind == 0) std::locale::global(std::locale(std::locale::classic(), new Punct(dec, sep, grouping)));
    else if (kind == 1) { if (!setlocale(LC_ALL, name.c_str())) throw vp::Discard(); }
    else std::locale::global(std::locale(name.c_str()));
  }
  static void off() { std::locale::global(std::locale::classic()); setlocale(LC_ALL, "C"); }
};

struct In { explicit In(const Locale& l) { l.on(); } ~In() { Locale::off(); } };

// fn's outcome in the C locale and in the other one
template <class F> static std::pair<std::string, std::string> twice(const Locale& l, F fn)
{
  auto run = [&]() -> std::string {
    try { return "= " + fn(); }
    catch (const std::exception& e) { return "raises"; }
  };
  std::string a = run(), b;
  { In in(l); b = run(); }
  return std::make_pair(a, b);
}

static std::string bits(const M& v)      // exact, and independent of the locale
{
  if (v.t == M::DBL) { uint64_t u; memcpy(&u, &v.d, 8); return "dbl#" + std::to_string(u); }
  if (v.t == M::ARR) { std::string o = "["; for (auto& x : v.a) o += bits(x) + ","; return o + "]"; }
  if (v.t == M::STRUCT) { std::string o = "{"; for (auto& x : v.m) o += std::to_string(x.first.size()) + ":" + x.first + bits(x.second) + ","; return o + "}"; }
  return std::to_string((int)v.t) + "#" + std::to_string(v.i) + "#" + v.s;
}

static std::string parsed(const std::string& xml, bool call)
{
  if (call) {
    std::unique_ptr<Request> r(parse_request(xml));
    std::string o = r->get_name();
    for (auto& p : r->get_params()) o += "|" + bits(from_value(p));
    return o;
  }
  Response r = parse_response(xml);
  if (r.is_fault()) return "fault " + std::to_string(r.fault_code()) + " " + r.fault_string();
  return bits(from_value(r.value()));
}

static void check(const std::pair<std::string, std::string>& r, const char* cls, const std::string& what)
{
  VP_CHECK(r.first == r.second, cls, what + ": " + vp::quote(r.second, 500) + " instead of " + vp::quote(r.first, 500));
}

static void codec(Src& s)
{
  Locale l(s);
  MOpts o; o.depth = (unsigned)s.draw(4); o.width = 4;
  M v = gen_value(s, o);
  gen::TextOpts no; no.max_cp = 8; no.blank_ok = false; no.empty_ok = false;
  std::string name = gen::text(s, no);
  int code = gen::int32(s);
  s.note(show(v));
  Value val = to_value(v);
  check(twice(l, [&] { Param_list p; p.push_back(val); return dump_request(Request(name, p)); }), "written", "a call");
  check(twice(l, [&] { return dump_response(Response(new Value(val))); }), "written", "a response");
  check(twice(l, [&] { return dump_response(Response(code, name)); }), "written", "a fault");
  Spell sp(s, s.chance(1, 4));
  bool call = s.chance(1, 2);
  std::string xml = call ? sp.call(name, { v }) : s.chance(1, 4) ? sp.fault(code, name) : sp.response(v);
  check(twice(l, [&] { return parsed(xml, call); }), "read", vp::quote(xml, 600));
  labels(s, v);
  s.nontrivial(vp::hash64(xml));
}

static void refused(Src& s)
{
  Locale l(s);
  static const char* tags[] = { "i4", "int", "i8", "boolean", "double", "dateTime.iso8601", "base64" };
  std::string xml; bool call = false;
  if (s.chance(1, 2)) {
    std::string tag = tags[s.draw(5)], t;
    static const char al[] = "0123456789.,' eE+-_;infaNI\xc2\xa0";
    if (s.chance(1, 2)) t = tag == "double" ? "1234567.25" : std::to_string(gen::int32(s));
    size_t n = s.draw(4) + (t.empty() ? 1 : 0);
    for (size_t i = 0; i < n; ++i) t.insert(s.draw(t.size() + 1), 1, al[s.draw(i ? sizeof al - 3 : 20)]);
    xml = "<methodResponse><params><param><value><" + tag + ">" + t + "</" + tag + "></value></param></params></methodResponse>";
  } else { damage::scalars(s); xml = bad_xml; call = bad_call; }
  s.note(vp::quote(xml, 600));
  check(twice(l, [&] { return parsed(xml, call); }), "read", vp::quote(xml, 600));
  s.nontrivial(vp::hash64(xml));
}

// now and then with the separators some locale writes
static std::string number(Src& s, const Locale& l, std::string n)
{
  if (!s.chance(1, 4)) return n;
  bool own = s.chance(2, 3);
  char sep = own ? l.sep : ",.'_ "[s.draw(5)];
  size_t group = own ? (size_t)l.grouping[0] : 1 + s.draw(3), next = own && l.grouping.size() > 1 ? (size_t)l.grouping[1] : group;
  for (size_t at = n.size(); at > group; group = next) { at -= group; n.insert(at, 1, sep); if (s.chance(1, 6)) break; }
  return n;
}

static std::string facts(const http::Request_header& h)
{
  std::string o = h.uri() + "|" + h.host() + "|" + h.agent() + "|" + (h.conn_keep_alive() ? "keep" : "close") + "|" + (h.expect_continue() ? "expect" : "");
  try { o += "|" + std::to_string(h.content_length()); } catch (const std::exception&) { o += "|no length"; }
  if (h.has_authinfo()) { std::string u, p; try { h.get_authinfo(u, p); o += "|" + u + ":" + p; } catch (const std::exception&) { o += "|bad auth"; } }
  XHeaders x; h.get_xheaders(x);
  for (auto i = x.begin(); i != x.end(); ++i) o += "|" + i->first + "=" + i->second;
  return o;
}

static void headers(Src& s)
{
  Locale l(s);
  std::string uri = "/" + hg::token(s, 8), vhost = hg::token(s, 8), user = hg::token(s, 6), pw = hg::token(s, 6);
  int port = 1 + (int)s.draw(65535), code = 100 + (int)s.draw(900);
  size_t len = s.draw(0, [](vp::Rng& r) -> uint64_t { return (r.next() >> 33) >> r.below(31); }) & 0x7fffffff;
  XHeaders x;
  for (size_t i = s.draw(4); i; --i) { std::string n = "X-" + hg::recase(s, s.chance(1, 2) ? "ID-INFO" : hg::token(s, 6)), v = hg::token(s, 8); s.note(n); x[n] = v; }
  check(twice(l, [&] {
    http::Request_header h(uri, vhost, port); h.set_content_length(len); h.set_authinfo(user, pw); h.set_conn_keep_alive(true); h.set_xheaders(x); return h.dump(); }), "written", "a request header");
  check(twice(l, [&] {
    http::Response_header h(code, "Some Phrase"); h.set_content_length(len); std::string d = h.dump();
    size_t a = hg::lower(d).find("\r\ndate:"); if (a == std::string::npos) return d;
    a += 2;
    std::string day = d.substr(a, d.find("\r\n", a) - a);
    for (auto& c : day) if (c >= '0' && c <= '9') c = '9';
    return d.substr(0, a) + day + d.substr(d.find("\r\n", a)); }), "written", "a response header");
  std::string t = "POST " + uri + " HTTP/1.1\r\n";
  std::vector<std::string> hs = { "Content-Length: " + number(s, l, std::to_string(len)), "Authorization: " + hg::recase(s, "Basic") + " " + ref::encode64(user + ":" + pw), "Connection: keep-alive", "Host: " + vhost, "Content-Type: " + hg::recase(s, "text/xml"),
    "X-Id: 1", "X-INFO-III: 2", "Expect: " + hg::recase(s, "100-continue"), "User-Agent: iii" };
  for (auto& h : hs) if (s.draw(3) != 2) { size_t c = h.find(':'); t += hg::recase(s, h.substr(0, c)) + h.substr(c) + "\r\n"; }
  http::Verification_level lev = s.chance(1, 2) ? http::HTTP_CHECK_STRICT : http::HTTP_CHECK_WEAK;
  t.resize(t.size() - 2);       // the reader takes the header without the line end before the blank line
  bool read = false;
  check(twice(l, [&] { http::Request_header h(lev, t); read = true; return facts(h); }), "read", vp::quote(t, 500));
  check(twice(l, [&] { XHeaders q(x); std::string o; for (auto i = x.begin(); i != x.end(); ++i) { std::string up = i->first; for (auto& c : up) if (c >= 'a' && c <= 'z') c -= 32; auto f = q.find(up); o += f == q.end() ? "missing" : f->second; } return o; }), "xheaders", "X- headers");
  std::string r = "HTTP/1.1 " + number(s, l, std::to_string(code)) + " OK\r\nCONTENT-LENGTH: " + number(s, l, std::to_string(len)) + "\r\nSERVER: i";
  check(twice(l, [&] { http::Response_header h(lev, r); return std::to_string(h.code()) + h.phrase() + h.server() + std::to_string(h.content_length()); }), "read", vp::quote(r, 300));
  s.label(read ? "header read" : "header refused");
  s.nontrivial(vp::hash64(t, len));
}

static std::string captured;
static std::mutex cmx;
static void capture(Src& s)
{
  Locale l(s);
  bool proxied = s.chance(1, 2), tls = proxied && s.chance(1, 3);
  net::tls_setup(tls);
  std::vector<std::string> seen;
  std::mutex mx;
  fake::Server sv([&](fake::Peer& p) {
    fake::Req r; std::string err;
    int got = fake::read_request(p, r, err, !tls);
    { std::lock_guard<std::mutex> g(mx); seen.push_back(got > 0 ? r.raw : err + p.buf.substr(0, 300)); }
    if (tls) { p.send("HTTP/1.1 503 No\r\nContent-Length: 0\r\n\r\n"); return; }
    p.send("HTTP/1.1 200 OK\r\nContent-Length: " + std::to_string(fake::result_xml("ok").size()) + "\r\nContent-Type: text/xml\r\n\r\n" + fake::result_xml("ok"));
  });
  sv.listen();
  std::string big(s.draw(3000), 'x');
  double d = gen::dbl(s); int n = gen::int32(s);
  XHeaders x; x["X-Id"] = "5";
  auto call = [&]() -> std::string {
    { std::lock_guard<std::mutex> g(mx); seen.clear(); }
    std::unique_ptr<Client_base> c(tls ? (Client_base*)new Client<Https_client_connection>(sv.addr(), "/RPC") : (Client_base*)new Client<Http_client_connection>(sv.addr(), "/RPC"));
    if (proxied) c->set_proxy(sv.addr());
    c->set_authinfo("u", "p"); c->set_xheaders(x); c->set_timeout(25);
    Param_list p; p.push_back(big); p.push_back(d); p.push_back(n);
    std::string out;
    try { Response r = c->execute("m", p); out = r.is_fault() ? "fault" : r.value().get_string(); }
    catch (const std::exception& e) { out = "raised " + std::string(e.what()); }
    std::lock_guard<std::mutex> g(mx);
    return out + (seen.size() == 1 ? seen[0] : std::to_string(seen.size()) + " requests");
  };
  s.note(std::string(tls ? "https " : "http ") + (proxied ? "through a proxy" : ""));
  check(twice(l, call), "sent", "a call");
  sv.finish();
  s.label(tls ? "CONNECT" : proxied ? "proxy" : "direct");
  s.nontrivial(vp::mix(vp::hash64(big), (uint64_t)n));
}

static void live(Src& s)
{
  Locale l(s);
  MOpts o; o.depth = (unsigned)s.draw(3); o.width = 4; o.big = s.chance(1, 3) ? 5000 : 0;
  std::vector<M> vs; for (size_t i = 0; i < 4 && (i < 1 || s.more(30)); ++i) vs.push_back(gen_value(s, o));
  net::Options op; op.tls = s.chance(1, 8); op.pool = s.chance(1, 3) ? 1 : 0;
  bool keep = s.chance(1, 2);
  struct Only: Auth_Plugin_base {
    bool do_authenticate(const std::string& u, const std::string& p) const { return u == "IiI" && p == "pw"; }
    bool do_authenticate_anonymous() const { return false; }
  } plugin;
  In in(l);
  net::Srv srv(op);
  srv.s->register_method("echo", new net::Fn_factory([](Method* m, const Param_list& p, Value& r) {
    Struct st; st.insert("v", p.at(0)); st.insert("user", m->authname()); auto i = m->xheaders().find("X-ID"); st.insert("x", i == m->xheaders().end() ? std::string("none") : i->second); r = st; }));
  srv.s->set_auth_plugin(plugin);
  srv.s->set_max_request_sz(100000);
  srv.s->set_verification_level(http::HTTP_CHECK_STRICT);
  srv.start_and_wait();
  std::unique_ptr<Client_base> c(op.tls ? (Client_base*)new Client<Https_client_connection>(srv.addr()) : (Client_base*)new Client<Http_client_connection>(srv.addr()));
  c->set_authinfo("IiI", "pw"); c->set_keep_alive(keep); c->set_timeout(25);
  XHeaders x; x["X-Id"] = "I1"; c->set_xheaders(x);
  for (auto& v : vs) {
    s.note("echo " + show(v));
    std::string err;
    try {
      Response r = c->execute("echo", to_value(v));
      if (r.is_fault()) err = "fault " + r.fault_string();
      else {
        M got = from_value(r.value()["v"]);
        if (bits(got) != bits(v)) err = "came back as " + show(got);
        else if (r.value()["user"].get_string() != "IiI" || r.value()["x"].get_string() != "I1") err = "user or header lost";
      }
    } catch (const std::exception& e) { err = std::string("raised ") + e.what(); }
    srv.check_alive();
    VP_CHECK(err.empty(), "call", "a call with " + show(v) + ": " + err);
    s.nontrivial(vp::hash64(bits(v)));
  }
  // a client that shouts
  net::Conn k; k.tls = op.tls;
  VP_CHECK(k.connect(srv.host, srv.port), "not-listening", "cannot connect");
  std::string body = "<methodCall><methodName>echo</methodName><params><param><value><string>a</string></value></param></params></methodCall>";
  k.send("POST /RPC HTTP/1.1\r\nCONTENT-LENGTH: " + std::to_string(body.size()) + "\r\nCONTENT-TYPE: TEXT/XML\r\nAUTHORIZATION: BASIC " + ref::encode64("IiI:pw") + "\r\nX-ID: Q\r\n\r\n" + body);
  net::Resp r;
  net::Conn::RR rr = k.read(r);
  VP_CHECK(rr == net::Conn::OK && r.code == 200 && r.body.find("Q") != std::string::npos, "shouted", std::string("a request with headers in capitals: ") + net::Conn::name(rr) + " " + vp::quote(r.head + r.body, 400));
  s.label("live");
  c.reset(); k.close();
  srv.stop();
}

int main(int argc, char** argv)
{
  make_locales();
  vp::Config c;
  c.id = "C41";
  c.props = { { "codec", codec, 20 }, { "refused", refused, 10 }, { "headers", headers, 15 }, { "capture", capture, 2 }, { "live", live, 3 } };
  c.hard_fail = true;
  c.worker_init = net::small_stacks;
  c.nondeterministic = true;
  return vp::main_impl(argc, argv, c);
}
