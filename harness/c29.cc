// C29: X- headers travel case-insensitively and only they do
#include "net.h"
#include "libiqxmlrpc/xheaders.h"

using namespace iqxmlrpc;
using vp::Src;
typedef std::map<std::string, std::string> Map;

static std::string key(Src& s, const std::vector<std::string>& used)
{
  if (!used.empty() && s.chance(2, 5)) return hg::recase(s, s.one_of(used));
  switch (s.draw(8)) {
  case 0: case 1: case 2: return "X-" + hg::token(s, 10);
  case 3: return "x-" + hg::token(s, 10);
  case 4: { static const char* t[] = { "X-", "x-", "X", "-X-a", "XX-a", "X_a", "", "Y-a", "Host", "Content-Length", " X-a", "ax-b", "Xa-" }; return t[s.draw(13)]; }
  case 5: return hg::token(s, 8);
  case 6: { static const char* t[] = { "X-Host", "X-Content-Length", "X-Connection", "X-a:b", "X-A b" }; return t[s.draw(5)]; }
  default: return "X-" + hg::value(s, 10);
  }
}

static bool valid(const std::string& k) { return k.size() >= 2 && (k[0] == 'X' || k[0] == 'x') && k[1] == '-'; }

static void compare(const XHeaders& x, const Map& m, const std::string& what)
{
  VP_CHECK(x.size() == m.size(), "size", what + ": " + std::to_string(x.size()) + " headers instead of " + std::to_string(m.size()));
  Map got;
  for (XHeaders::const_iterator i = x.begin(); i != x.end(); ++i) {
    VP_CHECK(valid(i->first), "invalid-name", what + ": holds " + vp::quote(i->first));
    got[hg::lower(i->first)] = i->second;
  }
  VP_CHECK(got == m, "contents", what + ": contents differ");
}

// the container alone
static void container(Src& s)
{
  XHeaders x;
  Map m;
  std::vector<std::string> used;
  size_t n = s.chance(1, 40) ? 1 + s.draw(400) : 1 + s.draw(20);
  uint64_t hash = 0;
  for (size_t i = 0; i < n; ++i) {
    switch (s.draw(4)) {
    case 0: case 1: {
      std::string k = key(s, used), v = hg::value(s);
      s.note("[" + vp::quote(k) + "] = " + vp::quote(v));
      hash = vp::mix(hash, vp::hash64(k, 1));
      bool threw = false;
      try { x[k] = v; } catch (const Error_xheader&) { threw = true; }
      VP_CHECK(threw == !valid(k), "write", "writing " + vp::quote(k) + (threw ? " raised" : " was accepted"));
      VP_CHECK(XHeaders::validate(k) == valid(k), "validate", "validate(" + vp::quote(k) + ")");
      if (valid(k)) { m[hg::lower(k)] = v; used.push_back(k); s.label("accepted write"); } else s.label("refused write");
      break; }
    case 2: {
      std::string k = key(s, used);
      s.note("find " + vp::quote(k));
      auto i = x.find(k);
      auto j = m.find(hg::lower(k));
      VP_CHECK((i == x.end()) == (j == m.end()) && (i == x.end() || i->second == j->second), "find", "looking up " + vp::quote(k));
      break; }
    default: {
      std::map<std::string, std::string> a;
      std::map<std::string, std::set<std::string>> cand;
      size_t c = s.draw(6);
      for (size_t j = 0; j < c; ++j) { std::string k = key(s, used); a[k] = hg::value(s); }
      for (auto& kv : a) if (valid(kv.first)) { cand[hg::lower(kv.first)].insert(kv.second); used.push_back(kv.first); }
      x = a;
      s.note("bulk assignment of " + std::to_string(a.size()));
      hash = vp::mix(hash, a.size() + 77);
      VP_CHECK(x.size() == cand.size(), "bulk", "bulk assignment leaves " + std::to_string(x.size()) + " headers instead of " + std::to_string(cand.size()));
      m.clear();
      for (auto& kv : cand) { auto i = x.find(kv.first); VP_CHECK(i != x.end() && kv.second.count(i->second), "bulk", "header " + vp::quote(kv.first) + " after bulk assignment"); m[kv.first] = i->second; }
      s.label("bulk");
      break; }
    }
    compare(x, m, "after step " + std::to_string(i));
  }
  XHeaders y(x), z;
  z = x;
  compare(y, m, "copy"); compare(z, m, "assigned");
  if (n > 1) s.nontrivial(hash);
}

// a set of headers the wire can carry
static Map wire(Src& s)
{
  Map m;
  size_t n = s.chance(1, 40) ? s.draw(100) : s.draw(6);
  for (size_t i = 0; i < n; ++i) m[hg::lower("X-" + hg::grown(s, hg::token(s, 10), 400))] = hg::grown(s, hg::value(s));
  return m;
}

static std::string ser(const Map& m) { std::string o; for (auto& k : m) o += k.first + "\x01" + k.second + "\x02"; return o; }

static void live(Src& s)
{
  net::Options o;
  o.pool = s.chance(1, 3) ? 1 + (unsigned)s.draw(3) : 0;
  o.tls = s.chance(1, 12);
  net::Log log;
  net::Srv srv(o);
  srv.s->register_method("see", new net::Fn_factory([&log](Method* me, const Param_list& p, Value& r) {
    Map m; XHeaders& x = me->xheaders();
    for (XHeaders::const_iterator i = x.begin(); i != x.end(); ++i) m[hg::lower(i->first)] = i->second;
    std::string miss;
    for (auto& kv : m) { std::string up = kv.first; for (char& c : up) c = (char)toupper(c); if (x.find(up) == x.end()) miss = "!"; }
    log.add(ser(m) + miss); r = "R" + p[0].get_string(); }));
  srv.start();
  size_t n = 1 + s.draw(6);
  bool lib = s.chance(1, 2);
  s.note(std::string(lib ? "library client" : "raw client") + (o.tls ? " https" : "") + " pool " + std::to_string(o.pool));
  uint64_t hash = lib;
  std::unique_ptr<Client_base> cl;
  net::Conn c;
  c.tls = o.tls;
  Map base;
  if (lib) {
    if (o.tls) cl.reset(new Client<Https_client_connection>(srv.addr())); else cl.reset(new Client<Http_client_connection>(srv.addr()));
    cl->set_keep_alive(s.chance(1, 2));
    net::Conn probe; VP_CHECK(probe.connect(srv.host, srv.port), "not-listening", "cannot connect");
  }
  for (size_t i = 0; i < n; ++i) {
    std::string id = "x" + std::to_string(i);
    Map m = wire(s);
    hash = vp::mix(hash, vp::hash64(ser(m)));
    if (lib) {
      if (s.chance(1, 3)) { base = wire(s); XHeaders b; for (auto& k : base) b[hg::recase(s, k.first)] = k.second; cl->set_xheaders(b); hash = vp::mix(hash, vp::hash64(ser(base))); }
      if (!base.empty() && s.chance(1, 2)) m[base.begin()->first] = hg::value(s);
      XHeaders x;
      for (auto& k : m) x[hg::recase(s, k.first)] = k.second;
      for (auto& k : base) m.insert(k);
      Param_list pl; pl.push_back(id);
      try {
        Response r = cl->execute("see", pl, x);
        VP_CHECK(!r.is_fault() && r.value().get_string() == "R" + id, "result", "wrong result");
      } catch (const std::exception& e) { srv.check_alive(); vp::fail("call", std::string("call failed: ") + e.what()); }
    } else {
      if (c.fd < 0) VP_CHECK(c.connect(srv.host, srv.port), "not-listening", "cannot connect");
      std::vector<std::pair<std::string, std::string>> h(m.begin(), m.end());
      // others that are no X- headers
      for (size_t k = s.draw(4); k; --k) { static const char* t[] = { "XY-a", "Accept", "Host", "User-Agent", "xa", "A-X-b", "Via" }; h.push_back({ t[s.draw(7)], hg::value(s) }); }
      for (size_t k = h.size(); k > 1; --k) std::swap(h[k - 1], h[s.draw(k)]);
      std::string extra;
      if (!m.empty() && s.chance(1, 4)) { extra = hg::recase(s, m.begin()->first) + ": overwritten\r\n"; }   // repeated: the last one counts
      for (auto& kv : h) extra += hg::recase(s, kv.first) + ":" + hg::pad(s) + kv.second + hg::pad(s) + "\r\n";
      bool keep = s.draw(4) != 3;
      c.send(hg::cut(s, net::request(s, net::call_xml("see", id), keep, extra)), 0);
      net::Resp a;
      net::Conn::RR rr = c.read(a);
      srv.check_alive();
      VP_CHECK(rr == net::Conn::OK && a.code == 200 && net::answer(a.body).text == "R" + id, "result", "wrong answer");
      if (!keep) c.close();
    }
    if (s.describing()) s.note(std::to_string(m.size()) + " headers: " + vp::quote(ser(m), 200));
    std::vector<std::string> ran = log.take();
    VP_CHECK(ran.size() == 1 && ran[0] == ser(m), "seen", "the method saw " + net::join(ran, ", ", 400) + " instead of " + vp::quote(ser(m), 400));
    s.label(m.empty() ? "no headers" : "headers");
  }
  s.label(lib ? "library client" : "raw client");
  s.nontrivial(hash);
  c.close();
  cl.reset();
  srv.stop();
}

int main(int argc, char** argv)
{
  vp::Config c;
  c.id = "C29";
  c.props = { { "container", container, 2 }, { "live", live, 3 } };
  c.hard_fail = true;
  c.worker_init = net::small_stacks;
  c.nondeterministic = true;
  return vp::main_impl(argc, argv, c);
}
