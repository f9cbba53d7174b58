// C16: no method runs unless the authentication plug-in allows the caller
#include "net.h"

using namespace iqxmlrpc;
using vp::Src;

// Grants a fixed set of users with their passwords.
class Plugin: public Auth_Plugin_base {
public:
  std::set<std::pair<std::string, std::string>> ok;
  bool anon;
  mutable net::Log seen;
private:
  bool do_authenticate(const std::string& u, const std::string& p) const { seen.add("U" + u + "\x01" + p); return ok.count({ u, p }) != 0; }
  bool do_authenticate_anonymous() const { seen.add("A"); return anon; }
};

static std::string word(Src& s, bool colon)
{
  std::string o;
  switch (s.draw(5)) {
  case 0: o = hg::token(s, 6); break;
  case 1: o = ""; break;
  case 2: o = gen::bytes(s, 12, 300); break;
  case 3: { gen::TextOpts t; o = gen::text(s, t); if (o.size() > 200) o.resize(200); break; }
  default: { static const char* t[] = { "admin", "root", ":", "a:b", "user name", "\t", "Basic", "=" }; o = t[s.draw(8)]; }
  }
  if (!colon) for (char& c : o) if (c == ':') c = ';';
  return hg::grown(s, o, 3000);
}

static void prop(Src& s)
{
  net::Options o;
  o.tls = s.chance(1, 10);
  o.pool = s.chance(1, 3) ? 1 + (unsigned)s.draw(3) : 0;
  net::Log log;
  Plugin pl;
  pl.anon = s.chance(1, 3);
  std::vector<std::pair<std::string, std::string>> known;
  size_t nk = 1 + s.draw(3);
  for (size_t i = 0; i < nk; ++i) known.push_back({ word(s, false), word(s, true) });
  for (auto& k : known) if (s.draw(4) != 3) pl.ok.insert(k);
  net::Srv srv(o);
  srv.s->register_method("who", new net::Fn_factory([&log](Method* m, const Param_list& p, Value& r) { log.add(p[0].get_string() + "\x01" + m->authname() + "\x01" + (m->authenticated() ? "1" : "0")); r = "R" + p[0].get_string(); }));
  srv.s->set_auth_plugin(pl);
  srv.start();
  s.note(std::string(o.tls ? "https" : "http") + " pool " + std::to_string(o.pool) + (pl.anon ? " anonymous allowed" : " no anonymous"));
  net::Conn cs[2];
  size_t n = s.chance(1, 60) ? 100 + s.draw(300) : 1 + s.draw(8), nc = 1 + s.draw(2);
  uint64_t hash = pl.anon; bool nt = false;
  for (size_t i = 0; i < n; ++i) {
    net::Conn& c = cs[s.draw(nc)];
    c.tls = o.tls;
    if (c.fd < 0) VP_CHECK(c.connect(srv.host, srv.port), "not-listening", "cannot connect");
    bool keep = s.draw(5) != 4;
    std::string id = "a" + std::to_string(i), hdr;
    bool run, fault_ok = false, must_see = true;
    std::string see, name;
    int kind = (int)s.weighted({ 6, 3, 4, 4, 4 });
    switch (kind) {
    case 0: case 3: { // credentials: known pair, or one part changed
      auto k = s.one_of(known);
      if (kind == 3) { switch (s.draw(4)) { case 0: k.second = word(s, true); break; case 1: k.first = word(s, false); break; case 2: k.second += "x"; break; default: if (!k.second.empty()) k.second.resize(k.second.size() - 1); } }
      std::string sch = s.chance(1, 3) ? hg::recase(s, "Basic") : "Basic";
      bool nocolon = k.second.empty() && s.chance(1, 2);
      hdr = hg::recase(s, "Authorization") + ": " + sch + " " + ref::encode64(nocolon ? k.first : k.first + ":" + k.second) + "\r\n";
      run = pl.ok.count(k) != 0; see = "U" + k.first + "\x01" + k.second; name = k.first;
      if (k.first.empty() && k.second.empty() && nocolon) { hdr = ""; run = pl.anon; see = "A"; name = ""; }   // nothing to encode
      break; }
    case 1: run = pl.anon; see = "A"; break;
    case 2: { // not Basic credentials
      static const char* t[] = { "Bearer", "Digest", "BasicX", "Bas", "" };
      hdr = "Authorization: " + std::string(t[s.draw(5)]) + (s.chance(3, 4) ? " " + ref::encode64(known[0].first + ":" + known[0].second) : "") + (s.chance(1, 4) ? " extra words" : "") + "\r\n";
      run = false; must_see = false; break; }
    default: { // undecodable credentials
      std::string e = ref::encode64(known[0].first + ":" + known[0].second);
      switch (s.draw(5)) {
      case 0: e.resize(e.size() - 1 - s.draw(2)); break;
      case 1: e[s.draw(e.size())] = "*!-_@\x80"[s.draw(6)]; break;
      case 2: e += "A"; break;
      case 3: e += " " + e; break;
      default: e += "===="; break;
      }
      hdr = "Authorization: Basic " + e + "\r\n";
      run = false; fault_ok = true; must_see = false; break; }
    }
    std::string text = net::request(s, net::call_xml("who", id), keep, hdr);
    hash = vp::mix(hash, vp::hash64(hdr, run));
    if (s.describing()) s.note(vp::quote(hdr, 200) + " expect " + (run ? "run as " + vp::quote(name) : std::string("refusal")));
    c.send(text);
    net::Resp a;
    net::Conn::RR rr = c.read(a);
    srv.check_alive();
    std::string what = "request with " + vp::quote(hdr, 200) + ": ";
    VP_CHECK(rr == net::Conn::OK, "no-answer", what + net::Conn::name(rr));
    std::vector<std::string> ran = log.take(), seen = pl.seen.take();
    if (run) {
      VP_CHECK(a.code == 200, "status", what + "status " + std::to_string(a.code) + " though allowed");
      net::Answer w = net::answer(a.body);
      VP_CHECK(!w.fault && w.text == "R" + id, "result", what + vp::quote(a.body, 300));
      VP_CHECK(ran.size() == 1 && ran[0] == id + "\x01" + name + "\x01" + (name.empty() ? "0" : "1"), "identity", what + "method saw " + net::join(ran) + " instead of user " + vp::quote(name));
      s.label(see == "A" ? "anonymous allowed" : "credentials accepted");
    } else {
      VP_CHECK(ran.empty(), "executed", what + "executed without permission: " + net::join(ran));
      bool refused = a.code == 401;
      if (a.code == 200 && fault_ok) refused = net::answer(a.body).fault;
      VP_CHECK(refused, "status", what + "status " + std::to_string(a.code) + " instead of 401");
      s.label(see == "A" ? "anonymous refused" : fault_ok ? "undecodable" : must_see ? "credentials refused" : "not basic");
      nt = true;
    }
    if (must_see) VP_CHECK(seen == std::vector<std::string>(1, see), "plugin", what + "the plug-in saw " + net::join(seen) + " instead of " + vp::quote(see));
    else VP_CHECK(seen.empty(), "plugin", what + "the plug-in saw " + net::join(seen));
    if (!keep) { VP_CHECK(c.wait_end() != -1 && c.buf.empty(), "close", what + "stays open or sends more"); c.close(); }
    else if (c.buf.size()) vp::fail("surplus", what + "surplus " + vp::quote(c.buf));
    if (keep && !a.keep()) { c.close(); }
  }
  s.label(o.tls ? "https" : "http");
  if (nt || n > 1) s.nontrivial(hash);
  for (auto& c : cs) c.close();
  srv.stop();
}

int main(int argc, char** argv)
{
  vp::Config c;
  c.id = "C16";
  c.props = { { "sequence", prop, 1 } };
  c.hard_fail = true;
  c.worker_init = net::small_stacks;
  c.nondeterministic = true;
  return vp::main_impl(argc, argv, c);
}
