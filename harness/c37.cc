// C37: a method is told exactly who calls it
#include "net.h"

using namespace iqxmlrpc;
using vp::Src;

struct Facts {
  std::string name, host, user; int port; bool auth; std::map<std::string, std::string> x;
  bool operator==(const Facts& o) const { return name == o.name && host == o.host && user == o.user && port == o.port && auth == o.auth && x == o.x; }
};

static std::string show(const Facts& f)
{
  std::string o = "name " + vp::quote(f.name, 60) + ", peer " + f.host + ":" + std::to_string(f.port) + ", " + (f.auth ? "authenticated as " : "not authenticated, ") + vp::quote(f.user, 60) + ", headers";
  for (auto& h : f.x) o += " " + h.first + "=" + vp::quote(h.second, 40);
  return o;
}

static Facts facts(Method* m)
{
  Facts f;
  f.name = m->name(); f.user = m->authname(); f.auth = m->authenticated();
  char b[32];
  const sockaddr_in* a = m->peer_addr().get_sockaddr();
  inet_ntop(AF_INET, &a->sin_addr, b, sizeof b);
  f.host = b; f.port = m->peer_addr().get_port();
  if (m->peer_addr().get_host_name() != f.host) f.host += " (named " + m->peer_addr().get_host_name() + ")";
  if (ntohs(a->sin_port) != f.port) f.host += " (socket port " + std::to_string(ntohs(a->sin_port)) + ")";
  for (auto i = m->xheaders().begin(); i != m->xheaders().end(); ++i) f.x[i->first] = i->second;
  return f;
}

// What was seen, by place (method or interceptor) and by the number of the call.
static std::mutex mx;
static std::map<std::string, std::vector<Facts>> seen;
static void record(const char* place, Method* m, const Param_list& p)
{
  Facts f = facts(m);
  std::lock_guard<std::mutex> l(mx);
  seen[place + p[0].get_string()].push_back(f);
}

static void run(Method* m, const Param_list& p, Value& r)
{
  record("before ", m, p);
  if (p.size() > 1) usleep((useconds_t)p[1].get_int());
  record("after ", m, p);
  r = "R" + p[0].get_string();
}

class By_class: public Method { void execute(const Param_list& p, Value& r) { run(this, p, r); } };

class Disp: public Method_dispatcher_base {
  Method* do_create_method(const std::string& n) { return n.compare(0, 2, "d.") == 0 ? new By_class : 0; }
  void do_get_methods_list(Array&) const {}
};

class Watch: public Interceptor {
  void process(Method* m, const Param_list& p, Value& r) { record("outside ", m, p); yield(m, p, r); record("outside after ", m, p); }
};

class Plugin: public Auth_Plugin_base {
  bool do_authenticate(const std::string& u, const std::string& p) const { return p == "pw" + u; }
  bool do_authenticate_anonymous() const { return true; }
};

static void prop(Src& s)
{
  seen.clear();
  net::Options o;
  o.tls = s.chance(1, 8);
  o.pool = s.chance(1, 2) ? 1 + (unsigned)s.draw(4) : 0;
  Plugin pl;
  net::Srv srv(o);
  register_method<By_class>(*srv.s, "by.class");
  register_method(*srv.s, "by.function", &run);
  srv.s->register_method("by.factory", new net::Fn_factory(run));
  srv.s->push_dispatcher(new Disp);
  bool auth = s.chance(2, 3), icept = s.chance(1, 2);
  if (auth) srv.s->set_auth_plugin(pl);
  if (icept) srv.s->push_interceptor(new Watch);
  srv.start_and_wait();
  s.note(std::string(o.tls ? "https" : "http") + " pool " + std::to_string(o.pool) + (auth ? " with plug-in" : "") + (icept ? " with interceptor" : ""));
  size_t nc = 1 + s.draw(4);
  std::vector<std::unique_ptr<net::Conn>> cs(nc);
  for (auto& c : cs) c.reset(new net::Conn);
  size_t rounds = s.chance(1, 60) ? 40 + s.draw(100) : 1 + s.draw(5), n = 0;
  uint64_t hash = o.tls + 2 * o.pool + 16 * auth + 32 * icept;
  for (size_t r = 0; r < rounds; ++r) {
    std::vector<Facts> want(nc); std::vector<std::string> id(nc); std::vector<bool> keep(nc);
    // every connection of the round sends before any answer is read
    for (size_t k = 0; k < nc; ++k) {
      if (k && s.chance(1, 4)) continue;
      net::Conn& c = *cs[k];
      c.tls = o.tls;
      if (c.fd < 0) {
        char src[32]; snprintf(src, sizeof src, "127.%u.%u.%u", 200 + (unsigned)s.draw(50), (unsigned)s.draw(256), 1 + (unsigned)s.draw(254));
        VP_CHECK(c.connect(srv.host, srv.port, s.chance(3, 4) ? src : ""), "not-listening", "cannot connect");
      }
      Facts& f = want[k];
      sockaddr_in me; socklen_t l = sizeof me; getsockname(c.fd, (sockaddr*)&me, &l);
      char b[32]; inet_ntop(AF_INET, &me.sin_addr, b, sizeof b);
      f.host = b; f.port = ntohs(me.sin_port); f.auth = false;
      static const char* names[] = { "by.class", "by.function", "by.factory", "d.", "d.x" };
      f.name = names[s.draw(5)];
      if (f.name == "d.") { f.name += hg::token(s, 8); for (auto& ch : f.name) if (ch == '&') ch = '_'; }
      std::string hdr;
      if (s.chance(1, 2)) {
        std::string u = s.chance(1, 2) ? "u" + std::to_string(s.draw(4)) : hg::grown(s, hg::token(s, 10), 3000);
        hdr = "Authorization: Basic " + ref::encode64(u + ":pw" + u) + "\r\n";
        if (auth) { f.user = u; f.auth = true; }
      }
      size_t nx = s.chance(1, 60) ? s.draw(60) : s.draw(4);
      for (size_t i = 0; i < nx; ++i) {
        std::string h = s.chance(1, 2) ? "X-a" + std::to_string(s.draw(3)) : "x-" + hg::token(s, 8), v = hg::grown(s, hg::token(s, 12));
        hdr += h + ": " + v + "\r\n";
        f.x[hg::lower(h)] = v;
      }
      id[k] = std::to_string(n++);
      keep[k] = s.draw(4) != 3;
      std::string xml = "<methodCall><methodName>" + f.name + "</methodName><params><param><value><string>" + id[k] + "</string></value></param>";
      if (o.pool && s.chance(1, 2)) xml += "<param><value><int>" + std::to_string(s.draw(2000)) + "</int></value></param>";
      xml += "</params></methodCall>";
      if (s.describing()) s.note("round " + std::to_string(r) + " connection " + std::to_string(k) + " call " + id[k] + ": " + show(f));
      hash = vp::mix(hash, vp::hash64(f.name + hdr, k));
      c.send(net::request(s, xml, keep[k], hdr));
    }
    for (size_t k = 0; k < nc; ++k) {
      if (id[k].empty()) continue;
      net::Resp a;
      net::Conn::RR rr = cs[k]->read(a);
      srv.check_alive();
      std::string what = "call " + id[k] + " of " + vp::quote(want[k].name, 60) + ": ";
      VP_CHECK(rr == net::Conn::OK && a.code == 200, "no-answer", what + (rr == net::Conn::OK ? std::to_string(a.code) : net::Conn::name(rr)));
      net::Answer w = net::answer(a.body);
      VP_CHECK(!w.fault && w.text == "R" + id[k], "result", what + vp::quote(a.body, 300));
      std::lock_guard<std::mutex> l(mx);
      for (const char* place : { "before ", "after ", "outside ", "outside after " }) {
        if (!icept && place[0] == 'o') continue;
        auto& v = seen[place + id[k]];
        VP_CHECK(v.size() == 1, "executions", what + "seen " + std::to_string(v.size()) + " times " + place);
        VP_CHECK(v[0] == want[k], "facts", what + "told " + std::string(place[0] == 'o' ? "to the interceptor" : "to the method") + ": " + show(v[0]) + "; true is: " + show(want[k]));
      }
      if (!keep[k]) { cs[k]->close(); }
      if (want[k].auth) s.label("authenticated");
      if (!want[k].x.empty()) s.label("with X- headers");
    }
  }
  s.label(o.pool ? "pool" : "serial"); s.label(o.tls ? "https" : "http"); if (nc > 1) s.label("several peers");
  if (n > 1) s.nontrivial(hash);
  for (auto& c : cs) c->close();
  srv.stop();
}

int main(int argc, char** argv)
{
  vp::Config c;
  c.id = "C37";
  c.props = { { "calls", prop, 1 } };
  c.hard_fail = true;
  c.worker_init = net::small_stacks;
  c.nondeterministic = true;
  return vp::main_impl(argc, argv, c);
}
