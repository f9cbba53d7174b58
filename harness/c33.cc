// C33: servers in one process do not influence each other
#include "net.h"

using namespace iqxmlrpc;
using vp::Src;

class Plugin: public Auth_Plugin_base {
public:
  std::string user; bool anon;
private:
  bool do_authenticate(const std::string& u, const std::string& p) const { return u == user && p == "pw-" + user; }
  bool do_authenticate_anonymous() const { return anon; }
};

// marks the results that pass through it
class Mark: public Interceptor {
public:
  explicit Mark(const std::string& t): tag(t) {}
private:
  void process(Method* m, const Param_list& p, Value& r) { yield(m, p, r); if (r.is_string()) r = tag + r.get_string(); }
  std::string tag;
};

class Wall: public iqnet::Firewall_base {
public:
  bool open; std::string text;
private:
  bool grant(const iqnet::Inet_addr&) { return open; }
  std::string message() { return text; }
};

static const char* all[] = { "a", "b", "c", "longer.name" };

struct One {
  std::unique_ptr<net::Srv> srv;
  std::set<std::string> methods;
  bool intro, auth, strict, walled, up; size_t limit;
  std::string mark;
  Plugin pl; Wall wall; net::Log log;
};

struct Ask { std::string name, hdr, id; bool user, wrong, type; size_t pad; };

static std::string text_of(const Ask& a)
{
  std::string b = net::call_xml(a.name, a.id + std::string(a.pad, 'p'));
  return "POST / HTTP/1.1\r\nHost: x\r\nContent-Type: " + std::string(a.type ? "text/xml" : "text/plain") + "\r\nContent-Length: " + std::to_string(b.size()) + "\r\nConnection: keep-alive\r\n" + a.hdr + "\r\n" + b;
}

// compares one answer with what this server's configuration calls for
static void judge(One& o, size_t k, const Ask& a, const std::string& text, net::Conn::RR rr, const net::Resp& r, const std::vector<std::string>& ran)
{
  std::string what = "server " + std::to_string(k) + ", " + vp::quote(a.name) + " of " + std::to_string(text.size()) + " bytes" + (a.user ? a.wrong ? " as another server's user" : " as user" : "") + ": ";
  VP_CHECK(rr == net::Conn::OK, "no-answer", what + net::Conn::name(rr));
  int code = 200;
  bool runs = false;
  bool both = o.strict && !a.type && o.limit && text.size() >= o.limit;      // either refusal is right
  if (o.strict && !a.type && !(both && r.code == 413)) code = 415;
  else if (o.limit && text.size() >= o.limit) code = 413;
  else if (o.auth && (a.user ? a.wrong : !o.pl.anon)) code = 401;
  else runs = o.methods.count(a.name) || (o.intro && a.name == "system.listMethods");
  VP_CHECK(r.code == code, "status", what + "status " + std::to_string(r.code) + ", this server's configuration calls for " + std::to_string(code));
  if (code != 200) { VP_CHECK(ran.empty(), "executed", what + "executed: " + net::join(ran)); return; }
  bool list = a.name == "system.listMethods" && r.body.find("<fault>") == std::string::npos;
  net::Answer w;
  if (list) w.fault = false; else w = net::answer(r.body);
  VP_CHECK(w.fault == !runs, "fault", what + (w.fault ? "fault " + vp::quote(w.text) : "answered " + vp::quote(r.body, 200)) + " though the method is " + (runs ? "" : "not ") + "registered here");
  if (a.name == "system.listMethods") {
    if (!runs) return;
    for (auto m : all) {
      bool has = r.body.find("<string>" + std::string(m) + "</string>") != std::string::npos;
      VP_CHECK(has == (o.methods.count(m) != 0), "methods", what + "the list of methods " + (has ? "contains " : "misses ") + m);
    }
    return;
  }
  if (!runs) { VP_CHECK(ran.empty(), "executed", what + "executed: " + net::join(ran)); return; }
  std::string want = (o.mark.empty() ? "" : o.mark) + std::to_string(k) + "/" + a.name + "/" + a.id;
  VP_CHECK(w.text == want, "result", what + "answered " + vp::quote(w.text) + " instead of " + vp::quote(want));
  VP_CHECK(ran == std::vector<std::string>(1, a.id), "executed", what + "this server executed " + net::join(ran));
}

static void prop(Src& s)
{
  size_t ns = 2 + s.draw(2);
  One os[3];
  uint64_t hash = ns;
  for (size_t k = 0; k < ns; ++k) {
    One& o = os[k];
    net::Options op; op.tls = s.chance(1, 8); op.pool = s.chance(1, 3) ? 1 + (unsigned)s.draw(3) : 0;
    o.srv.reset(new net::Srv(op));
    o.up = false;
    for (auto m : all) if (s.chance(1, 2)) o.methods.insert(m);
    for (auto& m : o.methods) {
      std::string n = m;
      o.srv->s->register_method(n, new net::Fn_factory([&o, n, k](Method*, const Param_list& p, Value& r) {
        std::string id = p[0].get_string(); size_t z = id.find_last_not_of('p'); id.resize(z + 1);
        o.log.add(id); r = std::to_string(k) + "/" + n + "/" + id; }));
    }
    if ((o.intro = s.chance(1, 3))) o.srv->s->enable_introspection();
    if ((o.auth = s.chance(1, 3))) { o.pl.user = "user" + std::to_string(k); o.pl.anon = s.chance(1, 2); o.srv->s->set_auth_plugin(o.pl); }
    o.strict = s.chance(1, 4);
    o.srv->s->set_verification_level(o.strict ? http::HTTP_CHECK_STRICT : http::HTTP_CHECK_WEAK);
    o.limit = s.chance(1, 2) ? 300 + s.draw(2000) : 0;
    if (o.limit) o.srv->s->set_max_request_sz(o.limit);
    if (s.chance(1, 3)) { o.mark = "m" + std::to_string(k) + ":"; o.srv->s->push_interceptor(new Mark(o.mark)); }
    o.walled = s.chance(1, 5);
    o.wall.open = !o.walled; o.wall.text = "go away " + std::to_string(k);
    if (o.walled || s.chance(1, 4)) o.srv->s->set_firewall(&o.wall);
    if (s.describing()) s.note("server " + std::to_string(k) + (op.tls ? " https" : "") + " pool " + std::to_string(op.pool) + " methods " + std::to_string(o.methods.size()) + (o.intro ? " introspection" : "") + (o.auth ? o.pl.anon ? " auth+anonymous" : " auth" : "") + (o.strict ? " strict" : "") + " limit " + std::to_string(o.limit) + (o.mark.empty() ? "" : " marks") + (o.walled ? " walled off" : ""));
    hash = vp::mix(hash, op.tls + 2 * op.pool + 8 * o.intro + 16 * o.auth + 32 * o.strict + 64 * o.walled + 128 * o.methods.size());
  }
  net::tls_setup(os[0].srv->o.tls || os[1].srv->o.tls || (ns > 2 && os[2].srv->o.tls));
  for (size_t k = 0; k < ns; ++k) { os[k].srv->start_and_wait(); os[k].up = true; }
  net::Conn cs[3];
  size_t steps = 1 + s.draw(12), nt = 0;
  for (size_t i = 0; i < steps; ++i) {
    if (s.draw(8) == 7) {                       // one server stops or runs again
      size_t k = s.draw(ns);
      One& o = os[k];
      if (o.up) { cs[k].close(); o.srv->stop(); net::Conn c; VP_CHECK(!c.connect(o.srv->host, o.srv->port, "", 0), "still-there", "a stopped server accepts connections"); }
      else o.srv->start_and_wait();
      o.up = !o.up;
      if (s.describing()) s.note("server " + std::to_string(k) + (o.up ? " runs again" : " stopped"));
      s.label("stop or restart");
      continue;
    }
    // requests to all or some servers at once: sent first, read afterwards
    Ask as[3]; std::string text[3]; bool sent[3] = { false, false, false };
    for (size_t k = 0; k < ns; ++k) {
      One& o = os[k];
      if (!o.up || (s.chance(1, 3) && k)) continue;
      Ask& a = as[k];
      size_t m = s.draw(5);
      a.name = m < 4 ? all[m] : "system.listMethods";
      a.id = "i" + std::to_string(i) + "s" + std::to_string(k) + "x";
      a.user = s.chance(1, 2); a.wrong = a.user && s.chance(1, 3); a.type = s.draw(4) != 3; a.pad = 0;
      bool any = false;
      for (size_t j = 0; j < ns; ++j) any |= os[j].auth;
      if (!any) a.user = a.wrong = false;
      if (a.user) {
        size_t w = a.wrong ? (k + 1) % ns : k;
        std::string u = "user" + std::to_string(w);
        a.hdr = "Authorization: Basic " + ref::encode64(u + ":pw-" + u) + "\r\n";
      }
      if (s.chance(1, 2)) {                     // around the limit of some server
        size_t j = s.draw(ns), lim = os[j].limit ? os[j].limit : 3000;
        size_t base = text_of(a).size(), want = lim - 1 + s.draw(2);
        if (want > base) { a.pad = want - base; while (a.pad && text_of(a).size() > want) --a.pad; }
      }
      text[k] = text_of(a);
      net::Conn& c = cs[k];
      c.tls = o.srv->o.tls;
      if (o.walled) {
        net::Conn w; w.tls = c.tls;
        VP_CHECK(w.connect(o.srv->host, o.srv->port), "not-listening", "cannot connect");
        bool got = w.wait_end() != -1;
        VP_CHECK(got && (w.tls || w.broken || w.buf == o.wall.text), "wall", "server " + std::to_string(k) + " answered a refused peer with " + vp::quote(w.buf));
        s.label("walled off");
        continue;
      }
      if (c.fd >= 0 && s.chance(1, 3)) c.close();
      if (c.fd < 0) VP_CHECK(c.connect(o.srv->host, o.srv->port), "not-listening", "cannot connect");
      c.send(text[k]);
      sent[k] = true;
      if (s.describing()) s.note("to " + std::to_string(k) + " " + a.name + (a.user ? a.wrong ? " wrong user" : " user" : "") + (a.type ? "" : " no type") + " " + std::to_string(text[k].size()) + " bytes");
      hash = vp::mix(hash, k * 64 + m * 8 + a.user * 4 + a.wrong * 2 + a.type);
    }
    for (size_t k = 0; k < ns; ++k) {
      if (!sent[k]) continue;
      net::Resp r;
      net::Conn::RR rr = cs[k].read(r);
      for (size_t j = 0; j < ns; ++j) if (os[j].up) os[j].srv->check_alive();
      judge(os[k], k, as[k], text[k], rr, r, os[k].log.take());
      if (r.code != 200 || !r.keep()) cs[k].close();
      ++nt;
      s.label("status " + std::to_string(r.code));
    }
    for (size_t k = 0; k < ns; ++k) VP_CHECK(os[k].log.size() == 0, "executed", "server " + std::to_string(k) + " executed what was sent to another: " + net::join(os[k].log.peek()));
  }
  for (auto& c : cs) c.close();
  for (size_t k = ns; k-- > 0;) os[k].srv->stop();
  if (nt > 1) s.nontrivial(hash);
}

int main(int argc, char** argv)
{
  vp::Config c;
  c.id = "C33";
  c.props = { { "servers", prop, 1 } };
  c.hard_fail = true;
  c.worker_init = net::small_stacks;
  c.nondeterministic = true;
  return vp::main_impl(argc, argv, c);
}
