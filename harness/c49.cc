// C49: a server obeys the settings in force, whenever they are changed between its runs or by its own methods
#include "net.h"

using namespace iqxmlrpc;
using vp::Src;

static net::Log trace;                   // what interceptors and methods did, in order

class Tag: public Interceptor {
  int n;
public:
  explicit Tag(int i): n(i) {}
  void process(Method* m, const Param_list& p, Value& r) { trace.add("i" + std::to_string(n)); yield(m, p, r); }
};

static Method_factory_base* tagged(const std::string& tag)
{
  return new net::Fn_factory([tag](Method*, const Param_list&, Value& r) { trace.add(tag); r = tag; });
}

class Names: public Method_dispatcher_base {
  std::string tag; std::set<std::string> names;
  Method* do_create_method(const std::string& n)
  {
    if (!names.count(n)) return 0;
    std::string t = tag + n;
    return new net::Fn([t](Method*, const Param_list&, Value& r) { trace.add(t); r = t; });
  }
  void do_get_methods_list(Array& a) const { for (auto& n : names) a.push_back(n); }
public:
  Names(const std::string& t, const std::set<std::string>& n): tag(t), names(n) {}
};

struct Plugin: public Auth_Plugin_base {
  std::string user; bool anon;
  Plugin(const std::string& u, bool a): user(u), anon(a) {}
  bool do_authenticate(const std::string& u, const std::string& p) const { return u == user && p == "pw"; }
  bool do_authenticate_anonymous() const { return anon; }
};

struct Wall: public iqnet::Firewall_base {
  bool open;
  explicit Wall(bool o): open(o) {}
  bool grant(const iqnet::Inet_addr&) { return open; }
  std::string message() { return ""; }
};

struct State {
  size_t max; bool strict; int plugin;                 // index or -1
  std::vector<int> inter;                              // in the order pushed
  std::map<std::string, std::string> methods;
  std::vector<std::pair<std::string, std::set<std::string>>> disp;
  int wall, log;                                       // -1: none
  bool introspect;
};

static const char* names[] = { "alpha", "beta", "gamma", "delta" };

static void prop(Src& s)
{
  trace.take();
  Plugin plugins[] = { Plugin("ann", true), Plugin("bob", false), Plugin("ann", false) };
  Wall walls[] = { Wall(true), Wall(false), Wall(true) };
  std::ostringstream logs[2];
  net::Options o;
  o.tls = s.chance(1, 5);
  o.pool = s.chance(1, 2) ? 1 + (unsigned)s.draw(3) : 0;
  std::mutex amx; std::function<void()> act;           // what the method "change" does
  net::Srv srv(o);
  srv.s->register_method("change", new net::Fn_factory([&](Method*, const Param_list&, Value& r) {
    trace.add("change");
    std::lock_guard<std::mutex> l(amx);
    if (act) act();
    r = "changed";
  }));
  State m;
  m.max = srv.s->get_max_request_sz(); m.strict = false; m.plugin = m.wall = m.log = -1; m.introspect = false;
  VP_CHECK(srv.s->get_verification_level() == http::HTTP_CHECK_WEAK, "default", "not weak by default");
  int seq = 0, changes = 0, live = 0, kept = 0, runs = 0;
  uint64_t hash = o.tls * 8 + o.pool;
  s.note(std::string(o.tls ? "https" : "http") + (o.pool ? " pool " + std::to_string(o.pool) : " serial"));

  // draws a change; returns the action that makes it and changes the model
  auto change = [&](bool running) -> std::function<void()> {
    Server* sv = srv.s.get();
    ++changes;
    unsigned k = (unsigned)s.weighted({ 4, 3, 4, 2, 4, running ? 0u : 2u, running ? 0u : 2u, running ? 0u : 2u, 1 });
    if (running && k >= 5 && k <= 7) k = 0;
    hash = vp::mix(hash, k);
    static const char* what[] = { "max size", "level", "plug-in", "interceptor", "method", "dispatcher", "firewall", "log", "introspection" };
    s.label(std::string(running ? "changed running: " : "changed stopped: ") + what[k]);
    switch (k) {
    case 0: { size_t v = s.chance(1, 4) ? 0 : 600 + s.draw(1200); m.max = v; s.note("max size " + std::to_string(v)); return [sv, v] { sv->set_max_request_sz(v); }; }
    case 1: { bool v = s.chance(1, 2); m.strict = v; s.note(v ? "strict" : "weak"); return [sv, v] { sv->set_verification_level(v ? http::HTTP_CHECK_STRICT : http::HTTP_CHECK_WEAK); }; }
    case 2: { int v = (int)s.draw(3); m.plugin = v; s.note("plug-in " + std::to_string(v)); const Plugin* p = &plugins[v]; return [sv, p] { sv->set_auth_plugin(*p); }; }
    case 3: { int v = seq++; m.inter.push_back(v); s.note("interceptor " + std::to_string(v)); return [sv, v] { sv->push_interceptor(new Tag(v)); }; }
    case 4: { std::string n = names[s.draw(4)], t = n + "#" + std::to_string(seq++); m.methods[n] = t; s.note("method " + t); return [sv, n, t] { sv->register_method(n, tagged(t)); }; }
    case 5: {
      std::set<std::string> ns;
      for (auto n : names) if (s.chance(1, 2)) ns.insert(n);
      std::string t = "d" + std::to_string(seq++) + ":";
      m.disp.push_back({ t, ns });
      std::string d; for (auto& n : ns) d += " " + n;
      s.note("dispatcher " + t + d);
      return [sv, t, ns] { sv->push_dispatcher(new Names(t, ns)); }; }
    case 6: { int v = (int)s.draw(4) - 1; m.wall = v; s.note("firewall " + std::to_string(v)); Wall* w = v < 0 ? 0 : &walls[v]; return [sv, w] { sv->set_firewall(w); }; }
    case 7: { int v = (int)s.draw(3) - 1; m.log = v; s.note("log " + std::to_string(v)); std::ostream* w = v < 0 ? 0 : &logs[v]; return [sv, w] { sv->log_errors(w); }; }
    default: m.introspect = true; s.note("introspection"); return [sv] { sv->enable_introspection(); };
    }
  };

  std::vector<std::unique_ptr<net::Conn>> conns;
  size_t nruns = 2 + s.draw(4);
  for (size_t run = 0; run < nruns; ++run) {
    for (size_t i = 0; i < 5 && s.more(35); ++i) change(false)();
    s.note("run");
    size_t before[2] = { logs[0].str().size(), logs[1].str().size() };
    size_t unknown = 0;
    srv.start_and_wait();
    ++runs;
    size_t nreq = 1 + s.draw(7);
    for (size_t i = 0; i < nreq; ++i) {
      std::unique_ptr<net::Conn> c;
      bool old = !conns.empty() && s.chance(1, 2);
      if (old) { size_t j = s.draw(conns.size()); c = std::move(conns[j]); conns.erase(conns.begin() + (long)j); }
      else {
        c.reset(new net::Conn);
        c->tls = o.tls;
        VP_CHECK(c->connect(srv.host, srv.port), "not-listening", "cannot connect");
        if (m.wall >= 0 && !walls[m.wall].open) {
          if (o.tls) { VP_CHECK(!c->handshake(), "firewall", "a peer the firewall refuses is served"); }
          else { c->send(net::request(net::call_xml("alpha", "x"), true)); net::Resp a; VP_CHECK(c->read(a) != net::Conn::OK, "firewall", "a peer the firewall refuses is served"); }
          VP_CHECK(trace.size() == 0, "firewall", "a method ran for a peer the firewall refuses");
          s.label("refused by the firewall");
          continue;
        }
        if (o.tls) VP_CHECK(c->handshake(), "handshake", "the handshake fails");
      }
      // the request
      unsigned target = (unsigned)s.draw(6);           // 4: change, 5: listMethods
      std::function<void()> a;
      State was = m;                                   // in force when the request arrives
      if (target == 4 && !o.pool && s.chance(2, 3)) { s.note("by a method:"); a = change(true); }
      State then = m;
      m = was;
      std::string name = target < 4 ? names[target] : target == 4 ? "change" : "system.listMethods";
      std::string auth; int who = (int)s.draw(4);      // 0 nobody, 1 ann, 2 bob, 3 wrong password
      if (who) auth = "Authorization: Basic " + std::string(who == 1 ? "YW5uOnB3" : who == 2 ? "Ym9iOnB3" : "YW5uOnh4") + "\r\n";
      bool plain = s.chance(1, 4), keep = s.chance(4, 5);
      auto text = [&](size_t pad) {
        std::string b = "<?xml version=\"1.0\"?><methodCall><methodName>" + name + "</methodName><params><param><value><string>" + std::string(pad, 'p') + "</string></value></param></params></methodCall>";
        return "POST /RPC HTTP/1.1\r\nHost: x\r\nContent-Type: " + std::string(plain ? "text/plain" : "text/xml") + "\r\nContent-Length: " + std::to_string(b.size()) + "\r\nConnection: " + (keep ? "keep-alive" : "close") + "\r\n" + auth + "\r\n" + b;
      };
      std::string req = text(0);
      size_t aim = m.max && s.draw(4) == 3 ? m.max + 3 - s.draw(7) : req.size() + s.draw(1500);
      if (aim > 4000) aim = 4000;
      for (int t = 0; t < 3 && req.size() < aim; ++t) { size_t pad = 0, a1 = req.find("<string>") + 8, b1 = req.find("</string>"); pad = b1 - a1; req = text(pad + aim - req.size()); }
      std::set<int> errors;
      if (m.max && req.size() >= m.max) errors.insert(413);
      if (m.strict && plain) errors.insert(415);
      if (m.plugin >= 0 && (who == 0 ? !plugins[m.plugin].anon : who == 3 || plugins[m.plugin].user != (who == 1 ? "ann" : "bob"))) errors.insert(401);
      s.note("request " + name + " of " + std::to_string(req.size()) + (plain ? " text/plain" : "") + (who ? " user " + std::to_string(who) : "") + (keep ? "" : " close") + (old ? " on a kept connection" : ""));
      { std::lock_guard<std::mutex> l(amx); act = a; }
      trace.take();
      VP_CHECK(c->send(hg::cut(s, req), 0) || !errors.empty(), "send", "the server does not take a request");
      net::Resp r;
      net::Conn::RR rr = c->read(r);
      srv.check_alive();
      std::string got = rr == net::Conn::OK ? std::to_string(r.code) : net::Conn::name(rr);
      std::vector<std::string> t = trace.take(), want;
      std::string now = "max " + std::to_string(m.max) + (m.strict ? " strict" : " weak") + " plug-in " + std::to_string(m.plugin);
      if (!errors.empty()) {
        // when the server refuses a request before it is sent whole, the answer may be lost with the connection
        VP_CHECK(rr == net::Conn::OK ? errors.count(r.code) : rr == net::Conn::RESET, "settings", "a request is answered with " + got + " where it is to be refused under " + now);
        VP_CHECK(t.empty(), "settings", "a refused request runs " + net::join(t));
        s.label("refused " + std::to_string(*errors.begin()));
        hash = vp::mix(hash, (uint64_t)*errors.begin());
        if (rr == net::Conn::OK && r.code == 401 && r.keep()) conns.push_back(std::move(c));
        continue;
      }
      VP_CHECK(rr == net::Conn::OK && r.code == 200, "settings", "a request is answered with " + got + " where it is to be served under " + now);
      std::string res, list; bool known = true;
      if (target == 4) res = "changed";
      else if (target == 5) known = m.introspect;
      else if (m.methods.count(name)) res = m.methods[name];
      else { known = false; for (auto& d : m.disp) if (d.second.count(name)) { res = d.first + name; known = true; break; } }
      if (known) {
        for (size_t k = m.inter.size(); k-- > 0; ) want.push_back("i" + std::to_string(m.inter[k]));
        if (target == 4) want.push_back("change"); else if (target != 5) want.push_back(res);
      }
      VP_CHECK(t == want, "run", "for " + name + " ran " + net::join(t) + ", not " + net::join(want));
      if (!known) { ++unknown; net::Answer an = net::answer(r.body); VP_CHECK(an.fault && an.code == -32601, "unknown", "no fault for a method that is not registered"); s.label("unknown method"); }
      else if (target == 5) {
        std::multiset<std::string> e, g;
        e.insert("change"); e.insert("system.listMethods");
        for (auto& x : m.methods) e.insert(x.first);
        for (auto& d : m.disp) for (auto& n : d.second) e.insert(n);
        auto pr = ref::response(r.body);
        VP_CHECK(!pr.fault && pr.v.t == M::ARR, "list", "no list of methods");
        for (auto& x : pr.v.a) g.insert(x.s);
        VP_CHECK(e == g, "list", "the list of methods is not that of the registered ones: " + vp::quote(r.body, 400));
        s.label("listed");
      } else { net::Answer an = net::answer(r.body); VP_CHECK(!an.fault && an.text == res, "answer", name + " answered " + vp::quote(an.text) + ", not " + vp::quote(res)); s.label("served"); }
      m = then;
      if (a) ++live;
      if (old) ++kept;
      hash = vp::mix(hash, target * 16 + plain * 8 + who + 128 * m.inter.size());
      if (keep) conns.push_back(std::move(c));
    }
    srv.stop();
    for (int i = 0; i < 2; ++i) {
      std::string added = logs[i].str().substr(before[i]);
      size_t lines = (size_t)std::count(added.begin(), added.end(), '\n');
      if (i == m.log) VP_CHECK(lines >= unknown, "log", std::to_string(unknown) + " calls of unknown methods made " + std::to_string(lines) + " lines in the log in use");
      else VP_CHECK(added.empty(), "log", "a log that is not in use received " + vp::quote(added, 200));
    }
  }
  if (kept) s.label("kept connection used");
  if (live) s.label("changed by a method");
  if (changes && runs > 1) s.nontrivial(hash);
  conns.clear();
}

int main(int argc, char** argv)
{
  vp::Config c;
  c.id = "C49";
  c.props = { { "settings", prop, 1 } };
  c.worker_init = net::small_stacks;
  c.nondeterministic = true;
  return vp::main_impl(argc, argv, c);
}
