// C17: calls reach exactly the right method and its outcome reaches the caller
#include "net.h"
#include "spell.h"

using namespace iqxmlrpc;
using vp::Src;

enum Kind { ECHO, FIXED, FAULT, STD, EXC, ODD, NKIND };
struct Meth { int id; Kind k; M v; int code; std::string text; };
enum IKind { PLAIN, SWALLOW, ADD_PARAM, WRAP, IFAULT, CATCH, NIKIND };
struct Icept { int id; IKind k; int code; };

// The outcome of a call: a value or a fault
struct Out { bool fault; bool any_code, any_text; int code; std::string text; M v; };

static M array(const std::vector<M>& ps) { M a; a.t = M::ARR; a.a = ps; return a; }

static void run_method(const Meth& m, const std::vector<M>& ps, Out& o)
{
  o = Out{ false, false, false, 0, "", M() };
  switch (m.k) {
  case ECHO: o.v = array(ps); break;
  case FIXED: o.v = m.v; break;
  case FAULT: o.fault = true; o.code = m.code; o.text = m.text; break;
  case STD: case EXC: o.fault = true; o.any_code = true; o.text = m.text; break;
  default: o.fault = true; o.any_code = o.any_text = true; break;
  }
}

// reference execution; ics is ordered from the outermost to the innermost
static Out model(const std::vector<Icept>& ics, size_t i, const Meth& m, std::vector<M> ps, std::vector<std::string>& ev)
{
  Out o;
  if (i == ics.size()) { ev.push_back("M" + std::to_string(m.id) + show(array(ps), 100000)); run_method(m, ps, o); return o; }
  const Icept& ic = ics[i];
  ev.push_back("+" + std::to_string(ic.id));
  switch (ic.k) {
  case SWALLOW: o = Out{ false, false, false, 0, "", M::str("I" + std::to_string(ic.id)) }; break;
  case IFAULT: o = Out{ true, false, false, ic.code, "IF" + std::to_string(ic.id), M() }; return o;
  case ADD_PARAM: ps.push_back(M::num(ic.id)); o = model(ics, i + 1, m, ps, ev); if (o.fault) return o; break;
  case CATCH: o = model(ics, i + 1, m, ps, ev); if (o.fault) o = Out{ false, false, false, 0, "", M::str("caught") }; break;
  case WRAP: o = model(ics, i + 1, m, ps, ev); if (o.fault) return o; { M a = array({ M::num(ic.id), o.v }); o.v = a; } break;
  default: o = model(ics, i + 1, m, ps, ev); if (o.fault) return o; break;
  }
  ev.push_back("-" + std::to_string(ic.id));
  return o;
}

class Ic: public Interceptor {
public:
  Ic(const Icept& d, net::Log& l): d_(d), log_(l) {}
  void process(Method* m, const Param_list& p, Value& r)
  {
    log_.add("+" + std::to_string(d_.id));
    switch (d_.k) {
    case SWALLOW: r = "I" + std::to_string(d_.id); break;
    case IFAULT: throw Fault(d_.code, "IF" + std::to_string(d_.id));
    case ADD_PARAM: { Param_list q(p); q.push_back(d_.id); yield(m, q, r); break; }
    case CATCH: try { yield(m, p, r); } catch (...) { r = "caught"; } break;
    case WRAP: { yield(m, p, r); Array a; a.push_back(d_.id); a.push_back(r); r = a; break; }
    default: yield(m, p, r);
    }
    log_.add("-" + std::to_string(d_.id));
  }
private:
  Icept d_;
  net::Log& log_;
};

struct Seen { std::mutex mx; std::string name, peer; int port; };

class Disp: public Method_dispatcher_base {
public:
  std::map<std::string, net::Body> t;
private:
  Method* do_create_method(const std::string& n) { auto i = t.find(n); return i == t.end() ? 0 : new net::Fn(i->second); }
  void do_get_methods_list(Array& a) const { for (auto& k : t) a.push_back(k.first); }
};

static std::string name(Src& s, const std::vector<std::string>& used)
{
  if (!used.empty() && s.chance(1, 2)) {
    std::string n = s.one_of(used);
    switch (s.draw(6)) {
    case 0: case 1: case 2: return n;
    case 3: return n + (s.chance(1, 2) ? "2" : ".x");
    case 4: return n.size() > 1 && (unsigned char)n[n.size() - 1] < 128 ? n.substr(0, n.size() - 1) : n;
    default: for (char& c : n) c = (char)(c >= 'a' && c <= 'z' ? c - 32 : c >= 'A' && c <= 'Z' ? c + 32 : c); return n;
    }
  }
  switch (s.draw(5)) {
  case 0: case 1: { static const char* t[] = { "a", "ab", "b", "system.listMethods", "x.y", "get", "A" }; return t[s.draw(7)]; }
  case 2: {
    std::string n = hg::token(s, 10);
    if (!s.chance(1, 6)) return n;
    static const size_t k[] = { 15, 16, 23, 31, 32, 63, 64, 127, 128, 255, 256, 1024 };   // long names with a common beginning
    return std::string(k[s.draw(12)], 'n') + n; }
  default: { gen::TextOpts o; o.max_cp = 12; return gen::text(s, o); }
  }
}

static Meth method(Src& s, int id)
{
  Meth m; m.id = id; m.code = 0;
  m.k = (Kind)s.weighted({ 6, 3, 3, 2, 2, 1 });
  MOpts mo; mo.depth = 2;
  gen::TextOpts to;
  if (m.k == FIXED) m.v = gen_value(s, mo);
  if (m.k == FAULT || m.k == EXC) m.code = gen::int32(s);
  if (m.k == FAULT || m.k == EXC || m.k == STD) m.text = gen::text(s, to);
  return m;
}

static net::Body body(const Meth& m, net::Log& log, Seen& seen)
{
  return [m, &log, &seen](Method* self, const Param_list& p, Value& r) {
    std::vector<M> ps;
    for (auto& v : p) ps.push_back(from_value(v));
    { std::lock_guard<std::mutex> l(seen.mx); seen.name = self->name(); char b[32]; const sockaddr_in* a = self->peer_addr().get_sockaddr(); inet_ntop(AF_INET, &a->sin_addr, b, sizeof b); seen.peer = b; seen.port = self->peer_addr().get_port(); }
    log.add("M" + std::to_string(m.id) + show(array(ps), 100000));
    switch (m.k) {
    case ECHO: { Array a; for (auto& v : p) a.push_back(v); r = a; break; }
    case FIXED: r = to_value(m.v); break;
    case FAULT: throw Fault(m.code, m.text);
    case STD: throw std::runtime_error(m.text);
    case EXC: throw Exception(m.text, m.code);
    default: throw 42;
    }
  };
}

static void prop(Src& s)
{
  net::Options o;
  o.tls = s.chance(1, 8);
  o.pool = s.chance(1, 2) ? 1 + (unsigned)s.draw(3) : 0;
  net::Log log;
  Seen seen;
  net::Srv srv(o);
  std::map<std::string, Meth> def;
  std::vector<std::pair<Disp*, std::map<std::string, Meth>>> disps;
  std::vector<Icept> ics;                  // outermost first
  std::vector<std::string> used;
  bool intro = false;
  int id = 0;
  size_t rounds = 1 + s.draw(2);
  uint64_t hash = o.pool; bool nt = false;
  for (size_t r = 0; r < rounds; ++r) {
    size_t nops = 1 + s.draw(8);
    for (size_t i = 0; i < nops; ++i) {
      switch (s.weighted({ 8, 3, 3, 1 })) {
      case 0: { std::string n = name(s, used); Meth m = method(s, ++id); used.push_back(n); if (n == "system.listMethods") intro = false; def[n] = m; srv.s->register_method(n, new net::Fn_factory(body(m, log, seen))); s.note("register " + vp::quote(n, 40) + " kind " + std::to_string(m.k)); hash = vp::mix(hash, vp::hash64(n, m.k)); break; }
      case 1: {
        Disp* d = new Disp; disps.push_back({ d, {} });
        size_t k = s.draw(4);
        for (size_t j = 0; j < k; ++j) { std::string n = name(s, used); Meth m = method(s, ++id); used.push_back(n); d->t[n] = body(m, log, seen); disps.back().second[n] = m; }
        srv.s->push_dispatcher(d);
        s.note("dispatcher with " + std::to_string(k)); hash = vp::mix(hash, 1000 + k);
        break; }
      case 2: { Icept ic; ic.id = ++id; ic.k = (IKind)s.weighted({ 6, 1, 2, 3, 1, 2 }); ic.code = gen::int32(s); ics.insert(ics.begin(), ic); srv.s->push_interceptor(new Ic(ic, log)); s.note("interceptor " + std::to_string(ic.id) + " kind " + std::to_string(ic.k)); hash = vp::mix(hash, 2000 + ic.k); break; }
      default: srv.s->enable_introspection(); def.erase("system.listMethods"); intro = true; s.note("introspection"); break;
      }
    }
    if (s.chance(1, 12)) {                 // many methods, directly and through a dispatcher
      size_t k = 8 + s.draw(120);
      Disp* d = s.chance(1, 2) ? new Disp : 0;
      if (d) disps.push_back({ d, {} });
      for (size_t j = 0; j < k; ++j) {
        Meth m; m.id = ++id; m.k = ECHO; m.code = 0;
        std::string n = "many." + std::to_string(id);
        used.push_back(n);
        if (d && j % 2) { d->t[n] = body(m, log, seen); disps.back().second[n] = m; }
        else { def[n] = m; srv.s->register_method(n, new net::Fn_factory(body(m, log, seen))); }
      }
      if (d) srv.s->push_dispatcher(d);
      if (s.chance(1, 2)) { srv.s->enable_introspection(); def.erase("system.listMethods"); intro = true; }
      if (s.chance(1, 2)) { disps.push_back({ new Disp, {} }); Meth m = method(s, ++id); std::string n = name(s, used); used.push_back(n); disps.back().first->t[n] = body(m, log, seen); disps.back().second[n] = m; srv.s->push_dispatcher(disps.back().first); }
      s.note("many methods: " + std::to_string(k)); hash = vp::mix(hash, 3000 + k);
      s.label("many methods");
    }
    if (ics.size() > 1 || !disps.empty()) nt = true;
    srv.start();
    net::Conn c;
    c.tls = o.tls;
    size_t ncalls = 1 + s.draw(6);
    for (size_t i = 0; i < ncalls; ++i) {
      if (c.fd < 0) VP_CHECK(c.connect(srv.host, srv.port), "not-listening", "cannot connect");
      std::string n = intro && s.chance(1, 6) ? "system.listMethods" : !used.empty() && s.chance(1, 2) ? s.one_of(used) : name(s, used);
      std::vector<M> ps;
      MOpts mo; mo.depth = 2; mo.width = 3;
      if (s.chance(1, 25)) { size_t cnt = 5 + s.draw(s.chance(1, 4) ? 400 : 60); for (size_t j = 0; j < cnt; ++j) ps.push_back(M::num((int)s.draw(1000))); s.label("many parameters"); }
      while (ps.size() < 4 && s.chance(1, 2)) ps.push_back(gen_value(s, mo));
      const Meth* m = 0;
      if (def.count(n)) m = &def[n];
      bool list = !m && intro && n == "system.listMethods";
      if (!m && !list) for (auto& d : disps) if (d.second.count(n)) { m = &d.second[n]; break; }
      Spell sp(s, true);
      std::string what = "call of " + vp::quote(n, 60) + ": ";
      s.note("call " + vp::quote(n, 40) + " with " + show(array(ps), 100));
      hash = vp::mix(hash, vp::hash64(n, ps.size()));
      c.send(net::request(s, sp.call(n, ps), true));
      net::Resp a;
      net::Conn::RR rr = c.read(a);
      srv.check_alive();
      VP_CHECK(rr == net::Conn::OK && a.code == 200, "no-answer", what + (rr == net::Conn::OK ? std::to_string(a.code) : net::Conn::name(rr)));
      ref::Resp w;
      try { w = ref::response(a.body); } catch (const ref::RefError& e) { vp::fail("malformed", what + e.msg + " in " + vp::quote(a.body, 300)); }
      std::vector<std::string> ev = log.take(), want;
      Out x;
      if (list) {
        bool plain = true;
        for (auto& ic : ics) if (ic.k != PLAIN && ic.k != ADD_PARAM && ic.k != CATCH) plain = false;
        if (!plain) continue;
        std::multiset<std::string> exp, got;
        for (auto& k : def) exp.insert(k.first);
        exp.insert("system.listMethods");
        for (auto& d : disps) for (auto& k : d.second) exp.insert(k.first);
        VP_CHECK(!w.fault && w.v.t == M::ARR, "introspection", what + "no list: " + vp::quote(a.body, 300));
        for (auto& k : w.v.a) { VP_CHECK(k.t == M::STR, "introspection", "entry is no string"); got.insert(k.s); }
        std::set<std::string> es(exp.begin(), exp.end()), gs(got.begin(), got.end());
        VP_CHECK(es == gs && (es.size() != exp.size() || got == exp), "introspection", what + "lists " + net::join(std::vector<std::string>(got.begin(), got.end())) + ", registered are " + net::join(std::vector<std::string>(exp.begin(), exp.end())));
        s.label("introspection");
        continue;
      }
      if (!m) {
        VP_CHECK(w.fault && w.code == -32601, "unknown", what + "expected fault -32601: " + vp::quote(a.body, 300));
        VP_CHECK(ev.empty(), "unknown-ran", what + "ran " + net::join(ev));
        s.label("unknown method");
        continue;
      }
      x = model(ics, 0, *m, ps, want);
      VP_CHECK(ev == want, "history", what + "happened " + net::join(ev, ", ", 200) + " instead of " + net::join(want, ", ", 200));
      if (x.fault) VP_CHECK(w.fault && (x.any_code || w.code == x.code) && (x.any_text || w.str == x.text), "fault", what + "expected fault " + std::to_string(x.code) + " " + vp::quote(x.text) + ", got " + vp::quote(a.body, 300));
      else VP_CHECK(!w.fault && w.v == x.v, "result", what + "expected " + show(x.v) + ", got " + vp::quote(a.body, 300));
      bool reached = false;
      for (auto& e : ev) if (e[0] == 'M') reached = true;
      if (reached) {
        sockaddr_in me; socklen_t l = sizeof me; getsockname(c.fd, (sockaddr*)&me, &l);
        char b[32]; inet_ntop(AF_INET, &me.sin_addr, b, sizeof b);
        std::lock_guard<std::mutex> g(seen.mx);
        VP_CHECK(seen.name == n, "name", what + "method sees the name " + vp::quote(seen.name));
        VP_CHECK(seen.peer == b && seen.port == ntohs(me.sin_port), "peer", what + "method sees the peer " + seen.peer + ":" + std::to_string(seen.port) + " instead of " + b + ":" + std::to_string(ntohs(me.sin_port)));
      }
      s.label(x.fault ? "fault" : "result");
      if (ics.size() > 1) s.label("several interceptors");
      if (!def.count(n)) s.label("from an additional dispatcher");
      nt = true;
    }
    c.close();
    srv.stop();
  }
  s.label(o.tls ? "https" : "http");
  if (o.pool) s.label("pool");
  if (nt) s.nontrivial(hash);
}

int main(int argc, char** argv)
{
  vp::Config c;
  c.id = "C17";
  c.props = { { "calls", prop, 1 } };
  c.hard_fail = true;
  c.worker_init = net::small_stacks;
  c.nondeterministic = true;
  return vp::main_impl(argc, argv, c);
}
