// C40: values and faults exchanged with another implementation of XML-RPC
#include "net.h"
#include <cmath>
#include <sys/prctl.h>
#include <sys/wait.h>

using namespace iqxmlrpc;
using vp::Src;

// ------------------------------------------------------------ the helper
static int to_py = -1, from_py = -1, pyport[4];

static void enc(const M& v, std::string& o)
{
  auto num = [&](char c, long long n) { o += c; o += std::to_string(n); o += ';'; };
  switch (v.t) {
  case M::I4: case M::I8: num('i', v.i); break;
  case M::BOOL: o += v.i ? "b1" : "b0"; break;
  case M::DBL: { o += 'd'; uint64_t u; memcpy(&u, &v.d, 8); for (int k = 56; k >= 0; k -= 8) o += (char)(u >> k); break; }
  case M::STR: num('s', (long long)v.s.size()); o += v.s; break;
  case M::B64: num('B', (long long)v.s.size()); o += v.s; break;
  case M::DATE: num('t', (long long)v.s.size()); o += v.s; break;
  case M::NIL: o += 'n'; break;
  case M::ARR: num('[', (long long)v.a.size()); for (auto& x : v.a) enc(x, o); break;
  case M::STRUCT: num('{', (long long)v.m.size()); for (auto& x : v.m) { enc(M::str(x.first), o); enc(x.second, o); } break;
  }
}

struct Dec {
  const std::string& b; size_t p;
  long long num() { size_t e = b.find(';', p); long long n = strtoll(b.c_str() + p, 0, 10); p = e + 1; return n; }
  std::string raw() { size_t n = (size_t)num(); std::string r = b.substr(p, n); p += n; return r; }
  M value()
  {
    M v; char c = b.at(p++);
    switch (c) {
    case 'i': v.i = num(); break;
    case 'b': v.t = M::BOOL; v.i = b.at(p++) == '1'; break;
    case 'd': { uint64_t u = 0; for (int k = 0; k < 8; ++k) u = u << 8 | (unsigned char)b.at(p++); v.t = M::DBL; memcpy(&v.d, &u, 8); break; }
    case 's': v.t = M::STR; v.s = raw(); break;
    case 'B': v.t = M::B64; v.s = raw(); break;
    case 't': v.t = M::DATE; v.s = raw(); break;
    case 'n': v.t = M::NIL; break;
    case '[': { v.t = M::ARR; size_t n = (size_t)num(); for (size_t k = 0; k < n; ++k) v.a.push_back(value()); break; }
    case '{': { v.t = M::STRUCT; size_t n = (size_t)num(); for (size_t k = 0; k < n; ++k) { std::string key = value().s; v.m[key] = value(); } break; }
    default: throw vp::Discard();
    }
    return v;
  }
};

static bool io(int fd, char* p, size_t n, bool out)
{
  while (n) { ssize_t r = out ? write(fd, p, n) : read(fd, p, n); if (r <= 0) { if (r < 0 && errno == EINTR) continue; return false; } p += r; n -= (size_t)r; }
  return true;
}

static M ask(const std::vector<M>& msg)
{
  M m; m.t = M::ARR; m.a = msg;
  std::string b; enc(m, b);
  uint32_t n = (uint32_t)b.size();
  if (to_py < 0 || !io(to_py, (char*)&n, 4, true) || !io(to_py, &b[0], b.size(), true) || !io(from_py, (char*)&n, 4, false)) throw vp::Discard();
  std::string r(n, 0);
  if (!io(from_py, &r[0], n, false)) throw vp::Discard();
  Dec d = { r, 0 };
  return d.value();
}

static M yes(bool b) { M v; v.t = M::BOOL; v.i = b; return v; }

static void init()
{
  net::small_stacks();
  signal(SIGPIPE, SIG_IGN);
  int a[2], b[2];
  if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) return;
  pid_t parent = getpid(), pid = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (getppid() != parent) _exit(1);
    dup2(a[0], 0); dup2(b[1], 1);
    signal(SIGPIPE, SIG_DFL);
    execlp("python3", "python3", "-I", "-S", net::data_file("xmlrpc_peer.py").c_str(), (char*)0);
    _exit(1);
  }
  close(a[0]); close(b[1]);
  to_py = a[1]; from_py = b[0];
  for (int k = 0; k < 4; ++k)
    try {
      pyport[k] = (int)ask({ M::str("serve"), M::str(net::ip(1)), yes(k & 1), M::str(k & 2 ? "HTTP/1.1" : "HTTP/1.0"), M::str(net::data_file("server.crt")), M::str(net::data_file("server.key")) }).i;
    } catch (const vp::Discard&) { pyport[k] = 0; }
}

// ------------------------------------------------------------ what arrives
static std::string newlines(const std::string& t)   // Python writes CR as it is, and XML reads it as LF
{
  std::string o;
  for (size_t i = 0; i < t.size(); ++i) if (t[i] == '\r') { o += '\n'; if (i + 1 < t.size() && t[i + 1] == '\n') ++i; } else o += t[i];
  return o;
}

static M from_python(const M& v)                    // as the library must see it
{
  M r = v;
  if (r.t == M::I8) r.t = M::I4;
  if (r.t == M::STR) r.s = newlines(r.s);
  r.a.clear(); r.m.clear();
  for (auto& x : v.a) r.a.push_back(from_python(x));
  for (auto& x : v.m) r.m[newlines(x.first)] = from_python(x.second);
  return r;
}

static M by_python(const M& v)                      // as Python must see it
{
  M r = v;
  if (r.t == M::I8) r.t = M::I4;
  for (auto& x : r.a) x = by_python(x);
  for (auto& x : r.m) x.second = by_python(x.second);
  return r;
}

static M sendable(const M& v)                       // Python sends no integers of more than 32 bits
{
  M r = v;
  if (r.t == M::I8) { r.t = M::I4; r.i = (int)r.i; }
  for (auto& x : r.a) x = sendable(x);
  for (auto& x : r.m) x.second = sendable(x.second);
  // two names may become the same one on the way
  std::set<std::string> names;
  for (auto& x : v.m) if (!names.insert(newlines(x.first)).second) throw vp::Discard();
  return r;
}

static M value(Src& s)
{
  MOpts o;
  switch (s.weighted({ 8, 2, 1 })) {
  case 0: o.depth = (unsigned)s.draw(4); o.width = 4; o.big = s.chance(1, 6) ? 60000 : 0; return gen_value(s, o);
  case 1: return gen_chain(s, 40);
  default: return gen_wide(s, 300);
  }
}

static std::vector<M> params(Src& s)
{
  std::vector<M> ps;
  if (s.chance(1, 40)) { size_t cnt = 5 + s.draw(100); for (size_t j = 0; j < cnt; ++j) ps.push_back(M::num((int)s.draw(1000))); }
  for (size_t i = 0; i < 4 && s.more(30); ++i) ps.push_back(value(s));
  return ps;
}

static std::string name(Src& s)
{
  std::string n = hg::token(s, 12);
  for (auto& c : n) if (c == '&' || c == '_') c = 'x';
  return "m" + n;
}

static std::string show(const std::vector<M>& v) { std::string o; for (auto& x : v) o += (o.empty() ? "" : ", ") + show(x); return "(" + o + ")"; }
static M arr(const std::vector<M>& v) { M r; r.t = M::ARR; r.a = v; return r; }

struct Plan { std::mutex mx; bool fault; int code; std::string text; M result; std::vector<M> got; std::string name, user, x; size_t runs; };
static Plan plan;

static void run(Method* m, const Param_list& p, Value& r)
{
  std::lock_guard<std::mutex> l(plan.mx);
  ++plan.runs;
  plan.name = m->name(); plan.user = m->authname();
  auto i = m->xheaders().find("x-tag"); plan.x = i == m->xheaders().end() ? "" : i->second;
  plan.got.clear();
  for (auto& v : p) plan.got.push_back(from_value(v));
  if (plan.fault) throw Fault(plan.code, plan.text);
  r = to_value(plan.result);
}

class Disp: public Method_dispatcher_base {
  Method* do_create_method(const std::string& n) { return n[0] == 'm' ? new net::Fn(run) : 0; }
  void do_get_methods_list(Array& a) const { a.push_back("listed"); }
};

class Plugin: public Auth_Plugin_base {
  bool do_authenticate(const std::string& u, const std::string& p) const { return p == "pw" + u; }
  bool do_authenticate_anonymous() const { return false; }
};

static void python_calls(Src& s)
{
  net::Options o; o.tls = s.chance(1, 4); o.pool = s.chance(1, 3) ? 1 + (unsigned)s.draw(2) : 0;
  net::Srv srv(o);
  Plugin pl;
  bool auth = s.chance(1, 4), keep = s.chance(1, 2);
  srv.s->push_dispatcher(new Disp);
  srv.s->enable_introspection();
  if (s.chance(1, 3)) srv.s->set_verification_level(http::HTTP_CHECK_STRICT);
  if (auth) srv.s->set_auth_plugin(pl);
  srv.start_and_wait();
  std::string user = auth ? "u" + std::to_string(s.draw(100)) : "", tag = s.chance(1, 2) ? hg::token(s, 10) : "";
  M hs; hs.t = M::STRUCT;
  if (keep) hs.m["Connection"] = M::str("keep-alive");
  if (!tag.empty()) hs.m["X-Tag"] = M::str(tag);
  ask({ M::str("proxy"), M::num(1), M::str(std::string(o.tls ? "https://" : "http://") + (auth ? user + ":pw" + user + "@" : "") + srv.host + ":" + std::to_string(srv.port) + "/RPC2"), hs });
  s.note(std::string("Python calls the library over ") + (o.tls ? "https" : "http") + (keep ? " keep-alive" : "") + " pool " + std::to_string(o.pool) + (auth ? " as " + user : ""));
  uint64_t hash = o.tls + 2 * keep + 4 * o.pool;
  for (size_t i = 0; i < 8 && (i < 1 || s.more(25)); ++i) {
    if (s.chance(1, 12)) {
      M a = ask({ M::str("call"), M::num(1), M::str("system.listMethods"), arr({}) });
      s.note("list of methods");
      VP_CHECK(a.a[0].s == "ok" && a.a[1].t == M::ARR && std::find(a.a[1].a.begin(), a.a[1].a.end(), M::str("listed")) != a.a[1].a.end(), "python-calls", "the list of methods came as " + show(a));
      continue;
    }
    std::string n = name(s);
    std::vector<M> ps = params(s);
    for (auto& p : ps) p = sendable(p);
    { std::lock_guard<std::mutex> l(plan.mx);
      plan.fault = s.chance(1, 4); plan.runs = 0;
      if (plan.fault) { plan.code = gen::int32(s); gen::TextOpts t; plan.text = gen::text(s, t); }
      else plan.result = value(s); }
    s.note("call " + vp::quote(n, 40) + show(ps) + " -> " + (plan.fault ? "fault " + std::to_string(plan.code) + " " + vp::quote(plan.text, 60) : show(plan.result)));
    M a = ask({ M::str("call"), M::num(1), M::str(n), arr(ps) });
    srv.check_alive();
    std::lock_guard<std::mutex> l(plan.mx);
    VP_CHECK(a.t == M::ARR && a.a[0].s != "error", "python-fails", "Python's call failed with " + show(a) + " after " + std::to_string(plan.runs) + " executions");
    VP_CHECK(plan.runs == 1, "executions", "the method ran " + std::to_string(plan.runs) + " times");
    VP_CHECK(plan.name == n, "name", "the method called as " + vp::quote(n, 60) + " ran as " + vp::quote(plan.name, 60));
    VP_CHECK(plan.user == user && plan.x == tag, "facts", "user " + vp::quote(plan.user, 60) + " and X-Tag " + vp::quote(plan.x, 60) + " instead of " + vp::quote(user, 60) + " and " + vp::quote(tag, 60));
    std::vector<M> want; for (auto& p : ps) want.push_back(from_python(p));
    VP_CHECK(plan.got == want, "arguments", "sent " + show(ps) + ", arrived as " + show(plan.got));
    if (plan.fault) VP_CHECK(a.a[0].s == "fault" && a.a[1].i == plan.code && a.a[2].s == plan.text, "fault", "fault " + std::to_string(plan.code) + " " + vp::quote(plan.text, 100) + " arrived as " + show(a));
    else VP_CHECK(a.a[0].s == "ok" && a.a[1] == by_python(plan.result), "result", show(plan.result) + " arrived as " + show(a));
    for (auto& p : ps) { labels(s, p); hash = vp::mix(hash, vp::hash64(show(p, 3000))); }
    if (plan.fault) s.label("fault"); else { labels(s, plan.result); hash = vp::mix(hash, vp::hash64(show(plan.result, 3000))); }
  }
  ask({ M::str("drop") });
  s.label("python calls"); s.label(o.tls ? "https" : "http");
  s.nontrivial(hash);
  srv.stop();
}

static void calls_python(Src& s)
{
  unsigned k = (unsigned)s.weighted({ 3, 1, 3, 1 });
  bool tls = k & 1;
  net::tls_setup(tls);
  if (!pyport[k]) throw vp::Discard();
  iqnet::Inet_addr addr(net::ip(1), pyport[k]);
  std::unique_ptr<Client_base> c(tls ? (Client_base*)new Client<Https_client_connection>(addr, "/RPC2") : (Client_base*)new Client<Http_client_connection>(addr, "/RPC2"));
  bool keep = s.chance(1, 2);
  c->set_keep_alive(keep);
  if (s.chance(1, 2)) c->set_timeout((int)net::LONG);
  s.note(std::string("the library calls Python over ") + (tls ? "https" : "http") + (k & 2 ? "/1.1" : "/1.0") + (keep ? " keep-alive" : ""));
  uint64_t hash = 100 + k * 2 + keep;
  for (size_t i = 0; i < 8 && (i < 1 || s.more(25)); ++i) {
    gen::TextOpts no; no.max_cp = 12; no.blank_ok = false; no.empty_ok = false;
    std::string n = s.chance(1, 2) ? name(s) : gen::text(s, no), text;
    if (newlines(n) != n) throw vp::Discard();
    std::vector<M> ps = params(s);
    bool fault = s.chance(1, 4); int code = 0; M res;
    if (fault) { code = gen::int32(s); gen::TextOpts t; text = gen::text(s, t); ask({ M::str("next"), M::str("fault"), M::num(code), M::str(text) }); }
    else { res = sendable(value(s)); ask({ M::str("next"), M::str("ok"), res }); }
    s.note("call " + vp::quote(n, 40) + show(ps) + " -> " + (fault ? "fault " + std::to_string(code) + " " + vp::quote(text, 60) : show(res)));
    Param_list pl; for (auto& p : ps) pl.push_back(to_value(p));
    std::string raised;
    bool isf = false; M got; int gcode = 0; std::string gtext;
    try { Response r = c->execute(n, pl); isf = r.is_fault(); if (isf) { gcode = r.fault_code(); gtext = r.fault_string(); } else got = from_value(r.value()); }
    catch (const std::exception& e) { raised = e.what(); if (raised.empty()) raised = "?"; }
    M seen = ask({ M::str("got") });
    VP_CHECK(raised.empty(), "raises", "the call raised " + raised + "; Python saw " + show(seen));
    std::vector<M> want; for (auto& p : ps) want.push_back(by_python(p));
    VP_CHECK(seen == arr({ arr({ M::str(n), arr(want) }) }), "arguments", "the call of " + vp::quote(n, 60) + show(ps) + " arrived as " + show(seen));
    if (fault) VP_CHECK(isf && gcode == code && gtext == newlines(text), "fault", "fault " + std::to_string(code) + " " + vp::quote(text, 100) + " arrived as " + (isf ? std::to_string(gcode) + " " + vp::quote(gtext, 100) : show(got)));
    else VP_CHECK(!isf && got == from_python(res), "result", show(res) + " arrived as " + (isf ? "fault " + gtext : show(got)));
    for (auto& p : ps) { labels(s, p); hash = vp::mix(hash, vp::hash64(show(p, 3000))); }
    if (fault) s.label("fault"); else { labels(s, res); hash = vp::mix(hash, vp::hash64(show(res, 3000))); }
  }
  s.label("calls python"); s.label(tls ? "https" : "http"); s.label(k & 2 ? "HTTP/1.1 peer" : "HTTP/1.0 peer");
  s.nontrivial(hash);
}

int main(int argc, char** argv)
{
  vp::Config c;
  c.id = "C40";
  c.props = { { "python-calls", python_calls, 1 }, { "calls-python", calls_python, 1 } };
  c.hard_fail = true;
  c.worker_init = init;
  c.nondeterministic = true;
  return vp::main_impl(argc, argv, c);
}
