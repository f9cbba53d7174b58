// C18: client and server of the library deliver any call end to end unchanged
#include "net.h"

using namespace iqxmlrpc;
using vp::Src;

struct Call { std::vector<M> ps; int kind; bool set_keep; int keep; std::string err; bool ran; };
struct Client_plan { std::unique_ptr<Client_base> cl; bool keep; int timeout; std::vector<Call> calls; unsigned pause; };

static M array(const std::vector<M>& ps) { M a; a.t = M::ARR; a.a = ps; return a; }

static M value(Src& s, size_t& budget)
{
  MOpts mo; mo.depth = 3; mo.width = 4;
  if (s.chance(1, 10)) return gen_chain(s, 150);
  if (budget && s.chance(1, 8)) {
    M v; bool bin = s.chance(1, 2);
    v.t = bin ? M::B64 : M::STR;
    // sizes around buffer limits and up to megabytes
    size_t n = s.draw(4000000, [&](vp::Rng& r) -> uint64_t {
      switch (r.below(5)) {
      case 0: return r.below(4000);
      case 1: { static const uint64_t b[] = { 65000, 65536, 16384, 131072, 32768, 4096, 8192 }; return b[r.below(7)] - 600 + r.below(700); }
      case 2: return r.below(300000);
      case 3: return r.chance(1, 6) ? r.below(4000000) : r.below(100000);
      default: return r.below(70000); }
    });
    n = std::min(n, budget);
    budget -= n;
    uint64_t seed = s.draw(1000);
    v.s.resize(n);
    for (size_t i = 0; i < n; ++i) { uint64_t x = vp::mix(seed, i / 7); v.s[i] = bin ? (char)(x >> (i % 7 * 8)) : (char)(32 + (x >> (i % 7 * 8)) % 95); }
    return v;
  }
  return gen_value(s, mo);
}

static void run(Client_plan& p)
{
  std::unique_ptr<Client_base> cl = std::move(p.cl);
  cl->set_keep_alive(p.keep);
  if (p.timeout) cl->set_timeout(p.timeout);
  for (Call& c : p.calls) {
    if (p.pause) usleep(p.pause);
    if (c.set_keep) cl->set_keep_alive(c.keep != 0);
    c.ran = true;
    try {
      Param_list pl;
      for (auto& v : c.ps) pl.push_back(to_value(v));
      static const char* names[] = { "echo", "wrap", "fail" };
      Response r = cl->execute(names[c.kind], pl);
      if (c.kind == 2) {
        if (!r.is_fault()) { c.err = "no fault"; return; }
        if (r.fault_code() != 77 || r.fault_string() != "n" + std::to_string(c.ps.size())) { c.err = "fault is " + std::to_string(r.fault_code()) + " " + r.fault_string(); return; }
        continue;
      }
      if (r.is_fault()) { c.err = "fault " + std::to_string(r.fault_code()) + " " + vp::quote(r.fault_string()); return; }
      M want = array(c.ps);
      if (c.kind == 1) { M w; w.t = M::STRUCT; w.m["a"] = want; w.m["n"] = M::num((int)c.ps.size()); want = w; }
      std::string d = diff(want, r.value());
      if (!d.empty()) { c.err = "result differs: " + d; return; }
    } catch (const vp::Failure& f) { c.err = f.cls + ": " + f.msg; return; }
    catch (const std::exception& e) { c.err = std::string("exception: ") + e.what(); return; }
  }
}

static void prop(Src& s)
{
  net::Options o;
  o.tls = s.chance(1, 4);
  o.pool = s.chance(1, 2) ? 1 + (unsigned)s.draw(4) : 0;
  size_t budget = s.chance(1, 6) ? 6000000 : s.chance(1, 2) ? 200000 : 20000;
  net::Srv srv(o);
  srv.s->register_method("echo", new net::Fn_factory([](Method*, const Param_list& p, Value& r) { Array a; for (auto& v : p) a.push_back(v); r = a; }));
  srv.s->register_method("wrap", new net::Fn_factory([](Method*, const Param_list& p, Value& r) { Array a; for (auto& v : p) a.push_back(v); Struct st; st.insert("a", a); st.insert("n", (int)p.size()); r = st; }));
  srv.s->register_method("fail", new net::Fn_factory([](Method*, const Param_list& p, Value&) { throw Fault(77, "n" + std::to_string(p.size())); }));
  srv.start_and_wait();
  size_t n = s.chance(1, 2) ? 1 : 2 + s.draw(3);
  std::vector<Client_plan> plans(n);
  uint64_t hash = o.tls * 2 + o.pool; bool nt = n > 1;
  size_t big = 0;
  for (auto& p : plans) {
    p.cl = net::client(s, o.tls, srv.addr()); p.keep = s.chance(1, 2); p.timeout = s.chance(1, 3) ? 60 : 0; p.pause = s.chance(1, 4) ? (unsigned)s.draw(500) : 0;
    bool many = s.chance(1, 150);
    size_t k = many ? 50 + s.draw(200) : 1 + s.draw(5);
    if (many) s.label("many calls");
    for (size_t i = 0; i < k; ++i) {
      Call c; c.kind = (int)s.weighted({ 6, 2, 1 }); c.set_keep = s.chance(1, 6); c.keep = (int)s.draw(2); c.ran = false;
      if (s.chance(1, 25)) { size_t cnt = 5 + s.draw(s.chance(1, 4) ? 400 : 60); for (size_t j = 0; j < cnt; ++j) c.ps.push_back(M::num((int)s.draw(1000))); s.label("many parameters"); }
      while (c.ps.size() < 4 && s.draw(3) != 0) { c.ps.push_back(value(s, budget)); if (c.ps.back().s.size() > 60000) ++big; }
      if (s.describing()) s.note("call " + std::to_string(c.kind) + " with " + show(array(c.ps), 150));
      for (auto& v : c.ps) hash = vp::mix(hash, vp::hash64(show(v, 60), v.s.size()));
      if (!c.ps.empty()) nt = true;
      p.calls.push_back(c);
    }
  }
  s.note(std::string(o.tls ? "https" : "http") + " pool " + std::to_string(o.pool) + " clients " + std::to_string(n));
  std::vector<std::thread> ts;
  for (auto& p : plans) ts.emplace_back([&p] { run(p); });
  for (auto& t : ts) t.join();
  srv.check_alive();
  for (size_t i = 0; i < n; ++i)
    for (size_t k = 0; k < plans[i].calls.size(); ++k)
      VP_CHECK(plans[i].calls[k].err.empty(), "call", "client " + std::to_string(i) + " call " + std::to_string(k) + (o.tls ? " over https" : " over http") + ", pool " + std::to_string(o.pool) + ": " + plans[i].calls[k].err);
  s.label(o.tls ? "https" : "http"); s.label(o.pool ? "pool" : "serial"); if (n > 1) s.label("several clients"); if (big) s.label("over 60 KB");
  if (nt) s.nontrivial(hash);
  srv.stop();
}

int main(int argc, char** argv)
{
  vp::Config c;
  c.id = "C18";
  c.props = { { "calls", prop, 1 } };
  c.hard_fail = true;
  c.worker_init = net::large_stacks;
  c.nondeterministic = true;
  return vp::main_impl(argc, argv, c);
}
