// C21: stopping works at any moment, and the server can run again
#include "net.h"

using namespace iqxmlrpc;
using vp::Src;

struct Counts { std::atomic<long> made, run; Counts(): made(0), run(0) {} };

class Counting: public Method_factory_base {
public:
  Counting(Counts& c, const net::Body& b): c_(c), b_(b) {}
  Method* create() { ++c_.made; Counts* c = &c_; net::Body b = b_; return new net::Fn([c, b](Method* m, const Param_list& p, Value& r) { ++c->run; b(m, p, r); }); }
private:
  Counts& c_;
  net::Body b_;
};

// Runs f in a thread of its own; false when it does not end.
static bool ends(const std::function<void()>& f)
{
  struct St { std::mutex m; std::condition_variable c; bool done = false; };
  auto st = std::make_shared<St>();
  std::thread t([st, f] { f(); std::lock_guard<std::mutex> l(st->m); st->done = true; st->c.notify_all(); });
  bool ok;
  { std::unique_lock<std::mutex> l(st->m); ok = st->c.wait_for(l, std::chrono::seconds((long)net::LONG), [&] { return st->done; }); }
  if (ok) t.join(); else t.detach();
  return ok;
}

enum Mode { BEFORE, THREAD, AT_ONCE, METHOD, SEVERAL, REPEATED, NMODES };
static const char* mname[] = { "before", "thread", "at once", "method", "several threads", "many requests before" };

struct Load { unsigned kind; unsigned us; bool keep; };

// a client that keeps the server busy and never minds what happens to its requests
static void loader(const net::Srv& srv, const Load& ld, std::atomic<bool>& quit)
{
  std::vector<std::unique_ptr<net::Conn>> held;
  unsigned k = 0, n = 0;
  while (!quit) {
    if (n > 60) { usleep(500); continue; }
    std::unique_ptr<net::Conn> c(new net::Conn);
    c->tls = srv.o.tls;
    if (!c->connect(srv.host, srv.port, "", 0)) { usleep(300); continue; }
    ++n;
    std::string rq = net::request(net::call_xml(ld.kind == 3 ? "big" : ld.us ? "sleep" : "echo", std::to_string(ld.us)), ld.keep);
    net::Resp r;
    switch (ld.kind) {
    case 0: case 3:
      for (int i = 0; i < (ld.keep ? 5 : 1) && !quit; ++i) { if (!c->send(rq, 0.02)) break; double e = vp::now() + 1; bool ok = false; while (!quit && vp::now() < e) { auto rr = c->read(r, 0.003); if (rr != net::Conn::TIMEOUT) { ok = rr == net::Conn::OK; break; } } if (!ok) break; }
      break;
    case 1:                                      // half a request, kept open
      c->send(rq.substr(0, rq.size() / 2), 0.02);
      if (held.size() < 8) held.push_back(std::move(c));
      usleep(500);
      break;
    case 2:                                      // answers never fetched
      c->send(rq, 0.02);
      if (held.size() < 8) held.push_back(std::move(c));
      break;
    default:
      c->send(rq, 0.02);
      if (++k % 2) c->reset();
    }
  }
}

static void serving(Src& s)
{
  net::Options o;
  o.tls = s.chance(1, 6);
  o.pool = s.chance(1, 3) ? 0 : 1 + (unsigned)s.draw(6);
  Counts n;
  net::Srv srv(o);
  Server* sp = srv.s.get();
  sp->register_method("echo", new Counting(n, [](Method*, const Param_list& p, Value& r) { r = "R" + p[0].get_string(); }));
  sp->register_method("sleep", new Counting(n, [](Method*, const Param_list& p, Value& r) { usleep((useconds_t)atol(p[0].get_string().c_str())); r = 1; }));
  sp->register_method("big", new Counting(n, [](Method*, const Param_list&, Value& r) { r = std::string(300000, 'b'); }));
  std::atomic<int> stops(0);
  struct Stop: Method { std::atomic<int>* n; void execute(const Param_list& p, Value& r) { r = 1; usleep((useconds_t)atol(p[0].get_string().c_str())); server().set_exit_flag(); ++*n; } };
  struct Stop_factory: Method_factory_base { Counts& c; std::atomic<int>* n; Stop_factory(Counts& c_, std::atomic<int>* n_): c(c_), n(n_) {} Method* create() { ++c.made; ++c.run; Stop* s = new Stop; s->n = n; return s; } };
  sp->register_method("stop", new Stop_factory(n, &stops));
  uint64_t hash = vp::mix(o.pool, o.tls);
  s.note(std::string(o.tls ? "https" : "http") + (o.pool ? " pool of " + std::to_string(o.pool) : " serial"));
  size_t rounds = 1 + s.draw(5), served = 0, loads = 0;
  for (size_t k = 0; k < rounds; ++k) {
    Mode m = (Mode)s.weighted({ 1, 4, 2, 2, 2, 1 });
    bool probe = m != BEFORE && m != REPEATED && m != AT_ONCE && s.chance(2, 3);
    unsigned delay = s.chance(1, 2) ? (unsigned)s.draw(300) : (unsigned)s.draw(8000);
    size_t nl = s.draw(5);
    std::vector<Load> ld(nl);
    std::string what;
    for (auto& l : ld) { l.kind = (unsigned)s.draw(5); l.us = s.chance(1, 2) ? 0 : 1 + (unsigned)s.draw(3000); l.keep = s.chance(1, 2); what += " " + std::to_string(l.kind) + "/" + std::to_string(l.us); hash = vp::mix(hash, l.kind * 4096 + l.us); }
    size_t times = m == SEVERAL ? 2 + s.draw(4) : m == REPEATED ? 2 + s.draw(199) : 1;
    s.note(std::string("stop ") + mname[m] + (times > 1 ? " x" + std::to_string(times) : "") + " after " + std::to_string(delay) + (probe ? " probed" : "") + " load" + what);
    hash = vp::mix(hash, (uint64_t)m * 65536 + delay + probe);
    loads += nl;
    std::atomic<bool> quit(false);
    std::vector<std::thread> ts;
    struct Quit { std::atomic<bool>& q; std::vector<std::thread>& t; ~Quit() { q = true; for (auto& x : t) if (x.joinable()) x.join(); } } guard = { quit, ts };
    for (auto& l : ld) { Load x = l; ts.emplace_back([&srv, x, &quit] { loader(srv, x, quit); }); }
    if (m == BEFORE || m == REPEATED) {
      if (m == REPEATED) {
        net::Srv* q = &srv;
        VP_CHECK(ends([q, times] { for (size_t i = 0; i < times; ++i) q->s->set_exit_flag(); }), "request-hang", "a stop request did not return");
      } else
        sp->set_exit_flag();
      srv.start();
    } else {
      srv.start();
      if (probe) {
        net::Conn c; c.tls = o.tls;
        VP_CHECK(c.connect(srv.host, srv.port), "not-listening", "the server does not accept connections");
        std::string id = "p" + std::to_string(k);
        VP_CHECK(c.send(net::request(net::call_xml("echo", id), false)), "not-served", "the request could not be sent");
        net::Resp r;
        auto rr = c.read(r);
        srv.check_alive();
        VP_CHECK(rr == net::Conn::OK, "not-served", std::string("a request is not answered: ") + net::Conn::name(rr));
        VP_CHECK(r.code == 200 && net::answer(r.body).text == "R" + id, "not-served", "wrong answer " + vp::quote(r.body, 200));
        ++served;
      }
      if (m == THREAD) { usleep(delay); sp->set_exit_flag(); }
      else if (m == AT_ONCE) sp->set_exit_flag();
      else if (m == METHOD) {
        // asks until a method got the stop request through
        net::Conn c; c.tls = o.tls;
        VP_CHECK(c.connect(srv.host, srv.port), "not-listening", "the server does not accept connections");
        VP_CHECK(c.send(net::request(net::call_xml("stop", std::to_string(delay % 2000)), false)), "not-served", "the request could not be sent");
        VP_CHECK(srv.join(), "stop-hang", "the serving loop did not return after a stop request from a method");
      }
      else {
        std::vector<std::thread> st;
        for (size_t i = 0; i < times; ++i) st.emplace_back([sp, delay, i] { usleep(delay * (unsigned)i / 2); sp->set_exit_flag(); });
        bool ok = srv.join();
        for (auto& t : st) t.join();
        VP_CHECK(ok, "stop-hang", "the serving loop did not return after " + std::to_string(times) + " stop requests");
        // a request that came late ends the next run at once
        VP_CHECK(srv.died.empty(), "server-down", "the serving loop ended: " + srv.died);
        sp->set_exit_flag();
        srv.start();
      }
    }
    if (srv.running) VP_CHECK(srv.join(), "stop-hang", std::string("the serving loop did not return after a stop request (") + mname[m] + ")");
    VP_CHECK(srv.died.empty(), "server-down", "the serving loop ended: " + srv.died);
    s.label(mname[m]);
    // the pool may be stopped while a method of the last round is still to ask for the stop: wait for it
    if (m == METHOD) { double e = vp::now() + net::LONG; while (!stops && vp::now() < e) usleep(100); stops = 0; }
    bool last = k + 1 == rounds;
    if (last && s.chance(1, 2)) {
      // the pool goes while the clients are still there
      Executor_factory_base* ef = srv.ef.release();
      VP_CHECK(ends([ef] { delete ef; }), "destroy-hang", "the destruction of the executor factory did not end");
      VP_CHECK(n.run == n.made, "not-run", std::to_string(n.made) + " requests were accepted and " + std::to_string(n.run) + " were run when the pool was gone");
      s.label("pool destroyed under load");
    }
  }
  if (srv.ef) {
    Executor_factory_base* ef = srv.ef.release();
    VP_CHECK(ends([ef] { delete ef; }), "destroy-hang", "the destruction of the executor factory did not end");
    VP_CHECK(n.run == n.made, "not-run", std::to_string(n.made) + " requests were accepted and " + std::to_string(n.run) + " were run when the pool was gone");
  }
  if (n.made && o.pool) s.label("pool worked");
  if (rounds > 1) s.label("restarted");
  s.label(o.pool ? "pool" : "serial");
  if (rounds > 1 || loads || served) s.nontrivial(hash);
}

static void pool(Src& s)
{
  size_t k = 1 + s.draw(6);
  uint64_t hash = k;
  bool many = false;
  for (size_t i = 0; i < k; ++i) {
    unsigned n = s.chance(1, 3) ? (unsigned)s.draw(40) : (unsigned)s.draw(4), more = s.chance(1, 3) ? (unsigned)s.draw(6) : 0, us = s.chance(1, 2) ? 0 : (unsigned)s.draw(400), us2 = s.chance(1, 2) ? 0 : (unsigned)s.draw(100);
    s.note("pool of " + std::to_string(n) + "+" + std::to_string(more) + " for " + std::to_string(us) + " us");
    hash = vp::mix(hash, n * 100000 + more * 10000 + us);
    if (n + more > 1) many = true;
    auto* f = new Pool_executor_factory(n);
    if (us2) usleep(us2);
    if (more) f->add_threads(more);
    if (us) usleep(us);
    VP_CHECK(ends([f] { delete f; }), "destroy-hang", "the destruction of a pool of " + std::to_string(n + more) + " threads did not end");
  }
  s.label("bare pool");
  if (many) s.nontrivial(hash);
}

int main(int argc, char** argv)
{
  vp::Config c;
  c.id = "C21";
  c.props = { { "serving", serving, 3 }, { "pool", pool, 1 } };
  c.hard_fail = true;
  c.worker_init = net::small_stacks;
  c.workers = 20;
  c.nondeterministic = true;
  return vp::main_impl(argc, argv, c);
}
