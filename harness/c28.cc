// C28: the event loop delivers exactly the registered events
#include "net.h"
#include "libiqxmlrpc/reactor_impl.h"

using namespace iqnet;
using vp::Src;
enum { IN = Reactor_base::INPUT, OUT = Reactor_base::OUTPUT };

static void pair_of(int f[2])
{
  if (::socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0, f)) throw vp::Discard();
  int sz = 4096;
  setsockopt(f[0], SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz);
}

struct World;

enum Act { NONE, CONSUME, UNREG_SELF_EVENT, UNREG_SELF, UNREG_OTHER, REG_SELF_BOTH, REG_OTHER, FAKE_OTHER, FAKE_SELF, TERMINATE, THROW, NACTS };
static const char* aname[] = { "nothing", "consume", "unregister this event", "unregister itself", "unregister other", "register itself for both", "register other", "fake other", "fake itself", "terminate", "throw" };

struct H: Event_handler {
  World* w; int id; int fd, peer; bool stopper; bool catches;
  int act, arg, aev;              // what the next callback does
  H(World* w_, int i): w(w_), id(i), fd(-1), peer(-1), stopper(false), catches(true), act(NONE), arg(0), aev(IN) { int f[2]; pair_of(f); fd = f[0]; peer = f[1]; }
  ~H() { if (fd >= 0) ::close(fd); if (peer >= 0) ::close(peer); }
  Socket::Handler get_handler() const { return fd; }
  bool is_stopper() const { return stopper; }
  bool catch_in_reactor() const { return catches; }
  void handle_input(bool& t) { called(IN, t); }
  void handle_output(bool& t) { called(OUT, t); }
  void finish();
  void log_exception(const std::exception&);
  void log_unknown_exception();
  void called(int ev, bool& t);
};

struct Ev { int id, ev; };        // ev 100: finish, 101: exception logged

struct World {
  Reactor_base* r;
  std::vector<std::unique_ptr<H>> h;
  std::vector<int> mask;          // registered events of each handler
  std::vector<int> faked;         // faked and not delivered yet
  std::vector<Ev> events;         // callbacks of this round
  std::vector<int> touched;       // registration or fakes of the handler changed during this round
  bool threw;
  World(): r(0), threw(false) {}
  void reg(int i, int m) { r->register_handler(h[i].get(), (Reactor_base::Event_mask)m); mask[i] |= m; }
  // what becomes of a faked event when its registration is taken back before it was delivered is not claimed
  void unreg(int i, int m) { if (m != 3 && (faked[i] & m)) return; if (m == 3) r->unregister_handler(h[i].get()); else r->unregister_handler(h[i].get(), (Reactor_base::Event_mask)m); mask[i] &= ~m; if (!mask[i]) faked[i] = 0; }
  void fake(int i, int m) { if (mask[i] & m) { r->fake_event(h[i].get(), (Reactor_base::Event_mask)m); faked[i] |= m; } }
};

void H::finish() { w->events.push_back({ id, 100 }); }
void H::log_exception(const std::exception&) { w->events.push_back({ id, 101 }); }
void H::log_unknown_exception() { w->events.push_back({ id, 101 }); }

void H::called(int ev, bool& t)
{
  VP_CHECK(w->mask[id] != 0, "unregistered", std::string("callback of a handler that is not registered, ") + (ev == IN ? "input" : "output"));
  VP_CHECK((w->mask[id] & ev) || w->touched[id], "not-registered-event", std::string(ev == IN ? "input" : "output") + " callback of a handler registered only for the other event");
  w->events.push_back({ id, ev });
  int a = act; act = NONE;
  char b[64];
  switch (a) {
  case CONSUME: if (ev == IN) { while (::recv(fd, b, sizeof b, 0) > 0) {} } break;
  case UNREG_SELF_EVENT: w->unreg(id, ev); w->touched[id] = 1; break;
  case UNREG_SELF: w->unreg(id, 3); w->touched[id] = 1; break;
  case UNREG_OTHER: w->unreg(arg, aev); w->touched[arg] = 1; break;
  case REG_SELF_BOTH: w->reg(id, IN); w->reg(id, OUT); w->touched[id] = 1; break;
  case REG_OTHER: w->reg(arg, aev == 3 ? IN : aev); w->touched[arg] = 1; break;
  case FAKE_OTHER: w->fake(arg, aev == 3 ? IN : aev); w->touched[arg] = 1; break;
  case FAKE_SELF: w->fake(id, aev == 3 ? IN : aev); w->touched[id] = 1; break;
  case TERMINATE: t = true; w->mask[id] = 0; w->faked[id] = 0; w->touched[id] = 1; break;
  case THROW: w->mask[id] = 0; w->faked[id] = 0; w->touched[id] = 1; w->threw = true; if (arg & 1) throw std::runtime_error("x"); throw 7;
  }
}

static bool pending(int fd, int ev)
{
  pollfd p = { fd, (short)(ev == IN ? POLLIN : POLLOUT), 0 };
  return ::poll(&p, 1, 0) > 0 && (p.revents & (ev == IN ? POLLIN : POLLOUT | POLLERR | POLLHUP));
}

static void model(Src& s)
{
  std::unique_ptr<Reactor_base> r;
  bool locked = s.chance(1, 2);
  if (locked) r.reset(new Reactor<boost::mutex>); else r.reset(new Reactor<Null_lock>);
  World w;
  w.r = r.get();
  size_t n = 1 + s.draw(5);
  for (size_t i = 0; i < n; ++i) w.h.emplace_back(new H(&w, (int)i));
  w.mask.assign(n, 0); w.faked.assign(n, 0); w.touched.assign(n, 0);
  uint64_t hash = n; size_t rounds = 0, delivered = 0, acted = 0;
  size_t steps = 3 + s.draw(30);
  for (size_t st = 0; st < steps; ++st) {
    int k = (int)s.draw(n);
    switch (s.weighted({ 4, 2, 4, 2, 2, 1, 8 })) {
    case 0: { int m = s.chance(1, 2) ? OUT : IN; s.note("register " + std::to_string(k) + (m == IN ? " in" : " out")); w.reg(k, m); hash = vp::mix(hash, 10 + k * 2 + (m == IN)); break; }
    case 1: { int m = s.chance(1, 3) ? 3 : s.chance(1, 2) ? OUT : IN; s.note("unregister " + std::to_string(k) + (m == 3 ? "" : m == IN ? " in" : " out")); w.unreg(k, m); hash = vp::mix(hash, 30 + k * 4 + m); break; }
    case 2: { s.note("data for " + std::to_string(k)); if (w.h[k]->peer >= 0) ::send(w.h[k]->peer, "x", 1, MSG_NOSIGNAL); hash = vp::mix(hash, 60 + k); break; }
    case 3: { // no room for output
      s.note("fill " + std::to_string(k));
      char b[4096]; memset(b, 0, sizeof b);
      while (::send(w.h[k]->fd, b, sizeof b, MSG_NOSIGNAL) > 0) {}
      while (::send(w.h[k]->fd, b, 1, MSG_NOSIGNAL) > 0) {}
      hash = vp::mix(hash, 70 + k); break; }
    case 4: { // room again
      s.note("drain " + std::to_string(k));
      char b[65536]; if (w.h[k]->peer >= 0) while (::recv(w.h[k]->peer, b, sizeof b, 0) > 0) {}
      hash = vp::mix(hash, 80 + k); break; }
    case 5: {
      if (s.chance(1, 2)) { s.note("fake " + std::to_string(k)); w.fake(k, s.chance(1, 2) ? IN : OUT); hash = vp::mix(hash, 90 + k); }
      else if (w.h[k]->peer >= 0) { s.note("peer of " + std::to_string(k) + " closes"); ::close(w.h[k]->peer); w.h[k]->peer = -1; hash = vp::mix(hash, 100 + k); }
      break; }
    default: {
      // plan the callbacks
      std::string plan;
      for (size_t i = 0; i < n; ++i) {
        H& h = *w.h[i];
        h.act = (int)s.weighted({ 8, 6, 2, 2, 2, 1, 1, 1, 1, 1, 1 });
        h.arg = (int)s.draw(n); h.aev = s.chance(1, 2) ? 3 : s.chance(1, 2) ? OUT : IN;
        if (h.act == UNREG_OTHER && h.aev != 3) h.aev = 3;      // partial unregistration of others: effect in this round not claimed
        if (h.act != NONE) { plan += " " + std::to_string(i) + ":" + aname[h.act]; if (h.act == UNREG_OTHER || h.act == REG_OTHER || h.act == FAKE_OTHER) plan += " " + std::to_string(h.arg); }
        hash = vp::mix(hash, (uint64_t)h.act * 8 + (uint64_t)h.arg);
      }
      s.note("round:" + plan);
      w.events.clear(); w.touched.assign(n, 0); w.threw = false;
      std::vector<int> m0 = w.mask, f0 = w.faked, in(n), out(n);
      for (size_t i = 0; i < n; ++i) { in[i] = pending(w.h[i]->fd, IN); out[i] = pending(w.h[i]->fd, OUT); w.faked[i] = 0; }
      bool any = false, empty = true, none = false;
      for (size_t i = 0; i < n; ++i) { if (m0[i]) empty = false; any = any || f0[i] || ((m0[i] & IN) && in[i]) || ((m0[i] & OUT) && out[i]); }
      bool ret = false;
      try { ret = r->handle_events(0); } catch (const Reactor_base::No_handlers&) { none = true; }
      VP_CHECK(!none, "no-handlers", "No_handlers raised though no stopper is registered");
      if (empty) VP_CHECK(w.events.empty() && !ret, "empty", "events without any handler");
      bool system = false;
      for (auto& e : w.events) if (e.ev < 100) ++delivered;
      // each registered and pending event is delivered, each delivered one was registered and pending
      for (size_t i = 0; i < n; ++i) {
        int ci = 0, co = 0, fin = 0, ex = 0, first = 0;
        for (auto& e : w.events) if (e.id == (int)i) { if (e.ev == IN) ++ci; else if (e.ev == OUT) ++co; else if (e.ev == 100) ++fin; else ++ex; if (!first && e.ev < 100) first = e.ev; }
        std::string who = "handler " + std::to_string(i) + " registered for" + (m0[i] & IN ? " input" : "") + (m0[i] & OUT ? " output" : "") + ", pending" + (in[i] ? " input" : "") + (out[i] ? " output" : "") + ", faked" + (f0[i] & IN ? " input" : "") + (f0[i] & OUT ? " output" : "");
        bool sysin = (m0[i] & IN) && in[i], sysout = (m0[i] & OUT) && out[i];
        if ((sysin || sysout) && !w.touched[i] && !f0[i]) system = true;
        if (!w.touched[i]) {
          // the event faked comes first, then the pending one; input has precedence over output in each
          int want_fi = (f0[i] & IN) ? 1 : 0, want_fo = !want_fi && (f0[i] & OUT) ? 1 : 0;
          // a handler that consumed its data during the faked event has none pending afterwards
          bool consumed = want_fi && ci + co == 1 && sysin && !pending(w.h[i]->fd, IN);
          int wi = want_fi + (sysin && !consumed ? 1 : 0), wo = want_fo + ((!sysin || consumed) && sysout ? 1 : 0);
          if (consumed && sysout) { wi = want_fi; wo = want_fo + 1; }
          if (want_fi && sysin && !pending(w.h[i]->fd, IN)) {       // consumed in the faked or in the pending call
            VP_CHECK(ci >= 1 && ci <= 2 && ci + co >= (sysout ? 2 : 1), "lost", who + ": " + std::to_string(ci) + " input and " + std::to_string(co) + " output callbacks");
          } else
            VP_CHECK(ci == wi && co == wo, ci + co < wi + wo ? "lost" : "extra", who + ": " + std::to_string(ci) + " input and " + std::to_string(co) + " output callbacks instead of " + std::to_string(wi) + " and " + std::to_string(wo));
          VP_CHECK(!fin && !ex, "finish", who + ": finish without a reason");
        } else {
          VP_CHECK(ci + co <= 2, "extra", who + ": " + std::to_string(ci + co) + " callbacks in one round");
        }
        H& h = *w.h[i]; (void)h;
      }
      // finish exactly once for each callback that asked to terminate or raised
      for (size_t i = 0; i < n; ++i) {
        int fin = 0, ex = 0;
        for (auto& e : w.events) if (e.id == (int)i) { fin += e.ev == 100; ex += e.ev == 101; }
        VP_CHECK(fin <= 1 && ex <= 1 && ex <= fin, "finish", "finish called " + std::to_string(fin) + " times");
        if (w.touched[i] && !w.mask[i] && fin) ++acted;
      }
      if (!empty && !any) { VP_CHECK(w.events.empty(), "extra", "a callback though nothing is pending"); VP_CHECK(!ret, "result", "a round without events reports events"); }
      if (system && !w.events.empty()) VP_CHECK(ret, "result", "a round with events reports a timeout");
      for (auto& h : w.h) h->act = NONE;
      ++rounds;
    } }
  }
  // at the end each handler left gets what is pending for it, with callbacks that do nothing
  for (size_t i = 0; i < n; ++i) if (w.mask[i]) { w.r->unregister_handler(w.h[i].get()); }
  bool ret = r->handle_events(0);
  VP_CHECK(!ret, "empty", "events after every handler was unregistered");
  if (delivered) s.label("delivered"); if (acted) s.label("terminated"); s.label(locked ? "locked" : "unlocked");
  if (rounds && delivered) s.nontrivial(hash);
}

// Rounds that may wait.  A handler that has a pending or faked event, also one faked by a callback
// of the round before, makes nobody wait; without any the round lasts as long as it was told.
struct Faker: Event_handler {
  Reactor_base* r; int fd, peer, left, calls; Faker* next; bool other, out;
  Faker(Reactor_base* re): r(re), left(0), calls(0), next(0), other(false), out(false) { int f[2]; pair_of(f); fd = f[0]; peer = f[1]; }
  ~Faker() { ::close(fd); ::close(peer); }
  Socket::Handler get_handler() const { return fd; }
  void again() { ++calls; if (left > 0) { --left; r->fake_event(other ? next : this, out ? Reactor_base::OUTPUT : Reactor_base::INPUT); } }
  void handle_input(bool&) { char b[16]; while (::recv(fd, b, sizeof b, 0) > 0) {} again(); }
  void handle_output(bool&) { again(); }
};

static void waits(Src& s)
{
  std::unique_ptr<Reactor_base> r;
  if (s.chance(1, 2)) r.reset(new Reactor<boost::mutex>); else r.reset(new Reactor<Null_lock>);
  size_t n = 1 + s.draw(3);
  std::vector<std::unique_ptr<Faker>> h;
  int left = (int)s.draw(6), want = 1 + left;
  for (size_t i = 0; i < n; ++i) h.emplace_back(new Faker(r.get()));
  for (size_t i = 0; i < n; ++i) {
    h[i]->next = h[(i + 1) % n].get(); h[i]->other = s.chance(1, 2);
    r->register_handler(h[i].get(), Reactor_base::INPUT);
  }
  bool real = s.chance(1, 2);
  s.note(std::to_string(n) + " handlers, " + (real ? "data" : "a faked event") + " for the first, " + std::to_string(left) + " events faked by callbacks");
  // one budget, handed from callback to callback
  auto calls = [&] { int c = 0; for (auto& x : h) c += x->calls; return c; };
  if (real) { if (::send(h[0]->peer, "x", 1, MSG_NOSIGNAL) != 1) throw vp::Discard(); } else r->fake_event(h[0].get(), Reactor_base::INPUT);
  for (int i = 0; i < want; ++i) {
    for (auto& x : h) x->left = left;
    int before = calls();
    if (before >= want) break;
    double t = vp::now();
    r->handle_events(10000);
    t = vp::now() - t;
    VP_CHECK(t < 9, "waited", "a round waits " + std::to_string(t) + " s though an event " + (before || !real ? "was faked" : "is pending"));
    VP_CHECK(calls() > before, "lost", "a round without a callback though an event is due");
    left -= calls() - before;
    if (left < 0) left = 0;
  }
  for (auto& x : h) x->left = 0;
  while (r->handle_events(0)) {}
  int ms = 1 + (int)s.draw(20);
  double t = vp::now();
  bool ret = r->handle_events(ms);
  t = vp::now() - t;
  VP_CHECK(!ret, "result", "a round without events reports events");
  VP_CHECK(t * 1000 > ms * 0.9 - 1, "early", "a round of " + std::to_string(ms) + " ms without events ends after " + std::to_string(t) + " s");
  for (auto& x : h) r->unregister_handler(x.get());
  s.label("waits");
  s.nontrivial(vp::mix(vp::mix(n, want), real * 32 + ms));
}

// terminate calls finish exactly once and the handler may delete itself
struct Suicide: Event_handler {
  int fd; std::atomic<int>* gone; bool thr;
  Suicide(int f, std::atomic<int>* g, bool t): fd(f), gone(g), thr(t) {}
  ~Suicide() { ::close(fd); ++*gone; }
  Socket::Handler get_handler() const { return fd; }
  bool catch_in_reactor() const { return true; }
  void handle_input(bool& t) { if (thr) throw std::runtime_error("x"); t = true; }
  void finish() { delete this; }
};

// other threads register and unregister while the loop runs
struct Counter: Event_handler {
  int fd; Reactor_base* r; std::atomic<int> calls;
  Counter(int f, Reactor_base* re): fd(f), r(re), calls(0) {}
  Socket::Handler get_handler() const { return fd; }
  bool catch_in_reactor() const { return true; }
  void handle_input(bool&) { char b[16]; while (::recv(fd, b, sizeof b, 0) > 0) {} r->unregister_handler(this, Reactor_base::INPUT); ++calls; }
  void handle_output(bool&) { r->unregister_handler(this, Reactor_base::OUTPUT); ++calls; }
};

static void threads(Src& s)
{
  Reactor<boost::mutex> r;
  std::atomic<bool> stop(false);
  int lf[2]; pair_of(lf);
  Counter idle(lf[0], &r);
  r.register_handler(&idle, Reactor_base::INPUT);
  size_t nt = 1 + s.draw(4), per = 1 + s.draw(12);
  struct Step { bool out; unsigned pause; bool dies; bool thr; };
  std::vector<std::vector<Step>> plan(nt);
  uint64_t hash = nt;
  for (auto& p : plan) for (size_t i = 0; i < per; ++i) { Step x; x.out = s.chance(1, 2); x.pause = (unsigned)s.draw(200); x.dies = s.chance(1, 4); x.thr = s.chance(1, 2); p.push_back(x); hash = vp::mix(hash, x.out * 2 + x.dies + 4 * x.pause); }
  s.note(std::to_string(nt) + " threads, " + std::to_string(per) + " registrations each");
  std::string died;
  std::thread loop([&] { try { while (!stop) r.handle_events(1); } catch (const std::exception& e) { died = e.what(); } });
  std::atomic<int> missing(0), wrong(0);
  std::vector<std::thread> ts;
  for (size_t t = 0; t < nt; ++t) ts.emplace_back([&, t] {
    int f[2]; pair_of(f);
    Counter c(f[0], &r);
    int want = 0;
    std::atomic<int> gone(0);
    for (auto& x : plan[t]) {
      if (x.dies) {
        int g[2]; pair_of(g);
        int before = gone;
        ::send(g[1], "x", 1, MSG_NOSIGNAL);
        r.register_handler(new Suicide(g[0], &gone, x.thr), Reactor_base::INPUT);
        double end = vp::now() + net::LONG;
        while (gone == before && vp::now() < end) usleep(50);
        if (gone != before + 1) ++missing;
        ::close(g[1]);
        continue;
      }
      if (!x.out) ::send(f[1], "x", 1, MSG_NOSIGNAL);
      r.register_handler(&c, x.out ? Reactor_base::OUTPUT : Reactor_base::INPUT);
      ++want;
      double end = vp::now() + net::LONG;
      while (c.calls < want && vp::now() < end) usleep(50);
      if (c.calls < want) { ++missing; break; }
      if (c.calls > want) ++wrong;
      if (x.pause > 150) usleep(x.pause);
    }
    r.unregister_handler(&c);
    // the loop may still be in a callback: one further round passes
    usleep(3000);
    if (c.calls != want) ++wrong;
    // kept open until the loop has ended: the round in progress may still look at them
    ::close(f[1]);
    static std::mutex mx; static std::vector<int> later; std::lock_guard<std::mutex> l(mx); later.push_back(f[0]);
    if (later.size() > 200) { for (int q = 0; q < 100; ++q) ::close(later[q]); later.erase(later.begin(), later.begin() + 100); }
  });
  for (auto& t : ts) t.join();
  stop = true;
  loop.join();
  ::close(lf[0]); ::close(lf[1]);
  VP_CHECK(died.empty(), "loop-died", "the loop ended: " + died);
  VP_CHECK(!missing, "lost", "an event of a handler registered by another thread was not delivered");
  VP_CHECK(!wrong, "extra", "a handler was called more often than registered");
  s.label("threads");
  s.nontrivial(hash);
}

int main(int argc, char** argv)
{
  vp::Config c;
  c.id = "C28";
  c.props = { { "model", model, 3 }, { "waits", waits, 1 }, { "threads", threads, 1 } };
  c.hard_fail = true;
  c.worker_init = net::small_stacks;
  c.nondeterministic = true;
  return vp::main_impl(argc, argv, c);
}
