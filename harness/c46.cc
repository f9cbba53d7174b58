// C46: calls that wait for a thread are started in the order of their arrival, and the server stays responsive meanwhile
#include "net.h"

using namespace iqxmlrpc;
using vp::Src;

static std::mutex mx;
static std::condition_variable cv;
static size_t inside, released;          // calls of "gate" that entered, may leave
static net::Log ran;
static std::vector<std::string> arrived;

static void gate(Method*, const Param_list&, Value& r)
{
  std::unique_lock<std::mutex> l(mx);
  ++inside;
  cv.notify_all();
  cv.wait_for(l, std::chrono::seconds(60), [] { return released > 0; });
  if (released) --released;
  r = "Rgate";
}

static void work(Method*, const Param_list& p, Value& r)
{
  std::string id = p.at(0).get_string();
  ran.add(id);
  r = "R" + id;
  if (id[0] == 'f') throw Fault(7, "F" + id);
}

struct Plugin: Auth_Plugin_base {
  bool do_authenticate(const std::string& u, const std::string&) const { std::lock_guard<std::mutex> l(mx); arrived.push_back(u); cv.notify_all(); return u != "nobody"; }
  bool do_authenticate_anonymous() const { return true; }
};

static bool wait_arrived(const std::string& u, size_t n)
{
  std::unique_lock<std::mutex> l(mx);
  return cv.wait_for(l, std::chrono::seconds((int)net::LONG), [&] { return (size_t)std::count(arrived.begin(), arrived.end(), u) >= n; });
}

static void prop(Src& s)
{
  inside = released = 0; ran.take(); arrived.clear();
  Plugin plugin;
  net::Options o;
  o.tls = s.chance(1, 10);
  o.pool = 1 + (unsigned)s.draw(4);
  net::Srv srv(o);
  srv.s->register_method("gate", new net::Fn_factory(gate));
  srv.s->register_method("work", new net::Fn_factory(work));
  srv.s->set_auth_plugin(plugin);
  srv.start_and_wait();
  struct K { net::Conn c; std::string id; bool kept; };
  std::vector<std::unique_ptr<net::Conn>> gates;
  for (unsigned i = 0; i < o.pool; ++i) {
    gates.emplace_back(new net::Conn);
    gates.back()->tls = o.tls;
    VP_CHECK(gates.back()->connect(srv.host, srv.port), "not-listening", "cannot connect");
    gates.back()->send(net::request(net::call_xml("gate", "g"), true));
  }
  {
    std::unique_lock<std::mutex> l(mx);
    VP_CHECK(cv.wait_for(l, std::chrono::seconds((int)net::LONG), [&] { return inside >= o.pool; }), "concurrency", "a pool of " + std::to_string(o.pool) + " threads does not run that many calls at once");
  }
  s.note(std::string(o.tls ? "https" : "http") + ", " + std::to_string(o.pool) + " threads, all busy");
  std::vector<std::unique_ptr<K>> ks;
  std::vector<std::string> order;
  std::vector<std::string> dropped;
  size_t n = 2 + s.draw(s.chance(1, 5) ? 80 : 15), waiting = 0;
  uint64_t hash = o.pool;
  for (size_t i = 0; i < n; ++i) {
    std::string id = "q" + std::to_string(i);
    size_t kind = s.weighted({ 10, 2, 1, 1, 1, 1 });
    hash = vp::mix(hash, kind);
    if (kind == 0 || kind == 1) {
      if (kind == 1) id[0] = 'f';
      ks.emplace_back(new K);
      K& k = *ks.back();
      k.id = id; k.kept = s.chance(1, 2); k.c.tls = o.tls;
      VP_CHECK(k.c.connect(srv.host, srv.port), "not-listening", "cannot connect while all threads are busy");
      k.c.send(net::request(s, net::call_xml("work", id), k.kept, "Authorization: Basic " + ref::encode64(id + ":p") + "\r\n"));
      VP_CHECK(wait_arrived(id, 1), "not-received", "a request is not received while all threads are busy");
      srv.check_alive();
      order.push_back(id); ++waiting;
      s.note("call " + id);
    } else if (kind == 5) {
      if (ks.empty()) continue;
      size_t j = s.draw(ks.size());
      s.note("caller of " + ks[j]->id + " leaves");
      dropped.push_back(ks[j]->id);
      if (s.chance(1, 2)) ks[j]->c.reset();
      ks.erase(ks.begin() + (long)j);
      s.label("caller left");
    } else {
      net::Conn c; c.tls = o.tls;
      VP_CHECK(c.connect(srv.host, srv.port), "not-listening", "cannot connect while all threads are busy");
      int want = 200;
      if (kind == 2) { c.send("GET / HTTP/1.1\r\nContent-Length: 0\r\n\r\n"); want = 405; }
      else if (kind == 3) { c.send(net::request(net::call_xml("nosuch", id), false)); }
      else { c.send(net::request(net::call_xml("work", id), false, "Authorization: Basic " + ref::encode64("nobody:p") + "\r\n")); want = 401; }
      net::Resp a;
      net::Conn::RR rr = c.read(a);
      srv.check_alive();
      VP_CHECK(rr == net::Conn::OK && a.code == want, "unresponsive", "a request that needs no thread, while all are busy: " + std::string(net::Conn::name(rr)) + " " + std::to_string(a.code));
      if (want == 200) VP_CHECK(net::answer(a.body).fault, "unresponsive", "a call of an unknown method: " + vp::quote(a.body, 200));
      s.note("request answered at once");
    }
  }
  std::vector<std::string> early = ran.take();
  VP_CHECK(early.empty(), "too-many", "more calls run than the pool has threads: " + net::join(early));
  // one thread becomes free and does it all
  { std::lock_guard<std::mutex> l(mx); released = 1; cv.notify_all(); }
  std::vector<size_t> idx;
  for (size_t i = 0; i < ks.size(); ++i) idx.push_back(i);
  for (size_t i = idx.size(); i > 1; --i) std::swap(idx[i - 1], idx[s.draw(i)]);
  for (size_t i : idx) {
    K& k = *ks[i];
    net::Resp a;
    net::Conn::RR rr = k.c.read(a);
    srv.check_alive();
    VP_CHECK(rr == net::Conn::OK && a.code == 200, "no-answer", "call " + k.id + " that waited gets no answer: " + net::Conn::name(rr));
    net::Answer w = net::answer(a.body);
    VP_CHECK(w.fault == (k.id[0] == 'f') && w.text == (w.fault ? "F" : "R") + k.id, "answer", "call " + k.id + " that waited is answered with " + vp::quote(w.text, 80));
  }
  std::vector<std::string> got = ran.peek(), want;
  auto is_dropped = [&](const std::string& id) { return std::find(dropped.begin(), dropped.end(), id) != dropped.end(); };
  got.erase(std::remove_if(got.begin(), got.end(), is_dropped), got.end());
  for (auto& x : order) if (!is_dropped(x)) want.push_back(x);
  VP_CHECK(got == want, "order", "calls were started in the order " + net::join(got) + " instead of " + net::join(want));
  { std::lock_guard<std::mutex> l(mx); released = 100; cv.notify_all(); }
  for (auto& g : gates) {
    net::Resp a;
    net::Conn::RR rr = g->read(a);
    VP_CHECK(rr == net::Conn::OK && net::answer(a.body).text == "Rgate", "no-answer", std::string("a call that kept a thread busy gets no answer: ") + net::Conn::name(rr));
  }
  s.label(std::to_string(o.pool) + " threads");
  if (waiting > 1) s.nontrivial(vp::mix(hash, waiting));
  ks.clear(); gates.clear();
  srv.stop();
}

int main(int argc, char** argv)
{
  vp::Config c;
  c.id = "C46";
  c.props = { { "queue", prop, 1 } };
  c.hard_fail = true;
  c.worker_init = net::small_stacks;
  c.nondeterministic = true;
  return vp::main_impl(argc, argv, c);
}
