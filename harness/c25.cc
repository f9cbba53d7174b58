// C25: peers refused by the firewall never reach a method and cost nothing
#include "net.h"
#include "libiqxmlrpc/firewall.h"

using namespace iqxmlrpc;
using vp::Src;

class Wall: public iqnet::Firewall_base {
public:
  std::mutex mx;
  std::set<std::string> denied;
  std::string text; bool own_text;
  std::vector<std::string> asked;
  Wall(): own_text(false) {}
  bool grant(const iqnet::Inet_addr& a) { std::lock_guard<std::mutex> l(mx); asked.push_back(a.get_host_name()); return !denied.count(a.get_host_name()); }
  std::string message() { std::lock_guard<std::mutex> l(mx); return own_text ? text : Firewall_base::message(); }
};

static void prop(Src& s)
{
  net::Options o;
  o.tls = s.chance(1, 4);
  o.pool = s.chance(1, 3) ? 1 + (unsigned)s.draw(3) : 0;
  net::Log log;
  Wall wall1, wall2;
  {
    net::Srv srv(o);
    net::add_echo(*srv.s, log);
    Wall* w = &wall1;
    bool with = s.draw(12) != 11;
    auto setup = [&](Wall& x) {
      x.own_text = s.chance(2, 3);
      if (x.own_text) x.text = s.chance(1, 3) ? "" : gen::bytes(s, 60, 2000);
    };
    setup(wall1); setup(wall2);
    if (with) srv.s->set_firewall(w);
    std::string base = net::ip();
    base = base.substr(0, base.rfind('.'));
    std::vector<std::string> src;
    for (size_t k = 1 + s.draw(5), i = 0; i < k; ++i) src.push_back(s.chance(1, 2) ? base + "." + std::to_string(1 + s.draw(250)) : "127." + std::to_string(1 + s.draw(250)) + "." + std::to_string(s.draw(250)) + "." + std::to_string(1 + s.draw(250)));
    for (auto& a : src) if (s.chance(1, 2)) w->denied.insert(a);
    srv.start_and_wait();
    s.note(std::string(o.tls ? "https" : "http") + " pool " + std::to_string(o.pool) + (with ? w->own_text ? " text " + vp::quote(w->text, 60) : " default text" : " no firewall"));
    // connections opened while granted stay in use
    std::vector<std::unique_ptr<net::Conn>> open;
    std::vector<std::string> open_src;
    uint64_t hash = vp::mix(o.tls * 8 + o.pool, vp::hash64(w->text));
    int seq = 0; size_t refused = 0, granted = 0, fds = 0;
    bool counted = false;
    auto use = [&](net::Conn& c, bool keep) {
      std::string id = "g" + std::to_string(seq++);
      c.send(net::request(s, net::call_xml("echo", id), keep));
      net::Resp a;
      net::Conn::RR rr = c.read(a);
      srv.check_alive();
      VP_CHECK(rr == net::Conn::OK && a.code == 200, "granted", std::string("a granted peer is not served: ") + (rr == net::Conn::OK ? std::to_string(a.code) : net::Conn::name(rr)) + " " + vp::quote(c.buf));
      VP_CHECK(net::answer(a.body).text == "R" + id, "granted", "wrong answer");
      std::vector<std::string> l = log.take();
      VP_CHECK(l.size() == 1 && l[0] == id, "ran", "executed: " + net::join(l));
    };
    size_t n = 2 + s.draw(12);
    for (size_t i = 0; i < n; ++i) {
      size_t k = s.draw(src.size());
      switch (s.weighted({ 12, 3, 2, 1 })) {
      case 1: { // the decision changes
        std::lock_guard<std::mutex> l(w->mx);
        bool d = w->denied.count(src[k]) != 0;
        if (d) w->denied.erase(src[k]); else w->denied.insert(src[k]);
        s.note(src[k] + (d ? " granted" : " denied") + " from now on");
        continue; }
      case 2: if (!open.empty()) { size_t j = s.draw(open.size()); s.note("more on an open connection"); use(*open[j], true); if (s.chance(1, 2)) { open.erase(open.begin() + (long)j); open_src.erase(open_src.begin() + (long)j); } } continue;
      case 3: if (with && s.chance(1, 2)) { // another firewall with the next run
          srv.stop(); open.clear(); open_src.clear(); log.take();
          w = w == &wall1 ? &wall2 : &wall1;
          { std::lock_guard<std::mutex> l(w->mx); w->denied.clear(); for (auto& a : src) if (s.chance(1, 2)) w->denied.insert(a); }
          srv.s->set_firewall(w);
          srv.start_and_wait();
          s.note("restart with another firewall"); s.label("restarted");
          fds = 0; counted = false;
        } continue;
      }
      bool deny, own; std::string text;
      { std::lock_guard<std::mutex> l(w->mx); deny = with && w->denied.count(src[k]); own = w->own_text; text = own ? w->text : "HTTP/1.0 403 Forbidden\r\n"; }
      std::unique_ptr<net::Conn> c(new net::Conn);
      if (!counted) { usleep(300); fds = 0; }
      if (!deny) {
        c->tls = o.tls;
        VP_CHECK(c->connect(srv.host, srv.port, src[k]), "not-listening", "cannot connect");
        bool keep = s.chance(1, 2);
        s.note(src[k] + " is served" + (keep ? ", keep-alive" : ""));
        use(*c, keep);
        if (keep) { open.push_back(std::move(c)); open_src.push_back(src[k]); }
        ++granted; hash = vp::mix(hash, 1 + keep);
        continue;
      }
      ++refused;
      size_t how = s.weighted({ 6, 2, 2, 1, 1 });
      c->tls = o.tls && how == 4;
      VP_CHECK(c->connect(srv.host, srv.port, src[k]), "not-listening", "cannot connect");
      static const char* hn[] = { "waits", "sends a request", "sends a part of a request", "resets", "sends a request at once" };
      s.note(src[k] + " is refused, " + hn[how]);
      hash = vp::mix(hash, 10 + how);
      std::string q = net::request(s, net::call_xml("echo", "denied"), s.chance(1, 2));
      if (how == 1 || how == 4) c->send(q, 1); else if (how == 2) c->send(q.substr(0, s.draw(q.size())), 1); else if (how == 3) { c->reset(); continue; }
      int e;
      if (c->tls) { net::Resp a; net::Conn::RR rr = c->read(a); VP_CHECK(rr != net::Conn::OK && rr != net::Conn::TIMEOUT, "refused-served", std::string("a refused peer ") + (rr == net::Conn::TIMEOUT ? "stays connected" : "gets a response")); continue; }
      e = c->wait_end();
      srv.check_alive();
      VP_CHECK(e != -1, "refused-open", "the connection of a refused peer stays open, received " + vp::quote(c->buf));
      if (how == 0) VP_CHECK(c->eof && c->buf == text, "text", "a refused peer received " + vp::quote(c->buf) + (c->eof ? "" : " and a reset") + " instead of " + vp::quote(text));
      // a peer that was sending may lose (part of) the text to a reset
      else VP_CHECK(c->eof ? c->buf == text : text.compare(0, c->buf.size(), c->buf) == 0, "text", "a refused peer received " + vp::quote(c->buf) + " instead of " + vp::quote(text));
      if (s.chance(1, 3)) { c->send("more", 1); }
      std::vector<std::string> l = log.take();
      VP_CHECK(l.empty(), "ran", "executed for a refused peer: " + net::join(l));
    }
    // at the end somebody granted is served, and nothing is left of the refused ones
    std::string good = base + ".251";
    net::Conn c; c.tls = o.tls;
    VP_CHECK(c.connect(srv.host, srv.port, good), "not-listening", "cannot connect");
    use(c, true);
    open.clear();
    {
      // descriptors of the process: this connection (both ends) and what a burst of refused peers leaves
      double end = vp::now() + net::LONG;
      size_t base_fds = 0;
      usleep(200);
      while ((base_fds = net::count_fds()) && vp::now() < end) { usleep(300); if (net::count_fds() == base_fds) break; }
      if (with) {
        { std::lock_guard<std::mutex> l(w->mx); w->denied.insert(base + ".252"); }
        size_t k = 1 + s.draw(10);
        for (size_t i = 0; i < k; ++i) { net::Conn d; d.connect(srv.host, srv.port, base + ".252"); if (s.chance(1, 2)) d.wait_end(); }
        use(c, true);
        while (net::count_fds() > base_fds && vp::now() < end) usleep(300);
        VP_CHECK(net::count_fds() <= base_fds, "leftover", "descriptors stay open after " + std::to_string(k) + " refused connections:" + net::show_fds());
        refused += k;
      }
    }
    std::vector<std::string> l = log.take();
    VP_CHECK(l.empty(), "ran", "executed at the end: " + net::join(l));
    if (refused) s.label("refused"); if (granted) s.label("granted"); s.label(o.tls ? "https" : "http");
    if (refused) s.nontrivial(hash);
    c.close();
    srv.stop();
  }
}

int main(int argc, char** argv)
{
  vp::Config c;
  c.id = "C25";
  c.props = { { "firewall", prop, 1 } };
  c.hard_fail = true;
  c.worker_init = net::small_stacks;
  c.nondeterministic = true;
  return vp::main_impl(argc, argv, c);
}
