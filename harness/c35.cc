// C35: the error log receives every message once and whole
#include "net.h"
#include <sstream>

using namespace iqxmlrpc;
using vp::Src;

static void prop(Src& s)
{
  net::Options o;
  o.tls = s.chance(1, 8);
  o.pool = s.chance(3, 4) ? 1 + (unsigned)s.draw(6) : 0;
  std::ostringstream log;
  net::Srv srv(o);
  bool logging = s.draw(6) != 5;
  if (logging) srv.s->log_errors(&log);
  // logs the lines it is given
  srv.s->register_method("log", new net::Fn_factory([](Method* m, const Param_list& p, Value& r) {
    for (size_t i = 0; i < p.size(); ++i) {
      std::string l = p[i].get_string();
      for (auto& c : l) if (c == '~') c = '\0';
      m->server().log_message(l);
    }
    r = "done";
  }));
  srv.s->register_method("throw", new net::Fn_factory([](Method* m, const Param_list& p, Value& r) { throw std::runtime_error("E" + p[0].get_string()); }));
  srv.start_and_wait();
  size_t nc = 1 + s.draw(4);
  std::vector<std::vector<std::vector<std::string>>> calls(nc);        // client, call, lines
  std::vector<std::string> want, unknown;
  uint64_t hash = o.pool * 2 + logging;
  for (size_t c = 0; c < nc; ++c) {
    size_t n = 1 + s.draw(5);
    for (size_t i = 0; i < n; ++i) {
      std::vector<std::string> ls;
      int kind = (int)s.draw(6);
      if (kind == 5) { ls.push_back("?" + std::to_string(c) + "." + std::to_string(i)); unknown.push_back("nosuch" + ls[0]); }
      else {
        size_t k = s.draw(6);
        for (size_t j = 0; j < k; ++j) {
          std::string l = "L" + std::to_string(c) + "." + std::to_string(i) + "." + std::to_string(j) + ":";
          size_t len = s.draw(300, [](vp::Rng& r) -> uint64_t { return r.chance(1, 4) ? r.below(300) : r.below(20); });
          for (size_t q = 0; q < len; ++q) l += (char)('a' + (q + j) % 26);
          ls.push_back(l);
          // the server adds what an XML text cannot carry: '~' stands for a zero character
          if (s.chance(1, 4)) { size_t at = 1 + l.find(':') + s.draw(l.size() - l.find(':')); ls.back().insert(at, "~"); l.insert(at, 1, '\0'); }
          else if (s.chance(1, 4)) { std::string odd; size_t m = 1 + s.draw(6); for (size_t q = 0; q < m; ++q) { static const char* u[] = { "%s", "%n", "\t", " ", "\\", "\"", "\xc3\xa9", "\xf0\x9f\x98\x80", "<&>", "{}" }; odd += u[s.draw(10)]; } size_t at = 1 + l.find(':') + s.draw(l.size() - l.find(':')); ls.back().insert(at, odd); l.insert(at, odd); }
          want.push_back(l);
        }
      }
      hash = vp::mix(hash, ls.size());
      calls[c].push_back(ls);
    }
  }
  if (s.describing()) s.note(std::string(o.tls ? "https" : "http") + " pool " + std::to_string(o.pool) + (logging ? "" : " no log") + ", " + std::to_string(nc) + " clients, " + std::to_string(want.size()) + " messages, " + std::to_string(unknown.size()) + " unknown methods");
  std::vector<std::thread> ts;
  std::vector<std::string> bad(nc);
  for (size_t c = 0; c < nc; ++c) ts.emplace_back([&, c] {
    try {
      std::unique_ptr<Client_base> cl;
      if (o.tls) cl.reset(new Client<Https_client_connection>(srv.addr())); else cl.reset(new Client<Http_client_connection>(srv.addr()));
      cl->set_timeout((int)net::LONG);
      cl->set_keep_alive(true);
      for (auto& ls : calls[c]) {
        bool un = ls.size() == 1 && ls[0][0] == '?';
        Param_list pl;
        for (auto& l : ls) pl.push_back(Value(l));
        Response r = cl->execute(un ? "nosuch" + ls[0] : std::string("log"), pl);
        if (un ? !r.is_fault() : r.is_fault() || r.value().get_string() != "done") { bad[c] = "wrong answer"; return; }
      }
    } catch (const std::exception& e) { bad[c] = e.what(); }
  });
  for (auto& t : ts) t.join();
  srv.check_alive();
  for (size_t c = 0; c < nc; ++c) VP_CHECK(bad[c].empty(), "call", "client " + std::to_string(c) + ": " + bad[c]);
  srv.stop();
  srv.ef.reset();
  std::map<std::string, int> n;
  std::string all = log.str();
  VP_CHECK(logging || all.empty(), "made-up", "messages appear in a log that was not installed");
  VP_CHECK(all.empty() || all.back() == '\n', "torn", "the last message is not a complete line: " + vp::quote(all.substr(all.size() > 200 ? all.size() - 200 : 0)));
  std::vector<std::string> lines;
  for (size_t a = 0; a < all.size();) { size_t e = all.find('\n', a); lines.push_back(all.substr(a, e - a)); ++n[lines.back()]; a = e + 1; }
  if (logging) {
    for (auto& l : want) VP_CHECK(n[l] == 1, n[l] ? "twice" : "lost", "the message " + vp::quote(l) + " is in the log " + std::to_string(n[l]) + " times");
    for (auto& u : unknown) { size_t k = 0; for (auto& l : lines) k += l.find(u) != std::string::npos; VP_CHECK(k == 1, k ? "twice" : "lost", "the unknown method " + vp::quote(u) + " is in the log " + std::to_string(k) + " times"); }
    // the messages of one call keep their order
    for (auto& cc : calls) for (auto& ls : cc) { size_t last = 0; for (auto l : ls) { for (auto& c : l) if (c == '~') c = '\0'; size_t p = all.find(l + "\n"); if (p == std::string::npos) continue; VP_CHECK(p >= last, "order", "the messages of one call are not in order"); last = p; } }
  }
  s.label(o.pool ? "pool" : "serial"); s.label(o.tls ? "https" : "http");
  if (!unknown.empty()) s.label("unknown method");
  if (logging && want.size() + unknown.size() > 1) s.nontrivial(hash);
}

int main(int argc, char** argv)
{
  vp::Config c;
  c.id = "C35";
  c.props = { { "log", prop, 1 } };
  c.hard_fail = true;
  c.worker_init = net::small_stacks;
  c.nondeterministic = true;
  return vp::main_impl(argc, argv, c);
}
