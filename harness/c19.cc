// C19: the thread pool runs each request once and never mixes or loses any
#include "net.h"

using namespace iqxmlrpc;
using vp::Src;

struct Track {
  std::mutex mx;
  std::condition_variable cv;
  std::map<std::string, int> runs;
  int now = 0, most = 0;
  int meeting = 0, met = 0; bool missed = false;      // rendezvous
  void enter(const std::string& id) { std::lock_guard<std::mutex> l(mx); ++runs[id]; most = std::max(most, ++now); }
  void leave() { std::lock_guard<std::mutex> l(mx); --now; }
};

static void prop(Src& s)
{
  net::Options o;
  o.tls = s.chance(1, 8);
  bool large = s.chance(1, 12);
  o.pool = 1 + (unsigned)(large ? 6 + s.draw(34) : s.draw(6));
  unsigned threads = o.pool;
  Track t;
  net::Srv srv(o);
  auto* pf = static_cast<Pool_executor_factory*>(srv.ef.get());
  if (s.chance(1, 4)) { unsigned k = 1 + (unsigned)s.draw(3); pf->add_threads(k); threads += k; }
  std::string work = s.chance(1, 6) ? "work" + std::string(1 + s.draw(400), 'w') : "work";
  srv.s->register_method(work, new net::Fn_factory([&t](Method*, const Param_list& p, Value& r) {
    std::string id = p[0].get_string();
    t.enter(id);
    size_t c = id.find('/');
    long us = atol(id.c_str() + c + 1);
    if (us > 0) usleep((useconds_t)us);
    r = "R" + id;
    t.leave();
    if (us < 0) throw Fault(-(int)us, "F" + id);
  }));
  srv.s->register_method("meet", new net::Fn_factory([&t](Method*, const Param_list& p, Value& r) {
    std::string id = p[0].get_string();
    t.enter(id);
    {
      std::unique_lock<std::mutex> l(t.mx);
      ++t.met;
      t.cv.notify_all();
      if (!t.cv.wait_for(l, std::chrono::seconds(20), [&t] { return t.met >= t.meeting; })) t.missed = true;
    }
    r = "R" + id;
    t.leave();
  }));
  srv.start();
  s.note(std::string(o.tls ? "https" : "http") + " threads " + std::to_string(threads));
  size_t nc = 1 + s.draw(12), steps = 2 + s.draw(40);
  std::vector<std::unique_ptr<net::Conn>> cs(nc);
  std::vector<std::string> busy(nc);             // id of the outstanding request
  std::vector<bool> keep(nc);
  std::map<std::string, bool> sent;              // id -> answered (otherwise dropped)
  uint64_t hash = threads; size_t concurrent = 0, meets = 0, dropped = 0;
  int seq = 0;
  auto collect = [&](size_t k) {
    net::Resp a;
    net::Conn::RR rr = cs[k]->read(a);
    srv.check_alive();
    VP_CHECK(rr == net::Conn::OK && a.code == 200, "no-answer", "request " + busy[k] + " gets no answer: " + (rr == net::Conn::OK ? std::to_string(a.code) : net::Conn::name(rr)));
    net::Answer w = net::answer(a.body);
    size_t c = busy[k].find('/');
    long us = c == std::string::npos ? 0 : atol(busy[k].c_str() + c + 1);
    VP_CHECK(us < 0 ? (w.fault && w.code == -us && w.text == "F" + busy[k]) : (!w.fault && w.text == "R" + busy[k]), "mixed", "request " + busy[k] + " got the answer " + vp::quote(w.text, 100));
    sent[busy[k]] = true;
    busy[k].clear();
    if (!keep[k]) { VP_CHECK(cs[k]->wait_end() != -1 && cs[k]->buf.empty(), "close", "connection stays open or sends more"); cs[k].reset(); }
    else VP_CHECK(cs[k]->buf.empty(), "surplus", "surplus after the answer to a request: " + vp::quote(cs[k]->buf));
  };
  auto issue = [&](size_t k, const std::string& m, const std::string& id) {
    if (!cs[k]) { cs[k].reset(new net::Conn); cs[k]->tls = o.tls; VP_CHECK(cs[k]->connect(srv.host, srv.port), "not-listening", "cannot connect"); }
    keep[k] = s.draw(4) != 3;
    busy[k] = id; sent[id] = false;
    std::string text = net::request(s, net::call_xml(m, id), keep[k]);
    if (s.chance(1, 4)) cs[k]->send(hg::cut(s, text), 0); else cs[k]->send(text);
  };
  for (size_t i = 0; i < steps; ++i) {
    size_t k = s.draw(nc);
    switch (s.weighted({ 12, 8, 1, 1, 1 })) {
    case 0: {
      if (!busy[k].empty()) break;
      long us = s.weighted({ 4, 4, 1, 1 });
      us = us == 0 ? 0 : us == 1 ? (long)s.draw(1500) : us == 2 ? (long)s.draw(8000) : -1 - (long)s.draw(100);
      std::string id = "q" + std::to_string(seq++) + "/" + std::to_string(us);
      issue(k, work, id);
      hash = vp::mix(hash, vp::mix(k, (uint64_t)us));
      size_t b = 0; for (auto& x : busy) b += !x.empty();
      if (b > 1) ++concurrent;
      s.note("send " + id + " on " + std::to_string(k));
      break; }
    case 1: if (!busy[k].empty()) { s.note("read " + std::to_string(k)); collect(k); hash = vp::mix(hash, 1000 + k); } break;
    case 2: if (!busy[k].empty() && s.chance(1, 2)) { s.note("drop " + std::to_string(k)); if (s.chance(1, 2)) cs[k]->reset(); cs[k].reset(); busy[k].clear(); hash = vp::mix(hash, 2000 + k); ++dropped; } break;
    case 3: if (s.chance(1, 3) && threads < 45) { pf->add_threads(1); ++threads; s.note("one more thread"); } break;
    default: {
      // as many calls at the same time as there are threads
      for (size_t j = 0; j < nc; ++j) if (!busy[j].empty()) collect(j);
      if (dropped) break;                         // dropped requests may still occupy threads
      std::vector<std::unique_ptr<net::Conn>> ms;
      std::vector<std::string> ids;
      { std::lock_guard<std::mutex> l(t.mx); t.meeting = (int)threads; t.met = 0; }
      s.note("meeting of " + std::to_string(threads));
      for (unsigned j = 0; j < threads; ++j) {
        ms.emplace_back(new net::Conn);
        ms.back()->tls = o.tls;
        VP_CHECK(ms.back()->connect(srv.host, srv.port), "not-listening", "cannot connect");
        ids.push_back("meet" + std::to_string(seq++));
        sent[ids.back()] = true;
        ms.back()->send(net::request(net::call_xml("meet", ids.back()), false));
      }
      for (unsigned j = 0; j < threads; ++j) {
        net::Resp a;
        net::Conn::RR rr = ms[j]->read(a, net::LONG + 20);
        srv.check_alive();
        VP_CHECK(rr == net::Conn::OK && a.code == 200, "no-answer", std::string("a concurrent request gets no answer: ") + net::Conn::name(rr));
        VP_CHECK(net::answer(a.body).text == "R" + ids[j], "mixed", "request " + ids[j] + " got the answer " + vp::quote(a.body, 200));
      }
      { std::lock_guard<std::mutex> l(t.mx); VP_CHECK(!t.missed, "concurrency", "a pool of " + std::to_string(threads) + " threads does not run that many requests at the same time"); }
      ++meets; hash = vp::mix(hash, 3000);
      break; }
    }
  }
  for (size_t k = 0; k < nc; ++k) if (!busy[k].empty()) collect(k);
  for (auto& c : cs) c.reset();
  {
    std::lock_guard<std::mutex> l(t.mx);
    for (auto& x : sent) {
      int n = t.runs.count(x.first) ? t.runs[x.first] : 0;
      VP_CHECK(x.second ? n == 1 : n <= 1, "executions", "request " + x.first + " was executed " + std::to_string(n) + " times");
    }
    for (auto& r : t.runs) VP_CHECK(sent.count(r.first), "executions", "unknown request " + r.first + " was executed");
    VP_CHECK(t.most <= (int)threads, "too-many", std::to_string(t.most) + " requests ran at the same time with " + std::to_string(threads) + " threads");
    if (t.most > 1) s.label("ran concurrently");
  }
  if (meets) s.label("meeting"); if (dropped) s.label("dropped"); s.label(o.tls ? "https" : "http"); if (concurrent) s.label("several outstanding");
  if (concurrent || meets) s.nontrivial(hash);
  srv.stop();
}

int main(int argc, char** argv)
{
  vp::Config c;
  c.id = "C19";
  c.props = { { "pool", prop, 1 } };
  c.hard_fail = true;
  c.worker_init = net::small_stacks;
  c.nondeterministic = true;
  return vp::main_impl(argc, argv, c);
}
