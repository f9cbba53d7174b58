// C36: text that XML cannot carry is never silently changed
#include "net.h"

using namespace iqxmlrpc;
using vp::Src;

// strings with parts that XML does not allow
static std::string odd(Src& s)
{
  gen::TextOpts to; to.max_cp = 12;
  std::string o = gen::text(s, to);
  size_t n = 1 + s.draw(3);
  for (size_t i = 0; i < n; ++i) {
    std::string x;
    switch (s.draw(7)) {
    case 0: x = std::string(1 + s.draw(2), '\0'); break;
    case 1: x = std::string(1, (char)(1 + s.draw(31))); break;
    case 2: x = gen::bytes(s, 4, 10); break;
    case 3: x = "\xEF\xBF\xBE"; if (s.chance(1, 2)) x = "\xEF\xBF\xBF"; break;              // U+FFFE, U+FFFF
    case 4: x = "\xED\xA0\x80"; if (s.chance(1, 2)) x = "\xED\xBF\xBF"; break;              // surrogates
    case 5: { static const char* t[] = { "\xC0\x80", "\xE0\x80\x80", "\xF4\x90\x80\x80", "\xF8\x88\x80\x80\x80", "\xC3", "\xE2\x82", "\x80", "\xFF", "\xFE" }; x = t[s.draw(9)]; break; }
    default: x = "\x7F"; break;
    }
    o.insert(s.draw(o.size() + 1), x);
  }
  return o;
}

struct Out { int how; std::string text; };      // 0 refused when written, 1 refused when read, 2 read

static const char* where_[] = { "string in a request", "method name", "member name in a request", "string in a response", "member name in a response", "fault text", "string inside containers", "string in a response without the string tag" };

static Out pass(int where, const std::string& t)
{
  Out o; o.how = 0;
  std::string xml;
  try {
    switch (where) {
    case 0: xml = dump_request(Request("m", Param_list(1, Value(t)))); break;
    case 1: xml = dump_request(Request(t, Param_list())); break;
    case 2: { Struct st; st.insert(t, Value(1)); xml = dump_request(Request("m", Param_list(1, Value(st)))); break; }
    case 3: xml = dump_response(Response(new Value(t))); break;
    case 4: { Struct st; st.insert(t, Value(1)); xml = dump_response(Response(new Value(st))); break; }
    case 5: xml = dump_response(Response(5, t)); break;
    case 6: { Struct st; st.insert("k", Value(t)); Array a; a.push_back(Value(st)); a.push_back(Value(2)); xml = dump_request(Request("m", Param_list(1, Value(a)))); break; }
    default: {
      struct R { R() { Value::omit_string_tag_in_responses(true); } ~R() { Value::omit_string_tag_in_responses(false); } } r;
      xml = dump_response(Response(new Value(t))); break; }
    }
  } catch (const std::exception&) { return o; }
  o.how = 1;
  try {
    switch (where) {
    case 0: case 1: case 2: case 6: {
      std::unique_ptr<Request> r(parse_request(xml));
      if (where == 1) o.text = r->get_name();
      else if (where == 0) o.text = r->get_params().at(0).get_string();
      else if (where == 2) { const Struct& st = r->get_params().at(0).the_struct(); o.text = st.size() == 1 ? st.begin()->first : "(another number of members)"; }
      else o.text = r->get_params().at(0)[0]["k"].get_string();
      break; }
    default: {
      Response r = parse_response(xml);
      if (where == 5) o.text = r.fault_string();
      else if (where == 4) { const Struct& st = r.value().the_struct(); o.text = st.size() == 1 ? st.begin()->first : "(another number of members)"; }
      else o.text = r.value().get_string(); }
    }
  } catch (const std::exception&) { return o; }
  o.how = 2;
  return o;
}

static void codec(Src& s)
{
  std::string t = odd(s);
  int w = (int)s.draw(8);
  if (w == 1 || w == 7) { size_t a = t.find_first_not_of(" \t\r\n"); if (a == std::string::npos) t += "x"; }
  if (s.describing()) s.note(std::string(where_[w]) + " " + vp::quote(t, 300));
  Out o = pass(w, t);
  VP_CHECK(o.how != 2 || o.text == t, "changed", std::string(where_[w]) + " " + vp::quote(t, 300) + " arrives as " + vp::quote(o.text, 300));
  s.label(where_[w]);
  s.label(o.how == 0 ? "refused when written" : o.how == 1 ? "refused when read" : "carried");
  s.nontrivial(vp::hash64(t, w));
}

// through a server: the caller learns of it, and everybody else is served
static void live(Src& s)
{
  net::Options o;
  o.pool = s.chance(1, 2) ? 1 + (unsigned)s.draw(3) : 0;
  o.tls = s.chance(1, 10);
  net::Srv srv(o);
  net::Log log;
  std::vector<std::string> texts;
  srv.s->register_method("give", new net::Fn_factory([&texts](Method*, const Param_list& p, Value& r) { r = texts[p[0].get_int()]; }));
  srv.s->register_method("member", new net::Fn_factory([&texts](Method*, const Param_list& p, Value& r) { Struct st; st.insert(texts[p[0].get_int()], Value(1)); r = st; }));
  srv.s->register_method("fault", new net::Fn_factory([&texts](Method*, const Param_list& p, Value&) { throw Fault(77, texts[p[0].get_int()]); }));
  srv.s->register_method("take", new net::Fn_factory([&log](Method*, const Param_list& p, Value& r) { log.add(p[0].get_string()); r = p[0].get_string(); }));
  size_t n = 1 + s.draw(6);
  std::vector<int> kinds;
  for (size_t i = 0; i < n; ++i) { texts.push_back(s.draw(4) == 3 ? "fine" + std::to_string(i) : odd(s)); kinds.push_back((int)s.draw(4)); }
  bool keep = s.chance(1, 2);
  srv.start_and_wait();
  std::unique_ptr<Client_base> cl = net::client(s, o.tls, srv.addr());
  cl->set_timeout((int)net::LONG);
  cl->set_keep_alive(keep);
  uint64_t hash = o.pool;
  static const char* ms[] = { "give", "member", "fault", "take" };
  for (size_t i = 0; i < n; ++i) {
    const std::string& t = texts[i];
    if (s.describing()) s.note(std::string(ms[kinds[i]]) + " " + vp::quote(t, 200));
    std::string got; int how = 0;                // 0 exception, 1 another fault, 2 arrived
    bool timeout = false;
    try {
      Param_list pl; if (kinds[i] == 3) pl.push_back(Value(t)); else pl.push_back(Value((int)i));
      Response r = cl->execute(ms[kinds[i]], pl);
      if (r.is_fault()) { how = r.fault_code() == 77 ? 2 : 1; got = r.fault_string(); }
      else { how = 2; got = kinds[i] == 1 ? r.value().the_struct().begin()->first : r.value().get_string(); }
    }
    catch (const Client_timeout&) { timeout = true; }
    catch (const std::exception&) {}
    srv.check_alive();
    std::string what = std::string(ms[kinds[i]]) + " of " + vp::quote(t, 200) + (o.pool ? " with a pool: " : ": ");
    VP_CHECK(!timeout, "no-answer", what + "never answered");
    // the fault text reaches the server's side as a C string
    std::string w = kinds[i] == 2 ? std::string(t.c_str()) : t;
    VP_CHECK(how != 2 || got == w, "changed", what + "arrives as " + vp::quote(got, 200));
    if (t.compare(0, 4, "fine") == 0) VP_CHECK(how == 2, "disturbed", what + "an ordinary text is not delivered after odd ones");
    for (auto& x : log.take()) VP_CHECK(x == t, "changed", what + "the method was given " + vp::quote(x, 200));
    s.label(std::string(ms[kinds[i]]) + (how == 2 ? " delivered" : how == 1 ? " answered by a fault" : " raised"));
    hash = vp::mix(hash, vp::hash64(t, kinds[i]));
  }
  cl.reset();
  srv.stop();
  s.nontrivial(hash);
}

int main(int argc, char** argv)
{
  vp::Config c;
  c.id = "C36";
  c.props = { { "codec", codec, 20 }, { "live", live, 3 } };
  c.hard_fail = true;
  c.worker_init = net::small_stacks;
  c.nondeterministic = true;
  return vp::main_impl(argc, argv, c);
}
