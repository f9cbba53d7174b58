// C31: visiting and printing a value reaches every part once, in order
#include "model.h"
#include "libiqxmlrpc/value.h"
#include "libiqxmlrpc/value_type_visitor.h"
#include <sstream>
#include <iomanip>

using namespace iqxmlrpc;
using vp::Src;

// the walk, as a list of events
static void walk(const M& v, std::vector<std::string>& o)
{
  char b[64];
  switch (v.t) {
  case M::I4: o.push_back("int " + std::to_string(v.i)); break;
  case M::I8: o.push_back("int64 " + std::to_string(v.i)); break;
  case M::BOOL: o.push_back(v.i ? "bool 1" : "bool 0"); break;
  case M::DBL: snprintf(b, sizeof b, "double %a", v.d); o.push_back(b); break;
  case M::STR: o.push_back("string " + v.s); break;
  case M::B64: o.push_back("base64 " + v.s); break;
  case M::DATE: o.push_back("date " + v.s); break;
  case M::NIL: o.push_back("nil"); break;
  case M::ARR: o.push_back("array " + std::to_string(v.a.size())); for (auto& x : v.a) walk(x, o); o.push_back("end"); break;
  case M::STRUCT: o.push_back("struct " + std::to_string(v.m.size())); for (auto& x : v.m) { o.push_back("member " + x.first); walk(x.second, o); } o.push_back("end"); break;
  }
}

class Walker: public Value_type_visitor {
public:
  std::vector<std::string> o;
private:
  void do_visit_value(const Value_type& v) { v.apply_visitor(*this); }
  void do_visit_nil() { o.push_back("nil"); }
  void do_visit_int(int i) { o.push_back("int " + std::to_string(i)); }
  void do_visit_int64(int64_t i) { o.push_back("int64 " + std::to_string(i)); }
  void do_visit_double(double d) { char b[64]; snprintf(b, sizeof b, "double %a", d); o.push_back(b); }
  void do_visit_bool(bool b) { o.push_back(b ? "bool 1" : "bool 0"); }
  void do_visit_string(const std::string& s) { o.push_back("string " + s); }
  void do_visit_base64(const Binary_data& b) { o.push_back("base64 " + b.get_data()); }
  void do_visit_datetime(const Date_time& d) { o.push_back("date " + d.to_string()); }
  void do_visit_array(const Array& a)
  {
    o.push_back("array " + std::to_string(a.size()));
    for (Array::const_iterator i = a.begin(); i != a.end(); ++i) i->apply_visitor(*this);
    o.push_back("end");
  }
  void do_visit_struct(const Struct& s)
  {
    o.push_back("struct " + std::to_string(s.size()));
    for (Struct::const_iterator i = s.begin(); i != s.end(); ++i) { o.push_back("member " + i->first); i->second->apply_visitor(*this); }
    o.push_back("end");
  }
};

static void print(const M& v, std::ostream& o)
{
  switch (v.t) {
  case M::I4: o << (int)v.i; break;
  case M::I8: o << v.i; break;
  case M::BOOL: o << (v.i != 0); break;
  case M::DBL: o << v.d; break;
  case M::STR: o << "'" << v.s << "'"; break;
  case M::B64: o << "RAWDATA"; break;
  case M::DATE: o << "'" << v.s << "'"; break;
  case M::NIL: o << "NIL"; break;
  case M::ARR: o << "["; for (auto& x : v.a) { o << " "; print(x, o); o << ","; } o << " ]"; break;
  case M::STRUCT: o << "{"; for (auto& x : v.m) { o << " '" << x.first << "' => "; print(x.second, o); o << ","; } o << " }"; break;
  }
}

static void format(Src& s, std::ostream& a, std::ostream& b, std::string& d)
{
  if (s.chance(1, 2)) return;
  int p = (int)s.draw(20);
  a << std::setprecision(p); b << std::setprecision(p); d += " precision " + std::to_string(p);
  switch (s.draw(6)) {
  case 1: a << std::fixed; b << std::fixed; d += " fixed"; break;
  case 2: a << std::scientific; b << std::scientific; d += " scientific"; break;
  case 3: a << std::boolalpha; b << std::boolalpha; d += " boolalpha"; break;
  case 4: a << std::hex; b << std::hex; d += " hex"; break;
  case 5: a << std::showpos; b << std::showpos; d += " showpos"; break;
  }
}

static const char* names[] = { "i4", "string", "boolean", "double", "i8", "nil", "base64", "dateTime.iso8601", "array", "struct" };

static void check(Src& s, const M& v)
{
  std::string d;
  std::ostringstream got, want;
  got << "pre"; want << "pre";
  format(s, got, want, d);
  if (s.describing()) s.note(show(v) + d);
  labels(s, v);
  Value val = to_value(v);
  VP_CHECK(val.type_name() == names[v.t], "type-name", "type_name() of " + show(v) + " is " + vp::quote(val.type_name()));

  std::vector<std::string> ew;
  walk(v, ew);
  Walker w;
  val.apply_visitor(w);
  for (size_t i = 0; i < std::max(ew.size(), w.o.size()); ++i)
    VP_CHECK(i < ew.size() && i < w.o.size() && ew[i] == w.o[i], "visit", "step " + std::to_string(i) + " of the walk is " + (i < w.o.size() ? vp::quote(w.o[i]) : "missing") + ", expected " + (i < ew.size() ? vp::quote(ew[i]) : "none") + " for " + show(v));

  std::ios::fmtflags f = got.flags(); std::streamsize p = got.precision();
  print_value(val, got);
  print(v, want);
  VP_CHECK(got.str() == want.str(), "print", "printed " + vp::quote(got.str(), 600) + " expected " + vp::quote(want.str(), 600));
  VP_CHECK(got.flags() == f && got.precision() == p, "stream", "printing changed the format of the stream");
  std::string again = diff(v, val);
  VP_CHECK(again.empty(), "changed", "printing changed the value: " + again);
  if (nodes(v) > 1) s.nontrivial(got.str());
}

// texts XML could not carry: printing does not care
static void odd(Src& s, M& v)
{
  auto text = [&](std::string& t) { if (s.chance(1, 4)) t.insert(s.draw(t.size() + 1), gen::bytes(s, 4, 20)); };
  if (v.t == M::STR) text(v.s);
  for (auto& x : v.a) odd(s, x);
  std::map<std::string, M> m;
  for (auto& x : v.m) { std::string k = x.first; text(k); odd(s, x.second); m.insert(std::make_pair(k, x.second)); }
  if (!v.m.empty()) { v.m.clear(); for (auto& x : m) v.m.insert(x); }
}

static void trees(Src& s)
{
  MOpts o;
  o.depth = (unsigned)s.draw(7, [](vp::Rng& r) { return r.below(5); });
  o.width = 6;
  M v = gen_value(s, o);
  if (s.chance(1, 4)) { odd(s, v); s.label("odd texts"); }
  check(s, v);
}
static void deep(Src& s) { check(s, gen_chain(s, 200)); }
static void wide(Src& s) { check(s, gen_wide(s, 2000)); }

int main(int argc, char** argv)
{
  vp::Config c;
  c.id = "C31";
  c.props = { { "trees", trees, 30 }, { "deep", deep, 2 }, { "wide", wide, 1 } };
  return vp::main_impl(argc, argv, c);
}
