// C10: histories of operations on values against plain nested lists and maps
#include "model.h"
#include <memory>
#include <sstream>

using namespace iqxmlrpc;
using vp::Src;

namespace {

struct Slot { std::unique_ptr<Value> v; M m; };
struct Ref { Value* v; M* m; size_t slot; std::string path; };

std::string key(Src& s) { static const char* k[] = { "a", "b", "", "key", "A", " ", "faultCode" }; return k[s.draw(7)]; }

struct World {
  Src& s;
  std::vector<Slot> slots;
  size_t nodes_total;

  explicit World(Src& src): s(src), slots(3), nodes_total(0) { for (auto& x : slots) x.v.reset(new Value(0)); }

  // a random position inside a slot, biased to containers of the wanted type
  Ref pick(int want = -1)
  {
    Ref r; r.slot = s.draw(slots.size());
    r.v = slots[r.slot].v.get(); r.m = &slots[r.slot].m; r.path = "s" + std::to_string(r.slot);
    for (int d = 0; d < 6; ++d) {
      size_t n = r.m->t == M::ARR ? r.m->a.size() : r.m->t == M::STRUCT ? r.m->m.size() : 0;
      if (!n) break;
      if (want >= 0 && r.m->t == want && !s.chance(1, 2)) break;
      if (want < 0 && !s.chance(1, 2)) break;
      size_t i = s.draw(n);
      if (r.m->t == M::ARR) { r.v = &(*r.v)[(int)i]; r.m = &r.m->a[i]; r.path += "[" + std::to_string(i) + "]"; }
      else {
        auto it = r.m->m.begin(); std::advance(it, (long)i);
        unsigned how = (unsigned)s.draw(4);
        if (how == 0) r.v = &(*r.v)[it->first];
        else if (how == 1 && it->first.find('\0') == std::string::npos) r.v = &(*r.v)[it->first.c_str()];
        else if (how == 2) r.v = &r.v->the_struct()[it->first];
        else { auto f = r.v->the_struct().find(it->first); VP_CHECK(f != r.v->the_struct().end(), "find", "member " + it->first + " not found"); r.v = f->second; }
        r.path += "." + it->first; r.m = &it->second;
      }
    }
    return r;
  }
  M fresh() { MOpts o; o.depth = (unsigned)s.draw(3); o.width = 3; return gen_value(s, o); }
  void verify(const std::string& op)
  {
    for (size_t i = 0; i < slots.size(); ++i) {
      std::string d = diff(slots[i].m, *slots[i].v, "s" + std::to_string(i));
      VP_CHECK(d.empty(), "state", "after " + op + ": " + d);
    }
  }
};

template <class E, class F> void must_throw(F f, const std::string& what)
{
  try { f(); } catch (const E&) { return; } catch (const std::exception& e) { vp::fail("exception", what + " raised the wrong exception: " + e.what()); }
  vp::fail("exception", what + " did not raise");
}

void questions(World& w)
{
  Ref r = w.pick();
  const Value& v = *r.v; Value& mv = *r.v; const M& m = *r.m;
  std::string at = r.path;
  static const char* nm[] = { "i4", "string", "boolean", "double", "i8", "nil", "base64", "dateTime.iso8601", "array", "struct" };
  VP_CHECK(v.type_name() == nm[m.t], "type-name", at + " type_name " + v.type_name());
  typedef Value::Bad_cast B;
  if (m.t != M::I4) { must_throw<B>([&] { v.get_int(); }, at + ".get_int()"); must_throw<B>([&] { (void)(int)v; }, at + " as int"); }
  else VP_CHECK((int)v == m.i, "convert", at);
  if (m.t != M::I8) { must_throw<B>([&] { v.get_int64(); }, at + ".get_int64()"); must_throw<B>([&] { (void)(int64_t)v; }, at + " as int64"); }
  else VP_CHECK((int64_t)v == m.i, "convert", at);
  if (m.t != M::BOOL) { must_throw<B>([&] { v.get_bool(); }, at + ".get_bool()"); must_throw<B>([&] { (void)(bool)v; }, at + " as bool"); }
  else VP_CHECK((bool)v == (m.i != 0), "convert", at);
  if (m.t != M::DBL) { must_throw<B>([&] { v.get_double(); }, at + ".get_double()"); must_throw<B>([&] { (void)(double)v; }, at + " as double"); }
  if (m.t != M::STR) { must_throw<B>([&] { v.get_string(); }, at + ".get_string()"); must_throw<B>([&] { std::string x = v.operator std::string(); }, at + " as string"); }
  else VP_CHECK(v.operator std::string() == m.s, "convert", at);
  if (m.t != M::B64) { must_throw<B>([&] { v.get_binary(); }, at + ".get_binary()"); must_throw<B>([&] { Binary_data x = v.operator Binary_data(); }, at + " as binary"); }
  if (m.t != M::DATE) { must_throw<B>([&] { v.get_datetime(); }, at + ".get_datetime()"); must_throw<B>([&] { struct tm x = v.operator struct tm(); (void)x; }, at + " as tm"); }
  std::string k = key(w.s);
  int idx = (int)(uint32_t)w.s.draw(uint64_t(1) << 32, [&](vp::Rng& g) -> uint64_t { return g.chance(1, 2) ? (uint64_t)m.a.size() + g.below(3) : g.chance(1, 2) ? 0xffffffffu - g.below(3) : g.below(1u << 31); });
  if (m.t != M::ARR) {
    must_throw<B>([&] { v.the_array(); }, at + ".the_array()"); must_throw<B>([&] { mv.the_array(); }, at + ".the_array()");
    must_throw<B>([&] { v.size(); }, at + ".size()"); must_throw<B>([&] { v[idx]; }, at + "[int]"); must_throw<B>([&] { mv[0]; }, at + "[0]");
    must_throw<B>([&] { mv.push_back(Value(1)); }, at + ".push_back()"); must_throw<B>([&] { v.arr_begin(); }, at + ".arr_begin()"); must_throw<B>([&] { v.arr_end(); }, at + ".arr_end()");
  } else {
    if (idx < 0 || (size_t)idx >= m.a.size()) {
      typedef Array::Out_of_range O;
      must_throw<O>([&] { v[idx]; }, at + "[" + std::to_string(idx) + "]"); must_throw<O>([&] { mv[idx]; }, at + "[" + std::to_string(idx) + "]");
      must_throw<O>([&] { v.the_array()[(unsigned)idx]; }, at + ".the_array()[]"); must_throw<O>([&] { mv.the_array()[(unsigned)idx]; }, at + ".the_array()[]");
    }
    VP_CHECK(v.the_array().size() == m.a.size(), "size", at);
    // iteration, both ways
    size_t i = 0;
    for (Array::const_iterator it = v.arr_begin(); it != v.arr_end(); i % 2 ? (void)it++ : (void)++it, ++i) {
      VP_CHECK(i < m.a.size(), "iterate", at + " iterates too far");
      std::string d = diff(m.a[i], *it, at + "[it]"); VP_CHECK(d.empty(), "iterate", d);
      VP_CHECK(it->type_name() == nm[m.a[i].t], "iterate", at + " ->");
    }
    VP_CHECK(i == m.a.size(), "iterate", at + " iterates too few");
    Array::const_iterator it = v.the_array().end();
    for (size_t j = m.a.size(); j > 0; --j) { j % 2 ? (void)it-- : (void)--it; std::string d = diff(m.a[j - 1], *it, at + "[rit]"); VP_CHECK(d.empty(), "iterate", d); }
    VP_CHECK(it == v.the_array().begin(), "iterate", at + " backwards");
  }
  if (m.t != M::STRUCT) {
    must_throw<B>([&] { v.the_struct(); }, at + ".the_struct()"); must_throw<B>([&] { mv.the_struct(); }, at + ".the_struct()");
    must_throw<B>([&] { v.has_field(k); }, at + ".has_field()"); must_throw<B>([&] { v[k]; }, at + "[string]"); must_throw<B>([&] { mv[k]; }, at + "[string]");
    must_throw<B>([&] { v["x"]; }, at + "[\"x\"]"); must_throw<B>([&] { mv["x"]; }, at + "[\"x\"]"); must_throw<B>([&] { mv.insert(k, Value(1)); }, at + ".insert()");
  } else {
    bool has = m.m.count(k) != 0;
    VP_CHECK(v.has_field(k) == has && v.the_struct().has_field(k) == has, "has_field", at + " has_field(" + vp::quote(k) + ")");
    VP_CHECK((v.the_struct().find(k) != v.the_struct().end()) == has, "find", at + " find(" + vp::quote(k) + ")");
    if (!has) {
      typedef Struct::No_field N;
      must_throw<N>([&] { v[k]; }, at + "[" + k + "]"); must_throw<N>([&] { mv[k]; }, at + "[" + k + "]");
      must_throw<N>([&] { v[k.c_str()]; }, at + "[" + k + "]"); must_throw<N>([&] { mv[k.c_str()]; }, at + "[" + k + "]");
      must_throw<N>([&] { v.the_struct()[k]; }, at + ".the_struct()[" + k + "]"); must_throw<N>([&] { mv.the_struct()[k]; }, at + ".the_struct()[" + k + "]");
    } else {
      std::string d = diff(m.m.at(k), v.the_struct()[k], at + ".the_struct()[]"); if (d.empty()) d = diff(m.m.at(k), mv.the_struct()[k], at + ".the_struct()[]");
      VP_CHECK(d.empty(), "member", d);
    }
    std::map<std::string, const Value*> seen;
    for (auto& x : v.the_struct()) VP_CHECK(seen.insert({ x.first, x.second }).second, "iterate", "member twice");
    VP_CHECK(seen.size() == m.m.size(), "iterate", at + " member count");
  }
}

void history(Src& s)
{
  World w(s);
  std::string log;
  size_t steps = 0, mutations = 0;
  uint64_t h = 0;
  for (; steps < 60 && s.more(5); ++steps) {
    std::string op;
    size_t total = 0;
    for (auto& x : w.slots) total += nodes(x.m);
    bool grow = total < 300;
    unsigned k = (unsigned)s.weighted({ 10, 8, 8, 8, 4, 3, 4, 4, 5, 10, 3, 3, 3 });
    switch (k) {
    case 0: { Ref r = w.pick(); M m = grow ? w.fresh() : M::num(3); op = r.path + " = " + show(m, 100); *r.v = to_value(m); *r.m = m; break; }
    case 1: { // assign from any part, including its own parts and ancestors
      Ref a = w.pick(), b = w.pick();
      if (!grow && nodes(*b.m) > 3) continue;
      op = a.path + " = " + b.path;
      M c = *b.m; *a.v = *b.v; *a.m = c; break; }
    case 2: { Ref a = w.pick(M::ARR);
      if (a.m->t != M::ARR || !grow) continue;
      if (s.chance(1, 2)) { Ref b = w.pick(); if (nodes(*b.m) > 60) continue; op = a.path + ".push_back(" + b.path + ")"; M c = *b.m; if (s.chance(1, 2)) a.v->push_back(*b.v); else { Value_ptr p(new Value(*b.v)); a.v->the_array().push_back(p); } a.m->a.push_back(c); }
      else { M c = w.fresh(); op = a.path + ".push_back(" + show(c, 60) + ")"; a.v->the_array().push_back(to_value(c)); a.m->a.push_back(c); }
      break; }
    case 3: { Ref a = w.pick(M::STRUCT);
      if (a.m->t != M::STRUCT || !grow) continue;
      std::string f = key(s);
      if (s.chance(1, 2)) { Ref b = w.pick(); if (nodes(*b.m) > 60) continue; op = a.path + ".insert(" + vp::quote(f) + "," + b.path + ")"; M c = *b.m; if (s.chance(1, 2)) a.v->insert(f, *b.v); else { Value_ptr p(new Value(*b.v)); a.v->the_struct().insert(f, p); } a.m->m[f] = c; }
      else { M c = w.fresh(); op = a.path + ".insert(" + vp::quote(f) + "," + show(c, 60) + ")"; a.v->the_struct().insert(f, to_value(c)); a.m->m[f] = c; }
      break; }
    case 4: { Ref a = w.pick(M::STRUCT);
      if (a.m->t != M::STRUCT) continue;
      std::string f = key(s);
      if (s.chance(1, 3) && !a.m->m.empty()) { op = a.path + ".erase(first)"; f = a.m->m.begin()->first; a.v->the_struct().erase(a.v->the_struct().begin()->first); }
      else { op = a.path + ".erase(" + vp::quote(f) + ")"; a.v->the_struct().erase(f); }
      a.m->m.erase(f); break; }
    case 5: { Ref a = w.pick(s.chance(1, 2) ? M::ARR : M::STRUCT);
      if (a.m->t == M::ARR) { a.v->the_array().clear(); a.m->a.clear(); }
      else if (a.m->t == M::STRUCT) { a.v->the_struct().clear(); a.m->m.clear(); }
      else continue;
      op = a.path + ".clear()"; break; }
    case 6: { // swap two containers of different slots
      int t = s.chance(1, 2) ? M::ARR : M::STRUCT;
      Ref a = w.pick(t), b = w.pick(t);
      if (a.m->t != t || b.m->t != t || (a.slot == b.slot && a.m != b.m)) continue;
      op = "swap(" + a.path + "," + b.path + ")";
      if (t == M::ARR) { a.v->the_array().swap(b.v->the_array()); a.m->a.swap(b.m->a); }
      else { a.v->the_struct().swap(b.v->the_struct()); a.m->m.swap(b.m->m); }
      break; }
    case 7: { // container assignment, also to itself and from its own parts
      int t = s.chance(1, 2) ? M::ARR : M::STRUCT;
      Ref a = w.pick(t), b = w.pick(t);
      if (a.m->t != t || b.m->t != t || (!grow && nodes(*b.m) > 3)) continue;
      op = a.path + ".container = " + b.path;
      M c = *b.m;
      if (t == M::ARR) a.v->the_array() = b.v->the_array(); else a.v->the_struct() = b.v->the_struct();
      *a.m = c; break; }
    case 8: { // copy construction and lifetime
      Ref b = w.pick();
      op = "copy of " + b.path;
      std::unique_ptr<Value> c(new Value(*b.v));
      M cm = *b.m;
      if (s.chance(1, 2)) { std::unique_ptr<Value> c2(new Value(0)); *c2 = *c; c.swap(c2); }
      std::string d = diff(cm, *c, "copy"); VP_CHECK(d.empty(), "copy", d);
      if (s.chance(1, 2)) { size_t t = s.draw(w.slots.size()); if (&*w.slots[t].v != b.v || true) { op += " moved to s" + std::to_string(t); w.slots[t].v.swap(c); w.slots[t].m = cm; } }
      break; }
    case 9: op = "questions"; questions(w); break;
    case 10: { // assign from an interval of another array or of plain data
      Ref a = w.pick(M::ARR);
      if (a.m->t != M::ARR || !grow) continue;
      if (s.chance(1, 2)) { std::vector<int> v; for (size_t n = s.draw(5); n; --n) v.push_back(gen::int32(s)); op = a.path + ".assign(ints)"; a.v->the_array().assign(v.begin(), v.end()); a.m->a.clear(); for (int x : v) a.m->a.push_back(M::num(x)); }
      else { Ref b = w.pick(M::ARR); if (b.m->t != M::ARR || a.slot == b.slot || nodes(*b.m) > 60) continue; op = a.path + ".assign(" + b.path + ")"; a.v->the_array().assign(b.v->arr_begin(), b.v->arr_end()); std::vector<M> c = b.m->a; a.m->a = c; }
      break; }
    case 11: { Ref a = w.pick(); op = a.path + " = " + a.path; *a.v = *a.v; break; }
    default: { // printing and dumping do not change anything
      Ref a = w.pick(); op = "print " + a.path; std::ostringstream o; print_value(*a.v, o); break; }
    }
    if (op.empty()) continue;
    if (k != 9) { ++mutations; h = vp::mix(h, vp::hash64(op)); }
    log += op + "; ";
    if (s.describing()) s.note(op + "; ");
    w.verify(op);
  }
  if (mutations >= 2) s.nontrivial(h);
}

} // namespace

int main(int argc, char** argv)
{
  vp::Config c;
  c.id = "C10";
  c.props = { { "history", history, 1 } };
  c.leak_check = true; c.leak_every = 100;
  return vp::main_impl(argc, argv, c);
}
