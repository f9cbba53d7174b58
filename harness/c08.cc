// C08: base64
#include "refxml.h"
#include "libiqxmlrpc/request.h"
#include "libiqxmlrpc/response.h"
#include <memory>

using namespace iqxmlrpc;
using vp::Src;

static std::string with_blanks(Src& s, const std::string& e)
{
  std::string o;
  unsigned rate = (unsigned)s.draw(4);
  if (!rate || e.size() > 3000) {
    // blanks at the ends and regular line breaks only
    size_t step = s.draw(100);
    for (size_t i = 0; i < e.size(); ++i) { o += e[i]; if (step && i % step == step - 1) o += s.replaying() ? "\r\n" : "\r\n"; }
    if (s.chance(1, 4)) o = "\n " + o + "\t";
    return o;
  }
  for (char c : e) { while (s.chance(rate, 12)) o += " \t\r\n"[s.draw(4)]; o += c; }
  while (s.chance(1, 3)) o += " \t\r\n"[s.draw(4)];
  return o;
}

static void exact(Src& s)
{
  std::string b = gen::bytes(s, 64, 100000);
  s.note("bytes " + vp::quote(b, 300));
  std::string want = ref::encode64(b);
  std::unique_ptr<Binary_data> d(s.chance(1, 2) ? Binary_data::from_data(b) : Binary_data::from_data(b.data(), b.size()));
  unsigned order = (unsigned)s.draw(4);     // when the lazily encoded text is asked for
  if (order == 1) VP_CHECK(d->get_base64() == want, "encode", "encodes as " + vp::quote(d->get_base64(), 300) + " instead of " + vp::quote(want, 300));
  Value v(*d), w(0);
  w = v;
  Binary_data c = v.get_binary(), c2 = w.get_binary();
  Binary_data asg = *std::unique_ptr<Binary_data>(Binary_data::from_data("other"));
  if (order == 2) asg.get_base64();
  asg = c;
  if (order == 3) asg = c2;
  VP_CHECK(d->get_data() == b && c.get_data() == b && c2.get_data() == b && asg.get_data() == b, "data", "raw data of a copy differs");
  VP_CHECK(d->get_base64() == want, "encode", "encodes as " + vp::quote(d->get_base64(), 300) + " instead of " + vp::quote(want, 300));
  VP_CHECK(c.get_base64() == want && c2.get_base64() == want && asg.get_base64() == want && d->get_base64() == want, "encode-copy", "a copy encodes differently");
  Binary_data conv = (Binary_data)v;
  VP_CHECK(conv.get_data() == b, "convert", "conversion operator differs");
  std::string spaced = with_blanks(s, want);
  std::unique_ptr<Binary_data> r;
  try { r.reset(Binary_data::from_base64(spaced)); }
  catch (const std::exception& e) { vp::fail("rejected", std::string(e.what()) + ": " + vp::quote(spaced, 300)); }
  VP_CHECK(r->get_data() == b, "decode", vp::quote(spaced, 300) + " decodes as " + vp::quote(r->get_data(), 300));
  // through XML
  Value rv(*r);
  Response back = parse_response(dump_response(Response(new Value(rv))));
  VP_CHECK(back.value().get_binary().get_data() == b, "xml", "bytes changed through XML");
  if (!b.empty()) s.nontrivial(b + "|" + spaced);
  s.label("len%3=" + std::to_string(b.size() % 3));
}

static void corrupt(Src& s)
{
  std::string b = gen::bytes(s, 24);
  std::string e = ref::encode64(b), how;
  switch (s.draw(4)) {
  case 0: { // length not a multiple of four
    if (s.chance(1, 2)) { size_t n = 1 + s.draw(3); for (size_t i = 0; i < n; ++i) e.insert(s.draw(e.size() + 1), 1, "ABCxyz019+/"[s.draw(11)]); }
    else { if (e.empty()) e = "AAAA"; size_t n = 1 + s.draw(3); for (size_t i = 0; i < n; ++i) e.erase(s.draw(e.size()), 1); }
    how = "length"; break; }
  case 1: case 2: { // foreign character
    if (e.empty()) e = "AAAA";
    uint64_t c = s.draw(256, [](vp::Rng& r) -> uint64_t { return r.chance(1, 2) ? (uint64_t)(unsigned char)"-_!.,*$#@[`{/:"[r.below(14)] : r.below(256); });
    char ch = (char)c;
    if (isalnum((unsigned char)ch) || ch == '+' || ch == '/' || ch == '=' || (unsigned char)ch == ' ' || (ch >= 9 && ch <= 13)) ch = '!';
    e[s.draw(e.size())] = ch;
    how = "character"; break; }
  default: {
    std::string g = "AAAA"; g[s.draw(2)] = '=';
    if (s.chance(1, 2)) g[2] = g[3] = '=';
    e.insert(4 * s.draw(e.size() / 4 + 1), g);
    how = "pad"; }
  }
  std::string t = with_blanks(s, e);
  s.note(how + " " + vp::quote(t));
  bool refused = false;
  try { std::unique_ptr<Binary_data> r(Binary_data::from_base64(t)); }
  catch (const Binary_data::Malformed_base64&) { refused = true; }
  catch (const std::exception& x) { vp::fail("other-exception", std::string(x.what()) + " for " + vp::quote(t)); }
  VP_CHECK(refused, "accepted", how + ": " + vp::quote(t));
  s.label("corrupt:" + how);
  s.nontrivial(t);
}

int main(int argc, char** argv)
{
  vp::Config c;
  c.id = "C08";
  c.props = { { "exact", exact, 2 }, { "corrupt", corrupt, 1 } };
  c.leak_check = true; c.leak_every = 500;
  return vp::main_impl(argc, argv, c);
}
