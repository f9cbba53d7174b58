// C05: a document damaged in one of the stated ways is refused
#include "damage.h"
#include "libiqxmlrpc/request.h"
#include "libiqxmlrpc/response.h"
#include <memory>
#include <set>

using namespace iqxmlrpc;
using vp::Src;

void damage::must_refuse(Src& s, const std::string& xml, bool as_call, const std::string& how)
{
  s.note(how + ": " + vp::quote(xml, 1500));
  s.label("damage:" + how.substr(0, how.find(' ')));
  try {
    if (as_call) { std::unique_ptr<Request> r(parse_request(xml)); }
    else { Response r(parse_response(xml)); }
  }
  catch (const std::exception&) { s.nontrivial(vp::mix(vp::hash64(xml), as_call)); return; }
  vp::fail("accepted", how + ": " + vp::quote(xml, 1500));
}

// what a message says, as text; "" if it is refused
static std::string said(const std::string& xml, bool call)
{
  try {
    if (call) { std::unique_ptr<Request> r(parse_request(xml)); return dump_request(*r); }
    return dump_response(parse_response(xml));
  }
  catch (const std::exception&) { return ""; }
}

// text beside the element of a typed value is refused or ignored
static void stray(Src& s)
{
  damage::Doc d = damage::doc(s, true);
  ref::Node root = ref::Xml(d.xml).document();
  std::vector<ref::Node*> all, c;
  damage::collect(root, all);
  for (auto* p : all) {
    size_t els = 0;
    if (p->name == "value") for (auto& k : p->kids) els += damage::is_type(k.name);
    if (els) c.push_back(p);
  }
  if (c.empty()) throw vp::Discard();
  ref::Node* p = c[s.draw(c.size())];
  static const char* t[] = { "x", "1", "0", " y ", "\n\t.\n", "20010203T04:05:06", "AAAA", "\xc3\xa9", "<", "]]>", "-1.5" };
  ref::Node k;
  k.text = t[s.draw(sizeof t / sizeof *t)];
  std::string before, after, in;
  damage::put(root, before);
  for (auto& q : p->kids) in += q.name;
  bool front = s.chance(1, 2);
  p->kids.insert(front ? p->kids.begin() : p->kids.end(), k);
  damage::put(root, after);
  s.note((d.call ? "call " : "response ") + vp::quote(after, 1500));
  std::string was = said(before, d.call), is = said(after, d.call);
  if (was.empty()) throw vp::Discard();
  s.label(std::string("stray text ") + (is.empty() ? "refused" : "ignored"));
  s.label("stray text " + std::string(front ? "before <" : "after <") + in + ">");
  s.nontrivial(vp::hash64(after));
  if (!is.empty() && is != was)
    vp::fail("stray-text", std::string("text ") + (front ? "before" : "after") + " <" + in + "> changed the message: " + vp::quote(after, 1500) + " is read as " + vp::quote(is, 1500));
}

int main(int argc, char** argv)
{
  vp::Config c;
  c.id = "C05";
  c.props = { { "cut", damage::cut, 10 }, { "structure", damage::structure, 12 }, { "scalars", damage::scalars, 10 }, { "faults", damage::faults, 4 }, { "malformed", damage::malformed, 10 }, { "stray", stray, 4 } };
  c.leak_check = true;
  c.leak_every = 300;
  return vp::main_impl(argc, argv, c);
}
