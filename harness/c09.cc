// C09: date-time
#include "refxml.h"
#include "libiqxmlrpc/request.h"
#include "libiqxmlrpc/response.h"
#include <memory>
#include <time.h>

using namespace iqxmlrpc;
using vp::Src;

static struct tm make_tm(Src& s, const gen::DT& t)
{
  struct tm m;
  memset(&m, 0, sizeof m);
  m.tm_year = t.y - 1900; m.tm_mon = t.mo - 1; m.tm_mday = t.d; m.tm_hour = t.h; m.tm_min = t.mi; m.tm_sec = t.s;
  if (s.chance(1, 2)) { struct tm n = m; timegm(&n); m.tm_wday = n.tm_wday; m.tm_yday = n.tm_yday; }
  m.tm_isdst = (int)s.draw(3) - 1;
  return m;
}

static void same(const struct tm& m, const gen::DT& t, const char* how)
{
  VP_CHECK(m.tm_year + 1900 == t.y && m.tm_mon + 1 == t.mo && m.tm_mday == t.d && m.tm_hour == t.h && m.tm_min == t.mi && m.tm_sec == t.s, "fields",
    std::string(how) + " of " + gen::show(t) + " gives " + std::to_string(m.tm_year + 1900) + "-" + std::to_string(m.tm_mon + 1) + "-" + std::to_string(m.tm_mday) + " " + std::to_string(m.tm_hour) + ":" + std::to_string(m.tm_min) + ":" + std::to_string(m.tm_sec));
}

static void stamps(Src& s)
{
  gen::zone(s);
  gen::DT t = gen::date(s), u = gen::date(s);
  struct tm m = make_tm(s, t);
  std::string want = gen::show(t);
  s.note(want + " then " + gen::show(u));
  Date_time d(&m);
  bool warm = s.chance(1, 2);
  if (warm) VP_CHECK(d.to_string() == want, "print", want + " prints as " + vp::quote(d.to_string()));
  same(d.get_tm(), t, "construction");
  Value v(d), w(&m);
  VP_CHECK(d.to_string() == want, "print", want + " prints as " + vp::quote(d.to_string()));
  VP_CHECK(v.get_datetime().to_string() == want && w.get_datetime().to_string() == want, "print-copy", "a copy of " + want + " prints as " + v.get_datetime().to_string());
  std::unique_ptr<Date_time> p;
  try { p.reset(new Date_time(want)); } catch (const std::exception& e) { vp::fail("rejected", want + ": " + e.what()); }
  same(p->get_tm(), t, "parse");
  VP_CHECK(p->to_string() == want, "reprint", want + " reprints as " + p->to_string());
  struct tm conv = (struct tm)v;
  same(conv, t, "conversion");
  // assignment must not keep text of the previous value
  struct tm n = make_tm(s, u);
  Date_time e(&n);
  if (warm) e.to_string();
  e = d;
  VP_CHECK(e.to_string() == want, "assign", gen::show(u) + " assigned from " + want + " prints " + e.to_string());
  Value x(e); x = Value(Date_time(&n));
  VP_CHECK(x.get_datetime().to_string() == gen::show(u), "assign", "value assigned " + gen::show(u) + " prints " + x.get_datetime().to_string());
  Response back = parse_response(dump_response(Response(new Value(v))));
  same(back.value().get_datetime().get_tm(), t, "XML round trip");
  s.nontrivial(want);
}

static int num(const std::string& t, int at, int n) { int v = 0; for (int i = 0; i < n; ++i) v = v * 10 + (t[(size_t)(at + i)] - '0'); return v; }

static void texts(Src& s)
{
  gen::zone(s);
  std::string t = gen::show(gen::date(s));
  size_t n = s.draw(4);
  for (size_t i = 0; i < n; ++i) {
    switch (s.draw(6)) {
    case 0: if (!t.empty()) { static const char b[] = "0123456789T:-/ .Z+t\n\0"; t[s.draw(t.size())] = b[s.draw(21)]; } break;
    case 1: t.insert(s.draw(t.size() + 1), 1, "0123456789T: Z"[s.draw(14)]); break;
    case 2: if (!t.empty()) t.erase(s.draw(t.size()), 1); break;
    case 3: if (t.size() == 17) { static const int at[] = { 4, 6, 9, 12, 15 }; int a = at[s.draw(5)]; std::string d = std::to_string(100 + s.draw(100)); t.replace((size_t)a, 2, d.substr(1)); } break;
    case 4: if (t.size() == 17) { std::string d = std::to_string(10000 + s.draw(10000, [](vp::Rng& r) -> uint64_t { return r.chance(1, 2) ? 1895 + r.below(10) : r.below(10000); })); t.replace(0, 4, d.substr(1)); } break;
    default: if (!t.empty()) t[s.draw(t.size())] = (char)s.draw(256); break;
    }
  }
  if (s.chance(1, 20)) t = gen::text(s);
  s.note(vp::quote(t));
  bool shape = ref::date_shape(t), must_accept = false, may_accept = false;
  if (shape) {
    int y = num(t, 0, 4), mo = num(t, 4, 2), d = num(t, 6, 2), h = num(t, 9, 2), mi = num(t, 12, 2), sc = num(t, 15, 2);
    may_accept = y >= 1900 && mo >= 1 && mo <= 12 && d >= 1 && d <= 31 && h <= 23 && mi <= 59 && sc <= 61;
    must_accept = may_accept && d <= gen::mdays(y, mo) && sc <= 60;   // no claim on day 31 of shorter months or second 61
  }
  try {
    Date_time d(t);
    VP_CHECK(may_accept, "accepted", vp::quote(t) + " was accepted as " + d.to_string());
    VP_CHECK(d.to_string() == t, "reprint", vp::quote(t) + " prints back as " + vp::quote(d.to_string()));
    s.label("accepted");
  }
  catch (const Date_time::Malformed_iso8601&) { VP_CHECK(!must_accept, "refused", vp::quote(t) + " was refused"); s.label("refused"); }
  catch (const std::exception& e) { vp::fail("other-exception", std::string(e.what()) + " for " + vp::quote(t)); }
  if (n) s.nontrivial(t);
}

// the current time, in the zone of the process or in UTC
static void now(Src& s)
{
  std::string z = gen::zone(s);
  bool local = s.chance(1, 2);
  s.note(z + (local ? " local" : " UTC"));
  time_t from = time(0);
  Date_time d(local);
  time_t to = time(0);
  bool copy = s.chance(1, 2);
  std::string got = copy ? Value(d).get_datetime().to_string() : d.to_string();
  struct tm g = d.get_tm();
  char fields[64];
  snprintf(fields, sizeof fields, "%04d%02d%02dT%02d:%02d:%02d", g.tm_year + 1900, g.tm_mon + 1, g.tm_mday, g.tm_hour, g.tm_min, g.tm_sec);
  VP_CHECK(got == fields, "fields", std::string("the current time prints as ") + got + " and has the fields " + fields);
  bool ok = false;
  for (time_t t = from - 2; t <= to + 2 && !ok; ++t) {   // time() may be up to a tick behind the clock the library reads
    struct tm m;
    if (local) localtime_r(&t, &m); else gmtime_r(&t, &m);
    char b[64];
    snprintf(b, sizeof b, "%04d%02d%02dT%02d:%02d:%02d", m.tm_year + 1900, m.tm_mon + 1, m.tm_mday, m.tm_hour, m.tm_min, m.tm_sec);
    ok = got == b;
  }
  VP_CHECK(ok, "now", std::string(local ? "local" : "universal") + " time in the zone " + z + " is given as " + got);
  s.label(local ? "local time" : "universal time");
  s.nontrivial(z + (local ? "l" : "u") + (copy ? "c" : "d"));
}

int main(int argc, char** argv)
{
  vp::Config c;
  c.id = "C09";
  c.props = { { "stamps", stamps, 10 }, { "texts", texts, 20 }, { "now", now, 1 } };
  return vp::main_impl(argc, argv, c);
}
