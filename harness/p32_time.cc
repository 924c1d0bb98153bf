// Date-times against the calendar.
#include "boost/scoped_ptr.hpp"
#include "kmlgen.h"
#include "kml/base/date_time.h"
#include "kml/base/time_util.h"
#include "kml/convenience/convenience.h"
#include "kml/dom.h"
using namespace kg;
using kmlbase::DateTime;
using pbt::G;

namespace {
// Days since 1970-01-01 in the proleptic Gregorian calendar.
int64_t Days(int64_t y, int m, int d) {
  y -= m <= 2;
  int64_t era = (y >= 0 ? y : y - 399) / 400;
  int64_t yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
  int64_t doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return era * 146097 + doe - 719468;
}
bool Leap(int y) { return y % 4 == 0 && (y % 100 || y % 400 == 0); }
int Len(int y, int m) { static const int n[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return m == 2 && Leap(y) ? 29 : n[m - 1]; }
struct T { int y, mo, d, h, mi, s; };
string Date(const T& t) { char b[64]; snprintf(b, sizeof b, "%04d-%02d-%02d", t.y, t.mo, t.d); return b; }
string Time(const T& t) { char b[64]; snprintf(b, sizeof b, "%02d:%02d:%02d", t.h, t.mi, t.s); return b; }
int64_t Secs(const T& t) { return Days(t.y, t.mo, t.d) * 86400 + t.h * 3600 + t.mi * 60 + t.s; }
void Check(const T& t) {
  string text = Date(t) + "T" + Time(t) + "Z";
  boost::scoped_ptr<DateTime> dt(DateTime::Create(text));
  CHECK_M(dt.get(), text);
  CHECK_EQM((int64_t)dt->GetTimeT(), Secs(t), text);
  CHECK_EQM((int64_t)DateTime::ToTimeT(text), Secs(t), text);
  CHECK_EQM(dt->GetXsdDate(), Date(t), text);
  CHECK_EQM(dt->GetXsdTime(), Time(t), text);
  CHECK_EQM(dt->GetXsdDateTime(), text, text);
}
T Gen(G& g) {
  T t;
  switch (g.draw(4)) {
    case 0: t.y = (int)g.range(1970, 2040); break;
    case 1: t.y = (int)g.range(1000, 9999); break;
    case 2: t.y = 100 * (int)g.range(10, 99) + (int)g.range(-1, 1); if (t.y < 1000) t.y = 1000; break;
    default: t.y = (int)g.range(1960, 1975); break;
  }
  t.mo = g.draw(4) == 3 ? 2 : (int)g.range(1, 12);
  t.d = g.draw(4) == 3 ? Len(t.y, t.mo) : (int)g.range(1, Len(t.y, t.mo));
  t.h = g.draw(4) == 3 ? 23 : (int)g.range(0, 23);
  t.mi = g.draw(4) == 3 ? 59 : (int)g.range(0, 59);
  t.s = g.draw(4) == 3 ? 59 : (int)g.range(0, 59);
  return t;
}
// Every day there is, once around the 400-year cycle and more.
void AllDays(G& g) {
  int64_t n = 365250;
  int64_t k = (int64_t)g.enumerate(n);
  // Day k of year 1600 on.
  int y = 1600, m = 1;
  int64_t left = k;
  while (left >= (Leap(y) ? 366 : 365)) { left -= Leap(y) ? 366 : 365; ++y; }
  while (left >= Len(y, m)) { left -= Len(y, m); ++m; }
  T t = {y, m, (int)left + 1, (int)(k % 24), (int)(k % 60), (int)(k * 7 % 60)};
  Check(t);
  CHECK_EQ(Days(y, m, t.d), Days(1600, 1, 1) + k);
  g.nontrivial(Date(t));
  g.sample(Date(t));
}
void Random(G& g) {
  T t = Gen(g);
  g.note(Date(t) + "T" + Time(t) + "Z");
  Check(t);
  // Order is kept.
  T u = Gen(g);
  string a = Date(t) + "T" + Time(t) + "Z", b = Date(u) + "T" + Time(u) + "Z";
  CHECK_EQM(a < b, DateTime::ToTimeT(a) < DateTime::ToTimeT(b), a << " " << b);
  // Into a placemark.
  boost::scoped_ptr<DateTime> dt(DateTime::Create(a));
  kmldom::PlacemarkPtr p = kmlconvenience::CreatePointPlacemarkWithTimeStamp(kmlconvenience::CreatePointLatLon(1, 2), *dt, "style");
  CHECK_EQ(p->get_styleurl(), string("#style"));
  CHECK_EQ(p->get_name(), Time(t));
  kmldom::TimeStampPtr ts = kmldom::AsTimeStamp(p->get_timeprimitive());
  CHECK_M(ts && ts->get_when() == a, a);
  g.nontrivial(a);
  g.sample(a);
}
// Text of another form.
void Invalid(G& g) {
  T t = Gen(g);
  string d = Date(t), h = Time(t), s;
  switch (g.draw(13)) {
    case 0: s = d; break;
    case 1: s = d + "T" + h; break;
    case 2: s = d + " " + h + "Z"; break;
    case 3: s = d + "T" + h + "+01:00"; break;
    case 4: s = d + "T" + h + "Z" + GenPlain(g, 4); break;
    case 5: s = h + "Z"; break;
    case 6: s = d.substr(0, 7) + "T" + h + "Z"; break;
    case 7: { s = d + "T" + h + "Z"; size_t p = g.draw(19); s[p] = "xyz!"[g.draw(4)]; break; }
    case 8: { s = d + "T" + h + "Z"; s = s.substr(0, g.draw(s.size())); break; }
    case 9: { char b[64]; static const char* f[] = {"%04d-%02d-%02dT24:00:00Z", "%04d-%02d-%02dT00:60:00Z", "%04d-13-%3$02dT00:00:00Z", "%04d-00-%3$02dT00:00:00Z", "%04d-%02d-32T00:00:00Z", "%04d-%02d-00T00:00:00Z", "%04d-%02d-%02dT00:00:99Z"};
      int k = (int)g.draw(7);
      snprintf(b, sizeof b, k == 2 ? "%04d-13-%02dT00:00:00Z" : k == 3 ? "%04d-00-%02dT00:00:00Z" : f[k], t.y, k == 2 || k == 3 ? t.d : t.mo, t.d);
      s = b; break; }
    case 10: s = GenString(g, true); break;
    case 11: {   // a day the month does not have
      static const int mo[] = {2, 2, 2, 4, 6, 9, 11};
      t.mo = mo[g.draw(7)];
      bool leap = t.y % 4 == 0 && (t.y % 100 != 0 || t.y % 400 == 0);
      t.d = t.mo != 2 ? 31 : (int)g.range(leap ? 30 : 29, 31);
      s = Date(t) + "T" + h + "Z";
      break;
    }
    default: s = ""; break;
  }
  g.note(s);
  boost::scoped_ptr<DateTime> dt(DateTime::Create(s));
  CHECK_M(!dt.get(), "accepted [" << s << "]");
  CHECK_EQM((int64_t)DateTime::ToTimeT(s), (int64_t)0, s);
  g.nontrivial(s);
  g.sample(s);
}
// Any bytes are looked at safely.
void Fuzz(G& g) {
  string s;
  if (g.flip()) s = "2008-10-03T09:25:42Z";
  size_t n = g.size(20);
  for (size_t i = 0; i < n; ++i) { char c = g.draw(3) == 2 ? (char)g.draw(256) : "0123456789-:TZ "[g.draw(15)]; if (s.empty() || g.flip()) s += c; else s[g.draw(s.size())] = c; }
  g.note(pbt::Show(s));
  boost::scoped_ptr<DateTime> dt(DateTime::Create(s));
  if (dt.get()) {
    dt->GetTimeT();
    // What is printed is read back as the same time, where the year has four digits.
    string p = dt->GetXsdDateTime();
    if (p.size() == 20) { boost::scoped_ptr<DateTime> again(DateTime::Create(p)); CHECK_M(again.get() && again->GetTimeT() == dt->GetTimeT(), pbt::Show(s) << " " << p); g.label("accepted"); }
  }
  double a = kmlbase::GetMicroTime(), b = kmlbase::GetMicroTime();
  CHECK_M(a > 1e9 && b >= a - 1, "time runs");
  if (s.size() > 2) g.nontrivial(s);
}
}  // namespace

int main(int argc, char** argv) {
  std::vector<pbt::Facet> f = {
    {"days", 365250, 365250, AllDays, 0},
    {"random", 60000, 5000000, Random, 0},
    {"invalid", 60000, 5000000, Invalid, 0},
    {"fuzz", 60000, 5000000, Fuzz, 0},
  };
  return pbt::Main(argc, argv, "P32", "days: every calendar day of the years 1600 to 2600 enumerated once; others: distinct texts", f);
}
