// Numbers as text, and independence of the process locale.
#include <float.h>
#include <limits.h>
#include <locale.h>
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <locale>
#include "kmlgen.h"
#include "kml/base/attributes.h"
#include "kml/base/string_util.h"
#include "kml/dom.h"
#include "kml/engine/kml_file.h"
using namespace kg;
using pbt::G;

namespace {
bool g_have_locale;
struct Commas : public std::numpunct<char> {
  virtual char do_decimal_point() const { return ','; }
  virtual char do_thousands_sep() const { return '.'; }
  virtual string do_grouping() const { return "\3"; }
  virtual string do_truename() const { return "wahr"; }
  virtual string do_falsename() const { return "falsch"; }
};
// While it lives the process uses a locale with another decimal point.
struct Foreign {
  std::locale old;
  bool c;
  explicit Foreign(int how) : old(), c(false) {
    if (how & 1) old = std::locale::global(std::locale(std::locale::classic(), new Commas));
    if ((how & 2) && g_have_locale) c = setlocale(LC_ALL, "xx_XX.utf8") != NULL;
    active = how & 1;
  }
  bool active;
  ~Foreign() {
    if (active) std::locale::global(std::locale::classic());
    setlocale(LC_ALL, "C");
  }
};
double Finite(G& g) {
  double d;
  switch (g.draw(7)) {
    case 0: { uint64_t b = g.bits64(); memcpy(&d, &b, 8); if (!(d - d == 0)) d = 1.5; return d; }
    case 1: return GenDouble(g);
    case 2: return g.real(-180, 180);
    case 3: { static const double k[] = {0, -0.0, DBL_MAX, -DBL_MAX, DBL_MIN, 4.9e-324, DBL_EPSILON, 1e15, 1e16, 123456789012345678.0, 0.1, 1.0 / 3, 2.2250738585072011e-308, 1e-5, 1e-4, 99999.9999999999, 1e21, 999999999999999.5}; return k[g.draw(18)]; }
    case 4: return (double)g.range(-1000000, 1000000);
    case 5: return (double)g.range(-100000000, 100000000) / 1e6;
    default: return ldexp((double)g.draw(1000), (int)g.range(-100, 100));
  }
}
bool Close15(double a, double b) {
  if (a == b) return true;
  return fabs(a - b) <= 1e-14 * fmax(fabs(a), fabs(b)) || fabs(a - b) <= 5e-324;
}
void Doubles(G& g) {
  double d = Finite(g);
  int how = (int)g.draw(4);
  string s, fs;
  double back = -7, back2 = -7, attr = -7, fback = -7;
  float fv = fabs(d) < 1e38 && fabs(d) > 1e-37 ? (float)d : 1.5f;
  bool ok, isnum;
  {
    Foreign f(how);
    s = kmlbase::ToString(d);
    kmlbase::FromString(s, &back);
    fs = kmlbase::ToString(fv);
    kmlbase::FromString(fs, &fback);
    isnum = kmlbase::IsDecimalDoubleString(s);
    ok = kmlbase::StringToDouble(s, &back2);
    kmlbase::Attributes a;
    a.SetValue("x", d);
    a.GetValue("x", &attr);
  }
  g.note(s);
  char want[64];
  snprintf(want, sizeof want, "%.15g", d);
  CHECK_EQ(s, string(want));
  CHECK_M(Close15(back, d), s << " reads as " << Fmt(back));
  CHECK_M(fabs(fback - fv) <= 1e-6 * fabs(fv), "the float " << fs << " reads as " << Fmt(fback));
  CHECK_M(ok && isnum && Close15(back2, d), s << " reads as " << Fmt(back2));
  CHECK_M(Close15(attr, d), s << " as attribute reads as " << Fmt(attr));
  // Written again it does not drift.
  CHECK_EQ(kmlbase::ToString(back), s == "1.79769313486232e+308" || s == "-1.79769313486232e+308" ? s : string(want));
  g.label(how ? "foreign locale" : "C locale");
  g.nontrivial(s + std::to_string(how));
  g.sample(s);
}
void Integers(G& g) {
  int64_t v = g.draw(3) == 0 ? (int64_t)(int32_t)g.bits64() : g.draw(2) ? g.range(-100, 100000) : g.flip() ? INT_MAX - (int)g.draw(3) : INT_MIN + (int)g.draw(3);
  int how = (int)g.draw(4), back = -7, attr = -7;
  string s;
  bool b = g.flip(), bb = !b, ba = !b;
  string bs;
  {
    Foreign f(how);
    s = kmlbase::ToString((int)v);
    kmlbase::FromString(s, &back);
    kmlbase::Attributes a;
    a.SetValue("x", (int)v);
    a.GetValue("x", &attr);
    bs = kmlbase::ToString(b);
    kmlbase::FromString(bs, &bb);
    a.SetValue("y", b);
    a.GetValue("y", &ba);
  }
  CHECK_EQ(s, std::to_string(v));
  CHECK_EQ((int64_t)back, v);
  CHECK_EQ((int64_t)attr, v);
  CHECK_EQ(bb, b);
  CHECK_EQ(ba, b);
  static const char* ws[] = {"", " ", "\n", "\t ", "\r\n  "};
  string text = string(ws[g.draw(5)]) + std::to_string(v) + ws[g.draw(5)];
  kmlbase::FromString(text, &back);
  CHECK_EQM((int64_t)back, v, "[" << text << "]");
  text = string(ws[g.draw(5)]) + (b ? (g.flip() ? "true" : "1") : (g.flip() ? "false" : "0")) + ws[g.draw(5)];
  bb = !b;
  kmlbase::FromString(text, &bb);
  CHECK_EQM(bb, b, "[" << text << "]");
  g.nontrivial(s + std::to_string(how));
}
// Number text in the spellings of XML Schema.
void Spellings(G& g) {
  string s;
  if (g.draw(3) == 2) s = g.draw(4) ? "-" : "+";
  size_t ip = g.size(18), fp = g.size(18);
  if (!ip && !fp) ip = 1;
  for (size_t i = 0; i < ip; ++i) s += (char)('0' + g.draw(10));
  if (fp || g.flip()) s += ".";
  for (size_t i = 0; i < fp; ++i) s += (char)('0' + g.draw(10));
  if (g.draw(3) == 2) { s += g.flip() ? "e" : "E"; if (g.flip()) s += g.flip() ? "-" : "+"; s += std::to_string(g.draw(200)); }
  double want = strtod(s.c_str(), NULL), d = -7, e = -7;
  int how = (int)g.draw(4);
  static const char* ws[] = {"", " ", "\n", "\t ", "\r\n  "};
  string text = string(ws[g.draw(5)]) + s + ws[g.draw(5)];
  ElementPtr el;
  {
    Foreign f(how);
    kmlbase::FromString(text, &d);
    if (s[0] != '+') CHECK_M(kmlbase::StringToDouble(s, &e), s); else e = want;
    el = kmldom::Parse("<LookAt><longitude>" + text + "</longitude></LookAt>", NULL);
  }
  CHECK_M(d == want, "[" << text << "] reads as " << Fmt(d));
  CHECK_M(e == want, "[" << s << "] reads as " << Fmt(e));
  CHECK_T(el);
  CHECK_M(kmldom::AsLookAt(el)->get_longitude() == want, "[" << text << "] in KML reads as " << Fmt(kmldom::AsLookAt(el)->get_longitude()));
  g.nontrivial(text + std::to_string(how));
}
// What is no number.
void NotNumbers(G& g) {
  static const char* k[] = {"", "-", ".", "-.", "e5", "abc", " 1", "+", "--1", "-a", ".e", "nan", "inf", "x1", "\xc3\xa9", ",5"};
  string s = k[g.enumerate(16)];
  if (g.flip() && !s.empty() && !isdigit((unsigned char)s[s.size() - 1]) && s != "e") s += "zz";
  bool sane = true;
  size_t i = 0;
  if (i < s.size() && s[i] == '-') ++i;
  if (i < s.size() && s[i] == '.') ++i;
  sane = i < s.size() && s[i] >= '0' && s[i] <= '9';
  double d = 3.25;
  CHECK_EQM(kmlbase::IsDecimalDoubleString(s), sane, s);
  CHECK_EQM(kmlbase::StringToDouble(s, &d), sane, s);
  if (!sane) CHECK_T(d == 3.25);
  CHECK_EQ(kmlbase::StringToDouble(s, NULL), sane);
  CHECK_EQ(kmlbase::StringToDouble(s.c_str(), &d), sane);
  g.nontrivial(s);
}
// Whole documents: reading and writing in a foreign locale is the same as in the C locale.
void Documents(G& g) {
  GenOpts o;
  o.budget = 12;
  o.leaf_den = 2;
  o.leaf_num = 1;
  M m = GenTree(g, PickRoot(g), o);
  string xml = Render(g, m, RenderOpts()), err;
  g.note(xml);
  ElementPtr c = kmldom::Parse(xml, &err);
  CHECK_M(c, err);
  string raw = Raw(c), pretty = Pretty(c), file;
  int how = 1 + (int)g.draw(3);
  string fraw, fpretty, ffile, fimp, cimp, ferr;
  kmlengine::KmlFilePtr k = kmlengine::KmlFile::CreateFromParse(xml, &err);
  CHECK_M(k, err);
  CHECK_T(k->SerializeToString(&file));
  {
    Foreign f(how);
    ElementPtr e = kmldom::Parse(xml, &ferr);
    if (e) { fraw = Raw(e); fpretty = Pretty(e); }
    kmlengine::KmlFilePtr k2 = kmlengine::KmlFile::CreateFromParse(xml, &ferr);
    if (k2) k2->SerializeToString(&ffile);
    fimp = Raw(Build(m));
  }
  cimp = Raw(Build(m));
  CHECK_EQM(fraw, raw, "raw");
  CHECK_EQM(fpretty, pretty, "pretty");
  CHECK_EQM(ffile, file, "file");
  CHECK_EQM(fimp, cimp, "built");
  g.label(how == 1 ? "C++ locale" : how == 2 ? "C locale" : "both");
  if (Count(m) > 1) g.nontrivial(xml);
}
}  // namespace
int main(int argc, char** argv) {
  // A locale with a decimal comma, compiled next to the build products.
  const char* out = getenv("PBT_OUT");
  string dir = string(out ? out : "/tmp") + "/build/locale";
  string cmd = "mkdir -p " + dir + "; test -e " + dir + "/xx_XX.utf8/LC_NUMERIC || (localedef -i de_DE -f UTF-8 " + dir + "/tmp$$.utf8 && mv " + dir + "/tmp$$.utf8 " + dir + "/xx_XX.utf8) >/dev/null 2>&1";
  if (system(cmd.c_str())) {}
  setenv("LOCPATH", dir.c_str(), 1);
  if (setlocale(LC_ALL, "xx_XX.utf8")) {
    g_have_locale = !strcmp(localeconv()->decimal_point, ",");
    setlocale(LC_ALL, "C");
  }
  return pbt::Main(argc, argv, "P20",
    "Generated doubles (all magnitudes), integers and booleans written and read, number spellings of XML Schema against strtod, text that is no number, and whole generated documents, each under the C locale and under C and C++ locales with a decimal comma; "
    "non-trivial = every case with a number; distinct by text and locale.",
    {{"doubles", 250000, 3000000, Doubles, 0},
     {"integers", 150000, 1000000, Integers, 0},
     {"spellings", 150000, 2000000, Spellings, 0},
     {"not-numbers", 2000, 50000, NotNumbers, 0},
     {"documents", 40000, 500000, Documents, 0}});
}
