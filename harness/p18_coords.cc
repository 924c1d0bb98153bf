// Coordinate text: the generated tuples are the oracle.
#include <math.h>
#include <stdlib.h>
#include <string.h>
#include "kmlgen.h"
#include "kml/dom.h"
using namespace kg;
using pbt::G;
using kmlbase::Vec3;

namespace {
struct T { double v[3]; bool alt; };
string Number(G& g, double* value) {
  string s;
  switch (g.draw(8)) {
    case 0: s = std::to_string(g.draw(181)); break;
    case 1: { char b[40]; snprintf(b, sizeof b, "%.*f", (int)g.draw(16), g.real(-180, 180)); s = b; break; }
    case 2: { char b[40]; snprintf(b, sizeof b, "%.17g", g.real(-180, 180)); s = b; break; }
    case 3: { char b[40]; snprintf(b, sizeof b, "%.*e", (int)g.draw(16), g.real(-1e5, 1e5)); s = b; if (g.flip()) for (auto& c : s) if (c == 'e') c = 'E'; break; }
    case 4: s = "." + std::to_string(g.draw(1000)); break;
    case 5: s = std::to_string(g.draw(200)) + "."; break;
    case 6: s = string(g.draw(4), '0') + std::to_string(g.draw(1000)) + "." + std::to_string(g.draw(100000)) + string(g.draw(12), '0'); break;
    default: { static const char* k[] = {"0", "180", "90", "-180", "-90", "0.0", "-0", "1e2", "1e-7", "1.5E+3", "9007199254740993", "1e15", "0.1", "-.5"}; s = k[g.draw(14)]; }
  }
  if (s[0] != '-' && g.draw(3) == 2) s = (g.draw(4) ? "-" : "+") + s;
  *value = strtod(s.c_str(), NULL);
  return s;
}
string Space(G& g, bool some) {
  static const char* k[] = {" ", "\n", "\t", "\r\n", "  ", " \n\t ", "\n\n", "          ", "\r", "\n    "};
  if (!some && g.draw(3)) return "";
  string s = k[g.draw(5) < 3 ? 0 : g.draw(10)];
  if (g.draw(6) == 5) s += k[g.draw(10)];
  return s;
}
std::vector<T> Tuples(G& g, string* text, size_t max) {
  std::vector<T> out;
  size_t n = g.draw(10) == 9 ? g.draw(max + 1) : g.size(8);
  bool tidy = g.flip();
  string s = Space(g, false);
  for (size_t i = 0; i < n; ++i) {
    T t = {{0, 0, 0}, false};
    if (i) s += tidy ? " " : Space(g, true);
    t.alt = g.draw(3) > 0;
    for (int j = 0; j < (t.alt ? 3 : 2); ++j) {
      if (j) s += tidy ? "," : Space(g, false) + "," + Space(g, false);
      s += Number(g, &t.v[j]);
    }
    out.push_back(t);
  }
  *text = s + Space(g, false);
  return out;
}
void Same(const T& t, const Vec3& v, const string& what) {
  CHECK_M(v.get_longitude() == t.v[0] && v.get_latitude() == t.v[1] && v.get_altitude() == t.v[2] && v.has_altitude() == t.alt,
          what << ": (" << Fmt(v.get_longitude()) << " " << Fmt(v.get_latitude()) << " " << Fmt(v.get_altitude()) << (v.has_altitude() ? "" : " no altitude") << ") for ("
          << Fmt(t.v[0]) << " " << Fmt(t.v[1]) << " " << Fmt(t.v[2]) << (t.alt ? "" : " no altitude") << ")");
}
void All(const std::vector<T>& want, const kmldom::CoordinatesPtr& c, const string& what) {
  CHECK_EQM(c->get_coordinates_array_size(), want.size(), what);
  for (size_t i = 0; i < want.size(); ++i) Same(want[i], c->get_coordinates_array_at(i), what + " tuple " + std::to_string(i));
}
void Lists(G& g) {
  string text;
  std::vector<T> want = Tuples(g, &text, 2000);
  g.note(pbt::Show(text));
  kmldom::CoordinatesPtr c = kmldom::KmlFactory::GetFactory()->CreateCoordinates();
  c->Parse(text);
  All(want, c, "Parse");
  // Inside a document.
  static const char* kIn[] = {"Point", "LineString", "LinearRing"};
  const char* tag = kIn[g.draw(3)];
  string xml = string("<") + tag + "><coordinates>" + (g.draw(4) ? text : "<![CDATA[" + text + "]]>") + "</coordinates></" + tag + ">", err;
  if (text.find('\r') != string::npos) { /* a reader turns these into line ends */ }
  ElementPtr e = kmldom::Parse(xml, &err);
  CHECK_M(e, err);
  kmldom::CoordinatesPtr in = kmldom::AsPoint(e) ? kmldom::AsPoint(e)->get_coordinates() : kmldom::AsLineString(e) ? kmldom::AsLineString(e)->get_coordinates() : kmldom::AsLinearRing(e)->get_coordinates();
  CHECK_T(in);
  All(want, in, xml);
  // One at a time.
  char* next = const_cast<char*>(text.c_str());
  for (size_t i = 0; i < want.size(); ++i) {
    Vec3 v;
    CHECK_M(kmldom::Coordinates::ParseVec3(next, &next, &v), "tuple " << i);
    Same(want[i], v, "ParseVec3 tuple " + std::to_string(i));
  }
  Vec3 v;
  CHECK_M(!kmldom::Coordinates::ParseVec3(next, &next, &v), "something after the last tuple: " << next);
  if (want.size()) g.nontrivial(text);
  g.sample(text);
}
// Text without any number holds no tuple.
void Words(G& g) {
  static const char* k[] = {" ", "\n", "lon", ",", "lat,lon", "-", ".", "e", "--", "N/A", ",,", "\t", "nan", "inf", "+", "-.", "\xc3\xa9"};
  string s;
  size_t n = g.size(12);
  for (size_t i = 0; i < n; ++i) s += k[g.draw(17)];
  g.note(s);
  kmldom::CoordinatesPtr c = kmldom::KmlFactory::GetFactory()->CreateCoordinates();
  c->Parse(s);
  CHECK_EQM(c->get_coordinates_array_size(), (size_t)0, "[" << s << "]");
  if (n) g.nontrivial(s);
}
// Tracks: blank-separated, one tuple per element.
void Tracks(G& g) {
  string xml = "<gx:Track>";
  std::vector<T> coords, angles;
  size_t n = 1 + g.size(6);
  for (size_t i = 0; i < n; ++i) {
    T t = {{0, 0, 0}, g.draw(4) > 0};
    bool tidy = g.flip(), angle = g.flip();
    string s = tidy ? "" : Space(g, false);
    for (int j = 0; j < (t.alt ? 3 : 2); ++j) { if (j) s += tidy ? " " : Space(g, true); s += Number(g, &t.v[j]); }
    if (!tidy) s += Space(g, false);
    const char* tag = angle ? "gx:angles" : "gx:coord";
    xml += string("<") + tag + ">" + s + "</" + tag + ">";
    (angle ? angles : coords).push_back(t);
  }
  xml += "</gx:Track>";
  g.note(xml);
  string err;
  kmldom::GxTrackPtr t = kmldom::AsGxTrack(kmldom::Parse(xml, &err));
  CHECK_M(t, err);
  CHECK_EQ(t->get_gx_coord_array_size(), coords.size());
  CHECK_EQ(t->get_gx_angles_array_size(), angles.size());
  for (size_t i = 0; i < coords.size(); ++i) Same(coords[i], t->get_gx_coord_array_at(i), "gx:coord " + std::to_string(i));
  for (size_t i = 0; i < angles.size(); ++i) {
    Vec3 v = t->get_gx_angles_array_at(i);
    Same(angles[i], v, "gx:angles " + std::to_string(i));
    CHECK_T(v.get_heading() == angles[i].v[0] && v.get_pitch() == angles[i].v[1] && v.get_roll() == angles[i].v[2]);
  }
  g.nontrivial(xml);
  g.sample(xml);
}
// Written and read again the tuples are the same to 15 digits, in the same order, altitude included or not.
void Written(G& g) {
  kmldom::CoordinatesPtr c = kmldom::KmlFactory::GetFactory()->CreateCoordinates();
  std::vector<T> want;
  size_t n = g.draw(10) == 9 ? g.draw(500) : g.size(8);
  for (size_t i = 0; i < n; ++i) {
    T t = {{g.real(-180, 180), g.real(-90, 90), 0}, g.flip()};
    if (t.alt) t.v[2] = g.draw(3) ? g.real(-1e4, 1e7) : 0;
    if (!t.alt && g.flip()) c->add_latlng(t.v[1], t.v[0]);
    else if (t.alt && g.flip()) c->add_latlngalt(t.v[1], t.v[0], t.v[2]);
    else c->add_vec3(t.alt ? Vec3(t.v[0], t.v[1], t.v[2]) : Vec3(t.v[0], t.v[1]));
    want.push_back(t);
  }
  All(want, c, "added");
  kmldom::LineStringPtr l = kmldom::KmlFactory::GetFactory()->CreateLineString();
  l->set_coordinates(c);
  string err, xml = g.flip() ? Raw(l) : Pretty(l);
  g.note(xml);
  kmldom::LineStringPtr r = kmldom::AsLineString(kmldom::Parse(xml, &err));
  CHECK_M(r, err);
  kmldom::CoordinatesPtr d = r->get_coordinates();
  CHECK_M(d, xml);
  CHECK_EQ(d->get_coordinates_array_size(), want.size());
  for (size_t i = 0; i < n; ++i) {
    Vec3 v = d->get_coordinates_array_at(i);
    T t = want[i];
    for (auto& x : t.v) x = strtod(Fmt(x).c_str(), NULL);
    CHECK_M(v.get_longitude() == t.v[0] && v.get_latitude() == t.v[1] && v.get_altitude() == t.v[2], "tuple " << i << " of " << xml);
  }
  if (n) g.nontrivial(xml);
}
}  // namespace
int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "P18",
    "Generated lists of tuples in varied spellings (numbers, signs, exponents, white space between tuples and around commas, missing altitudes), parsed directly, inside documents, tuple by tuple, as track coordinates and angles, and written and read again; text without numbers; "
    "the generated values are the oracle; non-trivial = at least one tuple (or word); distinct by text.",
    {{"lists", 30000, 2000000, Lists, 0},
     {"words", 20000, 400000, Words, 0},
     {"tracks", 30000, 1000000, Tracks, 0},
     {"written", 30000, 1000000, Written, 0}});
}
