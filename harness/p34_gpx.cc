// GPX documents against the list of track points they were made from.
#include "kmlgen.h"
#include "mutate.h"
#include "kml/base/expat_parser.h"
#include "kml/convenience/gpx_trk_pt_handler.h"
using namespace kg;
using pbt::G;

namespace {
struct P { double lat, lon; bool has_alt; double alt; string when; };
struct Handler : public kmlconvenience::GpxTrkPtHandler {
  std::vector<P> got;
  void HandlePoint(const kmlbase::Vec3& w, const string& when) {
    P p = {w.get_latitude(), w.get_longitude(), w.has_altitude(), w.get_altitude(), when};
    got.push_back(p);
  }
};
string Num(G& g, double lo, double hi, double* v) {
  char b[64];
  switch (g.draw(5)) {
    case 0: snprintf(b, sizeof b, "%d", (int)g.range((int64_t)lo, (int64_t)hi)); break;
    case 1: snprintf(b, sizeof b, "%.1f", g.real(lo, hi)); break;
    case 2: snprintf(b, sizeof b, "%.9f", g.real(lo, hi)); break;
    case 3: snprintf(b, sizeof b, "%.15g", g.real(lo, hi)); break;
    default: snprintf(b, sizeof b, "%.3f", g.real(-1, 1)); break;
  }
  *v = strtod(b, NULL);
  if (g.draw(12) == 0) return string(g.flip() ? " " : "\n ") + b + (g.flip() ? " " : "");
  if (b[0] != '-' && g.draw(12) == 0) return string("+") + b;
  return b;
}
string Esc(const string& s) {
  string r;
  for (char c : s) r += c == '&' ? "&amp;" : c == '<' ? "&lt;" : c == '>' ? "&gt;" : string(1, c);
  return r;
}
// Text written in one of several ways.
string Write(G& g, const string& s) {
  switch (g.draw(5)) {
    case 0: return s.find("]]>") == string::npos ? "<![CDATA[" + s + "]]>" : Esc(s);
    case 1: { size_t k = g.draw(s.size() + 1); return Esc(s.substr(0, k)) + "<!-- c -->" + Esc(s.substr(k)); }
    case 2: { string r; for (char c : s) if (isalnum((unsigned char)c) && g.draw(3) == 0) { char b[16]; snprintf(b, sizeof b, "&#%d;", c); r += b; } else r += Esc(string(1, c)); return r; }
    default: return Esc(s);
  }
}
string When(G& g) {
  char b[64];
  snprintf(b, sizeof b, "%04d-%02d-%02dT%02d:%02d:%02dZ", (int)g.range(1970, 2030), 1 + (int)g.draw(12), 1 + (int)g.draw(28), (int)g.draw(24), (int)g.draw(60), (int)g.draw(60));
  if (g.draw(10) == 0) return "not <a> time & more";
  return b;
}
string Ws(G& g) { static const char* w[] = {"", "", "\n", "  ", "\n\t "}; return g.pick(w); }
string Other(G& g) {
  double v;
  static const char* el[] = {"sat", "hdop", "fix", "cmt", "desc", "name", "course", "speed", "gpxtpx:hr", "x:time", "x:ele", "timex", "Time", "elevation"};
  string n = g.pick(el);
  if (g.draw(5) == 0) return "<extensions><x:trkpt/><" + n + ">7</" + n + "></extensions>";
  return "<" + n + ">" + Num(g, -9, 9, &v) + "</" + n + ">";
}
// Positions which are not track points but have the same content.
string Noise(G& g) {
  double v;
  static const char* el[] = {"wpt", "rtept", "metadata", "link", "bounds"};
  string n = g.pick(el), r = "<" + n;
  if (g.flip()) r += " lat=\"" + Num(g, -90, 90, &v) + "\"";
  if (g.flip()) r += " lon=\"" + Num(g, -180, 180, &v) + "\"";
  r += ">" + Ws(g);
  if (g.flip()) r += "<time>" + Esc(When(g)) + "</time>";
  if (g.flip()) r += "<ele>" + Num(g, -100, 9000, &v) + "</ele>";
  if (g.flip()) r += "<name>n</name>";
  return r + "</" + n + ">" + Ws(g);
}
string Point(G& g, std::vector<P>* want) {
  P p = {0, 0, false, 0, ""};
  string lat = Num(g, -90, 90, &p.lat), lon = Num(g, -180, 180, &p.lon);
  string q = g.draw(3) ? "\"" : "'";
  bool ok = true;
  std::vector<string> at;
  unsigned bad = g.draw(10) == 0 ? 1 + g.draw(6) : 0;
  if (bad != 1) at.push_back("lat=" + q + (bad == 3 ? "" : bad == 4 ? "north" : lat) + q);
  if (bad != 2) at.push_back("lon=" + q + (bad == 5 ? "" : bad == 6 ? "-" : lon) + q);
  ok = bad == 0;
  if (g.flip()) std::reverse(at.begin(), at.end());
  if (g.draw(6) == 0) at.insert(at.begin() + g.draw(at.size() + 1), "x:id='5'");
  string r = "<trkpt";
  for (auto& a : at) r += " " + a;
  bool ele = g.draw(3) != 0, time = g.draw(3) != 0;
  if (!ele && !time && g.flip()) { r += "/>"; if (ok) want->push_back(p); return r + Ws(g); }
  r += ">" + Ws(g);
  std::vector<string> parts;
  if (ele) {
    string s = Num(g, -500, 9000, &p.alt);
    if (g.draw(12) == 0) { parts.push_back(g.flip() ? "<ele></ele>" : "<ele/>"); p.alt = 0; }   // no elevation to report
    else { p.has_alt = true; parts.push_back("<ele>" + Write(g, s) + "</ele>"); }
  }
  if (time) { p.when = When(g); if (g.draw(12) == 0) { p.when = ""; parts.push_back("<time/>"); } else parts.push_back("<time>" + Write(g, p.when) + "</time>"); }
  if (g.flip()) std::reverse(parts.begin(), parts.end());
  for (size_t i = g.draw(3); i--;) parts.insert(parts.begin() + g.draw(parts.size() + 1), Other(g));
  for (auto& s : parts) r += s + Ws(g);
  if (ok) want->push_back(p);
  return r + "</trkpt>" + Ws(g);
}
string Show(const std::vector<P>& v) {
  string r;
  for (auto& p : v) { char b[200]; snprintf(b, sizeof b, "%.17g,%.17g", p.lat, p.lon); r += string("(") + b; if (p.has_alt) { snprintf(b, sizeof b, ",%.17g", p.alt); r += b; } r += " " + p.when + ")"; }
  return r;
}
string Doc(G& g, std::vector<P>* want) {
  string r = g.flip() ? "<?xml version=\"1.0\"?>\n" : "";
  r += "<gpx xmlns=\"http://www.topografix.com/GPX/1/0\" xmlns:x=\"u:x\" xmlns:gpxtpx=\"u:g\">" + Ws(g);
  for (size_t i = 0, n = 1 + g.draw(3); i < n; ++i) {
    while (g.draw(3) == 0) r += Noise(g);
    r += "<trk>" + Ws(g);
    if (g.flip()) r += "<name>t</name>";
    for (size_t j = 0, m = g.draw(3); j < m; ++j) {
      r += "<trkseg>" + Ws(g);
      for (size_t k = 0, l = g.many(6, 150); k < l; ++k) {
        r += Point(g, want);
        if (g.draw(5) == 0) r += Noise(g);
      }
      r += "</trkseg>" + Ws(g);
    }
    r += "</trk>" + Ws(g);
  }
  return r + "</gpx>";
}
bool Chunked(G& g, const string& doc, Handler* h) {
  kmlbase::ExpatParser parser(h, false);
  string errors;
  for (size_t at = 0; at < doc.size();) {
    size_t n = std::min<size_t>(doc.size() - at, 1 + g.draw(g.flip() ? 3 : 60));
    void* b = parser.GetInternalBuffer(n);
    memcpy(b, doc.data() + at, n);
    at += n;
    if (!parser.ParseInternalBuffer(n, &errors, at == doc.size())) return false;
  }
  return true;
}
void Documents(G& g) {
  std::vector<P> want;
  string doc = Doc(g, &want);
  g.note(doc);
  Handler h;
  string errors;
  CHECK_M(kmlbase::ExpatParser::ParseString(doc, &h, &errors, false), errors << doc);
  CHECK_EQM(Show(h.got), Show(want), doc);
  Handler c;
  CHECK_M(Chunked(g, doc, &c), doc);
  CHECK_EQM(Show(c.got), Show(want), "in pieces " << doc);
  if (want.size() > 1) { g.nontrivial(doc); g.sample(doc); }
}
// Any text: safe, and what a broken document reports begins as it should.
void Broken(G& g) {
  std::vector<P> want;
  string doc = Doc(g, &want);
  if (g.flip()) {
    doc = doc.substr(0, g.draw(doc.size() + 1));
    Handler h; string errors;
    kmlbase::ExpatParser::ParseString(doc, &h, &errors, false);
    CHECK_M(h.got.size() <= want.size(), doc);
    want.resize(h.got.size());
    CHECK_EQM(Show(h.got), Show(want), doc);
  } else {
    doc = MutateBytes(g, doc, 6);
    Handler h; string errors;
    kmlbase::ExpatParser::ParseString(doc, &h, &errors, false);
  }
  g.nontrivial(doc);
}
}  // namespace

int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "P34", "at least two track points, or a damaged document",
                   {{"documents", 60000, 2000000, Documents, 0},
                    {"broken", 30000, 1000000, Broken, 0}});
}
