// Region hierarchies: exact halving, every feature once, links only to what was written.
#include <dirent.h>
#include <math.h>
#include <algorithm>
#include <set>
#include "kmlgen.h"
#include "kml/base/file.h"
#include "kml/convenience/convenience.h"
#include "kml/convenience/feature_list.h"
#include "kml/convenience/kml_feature_list_saver.h"
#include "kml/dom.h"
#include "kml/dom/xsd.h"
#include "kml/engine.h"
#include "kml/regionator/feature_list_region_handler.h"
#include "kml/regionator/feature_list_regionator.h"
#include "kml/regionator/regionator.h"
#include "kml/regionator/regionator_qid.h"
#include "kml/regionator/regionator_util.h"
using namespace kg;
using namespace kmldom;
using kmlconvenience::FeatureList;
using kmlengine::Bbox;
using pbt::G;

namespace {
struct Box {
  double n, s, e, w;
  bool has(double lat, double lon, double tol = 0) const { return lat <= n + tol && lat >= s - tol && lon <= e + tol && lon >= w - tol; }
  bool in(const Box& o, double tol = 0) const { return n <= o.n + tol && s >= o.s - tol && e <= o.e + tol && w >= o.w - tol; }
  bool operator<(const Box& o) const { return std::make_pair(std::make_pair(n, s), std::make_pair(e, w)) < std::make_pair(std::make_pair(o.n, o.s), std::make_pair(o.e, o.w)); }
  bool operator==(const Box& o) const { return n == o.n && s == o.s && e == o.e && w == o.w; }
};
string Str(const Box& b) { char t[160]; snprintf(t, sizeof t, "[n%.17g s%.17g e%.17g w%.17g]", b.n, b.s, b.e, b.w); return t; }
Box Quadrant(const Box& b, int q) {   // 0 nw 1 ne 2 sw 3 se
  double lat = (b.n + b.s) / 2, lon = (b.e + b.w) / 2;
  Box r = b;
  if (q < 2) r.s = lat; else r.n = lat;
  if (q % 2) r.w = lon; else r.e = lon;
  return r;
}
bool Close(const Box& a, const Box& b, double tol = 1e-9) {
  return fabs(a.n - b.n) <= tol && fabs(a.s - b.s) <= tol && fabs(a.e - b.e) <= tol && fabs(a.w - b.w) <= tol;
}
// A coordinate: plain, wild, or sitting on or next to a line of the quad tree.
double Coord(G& g, double lim) {
  double v;
  switch (g.draw(6)) {
    case 0: v = (double)g.range(-(int)lim, (int)lim); break;
    case 1: v = g.real(-lim, lim); break;
    case 2: case 3: {
      int d = (int)g.draw(26);
      v = 180.0 * (double)((int64_t)g.draw((2ull << d) + 1) - (int64_t)(1ull << d)) / (double)(1ull << d);
      break;
    }
    case 4: {
      int d = (int)g.draw(20);
      v = 180.0 * (double)((int64_t)g.draw((2ull << d) + 1) - (int64_t)(1ull << d)) / (double)(1ull << d);
      v += g.real(-1, 1) * pow(10, -(int)g.draw(15));
      break;
    }
    default: v = g.range(-(int)lim * 1000000LL, (int)lim * 1000000LL) / 1e6; break;
  }
  return v > lim ? lim : v < -lim ? -lim : v;
}
struct F { string name; int score; bool located; double lat, lon; string kind; };
FeaturePtr MakeF(G& g, F* f, const std::vector<F>& earlier) {
  KmlFactory* k = KmlFactory::GetFactory();
  f->located = true;
  if (!earlier.empty() && g.draw(4) == 3) {   // same place as another
    const F& o = earlier[g.draw(earlier.size())];
    f->lat = o.lat; f->lon = o.lon; f->located = o.located;
  } else if (!earlier.empty() && g.draw(3) == 2) {
    const F& o = earlier[g.draw(earlier.size())];
    double s = pow(10, -(int)g.draw(13));
    f->lat = std::max(-90.0, std::min(90.0, o.lat + g.real(-1, 1) * s));
    f->lon = std::max(-180.0, std::min(180.0, o.lon + g.real(-1, 1) * s));
  } else {
    f->lat = Coord(g, 90);
    f->lon = Coord(g, 180);
  }
  if (g.draw(12) == 11) f->located = false;
  f->score = (int)g.range(-3, 5);
  if (g.draw(8) == 7) f->score = (int)g.range(-2000000, 2000000);
  PlacemarkPtr p = k->CreatePlacemark();
  p->set_name(f->name);
  if (f->located) {
    if (g.draw(5) == 4) {
      // A line centered there.
      double d = std::min(std::min(90 - fabs(f->lat), 180 - fabs(f->lon)), 0.25);
      CoordinatesPtr c = k->CreateCoordinates();
      c->add_latlng(f->lat - d, f->lon - d);
      c->add_latlng(f->lat + d, f->lon + d);
      LineStringPtr l = k->CreateLineString();
      l->set_coordinates(c);
      p->set_geometry(l);
      f->lat = ((f->lat - d) + (f->lat + d)) / 2;
      f->lon = ((f->lon - d) + (f->lon + d)) / 2;
      f->kind = "line";
    } else {
      PointPtr pt = k->CreatePoint();
      CoordinatesPtr c = k->CreateCoordinates();
      c->add_latlng(f->lat, f->lon);
      pt->set_coordinates(c);
      p->set_geometry(pt);
      f->kind = "point";
    }
  } else {
    f->kind = "none";
  }
  if (f->score) { char b[20]; snprintf(b, sizeof b, "%d", f->score); kmlconvenience::SetFeatureScore(b, p); }
  CHECK_EQ(kmlconvenience::GetFeatureScore(p), f->score);
  return p;
}
string Str(const F& f) { char t[120]; snprintf(t, sizeof t, "%s(%.17g,%.17g s%d %s)", f.name.c_str(), f.lat, f.lon, f.score, f.kind.c_str()); return t; }
std::vector<FeaturePtr> MakeFs(G& g, std::vector<F>* fs, size_t max, string* how) {
  std::vector<FeaturePtr> r;
  size_t n = g.draw(80) == 79 ? g.range(max, max * 4) : g.draw(4) == 3 ? g.range(max / 3, max) : g.size(max / 3);
  for (size_t i = 0; i < n; ++i) {
    F f;
    char b[16]; snprintf(b, sizeof b, "f%d", (int)i);
    f.name = b;
    r.push_back(MakeF(g, &f, *fs));
    fs->push_back(f);
    if (i < 12) *how += " " + Str(f);
  }
  return r;
}

// ---- reading back what was written
const X* Kid(const X& x, const string& tag) { for (auto& k : x.kids) if (k.tag == tag) return &k; return NULL; }
const X& Need(const X& x, const string& tag, const string& how) { const X* k = Kid(x, tag); if (!k) FAIL("missing", "no <" << tag << "> in <" << x.tag << "> " << how); return *k; }
Box ReadBox(const X& region, const string& how) {
  const X& b = Need(region, "LatLonAltBox", how);
  Box r;
  r.n = strtod(Need(b, "north", how).text.c_str(), NULL);
  r.s = strtod(Need(b, "south", how).text.c_str(), NULL);
  r.e = strtod(Need(b, "east", how).text.c_str(), NULL);
  r.w = strtod(Need(b, "west", how).text.c_str(), NULL);
  return r;
}
struct Tree {
  std::map<string, X> file;       // name -> kml
  std::set<string> seen;
  std::map<string, int> placed;   // feature -> count
  std::vector<F>* fs;
  size_t max_per;
  string root_name, how;
  std::set<string> region_ids;
};
int ScoreOf(const Tree& t, const string& name) { for (auto& f : *t.fs) if (f.name == name) return f.score; FAIL("alien", "feature " << name << " " << t.how); }
// Returns the highest score below; checks the subtree.
int Walk(Tree* t, const string& name, const Box* want, int depth) {
  const string& how = t->how;
  CHECK_M(t->file.count(name), "link to " << name << " which was not written " << how);
  CHECK_M(t->seen.insert(name).second, name << " linked twice " << how);
  const X& doc = Need(t->file[name], "Document", how);
  const X& region = Need(doc, "Region", how);
  Box box = ReadBox(region, how);
  if (want) CHECK_M(Close(box, *want), name << " has region " << Str(box) << " but is linked for " << Str(*want) << " " << how);
  CHECK_M(region.attrs.count("id") && t->region_ids.insert(region.attrs.find("id")->second).second, "region id of " << name << " " << how);
  const X& lod = Need(region, "Lod", how);
  CHECK_M(atof(Need(lod, "minLodPixels", how).text.c_str()) == 256 && atof(Need(lod, "maxLodPixels", how).text.c_str()) == -1, how);
  const X* al = Kid(doc, "atom:link");
  CHECK_M(al, "no atom:link in " << name);
  CHECK_EQM(al->attrs.find("href")->second, t->root_name, name << " " << how);
  CHECK_EQM(al->attrs.find("rel")->second, string(depth ? "up" : "self"), name << " " << how);
  // The features here.
  size_t here = 0;
  int lowest = INT32_MAX, highest = INT32_MIN;
  bool links = false;
  std::vector<int> quads;
  int below = INT32_MIN;
  for (auto& k : doc.kids) {
    if (k.tag == "Folder") {
      int prev = INT32_MAX;
      for (auto& p : k.kids) {
        if (p.tag != "Placemark") continue;
        ++here;
        string fn = Need(p, "name", how).text;
        t->placed[fn]++;
        for (auto& f : *t->fs) if (f.name == fn) CHECK_M(box.has(f.lat, f.lon, 1e-9), Str(f) << " is outside the region of " << name << " " << Str(box) << " " << how);
        int sc = ScoreOf(*t, fn);
        CHECK_M(sc <= prev, "order in " << name << " " << how);
        prev = sc;
        lowest = std::min(lowest, sc);
        highest = std::max(highest, sc);
      }
    } else if (k.tag == "NetworkLink") {
      links = true;
      Box b = ReadBox(Need(k, "Region", how), how);
      int q = -1;
      for (int i = 0; i < 4; ++i) if (Close(b, Quadrant(box, i))) q = i;
      // Below the resolution of the format quadrants cannot be told apart.
      bool fine = box.n - box.s > 1e-6;
      if (fine) {
        CHECK_M(q >= 0, "linked region " << Str(b) << " is no quadrant of " << Str(box) << " " << how);
        CHECK_M(std::find(quads.begin(), quads.end(), q) == quads.end(), "quadrant linked twice " << how);
        quads.push_back(q);
      }
      const X& link = Need(k, "Link", how);
      CHECK_EQM(Need(link, "viewRefreshMode", how).text, string("onRegion"), how);
      below = std::max(below, Walk(t, Need(link, "href", how).text, &b, depth + 1));
    }
  }
  CHECK_M(here > 0, name << " holds nothing " << how);
  if (t->max_per) {
    CHECK_M(here <= t->max_per, name << " holds " << here << " " << how);
    if (links) CHECK_M(here == t->max_per, name << " has children but holds only " << here << " " << how);
  } else CHECK_M(!links, "no limit, yet " << name << " has children " << how);
  if (links) CHECK_M(below <= lowest, "a lower score comes before a higher one at " << name << " " << how);
  return std::max(highest, below);
}
// The lowest quad-tree cell that holds the box; in ties any of them.
void CheckAligned(const Box& b, const Box& a, double tol, const string& how) {
  CHECK_M(b.in(a, tol), Str(a) << " does not hold " << Str(b) << " " << how);
  int depth = -1;
  for (int d = 0; d <= 25; ++d) if (fabs((a.n - a.s) - 360.0 / (1 << d)) <= tol) depth = d;
  CHECK_M(depth >= 0 && fabs((a.e - a.w) - (a.n - a.s)) <= tol, Str(a) << " is no cell " << how);
  double size = 360.0 / (1 << depth);
  CHECK_M(fabs(remainder(a.n - 180, size)) <= tol && fabs(remainder(a.e - 180, size)) <= tol, Str(a) << " is off the grid " << how);
  CHECK_M(a.n <= 180 && a.s >= -180 && a.e <= 180 && a.w >= -180, Str(a) << how);
  if (depth < 24) for (int q = 0; q < 4; ++q) CHECK_M(!b.in(Quadrant(a, q), -tol), Str(Quadrant(a, q)) << " would do instead of " << Str(a) << " for " << Str(b) << " " << how);
}
class Progress {
 public:
  unsigned last, total; int calls; bool bad;
  Progress() : last(0), total(0), calls(0), bad(false) {}
  bool RegionatorProgress(unsigned count, unsigned t) { if (count <= last || count > t || (calls && t != total)) bad = true; last = count; total = t; ++calls; return true; }
};
void Files(G& g) {
  std::vector<F> fs;
  string how;
  std::vector<FeaturePtr> v = MakeFs(g, &fs, 90, &how);
  Tree t;
  t.fs = &fs;
  t.max_per = g.draw(5) == 4 ? 0 : g.range(1, 12);
  how += " max " + std::to_string(t.max_per);
  t.how = how;
  g.note(how);
  string dir = g.scratch();
  FeatureList list;
  for (auto& f : v) list.PushBack(f);
  CHECK_EQ(list.Size(), fs.size());
  Box want = {-180, 180, -180, 180};
  size_t located = 0;
  for (auto& f : fs) if (f.located) { ++located; want.n = std::max(want.n, f.lat); want.s = std::min(want.s, f.lat); want.e = std::max(want.e, f.lon); want.w = std::min(want.w, f.lon); }
  Bbox bbox;
  list.ComputeBoundingBox(&bbox);
  Box have = {bbox.get_north(), bbox.get_south(), bbox.get_east(), bbox.get_west()};
  if (located) CHECK_M(Close(have, want, 1e-12), Str(have) << " want " << Str(want) << how);
  bool ok;
  bool handler = g.draw(6) == 5 && located;
  if (handler) {
    // The handler with the fixed limit, on a region of our own.
    t.max_per = 10;
    list.Sort();
    kmlregionator::FeatureListRegionHandler h(&list);
    ok = kmlregionator::Regionator::RegionateAligned(h, kmlconvenience::CreateRegion2d(want.n, want.s, want.e, want.w, 256, -1), dir.c_str());
  } else if (g.flip()) {
    Progress p;
    ok = kmlregionator::FeatureListRegionator<Progress>::Regionate(&list, t.max_per, &p, dir.c_str());
    CHECK_M(!p.bad, "progress " << how);
    if (located) CHECK_M(p.last == located && p.total == fs.size(), "progress ends at " << p.last << "/" << p.total << how);
  } else {
    ok = kmlregionator::FeatureListRegionator<>::Regionate(&list, t.max_per, NULL, dir.c_str());
  }
  CHECK_M(ok, how);
  DIR* d = opendir(dir.c_str());
  while (dirent* e = readdir(d)) {
    string name = e->d_name;
    if (name == "." || name == "..") continue;
    string data, err;
    CHECK_T(kmlbase::File::ReadFileToString(dir + "/" + name, &data));
    X x;
    CHECK_M(ReadXml(data, &x, &err), name << ": " << err);
    t.file[name] = x;
  }
  closedir(d);
  if (!located) { CHECK_M(t.file.empty(), "files for nothing " << how); return; }
  t.root_name = "1.kml";
  Walk(&t, t.root_name, NULL, 0);
  CHECK_EQM(t.seen.size(), t.file.size(), "files nobody links to " << how);
  for (auto& f : fs) CHECK_EQM(t.placed[f.name], f.located ? 1 : 0, Str(f) << " " << how);
  const X& root = Need(t.file["1.kml"], "Document", how);
  CheckAligned(want, ReadBox(Need(root, "Region", how), how), 1e-9, how);
  const X& la = Need(root, "LookAt", how);
  CHECK_M(fabs(atof(Need(la, "latitude", how).text.c_str()) - (want.n + want.s) / 2) < 1e-9, how);
  CHECK_M(fabs(atof(Need(la, "longitude", how).text.c_str()) - (want.e + want.w) / 2) < 1e-9, how);
  if (t.file.size() > 1) { g.nontrivial(how); g.sample(std::to_string(fs.size()) + " features, " + std::to_string(t.file.size()) + " files," + how); }
  g.label(handler ? "handler" : t.file.size() > 4 ? "deep" : "flat");
}

// ---- the descent against a handler that answers at random
class Random : public kmlregionator::RegionHandler {
 public:
  G* g;
  int budget;
  string how;
  std::map<Box, int> asked;           // 0 no, 1 data, 2 data but no feature
  std::vector<Box> open;              // data, feature not yet asked for
  std::map<Box, string> saved;
  std::map<string, KmlPtr> kml;
  std::set<string> ids;
  double size0;
  Box Of(const RegionPtr& r) {
    CHECK_M(r && r->has_latlonaltbox(), how);
    LatLonAltBoxPtr b = r->get_latlonaltbox();
    return {b->get_north(), b->get_south(), b->get_east(), b->get_west()};
  }
  virtual bool HasData(const RegionPtr& r) {
    Box b = Of(r);
    CHECK_M(!asked.count(b), "asked twice for " << Str(b) << how);
    CHECK_M(r->has_id() && ids.insert(r->get_id()).second, "region id " << how);
    if (!open.empty()) {
      bool quad = false;
      for (int q = 0; q < 4; ++q) if (b == Quadrant(open.back(), q)) quad = true;
      CHECK_M(quad, Str(b) << " is no quadrant of " << Str(open.back()) << how);
    }
    int a = 0;
    if (budget > 0 && b.n - b.s > 1e-7) { --budget; a = asked.empty() ? 5 : (int)g->draw(8); a = a < 3 ? 0 : a == 7 ? 2 : 1; }
    asked[b] = a;
    how += a ? "+" : "-";
    if (a) open.push_back(b);
    return a != 0;
  }
  virtual FeaturePtr GetFeature(const RegionPtr& r) {
    Box b = Of(r);
    CHECK_M(!open.empty() && open.back() == b, "feature of " << Str(b) << " out of turn" << how);
    for (int q = 0; q < 4; ++q) CHECK_M(asked.count(Quadrant(b, q)), "quadrant " << q << " of " << Str(b) << " not visited" << how);
    open.pop_back();
    if (asked[b] == 2) return NULL;
    PlacemarkPtr p = KmlFactory::GetFactory()->CreatePlacemark();
    p->set_name(Str(b));
    return p;
  }
  virtual void SaveKml(const KmlPtr& k, const string& filename) {
    DocumentPtr d = AsDocument(k->get_feature());
    CHECK_M(d && d->has_region(), how);
    Box b = Of(d->get_region());
    CHECK_M(asked.count(b) && asked[b] == 1 && !saved.count(b), "saved " << Str(b) << how);
    CHECK_M(!kml.count(filename), "two files " << filename << how);
    saved[b] = filename;
    kml[filename] = k;
  }
};
void Descent(G& g) {
  Random h;
  h.g = &g;
  h.budget = g.draw(500) == 499 ? (int)g.range(200, 1200) : (int)g.range(1, 40);
  Box b;
  bool aligned = g.draw(4) == 3;
  if (!aligned && g.flip()) {
    b.s = Coord(g, 90); b.w = Coord(g, 180);
    double d = g.real(0, 1) * 60 + 1e-3;
    b.n = b.s + d; b.e = b.w + (g.flip() ? d : g.real(0, 1) * 60 + 1e-3);
  } else {
    b.n = 180; b.s = -180; b.e = 180; b.w = -180;
    int k = (int)g.draw(20);
    for (int i = 0; i < k; ++i) b = Quadrant(b, (int)g.draw(4));
  }
  static const char* const kDirs[] = {"out/dir", "o", ".", "x", "out.d", "a b"};
  string dir = g.flip() ? kDirs[g.draw(6)] : "";
  string root = !aligned && g.flip() ? "root.kml" : "";
  bool natural = aligned || g.flip();
  RegionPtr r = kmlconvenience::CreateRegion2d(b.n, b.s, b.e, b.w, (double)g.draw(500), g.flip() ? -1 : (double)g.draw(2000));
  if (g.flip()) { r->get_latlonaltbox()->set_minaltitude(12.5); r->get_latlonaltbox()->set_maxaltitude(1e5); r->get_latlonaltbox()->set_altitudemode(ALTITUDEMODE_ABSOLUTE); }
  if (g.flip()) {  // any part of the level of detail may be missing
    LodPtr l = r->get_lod();
    if (g.flip()) l->clear_minlodpixels();
    if (g.flip()) l->clear_maxlodpixels();
    if (g.flip()) l->set_minfadeextent((double)g.draw(100));
    if (g.flip()) l->set_maxfadeextent((double)g.draw(100));
    if (g.draw(4) == 3) r->clear_lod();
  }
  if (g.flip()) r->set_id("mine");
  string before = Raw(r);
  h.how = Str(b) + " " + dir + " " + root + " ";
  kmlregionator::Regionator reg(h, r);
  if (!root.empty()) reg.SetRootFilename(root.c_str());
  Box nb = {b.n, aligned ? b.s : (b.n * 3 + b.s) / 4, b.e, b.w};
  if (natural) reg.SetNaturalRegion(kmlconvenience::CreateRegion2d(nb.n, nb.s, nb.e, nb.w, 1, -1));
  bool ok = aligned ? kmlregionator::Regionator::RegionateAligned(h, r, dir.empty() ? NULL : dir.c_str()) : reg.Regionate(dir.empty() ? NULL : dir.c_str());
  g.note(h.how);
  const string& how = h.how;
  CHECK_M(ok, how);
  CHECK_M(h.open.empty(), "features not asked for " << how);
  CHECK_EQM(Raw(r), before, "region changed " << how);
  CHECK_M(h.asked.count(b), how);
  for (auto& a : h.asked) CHECK_M((a.second == 1) == (h.saved.count(a.first) > 0), Str(a.first) << " saved? " << how);
  for (auto& s : h.saved) {
    const string& fn = s.second;
    string base = fn;
    if (!dir.empty()) { CHECK_M(fn.substr(0, dir.size() + 1) == dir + "/", fn); base = fn.substr(dir.size() + 1); }
    bool is_root = s.first == b;
    string root_file = root.empty() ? "1.kml" : root;
    if (is_root) CHECK_EQM(base, root_file, how);
    else CHECK_M(base != root_file, how);
    DocumentPtr d = AsDocument(h.kml[fn]->get_feature());
    // Children linked: exactly the saved ones.
    std::set<string> want, have;
    for (int q = 0; q < 4; ++q) if (h.saved.count(Quadrant(s.first, q))) want.insert(h.saved[Quadrant(s.first, q)]);
    int features = 0;
    for (size_t i = 0; i < d->get_feature_array_size(); ++i) {
      FeaturePtr f = d->get_feature_array_at(i);
      if (NetworkLinkPtr nl = AsNetworkLink(f)) {
        CHECK_M(nl->has_region() && nl->has_link(), how);
        string href = nl->get_link()->get_href();
        string full = dir.empty() ? href : dir + "/" + href;
        CHECK_M(have.insert(full).second, "linked twice " << how);
        CHECK_EQM(nl->get_link()->get_viewrefreshmode(), (int)VIEWREFRESHMODE_ONREGION, how);
        Box nb = h.Of(nl->get_region());
        CHECK_M(h.saved.count(nb) && h.saved[nb] == full, href << " for " << Str(nb) << how);
      } else {
        ++features;
        CHECK_EQM(f->get_name(), Str(s.first), how);
      }
    }
    CHECK_EQM(features, 1, how);
    CHECK_M(want == have, "links of " << fn << " " << how);
    // The rest of the region is the given one's.
    RegionPtr dr = d->get_region();
    CHECK_EQM(dr->has_lod(), r->has_lod(), how);
    if (r->has_lod()) CHECK_EQM(Raw(dr->get_lod()), Raw(r->get_lod()), how);
    LatLonAltBoxPtr x = dr->get_latlonaltbox(), o = r->get_latlonaltbox();
    CHECK_M(x->get_minaltitude() == o->get_minaltitude() && x->get_maxaltitude() == o->get_maxaltitude() && x->get_altitudemode() == o->get_altitudemode() && x->has_altitudemode() == o->has_altitudemode(), how);
    CHECK_M(d->has_atomlink(), how);
    CHECK_EQM(d->get_atomlink()->get_href(), root_file, how);
    CHECK_EQM(d->get_atomlink()->get_rel(), string(is_root ? "self" : "up"), how);
    CHECK_EQM(d->has_abstractview(), is_root && natural, how);
    if (is_root && natural) {
      LookAtPtr la = AsLookAt(d->get_abstractview());
      CHECK_M(la && fabs(la->get_latitude() - (nb.n + nb.s) / 2) < 1e-9 && fabs(la->get_longitude() - (nb.e + nb.w) / 2) < 1e-9, how);
    }
  }
  if (h.saved.size() > 1) { g.nontrivial(how); g.sample(how); }
}

// ---- alignment
void Align(G& g) {
  Box b;
  double lim = 180;
  b.n = Coord(g, lim); b.e = Coord(g, lim);
  switch (g.draw(4)) {
    case 0: b.s = Coord(g, lim); b.w = Coord(g, lim); break;
    case 1: b.s = b.n; b.w = b.e; break;
    default: b.s = b.n - g.real(0, 1) * pow(10, 1 - (int)g.draw(9)); b.w = b.e - g.real(0, 1) * pow(10, 1 - (int)g.draw(9)); break;
  }
  if (b.s > b.n) std::swap(b.s, b.n);
  if (b.w > b.e) std::swap(b.w, b.e);
  bool outside = false;
  if (g.draw(8) == 7) { double x = 180 + g.real(0, 1) * 100 + 1e-9; switch (g.draw(4)) { case 0: b.n = x; break; case 1: b.s = -x; break; case 2: b.e = x; break; default: b.w = -x; } }
  outside = b.n > 180 || b.s < -180 || b.e > 180 || b.w < -180;
  string how = Str(b);
  g.note(how);
  KmlFactory* k = KmlFactory::GetFactory();
  LatLonBoxPtr in = k->CreateLatLonBox(), out = k->CreateLatLonBox();
  in->set_north(b.n); in->set_south(b.s); in->set_east(b.e); in->set_west(b.w);
  string before = Raw(in);
  CHECK_EQM(kmlregionator::CreateAlignedAbstractLatLonBox(in, out), !outside, how);
  CHECK_EQM(Raw(in), before, how);
  CHECK_T(!kmlregionator::CreateAlignedAbstractLatLonBox(NULL, out));
  CHECK_T(!kmlregionator::CreateAlignedAbstractLatLonBox(in, NULL));
  if (outside) { g.nontrivial(how); return; }
  Box a = {out->get_north(), out->get_south(), out->get_east(), out->get_west()};
  CheckAligned(b, a, 0, how);
  // Aligned within any other quad tree, to the depth asked for.
  Bbox qt(180, -180, 180, -180), src(b.n, b.s, b.e, b.w);
  unsigned depth = (unsigned)g.draw(30);
  src.AlignBbox(&qt, depth);
  Box c = {qt.get_north(), qt.get_south(), qt.get_east(), qt.get_west()};
  CHECK_M(b.in(c), how);
  if (depth <= 24) CHECK_M(a.in(c), "depth " << depth << " gives " << Str(c) << " within " << Str(a) << how);
  g.nontrivial(how);
  if (a.n - a.s < 100) g.sample(how + " -> " + Str(a));
}

// ---- children and other helpers
void Child(G& g) {
  KmlFactory* k = KmlFactory::GetFactory();
  Box b;
  b.n = Coord(g, 90); b.s = Coord(g, 90); b.e = Coord(g, 180); b.w = Coord(g, 180);
  if (b.s > b.n) std::swap(b.s, b.n);
  if (b.w > b.e) std::swap(b.w, b.e);
  string how = Str(b);
  RegionPtr r = k->CreateRegion();
  bool has_box = g.draw(10) != 9, has_lod = g.draw(4) != 3;
  bool alt = g.flip();
  double mina = g.real(-100, 100), minl = g.range(0, 1000), fade = g.real(0, 10);
  if (has_box) {
    LatLonAltBoxPtr l = k->CreateLatLonAltBox();
    l->set_north(b.n); l->set_south(b.s); l->set_east(b.e); l->set_west(b.w);
    if (alt) { l->set_minaltitude((float)mina); l->set_maxaltitude(mina + 1000); l->set_altitudemode(ALTITUDEMODE_RELATIVETOGROUND); }
    r->set_latlonaltbox(l);
  }
  if (has_lod) { LodPtr l = k->CreateLod(); l->set_minlodpixels(minl); if (alt) { l->set_maxlodpixels(minl * 2); l->set_minfadeextent(fade); } r->set_lod(l); }
  if (g.flip()) r->set_id("r1");
  string before = Raw(r);
  // The clone is equal and its own.
  RegionPtr c = kmlregionator::CloneRegion(r);
  CHECK_M(c != r, how);
  CHECK_EQM(Raw(c), before, how);
  static const kmlregionator::quadrant_t kq[] = {kmlregionator::NW, kmlregionator::NE, kmlregionator::SW, kmlregionator::SE};
  int path = (int)g.draw(30);
  RegionPtr at = r;
  Box bx = b;
  for (int i = 0; i <= path; ++i) {
    int q = (int)g.draw(4);
    RegionPtr ch = kmlregionator::CreateChildRegion(at, kq[q]);
    CHECK_M(ch && ch != at, how);
    CHECK_EQM(ch->has_latlonaltbox(), has_box, how);
    CHECK_EQM(ch->has_lod(), has_lod, how);
    if (has_box) {
      bx = Quadrant(bx, q);
      LatLonAltBoxPtr l = ch->get_latlonaltbox();
      Box have = {l->get_north(), l->get_south(), l->get_east(), l->get_west()};
      CHECK_M(have == bx, "level " << i << ": " << Str(have) << " want " << Str(bx) << " from " << how);
      CHECK_M(l->has_minaltitude() == alt && l->has_maxaltitude() == alt && l->has_altitudemode() == alt, how);
      if (alt) CHECK_M(DoubleClose(l->get_minaltitude(), (float)mina) && DoubleClose(l->get_maxaltitude(), mina + 1000) && l->get_altitudemode() == ALTITUDEMODE_RELATIVETOGROUND, how);
    }
    if (has_lod) {
      LodPtr l = ch->get_lod();
      CHECK_EQM(l->get_minlodpixels(), minl, how);
      CHECK_M(l->has_maxlodpixels() == alt && l->has_minfadeextent() == alt && !l->has_maxfadeextent(), how);
      if (alt) CHECK_M(l->get_maxlodpixels() == minl * 2 && DoubleClose(l->get_minfadeextent(), fade), how);
    }
    at = ch;
  }
  CHECK_EQM(Raw(r), before, how);
  // The helpers around it.
  NetworkLinkPtr nl = kmlregionator::CreateRegionNetworkLink(r, "a b.kml");
  CHECK_EQ(nl->get_link()->get_href(), string("a b.kml"));
  CHECK_EQ(nl->get_link()->get_viewrefreshmode(), (int)VIEWREFRESHMODE_ONREGION);
  CHECK_EQM(Raw(nl->get_region()), before, how);
  CHECK_EQM(Raw(kmlregionator::CreateRegionDocument(r)->get_region()), before, how);
  PlacemarkPtr p = kmlregionator::CreateLineStringBox("box", r);
  CHECK_EQ(p->get_name(), string("box"));
  CHECK_EQ(p->has_geometry(), has_box);
  if (has_box) {
    CoordinatesPtr cs = AsLineString(p->get_geometry())->get_coordinates();
    std::set<std::pair<double, double> > want = {{b.n, b.w}, {b.n, b.e}, {b.s, b.e}, {b.s, b.w}}, have;
    for (size_t i = 0; i < cs->get_coordinates_array_size(); ++i) have.insert({cs->get_coordinates_array_at(i).get_latitude(), cs->get_coordinates_array_at(i).get_longitude()});
    CHECK_M(want == have, how);
  }
  // Names of nodes: distinct per path, depth counts the steps.
  kmlregionator::Qid qid = kmlregionator::Qid::CreateRoot();
  CHECK_T(qid.IsRoot());
  size_t d0 = qid.depth();
  std::vector<int> p1, p2;
  kmlregionator::Qid q2 = qid;
  int n1 = (int)g.draw(6), n2 = (int)g.draw(6);
  for (int i = 0; i < n1; ++i) { int q = (int)g.draw(4); p1.push_back(q); qid = qid.CreateChild(kq[q]); }
  for (int i = 0; i < n2; ++i) { int q = (int)g.draw(4); p2.push_back(q); q2 = q2.CreateChild(kq[q]); }
  CHECK_EQ(qid.depth(), d0 + n1);
  CHECK_EQ(qid.str() == q2.str(), p1 == p2);
  CHECK_EQ(qid.IsRoot(), n1 == 0);
  g.nontrivial(how);
  g.sample(how);
}

// ---- the feature list against a plain vector
void List(G& g) {
  std::vector<F> fs;
  string how;
  std::vector<FeaturePtr> v = MakeFs(g, &fs, 40, &how);
  std::map<Element*, F> by;
  for (size_t i = 0; i < v.size(); ++i) by[v[i].get()] = fs[i];
  FeatureList list;
  std::vector<FeaturePtr> model;
  size_t next = 0;
  int ops = 2 + (int)g.draw(10);
  std::vector<FeaturePtr> out_model;
  FeatureList out;
  for (int o = 0; o < ops; ++o) {
    switch (g.draw(5)) {
      case 0: case 1: {
        size_t n = o == 0 ? v.size() : g.draw(v.size() + 1);
        for (; n && next < v.size(); --n, ++next) { list.PushBack(v[next]); model.push_back(v[next]); how += " push"; }
        list.PushBack(NULL);
        break;
      }
      case 2:
        list.Sort();
        std::stable_sort(model.begin(), model.end(), [&](const FeaturePtr& a, const FeaturePtr& b) { return by[a.get()].score > by[b.get()].score; });
        how += " sort";
        break;
      default: {
        Box b;
        b.n = Coord(g, 90); b.s = Coord(g, 90); b.e = Coord(g, 180); b.w = Coord(g, 180);
        if (!fs.empty() && g.flip()) { const F& f = fs[g.draw(fs.size())]; b.n = f.lat; if (g.flip()) b.w = f.lon; }
        if (b.s > b.n) std::swap(b.s, b.n);
        if (b.w > b.e) std::swap(b.w, b.e);
        size_t max = g.draw(4) == 3 ? 0 : g.range(1, 8);
        bool keep = g.draw(4) != 3;
        how += " split" + Str(b) + "max" + std::to_string(max) + (keep ? "" : " drop");
        g.note(how);
        size_t count = 0;
        std::vector<FeaturePtr> rest;
        for (auto& f : model) {
          const F& m = by[f.get()];
          if (m.located && b.has(m.lat, m.lon) && (max == 0 || count < max)) { ++count; if (keep) out_model.push_back(f); }
          else rest.push_back(f);
        }
        model = rest;
        size_t got;
        if (g.flip()) {
          RegionPtr r = kmlconvenience::CreateRegion2d(b.n, b.s, b.e, b.w, 0, -1);
          got = list.RegionSplit(r, max, keep ? &out : NULL);
        } else got = list.BboxSplit(Bbox(b.n, b.s, b.e, b.w), max, keep ? &out : NULL);
        CHECK_EQM(got, count, how);
        FeatureList none;
        CHECK_EQ(list.RegionSplit(NULL, 0, &none), (size_t)0);
        CHECK_EQ(list.RegionSplit(KmlFactory::GetFactory()->CreateRegion(), 0, &none), (size_t)0);
      }
    }
    CHECK_EQM(list.Size(), model.size(), how);
    CHECK_EQM(out.Size(), out_model.size(), how);
  }
  FolderPtr a = KmlFactory::GetFactory()->CreateFolder(), b = KmlFactory::GetFactory()->CreateFolder();
  CHECK_EQM(list.Save(a), model.size(), how);
  CHECK_EQM(out.Save(b), out_model.size(), how);
  CHECK_EQM(a->get_feature_array_size(), model.size(), how);
  CHECK_EQM(b->get_feature_array_size(), out_model.size(), how);
  for (size_t i = 0; i < model.size(); ++i) CHECK_M(a->get_feature_array_at(i) == model[i], "left " << i << how);
  for (size_t i = 0; i < out_model.size(); ++i) CHECK_M(b->get_feature_array_at(i) == out_model[i], "taken " << i << how);
  if (v.size() > 1 && ops > 2) { g.nontrivial(how); g.sample(how); }
}

// ---- gathering features from a parse
void Gather(G& g) {
  // Containers, features, shared styles.
  string xml, how;
  std::vector<string> want, styles, inside;
  string base = g.flip() ? "s.kml" : "";
  int n = 0, depth = 0;
  std::vector<string> open;
  xml = "<kml xmlns=\"http://www.opengis.net/kml/2.2\" xmlns:gx=\"http://www.google.com/kml/ext/2.2\"><Document>";
  open.push_back("Document");
  bool started = false;   // features have begun in this container: no more styles in the standard order
  int steps = 1 + (int)g.draw(14);
  for (int i = 0; i < steps; ++i) {
    switch (g.draw(7)) {
      case 6: {  // a tour that updates features
        string id = "f" + std::to_string(n++), inner = "u" + std::to_string(n++);
        static const char* ops[] = {"Create", "Change", "Delete"};
        string op = ops[g.draw(3)];
        // What an update adds may be a tour that has updates of its own.
        string nested = g.flip() ? "<gx:Tour><gx:Playlist><gx:AnimatedUpdate><Update><targetHref/></Update></gx:AnimatedUpdate></gx:Playlist></gx:Tour>" : "";
        xml += "<gx:Tour id=\"" + id + "\"><gx:Playlist><gx:AnimatedUpdate><Update><targetHref/><" + op + ">" + (op == "Create" ? "<Folder targetId=\"a\">" + nested + "<Placemark id=\"" + inner + "\"><styleUrl>#a</styleUrl></Placemark></Folder>" : "<Placemark targetId=\"" + inner + "\"/>") + "</" + op + "></Update></gx:AnimatedUpdate></gx:Playlist></gx:Tour>";
        want.push_back("gx:Tour " + id + " ");
        inside.push_back(inner);
        started = true;
        break;
      }
      case 0: if (depth < 4) { string c = g.flip() ? "Folder" : "Document"; xml += "<" + c + "><name>c</name>"; open.push_back(c); ++depth; started = false; } break;
      case 1: if (depth > 0) { xml += "</" + open.back() + ">"; open.pop_back(); --depth; started = true; } break;
      case 2: if (!started && open.back() == "Document") {
        string id = "s" + std::to_string(n++);
        bool with = g.draw(4) != 3;
        string kind = g.flip() ? "Style" : "StyleMap";
        xml += "<" + kind + (with ? " id=\"" + id + "\"" : "") + "/>";
        if (with) styles.push_back(id + ":" + kind);
      } break;
      default: {
        static const char* kinds[] = {"Placemark", "GroundOverlay", "ScreenOverlay", "PhotoOverlay", "NetworkLink"};
        string kind = kinds[g.draw(5)], id = "f" + std::to_string(n++), url;
        static const char* urls[] = {"", "#a", "#style", "other.kml#style", "http://h.com/x.kml#y", "#"};
        url = urls[g.draw(6)];
        xml += "<" + kind + " id=\"" + id + "\">" + (url.empty() ? "" : "<styleUrl>" + url + "</styleUrl>") + (g.flip() ? "<Style id=\"inline" + id + "\"/>" : "") + "</" + kind + ">";
        string u = url;
        if (!base.empty() && url.size() > 1 && url[0] == '#') u = base + url;
        if (url == "#") u = "?";
        want.push_back(kind + " " + id + " " + u);
        started = true;
      }
    }
  }
  while (!open.empty()) { xml += "</" + open.back() + ">"; open.pop_back(); }
  if (g.draw(4) == 3) xml.insert(xml.find("<Document>"), "<NetworkLinkControl><Update><targetHref/><Create><Document targetId=\"a\"><Placemark/></Document></Create><Change><Placemark targetId=\"b\"/></Change></Update></NetworkLinkControl>");
  xml += "</kml>";
  g.note(xml);
  FeatureList list;
  kmlengine::SharedStyleMap map;
  bool with_map = g.flip();
  kmlconvenience::KmlFeatureListSaver saver(&list, with_map ? &map : NULL, base.empty() ? NULL : base.c_str());
  Parser parser;
  parser.AddObserver(&saver);
  string errors;
  ElementPtr root = parser.Parse(xml, &errors);
  CHECK_M(root, errors << " " << xml);
  FolderPtr all = KmlFactory::GetFactory()->CreateFolder();
  CHECK_EQM(list.Save(all), want.size(), xml);
  for (size_t i = 0; i < want.size(); ++i) {
    FeaturePtr f = all->get_feature_array_at(i);
    string u = f->get_styleurl();
    if (!want[i].empty() && want[i][want[i].size() - 1] == '?') u = "?";
    CHECK_EQM(Xsd::GetSchema()->ElementName(f->Type()) + " " + f->get_id() + " " + u, want[i], xml);
  }
  string saved = SerializeRaw(all);
  for (auto& u : inside) CHECK_M(saved.find("\"" + u + "\"") != string::npos, "update of " << u << " lost " << xml);
  if (with_map) {
    CHECK_EQM(map.size(), styles.size(), xml);
    for (auto& s : styles) {
      string id = s.substr(0, s.find(':'));
      CHECK_M(map.count(id) && Xsd::GetSchema()->ElementName(map[id]->Type()) == s.substr(s.find(':') + 1), s << " " << xml);
    }
  }
  if (want.size() > 1) { g.nontrivial(xml); g.sample(xml); }
}
}  // namespace

int main(int argc, char** argv) {
  std::vector<pbt::Facet> f = {
    {"files", 5000, 150000, Files, 0},
    {"descent", 3000, 200000, Descent, 0},
    {"align", 60000, 3000000, Align, 0},
    {"child", 6000, 300000, Child, 0},
    {"list", 12000, 600000, List, 0},
    {"gather", 12000, 600000, Gather, 0},
  };
  return pbt::Main(argc, argv, "P27",
    "files/descent: more than one file in the hierarchy; align/child: any; list: more than one feature and two operations; gather: more than one feature; distinct by input", f);
}
