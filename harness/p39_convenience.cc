// Computed views and the convenience constructors: what comes out holds what went in.
#include <math.h>
#include "stylegen.h"
#include "kml/base/date_time.h"
#include "kml/base/math_util.h"
#include "kml/convenience/convenience.h"
#include "kml/convenience/element_counter.h"
#include "kml/dom.h"
#include "kml/engine.h"
#include "kml/dom/xsd.h"
#include "kml/engine/feature_view.h"
using namespace kg;
using namespace kmldom;
using namespace kmlconvenience;
using kmlbase::Vec3;
using pbt::G;

namespace {
typedef long double LD;
const LD kPi = 3.14159265358979323846264338327950288L;
LD Radius() { return kmlbase::RadiansToMeters(1.0); }
LD Dist(LD la1, LD lo1, LD la2, LD lo2) {
  LD r = kPi / 180, s1 = sinl((la2 - la1) * r / 2), s2 = sinl((lo2 - lo1) * r / 2);
  LD h = s1 * s1 + cosl(la1 * r) * cosl(la2 * r) * s2 * s2;
  return 2 * Radius() * asinl(sqrtl(h > 1 ? 1 : h));
}
double Lat(G& g) { return g.draw(4) ? (double)g.draw(18000001) / 100000.0 - 90 : (double)g.draw(181) - 90; }
double Lon(G& g) { return g.draw(4) ? (double)g.draw(36000001) / 100000.0 - 180 : (double)g.draw(361) - 180; }
// The view of a box.
void CheckView(const LookAtPtr& l, LD n, LD s, LD e, LD w, const string& how) {
  CHECK_M(l, how);
  LD clat = (n + s) / 2, clon = (e + w) / 2;
  CHECK_M(fabsl(l->get_latitude() - clat) < 1e-9L && fabsl(l->get_longitude() - clon) < 1e-9L, how << " looks at " << l->get_latitude() << "," << l->get_longitude());
  LD dn = Dist(clat, clon, n, clon), dw = Dist(clat, clon, clat, w);
  LD range = sqrtl(dn * dn + dw * dw) * tanl(60 * kPi / 180) * 1.1L;
  if (range < 1000) range = 1000;
  CHECK_M(fabsl(l->get_range() - range) <= 1e-6L * range + 0.01L, how << " range " << l->get_range() << " instead of " << (double)range);
  CHECK_M(l->get_altitudemode() == ALTITUDEMODE_RELATIVETOGROUND && l->has_altitudemode(), how);
  CHECK_M(l->get_tilt() == 0 && l->get_heading() == 0 && l->get_altitude() == 0, how);
  CHECK_M(!l->has_gx_timeprimitive() && !l->has_id(), how);
}
struct Box { double n, s, e, w; };
Box GenBox(G& g) {
  double a = Lat(g), b = Lat(g), c = Lon(g), d = Lon(g);
  unsigned k = g.draw(4);
  if (k == 0) { b = a; d = c; }
  if (k == 1) { b = a + (double)g.draw(1000) / 100000; d = c + (double)g.draw(1000) / 100000; if (b > 90) b = 90; if (d > 180) d = 180; }
  return Box{std::max(a, b), std::min(a, b), std::max(c, d), std::min(c, d)};
}
string Show(const Box& b) { std::ostringstream o; o.precision(12); o << "n" << b.n << " s" << b.s << " e" << b.e << " w" << b.w; return o.str(); }
void Views(G& g) {
  Box b = GenBox(g);
  string how = Show(b);
  g.note(how);
  kmlengine::Bbox bbox(b.n, b.s, b.e, b.w);
  LookAtPtr l = kmlengine::ComputeBboxLookAt(bbox);
  CheckView(l, b.n, b.s, b.e, b.w, how);
  // A larger box is looked at from no nearer.
  double grow = (double)g.draw(1000) / 100;
  if (b.n + grow <= 90 && b.s - grow >= -90) {
    kmlengine::Bbox big(b.n + grow, b.s - grow, b.e, b.w);
    CHECK_M(kmlengine::ComputeBboxLookAt(big)->get_range() >= l->get_range() - 1e-6 * l->get_range(), how << " grown by " << grow);
  }
  if (l->get_range() > 1000) { g.nontrivial(how); g.sample(how); }
}
PlacemarkPtr PointAt(double lat, double lon) { return CreatePointPlacemark("p", lat, lon); }
void Features(G& g) {
  Box b = GenBox(g);
  std::vector<std::pair<double, double>> pts;
  FeaturePtr f;
  string how = Show(b);
  auto in = [&](double lo, double hi) { return lo + (hi - lo) * (double)g.draw(101) / 100; };
  pts.push_back({b.n, b.e}); pts.push_back({b.s, b.w});
  for (size_t i = g.draw(4); i--;) pts.push_back({in(b.s, b.n), in(b.w, b.e)});
  for (size_t i = pts.size(); i > 1; --i) std::swap(pts[i - 1], pts[g.draw(i)]);
  KmlFactory* kf = KmlFactory::GetFactory();
  unsigned kind = g.draw(4);
  bool empty = false;
  if (kind == 0) {
    FolderPtr folder = kf->CreateFolder();
    for (auto& p : pts) {
      if (g.flip()) { FolderPtr in2 = kf->CreateFolder(); in2->add_feature(PointAt(p.first, p.second)); folder->add_feature(in2); }
      else folder->add_feature(PointAt(p.first, p.second));
    }
    f = folder;
  } else if (kind == 1) {
    LineStringPtr ls = kf->CreateLineString();
    CoordinatesPtr c = kf->CreateCoordinates();
    for (auto& p : pts) c->add_latlngalt(p.first, p.second, 10);
    ls->set_coordinates(c);
    PlacemarkPtr pm = kf->CreatePlacemark();
    pm->set_geometry(ls);
    f = pm;
  } else if (kind == 2) {
    f = PointAt(b.n, b.e);
    b.s = b.n; b.w = b.e;
  } else {
    empty = true;
    if (g.flip()) f = kf->CreateFolder(); else f = kf->CreatePlacemark();
  }
  g.note(Raw(f));
  how += " " + Raw(f);
  LookAtPtr l = kmlengine::ComputeFeatureLookAt(f);
  if (empty) CHECK_M(!l, how); else CheckView(l, b.n, b.s, b.e, b.w, how);
  double duration = GenDouble(g);
  GxFlyToPtr fly = CreateFlyToForFeature(f, duration);
  CHECK_EQM((bool)fly, !empty, how);
  if (fly) {
    CHECK_M(fly->has_gx_duration() && fly->get_gx_duration() == duration, how);
    CheckView(AsLookAt(fly->get_abstractview()), b.n, b.s, b.e, b.w, how);
  }
  CHECK_M(!f->has_abstractview(), how);
  // Its own view is used as it is, and kept.
  GenOpts o; o.budget = 4;
  M vm = GenTree(g, FindType(g.flip() ? "Camera" : "LookAt"), o);
  AbstractViewPtr av = AsAbstractView(Build(vm));
  f->set_abstractview(av);
  string before = Raw(f);
  fly = CreateFlyToForFeature(f, duration);
  CHECK_M(fly && fly->has_abstractview() && fly->get_gx_duration() == duration, how);
  X x; string error;
  CHECK_M(ReadXml(Raw(fly->get_abstractview()), &x, &error), error);
  string d = Diff(Expect(vm), x);
  CHECK_M(d.empty(), d << " in " << how);
  CHECK_EQM(Raw(f), before, how);
  CHECK_M(f->get_abstractview() == av && fly->get_abstractview() != av, how);
  // An empty one is none.
  GxFlyToPtr own = CreateFlyTo(av, duration);
  CHECK_EQM(Raw(own), Raw(fly), how);
  CHECK_M(!CreateFlyToForFeature(NULL, 1), how);
  if (!empty) { g.nontrivial(how); g.sample(how); }
}
void Simplify(G& g) {
  KmlFactory* kf = KmlFactory::GetFactory();
  CoordinatesPtr src = kf->CreateCoordinates(), dest = kf->CreateCoordinates();
  std::vector<Vec3> v;
  double la = (double)g.draw(1200) / 10 - 60, lo = (double)g.draw(3000) / 10 - 150, al = 0;
  for (size_t i = 0, n = g.many(14, 200); i < n; ++i) {
    unsigned k = g.draw(5);
    double step = k == 0 ? 0 : k < 3 ? 0.0001 * (double)g.draw(30) : 0.01 * (double)g.draw(100);
    la += g.flip() ? step : -step / 2; if (g.flip()) lo += step;
    if (la > 89) la = 89;
    if (lo > 179) lo = 179;
    if (g.draw(4) == 0) al = (double)g.draw(2000);
    Vec3 p = g.flip() ? Vec3(lo, la, al) : Vec3(lo, la);
    v.push_back(p);
    src->add_vec3(p);
  }
  static const double tols[] = {0, -5, 0.5, 1, 5, 50, 500, 1500, 20000};
  double tol = g.pick(tols);
  size_t had = g.draw(3);
  for (size_t i = 0; i < had; ++i) dest->add_latlng(1, 2);
  std::ostringstream hs; hs.precision(12); hs << "tolerance " << tol << ":";
  for (auto& p : v) { hs << " " << p.get_longitude() << "," << p.get_latitude(); if (p.has_altitude()) hs << "," << p.get_altitude(); }
  string how = hs.str();
  g.note(how);
  std::vector<Vec3> want;
  for (size_t i = 0; i < v.size(); ++i) {
    if (i && tol > 0) {
      LD h = Dist(v[i - 1].get_latitude(), v[i - 1].get_longitude(), v[i].get_latitude(), v[i].get_longitude());
      LD dz = (LD)v[i].get_altitude() - v[i - 1].get_altitude(), d = sqrtl(h * h + dz * dz);
      if (fabsl(d - tol) < 1e-5L * (d + 1)) return;  // Too close to call.
      if (d <= tol) continue;
    }
    want.push_back(v[i]);
  }
  SimplifyCoordinates(src, dest, tol);
  CHECK_EQM(dest->get_coordinates_array_size(), had + want.size(), how);
  for (size_t i = 0; i < want.size(); ++i) {
    Vec3 p = dest->get_coordinates_array_at(had + i);
    CHECK_M(p.get_longitude() == want[i].get_longitude() && p.get_latitude() == want[i].get_latitude() && p.has_altitude() == want[i].has_altitude() && p.get_altitude() == want[i].get_altitude(), "tuple " << i << " of " << how);
  }
  CHECK_EQM(src->get_coordinates_array_size(), v.size(), how);
  SimplifyCoordinates(NULL, dest, tol);
  SimplifyCoordinates(src, NULL, tol);
  CHECK_EQM(dest->get_coordinates_array_size(), had + want.size(), how);
  if (want.size() < v.size() && want.size() > 1) { g.nontrivial(how); g.sample(how); }
}
// Extended data as a multimap in which the first of a name is found.
void Extended(G& g) {
  GenOpts o; o.budget = 5;
  M m = GenTree(g, FindType(g.flip() ? "Placemark" : "Document"), o);
  Drop(&m, "ExtendedData");
  M plain = m;
  FeaturePtr f = AsFeature(Build(m));
  std::vector<std::pair<string, string>> model;
  bool has = false;
  auto name = [&] { static const char* n[] = {"a", "b", "", "name", "a b"}; return g.draw(4) ? string(g.pick(n)) : GenString(g, true, 8); };
  string trace;
  for (size_t i = 0, n = 1 + g.size(12); i < n; ++i) {
    string k = name(), v = GenString(g, true, 10);
    unsigned op = g.draw(8);
    if (op == 0) { SetExtendedDataValue(k, v, f); model.clear(); model.push_back({k, v}); has = true; trace += "set " + k + "; "; }
    else if (op < 5) { AddExtendedDataValue(k, v, f); model.push_back({k, v}); has = true; trace += "add " + k + "; "; }
    else if (op == 6 && has && g.flip()) {  // a value missing, or a name
      DataPtr d = KmlFactory::GetFactory()->CreateData();
      bool named = g.flip();
      if (named) d->set_name(k); else d->set_value(v);
      f->get_extendeddata()->add_data(d);
      model.push_back({named ? k : string("\x01none"), named ? "" : v});
      trace += named ? "valueless " + k + "; " : "nameless; ";
    }
    else if (op == 5 && g.flip()) { f->clear_extendeddata(); model.clear(); has = false; trace += "clear; "; }
    else {
      string got = "before", want = "before"; bool w = false;
      for (auto& kv : model) if (!w && kv.first == k) { w = true; want = kv.second; }
      CHECK_EQM(GetExtendedDataValue(f, k, &got), w, trace << "get " << k);
      CHECK_EQM(got, want, trace << "get " << k);
      CHECK_M(!GetExtendedDataValue(f, k, NULL), trace);
    }
    g.note(trace);
    CHECK_EQM(f->has_extendeddata(), has, trace);
    if (has) {
      ExtendedDataPtr ed = f->get_extendeddata();
      CHECK_EQM(ed->get_data_array_size(), model.size(), trace);
      for (size_t j = 0; j < model.size(); ++j) {
        DataPtr d = ed->get_data_array_at(j);
        bool nameless = model[j].first == "\x01none";
        CHECK_M(d->has_name() == !nameless && (nameless || d->get_name() == model[j].first) && d->get_value() == model[j].second && !d->has_displayname(), trace);
      }
      CHECK_EQM(ed->get_schemadata_array_size(), (size_t)0, trace);
    }
  }
  // Nothing else has changed.
  f->clear_extendeddata();
  string d = CheckDom(plain, f);
  CHECK_M(d.empty(), d << " after " << trace);
  SetExtendedDataValue("a", "b", NULL);
  AddExtendedDataValue("a", "b", NULL);
  if (model.size() > 1) { g.nontrivial(trace); g.sample(trace); }
}
bool OnePoint(const GeometryPtr& ge, double lat, double lon, bool hasalt, double alt) {
  PointPtr p = AsPoint(ge);
  if (!p || !p->has_coordinates() || p->get_coordinates()->get_coordinates_array_size() != 1) return false;
  Vec3 v = p->get_coordinates()->get_coordinates_array_at(0);
  return v.get_latitude() == lat && v.get_longitude() == lon && v.has_altitude() == hasalt && (!hasalt || v.get_altitude() == alt);
}
void Constructors(G& g) {
  double d[7];
  for (auto& x : d) x = GenDouble(g);
  int mode = (int)g.draw(3);
  string s = GenString(g, true), t = GenString(g, true);
  if (g.draw(6) == 5) s = (g.flip() ? "file.kml#" : "#") + GenPlain(g, 5);
  std::ostringstream hs; hs.precision(17);
  for (double x : d) hs << x << " ";
  string how = hs.str() + s;
  g.note(how);
  CameraPtr c = CreateCamera(d[0], d[1], d[2], d[3], d[4], d[5], mode);
  CHECK_M(c->get_latitude() == d[0] && c->get_longitude() == d[1] && c->get_altitude() == d[2] && c->get_heading() == d[3] && c->get_tilt() == d[4] && c->get_roll() == d[5] && c->get_altitudemode() == mode, how);
  CHECK_M(c->has_latitude() && c->has_longitude() && c->has_altitude() && c->has_heading() && c->has_tilt() && c->has_roll() && c->has_altitudemode(), how);
  LookAtPtr l = CreateLookAt(d[0], d[1], d[2], d[3], d[4], d[5], mode);
  CHECK_M(l->get_latitude() == d[0] && l->get_longitude() == d[1] && l->get_altitude() == d[2] && l->get_heading() == d[3] && l->get_tilt() == d[4] && l->get_range() == d[5] && l->get_altitudemode() == mode, how);
  CHECK_M(l->has_latitude() && l->has_longitude() && l->has_altitude() && l->has_heading() && l->has_tilt() && l->has_range() && l->has_altitudemode(), how);
  CHECK_M(OnePoint(CreatePointLatLon(d[0], d[1]), d[0], d[1], false, 0), how);
  CHECK_M(OnePoint(CreatePointFromVec3(Vec3(d[1], d[0])), d[0], d[1], false, 0), how);
  CHECK_M(OnePoint(CreatePointFromVec3(Vec3(d[1], d[0], d[2])), d[0], d[1], true, d[2]), how);
  PlacemarkPtr p = CreatePointPlacemark(s, d[0], d[1]);
  CHECK_M(p->get_name() == s && p->has_name() && OnePoint(p->get_geometry(), d[0], d[1], false, 0), how);
  RegionPtr r = CreateRegion2d(d[0], d[1], d[2], d[3], d[4], d[5]);
  LatLonAltBoxPtr b = r->get_latlonaltbox();
  CHECK_M(b && r->has_lod() && b->get_north() == d[0] && b->get_south() == d[1] && b->get_east() == d[2] && b->get_west() == d[3] && !b->has_altitudemode() && !b->has_minaltitude() && !b->has_maxaltitude(), how);
  CHECK_M(r->get_lod()->get_minlodpixels() == d[4] && r->get_lod()->get_maxlodpixels() == d[5] && !r->get_lod()->has_minfadeextent() && !r->get_lod()->has_maxfadeextent(), how);
  CHECK_M(CreateWait(d[6])->get_gx_duration() == d[6] && CreateWait(d[6])->has_gx_duration(), how);
  GxAnimatedUpdatePtr a = CreateAnimatedUpdateChangePoint(s, Vec3(d[1], d[0], d[2]), d[6]);
  CHECK_M(a->get_gx_duration() == d[6] && a->has_update() && a->get_update()->get_updateoperation_array_size() == 1, how);
  ChangePtr ch = AsChange(a->get_update()->get_updateoperation_array_at(0));
  CHECK_M(ch && ch->get_object_array_size() == 1, how);
  p = AsPlacemark(ch->get_object_array_at(0));
  CHECK_M(a->get_update()->has_targethref() && a->get_update()->get_targethref().empty(), how);
  CHECK_M(p && p->get_targetid() == s && !p->has_id() && OnePoint(p->get_geometry(), d[0], d[1], true, d[2]), how);
  // A ring becomes the outer boundary of a polygon.
  GenOpts o; o.budget = 3;
  M rm = GenTree(g, FindType("LinearRing"), o);
  LinearRingPtr lr = AsLinearRing(Build(rm));
  p = CreateBasicPolygonPlacemark(lr);
  PolygonPtr poly = AsPolygon(p->get_geometry());
  CHECK_M(poly && poly->get_outerboundaryis() && poly->get_outerboundaryis()->get_linearring() == lr && poly->get_innerboundaryis_array_size() == 0, how);
  string df = CheckDom(rm, lr);
  CHECK_M(df.empty(), df);
  DataPtr dt = CreateDataNameValue(s, t);
  CHECK_M(dt->get_name() == s && dt->get_value() == t && dt->has_name() && dt->has_value(), how);
  // Attributes as an XML reader gives them.
  std::ostringstream la, lo; la.precision(17); lo.precision(17); la << d[0]; lo << d[1];
  bool has_lat = g.draw(5) != 0, has_lon = g.draw(5) != 0;
  string lat = la.str(), lon = lo.str();
  std::vector<const char*> atts;
  if (g.flip()) { atts.push_back("x"); atts.push_back("1"); }
  if (has_lon) { atts.push_back("lon"); atts.push_back(lon.c_str()); }
  if (has_lat) { atts.push_back("lat"); atts.push_back(lat.c_str()); }
  atts.push_back(NULL);
  PointPtr pt = CreatePointFromLatLonAtts(&atts[0]);
  CHECK_EQM((bool)pt, has_lat && has_lon, how);
  if (pt) CHECK_M(OnePoint(pt, d[0], d[1], false, 0), how << " from attributes " << lat << " " << lon);
  // A moment in time.
  char when[64];
  snprintf(when, sizeof when, "%04u-%02u-%02uT%02u:%02u:%02uZ", 1970 + (unsigned)g.draw(80), 1 + (unsigned)g.draw(12), 1 + (unsigned)g.draw(28), (unsigned)g.draw(24), (unsigned)g.draw(60), (unsigned)g.draw(60));
  std::unique_ptr<kmlbase::DateTime> dtm(kmlbase::DateTime::Create(when));
  CHECK_M(dtm, when);
  PointPtr at = CreatePointLatLon(d[0], d[1]);
  string style = GenPlain(g, 6);
  p = CreatePointPlacemarkWithTimeStamp(at, *dtm, style.c_str());
  string w = when, got;
  CHECK_M(p->get_geometry() == at && p->get_styleurl() == "#" + style, how);
  TimeStampPtr ts = AsTimeStamp(p->get_timeprimitive());
  CHECK_M(ts && ts->get_when() == w, w);
  CHECK_M(GetExtendedDataValue(p, "date", &got) && got == w.substr(0, 10), w);
  CHECK_M(GetExtendedDataValue(p, "time", &got) && got == w.substr(11, 8), w << " gives " << got);
  CHECK_EQM(p->get_name(), w.substr(11, 8), w);
  g.nontrivial(how); g.sample(how);
}
void CountTypes(const X& x, std::map<string, int>* out) { ++(*out)[x.tag]; for (auto& k : x.kids) CountTypes(k, out); }
void Counter(G& g) {
  GenOpts o; o.budget = 1 + (int)g.draw(30); o.nasty = g.flip();
  M m = GenTree(g, PickRoot(g), o);
  string xml = Xml(m);
  g.note(xml);
  std::map<string, int> want;
  CountTypes(Expect(m), &want);
  ElementCountMap counts;
  ElementCounter counter(&counts);
  Parser parser;
  parser.AddObserver(&counter);
  for (int round = 1; round <= 2; ++round) {
    CHECK_M(parser.Parse(xml, NULL), xml);
    std::map<string, int> got;
    for (auto& kv : counts) got[Xsd::GetSchema()->ElementName(kv.first)] += kv.second;
    for (auto& kv : want) CHECK_EQM(got[kv.first], kv.second * round, kv.first << " in " << xml);
    CHECK_EQM(got.size(), want.size(), xml);
  }
  if (want.size() > 3) { g.nontrivial(xml); g.sample(xml); }
}
}  // namespace

int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "P39", "a view from above the least range, a feature with a position, a simplification that drops some, several values, a constructed element, several kinds counted",
                   {{"views", 160000, 2000000, Views, 0},
                    {"features", 80000, 500000, Features, 0},
                    {"simplify", 200000, 1000000, Simplify, 0},
                    {"extended", 80000, 500000, Extended, 0},
                    {"constructors", 80000, 500000, Constructors, 0},
                    {"counter", 40000, 300000, Counter, 0}});
}
