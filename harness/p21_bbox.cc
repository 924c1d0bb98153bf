// Bounding boxes and locations: reference minimum/maximum over the generated coordinates.
#include <stdio.h>
#include <algorithm>
#include "kmlgen.h"
#include "kml/dom.h"
#include "kml/engine/bbox.h"
#include "kml/engine/location_util.h"
using namespace kg;
using namespace kmldom;
using kmlbase::Vec3;
using kmlengine::Bbox;
using pbt::G;

namespace {
struct Pt { double lat, lon; };
typedef std::vector<Pt> Pts;
// Values with few enough digits to survive the text, so that trees may also be read from KML.
double Deg(G& g, int lim) {
  switch (g.draw(5)) {
    case 0: return (double)g.range(-lim, lim);
    case 1: return g.range(-lim * 64, lim * 64) / 64.0;
    case 2: return g.flip() ? lim : -lim;
    case 3: return g.range(-8, 8) / 65536.0;
    default: return g.range(-lim * 4096, lim * 4096) / 4096.0;
  }
}
Pt Point_(G& g) { Pt p; p.lat = Deg(g, 90); p.lon = Deg(g, 180); return p; }
struct Box {
  bool any;
  double n, s, e, w;
  Box() : any(false), n(0), s(0), e(0), w(0) {}
  void Add(double lat, double lon) {
    if (!any) { n = s = lat; e = w = lon; any = true; return; }
    n = std::max(n, lat); s = std::min(s, lat); e = std::max(e, lon); w = std::min(w, lon);
  }
  void Add(const Pts& p) { for (auto& q : p) Add(q.lat, q.lon); }
};
string Str(const Box& b) { return "n" + Fmt(b.n) + " s" + Fmt(b.s) + " e" + Fmt(b.e) + " w" + Fmt(b.w); }
void Is(const Bbox& b, const Box& m, const string& how) {
  if (!m.any) return;
  CHECK_EQM(b.get_north(), m.n, how << " want " << Str(m));
  CHECK_EQM(b.get_south(), m.s, how << " want " << Str(m));
  CHECK_EQM(b.get_east(), m.e, how << " want " << Str(m));
  CHECK_EQM(b.get_west(), m.w, how << " want " << Str(m));
  double clat = 1e9, clon = 1e9;
  b.GetCenter(&clat, &clon);
  CHECK_T(DoubleClose(clat, (m.n + m.s) / 2) && DoubleClose(clon, (m.e + m.w) / 2));
  CHECK_EQ(clat, b.GetCenterLat());
  CHECK_EQ(clon, b.GetCenterLon());
  double only = 1e9;
  b.GetCenter(&only, NULL); CHECK_EQ(only, clat);
  b.GetCenter(NULL, &only); CHECK_EQ(only, clon);
  b.GetCenter(NULL, NULL);
}
void History(G& g) {
  Box m;
  Bbox b;
  size_t n = 1 + g.many(12, 200);
  Pts seen;
  string trace;
  if (g.draw(4) == 3) {
    Pt p = Point_(g), q = Point_(g);
    m.Add(p.lat, p.lon); m.Add(q.lat, q.lon);
    b = Bbox(m.n, m.s, m.e, m.w);
    seen.push_back(p); seen.push_back(q);
    trace = "start " + Str(m);
  }
  for (size_t i = 0; i < n; ++i) {
    Pt p = Point_(g);
    int op = (int)g.draw(4);
    if (!m.any) op = op == 3 ? 3 : 0;
    switch (op) {
      case 0: b.ExpandLatLon(p.lat, p.lon); m.Add(p.lat, p.lon); seen.push_back(p); break;
      case 1: b.ExpandLatitude(p.lat); m.n = std::max(m.n, p.lat); m.s = std::min(m.s, p.lat); break;
      case 2: b.ExpandLongitude(p.lon); m.e = std::max(m.e, p.lon); m.w = std::min(m.w, p.lon); break;
      default: {
        Pt q = Point_(g);
        Box o; o.Add(p.lat, p.lon); o.Add(q.lat, q.lon);
        b.ExpandFromBbox(Bbox(o.n, o.s, o.e, o.w));
        m.Add(p.lat, p.lon); m.Add(q.lat, q.lon);
        seen.push_back(p); seen.push_back(q);
      }
    }
    trace += " op" + std::to_string(op) + " " + Fmt(p.lat) + "," + Fmt(p.lon);
    g.note(trace);
    Is(b, m, trace);
    for (auto& s : seen) CHECK_M(b.Contains(s.lat, s.lon), trace);
    Pt t = Point_(g);
    CHECK_EQM(b.Contains(t.lat, t.lon), t.lat <= m.n && t.lat >= m.s && t.lon <= m.e && t.lon >= m.w, trace << " probe " << t.lat << "," << t.lon);
    // Just outside and on each side.
    double eps = 1.0 / 1048576;
    CHECK_T(b.Contains(m.n, m.e) && b.Contains(m.s, m.w) && b.Contains(m.n, m.w) && b.Contains(m.s, m.e));
    CHECK_T(!b.Contains(m.n + eps, m.e) && !b.Contains(m.s - eps, m.e) && !b.Contains(m.n, m.e + eps) && !b.Contains(m.n, m.w - eps));
  }
  Pt p = Point_(g), q = Point_(g);
  Box o; o.Add(p.lat, p.lon); o.Add(q.lat, q.lon);
  if (g.flip()) { o = m; double d = g.range(-2, 2) / 64.0; switch (g.draw(4)) { case 0: o.n += d; break; case 1: o.s += d; break; case 2: o.e += d; break; default: o.w += d; } }
  bool inside = m.n <= o.n && m.s >= o.s && m.e <= o.e && m.w >= o.w;
  CHECK_EQM(b.ContainedByBox(o.n, o.s, o.e, o.w), inside, trace << " in " << Str(o));
  CHECK_EQM(b.ContainedByBbox(Bbox(o.n, o.s, o.e, o.w)), inside, trace << " in " << Str(o));
  CHECK_T(b.ContainedByBbox(b));
  b.set_north(o.n); CHECK_EQ(b.get_north(), o.n);
  b.set_south(o.s); CHECK_EQ(b.get_south(), o.s);
  b.set_east(o.e); CHECK_EQ(b.get_east(), o.e);
  b.set_west(o.w); CHECK_EQ(b.get_west(), o.w);
  g.nontrivial(trace);
  g.sample(trace);
}

CoordinatesPtr Coords(G& g, size_t max, Pts* out) {
  CoordinatesPtr c = KmlFactory::GetFactory()->CreateCoordinates();
  size_t n = max == 1 ? (g.draw(5) != 0) : g.many(max, 1500);
  for (size_t i = 0; i < n; ++i) {
    Pt p = Point_(g);
    out->push_back(p);
    switch (g.draw(3)) {
      case 0: c->add_latlng(p.lat, p.lon); break;
      case 1: c->add_latlngalt(p.lat, p.lon, g.range(-1000, 100000)); break;
      default: c->add_vec3(Vec3(p.lon, p.lat, 7));
    }
  }
  return c;
}
GeometryPtr Geo(G& g, Pts* out, int depth, string* trace) {
  KmlFactory* k = KmlFactory::GetFactory();
  int kind = (int)g.draw(depth > 0 ? 6 : 5);
  *trace += "PLRGMX"[kind];
  switch (kind) {
    case 0: { PointPtr p = k->CreatePoint(); if (g.draw(6)) p->set_coordinates(Coords(g, 1, out)); return p; }
    case 1: { LineStringPtr p = k->CreateLineString(); if (g.draw(6)) p->set_coordinates(Coords(g, 6, out)); return p; }
    case 2: { LinearRingPtr p = k->CreateLinearRing(); if (g.draw(6)) p->set_coordinates(Coords(g, 6, out)); return p; }
    case 3: {
      PolygonPtr p = k->CreatePolygon();
      if (!g.draw(6)) return p;
      OuterBoundaryIsPtr o = k->CreateOuterBoundaryIs();
      p->set_outerboundaryis(o);
      if (!g.draw(6)) return p;
      LinearRingPtr r = k->CreateLinearRing();
      o->set_linearring(r);
      if (!g.draw(6)) return p;
      Pts mine;
      r->set_coordinates(Coords(g, 6, &mine));
      // Holes lie inside.
      if (mine.size() >= 3 && g.flip()) {
        InnerBoundaryIsPtr i = k->CreateInnerBoundaryIs();
        LinearRingPtr h = k->CreateLinearRing();
        CoordinatesPtr c = k->CreateCoordinates();
        for (auto& q : mine) c->add_latlng((q.lat + mine[0].lat) / 2, (q.lon + mine[0].lon) / 2);
        h->set_coordinates(c);
        i->set_linearring(h);
        p->add_innerboundaryis(i);
        *trace += "h";
      }
      out->insert(out->end(), mine.begin(), mine.end());
      return p;
    }
    case 4: {
      ModelPtr p = k->CreateModel();
      if (!g.draw(6)) return p;
      LocationPtr l = k->CreateLocation();
      Pt q = Point_(g);
      // What is left out has the default value, 0.
      if (g.draw(5)) l->set_latitude(q.lat); else q.lat = 0;
      if (g.draw(5)) l->set_longitude(q.lon); else q.lon = 0;
      p->set_location(l);
      out->push_back(q);
      return p;
    }
    default: {
      MultiGeometryPtr p = k->CreateMultiGeometry();
      size_t n = g.many(5, 300);
      *trace += "(";
      for (size_t i = 0; i < n; ++i) p->add_geometry(Geo(g, out, n > 60 ? 0 : depth - 1, trace));
      *trace += ")";
      return p;
    }
  }
}
FeaturePtr Feat(G& g, Pts* out, int depth, string* trace) {
  KmlFactory* k = KmlFactory::GetFactory();
  int kind = (int)g.draw(depth > 0 ? 8 : 5);
  switch (kind) {
    case 0: case 1: { PlacemarkPtr p = k->CreatePlacemark(); *trace += "p"; if (g.draw(6)) p->set_geometry(Geo(g, out, 2, trace)); return p; }
    case 2: { PhotoOverlayPtr p = k->CreatePhotoOverlay(); *trace += "o"; if (g.draw(4)) { PointPtr q = k->CreatePoint(); if (g.draw(6)) q->set_coordinates(Coords(g, 1, out)); p->set_point(q); } return p; }
    case 3: { *trace += "s"; ScreenOverlayPtr p = k->CreateScreenOverlay(); return p; }
    case 4: { *trace += "n"; NetworkLinkPtr p = k->CreateNetworkLink();
      // Views and regions are not locations of a feature.
      LookAtPtr l = k->CreateLookAt(); l->set_latitude(89); l->set_longitude(-179); p->set_abstractview(l); return p; }
    default: {
      ContainerPtr c;
      if (g.flip()) c = k->CreateDocument(); else c = k->CreateFolder();
      *trace += "[";
      size_t n = g.many(5, 300);
      for (size_t i = 0; i < n; ++i) c->add_feature(Feat(g, out, n > 60 ? 0 : depth - 1, trace));
      *trace += "]";
      return c;
    }
  }
}
// bounds(box) and latlon(lat,lon) against the points.
template <class B, class L> void Judge(G& g, const Pts& pts, const B& bounds, const L& latlon, const string& how) {
  Box m;
  m.Add(pts);
  Bbox b;
  CHECK_EQM(bounds(&b), m.any, how);
  Is(b, m, how);
  CHECK_EQM(bounds((Bbox*)NULL), m.any, how);
  // Into a box that already has content: the union.
  Box pre;
  Pt p = Point_(g), q = Point_(g);
  pre.Add(p.lat, p.lon); pre.Add(q.lat, q.lon);
  Bbox u(pre.n, pre.s, pre.e, pre.w);
  CHECK_EQM(bounds(&u), m.any, how);
  pre.Add(pts);
  Is(u, pre, how + " (union)");
  double lat = 777, lon = 888;
  CHECK_EQM(latlon(&lat, &lon), m.any, how);
  if (m.any) {
    CHECK_M(DoubleClose(lat, (m.n + m.s) / 2) && DoubleClose(lon, (m.e + m.w) / 2), how << " center " << lat << "," << lon << " of " << Str(m));
  } else {
    CHECK_M(lat == 777 && lon == 888, how);
  }
  double one = 777;
  CHECK_EQ(latlon(&one, (double*)NULL), m.any);
  CHECK_EQ(one, lat);
  one = 888;
  CHECK_EQ(latlon((double*)NULL, &one), m.any);
  CHECK_EQ(one, lon);
}
void Geometries(G& g) {
  Pts pts;
  string how;
  GeometryPtr e = Geo(g, &pts, 3, &how);
  string xml = Raw(e);
  g.note(xml);
  ElementPtr el = e;
  if (g.flip()) { string err; el = kmldom::Parse(xml, &err); CHECK_M(el, err); how += " read"; }
  GeometryPtr ge = AsGeometry(el);
  CHECK_T(ge);
  Judge(g, pts, [&](Bbox* b) { return kmlengine::GetGeometryBounds(ge, b); },
        [&](double* a, double* o) { return kmlengine::GetGeometryLatLon(ge, a, o); }, how + xml);
  if (PointPtr p = AsPoint(ge)) {
    Judge(g, pts, [&](Bbox* b) { return kmlengine::GetCoordinatesParentBounds(p, b); },
          [&](double* a, double* o) { return kmlengine::GetPointLatLon(p, a, o); }, how + xml);
  }
  if (LineStringPtr p = AsLineString(ge)) {
    Judge(g, pts, [&](Bbox* b) { return kmlengine::GetCoordinatesBounds(p->get_coordinates(), b); },
          [&](double* a, double* o) { return kmlengine::GetGeometryLatLon(p, a, o); }, how + xml);
  }
  if (ModelPtr p = AsModel(ge)) {
    Judge(g, pts, [&](Bbox* b) { return kmlengine::GetModelBounds(p, b); },
          [&](double* a, double* o) { return kmlengine::GetModelLatLon(p, a, o); }, how + xml);
  }
  PlacemarkPtr pm = KmlFactory::GetFactory()->CreatePlacemark();
  pm->set_geometry(g.flip() ? ge : (el == e ? e : ge));
  Judge(g, pts, [&](Bbox* b) { return kmlengine::GetFeatureBounds(pm, b); },
        [&](double* a, double* o) { return kmlengine::GetPlacemarkLatLon(pm, a, o); }, how + xml);
  if (pts.size() > 1) { g.nontrivial(xml); g.sample(xml); }
}
void Features(G& g) {
  Pts pts;
  string how;
  FeaturePtr f = Feat(g, &pts, 3, &how);
  string xml = Raw(f);
  g.note(xml);
  if (g.flip()) { string err; f = AsFeature(kmldom::Parse(xml, &err)); CHECK_M(f, err); }
  Judge(g, pts, [&](Bbox* b) { return kmlengine::GetFeatureBounds(f, b); },
        [&](double* a, double* o) { return kmlengine::GetFeatureLatLon(f, a, o); }, how + xml);
  if (pts.size() > 1) { g.nontrivial(xml); g.sample(xml); }
}
void Boxes(G& g) {
  KmlFactory* k = KmlFactory::GetFactory();
  AbstractLatLonBoxPtr b;
  switch (g.draw(3)) { case 0: b = k->CreateLatLonBox(); break; case 1: b = k->CreateLatLonAltBox(); break; default: b = k->CreateLatLonBox(); }
  Pt p = Point_(g), q = Point_(g);
  b->set_north(p.lat); b->set_south(q.lat); b->set_east(p.lon); b->set_west(q.lon);
  double lat = 1, lon = 2;
  kmlengine::GetCenter(b, &lat, &lon);
  CHECK_T(DoubleClose(lat, (p.lat + q.lat) / 2) && DoubleClose(lon, (p.lon + q.lon) / 2));
  double one = 5;
  kmlengine::GetCenter(b, &one, NULL); CHECK_EQ(one, lat);
  kmlengine::GetCenter(b, NULL, &one); CHECK_EQ(one, lon);
  kmlengine::GetCenter(NULL, &one, &one); CHECK_EQ(one, lon);
  // Nothing has no bounds.
  Bbox none(4, 3, 2, 1);
  CHECK_T(!kmlengine::GetGeometryBounds(NULL, &none) && !kmlengine::GetFeatureBounds(NULL, &none) && !kmlengine::GetModelBounds(NULL, &none) &&
          !kmlengine::GetCoordinatesBounds(NULL, &none) && !kmlengine::GetCoordinatesParentBounds(PointPtr(), &none));
  CHECK_T(!kmlengine::GetPointLatLon(NULL, &one, &one) && !kmlengine::GetModelLatLon(NULL, &one, &one) && !kmlengine::GetFeatureLatLon(NULL, &one, &one) &&
          !kmlengine::GetGeometryLatLon(NULL, &one, &one));
  CHECK_T(none.get_north() == 4 && none.get_south() == 3 && none.get_east() == 2 && none.get_west() == 1);
  CHECK_EQ(one, lon);
  g.nontrivial(Fmt(p.lat) + "," + Fmt(q.lat) + "," + Fmt(p.lon) + "," + Fmt(q.lon));
}
}  // namespace
int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "P21",
    "Histories of box expansions; geometry trees (points, lines, rings, polygons with holes, models, nested multi-geometries, with parts missing) and feature trees, built through the API or read back from KML; "
    "oracle is the minimum and maximum over the generated coordinates; non-trivial = more than one coordinate; distinct by the tree.",
    {{"history", 240000, 2400000, History, 0},
     {"geometry", 160000, 1600000, Geometries, 0},
     {"feature", 120000, 1200000, Features, 0},
     {"boxes", 20000, 100000, Boxes, 0}});
}
