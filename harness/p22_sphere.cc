// Great-circle functions against 3-D vectors in extended precision.
#include <math.h>
#include <algorithm>
#include "kmlgen.h"
#include "kml/base/math_util.h"
#include "kml/convenience/convenience.h"
#include "kml/dom.h"
using namespace kg;
using kmlbase::Vec3;
using pbt::G;

namespace {
typedef long double LD;
const LD kPi = 3.14159265358979323846264338327950288L;
struct V { LD x, y, z; };
V Unit(double lat, double lng) {
  LD a = lat * kPi / 180, o = lng * kPi / 180;
  return {cosl(a) * cosl(o), cosl(a) * sinl(o), sinl(a)};
}
LD Dot(const V& a, const V& b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
V Cross(const V& a, const V& b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
LD Len(const V& a) { return sqrtl(Dot(a, a)); }
LD Angle(const V& a, const V& b) { return atan2l(Len(Cross(a, b)), Dot(a, b)); }
V North(double lat, double lng) { LD a = lat * kPi / 180, o = lng * kPi / 180; return {-sinl(a) * cosl(o), -sinl(a) * sinl(o), cosl(a)}; }
V East(double lng) { LD o = lng * kPi / 180; return {-sinl(o), cosl(o), 0}; }
// The radius is the library's choice; take it from the unit conversion and require it to be the Earth's.
LD Radius() { return kmlbase::RadiansToMeters(1.0); }

double Ang(G& g, int lim) {
  switch (g.draw(6)) {
    case 0: return (double)g.range(-lim, lim);
    case 1: return g.real(-lim, lim);
    case 2: { static const int k[] = {0, 90, -90, 45, -45, 60, -60, 30, 180, -180, 179, -179, 120}; int v = k[g.draw(13)]; return v < -lim ? -lim : v > lim ? lim : v; }
    case 3: return g.range(-lim * 1000, lim * 1000) / 1000.0;
    case 4: return (lim - g.real(0, 1) * pow(10, -(int)g.draw(9))) * (g.flip() ? 1 : -1);
    default: return g.real(-1, 1) * pow(10, -(int)g.draw(9));
  }
}
struct Pos { double lat, lng; };
Pos GenPos(G& g) { Pos p; p.lat = Ang(g, 90); p.lng = Ang(g, 180); return p; }
double Clamp(double v, double lim) { return v > lim ? lim : v < -lim ? -lim : v; }
Pos Other(G& g, const Pos& p) {
  Pos q = GenPos(g);
  double e = g.real(-1, 1) * pow(10, -(int)g.draw(11));
  double f = g.real(-1, 1) * pow(10, -(int)g.draw(11));
  switch (g.draw(6)) {
    case 0: return q;
    case 1: q.lat = Clamp(p.lat + e, 90); q.lng = Clamp(p.lng + f, 180); return q;        // near
    case 2: q.lat = Clamp(-p.lat + (g.flip() ? e : 0), 90); q.lng = p.lng > 0 ? p.lng - 180 : p.lng + 180; if (g.flip()) q.lng = Clamp(q.lng + f, 180); return q;  // antipode
    case 3: q.lat = p.lat; return q;
    case 4: q.lng = p.lng; return q;
    default: q.lat = p.lat; q.lng = -p.lng; return q;
  }
}
string Str(const Pos& p) { char b[80]; snprintf(b, sizeof b, "(%.17g, %.17g)", p.lat, p.lng); return b; }
// asin loses half the digits towards the antipode.
LD DistTol(LD angle) {
  LD c = cosl(angle / 2);
  LD t = 4e-15L / std::max(c, (LD)2e-8);
  return std::min(t, (LD)3e-7) + 4e-15L;
}
void Distance(G& g) {
  Pos a = GenPos(g), b = Other(g, a);
  string how = Str(a) + " " + Str(b);
  g.note(how);
  LD want = Angle(Unit(a.lat, a.lng), Unit(b.lat, b.lng));
  double got = kmlbase::DistanceBetweenPoints(a.lat, a.lng, b.lat, b.lng);
  CHECK_M(got >= 0, how << " got " << got);   // also not NaN
  LD tol = DistTol(want) * Radius();
  CHECK_M(fabsl(got - want * Radius()) <= tol, how << " got " << got << " want " << (double)(want * Radius()));
  double back = kmlbase::DistanceBetweenPoints(b.lat, b.lng, a.lat, a.lng);
  CHECK_M(fabsl(got - back) <= tol, how << " back " << back);
  CHECK_EQ(kmlbase::DistanceBetweenPoints(a.lat, a.lng, a.lat, a.lng), 0.0);
  if (want > 1e-13L) CHECK_M(got > 0, how);
  double h1 = g.range(-500, 9000) + g.real(0, 1), h2 = g.flip() ? h1 : g.range(-500, 9000000) + g.real(0, 1);
  double d3 = kmlbase::DistanceBetweenPoints3d(a.lat, a.lng, h1, b.lat, b.lng, h2);
  LD want3 = sqrtl(want * Radius() * want * Radius() + ((LD)h2 - h1) * ((LD)h2 - h1));
  CHECK_M(fabsl(d3 - want3) <= tol + 1e-12L * want3, how << " 3d " << d3 << " want " << (double)want3 << " alt " << h1 << " " << h2);
  if (want > 1e-9L) {
    LD el = atan2l((LD)h2 - h1, want * Radius()) * 180 / kPi;
    double ge = kmlbase::ElevationBetweenPoints(a.lat, a.lng, h1, b.lat, b.lng, h2);
    CHECK_M(fabsl(ge - el) <= 1e-4L, how << " elevation " << ge << " want " << (double)el);
    g.nontrivial(how);
    g.sample(how);
  }
}
void Azimuth(G& g) {
  Pos a = GenPos(g), b = Other(g, a);
  string how = Str(a) + " " + Str(b);
  g.note(how);
  V u = Unit(a.lat, a.lng), v = Unit(b.lat, b.lng);
  double got = kmlbase::AzimuthBetweenPoints(a.lat, a.lng, b.lat, b.lng);
  CHECK_M(got >= -180 && got <= 180, how << " got " << got);
  LD n = Dot(v, North(a.lat, a.lng)), e = Dot(v, East(a.lng));
  LD m = sqrtl(n * n + e * e);
  if (m < 1e-12L) return;      // same place or antipodes: no direction
  LD r = got * kPi / 180;
  // Distance between the two unit directions.
  LD dn = cosl(r) - n / m, de = sinl(r) - e / m;
  CHECK_M(sqrtl(dn * dn + de * de) <= 1e-14L / m + 1e-14L, how << " got " << got << " want " << (double)(atan2l(e, n) * 180 / kPi));
  g.nontrivial(how);
}
void Radial(G& g) {
  Pos a = GenPos(g);
  double top = (double)(Radius() * kPi), d;
  switch (g.draw(6)) {
    case 5: d = (1 + g.real(0, 1) * 3) * top; break;   // once around or twice
    case 0: d = g.real(0, 1) * top; break;
    case 1: d = g.real(0, 1) * pow(10, (int)g.draw(7)); break;
    case 2: d = 0; break;
    case 3: d = top * (double)g.draw(13) / 12; break;
    default: d = kmlbase::RadiansToMeters(kmlbase::DegToRad(90 - fabs(a.lat)));   // up to a pole
  }
  double r = g.draw(4) ? g.range(-720, 720) : g.real(-180, 360);
  if (g.draw(4) == 3) r = a.lat >= 0 ? 0 : 180;
  char buf[120];
  snprintf(buf, sizeof buf, " d=%.17g radial=%.17g", d, r);
  string how = Str(a) + buf;
  g.note(how);
  Vec3 p = kmlbase::LatLngOnRadialFromPoint(a.lat, a.lng, d, r);
  double lat = p.get_latitude(), lng = p.get_longitude();
  CHECK_M(lat >= -90.0000001 && lat <= 90.0000001, how << " lat " << lat);
  CHECK_M(lng >= -180.0000001 && lng <= 180.0000001, how << " lng " << lng);
  V got = Unit(lat, lng), from = Unit(a.lat, a.lng);
  LD ang = (LD)d / Radius(), rr = (LD)r * kPi / 180;
  V no = North(a.lat, a.lng), ea = East(a.lng);
  LD cd = cosl(ang), sd = sinl(ang), cr = cosl(rr), sr = sinl(rr);
  V want = {cd * from.x + sd * (cr * no.x + sr * ea.x), cd * from.y + sd * (cr * no.y + sr * ea.y), cd * from.z + sd * (cr * no.z + sr * ea.z)};
  LD coslat_from = std::max(fabsl(cosl(a.lat * kPi / 180)), (LD)1e-9);
  LD coslat_to = std::max(sqrtl(want.x * want.x + want.y * want.y), (LD)1e-8);
  LD tol = 1e-14L / coslat_from + std::min(1e-14L / coslat_to, (LD)3e-7) + 1e-14L;
  V diff = {got.x - want.x, got.y - want.y, got.z - want.z};
  if (coslat_from > 1e-6L) {
    CHECK_M(Len(diff) <= tol, how << " got " << lat << "," << lng << " off by " << (double)Len(diff) << " rad, tolerance " << (double)tol);
  }
  if (d > top * 1.0000001) { g.nontrivial(how); g.label("more than half around"); return; }
  // In any case it is at that distance, and at its own latitude.
  CHECK_M(fabsl(Angle(from, got) - ang) <= DistTol(ang) + 6e-7L, how << " distance " << (double)Angle(from, got) << " want " << (double)ang);
  double dist = kmlbase::DistanceBetweenPoints(a.lat, a.lng, lat, lng);
  CHECK_M(fabsl(dist - d) <= (DistTol(ang) + 6e-7L) * Radius(), how << " measured " << dist);
  if (d > 1 && ang < kPi - 1e-6L && coslat_from > 1e-3L && coslat_to > 1e-3L) {
    double az = kmlbase::AzimuthBetweenPoints(a.lat, a.lng, lat, lng);
    LD x = cosl(az * kPi / 180) - cr, y = sinl(az * kPi / 180) - sr;
    CHECK_M(sqrtl(x * x + y * y) <= 1e-10L / sd + 1e-10L, how << " azimuth " << az);
  }
  if (d > 0) { g.nontrivial(how); g.sample(how); }
}
void Units(G& g) {
  double v = g.real(-1000, 1000) * pow(10, (int)g.draw(8) - 3);
  CHECK_T(DoubleClose(kmlbase::DegToRad(v), (double)(v * kPi / 180)));
  CHECK_T(DoubleClose(kmlbase::RadToDeg(v), (double)(v * 180 / kPi)));
  CHECK_T(DoubleClose(kmlbase::MetersToRadians(kmlbase::RadiansToMeters(v)), v));
  CHECK_T(Radius() >= 6356752 && Radius() <= 6378137);
  CHECK_T(DoubleClose(kmlbase::RadiansToMeters(v), (double)(v * Radius())));
  double range = fabs(v), el = g.real(-180, 180);
  LD w = el * kPi / 180;
  CHECK_M(fabsl(kmlbase::GroundDistanceFromRangeAndElevation(range, el) - fabsl(cosl(w)) * range) <= 1e-14L * (range + 1), range << " " << el);
  CHECK_M(fabsl(kmlbase::HeightFromRangeAndElevation(range, el) - fabsl(sinl(w)) * range) <= 1e-14L * (range + 1), range << " " << el);
  g.nontrivial(Fmt(v) + "," + Fmt(el));
}
// A circle of coordinates: all at the radius, evenly around the whole circle, starting in the north.
void Circle(G& g) {
  Pos a;
  a.lat = Clamp(Ang(g, 90), 85); a.lng = Clamp(Ang(g, 180), 180);
  double radius = g.real(0, 1) * pow(10, (int)g.draw(6)) + 0.01;
  size_t n = g.draw(20) == 19 ? g.range(300, 1500) : g.draw(4) == 0 ? 360 : g.draw(3) == 0 ? g.draw(3) : 1 + g.draw(80);
  kmldom::CoordinatesPtr c = kmlconvenience::CreateCoordinatesCircle(a.lat, a.lng, radius, n);
  string how = Str(a) + " r=" + Fmt(radius) + " n=" + std::to_string(n);
  g.note(how);
  CHECK_EQ(c->get_coordinates_array_size(), n);
  V from = Unit(a.lat, a.lng), no = North(a.lat, a.lng), ea = East(a.lng);
  LD ang = radius / Radius();
  for (size_t i = 0; i < n; ++i) {
    Vec3 v = c->get_coordinates_array_at(i);
    LD rr = 2 * kPi * i / n;
    LD cd = cosl(ang), sd = sinl(ang), cr = cosl(rr), sr = sinl(rr);
    V want = {cd * from.x + sd * (cr * no.x + sr * ea.x), cd * from.y + sd * (cr * no.y + sr * ea.y), cd * from.z + sd * (cr * no.z + sr * ea.z)};
    V got = Unit(v.get_latitude(), v.get_longitude());
    V diff = {got.x - want.x, got.y - want.y, got.z - want.z};
    CHECK_M(Len(diff) <= 1e-11L, how << " point " << i << " off by " << (double)(Len(diff) * Radius()) << " m");
  }
  if (n) g.nontrivial(how);
}
}  // namespace
int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "P22",
    "Generated positions incl. poles, antimeridian, near and antipodal pairs, distances from zero to half the circumference and to the poles, all bearings; "
    "oracle is 3-D vector geometry in extended precision with error bounds from conditioning; non-trivial = distinct positions or positive distance; distinct by the inputs.",
    {{"distance", 300000, 4000000, Distance, 0},
     {"azimuth", 300000, 4000000, Azimuth, 0},
     {"radial", 300000, 4000000, Radial, 0},
     {"units", 100000, 1000000, Units, 0},
     {"circle", 20000, 200000, Circle, 0}});
}
