// Merging: reference merge on the model.
#include <string.h>
#include <algorithm>
#include <set>
#include "foreign.h"
#include "mergemodel.h"
#include "kml/engine/merge.h"
using namespace kg;
using pbt::G;

namespace {
void Compare(const M& want, const ElementPtr& t, const char* what) {
  string d = CheckDom(want, t);
  CHECK_M(d.empty(), what << ": " << d);
  X x;
  string err;
  CHECK_M(ReadXml(Raw(t), &x, &err), err);
  d = Diff(Expect(want), x);
  CHECK_M(d.empty(), what << ": " << d << " in " << Raw(t));
}
void Disjoint(const ElementPtr& a, const ElementPtr& b) {
  std::set<const void*> s;
  for (auto& n : AllNodes(a)) s.insert(n.e.get());
  std::vector<Node> y = AllNodes(b);
  for (auto& n : y) {
    CHECK_M(!s.count(n.e.get()), "source and target share an element");
    CHECK_M(n.e->GetParent() == (n.parent < 0 ? ElementPtr() : y[n.parent].e), "wrong parent in the merged tree");
  }
}
M Half(G& g, const M& m) {  // a variation of m: some of its fields, some others
  M r = m;
  for (size_t i = 0; i < r.f.size();) {
    if (g.draw(3) == 2) r.f.erase(r.f.begin() + i);
    else { for (auto& k : r.f[i].kids) k = Half(g, k); ++i; }
  }
  return r;
}
GenOpts Opts() {
  GenOpts o;
  o.budget = 14;
  o.leaf_den = 2;
  return o;
}
void Run(G& g, M src, M tgt, bool deep) {
  Tidy(&src);
  Tidy(&tgt);
  M want = tgt;
  g_over = g_rec = g_app = 0;
  Overlay(src, &want, deep);
  ElementPtr s = Build(src), t = Build(tgt);
  string before = Raw(s);
  g.note("source: " + before);
  g.note("target: " + Raw(t));
  if (deep) kmlengine::MergeElements(s, t);
  else kmlengine::MergeFields(s, t);
  g.note("merged: " + Raw(t));
  CHECK_EQ(Raw(s), before);
  Compare(want, t, "merged");
  Disjoint(s, t);
  // The target stands without the source.
  string after = Raw(t);
  s = NULL;
  CHECK_EQ(Raw(t), after);
  g.label(g_rec ? "recursive" : g_over ? "overlay" : g_app ? "added" : "nothing");
  if (g_over + g_rec + g_app) g.nontrivial(before + after);
  g.sample(before + " -> " + Raw(t));
}
void Same(G& g) {
  const TypeDef* t = PickRoot(g);
  M a = GenTree(g, t, Opts());
  Run(g, a, GenTree(g, t, Opts()), true);
}
void Related(G& g) {  // both from one tree, so that inner children match
  M a = GenTree(g, PickRoot(g), Opts());
  M s = Half(g, a), t = Half(g, a);
  int b = 4;
  if (g.flip()) s = Gen(g, a.t, Opts(), &b, 3);
  Run(g, s, t, true);
}
void Styles(G& g) {
  static const char* k[] = {"Style", "IconStyle", "ListStyle", "BalloonStyle", "Placemark", "Point", "Model", "ScreenOverlay", "LineStyle", "PolyStyle", "Region", "LookAt", "NetworkLink", "PhotoOverlay", "GroundOverlay"};
  GenOpts o = Opts();
  o.leaf_num = 2;
  o.leaf_den = 3;
  const TypeDef* t = FindType(k[g.draw(15)]);
  M a = GenTree(g, t, o);
  Run(g, a, GenTree(g, t, o), true);
}
void FieldsOnly(G& g) {
  const TypeDef* t = &Types()[g.enumerate(Types().size())];
  M a = GenTree(g, t, Opts());
  Run(g, a, GenTree(g, t, Opts()), false);
}
// Common fields of different kinds are merged as well.
void Across(G& g) {
  static const char* k[][2] = {{"LookAt", "Camera"}, {"Camera", "LookAt"}, {"LineString", "LinearRing"}, {"Point", "LineString"}, {"LineStyle", "PolyStyle"}, {"Icon", "Link"},
    {"Link", "Icon"}, {"Placemark", "Folder"}, {"Folder", "Document"}, {"LatLonBox", "LatLonAltBox"}, {"TimeSpan", "TimeStamp"}, {"GroundOverlay", "ScreenOverlay"}};
  uint64_t i = g.enumerate(12);
  GenOpts o = Opts();
  o.max_depth = 0;
  M a = GenTree(g, FindType(k[i][0]), o), b = GenTree(g, FindType(k[i][1]), o);
  Tidy(&a);
  Tidy(&b);
  ElementPtr s = Build(a), t = Build(b);
  string before = Raw(s);
  g.note(before + " into " + Raw(t));
  kmlengine::MergeFields(s, t);
  M want = b;
  Overlay(a, &want, false);
  string d = CheckDom(want, t);
  CHECK_M(d.empty(), d);
  CHECK_EQ(Raw(s), before);
  g.nontrivial(before + Raw(t));
}
void Degenerate(G& g) {
  M a = GenTree(g, PickRoot(g), Opts());
  Tidy(&a);
  ElementPtr e = Build(a);
  string before = Raw(e);
  kmlengine::MergeElements(e, NULL);
  kmlengine::MergeElements(NULL, e);
  kmlengine::MergeFields(e, NULL);
  kmlengine::MergeFields(NULL, e);
  kmlengine::MergeFields(e, e);
  kmlengine::MergeElements(e, e);
  CHECK_EQ(Raw(e), before);
  // Merging into a fresh element of the kind makes a copy, merging that again changes only arrays.
  ElementPtr f = a.t->create();
  kmlengine::MergeElements(e, f);
  Compare(a, f, "merged into nothing");
  ElementPtr n = a.t->create();
  kmlengine::MergeElements(n, e);
  if (strcmp(a.t->key, "coordinates")) CHECK_EQ(Raw(e), before);
  g.nontrivial(before);
}
}  // namespace
int main(int argc, char** argv) {
  kg::strict_altitude = true;
  return pbt::Main(argc, argv, "P12",
    "Pairs of generated trees of one kind (independent, related, style-like), deep and field-only merges, merges across kinds, with nothing and with themselves; "
    "oracle is a merge of the generating models compared field by field and through an independent XML reader; "
    "non-trivial = the source overlays, extends or recurses into at least one field; distinct by source and result.",
    {{"same", 20000, 600000, Same, 0},
     {"related", 20000, 600000, Related, 0},
     {"styles", 20000, 600000, Styles, 0},
     {"fields", 20000, 400000, FieldsOnly, 0},
     {"across", 12000, 200000, Across, 0},
     {"degenerate", 10000, 200000, Degenerate, pbt::kLeak}});
}
