// Traversal and search against a walk through the accessors.
#include <string.h>
#include <algorithm>
#include <map>
#include <set>
#include "foreign.h"
#include "kml/dom/stats_serializer.h"
#include "kml/dom/visitor.h"
#include "kml/dom/visitor_driver.h"
#include "kml/engine/feature_visitor.h"
#include "kml/engine/find.h"
using namespace kg;
using pbt::G;

namespace {
struct Rec { string cls; const Element* e; };
class Recorder : public kmldom::Visitor {
 public:
  std::vector<Rec> all;
  virtual void VisitElement(const ElementPtr& e) { all.push_back(Rec{"Element", e.get()}); }
#define VISIT(C) virtual void Visit##C(const kmldom::C##Ptr& e) { all.push_back(Rec{#C, (const Element*)e.get()}); kmldom::Visitor::Visit##C(e); }
#include "visits.inc"
#undef VISIT
};
const std::set<string>& Visitable() {
  static std::set<string> s;
  if (s.empty()) {
    s.insert("Element");
#define VISIT(C) s.insert(#C);
#include "visits.inc"
#undef VISIT
  }
  return s;
}
string Key(const Element* e) { return TypeById(e->Type()) ? TypeById(e->Type())->key : "?"; }
// The visitor knows KML and its extensions, not Atom and xAL, which it may pass by.
bool Other(const TypeDef* t) { return !strncmp(t->key, "atom:", 5) || !strncmp(t->key, "xal:", 4); }
void KmlNodes(const ElementPtr& e, int parent, std::vector<Node>* out) {
  if (Other(TypeById(e->Type()))) return;
  int me = (int)out->size();
  out->push_back(Node{e, parent});
  std::vector<ElementPtr> k;
  ChildElements(e, &k);
  for (auto& c : k) KmlNodes(c, me, out);
}
void Visits(G& g) {
  GenOpts o;
  o.budget = 25;
  o.leaf_den = 8;
  M m = GenTree(g, g.flip() ? FindType(g.flip() ? "Document" : "kml") : PickRoot(g), o);
  ElementPtr root = g.flip() ? Build(m) : kmldom::Parse(Xml(m), NULL);
  CHECK_T(root);
  g.note(Raw(root));
  bool pre = g.flip();
  Recorder r;
  if (pre) kmldom::SimplePreorderDriver(&r).Visit(root);
  else kmldom::SimplePostorderDriver(&r).Visit(root);
  std::vector<Node> n;
  KmlNodes(root, -1, &n);
  std::set<const Element*> other;
  for (auto& x : AllNodes(root)) other.insert(x.e.get());
  for (auto& x : n) other.erase(x.e.get());
  // One group of callbacks per element: its kinds from the most specific up.
  std::map<const Element*, size_t> when;
  size_t at = 0;
  for (size_t i = 0; i < r.all.size(); ++at) {
    const Element* e = r.all[i].e;
    CHECK_M(!when.count(e), "a " << Key(e) << " is visited twice");
    when[e] = at;
    const TypeDef* t = TypeById(e->Type());
    CHECK_M(t, "something unknown is visited");
    std::vector<string> want;
    for (size_t k = t->isa.size(); k--;) if (Visitable().count(t->isa[k])) want.push_back(t->isa[k]);
    for (size_t k = 0; k < want.size(); ++k, ++i) {
      CHECK_M(i < r.all.size() && r.all[i].e == e, Key(e) << " is not visited as a " << want[k]);
      CHECK_M(r.all[i].cls == want[k], Key(e) << " is visited as a " << r.all[i].cls << " instead of a " << want[k]);
    }
  }
  for (size_t i = 0; i < n.size(); ++i) {
    const Element* e = n[i].e.get();
    CHECK_M(when.count(e), "a " << Key(e) << (n[i].parent >= 0 ? " in a " + Key(n[n[i].parent].e.get()) : string()) << " is never visited");
    if (n[i].parent < 0) continue;
    const Element* p = n[n[i].parent].e.get();
    CHECK_M((when[p] < when[e]) == pre, "order of a " << Key(p) << " and its " << Key(e));
  }
  for (auto e : other) when.erase(e);
  CHECK_M(when.size() == n.size(), "something is visited which is no part of the tree");
  // Members of an array, in their order, one whole subtree after the other.
  for (size_t i = 0; i < n.size(); ++i) {
    const TypeDef* t = TypeById(n[i].e->Type());
    for (auto f : t->fields) {
      if (f->kind != K_ELEMS || !f->count(n[i].e.get())) continue;
      Val first;
      f->at(n[i].e.get(), 0, first);
      if (Other(TypeById(first.e->Type()))) continue;
      size_t last = 0;
      for (size_t k = 0, c = f->count(n[i].e.get()); k < c; ++k) {
        Val v;
        f->at(n[i].e.get(), k, v);
        size_t w = when[v.e.get()];
        CHECK_M(k == 0 || w > last, "order within " << t->key << "." << f->xml);
        last = w;
      }
    }
  }
  g.label(pre ? "preorder" : "postorder");
  if (n.size() > 2) g.nontrivial(Raw(root) + (pre ? "<" : ">"));
  g.sample(Raw(root));
}
void Finds(G& g) {
  GenOpts o;
  o.budget = 25;
  o.leaf_den = 8;
  M m = GenTree(g, g.flip() ? FindType(g.flip() ? "Document" : "kml") : PickRoot(g), o);
  ElementPtr root = g.flip() ? Build(m) : kmldom::Parse(Xml(m), NULL);
  g.note(Raw(root));
  std::vector<Node> n = AllNodes(root);
  // By kind; half of the time a kind that occurs.
  int id = (int)g.range(1, kmldom::Type_Invalid - 1);
  if (g.draw(3)) id = n[g.draw(n.size())].e->Type();
  std::vector<ElementPtr> want, got(1, root);
  for (size_t i = 1; i < n.size(); ++i) if (n[i].e->IsA((kmldom::KmlDomType)id)) want.push_back(n[i].e);
  kmlengine::GetElementsById(root, (kmldom::KmlDomType)id, &got);
  CHECK_M(!got.empty() && got[0] == root, "what was in the result before is gone");
  got.erase(got.begin());
  CHECK_M(got.size() == want.size(), got.size() << " elements found, expected " << want.size());
  for (size_t i = 0; i < got.size(); ++i) CHECK_M(got[i] == want[i], "element " << i << " found is another one");
  // All children, all descendants.
  got.clear();
  int c = kmlengine::GetChildElements(root, true, &got);
  CHECK_EQ((size_t)c, n.size() - 1);
  CHECK_EQ(got.size(), n.size() - 1);
  for (size_t i = 0; i < got.size(); ++i) CHECK_M(got[i] == n[i + 1].e, "descendant " << i);
  got.clear();
  want.clear();
  ChildElements(root, &want);
  CHECK_EQ((size_t)kmlengine::GetChildElements(root, false, &got), want.size());
  CHECK_T(got == want);
  CHECK_EQ((size_t)kmlengine::GetChildElements(root, true, NULL), n.size() - 1);
  CHECK_EQ(kmlengine::GetChildElements(NULL, true, &got), 0);
  kmlengine::GetElementsById(NULL, kmldom::Type_Object, &got);
  kmlengine::GetElementsById(root, kmldom::Type_Object, NULL);
  CHECK_T(got == want);
  // The counting serializer counts them all.
  kmldom::StatsSerializer st;
  kmldom::Serializer& s = st;
  root->Serialize(s);
  CHECK_EQ((size_t)st.get_begin_count(), n.size());
  CHECK_EQ((size_t)st.get_end_count(), n.size());
  CHECK_EQ((size_t)st.get_element_count(), n.size() - 1);
  X x;
  string err;
  CHECK_T(ReadXml(Raw(root), &x, &err));
  CHECK_EQ((size_t)st.get_field_count() + n.size(), XCount(x));
  if (n.size() > 2) g.nontrivial(Raw(root) + std::to_string(id));
  g.label(want.empty() ? "leaf" : "tree");
}
class FV2 : public kmlengine::FeatureVisitor {
 public:
  std::vector<ElementPtr> all;
  virtual void VisitFeature(const kmldom::FeaturePtr& f) { all.push_back(f); }
};
void FeatureWalk(const ElementPtr& e, std::vector<ElementPtr>* out) {
  out->push_back(e);
  if (e->Type() != kmldom::Type_Folder && e->Type() != kmldom::Type_Document) return;
  std::vector<ElementPtr> k;
  ChildElements(e, &k);
  for (auto& c : k) if (IsA(TypeById(c->Type()), "Feature")) FeatureWalk(c, out);
}
void Features(G& g) {
  GenOpts o;
  o.budget = 30;
  o.leaf_den = 12;
  static const char* k[] = {"kml", "Document", "Folder", "Placemark", "NetworkLink"};
  const TypeDef* t = g.draw(6) == 5 ? PickRoot(g) : FindType(k[g.draw(5)]);
  M m = GenTree(g, t, o);
  ElementPtr root = kmldom::Parse(Xml(m), NULL);
  CHECK_T(root);
  g.note(Raw(root));
  ElementPtr want;
  if (IsA(t, "Feature")) want = root;
  if (!strcmp(t->key, "kml")) {
    std::vector<ElementPtr> c;
    ChildElements(root, &c);
    for (auto& e : c) if (IsA(TypeById(e->Type()), "Feature")) want = e;
  }
  kmldom::FeaturePtr f = kmlengine::GetRootFeature(root);
  CHECK_M(f == want, "root feature");
  CHECK_T(!kmlengine::GetRootFeature(NULL));
  FV2 v;
  kmlengine::VisitFeatureHierarchy(f, v);
  std::vector<ElementPtr> all;
  if (want) FeatureWalk(want, &all);
  CHECK_EQ(v.all.size(), all.size());
  for (size_t i = 0; i < all.size(); ++i) CHECK_M(v.all[i] == all[i], "feature " << i);
  if (all.size() > 1) g.nontrivial(Raw(root));
  g.label(all.size() > 3 ? "4+ features" : "0-3 features");
}
}  // namespace
int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "P13",
    "Generated trees of all kinds are walked by both drivers with a visitor overriding every callback, searched by kind, listed and counted; "
    "oracle is a walk through the accessors in vocabulary order; non-trivial = more than two elements (one feature); distinct by tree, order and kind.",
    {{"visitor", 30000, 1000000, Visits, 0},
     {"find", 30000, 1000000, Finds, 0},
     {"features", 25000, 600000, Features, 0}});
}
