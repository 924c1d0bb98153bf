// Clones: equal, disjoint, correctly parented, independent.
#include <string.h>
#include <set>
#include "foreign.h"
#include "kml/engine/clone.h"
using namespace kg;
using pbt::G;

namespace {
// An empty text and none at all are the same thing in XML.
string N(string s) {
  for (size_t i = 0; (i = s.find("></SimpleData>", i)) != string::npos;) {
    size_t a = s.rfind('<', i);
    if (!s.compare(a, 11, "<SimpleData")) s.replace(i, 14, "/>");
    else i += 3;
  }
  return s;
}
void DropEmpty(M* m) {
  for (size_t i = 0; i < m->f.size();) {
    if (m->f[i].f->kind == K_TEXT && m->f[i].v.s.empty()) { m->f.erase(m->f.begin() + i); continue; }
    for (auto& k : m->f[i].kids) DropEmpty(&k);
    ++i;
  }
  for (auto& k : m->misplaced) DropEmpty(&k);
}
void SameShape(const ElementPtr& a, const ElementPtr& b) {
  std::vector<Node> x = AllNodes(a), y = AllNodes(b);
  CHECK_M(x.size() == y.size(), "clone has " << y.size() << " elements, original " << x.size());
  std::set<const void*> mine;
  for (auto& n : x) mine.insert(n.e.get());
  for (size_t i = 0; i < x.size(); ++i) {
    CHECK_M(!mine.count(y[i].e.get()), "clone shares a " << (TypeById(y[i].e->Type()) ? TypeById(y[i].e->Type())->key : "?") << " with the original");
    CHECK_M(x[i].e->Type() == y[i].e->Type(), "element " << i << " changes its kind");
    ElementPtr want = y[i].parent < 0 ? ElementPtr() : y[y[i].parent].e;
    CHECK_M(y[i].e->GetParent() == want, "wrong parent of element " << i << " of the clone");
    ElementPtr own = x[i].parent < 0 ? ElementPtr() : x[x[i].parent].e;
    CHECK_M(x[i].e->GetParent() == own, "cloning changed a parent in the original");
  }
}
// Changes one element of the tree through the API.
bool Mutate(G& g, const ElementPtr& root) {
  std::vector<Node> n = AllNodes(root);
  ElementPtr e = n[g.draw(n.size())].e;
  const TypeDef* t = TypeById(e->Type());
  if (t->fields.empty()) return false;
  const Field* f = t->fields[g.draw(t->fields.size())];
  GenOpts o;
  if (f->kind == K_ELEM || f->kind == K_ELEMS) {
    auto c = Candidates(f);
    if (c.empty() || !f->set) return false;
    if (f->clear && g.flip()) { f->clear(e.get()); return true; }
    Val v;
    v.e = c[g.draw(c.size())]->create();
    f->set(e.get(), v);
    return true;
  }
  if (f->clear && g.flip()) { f->clear(e.get()); return true; }
  if (!f->set) return false;
  f->set(e.get(), GenVal(g, f, o));
  return true;
}
// Numbers have 15 digits wherever they pass through text.
double R(double d) { double r = strtod(Fmt(d).c_str(), NULL); return r - r == 0 ? r : d < 0 ? -1e308 : 1e308; }
void Round(M* m) {
  for (auto& f : m->f) {
    f.v.d = R(f.v.d);
    for (auto& v : f.list) {
      bool flat = !v.v.has_altitude();
      v.v = kmlbase::Vec3(R(v.v.get_longitude()), R(v.v.get_latitude()), R(v.v.get_altitude()));
      if (flat) v.v.clear_altitude();
    }
    for (auto& k : f.kids) Round(&k);
  }
  for (auto& k : m->misplaced) Round(&k);
}
void Judge(G& g, const ElementPtr& orig, const M* m) {
  string before = Raw(orig), pretty = Pretty(orig);
  g.note("original: " + before);
  ElementPtr c = kmlengine::Clone(orig);
  CHECK_M(c, "no clone");
  CHECK_M(!c->GetParent(), "the clone has a parent");
  CHECK_EQ(Raw(orig), before);
  CHECK_EQ(N(Raw(c)), N(before));
  if (N(before) == before) CHECK_EQ(Pretty(c), pretty);
  SameShape(orig, c);
  if (m) {
    M w = *m;
    DropEmpty(&w);
    string d = CheckDom(w, c);
    CHECK_M(d.empty(), "clone: " << d);
  }
  ElementPtr cc = kmlengine::Clone(c);
  CHECK_EQ(N(Raw(cc)), N(before));
  // Changing one tree leaves the others alone.
  size_t n = 1 + g.size(4);
  bool which = g.flip();
  size_t done = 0;
  for (size_t i = 0; i < n; ++i) done += Mutate(g, which ? c : orig);
  CHECK_EQ(N(Raw(which ? orig : c)), N(before));
  CHECK_EQ(N(Raw(cc)), N(before));
  g.label(done ? "mutated" : "unchanged");
}
void Built(G& g) {
  GenOpts o;
  o.budget = 20;
  M m = GenTree(g, PickRoot(g), o);
  Round(&m);
  ElementPtr e = Build(m);
  string key = Raw(e);
  strict_altitude = true;
  Judge(g, e, &m);
  if (Count(m) > 1) g.nontrivial(key);
  g.sample(key);
}
void Parsed(G& g) {
  g_injected = 0;
  GenOpts o;
  o.budget = 10;
  o.cr = true;
  M m = GenTree(g, PickRoot(g), o);
  Decorate(g, &m, o, 0);
  Round(&m);
  string xml = Render(g, m, RenderOpts()), err;
  strict_altitude = false;
  ElementPtr e = kmldom::Parse(xml, &err);
  CHECK_M(e, err << xml);
  Judge(g, e, &m);
  if (g_injected) g.nontrivial(xml);
  g.sample(xml);
}
void EveryKind(G& g) {  // one element with a single field, or all of them
  const TypeDef* t = &Types()[g.enumerate(Types().size())];
  GenOpts o;
  o.leaf_num = 1;
  o.leaf_den = g.flip() ? 1 : 4;
  o.budget = 12;
  o.max_depth = 2;
  M m = GenTree(g, t, o);
  Round(&m);
  ElementPtr e = Build(m);
  string key = Raw(e);
  strict_altitude = true;
  Judge(g, e, &m);
  g.nontrivial(string(t->key) + key);
}
// The clone of an inner element is as good as that of a root.
void Inner(G& g) {
  g_injected = 0;
  GenOpts o;
  o.budget = 14;
  M m = GenTree(g, PickRoot(g), o);
  Decorate(g, &m, o, 0);
  ElementPtr e = kmldom::Parse(Xml(m), NULL);
  CHECK_M(e, Xml(m));
  std::vector<Node> n = AllNodes(e);
  if (n.size() < 2) throw pbt::Discard();
  ElementPtr in = n[1 + g.draw(n.size() - 1)].e;
  string want = Raw(in), all = Raw(e);
  g.note(all);
  ElementPtr c = kmlengine::Clone(in);
  CHECK_M(c && !c->GetParent(), "clone of an inner element");
  CHECK_EQ(N(Raw(c)), N(want));
  CHECK_EQ(Raw(e), all);
  // The original goes, the clone stays.
  n.clear();
  in = NULL;
  e = NULL;
  CHECK_EQ(N(Raw(c)), N(want));
  // And it can take a place in another tree.
  if (kmldom::FeaturePtr f = kmldom::AsFeature(c)) {
    kmldom::FolderPtr p = kmldom::KmlFactory::GetFactory()->CreateFolder();
    p->add_feature(f);
    CHECK_EQ(p->get_feature_array_size(), (size_t)1);
    CHECK_T(c->GetParent() == p);
    g.label("re-attached");
  }
  g.nontrivial(all + want);
}
void None(G& g) {
  CHECK_T(!kmlengine::Clone(NULL));
  // A single simple element can be cloned, too.
  const std::vector<string>& s = Simple();
  const string& tag = s[g.enumerate(s.size())];
  string text = GenString(g, true);
  ElementPtr e = kmldom::Parse("<" + tag + ">" + EscapeText(text) + "</" + tag + ">", NULL);
  CHECK_M(e, tag);
  string before = Raw(e);
  ElementPtr c = kmlengine::Clone(e);
  CHECK_M(c, tag);
  CHECK_EQ(N(Raw(c)), N(before));
  CHECK_T(c->Type() == e->Type() && c != e && !c->GetParent());
  g.nontrivial(tag + text);
}
}  // namespace
int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "P11",
    "API-built trees and parsed documents with foreign and misplaced content are cloned as a whole and at inner elements; equality of both serializations, "
    "disjointness, parents, field-by-field model comparison and independence under later changes and destruction; "
    "non-trivial = more than one element or foreign content; distinct by serialization.",
    {{"built", 8000, 600000, Built, pbt::kLeak},
     {"parsed", 8000, 600000, Parsed, pbt::kLeak},
     {"kinds", 15000, 400000, EveryKind, 0},
     {"inner", 9000, 600000, Inner, pbt::kLeak},
     {"simple", 3000, 60000, None, 0}});
}
