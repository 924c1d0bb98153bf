#include "kmlgen.h"
using namespace kg;
using pbt::G;

static void Check(G& g, const M& m, const string& xml) {
  g.note("input: " + xml);
  string err;
  ElementPtr e = kmldom::Parse(xml, &err);
  CHECK_M(e, "valid document rejected: " << err);
  string d = CheckDom(m, e);
  CHECK_M(d.empty(), "parsed tree: " << d);
  string out = Raw(e);
  g.note("output: " + out);
  X x;
  CHECK_M(ReadXml(out, &x, &err), "output not well-formed: " << err);
  d = Diff(Expect(m), x);
  CHECK_M(d.empty(), "output differs: " << d);
  ElementPtr e2 = kmldom::Parse(out, &err);
  CHECK_M(e2, "own output rejected: " << err);
  string out2 = Raw(e2);
  CHECK_M(out2 == out, "second write differs: " << out2);
}
static void Mark(G& g, const M& m) {
  size_t n = Count(m);
  if (n >= 2 && m.f.size() >= 1) {
    string s;
    Shape(m, &s);
    g.nontrivial(s);
  }
  g.label(string("root ") + m.t->key);
  g.label(n >= 10 ? "10+ elements" : n >= 3 ? "3-9 elements" : "1-2 elements");
}
static void AnyRoot(G& g) {
  GenOpts o;
  M m = GenTree(g, PickRoot(g), o);
  RenderOpts ro;
  string xml = Render(g, m, ro);
  Check(g, m, xml);
  Mark(g, m);
  g.sample(xml);
}
static void KmlRoot(G& g) {
  GenOpts o;
  o.budget = 120;
  o.max_depth = 12;
  M m = GenTree(g, FindType("kml"), o);
  RenderOpts ro;
  string xml = Render(g, m, ro);
  Check(g, m, xml);
  Mark(g, m);
  g.sample(xml);
}
// Every field of every type at once, and each alone.
static void Dense(G& g) {
  GenOpts o;
  const TypeDef* t = &Types()[g.enumerate(Types().size())];
  if (!strcmp(t->key, "IconStyleIcon")) t = FindType("IconStyle");
  o.leaf_num = g.flip() ? 9 : 1;
  o.leaf_den = 10;
  o.budget = 25;
  o.max_depth = 3;
  M m = GenTree(g, t, o);
  RenderOpts ro;
  string xml = Render(g, m, ro);
  Check(g, m, xml);
  Mark(g, m);
}

// A child that may occur once but is repeated: the last one counts.
static void Repeated(G& g) {
  GenOpts o;
  const TypeDef* t = &Types()[g.enumerate(Types().size())];
  if (!strcmp(t->key, "IconStyleIcon")) t = FindType("IconStyle");
  o.leaf_num = 9;
  o.leaf_den = 10;
  o.budget = 12;
  o.max_depth = 2;
  o.big_den = 0;
  M m = GenTree(g, t, o);
  X x = Expect(m);
  string what;
  for (auto& v : m.f) {
    if (v.f->attr || v.f->kind == K_ELEMS || v.f->kind == K_STRS || v.f->kind == K_VEC3S || v.f->kind == K_ENUMS || v.f->kind == K_TEXT || v.f->kind == K_COORDS) continue;
    if (!g.flip()) continue;
    // Another tree of this kind gives the earlier occurrence.
    M n;
    n.t = t;
    FV w;
    w.f = v.f;
    if (v.f->kind == K_ELEM) {
      std::vector<const TypeDef*> c = Candidates(v.f);
      int b = 1 + (int)g.draw(4);
      w.kids.push_back(Gen(g, c[g.draw(c.size())], o, &b, 0));
    } else {
      w.v = GenVal(g, v.f, o);
    }
    n.f.push_back(w);
    X y = Expect(n);
    for (auto& k : y.kids) x.kids.insert(x.kids.begin(), k);
    what += string(" ") + v.f->xml;
  }
  if (what.empty()) throw pbt::Discard();
  string xml = Xml(x);
  Check(g, m, xml);
  string s;
  Shape(m, &s);
  g.nontrivial(s + what);
}

int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "P01",
    "Random model trees over all 91 element kinds and 245 fields, rendered in random formatting; "
    "non-trivial = at least two elements and one field; distinct by tree shape.",
    {{"any_root", 40000, 1200000, AnyRoot, 0},
     {"kml_root", 16000, 500000, KmlRoot, 0},
     {"dense", 30000, 900000, Dense, 0},
     {"repeated", 20000, 400000, Repeated, 0}});
}
