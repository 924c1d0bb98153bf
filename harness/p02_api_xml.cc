#include <sstream>
#include "kmlgen.h"
#include "kml/dom/xml_serializer.h"
using namespace kg;
using pbt::G;

static string Trim(const string& s) {
  size_t a = s.find_first_not_of(" \t\r\n");
  if (a == string::npos) return "";
  return s.substr(a, s.find_last_not_of(" \t\r\n") - a + 1);
}
// Mixed text (an element with K_TEXT content) may be padded in the pretty form.
static void PadText(const X& e, X* a) {
  if (e.kind == -1 && Trim(e.text) == Trim(a->text) &&
      a->text.find(e.text) != string::npos)
    a->text = e.text;
  for (size_t i = 0; i < e.kids.size() && i < a->kids.size(); ++i) {
    // Simple fields have no children and no K_TEXT padding.
    if (e.kids[i].kind == -1 || e.kids[i].kind == -2) PadText(e.kids[i], &a->kids[i]);
  }
}
static void Check(G& g, const M& m) {
  ElementPtr e = Build(m);
  string d = CheckDom(m, e);
  CHECK_M(d.empty(), "built tree: " << d);
  X want = Expect(m), got;
  string err;
  string raw = kmldom::SerializeRaw(e);
  g.note("raw: " + raw);
  CHECK_M(ReadXml(raw, &got, &err), "raw output not well-formed: " << err);
  d = Diff(want, got);
  CHECK_M(d.empty(), "raw output: " << d);
  string pretty = kmldom::SerializePretty(e);
  g.note("pretty: " + pretty);
  CHECK_M(ReadXml(pretty, &got, &err), "pretty output not well-formed: " << err);
  PadText(want, &got);
  d = Diff(want, got);
  CHECK_M(d.empty(), "pretty output: " << d);
  std::ostringstream a, b;
  kmldom::XmlSerializer<std::ostringstream>::Serialize(e, "", "", &a);
  kmldom::XmlSerializer<std::ostringstream>::Serialize(e, "\n", "  ", &b);
  CHECK_M(a.str() == raw, "raw stream output differs from raw string output");
  CHECK_M(b.str() == pretty, "pretty stream output differs from pretty string output");
  CHECK_M(kmldom::SerializeRaw(e) == raw, "serializing changes the tree");
}
static void Mark(G& g, const M& m, const string& xml) {
  if (xml.find('&') != string::npos || xml.find("<![CDATA[") != string::npos) g.nontrivial(xml);
  g.label(string("root ") + m.t->key);
}
static void AnyRoot(G& g) {
  GenOpts o;
  o.cr = true;
  M m = GenTree(g, &Types()[g.draw(Types().size())], o);
  Check(g, m);
  string x = Xml(m);
  Mark(g, m, x);
  g.sample(x);
}
// One string field at a time with a long adversarial string.
static void OneString(G& g) {
  static std::vector<std::pair<const TypeDef*, const Field*>> all;
  if (all.empty())
    for (auto& t : Types())
      for (auto f : t.fields)
        if (f->kind == K_STR || f->kind == K_TEXT || f->kind == K_STRS) all.push_back({&t, f});
  auto p = all[g.enumerate(all.size())];
  M m;
  m.t = p.first;
  FV fv;
  fv.f = p.second;
  string s = GenString(g, true, 40);
  if (g.draw(4) == 3) s += g.flip() ? "\r" : "\r\n";
  if (g.draw(8) == 7) s = GenString(g, true, 4) + string(g.draw(3000), "x<&]>\n "[g.draw(7)]) + s;
  if (fv.f->kind == K_STRS) { Val v; v.s = s; fv.list.push_back(v); if (g.flip()) { v.s = GenString(g, true); fv.list.push_back(v); } }
  else fv.v.s = s;
  m.f.push_back(fv);
  Check(g, m);
  Mark(g, m, Xml(m));
}
static void Dense(G& g) {
  GenOpts o;
  o.cr = true;
  o.leaf_num = 9;
  o.leaf_den = 10;
  o.max_depth = 3;
  o.budget = 20;
  M m = GenTree(g, &Types()[g.enumerate(Types().size())], o);
  Check(g, m);
  Mark(g, m, Xml(m));
}
int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "P02",
    "Trees built through factory and setters with generated legal XML strings; non-trivial = the "
    "output needs escaping (contains a reference or CDATA); distinct by document.",
    {{"any_root", 100000, 1500000, AnyRoot, 0},
     {"one_string", 120000, 2000000, OneString, 0},
     {"dense", 60000, 1000000, Dense, 0}});
}
