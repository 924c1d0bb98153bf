#include <sstream>
#include "mutate.h"
#include "kml/dom/kml_cast.h"
#include "kml/dom/parser.h"
#include "kml/dom/parser_observer.h"
#include "kml/dom/visitor.h"
#include "kml/dom/visitor_driver.h"
#include "kml/dom/stats_serializer.h"
#include "kml/engine.h"
#include "kml/engine/find_xml_namespaces.h"
#include "kml/engine/kml_stream.h"
#include "kml/engine/parse_old_schema.h"
#include "kml/engine/schema_parser_observer.h"
#include "kml/engine/get_link_parents.h"
using namespace kg;
using pbt::G;

namespace {
struct Count : public kmldom::Visitor {
  size_t n;
  Count() : n(0) {}
  virtual void VisitElement(const ElementPtr&) { ++n; }
};
struct Obs : public kmldom::ParserObserver {
  int veto, n, mode;
  size_t seen;
  Obs(int v, int m) : veto(v), n(0), mode(m), seen(0) {}
  bool Step(int m) { if (m != mode) return true; return n++ != veto; }
  virtual bool NewElement(const ElementPtr& e) { seen += e->Type(); return Step(0); }
  virtual bool EndElement(const ElementPtr& p, const ElementPtr& c) { seen += p->Type() + c->Type(); return Step(1); }
  virtual bool AddChild(const ElementPtr& p, const ElementPtr& c) { seen += p->Type() + c->get_char_data().size(); return Step(2); }
};
void Use(const ElementPtr& e) {
  if (!e) return;
  string a = kmldom::SerializeRaw(e), b = kmldom::SerializePretty(e);
  ElementPtr c = kmlengine::Clone(e);
  if (c) kmldom::SerializeRaw(c);
  Count v;
  kmldom::SimplePreorderDriver d(&v);
  d.Visit(e);
  kmldom::SimplePostorderDriver pd(&v);
  pd.Visit(e);
  kmldom::StatsSerializer st;
  e->Serialize(st);
  kmldom::GetElementName(e);
}
void UseFile(kmlengine::KmlFile* f) {
  if (!f) return;
  kmlengine::KmlFilePtr p(f);
  string s;
  p->SerializeToString(&s);
  std::ostringstream os;
  p->SerializeToOstream(&os);
  p->GetObjectById("a");
  p->GetSharedStyleById("a");
  p->CreateXmlHeader();
  Use(p->get_root());
}
void All(G& g, const string& xml, int which) {
  string err;
  string* errp = g.flip() ? &err : NULL;
  bool ok = false;
  switch (which) {
    case 0: { ElementPtr e = kmldom::Parse(xml, errp); ok = e != NULL; Use(e); break; }
    case 1: { ElementPtr e = kmldom::ParseNS(xml, errp); ok = e != NULL; Use(e); break; }
    case 2: { ElementPtr e = kmldom::ParseAtom(xml, errp); ok = e != NULL; Use(e); break; }
    case 3: { kmlengine::KmlFile* f = kmlengine::KmlFile::CreateFromParse(xml, errp); ok = f != NULL; UseFile(f); break; }
    case 4: {
      std::istringstream is(xml);
      Obs o((int)g.range(0, 30), (int)g.draw(4));
      kmlengine::KmlStream* s = kmlengine::KmlStream::ParseFromIstream(&is, errp, g.flip() ? &o : NULL);
      if (s) { ok = true; Use(s->get_root()); delete s; }
      break;
    }
    case 5: {
      kmldom::Parser p;
      size_t n = 1 + g.size(2);
      std::vector<Obs> o;
      for (size_t i = 0; i < n; ++i) o.push_back(Obs((int)g.range(0, 30), (int)g.draw(4)));
      for (auto& x : o) p.AddObserver(&x);
      ElementPtr e = p.Parse(xml, errp);
      ok = e != NULL;
      Use(e);
      break;
    }
    case 6: {
      kmlengine::href_vector_t h;
      ok = kmlengine::GetLinks(xml, &h);
      kmlengine::ElementVector v;
      kmlengine::GetLinkParents(xml, &v);
      break;
    }
    case 7: {
      kmlengine::SchemaNameMap m;
      kmlengine::SchemaParserObserver so(&m);
      kmldom::Parser p;
      p.AddObserver(&so);
      p.Parse(xml, errp);
      string out;
      kmlengine::ConvertOldSchema(xml, m, &out);
      Use(kmlengine::ParseOldSchema(xml, m, errp));
      break;
    }
    case 8: { ElementPtr e = kmlengine::SplitStyles(xml, errp); ok = e != NULL; Use(e); break; }
    case 9: { ElementPtr e = kmlengine::InlineStyles(xml, errp); ok = e != NULL; Use(e); break; }
    default: {
      kmlengine::KmlFile* f = kmlengine::KmlFile::CreateFromStringWithUrl(xml, "http://h/a.kml", NULL);
      ok = f != NULL;
      UseFile(f);
    }
  }
  g.label(ok ? "accepted" : "rejected");
  static const char* names[] = {"Parse", "ParseNS", "ParseAtom", "KmlFile", "KmlStream", "observers", "GetLinks", "old schema", "SplitStyles", "InlineStyles", "KmlFile+url"};
  g.label(string("via ") + names[which]);
  if (xml.find('<') != string::npos && xml.size() > 12) g.nontrivial(xml);
}
void Valid(G& g) {
  GenOpts o;
  o.budget = 12;
  M m = GenTree(g, g.flip() ? FindType("kml") : PickRoot(g), o);
  string xml = Render(g, m, RenderOpts());
  if (g.draw(6)) xml = MutateBytes(g, xml, 6);
  g.note(xml);
  g.sample(xml);
  All(g, xml, (int)g.draw(11));
}
void Soups(G& g) {
  string xml = TagSoup(g, (int)g.range(1, 25), false);
  if (g.draw(4) == 3) xml = MutateBytes(g, xml, 4);
  g.note(xml);
  g.sample(xml);
  All(g, xml, (int)g.draw(11));
}
void Old(G& g) {
  string xml = TagSoup(g, (int)g.range(1, 15), true);
  if (g.draw(4) == 3) xml = MutateBytes(g, xml, 4);
  g.note(xml);
  g.sample(xml);
  All(g, xml, (int)g.draw(11));
}
void Fields(G& g) {  // one field of one type with hostile text
  static std::vector<std::pair<const TypeDef*, const Field*>> all;
  if (all.empty()) for (auto& t : Types()) for (auto f : t.fields) if (f->kind != K_ELEM && f->kind != K_ELEMS) all.push_back({&t, f});
  auto p = all[g.enumerate(all.size())];
  string t = p.first->tag, v = HostileText(g), xml;
  if (p.second->attr) {
    string a;
    for (char c : v) if (c != '<' && c != '"') a += c;
    xml = "<" + t + " " + p.second->xml + "=\"" + a + "\"/>";
  } else if (p.second->kind == K_TEXT || p.second->kind == K_COORDS) {
    xml = "<" + t + ">" + v + "</" + t + ">";
  } else {
    string f = p.second->xml;
    size_t n = 1 + g.size(2);
    xml = "<" + t + ">";
    for (size_t i = 0; i < n; ++i) { xml += "<" + f + ">" + v + "</" + f + ">"; v = HostileText(g); }
    xml += "</" + t + ">";
  }
  g.note(xml);
  All(g, xml, (int)g.draw(11));
}
void Deep(G& g) {
  size_t n = 90 + g.draw(25);
  if (g.draw(10) == 9) n = 1000 + g.draw(20000);
  static const char* t[] = {"Folder", "Document", "MultiGeometry", "foo", "description", "kml", "Placemark", "name"};
  string a, b;
  std::vector<string> st;
  for (size_t i = 0; i < n; ++i) {
    string x = g.draw(30) ? "Folder" : t[g.draw(8)];
    a += "<" + x + ">";
    st.push_back(x);
  }
  for (; !st.empty(); st.pop_back()) b += "</" + st.back() + ">";
  string mid = g.flip() ? "<Folder/>" : g.flip() ? "<x/>" : HostileText(g);
  string xml = a + mid + (g.draw(6) ? b : b.substr(0, g.draw(b.size() + 1)));
  g.note(xml);
  All(g, xml, (int)g.draw(11));
}
void Bytes(G& g) {
  string s;
  size_t n = g.draw(60);
  for (size_t i = 0; i < n; ++i) s += g.draw(2) ? (char)g.draw(256) : "<>/=\"'& kmlPK\x03\x04"[g.draw(16)];
  if (g.draw(4) == 3) s = "PK\x03\x04" + s;
  g.note(s);
  All(g, s, (int)g.draw(11));
}
}  // namespace
int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "P04",
    "Mutated valid documents, tag soup over the whole vocabulary, hostile field values, deep nesting and raw bytes through "
    "eleven entry points under ASan+UBSan with leak accounting; non-trivial = at least 13 bytes containing markup; distinct by input.",
    {{"mutated", 26000, 1000000, Valid, pbt::kLeak},
     {"soup", 26000, 1000000, Soups, pbt::kLeak},
     {"old_schema", 20000, 700000, Old, pbt::kLeak},
     {"fields", 26000, 700000, Fields, pbt::kLeak},
     {"deep", 2000, 60000, Deep, pbt::kLeak},
     {"bytes", 20000, 800000, Bytes, pbt::kLeak}});
}
