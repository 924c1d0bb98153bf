// Documents using the old schema style, written from the ordinary documents they stand for.
#include "stylegen.h"
#include "mutate.h"
#include "kml/dom.h"
#include "kml/engine.h"
#include "kml/engine/old_schema_parser_observer.h"
#include "kml/engine/parse_old_schema.h"
#include "kml/engine/schema_parser_observer.h"
using namespace kg;
using namespace kmldom;
using pbt::G;

namespace {
struct Old { string name; std::vector<string> fields, gone; };  // gone: fields of earlier schemas only
string Ident(G& g) {
  static const char* n[] = {"S_park_S", "S_521_525_SSSSS", "Road", "xq", "Parcel.v1", "a-b", "Placemarks", "\xc3\xa9l\xc3\xa9ment"};
  string s = g.pick(n);
  if (g.flip()) s += std::to_string(g.draw(20));
  return s;
}
string FieldName(G& g) {
  static const char* n[] = {"Foo", "NAME", "OBJECTID", "len_m", "Name", "ID", "val", "f", "Foo2"};
  return g.pick(n);
}
string Text(G& g) {
  string s = GenString(g, g.draw(3) == 0);
  string t;
  for (char c : s) if (c != '\r') t += c;
  return t;
}
M GenSchema(G& g, const string& name, const std::vector<string>& fields) {
  M s; s.t = FindType("Schema");
  SetStr(&s, "name", name);
  for (auto& f : fields) {
    M sf; sf.t = FindType("SimpleField");
    SetStr(&sf, "name", f);
    if (g.flip()) SetStr(&sf, "type", g.flip() ? "string" : "wstring");
    if (g.draw(4) == 0) SetStr(&sf, "displayName", Text(g) + "x");
    Slot(&s, FieldNamed(s.t, "SimpleField"))->kids.push_back(sf);
  }
  return s;
}
string Attrs(const X& x) { string r; for (auto& kv : x.attrs) r += " " + kv.first + "=\"" + EscapeAttr(kv.second) + "\""; return r; }
string WriteText(G& g, const string& s) {
  if (s.find("]]>") == string::npos && !s.empty() && g.draw(4) == 0) return "<![CDATA[" + s + "]]>";
  return EscapeText(s);
}
int g_instances, g_values;
// One feature: its text, and what it stands for.
string Feature(G& g, const Old* old, X* want, int depth) {
  unsigned k = g.draw(depth > 0 ? 6 : 5);
  GenOpts o;
  o.budget = 1 + (int)g.draw(10);
  o.nasty = g.draw(4) == 0;
  o.ids = g.flip();
  if (k == 5) {
    *want = X("Folder"); want->kind = -2;
    string r = "<Folder>";
    for (size_t i = 0, n = g.draw(4); i < n; ++i) { X w; r += Feature(g, old, &w, depth - 1); want->kids.push_back(w); }
    return r + "</Folder>";
  }
  M m = GenTree(g, FindType("Placemark"), o);
  if (k >= 3 || !old) {
    // As usual, also when it has children named as the fields are.
    if (old && !old->fields.empty() && g.flip()) { X u(old->fields[0]); u.text = "kept"; m.unknown.push_back(u); }
    *want = Expect(m);
    return Xml(m);
  }
  ++g_instances;
  // A field of an earlier schema is nothing known here.
  if (!old->gone.empty() && g.draw(3) == 2) { X u(old->gone[g.draw(old->gone.size())]); u.text = "kept"; m.unknown.push_back(u); }
  X plain = Expect(m);
  std::vector<string> kids;
  for (auto& c : plain.kids) kids.push_back(Xml(c));
  M ed; ed.t = FindType("ExtendedData");
  M sd; sd.t = FindType("SchemaData");
  SetStr(&sd, "schemaUrl", old->name + "_id");
  size_t at = 0;
  for (size_t i = 0, n = old->fields.empty() ? 0 : g.draw(4); i < n; ++i) {
    string f = old->fields[g.draw(old->fields.size())], v = Text(g);
    M d; d.t = FindType("SimpleData");
    SetStr(&d, "name", f);
    for (auto x : d.t->fields) if (x->kind == K_TEXT && !v.empty()) Slot(&d, x)->v.s = v;
    Slot(&sd, FieldNamed(sd.t, "SimpleData"))->kids.push_back(d);
    at += g.draw(kids.size() - at + 1);
    kids.insert(kids.begin() + at, v.empty() && g.flip() ? "<" + f + "/>" : "<" + f + ">" + WriteText(g, v) + "</" + f + ">");
    ++at;
    ++g_values;
  }
  const kg::Field* edf = FieldNamed(m.t, "ExtendedData");
  FV* slot = Slot(&m, edf);
  if (slot->kids.empty()) slot->kids.push_back(ed);
  else if (strcmp(slot->kids[0].t->key, "ExtendedData") != 0) slot->kids[0] = ed;
  M& target = slot->kids[0];
  Slot(&target, FieldNamed(target.t, "SchemaData"))->kids.push_back(sd);
  *want = Expect(m);
  string r = "<" + old->name + Attrs(plain) + ">";
  for (auto& s : kids) { r += s; if (g.draw(5) == 0) r += "\n  "; }
  return r + "</" + old->name + ">";
}
void Documents(G& g) {
  g_instances = g_values = 0;
  string xml = "<Document>";
  X want("Document"); want.kind = -2;
  std::vector<X> schemas, features;
  Old cur; bool has = false;
  size_t olds = 0;
  for (size_t i = 0, n = 1 + g.many(8, 60); i < n; ++i) {
    unsigned k = i == 0 ? 0 : g.draw(8);
    if (k == 0) {
      std::vector<string> before = cur.fields;
      before.insert(before.end(), cur.gone.begin(), cur.gone.end());
      cur = Old{Ident(g) + std::to_string(olds++), {}, {}};
      for (size_t j = 0, m = g.draw(4); j < m; ++j) { string f = FieldName(g); if (std::find(cur.fields.begin(), cur.fields.end(), f) == cur.fields.end()) cur.fields.push_back(f); }
      for (auto& f : before) if (std::find(cur.fields.begin(), cur.fields.end(), f) == cur.fields.end()) cur.gone.push_back(f);
      has = true;
      M s = GenSchema(g, cur.name, cur.fields);
      X x = Expect(s);
      x.attrs["parent"] = "Placemark";
      string t = Xml(x);
      xml += t;
      x.attrs["id"] = cur.name + "_id";
      schemas.push_back(x);
    } else if (k == 1) {
      // A schema of today.
      M s = GenSchema(g, "new" + std::to_string(i), {FieldName(g)});
      if (g.draw(4)) SetStr(&s, "id", "id" + std::to_string(i));
      X x = Expect(s);
      xml += Xml(x);
      schemas.push_back(x);
    } else {
      X w;
      xml += Feature(g, has ? &cur : NULL, &w, 2);
      features.push_back(w);
    }
    if (g.draw(4) == 0) xml += "\n";
  }
  xml += "</Document>";
  want.kids = schemas;
  for (auto& f : features) want.kids.push_back(f);
  bool wrap = g.flip();
  if (wrap) { X k("kml"); k.kind = -2; k.kids.push_back(want); want = k; xml = "<kml>" + xml + "</kml>"; }
  g.note(xml);
  string errors;
  ElementPtr e = Parse(xml, &errors);
  CHECK_M(e, errors << " " << xml);
  X got;
  CHECK_M(ReadXml(Raw(e), &got, &errors), errors << Raw(e));
  string d = Diff(want, got);
  CHECK_M(d.empty(), d << " in " << xml << " gives " << Raw(e));
  // The result is ordinary: reading it again changes nothing but the declarations.
  if (!Raw(e).empty()) {
    string r = Raw(e), p;
    // Without the old attribute it stays as it is.
    for (size_t at; (at = r.find(" parent=\"Placemark\"")) != string::npos;) r.erase(at, 19);
    ElementPtr again = Parse(r, &errors);
    CHECK_M(again && Raw(again) == r, errors << r);
  }
  if (g_instances) { g.nontrivial(xml); g.sample(xml); }
  if (g_values > 1) g.label("several values");
  if (olds > 1) g.label("several schemas");
}
// The conversion functions and observers of the engine.
void Convert(G& g) {
  kmlengine::SchemaNameMap map;
  std::vector<string> names;
  for (size_t i = 0, n = g.draw(3); i < n; ++i) { string s = Ident(g); names.push_back(s); map[s] = KmlFactory::GetFactory()->CreateSchema(); }
  string tag = !names.empty() && g.draw(4) ? names[g.draw(names.size())] : Ident(g) + "z";
  GenOpts o; o.budget = 6;
  M m = GenTree(g, FindType("Placemark"), o);
  Drop(&m, "id"); Drop(&m, "targetId");
  X x = Expect(m);
  string inner;
  for (auto& k : x.kids) inner += Xml(k);
  string in = "<" + tag + ">" + inner + "</" + tag + ">" + (g.flip() ? "\n" : "");
  bool known = map.count(tag) != 0;
  unsigned damage = g.draw(6);
  if (damage == 0) { in = in.substr(0, in.rfind("</")); known = false; }
  if (damage == 1) { in = "x" + in; known = false; }
  if (damage == 2) { in = ""; known = false; }
  g.note(in);
  string out = "before";
  CHECK_EQM(kmlengine::ConvertOldSchema(in, map, &out), known, in);
  CHECK_M(!kmlengine::ConvertOldSchema(in, map, NULL), in);
  string errors;
  PlacemarkPtr p = kmlengine::ParseOldSchema(in, map, &errors);
  CHECK_EQM((bool)p, known, in << errors);
  if (!known) { CHECK_EQM(out, string("before"), in); return; }
  CHECK_EQM(out, "<Placemark>" + inner + "</Placemark>", in);
  string d = CheckDom(m, p);
  CHECK_M(d.empty(), d << " " << in);
  if (inner.size() > 20) { g.nontrivial(in); g.sample(in); }
}
void Observers(G& g) {
  string name = Ident(g) + "q";
  string xml = "<kml><Document><Schema name=\"" + name + "\"><SimpleField name=\"Foo\"/></Schema>";
  // The last of several schemas with the name counts.
  size_t again = g.draw(4) ? 0 : 1 + g.draw(2);
  for (size_t i = 0; i < again; ++i) xml += "<Schema name=\"" + name + "\">" + (g.flip() ? "<SimpleField name=\"Bar\"/>" : "") + "</Schema>";
  if (g.draw(4) == 0) xml += "<Schema id=\"nameless\"/>";
  std::vector<M> ordinary, converted;
  for (size_t i = 0, n = g.many(5, 40); i < n; ++i) {
    GenOpts o; o.budget = 4; o.nasty = g.draw(4) == 0;
    M m = GenTree(g, FindType("Placemark"), o);
    Drop(&m, "id"); Drop(&m, "targetId");
    X x = Expect(m);
    bool conv = g.flip();
    string tag = conv ? name : "Placemark";
    string in = "<" + tag + ">";
    for (auto& k : x.kids) in += Xml(k);
    xml += in + "</" + tag + ">";
    (conv ? converted : ordinary).push_back(m);
  }
  xml += "</Document></kml>";
  g.note(xml);
  kmlengine::SchemaNameMap map;
  kmlengine::SchemaParserObserver so(&map);
  kmlengine::OldSchemaParserObserver oo(map);
  Parser parser;
  parser.AddObserver(&so);
  parser.AddObserver(&oo);
  string errors;
  KmlPtr k = AsKml(parser.Parse(xml, &errors));
  CHECK_M(k, errors << xml);
  DocumentPtr doc = AsDocument(k->get_feature());
  CHECK_M(doc && map.size() == 1 && map.count(name) && map[name] == doc->get_schema_array_at(again), xml);
  CHECK_EQM(doc->get_feature_array_size(), ordinary.size() + converted.size(), xml);
  for (size_t i = 0; i < ordinary.size() + converted.size(); ++i) {
    string d = CheckDom(i < ordinary.size() ? ordinary[i] : converted[i - ordinary.size()], doc->get_feature_array_at(i));
    CHECK_M(d.empty(), d << " " << xml);
  }
  if (!converted.empty()) { g.nontrivial(xml); g.sample(xml); }
}
void Misuse(G& g) {
  string xml = TagSoup(g, 40, true);
  if (g.draw(4) == 0) xml = MutateBytes(g, xml, 4);
  g.note(xml);
  ElementPtr e = Parse(xml, NULL);
  if (e) {
    string raw = Raw(e), errors;
    X x;
    CHECK_M(ReadXml(raw, &x, &errors), errors << " " << raw << " from " << xml);
    g.nontrivial(xml);
  }
}
}  // namespace

int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "P38", "a document with an instance of an old schema, a converted element, a misuse that is read",
                   {{"documents", 24000, 800000, Documents, 0},
                    {"convert", 16000, 500000, Convert, 0},
                    {"observers", 12000, 400000, Observers, 0},
                    {"misuse", 16000, 500000, Misuse, 0}});
}
