// The type system: kinds, names, identifiers, casts and enumerations.
#include <limits.h>
#include <string.h>
#include <set>
#include "kmlgen.h"
#include "mutate.h"
#include "kml/dom/kml_cast.h"
#include "kml/dom/xsd.h"
using namespace kg;
using pbt::G;
using namespace kmldom;

namespace {
struct Cast { const char* cls; const void* (*fn)(const ElementPtr&); };
#define CAST(C) {#C, [](const ElementPtr& e) -> const void* { const C##Ptr p = As##C(e); return p ? static_cast<const Element*>(p.get()) : NULL; }},
const Cast kCasts[] = {
#include "casts.inc"
};
const size_t kN = sizeof kCasts / sizeof kCasts[0];
struct Abs { int id; const char* cls; };
const Abs kAbstract[] = {
  {Type_ColorStyle, "ColorStyle"}, {Type_Container, "Container"}, {Type_Feature, "Feature"}, {Type_Geometry, "Geometry"},
  {Type_AbstractLatLonBox, "AbstractLatLonBox"}, {Type_Object, "Object"}, {Type_Overlay, "Overlay"}, {Type_StyleSelector, "StyleSelector"},
  {Type_SubStyle, "SubStyle"}, {Type_TimePrimitive, "TimePrimitive"}, {Type_AbstractView, "AbstractView"}, {Type_BasicLink, "BasicLink"}, {Type_Vec2, "Vec2"}};
const Xsd& S() { return *Xsd::GetSchema(); }
ElementPtr Make(G& g, const TypeDef* t, string* how) {
  switch (g.draw(4)) {
    case 0: *how = "factory method"; return t->create();
    case 1: *how = "CreateElementById"; return KmlFactory::GetFactory()->CreateElementById((KmlDomType)t->type_id);
    case 2:
      if (!strcmp(t->key, "IconStyleIcon")) return t->create();
      *how = "CreateElementFromName";
      return KmlFactory::GetFactory()->CreateElementFromName(t->tag);
    default:
      if (!strcmp(t->key, "IconStyleIcon")) return t->create();
      *how = "Parse";
      return kmldom::Parse(string("<") + t->tag + "/>", NULL);
  }
}
void Casts(G& g) {
  uint64_t i = g.enumerate(Types().size() * kN);
  const TypeDef* t = &Types()[i / kN];
  const Cast& c = kCasts[i % kN];
  string how;
  ElementPtr e = Make(g, t, &how);
  CHECK_M(e, how << " gives no " << t->key);
  CHECK_EQM((int)e->Type(), t->type_id, how << " of " << t->key);
  bool want = IsA(t, c.cls);
  const void* p = c.fn(e);
  CHECK_M((p != NULL) == want, "As" << c.cls << " of " << t->key << (want ? " is refused" : " is granted"));
  if (p) CHECK_M(p == static_cast<const void*>(e.get()), "As" << c.cls << " returns another element");
  CHECK_M(!c.fn(NULL), "As" << c.cls << " of nothing");
  g.label(want ? "cast granted" : "cast refused");
  g.nontrivial(string(t->key) + c.cls + how);
}
void Kinds(G& g) {
  uint64_t i = g.enumerate(Types().size() * Type_Invalid);
  const TypeDef* t = &Types()[i / Type_Invalid];
  int id = (int)(i % Type_Invalid);
  string how;
  ElementPtr e = Make(g, t, &how);
  CHECK_M(e, how << " gives no " << t->key);
  bool want = false, sure = true;
  if (const TypeDef* u = TypeById(id)) want = IsA(t, u->cls);
  else for (auto& a : kAbstract) if (a.id == id) want = IsA(t, a.cls);
  if (!TypeById(id) && S().ElementType(id) == XSD_COMPLEX_TYPE) {  // groups without a class of their own
    sure = false;
    for (auto& a : kAbstract) if (a.id == id) sure = true;
  }
  if (sure) CHECK_M(e->IsA((KmlDomType)id) == want, t->key << " IsA(" << S().ElementName(id) << ") is " << !want);
  CHECK_M(e->IsA((KmlDomType)t->type_id), t->key << " is not itself");
  g.nontrivial(i);
}
void Ids(G& g) {
  int id = (int)g.enumerate(Type_Invalid);
  if (id == Type_Unknown) {
    CHECK_EQ(S().ElementName(id), string());
    CHECK_T(S().ElementType(id) == XSD_UNKNOWN);
    g.nontrivial((uint64_t)0);
    return;
  }
  string n = S().ElementName(id);
  CHECK_M(!n.empty(), "identifier " << id << " has no name");
  if (id != Type_IconStyleIcon) CHECK_EQM(S().ElementId(n), id, n);
  else CHECK_EQM(S().ElementId(n), (int)Type_Icon, n);
  CHECK_M(S().ElementType(id) != XSD_UNKNOWN, n << " has no type");
  // Complex kinds are created as elements, simple ones become fields of that kind.
  ElementPtr e = KmlFactory::GetFactory()->CreateElementById((KmlDomType)id);
  if (TypeById(id)) CHECK_M(e && e->Type() == id, n << " cannot be created");
  if (e) CHECK_EQM((int)e->Type(), id, n);
  ElementPtr f = KmlFactory::GetFactory()->CreateFieldById((KmlDomType)id);
  CHECK_EQM((int)f->Type(), id, n);
  if (S().ElementType(id) == XSD_SIMPLE_TYPE) {
    ElementPtr p = kmldom::Parse("<" + n + "/>", NULL);
    CHECK_M(p && p->Type() == id, "<" << n << "/> is not read as such");
  }
  for (int bad : {-1, INT_MIN, INT_MAX, (int)Type_Invalid, (int)Type_Invalid + 1}) {
    CHECK_EQ(S().ElementName(bad), string());
    CHECK_T(S().ElementType(bad) == XSD_UNKNOWN);
  }
  g.nontrivial((uint64_t)id);
}
void Fields(G& g) {  // every vocabulary name of the standard has an identifier
  static std::vector<string> tags;
  if (tags.empty()) {
    std::set<string> s;
    for (auto& t : Types()) {
      s.insert(t.tag);
      for (auto f : t.fields) if (!f->attr && !f->group && f->kind != K_TEXT && f->kind != K_COORDS) s.insert(f->xml);
    }
    tags.assign(s.begin(), s.end());
  }
  const string& n = tags[g.enumerate(tags.size())];
  int id = S().ElementId(n);
  CHECK_M(id > Type_Unknown && id < Type_Invalid, n << " is not known");
  CHECK_EQ(S().ElementName(id), n);
  bool complex = false;
  for (auto& t : Types()) if (n == t.tag) complex = true;
  CHECK_M((S().ElementType(id) == XSD_COMPLEX_TYPE) == complex, n << " has the wrong type");
  g.nontrivial(n);
}
void Names(G& g) {
  static std::set<string>* known = NULL;
  if (!known) {
    known = new std::set<string>;
    for (int i = 1; i < Type_Invalid; ++i) known->insert(S().ElementName(i));
    known->insert("IconStyleIcon");
    known->insert("<Unknown>");
  }
  string n = AllTags()[g.draw(AllTags().size())];
  const string orig = n;
  size_t k = g.draw(8);
  if (k == 6 && !n.empty()) n[g.draw(n.size())] = (char)('a' + g.draw(26));
  if (k == 7 && !n.empty()) n[n.size() - 1 - g.draw(std::min<size_t>(n.size(), 3))] = (char)('a' + g.draw(26));
  if (k == 0) n = GenPlain(g);
  if (k == 1) n = GenString(g, true);
  if (k == 2) n = n.substr(g.draw(n.size()));
  if (k == 3) n += (char)g.range(1, 126);
  if (k == 4 && !n.empty()) n[g.draw(n.size())] ^= 32;
  if (k == 5) n += string(1, '\0') + n;
  if (known->count(n)) throw pbt::Discard();
  // One lookup does not depend on the one before.
  int before = S().ElementId(orig);
  if (known->count(orig)) CHECK_EQ(S().ElementName(before), orig);
  CHECK_M(S().ElementId(n) == Type_Unknown, "[" << n << "] is taken for " << S().ElementName(S().ElementId(n)));
  CHECK_T(!KmlFactory::GetFactory()->CreateElementFromName(n));
  CHECK_EQ(S().ElementId(orig), before);
  g.nontrivial(n);
}
// Enumerations: the API, and the elements and attributes which hold them.
std::vector<std::pair<const TypeDef*, const kg::Field*>>& EnumFields() {
  static std::vector<std::pair<const TypeDef*, const kg::Field*>> v;
  if (v.empty()) for (auto& t : Types()) for (auto f : t.fields) if (f->kind == K_ENUM) v.push_back({&t, f});
  return v;
}
int EnumType(const char* name) { return S().ElementId(name); }
void EnumApi(G& g) {
  const EnumDef& d = Enums()[g.enumerate(Enums().size())];
  int id = EnumType(d.name);
  int n = (int)d.values.size();
  for (int i = 0; i < n; ++i) {
    CHECK_EQM(S().EnumId(id, d.values[i]), i, d.name);
    CHECK_EQM(S().EnumValue(id, i), string(d.values[i]), d.name);
  }
  int bad = g.draw(2) ? n + (int)g.draw(5) : g.draw(2) ? -1 - (int)g.draw(3) : (int)g.pick({INT_MAX, INT_MIN, 1000, 65536});
  CHECK_EQM(S().EnumValue(id, bad), string(), d.name << " value " << bad);
  string s = d.values[g.draw(n)];
  size_t k = g.draw(6);
  if (k == 0) s = GenString(g, true);
  if (k == 1) s += GenPlain(g);
  if (k == 2) s = s.substr(0, g.draw(s.size()));
  if (k == 3) s[0] ^= 32;
  if (k == 4) s = " " + s;
  if (k == 5) { const EnumDef& o = Enums()[g.draw(Enums().size())]; s = o.values[g.draw(o.values.size())]; }
  int want = -1;
  for (int i = 0; i < n; ++i) if (s == d.values[i]) want = i;
  CHECK_EQM(S().EnumId(id, s), want, d.name << " [" << s << "]");
  // A kind that is no enumeration has no values.
  CHECK_EQ(S().EnumId(Type_name, d.values[0]), -1);
  CHECK_EQ(S().EnumValue(Type_name, 0), string());
  g.nontrivial(string(d.name) + s + std::to_string(bad));
}
void EnumField(G& g) {
  auto p = EnumFields()[g.enumerate(EnumFields().size())];
  const kg::Field* f = p.second;
  const EnumDef* d = FindEnum(f->arg);
  string tag = p.first->tag, s = d->values[g.draw(d->values.size())];
  size_t k = g.draw(6);
  if (k == 1) s += GenPlain(g, 3);
  if (k == 2) s = s.substr(0, s.size() - 1);
  if (k == 3) { const EnumDef& o = Enums()[g.draw(Enums().size())]; s = o.values[g.draw(o.values.size())]; }
  if (k == 4) s[0] ^= 32;
  string xml = f->attr ? "<" + tag + " " + f->xml + "=\"" + s + "\"/>" : "<" + tag + "><" + f->xml + ">" + s + "</" + f->xml + "></" + tag + ">";
  g.note(xml);
  ElementPtr e = kmldom::Parse(xml, NULL);
  CHECK_M(e, "rejected");
  if (!strcmp(p.first->key, "IconStyleIcon")) throw pbt::Discard();
  int want = -1;
  for (size_t i = 0; i < d->values.size(); ++i) if (s == d->values[i]) want = (int)i;
  CHECK_EQM(f->has(e.get()), want >= 0, xml);
  Val v;
  f->get(e.get(), v);
  if (want >= 0) CHECK_EQM(v.i, want, xml);
  else { Val w; ElementPtr fresh = p.first->create(); f->get(fresh.get(), w); CHECK_EQM(v.i, w.i, xml << ": an unknown value changes the field"); }
  // And back out again.
  if (want >= 0) CHECK_M(Raw(e).find(s) != string::npos, Raw(e));
  g.nontrivial(xml);
}
// Values outside an enumeration never reach the output as garbage.
void EnumOut(G& g) {
  auto p = EnumFields()[g.enumerate(EnumFields().size())];
  const kg::Field* f = p.second;
  int n = (int)FindEnum(f->arg)->values.size();
  Val v;
  v.i = g.draw(2) ? n + (int)g.draw(4) : (int)g.pick({-1, INT_MAX, INT_MIN, 77});
  ElementPtr e = p.first->create();
  f->set(e.get(), v);
  string raw = Raw(e);
  g.note(raw);
  for (auto& d : Enums()) for (auto s : d.values) if (strlen(s) > 4) CHECK_M(raw.find(s) == string::npos, "value " << v.i << " of " << f->xml << " is written as " << raw);
  X x;
  string err;
  CHECK_M(ReadXml(raw, &x, &err), raw << " " << err);
  g.nontrivial(string(p.first->key) + f->xml + std::to_string(v.i));
}
}  // namespace
int main(int argc, char** argv) {
  long a = (long)(Types().size() * kN), b = (long)(Types().size() * Type_Invalid);
  return pbt::Main(argc, argv, "P10",
    "Every (kind, cast) and (kind, identifier) pair against the class hierarchy of KML, every identifier and name, every enumeration value, plus generated names and values; "
    "non-trivial = every decided pair or name; distinct by pair and way of creation.",
    {{"casts", a * 4, a * 20, Casts, 0},
     {"kinds", b, b * 4, Kinds, 0},
     {"ids", Type_Invalid, Type_Invalid * 2, Ids, 0},
     {"vocabulary", 1000, 1000, Fields, 0},
     {"names", 30000, 800000, Names, 0},
     {"enum_api", 14000, 300000, EnumApi, 0},
     {"enum_field", 20000, 400000, EnumField, 0},
     {"enum_out", 10000, 100000, EnumOut, 0}});
}
