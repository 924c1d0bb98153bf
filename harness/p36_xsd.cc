// XSD reading against the model a schema was written from.
#include <memory>
#include <set>
#include "kmlgen.h"
#include "mutate.h"
#include "kml/xsd/xsd_complex_type.h"
#include "kml/xsd/xsd_element.h"
#include "kml/xsd/xsd_file.h"
#include "kml/xsd/xsd_primitive_type.h"
#include "kml/xsd/xsd_simple_type.h"
#include "kml/xsd/xsd_util.h"
#include "kml/xsd/xst_parser.h"
using namespace kg;
using namespace kmlxsd;
using pbt::G;

namespace {
struct El { string name, type, def, subst; bool abstract, ref; };
struct Ty { bool complex; string name, base; std::vector<El> seq; std::vector<string> enums; };
struct Schema { string prefix, ns; std::vector<El> els; std::vector<Ty> types; bool cyclic; };

const char* kPrim[] = {"string", "boolean", "decimal", "float", "double", "duration", "dateTime", "time", "date", "gYearMonth", "gYear", "gMonthDay", "gDay", "gMonth", "hexBinary", "base64Binary", "anyURI", "integer", "long", "int"};
bool Prim(const string& s) { for (auto p : kPrim) if (s == p) return true; return false; }

string TypeRef(G& g, const Schema& s) {
  switch (g.draw(10)) {
    case 0: case 1: case 2: return g.pick(kPrim);
    case 3: return "other:" + string(g.flip() ? "T0" : "string");
    case 4: return s.prefix + ":none";
    case 5: return s.types.empty() ? "T0" : s.types[g.draw(s.types.size())].name;   // not qualified
    default: return s.types.empty() ? s.prefix + ":T0" : s.prefix + ":" + s.types[g.draw(s.types.size())].name;
  }
}
El GenEl(G& g, const Schema& s, const string& name) {
  El e = {name, "", "", "", false, false};
  if (g.draw(8)) e.type = TypeRef(g, s);
  if (g.draw(4) == 0) e.abstract = true;
  if (g.draw(4) == 0) e.def = GenPlain(g);
  if (g.draw(4) == 0) e.subst = s.prefix + ":E" + std::to_string(g.draw(5));
  return e;
}
Schema GenSchema(G& g) {
  Schema s;
  static const char* prefixes[] = {"kml", "k", "foo", "kml2"};
  s.prefix = g.pick(prefixes);
  s.ns = g.flip() ? "http://www.opengis.net/kml/2.2" : "a:b:c";
  s.cyclic = g.draw(5) == 0;
  size_t nt = g.many(7, 60), ne = g.many(8, 60);
  bool chain = g.draw(8) == 7;  // long lines of descent
  if (chain) nt = g.draw(40) == 39 ? g.range(33, 60) : g.range(4, 30);
  for (size_t i = 0; i < nt; ++i) {
    Ty t; t.complex = g.draw(chain ? 20 : 3) != 0; t.name = "T" + std::to_string(i);
    if (g.draw(6) == 0) t.name = "E" + std::to_string(i);   // a name elements use too
    s.types.push_back(t);
  }
  for (size_t i = 0; i < nt; ++i) {
    Ty& t = s.types[i];
    if (t.complex) {
      if (chain && i + 1 < nt && g.draw(20)) t.base = s.prefix + ":" + s.types[i + 1].name;
      else if (g.draw(3)) {
        // Down the list, or anywhere when cycles are wanted.
        size_t lo = s.cyclic ? 0 : i + 1;
        switch (g.draw(8)) {
          case 0: t.base = s.prefix + ":none"; break;
          case 1: t.base = "other:T1"; break;
          case 2: t.base = "string"; break;
          default: if (lo < nt) t.base = s.prefix + ":" + s.types[lo + g.draw(nt - lo)].name; break;
        }
      }
      for (size_t k = 0, n = g.draw(4); k < n; ++k) {
        if (g.draw(3)) { El e = {"", "", "", "", false, true}; e.name = (g.draw(6) ? s.prefix : string("other")) + ":E" + std::to_string(g.draw(ne + 1)); t.seq.push_back(e); }
        else t.seq.push_back(GenEl(g, s, "L" + std::to_string(g.draw(5))));
      }
    } else {
      t.base = g.draw(3) ? "string" : g.flip() ? "double" : s.prefix + ":T0";
      for (size_t k = 0, n = g.draw(4); k < n; ++k) t.enums.push_back(g.draw(6) ? GenPlain(g) : g.flip() ? "" : "with <odd> & \"text\"");
    }
  }
  for (size_t i = 0; i < ne; ++i) s.els.push_back(GenEl(g, s, "E" + std::to_string(i)));
  // The order of declaration does not matter.
  for (size_t i = s.types.size(); i > 0; --i) std::swap(s.types[i - 1], s.types[g.draw(i)]);
  for (size_t i = s.els.size(); i > 0; --i) std::swap(s.els[i - 1], s.els[g.draw(i)]);
  return s;
}
string A(const char* n, const string& v) { return v.empty() ? "" : string(" ") + n + "=\"" + EscapeAttr(v) + "\""; }
string Note(G& g) { return g.draw(5) ? "" : "<annotation><documentation>text <element/> here</documentation></annotation>"; }
// An anonymous type: its content belongs to no declared type.
string Anonymous(G& g) {
  switch (g.draw(3)) {
    case 0: return "<complexType><sequence><element name=\"inner\" type=\"string\"/></sequence></complexType>";
    case 1: return "<simpleType><restriction base=\"string\"><enumeration value=\"inner\"/></restriction></simpleType>";
    default: return "<complexType><complexContent><extension base=\"kml:Inner\"><sequence><element name=\"a\"><complexType/></element></sequence></extension></complexContent></complexType>";
  }
}
string ElXml(G& g, const El& e, bool anon) {
  if (e.ref) return "<element" + A("ref", e.name) + (g.flip() ? " minOccurs=\"0\" maxOccurs=\"unbounded\"" : "") + "/>";
  string r = "<element" + A("name", e.name) + A("type", e.type) + A("default", e.def) + A("substitutionGroup", e.subst);
  if (e.abstract) r += g.flip() ? " abstract=\"true\"" : " abstract=\"1\""; else if (g.draw(5) == 0) r += " abstract=\"false\"";
  if (anon && e.type.empty() && g.flip()) return r + ">" + Note(g) + Anonymous(g) + "</element>";
  return g.flip() ? r + "/>" : r + ">" + Note(g) + "</element>";
}
string TyXml(G& g, const Ty& t, bool anon) {
  if (!t.complex) {
    string r = "<simpleType" + A("name", t.name) + ">" + Note(g) + "<restriction" + A("base", t.base) + ">";
    for (auto& e : t.enums) r += "<enumeration value=\"" + EscapeAttr(e) + "\"/>";
    return r + "<minLength value=\"1\"/></restriction></simpleType>";
  }
  string seq;
  for (auto& e : t.seq) seq += ElXml(g, e, anon);
  string tag = g.draw(4) ? "sequence" : g.flip() ? "choice" : "all";
  seq = "<" + tag + ">" + seq + "</" + tag + ">";
  if (g.draw(4) == 0) seq += "<attributeGroup ref=\"kml:g\"/><attribute name=\"id\" type=\"ID\"/>";
  if (!t.base.empty()) seq = "<complexContent><extension" + A("base", t.base) + ">" + seq + "</extension></complexContent>";
  return "<complexType" + A("name", t.name) + (g.draw(5) ? "" : " abstract=\"true\"") + ">" + Note(g) + seq + "</complexType>";
}
string Write(G& g, const Schema& s) {
  string r = "<schema xmlns=\"http://www.w3.org/2001/XMLSchema\" xmlns:other=\"u:o\" xmlns:" + s.prefix + "=\"" + s.ns + "\" targetNamespace=\"" + s.ns + "\" version=\"1\">";
  if (g.flip()) r += "<import namespace=\"u:o\" schemaLocation=\"x.xsd\"/><attribute name=\"n\" type=\"string\"/>";
  bool anon = g.flip();
  std::vector<string> parts;
  for (auto& t : s.types) parts.push_back(TyXml(g, t, anon));
  for (auto& e : s.els) parts.push_back(ElXml(g, e, anon));
  for (size_t i = parts.size(); i > 0; --i) std::swap(parts[i - 1], parts[g.draw(i)]);
  for (auto& p : parts) r += Note(g) + p + (g.draw(3) ? "" : "\n");
  return r + "</schema>";
}
const Ty* FindTy(const Schema& s, const string& n) { for (auto& t : s.types) if (t.name == n) return &t; return NULL; }
const El* FindEl(const Schema& s, const string& n) { for (auto& e : s.els) if (e.name == n) return &e; return NULL; }
// The local name if the qualified one is in the target namespace.
bool Local(const Schema& s, const string& q, string* n) {
  if (q.compare(0, s.prefix.size() + 1, s.prefix + ":") != 0 || q.size() == s.prefix.size() + 1) return false;
  *n = q.substr(s.prefix.size() + 1);
  return true;
}
const Ty* Resolve(const Schema& s, const string& q) { string n; return Local(s, q, &n) ? FindTy(s, n) : NULL; }
const Ty* Base(const Schema& s, const Ty* t) { const Ty* b = t->base.empty() ? NULL : Resolve(s, t->base); return b && b->complex ? b : NULL; }
bool Derives(const Schema& s, const Ty* t, const Ty* from) {
  std::set<const Ty*> seen;
  while (t && seen.insert(t).second) { if (t == from) return true; t = Base(s, t); }
  return false;
}
void CheckEl(const XsdElementPtr& x, const El& e, const string& how) {
  CHECK_M(x, how);
  CHECK_EQM(x->get_name(), e.name, how);
  CHECK_EQM(x->is_ref(), e.ref, how);
  CHECK_EQM(x->get_type(), e.type, how);
  CHECK_EQM(x->get_default(), e.def, how);
  CHECK_EQM(x->get_substitution_group(), e.subst, how);
  CHECK_EQM(x->is_abstract(), e.abstract, how);
  CHECK_EQM(x->is_primitive(), Prim(e.type), how);
  if (Prim(e.type)) CHECK_EQM(XsdPrimitiveType::GetTypeName(x->get_type_id()), e.type, how);
}
string Names(const XsdElementVector& v) { string r; for (auto& e : v) r += (e ? e->get_name() : string("?")) + " "; return r; }

void Schemas(G& g) {
  Schema s = GenSchema(g);
  string xml = Write(g, s), how = xml, errors;
  g.note(how);
  std::unique_ptr<XsdFile> f(XsdFile::CreateFromParse(xml, &errors));
  CHECK_M(f.get(), errors << how);
  CHECK_EQM(f->get_target_namespace(), s.ns, how);
  CHECK_EQM(f->get_target_namespace_prefix(), s.prefix, how);
  std::map<string, const El*> els; std::map<string, const Ty*> tys;
  for (auto& e : s.els) els[e.name] = &e;
  for (auto& t : s.types) tys[t.name] = &t;
  XsdElementVector all; XsdTypeVector allt;
  f->GetAllElements(&all); f->GetAllTypes(&allt);
  CHECK_EQM(all.size(), els.size(), how);
  std::set<string> seen;
  for (auto& x : all) { CHECK_M(els.count(x->get_name()) && seen.insert(x->get_name()).second, x->get_name() << how); CheckEl(x, *els[x->get_name()], how); }
  CHECK_EQM(allt.size(), tys.size(), how);
  seen.clear();
  for (auto& x : allt) CHECK_M(tys.count(x->get_name()) && seen.insert(x->get_name()).second, x->get_name() << how);
  for (auto& t : s.types) {
    XsdTypePtr x = f->FindType(t.name);
    CHECK_M(x && x->is_complex() == t.complex && x->get_name() == t.name, t.name << how);
    CHECK_EQM(x->get_base(), t.base, t.name << how);
    XsdComplexTypePtr c = XsdComplexType::AsComplexType(x);
    XsdSimpleTypePtr p = XsdSimpleType::AsSimpleType(x);
    CHECK_M((bool)c == t.complex && (bool)p != t.complex, how);
    if (c) {
      CHECK_EQM(c->has_extension_base(), !t.base.empty(), how);
      CHECK_EQM(c->get_sequence_size(), t.seq.size(), t.name << how);
      for (size_t i = 0; i < t.seq.size(); ++i) CheckEl(c->get_sequence_at(i), t.seq[i], how);
      XsdElementVector kids;
      f->FindChildElements(c, &kids);
      string want, got;
      for (auto& e : t.seq) { string n; if (!e.ref) want += e.name + " "; else if (Local(s, e.name, &n) && FindEl(s, n)) want += n + " "; }
      for (auto& k : kids) if (k) got += k->get_name() + " ";   // what a dangling reference gives is open
      CHECK_EQM(got, want, "children of " << t.name << how);
      // Ancestors.
      const Ty* b = Base(s, &t);
      XsdComplexTypePtr xb = f->GetBaseType(c);
      CHECK_EQM(xb ? xb->get_name() : string(), b ? b->name : string(), "base of " << t.name << how);
      std::vector<XsdComplexTypePtr> hier;
      bool ok = f->GetTypeHierarchy(c, &hier);
      std::vector<string> wh;
      bool wok = true;
      std::set<const Ty*> walk; walk.insert(&t);
      const Ty* cur = &t;
      bool cycle = false;
      while (!cur->base.empty()) {
        const Ty* nb = Base(s, cur);
        if (!nb) { wok = false; break; }
        if (!walk.insert(nb).second) { cycle = true; break; }
        wh.push_back(nb->name);
        cur = nb;
      }
      string gh, whs;
      for (auto& h : hier) gh += h->get_name() + " ";
      for (auto& h : wh) whs += h + " ";
      if (cycle) {
        // No end to it: it is refused after a beginning of it.
        CHECK_M(!ok && gh.compare(0, whs.size(), whs) == 0, "hierarchy of " << t.name << " " << gh << how);
        g.label("cycle");
      } else {
        CHECK_EQM(ok, wok, "hierarchy of " << t.name << how);
        CHECK_EQM(gh, whs, "hierarchy of " << t.name << how);
      }
      CHECK_EQM(f->GetTypeHierarchy(c, NULL), ok, how);
      for (auto& o : s.types) if (o.complex) CHECK_EQM(f->SearchTypeHierarchy(c, XsdComplexType::AsComplexType(f->FindType(o.name))), Derives(s, &t, &o), t.name << " from " << o.name << how);
      // Elements of this type.
      XsdElementVector of;
      f->GetElementsOfTypeByName(t.name, &of);
      string we;
      for (auto& kv : els) { const Ty* et = Prim(kv.second->type) ? NULL : Resolve(s, kv.second->type); if (et && et->complex && Derives(s, et, &t)) we += kv.first + " "; }
      CHECK_EQM(Names(of), we, "elements of " << t.name << how);
    } else {
      CHECK_EQM(p->get_enumeration_size(), t.enums.size(), how);
      for (size_t i = 0; i < t.enums.size(); ++i) CHECK_EQM(p->get_enumeration_at(i), t.enums[i], how);
      CHECK_EQM(p->IsEnumeration(), t.base == "string" && !t.enums.empty(), how);
    }
  }
  CHECK_M(!f->FindType("none") && !f->FindElement("none") && !f->FindElementType(NULL), how);
  string wa, wc, ws;
  for (auto& kv : els) {
    const El& e = *kv.second;
    XsdElementPtr x = f->FindElement(e.name);
    CheckEl(x, e, how);
    XsdTypePtr xt = f->FindElementType(x);
    const Ty* et = Prim(e.type) ? NULL : Resolve(s, e.type);
    CHECK_EQM(xt ? xt->get_name() : string(), Prim(e.type) ? e.type : et ? et->name : string(), "type of " << e.name << how);
    if (xt && Prim(e.type)) CHECK_EQM(xt->get_base(), string("xsd:primitive"), how);
    CHECK_M(f->ResolveRef(s.prefix + ":" + e.name) == x && !f->ResolveRef("other:" + e.name) && !f->ResolveRef(e.name), how);
    (e.abstract ? wa : et && et->complex ? wc : Prim(e.type) || et ? ws : errors) += e.name + " ";
    XsdElementVector kids, want;
    f->GetChildElements(e.name, &kids);
    if (et && et->complex) f->FindChildElements(XsdComplexType::AsComplexType(f->FindType(et->name)), &want);
    CHECK_EQM(Names(kids), Names(want), how);
  }
  XsdElementVector ea, ec, es, ids;
  f->GetAbstractElements(&ea); f->GetComplexElements(&ec); f->GetSimpleElements(&es);
  CHECK_EQM(Names(ea), wa, how);
  CHECK_EQM(Names(ec), wc, how);
  CHECK_EQM(Names(es), ws, how);
  size_t bc = 99, bs = 99;
  f->GenerateElementIdVector(&ids, &bc, &bs);
  CHECK_EQM(Names(ids), wa + wc + ws, how);
  CHECK_EQM(bc, ea.size(), how);
  CHECK_EQM(bs, ea.size() + ec.size(), how);
  // Aliases.
  string xst; std::map<string, string> alias;
  for (size_t i = 0, n = g.draw(5); i < n; ++i) {
    string a = "E" + std::to_string(g.draw(5)), b = GenPlain(g);
    switch (g.draw(6)) {
      case 5: xst += "alias " + a + " " + b + " more"; break;
      case 0: xst += "aliases " + a + " " + b; break;
      case 1: xst += "alias " + a; break;
      case 2: xst += ""; break;
      default: xst += "alias " + a + " " + b; alias[a] = b; break;
    }
    xst += "\n";
  }
  XstParser(f.get()).ParseXst(xst);
  for (int i = 0; i < 6; ++i) { string a = "E" + std::to_string(i); CHECK_EQM(f->get_alias(a), alias.count(a) ? alias[a] : string(), xst); }
  if (s.types.size() > 1 && !s.els.empty()) { g.nontrivial(xml); g.sample(xml); }
}
void Use(XsdFile* f) {
  XsdElementVector all, v; XsdTypeVector types;
  f->GetAllElements(&all); f->GetAllTypes(&types);
  f->get_target_namespace(); f->get_target_namespace_prefix();
  f->GenerateElementIdVector(&v, NULL, NULL);
  for (auto& e : all) { CHECK_T(e); f->FindElementType(e); f->GetChildElements(e->get_name(), &v); f->ResolveRef(e->get_name()); }
  for (auto& t : types) {
    CHECK_T(t);
    if (XsdComplexTypePtr c = XsdComplexType::AsComplexType(t)) {
      std::vector<XsdComplexTypePtr> h;
      f->GetTypeHierarchy(c, &h); f->GetBaseType(c); f->FindChildElements(c, &v); f->SearchTypeHierarchy(c, NULL);
      f->GetElementsOfType(c, &v);
    }
    f->GetElementsOfTypeByName(t->get_name(), &v);
  }
}
// Any schema text is handled.
void Hostile(G& g) {
  string xml;
  if (g.flip()) { Schema s = GenSchema(g); xml = Write(g, s); xml = MutateBytes(g, xml, 6); }
  else {
    static const char* tags[] = {"schema", "element", "complexType", "simpleType", "extension", "restriction", "enumeration", "sequence"};
    static const char* at[] = {"name", "type", "base", "ref", "value", "abstract", "targetNamespace", "xmlns:k"};
    static const char* val[] = {"", "A", "k:A", "k:B", "u", "k:", ":", "string", "true"};
    std::vector<string> open;
    size_t n = 1 + g.size(14);
    for (size_t i = 0; i < n; ++i) {
      if (open.size() > 1 && g.draw(3) == 0) { xml += "</" + open.back() + ">"; open.pop_back(); continue; }
      string t = i == 0 && g.draw(3) ? "schema" : g.pick(tags);
      xml += "<" + t;
      if (i == 0 && t == "schema" && g.draw(3)) xml += " targetNamespace='u' xmlns:k='u'";
      else { std::set<string> used; for (size_t k = g.draw(3); k--;) { string a = g.pick(at); if (used.insert(a).second) xml += " " + a + "='" + (a == "xmlns:k" ? "u" : g.pick(val)) + "'"; } }
      xml += ">";
      open.push_back(t);
    }
    while (!open.empty()) { xml += "</" + open.back() + ">"; open.pop_back(); }
  }
  g.note(xml);
  std::unique_ptr<XsdFile> f(XsdFile::CreateFromParse(xml, NULL));
  if (f.get()) { Use(f.get()); g.nontrivial(xml); g.label("read"); }
}
// The names of the built-in types.
void Primitive(G& g) {
  uint64_t k = g.enumerate(24);
  CHECK_EQ(XsdPrimitiveType::GetTypeName(XsdPrimitiveType::XSD_INVALID), string());
  if (k < 20) {
    XsdPrimitiveType::TypeId id = XsdPrimitiveType::GetTypeId(kPrim[k]);
    CHECK_T(id != XsdPrimitiveType::XSD_INVALID);
    CHECK_EQ(XsdPrimitiveType::GetTypeName(id), string(kPrim[k]));
    XsdTypePtr t = XsdPrimitiveType::Create(kPrim[k]);
    CHECK_T(t && t->get_name() == kPrim[k] && !t->is_complex());
    for (size_t j = 0; j < k; ++j) CHECK_T(XsdPrimitiveType::GetTypeId(kPrim[j]) != id);
  } else {
    static const char* bad[] = {"", "String", "strings", "xs:string"};
    CHECK_T(XsdPrimitiveType::GetTypeId(bad[k - 20]) == XsdPrimitiveType::XSD_INVALID && !XsdPrimitiveType::Create(bad[k - 20]));
  }
  g.nontrivial(k);
}
}  // namespace

int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "P36", "at least two types and one element, or a damaged schema that is still read",
                   {{"schemas", 50000, 800000, Schemas, 0},
                    {"hostile", 75000, 1500000, Hostile, 0},
                    {"primitive", 120, 480, Primitive, 0}});
}
