// The namespaces of what a file object writes, seen by a namespace-aware reader.
#include <expat.h>
#include <string.h>
#include <set>
#include <sstream>
#include "foreign.h"
#include "kml/base/attributes.h"
#include "kml/base/expat_handler_ns.h"
#include "kml/base/expat_parser.h"
#include "kml/base/xmlns.h"
#include "kml/base/xml_namespaces.h"
#include "kml/dom.h"
#include "kml/engine.h"
#include "kml/engine/find_xml_namespaces.h"
using namespace kg;
using namespace kmldom;
using pbt::G;

namespace {
const char kKml[] = "http://www.opengis.net/kml/2.2";
typedef std::map<string, string> Env;
const Env& Known() {
  static const Env e = {{"", kKml}, {"gx", "http://www.google.com/kml/ext/2.2"}, {"atom", "http://www.w3.org/2005/Atom"}, {"xal", "urn:oasis:names:tc:ciq:xsdschema:xAL:2.0"}};
  return e;
}
// What a namespace-aware reader sees.
struct Seen { std::vector<string> elems; string decls; int depth; std::map<string, string> root; };
void Start(void* u, const XML_Char* n, const XML_Char** a) {
  Seen* s = (Seen*)u;
  std::map<string, string> at;
  for (; *a; a += 2) at[a[0]] = a[1];
  string r = n;
  for (auto& kv : at) if (kv.first.find('|') != string::npos) r += " @" + kv.first;
  s->elems.push_back(std::to_string(s->depth++) + " " + r);
}
void End(void* u, const XML_Char*) { --((Seen*)u)->depth; }
void Decl(void* u, const XML_Char* p, const XML_Char* uri) { Seen* s = (Seen*)u; if (s->depth == 0) s->root[p ? p : ""] = uri ? uri : ""; }
bool ReadNs(const string& xml, Seen* s, string* error) {
  s->depth = 0;
  XML_Parser p = XML_ParserCreateNS(NULL, '|');
  XML_SetUserData(p, s);
  XML_SetElementHandler(p, Start, End);
  XML_SetNamespaceDeclHandler(p, Decl, NULL);
  bool ok = XML_Parse(p, xml.data(), xml.size(), 1) == XML_STATUS_OK;
  if (!ok) *error = XML_ErrorString(XML_GetErrorCode(p));
  XML_ParserFree(p);
  return ok;
}
string Prefix(const string& n, string* local) {
  size_t c = n.find(':');
  *local = c == string::npos ? n : n.substr(c + 1);
  return c == string::npos ? "" : n.substr(0, c);
}
// What it should see: known elements by their names, the others by what is in scope.
void Want(const X& x, Env env, bool known, int depth, std::vector<string>* out) {
  string local;
  string p = Prefix(x.tag, &local);
  for (auto& kv : x.attrs) {
    if (kv.first == "xmlns") env[""] = kv.second;
    else if (kv.first.compare(0, 6, "xmlns:") == 0) env[kv.first.substr(6)] = kv.second;
  }
  string r = env[p].empty() ? local : env[p] + "|" + local;
  std::set<string> at;
  for (auto& kv : x.attrs) {
    string l, q = Prefix(kv.first, &l);
    if (!q.empty() && q != "xmlns") at.insert(env[q] + "|" + l);
  }
  for (auto& a : at) r += " @" + a;
  out->push_back(std::to_string(depth) + " " + r);
  for (auto& k : x.kids) Want(k, env, known, depth + 1, out);
}
// Foreign elements are kept as they are: their namespaces are not looked for.
void Strip(M* m) {
  m->unknown.clear();
  for (auto& f : m->f) for (auto& k : f.kids) Strip(&k);
  for (auto& k : m->misplaced) Strip(&k);
}
void Used(const X& x, std::set<string>* out) {
  string l, p = Prefix(x.tag, &l);
  if (Known().count(p)) out->insert(p);
  for (auto& k : x.kids) Used(k, out);
}
int g_foreign, g_misplaced;
X Foreign(G& g, const Env& env, int depth) {
  std::vector<string> ps;
  for (auto& kv : env) if (!Known().count(kv.first)) ps.push_back(kv.first);
  X x;
  static const char* n[] = {"thing", "Tour2", "TimeSpan2", "other"};
  static const char* same[] = {"Tour", "Placemark", "altitudeMode", "link"};
  string p = ps.empty() ? "" : ps[g.draw(ps.size())];
  x.tag = p.empty() ? g.pick(n) : p + ":" + (g.flip() ? g.pick(same) : g.pick(n));
  Env e = env;
  if (g.draw(3) == 0) { static const char* d[] = {"p1", "p2", "zz"}; string q = g.pick(d); x.attrs["xmlns:" + q] = "u:" + GenPlain(g, 3); e[q] = x.attrs["xmlns:" + q]; }
  if (!p.empty() && g.flip()) x.attrs[p + ":at"] = "v";
  size_t nk = depth > 0 ? g.draw(3) : 0;
  for (size_t i = 0; i < nk; ++i) x.kids.push_back(Foreign(g, e, depth - 1));
  for (size_t i = 0; i <= nk; ++i) x.runs.push_back("");
  ++g_foreign;
  return x;
}
void Dress(G& g, M* m, Env env, const GenOpts& o, bool root) {
  if (!ElementContent(m->t)) return;
  bool dress = root || g.draw(4) == 0;
  if (dress && g.flip()) {
    static const char* d[] = {"p1", "p2", "zz", "GX", "k"};
    for (size_t i = 1 + g.draw(2); i--;) {
      string q = g.pick(d), u = g.draw(6) ? "http://example.com/" + GenPlain(g, 4) : g.flip() ? string(kKml) : string("http://www.google.com/kml/ext/2.2");
      m->extra_attrs["xmlns:" + q] = u;
      env[q] = u;
    }
  }
  if (root && g.flip()) {
    // As a document read from elsewhere would declare them.
    static const char* old[] = {kKml, kKml, "http://earth.google.com/kml/2.0", "http://earth.google.com/kml/2.1", "http://earth.google.com/kml/2.2"};
    if (g.flip()) m->extra_attrs["xmlns"] = g.pick(old);
    for (auto& kv : Known()) if (!kv.first.empty() && g.draw(3) == 0) m->extra_attrs["xmlns:" + kv.first] = kv.second;
  }
  if (dress && g.flip()) m->unknown.push_back(Foreign(g, env, 2));
  if (dress && g.draw(3) == 0) {
    const TypeDef* t = &Types()[g.draw(Types().size())];
    if (strcmp(t->key, "IconStyleIcon") && !Accepts(m->t, t)) {
      int b = 3; GenOpts o2 = o; o2.max_depth = 3;
      m->misplaced.push_back(Gen(g, t, o2, &b, 0));
      ++g_misplaced;
    }
  }
  if (dress && g.draw(4) == 0) {
    const string& tag = Simple()[g.draw(Simple().size())];
    bool own = false;
    for (auto f : m->t->fields) if (tag == f->xml) own = true;
    if (!own) { X x(tag); x.text = "1"; m->misplaced_leaves.push_back(x); ++g_misplaced; }
  }
  for (auto& f : m->f) for (auto& k : f.kids) Dress(g, &k, env, o, false);
}
string Join(const std::vector<string>& v) { string r; for (auto& s : v) r += s + "\n"; return r; }

void Files(G& g) {
  g_foreign = g_misplaced = 0;
  GenOpts o;
  o.budget = 1 + (int)g.draw(25);
  o.nasty = g.draw(4) == 0;
  const TypeDef* t = g.draw(3) ? FindType("kml") : PickRoot(g);
  if (!ElementContent(t)) t = FindType("kml");
  if (g.draw(3) == 0) {
    // Little of the KML namespace in it.
    static const char* few[] = {"gx:Tour", "gx:Playlist", "gx:FlyTo", "gx:Wait", "gx:LatLonQuad", "atom:author", "atom:link", "xal:AddressDetails", "xal:Country", "gx:TimeSpan", "gx:AnimatedUpdate"};
    t = FindType(g.pick(few));
    if (!t) t = FindType("kml");
  }
  M m = GenTree(g, t, o);
  Dress(g, &m, Env(), o, true);
  X x = Expect(m);
  string xml = Xml(m), errors;
  g.note(xml);
  // Read, or brought in.
  kmlengine::KmlFilePtr f;
  unsigned how = g.draw(3);
  if (how == 0) f = kmlengine::KmlFile::CreateFromParse(xml, &errors);
  else { ElementPtr e = Parse(xml, &errors); CHECK_M(e, errors << xml); f = kmlengine::KmlFile::CreateFromImportLax(e); }
  CHECK_M(f, errors << xml);
  std::set<string> used;
  M plain = m;
  Strip(&plain);
  Used(Expect(plain), &used);
  kmlbase::Attributes found;
  kmlengine::FindXmlNamespaces(f->get_root(), &found);
  for (auto& kv : Known()) {
    string v;
    bool has = found.FindValue(kv.first.empty() ? "kml" : kv.first, &v);
    CHECK_EQM(has, used.count(kv.first) != 0, "namespace " << kv.first << " of " << xml);
    if (has) CHECK_EQM(v, kv.second, xml);
  }
  // Written.
  string out;
  CHECK_M(f->SerializeToString(&out), xml);
  Env env;
  X want = x;
  std::map<string, string> decl;
  for (auto& kv : x.attrs) if (kv.first.compare(0, 5, "xmlns") == 0) decl[kv.first.size() > 6 ? kv.first.substr(6) : ""] = kv.second;
  for (auto& p : used) decl[p] = Known().at(p);
  for (auto& kv : decl) want.attrs[kv.first.empty() ? "xmlns" : "xmlns:" + kv.first] = kv.second;
  Seen seen;
  CHECK_M(ReadNs(out, &seen, &errors), errors << " reading " << out << " from " << xml);
  std::vector<string> elems;
  Want(want, env, true, 0, &elems);
  CHECK_EQM(Join(seen.elems), Join(elems), out);
  for (auto& kv : decl) CHECK_M(seen.root.count(kv.first) && seen.root[kv.first] == kv.second, "root declares " << kv.first << "=" << seen.root[kv.first] << " in " << out);
  for (auto& kv : seen.root) CHECK_M(decl.count(kv.first), "root declares " << kv.first << " in " << out);
  // Again, and through a stream.
  string again;
  CHECK_M(f->SerializeToString(&again), xml);
  CHECK_EQM(again, out, xml);
  std::ostringstream os;
  CHECK_M(f->SerializeToOstream(&os), xml);
  CHECK_EQM(os.str(), out, xml);
  CHECK_M(out.compare(0, 38, "<?xml version=\"1.0\" encoding=\"utf-8\"?>") == 0, out);
  // What is written is read the same way.
  kmlengine::KmlFilePtr back = kmlengine::KmlFile::CreateFromParse(out, &errors);
  CHECK_M(back, errors << out);
  string out2;
  back->SerializeToString(&out2);
  Seen seen2;
  CHECK_M(ReadNs(out2, &seen2, &errors), errors << out2);
  CHECK_EQM(Join(seen2.elems), Join(seen.elems), out2);
  if (used.size() > 1) { g.nontrivial(xml); g.sample(xml); }
  if (g_foreign) g.label("foreign");
  if (g_misplaced) g.label("misplaced");
}
void Table(G& g) {
  using namespace kmlbase;
  struct Row { XmlnsId id; const char* prefix; const char* ns; };
  static const Row rows[] = {
    {XMLNS_APP, "app", "http://www.w3.org/2007/app"}, {XMLNS_ATOM, "atom", "http://www.w3.org/2005/Atom"},
    {XMLNS_BATCH, "batch", "http://schemas.google.com/gdata/batch"}, {XMLNS_DOCS, "docs", "http://schemas.google.com/docs/2007"},
    {XMLNS_EXIF, "exif", "http://schemas.google.com/photos/exif/2007"}, {XMLNS_GD, "gd", "http://schemas.google.com/g/2005"},
    {XMLNS_GEORSS, "georss", "http://www.georss.org/georss"}, {XMLNS_GML, "gml", "http://www.opengis.net/gml"},
    {XMLNS_GPHOTO, "gphoto", "http://schemas.google.com/photos/2007"}, {XMLNS_GPX, "gpx", "http://www.topografix.com/GPX/1/0"},
    {XMLNS_GX22, "gx", "http://www.google.com/kml/ext/2.2"}, {XMLNS_GS, "gs", "http://schemas.google.com/spreadsheets/2006"},
    {XMLNS_KML22, "kml", kKml}, {XMLNS_MEDIA, "media", "http://search.yahoo.com/mrss/"},
    {XMLNS_OPENSEARCH, "openSearch", "http://a9.com/-/spec/opensearch/1.1/"}, {XMLNS_XAL, "xal", "urn:oasis:names:tc:ciq:xsdschema:xAL:2.0"},
    {XMLNS_XML, "xml", "http://www.w3.org/XML/1998/namespace"}, {XMLNS_XSD, "xsd", "http://www.w3.org/2001/XMLSchema"},
    {XMLNS_XSI, "xsi", "http://www.w3.org/2001/XMLSchema-instance"}};
  const Row& r = rows[g.draw(sizeof(rows) / sizeof(rows[0]))];
  bool p = g.flip(), n = g.flip();
  string prefix = "before", ns = "before";
  g.note(r.prefix);
  CHECK_T(FindXmlNamespaceAndPrefix(r.id, p ? &prefix : NULL, n ? &ns : NULL));
  CHECK_EQ(prefix, string(p ? r.prefix : "before"));
  CHECK_EQ(ns, string(n ? r.ns : "before"));
  string a = "before", b = "before";
  CHECK_T(!FindXmlNamespaceAndPrefix(XMLNS_NONE, &a, &b) && a == "before" && b == "before");
  if (p || n) { g.nontrivial(string(r.prefix) + (p ? "1" : "0") + (n ? "1" : "0")); g.sample(r.prefix); }
}
// Elements know the namespace of their name.
void Elements(G& g) {
  const TypeDef& t = Types()[g.draw(Types().size())];
  GenOpts o; o.budget = 1;
  M m; m.t = &t;
  ElementPtr e = Build(m);
  CHECK_M(e, t.key);
  string l, p = Prefix(t.tag, &l), ns;
  ns = Known().at(p);
  // Some know none: they never stand alone.
  string own;
  if (kmlbase::FindXmlNamespaceAndPrefix(e->get_xmlns(), NULL, &own)) CHECK_EQM(own, ns, t.key);
  kmlbase::Attributes a;
  kmlengine::FindXmlNamespaces(e, &a);
  string v;
  CHECK_M(a.FindValue(p.empty() ? "kml" : p, &v) && v == ns, t.key);
  kmlengine::FindXmlNamespaces(NULL, &a);
  kmlengine::FindXmlNamespaces(e, NULL);
  kmlengine::FindAndInsertXmlNamespaces(NULL);
  g.nontrivial(t.key);
  g.sample(t.key);
}
// The translating reader names every element by its namespace alone, whatever prefix the document has for it.
struct Record : kmlbase::ExpatHandler {
  string log;
  virtual void StartElement(const string& n, const kmlbase::StringVector& a) {
    log += "<" + n;
    std::map<string, string> m;
    for (size_t i = 0; i + 1 < a.size(); i += 2) m[a[i]] = a[i + 1];
    for (auto& kv : m) log += " " + kv.first + "=" + kv.second;
    log += ">";
  }
  virtual void EndElement(const string& n) { log += "</" + n + ">"; }
  virtual void CharData(const string& c) { log += c; }
};
struct Translation { std::vector<string> uris; string deflt; Env table; int others; };  // table: uri to prefix
void Node(G& g, Translation* t, Env env, int depth, string* xml, string* want) {
  string decls;
  size_t nd = depth == 0 ? 1 + g.draw(4) : g.draw(5) ? 0 : 1 + g.draw(2);
  std::set<string> here;
  for (size_t i = 0; i < nd; ++i) {
    static const char* p[] = {"", "kml", "gx", "p", "atom", "x"};
    string q = p[g.draw(6)], u = t->uris[g.draw(t->uris.size())];
    if (!here.insert(q).second) continue;
    env[q] = u;
    decls += (q.empty() ? " xmlns=\"" : " xmlns:" + q + "=\"") + u + "\"";
  }
  auto it = env.begin();
  std::advance(it, g.draw(env.size() + 1));
  string q = it == env.end() ? "" : it->first, u = env.count(q) ? env[q] : "";
  static const char* names[] = {"Placemark", "name", "Tour", "link", "a", "kml"};
  string local = names[g.draw(6)], name;
  if (u.empty() || u == t->deflt) name = local;
  else if (t->table.count(u)) name = t->table[u] + ":" + local, ++t->others;
  else name = u + "|" + local, ++t->others;
  string tag = (q.empty() ? "" : q + ":") + local;
  *xml += "<" + tag + decls;
  *want += "<" + name;
  std::map<string, string> at;
  for (size_t n = g.draw(3); n--;) at[g.flip() ? "id" : "b"] = GenPlain(g);
  for (auto& kv : at) { *xml += " " + kv.first + "=\"" + kv.second + "\""; *want += " " + kv.first + "=" + kv.second; }
  *xml += ">";
  *want += ">";
  size_t kids = depth > 4 ? 0 : g.size(3);
  for (size_t i = 0; i <= kids; ++i) {
    if (g.draw(3) == 0) { string c = GenPlain(g); *xml += c; *want += c; }
    if (i < kids) Node(g, t, env, depth + 1, xml, want);
  }
  *xml += "</" + tag + ">";
  *want += "</" + name + ">";
}
void Translate(G& g) {
  Translation t;
  t.others = 0;
  string stem = "http://n.org/" + GenPlain(g, 6);
  t.uris = {stem, stem + "/2", stem + "/2.2", stem.substr(0, stem.size() - 1), "u:x", "http://www.w3.org/2005/Atom", kKml};
  kmlbase::Attributes a;
  if (g.draw(4)) { t.deflt = t.uris[g.draw(t.uris.size())]; a.SetValue("xmlns", t.deflt); }
  static const char* p[] = {"kml", "gx", "p", "atom", "z", "kmlx"};
  size_t n = g.draw(5);
  Env prefixes;
  for (size_t i = 0; i < n; ++i) {
    string u = t.uris[g.draw(t.uris.size())], q = p[g.draw(6)];
    if (t.table.count(u) || prefixes.count(q)) continue;
    t.table[u] = q;
    prefixes[q] = u;
    a.SetValue("xmlns:" + q, u);
  }
  if (g.flip()) a.SetValue("id", GenPlain(g));
  boost::scoped_ptr<kmlbase::Xmlns> x(kmlbase::Xmlns::Create(a));
  bool any = !t.deflt.empty() || !t.table.empty();
  CHECK_EQM(x.get() != NULL, any, "namespace table");
  if (!any) return;
  CHECK_EQ(x->get_default(), t.deflt);
  for (auto q : p) CHECK_EQM(x->GetNamespace(q), prefixes.count(q) ? prefixes[q] : string(), q);
  for (auto& u : t.uris) CHECK_EQM(x->GetKey(u), t.table.count(u) ? t.table[u] : string(), u);
  CHECK_EQ(x->GetNamespace("no"), string());
  std::vector<string> got;
  x->GetPrefixes(&got);
  CHECK_EQ(std::set<string>(got.begin(), got.end()).size(), prefixes.size());
  CHECK_EQ(got.size(), prefixes.size());
  for (auto& q : got) CHECK_M(prefixes.count(q), q);
  string xml, want, err;
  Node(g, &t, Env(), 0, &xml, &want);
  g.note(xml);
  Record r;
  kmlbase::ExpatHandlerNs ns(&r, x.get());
  CHECK_M(kmlbase::ExpatParser::ParseString(xml, &ns, &err, true), err);
  CHECK_EQM(r.log, want, xml);
  if (t.others) { g.nontrivial(xml); g.sample(xml); }
}
}  // namespace

int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "P37", "a file with elements of several namespaces, an element, a namespace table with a document read through it, a table row",
                   {{"files", 40000, 1500000, Files, 0},
                    {"elements", 4000, 20000, Elements, 0},
                    {"translate", 40000, 1000000, Translate, 0},
                    {"table", 2000, 10000, Table, 0}});
}
