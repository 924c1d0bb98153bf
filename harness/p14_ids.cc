// Identifiers: reference maps computed on an independent reading of the input.
#include <string.h>
#include <map>
#include <set>
#include "foreign.h"
#include "kml/engine/id_mapper.h"
#include "kml/engine/kml_file.h"
#include "kml/engine/object_id_parser_observer.h"
#include "kml/engine/shared_style_parser_observer.h"
using namespace kg;
using pbt::G;
using kmlengine::KmlFile;
using kmlengine::KmlFilePtr;

namespace {
const char* kIds[] = {"a", "b", "c", "A", "", "a b", "#a", "x:y", "1", "\xc3\xa9", "<&\"'>", "long-identifier-which-is-not-short", " a"};
string PickId(G& g, size_t pool) { return kIds[g.draw(pool)]; }
// Identifiers from a small pool; every object gets a unique mark (targetId).
void Identify(G& g, M* m, size_t pool, int* mark) {
  const Field *id = NULL, *target = NULL;
  for (auto f : m->t->fields) if (f->attr && !strcmp(f->cls, "Object")) (!strcmp(f->xml, "id") ? id : target) = f;
  for (size_t i = 0; i < m->f.size();) {
    if (m->f[i].f == id || m->f[i].f == target) m->f.erase(m->f.begin() + i);
    else { for (auto& k : m->f[i].kids) Identify(g, &k, pool, mark); ++i; }
  }
  if (!id) return;
  FV t;
  t.f = target;
  t.v.s = "m" + std::to_string((*mark)++);
  m->f.insert(m->f.begin(), t);
  bool style = IsA(m->t, "StyleSelector");
  if (g.draw(style ? 5 : 3) == 0) return;
  FV v;
  v.f = id;
  v.v.s = PickId(g, pool);
  m->f.insert(m->f.begin(), v);
}
struct Ref {
  std::map<string, string> last, shared;       // id -> mark
  std::multiset<string> ids;
  bool dup_objects, dup_shared;
  size_t objects;
  Ref() : dup_objects(false), dup_shared(false), objects(0) {}
};
void Look(const X& x, const X* parent, Ref* r) {
  auto m = x.attrs.find("targetId");
  auto i = x.attrs.find("id");
  if (m != x.attrs.end() && m->second[0] == 'm') {
    ++r->objects;
    if (i != x.attrs.end()) {
      if (r->last.count(i->second)) r->dup_objects = true;
      r->last[i->second] = m->second;
      r->ids.insert(i->second);
      if (parent && parent->tag == "Document" && (x.tag == "Style" || x.tag == "StyleMap")) {
        if (r->shared.count(i->second)) r->dup_shared = true;
        r->shared[i->second] = m->second;
      }
    }
  }
  for (auto& k : x.kids) Look(k, &x, r);
}
M Tree(G& g) {
  GenOpts o;
  o.budget = 22;
  o.leaf_den = 10;
  o.nasty = false;
  o.ids = false;
  M m = GenTree(g, FindType(g.draw(4) ? (g.draw(3) ? "Document" : "kml") : g.flip() ? "Folder" : "Style"), o);
  int mark = 0;
  size_t pool = 1 + g.draw(13);
  Identify(g, &m, pool, &mark);
  return m;
}
Ref Reference(const string& xml) {
  X x;
  string err;
  if (!ReadXml(xml, &x, &err)) FAIL("harness", err << xml);
  Ref r;
  Look(x, NULL, &r);
  return r;
}
string Mark(const ElementPtr& e) {
  kmldom::ObjectPtr o = kmldom::AsObject(e);
  return o ? o->get_targetid() : "?";
}
void Lookups(G& g, KmlFile* f, const Ref& r, const char* how) {
  for (auto id : kIds) {
    kmldom::ObjectPtr o = f->GetObjectById(id);
    auto w = r.last.find(id);
    CHECK_M((o != NULL) == (w != r.last.end()), how << ": identifier [" << id << "] is " << (o ? "found" : "not found"));
    if (o) {
      CHECK_EQM(o->get_id(), string(id), how);
      CHECK_EQM(Mark(o), w->second, how << ": identifier [" << id << "] finds another element");
    }
    kmldom::StyleSelectorPtr s = f->GetSharedStyleById(id);
    w = r.shared.find(id);
    CHECK_M((s != NULL) == (w != r.shared.end()), how << ": shared style [" << id << "] is " << (s ? "found" : "not found"));
    if (s) CHECK_EQM(Mark(s), w->second, how << ": shared style [" << id << "] is another one");
  }
  CHECK_M(!f->GetObjectById("nowhere") && !f->GetSharedStyleById("nowhere"), "an identifier nobody has is found");
  const kmlengine::SharedStyleMap& m = f->get_shared_style_map();
  CHECK_EQM(m.size(), r.shared.size(), how);
  for (auto& p : m) { CHECK_M(r.shared.count(p.first), p.first); CHECK_EQ(Mark(p.second), r.shared.find(p.first)->second); }
  g.label(r.dup_objects ? "repeated identifiers" : "unique identifiers");
  g.label(r.shared.empty() ? "no shared style" : "shared styles");
}
void Parsed(G& g) {
  M m = Tree(g);
  string xml = g.flip() ? Render(g, m, RenderOpts()) : Xml(m), err;
  g.note(xml);
  Ref r = Reference(xml);
  KmlFilePtr f = KmlFile::CreateFromParse(xml, &err);
  CHECK_M(f, err);
  Lookups(g, f.get(), r, "parse");
  if (r.ids.size() > 1) g.nontrivial(xml);
  g.sample(xml);
}
void Imported(G& g) {
  M m = Tree(g);
  string xml = Xml(m);
  g.note(xml);
  Ref r = Reference(xml);
  ElementPtr e = g.flip() ? Build(m) : kmldom::Parse(xml, NULL);
  bool lax = g.flip();
  KmlFilePtr f = lax ? KmlFile::CreateFromImportLax(e) : KmlFile::CreateFromImport(e);
  if (!lax && r.dup_objects) { CHECK_M(!f, "the strict import accepts a repeated identifier"); g.label("strict refusal"); }
  else {
    CHECK_M(f, "import fails");
    CHECK_T(f->get_root() == e);
    Lookups(g, f.get(), r, lax ? "lax import" : "import");
  }
  CHECK_T(!KmlFile::CreateFromImport(NULL) && !KmlFile::CreateFromImportLax(NULL));
  if (r.ids.size() > 1) g.nontrivial(xml + (lax ? "l" : "s"));
}
void Observed(G& g) {
  M m = Tree(g);
  string xml = g.flip() ? Render(g, m, RenderOpts()) : Xml(m), err;
  g.note(xml);
  Ref r = Reference(xml);
  bool strict = g.flip();
  kmldom::Parser p;
  if (g.flip()) {
    kmlengine::ObjectIdMap map;
    kmlengine::ObjectIdParserObserver ob(&map, strict);
    p.AddObserver(&ob);
    ElementPtr e = p.Parse(xml, &err);
    CHECK_M((e != NULL) == !(strict && r.dup_objects), "parse with the identifier observer " << (e ? "succeeds" : "fails"));
    if (e) {
      CHECK_EQ(map.size(), r.last.size());
      for (auto& x : map) { CHECK_EQ(Mark(x.second), r.last[x.first]); CHECK_EQ(x.second->get_id(), x.first); }
    }
    if (strict && r.dup_objects) g.label("strict refusal");
  } else {
    kmlengine::SharedStyleMap map;
    kmlengine::SharedStyleParserObserver ob(&map, strict);
    p.AddObserver(&ob);
    ElementPtr e = p.Parse(xml, &err);
    CHECK_M((e != NULL) == !(strict && r.dup_shared), "parse with the shared style observer " << (e ? "succeeds" : "fails"));
    if (e) {
      CHECK_EQ(map.size(), r.shared.size());
      for (auto& x : map) CHECK_EQ(Mark(x.second), r.shared[x.first]);
    }
    if (strict && r.dup_shared) g.label("strict refusal");
  }
  if (r.ids.size() > 1) g.nontrivial(xml + (strict ? "s" : ""));
}
string Strip(const string& xml, const string& attr) {  // from canonical output
  string s = xml;
  for (size_t i; (i = s.find(" " + attr + "=\"")) != string::npos;) s.erase(i, s.find('"', i + attr.size() + 3) + 1 - i);
  return s;
}
void Mapped(G& g) {
  M m = Tree(g);
  string xml = Xml(m);
  g.note(xml);
  Ref r = Reference(xml);
  ElementPtr e = g.flip() ? Build(m) : kmldom::Parse(xml, NULL);
  string raw = Raw(e);
  kmlengine::ObjectIdMap map;
  kmlengine::ElementVector dups;
  bool want_dups = g.flip();
  kmlengine::MapIds(e, &map, want_dups ? &dups : NULL);
  CHECK_EQ(map.size(), r.last.size());
  for (auto& x : map) { CHECK_EQ(Mark(x.second), r.last[x.first]); }
  if (want_dups) {
    CHECK_EQ(dups.size(), r.ids.size() - r.last.size());
    std::set<const void*> seen;
    for (auto& d : dups) {
      kmldom::ObjectPtr o = kmldom::AsObject(d);
      CHECK_M(o && o->has_id() && r.ids.count(o->get_id()) > 1, "reported as repeated, but it is not");
      CHECK_M(seen.insert(d.get()).second, "reported twice as repeated");
    }
  }
  CHECK_EQ(Raw(e), raw);
  kmlengine::MapIds(NULL, &map, NULL);
  kmlengine::MapIds(e, NULL, NULL);
  if (r.ids.size() > 1) g.nontrivial(xml);
  if (g.flip()) {
    kmlengine::ClearIds(e);
    CHECK_EQ(Raw(e), Strip(raw, "id"));
    g.label("cleared");
    return;
  }
  // Remapping: through a map from some identifiers to others.
  kmlbase::StringMap to;
  size_t n = g.size(5);
  for (size_t i = 0; i < n; ++i) to[PickId(g, 13)] = g.flip() ? PickId(g, 13) : "new" + std::to_string(i);
  std::map<string, string> now;  // mark -> new id
  int cleared = 0;
  std::map<string, std::set<string>> out_want;
  for (auto& x : map) {
    auto t = to.find(x.first);
    if (t == to.end()) ++cleared;
    else { now[Mark(x.second)] = t->second; out_want[t->second].insert(Mark(x.second)); }
  }
  kmlengine::ObjectIdMap out;
  bool with = g.flip();
  CHECK_EQ(kmlengine::RemapIds(map, to, with ? &out : NULL), cleared);
  for (auto& x : map) {
    auto w = now.find(Mark(x.second));
    CHECK_EQM(x.second->has_id(), w != now.end(), x.first);
    if (w != now.end()) CHECK_EQ(x.second->get_id(), w->second);
  }
  if (with) {
    CHECK_EQ(out.size(), out_want.size());
    for (auto& x : out) CHECK_M(out_want[x.first].count(Mark(x.second)), "remapped " << x.first);
  }
  // Objects which are not in the map keep their identifiers.
  for (auto& node : AllNodes(e)) {
    kmldom::ObjectPtr o = kmldom::AsObject(node.e);
    if (!o) continue;
    bool in = false;
    for (auto& x : map) if (x.second == o) in = true;
    if (!in && o->has_id()) CHECK_T(r.ids.count(o->get_id()) > 0);
  }
  g.label("remapped");
}
}  // namespace
int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "P14",
    "Documents, folders and styles with identifiers from small pools (repeated, empty, with markup characters) are parsed, imported and observed; every pool identifier "
    "is looked up and compared with the maps of an independent reading; mapping, clearing and remapping; non-trivial = at least two identified objects; distinct by document.",
    {{"parse", 25000, 800000, Parsed, 0},
     {"import", 20000, 600000, Imported, 0},
     {"observe", 20000, 600000, Observed, 0},
     {"map", 25000, 800000, Mapped, 0}});
}
