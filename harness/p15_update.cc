// Updates: histories of create, delete and change operations against a model of the file.
#include <string.h>
#include <map>
#include <set>
#include "foreign.h"
#include "mergemodel.h"
#include "kml/engine/kml_file.h"
#include "kml/engine/update.h"
using namespace kg;
using pbt::G;
using kmlengine::KmlFile;
using kmlengine::KmlFilePtr;

namespace {
const Field* AttrOf(const TypeDef* t, const char* name) {
  for (auto f : t->fields) if (f->attr && !strcmp(f->cls, "Object") && !strcmp(f->xml, name)) return f;
  return NULL;
}
void SetAttr(M* m, const char* name, const string& v) {
  const Field* f = AttrOf(m->t, name);
  if (f) Slot(m, f)->v.s = v;
}
// Unique identifiers on many objects of the file; remembers their kinds.
void Identify(G& g, M* m, std::map<string, const TypeDef*>* ids, const char* prefix) {
  if (!strcmp(m->t->key, "Update")) return;
  if (AttrOf(m->t, "id") && g.draw(3)) {
    string id = prefix + std::to_string(ids->size());
    SetAttr(m, "id", id);
    (*ids)[id] = m->t;
  }
  for (auto& f : m->f) for (auto& k : f.kids) Identify(g, &k, ids, prefix);
}
M* Find(M* m, const string& id) {
  const FV* v = m->get("id");
  if (v && v->f->attr && v->v.s == id) return m;
  for (auto& f : m->f) for (auto& k : f.kids) if (M* r = Find(&k, id)) return r;
  return NULL;
}
const Field* FieldNamed(const TypeDef* t, const char* xml) {
  for (auto f : t->fields) if (!strcmp(f->xml, xml)) return f;
  return NULL;
}
// Takes the feature with the identifier out of the container or kml element that holds it.
bool Remove(M* m, const string& id) {
  bool holder = IsA(m->t, "Container") || !strcmp(m->t->key, "kml");
  for (size_t i = 0; i < m->f.size(); ++i) {
    FV& f = m->f[i];
    for (size_t j = 0; j < f.kids.size(); ++j) {
      const FV* v = f.kids[j].get("id");
      if (v && v->f->attr && v->v.s == id) {
        if (!holder || strcmp(f.f->xml, "Feature")) return false;
        f.kids.erase(f.kids.begin() + j);
        if (f.kids.empty()) m->f.erase(m->f.begin() + i);
        return true;
      }
      if (Remove(&f.kids[j], id)) return true;
    }
  }
  return false;
}
GenOpts Opts(int budget, int depth) {
  GenOpts o;
  o.budget = budget;
  o.max_depth = depth;
  o.leaf_den = 5;
  o.nasty = false;
  o.ids = false;
  return o;
}
// More features, most of them small, in the containers of the file.
void Widen(G& g, M* m) {
  for (auto& f : m->f) for (auto& k : f.kids) Widen(g, &k);
  if (!IsA(m->t, "Container") || g.flip()) return;
  static const char* kF[] = {"Placemark", "Folder", "Document", "GroundOverlay", "NetworkLink"};
  FV* s = Slot(m, FieldNamed(m->t, "Feature"));
  for (size_t n = 1 + g.size(6); n; --n) {
    M k;
    k.t = FindType(kF[g.draw(5)]);
    if (g.flip()) { FV* v = Slot(&k, FieldNamed(k.t, "name")); v->v.s = "n" + std::to_string(g.draw(3)); }
    s->kids.insert(s->kids.begin() + g.draw(s->kids.size() + 1), k);
  }
}
struct Stats { int done, missed; };
// One operation: the element for the update, and its effect on the model.
M Operation(G& g, M* file, const std::map<string, const TypeDef*>& ids, const std::map<string, string>* idmap, int* fresh, Stats* st) {
  static const char* kOps[] = {"Create", "Delete", "Change"};
  M op;
  op.t = FindType(kOps[g.draw(3)]);
  FV kids;
  kids.f = op.t->fields[0];
  size_t n = 1 + g.size(3);
  for (size_t i = 0; i < n; ++i) {
    // A target: usually an identified object of the file.
    string target = "nobody", given;
    const TypeDef* tt = NULL;
    bool creating = !strcmp(op.t->key, "Create"), deleting = !strcmp(op.t->key, "Delete");
    if (!ids.empty() && g.draw(8)) {
      std::vector<string> pool;
      for (auto& p : ids)
        if (creating ? IsA(p.second, "Container") : deleting ? IsA(p.second, "Feature") : true) pool.push_back(p.first);
      if (pool.empty() || g.draw(12) == 11) { pool.clear(); for (auto& p : ids) pool.push_back(p.first); }
      target = pool[g.draw(pool.size())];
      tt = ids.find(target)->second;
    }
    bool mapped = true;
    given = target;
    if (idmap) {
      mapped = false;
      // An identifier the map does not have is not a target, whether or not
      // the file has it.
      given = "zz" + target;
      for (auto& p : *idmap) if (p.second == target) { given = p.first; mapped = true; if (g.flip()) break; }
      if (!mapped && !idmap->count(target)) given = target;
    }
    M e;
    if (creating) {
      e = GenTree(g, FindType(g.flip() ? "Folder" : "Document"), Opts(6, 3));
      for (auto& f : e.f) for (auto& k : f.kids) if (AttrOf(k.t, "id") && g.flip()) SetAttr(&k, "id", "new" + std::to_string((*fresh)++));
      // A created feature is copied as it is, also when it names a target of its own.
      for (auto& f : e.f) for (auto& k : f.kids) if (AttrOf(k.t, "targetId") && g.chance(1, 6)) SetAttr(&k, "targetId", g.flip() ? target : "t" + std::to_string(*fresh));
    } else if (deleting) {
      static const char* kF[] = {"Placemark", "Folder", "Document", "GroundOverlay", "ScreenOverlay", "NetworkLink", "PhotoOverlay", "gx:Tour"};
      e.t = tt && IsA(tt, "Feature") && g.draw(6) ? tt : FindType(kF[g.draw(8)]);
    } else {
      if (!tt || !AttrOf(tt, "id")) tt = FindType("Placemark");
      e = GenTree(g, tt, Opts(4, 2));
      if (g.chance(1, 6)) SetAttr(&e, "id", "other" + std::to_string((*fresh)++));
    }
    Tidy(&e);
    bool has_target = g.draw(12) != 11;
    if (has_target) SetAttr(&e, "targetId", given);
    kids.kids.push_back(e);
    // The effect.
    M* node = has_target && mapped ? Find(file, target) : NULL;
    if (!node) { ++st->missed; continue; }
    if (creating) {
      if (!IsA(node->t, "Container")) { ++st->missed; continue; }
      const Field* ff = FieldNamed(node->t, "Feature");
      const FV* src = NULL;
      for (auto& f : e.f) if (f.f->kind == K_ELEMS && !strcmp(f.f->xml, "Feature")) src = &f;
      if (src) {
        FV* s = Slot(node, ff);
        s->kids.insert(s->kids.end(), src->kids.begin(), src->kids.end());
        ++st->done;
      }
    } else if (deleting) {
      if (IsA(node->t, "Feature") && Remove(file, target)) ++st->done; else ++st->missed;
    } else {
      M src = e;
      for (size_t k = 0; k < src.f.size();)
        if (src.f[k].f->attr && (!strcmp(src.f[k].f->xml, "id") || !strcmp(src.f[k].f->xml, "targetId"))) src.f.erase(src.f.begin() + k);
        else ++k;
      Overlay(src, node, true);
      ++st->done;
    }
  }
  op.f.push_back(kids);
  return op;
}
M MakeUpdate(G& g, M* file, const std::map<string, const TypeDef*>& ids, const std::map<string, string>* idmap, int* fresh, Stats* st) {
  M up;
  up.t = FindType("Update");
  FV href, ops;
  href.f = FieldNamed(up.t, "targetHref");
  href.v.s = "http://x/y.kml";
  ops.f = FieldNamed(up.t, "UpdateOperation");
  up.f.push_back(href);
  size_t n = 1 + g.size(4);
  for (size_t i = 0; i < n; ++i) ops.kids.push_back(Operation(g, file, ids, idmap, fresh, st));
  up.f.push_back(ops);
  return up;
}
void Compare(const M& want, const ElementPtr& t, const string& what) {
  X x;
  string err;
  CHECK_M(ReadXml(Raw(t), &x, &err), err);
  string d = Diff(Expect(want), x);
  CHECK_M(d.empty(), what << ": " << d << " in " << Raw(t));
  d = CheckDom(want, t);
  CHECK_M(d.empty(), what << ": " << d);
}
void Disjoint(const ElementPtr& a, const ElementPtr& b) {
  std::set<const void*> s;
  for (auto& n : AllNodes(a)) s.insert(n.e.get());
  std::vector<Node> y = AllNodes(b);
  for (auto& n : y) {
    CHECK_M(!s.count(n.e.get()), "the update and the file share an element");
    CHECK_M(n.e->GetParent() == (n.parent < 0 ? ElementPtr() : y[n.parent].e), "wrong parent in the updated file");
  }
}
void History(G& g, bool with_map) {
  std::map<string, const TypeDef*> ids;
  M file = GenTree(g, FindType(g.draw(4) ? "kml" : g.flip() ? "Document" : "Folder"), Opts(18, 5));
  if (!strcmp(file.t->key, "kml")) {  // mostly with a container below
    M doc = GenTree(g, FindType(g.flip() ? "Document" : "Folder"), Opts(18, 4));
    bool control = g.chance(1, 3);
    for (size_t i = 0; i < file.f.size();) if (!control && !strcmp(file.f[i].f->xml, "NetworkLinkControl")) file.f.erase(file.f.begin() + i); else ++i;
    FV* s = Slot(&file, FieldNamed(file.t, "Feature"));
    s->kids.assign(1, doc);
  }
  if (g.flip()) Widen(g, &file);
  Tidy(&file);
  Identify(g, &file, &ids, "i");
  std::map<string, string> idmap;
  if (with_map)
    for (auto& p : ids) {
      if (g.draw(5) == 4) continue;
      idmap["u" + p.first] = p.second && g.draw(10) == 9 ? "gone" : p.first;
      if (g.draw(6) == 5 && !ids.empty()) { auto it = ids.begin(); std::advance(it, g.draw(ids.size())); idmap[it->first] = p.first; }
    }
  kmlbase::StringMap sm(idmap.begin(), idmap.end());
  string err;
  KmlFilePtr kf;
  if (g.flip()) kf = KmlFile::CreateFromParse(Xml(file), &err);
  else kf = KmlFile::CreateFromImport(Build(file));
  CHECK_M(kf, err);
  g.note("file: " + Xml(file));
  int fresh = 0;
  Stats st = {0, 0};
  size_t n = 1 + g.size(3);
  string all = Xml(file);
  for (size_t i = 0; i < n; ++i) {
    M before = file;
    M up = MakeUpdate(g, &file, ids, with_map ? &idmap : NULL, &fresh, &st);
    ElementPtr e;
    if (g.flip()) e = Build(up);
    else { e = kmldom::Parse(Xml(up), &err); CHECK_M(e, err); }
    kmldom::UpdatePtr u = kmldom::AsUpdate(e);
    string text = Raw(u);
    g.note("update: " + text);
    all += text;
    // Either every update by itself, or through the processor with a map.
    if (with_map) kmlengine::ProcessUpdateWithIdMap(u, &sm, kf);
    else if (g.flip()) kmlengine::ProcessUpdate(u, kf);
    else kmlengine::ProcessUpdateWithIdMap(u, NULL, kf);
    CHECK_M(kf->get_root(), "the file lost its root");
    Compare(file, kf->get_root(), "updated file");
    CHECK_EQM(Raw(u), text, "the update changed");
    Disjoint(u, kf->get_root());
    e = NULL;
    u = NULL;
    Compare(file, kf->get_root(), "updated file without the update");
  }
  kmlengine::ProcessUpdate(NULL, kf);
  kmlengine::ProcessUpdateWithIdMap(NULL, with_map ? &sm : NULL, kf);
  Compare(file, kf->get_root(), "after no update");
  g.label(st.done > 2 ? "several effects" : st.done ? "some effect" : "no effect");
  if (st.done) g.nontrivial(all);
  g.sample(all);
}
void Plain(G& g) { History(g, false); }
void Mapped(G& g) { History(g, true); }
void Copy(G& g) {
  M a = GenTree(g, FindType(g.flip() ? "Folder" : "Document"), Opts(10, 4)), b = GenTree(g, FindType(g.flip() ? "Folder" : "Document"), Opts(10, 4));
  Tidy(&a);
  Tidy(&b);
  kmldom::ContainerPtr s = kmldom::AsContainer(Build(a)), t = kmldom::AsContainer(Build(b));
  string before = Raw(s);
  kmlengine::CopyFeatures(s, t);
  const FV* src = a.get("Feature");
  if (src) {
    FV* d = Slot(&b, FieldNamed(b.t, "Feature"));
    d->kids.insert(d->kids.end(), src->kids.begin(), src->kids.end());
    g.nontrivial(before + Raw(t));
  }
  Compare(b, t, "copied");
  Disjoint(s, t);
  CHECK_EQ(Raw(s), before);
}
}  // namespace
int main(int argc, char** argv) {
  kg::strict_altitude = true;
  return pbt::Main(argc, argv, "P15",
    "Histories of up to four updates with several create, delete and change operations each, on files (parsed or imported) with unique identifiers, with and without an identifier map; targets are "
    "identified objects of the file, deleted ones, unknown or missing ones; oracle is the model of the file after the same operations; "
    "non-trivial = at least one operation has an effect; distinct by file and updates.",
    {{"history", 10000, 500000, Plain, 0},
     {"mapped", 8000, 400000, Mapped, 0},
     {"leaks", 1500, 40000, Plain, pbt::kLeak},
     {"copy", 8000, 200000, Copy, 0}});
}
