// Splitting and inlining styles: resolved styles and all other content before and after.
#include <string.h>
#include <map>
#include <set>
#include "foreign.h"
#include "stylegen.h"
#include "kml/engine/id_mapper.h"
#include "kml/engine/kml_file.h"
#include "kml/engine/style_inliner.h"
#include "kml/engine/style_resolver.h"
#include "kml/engine/style_splitter.h"
using namespace kg;
using kmlengine::KmlFile;
using kmlengine::KmlFilePtr;

namespace {
const int kLimit = 5;
kmldom::StyleStateEnum State(int s) { return s ? kmldom::STYLESTATE_HIGHLIGHT : kmldom::STYLESTATE_NORMAL; }
struct Doc {
  StyleGen sg;
  std::vector<string> free_ids;
  bool inline_refs;
  int inlined, referred, both;
  Doc() : inline_refs(true), inlined(0), referred(0), both(0) {}
};
const char* kIds[] = {"s0", "s1", "_0", "_1", "s2", "_2", "s3", "_10", "0", "S0", "_3", "s4", "s5"};
M Make(const char* key) { M m; m.t = FindType(key); return m; }
M* Add(M* m, const char* field, const M& k) { FV* v = Slot(m, FieldNamed(m->t, field)); v->kids.push_back(k); return &v->kids.back(); }
void Operations(G& g, M* u, Doc* d, int depth);
M StyledFeature(G& g, Doc* d, int depth) {
  static const char* k[] = {"Placemark", "GroundOverlay", "Folder", "Document"};
  M m = Make(k[g.draw(depth ? 4 : 2)]);
  if (g.flip()) SetStr(&m, "name", GenPlain(g));
  if (g.draw(3)) SetStr(&m, "styleUrl", d->sg.Url(g));
  if (g.flip()) Add(&m, "StyleSelector", d->sg.Selector(g, 1, true));
  if (IsA(m.t, "Container")) for (size_t n = g.draw(3); n--;) {
    if (g.chance(1, 5)) {  // An update that adds a tour has updates inside it.
      M tour = Make("gx:Tour"), list = Make("gx:Playlist"), au = Make("gx:AnimatedUpdate"), u = Make("Update");
      if (depth > 1) Operations(g, &u, d, depth - 1);
      Add(&au, "Update", u);
      Add(&list, "gx:TourPrimitive", au);
      Add(&tour, "gx:Playlist", list);
      Add(&m, "Feature", tour);
    }
    Add(&m, "Feature", StyledFeature(g, d, depth - 1));
  }
  return m;
}
// An update full of styles and references, none of which is to be touched.
void Operations(G& g, M* u, Doc* d, int depth) {
  Drop(u, "targetHref");
  Drop(u, "UpdateOperation");
  if (g.draw(3)) SetStr(u, "targetHref", GenPlain(g));
  for (size_t n = g.draw(4); n--;) {
    size_t kind = g.draw(3);
    M op = Make(kind == 0 ? "Change" : kind == 1 ? "Create" : "Delete");
    for (size_t k = 1 + g.draw(2); k--;) {
      M f = StyledFeature(g, d, kind == 2 ? 0 : depth);
      if (kind == 1) { M c = Make(g.flip() ? "Folder" : "Document"); Add(&c, "Feature", f); f = c; }
      Add(&op, kind == 0 ? "Object" : kind == 1 ? "Container" : "Feature", f);
    }
    Add(u, "UpdateOperation", op);
  }
}
void Restyle(G& g, M* m, Doc* d) {
  if (!strcmp(m->t->key, "Update")) { Operations(g, m, d, 2); return; }
  if (IsA(m->t, "Feature") && !IsA(m->t, "Document")) {
    Drop(m, "styleUrl");
    Drop(m, "StyleSelector");
    bool r = g.draw(5) < 3, i = g.draw(5) < 3;
    if (r) SetStr(m, "styleUrl", d->sg.Url(g));
    if (i) {
      M s = d->sg.Selector(g, 1 + g.draw(2), d->inline_refs);
      if (g.chance(1, 3) && d->free_ids.size()) { SetStr(&s, "id", d->free_ids.back()); d->free_ids.pop_back(); }
      Slot(m, FieldNamed(m->t, "StyleSelector"))->kids.push_back(s);
    }
    d->referred += r && !i;
    d->inlined += i && !r;
    d->both += r && i;
  }
  if (IsA(m->t, "Document")) {
    Drop(m, "StyleSelector");
    size_t n = g.draw(5);
    for (size_t i = 0; i < n; ++i) {
      M s = d->sg.Selector(g, 1 + g.draw(2), true);
      if (g.draw(8) != 7 && d->free_ids.size()) {
        SetStr(&s, "id", d->free_ids.back());
        d->sg.ids.push_back(d->free_ids.back());
        d->free_ids.pop_back();
      }
      Slot(m, FieldNamed(m->t, "StyleSelector"))->kids.push_back(s);
    }
  }
  if (IsA(m->t, "Object") && !IsA(m->t, "StyleSelector") && g.draw(20) == 19 && d->free_ids.size()) {
    SetStr(m, "id", d->free_ids.back());
    d->free_ids.pop_back();
  }
  for (auto& f : m->f) for (auto& k : f.kids) if (!IsA(k.t, "StyleSelector")) Restyle(g, &k, d);
}
M Tree(G& g, Doc* d) {
  for (size_t i = g.draw(13); i-- > 0;) d->free_ids.insert(d->free_ids.begin() + g.draw(d->free_ids.size() + 1), kIds[i]);
  GenOpts o;
  o.budget = 6;
  o.max_depth = 3;
  o.leaf_den = 8;
  o.nasty = false;
  o.ids = false;
  // A tree of containers and features.
  static const char* kF[] = {"Placemark", "Folder", "Document", "GroundOverlay", "gx:Tour", "NetworkLink"};
  std::vector<M> stack(1, GenTree(g, FindType(g.draw(4) ? "Document" : "Folder"), o));
  M root = stack[0];
  Drop(&root, "Feature");
  size_t n = g.draw(60) == 59 ? 20 + g.draw(120) : 1 + g.draw(6);
  std::vector<std::vector<size_t> > paths(1);
  for (size_t i = 0; i < n; ++i) {
    std::vector<size_t> path = paths[g.draw(paths.size())];
    M* at = &root;
    for (size_t j : path) at = &Slot(at, FieldNamed(at->t, "Feature"))->kids[j];
    const char* key = kF[g.draw(8) < 5 ? 0 : g.draw(6)];
    o.budget = !strcmp(key, "gx:Tour") ? 12 : 3;
    o.max_depth = !strcmp(key, "gx:Tour") ? 6 : 3;
    M k = GenTree(g, FindType(key), o);
    Drop(&k, "Feature");
    if (!strcmp(key, "gx:Tour") && g.flip()) {
      Drop(&k, "gx:Playlist");
      M list = Make("gx:Playlist"), au = Make("gx:AnimatedUpdate");
      Add(&au, "Update", Make("Update"));
      Add(&list, "gx:TourPrimitive", au);
      Add(&k, "gx:Playlist", list);
    }
    FV* fs = Slot(at, FieldNamed(at->t, "Feature"));
    fs->kids.push_back(k);
    if (IsA(k.t, "Container")) { path.push_back(fs->kids.size() - 1); paths.push_back(path); }
  }
  Tidy(&root);
  Restyle(g, &root, d);
  if (g.flip()) {
    M kml;
    kml.t = FindType("kml");
    Slot(&kml, FieldNamed(kml.t, "Feature"))->kids.push_back(root);
    return kml;
  }
  return root;
}
bool IsFeatureTag(const string& t) {
  static const char* k[] = {"Placemark", "Folder", "Document", "GroundOverlay", "ScreenOverlay", "PhotoOverlay", "NetworkLink", "gx:Tour"};
  for (auto x : k) if (t == x) return true;
  return false;
}
bool IsStyleTag(const string& t) { return t == "Style" || t == "StyleMap"; }
void Strip(X* x) {
  if (x->tag == "Update") return;
  x->runs.clear();
  std::vector<X> kids;
  bool f = IsFeatureTag(x->tag), doc = x->tag == "Document";
  for (auto& k : x->kids) {
    if (f && IsStyleTag(k.tag)) continue;
    if (f && !doc && k.tag == "styleUrl") continue;
    Strip(&k);
    kids.push_back(k);
  }
  x->kids.swap(kids);
}
void Ids(const X& x, std::vector<string>* out) {
  auto i = x.attrs.find("id");
  if (i != x.attrs.end()) out->push_back(i->second);
  for (auto& k : x.kids) Ids(k, out);
}
X Read(const ElementPtr& e) {
  X x;
  string err;
  if (!ReadXml(Raw(e), &x, &err)) FAIL("wellformed", err << " in " << Raw(e));
  return x;
}
struct Feat {
  const M* m;
  std::map<string, M> before;   // shared styles that come before it
  bool has_document;            // a document has begun before it
};
void Walk(const M& m, std::map<string, M>* shared, bool* doc, std::vector<Feat>* out) {
  if (!strcmp(m.t->key, "Update")) return;
  if (IsA(m.t, "Document")) *doc = true;
  if (IsA(m.t, "Feature") && !IsA(m.t, "Document")) out->push_back(Feat{&m, *shared, *doc});
  for (auto& f : m.f)
    for (auto& k : f.kids) {
      if (IsA(m.t, "Document") && IsA(k.t, "StyleSelector")) { if (k.get("id")) (*shared)[GetStr(k, "id")] = k; continue; }
      Walk(k, shared, doc, out);
    }
}
void LibFeatures(const ElementPtr& e, std::vector<kmldom::FeaturePtr>* out) {
  if (e->Type() == kmldom::Type_Update) return;
  kmldom::FeaturePtr f = kmldom::AsFeature(e);
  if (f && e->Type() != kmldom::Type_Document) out->push_back(f);
  std::vector<ElementPtr> kids;
  ChildElements(e, &kids);
  for (auto& k : kids) LibFeatures(k, out);
}
ElementPtr FirstDocument(const ElementPtr& e) {
  if (e->Type() == kmldom::Type_Update) return NULL;
  if (e->Type() == kmldom::Type_Document) return e;
  std::vector<ElementPtr> kids;
  ChildElements(e, &kids);
  for (auto& k : kids) if (ElementPtr d = FirstDocument(k)) return d;
  return NULL;
}
string Resolved(const kmldom::FeaturePtr& f, const KmlFilePtr& kf, int state) {
  return Raw(kmlengine::ClearIds(kmlengine::CreateResolvedStyle(f, kf, State(state))));
}
void Run(G& g, bool split) {
  Doc d;
  d.inline_refs = split || g.draw(4) == 3;
  M m = Tree(g, &d);
  string xml = Xml(m), err = "unset";
  g.note(xml);
  KmlFilePtr was = KmlFile::CreateFromParse(xml, &err);
  CHECK_M(was, err);
  ElementPtr e = split ? kmlengine::SplitStyles(xml, &err) : kmlengine::InlineStyles(xml, &err);
  CHECK_M(e, err);
  string raw = Raw(e);
  g.note(raw);
  KmlFilePtr now = KmlFile::CreateFromParse(raw, &err);
  CHECK_M(now, err);
  // All the rest is as it was.
  X a = Read(was->get_root()), b = Read(now->get_root());
  std::vector<string> ia, ib;
  Ids(a, &ia);
  Ids(b, &ib);
  X sa = a, sb = b;
  Strip(&sa);
  Strip(&sb);
  string diff = Diff(sa, sb);
  CHECK_M(diff.empty(), "other content changed: " << diff);
  // The features and their looks.
  std::map<string, M> all;
  bool doc = false;
  std::vector<Feat> fs;
  Walk(m, &all, &doc, &fs);
  StyleFile whole;
  whole.shared = all;
  std::vector<kmldom::FeaturePtr> fa, fb;
  LibFeatures(was->get_root(), &fa);
  LibFeatures(now->get_root(), &fb);
  CHECK_EQ(fa.size(), fs.size());
  CHECK_EQ(fb.size(), fs.size());
  std::set<string> old_ids(ia.begin(), ia.end());
  int changed = 0;
  for (size_t i = 0; i < fs.size(); ++i) {
    bool exact = true;
    for (int s = 0; s < 2; ++s) {
      Resolver r(NULL, s, 1000), part(NULL, s, 1000);
      bool inl = fs[i].m->get("StyleSelector") != NULL;
      r.limit = split && inl ? kLimit - 1 : kLimit;
      r.Both(whole, *fs[i].m);
      bool ok = !r.over;
      if (!split) {
        StyleFile early;
        early.shared = fs[i].before;
        part.Both(early, *fs[i].m);
        if (Xml(part.out) != Xml(r.out)) ok = false;
        // References inside the own style are left to the shared styles.
        if (inl) { Resolver own(NULL, s, 1000); own.Select(whole, fs[i].m->get("StyleSelector")->kids[0]); if (own.followed) ok = false; }
      }
      if (!ok) { exact = false; continue; }
      CHECK_EQM(Resolved(fb[i], now, s), Resolved(fa[i], was, s), (split ? "splitting" : "inlining") << " changed how feature " << i << " looks: " << Raw(fa[i]) << " is now " << Raw(fb[i]));
    }
    g.label(exact ? "look compared" : "outside the guarantee");
    string url = GetStr(*fs[i].m, "styleUrl");
    bool has_inline = fs[i].m->get("StyleSelector") != NULL;
    if (split) {
      bool moves = fs[i].has_document && has_inline && !fs[i].m->get("styleUrl");
      if (moves) {
        ++changed;
        CHECK_M(!fb[i]->has_styleselector() && fb[i]->has_styleurl(), "the style of feature " << i << " is still inline");
        string u = fb[i]->get_styleurl();
        CHECK_M(u.size() > 1 && u[0] == '#' && !old_ids.count(u.substr(1)), "feature " << i << " refers to " << u);
        kmldom::StyleSelectorPtr sh = now->GetSharedStyleById(u.substr(1));
        CHECK_M(sh, "no shared style " << u);
        CHECK_M(sh->GetParent() == FirstDocument(now->get_root()), "the style " << u << " is not in the first document");
      } else {
        CHECK_EQM(fb[i]->get_styleurl(), fa[i]->get_styleurl(), "reference of feature " << i);
        CHECK_EQM(fb[i]->has_styleselector(), fa[i]->has_styleselector(), "own style of feature " << i);
      }
    } else {
      bool local = url.size() > 1 && url[0] == '#' && fs[i].before.count(url.substr(1));
      if (local) { ++changed; CHECK_M(!fb[i]->has_styleurl() && fb[i]->has_styleselector(), "feature " << i << " still refers to " << url); }
      else {
        CHECK_EQM(fb[i]->get_styleurl(), fa[i]->get_styleurl(), "reference of feature " << i);
        CHECK_EQM(fb[i]->has_styleselector(), fa[i]->has_styleselector(), "own style of feature " << i);
        if (fa[i]->has_styleselector()) CHECK_EQ(Raw(fb[i]->get_styleselector()), Raw(fa[i]->get_styleselector()));
      }
    }
  }
  if (split) {
    std::multiset<string> seen(ib.begin(), ib.end());
    std::multiset<string> had(ia.begin(), ia.end());
    for (auto& s : seen) CHECK_M(seen.count(s) <= std::max<size_t>(1, had.count(s)), "identifier " << s << " is used twice");
    for (auto& s : all) {
      kmldom::StyleSelectorPtr x = now->GetSharedStyleById(s.first), y = was->GetSharedStyleById(s.first);
      CHECK_M(x, "shared style " << s.first << " is gone");
      CHECK_EQ(Raw(x), Raw(y));
    }
  } else {
    CHECK_M(now->get_shared_style_map().empty(), "a shared style is still there");
  }
  // Malformed input fails with a message.
  string bad = xml.substr(0, xml.size() - 1 - g.draw(4));
  err.clear();
  ElementPtr none = split ? kmlengine::SplitStyles(bad, &err) : kmlengine::InlineStyles(bad, &err);
  CHECK_M(!none && !err.empty(), "cut off text is accepted");
  if (changed) g.nontrivial(xml);
  g.sample(xml);
}
void Split(G& g) { Run(g, true); }
void Inline(G& g) { Run(g, false); }
}  // namespace
int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "P17",
    "Generated documents in standard order with shared, inline and missing styles and style maps, nested documents, updates, and identifiers that look like generated ones; "
    "split and inlined; compared with the input: resolved style of every feature, all other content, identifiers, shared styles; "
    "non-trivial = at least one feature changes its way of being styled; distinct by document.",
    {{"split", 10000, 500000, Split, 0},
     {"inline", 10000, 500000, Inline, 0},
     {"leaks", 1000, 20000, Split, pbt::kLeak},
     {"leaks-inline", 1000, 20000, Inline, pbt::kLeak}});
}
