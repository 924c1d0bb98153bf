// Style resolution: generated reference graphs against a reference resolver on the model.
#include <string.h>
#include <map>
#include <set>
#include "foreign.h"
#include "stylegen.h"
#include "kml/base/net_cache.h"
#include "kml/engine/kml_cache.h"
#include "kml/engine/kml_file.h"
#include "kml/engine/style_merger.h"
#include "kml/engine/style_resolver.h"
using namespace kg;
using kmlengine::KmlFile;
using kmlengine::KmlFilePtr;
using kmlengine::StyleMerger;
using kmlengine::StyleResolver;

namespace {
const int kLimit = 5;
kmldom::StyleStateEnum State(int s) { return s ? kmldom::STYLESTATE_HIGHLIGHT : kmldom::STYLESTATE_NORMAL; }
// A document (or folder around documents) with shared styles and features that use them.
M Doc(G& g, StyleGen* sg, size_t features) {
  M doc;
  doc.t = FindType("Document");
  FV styles, feats;
  styles.f = FieldNamed(doc.t, "StyleSelector");
  feats.f = FieldNamed(doc.t, "Feature");
  size_t n = sg->ids.size();
  bool chain = g.chance(1, 3);
  for (size_t i = 0; i < n; ++i) {
    if (g.draw(10) == 9) continue;
    if (chain && i + 1 < n) sg->next = "#" + sg->ids[i + 1];
    M s = chain && i + 1 < n ? sg->Map(g, 1, true) : sg->Selector(g, g.draw(3) ? 2 : 0, true);
    sg->next.clear();
    if (g.draw(12) != 11) SetStr(&s, "id", sg->ids[g.draw(20) == 19 ? g.draw(n) : i]);
    styles.kids.push_back(s);
  }
  static const char* kF[] = {"Placemark", "Folder", "GroundOverlay", "NetworkLink"};
  for (size_t i = 0; i < features; ++i) {
    M p;
    p.t = FindType(kF[g.draw(8) < 5 ? 0 : g.draw(4)]);
    if (chain && n) sg->next = "#" + sg->ids[0];
    if (g.draw(5)) SetStr(&p, "styleUrl", sg->Url(g));
    if (g.chance(1, 2)) {
      M s = sg->Selector(g, g.draw(2), true);
      if (g.chance(1, 3)) SetStr(&s, "id", "inline" + std::to_string(i));
      Slot(&p, FieldNamed(p.t, "StyleSelector"))->kids.push_back(s);
    }
    sg->next.clear();
    feats.kids.push_back(p);
  }
  if (styles.kids.size()) doc.f.push_back(styles);
  if (feats.kids.size()) doc.f.push_back(feats);
  if (g.chance(1, 4)) {  // a second document further down also offers styles
    M inner = doc;
    Drop(&inner, "Feature");
    for (auto& f : inner.f) for (auto& k : f.kids) if (k.get("id") && g.flip()) { string id = "d" + GetStr(k, "id"); sg->ids.push_back(id); SetStr(&k, "id", id); }
    FV* fs = Slot(&doc, FieldNamed(doc.t, "Feature"));
    fs->kids.insert(fs->kids.begin(), inner);
  }
  return doc;
}
void Ids(G& g, StyleGen* sg) {
  static const char* kIds[] = {"s0", "s1", "s2", "s3", "s4", "s5", "S0", "long.id-with_marks", "1", "nope2"};
  size_t n = g.draw(8);
  for (size_t i = 0; i < n; ++i) sg->ids.push_back(kIds[i]);
  if (g.draw(60) == 59) for (size_t i = 0, k = 20 + g.draw(120); i < k; ++i) sg->ids.push_back("s" + std::to_string(i));
}
void Features(const M& m, const ElementPtr& e, std::vector<std::pair<const M*, kmldom::FeaturePtr> >* out) {
  std::vector<ElementPtr> kids;
  ChildElements(e, &kids);
  size_t i = 0;
  for (auto& f : m.f)
    for (auto& k : f.kids) {
      ElementPtr c = kids.at(i++);
      if (IsA(k.t, "Feature")) { if (!IsA(k.t, "Document")) out->push_back(std::make_pair(&k, kmldom::AsFeature(c))); Features(k, c, out); }
    }
}
void Substyles(const M& m, std::set<string>* out) {
  if (!strcmp(m.t->key, "Style")) for (auto& f : m.f) if (!f.f->attr) out->insert(f.f->xml);
  for (auto& f : m.f) for (auto& k : f.kids) Substyles(k, out);
}
void Compare(const Resolver& r, const kmldom::StylePtr& got, const std::set<string>& offered, const string& what) {
  CHECK_M(got, what << ": no style");
  CHECK_M(!got->GetParent(), what << ": the resolved style has a parent");
  X x;
  string err;
  CHECK_M(ReadXml(Raw(got), &x, &err), err);
  if (r.over) {  // past the limit: nothing invented
    for (auto& k : x.kids) CHECK_M(offered.count(k.tag), what << ": nobody has a " << k.tag);
    return;
  }
  string d = Diff(Expect(r.out), x);
  CHECK_M(d.empty(), what << ": " << d << " in " << Raw(got));
}
void Local(G& g) {
  StyleGen sg;
  Ids(g, &sg);
  M doc = Doc(g, &sg, 1 + g.size(3));
  StyleFile file;
  Collect(doc, &file.shared);
  string xml = Xml(doc), err;
  g.note(xml);
  KmlFilePtr kf;
  if (g.flip()) kf = KmlFile::CreateFromParse(xml, &err);
  else kf = KmlFile::CreateFromImportLax(Build(doc));
  CHECK_M(kf, err);
  string before = Raw(kf->get_root());
  std::set<string> offered;
  Substyles(doc, &offered);
  std::vector<std::pair<const M*, kmldom::FeaturePtr> > fs;
  Features(doc, kf->get_root(), &fs);
  bool nontrivial = false;
  for (auto& f : fs)
    for (int s = 0; s < 2; ++s) {
      Resolver r(NULL, s, kLimit);
      r.Both(file, *f.first);
      kmldom::StylePtr got;
      switch (g.draw(3)) {
        case 0: got = kmlengine::CreateResolvedStyle(f.second, kf, State(s)); break;
        case 1: got = StyleResolver::CreateResolvedStyle(f.second->get_styleurl(), f.second->get_styleselector(), kf->get_shared_style_map(), "", NULL, State(s)); break;
        default: {
          std::unique_ptr<StyleMerger> m(StyleMerger::CreateFromKmlFile(*kf, State(s)));
          m->MergeStyle(f.second->get_styleurl(), f.second->get_styleselector());
          got = m->GetResolvedStyle();
        }
      }
      Compare(r, got, offered, "feature " + Raw(f.second) + (s ? " highlight" : " normal"));
      if (r.hops > 0 && !r.over && !r.out.f.empty()) nontrivial = true;
      g.label(r.over ? "past the limit" : r.hops > 2 ? "3+ hops" : r.hops ? "1-2 hops" : "no reference followed");
      got->set_id("x");
      got->clear_iconstyle();
      got->set_linestyle(kmldom::KmlFactory::GetFactory()->CreateLineStyle());
      CHECK_EQM(Raw(kf->get_root()), before, "resolving changed the file, or the result shares with it");
    }
  if (nontrivial) g.nontrivial(xml);
  g.sample(xml);
}
void Selectors(G& g) {
  StyleGen sg;
  Ids(g, &sg);
  M doc = Doc(g, &sg, 0);
  StyleFile file;
  Collect(doc, &file.shared);
  string err;
  KmlFilePtr kf = KmlFile::CreateFromParse(Xml(doc), &err);
  CHECK_M(kf, err);
  g.note(Xml(doc));
  string before = Raw(kf->get_root()), url = sg.Url(g);
  kmldom::StyleMapPtr sm = kmldom::AsStyleMap(StyleResolver::CreateResolvedStyleSelector(url, kf->get_shared_style_map()));
  CHECK_M(sm && sm->get_pair_array_size() == 2, "not a style map of two");
  std::set<string> offered;
  Substyles(doc, &offered);
  for (int s = 0; s < 2; ++s) {
    kmldom::PairPtr p = sm->get_pair_array_at(s);
    CHECK_EQ(p->get_key(), (int)State(s));
    CHECK_T(!p->has_styleurl() && kmldom::AsStyle(p->get_styleselector()));
    Resolver r(NULL, s, kLimit);
    r.Url(file, url);
    DropIds(&r.out);
    kmldom::StylePtr st = kmldom::AsStyle(p->get_styleselector());
    CHECK_T(st->GetParent() == p);
    X x;
    CHECK_M(ReadXml(Raw(st), &x, &err), err);
    if (!r.over) {
      string d = Diff(Expect(r.out), x);
      CHECK_M(d.empty(), url << ": " << d << " in " << Raw(st));
      if (r.hops && !r.out.f.empty()) g.nontrivial(before + url);
    } else for (auto& k : x.kids) CHECK_M(offered.count(k.tag), k.tag);
  }
  CHECK_EQ(Raw(kf->get_root()), before);
}
// Any depth limit; calls of the merger one after the other share one result.
void Merger(G& g) {
  StyleGen sg;
  Ids(g, &sg);
  M doc = Doc(g, &sg, 0);
  StyleFile file;
  Collect(doc, &file.shared);
  string err;
  KmlFilePtr kf = KmlFile::CreateFromParse(Xml(doc), &err);
  CHECK_M(kf, err);
  string before = Raw(kf->get_root());
  g.note(before);
  int state = (int)g.draw(2), limit = (int)g.draw(9);
  StyleMerger m(kf->get_shared_style_map(), NULL, "", State(state), limit);
  Resolver r(NULL, state, limit);
  CHECK_EQ(m.get_nesting_depth(), limit);
  std::set<string> offered;
  Substyles(doc, &offered);
  size_t n = 1 + g.draw(4);
  for (size_t i = 0; i < n; ++i) {
    M p;
    p.t = FindType("Pair");
    if (g.draw(3)) SetStr(&p, "styleUrl", sg.Url(g));
    if (g.flip()) { M s = sg.Selector(g, 2, true); Substyles(s, &offered); Slot(&p, FieldNamed(p.t, "StyleSelector"))->kids.push_back(s); }
    kmldom::PairPtr e = kmldom::AsPair(Build(p));
    string text = Raw(e);
    g.note(text);
    m.MergeStyle(e->get_styleurl(), e->get_styleselector());
    r.Both(file, p);
    CHECK_EQM(Raw(e), text, "merging changed its source");
    Compare(r, m.GetResolvedStyle(), offered, "merge " + std::to_string(i));
    CHECK_EQM(m.get_nesting_depth() < 0, r.over, "whether the limit was exceeded");
  }
  CHECK_EQ(Raw(kf->get_root()), before);
  if (r.hops && !r.out.f.empty()) g.nontrivial(before + std::to_string(limit) + Raw(m.GetResolvedStyle()));
}
struct Fetcher : public kmlbase::NetFetcher {
  std::map<string, string> data;
  virtual bool FetchUrl(const string& url, string* out) const {
    auto it = data.find(url.substr(0, url.find('#')));
    if (it == data.end()) return false;
    *out = it->second;
    return true;
  }
};
void Remote(G& g) {
  static const char* kUrl[] = {"http://h.com/a/main.kml", "http://h.com/a/r1.kml", "http://h.com/a/sub/r2.kml", "http://h.com/a/bad.kml"};
  StyleGen sg;
  Ids(g, &sg);
  sg.bad = g.draw(4) == 3;
  size_t nid = sg.ids.size();
  for (size_t i = 0; i < nid; ++i) {
    sg.remote.push_back("r1.kml#" + sg.ids[i]);
    sg.remote.push_back("sub/r2.kml#" + sg.ids[i]);
    sg.remote.push_back("http://h.com/a/r1.kml#" + sg.ids[i]);
    sg.remote.push_back("http://h.com/a/main.kml#" + sg.ids[i]);
    sg.remote.push_back("missing.kml#" + sg.ids[i]);
    sg.remote.push_back("bad.kml#" + sg.ids[i]);
  }
  std::map<string, StyleFile> files;
  Fetcher fetcher;
  std::vector<M> docs;
  std::set<string> offered;
  for (int i = 0; i < 3; ++i) {
    docs.push_back(Doc(g, &sg, i ? 0 : 1 + g.size(2)));
    StyleFile& f = files[kUrl[i]];
    f.url = kUrl[i];
    Collect(docs[i], &f.shared);
    fetcher.data[kUrl[i]] = Xml(docs[i]);
    Substyles(docs[i], &offered);
    g.note(string(kUrl[i]) + ": " + Xml(docs[i]));
  }
  fetcher.data[kUrl[3]] = "<kml";
  kmlengine::KmlCache cache(&fetcher, 1 + g.draw(4));
  KmlFilePtr kf = KmlFile::CreateFromStringWithUrl(fetcher.data[kUrl[0]], kUrl[0], &cache);
  CHECK_T(kf);
  string before = Raw(kf->get_root());
  std::vector<std::pair<const M*, kmldom::FeaturePtr> > fs;
  Features(docs[0], kf->get_root(), &fs);
  for (auto& f : fs)
    for (int s = 0; s < 2; ++s) {
      Resolver r(&files, s, kLimit);
      r.Both(files[kUrl[0]], *f.first);
      kmldom::StylePtr got = kmlengine::CreateResolvedStyle(f.second, kf, State(s));
      Compare(r, got, offered, "feature " + Raw(f.second) + (s ? " highlight" : " normal"));
      g.label(r.over ? "past the limit" : r.hops > 2 ? "3+ hops" : r.hops ? "1-2 hops" : "no reference followed");
      if (r.hops && !r.over && !r.out.f.empty()) g.nontrivial(before + fetcher.data[kUrl[1]]);
    }
  CHECK_EQ(Raw(kf->get_root()), before);
  // The fetched files are as they came.
  for (int i = 0; i < 3; ++i) {
    KmlFilePtr x = cache.FetchKmlAbsolute(kUrl[i]);
    CHECK_T(x);
    X a, b;
    string err;
    CHECK_T(ReadXml(Raw(x->get_root()), &a, &err));
    string d = Diff(Expect(docs[i]), a);
    CHECK_M(d.empty(), "a fetched file changed: " << d);
  }
}
// Cycles and webs of references only: termination and nothing invented.
void Webs(G& g) {
  size_t n = 1 + g.draw(6), p = 1 + g.draw(6);
  M doc;
  doc.t = FindType("Document");
  FV styles;
  styles.f = FieldNamed(doc.t, "StyleSelector");
  for (size_t i = 0; i < n; ++i) {
    M m;
    m.t = FindType("StyleMap");
    SetStr(&m, "id", "s" + std::to_string(i));
    FV pairs;
    pairs.f = FieldNamed(m.t, "Pair");
    for (size_t j = 0; j < p; ++j) {
      M q;
      q.t = FindType("Pair");
      Slot(&q, FieldNamed(q.t, "key"))->v.i = (int)g.draw(2);
      SetStr(&q, "styleUrl", "#s" + std::to_string(g.draw(n)));
      pairs.kids.push_back(q);
    }
    m.f.push_back(pairs);
    styles.kids.push_back(m);
  }
  doc.f.push_back(styles);
  string err;
  KmlFilePtr kf = KmlFile::CreateFromParse(Xml(doc), &err);
  CHECK_M(kf, err);
  g.note(Xml(doc));
  kmldom::PlacemarkPtr f = kmldom::KmlFactory::GetFactory()->CreatePlacemark();
  f->set_styleurl("#s0");
  kmldom::StylePtr inl = kmldom::KmlFactory::GetFactory()->CreateStyle();
  inl->set_linestyle(kmldom::KmlFactory::GetFactory()->CreateLineStyle());
  inl->get_linestyle()->set_width(7);
  f->set_styleselector(inl);
  for (int s = 0; s < 2; ++s) {
    kmldom::StylePtr got = kmlengine::CreateResolvedStyle(f, kf, State(s));
    CHECK_EQM(Raw(got), Raw(inl), "the own style applies whatever the reference leads to");
  }
  g.nontrivial(Xml(doc));
}
}  // namespace
int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "P16",
    "Generated files with shared styles and style maps referring to each other (chains, cycles, dangling and unusable references, several documents, several files through a cache) and features with a reference, an inline style or both; "
    "oracle is a recursive overlay on the generating model, exact up to the documented limit of followed references; "
    "non-trivial = at least one reference is followed and the result is not empty; distinct by the file.",
    {{"local", 14000, 500000, Local, 0},
     {"selector", 10000, 400000, Selectors, 0},
     {"merger", 12000, 400000, Merger, 0},
     {"remote", 5000, 200000, Remote, 0},
     {"webs", 5000, 100000, Webs, pbt::kLeak}});
}
