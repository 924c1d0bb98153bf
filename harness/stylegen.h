// Documents with style graphs, and a reference resolver on the model.
#ifndef VERIF_STYLEGEN_H
#define VERIF_STYLEGEN_H
#include "mergemodel.h"
namespace {
using pbt::G;
const Field* FieldNamed(const TypeDef* t, const char* xml) {
  for (auto f : t->fields) if (!strcmp(f->xml, xml)) return f;
  return NULL;
}
void SetStr(M* m, const char* xml, const string& v) { Slot(m, FieldNamed(m->t, xml))->v.s = v; }
string GetStr(const M& m, const char* xml) { const FV* f = m.get(xml); return f ? f->v.s : ""; }
void Drop(M* m, const char* xml) {
  for (size_t i = 0; i < m->f.size();) if (!strcmp(m->f[i].f->xml, xml)) m->f.erase(m->f.begin() + i); else ++i;
}
void DropIds(M* m) {
  for (size_t i = 0; i < m->f.size();) {
    if (m->f[i].f->attr && !strcmp(m->f[i].f->xml, "id")) { m->f.erase(m->f.begin() + i); continue; }
    for (auto& k : m->f[i].kids) DropIds(&k);
    ++i;
  }
}
struct StyleGen {
  std::vector<string> ids;     // what local references may name
  std::vector<string> remote;  // references to other files
  bool bad;                    // also dangling and unusable references
  int refs;
  string next;                 // preferred reference
  StyleGen() : bad(true), refs(0) {}
  string Url(G& g) {
    static const char* kBad[] = {"#nope", "", "nofragment", "a b#c", "other.kml#s0", "#", "http://", "%#s0"};
    if (bad && g.chance(1, 6)) return kBad[g.draw(8)];
    ++refs;
    if (!next.empty() && g.draw(5)) return next;
    if (!remote.empty() && g.chance(1, 3)) return remote[g.draw(remote.size())];
    return ids.empty() ? "#nope" : "#" + ids[g.draw(ids.size())];
  }
  M Style(G& g) {
    GenOpts o;
    o.budget = 1 + g.draw(5);
    o.max_depth = 3;
    o.leaf_den = 2;
    o.nasty = false;
    o.ids = g.chance(1, 4);
    M m = GenTree(g, FindType("Style"), o);
    Drop(&m, "id");
    Drop(&m, "targetId");
    Tidy(&m);
    return m;
  }
  M Map(G& g, int depth, bool refs_ok) {
    M m;
    m.t = FindType("StyleMap");
    FV pairs;
    pairs.f = FieldNamed(m.t, "Pair");
    size_t n = g.draw(4) ? 1 + g.draw(3) : g.size(8);
    for (size_t i = 0; i < n; ++i) {
      M p;
      p.t = FindType("Pair");
      if (g.draw(6)) Slot(&p, FieldNamed(p.t, "key"))->v.i = (int)g.draw(2);
      if (refs_ok && g.draw(4)) SetStr(&p, "styleUrl", Url(g));
      if (g.chance(1, 3)) Slot(&p, FieldNamed(p.t, "StyleSelector"))->kids.push_back(Selector(g, depth - 1, refs_ok));
      pairs.kids.push_back(p);
    }
    if (n) m.f.push_back(pairs);
    return m;
  }
  M Selector(G& g, int depth, bool refs_ok) { return depth > 0 && g.draw(2) ? Map(g, depth, refs_ok) : Style(g); }
};
// What a file offers to others, and where it is.
struct StyleFile { string url; std::map<string, M> shared; };
void Collect(const M& m, std::map<string, M>* shared) {
  for (auto& f : m.f)
    for (auto& k : f.kids) {
      if (!strcmp(m.t->key, "Document") && IsA(k.t, "StyleSelector") && k.get("id")) (*shared)[GetStr(k, "id")] = k;
      Collect(k, shared);
    }
}
struct Resolver {
  const std::map<string, StyleFile>* files;  // by address
  int state, limit, followed, hops, depth;
  bool over;
  M out;
  Resolver(const std::map<string, StyleFile>* f, int s, int l) : files(f), state(s), limit(l), followed(0), hops(0), depth(0), over(false) { out.t = FindType("Style"); }
  void Url(const StyleFile& file, const string& url) {
    if (url.empty()) return;
    if (followed++ >= limit) { over = true; return; }
    if (url == "a b#c" || url == "%#s0") return;
    size_t h = url.find('#');
    if (h == string::npos || h + 1 == url.size()) return;
    string id = url.substr(h + 1), path = url.substr(0, h);
    const StyleFile* f = &file;
    if (!path.empty()) {
      if (!files || file.url.empty()) return;
      string abs = path.find("://") != string::npos ? path : file.url.substr(0, file.url.rfind('/') + 1) + path;
      auto it = files->find(abs);
      if (it == files->end()) return;
      f = &it->second;
    }
    auto s = f->shared.find(id);
    if (s == f->shared.end()) return;
    ++depth;
    hops = std::max(hops, depth);
    Select(*f, s->second);
    --depth;
  }
  void Select(const StyleFile& file, const M& sel) {
    if (!strcmp(sel.t->key, "Style")) { Overlay(sel, &out, true); return; }
    const FV* pairs = sel.get("Pair");
    if (!pairs) return;
    for (auto& p : pairs->kids) {
      const FV* key = p.get("key");
      if ((key ? key->v.i : 0) != state) continue;
      Both(file, p);
    }
  }
  void Both(const StyleFile& file, const M& holder) {
    Url(file, GetStr(holder, "styleUrl"));
    if (const FV* s = holder.get("StyleSelector")) Select(file, s->kids[0]);
  }
};
}  // namespace
#endif
