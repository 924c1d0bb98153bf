#include "foreign.h"
#include <string.h>
#include <set>
using pbt::G;
namespace kg {
int g_injected;
bool ElementContent(const TypeDef* t) {
  for (auto f : t->fields) if (f->kind == K_TEXT || f->kind == K_COORDS) return false;
  return true;
}
bool Accepts(const TypeDef* p, const TypeDef* c) {
  if (!strcmp(p->key, "NetworkLink") && !strcmp(c->key, "Url")) return true;  // legacy spelling of Link
  for (auto f : p->fields) {
    if (f->kind != K_ELEM && f->kind != K_ELEMS) continue;
    for (auto t : Candidates(f)) if (!strcmp(t->tag, c->tag)) return true;
    if (f->group && IsA(c, f->arg)) return true;
  }
  return false;
}
// Simple elements of the vocabulary.
const std::vector<string>& Simple() {
  static std::vector<string> v;
  if (v.empty()) {
    std::set<string> s;
    for (auto& t : Types()) for (auto f : t.fields)
      if (!f->attr && f->kind != K_ELEM && f->kind != K_ELEMS && f->kind != K_TEXT && f->kind != K_COORDS) s.insert(f->xml);
    for (auto& t : Types()) s.erase(t.tag);
    s.erase("description");
    v.assign(s.begin(), s.end());
  }
  return v;
}
X GenForeign(G& g, int depth, bool top) {
  static const char* u[] = {"foo", "bar", "ns:baz", "Placemarks", "x-1", "gx:NotThere", "atom:zzz", "u.v", "_q", "KML", "placemark"};
  static const char* k[] = {"Placemark", "description", "name", "coordinates", "Snippet", "Schema", "kml", "Style", "IconStyle", "Icon", "SimpleData"};
  X x(top || g.draw(3) ? u[g.draw(11)] : k[g.draw(11)]);
  size_t na = g.size(3);
  for (size_t i = 0; i < na; ++i) {
    static const char* an[] = {"id", "a", "b:c", "name", "parent", "href", "xmlns:q", "xml:lang"};
    x.attrs[an[g.draw(8)]] = GenString(g, true, 10);
  }
  int large = top ? (int)g.draw(40) : 0;  // 1: many attributes, 2: deep, 3: many children
  if (large == 1) for (size_t i = 0, n = g.range(4, 200); i < n; ++i) x.attrs["a" + std::to_string(i)] = GenPlain(g);
  if (large == 2) {
    X in = GenForeign(g, 0, false);
    for (size_t i = 0, n = g.range(4, 60); i < n; ++i) {
      X out(u[g.draw(11)]);
      out.runs.push_back(g.draw(4) ? "" : GenPlain(g));
      out.runs.push_back(g.draw(4) ? "" : GenPlain(g));
      out.text = out.runs[0] + out.runs[1];
      out.kids.push_back(in);
      in = out;
    }
    x.kids.push_back(in);
    x.runs.assign(2, "");
    return x;
  }
  size_t nk = large == 3 ? g.range(4, 40) : depth > 0 ? g.size(3) : 0;
  if (large == 3) depth = 1;
  for (size_t i = 0; i < nk; ++i) x.kids.push_back(GenForeign(g, depth - 1, false));
  for (size_t i = 0; i <= nk; ++i) {
    x.runs.push_back(g.draw(2) ? GenString(g, true, 10) : "");
    x.text += x.runs.back();
  }
  return x;
}
void Decorate(G& g, M* m, const GenOpts& o, int depth) {
  if (g_injected < 8 && g.draw(depth < 3 ? 3 : 8) == 1) {
    if (strcmp(m->t->key, "coordinates") && g.draw(2)) {
      size_t n = 1 + g.size(2);
      for (size_t i = 0; i < n; ++i) {
        static const char* an[] = {"foo", "Bar", "q:r", "xmlns:zz", "xmlns", "xmlns:gx", "targetid", "Id", "xml:lang", "x1", "schemaUrl2"};
        m->extra_attrs[an[g.draw(11)]] = GenString(g, true, 12);
        ++g_injected;
      }
      if (g.draw(40) == 1) for (size_t i = 0, k = g.range(4, 200); i < k; ++i) m->extra_attrs["z" + std::to_string(i)] = GenPlain(g);
    }
    if (ElementContent(m->t)) {
      if (g.draw(2)) {
        size_t n = g.draw(60) == 1 ? g.range(4, 30) : 1 + g.size(2);
        for (size_t i = 0; i < n; ++i) {
          const TypeDef* t = &Types()[g.draw(Types().size())];
          if (!strcmp(t->key, "IconStyleIcon") || Accepts(m->t, t)) continue;
          int b = 3;
          GenOpts o2 = o;
          o2.max_depth = 3;
          m->misplaced.push_back(Gen(g, t, o2, &b, 0));
          ++g_injected;
        }
      }
      if (g.draw(2)) {
        size_t n = g.draw(60) == 1 ? g.range(4, 30) : 1 + g.size(2);
        for (size_t i = 0; i < n; ++i) {
          const string& tag = Simple()[g.draw(Simple().size())];
          bool own = false;
          for (auto f : m->t->fields) if (tag == f->xml) own = true;
          if (own) continue;
          X x(tag);
          x.text = GenString(g, true, 16);
          m->misplaced_leaves.push_back(x);
          ++g_injected;
        }
      }
      if (g.draw(2)) {
        size_t n = g.draw(60) == 1 ? (g.flip() ? g.range(4, 30) : g.range(60, 200)) : 1 + g.size(2);
        for (size_t i = 0; i < n; ++i) { m->unknown.push_back(GenForeign(g, (int)g.range(0, 3), true)); ++g_injected; }
      }
    }
  }
  for (auto& f : m->f) for (auto& k : f.kids) Decorate(g, &k, o, depth + 1);
  for (auto& k : m->misplaced) if (depth < 4) Decorate(g, &k, o, depth + 1);
}
void ChildElements(const ElementPtr& e, std::vector<ElementPtr>* out) {
  const TypeDef* t = TypeById(e->Type());
  if (!t) return;
  for (auto f : t->fields) {
    if (f->kind == K_ELEM && f->has(e.get())) {
      Val v;
      f->get(e.get(), v);
      out->push_back(v.e);
    } else if (f->kind == K_ELEMS) {
      for (size_t i = 0, n = f->count(e.get()); i < n; ++i) {
        Val v;
        f->at(e.get(), i, v);
        out->push_back(v.e);
      }
    }
  }
}
static void Walk(const ElementPtr& e, int parent, std::vector<Node>* out) {
  int me = (int)out->size();
  Node n;
  n.e = e;
  n.parent = parent;
  out->push_back(n);
  std::vector<ElementPtr> k;
  ChildElements(e, &k);
  for (auto& c : k) Walk(c, me, out);
}
std::vector<Node> AllNodes(const ElementPtr& root) {
  std::vector<Node> v;
  if (root) Walk(root, -1, &v);
  return v;
}
}  // namespace kg
