// The single-parent rule over histories of attach, replace, clear and remove.
#include <string.h>
#include <map>
#include <set>
#include "kmlgen.h"
using namespace kg;
using pbt::G;
using kmldom::AsContainer;
using kmldom::AsDocument;

namespace {
struct Node {
  const TypeDef* t;
  ElementPtr e;          // our own handle
  bool owned;            // was ever given a parent
  int parent;            // -1: none; only meaningful while attached
  bool attached;
  std::map<size_t, std::vector<int>> kids;  // field index -> children
};
struct World {
  std::vector<Node> n;
  bool Below(int a, int b) const {  // b is a or an ancestor of a
    for (int x = a; x >= 0; x = n[x].attached ? n[x].parent : -1) if (x == b) return true;
    return false;
  }
};
const std::vector<const TypeDef*>& Pool() {
  static std::vector<const TypeDef*> v;
  if (v.empty()) for (auto& t : Types()) {
    bool kids = false;
    for (auto f : t.fields) if (f->kind == K_ELEM || f->kind == K_ELEMS) kids = true;
    // Types that can contain something, favouring the containers.
    if (kids) v.push_back(&t);
  }
  return v;
}
int New(World* w, const TypeDef* t) {
  Node x;
  x.t = t;
  x.e = t->create();
  x.owned = x.attached = false;
  x.parent = -1;
  w->n.push_back(x);
  return (int)w->n.size() - 1;
}
void Verify(const World& w, const string& after) {
  for (size_t i = 0; i < w.n.size(); ++i) {
    const Node& x = w.n[i];
    if (!x.e) continue;
    if (x.attached) {
      if (w.n[x.parent].e) CHECK_M(x.e->GetParent() == w.n[x.parent].e, "after " << after << ": element " << i << " has the wrong parent");
    } else if (!x.owned) {
      CHECK_M(!x.e->GetParent(), "after " << after << ": element " << i << " has a parent although it was never attached");
    }
    for (size_t k = 0; k < x.t->fields.size(); ++k) {
      const Field* f = x.t->fields[k];
      if (f->kind != K_ELEM && f->kind != K_ELEMS) continue;
      auto it = x.kids.find(k);
      size_t want = it == x.kids.end() ? 0 : it->second.size();
      auto where = [&]() { return "after " + after + ": element " + std::to_string(i) + " " + x.t->key + "." + f->suffix; };
      if (f->kind == K_ELEM) {
        Val v;
        f->get(x.e.get(), v);
        CHECK_EQM(v.e != NULL, want == 1, where());
        if (want) CHECK_M(!w.n[it->second[0]].e || v.e == w.n[it->second[0]].e, where() << " holds another element");
        if (want) CHECK_M(v.e->GetParent() == x.e, where() << ": child does not know its parent");
        if (f->has) CHECK_EQM(f->has(x.e.get()), want == 1, where());
      } else {
        CHECK_EQM(f->count(x.e.get()), want, where() << ": number of children");
        for (size_t j = 0; j < want; ++j) {
          Val v;
          f->at(x.e.get(), j, v);
          CHECK_M(v.e, where());
          CHECK_M(!w.n[it->second[j]].e || v.e == w.n[it->second[j]].e, where() << ": child " << j << " is another element");
          CHECK_M(v.e->GetParent() == x.e, where() << ": child does not know its parent");
        }
      }
    }
  }
}
size_t PickField(G& g, const TypeDef* t) {
  std::vector<size_t> c;
  for (size_t k = 0; k < t->fields.size(); ++k) if (t->fields[k]->kind == K_ELEM || t->fields[k]->kind == K_ELEMS) c.push_back(k);
  return c.empty() ? SIZE_MAX : c[g.draw(c.size())];
}
void Detach(World* w, int c) { w->n[c].attached = false; w->n[c].parent = -1; }
string Attach(World* w, int p, size_t k, int c) {
  const Field* f = w->n[p].t->fields[k];
  Val v;
  v.e = w->n[c].e;
  f->set(w->n[p].e.get(), v);
  bool ok = !w->n[c].owned;
  if (ok) {
    auto& l = w->n[p].kids[k];
    if (f->kind == K_ELEM) { for (int o : l) Detach(w, o); l.clear(); }
    l.push_back(c);
    w->n[c].owned = w->n[c].attached = true;
    w->n[c].parent = p;
  }
  return string(ok ? "attach " : "refused attach of ") + w->n[c].t->key + std::to_string(c) + " to " + w->n[p].t->key + std::to_string(p) + "." + f->suffix;
}
bool Fits(const Field* f, const TypeDef* t) {
  for (auto c : Candidates(f)) if (c == t) return true;
  return false;
}
void Body(G& g, World* w, const std::vector<const TypeDef*>& pool, size_t steps, size_t* refused, size_t* removed, string* log) {
  for (size_t s = 0; s < steps; ++s) {
    string op;
    std::vector<int> live;
    for (size_t i = 0; i < w->n.size(); ++i) if (w->n[i].e) live.push_back((int)i);
    size_t what = live.empty() ? 0 : g.weighted({2, 6, 3, 1, 3, 1});
    if (what == 0) {
      int i = New(w, pool[g.draw(pool.size())]);
      op = string("create ") + w->n[i].t->key + std::to_string(i);
    } else if (what == 1) {  // attach a fresh child of a fitting type
      int p = live[g.draw(live.size())];
      size_t k = PickField(g, w->n[p].t);
      if (k == SIZE_MAX) continue;
      auto c = Candidates(w->n[p].t->fields[k]);
      op = Attach(w, p, k, New(w, c[g.draw(c.size())]));
    } else if (what == 2) {  // attach an existing element, often one that has a parent
      int p = live[g.draw(live.size())];
      size_t k = PickField(g, w->n[p].t);
      if (k == SIZE_MAX) continue;
      std::vector<int> c;
      for (int i : live) if (Fits(w->n[p].t->fields[k], w->n[i].t) && (w->n[i].owned || !w->Below(p, i))) c.push_back(i);
      if (c.empty()) continue;
      int i = c[g.draw(c.size())];
      if (w->n[i].owned && !w->n[i].attached) continue;  // what was removed may or may not be attachable again
      if (w->n[i].owned) ++*refused;
      op = Attach(w, p, k, i);
    } else if (what == 3) {  // clear a single child
      int p = live[g.draw(live.size())];
      size_t k = PickField(g, w->n[p].t);
      if (k == SIZE_MAX) continue;
      const Field* f = w->n[p].t->fields[k];
      if (f->kind != K_ELEM) continue;
      f->clear(w->n[p].e.get());
      auto& l = w->n[p].kids[k];
      if (!l.empty()) ++*removed;
      for (int o : l) Detach(w, o);
      l.clear();
      op = string("clear ") + w->n[p].t->key + std::to_string(p) + "." + f->suffix;
    } else if (what == 4) {  // delete from a container
      std::vector<int> c;
      for (int i : live) if (AsContainer(w->n[i].e)) c.push_back(i);
      if (c.empty()) continue;
      int p = c[g.draw(c.size())];
      const char* name = "feature";
      size_t kind = AsDocument(w->n[p].e) ? g.draw(3) : 0;
      if (kind == 1) name = "schema";
      if (kind == 2) name = "styleselector";
      size_t k = 0;
      while (k < w->n[p].t->fields.size() && (strcmp(w->n[p].t->fields[k]->suffix, name) || w->n[p].t->fields[k]->kind != K_ELEMS)) ++k;
      if (k == w->n[p].t->fields.size()) throw pbt::Fail("harness", name);
      auto& l = w->n[p].kids[k];
      size_t i = g.draw(l.size() + 2);
      ElementPtr got;
      if (kind == 0 && g.draw(3) == 2) {  // by id
        string id = "i" + std::to_string(g.draw(4));
        if (g.draw(5) == 4) id = g.flip() ? "" : "i";  // the id of nothing, unless given
        i = l.size();
        for (size_t j = l.size(); j--;) {
          Val v;
          w->n[p].t->fields[k]->at(w->n[p].e.get(), j, v);
          kmldom::FeaturePtr ft = kmldom::AsFeature(v.e);
          if (ft->has_id() && ft->get_id() == id) i = j;
        }
        got = AsContainer(w->n[p].e)->DeleteFeatureById(id);
        op = "delete feature " + id;
      } else {
        if (kind == 0) got = AsContainer(w->n[p].e)->DeleteFeatureAt(i);
        if (kind == 1) got = AsDocument(w->n[p].e)->DeleteSchemaAt(i);
        if (kind == 2) got = AsDocument(w->n[p].e)->DeleteStyleSelectorAt(i);
        op = string("delete ") + name + " " + std::to_string(i);
      }
      op += " of " + std::to_string(p);
      if (i >= l.size()) CHECK_M(!got, op << ": something was removed");
      else {
        CHECK_M(got, op << ": nothing was removed");
        CHECK_M(!w->n[l[i]].e || got == w->n[l[i]].e, op << ": the wrong element was removed");
        Detach(w, l[i]);
        l.erase(l.begin() + i);
        ++*removed;
      }
    } else {  // forget our own handle of an attached element, or set an id on it first
      int p = live[g.draw(live.size())];
      if (g.flip() || !w->n[p].attached) {
        if (kmldom::ObjectPtr o = kmldom::AsObject(w->n[p].e)) o->set_id("i" + std::to_string(g.draw(4)));
        op = "set id";
      } else {
        w->n[p].e = NULL;
        op = "forget " + std::to_string(p);
        // Its children are reachable through the tree only.
      }
    }
    g.note(op);
    *log += op + "; ";
    Verify(*w, op);
  }
}
void History(G& g) {
  World w;
  size_t refused = 0, removed = 0;
  string log;
  Body(g, &w, Pool(), g.draw(60) == 59 ? 150 + g.draw(150) : 2 + g.draw(25), &refused, &removed, &log);
  if (refused || removed) g.nontrivial(log);
  g.label(refused ? "with refusal" : "no refusal");
  g.label(removed ? "with removal" : "no removal");
  g.sample(log);
}
void Containers(G& g) {
  static std::vector<const TypeDef*> pool;
  if (pool.empty()) for (auto k : {"Document", "Folder", "Placemark", "MultiGeometry", "Style", "gx:Playlist", "gx:Tour"}) pool.push_back(FindType(k));
  World w;
  size_t refused = 0, removed = 0;
  string log;
  New(&w, FindType("Document"));
  New(&w, FindType("Folder"));
  Body(g, &w, pool, g.draw(60) == 59 ? 150 + g.draw(150) : 5 + g.draw(35), &refused, &removed, &log);
  if (refused || removed) g.nontrivial(log);
  g.label(refused ? "with refusal" : "no refusal");
  g.label(removed ? "with removal" : "no removal");
}
// Every child-valued field: attach twice to the same and to another parent.
std::vector<std::pair<const TypeDef*, size_t>>& Slots() {
  static std::vector<std::pair<const TypeDef*, size_t>> v;
  if (v.empty()) for (auto& t : Types()) for (size_t k = 0; k < t.fields.size(); ++k)
    if (t.fields[k]->kind == K_ELEM || t.fields[k]->kind == K_ELEMS) v.push_back({&t, k});
  return v;
}
void Each(G& g) {
  auto p = Slots()[g.enumerate(Slots().size())];
  World w;
  int a = New(&w, p.first), b = New(&w, p.first);
  auto cand = Candidates(p.first->fields[p.second]);
  int c = New(&w, cand[g.draw(cand.size())]), d = New(&w, cand[g.draw(cand.size())]);
  string log;
  std::vector<std::pair<int, int>> steps;
  size_t n = 2 + g.draw(5);
  for (size_t i = 0; i < n; ++i) {
    int x = g.flip() ? d : c;
    if (w.n[x].owned && !w.n[x].attached) continue;
    string op = Attach(&w, g.flip() ? b : a, p.second, x);
    log += op + "; ";
    g.note(op);
    Verify(w, op);
  }
  g.nontrivial(log);
}
}  // namespace
int main(int argc, char** argv) {
  long n = (long)Slots().size();
  return pbt::Main(argc, argv, "P09",
    "Histories of create, attach, re-attach, replace, clear and delete over elements of every type that has child elements, against a forest model, under ASan with leak "
    "accounting; every child-valued field is enumerated; non-trivial = a refused attach or a removal happened; distinct by history.",
    {{"history", 40000, 1500000, History, pbt::kLeak},
     {"containers", 30000, 1500000, Containers, pbt::kLeak},
     {"each_field", n * 60, n * 1000, Each, pbt::kLeak}});
}
