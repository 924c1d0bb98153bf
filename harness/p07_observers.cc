// Parser observers: predicted callback trace for generated documents and veto schedules.
#include <string.h>
#include <set>
#include <sstream>
#include "kmlgen.h"
#include "kml/dom/parser.h"
#include "kml/dom/parser_observer.h"
#include "kml/dom/xsd.h"
#include "kml/engine/kml_stream.h"
using namespace kg;
using pbt::G;

namespace {
const std::set<string>& Known() {
  static std::set<string> s;
  if (s.empty())
    for (auto& t : Types()) {
      s.insert(t.tag);
      for (auto f : t.fields) if (!f->attr && !f->group && f->kind != K_TEXT && f->kind != K_COORDS) s.insert(f->xml);
    }
  return s;
}
X Foreign(G& g, int depth) {
  static const char* u[] = {"foo", "ns:bar", "gx:nope", "Placemarkx"};
  static const char* k[] = {"Placemark", "description", "name", "coordinates", "Style", "Icon", "x"};
  X x(u[g.draw(4)]);
  size_t n = depth ? g.size(2) : 0;
  for (size_t i = 0; i < n; ++i) {
    X y = Foreign(g, depth - 1);
    if (g.flip()) y.tag = k[g.draw(7)];
    x.kids.push_back(y);
  }
  if (!n && g.flip()) x.text = GenPlain(g);
  return x;
}
void Decorate(G& g, M* m, int* left) {
  bool content = true;
  for (auto f : m->t->fields) if (f->kind == K_TEXT || f->kind == K_COORDS) content = false;
  if (content && *left > 0 && g.draw(4) == 3) {
    --*left;
    if (g.flip()) m->unknown.push_back(Foreign(g, 2));
    if (g.flip()) {
      const TypeDef* t = &Types()[g.draw(Types().size())];
      if (strcmp(t->key, "IconStyleIcon")) {
        M x;
        x.t = t;
        m->misplaced.push_back(x);
      }
    }
    if (g.draw(4) == 3) { X x("visibility"); x.text = "1"; m->misplaced_leaves.push_back(x); }
  }
  for (auto& f : m->f) for (auto& k : f.kids) Decorate(g, &k, left);
}
// The known elements of the document, in document order.
struct Node { string tag; int parent; const X* x; bool leafsyntax; };
void Walk(const X& x, int parent, std::vector<Node>* v) {
  int me = (int)v->size();
  v->push_back(Node{x.tag, parent, &x, false});
  if (x.tag == "description") return;
  for (auto& k : x.kids) if (Known().count(k.tag)) Walk(k, me, v);
}
struct Event {
  char kind;  // N E A
  int el, observer;
  bool operator==(const Event& o) const { return kind == o.kind && el == o.el && observer == o.observer; }
};
void Trace(const std::vector<Node>& v, int i, const std::vector<std::vector<int>>& kids, std::vector<Event>* out) {
  out->push_back(Event{'N', i, 0});
  for (int k : kids[i]) Trace(v, k, kids, out);
  if (v[i].parent >= 0) { out->push_back(Event{'E', i, 0}); out->push_back(Event{'A', i, 0}); }
}
typedef std::vector<std::set<std::pair<char, int>>> Vetoes;
struct Log {
  std::vector<Event> ev;
  std::vector<ElementPtr> els;  // keeps them alive: identity is by pointer
  std::vector<string> tags;
  string problem;
  int Find(const ElementPtr& e) {
    for (size_t i = els.size(); i--;) if (els[i] == e) return (int)i;
    return -1;
  }
};
string TagOf(const ElementPtr& e) {
  if (const TypeDef* t = TypeById(e->Type())) return t->tag;
  return kmldom::Xsd::GetSchema()->ElementName(e->Type());
}
class Obs : public kmldom::ParserObserver {
 public:
  Obs(Log* l, int id, const std::vector<Node>* n, const std::set<std::pair<char, int>>& v) : l_(l), id_(id), n_(n), v_(v) {}
  virtual bool NewElement(const ElementPtr& e) {
    int i = l_->Find(e);
    if (i < 0) { i = (int)l_->els.size(); l_->els.push_back(e); l_->tags.push_back(TagOf(e)); }
    else if (id_ == 0) l_->problem = "element announced twice";
    return Got('N', i);
  }
  virtual bool EndElement(const ElementPtr& p, const ElementPtr& c) { Pair(p, c, "end"); return Got('E', l_->Find(c)); }
  virtual bool AddChild(const ElementPtr& p, const ElementPtr& c) { Pair(p, c, "add"); return Got('A', l_->Find(c)); }
 private:
  void Pair(const ElementPtr& p, const ElementPtr& c, const char* w) {
    int i = l_->Find(c), j = l_->Find(p);
    if (i < 0 || j < 0) l_->problem = string(w) + ": element that was never announced";
    else if (i >= (int)n_->size() || (*n_)[i].parent != j) l_->problem = string(w) + ": wrong parent for element " + std::to_string(i);
  }
  bool Got(char k, int i) {
    l_->ev.push_back(Event{k, i, id_});
    return !v_.count(std::make_pair(k, i));
  }
  Log* l_;
  int id_;
  const std::vector<Node>* n_;
  std::set<std::pair<char, int>> v_;
};
string Show(const Event& e) { return string(1, e.kind) + std::to_string(e.el) + "@" + std::to_string(e.observer); }
string Show(const std::vector<Event>& v) { string s; for (auto& e : v) s += Show(e) + " "; return s; }
// Copies x without the pruned known elements.
X Prune(const X& x, const std::set<const X*>& gone) {
  X y(x.tag);
  y.attrs = x.attrs;
  y.text = x.text;
  for (auto& k : x.kids) if (!gone.count(&k)) y.kids.push_back(Prune(k, gone));
  return y;
}
void Run(G& g, const string& xml, const Vetoes& vetoes, bool stream) {
  g.note(xml);
  X root;
  string err;
  CHECK_M(ReadXml(xml, &root, &err), "harness: " << err);
  std::vector<Node> nodes;
  Walk(root, -1, &nodes);
  std::vector<std::vector<int>> kids(nodes.size());
  for (size_t i = 1; i < nodes.size(); ++i) kids[nodes[i].parent].push_back((int)i);
  std::vector<Event> base, want;
  Trace(nodes, 0, kids, &base);
  // Simulate.
  int stopped = -1;
  std::set<const X*> gone;
  std::set<std::pair<char, int>> optional;
  for (auto& e : base) {
    bool refused = false;
    for (size_t o = 0; o < vetoes.size() && !refused; ++o) {
      want.push_back(Event{e.kind, e.el, (int)o});
      refused = vetoes[o].count(std::make_pair(e.kind, e.el)) > 0;
    }
    if (refused && e.kind == 'E') { gone.insert(nodes[e.el].x); optional.insert(std::make_pair('A', e.el)); }
    else if (refused) { stopped = e.el; break; }
  }
  Log log;
  ElementPtr r;
  {
    kmldom::Parser p;
    std::vector<Obs*> obs;
    for (size_t o = 0; o < vetoes.size(); ++o) obs.push_back(new Obs(&log, (int)o, &nodes, vetoes[o]));
    if (stream) {
      std::istringstream in(xml);
      kmlengine::KmlStream* s = kmlengine::KmlStream::ParseFromIstream(&in, &err, obs[0]);
      if (s) r = s->get_root();
      delete s;
    } else {
      for (auto o : obs) p.AddObserver(o);
      r = p.Parse(xml, &err);
    }
    for (auto o : obs) delete o;
  }
  g.note("expected " + Show(want));
  g.note("got      " + Show(log.ev));
  CHECK_M(log.problem.empty(), log.problem);
  for (size_t i = 0; i < log.els.size(); ++i) {
    CHECK_M(i < nodes.size(), "more elements announced than the document has");
    CHECK_EQM(log.tags[i], nodes[i].tag, "element " << i);
  }
  // What comes after a stop may only concern the very element (an empty-element tag ends at once).
  // Whether an addition that was refused is still announced is left open.
  auto strip = [&](const std::vector<Event>& v) {
    std::vector<Event> o;
    for (auto& e : v) if (!optional.count(std::make_pair(e.kind, e.el))) o.push_back(e);
    return o;
  };
  std::vector<Event> a = strip(log.ev), b = strip(want);
  for (size_t i = 0; i < b.size(); ++i) {
    CHECK_M(i < a.size(), "callback " << Show(b[i]) << " is missing");
    CHECK_M(a[i] == b[i], "callback " << i << " is " << Show(a[i]) << ", expected " << Show(b[i]));
  }
  for (size_t i = b.size(); i < a.size(); ++i)
    CHECK_M(stopped >= 0 && a[i].el == stopped && a[i].kind != 'N', "unexpected callback " << Show(a[i]));
  if (stopped >= 0) {
    CHECK_M(!r, "the parse succeeds although an observer stopped it");
    CHECK_M(!err.empty(), "no error for a stopped parse");
  } else {
    CHECK_M(r, "rejected: " << err);
    CHECK_M(r == log.els[0], "the root is not the first element announced");
    ElementPtr plain = kmldom::Parse(XToString(Prune(root, gone)), &err);
    CHECK_M(plain, "harness: " << err);
    CHECK_M(Raw(r) == Raw(plain), "tree is\n" << Raw(r) << "\nexpected\n" << Raw(plain));
  }
  g.label(stopped >= 0 ? "stopped" : gone.size() ? "withheld" : "plain");
  g.label(std::to_string(vetoes.size()) + " observers");
  if (nodes.size() >= 4) g.nontrivial(xml + Show(want));
  g.sample(xml + "  ==> " + Show(want));
}
string Doc(G& g, int budget) {
  GenOpts o;
  o.budget = budget;
  o.nasty = false;
  M m = GenTree(g, g.draw(3) ? PickRoot(g) : FindType("kml"), o);
  int left = 3;
  Decorate(g, &m, &left);
  RenderOpts ro;
  ro.cdata = false;
  return Render(g, m, ro);
}
void Plain(G& g) {
  Vetoes v(1 + g.draw(3));
  string x = Doc(g, 15);
  Run(g, x, v, g.draw(4) == 3 && v.size() == 1);
}
Vetoes GenV(G& g, size_t n, bool stop, bool withhold) {
  Vetoes v(1 + g.draw(4));
  if (withhold) {
    size_t k = 1 + g.size(3);
    for (size_t i = 0; i < k; ++i) v[g.draw(v.size())].insert(std::make_pair('E', n > 1 ? 1 + (int)g.draw(n - 1) : 0));
  }
  if (stop) {
    char kind = g.flip() ? 'A' : 'N';
    int el = (int)g.draw(n);
    bool clash = false;
    for (auto& s : v) if (s.count(std::make_pair('E', el))) clash = true;
    if (!clash) v[g.draw(v.size())].insert(std::make_pair(kind, el));
  }
  return v;
}
void Veto(G& g) {
  string x = Doc(g, 10), err;
  X root;
  CHECK_M(ReadXml(x, &root, &err), "harness: " << err);
  std::vector<Node> nodes;
  Walk(root, -1, &nodes);
  int mode = 1 + (int)g.draw(3);
  Vetoes v = GenV(g, nodes.size(), mode & 1, mode & 2);
  Run(g, x, v, v.size() == 1 && g.flip());
}
}  // namespace
int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "P07",
    "Generated documents (with unknown and misplaced content) parsed with one to four observers, each refusing generated events; the callback trace, element "
    "identities, parents, outcome and resulting tree are predicted from an independent reading; non-trivial = at least four known elements; distinct by document and schedule.",
    {{"trace", 50000, 1500000, Plain, 0},
     {"veto", 90000, 3000000, Veto, 0}});
}
