// Every field of every element type as an optional value: stateful model.
#include <string.h>
#include <map>
#include "kmlgen.h"
using namespace kg;
using pbt::G;

namespace {
// Defaults of the KML 2.2 standard that are not zero, false or empty.
struct Dflt { const char* cls; const char* suffix; double num; const char* color; };
const Dflt kDefaults[] = {
  {"AbstractLatLonBox", "east", 180, 0}, {"AbstractLatLonBox", "north", 180, 0}, {"AbstractLatLonBox", "south", -180, 0}, {"AbstractLatLonBox", "west", -180, 0},
  {"AbstractLink", "refreshinterval", 4, 0}, {"AbstractLink", "viewboundscale", 1, 0}, {"AbstractLink", "viewrefreshtime", 4, 0},
  {"BalloonStyle", "bgcolor", 0, "ffffffff"}, {"BalloonStyle", "textcolor", 0, "ff000000"}, {"ColorStyle", "color", 0, "ffffffff"},
  {"Feature", "visibility", 1, 0}, {"IconStyle", "scale", 1, 0}, {"ImagePyramid", "tilesize", 256, 0}, {"LabelStyle", "scale", 1, 0},
  {"LineStyle", "width", 1, 0}, {"ListStyle", "bgcolor", 0, "ffffffff"}, {"ListStyle", "maxsnippetlines", 2, 0}, {"Lod", "maxlodpixels", -1, 0},
  {"Overlay", "color", 0, "ffffffff"}, {"PolyStyle", "fill", 1, 0}, {"PolyStyle", "outline", 1, 0}, {"Scale", "x", 1, 0}, {"Scale", "y", 1, 0},
  {"Scale", "z", 1, 0}, {"SnippetCommon", "maxlines", 2, 0}, {"Vec2", "x", 1, 0}, {"Vec2", "y", 1, 0}};
Val Default(const Field* f) {
  Val v;
  v.c = kmlbase::Color32(0, 0, 0, 0);
  if (f->kind == K_COLOR) v.c.set_color_abgr(0xffffffffu);
  for (auto& d : kDefaults)
    if (!strcmp(d.cls, f->cls) && !strcmp(d.suffix, f->suffix)) {
      v.d = d.num; v.i = (int)d.num; v.b = d.num != 0;
      if (d.color) v.c.set_color_abgr((uint32_t)strtoul(d.color, 0, 16));
    }
  return v;
}
bool Same(const Field* f, const Val& a, const Val& b) {
  switch (f->kind) {
    case K_STR: case K_TEXT: case K_STRS: return a.s == b.s;
    case K_BOOL: return a.b == b.b;
    case K_INT: case K_ENUM: case K_ENUMS: return a.i == b.i;
    case K_DBL: return a.d == b.d;
    case K_COLOR: return a.c.get_color_abgr() == b.c.get_color_abgr();
    case K_ELEM: case K_ELEMS: return a.e == b.e;
    default: return a.v.get_longitude() == b.v.get_longitude() && a.v.get_latitude() == b.v.get_latitude() &&
                    a.v.get_altitude() == b.v.get_altitude() && a.v.has_altitude() == b.v.has_altitude();
  }
}
bool Array(const Field* f) { return f->kind == K_ELEMS || f->kind == K_STRS || f->kind == K_VEC3S || f->kind == K_ENUMS || f->kind == K_COORDS; }
string Str(const Field* f, const Val& v) {
  if (f->kind == K_ELEM || f->kind == K_ELEMS) return v.e ? "element" : "none";
  return ValStr(f, v);
}
struct Slot { bool has; Val v; std::vector<Val> list; Slot() : has(false) {} };
struct Model {
  const TypeDef* t;
  ElementPtr e;
  std::vector<Slot> s;
};
Model Fresh(const TypeDef* t) {
  Model m;
  m.t = t;
  m.e = t->create();
  m.s.resize(t->fields.size());
  // The item icon states start as the documented default, "open".
  for (size_t i = 0; i < t->fields.size(); ++i) if (t->fields[i]->kind == K_ENUMS) m.s[i].list.push_back(Val());
  return m;
}
void Verify(const Model& m, const string& after) {
  for (size_t i = 0; i < m.s.size(); ++i) {
    const Field* f = m.t->fields[i];
    string where = string(m.t->key) + "." + f->suffix + " after " + after;
    if (Array(f)) {
      if (!f->count) continue;
      if (f->has) CHECK_EQM(f->has(m.e.get()), m.s[i].has, where << ": presence");
      CHECK_EQM(f->count(m.e.get()), m.s[i].list.size(), where);
      for (size_t k = 0; k < m.s[i].list.size(); ++k) {
        Val v;
        f->at(m.e.get(), k, v);
        CHECK_M(Same(f, v, m.s[i].list[k]), where << ": member " << k << " is " << Str(f, v) << ", expected " << Str(f, m.s[i].list[k]));
      }
      continue;
    }
    if (f->has) CHECK_EQM(f->has(m.e.get()), m.s[i].has, where << ": presence");
    if (!f->get) continue;
    Val v, w = m.s[i].has ? m.s[i].v : Default(f);
    f->get(m.e.get(), v);
    CHECK_M(Same(f, v, w), where << ": " << Str(f, v) << ", expected " << (m.s[i].has ? "" : "default ") << Str(f, w));
  }
}
Val Value(G& g, const Field* f) {
  GenOpts o;
  if (f->kind == K_ELEM || f->kind == K_ELEMS) {
    Val v;
    auto c = Candidates(f);
    v.e = c[g.draw(c.size())]->create();
    return v;
  }
  if (f->kind == K_ENUM || f->kind == K_ENUMS) {
    Val v;
    v.i = (int)g.draw(FindEnum(f->arg)->values.size());
    return v;
  }
  if (f->kind == K_COORDS || f->kind == K_VEC3S) {
    Val v;
    double x = GenDouble(g), y = GenDouble(g);
    v.v = f->kind == K_VEC3S || g.flip() ? kmlbase::Vec3(x, y, GenDouble(g)) : kmlbase::Vec3(x, y);
    return v;
  }
  return GenVal(g, f, o);
}
string Op(G& g, Model* m, size_t i) {
  const Field* f = m->t->fields[i];
  Slot& s = m->s[i];
  string name = f->suffix;
  if (Array(f)) {
    if (f->clear && g.draw(4) == 3) {
      f->clear(m->e.get());
      s.list.clear();
      s.has = false;
      return "clear " + name;
    }
    s.has = true;
    Val v = Value(g, f);
    f->set(m->e.get(), v);
    s.list.push_back(v);
    return "add " + name;
  }
  if (g.draw(3) == 2 && f->clear) {
    f->clear(m->e.get());
    s.has = false;
    return "clear " + name;
  }
  if (f->kind == K_ELEM && g.draw(6) == 5) {
    Val v;
    f->set(m->e.get(), v);
    s.has = false;
    return "set " + name + " to none";
  }
  s.v = Value(g, f);
  f->set(m->e.get(), s.v);
  s.has = true;
  return "set " + name + " to " + Str(f, s.v);
}
void History(G& g) {
  const TypeDef* t = &Types()[g.enumerate(Types().size())];
  Model m = Fresh(t);
  Verify(m, "construction");
  if (t->fields.empty()) throw pbt::Discard();
  size_t n = g.draw(80) == 79 ? 200 + g.draw(300) : 1 + g.draw(24);
  string log = t->key;
  size_t touched = 0;
  for (size_t k = 0; k < n; ++k) {
    size_t i = g.draw(t->fields.size());
    string op = Op(g, &m, i);
    g.note(op);
    log += "; " + op;
    Verify(m, op);
    ++touched;
  }
  if (touched >= 3) g.nontrivial(log);
  g.sample(log);
}
// Every ordered pair of fields of a type: set one, set the other, clear one.
std::vector<std::pair<const TypeDef*, std::pair<size_t, size_t>>>& AllPairs() {
  static std::vector<std::pair<const TypeDef*, std::pair<size_t, size_t>>> v;
  if (v.empty())
    for (auto& t : Types())
      for (size_t i = 0; i < t.fields.size(); ++i)
        for (size_t j = 0; j < t.fields.size(); ++j) v.push_back({&t, {i, j}});
  return v;
}
void Pairs(G& g) {
  auto& p = AllPairs()[g.enumerate(AllPairs().size())];
  Model m = Fresh(p.first);
  string a = Op(g, &m, p.second.first);
  Verify(m, a);
  string b = Op(g, &m, p.second.second);
  Verify(m, a + ", " + b);
  const Field* f = p.first->fields[p.second.first];
  if (f->clear && !Array(f)) {
    f->clear(m.e.get());
    m.s[p.second.first].has = false;
    Verify(m, a + ", " + b + ", clear " + f->suffix);
  }
  g.note(a + ", " + b);
  g.nontrivial(string(p.first->key) + a + b);
}
// Two elements of one type never share state.
void Two(G& g) {
  const TypeDef* t = &Types()[g.enumerate(Types().size())];
  if (t->fields.empty()) throw pbt::Discard();
  Model a = Fresh(t), b = Fresh(t);
  size_t n = 1 + g.draw(12);
  string log = t->key;
  for (size_t k = 0; k < n; ++k) {
    Model* m = g.flip() ? &a : &b;
    string op = (m == &a ? "first: " : "second: ") + Op(g, m, g.draw(t->fields.size()));
    g.note(op);
    log += "; " + op;
    Verify(a, op);
    Verify(b, op);
  }
  g.nontrivial(log);
}
}  // namespace
int main(int argc, char** argv) {
  long n = (long)AllPairs().size();
  return pbt::Main(argc, argv, "P08",
    "Histories of set, clear and add on elements of every type against a map of optional values with the KML 2.2 defaults; all ordered field pairs of all types are "
    "enumerated; non-trivial = at least three operations (pairs: every pair); distinct by history.",
    {{"history", 180000, 2000000, History, 0},
     {"pairs", n * 3, n * 60, Pairs, 0},
     {"two", 60000, 600000, Two, 0}});
}
