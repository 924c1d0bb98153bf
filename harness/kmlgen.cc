#include "kmlgen.h"
#include <expat.h>
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <algorithm>

namespace kg {
using pbt::G;

// ---------------------------------------------------------------- independent XML reader
namespace {
struct Rd { std::vector<X*> st; X* root; };
void S_(void* u, const XML_Char* n, const XML_Char** a) {
  Rd* r = (Rd*)u;
  X* x;
  if (r->st.empty()) { x = r->root; }
  else {
    r->st.back()->kids.push_back(X());
    r->st.back()->runs.push_back("");
    x = &r->st.back()->kids.back();
  }
  x->runs.push_back("");
  x->tag = n;
  for (; *a; a += 2) x->attrs[a[0]] = a[1];
  r->st.push_back(x);
}
void E_(void* u, const XML_Char*) { ((Rd*)u)->st.pop_back(); }
void C_(void* u, const XML_Char* s, int n) {
  X* x = ((Rd*)u)->st.back();
  x->text.append(s, n);
  x->runs.back().append(s, n);
}
}  // namespace
bool ReadXml(const string& xml, X* root, string* error) {
  *root = X();
  XML_Parser p = XML_ParserCreate(NULL);
  Rd r;
  r.root = root;
  XML_SetUserData(p, &r);
  XML_SetElementHandler(p, S_, E_);
  XML_SetCharacterDataHandler(p, C_);
  bool ok = XML_Parse(p, xml.data(), (int)xml.size(), 1) == XML_STATUS_OK;
  if (!ok && error) {
    char b[200];
    snprintf(b, sizeof b, "%s at line %lu col %lu", XML_ErrorString(XML_GetErrorCode(p)),
             (unsigned long)XML_GetCurrentLineNumber(p), (unsigned long)XML_GetCurrentColumnNumber(p));
    *error = b;
  }
  XML_ParserFree(p);
  return ok;
}
size_t XCount(const X& x) { size_t n = 1; for (auto& k : x.kids) n += XCount(k); return n; }

string EscapeText(const string& s) {
  string o;
  for (char c : s) {
    if (c == '&') o += "&amp;"; else if (c == '<') o += "&lt;"; else if (c == '>') o += "&gt;";
    else if (c == '\r') o += "&#13;"; else o += c;
  }
  return o;
}
string EscapeAttr(const string& s) {
  string o;
  for (char c : s) {
    if (c == '&') o += "&amp;"; else if (c == '<') o += "&lt;"; else if (c == '"') o += "&quot;";
    else if (c == '\n') o += "&#10;"; else if (c == '\t') o += "&#9;"; else if (c == '\r') o += "&#13;";
    else o += c;
  }
  return o;
}
string XToString(const X& x) {
  string o = "<" + x.tag;
  for (auto& a : x.attrs) o += " " + a.first + "=\"" + EscapeAttr(a.second) + "\"";
  if (x.text.empty() && x.kids.empty()) return o + "/>";
  o += ">" + EscapeText(x.text);
  for (auto& k : x.kids) o += XToString(k);
  return o + "</" + x.tag + ">";
}
string Xml(const X& x) { return XToString(x); }

bool DoubleClose(double a, double b) {
  if (a == b) return true;
  double m = std::max(fabs(a), fabs(b));
  return fabs(a - b) <= 6e-15 * m + 5e-323;
}
string Fmt(double d) {
  char b[64];
  snprintf(b, sizeof b, "%.15g", d);
  return b;
}
static bool ParseD(const string& s, double* d) {
  if (s.empty()) return false;
  char* e;
  *d = strtod(s.c_str(), &e);
  while (*e == ' ' || *e == '\n' || *e == '\t' || *e == '\r') ++e;
  return *e == 0;
}
static bool AllSpace(const string& s) { return s.find_first_not_of(" \t\r\n") == string::npos; }
static std::vector<string> Toks(const string& s) {
  std::vector<string> v;
  string t;
  for (char c : s) {
    if (c == ' ' || c == '\n' || c == '\t' || c == '\r') { if (!t.empty()) v.push_back(t); t.clear(); }
    else t += c;
  }
  if (!t.empty()) v.push_back(t);
  return v;
}
static std::vector<string> SplitC(const string& s, char c) {
  std::vector<string> v(1);
  for (char k : s) { if (k == c) v.push_back(""); else v.back() += k; }
  return v;
}
static string TextDiff(int kind, const string& e, const string& a) {
  switch (kind) {
    case -2:
      return AllSpace(a) ? "" : "unexpected text [" + a + "]";
    case K_DBL: {
      double x, y;
      if (ParseD(e, &x) && ParseD(a, &y) && DoubleClose(x, y)) return "";
      break;
    }
    case K_VEC3S: case K_COORDS: {
      std::vector<string> te = Toks(e), ta = Toks(a);
      bool ok = te.size() == ta.size();
      for (size_t i = 0; ok && i < te.size(); ++i) {
        std::vector<string> ce = SplitC(te[i], ','), ca = SplitC(ta[i], ',');
        ok = ce.size() == ca.size();
        for (size_t j = 0; ok && j < ce.size(); ++j) {
          double x, y;
          ok = ParseD(ce[j], &x) && ParseD(ca[j], &y) && DoubleClose(x, y);
        }
      }
      if (ok) return "";
      break;
    }
    default:
      if (e == a) return "";
  }
  return "text expected [" + e + "] got [" + a + "]";
}
string Diff(const X& e, const X& a, const string& path) {
  string p = path + "/" + e.tag;
  if (e.tag != a.tag) return p + ": got element <" + a.tag + ">";
  for (auto& k : e.attrs) {
    auto i = a.attrs.find(k.first);
    if (i == a.attrs.end()) return p + ": attribute " + k.first + " missing";
    auto ak = e.attr_kind.find(k.first);
    string d = TextDiff(ak == e.attr_kind.end() ? -1 : ak->second, k.second, i->second);
    if (!d.empty()) return p + "@" + k.first + ": " + d;
  }
  for (auto& k : a.attrs)
    if (!e.attrs.count(k.first)) return p + ": unexpected attribute " + k.first + "=[" + k.second + "]";
  if (!e.runs.empty() && e.kids.size() == a.kids.size()) {
    for (size_t i = 0; i < e.runs.size(); ++i)
      if (e.runs[i] != a.runs[i])
        return p + ": text run " + std::to_string(i) + " expected [" + e.runs[i] + "] got [" + a.runs[i] + "]";
  }
  string d = TextDiff(e.kind, e.text, a.text);
  if (!d.empty()) return p + ": " + d;
  for (size_t i = 0; i < e.kids.size() && i < a.kids.size(); ++i) {
    d = Diff(e.kids[i], a.kids[i], p + "[" + std::to_string(i) + "]");
    if (!d.empty()) return d;
  }
  if (e.kids.size() > a.kids.size()) return p + ": element <" + e.kids[a.kids.size()].tag + "> missing";
  if (e.kids.size() < a.kids.size()) return p + ": unexpected element <" + a.kids[e.kids.size()].tag + ">";
  return "";
}

// ---------------------------------------------------------------- generation
const FV* M::get(const string& x) const { for (auto& v : f) if (x == v.f->xml) return &v; return NULL; }
FV* M::get(const string& x) { for (auto& v : f) if (x == v.f->xml) return &v; return NULL; }

string GenPlain(G& g, size_t maxlen) {
  size_t n = 1 + g.size(maxlen - 1);
  string s;
  for (size_t i = 0; i < n; ++i) s += "abcdefghijklmnopqrstuvwxyz0123456789"[g.draw(36)];
  return s;
}
string GenId(G& g) {
  static const char* k[] = {"a", "b", "c", "d", "e", "f", "style0", "x-1", "_y", "Z"};
  if (g.draw(3)) return k[g.draw(10)];
  return GenPlain(g, 6);
}
string GenString(G& g, bool nasty, size_t maxlen) {
  static const char* n[] = {"&", "<", ">", "\"", "'", "]]>", "<![CDATA[", "&amp;", "&#65;", "<b>", "</b>", "]]", "]",
    "<!--", "-->", "<?x?>", "\n", "\t", " ", "  ", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x8c\x8d", "\xef\xbf\xbd",
    "<br/>", "&lt;", "\xc2\x85", "%", "$[name]", "{}", "#", "\\", "http://h/p?q=1&r=2#f"};
  size_t len = g.size(maxlen);
  string s;
  for (size_t i = 0; i < len; ++i) {
    if (nasty && g.draw(3) == 2) s += n[g.draw(sizeof n / sizeof n[0])];
    else if (g.draw(8) == 7) s += ' ';
    else s += "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.,:;_-/+=()"[g.draw(73)];
  }
  return s;
}
double GenDouble(G& g) {
  switch (g.draw(7)) {
    case 0: return (double)g.range(0, 9);
    case 1: return (double)g.range(-180, 360);
    case 2: return g.range(-100000, 100000) / 1000.0;
    case 3: return g.range(-900000000, 900000000) / 1e7;
    case 4: return g.real(-180, 180);
    case 5: {
      double m = (double)(g.bits64() >> 11) / 9007199254740992.0 * 9 + 1;
      double r = m * pow(10.0, (double)g.range(-30, 30));
      return g.flip() ? -r : r;
    }
    default: {
      static const double k[] = {0.0, -0.5, 1e-7, 1e15, 1e16, 123456789012345.0, 1e100, 2.2250738585072014e-308,
        1.7976931348623157e308, -1e-300, 0.1, 1.0 / 3, 99999.9999999999, 1e5, 1e6, 1e-4, 1e-5, 4294967296.0, -0.0001};
      return k[g.draw(sizeof k / sizeof k[0])];
    }
  }
}
int GenInt(G& g) {
  switch (g.draw(4)) {
    case 0: return (int)g.range(0, 9);
    case 1: return (int)g.range(-1000, 1000);
    case 2: { static const int k[] = {2147483647, -2147483647 - 1, -1, 65536, 1000000, 99999}; return k[g.draw(6)]; }
    default: return (int)(uint32_t)g.draw(4294967296ULL);
  }
}
Val GenVal(G& g, const Field* f, const GenOpts& o) {
  Val v;
  switch (f->kind) {
    case K_STR: case K_TEXT: case K_STRS:
      if (f->attr && (!strcmp(f->xml, "id") || !strcmp(f->xml, "targetId")) ) v.s = GenId(g);
      else v.s = GenString(g, o.nasty);
      if (o.cr && g.draw(12) == 11) v.s += g.flip() ? "\r" : "\r\n";
      // An href wrapped in literal CDATA markers is documented to be unwrapped.
      if (!strcmp(f->xml, "href") && !v.s.compare(0, 9, "<![CDATA[")) v.s += "e";
      break;
    case K_BOOL: v.b = g.flip(); break;
    case K_INT: v.i = GenInt(g); break;
    case K_DBL: v.d = GenDouble(g); break;
    case K_COLOR: v.c = kmlbase::Color32((uint32_t)g.draw(4294967296ULL)); break;
    case K_ENUM: case K_ENUMS: v.i = (int)g.draw(FindEnum(f->arg)->values.size()); break;
    case K_VEC3S: case K_COORDS:
      v.v = kmlbase::Vec3(GenDouble(g), GenDouble(g), GenDouble(g));
      if (f->kind == K_COORDS && g.draw(4) == 3) v.v.clear_altitude();
      break;
    default: break;
  }
  return v;
}
const TypeDef* PickRoot(G& g) {
  for (;;) {
    const TypeDef* t = &Types()[g.draw(Types().size())];
    if (strcmp(t->key, "IconStyleIcon")) return t;
  }
}
M Gen(G& g, const TypeDef* t, const GenOpts& o, int* budget, int depth) {
  M m;
  m.t = t;
  --*budget;
  for (const Field* f : t->fields) {
    FV fv;
    fv.f = f;
    if (f->kind == K_ELEM || f->kind == K_ELEMS) {
      std::vector<const TypeDef*> c = Candidates(f);
      if (!o.only.empty()) {
        std::vector<const TypeDef*> d;
        for (auto x : c) for (auto& k : o.only) if (k == x->key) d.push_back(x);
        c = d;
      }
      if (c.empty() || depth >= o.max_depth || *budget <= 0) continue;
      bool important = f->kind == K_ELEMS || !strcmp(f->xml, "coordinates") || !strcmp(f->xml, "Geometry") || depth <= 1;
      if (!g.chance(important ? 2 : 1, important ? 3 : 4)) continue;
      size_t n = 1;
      if (f->kind == K_ELEMS) n = 1 + g.size(g.draw(8) == 7 ? 12 : 4);
      for (size_t i = 0; i < n && *budget > 0; ++i) {
        if (i && g.draw(8) == 7) {  // the same again
          M again = fv.kids[g.draw(i)];
          *budget -= (int)Count(again);
          fv.kids.push_back(again);
        } else {
          fv.kids.push_back(Gen(g, c[g.draw(c.size())], o, budget, depth + 1));
        }
      }
      if (!fv.kids.empty()) m.f.push_back(fv);
      continue;
    }
    if (f->attr && (!strcmp(f->xml, "id") || !strcmp(f->xml, "targetId"))) {
      if (!o.ids || !g.chance(1, !strcmp(f->xml, "id") ? 3 : 8)) continue;
      fv.v = GenVal(g, f, o);
      m.f.push_back(fv);
      continue;
    }
    if (f->kind == K_STRS || f->kind == K_VEC3S || f->kind == K_ENUMS || f->kind == K_COORDS) {
      size_t n = g.size(g.draw(16) == 15 ? 40 : 5);
      for (size_t i = 0; i < n; ++i) {
        size_t k = i ? g.draw(5) : 0;
        fv.list.push_back(k == 4 ? fv.list.back() : k == 3 ? fv.list[g.draw(i)] : GenVal(g, f, o));
      }
      if (n) m.f.push_back(fv);
      continue;
    }
    if (!g.chance(o.leaf_num, o.leaf_den)) continue;
    size_t k = g.draw(8);
    const FV* like = NULL;
    if (k == 7) for (auto& x : m.f) if (x.f->kind == f->kind && f->kind != K_ENUM) like = &x;
    if (like && strcmp(f->xml, "href")) {  // the value of another field
      fv.v = like->v;
    } else if (k == 6 && f->kind != K_STR && f->kind != K_TEXT && f->get) {  // the default
      f->get(t->create().get(), fv.v);
      if (f->kind == K_ENUM && (fv.v.i < 0 || fv.v.i >= (int)FindEnum(f->arg)->values.size())) fv.v = GenVal(g, f, o);
    } else {
      fv.v = GenVal(g, f, o);
    }
    m.f.push_back(fv);
  }
  return m;
}
string BigString(G& g, bool nasty) {
  static const size_t k[] = {127, 255, 256, 257, 511, 1000, 1024, 2048, 4096, 8192, 16384, 32768, 65536};
  size_t n = k[g.draw(13)] + g.draw(3) - 1;
  string unit = GenString(g, nasty, 12), s = "a";
  if (unit.empty()) unit = "x";
  while (s.size() + unit.size() < n) s += unit;
  return s + string(n > s.size() ? n - s.size() : 0, 'z');
}
size_t BigCount(G& g) {
  static const size_t k[] = {10, 16, 32, 64, 100, 128, 256, 512, 1000, 1024};
  return k[g.draw(g.draw(3) ? 7 : 10)] + g.draw(3) - 1;
}
namespace {
void Nodes(M* m, std::vector<M*>* out) {
  out->push_back(m);
  for (auto& f : m->f) for (auto& k : f.kids) Nodes(&k, out);
}
void DropIds(M* m) {
  for (size_t i = 0; i < m->f.size();)
    if (m->f[i].f->attr && (!strcmp(m->f[i].f->xml, "id") || !strcmp(m->f[i].f->xml, "targetId"))) m->f.erase(m->f.begin() + i);
    else ++i;
  for (auto& f : m->f) for (auto& k : f.kids) DropIds(&k);
}
FV* SlotOf(M* m, const Field* f) {
  size_t at = 0, me = 0;
  for (size_t i = 0; i < m->t->fields.size(); ++i) if (m->t->fields[i] == f) me = i;
  for (; at < m->f.size(); ++at) {
    if (m->f[at].f == f) return &m->f[at];
    size_t i = 0;
    for (; i < m->t->fields.size(); ++i) if (m->t->fields[i] == m->f[at].f) break;
    if (i > me) break;
  }
  FV fv;
  fv.f = f;
  return &*m->f.insert(m->f.begin() + at, fv);
}
}  // namespace
void Inflate(G& g, M* m, const GenOpts& o) {
  std::vector<M*> nodes;
  Nodes(m, &nodes);
  int what = (int)g.draw(3);
  // A start anywhere, then the first place where it can be done.
  size_t from = g.draw(nodes.size());
  for (size_t j = 0; j < nodes.size(); ++j) {
    M* n = nodes[(from + j) % nodes.size()];
    std::vector<const Field*> fit;
    for (auto f : n->t->fields) {
      bool id = f->attr && (!strcmp(f->xml, "id") || !strcmp(f->xml, "targetId"));
      if (what == 0 && (f->kind == K_STR || f->kind == K_TEXT) && !id && strcmp(f->xml, "href")) fit.push_back(f);
      if (what == 1 && (f->kind == K_ELEMS || f->kind == K_STRS || f->kind == K_VEC3S || f->kind == K_ENUMS || f->kind == K_COORDS)) fit.push_back(f);
      if (what == 2 && f->kind == K_ELEMS) {
        for (auto c : Candidates(f)) if (c == n->t || (IsA(n->t, "Container") && !strcmp(c->key, "Folder"))) { fit.push_back(f); break; }
      }
    }
    if (fit.empty()) continue;
    const Field* f = fit[g.draw(fit.size())];
    FV* s = SlotOf(n, f);
    if (what == 0) {
      s->v.s = BigString(g, o.nasty);
    } else if (what == 1) {
      size_t count = BigCount(g);
      GenOpts p = o;
      p.ids = false;
      p.max_depth = 2;
      if (f->kind == K_ELEMS) {
        std::vector<const TypeDef*> c;
        for (auto x : Candidates(f)) {
          bool ok = o.only.empty();
          for (auto& k : o.only) if (k == x->key) ok = true;
          if (ok) c.push_back(x);
        }
        if (c.empty()) { if (s->kids.empty()) n->f.erase(n->f.begin() + (s - &n->f[0])); continue; }
        std::vector<M> kinds;
        for (size_t i = 0, z = 1 + g.draw(4); i < z; ++i) { int b = 1 + (int)g.draw(3); kinds.push_back(Gen(g, c[g.draw(c.size())], p, &b, 0)); DropIds(&kinds.back()); }
        for (size_t i = s->kids.size(); i < count; ++i) s->kids.push_back(kinds[i % kinds.size()]);
      } else {
        for (size_t i = s->list.size(); i < count; ++i)
          s->list.push_back(i > 8 && i % 16 ? s->list[(i * 7) % 8] : GenVal(g, f, p));
      }
    } else {
      size_t depth = 5 + g.draw(60);
      const TypeDef* t = n->t;
      bool same = false;
      for (auto c : Candidates(f)) if (c == t) same = true;
      if (!same) t = FindType("Folder");
      M inner;
      inner.t = t;
      if (!s->kids.empty() && g.draw(3) == 1) {
        inner = s->kids.back();
        s->kids.pop_back();
      } else {
        // Something with content of its own at the bottom.
        std::vector<const TypeDef*> c;
        for (auto x : Candidates(f)) {
          bool ok = o.only.empty();
          for (auto& k : o.only) if (k == x->key) ok = true;
          if (ok) c.push_back(x);
        }
        if (!c.empty()) {
          GenOpts p = o;
          p.ids = false;
          p.max_depth = 4;
          int b = 2 + (int)g.draw(9);
          inner = Gen(g, c[g.draw(c.size())], p, &b, 0);
          DropIds(&inner);
        }
      }
      const Field* tf = f;
      for (auto x : t->fields) if (x->kind == K_ELEMS && !strcmp(x->xml, f->xml)) tf = x;
      for (size_t i = 0; i < depth; ++i) {
        M out;
        out.t = t;
        SlotOf(&out, tf)->kids.push_back(inner);
        inner = out;
      }
      s->kids.push_back(inner);
    }
    return;
  }
}
M GenTree(G& g, const TypeDef* t, const GenOpts& o) {
  int b = (int)g.range(1, o.budget);
  M m = Gen(g, t, o, &b, 0);
  if (o.big_den && o.budget >= 10 && g.draw(o.big_den) == o.big_den - 1) Inflate(g, &m, o);
  return m;
}

// ---------------------------------------------------------------- expectation
static string Hex(const kmlbase::Color32& c) {
  char b[16];
  snprintf(b, sizeof b, "%08x", (unsigned)c.get_color_abgr());
  return b;
}
bool strict_altitude = false;
static bool write_flat = false;
string ValStr(const Field* f, const Val& v) {
  switch (f->kind) {
    case K_STR: case K_TEXT: case K_STRS: return v.s;
    case K_BOOL: return v.b ? "1" : "0";
    case K_INT: return std::to_string(v.i);
    case K_DBL: { char b[64]; snprintf(b, sizeof b, "%.17g", v.d); return b; }
    case K_COLOR: return Hex(v.c);
    case K_ENUM: case K_ENUMS: {
      const EnumDef* e = FindEnum(f->arg);
      return v.i >= 0 && v.i < (int)e->values.size() ? e->values[v.i] : "(bad enum)";
    }
    case K_VEC3S: case K_COORDS: {
      char b[200];
      const char* sep = f->kind == K_COORDS ? "," : " ";
      if (write_flat && !v.v.has_altitude()) snprintf(b, sizeof b, "%.17g%s%.17g", v.v.get_longitude(), sep, v.v.get_latitude());
      else snprintf(b, sizeof b, "%.17g%s%.17g%s%.17g", v.v.get_longitude(), sep, v.v.get_latitude(), sep, v.v.get_altitude());
      return b;
    }
    default: return "";
  }
}
bool ValEq(const Field* f, const Val& a, const Val& b) {
  switch (f->kind) {
    case K_STR: case K_TEXT: case K_STRS: return a.s == b.s;
    case K_BOOL: return a.b == b.b;
    case K_INT: case K_ENUM: case K_ENUMS: return a.i == b.i;
    case K_DBL: return a.d == b.d;
    case K_COLOR: return a.c.get_color_abgr() == b.c.get_color_abgr();
    case K_VEC3S: case K_COORDS:
      return a.v.get_longitude() == b.v.get_longitude() && a.v.get_latitude() == b.v.get_latitude() &&
             a.v.get_altitude() == b.v.get_altitude() && (!strict_altitude || a.v.has_altitude() == b.v.has_altitude());
    default: return a.e == b.e;
  }
}
X Expect(const M& m) {
  X x(m.t->tag);
  x.kind = -2;
  for (auto& fv : m.f) {
    const Field* f = fv.f;
    if (f->attr) {
      x.attrs[f->xml] = ValStr(f, fv.v);
      x.attr_kind[f->xml] = f->kind == K_DBL ? K_DBL : -1;
      continue;
    }
    switch (f->kind) {
      case K_ELEM: case K_ELEMS:
        for (auto& k : fv.kids) x.kids.push_back(Expect(k));
        break;
      case K_STRS: case K_VEC3S:
        for (auto& v : fv.list) {
          X c(f->xml);
          c.text = ValStr(f, v);
          c.kind = f->kind;
          x.kids.push_back(c);
        }
        break;
      case K_ENUMS: {
        X c(f->xml);
        for (size_t i = 0; i < fv.list.size(); ++i) c.text += (i ? " " : "") + ValStr(f, fv.list[i]);
        x.kids.push_back(c);
        break;
      }
      case K_TEXT:
        x.text = fv.v.s;
        x.kind = -1;
        break;
      case K_COORDS:
        x.kind = K_COORDS;
        for (auto& v : fv.list) x.text += ValStr(f, v) + "\n";
        break;
      default: {
        X c(f->xml);
        c.text = ValStr(f, fv.v);
        c.kind = f->kind;
        x.kids.push_back(c);
      }
    }
  }
  for (auto& a : m.extra_attrs) x.attrs[a.first] = a.second;
  for (auto& k : m.misplaced) x.kids.push_back(Expect(k));
  for (auto& k : m.misplaced_leaves) x.kids.push_back(k);
  for (auto& k : m.unknown) x.kids.push_back(k);
  return x;
}
string Xml(const M& m) {
  write_flat = true;  // libkml itself always writes an altitude
  X x = Expect(m);
  write_flat = false;
  return XToString(x);
}
size_t Count(const M& m) {
  size_t n = 1;
  for (auto& f : m.f) for (auto& k : f.kids) n += Count(k);
  return n;
}
void Shape(const M& m, string* o) {
  *o += m.t->key;
  *o += '(';
  for (auto& f : m.f) {
    *o += f.f->xml; *o += ' ';
    for (auto& k : f.kids) Shape(k, o);
  }
  *o += ')';
}

// ---------------------------------------------------------------- varied rendering
namespace {
struct R {
  G& g;
  const RenderOpts& o;
  string out;
  R(G& g_, const RenderOpts& o_) : g(g_), o(o_) {}
  void Gap() {
    if (o.spaces && g.draw(3) == 2) {
      static const char* s[] = {" ", "\n", "\t", "\n  ", "\r\n"};
      out += s[g.draw(5)];
    }
    if (o.comments && g.draw(24) == 23) {
      static const char* s[] = {"<!-- c -->", "<!--<name>x</name>-->", "<?pi data?>", "<!---->"};
      out += s[g.draw(4)];
    }
  }
  static size_t Utf8Len(unsigned char c) { return c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4; }
  static unsigned Cp(const string& s, size_t i, size_t n) {
    unsigned char c = s[i];
    unsigned v = n == 1 ? c : n == 2 ? c & 31 : n == 3 ? c & 15 : c & 7;
    for (size_t k = 1; k < n; ++k) v = v << 6 | ((unsigned char)s[i + k] & 63);
    return v;
  }
  void Text(const string& s) {
    bool cd = o.cdata && !s.empty() && g.draw(4) == 3 && s.find("]]>") == string::npos && s.find('\r') == string::npos;
    if (cd) {
      size_t a = g.draw(s.size() + 1);
      while (a < s.size() && ((unsigned char)s[a] & 0xc0) == 0x80) ++a;
      if (g.flip()) a = 0;
      Esc(s.substr(0, a));
      out += "<![CDATA[" + s.substr(a) + "]]>";
      return;
    }
    Esc(s);
  }
  void Esc(const string& s) {
    bool refs = o.cdata && g.draw(6) == 5;
    for (size_t i = 0; i < s.size();) {
      size_t n = Utf8Len(s[i]);
      if (i + n > s.size()) n = 1;
      char c = s[i];
      if (refs && g.draw(4) == 3) {
        char b[32];
        snprintf(b, sizeof b, g.flip() ? "&#x%X;" : "&#%u;", Cp(s, i, n));
        out += b;
      } else if (c == '&') out += "&amp;";
      else if (c == '<') out += "&lt;";
      else if (c == '>') out += (i >= 2 && s[i-1] == ']') || !o.cdata || g.flip() ? "&gt;" : (i >= 1 && s[i-1] == ']') ? "&gt;" : ">";
      else if (c == '"' && o.cdata && g.flip()) out += "&quot;";
      else if (c == '\'' && o.cdata && g.flip()) out += "&apos;";
      else if (c == '\r') out += "&#13;";
      else out += s.substr(i, n);
      i += n;
    }
  }
  void Attr(const string& k, const string& v) {
    out += o.spaces && g.draw(8) == 7 ? "\n " : " ";
    out += k;
    out += o.spaces && g.draw(16) == 15 ? " = " : "=";
    char q = g.draw(4) == 3 ? '\'' : '"';
    out += q;
    for (char c : v) {
      if (c == '&') out += "&amp;"; else if (c == '<') out += "&lt;";
      else if (c == q) out += q == '"' ? "&quot;" : "&apos;";
      else if (c == '\n') out += "&#10;"; else if (c == '\t') out += "&#9;"; else if (c == '\r') out += "&#13;";
      else out += c;
    }
    out += q;
  }
  string Num(const Field* f, const Val& v) {
    if (f->kind == K_BOOL) {
      if (!o.numbers) return v.b ? "1" : "0";
      string s = v.b ? (g.flip() ? "true" : "1") : (g.flip() ? "false" : "0");
      if (g.draw(6) == 5) s = " " + s;
      if (g.draw(6) == 5) s += "\n";
      return s;
    }
    if (f->kind == K_INT) {
      string s = std::to_string(v.i);
      if (o.numbers && g.draw(6) == 5) s = "\n " + s;
      if (o.numbers && g.draw(6) == 5) s += " ";
      return s;
    }
    if (f->kind == K_DBL) return Dbl(v.d, true);
    if (f->kind == K_COLOR) {
      string s = Hex(v.c);
      if (o.numbers && g.flip()) for (auto& c : s) c = toupper(c);
      return s;
    }
    return ValStr(f, v);
  }
  string Dbl(double d, bool ws) {
    char b[400];
    snprintf(b, sizeof b, "%.17g", d);
    if (!o.numbers) return b;
    switch (g.draw(5)) {
      case 0: break;
      case 1: snprintf(b, sizeof b, "%.16e", d); break;
      case 2: snprintf(b, sizeof b, "%.17E", d); break;
      case 3: if (fabs(d) < 1e6 && fabs(d) > 1e-3) snprintf(b, sizeof b, "%.20f", d); break;
      default: if (d == floor(d) && fabs(d) < 1e9) snprintf(b, sizeof b, "%.3f", d);
    }
    string s = b;
    if (ws && g.draw(8) == 7) s = "\n\t " + s;
    if (ws && g.draw(8) == 7) s += " ";
    return s;
  }
  string Coords(const std::vector<Val>& l) {
    string s;
    static const char* seps[] = {" ", "\n", "  ", "\n    ", "\t", "\r\n"};
    if (o.spaces && g.draw(3) == 2) s += seps[g.draw(5)];
    for (size_t i = 0; i < l.size(); ++i) {
      if (i) s += o.spaces ? seps[g.draw(5)] : " ";
      string comma = ",";
      if (o.spaces && g.draw(8) == 7) comma = g.flip() ? ", " : g.flip() ? " ," : "\n,\t";
      s += Dbl(l[i].v.get_longitude(), false) + comma + Dbl(l[i].v.get_latitude(), false);
      if (l[i].v.get_altitude() != 0 || g.draw(2) || !o.numbers) s += comma + Dbl(l[i].v.get_altitude(), false);
    }
    if (o.spaces && g.draw(3) == 2) s += seps[g.draw(5)];
    return s;
  }
  void Leaf(const string& tag, const string& text, bool is_string) {
    out += "<" + tag + (o.spaces && g.draw(20) == 19 ? " >" : ">");
    if (is_string) Text(text); else out += text;
    out += "</" + tag + (o.spaces && g.draw(20) == 19 ? "\n>" : ">");
  }
  void Foreign(const X& x) {
    out += "<" + x.tag;
    for (auto& a : x.attrs) Attr(a.first, a.second);
    if (x.text.empty() && x.kids.empty() && g.flip()) { out += "/>"; return; }
    out += ">";
    if (!x.runs.empty()) {
      for (size_t i = 0; i <= x.kids.size(); ++i) {
        Text(x.runs[i]);
        if (i < x.kids.size()) Foreign(x.kids[i]);
      }
    } else {
      Text(x.text);
      for (auto& k : x.kids) Foreign(k);
    }
    out += "</" + x.tag + ">";
  }
  void Elem(const M& m, bool root) {
    out += string("<") + m.t->tag;
    std::vector<std::pair<string, string>> at;
    for (auto& fv : m.f) if (fv.f->attr) at.push_back(std::make_pair(string(fv.f->xml), Num(fv.f, fv.v)));
    for (auto& a : m.extra_attrs) at.push_back(a);
    if (o.shuffle) for (size_t i = at.size(); i > 1; --i) std::swap(at[i - 1], at[i - 1 - g.draw(i)]);
    for (auto& a : at) Attr(a.first, a.second);
    // Slots: sequences whose relative order matters.
    std::vector<std::vector<std::function<void()>>> slots;
    string text;
    bool has_text = false, coords = false;
    for (const Field* f : m.t->fields) if (f->kind == K_TEXT) has_text = true;
    for (auto& fv : m.f) {
      const Field* f = fv.f;
      if (f->attr) continue;
      std::vector<std::function<void()>> s;
      switch (f->kind) {
        case K_ELEM: case K_ELEMS:
          for (auto& k : fv.kids) { const M* p = &k; s.push_back([this, p]() { Elem(*p, false); }); }
          break;
        case K_STRS: case K_VEC3S:
          for (auto& v : fv.list) {
            const Val* p = &v;
            s.push_back([this, f, p]() {
              if (f->kind == K_STRS) Leaf(f->xml, p->s, true);
              else Leaf(f->xml, Dbl(p->v.get_longitude(), false) + " " + Dbl(p->v.get_latitude(), false) + " " +
                        Dbl(p->v.get_altitude(), false), false);
            });
          }
          break;
        case K_ENUMS: {
          string t;
          for (size_t i = 0; i < fv.list.size(); ++i) t += (i ? " " : "") + ValStr(f, fv.list[i]);
          s.push_back([this, f, t]() { Leaf(f->xml, t, false); });
          break;
        }
        case K_TEXT: text = fv.v.s; has_text = true; break;
        case K_COORDS: text = Coords(fv.list); coords = true; break;
        default: {
          const FV* p = &fv;
          s.push_back([this, f, p]() { Leaf(f->xml, Num(f, p->v), f->kind == K_STR); });
        }
      }
      if (!s.empty()) slots.push_back(s);
    }
    {
      std::vector<std::function<void()>> s;
      for (auto& k : m.misplaced) { const M* p = &k; s.push_back([this, p]() { Elem(*p, false); }); }
      for (auto& k : m.misplaced_leaves) { const X* p = &k; s.push_back([this, p]() { Leaf(p->tag, p->text, true); }); }
      if (!s.empty()) slots.push_back(s);
      s.clear();
      for (auto& k : m.unknown) { const X* p = &k; s.push_back([this, p]() { Foreign(*p); }); }
      if (!s.empty()) slots.push_back(s);
    }
    if (slots.empty() && text.empty() && !coords && g.draw(2)) { out += "/>"; return; }
    out += ">";
    if (has_text) { Text(text); }
    else if (coords) { out += text; }
    if (!has_text && !coords) Gap();
    std::vector<size_t> pos(slots.size(), 0);
    bool shuffle = o.shuffle && g.flip();
    if (!shuffle) {
      for (auto& s : slots) for (auto& fn : s) { fn(); if (!has_text && !coords) Gap(); }
    } else {
      std::vector<size_t> live;
      for (size_t i = 0; i < slots.size(); ++i) live.push_back(i);
      while (!live.empty()) {
        size_t k = g.draw(live.size()), s = live[k];
        slots[s][pos[s]++]();
        if (!has_text && !coords) Gap();
        if (pos[s] == slots[s].size()) live.erase(live.begin() + k);
      }
    }
    out += string("</") + m.t->tag + ">";
  }
};
}  // namespace
string Render(G& g, const M& m, const RenderOpts& o) {
  R r(g, o);
  if (o.prolog) {
    switch (g.draw(5)) {
      case 1: r.out += "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n"; break;
      case 2: r.out += "<?xml version='1.0'?>"; break;
      case 3: r.out += "<!-- head -->\n"; break;
      case 4: r.out += "\xef\xbb\xbf<?xml version=\"1.0\" encoding=\"utf-8\" standalone=\"yes\"?>\r\n"; break;
      default: break;
    }
  }
  r.Elem(m, true);
  if (o.prolog && g.draw(6) == 5) r.out += "\n<!-- tail -->\n";
  return r.out;
}

// ---------------------------------------------------------------- DOM
ElementPtr Build(const M& m) {
  ElementPtr e = m.t->create();
  for (auto& fv : m.f) {
    const Field* f = fv.f;
    switch (f->kind) {
      case K_ELEM: case K_ELEMS:
        for (auto& k : fv.kids) { Val v; v.e = Build(k); f->set(e.get(), v); }
        break;
      case K_STRS: case K_VEC3S: case K_ENUMS: case K_COORDS:
        if (f->kind == K_ENUMS) f->clear(e.get());  // as documented, before adding
        for (auto& v : fv.list) f->set(e.get(), v);
        break;
      default: f->set(e.get(), fv.v);
    }
  }
  return e;
}
string CheckDom(const M& m, const ElementPtr& e, const string& path) {
  string p = path + "/" + m.t->key;
  if (!e) return p + ": no element";
  if (e->Type() != m.t->type_id) return p + ": wrong type " + std::to_string(e->Type());
  for (const Field* f : m.t->fields) {
    const FV* fv = NULL;
    for (auto& x : m.f) if (x.f == f) fv = &x;
    string fp = p + "." + f->xml;
    if (f->kind == K_TEXT && !fv && f->has(e.get())) {  // read from an empty element
      Val v;
      f->get(e.get(), v);
      if (!v.s.empty()) return fp + ": unexpected text [" + v.s + "]";
      continue;
    }
    if (f->has && f->has(e.get()) != (fv != NULL)) return fp + ": presence is wrong";
    if (f->count) {
      if (f->kind == K_ENUMS && !fv) continue;  // holds its documented default
      size_t n = fv ? std::max(fv->list.size(), fv->kids.size()) : 0;
      if (f->count(e.get()) != n) return fp + ": count " + std::to_string(f->count(e.get())) + " expected " + std::to_string(n);
      for (size_t i = 0; i < n; ++i) {
        Val v;
        f->at(e.get(), i, v);
        if (f->kind == K_ELEMS) {
          string d = CheckDom(fv->kids[i], v.e, fp);
          if (!d.empty()) return d;
          if (v.e->GetParent() != e) return fp + ": wrong parent";
        } else if (!ValEq(f, v, fv->list[i])) {
          return fp + ": value [" + ValStr(f, v) + "] expected [" + ValStr(f, fv->list[i]) + "]";
        }
      }
      continue;
    }
    if (!fv) continue;
    Val v;
    f->get(e.get(), v);
    if (f->kind == K_ELEM) {
      string d = CheckDom(fv->kids[0], v.e, fp);
      if (!d.empty()) return d;
      if (v.e->GetParent() != e) return fp + ": wrong parent";
    } else if (!ValEq(f, v, fv->v)) {
      return fp + ": value [" + ValStr(f, v) + "] expected [" + ValStr(f, fv->v) + "]";
    }
  }
  return "";
}
string Raw(const ElementPtr& e) { return kmldom::SerializeRaw(e); }
string Pretty(const ElementPtr& e) { return kmldom::SerializePretty(e); }
}  // namespace kg
