// The Python modules (src/swig) against the C++ library, in one process: the modules are linked in
// and the same generated documents, programs and arguments go through both.
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <libgen.h>
#include <limits.h>
#include <string.h>
#include <unistd.h>
#include <fstream>
#include <map>
#include <memory>
#include <sstream>
#include "kmlgen.h"
#include "zipgen.h"
#include "kml/base/attributes.h"
#include "kml/base/date_time.h"
#include "kml/base/version.h"
#include "kml/engine.h"
using namespace kg;
using pbt::G;
using kmlengine::KmlFile;
using kmlengine::KmlFilePtr;

extern "C" PyObject* PyInit__kmlbase();
extern "C" PyObject* PyInit__kmldom();
extern "C" PyObject* PyInit__kmlengine();

namespace {
#include "bindings_api.inc"
const char* const kCasts[] = {
#define CAST(X) #X,
#include "casts.inc"
#undef CAST
};
ElementPtr Cast(const string& name, const ElementPtr& e) {
#define CAST(X) if (name == #X) return kmldom::As##X(e);
#include "casts.inc"
#undef CAST
  return NULL;
}
// Classes that are mere bases; casts to other classes give an opaque value.
bool Castable(const string& name) {
  static const char* const kBases[] = {"AbstractLatLonBox", "AbstractView", "Container", "ColorStyle", "Feature", "Geometry", "Object",
                                       "Overlay", "StyleSelector", "SubStyle", "TimePrimitive", "UpdateOperation", "GxTourPrimitive"};
  for (auto b : kBases) if (name == b) return true;
  for (auto& b : kBindings) if (name == b[0]) return true;
  return false;
}
const char* Offered(const TypeDef* t) {
  for (auto& b : kBindings) if (!strcmp(b[0], t->cls)) return b[1];
  return NULL;
}
char Code(const Field* f) {
  switch (f->kind) {
    case K_STR: case K_TEXT: return 's';
    case K_BOOL: return 'b';
    case K_INT: return 'i';
    case K_DBL: return 'd';
    case K_COLOR: return 'c';
    case K_ENUM: return 'e';
    case K_ELEM: return 'E';
    case K_ELEMS: return 'A';
    case K_STRS: return 'S';
    case K_ENUMS: return 'N';
    case K_COORDS: return 'C';
    default: return 0;
  }
}
bool Array(char c) { return c == 'A' || c == 'S' || c == 'N' || c == 'C'; }
// The fields of a type that Python offers.
const std::vector<const Field*>& Fields(const TypeDef* t) {
  static std::map<const TypeDef*, std::vector<const Field*> > m;
  auto i = m.find(t);
  if (i != m.end()) return i->second;
  std::vector<const Field*>& v = m[t];
  const char* o = Offered(t);
  if (o) for (const Field* f : t->fields) {
    char c = Code(f);
    if (!c) continue;
    string want = string(" ") + (c == 'C' ? "coordinates" : f->suffix) + (Array(c) ? "_array_size " : " ");
    if (strstr(o, want.c_str())) v.push_back(f);
  }
  return v;
}
PyObject* driver;
string Error() {
  PyObject *t, *v, *b;
  PyErr_Fetch(&t, &v, &b);
  PyErr_NormalizeException(&t, &v, &b);
  string s = t ? ((PyTypeObject*)t)->tp_name : "?";
  if (v) if (PyObject* x = PyObject_Str(v)) { if (const char* c = PyUnicode_AsUTF8(x)) s += string(": ") + c; Py_DECREF(x); }
  PyErr_Clear();
  Py_XDECREF(t); Py_XDECREF(v); Py_XDECREF(b);
  return s;
}
string Call(const char* fn, const string& arg) {
  PyObject* f = PyObject_GetAttrString(driver, fn);
  CHECK_M(f, "no function " << fn);
  PyObject* r = PyObject_CallFunction(f, "y#", arg.data(), (Py_ssize_t)arg.size());
  Py_DECREF(f);
  if (!r) FAIL("python", "Python raised " << Error());
  string s(PyBytes_AS_STRING(r), PyBytes_GET_SIZE(r));
  Py_DECREF(r);
  return s;
}
void Start() {
  if (driver) return;
  char exe[PATH_MAX + 1];
  ssize_t n = readlink("/proc/self/exe", exe, PATH_MAX);
  exe[n > 0 ? n : 0] = 0;
  string dir = string(dirname(exe)) + "/swig";
  PyImport_AppendInittab("_kmlbase", PyInit__kmlbase);
  PyImport_AppendInittab("_kmldom", PyInit__kmldom);
  PyImport_AppendInittab("_kmlengine", PyInit__kmlengine);
  setenv("PYTHONDONTWRITEBYTECODE", "1", 1);
  setenv("PYTHONUTF8", "1", 1);
  Py_Initialize();
  PyRun_SimpleString(("import sys; sys.path.insert(0, '" + dir + "'); sys.setrecursionlimit(5000)").c_str());
  driver = PyImport_ImportModule("p40_driver");
  if (!driver) FAIL("python", "the modules cannot be imported: " << Error());
  string t;
  for (auto& x : Types()) {
    if (!Offered(&x)) continue;
    t += std::to_string(x.type_id) + "|" + x.cls + "|";
    for (const Field* f : Fields(&x)) t += string(f->suffix) + ":" + Code(f) + ",";
    t += "\n";
  }
  Call("table", t);
}
string Hex(const string& s) {
  string r;
  char b[4];
  for (unsigned char c : s) { snprintf(b, sizeof b, "%02x", c); r += b; }
  return r;
}
string Num(double d) {
  if (d != d) return "nan";
  char b[64];
  snprintf(b, sizeof b, "%.17g", d);
  return b;
}
string ColorText(const kmlbase::Color32& c) {
  char b[16];
  snprintf(b, sizeof b, "%08x", c.get_color_abgr());
  return b;
}
string VecText(const kmlbase::Vec3& v) {
  return Num(v.get_longitude()) + "/" + Num(v.get_latitude()) + "/" + (v.has_altitude() ? Num(v.get_altitude()) : "-");
}
string Scalar(char c, const Val& v) {
  switch (c) {
    case 's': case 'S': return Hex(v.s);
    case 'b': return v.b ? "1" : "0";
    case 'i': case 'e': case 'N': return std::to_string(v.i);
    case 'd': return Num(v.d);
    case 'c': return ColorText(v.c);
    default: return VecText(v.v);
  }
}
string ShowE(const ElementPtr& e) {
  string out = "#" + std::to_string(e->Type());
  const TypeDef* t = TypeById(e->Type());
  if (!t || !Offered(t)) return out;
  out += "{";
  for (const Field* f : Fields(t)) {
    char c = Code(f);
    out += " ";
    if (Array(c)) {
      size_t n = f->count(e.get());
      out += string(c == 'C' ? "coordinates" : f->suffix) + "[" + std::to_string(n) + "](";
      for (size_t i = 0; i < n; ++i) {
        Val v;
        f->at(e.get(), i, v);
        out += (i ? " " : "") + (c == 'A' ? ShowE(v.e) : Scalar(c, v));
      }
      out += ")";
      continue;
    }
    Val v;
    f->get(e.get(), v);
    out += string(f->suffix) + "=" + (f->has(e.get()) ? "1" : "0");
    if (c == 'E') out += "(" + (v.e ? ShowE(v.e) : "") + ")";
    else out += ":" + Scalar(c, v);
  }
  return out + " }";
}
string Text(const ElementPtr& e) {
  return Hex(kmldom::SerializeRaw(e)) + "\n" + Hex(kmldom::SerializePretty(e)) + "\n";
}
// Where two transcripts part.
void Same(const string& cpp, const string& py, const string& what) {
  if (cpp == py) return;
  size_t i = 0;
  while (i < cpp.size() && i < py.size() && cpp[i] == py[i]) ++i;
  size_t from = i > 60 ? i - 60 : 0;
  FAIL("differs", what << ": C++ ..." << cpp.substr(from, 140) << "... Python ..." << py.substr(from, 140));
}
bool Utf8(const string& s) {
  PyObject* u = PyUnicode_DecodeUTF8(s.data(), s.size(), "strict");
  if (!u) { PyErr_Clear(); return false; }
  Py_DECREF(u);
  return true;
}
void Read(G& g) {
  Start();
  GenOpts o;
  const TypeDef* t = g.draw(3) ? PickRoot(g) : &Types()[g.draw(Types().size())];
  M m = GenTree(g, t, o);
  RenderOpts r;
  string doc = g.flip() ? Xml(m) : Render(g, m, r);
  bool whole = g.draw(10) != 9;
  if (!whole) doc.resize(g.draw(doc.size() + 1));
  if (!Utf8(doc)) throw pbt::Discard();
  g.note(doc);
  ElementPtr e = kmldom::ParseKml(doc);
  string want = e ? ShowE(e) + "\n" + Text(e) : "none";
  Same(want, Call("read", doc), "reading");
  // Both are also what the document says.
  if (whole && strcmp(t->key, "IconStyleIcon")) {
    CHECK_M(e, "valid document rejected");
    string d = CheckDom(m, e);
    CHECK_M(d.empty(), "what was read: " << d);
  }
  if (e && Count(m) > 2) g.nontrivial(doc);
  g.sample(doc.substr(0, 300));
}
// A program over numbered elements, carried out directly while it is written down for Python.
void Program(G& g) {
  Start();
  struct Slot { ElementPtr e; const TypeDef* t; int parent; kmlbase::Color32 c; bool color; Slot() : t(0), parent(-1), color(false) {} };
  std::vector<Slot> s;
  std::vector<string> prog;
  string log;
  auto emit = [&](const string& l) { prog.push_back(l); g.note(l); };
  // What was set last, for every simple field of every element.
  std::map<kmldom::Element*, std::map<const Field*, std::pair<bool, Val> > > model;
  static std::vector<const TypeDef*> all;
  if (all.empty()) for (auto& t : Types()) if (Offered(&t)) all.push_back(&t);
  auto make = [&](const TypeDef* t) {
    Slot n;
    n.t = t;
    n.e = t->create();
    model.erase(n.e.get());
    string k = std::to_string(s.size());
    if (g.draw(4) == 3 && strcmp(t->cls, "IconStyleIcon")) emit("byid " + k + " " + std::to_string(t->type_id));
    else emit("new " + k + " " + t->cls);
    s.push_back(n);
    return s.size() - 1;
  };
  auto live = [&]() { std::vector<size_t> v; for (size_t i = 0; i < s.size(); ++i) if (s[i].e) v.push_back(i); return v; };
  auto show = [&](size_t k) {
    emit("show " + std::to_string(k));
    for (auto& x : model[s[k].e.get()]) {
      Val v;
      x.first->get(s[k].e.get(), v);
      CHECK_EQM(x.first->has(s[k].e.get()), x.second.first, s[k].t->key << "." << x.first->suffix << ": presence");
      if (x.second.first)
        CHECK_M(ValEq(x.first, v, x.second.second), s[k].t->key << "." << x.first->suffix << ": " << ValStr(x.first, v) << ", set to " << ValStr(x.first, x.second.second));
    }
    if (!log.empty()) log += "\n";
    log += ShowE(s[k].e) + "\n" + Text(s[k].e);
  };
  make(all[g.enumerate(all.size())]);
  size_t n = g.draw(40) == 39 ? 100 + g.draw(200) : 4 + g.draw(28), sets = 0;
  GenOpts o;
  for (size_t step = 0; step < n; ++step) {
    std::vector<size_t> v = live();
    if (v.empty()) { make(all[g.draw(all.size())]); continue; }
    size_t k = v[g.draw(g.draw(3) ? std::min<size_t>(v.size(), 2) : v.size())];
    string ks = std::to_string(k);
    const std::vector<const Field*>& fs = Fields(s[k].t);
    size_t what = g.draw(16);
    if (what == 15) { make(all[g.draw(all.size())]); continue; }
    if (what == 14) { show(k); continue; }
    if (what == 13) {
      if (g.draw(3) == 2 && v.size() > 1) { emit("drop " + ks); s[k].e = NULL; }
      continue;
    }
    if (what == 12) {
      Slot c;
      c.t = s[k].t;
      c.e = kmlengine::Clone(s[k].e);
      model.erase(c.e.get());
      emit("clone " + ks + " " + std::to_string(s.size()));
      s.push_back(c);
      continue;
    }
    if (fs.empty()) continue;
    const Field* f = fs[g.draw(fs.size())];
    char c = Code(f);
    string name = f->suffix;
    if (what == 11 && (c == 'E' || c == 'A')) {  // hold on to a child
      Val x;
      string l;
      if (c == 'E') { f->get(s[k].e.get(), x); l = "get " + ks + " " + name + " " + std::to_string(s.size()); }
      else {
        size_t cnt = f->count(s[k].e.get());
        if (!cnt) continue;
        size_t i = g.draw(cnt);
        f->at(s[k].e.get(), i, x);
        l = "at " + ks + " " + name + " " + std::to_string(s.size()) + " " + std::to_string(i);
      }
      if (!x.e || !TypeById(x.e->Type()) || !Offered(TypeById(x.e->Type()))) continue;
      emit(l);
      Slot h;
      h.e = x.e;
      h.t = TypeById(x.e->Type());
      s.push_back(h);
      continue;
    }
    if (what >= 9 && what <= 10 && f->clear && c != 'A' && c != 'S' && c != 'C') {
      f->clear(s[k].e.get());
      if (c != 'E' && !Array(c)) model[s[k].e.get()][f].first = false;
      emit("clear " + ks + " " + name);
      continue;
    }
    if (c == 'E' || c == 'A') {
      const std::vector<const TypeDef*>& cand = Candidates(f);
      // A child of its own, new so that nothing becomes its own ancestor.
      const TypeDef* t = cand[g.draw(cand.size())];
      if (!Offered(t)) continue;
      size_t j = make(t);
      // Give it something first, now and then.
      Val x;
      x.e = s[j].e;
      f->set(s[k].e.get(), x);
      emit((c == 'E' ? "setchild " : "addchild ") + ks + " " + name + " " + std::to_string(j));
      if (g.draw(3) == 2) { // handing it out twice
        std::vector<size_t> w = live();
        size_t k2 = w[g.draw(w.size())];
        if (k2 != j && s[k2].t == s[k].t && k2 < j) {
          f->set(s[k2].e.get(), x);
          emit((c == 'E' ? "setchild " : "addchild ") + std::to_string(k2) + " " + name + " " + std::to_string(j));
        }
      }
      ++sets;
      continue;
    }
    if (c == 'C') {
      kmldom::CoordinatesPtr co = kmldom::AsCoordinates(s[k].e);
      double a = GenDouble(g), b = GenDouble(g), d = GenDouble(g);
      if (g.flip()) { co->add_latlng(a, b); emit("latlng " + ks + " " + Num(a) + " " + Num(b)); }
      else { co->add_latlngalt(a, b, d); emit("latlngalt " + ks + " " + Num(a) + " " + Num(b) + " " + Num(d)); }
      ++sets;
      continue;
    }
    Val x;
    if (c == 'e' || c == 'N') x.i = (int)g.draw(FindEnum(f->arg)->values.size() + (g.draw(8) == 7 ? 3 : 0));
    else x = GenVal(g, f, o);
    if ((c == 's' || c == 'S') && !Utf8(x.s)) continue;
    f->set(s[k].e.get(), x);
    if (!Array(c)) model[s[k].e.get()][f] = std::make_pair(true, x);
    emit((Array(c) ? "add " : "set ") + ks + " " + name + " " + string(1, c) + " " + Scalar(c, x));
    ++sets;
    if (c == 'c' && g.draw(3) == 2) {  // a colour that outlives its element
      Slot h;
      Val y;
      f->get(s[k].e.get(), y);
      h.c = y.c;
      h.color = true;
      emit("color " + ks + " " + name + " " + std::to_string(s.size()));
      s.push_back(h);
    }
  }
  for (size_t k : live()) show(k);
  // In any order of release, what is still held stays usable.
  std::vector<size_t> v = live();
  while (v.size() > 1) {
    size_t i = g.draw(v.size());
    emit("drop " + std::to_string(v[i]));
    s[v[i]].e = NULL;
    v.erase(v.begin() + i);
    if (g.draw(4) == 3) show(v[g.draw(v.size())]);
  }
  if (!v.empty()) show(v[0]);
  for (size_t i = 0; i < s.size(); ++i) if (s[i].color) {
    emit("showcolor " + std::to_string(i));
    if (!log.empty()) log += "\n";
    log += ColorText(s[i].c);
  }
  string text;
  for (auto& l : prog) text += l + "\n";
  Same(log, Call("run", text), "program");
  if (sets > 2) g.nontrivial(text);
  g.sample(text.substr(0, 400));
}
void TypesFacet(G& g) {
  Start();
  int id = (int)g.enumerate(kmldom::Type_Invalid);
  string arg = std::to_string(id), want = "none";
  for (auto c : kCasts) if (Castable(c)) arg += string(" ") + c;
  ElementPtr e = kmldom::KmlFactory::GetFactory()->CreateElementById((kmldom::KmlDomType)id);
  if (e) {
    want = std::to_string(e->Type());
    for (auto c : kCasts) if (Castable(c)) want += string(" ") + c + "=" + (Cast(c, e) ? "1" : "0");
    for (int i = 0; i < 400; ++i) if (e->IsA((kmldom::KmlDomType)i)) want += " " + std::to_string(i);
  }
  Same(want, Call("types", arg), "type " + std::to_string(id));
  g.nontrivial((uint64_t)id);
}
void Engine(G& g) {
  Start();
  GenOpts o;
  const TypeDef* t = g.draw(3) ? FindType("kml") : PickRoot(g);
  M m = GenTree(g, t, o);
  string doc = Xml(m), ids;
  if (g.draw(12) == 11) doc.resize(g.draw(doc.size() + 1));
  // The ids of the document, and one of nothing.
  for (size_t p = 0; (p = doc.find(" id=\"", p)) != string::npos; ) { p += 5; string id = doc.substr(p, doc.find('"', p) - p); if (id.find_first_of(" &\n\t") == string::npos) ids += id + " "; }
  ids += "none-such";
  if (!Utf8(doc) || doc.find('\0') != string::npos) throw pbt::Discard();
  g.note(doc);
  string err, want = "none";
  KmlFilePtr f = KmlFile::CreateFromParse(doc, &err);
  if (f) {
    string xml;
    bool ok = f->SerializeToString(&xml);
    want = ShowE(f->get_root()) + "\n" + (ok ? "1" : "0") + "\n" + Hex(xml);
    std::istringstream in(ids);
    for (string id; in >> id; ) {
      ElementPtr a = f->GetObjectById(id), b = f->GetSharedStyleById(id);
      want += "\nobject " + (a ? ShowE(a) : "-") + "\nstyle " + (b ? ShowE(b) : "-");
    }
    kmldom::FeaturePtr feature = kmlengine::GetRootFeature(f->get_root());
    want += "\nfeature " + (feature ? ShowE(feature) : "-");
    if (feature) {
      kmlengine::Bbox b;
      bool has = kmlengine::GetFeatureBounds(feature, &b);
      want += string("\nbounds ") + (has ? "1" : "0");
      if (has) want += "\n" + Num(b.get_north()) + "\n" + Num(b.get_south()) + "\n" + Num(b.get_east()) + "\n" + Num(b.get_west());
      double lat, lon;
      has = kmlengine::GetFeatureLatLon(feature, &lat, &lon);
      want += string("\ncenter ") + (has ? "1" : "0");
      if (has) want += "\n" + Num(lat) + "\n" + Num(lon);
    }
    KmlFilePtr i = KmlFile::CreateFromImport(kmlengine::Clone(f->get_root()));
    xml.clear();
    if (i) i->SerializeToString(&xml);
    want += "\nimport " + (i ? Hex(xml) : "-");
  }
  Same(want, Call("engine", doc + string(1, '\0') + ids), "file");
  if (f && Count(m) > 2) g.nontrivial(doc);
}
void Kmz(G& g) {
  Start();
  std::vector<zg::Entry> es;
  string members = "not there", want;
  size_t n = 1 + g.size(4);
  for (size_t i = 0; i < n; ++i) {
    string name = (g.draw(3) == 2 ? "d/" : "") + GenPlain(g, 5) + std::to_string(i) + (g.flip() ? ".kml" : ".png"), d;
    size_t len = g.draw(300);
    if (g.flip()) { for (size_t j = 0; j < len; ++j) d += (char)g.draw(256); }
    else { GenOpts o; d = Xml(GenTree(g, PickRoot(g), o)); }
    es.push_back(zg::Entry(name, d, g.flip() ? 8 : 0));
    members += "\n" + name;
  }
  string z = zg::Write(es), path = g.scratch() + "/k.kmz";
  bool whole = g.draw(6) != 5;
  if (!whole) z.resize(g.draw(z.size() + 1));
  { std::ofstream f(path.c_str(), std::ios::binary); f << z; }
  kmlengine::KmzFilePtr k = kmlengine::KmzFile::OpenFromFile(path.c_str());
  if (!k) want = "none";
  else {
    string out;
    bool ok = k->ReadKml(&out);
    want = ok ? "1" + Hex(out) : "0";
    std::istringstream in(members);
    for (string m; std::getline(in, m); ) { out.clear(); ok = k->ReadFile(m.c_str(), &out); want += "\n" + (ok ? "1" + Hex(out) : "0"); }
    if (whole) for (auto& x : es) {
      out.clear();
      CHECK_M(k->ReadFile(x.name.c_str(), &out) && out == x.data, "member " << x.name << " is not what was put in");
    }
  }
  CHECK_M(k || !whole, "archive refused");
  Same(want, Call("kmz", path + string(1, '\0') + members), "archive");
  g.nontrivial(z);
}
void Values(G& g) {
  Start();
  string want, arg;
  auto line = [&](const string& a) { arg += (arg.empty() ? "" : "\n") + a; g.note(a); };
  auto out = [&](const string& a) { want += (want.empty() ? "" : "\n") + a; };
  switch (g.draw(4)) {
    case 0: {
      kmlbase::Color32 c;
      uint32_t is = 0;
      size_t n = 1 + g.draw(6);
      auto argb = [](uint32_t x) { return (x & 0xff00ff00u) | (x & 0xff) << 16 | (x >> 16 & 0xff); };
      for (size_t i = 0; i < n; ++i) {
        unsigned a = g.draw(256), b = g.draw(256), d = g.draw(256), e = g.draw(256);
        uint32_t all = (uint32_t)g.bits64();
        char hex[16];
        size_t len = g.draw(3) ? 8 : g.draw(9);
        snprintf(hex, sizeof hex, g.flip() ? "%08x" : "%08X", all);
        hex[len] = 0;
        string four = std::to_string(a) + " " + std::to_string(b) + " " + std::to_string(d) + " " + std::to_string(e);
        size_t op = i ? g.draw(12) : g.draw(4);
        if (op == 2 && !*hex) op = 3;
        switch (op) {
          case 0: c = kmlbase::Color32(all); line("abgr " + std::to_string(all)); break;
          case 1: c = kmlbase::Color32(a, b, d, e); line("parts " + four); break;
          case 2: c = kmlbase::Color32(string(hex)); line(string("text ") + hex); break;
          case 3: c = kmlbase::Color32(); line("default"); break;
          case 4: c.set_red(a); line("set_red " + std::to_string(a)); break;
          case 5: c.set_green(a); line("set_green " + std::to_string(a)); break;
          case 6: c.set_blue(a); line("set_blue " + std::to_string(a)); break;
          case 7: c.set_alpha(a); line("set_alpha " + std::to_string(a)); break;
          case 8: c.set_color_abgr(all); line("set_color_abgr " + std::to_string(all)); break;
          case 9: c.set_color_argb(all); line("set_color_argb " + std::to_string(all)); break;
          case 10: c.set_color_abgr(string(hex)); line(string("set_color_abgr_text ") + hex); break;
          default: c.set_color_abgr(a, b, d, e); line("set_color_abgr_parts " + four);
        }
        uint32_t word = a << 24 | b << 16 | d << 8 | e;
        switch (op) {
          case 0: case 8: is = all; break;
          case 1: is = word; break;
          case 3: is = 0xffffffffu; break;
          case 4: is = (is & ~0xffu) | a; break;
          case 5: is = (is & ~0xff00u) | a << 8; break;
          case 6: is = (is & ~0xff0000u) | a << 16; break;
          case 7: is = (is & ~0xff000000u) | a << 24; break;
          case 9: is = argb(all); break;
          case 2: case 10: if (len == 8) { is = all; break; } is = c.get_color_abgr(); break;  // Shorter texts: only the two alike.
          default: is = word;
        }
        CHECK_EQM(c.get_color_abgr(), is, "colour");
        CHECK_EQM(c.get_color_argb(), argb(is), "colour as argb");
        out(std::to_string(c.get_red()) + " " + std::to_string(c.get_green()) + " " + std::to_string(c.get_blue()) + " " + std::to_string(c.get_alpha()) + " " +
            std::to_string(c.get_color_abgr()) + " " + std::to_string(c.get_color_argb()) + " " + c.to_string_abgr() + " " + c.to_string_argb() + " 1");
      }
      Same(want, Call("colors", arg), "colour");
      break;
    }
    case 1: {
      std::unique_ptr<kmlengine::Bbox> b;
      double N = -180, S = 180, E = -180, W = 180;
      size_t n = 1 + g.draw(8);
      for (size_t i = 0; i < n; ++i) {
        double x = g.real(-180, 180), y = g.real(-90, 90), z = g.real(-180, 180), w = g.real(-90, 90);
        string two = " " + Num(y) + " " + Num(x), four = " " + Num(y) + " " + Num(w) + " " + Num(x) + " " + Num(z);
        switch (b ? g.draw(7) : g.draw(2)) {
          case 0: b.reset(new kmlengine::Bbox); N = E = -180; S = W = 180; line("new"); break;
          case 1: b.reset(new kmlengine::Bbox(y, w, x, z)); N = y; S = w; E = x; W = z; line("new" + four); break;
          case 2: b->ExpandFromBbox(kmlengine::Bbox(y, w, x, z)); N = std::max(N, y); S = std::min(S, w); E = std::max(E, x); W = std::min(W, z); line("box" + four); break;
          case 3: b->ExpandLatitude(y); N = std::max(N, y); S = std::min(S, y); line("ExpandLatitude " + Num(y)); break;
          case 4: b->ExpandLongitude(x); E = std::max(E, x); W = std::min(W, x); line("ExpandLongitude " + Num(x)); break;
          case 5: b->ExpandLatLon(y, x); N = std::max(N, y); S = std::min(S, y); E = std::max(E, x); W = std::min(W, x); line("ExpandLatLon" + two); break;
          default: {
            bool in = b->Contains(y, x);
            line("contains" + two);
            out(in ? "1" : "0");
            CHECK_EQM(in, N >= y && S <= y && E >= x && W <= x, "a box contains a point");
          }
        }
        if (y < w || x < z) { N = b->get_north(); S = b->get_south(); E = b->get_east(); W = b->get_west(); }  // Inside out: only the two alike.
        CHECK_M(b->get_north() == N && b->get_south() == S && b->get_east() == E && b->get_west() == W, "the box is not around what it was given");
        out(Num(b->get_north()) + " " + Num(b->get_south()) + " " + Num(b->get_east()) + " " + Num(b->get_west()));
      }
      Same(want, Call("bboxes", arg), "box");
      break;
    }
    case 2: {
      static const char* const kPart[] = {"http://", "host", ":80", "/", "a", "b.kmz", "c.kml", "?q", "#f", "..", "d.kmz/", "file:///", "%20"};
      string u;
      size_t n = 1 + g.draw(8);
      for (size_t i = 0; i < n; ++i) u += kPart[g.draw(13)];
      arg = u;
      string a, b;
      bool ok = kmlengine::KmzSplit(u, &a, &b);
      out(ok ? "1" : "0");
      if (ok) { out(Hex(a)); want += "\n" + Hex(b); }
      string p[6];
      ok = kmlengine::SplitUri(u, &p[0], &p[1], &p[2], &p[3], &p[4], &p[5]);
      out(ok ? "1" : "0");
      if (ok) for (auto& x : p) want += "\n" + Hex(x);
      Same(want, Call("uris", u), u);
      break;
    }
    default: {
      char date[40];
      snprintf(date, sizeof date, "%04d-%02d-%02dT%02d:%02d:%02dZ", 1000 + (int)g.draw(9000), (int)g.draw(14), (int)g.draw(33), (int)g.draw(25), (int)g.draw(61), (int)g.draw(61));
      string d = date;
      if (g.draw(5) == 4) d.resize(g.draw(d.size()));
      std::unique_ptr<kmlbase::DateTime> t(kmlbase::DateTime::Create(d));
      if (t) { out(std::to_string(t->GetTimeT())); out(t->GetXsdTime()); out(t->GetXsdDate()); out(t->GetXsdDateTime()); }
      else out("none");
      out(std::to_string(kmlbase::DateTime::ToTimeT(d)));
      double x = GenDouble(g), y = GenDouble(g), z = GenDouble(g);
      bool three = g.flip();
      out(VecText(three ? kmlbase::Vec3(x, y, z) : kmlbase::Vec3(x, y)));
      arg = d + string(1, '\0') + Num(x) + " " + Num(y) + (three ? " " + Num(z) : "");
      kmlbase::Attributes a;
      size_t n = g.draw(5);
      std::vector<string> w;
      for (size_t i = 0; i < n; ++i) {
        w.push_back(GenPlain(g, 3));
        w.push_back(g.flip() ? GenPlain(g, 3) : GenString(g, false));
        if (!Utf8(w.back()) || w.back().find('\0') != string::npos) w.back() = "x";
        a.SetString(w[2 * i], w[2 * i + 1]);
        out(std::to_string(a.GetSize()));
        for (auto& s : w) {
          string v;
          bool ok = a.FindValue(s, &v);
          want += "\n" + (ok ? "1" + Hex(v) : "0");
          v.clear();
          ok = a.FindKey(s, &v);
          want += "\n" + (ok ? "1" + Hex(v) : "0");
        }
      }
      for (auto& s : w) arg += string(1, '\0') + s;
      out(kmlbase::Version::GetString());
      Same(want, Call("misc", arg), d);
    }
  }
  g.nontrivial(arg);
}
}  // namespace
int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "P40",
    "The Python modules built from src/swig, linked into the harness. Generated documents are read, programs of creating, setting, clearing, adding, cloning, fetching and releasing elements carried out, every type cast to every class, files, archives, addresses, colours, boxes, dates and attributes handled, through Python and directly. "
    "Oracle: the C++ library with the same input: presence, value, default and order of every field the modules offer, serialized text, results; besides, the generated document, the values set last, plain arithmetic for colours and boxes, and the members put into an archive; AddressSanitizer for what Python still holds. Non-trivial = more than two elements or settings, or any argument; distinct by the input.",
    {{"read", 6000, 80000, Read, 0},
     {"program", 12000, 150000, Program, 0},
     {"types", 240, 240, TypesFacet, 0},
     {"engine", 5000, 60000, Engine, 0},
     {"kmz", 2000, 20000, Kmz, 0},
     {"values", 12000, 120000, Values, 0}});
}
