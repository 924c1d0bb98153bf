// Entity expansion, entity maps of features and balloon texts against models.
#include <set>
#include "kmlgen.h"
#include "kml/base/string_util.h"
#include "kml/dom.h"
#include "kml/engine.h"
#include "kml/engine/entity_mapper.h"
#include "kml/engine/feature_balloon.h"
using namespace kg;
using namespace kmldom;
using kmlbase::StringMap;
using kmlbase::StringPairVector;
using pbt::G;

namespace {
// One pass from left to right; what was inserted is not looked at again.
string Model(const string& in, const StringMap& m, const string& s, const string& e) {
  string out;
  for (size_t p = 0; p < in.size();) {
    bool hit = false;
    for (auto& kv : m) {
      string c = s + kv.first + e;
      if (!c.empty() && in.compare(p, c.size(), c) == 0) { out += kv.second; p += c.size(); hit = true; break; }
    }
    if (!hit) out += in[p++];
  }
  return out;
}
string Value(G& g) {
  static const char* p[] = {"v", "long value with words", "<b>", "&amp;", "\xc3\xa9", " ", "0", "\n", "\"", "'", "end"};
  string s;
  for (size_t i = 0, n = g.size(5); i < n; ++i) s += p[g.draw(11)];
  return s;
}
string Text(const string& s) { return kmlbase::EscapeXml(s); }

void Expand(G& g) {
  static const char* delim[][2] = {{"$[", "]"}, {"{", "}"}, {"$(", ")"}, {"", ""}, {"<<", ""}, {"", ">>"}};
  int d = (int)g.draw(6);
  string s = delim[d][0], e = delim[d][1];
  StringMap m;
  std::vector<string> keys;
  // Loose delimiters and keys in the text: then no value may glue them together.
  bool loose = g.flip();
  size_t n = g.many(6, 100);
  for (size_t i = 0; i < n; ++i) {
    // Distinct first letters: no key is part of another.
    string k = string(1, (char)('A' + i % 26));
    if (n > 26) k += string(1, (char)('a' + i / 26));
    k += (char)('0' + g.draw(10));
    if (d < 3) { static const char* t[] = {"", "x", "/displayName", " with space", ".dot"}; k += t[g.draw(5)]; }
    string v = Value(g);
    if (d < 3 && g.draw(5) == 4) { v += s + k + e; if (g.flip()) v += "tail"; }   // the value holds its own key
    else if (g.draw(8) == 7) v += k;
    if (d >= 3) { v = Value(g); }
    if (loose) v = "v" + v + "v";
    m[k] = v;
    keys.push_back(k);
  }
  string in;
  size_t parts = g.many(14, 500);
  for (size_t i = 0; i < parts; ++i) {
    switch (g.draw(loose ? 7 : 5)) {
      case 0: case 1: case 2: if (!keys.empty()) { in += s + g.pick(keys) + e; break; }  // fall through
      case 3: in += Value(g); break;
      case 4: in += s + "undefined" + e; break;
      case 5: in += g.flip() ? s : e; break;
      default: if (!keys.empty()) in += g.pick(keys); break;
    }
  }
  string how = "[" + in + "] with";
  for (auto& kv : m) how += " " + kv.first + "=" + kv.second;
  g.note(how);
  StringMap before = m;
  string got = kmlbase::CreateExpandedStrings(in, m, s, e);
  string want = Model(in, m, s, e);
  CHECK_EQM(got, want, how);
  CHECK_T(m == before);
  if (d == 0) CHECK_EQM(kmlengine::CreateExpandedEntities(in, m), want, how);
  if (want != in) { g.nontrivial(how); g.sample(how); }
}

struct Doc {
  string xml;
  StringMap map;
  std::vector<std::pair<string, string> > alt;
  bool has_name, has_desc, has_ext, has_balloon;
  string name, desc, balloon;
  std::vector<string> keys;
};
struct Schema { string id, name; bool has_name; std::vector<std::pair<string, string> > fields; };
string Refs(G& g, const std::vector<string>& keys) {
  string r;
  size_t n = 1 + g.size(6);
  for (size_t i = 0; i < n; ++i) {
    if (!keys.empty() && g.draw(3)) r += "$[" + keys[g.draw(keys.size())] + "]";
    else r += g.draw(5) == 4 ? string("$[nothing]") : Value(g);
  }
  return r;
}
Doc GenDoc(G& g) {
  Doc d;
  std::vector<Schema> schemas;
  size_t ns = g.draw(3);
  int uniq = 0;
  string head;
  for (size_t i = 0; i < ns; ++i) {
    Schema s;
    s.id = "schema" + std::to_string(i);
    s.has_name = g.draw(8) != 7;
    s.name = s.has_name ? "S" + std::to_string(g.draw(6) ? i : g.draw(2)) : "";
    head += "<Schema id=\"" + s.id + "\"" + (s.has_name ? " name=\"" + s.name + "\"" : "") + ">";
    size_t nf = g.many(4, 40);
    for (size_t k = 0; k < nf; ++k) {
      // Schemas may use the same field names.
      string fn = "field" + std::to_string(k), dn = g.flip() ? "Display " + std::to_string(uniq++) : "";
      s.fields.push_back({fn, dn});
      head += "<SimpleField type=\"string\" name=\"" + fn + "\">" + (dn.empty() ? "" : "<displayName>" + dn + "</displayName>") + "</SimpleField>";
    }
    head += "</Schema>";
    schemas.push_back(s);
  }
  string ext;
  d.has_ext = g.draw(3) != 0;
  if (d.has_ext) {
    // In the standard order Data comes before SchemaData.
    size_t nd = g.many(4, 60);
    for (size_t i = 0; i < nd; ++i) {
      // Names may be used again: the last one counts, also for the display name.
      string n = g.chance(1, 25) ? string() : "data" + std::to_string(g.draw(3) ? i : g.draw(4)), v = Value(g), dn = g.flip() ? "shown " + std::to_string(uniq++) : "";
      bool has_dn = !dn.empty() || g.draw(12) == 11, has_v = g.draw(10) != 9;
      if (!has_v) v = "";
      ext += "<Data name=\"" + n + "\">" + (!has_dn ? "" : "<displayName>" + dn + "</displayName>") + (has_v ? "<value>" + Text(v) + "</value>" : "") + "</Data>";
      d.map[n] = v;
      if (has_dn) d.map[n + "/displayName"] = dn;
      d.alt.push_back({!has_dn ? n : dn, v});
    }
    size_t nsd = g.size(3);
    for (size_t i = 0; i < nsd; ++i) {
      const Schema* s = NULL;
      string url;
      switch (g.draw(4)) {
        case 0: break;
        case 1: url = "#nowhere"; break;
        default: if (!schemas.empty()) { s = &schemas[g.draw(schemas.size())]; url = "#" + s->id; }
      }
      ext += "<SchemaData" + (url.empty() ? "" : " schemaUrl=\"" + url + "\"") + ">";
      string prefix = (s ? s->name : "") + "/";
      if (s) for (auto& f : s->fields) if (!f.second.empty()) d.map[s->name + "/" + f.first + "/displayName"] = f.second;
      size_t nv = g.many(4, 40);
      for (size_t k = 0; k < nv; ++k) {
        string fn = "field" + std::to_string(g.draw(4)), v = Value(g);
        ext += "<SimpleData name=\"" + fn + "\">" + Text(v) + "</SimpleData>";
        d.map[prefix + fn] = v;
        string shown = fn;
        if (s) for (auto& f : s->fields) if (f.first == fn) shown = s->name + ":" + (f.second.empty() ? fn : f.second);
        d.alt.push_back({shown, v});
      }
      ext += "</SchemaData>";
    }
    ext = "<ExtendedData>" + ext + "</ExtendedData>";
  }
  d.has_name = g.flip();
  string fields;
  d.map["id"] = "pm";
  if (d.has_name) { d.name = Value(g); d.map["name"] = d.name; fields += "<name>" + Text(d.name) + "</name>"; }
  if (g.flip()) { string a = Value(g); d.map["address"] = a; fields += "<address>" + Text(a) + "</address>"; }
  bool snip = g.flip();
  if (snip) { string a = g.draw(8) ? Value(g) : ""; d.map["Snippet"] = a; fields += "<Snippet maxLines=\"1\">" + Text(a) + "</Snippet>"; }
  d.has_desc = g.flip();
  d.has_balloon = g.flip();
  for (auto& kv : d.map) d.keys.push_back(kv.first);
  if (d.has_desc) {
    // The description is a template itself, unless it is a value of one.
    d.desc = d.has_balloon ? Value(g) : Refs(g, d.keys);
    d.map["description"] = d.desc;
    d.keys.push_back("description");
    fields += "<description>" + Text(d.desc) + "</description>";
  }
  if (d.has_balloon) d.balloon = Refs(g, d.keys);
  string st = d.has_balloon ? "<BalloonStyle><text>" + Text(d.balloon) + "</text></BalloonStyle>" : g.flip() ? "<BalloonStyle><bgColor>ff00ff00</bgColor></BalloonStyle>" : "";
  bool shared = g.flip();
  string other = "<Style id=\"other\"><BalloonStyle><text>wrong $[name]</text></BalloonStyle></Style>";
  static const char* kinds[] = {"Placemark", "Folder", "NetworkLink", "GroundOverlay", "ScreenOverlay"};
  string kind = kinds[g.draw(5)];
  string style = shared ? "<Style id=\"mine\">" + st + "</Style>" : "";
  string inl = shared ? "" : "<Style>" + st + "</Style>";
  d.xml = "<kml xmlns=\"http://www.opengis.net/kml/2.2\"><Document>" + other + style + head + "<" + kind + " id=\"pm\">" + fields +
          (shared ? "<styleUrl>#mine</styleUrl>" : "") + inl + ext + "</" + kind + "></Document></kml>";
  return d;
}
string Show(const StringMap& m) { string r; for (auto& kv : m) r += "{" + kv.first + "=" + kv.second + "}"; return r; }
string Show(const std::vector<std::pair<string, string> >& m) { string r; for (auto& kv : m) r += "{" + kv.first + "=" + kv.second + "}"; return r; }

void Mapper(G& g) {
  Doc d = GenDoc(g);
  g.note(d.xml);
  string err;
  kmlengine::KmlFilePtr f = kmlengine::KmlFile::CreateFromParse(d.xml, &err);
  CHECK_M(f, err << d.xml);
  FeaturePtr pm = AsFeature(f->GetObjectById("pm"));
  CHECK_M(pm, d.xml);
  string before = Raw(f->get_root());
  StringMap m;
  StringPairVector alt;
  m["already"] = "there";
  alt.push_back({"already", "there"});
  kmlengine::EntityMapper em(f, &m, &alt);
  em.GetEntityFields(pm);
  StringMap want = d.map;
  want["already"] = "there";
  CHECK_EQM(Show(m), Show(want), d.xml);
  CHECK_EQ(alt[0].first, string("already"));
  alt.erase(alt.begin());
  CHECK_EQM(Show(alt), Show(d.alt), d.xml);
  StringMap m2;
  kmlengine::EntityMapper em2(f, &m2);
  em2.GetEntityFields(pm);
  CHECK_EQM(Show(m2), Show(d.map), d.xml);
  // The same mapper again: the map is rewritten, not corrupted.
  em2.GetEntityFields(pm);
  CHECK_EQM(Show(m2), Show(d.map), d.xml);
  CHECK_EQM(Raw(f->get_root()), before, d.xml);
  if (d.map.size() > 2) { g.nontrivial(d.xml); g.sample(d.xml); }
}
void Balloon(G& g) {
  Doc d = GenDoc(g);
  g.note(d.xml);
  string err;
  kmlengine::KmlFilePtr f = kmlengine::KmlFile::CreateFromParse(d.xml, &err);
  CHECK_M(f, err << d.xml);
  FeaturePtr pm = AsFeature(f->GetObjectById("pm"));
  string before = Raw(f->get_root());
  string got = kmlengine::CreateBalloonText(f, pm);
  string want;
  if (d.has_balloon) want = Model(d.balloon, d.map, "$[", "]");
  else {
    if (d.has_name) want += "<h3>" + d.name + "</h3><br/><br/>";
    if (d.has_desc) want += Model(d.desc, d.map, "$[", "]");
    else if (d.has_ext) {
      want += "\n<table border=\"1\">\n";
      for (auto& a : d.alt) want += "<tr><td>" + a.first + "</td><td>" + a.second + "</tr>\n";
      want += "</table>\n";
    }
  }
  // The markup around the table is not ours to judge.
  auto norm = [](string s) { string r; for (char c : s) if (c != '\n' && c != ' ') r += c; size_t p; while ((p = r.find("</td></tr>")) != string::npos) r.erase(p, 5); return r; };
  CHECK_EQM(norm(got), norm(want), d.xml);
  CHECK_EQM(Raw(f->get_root()), before, d.xml);
  if (!want.empty()) { g.nontrivial(d.xml); g.sample(d.xml + " -> " + want); }
  g.label(d.has_balloon ? "template" : d.has_desc ? "description" : d.has_ext ? "table" : "bare");
}
}  // namespace

int main(int argc, char** argv) {
  std::vector<pbt::Facet> f = {
    {"expand", 200000, 3000000, Expand, 0},
    {"mapper", 60000, 800000, Mapper, 0},
    {"balloon", 60000, 800000, Balloon, 0},
  };
  return pbt::Main(argc, argv, "P30", "expand: something was replaced; mapper: more than two entities; balloon: non-empty text; distinct by input", f);
}
