#include "mutate.h"
#include <string.h>
#include <set>
namespace kg {
using pbt::G;
const std::vector<string>& AllTags() {
  static std::vector<string> v;
  if (v.empty()) {
    std::set<string> s;
    for (auto& t : Types()) {
      s.insert(t.tag);
      for (auto f : t.fields) if (!f->attr && f->kind != K_TEXT && !f->group) s.insert(f->xml);
    }
    s.insert("Url");
    s.insert("unknown");
    s.insert("x:y");
    v.assign(s.begin(), s.end());
  }
  return v;
}
string HostileText(G& g) {
  static const char* k[] = {
    "", " ", "\n", "\t \n", "-", "--", ",", ",,", "1", "-1", "1,2", "1,2,3", "1 2 3", "1 2 3 4 5", "1e999", "-1e999", "nan", "inf",
    "0x10", "true", "false", "TRUE", "1.", ".5", "-.", "+1", "1,2,", ",1,2", "1,-", "a,b,c", "1;2", "ffffffff", "#ff00ff00", "  ff00ff00",
    "f", "fffffffff", "zzzzzzzz", "\x09\x09" "ffff", "clampToGround", "absolute", "normal", "highlight", "2147483648", "-2147483649",
    "99999999999999999999", "1e-400", "$[name]", "$[", "]", "{0}", "http://h/a.kmz/b.kml#c", "#a", "#", "a.kml#a", "../../x", "radioFolder",
    "open closed error", "\xc3\xa9", "\xe2\x82\xac", "1\xc2\xa0" "2", "0,0 0,0\n0,0", "1997-07-16T07:30:15Z", "&lt;![CDATA[", "]]&gt;",
    "&lt;![CDATA[x]]&gt;", "&amp;", "&#0;", "&#x10FFFF;", "&undefined;", "<![CDATA[", "<![CDATA[]]>", "<![CDATA[<a>]]>"};
  switch (g.draw(8)) {
    case 7: {
      static const char* c[] = {"1", "-", ",", " ", "9.", "a", "e", "\n", "0", "["};
      size_t n = (size_t)g.draw(3000);
      const char* p = c[g.draw(10)];
      string s;
      for (size_t i = 0; i < n; ++i) s += p;
      return s + k[g.draw(sizeof k / sizeof k[0])];
    }
    case 6: {
      string s;
      size_t n = 1 + g.size(8);
      for (size_t i = 0; i < n; ++i) s += k[g.draw(sizeof k / sizeof k[0] - 7)];
      return s;
    }
    case 5: return EscapeText(GenString(g, true, 20));
    default: return k[g.draw(g.draw(20) ? sizeof k / sizeof k[0] - 7 : sizeof k / sizeof k[0])];
  }
}
static void Soup(G& g, string* o, int* budget, int depth, std::vector<string>* names) {
  string tag;
  if (!names->empty() && g.draw(4) == 3) tag = (*names)[g.draw(names->size())];
  else if (depth == 0 && g.draw(3) == 0) tag = "kml";
  else tag = AllTags()[g.draw(AllTags().size())];
  --*budget;
  *o += "<" + tag;
  static const char* at[] = {"id", "targetId", "name", "parent", "schemaUrl", "x", "y", "xunits", "yunits", "maxLines", "type", "xmlns",
    "xmlns:gx", "hint", "rel", "href", "xmlns:q", "length"};
  size_t na = g.size(3);
  std::set<string> used;
  for (size_t i = 0; i < na; ++i) {
    string a = at[g.draw(18)];
    if (!used.insert(a).second) continue;
    string v;
    if (a == "name" && g.draw(2)) { v = names->empty() || g.flip() ? AllTags()[g.draw(AllTags().size())] : (*names)[g.draw(names->size())]; }
    else if (a == "id" || a == "targetId") v = GenId(g);
    else if (a == "xunits" || a == "yunits") v = g.flip() ? "fraction" : "huh";
    else v = EscapeAttr(GenString(g, false, 8));
    *o += " " + a + "=\"" + v + "\"";
  }
  if (tag == "Schema" && !names->empty() && g.flip()) {
    if (!used.count("parent")) *o += " parent=\"Placemark\"";
    if (!used.count("name")) *o += " name=\"" + (*names)[g.draw(names->size())] + "\"";
  }
  if (g.draw(8) == 7) { *o += "/>"; return; }
  *o += ">";
  size_t n = depth >= 90 ? 0 : g.size(5);
  if (depth > 2 && g.draw(40) == 39) n = 1;
  for (size_t i = 0; i <= n; ++i) {
    if (g.draw(2)) *o += HostileText(g);
    if (i < n && *budget > 0) Soup(g, o, budget, depth + 1, names);
  }
  *o += "</" + tag + ">";
}
string TagSoup(G& g, int budget, bool old_schema) {
  string o;
  if (g.draw(8) == 7) o += "<?xml version=\"1.0\"?>";
  std::vector<string> names;
  if (old_schema) {
    static const char* k[] = {"Foo", "bar", "Schema", "Document", "kml", "Placemark", "name", "SimpleField", "description", "Folder", "SchemaData"};
    size_t n = 1 + g.size(3);
    for (size_t i = 0; i < n; ++i) names.push_back(k[g.draw(11)]);
    if (g.flip()) {  // plausible old-style document
      string a = names[0], b = names.size() > 1 ? names[1] : "bar";
      o += "<kml><Document><Schema parent=\"Placemark\" name=\"" + a + "\"><SimpleField name=\"" + b + "\" type=\"string\"/></Schema>";
      size_t m = 1 + g.size(4);
      for (size_t i = 0; i < m; ++i) {
        string inner;
        switch (g.draw(4)) {
          case 0: inner = HostileText(g); break;
          case 1: Soup(g, &inner, &budget, 5, &names); break;
          case 2: inner = "<" + b + ">" + HostileText(g) + "</" + b + ">"; break;
          default: break;
        }
        o += g.draw(5) ? "<" + a + "><" + b + ">" + inner + "</" + b + "></" + a + ">" : "<" + b + ">" + inner + "</" + b + ">";
        if (budget > 0 && g.flip()) Soup(g, &o, &budget, 3, &names);
      }
      return o + "</Document></kml>";
    }
  }
  Soup(g, &o, &budget, 0, &names);
  return o;
}
string MutateBytes(G& g, string s, size_t max_edits) {
  static const char* dict[] = {"<", ">", "/", "</", "/>", "&", ";", "\"", "'", "=", "<!--", "-->", "<![CDATA[", "]]>", "<?", "?>", "<!DOCTYPE a [",
    "<!ENTITY e \"x\">", "]>", "&e;", "\0", "\xff\xfe", "\xef\xbb\xbf", "<description>", "</description>", "<kml>", "</kml>", "<Placemark>",
    "<coordinates>", "</coordinates>", "1,2,3", "-", " ", "\n", "<Schema parent=\"p\" name=\"Foo\">", "<Foo>", "</Foo>", "<SimpleField name=\"bar\"/>", "<bar>", "</bar>"};
  size_t n = 1 + g.size(max_edits);
  for (size_t i = 0; i < n; ++i) {
    size_t p = s.empty() ? 0 : g.draw(s.size() + 1);
    switch (g.draw(8)) {
      case 0: if (p < s.size()) s.erase(p, 1); break;
      case 1: { size_t l = g.size(40); if (p < s.size()) s.erase(p, l); break; }
      case 2: if (p < s.size()) s[p] = (char)g.draw(256); break;
      case 3: s.insert(p, 1, (char)g.draw(256)); break;
      case 4: case 5: { const char* d = dict[g.draw(sizeof dict / sizeof dict[0])]; s.insert(p, *d ? string(d) : string(1, '\0')); break; }
      case 6: { size_t q = s.empty() ? 0 : g.draw(s.size()), l = g.size(60); s.insert(p, s.substr(q, l)); break; }
      default: s.resize(std::min(s.size(), p)); break;
    }
    if (s.size() > 60000) break;
  }
  return s;
}
}  // namespace kg
