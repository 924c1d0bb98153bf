// Acceptance: differential against an independent expat-based recogniser.
#include <expat.h>
#include <string.h>
#include <set>
#include <sstream>
#include "kmlgen.h"
#include "mutate.h"
#include "zipgen.h"
#include "kml/dom/xsd.h"
#include "kml/engine/kml_file.h"
#include "kml/engine/kml_stream.h"
using namespace kg;
using pbt::G;

namespace {
const std::set<string>& Known() {
  static std::set<string> s;
  if (s.empty())
    for (auto& t : Types()) {
      s.insert(t.tag);
      for (auto f : t.fields) if (!f->attr && !f->group && f->kind != K_TEXT && f->kind != K_COORDS) s.insert(f->xml);
    }
  return s;
}
struct Rec {
  XML_Parser p;
  unsigned depth;
  bool root, known, deep, entity, ns, unsure;
};
void Start(void* u, const char* n, const char**) {
  Rec* r = (Rec*)u;
  if (++r->depth > 100) { r->deep = true; }
  if (!r->root) {
    r->root = true;
    const char* b = n;
    if (r->ns) if (const char* q = strrchr(n, '|')) b = q + 1;
    r->known = Known().count(b) > 0;
    // Names which only the library's own table knows are left out.
    if (!r->known && kmldom::Xsd::GetSchema()->ElementId(b) != kmldom::Type_Unknown) r->unsure = true;
  }
}
void End(void* u, const char*) { --((Rec*)u)->depth; }
void Ent(void* u, const char*, int, const char*, int, const char*, const char*, const char*, const char*) { ((Rec*)u)->entity = true; }
// 1 accept, 0 reject, -1 undecided
int Recognise(const string& xml, bool ns) {
  Rec r;
  memset(&r, 0, sizeof r);
  r.ns = ns;
  r.p = ns ? XML_ParserCreateNS(NULL, '|') : XML_ParserCreate(NULL);
  XML_SetUserData(r.p, &r);
  XML_SetElementHandler(r.p, Start, End);
  XML_SetEntityDeclHandler(r.p, Ent);
  bool ok = XML_Parse(r.p, xml.data(), (int)xml.size(), 1) == XML_STATUS_OK;
  XML_ParserFree(r.p);
  if (r.unsure) return -1;
  return ok && r.root && r.known && !r.deep && !r.entity;
}
void Decide(G& g, const string& xml, int which) {
  bool ns = which == 1;
  int want = Recognise(xml, ns);
  if (want < 0) throw pbt::Discard();
  string err;
  bool got, gaveerr = true;
  switch (which) {
    case 0: got = kmldom::Parse(xml, &err) != NULL; break;
    case 1: got = kmldom::ParseNS(xml, &err) != NULL; break;
    case 2: got = kmldom::ParseKml(xml) != NULL; gaveerr = false; break;
    case 3: {
      if (xml.compare(0, 4, "PK\x03\x04") == 0) throw pbt::Discard();
      kmlengine::KmlFile* f = kmlengine::KmlFile::CreateFromParse(xml, &err);
      got = f != NULL;
      if (f) CHECK_M(f->get_root(), "file object without root");
      kmlengine::KmlFilePtr keep(f);
      break;
    }
    default: {
      std::istringstream in(xml);
      kmlengine::KmlStream* s = kmlengine::KmlStream::ParseFromIstream(&in, &err, NULL);
      got = s != NULL;
      if (s) { bool r = s->get_root() != NULL; delete s; CHECK_M(r, "stream object without root"); }
    }
  }
  static const char* nm[] = {"Parse", "ParseNS", "ParseKml", "KmlFile", "KmlStream"};
  g.label(string(nm[which]) + (want ? " accept" : " reject"));
  CHECK_M(got == (want == 1), nm[which] << (got ? " accepts" : " rejects") << " a document it must " << (want ? "accept" : "reject") << ": " << err);
  if (gaveerr) CHECK_M(err.empty() == got, nm[which] << (got ? " succeeds and reports: " + err : string(" fails without an error message")));
  g.nontrivial(xml + nm[which]);
}
void All(G& g, const string& xml) {
  g.note(xml);
  g.sample(xml);
  Decide(g, xml, (int)g.draw(5));
}
string Doc(G& g, int budget) {
  GenOpts o;
  o.budget = budget;
  return Render(g, GenTree(g, PickRoot(g), o), RenderOpts());
}
void Valid(G& g) { All(g, Doc(g, 10)); }
void Mutated(G& g) { All(g, MutateBytes(g, Doc(g, 6), 1 + g.draw(3))); }
void Truncated(G& g) {  // cut at every kind of place, or glue documents together
  string d = Doc(g, 5);
  switch (g.draw(4)) {
    case 0: d = d.substr(0, g.draw(d.size() + 1)); break;
    case 1: d = d.substr(g.draw(d.size() + 1)); break;
    case 2: d += Doc(g, 2); break;
    default: d += g.pick({string("\n"), string("<!-- c -->"), string("x"), string("<?pi?>"), string("</kml>"), string(1, '\0'), string("&amp;")});
  }
  All(g, d);
}
void Soups(G& g) { All(g, TagSoup(g, (int)g.range(1, 12), g.draw(5) == 4)); }
void Roots(G& g) {
  std::vector<string> tags(Known().begin(), Known().end());
  uint64_t i = g.enumerate(tags.size() * 2);
  string t = tags[i / 2];
  if (i % 2) {  // nearly the name
    switch (g.draw(6)) {
      case 0: t += "x"; break;
      case 1: t = t.substr(0, t.size() - 1); break;
      case 2: t[g.draw(t.size())] ^= 32; break;
      case 3: t = "k:" + t; break;
      case 4: t = "_" + t; break;
      default: t += t;
    }
  }
  string in = g.flip() ? Doc(g, 2) : g.flip() ? "" : GenPlain(g);
  if (in.compare(0, 2, "<?") == 0 || in.find("<!DOCTYPE") != string::npos) in = "";
  All(g, "<" + t + ">" + in + "</" + t + ">");
}
void Depth(G& g) {
  size_t n = 97 + g.draw(7);
  static const char* t[] = {"Folder", "Document", "foo", "MultiGeometry", "Placemark", "kml", "x"};
  string a, b;
  std::vector<string> st;
  bool first = true;
  string side = g.flip() ? "<name>s</name>" : "";
  for (size_t i = 0; i < n; ++i) {
    string x = first ? "kml" : g.draw(12) ? t[0] : t[g.draw(7)];
    first = false;
    a += "<" + x + ">";
    if (g.draw(20) == 19) a += side;
    st.push_back(x);
  }
  // Up and down again does not count as deeper.
  if (g.flip()) for (int i = 0; i < 3; ++i) a += "<Folder></Folder>";
  while (!st.empty()) { b += "</" + st.back() + ">"; st.pop_back(); if (!st.empty() && g.draw(15) == 14) b += "<Folder/>"; }
  All(g, a + b);
}
// Many elements side by side are not deep, whatever they are.
void Wide(G& g) {
  size_t n = 95 + g.draw(120);
  static const char* kid[] = {
    "<name>n</name>", "<foo/>", "<foo><bar/></foo>", "<Placemark/>", "<Placemark><description>a<b>c</b><br/></description></Placemark>",
    "<S><f>1</f><g/></S>", "<S/>", "<f/>", "<Point><coordinates>1,2</coordinates></Point>", "<foo:bar a='b'>t</foo:bar>", "<Style/>",
    "<S><f><b/>1</f><name>x</name></S>", "<Folder><foo><description/></foo></Folder>"};
  size_t root = g.draw(4);
  string r = root == 3 ? "Folder" : root == 2 ? "foo" : "Document";
  string s = root == 2 ? "<kml><foo>" : "<" + r + ">";
  if (g.draw(3)) s += "<Schema parent='Placemark' name='S'><SimpleField name='f' type='string'/><SimpleField name='g' type='int'/></Schema>";
  bool mix = g.flip();
  size_t one = g.draw(13);
  for (size_t i = 0; i < n; ++i) s += kid[mix ? g.draw(13) : one];
  s += "</" + r + ">" + (root == 2 ? "</kml>" : "");
  if (s.find("foo:") != string::npos) s.insert(s.find('>'), " xmlns:foo='u:f'");
  All(g, s);
}
void Doctypes(G& g) {
  static const char* decl[] = {
    "", "<!ELEMENT kml ANY>", "<!ATTLIST kml a CDATA #IMPLIED>", "<!NOTATION n SYSTEM \"x\">", "<!-- c -->", "<?pi x?>",
    "<!ENTITY e \"x\">", "<!ENTITY % p \"x\">", "<!ENTITY e SYSTEM \"file:///nonexistent\">", "<!ENTITY e PUBLIC \"a\" \"b\" NDATA n>",
    "<!ENTITY lol \"&lol2;\"><!ENTITY lol2 \"ha\">", "<!ATTLIST kml a CDATA \"dflt\">", "%undef;"};
  string s;
  if (g.flip()) s += "<?xml version=\"1.0\"?>";
  s += "<!DOCTYPE kml";
  size_t e = g.draw(4);
  if (e == 1) s += " SYSTEM \"x.dtd\"";
  if (e == 2) s += " PUBLIC \"a\" \"x.dtd\"";
  if (g.draw(3)) {
    s += " [";
    size_t n = g.size(3);
    for (size_t i = 0; i < n; ++i) s += decl[g.draw(13)];
    s += "]";
  }
  s += ">";
  static const char* body[] = {"", "&amp;", "&e;", "&lol;", "&undef;", "<name>&e;</name>", "&#65;", "&#0;", "text"};
  s += string("<kml>") + body[g.draw(9)] + "</kml>";
  All(g, s);
}
void Encodings(G& g) {
  static const char* enc[] = {"utf-8", "UTF-8", "us-ascii", "iso-8859-1", "UTF-16", "windows-1252", "bogus", "utf-7", ""};
  string e = enc[g.draw(9)];
  string s = e.empty() && g.flip() ? "" : "<?xml version=\"1." + std::to_string(g.draw(2)) + "\" encoding=\"" + e + "\"?>";
  s += "<kml><name>";
  size_t n = g.size(6);
  for (size_t i = 0; i < n; ++i) {
    static const char* c[] = {"a", "\xc3\xa9", "\xe9", "\xff", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xed\xa0\x80", "\xc0\x80", "\x80", "\x01", "\x7f", "\xef\xbf\xbe"};
    s += c[g.draw(12)];
  }
  s += "</name></kml>";
  if (g.draw(4) == 3) s = "\xef\xbb\xbf" + s;
  if (g.draw(5) == 4) {  // UTF-16 with or without byte order mark
    bool be = g.flip();
    string u;
    if (g.flip()) u = be ? "\xfe\xff" : "\xff\xfe";
    for (unsigned char c : s) { if (be) { u += '\0'; u += (char)c; } else { u += (char)c; u += '\0'; } }
    s = u;
  }
  All(g, s);
}
void Tiny(G& g) {
  static const char* piece[] = {"", " ", "\n", "<", ">", "kml", "<kml", "/>", "<kml/>", "</kml>", "<kml>", "&", "<!--", "-->", "<?xml version='1.0'?>", "a='b'", "]]>", "<![CDATA[", "\xef\xbb\xbf"};
  string s;
  size_t n = g.size(6);
  for (size_t i = 0; i < n; ++i) s += piece[g.draw(19)];
  All(g, s);
}
// The file object takes archives as well.
void Archives(G& g) {
  string xml = g.draw(8) == 7 ? "" : g.flip() ? Doc(g, 4) : MutateBytes(g, Doc(g, 3), 1 + g.draw(2));
  std::vector<zg::Entry> es;
  if (g.draw(3) == 2) es.push_back(zg::Entry("img/a.png", "\x89PNG"));
  bool kml = g.draw(6) != 5;
  if (kml) es.push_back(zg::Entry(g.flip() ? "doc.kml" : "sub/x.kml", xml, g.flip() ? 0 : 8));
  if (es.empty()) es.push_back(zg::Entry("readme.txt", "x"));
  string bytes = zg::Write(es), err;
  int want = kml ? Recognise(xml, false) : 0;
  switch (g.draw(6)) {
    case 0: bytes = bytes.substr(0, 4 + g.draw(bytes.size() - 4)); want = -1; break;
    case 1: bytes = MutateBytes(g, bytes, 1 + g.draw(4)); want = -1; break;
    case 2: bytes = string("PK\x03\x04", 4) + GenString(g, true, 20); want = -1; break;
    default: break;
  }
  kmlengine::KmlFilePtr f = kmlengine::KmlFile::CreateFromParse(bytes, &err);
  g.note(xml);
  if (want >= 0) CHECK_M(!!f == (want == 1), "archive " << (f ? "accepted" : "rejected: " + err));
  CHECK_M(err.empty() == !!f, (f ? "succeeds and reports: " + err : string("fails without an error message")));
  kmlengine::KmlFilePtr q = kmlengine::KmlFile::CreateFromParse(bytes, NULL);
  CHECK_M(!q == !f, "result depends on whether a message is asked for");
  g.label(want < 0 ? "damaged archive" : want ? "archive accepted" : "archive rejected");
  g.nontrivial(bytes);
}
}  // namespace
int main(int argc, char** argv) {
  long r = (long)Known().size() * 2;
  return pbt::Main(argc, argv, "P05",
    "Accept/reject of five entry points against an independent expat recogniser (well-formed, no entity declaration, known root, "
    "depth at most 100); every known element name and a near miss of it as root; non-trivial = every decided document; distinct by document and entry point.",
    {{"valid", 45000, 500000, Valid, 0},
     {"mutated", 90000, 1000000, Mutated, 0},
     {"truncated", 60000, 600000, Truncated, 0},
     {"soup", 60000, 600000, Soups, 0},
     {"roots", r * 10, r * 400, Roots, 0},
     {"depth", 18000, 200000, Depth, 0},
     {"wide", 12000, 100000, Wide, 0},
     {"doctype", 36000, 300000, Doctypes, 0},
     {"encoding", 36000, 300000, Encodings, 0},
     {"tiny", 60000, 500000, Tiny, 0},
     {"archive", 30000, 300000, Archives, 0}});
}
