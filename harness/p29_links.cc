// Link discovery against a walk of the document by an independent reader.
#include <set>
#include "kmlgen.h"
#include "zipgen.h"
#include "kml/convenience/kmz_check_links.h"
#include "kml/base/net_cache.h"
#include "kml/dom.h"
#include "kml/engine.h"
#include "kml/engine/get_link_parents.h"
#include "kml/engine/get_links.h"
#include "kml/engine/link_util.h"
using namespace kg;
using namespace kmldom;
using pbt::G;

namespace {
struct Ref { string text; bool relpath; };
Ref GenRef(G& g) {
  static const char* files[] = {"a.png", "b.kml", "images/c.jpg", "models/m.dae", "d e.png", "x/y/z.kml", "q"};
  static const char* frags[] = {"#s", "#style1", "#A-b_c"};
  static const char* hosts[] = {"http://h.com/", "https://example.com/d/", "http://h.com:8080/", "ftp://f.org/p/"};
  string f = files[g.draw(7)];
  switch (g.draw(6)) {
    case 0: case 1: return {f, true};
    case 2: return {f + frags[g.draw(3)], true};
    case 3: return {frags[g.draw(3)], false};
    case 4: return {hosts[g.draw(4)] + f, false};
    default: return {hosts[g.draw(4)] + f + frags[g.draw(3)], false};
  }
}
bool LinkField(const string& x) { return x == "href" || x == "styleUrl" || x == "targetHref" || x == "schemaUrl"; }
void Fill(G& g, M* m, std::map<string, bool>* rel) {
  for (auto& f : m->f) {
    if (LinkField(f.f->xml) && f.f->kind == K_STR) {
      Ref r = GenRef(g);
      f.v.s = r.text;
      (*rel)[r.text] = r.relpath;
    }
    for (auto& k : f.kids) Fill(g, &k, rel);
  }
}
M GenDoc(G& g, std::map<string, bool>* rel) {
  GenOpts o;
  o.nasty = g.draw(4) == 3;
  o.budget = 60;
  o.leaf_num = 2; o.leaf_den = 3;
  if (g.draw(3)) {
    static const char* only[] = {"kml", "Document", "Folder", "Placemark", "NetworkLink", "GroundOverlay", "ScreenOverlay", "PhotoOverlay", "Link", "Icon", "IconStyleIcon",
      "Style", "StyleMap", "Pair", "IconStyle", "ListStyle", "ItemIcon", "Model", "ResourceMap", "Alias", "ExtendedData", "SchemaData", "SimpleData", "gx:Tour", "gx:Playlist", "gx:SoundCue",
      "NetworkLinkControl", "Update", "Change", "MultiGeometry", "gx:Track", "gx:AnimatedUpdate", "Schema"};
    for (auto t : only) o.only.push_back(t);
  }
  static const char* roots[] = {"kml", "Document", "Folder", "Placemark", "NetworkLink", "Style", "GroundOverlay"};
  M m = GenTree(g, g.draw(4) == 3 ? PickRoot(g) : FindType(roots[g.draw(7)]), o);
  Fill(g, &m, rel);
  return m;
}
void Expected(const X& x, const string& parent, std::vector<string>* out, std::vector<string>* parents) {
  if (x.tag.compare(0, 2, "zz") == 0) return;
  static const std::set<string> lp = {"NetworkLink", "Model", "PhotoOverlay", "GroundOverlay", "ScreenOverlay", "ItemIcon", "IconStyle"};
  if (lp.count(x.tag)) parents->push_back(x.tag + "#" + (x.attrs.count("id") ? x.attrs.at("id") : ""));
  for (auto& k : x.kids) Expected(k, x.tag, out, parents);
  if (x.tag == "href" || x.tag == "styleUrl" || (x.tag == "targetHref" && parent == "Alias")) out->push_back(x.text);
  if (x.tag == "SchemaData" && x.attrs.count("schemaUrl")) out->push_back(x.attrs.at("schemaUrl"));
}
std::vector<string> NonEmpty(const std::vector<string>& v) { std::vector<string> r; for (auto& s : v) if (!s.empty()) r.push_back(s); return r; }
string Join(const std::vector<string>& v) { string r; for (auto& s : v) r += "[" + s + "]"; return r; }

void Discover(G& g) {
  std::map<string, bool> rel;
  M m = GenDoc(g, &rel);
  RenderOpts ro;
  string xml = g.flip() ? Xml(m) : Render(g, m, ro);
  // References inside elements nobody knows are not KML links.
  if (g.draw(3) == 2) {
    static const char* ends[] = {"</Document>", "</Folder>", "</Placemark>", "</kml>", "</NetworkLink>"};
    size_t p = xml.find(ends[g.draw(5)]);
    if (p != string::npos) xml.insert(p, "<zz><Link><href>not-a-link.kml</href></Link><styleUrl>#no</styleUrl></zz>");
  }
  X x;
  string err;
  CHECK_M(ReadXml(xml, &x, &err), err << xml);
  g.note(xml);
  std::vector<string> want, parents;
  // A root that is itself a link is nobody's child.
  Expected(x, "", &want, &parents);
  if (x.tag == "SchemaData" && x.attrs.count("schemaUrl")) want.pop_back();
  want = NonEmpty(want);
  kmlengine::href_vector_t got;
  CHECK_M(kmlengine::GetLinks(xml, &got), xml);
  CHECK_EQM(Join(NonEmpty(got)), Join(want), xml);
  std::vector<string> wrel;
  for (auto& w : want) if (rel.count(w) && rel[w]) wrel.push_back(w);
  kmlengine::href_vector_t grel;
  grel.push_back("kept");   // the result is appended
  CHECK_M(kmlengine::GetRelativeLinks(xml, &grel), xml);
  CHECK_EQ(grel[0], string("kept"));
  grel.erase(grel.begin());
  // Only references whose nature is known are judged.
  bool all_known = true;
  for (auto& w : want) if (!rel.count(w)) all_known = false;
  if (all_known) CHECK_EQM(Join(grel), Join(wrel), xml);
  kmlengine::ElementVector ev;
  CHECK_M(kmlengine::GetLinkParents(xml, &ev), xml);
  std::vector<string> gp;
  for (auto& e : ev) {
    CHECK_M(e, xml);
    CHECK_M(kmlengine::IsLinkParent(e) != kmlengine::IsIconParent(e), xml);
    ObjectPtr o = AsObject(e);
    gp.push_back(string(TypeById(e->Type())->tag) + "#" + (o ? o->get_id() : ""));
  }
  CHECK_EQM(Join(gp), Join(parents), xml);
  // Failure is reported.
  size_t last = xml.rfind("</" + x.tag);
  string broken = xml.substr(0, g.draw((last == string::npos ? 0 : last) + 1));
  kmlengine::href_vector_t b1, b2;
  kmlengine::ElementVector b3;
  CHECK_M(!kmlengine::GetLinks(broken, &b1) && !kmlengine::GetRelativeLinks(broken, &b2) && !kmlengine::GetLinkParents(broken, &b3), broken);
  CHECK_T(!kmlengine::GetLinks(xml, NULL) && !kmlengine::GetRelativeLinks(xml, NULL) && !kmlengine::GetLinkParents(xml, NULL));
  if (want.size() > 1) { g.nontrivial(xml); g.sample(xml); }
  g.label(want.empty() ? "none" : want.size() > 4 ? "many" : "some");
}

// The archive checker.
void Kmz(G& g) {
  std::map<string, bool> rel;
  M m = GenDoc(g, &rel);
  string xml = Xml(m);
  X x;
  string err;
  CHECK_M(ReadXml(xml, &x, &err), err);
  std::vector<string> want, parents, missing;
  Expected(x, "", &want, &parents);
  if (x.tag == "SchemaData" && x.attrs.count("schemaUrl")) want.pop_back();
  std::vector<zg::Entry> es;
  es.push_back(zg::Entry("doc.kml", xml));
  std::set<string> have;
  for (auto& w : want) {
    if (!rel.count(w)) throw pbt::Discard();
    string path = w.substr(0, w.find('#'));
    if (rel[w] && !have.count(path) && g.draw(3)) { have.insert(path); es.push_back(zg::Entry(path, g.draw(4) ? "content of " + path : "", g.flip() ? 0 : 8)); }
  }
  for (auto& w : want) if (rel[w] && !have.count(w.substr(0, w.find('#')))) missing.push_back(w);
  string how = Join(want) + " in " + std::to_string(es.size()) + " entries: " + xml;
  g.note(how);
  kmlengine::KmzFilePtr kmz = kmlengine::KmzFile::OpenFromString(zg::Write(es));
  CHECK_M(kmz, how);
  std::vector<string> got;
  CHECK_EQM(kmlconvenience::KmzCheckLinks(*kmz, &got), missing.empty(), how);
  CHECK_EQM(Join(got), Join(missing), how);
  CHECK_EQM(kmlconvenience::KmzCheckLinks(*kmz, NULL), missing.empty(), how);
  if (want.size() > 1) { g.nontrivial(how); g.sample(how); }
  g.label(missing.empty() ? "complete" : "missing");
}

// Following a link or an icon of a file that came from a cache.
class Web : public kmlbase::NetFetcher {
 public:
  std::map<string, string> page;
  virtual bool FetchUrl(const string& url, string* d) const { auto i = page.find(url); if (i == page.end()) return false; *d = i->second; return true; }
};
void Follow(G& g) {
  Web web;
  static const char* dirs[] = {"http://h.com/", "http://h.com/d/", "http://i.org/d/e/"};
  static const char* rels[] = {"n.kml", "d/n.kml", "../n.kml", "./n.kml", "/n.kml", "e/n.kml", "http://i.org/d/n.kml"};
  string at = dirs[g.draw(3)];
  string href = rels[g.draw(7)], ihref = string(rels[g.draw(7)]) + ".png";
  bool has_link = g.draw(6) != 5, has_href = g.draw(6) != 5, frag = g.draw(3) == 2;
  string link = has_link ? "<Link>" + (has_href ? "<href>" + href + (frag ? "#part" : "") + "</href>" : string()) + "</Link>" : "";
  string icon = has_link ? "<Icon>" + (has_href ? "<href>" + ihref + "</href>" : string()) + "</Icon>" : "";
  static const char* overlays[] = {"GroundOverlay", "ScreenOverlay", "PhotoOverlay"};
  string ov = overlays[g.draw(3)];
  web.page[at + "main.kml"] = "<kml xmlns=\"http://www.opengis.net/kml/2.2\"><Folder><NetworkLink id=\"nl\">" + link + "</NetworkLink><" + ov + " id=\"ov\">" + icon + "</" + ov + "></Folder></kml>";
  // Resolve by hand.
  auto resolve = [&](const string& r) -> string {
    if (r.find("://") != string::npos) return r;
    size_t host = at.find('/', 8);
    if (r[0] == '/') return at.substr(0, host) + r;
    string base = at, rest = r;
    if (rest.compare(0, 2, "./") == 0) rest = rest.substr(2);
    if (rest.compare(0, 3, "../") == 0) { rest = rest.substr(3); if (base.size() - 1 > host) base = base.substr(0, base.rfind('/', base.size() - 2) + 1); }
    return base + rest;
  };
  string target = resolve(href), itarget = resolve(ihref);
  bool there = g.draw(4) != 3, valid = g.draw(6) != 5, ithere = g.draw(4) != 3;
  string mark = GenPlain(g, 6);
  if (there) web.page[target] = valid ? "<kml xmlns=\"http://www.opengis.net/kml/2.2\"><Placemark><name>" + mark + "</name></Placemark></kml>" : "<kml><Placemark>";
  string img; for (size_t i = 0, n = g.size(20); i < n; ++i) img += (char)g.draw(256);
  if (ithere) web.page[itarget] = img;
  string how = at + " -> " + href + " = " + target + (there ? "" : " (absent)") + " " + web.page[at + "main.kml"];
  g.note(how);
  kmlengine::KmlCache cache(&web, 10);
  kmlengine::KmlFilePtr main = cache.FetchKmlAbsolute(at + "main.kml");
  CHECK_M(main, how);
  NetworkLinkPtr nl = AsNetworkLink(main->GetObjectById("nl"));
  OverlayPtr o = AsOverlay(main->GetObjectById("ov"));
  CHECK_M(nl && o, how);
  string h = "untouched";
  CHECK_EQM(kmlengine::GetLinkParentHref(nl, &h), has_link && has_href, how);
  CHECK_EQM(h, has_link && has_href ? href + (frag ? "#part" : "") : string("untouched"), how);
  CHECK_T(!kmlengine::GetLinkParentHref(nl, NULL));
  h = "untouched";
  CHECK_EQM(kmlengine::GetIconParentHref(o, &h), has_link && has_href, how);
  CHECK_EQM(h, has_link && has_href ? ihref : string("untouched"), how);
  kmlengine::KmlFilePtr got = kmlengine::FetchLink(main, nl);
  bool want = has_link && has_href && there && valid;
  CHECK_EQM((bool)got, want, how);
  if (want) {
    FeaturePtr f = AsKml(got->get_root())->get_feature();
    CHECK_EQM(f->get_name(), mark, how);
    CHECK_EQM(got->get_url(), target, how);
  }
  string data = "untouched";
  bool iwant = has_link && has_href && ithere;
  CHECK_EQM(kmlengine::FetchIcon(main, o, &data), iwant, how);
  if (iwant) CHECK_EQM(data, img, how);
  // Without a cache there is nothing to fetch with.
  kmlengine::KmlFilePtr lone = kmlengine::KmlFile::CreateFromParse(web.page[at + "main.kml"], NULL);
  CHECK_T(!kmlengine::FetchLink(lone, AsNetworkLink(lone->GetObjectById("nl"))));
  CHECK_T(!kmlengine::FetchIcon(lone, AsOverlay(lone->GetObjectById("ov")), &data));
  g.nontrivial(how);
  if (want) g.sample(how);
}
}  // namespace

int main(int argc, char** argv) {
  std::vector<pbt::Facet> f = {
    {"discover", 24000, 800000, Discover, 0},
    {"kmz", 10000, 300000, Kmz, 0},
    {"follow", 16000, 400000, Follow, 0},
  };
  return pbt::Main(argc, argv, "P29", "discover/kmz: more than one reference in the document; follow: any; distinct by document", f);
}
