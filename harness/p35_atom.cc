// Atom feeds and the services built on them against a model of the feed.
#include <deque>
#include <memory>
#include "kmlgen.h"
#include "kml/base/mimetypes.h"
#include "kml/convenience/atom_util.h"
#include "kml/convenience/google_doc_list.h"
#include "kml/convenience/google_maps_data.h"
#include "kml/convenience/google_picasa_web.h"
#include "kml/convenience/google_spreadsheets.h"
#include "kml/convenience/http_client.h"
#include "kml/dom.h"
#include "kml/engine.h"
using namespace kg;
using namespace kmldom;
using kmlconvenience::AtomUtil;
using kmlconvenience::HttpClient;
using pbt::G;

namespace {
typedef std::map<string, string> Map;
struct Entry {
  Map text;                       // id title updated summary
  std::vector<Map> links, cats;
  bool has_content;
  Map content;                    // src, type
  string content_text;
  std::vector<M> kids;            // KML in the content
  string resource;                // gd:resourceId
};
struct Feed { Map text; std::vector<Map> links, cats; std::vector<Entry> entries; };

string Str(G& g) {
  string s = GenString(g, g.draw(3) == 0);
  string t;
  for (char c : s) if (!isspace((unsigned char)c) || c == ' ') t += c;
  if (t.find_first_not_of(' ') == string::npos) t += "x";
  // Text holding the markers of a quoted section is special.
  if (t.find("CDATA") != string::npos) t = "t";
  return t;
}
string Rel(G& g) {
  static const char* r[] = {"self", "next", "alternate", "edit", "http://schemas.google.com/g/2005#post", "http://x/self", "myself", "Self", "self2", "enclosure", "#self", "previous", "post"};
  return g.pick(r);
}
string Type(G& g) { static const char* t[] = {"application/atom+xml", "text/html", "application/vnd.google-earth.kml+xml", "text", ""}; return g.pick(t); }
string Url(G& g) {
  static const char* u[] = {"http://h.com/feed/1", "http://h.com/maps/feeds/features/1/full", "http://h.com/a?b=c&d=e", "rel/path", "x", "https://e.org/\xc3\xa9?q=1"};
  string s = g.pick(u);
  if (g.flip()) s += std::to_string(g.draw(100));
  return s;
}
std::vector<Map> Links(G& g) {
  std::vector<Map> v;
  for (size_t i = 0, n = g.draw(5); i < n; ++i) {
    Map m;
    if (g.draw(8)) m["href"] = g.draw(12) == 11 ? string() : Url(g);
    if (g.draw(8)) m["rel"] = Rel(g);
    if (g.draw(4)) { string t = Type(g); if (!t.empty()) m["type"] = t; }
    if (g.draw(6) == 0) m["title"] = Str(g);
    if (g.draw(6) == 0) m["hreflang"] = "en";
    if (g.draw(6) == 0) m["length"] = std::to_string(g.draw(1000));
    v.push_back(m);
  }
  return v;
}
std::vector<Map> Cats(G& g) {
  static const char* s[] = {"http://schemas.google.com/g/2005#kind", "kind", "#kind", "http://x/#label", "other", "http://x/kinds"};
  std::vector<Map> v;
  for (size_t i = 0, n = g.draw(3); i < n; ++i) {
    Map m;
    if (g.draw(6)) m["scheme"] = g.pick(s);
    if (g.draw(4)) m["term"] = Str(g);
    if (g.draw(4) == 0) m["label"] = Str(g);
    v.push_back(m);
  }
  return v;
}
void Common(G& g, Map* t) {
  if (g.draw(4)) (*t)["title"] = g.draw(3) ? Str(g) : (g.flip() ? "one" : "two");
  if (g.draw(3) == 0) (*t)["id"] = Str(g);
  if (g.draw(3) == 0) (*t)["updated"] = "2009-0" + std::to_string(1 + g.draw(9)) + "-01T00:00:00Z";
}
M GenFeature(G& g) {
  static const char* types[] = {"Placemark", "Placemark", "Placemark", "Folder", "Document", "GroundOverlay", "ScreenOverlay", "NetworkLink", "PhotoOverlay", "gx:Tour"};
  GenOpts o;
  o.nasty = g.draw(4) == 3;
  o.budget = 1 + (int)g.draw(25);
  o.ids = g.flip();
  return GenTree(g, FindType(g.pick(types)), o);
}
M GenOther(G& g) {
  static const char* types[] = {"Style", "Point", "LookAt", "Region", "Link", "kml"};
  GenOpts o; o.budget = 4; o.nasty = false;
  return GenTree(g, FindType(g.pick(types)), o);
}
Entry GenEntry(G& g) {
  Entry e;
  Common(g, &e.text);
  if (g.draw(3)) e.text["summary"] = Str(g);
  e.links = Links(g);
  e.cats = Cats(g);
  e.has_content = g.draw(6) != 0;
  if (e.has_content) {
    if (g.draw(4) == 0) e.content["src"] = Url(g);
    if (g.flip()) e.content["type"] = "application/vnd.google-earth.kml+xml";
    unsigned k = g.draw(8);
    if (k < 6) e.kids.push_back(GenFeature(g));
    else if (k == 6) e.kids.push_back(GenOther(g));
  }
  if (g.draw(5) == 0) e.resource = "document:" + GenPlain(g);
  return e;
}
Feed GenFeed(G& g, size_t max) {
  Feed f;
  Common(g, &f.text);
  f.links = Links(g);
  f.cats = Cats(g);
  for (size_t i = 0, n = g.many(max, g.draw(4) == 3 ? 160 : 50); i < n; ++i) f.entries.push_back(GenEntry(g));
  return f;
}
string Attrs(const Map& m) { string r; for (auto& kv : m) r += " " + kv.first + "=\"" + EscapeAttr(kv.second) + "\""; return r; }
const char kNs[] = " xmlns:atom=\"http://www.w3.org/2005/Atom\" xmlns:gx=\"http://www.google.com/kml/ext/2.2\" xmlns:gd=\"http://schemas.google.com/g/2005\" xmlns:xal=\"urn:oasis:names:tc:ciq:xsdschema:xAL:2.0\"";
string CommonXml(G& g, const string& p, const Map& text, const std::vector<Map>& links, const std::vector<Map>& cats, const string& more) {
  std::vector<std::vector<string>> groups;
  for (auto& kv : text) groups.push_back({"<" + p + kv.first + ">" + EscapeText(kv.second) + "</" + p + kv.first + ">"});
  std::vector<string> l, c;
  for (auto& m : links) l.push_back("<" + p + "link" + Attrs(m) + "/>");
  for (auto& m : cats) c.push_back("<" + p + "category" + Attrs(m) + "></" + p + "category>");
  groups.push_back(l); groups.push_back(c); groups.push_back({more});
  string r;
  for (size_t i = groups.size(); i > 0; --i) std::swap(groups[i - 1], groups[g.draw(i)]);
  for (auto& v : groups) for (auto& s : v) r += s;
  return r;
}
string EntryXml(G& g, const string& p, const Entry& e) {
  string more;
  if (e.has_content) {
    more = "<" + p + "content" + Attrs(e.content) + ">";
    for (auto& m : e.kids) {
      string x = Xml(m);
      size_t at = x.find_first_of(" />", 1);
      if (x.compare(0, 4, "<gx:") != 0 || true) x.insert(at, " xmlns=\"http://www.opengis.net/kml/2.2\"");
      more += x;
    }
    more += "</" + p + "content>";
  }
  if (!e.resource.empty()) more += "<gd:resourceId>" + e.resource + "</gd:resourceId>";
  return "<" + p + "entry>" + CommonXml(g, p, e.text, e.links, e.cats, more) + "</" + p + "entry>";
}
string FeedXml(G& g, const Feed& f) {
  string p = g.flip() ? "atom:" : "";
  string r = "<" + p + "feed" + (p.empty() ? " xmlns=\"http://www.w3.org/2005/Atom\"" : "") + kNs + ">";
  string es;
  for (auto& e : f.entries) es += EntryXml(g, p, e);
  return r + CommonXml(g, p, f.text, f.links, f.cats, es) + "</" + p + "feed>";
}
#define TEXT(obj, name) do { auto it_ = m.find(#name); CHECK_EQM(obj->has_##name(), it_ != m.end(), "has " #name " " << how); CHECK_EQM(obj->get_##name(), it_ == m.end() ? string() : it_->second, #name " " << how); } while (0)
void CheckCommon(const AtomCommon* c, const Map& m, const std::vector<Map>& links, const std::vector<Map>& cats, const string& how) {
  TEXT(c, id); TEXT(c, title); TEXT(c, updated);
  CHECK_EQM(c->get_link_array_size(), links.size(), how);
  for (size_t i = 0; i < links.size(); ++i) {
    const Map& m = links[i]; AtomLinkPtr l = c->get_link_array_at(i);
    TEXT(l, href); TEXT(l, rel); TEXT(l, type); TEXT(l, title); TEXT(l, hreflang);
    CHECK_EQM(l->has_length(), m.count("length") != 0, how);
    if (m.count("length")) CHECK_EQM(std::to_string(l->get_length()), m.at("length"), how);
  }
  CHECK_EQM(c->get_category_array_size(), cats.size(), how);
  for (size_t i = 0; i < cats.size(); ++i) {
    const Map& m = cats[i]; AtomCategoryPtr l = c->get_category_array_at(i);
    TEXT(l, term); TEXT(l, scheme); TEXT(l, label);
  }
}
// Indented output adds white space to the text of these.
bool Indented(const M& m) {
  for (auto& f : m.f) { if (f.f->kind == K_TEXT) return true; for (auto& k : f.kids) if (Indented(k) || !strcmp(k.t->tag, "Snippet") || !strcmp(k.t->tag, "linkSnippet") || !strcmp(k.t->tag, "SimpleData")) return true; }
  return false;
}
bool g_pretty;
void CheckEntry(const AtomEntryPtr& a, const Entry& e, const string& how) {
  CHECK_M(a, how);
  CheckCommon(a.get(), e.text, e.links, e.cats, how);
  { const Map& m = e.text; TEXT(a, summary); }
  CHECK_EQM(a->has_content(), e.has_content, how);
  if (e.has_content) {
    AtomContentPtr c = a->get_content();
    const Map& m = e.content;
    TEXT(c, src); TEXT(c, type);
    CHECK_EQM(c->get_misplaced_elements_array_size(), e.kids.size(), how);
    for (size_t i = 0; i < e.kids.size(); ++i) {
      if (g_pretty && Indented(e.kids[i])) continue;
      X x; string error, raw = Raw(c->get_misplaced_elements_array_at(i));
      CHECK_M(ReadXml(raw, &x, &error), error << " " << raw);
      string d = Diff(Expect(e.kids[i]), x);
      CHECK_M(d.empty(), d << " in " << how);
    }
  }
}
void CheckFeed(const AtomFeedPtr& a, const Feed& f, const string& how) {
  CHECK_M(a, how);
  CheckCommon(a.get(), f.text, f.links, f.cats, how);
  CHECK_EQM(a->get_entry_array_size(), f.entries.size(), how);
  for (size_t i = 0; i < f.entries.size(); ++i) CheckEntry(a->get_entry_array_at(i), f.entries[i], how);
}
bool Ends(const string& s, const string& e) { return !e.empty() && s.size() >= e.size() && s.compare(s.size() - e.size(), e.size(), e) == 0; }
string Get(const Map& m, const string& k) { auto i = m.find(k); return i == m.end() ? string() : i->second; }
bool FindRel(const std::vector<Map>& links, const string& rel, string* href) {
  for (auto& l : links) if (l.count("href") && Ends(Get(l, "rel"), rel)) { *href = l.at("href"); return true; }
  return false;
}
bool Is(const M& m, const char* tag) { return strcmp(m.t->tag, tag) == 0; }
bool IsFeature(const M& m) { for (const char* t : {"Style", "Point", "LookAt", "Region", "Link", "kml"}) if (Is(m, t)) return false; return true; }
const M* FeatureOf(const Entry& e) { return e.has_content && !e.kids.empty() && IsFeature(e.kids[0]) ? &e.kids[0] : NULL; }
void CheckLookups(G& g, const AtomCommon& c, const std::vector<Map>& links, const std::vector<Map>& cats, const string& how) {
  string rel = g.draw(8) ? Rel(g) : "", type = Type(g);
  string want = "before", got = "before";
  bool w = FindRel(links, rel, &want), f = AtomUtil::FindRelUrl(c, rel, &got);
  CHECK_EQM(f, w, "rel " << rel << " " << how);
  CHECK_EQM(got, want, "rel " << rel << " " << how);
  CHECK_EQM(AtomUtil::FindRelUrl(c, rel, NULL), w, how);
  const AtomLink* wl = NULL;
  for (size_t i = 0; i < links.size(); ++i) {
    bool is = Ends(Get(links[i], "rel"), rel);
    CHECK_EQM(AtomUtil::LinkIsOfRel(c.get_link_array_at(i), rel), is, how);
    if (!wl && is && Get(links[i], "type") == type) wl = c.get_link_array_at(i).get();
  }
  CHECK_M(AtomUtil::FindLink(c, rel, type).get() == wl, "link " << rel << " " << type << " " << how);
  static const char* s[] = {"#kind", "kind", "#label", "http://x/kinds", "none", "g/2005#kind"};
  string scheme = g.pick(s);
  const AtomCategory* wc = NULL;
  for (size_t i = 0; i < cats.size(); ++i) if (!wc && cats[i].count("scheme") && Ends(cats[i].at("scheme"), scheme)) wc = c.get_category_array_at(i).get();
  CHECK_M(AtomUtil::FindCategoryByScheme(c, scheme).get() == wc, "category " << scheme << " " << how);
}
void CheckFeature(const M& want, const FeaturePtr& f, const string& how) {
  CHECK_M(f, how);
  X x; string error;
  CHECK_M(ReadXml(Raw(f), &x, &error), error << " " << Raw(f));
  string d = Diff(Expect(want), x);
  CHECK_M(d.empty(), d << " in " << how);
}
void DropLink(M* m) { for (size_t i = 0; i < m->f.size(); ++i) if (!strcmp(m->f[i].f->xml, "atom:link")) { m->f.erase(m->f.begin() + i); return; } }

void Feeds(G& g) {
  g_pretty = false;
  Feed f = GenFeed(g, 5);
  string xml = FeedXml(g, f), how = xml.substr(0, 1500), errors;
  g.note(xml);
  AtomFeedPtr feed = AsAtomFeed(ParseAtom(xml, &errors));
  CHECK_M(feed, errors << how);
  CheckFeed(feed, f, how);
  CheckLookups(g, *feed, f.links, f.cats, how);
  size_t features = 0;
  for (size_t i = 0; i < f.entries.size(); ++i) {
    const Entry& e = f.entries[i];
    AtomEntryPtr a = feed->get_entry_array_at(i);
    CheckLookups(g, *a, e.links, e.cats, how);
    string got = "before";
    bool src = e.has_content && e.content.count("src");
    CHECK_EQM(AtomUtil::GetContentSrc(a, &got), src, how);
    CHECK_EQM(got, src ? e.content.at("src") : string("before"), how);
    got = "before";
    CHECK_EQM(AtomUtil::GetGdResourceId(a, &got), !e.resource.empty(), how);
    CHECK_EQM(got, e.resource.empty() ? string("before") : e.resource, how);
    const M* want = FeatureOf(e);
    FeaturePtr ft = AtomUtil::GetEntryFeature(a);
    CHECK_EQM((bool)ft, want != NULL, how);
    if (want) { CheckFeature(*want, ft, how); ++features; }
  }
  // By title.
  for (const string& t : {string("one"), string("two"), f.entries.empty() ? string("x") : Get(f.entries[g.draw(f.entries.size())].text, "title")}) {
    const AtomEntry* want = NULL;
    for (size_t i = 0; i < f.entries.size(); ++i) if (!want && Get(f.entries[i].text, "title") == t) want = feed->get_entry_array_at(i).get();
    CHECK_M(AtomUtil::FindEntryByTitle(feed, t).get() == want, "title " << t << " " << how);
  }
  // Into containers, more than once, the feed unchanged.
  for (int round = 0; round < 2; ++round) {
    ContainerPtr c = round ? ContainerPtr(KmlFactory::GetFactory()->CreateFolder()) : ContainerPtr(KmlFactory::GetFactory()->CreateDocument());
    AtomUtil::GetFeedFeatures(feed, c);
    CHECK_EQM(c->get_feature_array_size(), features, "round " << round << " " << how);
    size_t k = 0;
    for (auto& e : f.entries) if (const M* m = FeatureOf(e)) {
      M want = *m;
      FeaturePtr ft = c->get_feature_array_at(k++);
      string self;
      if (FindRel(e.links, "self", &self)) {
        CHECK_M(ft->has_atomlink() && ft->get_atomlink()->get_href() == self, how);
        DropLink(&want);
        ft->clear_atomlink();
      }
      CheckFeature(want, ft, how);
      CHECK_M(ft->GetParent() == c, how);
    }
    string self;
    if (FindRel(f.links, "self", &self)) CHECK_M(c->has_atomlink() && c->get_atomlink()->get_href() == self, how);
    else CHECK_M(!c->has_atomlink(), how);
  }
  CheckFeed(feed, f, "after extraction " + how);
  // Written and read again.
  bool foreign = false;
  for (auto& e : f.entries) if (!e.resource.empty()) foreign = true;
  if (!foreign) {
    kmlengine::KmlFilePtr kf = kmlengine::KmlFile::CreateFromImportLax(feed);
    string out;
    CHECK_M(kf && kf->SerializeToString(&out), how);
    AtomFeedPtr again = AsAtomFeed(ParseAtom(out, &errors));
    CHECK_M(again, errors << " written as " << out);
    g_pretty = true;
    CheckFeed(again, f, "written as " + out);
    g_pretty = false;
    AtomFeedPtr raw = AsAtomFeed(Parse(Raw(feed), &errors));
    CHECK_M(raw, errors);
    CheckFeed(raw, f, "raw " + how);
  }
  if (features) { g.nontrivial(xml); g.sample(xml); }
}
void Entries(G& g) {
  M m = GenFeature(g);
  FeaturePtr f = AsFeature(Build(m));
  string how = Xml(m).substr(0, 800);
  g.note(how);
  AtomEntryPtr e = AtomUtil::CreateEntryForFeature(f);
  CHECK_M(e, how);
  CHECK_EQM(e->get_title(), f->get_name(), how);
  CHECK_EQM(e->get_summary(), f->get_description(), how);
  CheckFeature(m, AtomUtil::GetEntryFeature(e), how);
  AtomEntryPtr again = AsAtomEntry(Parse(Raw(e), NULL));
  CHECK_M(again, how);
  CHECK_EQM(again->get_title(), f->get_name(), how);
  CHECK_EQM(again->get_summary(), f->get_description(), how);
  CheckFeature(m, AtomUtil::GetEntryFeature(again), how);
  string a = Str(g), b = Str(g), c = Str(g);
  AtomLinkPtr l = AtomUtil::CreateBasicLink(a, b, c);
  CHECK_M(l->get_href() == a && l->get_rel() == b && l->get_type() == c, a);
  AtomEntryPtr be = AtomUtil::CreateBasicEntry(a, b);
  CHECK_M(be->get_title() == a && be->get_summary() == b && !be->has_content(), a);
  CHECK_M(!AtomUtil::CreateEntryForFeature(NULL) && !AtomUtil::GetEntryFeature(NULL) && !AtomUtil::GetEntryFeature(be) && !AtomUtil::CloneEntryFeature(be), "none");
  if (m.f.size() > 1) { g.nontrivial(how); g.sample(how); }
}
struct Request { int method; string uri; string headers; string data; };
struct Mock : public HttpClient {
  Map pages;
  mutable std::vector<Request> log;
  unsigned fail_post;   // every nth post fails
  mutable unsigned posts;
  Mock() : HttpClient("mock"), fail_post(0), posts(0) {}
  bool SendRequest(kmlconvenience::HttpMethodEnum method, const string& uri, const kmlconvenience::StringPairVector* headers, const string* data, string* response) const {
    string h;
    if (headers) for (auto& p : *headers) h += p.first + ": " + p.second + "\n";
    log.push_back(Request{(int)method, uri, h, data ? *data : string()});
    if (method == kmlconvenience::HTTP_POST) {
      ++posts;
      if (fail_post && posts % fail_post == 0) return false;
      if (response) *response = "posted " + std::to_string(posts);
      return true;
    }
    auto it = pages.find(uri);
    if (it == pages.end()) return false;
    if (response) *response = it->second;
    return true;
  }
};
void Placemarks(const M& m, bool root, std::vector<const M*>* out) {
  if (!root && Is(m, "Placemark")) out->push_back(&m);
  for (auto& f : m.f) for (auto& k : f.kids) Placemarks(k, false, out);
}
void Services(G& g) {
  Mock* mock = new Mock;
  std::unique_ptr<kmlconvenience::GoogleMapsData> maps(kmlconvenience::GoogleMapsData::Create(mock));
  CHECK_T(maps.get());
  const string meta = maps->get_scope() + maps->get_metafeed_uri();
  string how;
  switch (g.draw(4)) {
    case 0: case 1: {
      // A map whose features come in pages.
      size_t n = 1 + g.draw(4);
      std::vector<Feed> fs;
      std::vector<string> urls;
      string alls;
      for (size_t i = 0; i < n; ++i) { fs.push_back(GenFeed(g, 3)); urls.push_back("http://h.com/maps/feeds/features/7/page" + std::to_string(i)); }
      bool broken = g.draw(4) == 0;
      for (size_t i = 0; i < n; ++i) {
        std::vector<Map> keep;
        for (auto& l : fs[i].links) if (!Ends(Get(l, "rel"), "next")) keep.push_back(l);
        fs[i].links = keep;
        if (i + 1 < n || broken) fs[i].links.insert(fs[i].links.begin() + g.draw(keep.size() + 1), Map{{"rel", "next"}, {"href", i + 1 < n ? urls[i + 1] : string("http://h.com/gone")}});
        mock->pages[urls[i]] = FeedXml(g, fs[i]);
        how += mock->pages[urls[i]].substr(0, 600) + "\n";
      }
      g.note(how);
      AtomFeedPtr first = maps->GetFeatureFeedByUri(urls[0]);
      CheckFeed(first, fs[0], how);
      DocumentPtr d = maps->CreateDocumentOfMapFeatures(first);
      CHECK_M(d, how);
      size_t k = 0;
      for (auto& f : fs) for (auto& e : f.entries) if (const M* m = FeatureOf(e)) {
        CHECK_M(k < d->get_feature_array_size(), how);
        CheckFeature(*m, d->get_feature_array_at(k++), how);
      }
      CHECK_EQM(d->get_feature_array_size(), k, how);
      FolderPtr folder = KmlFactory::GetFactory()->CreateFolder();
      int want = 0;
      for (auto& e : fs[0].entries) if (FeatureOf(e)) ++want;
      CHECK_EQM(maps->GetMapKml(first, folder), want, how);
      CHECK_EQM((int)folder->get_feature_array_size(), want, how);
      CHECK_EQM(maps->GetMapKml(NULL, folder), -1, how);
      CHECK_M(!maps->GetFeatureFeedByUri("http://h.com/none") && !maps->GetMetaFeed(), how);
      mock->pages[meta] = mock->pages[urls[n - 1]];
      CheckFeed(maps->GetMetaFeed(), fs[n - 1], how);
      for (size_t i = 0; i < fs[0].entries.size(); ++i) {
        const Entry& e = fs[0].entries[i];
        AtomEntryPtr a = first->get_entry_array_at(i);
        string src = e.has_content ? Get(e.content, "src") : "", got = "before";
        CHECK_EQM(maps->GetFeatureFeedUri(a, &got), !src.empty(), how);
        CHECK_EQM(got, src.empty() ? string("before") : src, how);
        size_t slash = src.rfind('/');
        got = "before";
        CHECK_EQM(maps->GetSearchFeedUri(a, &got), slash != string::npos, how);
        if (slash != string::npos) {
          CHECK_EQM(got, src.substr(0, slash + 1) + "snippet", how);
          int w = (int)g.range(-180, 0), s = (int)g.range(-90, 0), ea = (int)g.range(0, 180), no = (int)g.range(0, 90);
          string q = got + "?box=" + std::to_string(w) + "," + std::to_string(s) + "," + std::to_string(ea) + "," + std::to_string(no);
          kmlengine::Bbox box(no, s, ea, w);
          CHECK_M(!maps->SearchMapByBbox(a, box), how);
          CHECK_EQM(mock->log.back().uri, q, how);
          mock->pages[q] = mock->pages[urls[0]];
          CheckFeed(maps->SearchMapByBbox(a, box), fs[0], how);
        }
        string alt;
        got = "before";
        bool has = FindRel(e.links, "alternate", &alt);
        CHECK_EQM(maps->GetKmlUri(a, &got), has, how);
        CHECK_EQM(got, has ? alt + "&output=kml" : string("before"), how);
      }
      if (k) { g.nontrivial(how); g.sample(how); }
      break; }
    case 2: {
      // Placemarks are posted one by one, each whole.
      static const char* roots[] = {"Document", "Folder", "Placemark"};
      GenOpts o; o.budget = 40; o.nasty = g.draw(4) == 3; o.ids = g.flip();
      if (g.flip()) { o.ids = true; }
      static const char* only[] = {"Document", "Folder", "Placemark", "Point", "LineString", "Polygon", "MultiGeometry", "ExtendedData", "Data", "Style", "IconStyle", "LookAt"};
      if (g.draw(3)) for (auto t : only) o.only.push_back(t);
      M m = GenTree(g, FindType(g.pick(roots)), o);
      how = Xml(m).substr(0, 1500);
      g.note(how);
      FeaturePtr root = AsFeature(Parse(Xml(m), NULL));
      CHECK_M(root, how);
      mock->fail_post = g.draw(3) ? 0 : 1 + g.draw(3);
      string before = Raw(root);
      int n = maps->PostPlacemarks(root, "http://h.com/post");
      CHECK_EQM(Raw(root), before, how);
      std::vector<const M*> want;
      if (Is(m, "Placemark")) want.push_back(&m);
      else {
        std::vector<const M*> all;
        Placemarks(m, true, &all);
        for (auto p : all) if (AsPlacemark(Parse(Xml(*p), NULL))->has_geometry()) want.push_back(p);
      }
      size_t k = 0, ok = 0;
      // One whose ids clash may be refused.
      bool clash = false;
      for (auto p : want) if (!kmlengine::KmlFilePtr(kmlengine::KmlFile::CreateFromImport(Parse(Xml(*p), NULL)))) clash = true;
      if (clash) {
        CHECK_M(mock->log.size() <= want.size() && n >= 0 && (size_t)n <= mock->log.size(), how);
        g.label("ids clash");
        break;
      }
      for (auto p : want) {
        CHECK_M(k < mock->log.size(), how);
        const Request& r = mock->log[k++];
        CHECK_EQM(r.method, (int)kmlconvenience::HTTP_POST, how);
        CHECK_EQM(r.uri, string("http://h.com/post"), how);
        CHECK_M(r.headers.find(string("Content-Type: ") + kmlbase::kAtomMimeType) != string::npos, r.headers);
        AtomEntryPtr e = AsAtomEntry(ParseAtom(r.data, NULL));
        CHECK_M(e, r.data);
        PlacemarkPtr pm = AsPlacemark(AtomUtil::GetEntryFeature(e));
        if (Indented(*p)) CHECK_M(pm, r.data); else CheckFeature(*p, pm, r.data);
        CHECK_EQM(e->get_title(), pm->get_name(), r.data);
        CHECK_EQM(e->get_summary(), pm->get_description(), r.data);
        if (!(mock->fail_post && k % mock->fail_post == 0)) ++ok;
      }
      CHECK_EQM(mock->log.size(), k, how);
      CHECK_EQM((size_t)n, ok, how);
      if (k) { g.nontrivial(how); g.sample(how); }
      break; }
    default: {
      string title = Str(g), summary = Str(g), got;
      mock->fail_post = g.draw(2);
      how = title + " | " + summary;
      g.note(how);
      CHECK_EQM(maps->CreateMap(title, summary, &got), mock->fail_post == 0, how);
      CHECK_EQM(mock->log.size(), (size_t)1, how);
      CHECK_EQM(mock->log[0].uri, meta, how);
      AtomEntryPtr e = AsAtomEntry(ParseAtom(mock->log[0].data, NULL));
      CHECK_M(e && e->get_title() == title && e->get_summary() == summary, mock->log[0].data);
      string data = GenString(g, true, 100);
      maps->PostCsv(title, data, NULL);
      const Request& r = mock->log.back();
      CHECK_M(r.uri == meta && r.data == data && r.headers.find("Slug: " + title) != string::npos && r.headers.find(string("Content-Type: ") + kmlbase::kCsvMimeType) != string::npos, how);
      maps->PostKml(title, data);
      const Request& q = mock->log.back();
      CHECK_M(q.uri == meta && q.data == data && q.headers.find("Slug: " + title) != string::npos && q.headers.find(string("Content-Type: ") + kmlbase::kKmlMimeType) != string::npos, how);
      // Spreadsheets by resource.
      Mock* m2 = new Mock;
      std::unique_ptr<kmlconvenience::GoogleSpreadsheets> sheets(kmlconvenience::GoogleSpreadsheets::Create(m2));
      Feed f = GenFeed(g, 3);
      AtomFeedPtr feed = AsAtomFeed(ParseAtom(FeedXml(g, f), NULL));
      CHECK_T(feed);
      for (size_t i = 0; i < f.entries.size(); ++i) {
        const string& id = f.entries[i].resource;
        string uri = sheets->get_scope() + "/feeds/download/spreadsheets/Export?key=" + id + "&exportFormat=csv", out = "before";
        size_t before = m2->log.size();
        bool known = m2->pages.count(uri) != 0;
        bool ok = sheets->DownloadSpreadsheet(feed->get_entry_array_at(i), "csv", &out);
        CHECK_EQM(ok, !id.empty() && known, how);
        CHECK_EQM(m2->log.size() - before, (size_t)(id.empty() ? 0 : 1), how);
        if (!id.empty()) {
          CHECK_EQM(m2->log.back().uri, uri, how);
          m2->pages[uri] = "a,b";
          CHECK_M(sheets->DownloadSpreadsheet(feed->get_entry_array_at(i), "csv", &out) && out == "a,b", how);
        }
      }
      // Headers.
      kmlconvenience::StringPairVector h, h2;
      std::vector<std::pair<string, string>> model;
      for (size_t i = 0, n = g.draw(5); i < n; ++i) { string a = g.flip() ? "A" : g.flip() ? "a" : "Bb", b = g.draw(4) ? Str(g) : string(); HttpClient::PushHeader(a, b, &h); model.push_back({a, b}); CHECK_EQ(HttpClient::FormatHeader(h.back()), a + ": " + b); }
      HttpClient::AppendHeaders(h, &h2);
      HttpClient::AppendHeaders(h, NULL);
      CHECK_T(h == h2 && h.size() == model.size());
      for (const char* name : {"A", "a", "Bb", "C"}) {
        string v = "before", w = "before"; bool has = false;
        for (auto& p : model) if (p.first == name && !has) { has = true; w = p.second; }
        CHECK_EQ(HttpClient::FindHeader(name, h, &v), has);
        CHECK_EQ(v, w);
      }
      g.nontrivial(how);
      break; }
  }
}
// The client by itself: a session of logins, headers and requests.
struct Session : public HttpClient {
  Session(const string& app) : HttpClient(app), ok(true) {}
  bool ok;
  string answer;
  mutable std::vector<Request> log;
  bool SendRequest(kmlconvenience::HttpMethodEnum method, const string& uri, const kmlconvenience::StringPairVector* headers, const string* data, string* response) const {
    string h;
    if (headers) for (auto& p : *headers) h += p.first + ": " + p.second + "\n";
    log.push_back(Request{(int)method, uri, h, data ? *data : string()});
    if (response) *response = answer;
    return ok;
  }
};
// The feed of a service: asked for where it is, given as it came.
template <class T> void MetaFeed(T* service, Session* s, const Feed& f, const string& xml, const string& uri, G& g) {
  string got;
  s->ok = g.draw(4) != 3;
  s->answer = g.draw(4) == 3 ? "<broken" : xml;
  CHECK_EQ(service->GetMetaFeedXml(&got), s->ok);
  if (s->ok) CHECK_EQ(got, s->answer);
  AtomFeedPtr feed = service->GetMetaFeed();
  CHECK_EQ(feed != NULL, s->ok && s->answer == xml);
  if (feed) CheckFeed(feed, f, xml);
  CHECK_EQ(s->log.size(), (size_t)2);
  for (auto& r : s->log) CHECK_M(r.method == kmlconvenience::HTTP_GET && r.uri == uri && r.headers.empty() && r.data.empty(), r.uri);
}
void Client(G& g) {
  string app = GenPlain(g, 8), how = app;
  HttpClient plain(app);
  Session s(app);
  kmlconvenience::StringPairVector model{{"User-Agent", app + " GData-C++/1.0"}};
  string token;
  for (size_t i = 0, n = 1 + g.draw(8); i < n; ++i) {
    switch (g.draw(4)) {
      case 0: {
        string a = GenPlain(g, 6), b = GenPlain(g, 9);
        plain.AddHeader(a, b);
        s.AddHeader(a, b);
        model.push_back({a, b});
        how += " add " + a + "=" + b;
        break;
      }
      case 1: {  // a login, at most one of which succeeds
        string service = GenPlain(g, 4), who = GenPlain(g, 6), secret = GenPlain(g, 6), t = GenPlain(g, 12);
        s.ok = g.draw(4) != 3;
        bool has = token.empty() && s.ok && g.draw(4) != 3;
        s.answer = "SID=" + GenPlain(g, 6) + "\nLSID=" + GenPlain(g, 6) + "\n" + (has ? "Auth=" + t + "\n" : "");
        if (!s.ok && g.flip()) s.answer += "Auth=bad\n";
        how += string(" login ") + (has ? t : "-");
        size_t before = s.log.size();
        CHECK_EQM(s.Login(service, who, secret), has, how);
        CHECK_EQM(s.log.size(), before + 1, how);
        const Request& r = s.log.back();
        CHECK_M(r.method == kmlconvenience::HTTP_POST && r.uri == "https://www.google.com/accounts/ClientLogin", how);
        std::map<string, string> form;
        std::stringstream in(r.data);
        for (string kv; std::getline(in, kv, '&');) form[kv.substr(0, kv.find('='))] = kv.substr(kv.find('=') + 1);
        const std::map<string, string> fields{{"Email", who}, {"Passwd", secret}, {"accountType", "HOSTED_OR_GOOGLE"}, {"source", app}, {"service", service}};
        CHECK_M(form == fields, r.data << how);
        if (has) { token = t; model.push_back({"Authorization", "GoogleLogin auth=" + t}); plain.AddHeader("Authorization", "GoogleLogin auth=" + t); }
        break;
      }
      case 2: {  // the default request says what it would send
        static const char* methods[] = {"OPTIONS", "GET", "HEAD", "POST", "PUT", "DELETE", "TRACE", "CONNECT"};
        size_t m = g.draw(8);
        kmlconvenience::StringPairVector extra;
        string uri = Url(g), want = string(methods[m]) + " " + uri + "\n", data = Str(g), got;
        for (auto& p : model) want += p.first + ": " + p.second + "\n";
        bool more = g.flip();
        for (size_t j = 0, k = g.draw(3); more && j < k; ++j) { extra.push_back({GenPlain(g, 4), GenPlain(g, 4)}); want += extra.back().first + ": " + extra.back().second + "\n"; }
        CHECK_M(plain.SendRequest((kmlconvenience::HttpMethodEnum)(kmlconvenience::HTTP_OPTIONS + m), uri, more ? &extra : NULL, g.flip() ? &data : NULL, &got), how);
        CHECK_EQM(got, want, how);
        CHECK_T(plain.SendRequest(kmlconvenience::HTTP_GET, uri, NULL, NULL, NULL));
        break;
      }
      default: {  // a fetch is a plain request
        s.ok = g.flip();
        s.answer = Str(g);
        string uri = Url(g), got;
        CHECK_EQM(s.FetchUrl(uri, &got), s.ok, how);
        const Request& r = s.log.back();
        CHECK_M(r.method == kmlconvenience::HTTP_GET && r.uri == uri && r.headers.empty() && r.data.empty(), how);
        if (s.ok) CHECK_EQM(got, s.answer, how);
      }
    }
    g.note(how);
    CHECK_EQM(s.get_auth_token(), token, how);
    CHECK_M(s.get_headers() == model, how);
  }
  // The spreadsheets and their list.
  Session* s2 = new Session(app);
  std::unique_ptr<kmlconvenience::GoogleSpreadsheets> sheets(kmlconvenience::GoogleSpreadsheets::Create(s2));
  CHECK_T(sheets.get() && !kmlconvenience::GoogleSpreadsheets::Create(NULL));
  string version;
  CHECK_M(HttpClient::FindHeader("GData-Version", s2->get_headers(), &version) && version == "3.0", how);
  Feed f = GenFeed(g, 2);
  string xml = FeedXml(g, f), got;
  s2->ok = g.draw(4) != 3;
  s2->answer = g.draw(4) == 3 ? "<broken" : xml;
  g.note(xml);
  CHECK_EQ(sheets->GetMetaFeedXml(&got), s2->ok);
  if (s2->ok) CHECK_EQ(got, s2->answer);
  AtomFeedPtr feed = sheets->GetMetaFeed();
  CHECK_EQ(feed != NULL, s2->ok && s2->answer == xml);
  if (feed) CheckFeed(feed, f, xml);
  CHECK_EQ(s2->log.size(), (size_t)2);
  for (auto& r : s2->log) CHECK_M(r.method == kmlconvenience::HTTP_GET && r.uri == sheets->get_scope() + "/feeds/spreadsheets/private/full", r.uri);
  // Documents, with uploads of any size, and photos.
  Session* s3 = new Session(app);
  std::unique_ptr<kmlconvenience::GoogleDocList> docs(kmlconvenience::GoogleDocList::Create(s3));
  CHECK_T(docs.get() && !kmlconvenience::GoogleDocList::Create(NULL));
  CHECK_M(HttpClient::FindHeader("GData-Version", s3->get_headers(), &version) && version == "3.0", how);
  MetaFeed(docs.get(), s3, f, xml, docs->get_scope() + "/feeds/default/private/full", g);
  for (size_t i = 0, n = g.draw(3); i < n; ++i) {
    string data = g.draw(4) ? GenString(g, true, 200) : string(), mime = g.flip() ? "text/csv" : "application/vnd.ms-excel", entry;
    s3->ok = g.flip();
    s3->answer = xml;
    CHECK_EQ(docs->UploadSpreadsheet(data, mime, &entry), s3->ok);
    if (s3->ok) CHECK_EQ(entry, xml);
    const Request& r = s3->log.back();
    CHECK_M(s3->log.size() == 3 + i && r.method == kmlconvenience::HTTP_POST && r.uri == docs->get_scope() + "/feeds/default/private/full" && r.data == data && r.headers == "Content-Type: " + mime + "\n", r.uri << r.headers << r.data);
  }
  Session* s4 = new Session(app);
  std::unique_ptr<kmlconvenience::GooglePicasaWeb> photos(kmlconvenience::GooglePicasaWeb::Create(s4));
  CHECK_T(photos.get() && !kmlconvenience::GooglePicasaWeb::Create(NULL));
  CHECK_M(HttpClient::FindHeader("GData-Version", s4->get_headers(), &version) && version == "2", how);
  MetaFeed(photos.get(), s4, f, xml, photos->get_scope() + kmlconvenience::GooglePicasaWeb::get_metafeed_uri(), g);
  g.nontrivial(how);
  g.sample(how);
}
}  // namespace

int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "P35", "a feed with a feature, a feature with fields, a post or a page with features, any session",
                   {{"feeds", 6000, 400000, Feeds, 0},
                    {"entries", 5000, 400000, Entries, 0},
                    {"services", 6000, 400000, Services, 0},
                    {"client", 6000, 200000, Client, 0}});
}
