// Caches: histories against a model of bounded first-in-first-out storage, and a simulated web for the KML and KMZ caches.
#include <algorithm>
#include <map>
#include <set>
#include <boost/scoped_ptr.hpp>
#include "kmlgen.h"
#include "urimodel.h"
#include "zipgen.h"
#include "kml/base/memory_file.h"
#include "kml/base/net_cache.h"
#include "kml/dom.h"
#include "kml/engine/kml_cache.h"
#include "kml/engine/kml_file.h"
#include "kml/engine/kml_uri_internal.h"
#include "kml/engine/kmz_cache.h"
#include "kml/engine/link_util.h"
using namespace kg;
using kmlengine::KmlCache;
using kmlengine::KmlFile;
using kmlengine::KmlFilePtr;
using kmlengine::KmzCache;
using pbt::G;

namespace {
class Web : public kmlbase::NetFetcher {
 public:
  std::map<string, string> page;
  mutable std::map<string, int> fetched;
  mutable int total;
  Web() : total(0) {}
  virtual bool FetchUrl(const string& url, string* data) const {
    ++fetched[url];
    ++total;
    if (total > 5000) FAIL("endless", "fetching does not end");
    auto it = page.find(url);
    if (it == page.end()) return false;
    *data = it->second;
    return true;
  }
};
// An item that knows what it was made from; some data makes no item.
class Item : public kmlbase::Referent {
 public:
  static int live;
  string data;
  Item() { ++live; }
  ~Item() { --live; }
  static Item* CreateFromString(const string& d) {
    if (d.compare(0, 3, "bad") == 0) return NULL;
    Item* i = new Item;
    i->data = d;
    return i;
  }
};
int Item::live = 0;
typedef boost::intrusive_ptr<Item> ItemPtr;

void History(G& g) {
  CHECK_EQ(Item::live, 0);
  Web web;
  bool big = g.draw(50) == 49;
  bool lengthy = g.draw(80) == 79;   // many more insertions than the capacity
  size_t cap = 1 + g.draw(big ? 60 : 5), urls = 1 + g.draw(big ? 90 : 8) + (lengthy ? 3 * cap : 0);
  string how = "cap " + std::to_string(cap) + ":";
  {
    kmlbase::NetCache<Item> cache(&web, cap);
    std::vector<std::pair<string, ItemPtr> > model;   // oldest first
    auto find = [&](const string& u) { for (auto it = model.begin(); it != model.end(); ++it) if (it->first == u) return it; return model.end(); };
    auto save = [&](const string& u, const ItemPtr& i) { if (model.size() == cap) model.erase(model.begin()); model.push_back(std::make_pair(u, i)); };
    size_t n = lengthy ? 300 + g.draw(900) : big ? 100 + g.draw(300) : 2 + g.size(30);
    int version = 0;
    for (size_t i = 0; i < n; ++i) {
      string u = "u" + std::to_string(g.draw(urls));
      if (g.draw(5) == 4) {
        // The web changes.
        switch (g.draw(4)) { case 0: web.page.erase(u); break; case 1: web.page[u] = "bad" + std::to_string(++version); break; default: web.page[u] = u + "v" + std::to_string(++version); }
        how += " web:" + u + "=" + (web.page.count(u) ? web.page[u] : "-");
        continue;
      }
      if (!version) { for (size_t k = 0; k < urls; ++k) if (g.draw(4)) web.page["u" + std::to_string(k)] = "u" + std::to_string(k) + "v0"; version = 1; }
      auto at = find(u);
      switch (g.draw(7)) {
        case 0: case 1: case 2: {
          int before = web.total;
          how += " fetch:" + u;
          g.note(how);
          ItemPtr got = cache.Fetch(u);
          if (at != model.end()) {
            CHECK_EQM(web.total, before, how << " fetched what is cached");
            CHECK_M(got == at->second, how);
          } else {
            CHECK_EQM(web.total, before + 1, how);
            bool ok = web.page.count(u) && web.page[u].compare(0, 3, "bad");
            CHECK_EQM((bool)got, ok, how);
            if (ok) { CHECK_EQM(got->data, web.page[u], how); save(u, got); }
          }
          break;
        }
        case 3: {
          how += " look:" + u;
          ItemPtr got = cache.LookUp(u);
          CHECK_M(got == (at == model.end() ? ItemPtr() : at->second), how);
          break;
        }
        case 4: {
          ItemPtr it = Item::CreateFromString("saved" + std::to_string(++version));
          how += " save:" + u;
          CHECK_EQM(cache.Save(u, it), at == model.end(), how);
          if (at == model.end()) save(u, it);
          break;
        }
        case 5:
          how += " delete:" + u;
          CHECK_EQM(cache.Delete(u), at != model.end(), how);
          if (at != model.end()) model.erase(at);
          break;
        default:
          how += " oldest";
          CHECK_EQM(cache.RemoveOldest(), !model.empty(), how);
          if (!model.empty()) model.erase(model.begin());
      }
      CHECK_EQM(cache.Size(), model.size(), how);
      CHECK_M(cache.Size() <= cap, how);
      for (size_t k = 0; k < urls; ++k) {
        string v = "u" + std::to_string(k);
        auto w = find(v);
        CHECK_M(cache.LookUp(v) == (w == model.end() ? ItemPtr() : w->second), how << " then " << v);
      }
      CHECK_M(Item::live <= (int)cap + 1, how << " items alive " << Item::live);
    }
  }
  CHECK_EQM(Item::live, 0, how);
  g.nontrivial(how);
  g.sample(how);
}

// A small web: KML files, data files and archives, all with their own content.
struct World {
  Web web;
  std::map<string, std::vector<zg::Entry> > kmz;   // url -> entries
  std::vector<string> urls;                         // everything addressable, into archives too
};
string Kml(G& g, const string& mark) {
  string x = "<kml xmlns=\"http://www.opengis.net/kml/2.2\"><Placemark id=\"i\"><name>" + mark + "</name><description>" + GenPlain(g, 6) + "</description></Placemark></kml>";
  return x;
}
void Populate(G& g, World* w) {
  static const char* dirs[] = {"http://h.com/", "http://h.com/d/", "http://h.com/d/e/"};
  size_t n = 2 + g.draw(5);
  for (size_t i = 0; i < n; ++i) {
    string dir = dirs[g.draw(3)];
    switch (g.draw(5)) {
      case 0: case 1: { string u = dir + "k" + std::to_string(g.draw(4)) + ".kml"; w->web.page[u] = Kml(g, u); w->urls.push_back(u); break; }
      case 2: { string u = dir + "p" + std::to_string(g.draw(4)) + ".png"; w->web.page[u] = "image " + u; w->urls.push_back(u); break; }
      default: {
        string u = dir + "a" + std::to_string(g.draw(3)) + ".kmz";
        if (w->kmz.count(u)) break;
        std::vector<zg::Entry> es;
        static const char* names[] = {"doc.kml", "k0.kml", "p0.png", "sub/k1.kml", "sub/p1.png", "x/doc.kml", "p2.png"};
        for (auto nm : names) if (g.flip()) {
          bool kml = string(nm).find(".kml") != string::npos;
          es.push_back(zg::Entry(nm, kml ? Kml(g, u + "/" + nm) : "image in " + u + "/" + nm, g.flip() ? 8 : 0));
          w->urls.push_back(u + "/" + nm);
        }
        if (es.empty()) es.push_back(zg::Entry("readme.txt", "nothing"));
        if (g.draw(12) == 11) { w->web.page[u] = "not an archive"; w->urls.push_back(u); break; }
        w->kmz[u] = es;
        w->web.page[u] = zg::Write(es);
        w->urls.push_back(u);
      }
    }
  }
  if (g.draw(4) == 3) { w->web.page["http://h.com/bad.kml"] = "<kml><broken"; w->urls.push_back("http://h.com/bad.kml"); }
}
bool EndsWith(const string& s, const string& e) { return s.size() >= e.size() && s.substr(s.size() - e.size()) == e; }
// One level: content at a URL which may lead into an archive.
bool At(const World& w, const string& url, string* data, string* actual, bool* archive_there) {
  *archive_there = false;
  *actual = url;
  string kmz, path;
  size_t p = url.find(".kmz/");
  if (p != string::npos) { kmz = url.substr(0, p + 4); path = url.substr(p + 5); }
  else if (EndsWith(url, ".kmz")) kmz = url;
  if (kmz.empty()) {
    auto it = w.web.page.find(url);
    if (it == w.web.page.end()) return false;
    *data = it->second;
    return true;
  }
  auto k = w.kmz.find(kmz);
  if (k == w.kmz.end()) return false;
  *archive_there = true;
  for (auto& e : k->second) {
    if (path.empty() ? EndsWith(e.name, ".kml") : e.name == path) { *data = e.data; *actual = kmz + "/" + e.name; return true; }
  }
  return false;
}
// What a reference from a base means: within the archive first, then next to it.
bool Oracle(const World& w, const string& base, const string& target, string* data, string* actual) {
  um::U b = um::Split(base), r = um::Split(target);
  string url = um::Resolve(b, r).nofrag();
  bool there;
  if (At(w, url, data, actual, &there)) return true;
  size_t p = url.find(".kmz/");
  string kmz = p != string::npos ? url.substr(0, p + 4) : EndsWith(url, ".kmz") ? url : "";
  if (kmz.empty() || !there) return false;
  string second = um::Resolve(um::Split(kmz), r).nofrag();
  return At(w, second, data, actual, &there);
}
string Target(G& g, const World& w) {
  static const char* k[] = {"k0.kml", "p0.png", "p1.png", "sub/p1.png", "../p0.png", "../k1.kml", "a0.kmz", "a1.kmz/p0.png", "doc.kml", "missing.png", "a0.kmz/missing.kml", "../a2.kmz/k0.kml", "/k0.kml", "#i", "k0.kml#i", "x/doc.kml#i", "../../up.kml", ""};
  if (g.draw(3) == 0) { string u = w.urls[g.draw(w.urls.size())]; if (g.draw(4) == 3) u += "#i"; if (g.draw(6) == 5) u += "/none.kml"; return u; }
  return k[g.draw(18)];
}
void Universe(G& g) {
  World w;
  Populate(g, &w);
  if (w.urls.empty()) return;
  size_t cap = g.flip() ? 50 : 1 + g.draw(3);
  KmlCache cache(&w.web, cap);
  string how = "cap " + std::to_string(cap);
  for (auto& u : w.urls) how += " {" + u + "}";
  size_t n = 1 + g.many(12, 80);
  std::map<string, KmlFilePtr> parsed;
  for (size_t i = 0; i < n; ++i) {
    string base = w.urls[g.draw(w.urls.size())], target = Target(g, w), want, actual;
    if (g.draw(5) == 4) base += (EndsWith(base, ".kmz") ? "/doc.kml" : "");
    bool ok;
    switch (g.draw(3)) {
      case 0: {
        ok = Oracle(w, base, target, &want, &actual);
        how += " data(" + base + "," + target + ")";
        g.note(how);
        string got = "unset";
        bool r = cache.FetchDataRelative(base, target, &got);
        CHECK_EQM(r, ok, how << (ok ? " is at " + actual : " is nowhere"));
        if (ok) CHECK_EQM(got, want, how);
        CHECK_T(!cache.FetchDataRelative(base, target, NULL));
        break;
      }
      case 1: target = base;   // absolute
      // fall through
      default: {
        ok = Oracle(w, base, target, &want, &actual);
        KmlFilePtr direct;
        if (ok) direct = KmlFile::CreateFromStringWithUrl(want, actual, NULL);
        how += " kml(" + base + "," + target + ")";
        g.note(how);
        KmlFilePtr got = target == base ? cache.FetchKmlAbsolute(base) : cache.FetchKmlRelative(base, target);
        CHECK_EQM((bool)got, (bool)direct, how << (ok ? " is at " + actual : " is nowhere"));
        if (got) {
          CHECK_EQM(Raw(got->get_root()), Raw(direct->get_root()), how);
          CHECK_EQM(got->get_url(), actual, how);
          CHECK_T(got->get_kml_cache() == &cache);
          if (cap == 50 && (base + target + actual).find(".kmz") == string::npos) {
            if (parsed.count(actual)) CHECK_M(parsed[actual] == got, how << " parsed again");
            parsed[actual] = got;
          }
        }
      }
    }
  }
  // Nothing is fetched twice while it is cached.
  if (cap == 50) for (auto& f : w.web.fetched) {
    if (w.web.page.count(f.first) && !(EndsWith(f.first, ".kmz") && !w.kmz.count(f.first)) ) CHECK_M(f.second <= 1, how << " fetched " << f.second << " times: " << f.first);
    CHECK_M(f.first.find('#') == string::npos, how << " fetched " << f.first);
  }
  if (n > 1) { g.nontrivial(how); g.sample(how); }
}
// A server that answers every address with the same archive: fetching still ends.
class Anything : public kmlbase::NetFetcher {
 public:
  string data;
  mutable int total;
  virtual bool FetchUrl(const string& url, string* d) const { if (++total > 200) FAIL("endless", "fetching does not end: " << url); *d = data; return true; }
};
void CatchAll(G& g) {
  World w;
  Populate(g, &w);
  Anything any;
  any.total = 0;
  std::vector<zg::Entry> es;
  es.push_back(zg::Entry(g.flip() ? "doc.kml" : "x.txt", "<kml/>"));
  any.data = zg::Write(es);
  KmlCache cache(&any, 1 + g.draw(4));
  string base = "http://h.com/d/a0.kmz" + string(g.flip() ? "/doc.kml" : ""), t = Target(g, w);
  if (g.flip()) t = "q/" + t;
  g.note(base + " " + t);
  string data;
  cache.FetchDataRelative(base, t, &data);
  cache.FetchKmlRelative(base, t);
  cache.FetchKmlAbsolute(base + "/nothing.kml");
  g.nontrivial(base + t);
}
// Links and icons of a fetched document, resolved through the cache that fetched it.
void Links(G& g) {
  World w;
  Populate(g, &w);
  if (w.urls.empty()) return;
  string base = w.urls[g.draw(w.urls.size())], target = Target(g, w), want, actual;
  KmlCache cache(&w.web, 20);
  KmlFilePtr f = KmlFile::CreateFromStringWithUrl("<kml/>", base, g.draw(8) ? &cache : NULL);
  CHECK_T(f);
  bool ok = f->get_kml_cache() && Oracle(w, base, target, &want, &actual);
  string how = base + " -> " + target;
  g.note(how);
  kmldom::KmlFactory* k = kmldom::KmlFactory::GetFactory();
  kmldom::NetworkLinkPtr nl = k->CreateNetworkLink();
  kmldom::GroundOverlayPtr ov = k->CreateGroundOverlay();
  string data;
  CHECK_T(!kmlengine::FetchLink(f, nl) && !kmlengine::FetchIcon(f, ov, &data));
  kmldom::LinkPtr l = k->CreateLink();
  kmldom::IconPtr ic = k->CreateIcon();
  nl->set_link(l);
  ov->set_icon(ic);
  CHECK_T(!kmlengine::FetchLink(f, nl) && !kmlengine::FetchIcon(f, ov, &data));
  l->set_href(target);
  ic->set_href(target);
  KmlFilePtr got = kmlengine::FetchLink(f, nl), direct;
  if (ok) direct = KmlFile::CreateFromStringWithUrl(want, actual, NULL);
  CHECK_EQM((bool)got, (bool)direct, how);
  if (got) { CHECK_EQM(Raw(got->get_root()), Raw(direct->get_root()), how); CHECK_EQM(got->get_url(), actual, how); }
  CHECK_EQM(kmlengine::FetchIcon(f, ov, &data), ok, how);
  if (ok) { CHECK_EQM(data, want, how); g.nontrivial(how); }
}
}  // namespace
int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "P26",
    "Histories of fetch, look-up, save, delete and eviction over a changing simulated web with failing addresses and unusable content, against a first-in-first-out model; a web of KML files, images and archives addressed absolutely, relatively and into archives, also by a server answering everything; "
    "oracle is the model cache, and RFC 3986 resolution plus the documented two-level archive look-up done here; non-trivial = more than one request or content found; distinct by the history.",
    {{"history", 40000, 500000, History, 0},
     {"web", 8000, 100000, Universe, pbt::kLeak},
     {"catchall", 2000, 20000, CatchAll, 0},
     {"links", 8000, 80000, Links, 0}});
}
