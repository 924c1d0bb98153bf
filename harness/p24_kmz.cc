// Archives: what was put in comes out; names that leave the archive are refused; archives made from documents.
#include <signal.h>
#include <sys/resource.h>
#include <unistd.h>
#include <stdio.h>
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>
#include <fstream>
#include <set>
#include <boost/scoped_ptr.hpp>
#include "kmlgen.h"
#include "zipgen.h"
#include "kml/base/file.h"
#include "kml/base/zip_file.h"
#include "kml/dom.h"
#include "kml/engine/kml_file.h"
#include "kml/engine/kmz_file.h"
using namespace kg;
using kmlbase::ZipFile;
using kmlengine::KmlFile;
using kmlengine::KmlFilePtr;
using kmlengine::KmzFile;
using kmlengine::KmzFilePtr;
using pbt::G;

namespace {
string Data(G& g) {
  switch (g.draw(7)) {
    case 0: return "";
    case 1: return "<Placemark><name>" + GenPlain(g, 8) + "</name></Placemark>";
    case 2: { string s; size_t n = g.size(300); for (size_t i = 0; i < n; ++i) s += (char)g.draw(256); return s; }
    case 3: return string(1 + g.draw(70000), (char)g.draw(256));
    case 4: { string s; size_t n = g.draw(40000); uint64_t x = g.bits64(); for (size_t i = 0; i < n; ++i) { x = x * 6364136223846793005ULL + 1; s += (char)(x >> 56); } return s; }
    case 5: return string("PK\x05\x06", 4) + string(18, '\0') + GenPlain(g, 5);
    default: return string(1, (char)g.draw(256));
  }
}
string Name(G& g, size_t i) {
  string s;
  size_t dirs = g.size(3);
  for (size_t k = 0; k < dirs; ++k) s += GenPlain(g, 6) + "/";
  if (g.draw(12) == 11) s = "./" + s;
  switch (g.draw(8)) {
    case 0: case 1: case 2: s += GenPlain(g, 6); break;
    case 3: s += GenPlain(g, 3) + " " + GenPlain(g, 3); break;
    case 4: s += GenPlain(g, 3) + "\xc3\xa9"; break;
    case 5: s += string(1 + g.draw(180), 'n'); break;
    case 6: s += GenPlain(g, 2) + "..x"; break;
    default: s += (g.draw(3) ? "." : g.flip() ? ".." : "...") + GenPlain(g, 3);
  }
  s += std::to_string(i);
  static const char* ext[] = {".kml", ".png", "", ".KML", ".kmlx", ".jpg", ".kml.bak"};
  return s + ext[g.draw(7)];
}
typedef std::vector<std::pair<string, string> > Model;
// Sometimes the name of an earlier entry but for the case of its letters.
string NameAmong(G& g, size_t i, const Model& m) {
  if (g.draw(12) == 11) {  // nothing but an extension
    static const char* bare[] = {".kml", ".png", "d/.kml", "kml"};
    string b = bare[g.draw(4)];
    bool used = false;
    for (auto& e : m) used |= e.first == b;
    if (!used) return b;
  }
  if (m.empty() || g.draw(5) != 4) return Name(g, i);
  string s = m[g.draw(m.size())].first;
  bool all = g.flip();
  for (auto& c : s) if (isalpha((unsigned char)c) && (all || g.flip())) c = (char)(islower((unsigned char)c) ? toupper(c) : tolower(c));
  for (auto& e : m) if (e.first == s) return Name(g, i);
  return s;
}
// The readers of one archive agree with the model.
void JudgeZip(const ZipFile& z, const Model& m, const string& how) {
  kmlbase::StringVector toc;
  CHECK_T(z.GetToc(&toc));
  CHECK_T(!z.GetToc(NULL));
  CHECK_EQM(toc.size(), m.size(), how);
  for (size_t i = 0; i < m.size(); ++i) {
    CHECK_EQM(toc[i], m[i].first, how);
    CHECK_M(z.IsInToc(m[i].first), how);
    // Whatever was there before is replaced.
    string out = i % 4 == 3 ? string(70000 + 1000 * i, 'o') : i % 4 == 2 ? m[i - 1].second : "old";
    CHECK_M(z.GetEntry(m[i].first, &out), how << " entry " << m[i].first);
    CHECK_M(out == m[i].second, how << " entry " << m[i].first << " " << out.size() << " bytes instead of " << m[i].second.size());
    CHECK_T(z.GetEntry(m[i].first, NULL));
    string other = m[i].first + "x";
    bool is = false;
    for (auto& e : m) is |= e.first == other;
    if (!is) CHECK_T(!z.IsInToc(other) && !z.GetEntry(other, &out));
    other = m[i].first;
    for (auto& c : other) c = (char)toupper(c);
    is = false;
    for (auto& e : m) is |= e.first == other;
    CHECK_EQM(z.IsInToc(other), is, other);
    CHECK_EQM(z.GetEntry(other, NULL), is, other);
  }
  static const char* exts[] = {".kml", ".png", ".txt", ""};
  for (auto e : exts) {
    string got = "unset", want;
    bool found = false;
    for (auto& x : m) if (!found && x.first.size() >= strlen(e) && x.first.substr(x.first.size() - strlen(e)) == e && *e) { found = true; want = x.first; }
    if (!*e) continue;
    CHECK_EQM(z.FindFirstOf(e, &got), found, how << " " << e);
    if (found) CHECK_EQM(got, want, how << " " << e);
    CHECK_T(!z.FindFirstOf(e, NULL));
  }
}
void JudgeKmz(KmzFile* k, const Model& m, const string& bytes, const string& how) {
  std::vector<string> l;
  CHECK_T(k->List(&l));
  CHECK_EQM(l.size(), m.size(), how);
  const std::pair<string, string>* def = NULL;
  for (size_t i = 0; i < m.size(); ++i) {
    CHECK_EQ(l[i], m[i].first);
    string out(i % 3 ? 99000 : 1, 'o');
    CHECK_M(k->ReadFile(m[i].first.c_str(), &out), how << " " << m[i].first);
    CHECK_M(out == m[i].second, how << " " << m[i].first);
    size_t n = m[i].first.size();
    if (!def && n >= 4 && m[i].first.substr(n - 4) == ".kml") def = &m[i];
  }
  string kml = def && def->second.size() % 2 ? string(100000, 'o') : "", path = "unset";
  CHECK_EQM(k->ReadKmlAndGetPath(&kml, &path), def != NULL, how);
  if (def) { CHECK_EQM(path, def->first, how); CHECK_M(kml == def->second, how); }
  string kml2;
  CHECK_EQM(k->ReadKml(&kml2), def != NULL, how);
  CHECK_EQ(kml2, kml);
  CHECK_T(!k->ReadKml(NULL));
  string save;
  CHECK_T(k->SaveToString(&save));
  CHECK_M(save == bytes, how);
  CHECK_T(!k->SaveToString(NULL));
  string none;
  CHECK_T(!k->ReadFile("no such file.zzz", &none));
}
string ReadAll(const string& p) { std::ifstream f(p.c_str(), std::ios::binary); std::stringstream ss; ss << f.rdbuf(); return ss.str(); }
void WriteAll(const string& p, const string& d) { std::ofstream f(p.c_str(), std::ios::binary); f << d; }
void JudgeBytes(const string& bytes, const string& path, const Model& m, const string& how) {
  boost::scoped_ptr<ZipFile> a(ZipFile::OpenFromString(bytes)), b(ZipFile::OpenFromFile(path.c_str()));
  CHECK_M(a && b, how);
  CHECK_T(ZipFile::IsZipData(bytes) && KmzFile::IsKmz(bytes));
  JudgeZip(*a, m, how + " (memory)");
  JudgeZip(*b, m, how + " (disk)");
  KmzFilePtr c = KmzFile::OpenFromString(bytes), d = KmzFile::OpenFromFile(path.c_str());
  CHECK_T(c && d);
  JudgeKmz(c.get(), m, bytes, how + " (memory)");
  JudgeKmz(d.get(), m, bytes, how + " (disk)");
}
// Names that lead out of the archive.
string Escaping(G& g) {
  string x = GenPlain(g, 5) + ".kml";
  static const char* k[] = {"../", "/", "\\", "..\\", "../../", "a/../../", "/../", "a/b/../../../", "./../", "a\\..\\..\\", "x/..//../", "a/./../../"};
  return k[g.draw(12)] + x;
}
void Written(G& g) {
  string dir = g.scratch(), path = dir + "/a.kmz";
  Model m;
  string how;
  size_t n = 1 + g.many(6, 100);
  bool kmz = g.flip();
  {
    boost::scoped_ptr<ZipFile> z(kmz ? NULL : ZipFile::Create(path.c_str()));
    KmzFilePtr k = kmz ? KmzFile::Create(path.c_str()) : NULL;
    CHECK_T(kmz ? k != NULL : z != NULL);
    for (size_t i = 0; i < n; ++i) {
      string d = Data(g);
      if (g.draw(5) == 4) {
        string bad = Escaping(g);
        how += " refuse:" + bad;
        CHECK_M(!(kmz ? k->AddFile(d, bad) : z->AddEntry(d, bad)), bad);
        continue;
      }
      string name = NameAmong(g, i, m);
      how += " " + name + "(" + std::to_string(d.size()) + ")";
      CHECK_M((kmz ? k->AddFile(d, name) : z->AddEntry(d, name)), how);
      m.push_back(std::make_pair(name, d));
    }
    if (m.empty()) return;
  }
  g.note(how);
  string bytes = ReadAll(path), err;
  std::vector<zg::Entry> es;
  CHECK_M(zg::Read(bytes, &es, &err), how << " " << err);
  CHECK_EQM(es.size(), m.size(), how);
  for (size_t i = 0; i < m.size(); ++i) { CHECK_EQ(es[i].name, m[i].first); CHECK_M(es[i].data == m[i].second, how); }
  JudgeBytes(bytes, path, m, how);
  // An archive opened for reading takes no entries.
  boost::scoped_ptr<ZipFile> r(ZipFile::OpenFromString(bytes));
  CHECK_T(!r->AddEntry("x", "x.kml"));
  if (m.size() > 1) { g.nontrivial(how); g.sample(how); }
}
// Archives by an independent writer: stored, deflated, extra fields, comments, data descriptors, folders.
void Foreign(G& g) {
  std::vector<zg::Entry> es;
  Model m;
  size_t n = 1 + g.many(6, 60);
  string how;
  for (size_t i = 0; i < n; ++i) {
    zg::Entry e(NameAmong(g, i, m), Data(g), g.flip() ? 8 : 0);
    if (g.draw(8) == 7) { e.name = "d" + std::to_string(i) + "/"; e.data = ""; e.method = 0; }
    if (g.draw(4) == 3) e.extra = string("\x55\x54\x05\x00\x03\x01\x02\x03\x04", 9);
    if (g.draw(4) == 3) e.comment = GenPlain(g, 20);
    e.descriptor = e.method == 8 && g.draw(3) == 2;
    how += " " + e.name + (e.method ? "/z" : "/s") + (e.descriptor ? "d" : "") + (e.extra.empty() ? "" : "x") + "(" + std::to_string(e.data.size()) + ")";
    es.push_back(e);
    m.push_back(std::make_pair(e.name, e.data));
  }
  string comment = g.draw(4) == 3 ? GenPlain(g, 200) : "";
  string bytes = zg::Write(es, comment);
  string path = g.scratch() + "/f.kmz";
  WriteAll(path, bytes);
  g.note(how);
  JudgeBytes(bytes, path, m, how);
  // The size limit.
  size_t lim = g.draw(3) == 0 ? g.draw(100000) : m[g.draw(m.size())].second.size();
  if (g.draw(3) == 2 && lim) --lim;
  KmzFilePtr k = KmzFile::OpenFromString(bytes);
  k->set_max_uncompressed_file_size((unsigned)lim);
  CHECK_EQ(k->get_max_uncompressed_file_size(), lim);
  for (auto& e : m) {
    string out;
    bool ok = k->ReadFile(e.first.c_str(), &out);
    CHECK_EQM(ok, e.second.size() <= lim, how << " limit " << lim << " " << e.first);
    if (ok) CHECK_M(out == e.second, how);
  }
  // The document to show is the first KML entry.
  if (g.flip()) {
    string name = "v.kml", xml = "<kml xmlns=\"http://www.opengis.net/kml/2.2\"><Placemark><name>" + GenPlain(g, 6) + "</name></Placemark></kml>";
    std::vector<zg::Entry> e2;
    for (auto& e : es) if (e.name.size() < 4 || e.name.substr(e.name.size() - 4) != ".kml") e2.push_back(e);
    size_t at = g.draw(e2.size() + 1);
    e2.insert(e2.begin() + at, zg::Entry(name, xml));
    e2.push_back(zg::Entry("later.kml", "<Folder/>"));
    string err;
    KmlFilePtr f = KmlFile::CreateFromString(zg::Write(e2));
    CHECK_T(f);
    KmlFilePtr d = KmlFile::CreateFromString(xml);
    CHECK_EQ(Raw(f->get_root()), Raw(d->get_root()));
  }
  g.nontrivial(how);
  g.sample(how);
}
// Not archives: whatever does not start with a local file header.
void NotZip(G& g) {
  string s;
  size_t n = g.size(200);
  for (size_t i = 0; i < n; ++i) s += (char)g.draw(256);
  if (g.flip()) s = string("PK\x03\x04", 4).substr(0, g.draw(4)) + s;
  bool is = s.compare(0, 4, "PK\x03\x04") == 0 && s.size() >= 4;
  CHECK_EQ(ZipFile::IsZipData(s), is);
  CHECK_EQ(KmzFile::IsKmz(s), is);
  if (!is) {
    CHECK_T(!ZipFile::OpenFromString(s) && !KmzFile::OpenFromString(s));
    string path = g.scratch() + "/n";
    WriteAll(path, s);
    CHECK_T(!ZipFile::OpenFromFile(path.c_str()) && !KmzFile::OpenFromFile(path.c_str()));
    CHECK_T(!KmzFile::OpenFromFile((path + "zz").c_str()));
    CHECK_T(!KmzFile::Create((g.scratch() + "/no/such/dir/x.kmz").c_str()));
  }
  g.nontrivial(s);
}
// From a document: doc.kml plus each existing local file it references, once.
void FromDocument(G& g) {
  string top = g.scratch(), base = top + "/base";
  mkdir(base.c_str(), 0755);
  mkdir((base + "/sub").c_str(), 0755);
  mkdir((base + "/sub/deep").c_str(), 0755);
  WriteAll(top + "/secret.png", "secret");
  WriteAll(top + "/base2.png", "sibling");
  static const char* dirs[] = {"", "sub/", "sub/deep/"};
  std::map<string, string> disk;
  size_t nf = 1 + g.draw(6);
  for (size_t i = 0; i < nf; ++i) {
    string p = string(dirs[g.draw(3)]) + (g.draw(8) == 7 ? (g.flip() ? ".." : "...") : g.draw(12) == 11 ? "." : "") + (g.draw(5) == 4 ? "a b" : GenPlain(g, 3)) + std::to_string(i) + (g.flip() ? ".png" : ".kml");
    disk[p] = g.draw(6) ? GenPlain(g, 20) + p : string();
    WriteAll(base + "/" + p, disk[p]);
  }
  std::vector<string> names;
  for (auto& d : disk) names.push_back(d.first);
  // References and what each names, in order.
  std::vector<string> hrefs, want;
  string doc, how;
  size_t n = g.many(8, 60);
  size_t errors = 0;
  std::vector<string> direct;
  std::set<string> seen;
  for (size_t i = 0; i < n; ++i) {
    string name = names[g.draw(names.size())], href = name, target = name;
    bool local = true, err = false;
    switch (g.draw(12)) {
      case 0: case 1: case 2: break;
      case 3: href = "./" + name; break;
      case 4: href = "sub/../" + name; break;
      case 5: href = name + "#frag"; break;
      case 6: href = "missing" + std::to_string(i) + ".png"; target = ""; err = true; break;
      case 7: href = "../secret.png"; target = ""; err = true; break;
      case 8: href = "sub/../../secret.png"; target = ""; err = true; break;
      case 9: href = top + "/secret.png"; target = ""; err = true; break;
      case 10: href = g.flip() ? "http://example.com/" + name : "#" + GenPlain(g, 4); target = ""; local = false; break;
      default: href = g.flip() ? "..\\secret.png" : "../base2.png"; target = ""; err = true; break;
    }
    if (local) {
      direct.push_back(href);
      if (!target.empty() && seen.insert(target).second) want.push_back(target);
    }
    (void)err;
    string x = EscapeText(href);
    switch (g.draw(6)) {
      case 0: doc += "<GroundOverlay><Icon><href>" + x + "</href></Icon></GroundOverlay>"; break;
      case 1: doc += "<NetworkLink><Link><href>" + x + "</href></Link></NetworkLink>"; break;
      case 2: doc += "<Placemark><Style><IconStyle><Icon><href>" + x + "</href></Icon></IconStyle></Style></Placemark>"; break;
      case 3: doc += "<Placemark><styleUrl>" + x + "</styleUrl></Placemark>"; break;
      case 4: doc += "<Folder><ScreenOverlay><Icon><href>" + x + "</href></Icon></ScreenOverlay></Folder>"; break;
      default: doc += "<PhotoOverlay><Icon><href>" + x + "</href></Icon></PhotoOverlay>";
    }
    how += " " + href;
  }
  if (g.draw(40) == 39) doc += "<Placemark><name>" + string((size_t)1 << (10 + g.draw(9)), 'n') + "</name></Placemark>";
  doc = "<kml><Document>" + doc + "</Document></kml>";
  g.note(doc);
  string out = top + "/out.kmz", err;
  kmldom::ElementPtr root = kmldom::Parse(doc, &err);
  CHECK_M(root, err);
  Model m;
  m.push_back(std::make_pair(string("doc.kml"), Pretty(root)));
  for (auto& w : want) m.push_back(std::make_pair(w, disk[w]));
  switch (g.draw(3)) {
    case 0: CHECK_T(KmzFile::CreateFromElement(root, base + (g.flip() ? "/" : ""), out)); break;
    case 1: {
      WriteAll(base + "/main.kml", doc);
      CHECK_T(KmzFile::CreateFromKmlFilepath(base + "/main.kml", out));
      KmlFilePtr kf = KmlFile::CreateFromString(doc);
      m[0].second = Pretty(kf->get_root());
      break;
    }
    default: {
      KmlFilePtr kf = KmlFile::CreateFromStringWithUrl(doc, base, NULL);
      CHECK_T(kf);
      CHECK_T(KmzFile::CreateFromKmlFile(kf, out));
      m[0].second = Pretty(kf->get_root());
    }
  }
  // What is not KML makes no archive.
  string cut = doc.substr(0, g.draw(doc.size())), none = top + "/none.kmz";
  WriteAll(base + "/cut.kml", cut);
  CHECK_M(!KmzFile::CreateFromKmlFilepath(base + "/cut.kml", none), cut);
  CHECK_T(!kmlbase::File::Exists(none));
  unlink((base + "/cut.kml").c_str());
  string bytes = ReadAll(out);
  std::vector<zg::Entry> es;
  CHECK_M(zg::Read(bytes, &es, &err), err);
  string listed, expected;
  for (auto& e : es) listed += " " + e.name;
  for (auto& e : m) expected += " " + e.first;
  CHECK_EQM(listed, expected, doc);
  JudgeBytes(bytes, out, m, how);
  CHECK_T(bytes.find("secret") == string::npos || how.find("secret") != string::npos);
  // The same through the list interface, counting what cannot be added.
  string out2 = top + "/list.kmz";
  std::set<string> done;
  for (auto& h : direct) {
    string t = h.substr(0, h.find('#'));
    if (t.compare(0, 2, "./") == 0) t.erase(0, 2);
    if (t.compare(0, 7, "sub/../") == 0) t.erase(0, 7);
    if (disk.count(t)) continue;
    // Repeated references to what cannot be added count once or each time.
    if (done.insert(t).second) ++errors;
  }
  size_t got;
  {
    KmzFilePtr k = KmzFile::Create(out2.c_str());
    CHECK_T(k);
    CHECK_T(k->AddFile("x", "first.txt"));
    got = k->AddFileList(base, direct);
  }
  CHECK_M(got >= errors && (errors || !got), how << " errors " << got << " expected " << errors);
  CHECK_M(zg::Read(ReadAll(out2), &es, &err), err);
  listed.clear(); expected = " first.txt";
  for (auto& e : es) listed += " " + e.name;
  for (auto& w : want) expected += " " + w;
  CHECK_EQM(listed, expected, doc);
  string out3 = top + "/w.kmz";
  CHECK_T(KmzFile::WriteKmz(out3.c_str(), doc));
  // What cannot be written or read is reported.
  for (string bad : {base + "/no/such/dir.kmz", base + "/main.kml/x.kmz", string()}) {
    CHECK_M(!KmzFile::CreateFromElement(root, base, bad), bad);
    CHECK_M(!KmzFile::CreateFromKmlFilepath(base + "/main.kml", bad), bad);
    CHECK_M(!KmzFile::WriteKmz(bad.c_str(), doc), bad);
    CHECK_M(!KmzFile::Create(bad.c_str()), bad);
    CHECK_M(!kmlbase::File::Exists(bad), bad);
  }
  CHECK_T(!KmzFile::CreateFromKmlFilepath(base + "/absent.kml", none) && !KmzFile::CreateFromKmlFilepath("", none) && !KmzFile::CreateFromKmlFile(NULL, none));
  CHECK_T(!kmlbase::File::Exists(none));
  KmzFilePtr k3 = KmzFile::OpenFromFile(out3.c_str());
  string kml;
  CHECK_T(k3 && k3->ReadKml(&kml));
  CHECK_EQ(kml, doc);
  if (n) { g.nontrivial(doc); g.sample(how); }
}
// Archives for which the disk has no room.
struct SizeLimit {
  struct rlimit old;
  void (*handler)(int);
  explicit SizeLimit(size_t lim) {
    getrlimit(RLIMIT_FSIZE, &old);
    struct rlimit now = old;
    now.rlim_cur = lim;
    handler = signal(SIGXFSZ, SIG_IGN);
    setrlimit(RLIMIT_FSIZE, &now);
  }
  ~SizeLimit() { setrlimit(RLIMIT_FSIZE, &old); signal(SIGXFSZ, handler); }
};
void Room(G& g) {
  string base = g.scratch(), out = base + "/out.kmz";
  string noise, how, xml = "<Document>";
  for (size_t n = g.draw(4) ? g.draw(200) : g.draw(20000); n--;) noise += (char)('a' + g.draw(26));
  xml += "<description>" + noise + "</description>";
  size_t refs = g.draw(4);
  for (size_t i = 0; i < refs; ++i) {
    string data;
    for (size_t n = g.draw(4) ? g.draw(300) : g.draw(9000); n--;) data += (char)g.draw(256);
    WriteAll(base + "/r" + std::to_string(i), data);
    xml += "<NetworkLink><Link><href>r" + std::to_string(i) + "</href></Link></NetworkLink>";
    how += " " + std::to_string(data.size());
  }
  xml += "</Document>";
  WriteAll(base + "/main.kml", xml);
  kmldom::ElementPtr root = kmldom::Parse(xml, NULL);
  CHECK_T(root);
  size_t way = g.draw(4);
  auto write = [&]() -> bool {
    switch (way) {
      case 0: return KmzFile::WriteKmz(out.c_str(), xml);
      case 1: return KmzFile::CreateFromElement(root, base, out);
      case 2: return KmzFile::CreateFromKmlFilepath(base + "/main.kml", out);
      default: return KmzFile::CreateFromKmlFile(KmlFile::CreateFromStringWithUrl(xml, base, NULL), out);
    }
  };
  CHECK_T(write());
  string whole = ReadAll(out);
  std::vector<zg::Entry> es;
  string err;
  CHECK_M(zg::Read(whole, &es, &err), err);
  CHECK_EQ(es.size(), 1 + (way ? refs : 0));
  unlink(out.c_str());
  size_t lim = g.flip() ? g.draw(whole.size() + 10) : whole.size() - std::min<size_t>(whole.size(), g.draw(80)) + g.draw(3);
  how = "way " + std::to_string(way) + ", document " + std::to_string(xml.size()) + ", files" + how + ", room " + std::to_string(lim) + " of " + std::to_string(whole.size());
  g.note(how);
  bool ok;
  { SizeLimit l(lim); ok = write(); }
  string got = kmlbase::File::Exists(out) ? ReadAll(out) : string();
  CHECK_EQM(ok, whole.size() <= lim, how);
  if (ok) CHECK_M(got == whole, how);
  // There is room again.
  unlink(out.c_str());
  CHECK_M(write() && ReadAll(out) == whole, how);
  unlink(out.c_str());
  for (size_t i = 0; i < refs; ++i) unlink((base + "/r" + std::to_string(i)).c_str());
  g.label(ok ? "enough room" : "no room");
  g.nontrivial(how);
  g.sample(how);
}
}  // namespace
int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "P24",
    "Generated entry lists (names with folders, spaces, non-ASCII, up to 200 characters; contents empty, binary, compressible, incompressible, containing archive signatures) written through the library and read by an independent reader and back, "
    "archives of an independent writer (stored, deflated, extra fields, comments, data descriptors, folders) read by the library, escaping names, and documents with local, remote, missing, repeated and escaping references archived from a scratch folder, and archives the file system has no room for; "
    "oracle is the entry list; non-trivial = more than one entry or reference; distinct by the list.",
    {{"written", 10000, 60000, Written, 0},
     {"foreign", 16000, 80000, Foreign, 0},
     {"notzip", 8000, 32000, NotZip, 0},
     {"document", 6000, 40000, FromDocument, 0},
     {"room", 6000, 40000, Room, 0}});
}
