// Any bytes as an archive: structured corruption of valid archives, long names, raw bytes; sanitizers judge memory, the rest is compared.
#include <stdio.h>
#include <algorithm>
#include <fstream>
#include <boost/scoped_ptr.hpp>
#include "kmlgen.h"
#include "mutate.h"
#include "zipgen.h"
#include "kml/base/zip_file.h"
#include "kml/dom.h"
#include "kml/engine/kml_file.h"
#include "kml/engine/kmz_file.h"
using namespace kg;
using kmlbase::ZipFile;
using kmlengine::KmlFile;
using kmlengine::KmlFilePtr;
using kmlengine::KmzFile;
using kmlengine::KmzFilePtr;
using pbt::G;

#include <map>
namespace {
string Data(G& g) {
  switch (g.draw(5)) {
    case 0: return "";
    case 1: return "<Placemark><name>" + GenPlain(g, 8) + "</name></Placemark>";
    case 2: return string(g.draw(3000), (char)g.draw(256));
    case 3: { string s; size_t n = g.draw(3000); uint64_t x = g.bits64(); for (size_t i = 0; i < n; ++i) { x = x * 6364136223846793005ULL + 1; s += (char)(x >> 56); } return s; }
    default: return "<kml><Document/></kml>";
  }
}
std::vector<zg::Entry> Entries(G& g) {
  std::vector<zg::Entry> es;
  size_t n = 1 + g.size(4);
  for (size_t i = 0; i < n; ++i) {
    string name = GenPlain(g, 6) + std::to_string(i) + (g.flip() ? ".kml" : ".png");
    if (g.draw(6) == 5) name = es.empty() ? name : es[0].name;
    zg::Entry e(name, Data(g), g.flip() ? 8 : 0);
    if (g.draw(4) == 3) e.extra = string(g.draw(30), 'e');
    if (g.draw(4) == 3) e.comment = string(g.draw(30), 'c');
    e.descriptor = g.draw(4) == 3;
    es.push_back(e);
  }
  return es;
}
// Everything a user does with one archive. Returns a transcript.
string Use(ZipFile* z, size_t limit) {
  string t;
  if (!z) return "none";
  z->set_max_uncompressed_file_size((unsigned)limit);
  kmlbase::StringVector toc;
  CHECK_T(z->GetToc(&toc));
  t = std::to_string(toc.size());
  size_t n = std::min<size_t>(toc.size(), 12);
  for (size_t i = 0; i < n; ++i) {
    CHECK_T(z->IsInToc(toc[i]));
    string out = "before";
    bool ok = z->GetEntry(toc[i], &out);
    if (ok) CHECK_M(out.size() <= limit, "entry of " << out.size() << " bytes over the limit " << limit);
    else CHECK_M(out == "before", "output changed by a failed read");
    t += "|" + toc[i] + (ok ? "=" + out : "!");
    z->GetEntry(toc[i], NULL);
  }
  string p;
  t += z->FindFirstOf(".kml", &p) ? "|first " + p : "|no kml";
  string out;
  t += z->GetEntry("not there", &out) ? "?" : "";
  return t;
}
void Judge(G& g, const string& bytes, const string& how) {
  g.note(how);
  size_t limit = g.draw(3) ? 1 << 20 : g.draw(4000);
  // An exactly sized copy so that reads beyond the end are seen.
  boost::scoped_ptr<ZipFile> a(ZipFile::OpenFromString(string(bytes.data(), bytes.size())));
  string ta = Use(a.get(), limit);
  CHECK_EQ((bool)a, bytes.compare(0, 4, "PK\x03\x04") == 0 && bytes.size() >= 4);
  string path = g.scratch() + "/z";
  { std::ofstream f(path.c_str(), std::ios::binary); f << bytes; }
  boost::scoped_ptr<ZipFile> b(ZipFile::OpenFromFile(path.c_str()));
  string tb = Use(b.get(), limit);
  CHECK_M(ta == tb, how << " memory and disk differ");
  KmzFilePtr k = KmzFile::OpenFromString(bytes);
  CHECK_EQ((bool)k, (bool)a);
  if (k) {
    k->set_max_uncompressed_file_size((unsigned)limit);
    string kml, name;
    k->ReadKmlAndGetPath(&kml, &name);
    std::vector<string> l;
    CHECK_T(k->List(&l));
    string save;
    CHECK_T(k->SaveToString(&save) && save == bytes);
    string err;
    if (!kml.empty()) { KmlFilePtr f = KmlFile::CreateFromParse(kml, &err); }
    if (g.draw(4) == 3) { KmlFilePtr f = KmlFile::CreateFromParse(bytes, &err); }
  }
}
uint64_t Interesting(G& g, int width, size_t size) {
  switch (g.draw(8)) {
    case 0: return 0;
    case 1: return width == 2 ? 0xffff : 0xffffffffu;
    case 2: return 1 + g.draw(16);
    case 3: return size;
    case 4: return size - g.draw(std::min<size_t>(size, 64) + 1);
    case 5: return size + 1 + g.draw(64);
    case 6: return width == 2 ? 0x8000 : 0x80000000u;
    default: return g.bits64() & (width == 2 ? 0xffff : 0xffffffffu);
  }
}
void Corrupted(G& g) {
  zg::Fields f;
  std::vector<zg::Entry> es = Entries(g);
  string z = zg::Write(es, g.draw(4) == 3 ? GenPlain(g, 40) : "", &f), how;
  size_t n = 1 + g.size(4);
  for (size_t i = 0; i < n; ++i) {
    switch (g.draw(6)) {
      case 0: case 1: case 2: {
        auto& x = f[g.draw(f.size())];
        uint64_t v = Interesting(g, x.second, z.size());
        for (int b = 0; b < x.second && x.first + b < z.size(); ++b) z[x.first + b] = (char)(v >> (8 * b));
        how += " field@" + std::to_string(x.first) + "=" + std::to_string(v);
        break;
      }
      case 3: if (z.size() > 30) { size_t p = 30 + g.draw(z.size() - 30); z[p] = (char)g.draw(256); how += " byte@" + std::to_string(p); } break;
      case 4: if (g.draw(3) == 2) { size_t p = g.draw(z.size() + 1); z.resize(p); how += " cut@" + std::to_string(p); } break;
      default: if (g.draw(3) == 2) { string j = GenPlain(g, 30); z.insert(g.draw(z.size() + 1), j); how += " insert"; }
    }
    if (z.size() < 5) break;
  }
  if (g.draw(8) && z.size() >= 4) z.replace(0, 4, "PK\x03\x04");
  Judge(g, z, how);
  g.nontrivial(z);
  g.sample(how);
}
void LongNames(G& g) {
  static const size_t k[] = {200, 254, 255, 256, 257, 258, 300, 1000, 1022, 1023, 1024, 1025, 1026, 2000, 5000, 65535};
  std::vector<zg::Entry> es;
  size_t n = 1 + g.size(3);
  string how;
  for (size_t i = 0; i < n; ++i) {
    size_t len = g.draw(4) ? k[g.draw(16)] : 1 + g.draw(3000);
    string name;
    while (name.size() < len) name += (char)('a' + (i * 7 + name.size()) % 26);
    if (g.flip() && len > 4) name.replace(len - 4, 4, ".kml");
    if (g.draw(8) == 7) name[g.draw(len)] = '\0';
    es.push_back(zg::Entry(name, Data(g), g.flip() ? 8 : 0));
    how += " " + std::to_string(len);
  }
  es.push_back(zg::Entry("short.kml", "<kml/>"));
  string z = zg::Write(es);
  boost::scoped_ptr<ZipFile> a(ZipFile::OpenFromString(z));
  CHECK_T(a);
  kmlbase::StringVector toc;
  a->GetToc(&toc);
  CHECK_EQM(toc.size(), es.size(), how);
  for (size_t i = 0; i < toc.size(); ++i) {
    // Each listed name is the entry's, possibly cut short.
    string full = es[i].name.substr(0, es[i].name.find('\0'));
    CHECK_M(full.compare(0, toc[i].size(), toc[i]) == 0, how << " lists " << toc[i].size() << " characters that are not the name");
    if (full.size() < 1000) CHECK_EQM(toc[i], full, how);
    string out;
    bool ok = a->GetEntry(toc[i], &out);
    if (full.size() < 256 && full == es[i].name) CHECK_M(ok, how << " name of " << full.size());
  }
  string out;
  CHECK_T(a->GetEntry("short.kml", &out) && out == "<kml/>");
  Judge(g, z, how);
  g.nontrivial(z);
}
void RawBytes(G& g) {
  string z = g.draw(8) ? string("PK\x03\x04", 4) : string();
  size_t n = g.size(400);
  static const string sig[] = {string("PK\x05\x06", 4), string("PK\x01\x02", 4), string("PK\x03\x04", 4), string("PK\x06\x06", 4), string("\x00\x00\x00\x00", 4), string("\xff\xff\xff\xff", 4)};
  while (z.size() < n) { if (g.draw(3)) z += sig[g.draw(6)]; else z += (char)g.draw(256); }
  if (g.flip()) { z += string("PK\x05\x06", 4) + string(4, '\0'); for (int i = 0; i < 14; ++i) z += (char)(g.draw(3) ? g.draw(4) : g.draw(256)); }
  Judge(g, z, "raw " + std::to_string(z.size()));
  g.nontrivial(z);
}
// The offset of the central directory, as the end record says.
size_t Central(const std::vector<zg::Entry>& es) {
  string z = zg::Write(es);
  size_t e = z.size() - 22, r = 0;
  for (int b = 3; b >= 0; --b) r = r * 256 + (unsigned char)z[e + 16 + b];
  return r;
}
// Damaged content: an entry is read as it was or not at all, and the others are read.
void Damaged(G& g) {
  std::vector<zg::Entry> es;
  size_t n = 1 + g.size(3), hit = g.draw(n);
  for (size_t i = 0; i < n; ++i) {
    string d = Data(g);
    if (d.size() < 8) d += "padding data";
    es.push_back(zg::Entry("a" + std::to_string(i) + ".kml", d, g.flip() ? 8 : 0));
  }
  // Where the content of the one that is hit lies.
  std::vector<zg::Entry> before(es.begin(), es.begin() + hit), upto(es.begin(), es.begin() + hit + 1);
  size_t lo = before.empty() ? 0 : Central(before), hi = Central(upto);
  lo += 30 + es[hit].name.size();
  string z = zg::Write(es);
  size_t k = 1 + g.size(3);
  bool same = true;
  for (size_t i = 0; i < k; ++i) { size_t at = lo + g.draw(hi - lo); char c = (char)g.draw(256); same &= z[at] == c; z[at] = c; }
  boost::scoped_ptr<ZipFile> a(ZipFile::OpenFromString(z));
  CHECK_T(a);
  for (size_t i = 0; i < n; ++i) {
    string out = "old";
    bool ok = a->GetEntry(es[i].name, &out);
    if (i != hit || same) CHECK_M(ok, "undamaged entry " << i << " not read");
    CHECK_M(ok ? out == es[i].data : out == "old", "entry " << i << (ok ? " read with other content" : " not read but output changed"));
    KmzFilePtr kmz = KmzFile::OpenFromString(z);
    string kml;
    if (i == 0 && kmz->ReadKml(&kml)) CHECK_T(kml == es[0].data);
  }
  Judge(g, z, "content damage");
  g.nontrivial(z);
}
// Undamaged archives of any layout are listed and read exactly, within the limit.
void Undamaged(G& g) {
  static const size_t kLen[] = {0, 1, 255, 256, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 3000, 16383, 16384, 16385, 40000, 65531, 65534, 65535};
  std::vector<zg::Entry> es;
  std::map<string, size_t> first;
  size_t n = 1 + (g.draw(20) == 19 ? g.draw(400) : g.size(5));
  for (size_t i = 0; i < n; ++i) {
    string d = Data(g);
    if (g.draw(4) == 3) { size_t len = kLen[g.draw(19)] + g.draw(3) * (g.draw(8) == 7 ? 65536 : 0); uint64_t x = g.bits64(); bool r = g.flip(); d.clear(); while (d.size() < len) { d += r ? (char)(x >> 56) : (char)('a' + d.size() % 13); x = x * 6364136223846793005ULL + 1; } }
    string name = GenPlain(g, 6) + std::to_string(i) + (g.flip() ? ".kml" : ".png");
    if (g.draw(5) == 4) name = string(1 + g.draw(3), 'd') + "/" + name;
    if (!es.empty() && g.draw(12) == 11) name = es[g.draw(es.size())].name;
    zg::Entry e(name, d, g.flip() ? 8 : 0);
    if (g.draw(3) == 2) e.extra = string(g.draw(4) ? g.draw(40) : kLen[g.draw(19)], 'e');
    if (g.draw(3) == 2) e.comment = string(g.draw(4) ? g.draw(40) : kLen[g.draw(19)], 'c');
    e.descriptor = g.draw(4) == 3;
    first.insert(std::make_pair(name, i));
    es.push_back(e);
  }
  // The end record is searched from the end in blocks of 1024.
  size_t c = 0;
  switch (g.draw(5)) {
    case 0: break;
    case 1: c = g.draw(100); break;
    case 2: c = kLen[g.draw(19)]; break;
    case 3: c = 1024 * (1 + g.draw(g.draw(3) ? 4 : 63)) - 40 + g.draw(60); break;
    default: c = g.draw(65536);
  }
  string z = zg::Write(es, string(c, g.flip() ? 'P' : ' '));
  boost::scoped_ptr<ZipFile> a(ZipFile::OpenFromString(z));
  CHECK_T(a);
  kmlbase::StringVector toc;
  CHECK_T(a->GetToc(&toc));
  CHECK_EQM(toc.size(), es.size(), "archive comment of " << c);
  for (size_t i = 0; i < n; ++i) CHECK_EQM(toc[i], es[i].name, "archive comment of " << c);
  size_t limit = g.draw(3) ? 1 << 22 : es[g.draw(n)].data.size() - (g.flip() ? 1 : 0);
  if (limit + 1 == 0) limit = 0;
  a->set_max_uncompressed_file_size((unsigned)limit);
  for (size_t i = 0; i < n; ++i) {
    // Of entries with the same name the first is read.
    const string& want = es[first[es[i].name]].data;
    string out = "old";
    bool ok = a->GetEntry(es[i].name, &out);
    CHECK_M(ok == (want.size() <= limit), "entry " << i << " of " << want.size() << " bytes, limit " << limit << (ok ? " read" : " not read"));
    CHECK_M(out == (ok ? want : "old"), "entry " << i << " of " << want.size() << " bytes reads as " << out.size());
  }
  g.note("archive comment of " + std::to_string(c));
  g.nontrivial(z);
  g.sample(std::to_string(n) + " entries, archive comment of " + std::to_string(c));
}
}  // namespace
int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "P25",
    "Valid archives (stored, deflated, descriptors, extra fields, comments, duplicate names) with corrupted header fields, bytes, cuts and insertions; names up to 65535 characters; raw bytes full of signatures; damaged content of entries (never returned in place of the original); undamaged archives of any layout (comments up to 65535 characters, up to 400 entries, duplicate names, limits at exactly an entry's size), listed and read exactly; opened from memory and disk, listed and read under a size limit. "
    "Oracle: AddressSanitizer, UndefinedBehaviorSanitizer and leak check, time limit, no exception, output within the limit, output untouched on failure, memory and disk agree; non-trivial = every case; distinct by the bytes.",
    {{"corrupted", 40000, 600000, Corrupted, pbt::kLeak},
     {"names", 4000, 40000, LongNames, 0},
     {"raw", 15000, 200000, RawBytes, pbt::kLeak},
     {"damaged", 12000, 120000, Damaged, 0},
     {"undamaged", 6000, 100000, Undamaged, 0}});
}
