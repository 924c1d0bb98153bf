// All ways of reading the same bytes agree.
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <functional>
#include <memory>
#include <sstream>
#include "kmlgen.h"
#include "mutate.h"
#include "zipgen.h"
#include "kml/base/expat_parser.h"
#include "kml/base/file.h"
#include "kml/dom/kml_handler.h"
#include "kml/dom/parser.h"
#include "kml/dom/parser_observer.h"
#include "kml/engine/kml_file.h"
#include "kml/engine/kml_stream.h"
#include "kml/engine/kmz_file.h"
using namespace kg;
using pbt::G;
using kmlengine::KmlFile;
using kmlengine::KmlFilePtr;
using kmlengine::KmlStream;
using kmlengine::KmzFile;
using kmlengine::KmzFilePtr;

namespace {
struct Out { bool ok; string xml, err; };
Out Done(const ElementPtr& e, const string& err) { return Out{e != NULL, e ? Raw(e) : "", err}; }
Out ByParse(const string& x) { string err; return Done(kmldom::Parse(x, &err), err); }
// Hands out at most `n` bytes per underlying read.
class Trickle : public std::streambuf {
 public:
  Trickle(const string& s, const std::vector<size_t>& cuts) : s_(s), p_(0), i_(0), cuts_(cuts) {}
 protected:
  int_type underflow() {
    if (p_ >= s_.size()) return traits_type::eof();
    size_t n = cuts_.empty() ? 1 : cuts_[i_++ % cuts_.size()];
    if (n > s_.size() - p_) n = s_.size() - p_;
    buf_ = s_.substr(p_, n);
    p_ += n;
    setg(&buf_[0], &buf_[0], &buf_[0] + n);
    return traits_type::to_int_type(buf_[0]);
  }
 private:
  string s_, buf_;
  size_t p_, i_;
  std::vector<size_t> cuts_;
};
Out ByStream(const string& x, const std::vector<size_t>& cuts) {
  Trickle b(x, cuts);
  std::istream in(&b);
  string err;
  std::unique_ptr<KmlStream> s(KmlStream::ParseFromIstream(&in, &err, NULL));
  if (s) CHECK_M(s->get_root(), "stream object without root");
  return Done(s ? s->get_root() : ElementPtr(), err);
}
Out ByChunks(const string& x, const std::vector<size_t>& cuts) {
  kmldom::parser_observer_vector_t obs;
  kmldom::KmlHandler h(obs);
  kmlbase::ExpatParser p(&h, false);
  string err;
  size_t pos = 0, i = 0;
  do {
    size_t n = cuts.empty() ? x.size() : cuts[i++ % cuts.size()];
    if (n > x.size() - pos) n = x.size() - pos;
    if (!p.ParseBuffer(x.substr(pos, n), &err, pos + n == x.size())) return Done(NULL, err);
    pos += n;
  } while (pos < x.size());
  return Done(h.PopRoot(), err);
}
Out ByFile(const string& x) {
  string err;
  KmlFilePtr f = KmlFile::CreateFromParse(x, &err);
  return Done(f ? f->get_root() : ElementPtr(), err);
}
Out ByString(const string& x) {
  KmlFilePtr f = KmlFile::CreateFromString(x);
  return Done(f ? f->get_root() : ElementPtr(), "?");
}
Out ByUrl(const string& x) {
  KmlFilePtr f = KmlFile::CreateFromStringWithUrl(x, "http://host/a.kml", NULL);
  return Done(f ? f->get_root() : ElementPtr(), "?");
}
string Zip(G& g, const string& x) {
  std::vector<zg::Entry> es;
  if (g.draw(3) == 2) es.push_back(zg::Entry("img/a.png", "\x89PNG"));
  zg::Entry e(g.flip() ? "doc.kml" : "sub/x.kml", x, g.flip() ? 0 : 8);
  es.push_back(e);
  if (g.flip()) es.push_back(zg::Entry("other.kml", "<kml/>"));
  return zg::Write(es);
}
Out ByKmz(G& g, const string& x) {
  string err;
  KmlFilePtr f = KmlFile::CreateFromParse(Zip(g, x), &err);
  return Done(f ? f->get_root() : ElementPtr(), err);
}
Out ByKmzRead(G& g, const string& x) {
  KmzFilePtr k = KmzFile::OpenFromString(Zip(g, x));
  string kml;
  CHECK_M(k, "archive rejected");
  if (x.empty()) throw pbt::Discard();
  CHECK_M(k->ReadKml(&kml), "no KML in archive");
  CHECK_M(kml == x, "KML from archive differs from what was put in");
  return ByParse(kml);
}
Out ByWrite(G& g, const string& x) {  // KmzFile::WriteKmz, then read from disk
  string f = g.scratch() + "/a.kmz";
  CHECK_M(KmzFile::WriteKmz(f.c_str(), x), "WriteKmz failed");
  string bytes;
  CHECK_M(kmlbase::File::ReadFileToString(f, &bytes), "cannot read archive");
  KmzFilePtr k = KmzFile::OpenFromFile(f.c_str());
  string kml, err;
  CHECK_M(k && k->ReadKml(&kml), "written archive unreadable");
  CHECK_M(kml == x, "KML from written archive differs");
  KmlFilePtr kf = KmlFile::CreateFromParse(bytes, &err);
  return Done(kf ? kf->get_root() : ElementPtr(), err);
}
class Quiet : public kmldom::ParserObserver {};
Out ByObserver(const string& x) {
  Quiet q, r;
  kmldom::Parser p;
  p.AddObserver(&q);
  p.AddObserver(&r);
  string err;
  return Done(p.Parse(x, &err), err);
}
std::vector<size_t> Cuts(G& g) {
  std::vector<size_t> c;
  size_t n = 1 + g.size(5);
  for (size_t i = 0; i < n; ++i) c.push_back(1 + (g.draw(3) ? g.draw(9) : g.draw(300)));
  return c;
}
void Agree(G& g, const string& x) {
  g.note(x);
  Out a = ByParse(x);
  Out b;
  const char* how;
  switch (g.draw(10)) {
    case 0: b = ByStream(x, Cuts(g)); how = "stream"; break;
    case 1: b = ByChunks(x, Cuts(g)); how = "chunks"; break;
    case 2: b = ByFile(x); how = "CreateFromParse"; break;
    case 3: b = ByString(x); how = "CreateFromString"; break;
    case 4: b = ByUrl(x); how = "CreateFromStringWithUrl"; break;
    case 5: b = ByKmz(g, x); how = "KMZ"; break;
    case 6: b = ByKmzRead(g, x); how = "KMZ ReadKml"; break;
    case 7: if (g.draw(8)) b = ByChunks(x, Cuts(g)), how = "chunks"; else { if (x.empty()) throw pbt::Discard(); b = ByWrite(g, x); how = "written KMZ"; } break;
    case 8: b = ByObserver(x); how = "observers"; break;
    default: { b = Done(kmldom::ParseKml(x), "?"); how = "ParseKml"; }
  }
  g.label(string(how) + (a.ok ? " accepted" : " rejected"));
  CHECK_M(a.ok == b.ok, how << (b.ok ? " accepts" : " rejects") << " what Parse " << (a.ok ? "accepts" : "rejects: ") << a.err << " / " << b.err);
  CHECK_M(a.xml == b.xml, how << " gives\n" << b.xml << "\ninstead of\n" << a.xml);
  if (x.size() > 30) g.nontrivial(x + how);
  g.sample(x);
}
void Valid(G& g) {
  GenOpts o;
  o.budget = 12;
  Agree(g, Render(g, GenTree(g, PickRoot(g), o), RenderOpts()));
}
void Bad(G& g) {
  GenOpts o;
  o.budget = 5;
  string x = Render(g, GenTree(g, PickRoot(g), o), RenderOpts());
  Agree(g, MutateBytes(g, x, 3));
}
void Soups(G& g) { Agree(g, TagSoup(g, (int)g.range(1, 15), g.draw(4) == 3)); }
// Documents longer than the stream reader's buffer, with every alignment.
void Long(G& g) {
  GenOpts o;
  o.budget = 6;
  string d = Render(g, GenTree(g, PickRoot(g), o), RenderOpts());
  string pad, tail;
  size_t n = 4096 * g.range(1, 3);
  size_t k = n > d.size() ? n - g.draw(d.size() + 1) : g.draw(4096);
  size_t at = 0;
  if (d.compare(0, 5, "<?xml") == 0) at = d.find("?>") + 2;
  if (k > 7 + at) { k -= at; pad = "<!--" + string(k - 7, 'x') + "-->"; }
  d.insert(at, pad);
  if (g.flip()) d += string(g.draw(5000), ' ');
  g.note("alignment pad " + std::to_string(pad.size()));
  if (g.draw(4) == 3) d = MutateBytes(g, d, 1);
  Out a = ByParse(d), b = ByStream(d, g.flip() ? Cuts(g) : std::vector<size_t>(1, 100000));
  CHECK_M(a.ok == b.ok, "stream " << (b.ok ? "accepts" : "rejects") << ": " << b.err);
  CHECK_M(a.xml == b.xml, "stream gives\n" << b.xml << "\ninstead of\n" << a.xml);
  g.nontrivial(d);
}
// Exactly n*4096 bytes, or one more or less.
void Exact(G& g) {
  long n = 4096 * (long)g.range(1, 2) + (long)g.range(-2, 2);
  string d = "<Placemark><name>", e = "</name></Placemark>";
  string t;
  while ((long)(d.size() + e.size() + t.size()) < n) t += (char)('a' + t.size() % 26);
  d += t + e;
  Out a = ByParse(d), b = ByStream(d, std::vector<size_t>(1, 1 + g.draw(5000)));
  CHECK_M(b.ok && a.ok, "rejected: " << b.err);
  CHECK_M(a.xml == b.xml, "stream differs");
  g.nontrivial((uint64_t)n * 7919 + g.draw(1));
}
// A stream which fails before its end is never a success.
class Failing : public Trickle {
 public:
  Failing(const string& s, size_t n) : Trickle(s.substr(0, n), std::vector<size_t>(1, 1 + n)), done_(false) {}
 protected:
  int_type underflow() {
    if (done_) throw 1;
    int_type c = Trickle::underflow();
    if (c == traits_type::eof()) throw 1;
    return c;
  }
  bool done_;
};
void Fault(G& g) {
  GenOpts o;
  o.budget = 5;
  string x = Render(g, GenTree(g, PickRoot(g), o), RenderOpts());
  bool before = g.draw(5) == 4;
  size_t n = g.draw(2) ? g.draw(x.size() + 1) : x.size();
  Failing b(x, n);
  std::istream in(&b);
  if (before) in.setstate(g.pick({std::ios::failbit, std::ios::badbit, std::ios::eofbit}));
  string err;
  std::unique_ptr<KmlStream> s(KmlStream::ParseFromIstream(&in, &err, NULL));
  CHECK_M(!s, "a stream failing after " << n << " of " << x.size() << " bytes is reported as success");
  CHECK_M(!err.empty(), "no error message");
  g.nontrivial(x + std::to_string(n));
}
// Namespace-aware reading of plain KML, unprefixed or with any prefix for it.
void DropForeign(M* m) {
  for (size_t i = 0; i < m->f.size();) {
    if (strchr(m->f[i].f->xml, ':')) m->f.erase(m->f.begin() + i);
    else {
      for (size_t k = 0; k < m->f[i].kids.size();)
        if (strchr(m->f[i].kids[k].t->tag, ':')) m->f[i].kids.erase(m->f[i].kids.begin() + k);
        else DropForeign(&m->f[i].kids[k++]);
      if ((m->f[i].f->kind == K_ELEM || m->f[i].f->kind == K_ELEMS) && m->f[i].kids.empty()) m->f.erase(m->f.begin() + i);
      else ++i;
    }
  }
}
string Prefixed(const X& x, const string& p, const string& decl) {
  string s = "<" + p + x.tag + decl;
  for (auto& a : x.attrs) s += " " + a.first + "=\"" + EscapeAttr(a.second) + "\"";
  s += ">";
  if (x.kind != -2) s += EscapeText(x.text);
  for (auto& k : x.kids) s += Prefixed(k, p, "");
  return s + "</" + p + x.tag + ">";
}
void Ns(G& g) {
  GenOpts o;
  o.budget = 12;
  const TypeDef* t = PickRoot(g);
  if (strchr(t->tag, ':')) t = &Types()[g.draw(Types().size())];
  if (strchr(t->tag, ':') || !strcmp(t->key, "IconStyleIcon")) throw pbt::Discard();
  M m = GenTree(g, t, o);
  DropForeign(&m);
  static const char* pre[] = {"", "k", "kml", "gx", "x-1"};
  static const char* uri[] = {"http://www.opengis.net/kml/2.2", "http://earth.google.com/kml/2.2", "http://earth.google.com/kml/2.1", "http://earth.google.com/kml/2.0"};
  string p = pre[g.draw(5)], xml, err, d;
  string u = uri[g.draw(4)];
  if (p.empty()) xml = Prefixed(Expect(m), "", g.flip() ? " xmlns=\"" + u + "\"" : "");
  else xml = Prefixed(Expect(m), p + ":", " xmlns:" + p + "=\"" + u + "\"");
  g.note(xml);
  ElementPtr e = kmldom::ParseNS(xml, &err);
  CHECK_M(e, "ParseNS rejects: " << err);
  d = CheckDom(m, e);
  CHECK_M(d.empty(), "ParseNS: " << d);
  ElementPtr plain = kmldom::Parse(Xml(m), &err);
  CHECK_M(plain, "Parse rejects: " << err);
  CHECK_M(Raw(e) == Raw(plain), "ParseNS gives\n" << Raw(e) << "\ninstead of\n" << Raw(plain));
  g.label(p.empty() ? "unprefixed" : "prefixed");
  if (Count(m) >= 3) g.nontrivial(xml);
}
}  // namespace
int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "P06",
    "Generated, mutated and soup documents read through Parse and one other way (stream with arbitrary short reads, arbitrary chunks, file objects, KMZ in "
    "memory and on disk, observers), plus prefixed documents through the namespace-aware parser; non-trivial = more than 30 bytes (tree facets: three elements); distinct by document and way.",
    {{"valid", 90000, 1000000, Valid, 0},
     {"mutated", 75000, 800000, Bad, 0},
     {"soup", 60000, 600000, Soups, 0},
     {"long", 18000, 150000, Long, 0},
     {"exact", 1200, 4000, Exact, 0},
     {"stream_fault", 18000, 150000, Fault, 0},
     {"namespace", 45000, 500000, Ns, 0}});
}
