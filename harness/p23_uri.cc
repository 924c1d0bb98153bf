// References: RFC 3986 resolution and splitting against a model written here.
#include <stdio.h>
#include <string.h>
#include <boost/scoped_ptr.hpp>
#include "kmlgen.h"
#include "urimodel.h"
#include "kml/base/uri_parser.h"
#include "kml/engine/href.h"
#include "kml/engine/kml_uri.h"
#include "kml/engine/kml_uri_internal.h"
using namespace kg;
using kmlbase::UriParser;
using pbt::G;
using namespace um;

namespace {
string Chars(G& g, const char* set, size_t max, size_t min = 0) {
  string s;
  size_t n = min + g.many(max, 300), k = strlen(set);
  for (size_t i = 0; i < n; ++i) s += set[g.draw(k)];
  return s;
}
const char* const kSeg = "abcXYZ019-_~.!$&'()*+,;=@";
string Segment(G& g, bool dots) {
  switch (g.draw(dots ? 8 : 6)) {
    case 0: case 1: return GenPlain(g, 6);
    case 2: return GenPlain(g, 5) + (g.flip() ? ".kml" : ".kmz");
    case 3: { string s = GenPlain(g, 3) + Chars(g, kSeg, 6); return s; }
    case 4: return GenPlain(g, 3) + "%20" + GenPlain(g, 3);
    case 5: return GenPlain(g, 3) + (g.flip() ? ".d" : ".kmzx");
    case 6: return "..";
    default: return ".";
  }
}
// Path after an authority or absolute: "" or "/seg/seg".
string AbsPath(G& g, bool dots, bool may_be_empty) {
  string p;
  size_t n = (may_be_empty ? 0 : 1) + g.many(5, 60);
  for (size_t i = 0; i < n; ++i) p += "/" + Segment(g, dots);
  if (n && g.draw(6) == 5) p += "/";
  return p;
}
void GenAuth(G& g, U* u) {
  u->has_auth = true;
  u->host = g.draw(5) ? GenPlain(g, 6) + ".com" : g.flip() ? "localhost" : "127.0.0.1";
  if (g.draw(6) == 5) { u->has_user = true; u->user = GenPlain(g, 5) + (g.flip() ? ":" + GenPlain(g, 4) : ""); }
  if (g.draw(4) == 3) { u->has_port = true; u->port = std::to_string(g.range(1, 65535)); }
}
void GenQueryFrag(G& g, U* u) {
  if (g.draw(3) == 2) { u->has_query = true; u->query = g.draw(8) == 7 ? "" : g.draw(4) ? GenPlain(g, 5) + "=" + Chars(g, "abc019-_.~=&/?:@", 8) + GenPlain(g, 5) : g.flip() ? "u=http://other.com/x" : "f=a.kmz/b"; }
  if (g.draw(3) == 2) { u->has_frag = true; u->frag = g.draw(8) == 7 ? "" : g.draw(4) ? GenPlain(g, 8) : g.flip() ? "a/b?c" : "x://y/z"; }
}
U GenAbsolute(G& g, bool dots) {
  U u;
  u.has_scheme = true;
  static const char* k[] = {"http", "https", "ftp", "h2+x.y-z", "file"};
  u.scheme = k[g.draw(5)];
  if (u.scheme == "file") { u.has_auth = true; if (g.draw(3) == 2) u.host = "host.com"; u.path = AbsPath(g, dots, false); }
  else { GenAuth(g, &u); u.path = AbsPath(g, dots, true); }
  GenQueryFrag(g, &u);
  return u;
}
U GenReference(G& g, bool dots) {
  U u;
  switch (g.draw(7)) {
    case 0: case 1: case 2: {
      // Relative path; its first segment has no colon in our alphabet.
      size_t n = 1 + g.size(5);
      for (size_t i = 0; i < n; ++i) u.path += (i ? "/" : "") + Segment(g, dots);
      if (g.draw(6) == 5) u.path += "/";
      GenQueryFrag(g, &u);
      return u;
    }
    case 3: u.path = AbsPath(g, dots, false); GenQueryFrag(g, &u); return u;
    case 4: u.has_frag = true; u.frag = g.draw(8) == 7 ? "" : GenPlain(g, 8); return u;
    case 5: return GenAbsolute(g, dots);
    default:
      switch (g.draw(3)) {
        case 0: u.has_query = true; u.query = g.draw(8) == 7 ? "" : GenPlain(g, 5); return u;
        case 1: GenAuth(g, &u); u.path = AbsPath(g, dots, true); GenQueryFrag(g, &u); return u;
        default: return u;
      }
  }
}
// Whether the path climbs above the root (leniency differs between implementations of the older rules).
void Resolution(G& g) {
  U b = GenAbsolute(g, true), r = GenReference(g, true);
  // "abnormal" bases carry dots themselves; a reference with an empty path keeps them as they are.
  string want = Resolve(b, r).str(), got = "unset";
  string how = b.str() + " + " + r.str();
  g.note(how + " -> " + want);
  CHECK_M(kmlengine::ResolveUri(b.str(), r.str(), &got), how);
  CHECK_EQM(got, want, how);
  CHECK_M(!kmlengine::ResolveUri(b.str(), r.str(), NULL), how);
  boost::scoped_ptr<UriParser> u(UriParser::CreateResolvedUri(b.str().c_str(), r.str().c_str()));
  CHECK_T(u);
  // A base without a scheme resolves nothing.
  U rb = GenReference(g, false);
  if (!rb.has_scheme) {
    string out = "unset";
    CHECK_M(!kmlengine::ResolveUri(rb.str(), r.str(), &out), rb.str() << " + " << r.str() << " -> " << out);
  }
  // Two-step resolution of a model's texture.
  U t = GenReference(g, true);
  string model = "unset", step;
  CHECK_T(kmlengine::ResolveModelTargetHref(b.str(), r.str(), t.str(), &model));
  CHECK_EQM(model, Resolve(Resolve(b, r), t).str(), how << " + " << t.str());
  CHECK_T(!kmlengine::ResolveModelTargetHref(b.str(), r.str(), t.str(), NULL));
  g.nontrivial(how);
  g.sample(how + " -> " + want);
}
void Splitting(G& g) {
  U u = g.flip() ? GenAbsolute(g, true) : GenReference(g, true);
  if (u.has_auth && !u.path.empty() && g.draw(6) == 5) {  // empty segments
    for (size_t n = 1 + g.draw(2); n--;) {
      std::vector<size_t> at;
      for (size_t i = 0; i < u.path.size(); ++i) if (u.path[i] == '/') at.push_back(i);
      u.path.insert(at[g.draw(at.size())], "/");
    }
  }
  string s = u.str();
  g.note(s);
  string scheme, host, port, path, query, frag;
  CHECK_M(kmlengine::SplitUri(s, &scheme, &host, &port, &path, &query, &frag), s);
  CHECK_T(kmlengine::SplitUri(s, NULL, NULL, NULL, NULL, NULL, NULL));
  CHECK_EQM(scheme, u.scheme, s);
  CHECK_EQM(host, u.host, s);
  CHECK_EQM(port, u.port, s);
  CHECK_EQM(query, u.query, s);
  CHECK_EQM(frag, u.frag, s);
  // The slash after the authority is not part of the path; for a path that is absolute without one both readings are accepted.
  string p = u.path;
  if (!p.empty() && p[0] == '/') { if (u.has_auth || path != p) p.erase(0, 1); }
  CHECK_EQM(path, p, s);
  string one = "unset";
  CHECK_EQM(kmlengine::SplitUriFragment(s, &one), u.has_frag, s);
  if (u.has_frag) CHECK_EQM(one, u.frag, s);
  CHECK_EQM(kmlengine::SplitUriFragment(s, NULL), u.has_frag, s);
  one = "unset";
  bool hp = kmlengine::SplitUriPath(s, &one);
  CHECK_EQM(hp, kmlengine::SplitUriPath(s, NULL), s);
  if (hp) CHECK_EQM(one, path, s);
  if (!path.empty()) CHECK_M(hp, s);
  string fetch;
  CHECK_T(kmlengine::GetFetchableUri(s, &fetch));
  CHECK_T(kmlengine::GetFetchableUri(s, NULL));
  CHECK_EQM(fetch, u.nofrag(), s);
  // Through the parser object: text back, parts present exactly when written.
  boost::scoped_ptr<UriParser> up(UriParser::CreateFromParse(s.c_str()));
  CHECK_T(up);
  string back;
  CHECK_T(up->ToString(&back));
  CHECK_EQ(back, s);
  CHECK_T(!up->ToString(NULL));
  CHECK_EQM(up->GetScheme(NULL), u.has_scheme, s);
  CHECK_EQM(up->GetPort(NULL), u.has_port, s);
  CHECK_EQM(up->GetQuery(NULL), u.has_query, s);
  CHECK_EQM(up->GetFragment(NULL), u.has_frag, s);
  if (u.has_auth && !u.host.empty()) CHECK_M(up->GetHost(NULL), s);
  if (!u.has_auth) CHECK_M(!up->GetHost(NULL), s);
  // The same object parses again.
  U v = GenReference(g, true);
  string vs = v.str();
  if (g.flip()) { string bad = "http://[bad"; CHECK_T(!up->Parse(bad.c_str())); }
  CHECK_T(up->Parse(vs.c_str()));
  CHECK_T(up->ToString(&back));
  CHECK_EQ(back, vs);
  g.nontrivial(s);
  g.sample(s);
}
string Lower(string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
void Normalizing(G& g) {
  U u = GenAbsolute(g, true);
  if (u.scheme == "file") u.scheme = "http", u.host = u.host.empty() ? "h.com" : u.host;
  U w = u;
  w.scheme = Lower(w.scheme);
  w.host = Lower(w.host);
  if (g.draw(4) == 3) for (auto x : {&u.scheme, &u.host}) for (auto& c : *x) if (c >= 'a' && c <= 'z' && g.flip()) c -= 32;
  string s = u.str(), out;
  g.note(s);
  CHECK_M(kmlengine::NormalizeUri(s, &out), s);
  w.path = RemoveDots(w.path);
  string want = w.str();
  // An empty path after an authority is equivalent to "/".
  if (u.path.empty()) { U w2 = w; w2.path = "/"; if (out == w2.str()) want = out; }
  CHECK_EQM(out, want, s);
  string again;
  CHECK_T(kmlengine::NormalizeUri(out, &again));
  CHECK_EQM(again, out, s);
  CHECK_T(!kmlengine::NormalizeUri(s, NULL));
  // Relative file references: dots are resolved, leading ".." stay.
  std::vector<string> segs, keep;
  size_t n = 1 + g.size(6), up = 0;
  string h;
  for (size_t i = 0; i < n; ++i) {
    string x = i + 1 == n ? GenPlain(g, 6) + ".png" : g.draw(4) == 3 ? ".." : g.draw(6) == 5 ? "." : GenPlain(g, 4) + (g.draw(5) == 4 ? " x" : "");
    h += (i ? "/" : "") + x;
    if (x == "..") { if (keep.empty()) ++up; else keep.pop_back(); }
    else if (x != ".") keep.push_back(x);
  }
  string wanth;
  for (size_t i = 0; i < up; ++i) wanth += "../";
  for (size_t i = 0; i < keep.size(); ++i) wanth += (i ? "/" : "") + keep[i];
  string goth;
  CHECK_M(kmlengine::NormalizeHref(h, &goth), h);
  CHECK_EQM(goth, wanth, h);
  CHECK_T(!kmlengine::NormalizeHref(h, NULL));
  g.nontrivial(s + h);
}
void Kmz(G& g) {
  // base URL of an archive, path inside.
  U u = GenAbsolute(g, false);
  string p, kmz;
  size_t n = 1 + g.size(3), m = g.size(3);
  for (size_t i = 0; i < n; ++i) { string s = Segment(g, false); if (s.size() >= 4 && s.substr(s.size() - 4) == ".kmz") s += "x"; p += "/" + s; }
  bool is = g.draw(4) != 0;
  if (is) p += ".kmz";
  u.path = p;
  u.has_query = u.has_frag = false;
  kmz = u.str();
  string inner;
  for (size_t i = 0; i < m; ++i) { string s = GenPlain(g, 5) + (g.draw(4) == 3 ? ".kmz" : ".kml"); inner += (i ? "/" : "") + s; }
  string url = kmz + (m && is ? "/" + inner : "");
  g.note(url);
  string a = "unset", b = "unset";
  CHECK_EQM(kmlengine::KmzSplit(url, &a, &b), is, url);
  CHECK_EQM(kmlengine::KmzSplit(url, NULL, NULL), is, url);
  if (is) {
    CHECK_EQM(a, kmz, url);
    CHECK_EQM(b, m ? inner : string(), url);
    a = b = "unset";
    CHECK_T(kmlengine::KmzSplit(url, &a, NULL) && kmlengine::KmzSplit(url, NULL, &b));
    CHECK_EQM(a, kmz, url);
    CHECK_EQM(b, m ? inner : string(), url);
  }
  // Relative to it.
  U r = GenReference(g, false);
  r.has_query = false;
  if (g.draw(5) == 4) { r = U(); r.has_frag = true; r.frag = "id"; }
  U base = u;
  base.path = p + (m && is ? "/" + inner : "");
  U res = Resolve(base, r);
  boost::scoped_ptr<kmlengine::KmlUri> k(kmlengine::KmlUri::CreateRelative(url, r.str()));
  string how = url + " + " + r.str();
  CHECK_M(k, how);
  CHECK_EQM(k->get_url(), res.nofrag(), how);   // the fragment is not part of what is fetched
  CHECK_EQM(k->get_target(), r.str(), how);
  string s = res.nofrag(), wk, wp;
  size_t at = s.find(".kmz/");
  bool wis = true;
  if (at != string::npos) { wk = s.substr(0, at + 4); wp = s.substr(at + 5); }
  else if (s.size() >= 4 && s.substr(s.size() - 4) == ".kmz") wk = s;
  else wis = false;
  CHECK_EQM(k->is_kmz(), wis, how);
  if (wis) { CHECK_EQM(k->get_kmz_url(), wk, how); CHECK_EQM(k->get_path_in_kmz(), wp, how); }
  if (wis) {
    k->set_path_in_kmz("x/y.kml");
    CHECK_EQ(k->get_path_in_kmz(), "x/y.kml");
    CHECK_EQ(k->get_url(), wk + "/x/y.kml");
  }
  CHECK_T(!kmlengine::KmlUri::CreateRelative(r.has_scheme ? "rel/path" : r.str(), "x.kml"));
  g.nontrivial(how);
  g.sample(how);
}
void Hrefs(G& g) {
  U u = g.draw(3) == 0 ? GenAbsolute(g, true) : GenReference(g, true);
  if (u.has_auth && !u.has_scheme) u = U();       // network-path references are not in the Href grammar
  if (u.has_auth && (u.host.empty() || u.path.empty())) u.host = "h.com", u.path = "/p";
  // An Href does not tell an empty query or fragment from an absent one.
  if (u.query.empty()) u.has_query = false;
  if (u.frag.empty()) u.has_frag = false;
  // The fragment begins at the first '#'.
  if (u.has_frag && g.draw(5) == 4) u.frag.insert(g.draw(u.frag.size() + 1), "#");
  string s = u.str();
  g.note(s);
  kmlengine::Href h(s);
  CHECK_EQM(h.get_scheme(), u.scheme, s);
  CHECK_EQM(h.get_net_loc(), u.auth(), s);
  CHECK_EQM(h.get_fragment(), u.frag, s);
  string p = u.path, q = u.has_query ? "?" + u.query : "";
  if (u.has_auth) p.erase(0, 1);
  // Whether the query belongs to the path is left open.
  CHECK_M(h.get_path() == p || h.get_path() == p + q, s << " path " << h.get_path());
  CHECK_EQM(h.IsRelative(), !u.has_scheme, s);
  if (!(p.empty() && u.has_query)) CHECK_EQM(h.IsRelativePath(), !u.has_scheme && !p.empty(), s);
  CHECK_EQM(h.IsFragmentOnly(), u.has_frag && !u.has_scheme && p.empty() && !u.has_query, s);
  CHECK_EQ(h.has_scheme(), !h.get_scheme().empty());
  CHECK_EQ(h.has_net_loc(), !h.get_net_loc().empty());
  CHECK_EQ(h.has_path(), !h.get_path().empty());
  CHECK_EQ(h.has_fragment(), !h.get_fragment().empty());
  string x = GenPlain(g, 5);
  h.set_path(x); CHECK_EQ(h.get_path(), x); h.clear_path(); CHECK_T(!h.has_path());
  h.set_fragment(x); CHECK_EQ(h.get_fragment(), x); h.clear_fragment(); CHECK_T(!h.has_fragment());
  h.set_scheme(x); CHECK_EQ(h.get_scheme(), x); h.clear_scheme(); CHECK_T(!h.has_scheme());
  h.set_net_loc(x); CHECK_EQ(h.get_net_loc(), x); h.clear_net_loc(); CHECK_T(!h.has_net_loc());
  g.nontrivial(s);
}
void Filenames(G& g) {
  string f;
  if (g.flip()) f = "/";
  size_t n = 1 + g.size(4);
  for (size_t i = 0; i < n; ++i) {
    if (i) f += "/";
    size_t k = 1 + g.size(8);
    for (size_t j = 0; j < k; ++j) {
      char c = g.flip() ? "abc.XYZ019-_ ~%#?:@&=+;,!$'()[]"[g.draw(31)] : (char)(1 + g.draw(255));
      if (c == '/' || c == '\\') c = '_';
      f += c;
    }
  }
  g.note(f);
  string uri, back, native;
  CHECK_M(kmlengine::FilenameToUri(f, &uri), f);
  CHECK_M(kmlengine::UriToFilename(uri, &back), f << " via " << uri);
  CHECK_EQM(back, f, uri);
  if (f[0] == '/') CHECK_EQM(uri.compare(0, 8, "file:///"), 0, f);
  for (char c : uri) CHECK_M((unsigned char)c > 32 && (unsigned char)c < 127, f << " gives " << uri);
  boost::scoped_ptr<UriParser> up(UriParser::CreateFromParse(uri.c_str()));
  CHECK_M(up, f << " gives " << uri);
  CHECK_T(!kmlengine::FilenameToUri(f, NULL) && !kmlengine::UriToFilename(uri, NULL));
  // Windows names.
  string w = "C:";
  for (size_t i = 0; i < n; ++i) w += "\\" + GenPlain(g, 5) + (g.draw(4) == 3 ? " z" : "");
  CHECK_M(UriParser::WindowsFilenameToUri(w, &uri), w);
  CHECK_M(UriParser::UriToWindowsFilename(uri, &back), uri);
  CHECK_EQM(back, w, uri);
  CHECK_EQ(uri.compare(0, 10, "file:///C:"), 0);
  CHECK_T(kmlengine::FilenameToUri(w, &native));
  CHECK_EQ(native, uri);
  g.nontrivial(f);
}
// Any text: an answer, and no harm.
void AnyText(G& g) {
  auto junk = [&]() {
    string s;
    if (g.flip()) s = (g.flip() ? GenAbsolute(g, true) : GenReference(g, true)).str();
    size_t n = g.size(12);
    for (size_t i = 0; i < n; ++i) {
      char c = g.flip() ? (char)(1 + g.draw(255)) : ":/?#[]@%.k \\<>\"{}|^`0a"[g.draw(22)];
      s.insert(g.draw(s.size() + 1), 1, c);
    }
    return s;
  };
  string a = junk(), b = junk(), out, o2, o3, o4, o5, o6;
  g.note(a + "  +  " + b);
  string tight_a(a.c_str()), tight_b(b.c_str());
  bool ok = kmlengine::SplitUri(a, &out, &o2, &o3, &o4, &o5, &o6);
  boost::scoped_ptr<UriParser> up(UriParser::CreateFromParse(tight_a.c_str()));
  CHECK_EQ((bool)up, ok);
  string f;
  CHECK_EQ(kmlengine::GetFetchableUri(a, &f), ok);
  if (up) {
    string t;
    CHECK_T(up->ToString(&t));
    CHECK_EQ(t, a);
    CHECK_EQ(f, a.substr(0, a.find('#')));
    up->Normalize();
    up->ToString(&t);
    kmlengine::NormalizeUri(a, &t);
  }
  kmlengine::ResolveUri(a, b, &out);
  kmlengine::ResolveUri("http://h.com/a/b", b, &out);
  kmlengine::NormalizeHref(a, &out);
  kmlengine::FilenameToUri(a, &out);
  UriParser::UnixFilenameToUri(a, &out);
  UriParser::WindowsFilenameToUri(a, &out);
  kmlengine::UriToFilename(a, &out);
  UriParser::UriToWindowsFilename(a, &out);
  kmlengine::KmzSplit(a, &out, &o2);
  boost::scoped_ptr<kmlengine::KmlUri> k(kmlengine::KmlUri::CreateRelative("http://h.com/x.kmz/doc.kml", b));
  kmlengine::Href h(a);
  CHECK_T(a.find(h.get_path()) != string::npos && a.find(h.get_scheme()) != string::npos && a.find(h.get_net_loc()) != string::npos && a.find(h.get_fragment()) != string::npos);
  g.nontrivial(a + b);
}
}  // namespace
int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "P23",
    "URI references generated from their parts (schemes, user info, hosts, ports, dotted paths, queries, fragments; absolute, network-path, absolute-path, relative, query-only, fragment-only, empty), archive URLs, file names, and arbitrary text; "
    "oracle is the RFC 3986 reference algorithm written here and the parts the text was made from; non-trivial = every case; distinct by text.",
    {{"resolve", 120000, 1500000, Resolution, 0},
     {"split", 80000, 1000000, Splitting, pbt::kLeak},
     {"normalize", 60000, 600000, Normalizing, 0},
     {"kmz", 80000, 800000, Kmz, 0},
     {"href", 120000, 1200000, Hrefs, 0},
     {"filename", 60000, 600000, Filenames, 0},
     {"any", 60000, 800000, AnyText, 0}});
}
