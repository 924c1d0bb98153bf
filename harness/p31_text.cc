// Text utilities and attribute sets against plain definitions.
#include <algorithm>
#include <set>
#include "boost/scoped_ptr.hpp"
#include "kmlgen.h"
#include "kml/base/attributes.h"
#include "kml/base/string_util.h"
using namespace kg;
using kmlbase::Attributes;
using kmlbase::StringVector;
using pbt::G;

namespace {
string Small(G& g, const char* alphabet, size_t max) {
  size_t n = strlen(alphabet);
  string s;
  for (size_t i = 0, k = g.many(max, 3000); i < k; ++i) s += alphabet[g.draw(n)];
  return s;
}
string Bytes(G& g, size_t max) {
  string s;
  for (size_t i = 0, k = g.many(max, 3000); i < k; ++i) s += g.draw(3) == 2 ? (char)g.draw(256) : "aAbB 1\t\n"[g.draw(8)];
  return s;
}
string Join(const StringVector& v) { string r; for (auto& s : v) r += "[" + s + "]"; return r; }

void Split(G& g) {
  string in, sep;
  switch (g.draw(3)) {
    case 0: in = Small(g, "ab|,", 20); sep = Small(g, "|,ab", 3); break;
    case 1: sep = g.flip() ? "||" : "aba"; in = Small(g, "ab|", 24); break;
    default: in = Bytes(g, 20); sep = Bytes(g, 3); break;
  }
  string how = "[" + pbt::Show(in) + "] by [" + pbt::Show(sep) + "]";
  g.note(how);
  StringVector want, got;
  size_t p = 0;
  while (!sep.empty()) {
    size_t q = in.find(sep, p);
    if (q == string::npos) break;
    want.push_back(in.substr(p, q - p));
    p = q + sep.size();
  }
  want.push_back(in.substr(p));
  got.push_back("kept");
  kmlbase::SplitStringUsing(in, sep, &got);
  CHECK_M(!got.empty() && got[0] == "kept", how);
  got.erase(got.begin());
  CHECK_EQM(Join(got), Join(want), how);
  string joined;
  for (size_t i = 0; i < got.size(); ++i) joined += (i ? sep : "") + got[i];
  CHECK_EQM(joined, in, how);
  if (want.size() > 1) { g.nontrivial(how); g.sample(how); }
}
bool Space(char c) { return c == ' ' || c == '\t' || c == '\v' || c == '\f' || c == '\n' || c == '\r'; }
void Quoted(G& g) {
  static const char delims[] = ",,,|;\t :";
  char d = delims[g.draw(8)];
  string pads = d == ' ' ? "\t" : d == '\t' ? " " : " \t";
  size_t n = g.draw(6);
  StringVector want;
  string in;
  for (size_t i = 0; i < n; ++i) {
    string s = Small(g, "ab\"',;|: \t\xc3\xa9.", 8);
    string pad1 = Small(g, pads.c_str(), 2), pad2 = Small(g, pads.c_str(), 2);
    if (i) in += d;
    if (d == ',' && g.flip()) {
      string q = "\"";
      for (char c : s) { if (c == '"') q += '"'; q += c; }
      // What follows the closing quote up to the separator is ignored.
      in += pad1 + q + "\"" + (g.draw(6) == 5 ? " junk" : pad2);
      want.push_back(s);
    } else {
      s.erase(std::remove(s.begin(), s.end(), d), s.end());
      while (!s.empty() && Space(s[0])) s.erase(0, 1);
      while (!s.empty() && Space(s[s.size() - 1])) s.erase(s.size() - 1);
      if (d == ',' && !s.empty() && s[0] == '"') s = "x" + s;
      in += pad1 + s + pad2;
      want.push_back(s);
    }
  }
  if (in.empty()) want.clear();
  string how = "[" + in + "] by " + string(1, d);
  g.note(how);
  StringVector got, got2;
  char* exact = (char*)malloc(in.size() ? in.size() : 1);
  memcpy(exact, in.data(), in.size());
  kmlbase::SplitQuotedUsing(exact, in.size(), d, &got);
  CHECK_M(string(exact, in.size()) == in, "input changed " << how);
  free(exact);
  CHECK_EQM(Join(got), Join(want), how);
  kmlbase::SplitQuotedUsingFromString(in, d, &got2);
  CHECK_EQM(Join(got2), Join(want), how);
  kmlbase::SplitQuotedUsing(NULL, 5, d, &got2);
  CHECK_EQ(got2.size(), want.size());
  if (want.size() > 1) { g.nontrivial(how); g.sample(how); }
}
// Any bytes: only what is there is looked at.
void QuotedAny(G& g) {
  string in = g.flip() ? Small(g, "\", a", 16) : Bytes(g, 20);
  char d = g.draw(3) ? ',' : (char)g.draw(256);
  g.note(pbt::Show(in) + " by " + std::to_string((unsigned char)d));
  char* exact = (char*)malloc(in.size() ? in.size() : 1);
  memcpy(exact, in.data(), in.size());
  StringVector got;
  kmlbase::SplitQuotedUsing(exact, in.size(), d, &got);
  free(exact);
  size_t total = 0;
  for (auto& s : got) { total += s.size(); for (char c : s) CHECK_M(in.find(c) != string::npos, pbt::Show(in)); }
  CHECK_M(total <= in.size(), pbt::Show(in));
  if (d) CHECK_M(got.size() <= (size_t)std::count(in.begin(), in.end(), d) + 1, pbt::Show(in));
  if (in.size() > 1) { g.nontrivial(in); g.sample(pbt::Show(in)); }
}

void Tests(G& g) {
  string a = Bytes(g, 10), b;
  switch (g.draw(6)) {
    case 0: b = a; break;
    case 1: b = a.substr(g.draw(a.size() + 1)); break;
    case 2: b = a.substr(0, g.draw(a.size() + 1)); break;
    case 3: b = a; for (auto& c : b) if (g.flip()) { if (c >= 'a' && c <= 'z') c -= 32; else if (c >= 'A' && c <= 'Z') c += 32; } break;
    case 4: b = a; if (!b.empty()) b[g.draw(b.size())] ^= (char)(1 << g.draw(8)); break;
    default: b = Bytes(g, 10); break;
  }
  string how = pbt::Show(a) + " / " + pbt::Show(b);
  g.note(how);
  bool ends = !a.empty() && !b.empty() && a.size() >= b.size() && a.compare(a.size() - b.size(), b.size(), b) == 0;
  CHECK_EQM(kmlbase::StringEndsWith(a, b), ends, how);
  auto low = [](string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; };
  // Comparison of text: strings holding a NUL are left out.
  if (a.find('\0') == string::npos && b.find('\0') == string::npos) {
    bool same = low(a) == low(b);
    CHECK_EQM(kmlbase::StringCaseEqual(a, b), same, how);
    CHECK_EQM(kmlbase::StringCaseEqual(b, a), same, how);
  }
  size_t ws = 0;
  while (ws < a.size() && Space(a[ws])) ++ws;
  CHECK_EQM(kmlbase::SkipLeadingWhitespaceString(a), ws, how);
  char* exact = (char*)malloc(a.size() ? a.size() : 1);
  memcpy(exact, a.data(), a.size());
  CHECK_EQM(kmlbase::SkipLeadingWhitespace(exact, exact + a.size()), ws, how);
  free(exact);
  uint32_t v = (uint32_t)g.bits64();
  char hex[4] = {'?', '?', '?', 0}, want[4];
  kmlbase::b2a_hex(v, hex);
  snprintf(want, sizeof want, "%02x?", v & 0xff);
  CHECK_EQ(string(hex, 3), string(want));
  if (!a.empty()) { g.nontrivial(how); g.sample(how); }
}

// ---- attribute sets as maps
string Name(G& g) {
  static const char* n[] = {"id", "name", "a", "b", "xmlns", "xmlns:gx", "xmlns:atom", "x:a", "x:b", "xx:a", "x", "href", "maxLines"};
  return n[g.draw(13)];
}
typedef std::map<string, string> Map;
string Show(const Map& m) { string r; for (auto& kv : m) r += " " + kv.first + "=" + pbt::Show(kv.second); return r; }
Map Read(const Attributes& a) {
  Map m;
  string prev;
  for (kmlbase::StringMapIterator i = a.CreateIterator(); !i.AtEnd(); i.Advance()) {
    CHECK_M(m.insert({i.Data().first, i.Data().second}).second, "twice " << i.Data().first);
  }
  return m;
}
void CheckMap(const Attributes& a, const Map& m, const string& how) {
  CHECK_EQM(Show(Read(a)), Show(m), how);
  CHECK_EQM(a.GetSize(), m.size(), how);
  StringVector names;
  a.GetAttrNames(&names);
  StringVector want;
  for (auto& kv : m) want.push_back(kv.first);
  std::sort(names.begin(), names.end());
  CHECK_EQM(Join(names), Join(want), how);
}
void Attrs(G& g) {
  boost::scoped_ptr<Attributes> a;
  Map m;
  string how;
  switch (g.draw(3)) {
    case 0: a.reset(new Attributes); break;
    case 1: {
      StringVector v;
      size_t n = g.draw(7);
      for (size_t i = 0; i < n; ++i) v.push_back(i % 2 ? GenString(g, true) : Name(g));
      for (size_t i = 0; i + 1 < n; i += 2) m[v[i]] = v[i + 1];
      how = "vector" + Join(v);
      g.note(how);
      a.reset(Attributes::Create(v));
      break;
    }
    default: {
      StringVector v;
      size_t n = g.draw(7);
      for (size_t i = 0; i < n; ++i) v.push_back(i % 2 ? GenString(g, true) : Name(g));
      for (size_t i = 0; i + 1 < n; i += 2) m[v[i]] = v[i + 1];
      std::vector<const char*> p;
      for (auto& s : v) p.push_back(s.c_str());
      p.push_back(NULL);
      p.shrink_to_fit();
      how = "array" + Join(v);
      g.note(how);
      a.reset(Attributes::Create(&p[0]));
    }
  }
  CHECK_M(a.get(), how);
  CheckMap(*a, m, how);
  int ops = (int)g.draw(12);
  for (int o = 0; o < ops; ++o) {
    string n = Name(g);
    switch (g.draw(10)) {
      case 0: { string v = GenString(g, true); how += " set(" + n + "," + v + ")"; if (g.flip()) a->SetValue(n, v); else a->SetString(n, v); m[n] = v; break; }
      case 1: {
        if (g.flip()) { int v = GenInt(g); how += " int(" + n + ")"; a->SetValue(n, v); m[n] = std::to_string(v); int back = ~v; CHECK_T(a->GetValue(n, &back)); CHECK_EQM(back, v, how); }
        else { bool v = g.flip(); how += " bool(" + n + ")"; a->SetValue(n, v); bool back = !v; CHECK_T(a->GetValue(n, &back) && a->GetBool(n, &back)); CHECK_EQM(back, v, how); CHECK_T(a->FindValue(n, &m[n])); CHECK_M(m[n] == (v ? "true" : "false") || m[n] == (v ? "1" : "0"), how << m[n]); }
        break;
      }
      case 2: { double v = GenDouble(g); how += " dbl(" + n + ")"; a->SetValue(n, v); double back = v + 1; CHECK_T(a->GetDouble(n, &back)); CHECK_M(DoubleClose(back, v), how << back << " " << v); CHECK_T(a->FindValue(n, &m[n])); break; }
      case 3: {
        string v = "untouched";
        how += " get(" + n + ")";
        CHECK_EQM(a->GetValue(n, &v), m.count(n) > 0, how);
        CHECK_EQM(v, m.count(n) ? m[n] : string("untouched"), how);
        v = "untouched";
        CHECK_EQM(a->FindValue(n, &v), m.count(n) > 0, how);
        CHECK_EQM(v, m.count(n) ? m[n] : string("untouched"), how);
        CHECK_EQM(a->GetString(n, (string*)NULL), m.count(n) > 0, how);
        break;
      }
      case 4: {
        string v = "untouched";
        how += " cut(" + n + ")";
        CHECK_EQM(a->CutValue(n, &v), m.count(n) > 0, how);
        CHECK_EQM(v, m.count(n) ? m[n] : string("untouched"), how);
        m.erase(n);
        break;
      }
      case 5: {
        string val = m.count(n) ? m[n] : GenString(g, true);
        string k = "untouched";
        how += " key(" + val + ")";
        bool there = false;
        for (auto& kv : m) if (kv.second == val) there = true;
        CHECK_EQM(a->FindKey(val, &k), there, how);
        if (there) CHECK_M(m.count(k) && m[k] == val, how << " got " << k); else CHECK_EQM(k, string("untouched"), how);
        break;
      }
      case 6: {
        how += " clone";
        boost::scoped_ptr<Attributes> c(a->Clone());
        CheckMap(*c, m, how);
        c->SetValue("cloned", string("x"));
        CheckMap(*a, m, how);
        break;
      }
      case 7: {
        Attributes b;
        how += " merge(";
        Map mb;
        for (size_t i = 0, k = g.draw(4); i < k; ++i) { string bn = Name(g), bv = GenString(g, true); b.SetValue(bn, bv); mb[bn] = bv; how += bn + "=" + bv + ","; }
        how += ")";
        a->MergeAttributes(b);
        for (auto& kv : mb) m[kv.first] = kv.second;
        CheckMap(b, mb, how);
        break;
      }
      case 8: {
        static const char* pf[] = {"x", "xmlns", "xx", "none", ""};
        string p = pf[g.draw(5)];
        how += " split(" + p + ")";
        Map out;
        for (auto& kv : m) if (kv.first.compare(0, p.size() + 1, p + ":") == 0) out[kv.first.substr(p.size() + 1)] = kv.second;
        for (auto& kv : out) m.erase(p + ":" + kv.first);
        boost::scoped_ptr<Attributes> s(a->SplitByPrefix(p));
        CHECK_EQM((bool)s.get(), !out.empty(), how);
        if (s.get()) CheckMap(*s, out, how);
        break;
      }
      default: {
        // Written and read by another reader.
        how += " write";
        string w = "<e";
        a->Serialize(&w);
        a->Serialize(NULL);
        w += "/>";
        string decl = w;
        X x;
        string err;
        Map plain;
        for (auto& kv : m) plain[kv.first] = kv.second;
        bool ok = ReadXml(decl, &x, &err);
        CHECK_M(ok, err << " " << decl << how);
        CHECK_EQM(Show(x.attrs), Show(plain), how << " " << decl);
      }
    }
    g.note(how);
    CheckMap(*a, m, how);
  }
  if (ops > 1) { g.nontrivial(how); g.sample(how); }
}
}  // namespace

int main(int argc, char** argv) {
  std::vector<pbt::Facet> f = {
    {"split", 300000, 3000000, Split, 0},
    {"quoted", 300000, 3000000, Quoted, 0},
    {"quoted-any", 300000, 3000000, QuotedAny, 0},
    {"tests", 300000, 3000000, Tests, 0},
    {"attributes", 150000, 1500000, Attrs, 0},
  };
  return pbt::Main(argc, argv, "P31", "split/quoted: more than one part; quoted-any/tests: non-empty; attributes: more than one operation; distinct by input", f);
}
