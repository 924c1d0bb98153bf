// Colors: every representation against bit arithmetic done here.
#include <ctype.h>
#include <stdio.h>
#include <string.h>
#include "kmlgen.h"
#include "kml/base/color32.h"
#include "kml/dom.h"
using namespace kg;
using kmlbase::Color32;
using pbt::G;

namespace {
uint32_t Value(G& g) {
  switch (g.draw(5)) {
    case 0: return (uint32_t)g.bits64();
    case 1: return 1u << g.draw(32);
    case 2: return ~(1u << g.draw(32));
    case 3: { static const uint32_t k[] = {0, 0xffffffff, 0xff000000, 0x00ffffff, 0x80808080, 0x7fffffff, 0x80000000, 0x01020304, 0x0f0f0f0f, 0xf0f0f0f0}; return k[g.draw(10)]; }
    default: return (uint32_t)(g.draw(256) << (8 * g.draw(4)));
  }
}
uint32_t Swap(uint32_t v) { return (v & 0xff00ff00) | ((v >> 16) & 0xff) | ((v & 0xff) << 16); }
string Hex(uint32_t v) { char b[16]; snprintf(b, sizeof b, "%08x", v); return b; }
void Is(const Color32& c, uint32_t v, const string& how) {
  CHECK_EQM(c.get_color_abgr(), v, how);
  CHECK_EQM(c.get_color_argb(), Swap(v), how);
  CHECK_EQM(c.get_alpha(), v >> 24, how);
  CHECK_EQM(c.get_blue(), (v >> 16) & 255, how);
  CHECK_EQM(c.get_green(), (v >> 8) & 255, how);
  CHECK_EQM(c.get_red(), v & 255, how);
  CHECK_EQM(c.to_string_abgr(), Hex(v), how);
  CHECK_EQM(c.to_string_argb(), Hex(Swap(v)), how);
}
string Spell(G& g, uint32_t v) {
  string s = Hex(v);
  for (auto& c : s) if (g.flip()) c = (char)toupper(c);
  if (g.draw(3) == 2) s = "#" + s;
  static const char* ws[] = {" ", "\n", "\t", "  ", "\r\n "};
  if (g.draw(3) == 2) s = ws[g.draw(5)] + s;
  if (g.draw(4) == 3) s += g.flip() ? ws[g.draw(5)] : "00ff";
  return s;
}
void Representations(G& g) {
  uint32_t v = Value(g), old = Value(g);
  Color32 c(old);
  string how;
  switch (g.draw(11)) {
    case 0: c = Color32(v); how = "uint"; break;
    case 1: c = Color32((int32_t)v); how = "int"; break;
    case 2: c = Color32((unsigned char)(v >> 24), (unsigned char)(v >> 16), (unsigned char)(v >> 8), (unsigned char)v); how = "bytes"; break;
    case 3: how = Spell(g, v); c = Color32(how); break;
    case 4: how = Spell(g, v); c.set_color_abgr(how); break;
    case 5: c.set_color_abgr(v); how = "set uint"; break;
    case 6: c.set_color_argb(Swap(v)); how = "set argb"; break;
    case 7: c.set_color_abgr((unsigned char)(v >> 24), (unsigned char)(v >> 16), (unsigned char)(v >> 8), (unsigned char)v); how = "set bytes"; break;
    case 8: c = v; how = "assign uint"; break;
    case 9: c = (int32_t)v; how = "assign int"; break;
    default: { Color32 d(v); c = d; how = "copy"; }
  }
  g.note(how + " " + Hex(v));
  Is(c, v, how);
  Color32 o(old);
  CHECK_EQ(c == o, v == old);
  CHECK_EQ(c != o, v != old);
  CHECK_EQ(c < o, v < old);
  CHECK_EQ(c > o, v > old);
  // A short text is the number it denotes.
  size_t n = 1 + g.draw(8);
  string s = Hex(v).substr(8 - n);
  Color32 d(s);
  Is(d, n == 8 ? v : v & ((1u << (4 * n)) - 1), s);
  g.nontrivial(how + Hex(v));
  g.sample(how + " " + Hex(v));
}
void Channels(G& g) {
  uint32_t v = Value(g);
  Color32 c(v);
  size_t n = 1 + g.draw(8);
  string h = Hex(v);
  for (size_t i = 0; i < n; ++i) {
    uint32_t b = g.draw(4) ? (uint32_t)g.draw(256) : g.flip() ? 255 : 128;
    switch (g.draw(4)) {
      case 0: c.set_red((unsigned char)b); v = (v & ~0xffu) | b; break;
      case 1: c.set_green((unsigned char)b); v = (v & ~0xff00u) | b << 8; break;
      case 2: c.set_blue((unsigned char)b); v = (v & ~0xff0000u) | b << 16; break;
      default: c.set_alpha((unsigned char)b); v = (v & ~0xff000000u) | b << 24;
    }
    h += Hex(v);
    Is(c, v, h);
  }
  g.nontrivial(h);
}
// Through KML: every color field of the vocabulary.
void InKml(G& g) {
  static std::vector<std::pair<const TypeDef*, const Field*> > all;
  if (all.empty()) for (auto& t : Types()) for (auto f : t.fields) if (f->kind == K_COLOR) all.push_back(std::make_pair(&t, f));
  auto& tf = all[g.enumerate(all.size())];
  uint32_t v = Value(g);
  string text = Spell(g, v), err;
  string xml = string("<") + tf.first->tag + "><" + tf.second->xml + ">" + text + "</" + tf.second->xml + "></" + tf.first->tag + ">";
  g.note(xml);
  ElementPtr e = kmldom::Parse(xml, &err);
  CHECK_M(e, err);
  CHECK_T(tf.second->has(e.get()));
  Val got;
  tf.second->get(e.get(), got);
  Is(got.c, v, xml);
  X x;
  CHECK_M(ReadXml(Raw(e), &x, &err), err);
  CHECK_T(x.kids.size() == 1 && x.kids[0].tag == tf.second->xml);
  CHECK_EQ(x.kids[0].text, Hex(v));
  g.nontrivial(xml);
}
// Any text: no harm, and the result is still one color.
void AnyText(G& g) {
  string s;
  size_t n = g.size(20);
  for (size_t i = 0; i < n; ++i) s += g.flip() ? (char)g.draw(256) : "0123456789abcdefABCDEF# \t\nxg-"[g.draw(29)];
  Color32 c(s);
  Is(c, c.get_color_abgr(), s);
  Color32 d(c.to_string_abgr());
  CHECK_T(c == d);
  std::string exact(s.data(), s.size());
  std::vector<char> tight(exact.begin(), exact.end());
  Color32 e(string(tight.begin(), tight.end()));
  CHECK_T(e == c);
  g.nontrivial(s);
}
}  // namespace
int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "P19",
    "Generated 32-bit values in every representation and spelling (case, hash, white space, short text), channel-by-channel histories, all color fields of the vocabulary through parse and serialize, arbitrary text; "
    "oracle is bit arithmetic on the value; non-trivial = every case; distinct by representation and value.",
    {{"representations", 600000, 4000000, Representations, 0},
     {"channels", 300000, 2000000, Channels, 0},
     {"kml", 150000, 1000000, InKml, 0},
     {"any", 200000, 2000000, AnyText, 0}});
}
