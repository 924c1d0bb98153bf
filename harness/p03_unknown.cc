#include <string.h>
#include <set>
#include "foreign.h"
#include "kmlgen.h"
using namespace kg;
using pbt::G;

static void Check(G& g, const M& m, bool dom) {
  RenderOpts ro;
  string xml = Render(g, m, ro), err;
  g.note("input: " + xml);
  ElementPtr e = kmldom::Parse(xml, &err);
  CHECK_M(e, "rejected: " << err);
  string d = CheckDom(m, e);
  CHECK_M(d.empty(), "known content changed: " << d);
  string out = Raw(e);
  g.note("output: " + out);
  X x, want = Expect(m);
  CHECK_M(ReadXml(out, &x, &err), "output not well-formed: " << err);
  d = Diff(want, x);
  CHECK_M(d.empty(), "output: " << d);
  ElementPtr e2 = kmldom::Parse(out, &err);
  CHECK_M(e2, "own output rejected: " << err);
  CHECK_M(Raw(e2) == out, "second cycle differs: " << Raw(e2));
  if (g_injected >= 1) g.nontrivial(xml);
  g.label(g_injected >= 6 ? "6+ foreign items" : g_injected >= 1 ? "1-5 foreign items" : "none");
  g.sample(xml);
}
static void Trees(G& g) {
  g_injected = 0;
  GenOpts o;
  o.budget = 10;
  M m = GenTree(g, PickRoot(g), o);
  Decorate(g, &m, o, 0);
  Check(g, m, true);
}
// Every parent kind with every misplaced kind.
static void Pairs(G& g) {
  g_injected = 0;
  size_t n = Types().size();
  uint64_t i = g.enumerate(n * n);
  const TypeDef* p = &Types()[i / n];
  const TypeDef* c = &Types()[i % n];
  if (!strcmp(p->key, "IconStyleIcon") || !strcmp(c->key, "IconStyleIcon") || !ElementContent(p) || Accepts(p, c)) throw pbt::Discard();
  GenOpts o;
  o.max_depth = 1;
  int b = 2;
  M m = Gen(g, p, o, &b, 0);
  b = 2;
  m.misplaced.push_back(Gen(g, c, o, &b, 0));
  g_injected = 1;
  Check(g, m, true);
}
// Every parent kind with every misplaced simple element and one foreign element.
static void Leaves(G& g) {
  g_injected = 0;
  size_t n = Types().size(), k = Simple().size();
  uint64_t i = g.enumerate(n * k);
  const TypeDef* p = &Types()[i / k];
  const string& tag = Simple()[i % k];
  if (!strcmp(p->key, "IconStyleIcon") || !ElementContent(p)) throw pbt::Discard();
  GenOpts o;
  o.max_depth = 1;
  int b = 2;
  M m = Gen(g, p, o, &b, 0);
  bool own = false;
  for (auto f : p->fields) if (tag == f->xml) own = true;
  if (!own) {
    X x(tag);
    x.text = GenString(g, true, 16);
    m.misplaced_leaves.push_back(x);
  }
  m.unknown.push_back(GenForeign(g, 2, true));
  g_injected = 1;
  Check(g, m, true);
}
// Markup written without CDATA inside a description is kept as its text.
static void Html(const X& x, string* s) {
  *s += "<" + x.tag;
  for (auto& a : x.attrs) *s += " " + a.first + "=\"" + a.second + "\"";
  *s += ">";
  for (size_t i = 0; i <= x.kids.size(); ++i) {
    *s += x.runs[i];
    if (i < x.kids.size()) Html(x.kids[i], s);
  }
  *s += "</" + x.tag + ">";
}
static X GenHtml(G& g, int depth) {
  static const char* t[] = {"b", "i", "p", "a", "table", "tr", "description", "name", "Placemark", "font"};
  X x(t[g.draw(10)]);
  if (g.flip()) x.attrs["href"] = GenPlain(g);
  if (g.draw(4) == 3) x.attrs["size"] = GenPlain(g);
  size_t nk = depth ? g.size(3) : 0;
  for (size_t i = 0; i < nk; ++i) x.kids.push_back(GenHtml(g, depth - 1));
  for (size_t i = 0; i <= nk; ++i) x.runs.push_back(g.flip() ? GenString(g, false, 8) : "");
  return x;
}
static void Description(G& g) {
  static const char* fe[] = {"Placemark", "Folder", "Document", "NetworkLink", "GroundOverlay", "PhotoOverlay", "ScreenOverlay", "gx:Tour"};
  string text = GenString(g, false, 6);
  size_t n = 1 + g.size(3), room = 90;
  for (size_t i = 0; i < n; ++i) {
    X x = GenHtml(g, 3);
    if (g.draw(12) == 11) {
      // Deep markup.
      room = 25;
      for (size_t k = 4 + g.draw(60); k > 0; --k) {
        X y = GenHtml(g, 0);
        y.kids.push_back(x);
        y.runs.push_back(g.flip() ? GenString(g, false, 4) : "");
        x = y;
      }
    }
    Html(x, &text);
    text += GenString(g, false, 6);
  }
  string tag = fe[g.draw(8)], err;
  string pre = g.flip() ? "<name>n</name>" : "", post = g.flip() ? "<visibility>0</visibility>" : "";
  bool un = g.flip();
  if (un) pre += "<foo><description>x</description></foo>";
  string xml = "<" + tag + ">" + pre + "<description>" + text + "</description>" + post + "</" + tag + ">";
  // The feature may lie deep in folders.
  size_t deep = g.draw(5) ? 0 : g.draw(room);
  for (size_t i = 0; i < deep; ++i) xml = "<Folder>" + xml + "</Folder>";
  g.note(xml);
  ElementPtr e = kmldom::Parse(xml, &err);
  CHECK_M(e, "rejected: " << err);
  for (size_t i = 0; i < deep; ++i) {
    kmldom::FolderPtr folder = kmldom::AsFolder(e);
    CHECK_M(folder && folder->get_feature_array_size() == 1, "folder " << i);
    e = folder->get_feature_array_at(0);
  }
  kmldom::FeaturePtr f = kmldom::AsFeature(e);
  CHECK_M(f && f->has_description(), "description lost");
  CHECK_EQ(f->get_description(), text);
  CHECK_EQ(f->has_visibility(), !post.empty());
  if (!pre.empty() && g.flip()) CHECK_EQ(f->has_name(), pre.compare(0, 6, "<name>") == 0);
  X x;
  CHECK_M(ReadXml(Raw(e), &x, &err), "output not well-formed: " << err);
  string got;
  for (auto& k : x.kids) if (k.tag == "description") got = k.text;
  CHECK_EQ(got, text);
  bool kept = false;
  for (auto& k : x.kids) if (k.tag == "foo" && k.kids.size() == 1 && k.kids[0].text == "x") kept = true;
  CHECK_EQ(kept, un);
  g.nontrivial(xml);
}
int main(int argc, char** argv) {
  size_t n = Types().size();
  return pbt::Main(argc, argv, "P03",
    "Documents with injected foreign elements and attributes and misplaced known elements; all "
    "(parent kind, misplaced kind) pairs are enumerated; non-trivial = at least one injected item; "
    "distinct by document.",
    {{"trees", 50000, 1500000, Trees, 0},
     {"pairs", (long)(n * n), (long)(n * n * 20), Pairs, 0},
     {"leaves", (long)(n * Simple().size()), (long)(n * Simple().size() * 10), Leaves, 0},
     {"description", 20000, 400000, Description, 0}});
}
