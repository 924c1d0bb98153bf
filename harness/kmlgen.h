// Model trees over the KML vocabulary: generation, rendering, DOM building and comparison.
#ifndef VERIF_KMLGEN_H
#define VERIF_KMLGEN_H
#include <map>
#include <string>
#include <vector>
#include "pbt.h"
#include "schema.h"

namespace kg {

// A generic XML tree as an independent reader sees it.
struct X {
  string tag;
  std::map<string, string> attrs;
  string text;                 // direct character data, concatenated
  std::vector<X> kids;
  std::vector<string> runs;    // text before kid i, and after the last (kids+1); compared if set on the expected side
  // Only on expected trees: how to compare.
  int kind;                    // Kind, or -1: exact text, -2: element content (whitespace only)
  std::map<string, int> attr_kind;
  X() : kind(-1) {}
  explicit X(const string& t) : tag(t), kind(-1) {}
};
// Independent (expat) reader; returns false and an error if not well-formed.
bool ReadXml(const string& xml, X* root, string* error);
// "" if equal, else a description of the first difference.
string Diff(const X& expected, const X& actual, const string& path = "");
string XToString(const X& x);   // escaped, canonical
size_t XCount(const X& x);

struct M;
struct FV {
  const Field* f;
  Val v;
  std::vector<Val> list;
  std::vector<M> kids;
};
struct M {
  const TypeDef* t;
  std::vector<FV> f;                       // present fields, in output order
  std::map<string, string> extra_attrs;    // attributes the type does not define
  std::vector<M> misplaced;                // known elements in the wrong place
  std::vector<X> misplaced_leaves;         // known simple elements in the wrong place
  std::vector<X> unknown;                  // foreign elements
  const FV* get(const string& xml) const;
  FV* get(const string& xml);
};

struct GenOpts {
  int max_depth;
  int budget;        // elements
  bool nasty;        // adversarial strings
  bool ids;          // generate ids
  unsigned leaf_num, leaf_den;
  bool cr;           // carriage returns in strings
  unsigned big_den;  // one tree in so many gets something large (0: none)
  // Restrict element types (empty = all).
  std::vector<string> only;
  GenOpts() : max_depth(6), budget(40), nasty(true), ids(true), leaf_num(1), leaf_den(3), cr(false), big_den(40) {}
};
string GenString(pbt::G& g, bool nasty, size_t maxlen = 24);
string GenPlain(pbt::G& g, size_t maxlen = 10);       // [a-z0-9] non-empty
string GenId(pbt::G& g);
double GenDouble(pbt::G& g);
int GenInt(pbt::G& g);
M Gen(pbt::G& g, const TypeDef* t, const GenOpts& o, int* budget, int depth);
// Something large: a long text, many members in an array, deep nesting.
string BigString(pbt::G& g, bool nasty);
size_t BigCount(pbt::G& g);
void Inflate(pbt::G& g, M* m, const GenOpts& o);
M GenTree(pbt::G& g, const TypeDef* t, const GenOpts& o);
Val GenVal(pbt::G& g, const Field* f, const GenOpts& o);
const TypeDef* PickRoot(pbt::G& g);

// The expected independent view of the serialized model.
X Expect(const M& m);
// Canonical rendering (schema order, plain escapes).
string Xml(const M& m);
string Xml(const X& x);
// Varied rendering of the same information.
struct RenderOpts {
  bool shuffle, comments, spaces, cdata, numbers, prolog;
  RenderOpts() : shuffle(true), comments(true), spaces(true), cdata(true), numbers(true), prolog(true) {}
};
string Render(pbt::G& g, const M& m, const RenderOpts& o);
string EscapeText(const string& s);
string EscapeAttr(const string& s);

// Build through the factory and the setters.
ElementPtr Build(const M& m);
// "" if the DOM holds exactly the model, else what differs.
string CheckDom(const M& m, const ElementPtr& e, const string& path = "");
string ValStr(const Field* f, const Val& v);
// Set where the trees compared did not pass through text written by libkml, which adds a missing altitude.
extern bool strict_altitude;
bool ValEq(const Field* f, const Val& a, const Val& b);
bool DoubleClose(double a, double b);
string Fmt(double d);            // %.15g
size_t Count(const M& m);        // number of elements
void Shape(const M& m, string* out);  // structural signature

string Raw(const ElementPtr& e);
string Pretty(const ElementPtr& e);
}  // namespace kg
#endif
