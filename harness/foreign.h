// Foreign and misplaced content for model trees; walking a DOM through the vocabulary table.
#ifndef VERIF_FOREIGN_H
#define VERIF_FOREIGN_H
#include "kmlgen.h"
namespace kg {
extern int g_injected;
bool ElementContent(const TypeDef* t);
bool Accepts(const TypeDef* p, const TypeDef* c);
const std::vector<string>& Simple();           // simple elements of the vocabulary
X GenForeign(pbt::G& g, int depth, bool top);
void Decorate(pbt::G& g, M* m, const GenOpts& o, int depth);
// Complex children in output order, by the accessors.
void ChildElements(const ElementPtr& e, std::vector<ElementPtr>* out);
struct Node { ElementPtr e; int parent; };
std::vector<Node> AllNodes(const ElementPtr& root);  // preorder
}
#endif
