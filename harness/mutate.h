// Hostile inputs: byte mutation, tag soup over the vocabulary, odd values.
#ifndef VERIF_MUTATE_H
#define VERIF_MUTATE_H
#include "kmlgen.h"
namespace kg {
string MutateBytes(pbt::G& g, string s, size_t max_edits);
// Well-formed (unless broken on purpose) documents with any element anywhere.
string TagSoup(pbt::G& g, int budget, bool old_schema);
string HostileText(pbt::G& g);
const std::vector<string>& AllTags();
}
#endif
