#include "schema.h"
#include <map>
namespace kg {
using kmlbase::Color32;
using kmldom::KmlFactory;
#include "schema_gen.inc"
const std::vector<TypeDef>& Types() {
  static std::vector<TypeDef>* t = NULL;
  if (!t) {
    t = new std::vector<TypeDef>(kTypes, kTypes + sizeof kTypes / sizeof kTypes[0]);
    for (auto& d : *t)
      for (int i : d.field_idx) d.fields.push_back(&kFields[i]);
  }
  return *t;
}
const TypeDef* FindType(const string& key) {
  static std::map<string, const TypeDef*>* m = NULL;
  if (!m) {
    m = new std::map<string, const TypeDef*>;
    for (auto& d : Types()) (*m)[d.key] = &d;
  }
  auto i = m->find(key);
  return i == m->end() ? NULL : i->second;
}
const TypeDef* TypeById(int id) {
  for (auto& d : Types()) if (d.type_id == id) return &d;
  return NULL;
}
const std::vector<EnumDef>& Enums() {
  static std::vector<EnumDef>* t = new std::vector<EnumDef>(kEnums, kEnums + sizeof kEnums / sizeof kEnums[0]);
  return *t;
}
const EnumDef* FindEnum(const string& n) {
  for (auto& e : kEnums) if (n == e.name) return &e;
  return NULL;
}
const GroupDef* FindGroup(const string& n) {
  for (auto& e : kGroups) if (n == e.name) return &e;
  return NULL;
}
bool IsA(const TypeDef* t, const string& c) {
  for (auto x : t->isa) if (c == x) return true;
  return false;
}
static std::vector<const TypeDef*> Compute(const Field* f) {
  std::vector<const TypeDef*> r;
  if (f->group) {
    if (!strcmp(f->arg, "Object")) {  // any object
      for (auto& t : Types()) if (IsA(&t, "Object") && strcmp(t.key, "IconStyleIcon")) r.push_back(&t);
      return r;
    }
    const GroupDef* g = FindGroup(f->arg);
    for (auto m : g->members) r.push_back(FindType(m));
  } else {
    r.push_back(FindType(f->arg));
  }
  return r;
}
const std::vector<const TypeDef*>& Candidates(const Field* f) {
  static std::map<const Field*, std::vector<const TypeDef*> >* c = new std::map<const Field*, std::vector<const TypeDef*> >;
  auto i = c->find(f);
  if (i == c->end()) i = c->insert(std::make_pair(f, Compute(f))).first;
  return i->second;
}
}  // namespace kg
