// The KML vocabulary as data: element types, their fields in output order, and accessors.
#ifndef VERIF_SCHEMA_H
#define VERIF_SCHEMA_H
#include <string>
#include <vector>
#include "kml/base/color32.h"
#include "kml/base/vec3.h"
#include "kml/dom.h"

namespace kg {
using kmldom::Element;
using kmldom::ElementPtr;
typedef std::string string;

enum Kind { K_STR, K_BOOL, K_INT, K_DBL, K_COLOR, K_ENUM, K_ELEM, K_ELEMS, K_STRS, K_VEC3S,
            K_ENUMS, K_TEXT, K_COORDS };
struct Val {
  string s; double d; int i; bool b; kmlbase::Color32 c; kmlbase::Vec3 v; ElementPtr e;
  Val() : d(0), i(0), b(false), v(0, 0, 0) {}
};
struct EnumDef { const char* name; std::vector<const char*> values; };
struct GroupDef { const char* name; std::vector<const char*> members; };
struct Field {
  const char* xml;     // tag, attribute or group name
  const char* cls;     // declaring class
  const char* suffix;  // accessor suffix
  Kind kind;
  bool attr;
  const char* arg;     // enum name, type name or group name
  bool group;
  bool (*has)(Element*);
  void (*clear)(Element*);
  void (*set)(Element*, const Val&);   // add for arrays
  void (*get)(Element*, Val&);
  size_t (*count)(Element*);
  void (*at)(Element*, size_t, Val&);
};
struct TypeDef {
  const char* key;     // unique key (== tag, except IconStyleIcon)
  const char* tag;
  const char* cls;
  int type_id;
  ElementPtr (*create)();
  std::vector<const char*> isa;
  std::vector<int> field_idx;
  std::vector<const Field*> fields;
};
const std::vector<TypeDef>& Types();
const TypeDef* FindType(const string& key);
const TypeDef* TypeById(int type_id);
const EnumDef* FindEnum(const string& name);
const GroupDef* FindGroup(const string& name);
const std::vector<EnumDef>& Enums();
bool IsA(const TypeDef* t, const string& cls);
// Possible concrete types of an element-valued field.
const std::vector<const TypeDef*>& Candidates(const Field* f);
}  // namespace kg
#endif
