// Merging on the model: what overlaying one tree on another must give.
#ifndef VERIF_MERGEMODEL_H
#define VERIF_MERGEMODEL_H
#include <string.h>
#include <algorithm>
#include "kmlgen.h"
namespace {
using namespace kg;
double R(double d) { double r = strtod(Fmt(d).c_str(), NULL); return r - r == 0 ? r : d < 0 ? -1e308 : 1e308; }
// Numbers pass through text; empty texts are no texts.
void Tidy(M* m) {
  for (size_t i = 0; i < m->f.size();) {
    FV& f = m->f[i];
    if (f.f->kind == K_TEXT && f.v.s.empty()) { m->f.erase(m->f.begin() + i); continue; }
    f.v.d = R(f.v.d);
    for (auto& v : f.list) v.v = kmlbase::Vec3(R(v.v.get_longitude()), R(v.v.get_latitude()), R(v.v.get_altitude()));
    for (auto& k : f.kids) Tidy(&k);
    ++i;
  }
}
bool IsList(const Field* f) { return f->kind == K_STRS || f->kind == K_VEC3S; }
size_t Pos(const TypeDef* t, const Field* f) { return std::find(t->fields.begin(), t->fields.end(), f) - t->fields.begin(); }
FV* Slot(M* m, const Field* f) {
  size_t i = 0, p = Pos(m->t, f);
  while (i < m->f.size() && Pos(m->t, m->f[i].f) < p) ++i;
  if (i < m->f.size() && m->f[i].f == f) return &m->f[i];
  FV v;
  v.f = f;
  m->f.insert(m->f.begin() + i, v);
  return &m->f[i];
}
int g_over, g_rec, g_app;
bool Has(const M& m, const Field* f) { for (auto& x : m.f) if (x.f == f) return true; return false; }
// The same field of another type, by name.
const Field* Corresponding(const TypeDef* t, const Field* f) {
  for (auto x : t->fields) if (x == f || (!strcmp(x->xml, f->xml) && x->kind == f->kind && x->attr == f->attr)) return x;
  return NULL;
}
void Overlay(const M& src, M* tgt, bool deep) {
  if (!strcmp(src.t->key, "coordinates")) {  // the content is replaced, also by nothing
    tgt->f.clear();
  }
  for (auto& f : src.f) {
    const Field* tf = src.t == tgt->t ? f.f : Corresponding(tgt->t, f.f);
    if (!tf) continue;
    bool had = Has(*tgt, tf);
    if (f.f->kind == K_ELEM || f.f->kind == K_ELEMS) {
      if (!deep) continue;
      FV* s = Slot(tgt, tf);
      if (f.f->kind == K_ELEMS) {
        s->kids.insert(s->kids.end(), f.kids.begin(), f.kids.end());
        ++g_app;
      } else if (had && s->kids[0].t == f.kids[0].t) {
        Overlay(f.kids[0], &s->kids[0], true);
        ++g_rec;
      } else {
        s->kids = f.kids;
        ++g_app;
      }
      continue;
    }
    FV* s = Slot(tgt, tf);
    if (IsList(f.f)) { s->list.insert(s->list.end(), f.list.begin(), f.list.end()); ++g_app; }
    else { s->list = f.list; s->v = f.v; g_over += had; }
  }
}
}  // namespace
#endif
