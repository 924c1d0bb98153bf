#include "zipgen.h"
#include <string.h>
#include <zlib.h>
namespace zg {
using std::string;
static void P2(string* s, unsigned v) { s->push_back(v & 255); s->push_back((v >> 8) & 255); }
static void P4(string* s, uint32_t v) { P2(s, v & 65535); P2(s, v >> 16); }
static unsigned G2(const string& s, size_t i) { return i + 2 <= s.size() ? (unsigned char)s[i] | (unsigned char)s[i + 1] << 8 : 0; }
static uint32_t G4(const string& s, size_t i) { return G2(s, i) | (uint32_t)G2(s, i + 2) << 16; }
string Deflate(const string& s, int level) {
  z_stream z;
  memset(&z, 0, sizeof z);
  deflateInit2(&z, level, Z_DEFLATED, -15, 8, Z_DEFAULT_STRATEGY);
  string out(deflateBound(&z, s.size()) + 16, 0);
  z.next_in = (Bytef*)s.data(); z.avail_in = s.size();
  z.next_out = (Bytef*)&out[0]; z.avail_out = out.size();
  deflate(&z, Z_FINISH);
  out.resize(z.total_out);
  deflateEnd(&z);
  return out;
}
bool Inflate(const string& s, size_t want, string* out) {
  z_stream z;
  memset(&z, 0, sizeof z);
  inflateInit2(&z, -15);
  out->assign(want + 1, 0);
  z.next_in = (Bytef*)s.data(); z.avail_in = s.size();
  z.next_out = (Bytef*)&(*out)[0]; z.avail_out = out->size();
  int r = inflate(&z, Z_FINISH);
  bool ok = r == Z_STREAM_END && z.total_out == want;
  out->resize(z.total_out);
  inflateEnd(&z);
  return ok;
}
string Write(const std::vector<Entry>& es, const string& comment, Fields* f) {
  string z, cd;
  std::vector<size_t> cdf;
  Fields tmp;
  for (auto& e : es) {
    string body = e.method == 8 ? Deflate(e.data) : e.data;
    uint32_t crc = crc32(0, (const Bytef*)e.data.data(), e.data.size());
    size_t off = z.size();
    unsigned flag = e.descriptor ? 8 : 0;
    z += "PK\x03\x04"; P2(&z, 20); P2(&z, flag); P2(&z, e.method); P4(&z, 0x2a210000);
    P4(&z, e.descriptor ? 0 : crc); P4(&z, e.descriptor ? 0 : body.size()); P4(&z, e.descriptor ? 0 : e.data.size());
    P2(&z, e.name.size()); P2(&z, e.extra.size());
    z += e.name + e.extra + body;
    if (e.descriptor) { z += "PK\x07\x08"; P4(&z, crc); P4(&z, body.size()); P4(&z, e.data.size()); }
    if (f) {
      static const int w[][2] = {{0, 4}, {4, 2}, {6, 2}, {8, 2}, {10, 4}, {14, 4}, {18, 4}, {22, 4}, {26, 2}, {28, 2}};
      for (auto& x : w) f->push_back({off + x[0], x[1]});
    }
    size_t c = cd.size();
    cd += "PK\x01\x02"; P2(&cd, 20); P2(&cd, 20); P2(&cd, flag); P2(&cd, e.method); P4(&cd, 0x2a210000);
    P4(&cd, crc); P4(&cd, body.size()); P4(&cd, e.data.size());
    P2(&cd, e.name.size()); P2(&cd, e.extra.size()); P2(&cd, e.comment.size()); P2(&cd, 0); P2(&cd, 0); P4(&cd, 0); P4(&cd, off);
    cd += e.name + e.extra + e.comment;
    static const int w[][2] = {{0, 4}, {4, 2}, {6, 2}, {8, 2}, {10, 2}, {12, 4}, {16, 4}, {20, 4}, {24, 4}, {28, 2}, {30, 2}, {32, 2}, {34, 2}, {36, 2}, {38, 4}, {42, 4}};
    for (auto& x : w) tmp.push_back({c + x[0], x[1]});
  }
  size_t base = z.size();
  if (f) for (auto& x : tmp) f->push_back({base + x.first, x.second});
  z += cd;
  size_t end = z.size();
  z += "PK\x05\x06"; P2(&z, 0); P2(&z, 0); P2(&z, es.size()); P2(&z, es.size()); P4(&z, cd.size()); P4(&z, base); P2(&z, comment.size());
  z += comment;
  if (f) {
    static const int w[][2] = {{0, 4}, {4, 2}, {6, 2}, {8, 2}, {10, 2}, {12, 4}, {16, 4}, {20, 2}};
    for (auto& x : w) f->push_back({end + x[0], x[1]});
  }
  return z;
}
bool Read(const string& z, std::vector<Entry>* out, string* err) {
  out->clear();
  size_t e = z.rfind("PK\x05\x06");
  if (e == string::npos || e + 22 > z.size()) { *err = "no end of central directory"; return false; }
  size_t n = G2(z, e + 10), off = G4(z, e + 16), p = off;
  for (size_t i = 0; i < n; ++i) {
    if (p + 46 > z.size() || z.compare(p, 4, "PK\x01\x02")) { *err = "bad central entry"; return false; }
    Entry x;
    x.method = G2(z, p + 10);
    uint32_t crc = G4(z, p + 16), cs = G4(z, p + 20), us = G4(z, p + 24);
    size_t nl = G2(z, p + 28), el = G2(z, p + 30), cl = G2(z, p + 32), lo = G4(z, p + 42);
    x.name = z.substr(p + 46, nl);
    p += 46 + nl + el + cl;
    if (lo + 30 > z.size() || z.compare(lo, 4, "PK\x03\x04")) { *err = "bad local header"; return false; }
    size_t d = lo + 30 + G2(z, lo + 26) + G2(z, lo + 28);
    if (z.substr(lo + 30, G2(z, lo + 26)) != x.name) { *err = "local name differs"; return false; }
    if (d + cs > z.size()) { *err = "data out of range"; return false; }
    string body = z.substr(d, cs);
    if (x.method == 0) x.data = body;
    else if (x.method != 8 || !Inflate(body, us, &x.data)) { *err = "cannot inflate " + x.name; return false; }
    if (x.data.size() != us || crc32(0, (const Bytef*)x.data.data(), x.data.size()) != crc) { *err = "crc/size of " + x.name; return false; }
    out->push_back(x);
  }
  return true;
}
}  // namespace zg
