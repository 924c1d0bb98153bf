// Independent ZIP writer/reader for the archive checks.
#ifndef VERIF_ZIPGEN_H
#define VERIF_ZIPGEN_H
#include <stdint.h>
#include <string>
#include <vector>
namespace zg {
struct Entry {
  std::string name, data;
  int method;            // 0 stored, 8 deflated
  std::string extra;     // local/central extra field
  std::string comment;
  bool descriptor;       // sizes and CRC in a trailing data descriptor
  Entry() : method(8), descriptor(false) {}
  Entry(const std::string& n, const std::string& d, int m = 8) : name(n), data(d), method(m), descriptor(false) {}
};
// Offsets of interesting fields, for structured corruption: (offset, width).
typedef std::vector<std::pair<size_t, int> > Fields;
std::string Write(const std::vector<Entry>& e, const std::string& comment = "", Fields* f = 0);
// Strict reader: via the central directory, checks sizes and CRCs.
bool Read(const std::string& zip, std::vector<Entry>* out, std::string* err);
std::string Deflate(const std::string& s, int level = 6);
bool Inflate(const std::string& s, size_t want, std::string* out);
}
#endif
