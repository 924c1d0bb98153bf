// Files and paths against a model of a directory.
#include <dirent.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include <map>
#include <set>
#include "kmlgen.h"
#include "kml/base/file.h"
#include "kml/base/tempfile.h"
using namespace kg;
using kmlbase::File;
using kmlbase::TempFile;
using kmlbase::TempFilePtr;
using pbt::G;

namespace {
string Content(G& g) {
  size_t n = 0;
  switch (g.draw(8)) {
    case 0: n = 0; break;
    case 1: n = g.draw(20); break;
    case 2: n = 1000 + g.draw(50); break;
    case 3: n = 1024 * (1 + g.draw(4)); break;
    case 4: n = 1024 * (1 + g.draw(9)) + g.draw(3) - 1; break;
    case 5: n = 4096 * (1 + g.draw(4)) + g.draw(3) - 1; break;
    case 6: n = 8190 + g.draw(5); break;
    default: n = g.draw(70000); break;
  }
  uint64_t x = g.draw(1u << 30) * 2 + 1;
  unsigned kind = g.draw(4);
  string s(n, '\0');
  for (size_t i = 0; i < n; ++i) {
    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
    char c = (char)(x >> 24);
    s[i] = kind == 0 ? c : kind == 1 ? "a\n\r\x1a"[(unsigned char)c & 3] : kind == 2 ? (char)('a' + (unsigned char)c % 26) : ((unsigned char)c & 1 ? '\0' : '\xff');
  }
  return s;
}
string Real(const string& p) {
  FILE* f = fopen(p.c_str(), "rb");
  if (!f) return "<none>";
  string s; char b[4096]; size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
  fclose(f);
  return s;
}
bool IsFile(const string& p) { struct stat st; return stat(p.c_str(), &st) == 0 && S_ISREG(st.st_mode); }
std::set<string> List(const string& d) {
  std::set<string> r;
  if (DIR* dir = opendir(d.c_str())) {
    while (struct dirent* e = readdir(dir)) if (string(e->d_name) != "." && string(e->d_name) != "..") r.insert(e->d_name);
    closedir(dir);
  }
  return r;
}
// A history of operations on a directory.
void History(G& g) {
  string dir = g.scratch();
  static const char* names[] = {"a", "b.txt", "with space", "\xc3\xa9t\xc3\xa9.kml", ".hidden", "a.b.c", "-dash"};
  for (const char* n : names) unlink((dir + "/" + n).c_str());
  string sub = dir + "/sub";
  mkdir(sub.c_str(), 0700);
  if (g.flip()) mkdir((sub + "/sub2").c_str(), 0700);
  std::map<string, string> model;
  struct Temp { TempFilePtr p; string content; };
  std::vector<Temp> temps;
  std::set<string> past;
  string how;
  size_t writes = 0, rewrites = 0;
  for (size_t i = 0, n = 1 + g.size(12); i < n; ++i) {
    string name = g.pick(names), path = dir + "/" + name;
    switch (g.draw(11)) {
      case 0: case 1: case 2: {
        string c = Content(g);
        how += " write " + name + " " + std::to_string(c.size());
        CHECK_M(File::WriteStringToFile(c, path), how);
        if (model.count(name)) ++rewrites;
        model[name] = c; ++writes;
        if (g.draw(4) == 3) {  // whatever its permissions, it is there
          static const mode_t modes[] = {0, 0200, 0400, 0111, 0777, 0600};
          mode_t m = modes[g.draw(6)];
          CHECK_T(chmod(path.c_str(), m) == 0);
          how += " chmod " + std::to_string(m);
          CHECK_M(File::Exists(path), how);
          if (geteuid() != 0) CHECK_T(chmod(path.c_str(), 0600) == 0);
        }
        break; }
      case 3: case 4: {
        how += " read " + name;
        string out = "before";
        bool ok = File::ReadFileToString(path, &out);
        CHECK_EQM(ok, model.count(name) != 0, how);
        CHECK_M(out == (ok ? model[name] : string("before")), how << " got " << out.size() << " bytes");
        break; }
      case 5: {
        how += " delete " + name;
        CHECK_EQM(File::Delete(path), model.erase(name) != 0, how);
        break; }
      case 6: {
        how += " exists " + name;
        CHECK_EQM(File::Exists(path), model.count(name) != 0, how);
        CHECK_M(!File::Exists(sub) && !File::Exists(dir + "/none") && !File::Exists(""), how);
        break; }
      case 7: {
        how += " bad";
        string out = "before";
        CHECK_M(!File::ReadFileToString("", &out) && !File::ReadFileToString(dir + "/none", &out) && !File::ReadFileToString(path, NULL) && !File::ReadFileToString(sub, &out), how);
        CHECK_EQM(out, string("before"), how);
        CHECK_M(!File::WriteStringToFile("x", "") && !File::WriteStringToFile("x", sub) && !File::WriteStringToFile("x", dir + "/none/x"), how);
        CHECK_M(!File::Delete(dir + "/none") && !File::Delete("") && !File::Delete(dir + "/none/") && !File::Delete(path + "/") && !File::Delete(path + "/x"), how);
        CHECK_M(!File::Exists(path + "/") && !File::Exists(path + "/x") && !File::ReadFileToString(path + "/", &out), how);
        break; }
      case 8: {
        how += " temp";
        mode_t m = umask(022); umask(m);
        Temp t; t.p = TempFile::CreateTempFile();
        mode_t m2 = umask(022); umask(m2);
        CHECK_M(t.p && m == m2, how);
        string tn = t.p->name();
        CHECK_M(IsFile(tn) && Real(tn).empty(), how << " " << tn);
        CHECK_M(past.insert(tn).second || true, how);
        for (auto& o : temps) CHECK_M(o.p->name() != tn, how << " " << tn);
        t.content = Content(g);
        CHECK_M(File::WriteStringToFile(t.content, tn), how);
        temps.push_back(t);
        break; }
      case 9: if (!temps.empty()) {
        how += " drop";
        size_t k = g.draw(temps.size());
        string tn = temps[k].p->name();
        CHECK_M(Real(tn) == temps[k].content, how);
        if (g.draw(4) == 0) CHECK_M(File::Delete(tn), how);   // Already gone when dropped.
        TempFilePtr second = temps[k].p;
        temps.erase(temps.begin() + k);
        second = NULL;
        CHECK_M(!IsFile(tn), how << " " << tn);
        break; }
        break;
      default: {
        string out = g.flip() ? "" : g.flip() ? path : dir + "/none", was = out;
        how += " temppath";
        CHECK_M(!File::CreateNewTempFile(NULL), how);
        CHECK_M(File::CreateNewTempFile(&out) && IsFile(out) && out != was && Real(out).empty(), how << " " << out);
        if (g.flip()) {  // and another, into the same string
          was = out;
          CHECK_M(File::CreateNewTempFile(&out) && IsFile(out) && out != was && IsFile(was), how << " " << out);
          CHECK_M(File::Delete(was) && !IsFile(was), how);
        }
        CHECK_M(File::Delete(out) && !IsFile(out), how);
        break; }
    }
    // The directory is what it should be.
    std::set<string> want = {"sub"};
    for (auto& kv : model) want.insert(kv.first);
    CHECK_M(List(dir) == want, how);
    for (auto& t : temps) CHECK_M(IsFile(t.p->name()), how);
  }
  for (auto& kv : model) CHECK_M(Real(dir + "/" + kv.first) == kv.second, how << " content of " << kv.first);
  for (auto& t : temps) CHECK_M(Real(t.p->name()) == t.content, how);
  std::set<string> left; for (auto& t : temps) left.insert(t.p->name());
  temps.clear();
  for (auto& t : left) CHECK_M(!IsFile(t), how);
  for (const char* n : names) unlink((dir + "/" + n).c_str());
  if (writes) { g.nontrivial(how); g.sample(how); }
  if (rewrites) g.label("rewrite");
}
// Writes which fail part way.
void Fault(G& g) {
  string dir = g.scratch(), path = dir + "/limited";
  unlink(path.c_str());
  string c = Content(g);
  if (g.draw(4) == 0) {
    if (c.empty()) c = "x";
    CHECK_M(!File::WriteStringToFile(c, "/dev/full"), "/dev/full " << c.size());
    g.nontrivial(c.size());
    g.label("device full");
    return;
  }
  size_t lim = g.draw(3) ? g.draw(c.size() * 2 + 2) : c.size() + g.draw(3) - 1;
  if ((long)lim < 0) lim = 0;
  string how = std::to_string(c.size()) + " bytes, limit " + std::to_string(lim);
  g.note(how);
  struct rlimit old, now;
  getrlimit(RLIMIT_FSIZE, &old);
  now = old; now.rlim_cur = lim;
  void (*h)(int) = signal(SIGXFSZ, SIG_IGN);
  setrlimit(RLIMIT_FSIZE, &now);
  bool ok = File::WriteStringToFile(c, path);
  setrlimit(RLIMIT_FSIZE, &old);
  signal(SIGXFSZ, h);
  CHECK_EQM(ok, c.size() <= lim, how);
  if (ok) CHECK_M(Real(path) == c, how);
  unlink(path.c_str());
  if (c.size() > lim) g.label("short write");
  g.nontrivial(how);
  g.sample(how);
}
// Paths.
string Seg(G& g) {
  string s;
  for (size_t i = 0, n = 1 + g.draw(4); i < n; ++i) s += "ab.-_ c\xc3"[g.draw(8)];
  return s;
}
void Paths(G& g) {
  string dir = g.flip() ? "/" : "";
  size_t n = g.draw(4);
  for (size_t i = 0; i < n; ++i) dir += (i ? "/" : "") + Seg(g);
  string file = g.draw(8) ? Seg(g) : "";
  string full = dir;
  if (!full.empty() && full != "/") full += "/";
  full += file;
  g.note(full);
  // Join.
  string j = File::JoinPaths(dir, file);
  CHECK_EQM(j, file.empty() ? dir : full, "join " << dir << " + " << file);
  CHECK_EQM(File::JoinPaths(dir.empty() || dir == "/" ? dir : dir + "/", file), file.empty() ? (dir.empty() || dir == "/" ? dir : dir + "/") : full, "join with slash");
  CHECK_EQM(File::JoinPaths("", file), file, "join");
  CHECK_EQM(File::JoinPaths(dir, ""), dir, "join");
  // Split.
  string b = "x", f = "x";
  File::SplitFilePath(full, &b, &f);
  CHECK_EQM(f, file, "split " << full);
  CHECK_EQM(b, dir.empty() ? string(".") : dir, "split " << full);
  if (!dir.empty() && !file.empty()) CHECK_EQM(File::JoinPaths(b, f), full, "join of split " << full);
  string b2, f2;
  File::SplitFilePath(full, &b2, NULL);
  File::SplitFilePath(full, NULL, &f2);
  File::SplitFilePath(full, NULL, NULL);
  CHECK_M(b2 == b && f2 == f, full);
  if (n && !file.empty()) { g.nontrivial(full); g.sample(full); }
}
}  // namespace

int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "P33",
                   "a history with a write, a write with a size limit, a path with a directory and a file name",
                   {{"history", 4000, 300000, History, 0},
                    {"fault", 4000, 300000, Fault, 0},
                    {"paths", 60000, 5000000, Paths, 0}});
}
