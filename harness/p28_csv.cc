// CSV import against a model of rows and columns.
#include <math.h>
#include "kmlgen.h"
#include "kml/base/csv_splitter.h"
#include "kml/base/file.h"
#include "kml/base/string_util.h"
#include "kml/convenience/csv_file.h"
#include "kml/convenience/csv_parser.h"
#include "kml/convenience/feature_list.h"
#include "kml/dom.h"
using namespace kg;
using namespace kmldom;
using kmlconvenience::CsvParser;
using kmlconvenience::CsvParserStatus;
using kmlbase::StringVector;
using pbt::G;

namespace {
// Text of a cell: no line ends, no NUL.
string Cell(G& g) {
  static const char* parts[] = {"a", "b", "Z", "9", " ", "\"", ",", "#", "<b>", "&", "\xc3\xa9", "|", "'", ";", "\t", "]]>", "=", "-", "."};
  string s;
  size_t n = g.many(8, 400);
  for (size_t i = 0; i < n; ++i) s += parts[g.draw(19)];
  return s;
}
bool Blank(char c) { return c == ' ' || c == '\t' || c == '\v' || c == '\f'; }
string Pad(G& g) { static const char* p[] = {"", "", "", " ", "  ", "\t", " \t "}; return p[g.draw(7)]; }
// Written form of a cell.
string Write(G& g, const string& s) {
  bool must = s.find_first_of(",\"") != string::npos || (!s.empty() && (Blank(s[0]) || Blank(s[s.size() - 1])));
  if (must || g.draw(4) == 3) {
    string q = "\"";
    for (char c : s) { if (c == '"') q += '"'; q += c; }
    return Pad(g) + q + "\"" + Pad(g);
  }
  return Pad(g) + s + Pad(g);
}
string Case(G& g, string s) { for (auto& c : s) if (g.flip()) c = toupper(c); return s; }
string Number(G& g, double* v) {
  char b[40];
  switch (g.draw(4)) {
    case 0: snprintf(b, sizeof b, "%d", (int)g.range(-180, 180)); break;
    case 1: snprintf(b, sizeof b, "%.6f", g.real(-90, 90)); break;
    case 2: snprintf(b, sizeof b, "%s.%d", g.flip() ? "-" : "", (int)g.draw(1000)); break;
    default: snprintf(b, sizeof b, "%.15g", g.real(-180, 180)); break;
  }
  if (strchr(b, 'e')) snprintf(b, sizeof b, "0.5");
  *v = strtod(b, NULL);
  return b;
}
struct Line { int line; CsvParserStatus st; PlacemarkPtr p; };
class Keep : public kmlconvenience::CsvParserHandler {
 public:
  std::vector<Line> got;
  size_t stop;
  Keep() : stop((size_t)-1) {}
  virtual bool HandleLine(int line, CsvParserStatus st, PlacemarkPtr p) { got.push_back({line, st, p}); return got.size() != stop; }
};
string Eol(G& g) { static const char* e[] = {"\n", "\r\n", "\r", "\n\n", "\r\n\r\n"}; return e[g.draw(5)]; }
struct Want { CsvParserStatus st; double lat, lon; std::map<string, string> v; std::vector<std::pair<string, string> > data; };

void Import(G& g) {
  // The header.
  static const char* known[] = {"latitude", "longitude", "name", "description", "feature-id", "style-id"};
  std::vector<string> head = {"latitude", "longitude"};
  for (int i = 2; i < 6; ++i) if (g.flip()) head.push_back(known[i]);
  int extra = (int)g.draw(4);
  for (int i = 0; i < extra; ++i) {
    string s = g.draw(4) == 3 ? Cell(g) : GenPlain(g, 6);
    bool clash = false;
    for (auto k : known) if (kmlbase::StringCaseEqual(s, k)) clash = true;
    head.push_back(clash ? "x" : s);
  }
  int missing = g.draw(12) == 11 ? (int)g.range(1, 3) : 0;   // a header without a position
  for (size_t i = head.size(); i > 1; --i) std::swap(head[i - 1], head[g.draw(i)]);
  string csv;
  for (size_t i = 0; i < head.size(); ++i) {
    bool pos = head[i] == "latitude" || head[i] == "longitude";
    bool kn = false;
    for (auto k : known) if (head[i] == k) kn = true;
    string h = kn ? Case(g, head[i]) : head[i];
    if (pos && ((head[i] == "latitude" && (missing & 1)) || (head[i] == "longitude" && (missing & 2)))) h = "p" + head[i];
    csv += (i ? "," : "") + Write(g, h);
  }
  string how = csv;
  std::vector<Want> want;
  size_t rows = g.many(8, 150);
  for (size_t r = 0; r < rows; ++r) {
    csv += Eol(g);
    Want w;
    w.st = kmlconvenience::CSV_PARSER_STATUS_OK;
    std::vector<string> cells;
    for (size_t c = 0; c < head.size(); ++c) {
      string s;
      if (head[c] == "latitude") s = Number(g, &w.lat);
      else if (head[c] == "longitude") s = Number(g, &w.lon);
      else {
        s = Cell(g);
        if (g.draw(5) == 4) {  // something that looks like what the importer writes itself
          static const char* like[] = {"style-", "feature-", "style.kml", "style.kml#style-", "#style-", "#", "http://h/s.kml#", "feature-id", "Name", "-1", "0", "true", "x-"};
          s = like[g.draw(13)] + (g.flip() ? GenPlain(g, 4) : string());
        }
        if (c == 0 && !s.empty() && s[0] == '#') s = "x" + s;
        bool kn = false;
        for (auto k : known) if (head[c] == k) kn = true;
        if (kn) w.v[head[c]] = s; else w.data.push_back({head[c], s});
      }
      cells.push_back(s);
    }
    string line;
    switch (g.draw(8)) {
      case 7: {   // too many or too few columns
        w.st = kmlconvenience::CSV_PARSER_STATUS_INVALID_DATA;
        if (g.flip()) cells.push_back(g.flip() ? "" : "more"); else cells.resize(1 + g.draw(cells.size() - 1));
        if (cells.size() == 1 && cells[0].empty()) cells[0] = "x";
        break;
      }
      case 6: {   // no number
        static const char* bad[] = {"", "north", "-", ".", "-.", "+5", "e5", "--5", "\"", "N 45", ",5"};
        w.st = kmlconvenience::CSV_PARSER_STATUS_BAD_LAT_LON;
        string which = g.flip() ? "latitude" : "longitude";
        for (size_t c = 0; c < head.size(); ++c) if (head[c] == which) cells[c] = bad[g.draw(11)];
        break;
      }
      case 5: {   // a comment
        w.st = kmlconvenience::CSV_PARSER_STATUS_COMMENT;
        cells.resize(1 + g.draw(cells.size()));
        cells[0] = "#" + cells[0];
        break;
      }
      default: break;
    }
    for (size_t c = 0; c < cells.size(); ++c) line += (c ? "," : "") + Write(g, cells[c]);
    csv += line;
    want.push_back(w);
  }
  if (g.flip()) csv += Eol(g);
  g.note(csv);
  kmlbase::CsvSplitter splitter(csv);
  Keep keep;
  if (g.draw(6) == 5 && rows && !missing) keep.stop = 1 + g.draw(rows);
  bool ok = CsvParser::ParseCsv(&splitter, &keep);
  if (missing) {
    CHECK_M(!ok, csv);
    CHECK_M(keep.got.size() == 1 && keep.got[0].line == 1 && keep.got[0].st == kmlconvenience::CSV_PARSER_STATUS_NO_LAT_LON, csv);
    g.nontrivial(csv);
    return;
  }
  if (keep.stop != (size_t)-1) {
    CHECK_M(!ok, csv);
    CHECK_EQM(keep.got.size(), keep.stop, csv);
  } else {
    CHECK_M(ok, csv);
    CHECK_EQM(keep.got.size(), want.size(), csv);
  }
  for (size_t i = 0; i < keep.got.size(); ++i) {
    const Line& l = keep.got[i];
    const Want& w = want[i];
    string at = "row " + std::to_string(i) + " of " + csv;
    CHECK_EQM(l.line, (int)i + 2, at);
    CHECK_EQM((int)l.st, (int)w.st, at);
    CHECK_M(l.p, at);
    if (w.st != kmlconvenience::CSV_PARSER_STATUS_OK) continue;
    PointPtr pt = AsPoint(l.p->get_geometry());
    CHECK_M(pt && pt->has_coordinates() && pt->get_coordinates()->get_coordinates_array_size() == 1, at);
    kmlbase::Vec3 v = pt->get_coordinates()->get_coordinates_array_at(0);
    CHECK_M(DoubleClose(v.get_latitude(), w.lat) && DoubleClose(v.get_longitude(), w.lon), v.get_latitude() << "," << v.get_longitude() << " at " << at);
    CHECK_EQM(l.p->has_name(), w.v.count("name") > 0, at);
    if (w.v.count("name")) CHECK_EQM(l.p->get_name(), w.v.at("name"), at);
    CHECK_EQM(l.p->has_description(), w.v.count("description") > 0, at);
    if (w.v.count("description")) CHECK_EQM(l.p->get_description(), w.v.at("description"), at);
    bool fid = w.v.count("feature-id") && !w.v.at("feature-id").empty();
    CHECK_EQM(l.p->has_id(), fid, at);
    if (fid) CHECK_EQM(l.p->get_id(), "feature-" + w.v.at("feature-id"), at);
    bool sid = w.v.count("style-id") && !w.v.at("style-id").empty();
    CHECK_EQM(l.p->has_styleurl(), sid, at);
    if (sid) CHECK_EQM(l.p->get_styleurl(), "style.kml#style-" + w.v.at("style-id"), at);
    CHECK_EQM(l.p->has_extendeddata(), !w.data.empty(), at);
    if (!w.data.empty()) {
      ExtendedDataPtr e = l.p->get_extendeddata();
      CHECK_EQM(e->get_data_array_size(), w.data.size(), at);
      for (size_t k = 0; k < w.data.size(); ++k) {
        CHECK_EQM(e->get_data_array_at(k)->get_name(), w.data[k].first, at);
        CHECK_EQM(e->get_data_array_at(k)->get_value(), w.data[k].second, at);
      }
    }
  }
  if (want.size() > 1) { g.nontrivial(csv); g.sample(csv); }
}

// Lines, whatever the endings, once each.
void Lines(G& g) {
  string data;
  size_t n = g.many(30, 3000);
  for (size_t i = 0; i < n; ++i) { static const char* p[] = {"a", "bc", "\n", "\r", "\r\n", "x y", "\n\n"}; data += p[g.draw(7)]; }
  std::vector<string> want;
  // The first line is there even if empty; later ones are runs between line ends.
  string cur;
  bool first = true;
  for (size_t i = 0; i <= data.size(); ++i) {
    if (i == data.size() || data[i] == '\n' || data[i] == '\r') {
      if (first || !cur.empty()) want.push_back(cur);
      first = false;
      cur.clear();
    } else cur += data[i];
  }
  g.note(pbt::Show(data));
  kmlbase::CsvSplitter s(data);
  std::vector<string> got;
  StringVector cols;
  bool discard = false;
  while (s.SplitCurrentLine(&cols)) {
    CHECK_M(cols.size() <= 1, data);
    got.push_back(cols.empty() ? "" : cols[0]);
    cols.clear();
    CHECK_M(got.size() <= data.size() + 1, "endless " << pbt::Show(data));
  }
  CHECK_EQM(got.size(), want.size(), pbt::Show(data));
  for (size_t i = 0; i < got.size(); ++i) CHECK_EQM(got[i], want[i], "line " << i << " of " << pbt::Show(data));
  CHECK_T(!s.SplitCurrentLine(&cols));
  kmlbase::CsvSplitter t(data);
  size_t count = 0;
  while (t.SplitCurrentLine(NULL)) CHECK_T(++count <= data.size() + 1);
  CHECK_EQM(count, want.size(), pbt::Show(data));
  if (want.size() > 1) { g.nontrivial(data); g.sample(pbt::Show(data)); }
}

// The older column file: score|lat|lon|name|description[|style].
void Pipe(G& g) {
  string dir = g.scratch(), data;
  struct W { int score; double lat, lon; string name, desc, style; };
  std::vector<W> want;
  size_t rows = g.many(8, 150);
  bool crlf = g.draw(3) == 2;
  for (size_t i = 0; i < rows; ++i) {
    string eol = crlf ? "\r\n" : "\n";
    switch (g.draw(7)) {
      case 6: {   // no position
        static const char* bad[] = {"", "latitude", "-", ".", "-.", "+5", "e5", "--5", "N 45"};
        double x;
        string la = Number(g, &x), lo = Number(g, &x);
        (g.flip() ? la : lo) = bad[g.draw(9)];
        data += "7|" + la + "|" + lo + "|name|description" + (g.flip() ? "|style.kml#s" : "") + eol;
        break;
      }
      case 5: data += eol; break;
      case 4: data += (g.flip() ? "1|2|3|too few" : "header") + eol; break;
      default: {
        W w;
        w.score = (int)g.range(-50, 100);
        string la = Number(g, &w.lat), lo = Number(g, &w.lon);
        w.name = GenPlain(g, 6) + (g.flip() ? " \"q\", <x>" : "");
        w.desc = g.draw(5) == 4 ? "" : GenPlain(g, 6) + (g.flip() ? " & more, \"quoted\"" : "");
        if (g.flip()) w.style = "style.kml#" + GenPlain(g, 4);
        data += std::to_string(w.score) + "|" + la + "|" + lo + "|" + w.name + "|" + w.desc + (w.style.empty() ? "" : "|" + w.style) + eol;
        want.push_back(w);
      }
    }
  }
  if (!data.empty() && g.flip()) data.erase(data.size() - 1);
  g.note(data);
  CHECK_T(kmlbase::File::WriteStringToFile(data, dir + "/in.csv"));
  kmlconvenience::FeatureList list;
  kmlconvenience::CsvFile file(&list);
  file.ParseCsvFile((dir + "/in.csv").c_str());
  FolderPtr f = KmlFactory::GetFactory()->CreateFolder();
  CHECK_EQM(list.Save(f), want.size(), data);
  for (size_t i = 0; i < want.size(); ++i) {
    PlacemarkPtr p = AsPlacemark(f->get_feature_array_at(i));
    CHECK_M(p, data);
    const W& w = want[i];
    CHECK_EQM(p->get_name(), w.name, data);
    CHECK_EQM(p->get_description(), w.desc, data);
    CHECK_EQM(p->has_styleurl(), !w.style.empty(), data);
    CHECK_EQM(p->get_styleurl(), w.style, data);
    CHECK_EQM(kmlconvenience::GetFeatureScore(p), w.score, data);
    kmlbase::Vec3 v = AsPoint(p->get_geometry())->get_coordinates()->get_coordinates_array_at(0);
    CHECK_M(DoubleClose(v.get_latitude(), w.lat) && DoubleClose(v.get_longitude(), w.lon), data);
  }
  if (want.size() > 1) { g.nontrivial(data); g.sample(data); }
}

// Any bytes: one report per line, nothing worse.
void Fuzz(G& g) {
  string data;
  if (g.flip()) data = "latitude,longitude,name\n";
  size_t n = g.size(40);
  for (size_t i = 0; i < n; ++i) {
    static const char* p[] = {"\"", ",", "\n", "\r", " ", "1", "-", ".", "name", "latitude", "longitude", "#", "\"\"", "description", "style-id"};
    if (g.draw(6) == 5) data += (char)g.draw(256); else data += p[g.draw(15)];
  }
  g.note(pbt::Show(data));
  // An exact heap copy makes any read past the end visible.
  size_t lines = 0;
  { kmlbase::CsvSplitter c(data); while (c.SplitCurrentLine(NULL)) ++lines; }
  kmlbase::CsvSplitter s(data);
  Keep keep;
  bool ok = CsvParser::ParseCsv(&s, &keep);
  if (ok) CHECK_EQM(keep.got.size(), lines - 1, pbt::Show(data));
  else CHECK_M(keep.got.size() == 1, pbt::Show(data));
  for (auto& l : keep.got) CHECK_EQM(l.st == kmlconvenience::CSV_PARSER_STATUS_OK, l.p && l.p->has_geometry(), pbt::Show(data));
  char* exact = (char*)malloc(data.size() ? data.size() : 1);
  memcpy(exact, data.data(), data.size());
  StringVector cols;
  kmlbase::SplitQuotedUsing(exact, data.size(), ',', &cols);
  free(exact);
  CHECK_T(!CsvParser::ParseCsv(NULL, &keep));
  CHECK_T(!CsvParser::ParseCsv(&s, NULL));
  g.nontrivial(data);
  if (keep.got.size() > 2) g.sample(pbt::Show(data));
}
}  // namespace

int main(int argc, char** argv) {
  std::vector<pbt::Facet> f = {
    {"import", 150000, 2000000, Import, 0},
    {"lines", 100000, 1000000, Lines, 0},
    {"pipe", 40000, 400000, Pipe, 0},
    {"fuzz", 150000, 2000000, Fuzz, 0},
  };
  return pbt::Main(argc, argv, "P28", "import/pipe/lines: more than one row; fuzz: any; distinct by input text", f);
}
