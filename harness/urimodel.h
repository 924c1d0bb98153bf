// RFC 3986: a reference by its parts, and the reference resolution algorithm.
#ifndef VERIF_URIMODEL_H
#define VERIF_URIMODEL_H
#include <string>
namespace um {
using std::string;
// A URI reference by its parts (RFC 3986 appendix B view).
struct U {
  bool has_scheme, has_auth, has_query, has_frag;
  string scheme, user, host, port, path, query, frag;
  bool has_user, has_port;
  U() : has_scheme(false), has_auth(false), has_query(false), has_frag(false), has_user(false), has_port(false) {}
  string auth() const { return (has_user ? user + "@" : "") + host + (has_port ? ":" + port : ""); }
  string nofrag() const { return (has_scheme ? scheme + ":" : "") + (has_auth ? "//" + auth() : "") + path + (has_query ? "?" + query : ""); }
  string str() const { return nofrag() + (has_frag ? "#" + frag : ""); }
};
inline string RemoveDots(string in) {
  string out;
  while (!in.empty()) {
    if (in.compare(0, 3, "../") == 0) in.erase(0, 3);
    else if (in.compare(0, 2, "./") == 0) in.erase(0, 2);
    else if (in.compare(0, 3, "/./") == 0) in.erase(0, 2);
    else if (in == "/.") in = "/";
    else if (in.compare(0, 4, "/../") == 0 || in == "/..") {
      in = in == "/.." ? "/" : in.substr(3);
      size_t p = out.rfind('/');
      out.erase(p == string::npos ? 0 : p);
    } else if (in == "." || in == "..") in.clear();
    else {
      size_t p = in.find('/', 1);
      out += in.substr(0, p);
      in = p == string::npos ? "" : in.substr(p);
    }
  }
  return out;
}
inline U Resolve(const U& b, const U& r) {
  U t;
  auto auth = [](U* t, const U& f) { t->has_auth = f.has_auth; t->user = f.user; t->host = f.host; t->port = f.port; t->has_user = f.has_user; t->has_port = f.has_port; };
  auto query = [](U* t, const U& f) { t->has_query = f.has_query; t->query = f.query; };
  if (r.has_scheme) {
    t.scheme = r.scheme; auth(&t, r); t.path = RemoveDots(r.path); query(&t, r);
  } else {
    if (r.has_auth) { auth(&t, r); t.path = RemoveDots(r.path); query(&t, r); }
    else {
      if (r.path.empty()) { t.path = b.path; if (r.has_query) query(&t, r); else query(&t, b); }
      else {
        if (r.path[0] == '/') t.path = RemoveDots(r.path);
        else {
          string m;
          if (b.has_auth && b.path.empty()) m = "/" + r.path;
          else { size_t p = b.path.rfind('/'); m = (p == string::npos ? "" : b.path.substr(0, p + 1)) + r.path; }
          t.path = RemoveDots(m);
        }
        query(&t, r);
      }
      auth(&t, b);
    }
    t.scheme = b.scheme;
  }
  t.has_scheme = true;
  t.has_frag = r.has_frag; t.frag = r.frag;
  return t;
}

// Splits a text by the regular expression of appendix B (authority kept whole in host).
inline U Split(string s) {
  U u;
  size_t p = s.find('#');
  if (p != string::npos) { u.has_frag = true; u.frag = s.substr(p + 1); s.resize(p); }
  p = s.find('?');
  if (p != string::npos) { u.has_query = true; u.query = s.substr(p + 1); s.resize(p); }
  p = s.find_first_of(":/");
  if (p != string::npos && p && s[p] == ':') { u.has_scheme = true; u.scheme = s.substr(0, p); s.erase(0, p + 1); }
  if (s.compare(0, 2, "//") == 0) { u.has_auth = true; p = s.find('/', 2); u.host = s.substr(2, p == string::npos ? p : p - 2); s = p == string::npos ? "" : s.substr(p); }
  u.path = s;
  return u;
}
}  // namespace um
#endif
