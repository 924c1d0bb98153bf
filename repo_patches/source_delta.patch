From 40e4d90c70bacfef25afb9191e967e3fd7493da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:57 +0000
Subject: [PATCH 01/92] fix: escape markup characters in serialized attribute
 values

---
 src/kml/base/attributes.cc  | 12 +++++++++++-
 src/kml/base/string_util.cc | 30 ++++++++++++++++++++++++++++++
 src/kml/base/string_util.h  |  5 +++++
 3 files changed, 46 insertions(+), 1 deletion(-)

diff --git a/src/kml/base/attributes.cc b/src/kml/base/attributes.cc
index 5cc8508..207723e 100644
--- a/src/kml/base/attributes.cc
+++ b/src/kml/base/attributes.cc
@@ -78,7 +78,17 @@ void Attributes::Serialize(string* output) const {
       *output += " ";
       *output += iter.Data().first;
       *output += "=\"";
-      *output += iter.Data().second;
+      // An XML parser turns literal white space in an attribute into spaces.
+      const string value = EscapeXml(iter.Data().second);
+      for (size_t i = 0; i < value.size(); ++i) {
+        if (value[i] == '\n') {
+          *output += "&#10;";
+        } else if (value[i] == '\t') {
+          *output += "&#9;";
+        } else {
+          *output += value[i];
+        }
+      }
       *output += "\"";
     }
   }
diff --git a/src/kml/base/string_util.cc b/src/kml/base/string_util.cc
index a865922..2376c47 100644
--- a/src/kml/base/string_util.cc
+++ b/src/kml/base/string_util.cc
@@ -60,6 +60,36 @@ string CreateExpandedStrings(const string& in,
   return out;
 }
 
+string EscapeXml(const string& text) {
+  string out;
+  out.reserve(text.size());
+  for (size_t i = 0; i < text.size(); ++i) {
+    switch (text[i]) {
+      case '&':
+        out += "&amp;";
+        break;
+      case '<':
+        out += "&lt;";
+        break;
+      case '>':
+        out += "&gt;";
+        break;
+      case '\'':
+        out += "&apos;";
+        break;
+      case '"':
+        out += "&quot;";
+        break;
+      case '\r':  // An XML parser turns a literal carriage return into newline.
+        out += "&#13;";
+        break;
+      default:
+        out += text[i];
+    }
+  }
+  return out;
+}
+
 void SplitStringUsing(const string& input, const string& split_string,
                       std::vector<string>* output) {
   string iter = input;
diff --git a/src/kml/base/string_util.h b/src/kml/base/string_util.h
index 307d82b..85e16dd 100644
--- a/src/kml/base/string_util.h
+++ b/src/kml/base/string_util.h
@@ -83,6 +83,11 @@ string CreateExpandedStrings(const string& in,
                              const string& start,
                              const string& end);
 
+// Returns the given text with each character which cannot appear literally in
+// XML character data or in a quoted XML attribute value replaced with the
+// equivalent entity or character reference.
+string EscapeXml(const string& text);
+
 // This converts from string to any T of int, bool or double.
 template<typename T>
 void FromString(const string& in, T* out);
-- 
2.43.0


From e2a521ee79daa3539e3235f5b0ef88fa42a225ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:12 +0000
Subject: [PATCH 02/92] fix: escape text containing CDATA markers or carriage
 returns correctly

---
 src/kml/dom/serializer.cc | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/kml/dom/serializer.cc b/src/kml/dom/serializer.cc
index ab25bae..e94af5f 100644
--- a/src/kml/dom/serializer.cc
+++ b/src/kml/dom/serializer.cc
@@ -36,16 +36,6 @@ using kmlbase::ToString;
 
 namespace kmldom {
 
-static string EnityEscapeXml(const string& xml) {
-  kmlbase::StringMap map;
-  map["&"] = "&amp;";
-  map["<"] = "&lt;";
-  map[">"] = "&gt;";
-  map["'"] = "&apos;";
-  map["\""] = "&quot;";
-  return kmlbase::CreateExpandedStrings(xml, map, "", "");
-}
-
 Serializer::Serializer() : xsd_(*Xsd::GetSchema()) {
 }
 
@@ -58,7 +48,13 @@ const string Serializer::MaybeQuoteString(const string& value) {
   // the API (since the underlying XML parser will strip it out). We need to
   // entity-replace any reserved characters.
   if (value.find("<![CDATA[") != string::npos) {
-    return EnityEscapeXml(value);
+    return kmlbase::EscapeXml(value);
+  }
+
+  // The CDATA end marker cannot appear within a CDATA section, and neither can
+  // a carriage return be kept as such there.
+  if (value.find("]]>") != string::npos || value.find('\r') != string::npos) {
+    return kmlbase::EscapeXml(value);
   }
   // If the string contains any reserved characters (but does not have any
   // raw CDATA as checked above), wrap it in CDATA.
-- 
2.43.0


From 056513a495a91f1db794020e0cca57d3c4e933b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:14 +0000
Subject: [PATCH 03/92] fix: keep text and attributes of unknown elements
 well-formed

Text and attribute values inside an unknown element were copied unescaped
into the preserved XML, so a read-write cycle produced malformed output.
---
 src/kml/dom/kml_handler.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/kml/dom/kml_handler.cc b/src/kml/dom/kml_handler.cc
index 08e8625..49383c6 100644
--- a/src/kml/dom/kml_handler.cc
+++ b/src/kml/dom/kml_handler.cc
@@ -327,7 +327,14 @@ bool KmlHandler::CallAddChildObservers(
 // <Placemark><Point>foo<coordinates/>bar</Point></Placemark> becomes:
 // <Placemark><Point><coordinates/></Point></Placemark>
 // <X><Point>foo<coordinates/>bar</Point></P> remains as-is.
+// Expat hands out unescaped text. The text of an unknown element is kept (and
+// later emitted) as raw XML, hence is escaped again. The content of
+// <description> is character data even if it holds un-CDATA'd markup.
 void KmlHandler::CharData(const string& s) {
+  if (skip_depth_ > 0 && in_description_ == 0) {
+    char_data_.top().append(kmlbase::EscapeXml(s));
+    return;
+  }
   char_data_.top().append(s);
 }
 
@@ -355,7 +362,7 @@ void KmlHandler::InsertUnknownStartElement(const string& name,
     top.append(" ");
     top.append(atts.at(i));
     top.append("=\"");
-    top.append(atts.at(i+1));
+    top.append(kmlbase::EscapeXml(atts.at(i+1)));
     top.append("\"");
   }
   top.append(">");
-- 
2.43.0


From 3564b30d0559bb649efa85cb3a54bcbc2be9626f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:28 +0000
Subject: [PATCH 04/92] fix: ignore the end of a description inside an unknown
 element

in_description_ wrapped around, and a later <description> was then closed
wrongly.
---
 src/kml/dom/kml_handler.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kml/dom/kml_handler.cc b/src/kml/dom/kml_handler.cc
index 49383c6..1845ec6 100644
--- a/src/kml/dom/kml_handler.cc
+++ b/src/kml/dom/kml_handler.cc
@@ -210,7 +210,8 @@ void KmlHandler::EndElement(const string& name) {
   // inside <description> elements. Here we are checking to see if (1) we're
   // inside a closing </description> element and (2) if we're at the end of any
   // possible series of nested description elements.
-  if (name.length() == 11 && name == "description" && --in_description_ == 0) {
+  if (in_description_ > 0 && name.length() == 11 && name == "description" &&
+      --in_description_ == 0) {
     skip_depth_--;
   }
 
-- 
2.43.0


From f36adad6bdaf98dfb6e0456e77c3328a066b8589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:05 +0000
Subject: [PATCH 05/92] fix: parse coordinate text as documented

Tuples separated by tabs or bare line breaks were merged, altitudes with
whitespace before their comma were dropped, text without any digit looped
forever and a long token overflowed a stack buffer.
---
 src/kml/dom/geometry.cc | 142 ++++++++++++++++++++--------------------
 1 file changed, 71 insertions(+), 71 deletions(-)

diff --git a/src/kml/dom/geometry.cc b/src/kml/dom/geometry.cc
index ed43273..6fe814a 100644
--- a/src/kml/dom/geometry.cc
+++ b/src/kml/dom/geometry.cc
@@ -52,6 +52,49 @@ Coordinates::Coordinates() {
 
 Coordinates::~Coordinates() {}
 
+// True if a number starts at the given char.
+static bool IsNumberStart(const char* cstr) {
+  if (*cstr == '-') {
+    ++cstr;
+  }
+  if (*cstr == '.') {
+    ++cstr;
+  }
+  return isdigit(static_cast<unsigned char>(*cstr)) != 0;
+}
+
+// Skips to the start of the next number, but not past any char in stop.
+static const char* SkipToNumber(const char* cstr, const char* stop) {
+  while (*cstr && !IsNumberStart(cstr) && !strchr(stop, *cstr)) {
+    ++cstr;
+  }
+  return cstr;
+}
+
+static const char* SkipSpace(const char* cstr) {
+  while (isspace(static_cast<unsigned char>(*cstr))) {
+    ++cstr;
+  }
+  return cstr;
+}
+
+// If the next thing is a comma skip it and any whitespace around it, else
+// skip nothing.
+static const char* SkipComma(const char* cstr) {
+  const char* comma = SkipSpace(cstr);
+  return *comma == ',' ? SkipSpace(comma + 1) : cstr;
+}
+
+// Converts everything up to the next comma or whitespace.
+static const char* ParseNumber(const char* cstr, double* number) {
+  const char* first = cstr;
+  while (*cstr && *cstr != ',' && !isspace(static_cast<unsigned char>(*cstr))) {
+    ++cstr;
+  }
+  kmlbase::StringToDouble(string(first, cstr - first), number);
+  return cstr;
+}
+
 // This parses off a Vec3 from the given string and returns a pointer
 // to the end of chars consumed.  The purpose is for use in the inner loop
 // of the overall parse of a <coordinates> string.  This handles both 2d and
@@ -81,83 +124,40 @@ Coordinates::~Coordinates() {}
 // like this: "1.1*2.2,3,3" will become "1.1,3.3,0.0". This precisely matches
 // the precent for parsing of bad coordinate strings set by Google Earth.
 bool Coordinates::ParseVec3(const char* cstr, char** nextp, Vec3* vec) {
-  
   if (!cstr || !vec) {  // Not much to do w/o input or output.
     return false;
   }
-  bool done = false;
-  
-  int k;
-  char lon[1024];
-  k = 0;
-  while(*cstr && *cstr!='-' && !isdigit(*cstr)) { ++cstr; }
-  const char *first = cstr;
-  
-  while (*cstr && *cstr!=' ' && *cstr!='\n' && *cstr!=',') { ++cstr; ++k; }
-  
-  memcpy(lon, first, k);
-  lon[k] = '\0'; 
-  string lon_s = string(lon);
-  if( lon_s.empty()) { done = false; return done; }
-  
-  double longitude; 
-  kmlbase::StringToDouble(lon_s, &longitude);
-  vec->set(0, longitude);
-  
-  
-  while(*cstr && *cstr!='-' && *cstr!='\n' && !isdigit(*cstr)) { ++cstr; ++k; }
-  
-  char lat[1024];
-  first = cstr;
-  k = 0;
-  int b = 0;
-  while (*cstr  && *cstr!=',') {
-    if( *cstr==' ') {
-      b = 1;  
-      break;
+
+  cstr = SkipToNumber(cstr, "");
+  bool done = *cstr != '\0';
+  if (done) {
+    double longitude = 0.0;
+    cstr = ParseNumber(cstr, &longitude);
+    vec->set(0, longitude);
+
+    double latitude = 0.0;
+    cstr = SkipToNumber(SkipComma(cstr), "\n");
+    if (IsNumberStart(cstr)) {
+      cstr = ParseNumber(cstr, &latitude);
     }
-    ++cstr;  ++k;
-  }
-  memcpy(lat, first, k);
-  lat[k] = '\0';
-  done = true;
-  
-  string lat_s = string(lat);
-  double latitude = 0.0;
-  if( !lat_s.empty())
-    kmlbase::StringToDouble(lat_s, &latitude);
-  
-  vec->set(1, latitude);
-  
-  
-  while(*cstr && *cstr!='-'&& !isdigit(*cstr)) { ++cstr; ++k; }
-  
-  if ( b < 1) {
-    char alt[1024];
-    first = cstr;
-    k = 0;
-    while (*cstr && *cstr!=',') {
-      if( *cstr==' ') {
-	b = 1;  
-	break;
+    vec->set(1, latitude);
+
+    // There is an altitude only if there's a comma after the latitude.
+    const char* after_comma = SkipComma(cstr);
+    if (after_comma != cstr) {
+      cstr = SkipToNumber(after_comma, " \t\r\n");
+      if (IsNumberStart(cstr)) {
+        double altitude = 0.0;
+        cstr = ParseNumber(cstr, &altitude);
+        vec->set(2, altitude);
       }
-      ++cstr;  ++k;
-    }
-    memcpy(alt, first, k); 
-    alt[k] = '\0';
-    
-    string alt_s = string(alt);
-    double altitude;
-    if( !alt_s.empty() ) {
-      kmlbase::StringToDouble(alt_s, &altitude);
-      vec->set(2, altitude);
     }
+    cstr = SkipToNumber(cstr, "");
+  }
+
+  if (nextp) {
+    *nextp = const_cast<char*>(cstr);
   }
-  
-  while(*cstr && *cstr!='-' && !isdigit(*cstr)) ++cstr;
-  
-  *nextp = const_cast<char*>(cstr);
-  
   return done;
 }
 
@@ -167,7 +167,7 @@ void Coordinates::Parse(const string& char_data) {
   const char* cstr = char_data.c_str();
   const char* endp = cstr + char_data.size();
   char* next = const_cast<char*>(cstr);
-  while (next != endp) {
+  while (next < endp && *next) {
     Vec3 vec;
     if (ParseVec3(next, &next, &vec)) {
       coordinates_array_.push_back(vec);
-- 
2.43.0


From 2d3274253b37ec600f48db86483ba05f57161441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:06 +0000
Subject: [PATCH 06/92] fix: serialize the name of an xal:Locality

---
 src/kml/dom/xal.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kml/dom/xal.cc b/src/kml/dom/xal.cc
index 08f597e..cc8ea07 100644
--- a/src/kml/dom/xal.cc
+++ b/src/kml/dom/xal.cc
@@ -164,6 +164,9 @@ void XalLocality::AddElement(const ElementPtr& element) {
 
 void XalLocality::Serialize(Serializer& serializer) const {
   ElementSerializer element_serializer(*this, serializer);
+  if (has_localityname()) {
+    serializer.SaveFieldById(Type_xalLocalityName, get_localityname());
+  }
   if (has_thoroughfare()) {
     serializer.SaveElement(get_thoroughfare());
   }
-- 
2.43.0


From 34cc051ada906fb7f55f2d232e8d0a21db3de111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:10 +0000
Subject: [PATCH 07/92] fix: make a gx:Playlist the parent of the primitives
 added to it

add_gx_tourprimitive bypassed AddComplexChild, so the same primitive (or
none at all) could be added to any number of playlists.
---
 src/kml/dom/gx_tour.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/dom/gx_tour.cc b/src/kml/dom/gx_tour.cc
index 0322aa5..e1c9cf4 100644
--- a/src/kml/dom/gx_tour.cc
+++ b/src/kml/dom/gx_tour.cc
@@ -83,7 +83,7 @@ GxPlaylist::~GxPlaylist() {}
 
 void GxPlaylist::add_gx_tourprimitive(
     const GxTourPrimitivePtr& gx_tourprimitive) {
-  gx_tourprimitive_array_.push_back(gx_tourprimitive);
+  AddComplexChild(gx_tourprimitive, &gx_tourprimitive_array_);
 }
 
 size_t GxPlaylist::get_gx_tourprimitive_array_size() const {
-- 
2.43.0


From 3cb55a3ce7b0b112fad1992b0a2622c60d17512e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:41 +0000
Subject: [PATCH 08/92] fix: unwrap CDATA in an href only if it is closed

An href starting with a CDATA opener but not ending with its closer lost
its last characters, or all of its text.
---
 src/kml/dom/link.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/kml/dom/link.cc b/src/kml/dom/link.cc
index 0aea457..2c2bc78 100644
--- a/src/kml/dom/link.cc
+++ b/src/kml/dom/link.cc
@@ -42,6 +42,7 @@ BasicLink::~BasicLink() {
 
 // TODO: fix CDATA parsing in general.
 static const char *kCdataOpen = "<![CDATA[";
+static const char *kCdataClose = "]]>";
 
 static bool SetStringInsideCdata(ElementPtr element,
                                  const string& char_data,
@@ -50,8 +51,11 @@ static bool SetStringInsideCdata(ElementPtr element,
     return false;
   }
   string::size_type offset = strlen(kCdataOpen);
-  if (char_data.compare(0, offset, kCdataOpen, offset) == 0) {
-    *val = char_data.substr(offset, char_data.size() - offset - 3);
+  string::size_type tail = strlen(kCdataClose);
+  if (char_data.size() >= offset + tail &&
+      char_data.compare(0, offset, kCdataOpen, offset) == 0 &&
+      char_data.compare(char_data.size() - tail, tail, kCdataClose) == 0) {
+    *val = char_data.substr(offset, char_data.size() - offset - tail);
     return true;
   }
   return element->SetString(val);
-- 
2.43.0


From 4262847a7417de73e11236c2b4ac6d4e026780ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:37 +0000
Subject: [PATCH 09/92] fix: keep newlines and tabs in attributes of unknown
 elements

---
 src/kml/base/attributes.cc  | 12 +-----------
 src/kml/base/string_util.cc | 16 ++++++++++++++++
 src/kml/base/string_util.h  |  3 +++
 src/kml/dom/kml_handler.cc  |  2 +-
 4 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/kml/base/attributes.cc b/src/kml/base/attributes.cc
index 207723e..f808b2b 100644
--- a/src/kml/base/attributes.cc
+++ b/src/kml/base/attributes.cc
@@ -78,17 +78,7 @@ void Attributes::Serialize(string* output) const {
       *output += " ";
       *output += iter.Data().first;
       *output += "=\"";
-      // An XML parser turns literal white space in an attribute into spaces.
-      const string value = EscapeXml(iter.Data().second);
-      for (size_t i = 0; i < value.size(); ++i) {
-        if (value[i] == '\n') {
-          *output += "&#10;";
-        } else if (value[i] == '\t') {
-          *output += "&#9;";
-        } else {
-          *output += value[i];
-        }
-      }
+      *output += EscapeXmlAttribute(iter.Data().second);
       *output += "\"";
     }
   }
diff --git a/src/kml/base/string_util.cc b/src/kml/base/string_util.cc
index 2376c47..d644e33 100644
--- a/src/kml/base/string_util.cc
+++ b/src/kml/base/string_util.cc
@@ -90,6 +90,22 @@ string EscapeXml(const string& text) {
   return out;
 }
 
+string EscapeXmlAttribute(const string& value) {
+  const string escaped = EscapeXml(value);
+  string out;
+  for (size_t i = 0; i < escaped.size(); ++i) {
+    // An XML parser turns literal white space in an attribute into spaces.
+    if (escaped[i] == '\n') {
+      out += "&#10;";
+    } else if (escaped[i] == '\t') {
+      out += "&#9;";
+    } else {
+      out += escaped[i];
+    }
+  }
+  return out;
+}
+
 void SplitStringUsing(const string& input, const string& split_string,
                       std::vector<string>* output) {
   string iter = input;
diff --git a/src/kml/base/string_util.h b/src/kml/base/string_util.h
index 85e16dd..b823763 100644
--- a/src/kml/base/string_util.h
+++ b/src/kml/base/string_util.h
@@ -88,6 +88,9 @@ string CreateExpandedStrings(const string& in,
 // equivalent entity or character reference.
 string EscapeXml(const string& text);
 
+// As EscapeXml(), but also keeps newlines and tabs in an attribute value.
+string EscapeXmlAttribute(const string& value);
+
 // This converts from string to any T of int, bool or double.
 template<typename T>
 void FromString(const string& in, T* out);
diff --git a/src/kml/dom/kml_handler.cc b/src/kml/dom/kml_handler.cc
index 1845ec6..ef0ca28 100644
--- a/src/kml/dom/kml_handler.cc
+++ b/src/kml/dom/kml_handler.cc
@@ -363,7 +363,7 @@ void KmlHandler::InsertUnknownStartElement(const string& name,
     top.append(" ");
     top.append(atts.at(i));
     top.append("=\"");
-    top.append(kmlbase::EscapeXml(atts.at(i+1)));
+    top.append(kmlbase::EscapeXmlAttribute(atts.at(i+1)));
     top.append("\"");
   }
   top.append(">");
-- 
2.43.0


From 117215073d0ffd24b234325b86180d5154f1aaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:45 +0000
Subject: [PATCH 10/92] fix: let ParseAtom stop on an unknown root element

The handler wrapped by ExpatHandlerNs was never given the parser and passed
an uninitialized one to XML_StopParser.
---
 src/kml/base/expat_handler.h     | 1 +
 src/kml/base/expat_handler_ns.cc | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/kml/base/expat_handler.h b/src/kml/base/expat_handler.h
index da7c026..41f9953 100644
--- a/src/kml/base/expat_handler.h
+++ b/src/kml/base/expat_handler.h
@@ -36,6 +36,7 @@ class Attributes;
 // This declares the pure virtual ExpatHandler interface.
 class ExpatHandler {
 public:
+  ExpatHandler() : parser_(NULL) {}
   virtual ~ExpatHandler() {}
   virtual void StartElement(const string& name,
                             const StringVector& atts) = 0;
diff --git a/src/kml/base/expat_handler_ns.cc b/src/kml/base/expat_handler_ns.cc
index 3ad0b93..26fbc80 100644
--- a/src/kml/base/expat_handler_ns.cc
+++ b/src/kml/base/expat_handler_ns.cc
@@ -59,6 +59,8 @@ const string ExpatHandlerNs::TranslatePrefixedName(
 
 void ExpatHandlerNs::StartElement(const string& prefixed_name,
                                   const kmlbase::StringVector& atts) {
+  // The wrapped handler needs the parser to be able to stop the parse.
+  expat_handler_->set_parser(get_parser());
   expat_handler_->StartElement(TranslatePrefixedName(prefixed_name), atts);
 }
 
-- 
2.43.0


From 9ec992a14d9571229bf57648b3fe79413d96de60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:11 +0000
Subject: [PATCH 11/92] fix: clone a simple element that has no parent

---
 src/kml/engine/clone.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kml/engine/clone.cc b/src/kml/engine/clone.cc
index 91069e9..f3c2442 100644
--- a/src/kml/engine/clone.cc
+++ b/src/kml/engine/clone.cc
@@ -97,6 +97,10 @@ class ElementReplicator : public kmldom::Serializer {
     KmlDomType id = static_cast<KmlDomType>(type_id);
     ElementPtr clone = KmlFactory::GetFactory()->CreateFieldById(id);
     clone->set_char_data(value);
+    if (clone_stack_.empty()) {  // The element being cloned is itself a field.
+      clone_stack_.push(clone);
+      return;
+    }
     clone_stack_.top()->AddElement(clone);
   }
 
-- 
2.43.0


From 796eedf7a0f8cc55582adb5175afb92a152f4447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:54 +0000
Subject: [PATCH 12/92] fix: clone text into the element it belongs to

Text of a SimpleData or Snippet with element children went to the first of
these, which then became a child of itself.
---
 src/kml/engine/clone.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/kml/engine/clone.cc b/src/kml/engine/clone.cc
index f3c2442..2738782 100644
--- a/src/kml/engine/clone.cc
+++ b/src/kml/engine/clone.cc
@@ -63,6 +63,7 @@ class ElementReplicator : public kmldom::Serializer {
     ElementPtr clone = KmlFactory::GetFactory()->CreateElementById(id);
     clone->ParseAttributes(attributes.Clone());
     clone_stack_.push(clone);
+    char_data_.push(string());
   }
 
   // Serializer::End() is called at the end of a complex element.
@@ -73,9 +74,10 @@ class ElementReplicator : public kmldom::Serializer {
     // those complex elements which have character data.
     // TODO: refactor the special-casing in KmlHandler::EndElement() such that
     // it can be used from here.  Using child->AddElement(child) is dangerous.
-    if (!char_data_.empty()) {
-      child->set_char_data(char_data_);
-      char_data_.clear();
+    string char_data = char_data_.top();
+    char_data_.pop();
+    if (!char_data.empty()) {
+      child->set_char_data(char_data);
       // NOTE: This very much expects this to mean "parse yourself".  If
       // this falls through to Element::AddChild() this will make the element
       // a child of itself by putting itself in the misplaced elements array.
@@ -130,8 +132,8 @@ class ElementReplicator : public kmldom::Serializer {
       if (clone_stack_.size() > 0) {
         clone_stack_.top()->AddUnknownElement(content);
       }
-    } else {
-      char_data_.append(content);
+    } else if (!char_data_.empty()) {
+      char_data_.top().append(content);
     }
   }
 
@@ -158,7 +160,8 @@ class ElementReplicator : public kmldom::Serializer {
  private:
   // This stack operates akin to the stack in the parser.
   std::stack<ElementPtr> clone_stack_;
-  string char_data_;
+  // The character data of each complex element on clone_stack_.
+  std::stack<string> char_data_;
   // This flag indicates that we're serializing an array of unknown elements.
   // See BeginElementArray(), EndElementArray(), and SaveContent() above.
   bool serializing_unknown_;
-- 
2.43.0


From 927606a5863a40c16401120242dd0830af6c032f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:51 +0000
Subject: [PATCH 13/92] fix: keep old-style Schema handling to the placemark it
 replaces

---
 src/kml/dom/kml_handler.cc | 27 ++++++++++++++++++++++++---
 src/kml/dom/kml_handler.h  |  3 ++-
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/kml/dom/kml_handler.cc b/src/kml/dom/kml_handler.cc
index ef0ca28..6500494 100644
--- a/src/kml/dom/kml_handler.cc
+++ b/src/kml/dom/kml_handler.cc
@@ -100,6 +100,14 @@ void KmlHandler::StartElement(const string& name,
     return;
   }
 
+  if (in_old_schema_placemark_) {
+    // Markup inside a child of an old Schema placemark is unknown.
+    char_data_.push(string());
+    InsertUnknownStartElement(name, attrs);
+    skip_depth_++;
+    return;
+  }
+
   // If we see <Schema parent=""> then we attempt to parse the old Schema
   // usage outlined in the header. The name of the schema is stored in the
   // old_schema_name_ string.
@@ -149,7 +157,8 @@ void KmlHandler::StartElement(const string& name,
     }
   } else if (xsd_type == XSD_SIMPLE_TYPE) {
     element = kml_factory_.CreateFieldById(type_id);
-  } else if (xsd_type == XSD_UNKNOWN && !old_schema_name_.empty()) {
+  } else if (xsd_type == XSD_UNKNOWN && !stack_.empty() &&
+             stack_.top() == old_schema_placemark_) {
     // We might be parsing one of the children of the old schema usage.
     in_old_schema_placemark_ = ParseOldSchemaChild(name, simplefield_name_vec_,
                                                    &simpledata_vec_);
@@ -175,6 +184,9 @@ void KmlHandler::StartElement(const string& name,
   }
   // This is a known element.  Push onto parse stack and gather content.
   stack_.push(element);
+  if (!old_schema_name_.empty() && name == old_schema_name_) {
+    old_schema_placemark_ = AsPlacemark(element);
+  }
 
   // We need to permit parsing of un-CDATA'd markup inside <description>
   // elements. We bump the skip counter here as if we'd encountered an unknown
@@ -279,6 +291,8 @@ void KmlHandler::EndElement(const string& name) {
       // Or that of its Placemark substitute.
       HandleOldSchemaParentEndElement(AsPlacemark(child), old_schema_name_,
                                       kml_factory_, simpledata_vec_);
+      simpledata_vec_.clear();
+      old_schema_placemark_ = NULL;
     }
   }
 
@@ -417,7 +431,7 @@ void KmlHandler::HandleOldSchemaEndElement(
     const SchemaPtr& schema,
     const string& old_schema_name,
     StringVector* simplefield_name_vec) {
-  if (!simplefield_name_vec) {
+  if (!schema || !simplefield_name_vec) {
     return;
   }
   schema->set_id(old_schema_name + "_id");
@@ -438,11 +452,18 @@ void KmlHandler::HandleOldSchemaParentEndElement(
     const string& old_schema_name,
     const KmlFactory& kml_factory,
     const std::vector<SimpleDataPtr> simpledata_vec) {
+  // The Schema may be named for an element which is open already.
+  if (!placemark) {
+    return;
+  }
   // We've reached the closing tag of the old placemark substitute
   // element. Take the SimpleData elements we've been creating from its
   // children and hand them to an ExtendedData, then give that to the
   // parent placemark.
-  ExtendedDataPtr extendeddata = kml_factory.CreateExtendedData();
+  ExtendedDataPtr extendeddata = AsExtendedData(placemark->get_extendeddata());
+  if (!extendeddata) {
+    extendeddata = kml_factory.CreateExtendedData();
+  }
   SchemaDataPtr schemadata = kml_factory.CreateSchemaData();
   schemadata->set_schemaurl(old_schema_name + "_id");
   std::vector<SimpleDataPtr>::const_iterator itr =
diff --git a/src/kml/dom/kml_handler.h b/src/kml/dom/kml_handler.h
index 95fde30..17c0252 100644
--- a/src/kml/dom/kml_handler.h
+++ b/src/kml/dom/kml_handler.h
@@ -115,13 +115,14 @@ private:
   unsigned int skip_depth_;
   unsigned int in_description_;
   unsigned int nesting_depth_;
-  // TODO: these next four are for the purpose of handling old-style <Schema>
+  // TODO: these next five are for the purpose of handling old-style <Schema>
   // usage. Instead of creating these by default, we could move them into
   // a separate class created only when needed.
   bool in_old_schema_placemark_;
   string old_schema_name_;
   kmlbase::StringVector simplefield_name_vec_;
   std::vector<SimpleDataPtr> simpledata_vec_;
+  PlacemarkPtr old_schema_placemark_;
 
   // This calls the NewElement() method of each ParserObserver.  If any
   // ParserObserver::NewElement() returns false this immediately returns false.
-- 
2.43.0


From c58f88b31b5f5a65e6b8d905ceb13125f473cf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:49 +0000
Subject: [PATCH 14/92] fix: read a color string only up to its end

---
 src/kml/base/color32.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/kml/base/color32.h b/src/kml/base/color32.h
index dcdf8d7..c5fbbd8 100644
--- a/src/kml/base/color32.h
+++ b/src/kml/base/color32.h
@@ -131,14 +131,16 @@ class Color32 {
     // character, skip it. (Google Earth supports this usage, despite its not
     // being common practice.)
     size_t offset = 0;
-    while (isspace(color_abgr[offset])) {
+    while (offset < color_abgr.size() &&
+           isspace(static_cast<unsigned char>(color_abgr[offset]))) {
       offset ++;
     }
-    if (color_abgr.size() > 0 && color_abgr[offset] == '#') {
+    if (offset < color_abgr.size() && color_abgr[offset] == '#') {
       offset ++;
     }
-    size_t length = color_abgr.size() >= 8 + offset ? 8 : color_abgr.size();
-    for(size_t i = offset; i < length + offset; ++i) {
+    size_t end = color_abgr.size() >= 8 + offset ? 8 + offset
+                                                 : color_abgr.size();
+    for(size_t i = offset; i < end; ++i) {
       out = out * 16;
       if (color_abgr[i] >= '0' && color_abgr[i] <= '9') {
         out += color_abgr[i] - '0';
-- 
2.43.0


From 571cd13177fdd3dceeb65de6e75d5adc19f783c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:06 +0000
Subject: [PATCH 15/92] fix: release the memory stream of a zip file that
 cannot be attached

---
 src/kml/base/zip_file.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kml/base/zip_file.cc b/src/kml/base/zip_file.cc
index 3366837..18cab12 100644
--- a/src/kml/base/zip_file.cc
+++ b/src/kml/base/zip_file.cc
@@ -105,6 +105,8 @@ ZipFile::ZipFile(const string& data)
         }
       } while (libkml_unzGoToNextFile(zfile) == UNZ_OK);
       libkml_unzClose(zfile);
+    } else {
+      api.zclose_file(api.opaque, mem_stream);
     }
   }
 }
@@ -183,6 +185,7 @@ bool ZipFile::GetEntry(const string& path_in_zip,
   }
   unzFile unzfile = libkml_unzAttach(mem_stream, &api);
   if (!unzfile) {
+    api.zclose_file(api.opaque, mem_stream);
     return false;
   }
 
-- 
2.43.0


From fba51513ec56a836dea9ddbdf7ea5a2b8fea8232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:26 +0000
Subject: [PATCH 16/92] fix: make Url a Link, as NetworkLink casts it

---
 src/kml/dom/link.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/kml/dom/link.h b/src/kml/dom/link.h
index 56a9b19..9e57180 100644
--- a/src/kml/dom/link.h
+++ b/src/kml/dom/link.h
@@ -232,9 +232,11 @@ class Link : public AbstractLink {
   // Visitor API methods, see visitor.h.
   virtual void Accept(Visitor* visitor);
 
+ protected:
+  Link();
+
  private:
   friend class KmlFactory;
-  Link();
   LIBKML_DISALLOW_EVIL_CONSTRUCTORS(Link);
 };
 
@@ -256,8 +258,8 @@ class Icon : public AbstractLink {
   LIBKML_DISALLOW_EVIL_CONSTRUCTORS(Icon);
 };
 
-// <Url> in NetworkLink
-class Url : public AbstractLink {
+// <Url> in NetworkLink.  NetworkLink keeps a <Url> as its Link.
+class Url : public Link {
  public:
   virtual ~Url();
   virtual KmlDomType Type() const { return Type_Url; }
-- 
2.43.0


From 742fcf76f3f023dec13eb272c87d7f622c1d73f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:11 +0000
Subject: [PATCH 17/92] fix: report an error for an empty document

---
 src/kml/base/expat_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/base/expat_parser.cc b/src/kml/base/expat_parser.cc
index 9a11720..a8bc9b3 100644
--- a/src/kml/base/expat_parser.cc
+++ b/src/kml/base/expat_parser.cc
@@ -143,7 +143,7 @@ bool ExpatParser::ParseInternalBuffer(size_t len, string* errors,
 // Private.
 bool ExpatParser::_ParseString(const string& xml, string* errors) {
   int xml_size = static_cast<int>(xml.size());
-  XML_Status status = XML_Parse(parser_, xml.c_str(), xml_size, xml_size);
+  XML_Status status = XML_Parse(parser_, xml.c_str(), xml_size, XML_TRUE);
   if (status != XML_STATUS_OK && errors) {
     // This is the other half of XML_StopParser() which is our way of
     // stopping expat if the root element is not KML.
-- 
2.43.0


From 6c9b602210ebdb378ebcbefaf6fdc849a24a0446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:35 +0000
Subject: [PATCH 18/92] fix: report an error when a handler stops a buffered
 parse

---
 src/kml/base/expat_parser.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kml/base/expat_parser.cc b/src/kml/base/expat_parser.cc
index a8bc9b3..56555e3 100644
--- a/src/kml/base/expat_parser.cc
+++ b/src/kml/base/expat_parser.cc
@@ -162,7 +162,9 @@ void ExpatParser::ReportError(XML_Parser parser, string* errors) {
     return;
   }
   std::stringstream strstream;
-  strstream << XML_ErrorString(XML_GetErrorCode(parser));
+  // There is no error code if a handler called XML_StopParser().
+  const XML_LChar* error = XML_ErrorString(XML_GetErrorCode(parser));
+  strstream << (error ? error : "parsing stopped");
   strstream << " on line ";
   strstream << XML_GetCurrentLineNumber(parser);
   strstream << " at offset ";
-- 
2.43.0


From ac2e2f983e19d4ef16c4fbe0923a01a600a620fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:18 +0000
Subject: [PATCH 19/92] fix: fail the parse of a stream that was not read to
 its end

---
 src/kml/engine/kml_stream.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/kml/engine/kml_stream.cc b/src/kml/engine/kml_stream.cc
index b6bd25e..ee02361 100644
--- a/src/kml/engine/kml_stream.cc
+++ b/src/kml/engine/kml_stream.cc
@@ -69,9 +69,18 @@ KmlStream* KmlStream::ParseFromIstream(
     }
   }
 
+  // The parse is complete only if the whole stream was read.
+  ElementPtr root = kml_handler.PopRoot();
+  if (!input->eof() || input->bad() || !root) {
+    if (errors) {
+      *errors = "stream read error";
+    }
+    return NULL;
+  }
+
   // Parse succeeded.  Construct KmlStream.
   KmlStream* kml_stream = new KmlStream;
-  kml_stream->set_root(kml_handler.PopRoot());
+  kml_stream->set_root(root);
   return kml_stream;
 }
 
-- 
2.43.0


From 8926f2bf18122e1cb77686ccac91005eed554bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:11 +0000
Subject: [PATCH 20/92] fix: do not cast a SimpleField to a gx:SimpleArrayField

---
 src/kml/dom/schema.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kml/dom/schema.h b/src/kml/dom/schema.h
index 4d26b00..51b24c6 100644
--- a/src/kml/dom/schema.h
+++ b/src/kml/dom/schema.h
@@ -106,9 +106,10 @@ class SimpleField : public BasicElement<Type_SimpleField> {
 class GxSimpleArrayField : public SimpleField {
  public:
   virtual ~GxSimpleArrayField();
-  virtual KmlDomType Type() const { return Type_GxSimpleArrayField; }
+  static KmlDomType ElementType() { return Type_GxSimpleArrayField; }
+  virtual KmlDomType Type() const { return ElementType(); }
   virtual bool IsA(KmlDomType type) const {
-    return type == Type_GxSimpleArrayField || SimpleField::IsA(type);
+    return type == ElementType() || SimpleField::IsA(type);
   }
 
   // Visitor API methods, see visitor.h.
-- 
2.43.0


From bb31f15df19a5b34fe91a83ed0910cfe911e6953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:29 +0000
Subject: [PATCH 21/92] fix: give no name to a value outside the enumeration

---
 src/kml/dom/xsd.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/kml/dom/xsd.cc b/src/kml/dom/xsd.cc
index 628ddfc..73982b9 100644
--- a/src/kml/dom/xsd.cc
+++ b/src/kml/dom/xsd.cc
@@ -108,7 +108,14 @@ const int size = sizeof(kKml22Enums)/sizeof(XsdSimpleTypeEnum);
 
   for (int i = 0; i < size; ++i) {
     if (kKml22Enums[i].type_id == type_id) {
-      return kKml22Enums[i].enum_value_list[enum_id];
+      const char** enum_value_list = kKml22Enums[i].enum_value_list;
+      // The list ends with a NULL.
+      for (int j = 0; enum_value_list[j]; ++j) {
+        if (j == enum_id) {
+          return enum_value_list[j];
+        }
+      }
+      return string();
     }
   }
   return string();
-- 
2.43.0


From ea2357f0c404d780933a8e21da6413c9c5653ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:58 +0000
Subject: [PATCH 22/92] fix: visit a hotSpot as what it is

---
 src/kml/dom/hotspot.cc | 5 +++++
 src/kml/dom/hotspot.h  | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/src/kml/dom/hotspot.cc b/src/kml/dom/hotspot.cc
index 94dc5b1..42609c2 100644
--- a/src/kml/dom/hotspot.cc
+++ b/src/kml/dom/hotspot.cc
@@ -24,6 +24,7 @@
 // ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 #include "kml/dom/hotspot.h"
+#include "kml/dom/visitor.h"
 
 namespace kmldom {
 
@@ -31,4 +32,8 @@ HotSpot::HotSpot() {}
 
 HotSpot::~HotSpot() {}
 
+void HotSpot::Accept(Visitor* visitor) {
+  visitor->VisitHotSpot(HotSpotPtr(this));
+}
+
 }  // end namespace kmldom
diff --git a/src/kml/dom/hotspot.h b/src/kml/dom/hotspot.h
index 9ac1392..3a4f871 100644
--- a/src/kml/dom/hotspot.h
+++ b/src/kml/dom/hotspot.h
@@ -33,6 +33,7 @@
 namespace kmldom {
 
 class Serializer;
+class Visitor;
 
 // <hotSpot>
 class HotSpot : public Vec2 {
@@ -43,6 +44,9 @@ class HotSpot : public Vec2 {
     return type == Type_hotSpot || Vec2::IsA(type);
   }
 
+  // Visitor API methods, see visitor.h.
+  virtual void Accept(Visitor* visitor);
+
  private:
   friend class KmlFactory;
   HotSpot();
-- 
2.43.0


From 6a8e8ab9270af51fa5c5967e145d74085759290b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:35 +0000
Subject: [PATCH 23/92] fix: count color fields in the statistics

---
 src/kml/dom/stats_serializer.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kml/dom/stats_serializer.h b/src/kml/dom/stats_serializer.h
index 252f0e3..ebfb6fb 100644
--- a/src/kml/dom/stats_serializer.h
+++ b/src/kml/dom/stats_serializer.h
@@ -59,6 +59,9 @@ class StatsSerializer : public Serializer {
   virtual void SaveStringFieldById(int type_id, string value) {
     ++field_count_;
   }
+  virtual void SaveColor(int type_id, const kmlbase::Color32& color) {
+    ++field_count_;
+  }
   virtual void SaveContent(const string& content, bool maybe_quote) {
     ++content_count_;
   }
-- 
2.43.0


From 7b8b2b66d36221c0beea62d53a68c0ae0c59a115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:11 +0000
Subject: [PATCH 24/92] fix: append array children when merging, as documented

---
 src/kml/dom/gx_tour.cc            |  6 ++---
 src/kml/dom/networklinkcontrol.cc |  4 +--
 src/kml/engine/merge.cc           | 45 ++++++++++++++++++++++++++++---
 3 files changed, 44 insertions(+), 11 deletions(-)

diff --git a/src/kml/dom/gx_tour.cc b/src/kml/dom/gx_tour.cc
index e1c9cf4..dcf1016 100644
--- a/src/kml/dom/gx_tour.cc
+++ b/src/kml/dom/gx_tour.cc
@@ -105,10 +105,8 @@ void GxPlaylist::AddElement(const ElementPtr& element) {
 
 void GxPlaylist::Serialize(Serializer& serializer) const {
   ElementSerializer element_serializer(*this, serializer);
-  for (size_t i = 0; i < get_gx_tourprimitive_array_size(); ++i) {
-    serializer.SaveElementGroup(get_gx_tourprimitive_array_at(i),
-                                Type_GxTourPrimitive);
-  }
+  serializer.SaveElementGroupArray(gx_tourprimitive_array_,
+                                   Type_GxTourPrimitive);
 }
 
 void GxPlaylist::Accept(Visitor* visitor) {
diff --git a/src/kml/dom/networklinkcontrol.cc b/src/kml/dom/networklinkcontrol.cc
index fa1aaed..52676e4 100644
--- a/src/kml/dom/networklinkcontrol.cc
+++ b/src/kml/dom/networklinkcontrol.cc
@@ -178,9 +178,7 @@ void Update::Serialize(Serializer& serializer) const {
   if (has_targethref()) {
     serializer.SaveFieldById(Type_targetHref, get_targethref());
   }
-  for (size_t i = 0; i < updateoperation_array_.size(); ++i) {
-    serializer.SaveElement(get_updateoperation_array_at(i));
-  }
+  serializer.SaveElementArray(updateoperation_array_);
 }
 
 void Update::Accept(Visitor* visitor) {
diff --git a/src/kml/engine/merge.cc b/src/kml/engine/merge.cc
index ac9171a..6048802 100644
--- a/src/kml/engine/merge.cc
+++ b/src/kml/engine/merge.cc
@@ -32,7 +32,6 @@
 #include "kml/dom/serializer.h"
 #include "kml/engine/clone.h"
 #include "kml/engine/engine_types.h"
-#include "kml/engine/find.h"
 
 using kmlbase::Attributes;
 using kmldom::CoordinatesPtr;
@@ -116,20 +115,58 @@ void MergeFields(const ElementPtr& source, ElementPtr target) {
   source->Serialize(field_merger);
 }
 
+// This Serializer-specialization collects the immediate complex children of
+// the serialized element, the single ones apart from those in an array.
+class ChildSorter : public Serializer {
+ public:
+  ChildSorter(ElementVector* children, ElementVector* array_children)
+      : children_(children), array_children_(array_children),
+        in_array_(false) {}
+  virtual void BeginElementArray(int type_id, size_t element_count) {
+    in_array_ = true;
+  }
+  virtual void EndElementArray(int type_id) {
+    in_array_ = false;
+  }
+  virtual void BeginElementGroupArray(int group_id, size_t element_count) {
+    in_array_ = true;
+  }
+  virtual void EndElementGroupArray(int group_id) {
+    in_array_ = false;
+  }
+  // This does not recurse.
+  virtual void SaveElement(const ElementPtr& element) {
+    (in_array_ ? array_children_ : children_)->push_back(element);
+  }
+
+ private:
+  ElementVector* children_;
+  ElementVector* array_children_;
+  bool in_array_;
+};
+
 // This function sets all target simple element ("fields") and all complex
 // element children to values found in the source.  This form of merge
 // behavior is central to "style merging".
 // TODO: Update/Change behaves _slightly_ differently but may borrow from this.
 void MergeElements(const ElementPtr& source, ElementPtr target) {
-  if (!source || !target) {
+  if (!source || !target || source == target) {
     return;
   }
   // Get the pointers to the immediate complex element children of the source
   // and target element.
   ElementVector source_children;
-  GetChildElements(source, false, &source_children);
+  ElementVector source_array_children;
+  ChildSorter source_sorter(&source_children, &source_array_children);
+  source->Serialize(source_sorter);
   ElementVector target_children;
-  GetChildElements(target, false, &target_children);
+  ElementVector target_array_children;
+  ChildSorter target_sorter(&target_children, &target_array_children);
+  target->Serialize(target_sorter);
+  // The elements of an array are appended to that of the target.
+  for (size_t i = 0; i < source_array_children.size(); ++i) {
+    target->AddElement(Clone(source_array_children[i]));
+  }
 
   // Iterate through the source children looking for a match in the target.
   // TODO: walk through both lists taking advantage of both being in
-- 
2.43.0


From f7ad288688c337c49350b1787e4e1b4c96533094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:35 +0000
Subject: [PATCH 25/92] fix: merge the text of a snippet

---
 src/kml/engine/merge.cc | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/kml/engine/merge.cc b/src/kml/engine/merge.cc
index 6048802..6ad35ec 100644
--- a/src/kml/engine/merge.cc
+++ b/src/kml/engine/merge.cc
@@ -93,6 +93,23 @@ class FieldMerger : public Serializer {
     target_->AddElement(field);
   }
 
+  // This is the text of an element which has character data.
+  virtual void SaveContent(const string& content, bool maybe_quote) {
+    if (content.empty() || !maybe_quote) {
+      return;
+    }
+    switch (target_->Type()) {
+      case kmldom::Type_Snippet:
+      case kmldom::Type_linkSnippet:
+      case kmldom::Type_SimpleData:
+        target_->set_char_data(content);
+        target_->AddElement(target_);  // "Parse yourself"
+        break;
+      default:
+        break;
+    }
+  }
+
   // Serializer::SaveColor() is called to save all Color32 values.
   virtual void SaveColor(int type_id, const kmlbase::Color32& color) {
     SaveFieldById(type_id, color.to_string_abgr());
-- 
2.43.0


From e909e001fec82f16e6d4ae2bba9aab6395bb5664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:34 +0000
Subject: [PATCH 26/92] fix: do not record a style without an id as a shared
 style

---
 src/kml/engine/shared_style_parser_observer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kml/engine/shared_style_parser_observer.h b/src/kml/engine/shared_style_parser_observer.h
index f89219f..311e1cf 100644
--- a/src/kml/engine/shared_style_parser_observer.h
+++ b/src/kml/engine/shared_style_parser_observer.h
@@ -66,9 +66,9 @@ class SharedStyleParserObserver : public kmldom::ParserObserver {
             // TODO: provide means to send back an and error string with id
             return false;  // Duplicate id, fail parse.
           }
+          // No such mapping so save it, and "last one wins" on non-strict parse.
+          (*shared_style_map_)[ss->get_id()] = ss;
         }
-        // No such mapping so save it, and "last one wins" on non-strict parse.
-        (*shared_style_map_)[ss->get_id()] = ss;
       }
     }
     return true;  // Not a duplicate id, keep parsing.
-- 
2.43.0


From c3037f68c3a7f748c03c88131af24c67e7943229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:34 +0000
Subject: [PATCH 27/92] fix: clear the ids of all objects, also of those
 sharing an id

---
 src/kml/engine/id_mapper.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/kml/engine/id_mapper.cc b/src/kml/engine/id_mapper.cc
index a28c489..3b65bec 100644
--- a/src/kml/engine/id_mapper.cc
+++ b/src/kml/engine/id_mapper.cc
@@ -69,14 +69,18 @@ void MapIds(const ElementPtr& root, ObjectIdMap* object_id_map,
 }
 
 const ElementPtr& ClearIds(const ElementPtr& root) {
-  // Get all objects with an id.
+  // Get all objects with an id, including those whose id is used again.
   ObjectIdMap object_id_map;
-  MapIds(root, &object_id_map, NULL);
+  ElementVector dup_id_vector;
+  MapIds(root, &object_id_map, &dup_id_vector);
   // Iterate through them all and clear the id.
   ObjectIdMap::const_iterator iter = object_id_map.begin();
   for (; iter != object_id_map.end(); ++iter) {
     iter->second->clear_id();
   }
+  for (size_t i = 0; i < dup_id_vector.size(); ++i) {
+    kmldom::AsObject(dup_id_vector[i])->clear_id();
+  }
   return root;
 }
 
-- 
2.43.0


From 24d33c223dfffff3735e2131c2232ac53884662c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:31 +0000
Subject: [PATCH 28/92] fix: keep a shared style of an imported tree whose id
 is used again

---
 src/kml/engine/kml_file.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/kml/engine/kml_file.cc b/src/kml/engine/kml_file.cc
index d09141b..5c2fb17 100644
--- a/src/kml/engine/kml_file.cc
+++ b/src/kml/engine/kml_file.cc
@@ -27,6 +27,7 @@
 
 #include "kml/engine/kml_file.h"
 #include "kml/base/xml_namespaces.h"
+#include "kml/engine/find.h"
 #include "kml/engine/find_xml_namespaces.h"
 #include "kml/engine/id_mapper.h"
 #include "kml/engine/kmz_file.h"
@@ -145,12 +146,13 @@ KmlFile* KmlFile::CreateFromImportInternal(const kmldom::ElementPtr& element,
     return NULL;
   }
   // Add all the shared styles to the style map. A shared style is any style
-  // with an id whose parent is a document (and by defintion anything in
-  // object_id_map_ has an id).
-  ObjectIdMap::const_iterator it;
-  for (it = map_ptr->begin(); it != map_ptr->end(); it++) {
-    if (kmldom::StyleSelectorPtr ss = kmldom::AsStyleSelector(it->second)) {
-      if (kmldom::AsDocument(ss->GetParent())) {
+  // with an id whose parent is a document.  Another object later in the file
+  // may use the same id, so the object_id_map_ is not consulted here.
+  ElementVector styles;
+  GetElementsById(element, kmldom::Type_StyleSelector, &styles);
+  for (size_t i = 0; i < styles.size(); ++i) {
+    if (kmldom::StyleSelectorPtr ss = kmldom::AsStyleSelector(styles[i])) {
+      if (ss->has_id() && kmldom::AsDocument(ss->GetParent())) {
         (kml_file->shared_style_map_)[ss->get_id()] = ss;
       }
     }
-- 
2.43.0


From fe761678badaaa76a39d4f45e1663ac07390790c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:05 +0000
Subject: [PATCH 29/92] fix: keep the id of an object changed by an update

---
 src/kml/engine/update_processor.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kml/engine/update_processor.cc b/src/kml/engine/update_processor.cc
index 16c9a37..9313a43 100644
--- a/src/kml/engine/update_processor.cc
+++ b/src/kml/engine/update_processor.cc
@@ -77,7 +77,10 @@ void UpdateProcessor::ProcessUpdateChange(const ChangePtr& change) {
     string targetid;
     if (GetTargetId(source_object, &targetid)) {
       if (ObjectPtr target_object = kml_file_.GetObjectById(targetid)) {
+        const string target_object_id = target_object->get_id();
         MergeElements(source_object, target_object);
+        // The id of an Object in the KmlFile is never changed.
+        target_object->set_id(target_object_id);
         // It's easier to just clear the target's targetId= attribute than
         // to teach MergeElements() how to avoid copying targetId from
         // source to target.  This does imply that targetId is treated as
-- 
2.43.0


From d3b6f47c2973b3f1d50e82f8447243ccd3c4df96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:27 +0000
Subject: [PATCH 30/92] fix: do not count a missing styleUrl as one that was
 followed

---
 src/kml/engine/style_merger.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/kml/engine/style_merger.cc b/src/kml/engine/style_merger.cc
index 8ea9bb5..3260d69 100644
--- a/src/kml/engine/style_merger.cc
+++ b/src/kml/engine/style_merger.cc
@@ -81,15 +81,17 @@ StyleMerger* StyleMerger::CreateFromKmlFile(
 }
 
 void StyleMerger::MergeStyleUrl(const string& styleurl) {
+  if (styleurl.empty()) {
+    return;  // No styleUrl to follow.
+  }
   if (--nesting_depth_ < 0) {
     return;
   }
   string path;
   string style_id;  // fragment
-  if (styleurl.empty() ||
-      !SplitUri(styleurl, NULL, NULL, NULL, &path, NULL, &style_id) ||
+  if (!SplitUri(styleurl, NULL, NULL, NULL, &path, NULL, &style_id) ||
       style_id.empty()) {
-    return;  // Empty or bad styleurl or w/o fragment: ignore.
+    return;  // Bad styleurl or w/o fragment: ignore.
   }
   // If there's no path this is a StyleSelector within this file.
   if (path.empty()) {
-- 
2.43.0


From eaee1cdd362006b5a90a6e170c3f971b68f2eb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:46 +0000
Subject: [PATCH 31/92] fix: resolve the styleUrls of a fetched style in the
 file they are in

---
 src/kml/engine/style_merger.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/kml/engine/style_merger.cc b/src/kml/engine/style_merger.cc
index 3260d69..4c06ae7 100644
--- a/src/kml/engine/style_merger.cc
+++ b/src/kml/engine/style_merger.cc
@@ -121,8 +121,13 @@ void StyleMerger::MergeStyleUrl(const string& styleurl) {
   }
   // TODO: resolve relative hrefs in substyles of this styleselector w.r.t.
   // fetchable_url
-  // Merge in this StyleSelector.
-  MergeStyleSelector(styleselector);
+  // Merge in this StyleSelector.  Any styleUrl within it is relative to the
+  // KML file it is in.
+  StyleMerger style_merger(kml_file->get_shared_style_map(), kml_cache_,
+                           kml_file->get_url(), style_state_, nesting_depth_);
+  style_merger.MergeStyleSelector(styleselector);
+  nesting_depth_ = style_merger.get_nesting_depth();
+  MergeElements(style_merger.GetResolvedStyle(), resolved_style_);
 }
 
 // Both Feature and Pair have a styleUrl and/or StyleSelector.
-- 
2.43.0


From eb99baa3f9c30beca9b9e154c5558e00dff70f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:26 +0000
Subject: [PATCH 32/92] fix: give a split style the id its feature refers to

---
 src/kml/engine/style_splitter.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kml/engine/style_splitter.cc b/src/kml/engine/style_splitter.cc
index 6fefcdc..6512a12 100644
--- a/src/kml/engine/style_splitter.cc
+++ b/src/kml/engine/style_splitter.cc
@@ -83,12 +83,13 @@ bool StyleSplitter::EndElement(const kmldom::ElementPtr& parent,
         // ...and this id does not collide:
         if (shared_style_map_->find(style_id) == shared_style_map_->end()) {
           ++id_counter_;  // Bump the id counter only if it was used.
-          // Create an empty StyleSelector of the child's type and set the id.
+          // Create an empty StyleSelector of the child's type.
           kmldom::StyleSelectorPtr shared =
               CreateStyleSelector(child->Type());
-          shared->set_id(style_id);
           // Merge the children from child into the new StyleSelector.
           kmlengine::MergeElements(child, shared);
+          // The child's own id, if any, is not the one the styleUrl names.
+          shared->set_id(style_id);
           // Add the StyleSelector to the Document and the shared style map.
           document_->add_styleselector(shared);
           (*shared_style_map_)[shared->get_id()] = shared;
-- 
2.43.0


From d3b5b9a251f626f8c3d9b35dc9dcfb58328edff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:26 +0000
Subject: [PATCH 33/92] fix: do not split styles to a Document inside an Update

---
 src/kml/engine/style_splitter.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kml/engine/style_splitter.cc b/src/kml/engine/style_splitter.cc
index 6512a12..d178b64 100644
--- a/src/kml/engine/style_splitter.cc
+++ b/src/kml/engine/style_splitter.cc
@@ -38,8 +38,9 @@
 namespace kmlengine {
 
 bool StyleSplitter::NewElement(const kmldom::ElementPtr& element) {
-  // Use the first <Document> found as the home of all shared styles.
-  if (!document_ && element->IsA(kmldom::Type_Document)) {
+  // Use the first <Document> found outside any <Update> as the home of all
+  // shared styles.
+  if (!document_ && !in_update_ && element->IsA(kmldom::Type_Document)) {
     document_ = AsDocument(element);
   }
   // Don't touch anything inside an <Update>.
-- 
2.43.0


From e1d6c932bd0eb64ecbd61e358c1e65d660ce3742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:24 +0000
Subject: [PATCH 34/92] fix: split styles under ids not used in the document

---
 src/kml/engine/style_splitter.cc | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/kml/engine/style_splitter.cc b/src/kml/engine/style_splitter.cc
index d178b64..fb4a14b 100644
--- a/src/kml/engine/style_splitter.cc
+++ b/src/kml/engine/style_splitter.cc
@@ -34,6 +34,7 @@
 #include "kml/dom/parser_observer.h"
 #include "kml/engine/engine_types.h"
 #include "kml/engine/merge.h"
+#include "kml/engine/object_id_parser_observer.h"
 
 namespace kmlengine {
 
@@ -110,10 +111,39 @@ bool StyleSplitter::EndElement(const kmldom::ElementPtr& parent,
   return true;  // Proceed to add this child to this parent.
 }
 
+// This is a StyleSplitter which uses no id found anywhere in the KML.
+class UnusedIdStyleSplitter : public StyleSplitter {
+ public:
+  UnusedIdStyleSplitter(SharedStyleMap* shared_style_map,
+                        const ObjectIdMap& object_id_map)
+    : StyleSplitter(shared_style_map), object_id_map_(object_id_map) {}
+
+  virtual string CreateUniqueId(const SharedStyleMap& shared_style_map,
+                                unsigned int id_counter) {
+    string id = StyleSplitter::CreateUniqueId(shared_style_map, id_counter);
+    while (object_id_map_.find(id) != object_id_map_.end() ||
+           shared_style_map.find(id) != shared_style_map.end()) {
+      id = StyleSplitter::CreateUniqueId(shared_style_map, ++id_counter);
+    }
+    return id;
+  }
+
+ private:
+  const ObjectIdMap& object_id_map_;
+};
+
 kmldom::ElementPtr SplitStyles(const string& input_kml,
                                string* errors) {
+  // Find all ids used in the KML.
+  ObjectIdMap object_id_map;
+  ObjectIdParserObserver object_id_parser_observer(&object_id_map, false);
+  kmldom::Parser id_parser;
+  id_parser.AddObserver(&object_id_parser_observer);
+  if (!id_parser.Parse(input_kml, errors)) {
+    return NULL;
+  }
   SharedStyleMap shared_style_map;
-  StyleSplitter style_splitter(&shared_style_map);
+  UnusedIdStyleSplitter style_splitter(&shared_style_map, object_id_map);
   kmldom::Parser parser;
   parser.AddObserver(&style_splitter);
   return parser.Parse(input_kml, errors);
-- 
2.43.0


From ea3c263a8e6d96f34dd81f51934c23f0ddf86366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:59 +0000
Subject: [PATCH 35/92] fix: keep a feature's own style when its styleUrl is
 inlined

---
 src/kml/engine/style_inliner.cc         | 19 ++++++++++++++++++-
 src/kml/engine/style_inliner_internal.h |  1 +
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/kml/engine/style_inliner.cc b/src/kml/engine/style_inliner.cc
index 1b32818..9ebcd98 100644
--- a/src/kml/engine/style_inliner.cc
+++ b/src/kml/engine/style_inliner.cc
@@ -29,6 +29,7 @@
 #include "kml/engine/style_inliner_internal.h"
 #include "kml/engine/id_mapper.h"
 #include "kml/engine/kml_uri.h"
+#include "kml/engine/merge.h"
 #include "kml/engine/style_resolver.h"
 
 namespace kmlengine {
@@ -86,14 +87,30 @@ bool StyleInliner::EndElement(const kmldom::ElementPtr& parent,
                    &fragment) && path.empty()) {
         SharedStyleMap::const_iterator iter = shared_styles_.find(fragment);
         if (iter != shared_styles_.end()) {
-          feature->set_styleselector(
+          inlined_style_ = kmldom::AsStyleMap(
               kmlengine::StyleResolver::CreateResolvedStyleSelector(
                   child->get_char_data(), shared_styles_));
+          feature->set_styleselector(inlined_style_);
           return false;  // Don't add the <styleUrl> to the feature.
         }
       }
       // We fall to here if the styleUrl is a remote reference or if the
       // styleUrl's local reference is not found.
+    } else if (kmldom::StyleSelectorPtr styleselector =
+               kmldom::AsStyleSelector(child)) {
+      // If this Feature's styleUrl was inlined its own style takes priority,
+      // so merge that over for each style state.
+      if (inlined_style_ && feature->get_styleselector() == inlined_style_) {
+        for (size_t i = 0; i < inlined_style_->get_pair_array_size(); ++i) {
+          const kmldom::PairPtr& pair = inlined_style_->get_pair_array_at(i);
+          MergeElements(kmlengine::StyleResolver::CreateResolvedStyle(
+                            "", styleselector, shared_styles_, "", NULL,
+                            static_cast<kmldom::StyleStateEnum>(
+                                pair->get_key())),
+                        pair->get_styleselector());
+        }
+        return false;  // This style is now part of the inlined one.
+      }
     }
   }
   // Everything else.
diff --git a/src/kml/engine/style_inliner_internal.h b/src/kml/engine/style_inliner_internal.h
index eab7495..8eaa624 100644
--- a/src/kml/engine/style_inliner_internal.h
+++ b/src/kml/engine/style_inliner_internal.h
@@ -75,6 +75,7 @@ class StyleInliner : public kmldom::ParserObserver {
 
  private:
   kmlengine::SharedStyleMap shared_styles_;
+  kmldom::StyleMapPtr inlined_style_;  // The latest one given to a Feature.
   kmldom::DocumentPtr document_;
   bool in_update_;
 };
-- 
2.43.0


From 98b87d196c1627050440af384f199f45159fe2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:03 +0000
Subject: [PATCH 36/92] fix: read track coordinates separated by any white
 space

---
 src/kml/dom/geometry.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/kml/dom/geometry.cc b/src/kml/dom/geometry.cc
index 6fe814a..79ab33b 100644
--- a/src/kml/dom/geometry.cc
+++ b/src/kml/dom/geometry.cc
@@ -30,6 +30,7 @@
 #include <cctype>
 #include <cstdlib>
 #include <cstring>
+#include <sstream>
 #include <string>
 #include "kml/dom/geometry.h"
 #include "kml/base/attributes.h"
@@ -557,14 +558,13 @@ void GxTrack::Parse(const string& char_data, std::vector<Vec3>* out) {
   }
   // TODO: this is a little heavy. Optimization along the lines of
   // Coordinates::Parse may be required.
-  std::vector<string> s;
-  kmlbase::SplitStringUsing(char_data, " ", &s);
+  std::istringstream iss(char_data);
   kmlbase::Vec3 vec;
-  for (size_t i = 0; i < s.size(); i++) {
-    double d;
-    kmlbase::FromString(s[i], &d);
-    vec.set(static_cast<int>(i), d);
-    if (i > 2) break;
+  string s;
+  for (int i = 0; i < 3 && iss >> s; i++) {
+    double d = 0.0;
+    kmlbase::FromString(s, &d);
+    vec.set(i, d);
   }
   out->push_back(vec);
 }
-- 
2.43.0


From 8e634c7823a351069cee8ec4607fa2499b728514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:49 +0000
Subject: [PATCH 37/92] fix: no NaN for a point on a radial that ends at a pole

---
 src/kml/base/math_util.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/kml/base/math_util.cc b/src/kml/base/math_util.cc
index 5cbc6d9..47721b9 100644
--- a/src/kml/base/math_util.cc
+++ b/src/kml/base/math_util.cc
@@ -82,8 +82,15 @@ Vec3 LatLngOnRadialFromPoint(double lat, double lng,
   const double lng_r = DegToRad(lng);
   const double distance_r = MetersToRadians(distance);
   const double radial_r = DegToRad(radial);
-  const double radial_lat = asin(sin(lat_r) * cos(distance_r) +
-                    cos(lat_r) * sin(distance_r) * cos(radial_r));
+  // Rounding may take this just past +/-1 for a point at one of the poles.
+  double sin_radial_lat = sin(lat_r) * cos(distance_r) +
+                    cos(lat_r) * sin(distance_r) * cos(radial_r);
+  if (sin_radial_lat > 1.0) {
+    sin_radial_lat = 1.0;
+  } else if (sin_radial_lat < -1.0) {
+    sin_radial_lat = -1.0;
+  }
+  const double radial_lat = asin(sin_radial_lat);
   const double delta_lng = atan2(sin(radial_r) * sin(distance_r) * cos(lat_r),
                            cos(distance_r) - sin(lat_r) * sin(radial_lat));
   const double radial_lng = fmod(lng_r + delta_lng + M_PI, 2 * M_PI) - M_PI;
-- 
2.43.0


From 1eb8220e75a1fe2aebd66c2ae309fb4c0be4fa2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:49 +0000
Subject: [PATCH 38/92] fix: spread the points of a coordinates circle over the
 whole circle

---
 src/kml/convenience/convenience.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/convenience/convenience.cc b/src/kml/convenience/convenience.cc
index 6aa8918..7c0e7da 100644
--- a/src/kml/convenience/convenience.cc
+++ b/src/kml/convenience/convenience.cc
@@ -119,7 +119,7 @@ CoordinatesPtr CreateCoordinatesCircle(double lat, double lng,
   CoordinatesPtr coords = KmlFactory::GetFactory()->CreateCoordinates();
   for (size_t i = 0; i < segments; ++i) {
     coords->add_vec3(kmlbase::LatLngOnRadialFromPoint(
-        lat, lng, radius, static_cast<double>(i)));
+        lat, lng, radius, static_cast<double>(i) * 360.0 / segments));
   }
   return coords;
 }
-- 
2.43.0


From 8542219f0bf95c14865ea7259bfd8b5d9db16cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:47 +0000
Subject: [PATCH 39/92] fix: keep all but the fragment in a fetchable URI

---
 src/kml/engine/kml_uri.cc | 25 ++++---------------------
 1 file changed, 4 insertions(+), 21 deletions(-)

diff --git a/src/kml/engine/kml_uri.cc b/src/kml/engine/kml_uri.cc
index bc20e98..41f8f00 100644
--- a/src/kml/engine/kml_uri.cc
+++ b/src/kml/engine/kml_uri.cc
@@ -60,7 +60,8 @@ KmlUri* KmlUri::CreateRelative(const string& base,
   if (kml_uri->target_uri_.get() &&
       ResolveUri(base, target, &kml_uri->url_) &&
       GetFetchableUri(kml_uri->url_, &fetchable_url)) {
-    kml_uri->is_kmz_ = KmzSplit(fetchable_url,
+    // A KMZ and a file within it are named by the path, not by the query.
+    kml_uri->is_kmz_ = KmzSplit(fetchable_url.substr(0, fetchable_url.find('?')),
                                 &kml_uri->kmz_url_,
                                 &kml_uri->path_in_kmz_);
     return kml_uri;
@@ -180,26 +181,8 @@ bool GetFetchableUri(const string& uri, string* fetchable_uri) {
   if (!fetchable_uri) {
     return true;  // uri parsed fine, just not interested in output.
   }
-  string scheme;
-  static_cast<void> (uri_parser->GetScheme(&scheme));
-  string host;
-  static_cast<void> (uri_parser->GetHost(&host));
-
-  if (!scheme.empty() && !host.empty()) {
-    fetchable_uri->append(scheme).append("://",3).append(host);
-    string port;
-    static_cast<void> (uri_parser->GetPort(&port));
-    if (!port.empty()) {
-      fetchable_uri->append(":",1).append(port);
-    }
-    fetchable_uri->append("/",1);
-  }
-
-  string path;
-  static_cast<void> (uri_parser->GetPath(&path));
-  if (!path.empty()) {
-    fetchable_uri->append(path);
-  }
+  // Everything but the fragment identifies what there is to fetch.
+  *fetchable_uri = uri.substr(0, uri.find('#'));
   return true;
 }
 
-- 
2.43.0


From 277e30360e9bb1e06b7c52989dde8eddc285966d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:47 +0000
Subject: [PATCH 40/92] fix: split a KMZ url only where .kmz ends a path
 component

---
 src/kml/engine/kml_uri.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kml/engine/kml_uri.cc b/src/kml/engine/kml_uri.cc
index 41f8f00..0a9fdec 100644
--- a/src/kml/engine/kml_uri.cc
+++ b/src/kml/engine/kml_uri.cc
@@ -188,7 +188,12 @@ bool GetFetchableUri(const string& uri, string* fetchable_uri) {
 
 bool KmzSplit(const string& kml_url, string* kmz_url,
               string* kmz_path) {
+  // The KMZ is the first path component whose name ends in ".kmz".
   size_t kmz = kml_url.find(".kmz");
+  while (kmz != string::npos && kmz + 4 != kml_url.size() &&
+         kml_url[kmz + 4] != '/') {
+    kmz = kml_url.find(".kmz", kmz + 4);
+  }
   if (kmz == string::npos) {
     return false;
   }
-- 
2.43.0


From 074e4f3a96c7ba0fc740ae1bce41156e656918b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:47 +0000
Subject: [PATCH 41/92] fix: split scheme, path and fragment of an Href where
 they end

---
 src/kml/engine/href.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kml/engine/href.cc b/src/kml/engine/href.cc
index b9a28df..9e9a409 100644
--- a/src/kml/engine/href.cc
+++ b/src/kml/engine/href.cc
@@ -31,7 +31,8 @@ namespace kmlengine {
 size_t Href::ParseScheme(const string& href) {
   // Look for <scheme>://...
   size_t css = href.find("://");
-  if (css == string::npos || css == 0) {
+  // A scheme comes before any path, query or fragment.
+  if (css == string::npos || css == 0 || href.find_first_of("/?#") < css) {
     return 0;
   }
   scheme_ = href.substr(0, css);
@@ -64,7 +65,7 @@ void Href::Parse(const string& href) {
     fragment_ = href.substr(pound + 1);
     path_end = pound;
   }
-  path_ = href.substr(path_start, path_end);
+  path_ = href.substr(path_start, path_end - path_start);
 }
 
 }  // end namespace kmlengine
-- 
2.43.0


From c01ad4938b7d27481ca18e63bb51d47be6b3affe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:47 +0000
Subject: [PATCH 42/92] fix: release the previous URI when parsing another

---
 src/kml/base/uri_parser.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kml/base/uri_parser.cc b/src/kml/base/uri_parser.cc
index d897c03..5ec385b 100644
--- a/src/kml/base/uri_parser.cc
+++ b/src/kml/base/uri_parser.cc
@@ -100,6 +100,8 @@ UriParser::~UriParser() {
 }
 
 bool UriParser::Parse(const char* str) {
+  // Release what any previous parse into this object holds.
+  uriFreeUriMembersA(uri_parser_private_->get_mutable_uri());
   UriParserStateA state;
   state.uri = uri_parser_private_->get_mutable_uri();
   if (uriParseUriA(&state, str) != URI_SUCCESS) {
-- 
2.43.0


From b1706791357943daa78dbb679ebb72e969c8e9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:53 +0000
Subject: [PATCH 43/92] fix: read an empty file of a zip archive

---
 src/kml/base/zip_file.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kml/base/zip_file.cc b/src/kml/base/zip_file.cc
index 18cab12..f523ef2 100644
--- a/src/kml/base/zip_file.cc
+++ b/src/kml/base/zip_file.cc
@@ -199,7 +199,8 @@ bool ZipFile::GetEntry(const string& path_in_zip,
     return false;
   }
   unsigned long nbytes = finfo.uncompressed_size;
-  if (nbytes == 0 || nbytes > max_uncompressed_file_size_) {
+  if ((nbytes == 0 && finfo.crc != 0) ||
+      nbytes > max_uncompressed_file_size_) {
     // This is likely an imcompatibility between the library with which the
     // file was created and what the underlying minizip library can
     // uncompress. One such error is in the unit test for this file.
-- 
2.43.0


From 9910b8825de9521ca1a7ff0bcf244aa0a7aa42bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:14 +0000
Subject: [PATCH 44/92] fix: refuse a zip entry whose path leads above the
 archive

---
 src/kml/base/zip_file.cc | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/kml/base/zip_file.cc b/src/kml/base/zip_file.cc
index f523ef2..e5cf76b 100644
--- a/src/kml/base/zip_file.cc
+++ b/src/kml/base/zip_file.cc
@@ -221,11 +221,33 @@ bool ZipFile::GetEntry(const string& path_in_zip,
   return false;
 }
 
+// Does following the path from the root of the archive ever lead above it?
+static bool ClimbsAboveRoot(const string& path) {
+  int depth = 0;
+  size_t begin = 0;
+  while (begin <= path.size()) {
+    size_t end = path.find_first_of("/\\", begin);
+    if (end == string::npos) {
+      end = path.size();
+    }
+    const string component = path.substr(begin, end - begin);
+    if (component == "..") {
+      if (--depth < 0) {
+        return true;
+      }
+    } else if (!component.empty() && component != ".") {
+      ++depth;
+    }
+    begin = end + 1;
+  }
+  return false;
+}
+
 bool ZipFile::AddEntry(const string& data,
                        const string& path_in_zip) {
   // The path must be relative to and below the archive.
   if (path_in_zip.substr(0, 1).find_first_of("/\\") != string::npos ||
-      path_in_zip.substr(0, 2) == "..") {
+      path_in_zip.substr(0, 2) == ".." || ClimbsAboveRoot(path_in_zip)) {
     return false;
   }
   if (!minizip_file_) {
-- 
2.43.0


From 5c9587eb5965a89f2144fe6055419a5e305362b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:05 +0000
Subject: [PATCH 45/92] fix: terminate a zip entry name that fills the name
 buffer

---
 src/kml/base/zip_file.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kml/base/zip_file.cc b/src/kml/base/zip_file.cc
index e5cf76b..9e4c37b 100644
--- a/src/kml/base/zip_file.cc
+++ b/src/kml/base/zip_file.cc
@@ -99,8 +99,10 @@ ZipFile::ZipFile(const string& data)
       unz_file_info finfo;
       do {
         static char buf[1024];
-        if (libkml_unzGetCurrentFileInfo(zfile, &finfo, buf, sizeof(buf),
+        // A name that fills the buffer is not terminated by minizip.
+        if (libkml_unzGetCurrentFileInfo(zfile, &finfo, buf, sizeof(buf) - 1,
               0, 0, 0, 0) == UNZ_OK) {
+          buf[sizeof(buf) - 1] = '\0';
           zipfile_toc_.push_back(buf);
         }
       } while (libkml_unzGoToNextFile(zfile) == UNZ_OK);
-- 
2.43.0


From 5037132d6a56c64d97a88a2a467d2a8d839daaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:05 +0000
Subject: [PATCH 46/92] fix: do not cache a CacheItem that could not be created

---
 src/kml/base/net_cache.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kml/base/net_cache.h b/src/kml/base/net_cache.h
index 1d979b7..98039c5 100644
--- a/src/kml/base/net_cache.h
+++ b/src/kml/base/net_cache.h
@@ -129,6 +129,9 @@ class NetCache {
     }
     // Fetch succeeded: create a CacheItem from the data.
     CacheItemPtr item = CacheItem::CreateFromString(data);
+    if (!item) {
+      return NULL;  // The data is not that of a CacheItem: nothing to cache.
+    }
     if (!Save(url, item)) {  // This is basically an internal error.
       return NULL;
     }
-- 
2.43.0


From 941116ecbfe7d73809ee19086a1de05a2744b147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:05 +0000
Subject: [PATCH 47/92] fix: end the search for a KMZ-relative target that does
 not exist

---
 src/kml/engine/kmz_cache.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/kml/engine/kmz_cache.cc b/src/kml/engine/kmz_cache.cc
index ab85769..9317171 100644
--- a/src/kml/engine/kmz_cache.cc
+++ b/src/kml/engine/kmz_cache.cc
@@ -119,10 +119,20 @@ bool KmzCache::DoFetchAndReturnUrl(KmlUri* kml_uri, string* content,
   if (!kmz_relative.get()) {
     return false;
   }
+  if (kmz_relative->is_kmz()) {
+    // The target itself names a KMZ (or a file in one).  There is nothing
+    // further this could be relative to.
+    if (!Fetch(kmz_relative->get_kmz_url()) ||
+        !FetchFromCache(kmz_relative.get(), content)) {
+      return false;
+    }
+  } else if (!DoFetch(kmz_relative.get(), content)) {
+    return false;
+  }
   if (fetched_url) {
     *fetched_url = kmz_relative->get_url();
   }
-  return DoFetch(kmz_relative.get(), content);
+  return true;
 }
 
 bool KmzCache::FetchFromCache(KmlUri* kml_uri, string* content) const {
-- 
2.43.0


From f60012d83f8fdb1fb5a1309c7a7b295427aebdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:21 +0000
Subject: [PATCH 48/92] fix: leave the fragment out of the url that is fetched

---
 src/kml/engine/kml_uri.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kml/engine/kml_uri.cc b/src/kml/engine/kml_uri.cc
index 0a9fdec..2496e6f 100644
--- a/src/kml/engine/kml_uri.cc
+++ b/src/kml/engine/kml_uri.cc
@@ -64,6 +64,8 @@ KmlUri* KmlUri::CreateRelative(const string& base,
     kml_uri->is_kmz_ = KmzSplit(fetchable_url.substr(0, fetchable_url.find('?')),
                                 &kml_uri->kmz_url_,
                                 &kml_uri->path_in_kmz_);
+    // The fragment is not part of the address of what is fetched.
+    kml_uri->url_ = fetchable_url;
     return kml_uri;
   }
   // KmlCache NULL or base or target invalid.
-- 
2.43.0


From ef0bea7416a67f643744377b568c654aa8eaadb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:15 +0000
Subject: [PATCH 49/92] fix: keep region bounds exact when descending the
 region hierarchy

---
 src/kml/regionator/regionator_util.cc | 31 +++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/kml/regionator/regionator_util.cc b/src/kml/regionator/regionator_util.cc
index 48bb0c0..4dd1dbc 100644
--- a/src/kml/regionator/regionator_util.cc
+++ b/src/kml/regionator/regionator_util.cc
@@ -49,9 +49,32 @@ using kmldom::PointPtr;
 using kmldom::RegionPtr;
 using kmlengine::Bbox;
 
+// A clone has passed through text and its bounds are rounded.  A bound that is
+// off by a rounding error can leave out the data that is on it.
+static void CopyBounds(const LatLonAltBoxPtr& orig,
+                       const LatLonAltBoxPtr& clone) {
+  if (!orig || !clone) {
+    return;
+  }
+  if (orig->has_north()) {
+    clone->set_north(orig->get_north());
+  }
+  if (orig->has_south()) {
+    clone->set_south(orig->get_south());
+  }
+  if (orig->has_east()) {
+    clone->set_east(orig->get_east());
+  }
+  if (orig->has_west()) {
+    clone->set_west(orig->get_west());
+  }
+}
+
 // This creates a new LatLonAltBox setting all fields set in the original.
 LatLonAltBoxPtr CloneLatLonAltBox(const LatLonAltBoxPtr& orig) {
-  return AsLatLonAltBox(kmlengine::Clone(orig));
+  LatLonAltBoxPtr clone = AsLatLonAltBox(kmlengine::Clone(orig));
+  CopyBounds(orig, clone);
+  return clone;
 }
 
 // This creates a new Lod setting all fields set in the original.
@@ -62,7 +85,11 @@ LodPtr CloneLod(const LodPtr& orig) {
 // This creates a new Region based on the LatLonAltBox and/or Lod found in the
 // original Region.
 RegionPtr CloneRegion(const RegionPtr& orig) {
-  return AsRegion(kmlengine::Clone(orig));
+  RegionPtr clone = AsRegion(kmlengine::Clone(orig));
+  if (clone) {
+    CopyBounds(orig->get_latlonaltbox(), clone->get_latlonaltbox());
+  }
+  return clone;
 }
 
 bool CreateAlignedAbstractLatLonBox(const AbstractLatLonBoxPtr& llb,
-- 
2.43.0


From 68f591a04145e618c20c94091110ab9692cd8485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:02 +0000
Subject: [PATCH 50/92] fix: rebase a style reference of one character

---
 src/kml/convenience/kml_feature_list_saver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/convenience/kml_feature_list_saver.h b/src/kml/convenience/kml_feature_list_saver.h
index ca85d14..040fc37 100644
--- a/src/kml/convenience/kml_feature_list_saver.h
+++ b/src/kml/convenience/kml_feature_list_saver.h
@@ -81,7 +81,7 @@ class KmlFeatureListSaver : public kmldom::ParserObserver {
       kmldom::FeaturePtr feature = kmldom::AsFeature(child);
       if (!style_base_.empty() && feature->has_styleurl()) {
         const string& styleurl = feature->get_styleurl();
-        if (styleurl.size() > 2 && styleurl[0] == '#') {
+        if (styleurl.size() > 1 && styleurl[0] == '#') {
           feature->set_styleurl(style_base_ + styleurl);
         }
       }
-- 
2.43.0


From 571c11048e747cdd4cc2b35953aca96c02ca1b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:48 +0000
Subject: [PATCH 51/92] fix: create CSV placemarks with the factory instead of
 a null pointer

---
 src/kml/convenience/csv_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/convenience/csv_parser.cc b/src/kml/convenience/csv_parser.cc
index e20434f..340eed2 100644
--- a/src/kml/convenience/csv_parser.cc
+++ b/src/kml/convenience/csv_parser.cc
@@ -82,7 +82,7 @@ CsvParser::CsvParser(kmlbase::CsvSplitter* csv_splitter,
   , feature_id_(npos)
   , style_id_(npos)
   , style_url_base_(kDefaultStyleUrlBase)
-  , kml_factory_(0)
+  , kml_factory_(kmldom::KmlFactory::GetFactory())
 {
 }
 
-- 
2.43.0


From f7eb4a13d969b91926eec0d82b9a9f4ececa32b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:48 +0000
Subject: [PATCH 52/92] fix: read the lines after a blank line of a CSV file

---
 src/kml/convenience/csv_file.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/convenience/csv_file.cc b/src/kml/convenience/csv_file.cc
index 889bf33..b812ac2 100644
--- a/src/kml/convenience/csv_file.cc
+++ b/src/kml/convenience/csv_file.cc
@@ -73,7 +73,7 @@ void CsvFile::ParseCsvFile(const char* filename) {
     string csv_line;
     getline(csv_file, csv_line);
     if (csv_line.empty()) {
-      return;
+      continue;
     }
     ParseCsvLine(csv_line);
   }
-- 
2.43.0


From 019985f3f5c719162d8a81e616cb4371c12bf9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:48 +0000
Subject: [PATCH 53/92] fix: expand every occurrence of a key

---
 src/kml/base/string_util.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/kml/base/string_util.cc b/src/kml/base/string_util.cc
index d644e33..a79dd99 100644
--- a/src/kml/base/string_util.cc
+++ b/src/kml/base/string_util.cc
@@ -46,15 +46,15 @@ string CreateExpandedStrings(const string& in,
   StringMap::const_iterator itr = string_map.begin();
   for (itr = string_map.begin(); itr != string_map.end(); ++itr)  {
     string candidate(start + itr->first + end);
+    if (candidate.empty()) {
+      continue;
+    }
     size_t start_pos = out.find(candidate);
     while (start_pos != string::npos) {
       out.replace(start_pos, candidate.size(), itr->second);
-      // Avoid an infinite loop if the value contains the key. Allow the first
-      // replacement to happen, then bail.
-      if (itr->second.find(itr->first) != string::npos) {
-        break;
-      }
-      start_pos = out.find(candidate, start_pos + candidate.size());
+      // Proceed after the value: it may be shorter than the key and it may
+      // contain the key.
+      start_pos = out.find(candidate, start_pos + itr->second.size());
     }
   }
   return out;
-- 
2.43.0


From 185b034b9bf88db65c30b329eff93300b13f997b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:48 +0000
Subject: [PATCH 54/92] fix: skip the whole separator when splitting a string

---
 src/kml/base/string_util.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kml/base/string_util.cc b/src/kml/base/string_util.cc
index a79dd99..4b3a612 100644
--- a/src/kml/base/string_util.cc
+++ b/src/kml/base/string_util.cc
@@ -110,9 +110,10 @@ void SplitStringUsing(const string& input, const string& split_string,
                       std::vector<string>* output) {
   string iter = input;
   size_t separator;
-  while ((separator = iter.find(split_string)) != string::npos) {
+  while (!split_string.empty() &&
+         (separator = iter.find(split_string)) != string::npos) {
     output->push_back(iter.substr(0, separator));
-    iter = iter.substr(separator+1);
+    iter = iter.substr(separator + split_string.size());
   }
   output->push_back(iter);
 }
-- 
2.43.0


From 6b25cbf59ebed0dbc301cab32bdecc26a870cb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:48 +0000
Subject: [PATCH 55/92] fix: ignore an unpaired last item in a list of
 attributes

---
 src/kml/base/attributes.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/base/attributes.cc b/src/kml/base/attributes.cc
index f808b2b..b48c6b5 100644
--- a/src/kml/base/attributes.cc
+++ b/src/kml/base/attributes.cc
@@ -62,7 +62,7 @@ bool Attributes::Parse(const char** attrs) {
 
 bool Attributes::Parse(const kmlbase::StringVector& attrs) {
   for (unsigned int i = 0; i < attrs.size() ; i += 2) {
-    if (attrs.size() - i < 1)
+    if (attrs.size() - i < 2)
       break;
     string attr_name = attrs.at(i);
     string attr_val = attrs.at(i+1);
-- 
2.43.0


From 2789200eebb952e01b1824167ae06802d25b4bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:18 +0000
Subject: [PATCH 56/92] fix: do not report references within the document as
 missing from the KMZ

---
 src/kml/convenience/kmz_check_links.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kml/convenience/kmz_check_links.cc b/src/kml/convenience/kmz_check_links.cc
index 015fbc3..60a6a8d 100644
--- a/src/kml/convenience/kmz_check_links.cc
+++ b/src/kml/convenience/kmz_check_links.cc
@@ -51,7 +51,8 @@ bool KmzCheckLinks(const KmzFile& kmzfile, vector<string>* missing_links) {
   bool ret = true;  // Innocent until proven guilty.
   for (size_t i = 0; i < href_vector.size(); ++i) {
     Href href(href_vector[i]);
-    if (href.IsRelative()) {
+    // A reference to an element of this KML file needs no file in the KMZ.
+    if (href.IsRelativePath()) {
       string content;
       if (!kmzfile.ReadFile(href.get_path().c_str(), &content)) {
         if (missing_links) {
-- 
2.43.0


From 36779e91bceb4af71b4b19064e397238a4b77ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:42 +0000
Subject: [PATCH 57/92] fix: name simple data by its own schema

---
 src/kml/engine/entity_mapper.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/kml/engine/entity_mapper.cc b/src/kml/engine/entity_mapper.cc
index 4f87c40..2003255 100644
--- a/src/kml/engine/entity_mapper.cc
+++ b/src/kml/engine/entity_mapper.cc
@@ -140,6 +140,7 @@ void EntityMapper::GatherDataFields(const DataPtr& data) {
 void EntityMapper::GatherSchemaDataFields(const SchemaDataPtr& schemadata) {
   // We need to take the schemaUrl and find the <Schema> with that id.
   schemadata_prefix_ = "/";
+  simplefield_name_map_.clear();  // The names are those of this schema.
   if (schemadata->has_schemaurl()) {
     // We need to get the name= attr of the <Schema> with the id= attr that
     // matches this schemaUrl.
@@ -187,13 +188,14 @@ void EntityMapper::GatherSimpleDataFields(const SimpleDataPtr& simpledata) {
   // the populated map. If there isn't, the map is empty and we'll use the
   // name attr of the SimpleData element.
   if (alt_markup_map_) {
-    if (simplefield_name_map_.empty()) {
+    StringMap::const_iterator iter =
+        simplefield_name_map_.find(simpledata->get_name());
+    if (iter == simplefield_name_map_.end()) {
       alt_markup_map_->push_back(
           std::make_pair(simpledata->get_name(), simpledata->get_text()));
     } else {
       alt_markup_map_->push_back(
-          std::make_pair(simplefield_name_map_[simpledata->get_name()],
-                         simpledata->get_text()));
+          std::make_pair(iter->second, simpledata->get_text()));
     }
   }
 }
-- 
2.43.0


From 1a75f4debfc6e9a6488b7a2cb745442ec895eb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:17 +0000
Subject: [PATCH 58/92] fix: build a balloon from extended data only where
 there is no description

---
 src/kml/engine/feature_balloon.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/kml/engine/feature_balloon.cc b/src/kml/engine/feature_balloon.cc
index 8452ca3..62bcedc 100644
--- a/src/kml/engine/feature_balloon.cc
+++ b/src/kml/engine/feature_balloon.cc
@@ -75,11 +75,9 @@ string CreateBalloonText(const KmlFilePtr& kml_file,
   // If we have a description, append it.
   if (feature->has_description()) {
     text += CreateExpandedEntities(feature->get_description(), entity_map);
-  }
-
-  // If we have neither a BalloonStyle/text nor a description, we try to
-  // build the balloon from any Data and/or SchemaData elements.
-  if (feature->has_extendeddata()) {
+  } else if (feature->has_extendeddata()) {
+    // If we have neither a BalloonStyle/text nor a description, we try to
+    // build the balloon from any Data and/or SchemaData elements.
     text.append("\n<table border=\"1\">\n");
     StringPairVector::const_iterator itr;
     for (itr = alt_markup_map.begin(); itr != alt_markup_map.end(); ++itr) {
-- 
2.43.0


From fab041373a305e6577e1e1da593834504807f0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:30 +0000
Subject: [PATCH 59/92] fix: convert dates before 1970

---
 src/kml/base/date_time.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kml/base/date_time.cc b/src/kml/base/date_time.cc
index 01dbfc4..ac07917 100644
--- a/src/kml/base/date_time.cc
+++ b/src/kml/base/date_time.cc
@@ -70,6 +70,8 @@ time_t DateTime::GetTimeT() const {
   // This and is_leap() base from 1970, the epoch of a time_t.
   for (int year = 70; year < tm_.tm_year; ++year)
     res += is_leap(year) ? 366 : 365;
+  for (int year = tm_.tm_year; year < 70; ++year)
+    res -= is_leap(year) ? 366 : 365;
 
   for (int month = 0; month < tm_.tm_mon; ++month)
     res += ndays[is_leap(tm_.tm_year)][month];
-- 
2.43.0


From 36065a5d26721aa76b2dace390739e122576f083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:28 +0000
Subject: [PATCH 60/92] fix: reject a date-time that is followed by other text

---
 src/kml/base/date_time.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/kml/base/date_time.cc b/src/kml/base/date_time.cc
index ac07917..185a13c 100644
--- a/src/kml/base/date_time.cc
+++ b/src/kml/base/date_time.cc
@@ -27,6 +27,7 @@
 
 #include "kml/base/date_time.h"
 #include "boost/scoped_ptr.hpp"
+#include <ctype.h>
 #include <stdlib.h>
 
 #ifdef _WIN32
@@ -115,7 +116,16 @@ DateTime::DateTime() {
 // private
 bool DateTime::ParseXsdDateTime(const string& xsd_date_time) {
   // TODO: strptime on win32?
-  return strptime(xsd_date_time.c_str(), "%Y-%m-%dT%H:%M:%SZ", &tm_) != NULL;
+  const char* end =
+      strptime(xsd_date_time.c_str(), "%Y-%m-%dT%H:%M:%SZ", &tm_);
+  if (!end) {
+    return false;
+  }
+  // Nothing but whitespace may follow.
+  while (isspace(static_cast<unsigned char>(*end))) {
+    ++end;
+  }
+  return *end == '\0';
 }
 
 }  // end namespace kmlbase
-- 
2.43.0


From 0fe0403394b8ea26e460ec4f92eae5c2a06a3bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:01 +0000
Subject: [PATCH 61/92] fix: report files that cannot be read to the end

---
 src/kml/base/file.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/kml/base/file.cc b/src/kml/base/file.cc
index 7aec359..c2e34db 100644
--- a/src/kml/base/file.cc
+++ b/src/kml/base/file.cc
@@ -46,16 +46,21 @@ bool File::ReadFileToString(const string& filename, string* output) {
   if (!input_file.is_open() || !input_file.good()) {
     return false;
   }
-  output->clear();
+  string contents;
   const unsigned int kBufferSize = 1024;
   char buffer[kBufferSize];
   while (!input_file.eof() && input_file.good()) {
     input_file.read(buffer, kBufferSize);
     // Guard zero read sizess for MSVC 2010.
     if (input_file.gcount() > 0) {
-      output->append(buffer, static_cast<size_t>(input_file.gcount()));
+      contents.append(buffer, static_cast<size_t>(input_file.gcount()));
     }
   }
+  // Reading ends at the end of the file or with an error.
+  if (!input_file.eof()) {
+    return false;
+  }
+  output->swap(contents);
   return true;
 }
 
-- 
2.43.0


From 402d63eaffe88f6c1346929a04e96f0819559e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:01 +0000
Subject: [PATCH 62/92] fix: report a file write that failed

---
 src/kml/base/file.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/base/file.cc b/src/kml/base/file.cc
index c2e34db..735eda6 100644
--- a/src/kml/base/file.cc
+++ b/src/kml/base/file.cc
@@ -76,7 +76,7 @@ bool File::WriteStringToFile(const string& data,
   }
   output_file.write(data.c_str(), static_cast<std::streamsize>(data.length()));
   output_file.close();
-  return true;
+  return output_file.good();
 }
 
 string File::JoinPaths(const string& p1, const string& p2) {
-- 
2.43.0


From dc4c8630d91f3c4edc8052d8e1e8769b4d1725d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:43 +0000
Subject: [PATCH 63/92] fix: do not report the previous point for a trkpt
 without position

---
 src/kml/convenience/gpx_trk_pt_handler.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kml/convenience/gpx_trk_pt_handler.h b/src/kml/convenience/gpx_trk_pt_handler.h
index 2e7fdd6..3db9a2e 100644
--- a/src/kml/convenience/gpx_trk_pt_handler.h
+++ b/src/kml/convenience/gpx_trk_pt_handler.h
@@ -64,6 +64,7 @@ class GpxTrkPtHandler : public kmlbase::ExpatHandler {
       // <trkpt lat="-33.911973070" lon="18.422974152">
       // If both lat and lon exist and are sane doubles create a Vec3 for
       // the point.
+      vec3_.reset();
       boost::scoped_ptr<kmlbase::Attributes> attributes(
           kmlbase::Attributes::Create(atts));
       if (attributes.get()) {
-- 
2.43.0


From f8a27c1f24c40c03f36d5b9ab40f373252c558bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:11 +0000
Subject: [PATCH 64/92] fix: ignore trkpt positions and elevations that are not
 numbers

---
 src/kml/convenience/gpx_trk_pt_handler.h | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/kml/convenience/gpx_trk_pt_handler.h b/src/kml/convenience/gpx_trk_pt_handler.h
index 3db9a2e..fda713f 100644
--- a/src/kml/convenience/gpx_trk_pt_handler.h
+++ b/src/kml/convenience/gpx_trk_pt_handler.h
@@ -29,6 +29,8 @@
 #define KML_CONVENIENCE_GPX_TRK_PT_HANDLER_H__
 
 #include <cstring>  // strcmp
+#include <locale>
+#include <sstream>
 #include "boost/scoped_ptr.hpp"
 #include "kml/base/attributes.h"
 #include "kml/base/expat_handler.h"
@@ -68,10 +70,12 @@ class GpxTrkPtHandler : public kmlbase::ExpatHandler {
       boost::scoped_ptr<kmlbase::Attributes> attributes(
           kmlbase::Attributes::Create(atts));
       if (attributes.get()) {
+        string lat;
+        string lon;
         double latitude;
         double longitude;
-        if (attributes->GetDouble("lat", &latitude) &&
-            attributes->GetDouble("lon", &longitude)) {
+        if (attributes->GetString("lat", &lat) && ToDouble(lat, &latitude) &&
+            attributes->GetString("lon", &lon) && ToDouble(lon, &longitude)) {
           vec3_.reset(new kmlbase::Vec3(longitude, latitude));
         }
       }
@@ -99,9 +103,10 @@ class GpxTrkPtHandler : public kmlbase::ExpatHandler {
     } else if (name.compare("ele") == 0) {
       // <ele>4.943848</ele>
       if (vec3_.get()) {
-	double alt;
-	kmlbase::FromString(char_data_, &alt);
-        vec3_->set_altitude(alt);
+        double alt;
+        if (ToDouble(char_data_, &alt)) {
+          vec3_->set_altitude(alt);
+        }
       }
     }
   }
@@ -119,6 +124,12 @@ class GpxTrkPtHandler : public kmlbase::ExpatHandler {
   };
 
  private:
+  // This returns false if the text does not begin with a number.
+  static bool ToDouble(const string& text, double* value) {
+    std::istringstream iss(text);
+    iss.imbue(std::locale::classic());
+    return !(iss >> *value).fail();
+  }
 
   // A fresh Vec3 is created for each <trkpt>.
   boost::scoped_ptr<kmlbase::Vec3> vec3_;
-- 
2.43.0


From f02316536f3226c798dc3bb8c124a5bcec31ee3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:34 +0000
Subject: [PATCH 65/92] fix: clone the feature of an Atom entry as documented

---
 src/kml/convenience/atom_util.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kml/convenience/atom_util.cc b/src/kml/convenience/atom_util.cc
index 4baa5a3..d83c9a1 100644
--- a/src/kml/convenience/atom_util.cc
+++ b/src/kml/convenience/atom_util.cc
@@ -160,7 +160,8 @@ FeaturePtr AtomUtil::GetEntryFeature(const AtomEntryPtr& entry) {
 
 // static
 FeaturePtr AtomUtil::CloneEntryFeature(const AtomEntryPtr& entry) {
-  if (FeaturePtr feature = GetEntryFeature(entry)) {
+  if (FeaturePtr feature = kmldom::AsFeature(
+          kmlengine::Clone(GetEntryFeature(entry)))) {
     string href;
     if (FindRelUrl(*entry.get(), "self", &href)) {
       AtomLinkPtr link = KmlFactory::GetFactory()->CreateAtomLink();
-- 
2.43.0


From cc2334f1cca997588e91e6794708d598f9a8c9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:34 +0000
Subject: [PATCH 66/92] fix: set the atom:link of the container of feed
 features as documented

---
 src/kml/convenience/atom_util.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/kml/convenience/atom_util.cc b/src/kml/convenience/atom_util.cc
index d83c9a1..e18fabe 100644
--- a/src/kml/convenience/atom_util.cc
+++ b/src/kml/convenience/atom_util.cc
@@ -178,6 +178,12 @@ void AtomUtil::GetFeedFeatures(const AtomFeedPtr& feed,
                                ContainerPtr container) {
   // Need both an <atom:feed> and Container to do anything interesting.
   if (feed.get() && container.get()) {
+    string href;
+    if (FindRelUrl(*feed.get(), "self", &href)) {
+      AtomLinkPtr link = KmlFactory::GetFactory()->CreateAtomLink();
+      link->set_href(href);
+      container->set_atomlink(link);
+    }
     for (size_t i = 0; i < feed->get_entry_array_size(); ++i) {
       // We need to clone because libkml allows no more than one parent per
       // XmlElement (see kmlbase::XmlElement::SetParent).
-- 
2.43.0


From 475913dbde41539d07849072b382e81d18179577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:34 +0000
Subject: [PATCH 67/92] fix: allow no output string in GetGdResourceId as
 documented

---
 src/kml/convenience/atom_util.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kml/convenience/atom_util.cc b/src/kml/convenience/atom_util.cc
index e18fabe..989e027 100644
--- a/src/kml/convenience/atom_util.cc
+++ b/src/kml/convenience/atom_util.cc
@@ -258,7 +258,9 @@ bool AtomUtil::GetGdResourceId(const kmldom::AtomEntryPtr& entry,
     if (HackParseElement(entry->get_unknown_elements_array_at(i), &tag,
                          &content) &&
         tag == "resourceId") {
-      *resource_id = content;
+      if (resource_id) {
+        *resource_id = content;
+      }
       return true;
     }
   }
-- 
2.43.0


From cf7d4764e13955897f812f113c0594bab04f2029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:34 +0000
Subject: [PATCH 68/92] fix: know the gx elements of features in Atom

---
 src/kml/dom/parser.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kml/dom/parser.cc b/src/kml/dom/parser.cc
index f012a50..e69fb12 100644
--- a/src/kml/dom/parser.cc
+++ b/src/kml/dom/parser.cc
@@ -87,6 +87,7 @@ ElementPtr Parser::ParseAtom(const string& atom, string* errors) {
   // 4) KmlHandler knows that <atom:feed> is kmldom::AtomFeed
   attributes.SetValue("xmlns", "http://www.opengis.net/kml/2.2");
   attributes.SetValue("xmlns:atom", "http://www.w3.org/2005/Atom");
+  attributes.SetValue("xmlns:gx", "http://www.google.com/kml/ext/2.2");
   boost::scoped_ptr<kmlbase::Xmlns> xmlns(kmlbase::Xmlns::Create(attributes));
   kmlbase::ExpatHandlerNs expat_handler_ns(&kml_handler, xmlns.get());
   if (kmlbase::ExpatParser::ParseString(atom, &expat_handler_ns, errors,
-- 
2.43.0


From 856a67a1f4480b60869bb55374344d99688ad4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:39 +0000
Subject: [PATCH 69/92] fix: declare the gx namespace for simple gx elements

---
 src/kml/engine/find_xml_namespaces.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/kml/engine/find_xml_namespaces.cc b/src/kml/engine/find_xml_namespaces.cc
index 0500e3a..f8e979a 100644
--- a/src/kml/engine/find_xml_namespaces.cc
+++ b/src/kml/engine/find_xml_namespaces.cc
@@ -28,6 +28,7 @@
 #include "kml/base/attributes.h"
 #include "kml/base/xml_namespaces.h"
 #include "kml/dom/serializer.h"
+#include "kml/dom/xsd.h"
 
 using kmlbase::Attributes;
 using kmldom::ElementPtr;
@@ -43,8 +44,7 @@ class XmlNamespaceFinder : public Serializer {
     : xmlns_id_set_(xmlns_id_set) {
   }
 
-  // This is the only Serializer virtual method implemented
-  // in ElementFinder.  As such only complex elements are found.
+  // This finds the namespaces of all complex elements.
   virtual void SaveElement(const ElementPtr& element) {
     xmlns_id_set_->insert(element->get_xmlns());
 
@@ -52,6 +52,14 @@ class XmlNamespaceFinder : public Serializer {
     Serializer::SaveElement(element);
   }
 
+  // Some of the simple elements of KML elements are in the gx namespace.
+  virtual void SaveStringFieldById(int type_id, string value) {
+    if (kmldom::Xsd::GetSchema()->ElementName(type_id).compare(0, 3, "gx:") ==
+        0) {
+      xmlns_id_set_->insert(kmlbase::XMLNS_GX22);
+    }
+  }
+
  private:
   XmlnsIdSet* xmlns_id_set_;
 };
-- 
2.43.0


From 830e0af713583dc6324dbd09d756d256c0700e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:22 +0000
Subject: [PATCH 70/92] fix: know the xal elements of features in Atom

---
 src/kml/dom/parser.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kml/dom/parser.cc b/src/kml/dom/parser.cc
index e69fb12..367265c 100644
--- a/src/kml/dom/parser.cc
+++ b/src/kml/dom/parser.cc
@@ -88,6 +88,7 @@ ElementPtr Parser::ParseAtom(const string& atom, string* errors) {
   attributes.SetValue("xmlns", "http://www.opengis.net/kml/2.2");
   attributes.SetValue("xmlns:atom", "http://www.w3.org/2005/Atom");
   attributes.SetValue("xmlns:gx", "http://www.google.com/kml/ext/2.2");
+  attributes.SetValue("xmlns:xal", "urn:oasis:names:tc:ciq:xsdschema:xAL:2.0");
   boost::scoped_ptr<kmlbase::Xmlns> xmlns(kmlbase::Xmlns::Create(attributes));
   kmlbase::ExpatHandlerNs expat_handler_ns(&kml_handler, xmlns.get());
   if (kmlbase::ExpatParser::ParseString(atom, &expat_handler_ns, errors,
-- 
2.43.0


From 056e7b7dc0170ce64ade7acd6c2fa81664d841e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:43 +0000
Subject: [PATCH 71/92] fix: keep nested and anonymous XSD types apart from
 declared ones

---
 src/kml/xsd/xsd_handler.cc | 24 ++++++++++++++++++++----
 src/kml/xsd/xsd_handler.h  |  6 +++++-
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/kml/xsd/xsd_handler.cc b/src/kml/xsd/xsd_handler.cc
index 98dc545..30dc3ca 100644
--- a/src/kml/xsd/xsd_handler.cc
+++ b/src/kml/xsd/xsd_handler.cc
@@ -40,7 +40,7 @@ namespace kmlxsd {
 
 // <xs:complexType name="..." abstract="...">
 void XsdHandler::StartComplexType(const Attributes& attributes) {
-  if (!current_type_) {  // <xs:complexType> and/or <xs:simpleType>
+  if (++type_depth_ == 1) {  // <xs:complexType> and/or <xs:simpleType>
     current_type_ = XsdComplexType::Create(attributes);
   }
 }
@@ -48,12 +48,20 @@ void XsdHandler::StartComplexType(const Attributes& attributes) {
 // </xs:complexType">
 // </xs:simpleType">
 void XsdHandler::EndType() {
-  xsd_file_->add_type(current_type_);
+  if (--type_depth_ > 0) {
+    return;
+  }
+  if (current_type_) {  // NULL if anonymous.
+    xsd_file_->add_type(current_type_);
+  }
   current_type_ = NULL;
 }
 
 // <xs:extension base="...">
 void XsdHandler::StartExtension(const Attributes& attributes) {
+  if (type_depth_ != 1) {
+    return;
+  }
   if (XsdComplexTypePtr complex_type =
           XsdComplexType::AsComplexType(current_type_)) {
     string base;
@@ -65,13 +73,16 @@ void XsdHandler::StartExtension(const Attributes& attributes) {
 
 // <xs:simpleType name="..."/>
 void XsdHandler::StartSimpleType(const Attributes& attributes) {
-  if (!current_type_) {  // <xs:simpleType is never nested...
+  if (++type_depth_ == 1) {  // A nested type is anonymous.
     current_type_ = XsdSimpleType::Create(attributes);
   }
 }
 
 // <xs:restriction base="...">
 void XsdHandler::StartRestriction(const Attributes& attributes) {
+  if (type_depth_ != 1) {
+    return;
+  }
   if (XsdSimpleTypePtr simple_type =
           XsdSimpleType::AsSimpleType(current_type_)) {
     string base;
@@ -83,6 +94,9 @@ void XsdHandler::StartRestriction(const Attributes& attributes) {
 
 // <xs:enumeration value="...">
 void XsdHandler::StartEnumeration(const Attributes& attributes) {
+  if (type_depth_ != 1) {
+    return;
+  }
   if (XsdSimpleTypePtr simple_type =
           XsdSimpleType::AsSimpleType(current_type_)) {
     string value;
@@ -95,7 +109,7 @@ void XsdHandler::StartEnumeration(const Attributes& attributes) {
 // <xs:element name="..." type="..." default=".."/>
 // <xs:element ref="..." minOccurs="..." maxOccurs="..."/>
 void XsdHandler::StartXsElement(const Attributes& attributes) {
-  XsdElement* element = XsdElement::Create(attributes);
+  XsdElementPtr element = XsdElement::Create(attributes);
   if (!element) {
     return;
   }
@@ -103,6 +117,8 @@ void XsdHandler::StartXsElement(const Attributes& attributes) {
   // Is this a global element?
   if (parse_.top() == kSchema) {
     xsd_file_->add_element(element);
+  } else if (type_depth_ != 1) {
+    return;
   } else if (XsdComplexTypePtr complex_type =
                  XsdComplexType::AsComplexType(current_type_)) {
      // Is it a child of <xs:complexType>?
diff --git a/src/kml/xsd/xsd_handler.h b/src/kml/xsd/xsd_handler.h
index 0dfba03..cca3067 100644
--- a/src/kml/xsd/xsd_handler.h
+++ b/src/kml/xsd/xsd_handler.h
@@ -52,7 +52,8 @@ class XsdHandler : public kmlbase::ExpatHandler {
  public:
   XsdHandler(XsdFile* xsd_file)
     : xsd_file_(xsd_file),
-      current_type_(NULL) {
+      current_type_(NULL),
+      type_depth_(0) {
   }
   virtual ~XsdHandler() {}
 
@@ -82,7 +83,10 @@ class XsdHandler : public kmlbase::ExpatHandler {
   void StartEnumeration(const kmlbase::Attributes& attributes);
 
   void EndType();
+  // The <xs:complexType>/<xs:simpleType> child of <xs:schema> being parsed.
   XsdTypePtr current_type_;
+  // Types nest: only what is at depth 1 belongs to current_type_.
+  int type_depth_;
 
   std::stack<string> parse_;
 };
-- 
2.43.0


From d6e4b1a2b73f62dcb2aff5a63a701d86c8afc78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:43 +0000
Subject: [PATCH 72/92] fix: read an XSD whose root is an element declaration

---
 src/kml/xsd/xsd_handler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/xsd/xsd_handler.cc b/src/kml/xsd/xsd_handler.cc
index 30dc3ca..533a1c5 100644
--- a/src/kml/xsd/xsd_handler.cc
+++ b/src/kml/xsd/xsd_handler.cc
@@ -115,7 +115,7 @@ void XsdHandler::StartXsElement(const Attributes& attributes) {
   }
 
   // Is this a global element?
-  if (parse_.top() == kSchema) {
+  if (!parse_.empty() && parse_.top() == kSchema) {
     xsd_file_->add_element(element);
   } else if (type_depth_ != 1) {
     return;
-- 
2.43.0


From d75402f215993a9a3f783efea1e78ae847b68bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:43 +0000
Subject: [PATCH 73/92] fix: refuse XSD types which extend themselves

---
 src/kml/xsd/xsd_file.cc | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/kml/xsd/xsd_file.cc b/src/kml/xsd/xsd_file.cc
index ac8d184..769ff60 100644
--- a/src/kml/xsd/xsd_file.cc
+++ b/src/kml/xsd/xsd_file.cc
@@ -146,8 +146,8 @@ const XsdElementPtr XsdFile::ResolveRef(const string& element_ref) const {
 XsdComplexTypePtr XsdFile::GetBaseType(
     const XsdComplexTypePtr& complex_type) const {
   string type_name;
-  if (!xsd_schema_->SplitNsName(complex_type->get_extension_base(),
-                                &type_name)) {
+  if (!xsd_schema_ || !complex_type ||
+      !xsd_schema_->SplitNsName(complex_type->get_extension_base(), &type_name)) {
     return NULL;  // XSD is incomplete.
   }
   return XsdComplexType::AsComplexType(FindType(type_name));
@@ -158,8 +158,16 @@ bool XsdFile::GetTypeHierarchy(const XsdComplexTypePtr& complex_type,
   if (!xsd_schema_) {  // Not much we can do w/o a <xs:schema ... >!
     return false;
   }
+  if (!complex_type) {
+    return false;
+  }
+  vector<XsdComplexTypePtr> visited;
   XsdComplexTypePtr current = complex_type;
   while (current->has_extension_base()) {
+    if (std::find(visited.begin(), visited.end(), current) != visited.end()) {
+      return false;  // A type can not extend itself.
+    }
+    visited.push_back(current);
     if (XsdComplexTypePtr base = GetBaseType(current)) {
       if (type_hier) {
         type_hier->push_back(base);
@@ -239,10 +247,10 @@ bool XsdFile::SearchTypeHierarchy(const XsdComplexTypePtr& complex_type,
   if (find_type == complex_type) {
     return true;
   }
-  if (XsdComplexTypePtr base_type = GetBaseType(complex_type)) {
-    return SearchTypeHierarchy(base_type, find_type);
-  }
-  return false;
+  vector<XsdComplexTypePtr> type_hier;
+  GetTypeHierarchy(complex_type, &type_hier);
+  return std::find(type_hier.begin(), type_hier.end(), find_type) !=
+      type_hier.end();
 }
 
 void XsdFile::GetElementsOfType(const XsdComplexTypePtr& type,
-- 
2.43.0


From bcb0940359922d162c7e5959fbcf20ab3ead1e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:43 +0000
Subject: [PATCH 74/92] fix: an XSD without a schema element has no target
 namespace

---
 src/kml/xsd/xsd_file.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/kml/xsd/xsd_file.h b/src/kml/xsd/xsd_file.h
index 99e9e5f..0755b97 100644
--- a/src/kml/xsd/xsd_file.h
+++ b/src/kml/xsd/xsd_file.h
@@ -81,10 +81,12 @@ class XsdFile {
   }
 
   const string& get_target_namespace() const {
-    return xsd_schema_->get_target_namespace();
+    static const string kNone;
+    return xsd_schema_ ? xsd_schema_->get_target_namespace() : kNone;
   }
   const string& get_target_namespace_prefix() const {
-    return xsd_schema_->get_target_namespace_prefix();
+    static const string kNone;
+    return xsd_schema_ ? xsd_schema_->get_target_namespace_prefix() : kNone;
   }
 
   // Create an alias.  For example, "AbstractFeatureGroup" == "Feature".
-- 
2.43.0


From 7dd2145776980538150ff34daa539ca8977a5bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:43 +0000
Subject: [PATCH 75/92] fix: name no primitive type for XSD_INVALID

---
 src/kml/xsd/xsd_primitive_type.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/xsd/xsd_primitive_type.cc b/src/kml/xsd/xsd_primitive_type.cc
index 00ce2e5..010d740 100644
--- a/src/kml/xsd/xsd_primitive_type.cc
+++ b/src/kml/xsd/xsd_primitive_type.cc
@@ -56,7 +56,7 @@ static const char* XsdPrimitiveTypeName[] = {
 };
 
 const string XsdPrimitiveType::GetTypeName(TypeId type_id) {
-  return XsdPrimitiveTypeName[type_id];
+  return type_id == XSD_INVALID ? string() : XsdPrimitiveTypeName[type_id];
 }
 
 XsdPrimitiveType::TypeId XsdPrimitiveType::GetTypeId(
-- 
2.43.0


From b11a7ab2b3795d1eafed4771746b4f8859cabb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:15 +0000
Subject: [PATCH 76/92] fix: apply the old Schema usage to the last old-style
 Schema only

---
 src/kml/dom/kml_handler.cc | 16 ++++++++++++++--
 src/kml/dom/kml_handler.h  |  1 +
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/kml/dom/kml_handler.cc b/src/kml/dom/kml_handler.cc
index 6500494..edb3736 100644
--- a/src/kml/dom/kml_handler.cc
+++ b/src/kml/dom/kml_handler.cc
@@ -117,8 +117,15 @@ void KmlHandler::StartElement(const string& name,
   // element is used to define a subclass of Placemark. In the case of
   // multiple Schema elements appearing at the top of the file, the last
   // one wins.
+  bool is_old_schema = false;
   if (name.length() == 6 && name == "Schema") {
-    FindOldSchemaParentName(attrs, &old_schema_name_);
+    string old_schema_name;
+    FindOldSchemaParentName(attrs, &old_schema_name);
+    if (!old_schema_name.empty()) {
+      is_old_schema = true;
+      old_schema_name_ = old_schema_name;
+      simplefield_name_vec_.clear();
+    }
   }
 
   // Push a string onto the stack we'll use to manage the gathering of
@@ -184,6 +191,10 @@ void KmlHandler::StartElement(const string& name,
   }
   // This is a known element.  Push onto parse stack and gather content.
   stack_.push(element);
+
+  if (is_old_schema) {
+    old_schema_ = element;
+  }
   if (!old_schema_name_.empty() && name == old_schema_name_) {
     old_schema_placemark_ = AsPlacemark(element);
   }
@@ -284,9 +295,10 @@ void KmlHandler::EndElement(const string& name) {
 
   // Handle the case of reaching the closing of an old-style </Schema>.
   if (!old_schema_name_.empty()) {
-    if (name.length() == 6 && name == "Schema") {
+    if (child == old_schema_) {
       HandleOldSchemaEndElement(AsSchema(child), old_schema_name_,
                                 &simplefield_name_vec_);
+      old_schema_ = NULL;
     } else if (name == old_schema_name_) {
       // Or that of its Placemark substitute.
       HandleOldSchemaParentEndElement(AsPlacemark(child), old_schema_name_,
diff --git a/src/kml/dom/kml_handler.h b/src/kml/dom/kml_handler.h
index 17c0252..3717c9c 100644
--- a/src/kml/dom/kml_handler.h
+++ b/src/kml/dom/kml_handler.h
@@ -123,6 +123,7 @@ private:
   kmlbase::StringVector simplefield_name_vec_;
   std::vector<SimpleDataPtr> simpledata_vec_;
   PlacemarkPtr old_schema_placemark_;
+  ElementPtr old_schema_;
 
   // This calls the NewElement() method of each ParserObserver.  If any
   // ParserObserver::NewElement() returns false this immediately returns false.
-- 
2.43.0


From 855c8f515f74afb14c1e543d7711c879b796c707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:46 +0000
Subject: [PATCH 77/92] fix: declare the namespaces of misplaced elements

---
 src/kml/engine/find_xml_namespaces.cc | 31 +++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/kml/engine/find_xml_namespaces.cc b/src/kml/engine/find_xml_namespaces.cc
index f8e979a..3516956 100644
--- a/src/kml/engine/find_xml_namespaces.cc
+++ b/src/kml/engine/find_xml_namespaces.cc
@@ -52,15 +52,38 @@ class XmlNamespaceFinder : public Serializer {
     Serializer::SaveElement(element);
   }
 
+  // This finds the namespaces of misplaced elements, whose Serialize() is called
+  // directly.
+  virtual void BeginById(int type_id, const Attributes& attributes) {
+    InsertXmlnsOfElementName(type_id);
+  }
+
   // Some of the simple elements of KML elements are in the gx namespace.
   virtual void SaveStringFieldById(int type_id, string value) {
-    if (kmldom::Xsd::GetSchema()->ElementName(type_id).compare(0, 3, "gx:") ==
-        0) {
-      xmlns_id_set_->insert(kmlbase::XMLNS_GX22);
-    }
+    InsertXmlnsOfElementName(type_id);
+  }
+  virtual void SaveColor(int type_id, const kmlbase::Color32& color) {
+    InsertXmlnsOfElementName(type_id);
+  }
+  virtual void SaveSimpleVec3(int type_id, const kmlbase::Vec3& vec3,
+                              const char* delimiter) {
+    InsertXmlnsOfElementName(type_id);
   }
 
  private:
+  // The name of an element not in the KML namespace includes its prefix.
+  void InsertXmlnsOfElementName(int type_id) {
+    const string name = kmldom::Xsd::GetSchema()->ElementName(type_id);
+    if (name.compare(0, 3, "gx:") == 0) {
+      xmlns_id_set_->insert(kmlbase::XMLNS_GX22);
+    } else if (name.compare(0, 5, "atom:") == 0) {
+      xmlns_id_set_->insert(kmlbase::XMLNS_ATOM);
+    } else if (name.compare(0, 4, "xal:") == 0) {
+      xmlns_id_set_->insert(kmlbase::XMLNS_XAL);
+    } else {
+      xmlns_id_set_->insert(kmlbase::XMLNS_KML22);
+    }
+  }
   XmlnsIdSet* xmlns_id_set_;
 };
 
-- 
2.43.0


From 90df73f8e8f63c37761bb3838e2d3be114094047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:40 +0000
Subject: [PATCH 78/92] fix: refuse to post a feature which can not be imported

---
 src/kml/convenience/google_maps_data.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kml/convenience/google_maps_data.cc b/src/kml/convenience/google_maps_data.cc
index aaa5739..096a7a0 100644
--- a/src/kml/convenience/google_maps_data.cc
+++ b/src/kml/convenience/google_maps_data.cc
@@ -229,6 +229,9 @@ bool GoogleMapsData::AddFeature(const string& feature_feed_post_uri,
   // headers.
   kmlengine::KmlFilePtr kml_file =
       kmlengine::KmlFile::CreateFromImport(entry);
+  if (!kml_file) {
+    return false;
+  }
   string post_data;
   kml_file->SerializeToString(&post_data);
 
-- 
2.43.0


From d3544b143439cdf2a96f6b0ee6f11f98bc939f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:42 +0000
Subject: [PATCH 79/92] fix: no crash creating a KMZ from a file that is not
 KML

---
 src/kml/engine/kmz_file.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kml/engine/kmz_file.cc b/src/kml/engine/kmz_file.cc
index 05ac2d5..8cfdb51 100644
--- a/src/kml/engine/kmz_file.cc
+++ b/src/kml/engine/kmz_file.cc
@@ -248,6 +248,9 @@ bool KmzFile::CreateFromElement(const kmldom::ElementPtr& element,
 // Static.
 bool KmzFile::CreateFromKmlFile(const KmlFilePtr& kml_file,
                                 const string& kmz_filepath) {
+  if (!kml_file) {
+    return false;
+  }
   return KmzFile::CreateFromElement(
       kml_file->get_root(), kml_file->get_url(), kmz_filepath);
 }
-- 
2.43.0


From 1bf476b04040efe1e6dbb5c6f4f8f98fb2f84df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:15 +0000
Subject: [PATCH 80/92] fix: keep a point on a radial that goes west across the
 antimeridian in range

---
 src/kml/base/math_util.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/kml/base/math_util.cc b/src/kml/base/math_util.cc
index 47721b9..b19e4d1 100644
--- a/src/kml/base/math_util.cc
+++ b/src/kml/base/math_util.cc
@@ -93,7 +93,11 @@ Vec3 LatLngOnRadialFromPoint(double lat, double lng,
   const double radial_lat = asin(sin_radial_lat);
   const double delta_lng = atan2(sin(radial_r) * sin(distance_r) * cos(lat_r),
                            cos(distance_r) - sin(lat_r) * sin(radial_lat));
-  const double radial_lng = fmod(lng_r + delta_lng + M_PI, 2 * M_PI) - M_PI;
+  double radial_lng = fmod(lng_r + delta_lng + M_PI, 2 * M_PI);
+  if (radial_lng < 0) {  // fmod() takes the sign of its first argument.
+    radial_lng += 2 * M_PI;
+  }
+  radial_lng -= M_PI;
   return Vec3(RadToDeg(radial_lng), RadToDeg(radial_lat));
 }
 
-- 
2.43.0


From 85aa41948a1d1d7d782bcf9d2ea84e756aa9aafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:21 +0000
Subject: [PATCH 81/92] fix: say why a KMZ could not be read

---
 src/kml/engine/kml_file.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kml/engine/kml_file.cc b/src/kml/engine/kml_file.cc
index 5c2fb17..6844e47 100644
--- a/src/kml/engine/kml_file.cc
+++ b/src/kml/engine/kml_file.cc
@@ -86,6 +86,9 @@ bool KmlFile::OpenAndParseKmz(const string& kmz_data,
   string kml_data;
   KmzFilePtr kmz_file = kmlengine::KmzFile::OpenFromString(kmz_data);
   if (!kmz_file || !kmz_file->ReadKml(&kml_data)) {
+      if (errors) {
+        *errors = "unable to read KML from KMZ";
+      }
       return false;
   }
   return ParseFromString(kml_data, errors);
-- 
2.43.0


From 99766f5f87783151b361d81132f677ecd5b2c625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:16 +0000
Subject: [PATCH 82/92] fix: do not return the data of a zip entry which does
 not match its checksum

---
 src/kml/base/zip_file.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kml/base/zip_file.cc b/src/kml/base/zip_file.cc
index 9e4c37b..6ec3514 100644
--- a/src/kml/base/zip_file.cc
+++ b/src/kml/base/zip_file.cc
@@ -214,7 +214,9 @@ bool ZipFile::GetEntry(const string& path_in_zip,
   }
   char* filedata = new char[nbytes];
   if (libkml_unzReadCurrentFile(unzfilehelper->get_unzfile(), filedata,
-                         nbytes) == static_cast<int>(nbytes)) {
+                         nbytes) == static_cast<int>(nbytes) &&
+      // This is where the checksum of the data is verified.
+      libkml_unzCloseCurrentFile(unzfilehelper->get_unzfile()) == UNZ_OK) {
     output->assign(filedata, nbytes);
     delete [] filedata;
     return true;
-- 
2.43.0


From 68086d8071e7be937e43ef24de752bf4b2e82bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:37 +0000
Subject: [PATCH 83/92] fix: store files whose name starts with two dots in a
 KMZ

---
 src/kml/base/zip_file.cc   | 2 +-
 src/kml/engine/kmz_file.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kml/base/zip_file.cc b/src/kml/base/zip_file.cc
index 6ec3514..2960754 100644
--- a/src/kml/base/zip_file.cc
+++ b/src/kml/base/zip_file.cc
@@ -251,7 +251,7 @@ bool ZipFile::AddEntry(const string& data,
                        const string& path_in_zip) {
   // The path must be relative to and below the archive.
   if (path_in_zip.substr(0, 1).find_first_of("/\\") != string::npos ||
-      path_in_zip.substr(0, 2) == ".." || ClimbsAboveRoot(path_in_zip)) {
+      ClimbsAboveRoot(path_in_zip)) {
     return false;
   }
   if (!minizip_file_) {
diff --git a/src/kml/engine/kmz_file.cc b/src/kml/engine/kmz_file.cc
index 8cfdb51..671fbcc 100644
--- a/src/kml/engine/kmz_file.cc
+++ b/src/kml/engine/kmz_file.cc
@@ -160,7 +160,7 @@ size_t KmzFile::AddFileList(const string& base_url,
 
     // If the normalized_href points above the base_url, we consider it
     // invalid.
-    if (normalized_href.substr(0, 2) == "..") {
+    if (normalized_href == ".." || normalized_href.substr(0, 3) == "../") {
       error_count++;
       continue;
     }
-- 
2.43.0


From 5e0969d72968a4d423e8fd27ddc11f3919908c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:00 +0000
Subject: [PATCH 84/92] fix: find the end record of zip archives with a comment
 of maximal size

---
 src/kml/base/contrib/minizip/unzip.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/base/contrib/minizip/unzip.c b/src/kml/base/contrib/minizip/unzip.c
index df33f79..4667e0d 100644
--- a/src/kml/base/contrib/minizip/unzip.c
+++ b/src/kml/base/contrib/minizip/unzip.c
@@ -366,7 +366,7 @@ local uLong unzlocal_SearchCentralDir(pzlib_filefunc_def,filestream)
     unsigned char* buf;
     uLong uSizeFile;
     uLong uBackRead;
-    uLong uMaxBack=0xffff; /* maximum size of global comment */
+    uLong uMaxBack=0xffff+22; /* end record with the maximum size of global comment */
     uLong uPosFound=0;
 
     if (ZSEEK(*pzlib_filefunc_def,filestream,0,ZLIB_FILEFUNC_SEEK_END) != 0)
-- 
2.43.0


From 64c89e0bf09c0d300748fe461a4d25549f6948c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:00 +0000
Subject: [PATCH 85/92] fix: hand colors to SWIG clients by value

---
 src/swig/libkml_kmlelements.i | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/swig/libkml_kmlelements.i b/src/swig/libkml_kmlelements.i
index 766bef7..450d558 100644
--- a/src/swig/libkml_kmlelements.i
+++ b/src/swig/libkml_kmlelements.i
@@ -55,7 +55,7 @@ class SubStyle : public Object {
 class ColorStyle : public SubStyle {
 public:
   // <color>
-  const kmlbase::Color32& get_color();
+  const kmlbase::Color32 get_color();
   void set_color(const kmlbase::Color32& color);
   bool has_color();
   void clear_color();
@@ -405,7 +405,7 @@ public:
 class Overlay : public Feature {
 public:
   // <color>
-  const kmlbase::Color32& get_color();
+  const kmlbase::Color32 get_color();
   void set_color(const kmlbase::Color32& color);
   bool has_color();
   void clear_color();
@@ -427,13 +427,13 @@ public:
 class BalloonStyle : public SubStyle {
 public:
   // <bgColor>
-  const kmlbase::Color32& get_bgcolor();
+  const kmlbase::Color32 get_bgcolor();
   void set_bgcolor(const kmlbase::Color32& bgcolor);
   bool has_bgcolor();
   void clear_bgcolor();
 
   // <textColor>
-  const kmlbase::Color32& get_textcolor();
+  const kmlbase::Color32 get_textcolor();
   void set_textcolor(const kmlbase::Color32& textcolor);
   bool has_textcolor();
   void clear_textcolor();
@@ -886,7 +886,7 @@ public:
   void clear_listitemtype();
 
   // <bgColor>
-  const kmlbase::Color32& get_bgcolor();
+  const kmlbase::Color32 get_bgcolor();
   void set_bgcolor(const kmlbase::Color32& bgcolor);
   bool has_bgcolor();
   void clear_bgcolor();
-- 
2.43.0


From 40b4ff879dcabea7bf2b98a35caa5746ab711f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:24 +0000
Subject: [PATCH 86/92] fix: do not gather the features inside of updates

---
 src/kml/convenience/kml_feature_list_saver.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/kml/convenience/kml_feature_list_saver.h b/src/kml/convenience/kml_feature_list_saver.h
index 040fc37..e1ea1d3 100644
--- a/src/kml/convenience/kml_feature_list_saver.h
+++ b/src/kml/convenience/kml_feature_list_saver.h
@@ -60,6 +60,10 @@ class KmlFeatureListSaver : public kmldom::ParserObserver {
     }
   }
 
+  virtual bool NewElement(const kmldom::ElementPtr& element) {
+    return StartElement(element);
+  }
+
   virtual bool StartElement(const kmldom::ElementPtr& element) {
     if (element->Type() == kmldom::Type_Update) {
       in_update_ = true;
@@ -71,7 +75,7 @@ class KmlFeatureListSaver : public kmldom::ParserObserver {
                           const kmldom::ElementPtr& child) {
     if (child->Type() == kmldom::Type_Update) {  // </Update>
       in_update_ = false;
-      return false;
+      return true;
     }
     if (in_update_) {
       return true;
-- 
2.43.0


From de57d4504da2a715b4490b9b539baf46a232a5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:18 +0000
Subject: [PATCH 87/92] fix: leave styles alone until the outermost update ends

An update may create a tour which has updates of its own.
---
 src/kml/engine/style_inliner.cc          | 8 ++++----
 src/kml/engine/style_inliner_internal.h  | 4 ++--
 src/kml/engine/style_splitter.cc         | 6 +++---
 src/kml/engine/style_splitter_internal.h | 6 +++---
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/kml/engine/style_inliner.cc b/src/kml/engine/style_inliner.cc
index 9ebcd98..06650e1 100644
--- a/src/kml/engine/style_inliner.cc
+++ b/src/kml/engine/style_inliner.cc
@@ -35,7 +35,7 @@
 namespace kmlengine {
 
 StyleInliner::StyleInliner()
-  : in_update_(false) {
+  : in_update_(0) {
 }
 
 // ParserObserver::NewElement()
@@ -45,7 +45,7 @@ bool StyleInliner::NewElement(const kmldom::ElementPtr& element) {
     document_ = AsDocument(element);
   }
   if (element->IsA(kmldom::Type_Update)) {
-    in_update_ = true;
+    ++in_update_;
   }
   return true;  // Always continue parsing.
 }
@@ -119,8 +119,8 @@ bool StyleInliner::EndElement(const kmldom::ElementPtr& parent,
 
 bool StyleInliner::AddChild(const kmldom::ElementPtr& parent,
                             const kmldom::ElementPtr& child) {
-  if (child->IsA(kmldom::Type_Update)) {
-    in_update_ = false;
+  if (in_update_ && child->IsA(kmldom::Type_Update)) {
+    --in_update_;
   }
   return true;  // Always continue parsing.
 }
diff --git a/src/kml/engine/style_inliner_internal.h b/src/kml/engine/style_inliner_internal.h
index 8eaa624..a26b213 100644
--- a/src/kml/engine/style_inliner_internal.h
+++ b/src/kml/engine/style_inliner_internal.h
@@ -64,7 +64,7 @@ class StyleInliner : public kmldom::ParserObserver {
   }
 
   bool in_update() const {
-    return in_update_;
+    return in_update_ > 0;
   }
 
   // All shared styles are added to this map _instead_ of their <Document>
@@ -77,7 +77,7 @@ class StyleInliner : public kmldom::ParserObserver {
   kmlengine::SharedStyleMap shared_styles_;
   kmldom::StyleMapPtr inlined_style_;  // The latest one given to a Feature.
   kmldom::DocumentPtr document_;
-  bool in_update_;
+  int in_update_;  // The number of <Update>s this is inside of.
 };
 
 }  // end namespace kmlengine
diff --git a/src/kml/engine/style_splitter.cc b/src/kml/engine/style_splitter.cc
index fb4a14b..1448412 100644
--- a/src/kml/engine/style_splitter.cc
+++ b/src/kml/engine/style_splitter.cc
@@ -46,7 +46,7 @@ bool StyleSplitter::NewElement(const kmldom::ElementPtr& element) {
   }
   // Don't touch anything inside an <Update>.
   if (element->IsA(kmldom::Type_Update)) {
-    in_update_ = true;
+    ++in_update_;
   }
   return true;
 }
@@ -105,8 +105,8 @@ bool StyleSplitter::EndElement(const kmldom::ElementPtr& parent,
   // Falling through any of the conditions above means no action is taken
   // to interfere with this child being added to this parent.
   // Parsing of <Update> is complete so disable guard.
-  if (child->IsA(kmldom::Type_Update)) {
-    in_update_ = false;
+  if (in_update_ && child->IsA(kmldom::Type_Update)) {
+    --in_update_;
   }
   return true;  // Proceed to add this child to this parent.
 }
diff --git a/src/kml/engine/style_splitter_internal.h b/src/kml/engine/style_splitter_internal.h
index 14f881d..f906476 100644
--- a/src/kml/engine/style_splitter_internal.h
+++ b/src/kml/engine/style_splitter_internal.h
@@ -48,7 +48,7 @@ class StyleSplitter : public kmldom::ParserObserver {
   StyleSplitter(kmlengine::SharedStyleMap* shared_style_map)
     : shared_style_map_(shared_style_map),
       id_counter_(0),
-      in_update_(false) {}
+      in_update_(0) {}
 
   virtual ~StyleSplitter() {}
 
@@ -87,14 +87,14 @@ class StyleSplitter : public kmldom::ParserObserver {
   }
 
   bool get_in_update() const {
-    return in_update_;
+    return in_update_ > 0;
   }
 
  private:
   kmlengine::SharedStyleMap* shared_style_map_;
   unsigned int id_counter_;
   kmldom::DocumentPtr document_;
-  bool in_update_;
+  int in_update_;  // The number of <Update>s this is inside of.
 };
 
 }  // end namespace kmlengine
-- 
2.43.0


From c036dfa840b971c8d0daaaeab66eb21f0173e471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:18 +0000
Subject: [PATCH 88/92] fix: do not gather features after an update inside of
 an update

---
 src/kml/convenience/kml_feature_list_saver.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/kml/convenience/kml_feature_list_saver.h b/src/kml/convenience/kml_feature_list_saver.h
index e1ea1d3..ffb1f09 100644
--- a/src/kml/convenience/kml_feature_list_saver.h
+++ b/src/kml/convenience/kml_feature_list_saver.h
@@ -54,7 +54,7 @@ class KmlFeatureListSaver : public kmldom::ParserObserver {
                       const char* style_base)
     : feature_list_(feature_list),
       shared_style_map_(shared_style_map),
-      in_update_(false) {
+      in_update_(0) {
     if (style_base) {
       style_base_ = string(style_base);
     }
@@ -66,7 +66,7 @@ class KmlFeatureListSaver : public kmldom::ParserObserver {
 
   virtual bool StartElement(const kmldom::ElementPtr& element) {
     if (element->Type() == kmldom::Type_Update) {
-      in_update_ = true;
+      ++in_update_;
     }
     return true;
   }
@@ -74,7 +74,9 @@ class KmlFeatureListSaver : public kmldom::ParserObserver {
   virtual bool EndElement(const kmldom::ElementPtr& parent,
                           const kmldom::ElementPtr& child) {
     if (child->Type() == kmldom::Type_Update) {  // </Update>
-      in_update_ = false;
+      if (in_update_) {
+        --in_update_;
+      }
       return true;
     }
     if (in_update_) {
@@ -107,7 +109,7 @@ class KmlFeatureListSaver : public kmldom::ParserObserver {
   FeatureList* feature_list_;
   kmlengine::SharedStyleMap* shared_style_map_;
   string style_base_;
-  bool in_update_;
+  int in_update_;  // The number of <Update>s this is inside of.
 };
 
 }  // end namespace kmlconvenience
-- 
2.43.0


From 8104abe8a3c5864974719d99866687aea32560b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:18 +0000
Subject: [PATCH 89/92] fix: report archives that could not be written
 completely

KmzFile::WriteKmz and the like returned true whatever became of the last
writes.
---
 src/kml/base/zip_file.cc   | 27 +++++++++++++++++++--------
 src/kml/base/zip_file.h    |  5 +++++
 src/kml/engine/kmz_file.cc |  8 +++++---
 3 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/src/kml/base/zip_file.cc b/src/kml/base/zip_file.cc
index 2960754..2df7da3 100644
--- a/src/kml/base/zip_file.cc
+++ b/src/kml/base/zip_file.cc
@@ -45,9 +45,13 @@ class MinizipFile {
  public:
   MinizipFile(zipFile zipfile) : zipfile_(zipfile) {}
   ~MinizipFile() {
-    if (zipfile_) {
-      zipClose(zipfile_, 0);
-    }
+    Close();
+  }
+  // Returns false if the file could not be written completely.
+  bool Close() {
+    zipFile zipfile = zipfile_;
+    zipfile_ = NULL;
+    return zipfile && zipClose(zipfile, 0) == ZIP_OK;
   }
   zipFile get_zipfile() { return zipfile_; }
  private:
@@ -261,11 +265,18 @@ bool ZipFile::AddEntry(const string& data,
   if (!zipfile) {
     return false;
   }
-  zipOpenNewFileInZip(zipfile, path_in_zip.c_str(), 0, 0, 0, 0, 0, 0,
-                      Z_DEFLATED, Z_DEFAULT_COMPRESSION);
-  zipWriteInFileInZip(zipfile, static_cast<const void*>(data.data()),
-                      static_cast<unsigned int>(data.size()));
-  return zipCloseFileInZip(zipfile) == ZIP_OK;
+  if (zipOpenNewFileInZip(zipfile, path_in_zip.c_str(), 0, 0, 0, 0, 0, 0,
+                          Z_DEFLATED, Z_DEFAULT_COMPRESSION) != ZIP_OK) {
+    return false;
+  }
+  const bool written =
+      zipWriteInFileInZip(zipfile, static_cast<const void*>(data.data()),
+                          static_cast<unsigned int>(data.size())) == ZIP_OK;
+  return zipCloseFileInZip(zipfile) == ZIP_OK && written;
+}
+
+bool ZipFile::Close() {
+  return minizip_file_ && minizip_file_->Close();
 }
 
 }  // end namespace kmlbase
diff --git a/src/kml/base/zip_file.h b/src/kml/base/zip_file.h
index f823d1c..6d65339 100644
--- a/src/kml/base/zip_file.h
+++ b/src/kml/base/zip_file.h
@@ -105,6 +105,11 @@ class ZipFile {
   // essentially a NOP. True will be returned, but the data is unchanged.
   bool AddEntry(const string& data, const string& path_in_zip);
 
+  // Finishes a ZipFile made with Create, to which nothing can be added after
+  // this. Returns false if the archive could not be written completely. This
+  // is done on destruction if it was not called, where errors go unnoticed.
+  bool Close();
+
  private:
   // The constructor used to open a ZIP file in-memory, suitable for reading.
   ZipFile(const string& data);
diff --git a/src/kml/engine/kmz_file.cc b/src/kml/engine/kmz_file.cc
index 671fbcc..ae13c83 100644
--- a/src/kml/engine/kmz_file.cc
+++ b/src/kml/engine/kmz_file.cc
@@ -197,7 +197,7 @@ bool KmzFile::WriteKmz(const char* kmz_filepath, const string& kml) {
   if (!kmz->AddFile(kml, kDefaultKmlFilename)) {
     return false;
   }
-  return kmlbase::File::Exists(kmz_filepath);
+  return kmz->zip_file_->Close() && kmlbase::File::Exists(kmz_filepath);
 }
 
 // Static.
@@ -234,7 +234,9 @@ bool KmzFile::CreateFromElement(const kmldom::ElementPtr& element,
   const string kml_data = kmldom::SerializePretty(element);
   // First add the KML file. This is the file opened by default by a client
   // from a KMZ archive.
-  kmz_file->AddFile(kml_data, kDefaultKmlFilename);
+  if (!kmz_file->AddFile(kml_data, kDefaultKmlFilename)) {
+    return false;
+  }
 
   // Next gather the local references and add them.
   StringVector file_paths;
@@ -242,7 +244,7 @@ bool KmzFile::CreateFromElement(const kmldom::ElementPtr& element,
     kmz_file->AddFileList(base_url, file_paths);
   }
 
-  return kmlbase::File::Exists(kmz_filepath);
+  return kmz_file->zip_file_->Close() && kmlbase::File::Exists(kmz_filepath);
 }
 
 // Static.
-- 
2.43.0


From f1a93a50d17ffcb72ad1b4d384fa13fb4224ab2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:28 +0000
Subject: [PATCH 90/92] fix: reject days that a month does not have

---
 src/kml/base/date_time.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/kml/base/date_time.cc b/src/kml/base/date_time.cc
index 185a13c..1521885 100644
--- a/src/kml/base/date_time.cc
+++ b/src/kml/base/date_time.cc
@@ -125,7 +125,14 @@ bool DateTime::ParseXsdDateTime(const string& xsd_date_time) {
   while (isspace(static_cast<unsigned char>(*end))) {
     ++end;
   }
-  return *end == '\0';
+  // strptime() takes any day up to 31 in any month.
+  static const int kDaysInMonth[] =
+      {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
+  int days = kDaysInMonth[tm_.tm_mon];
+  if (tm_.tm_mon == 1 && is_leap(tm_.tm_year)) {
+    ++days;
+  }
+  return *end == '\0' && tm_.tm_mday <= days;
 }
 
 }  // end namespace kmlbase
-- 
2.43.0


From 43403551b81b86556fa822db5713ca853aca827c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:28 +0000
Subject: [PATCH 91/92] fix: make no placemark of a CSV file line without a
 position

---
 src/kml/convenience/csv_file.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/kml/convenience/csv_file.cc b/src/kml/convenience/csv_file.cc
index b812ac2..6830515 100644
--- a/src/kml/convenience/csv_file.cc
+++ b/src/kml/convenience/csv_file.cc
@@ -51,10 +51,12 @@ void CsvFile::ParseCsvLine(const string& csv_line) {
     return;
   }
   double csv_parts1= 0.0;
-  kmlbase::StringToDouble(csv_parts[1], &csv_parts1);
-  
   double csv_parts2= 0.0;
-  kmlbase::StringToDouble(csv_parts[2], &csv_parts2);
+  // A line without a position is no placemark.
+  if (!kmlbase::StringToDouble(csv_parts[1], &csv_parts1) ||
+      !kmlbase::StringToDouble(csv_parts[2], &csv_parts2)) {
+    return;
+  }
 
   PlacemarkPtr placemark = kmlconvenience::CreatePointPlacemark(csv_parts[3], csv_parts1, csv_parts2);
   placemark->set_description(csv_parts[4]);
-- 
2.43.0


From 28efa43c15747421c8d2b2d27713be555d121ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:28 +0000
Subject: [PATCH 92/92] fix: take CRLF line endings in a CSV file

---
 src/kml/convenience/csv_file.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kml/convenience/csv_file.cc b/src/kml/convenience/csv_file.cc
index 6830515..308c5c3 100644
--- a/src/kml/convenience/csv_file.cc
+++ b/src/kml/convenience/csv_file.cc
@@ -74,6 +74,10 @@ void CsvFile::ParseCsvFile(const char* filename) {
   while (csv_file.good()) {
     string csv_line;
     getline(csv_file, csv_line);
+    // The line ending may be CRLF.
+    if (!csv_line.empty() && csv_line[csv_line.size() - 1] == '\r') {
+      csv_line.erase(csv_line.size() - 1);
+    }
     if (csv_line.empty()) {
       continue;
     }
-- 
2.43.0

