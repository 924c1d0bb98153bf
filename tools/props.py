#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
from targets import TARGETS

P = []


def p(id, title, statement, over, text, why, files, mech, technique='', note='', base='src/kml/'):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[base + f for f in files],
                               mechanism=[dict(name=n, where=base + w) for n, w in mech]),
                  _t=technique, _n=note))


I, H, C, F, PR = ['inputs'], ['inputs', 'histories'], ['inputs', 'configurations'], ['inputs', 'fault_sequences'], ['inputs', 'programs']

p('P01', 'Reading and rewriting KML loses and invents nothing',
  'For every well-formed document whose elements and values are those of KML 2.2, its Google extensions, Atom and xAL as this library supports them, parsing it and serializing the result yields a document with the same elements, attributes, text and values (numbers to 15 significant digits), in the standard child order with repeated elements in their original order. This holds however the input is formatted (child order, whitespace between elements, comments, processing instructions, CDATA, character references, spelling of booleans and numbers); the only text rewritten is a link address that itself spells out a CDATA section, which is unwrapped. Of a child that may occur only once but is repeated, the last counts. Serializing what is parsed from the output again yields byte-identical output.',
  I, 'all trees over the full supported vocabulary, all value types and all formattings of them',
  'The tests check one or two fixed snippets per element type; a lost, swapped or reordered field in a combination, nesting or formatting the snippets do not use passes them.',
  ['dom/kml_handler.cc', 'dom/xml_serializer.h', 'dom/element.cc', 'dom/kml_factory.cc', 'dom/kml22.cc'],
  [('per-element AddElement/Serialize pairs', 'dom/*.cc'), ('element stack driven by SAX events', 'dom/kml_handler.cc')],
  'generated trees over the whole vocabulary; independent expat reader and schema-order model as oracle',
  'Random trees (all concrete element types, all fields) rendered in varied formatting; output read back by an independent reader and compared node by node. Trusts expat and the hand-written vocabulary table.')

p('P02', 'Anything built through the API serializes to well-formed, faithful XML',
  'For every tree of elements built by calling the factory and the setters with arbitrary valid XML text (including markup characters, quotes, CDATA markers and non-ASCII characters) in string fields and attributes, the raw and the pretty serialization are well-formed XML. Read back by any XML reader the raw form contains exactly the fields that were set, with exactly those texts and attribute values, and the pretty form differs from it only in whitespace around markup and around the text of Snippet, linkSnippet and SimpleData.',
  I, 'all API-built trees and all strings of legal XML characters',
  'Tests set a handful of plain ASCII strings; escaping bugs appear only for particular character combinations in particular positions.',
  ['dom/serializer.cc', 'dom/xml_serializer.h', 'base/attributes.cc', 'base/string_util.cc'],
  [('text quoting', 'dom/serializer.cc Serializer::MaybeQuoteString'), ('attribute output', 'base/attributes.cc Attributes::Serialize')],
  'generated API calls with adversarial strings; independent expat reader as oracle',
  'Every string-valued field reachable through the vocabulary table is fed generated legal XML strings; both serializations are re-read with expat.')

p('P03', 'Unknown and misplaced content survives a read-write cycle',
  'An element the library does not know, and everything inside it (nested elements, attributes, text), appearing inside a known element that has element content is written back inside the same parent after the known children, with the same structure, attribute values and text. A known element in a place where it does not belong, and on any element with element content an attribute it does not define, are likewise written back on the same parent. None of this changes what is kept of the surrounding known content.',
  I, 'all documents mixing known content with arbitrary foreign elements, misplaced elements and foreign attributes',
  'Tests use a few fixed unknown elements without markup characters in text or attributes and at shallow depth.',
  ['dom/kml_handler.cc', 'dom/element.cc', 'base/attributes.cc'],
  [('skip-depth capture of unknown markup', 'dom/kml_handler.cc'), ('unknown and misplaced lists', 'dom/element.cc'), ('unknown attribute pass-through', 'dom/element.cc Element::ParseAttributes')],
  'generated documents with injected foreign, misplaced and attribute content; model of the preserved multiset per parent',
  'Oracle is the generated model itself, compared through an independent XML reader.')

p('P04', 'Any byte string can be parsed safely',
  'Parsing any byte string as KML, through any of the parse entry points and with or without parser observers, terminates, never reads or writes memory out of bounds or uses freed or uninitialised memory, throws nothing, and releases everything it allocated once the result is dropped. Whatever tree is returned can be traversed, cloned and serialized under the same guarantee.',
  I, 'all byte strings', 'Tests parse fixed files; memory errors and endless loops need particular malformed input.',
  ['dom/kml_handler.cc', 'dom/geometry.cc', 'base/expat_parser.cc', 'dom/parser.cc', 'engine/kml_file.cc'],
  [('expat driver', 'base/expat_parser.cc'), ('element handler', 'dom/kml_handler.cc'), ('coordinate text parser', 'dom/geometry.cc Coordinates::Parse')],
  'structure-aware and byte-level mutation fuzzing under ASan/UBSan with leak accounting',
  'Crashes, hangs (CPU-time limit), escaping exceptions and leaks are violations; explores mutated valid documents and grammar-level hostile documents.')

p('P05', 'Exactly the well-formed documents with a known root are accepted',
  'A parse succeeds if and only if the input is a well-formed XML document without entity declarations, its root is a known element, and its elements nest at most 100 deep. A failed parse returns no element and a non-empty error message when one is asked for, and a successful one reports no error.',
  I, 'all byte strings', 'Tests try a few malformed strings; acceptance is a boundary over all inputs.',
  ['dom/parser.cc', 'base/expat_parser.cc', 'dom/kml_handler.cc'],
  [('expat status handling', 'base/expat_parser.cc'), ('unknown-root and depth guard', 'dom/kml_handler.cc'), ('entity declaration guard', 'base/expat_parser.cc')],
  'differential acceptance test against an independent expat-based recogniser',
  'Valid, mutated and boundary-depth documents; the recogniser shares only libexpat with the code under test.')

p('P06', 'All ways of reading the same bytes agree',
  'The plain parser, the in-memory file object, the stream reader with any chunking, and reading out of a KMZ archive all accept the same documents and produce trees with the same serialization, and so does the namespace-aware parser for documents whose elements are all in the KML namespace. A document that binds the KML namespace to a prefix and uses it is understood by the namespace-aware parser as the unprefixed one. A stream that fails before its end is never reported as a successful read.',
  C, 'all documents, all chunk boundaries, all entry points', 'Tests compare one or two files and never vary chunking.',
  ['dom/parser.cc', 'engine/kml_file.cc', 'engine/kml_stream.cc', 'base/expat_parser.cc', 'dom/kml_handler_ns.cc', 'engine/kmz_file.cc'],
  [('entry points', 'dom/parser.cc'), ('buffered stream parse', 'engine/kml_stream.cc'), ('namespace-aware handler', 'dom/kml_handler_ns.cc')],
  'differential testing between entry points on generated documents and chunkings', 'Agreement of accept/reject and of serialized trees.')

p('P07', 'Parser observers see every element once, in order, and can veto',
  'During a parse each observer is told of every known element when it starts, before any of its children, and of every known element with a parent when it ends and after it was added, each exactly once, in document order, with its true parent. An observer that refuses a new element or an added child stops the whole parse with failure, and one that refuses at the end of an element keeps exactly that element out of the tree. Observers later in the list are not consulted about what an earlier one refused, and after a stop nothing is announced but, at most, the end of that same empty element.',
  I, 'all documents, all observer lists and all veto points', 'Tests count callbacks on tiny fixed documents with a single observer.',
  ['dom/kml_handler.cc', 'dom/parser_observer.h', 'dom/parser.cc'],
  [('observer call order', 'dom/kml_handler.cc CallNewElementObservers/CallEndElementObservers/CallAddChildObservers')],
  'model-based: predicted callback trace for generated documents and veto schedules', 'Expected trace is computed from the generated tree.')

p('P08', 'Every field behaves as an optional value: set, get, has, clear, default',
  'For every field of every element type, after any sequence of operations on an element a field reports being present exactly when it was set and not cleared since, returns the last value set, or its documented KML default when absent, and changing one field changes no other. Array fields return their members in insertion order with the right count. A freshly created element has every field absent.',
  H, 'all element types, all fields, all operation sequences', 'Tests exercise each field once in isolation and in one order.',
  ['dom/feature.h', 'dom/element.cc', 'dom/object.h', 'dom/overlay.h', 'dom/geometry.h', 'dom/link.h'],
  [('has_/get_/set_/clear_ quadruples', 'dom/*.h'), ('SetComplexChild', 'dom/element.h')],
  'stateful model-based testing of generated accessor tables', 'Reference model is a map from field to optional value per element.')

p('P09', 'An element has at most one parent, and attaching never duplicates it',
  'After any sequence of attach and remove operations (that never makes an element its own ancestor) an element is a child of at most one element: attaching an element that already has a parent is refused and leaves both trees as they were, and the parent recorded on an element is the one whose child it became. Elements removed from a container are handed back, leave it without gaps and keep the order of the others. No element is ever leaked, or freed while reachable.',
  H, 'all histories of attach, replace, clear and remove operations', 'Tests try a double-add once per type.',
  ['dom/element.h', 'dom/element.cc', 'dom/container.cc', 'dom/document.cc'],
  [('SetComplexChild/AddComplexChild/SetParent', 'dom/element.h'), ('DeleteFromArray', 'dom/element.h')],
  'stateful model-based testing under ASan', 'Reference model of the forest with single-parent rule.')

p('P10', 'The type system is one consistent hierarchy',
  'Every element kind created by name, by identifier or by parsing reports that identifier, its name maps back to the identifier, and it can be viewed as exactly the kinds that are its ancestors in the KML class hierarchy, never as any other. Every enumeration value maps to its name and back, and names or values outside the enumeration are rejected.',
  C, 'all pairs of element kinds, all enumerations, all strings', 'Tests check each cast against a few hand-picked kinds.',
  ['dom/kml22.cc', 'dom/kml_cast.cc', 'dom/kml_factory.cc', 'dom/xsd.cc', 'dom/kml22.h'],
  [('IsA chains', 'dom/*.h'), ('kml22.cc tables', 'dom/kml22.cc'), ('Xsd lookups', 'dom/xsd.cc')],
  'exhaustive enumeration of kind pairs plus generated names against a reference hierarchy', 'Kinds and enums are enumerated completely; strings are generated.')

p('P11', 'A clone is equal to its original and independent of it',
  'Cloning any element yields a tree with the same serialization (numbers to 15 significant digits) that shares no element with the original, has no parent, and whose inner elements have their copies as parents; unknown and misplaced content is copied too. Modifying or destroying either tree afterwards leaves the other unchanged.',
  H, 'all trees, including unknown and misplaced content', 'Tests clone a few fixed elements.',
  ['engine/clone.cc', 'dom/serializer.h'],
  [('cloning serializer', 'engine/clone.cc')],
  'generated trees; serialization equality and mutation independence', 'Original trees come from the full-vocabulary generator.')

p('P12', 'Merging overlays set fields and leaves the rest',
  'Merging a source element into a target of the same kind makes every simple field that is set in the source take the source value in the target, replaces coordinates, merges single complex children of the same kind field by field (adding a copy where the target has none, replacing one of another kind), and appends copies of repeated children and values. Every target field the source does not set is kept. The source is unchanged and shares nothing with the target.',
  I, 'all pairs of trees of the same kind', 'Tests merge a few fields of styles and placemarks.',
  ['engine/merge.cc'],
  [('field-wise and child-wise merge serializer', 'engine/merge.cc')],
  'generated pairs; reference merge on the tree model', 'Reference merge computed on an independent XML view.')

p('P13', 'Traversal and search reach every element exactly once',
  'Walking a tree with a visitor tells it of every KML and Google-extension element that is a child in the object model exactly once, members of an array in their order, each announced as its own kind and then as its more general kinds, with parents before or after their children as requested, and never of anything else. Collecting the elements of a kind, and collecting or walking features, returns exactly the matching elements of the tree in document order.',
  I, 'all trees and all kinds', 'Tests visit a few fixed trees.',
  ['dom/visitor_driver.cc', 'dom/visitor.cc', 'engine/find.cc', 'engine/feature_visitor.cc', 'engine/get_link_parents.cc'],
  [('AcceptChildren implementations', 'dom/*.cc'), ('finders', 'engine/find.cc')],
  'generated trees; reference traversal over the independent XML view', 'Expected sequence derived from serialized form.')

p('P14', 'Identifier lookup is exact',
  'After reading a document, looking up an identifier returns the element that carries it (the last such one in document order), shared-style lookup finds exactly the identified styles and style maps that are direct children of a document element, and an unknown identifier finds nothing. In strict use (importing a tree, or parsing with the strict observers) a repeated identifier is a failure, while the lax import keeps the last. The identifier collectors list every identified object once, and removing identifiers removes exactly those.',
  I, 'all documents with arbitrary, repeated and missing identifiers', 'Tests use fixed files with one or two identifiers.',
  ['engine/kml_file.cc', 'engine/object_id_parser_observer.h', 'engine/shared_style_parser_observer.h', 'engine/id_mapper.cc'],
  [('id and shared-style maps filled during parse', 'engine/kml_file.cc'), ('id mapper', 'engine/id_mapper.cc')],
  'generated documents with colliding identifiers; reference maps', 'Reference maps computed on the independent XML view.')

p('P15', 'Updates apply exactly the requested changes',
  'Applying an update to a loaded file puts copies of the given children into the container named by the target identifier, deletes the named features, and overlays the named objects with the given fields of an element of the same kind, in document order of the update operations. Targets are the objects that carried a unique identifier when the file was loaded; those that do not exist, or are not the container to create in or the feature to delete that the operation calls for, and operations outside the supported set, change nothing, and identifiers never change. Everything not addressed stays as it was, and the update itself is left unmodified.',
  H, 'all files and all sequences of create, delete and change operations', 'Tests apply a few single-operation updates.',
  ['engine/update.cc', 'engine/update_processor.cc', 'engine/kml_file.cc'],
  [('update processor', 'engine/update_processor.cc')],
  'model-based histories of updates against a reference document model', 'Reference update semantics on the independent XML view.')

p('P16', 'Style resolution follows the documented precedence and always terminates',
  'The resolved style of a feature is the field-by-field overlay of the shared style its style reference leads to (through style maps, taking the entry of the requested state, through references inside the file or into other files relative to the file that holds them) and then its own inline style, exactly so as long as no more than five references have to be followed. Beyond that, and for every reference graph including cycles and dangling references, resolution terminates, invents nothing and still applies the inline style. It changes neither the feature nor the shared styles.',
  I, 'all reference graphs between features, styles and style maps, both states', 'Tests use fixed files with at most two hops and one cycle.',
  ['engine/style_resolver.cc', 'engine/style_merger.cc'],
  [('style merger with nesting limit', 'engine/style_merger.cc')],
  'generated style graphs including cycles; reference resolver', 'Reference resolver is an independent recursive overlay with the documented depth limit.')

p('P17', 'Splitting and inlining styles preserve appearance and content',
  'For documents in standard child order with at most one style selector per feature, splitting the inline styles of features that have no style reference into shared styles of the first (normally the root) document, and inlining references to local shared styles that come before them into features, leave every feature with the same resolved style as before, within the limits of style resolution. Everything that is not a style selector or a style reference stays unchanged. Generated identifiers never collide with identifiers present in the document.',
  I, 'all documents with inline, shared and missing styles', 'Tests transform a few fixed files.',
  ['engine/style_splitter.cc', 'engine/style_splitter_internal.h', 'engine/style_inliner.cc', 'engine/style_inliner_internal.h'],
  [('parser observers rewriting styles', 'engine/style_splitter_internal.h engine/style_inliner_internal.h')],
  'metamorphic: resolve before == resolve after on generated documents', 'Uses the reference resolver of P16 on the independent XML view.')

p('P18', 'Coordinate text is read tuple by tuple, exactly',
  'Reading coordinate text yields exactly the tuples written in it, in order, for every spelling the format allows: any amount of whitespace (spaces, tabs, line breaks) between tuples, optional altitude, signs, decimals, exponents, and the tolerated blanks around commas. Values are the numbers written, absent altitude reads as zero and is reported absent, and text that is no tuple contributes none. The same holds for the space-separated coordinates and angles of tracks.',
  I, 'all coordinate texts', 'Tests check a short list of strings.',
  ['dom/geometry.cc', 'dom/geometry.h', 'base/vec3.h'],
  [('Coordinates::Parse/ParseVec3', 'dom/geometry.cc'), ('GxTrack coordinate parse', 'dom/geometry.cc')],
  'generated tuple lists in varied spellings; generator is the oracle', 'Spellings are those of the KML reference plus those the library documents as tolerated.')

p('P19', 'Colors convert exactly between all representations',
  'A color set from any of its representations (32-bit value, hexadecimal text with or without leading hash or in either case, single channels) reads back the same in every other representation, in both channel orders. Malformed text never corrupts memory, and setting one channel changes no other.',
  I, 'all 32-bit values, all strings', 'Tests check a few constants.',
  ['base/color32.h', 'dom/colorstyle.cc', 'dom/balloonstyle.cc'],
  [('Color32', 'base/color32.h')],
  'generated values and strings against bit-level reference', 'Reference computed with independent shifts and hex parsing.')

p('P20', 'Numbers survive text conversion and ignore the process locale',
  'Writing a number field and reading it back gives the same integer or boolean, and a floating-point value equal to 15 significant digits, for every finite value, and numeric text is read as the number it denotes. Nothing about reading or writing KML depends on the locale set in the process.',
  C, 'all finite numbers, all installed locales', 'Tests convert a few constants in the C locale.',
  ['base/string_util.cc', 'base/localec.cc', 'dom/element.cc'],
  [('ToString/FromString', 'base/string_util.h'), ('locale guard', 'base/localec.cc')],
  'generated numbers; strtod/printf reference in the C locale', 'Locale part depends on the locales installed; a comma-decimal locale is compiled into a scratch folder if possible.')

p('P21', 'Bounding boxes enclose exactly what they were built from',
  'The bounding box of points, of a geometry (a polygon counting by its outer boundary) or of a feature is the smallest box containing all its coordinates: every point lies inside, each side touches one, the center is the midpoint, and adding points or boxes never shrinks it. A feature has a computed box or location exactly when a point, line, ring, polygon, model, multi-geometry or photo-overlay point inside it, at any container depth, provides a position; a box element counts by its own sides.',
  I, 'all point sets and all geometry and feature trees', 'Tests use a few fixed points.',
  ['engine/bbox.h', 'engine/location_util.cc'],
  [('Bbox expansion', 'engine/bbox.h'), ('recursive collection', 'engine/location_util.cc')],
  'generated geometry trees; min/max reference', 'Reference min/max over the generated coordinates.')

p('P22', 'Great-circle functions agree with spherical trigonometry',
  'For all positions, distance is symmetric, non-negative and zero for equal positions, the point at a distance and bearing from a start is at that distance and initial bearing from it with a longitude between -180 and 180, and distance, azimuth, elevation and unit conversions agree with independent spherical trigonometry within rounding (bearings being undetermined at the poles). A generated circle of coordinates consists of the requested number of points on the circle, evenly spread, starting in the north.',
  I, 'all positions, bearings and distances', 'Tests check a table of rounded examples.',
  ['base/math_util.cc', 'convenience/convenience.cc'],
  [('haversine and bearing functions', 'base/math_util.cc')],
  'generated positions; independent 3-D vector implementation as oracle', 'Tolerances scaled to double rounding.')

p('P23', 'References resolve and split according to the URI rules',
  'Resolving a relative reference against a base gives the result of the RFC 3986 algorithm, parsing a URI into parts and putting it together again gives the same URI, normalizing removes dot segments and differences of case in scheme and host and changes nothing else, and a KML reference (scheme and host followed by a path, or a relative path, with optional query and fragment) splits into path, KMZ file, KMZ member and fragment so that their concatenation is the reference. Classifications (absolute, fragment-only, relative path, has KMZ part) are exactly those of the text.',
  I, 'all base URIs and references', 'Tests use a table of examples.',
  ['base/uri_parser.cc', 'engine/href.cc', 'engine/kml_uri.cc', 'engine/kml_uri_internal.h'],
  [('uriparser wrapper', 'base/uri_parser.cc'), ('KMZ split', 'engine/kml_uri.cc'), ('Href', 'engine/href.cc')],
  'generated URIs; independent RFC 3986 reference implementation', 'Reference resolver written from the RFC.')

p('P24', 'A KMZ archive returns exactly what was put into it',
  'Every file added to a KMZ archive under a name of its own is listed once under that name and reads back byte for byte, empty ones included, the document to display is the first entry in archive order whose name ends in ".kml", and reading an archive from memory and from disk gives the same results. Names that lead above the archive folder are refused. Writing an archive from a document includes that document and exactly the existing local files at or below its folder that it references by relative path, each once. The functions that write a whole archive report success exactly when all of it was written.',
  H, 'all sets of names and contents, all orders of addition', 'Tests use a few fixed archives.',
  ['engine/kmz_file.cc', 'base/zip_file.cc', 'engine/kml_file.cc'],
  [('ZipFile', 'base/zip_file.cc'), ('default KML selection', 'engine/kmz_file.cc')],
  'generated archives round-tripped and cross-checked with an independent zip reader/writer', 'All file effects stay in a scratch directory.')

p('P25', 'Any byte string can be opened as an archive safely',
  'Opening, listing and reading any byte string as a ZIP or KMZ archive, from memory or from disk, terminates, stays inside the given bytes, throws nothing and never writes outside memory it owns; it either yields entries or reports failure. What is read never exceeds the size the archive declares for it nor the configured maximum, content that does not match its recorded checksum is reported as a failure and not returned, and entries of undamaged archives read exactly unless their name is longer than 255 characters.',
  F, 'all byte strings and all corruptions of valid archives', 'Tests open one corrupt file.',
  ['base/zip_file.cc', 'base/contrib/minizip/unzip.c', 'base/contrib/minizip/iomem_simple.c', 'engine/kmz_file.cc'],
  [('in-memory unzip', 'base/contrib/minizip')],
  'mutation fuzzing of generated archives under ASan/UBSan with leak accounting', 'Structured corruption of every header field plus random bytes.')

p('P26', 'Caches answer like the source and never grow past their limit',
  'Through any sequence of requests a cache of capacity one or more returns for every address exactly what its fetcher delivers, fetches an address again only after it was evicted or deleted, never holds more than its capacity, and evicts the entry inserted first. Fetch failures are reported as such and are not cached. The KML and KMZ caches resolve relative and archive-internal addresses, ignoring fragments, to the same content a direct fetch gives.',
  H, 'all request histories, capacities and fetch outcomes', 'Tests issue a handful of requests.',
  ['base/net_cache.h', 'engine/kml_cache.cc', 'engine/kmz_cache.cc'],
  [('bounded map with eviction', 'base/net_cache.h')],
  'stateful model-based testing with a recording fetcher', 'Reference model of the bounded cache.')

p('P27', 'Regionation covers every feature once and nests regions correctly',
  'For every set of features with a position and every limit per file, the generated hierarchy contains each feature exactly once inside the region of its file, puts no more than the limit in a file (and that many wherever there are child files), higher scores nearer the root, and links every child region from its parent, each being a quadrant of it. Splitting regions, aligning boxes to the lowest quad-tree cell and computing cell names follow exact halving, and the region handler is asked in the documented order. Gathering features while parsing yields exactly the features that are not containers, outside of updates, in order and whole. The written files refer only to files that were written.',
  I, 'all feature sets, regions, depths', 'Tests regionate one or two fixed files.',
  ['regionator/regionator.cc', 'regionator/regionator_util.cc', 'regionator/regionator_qid.h', 'convenience/feature_list.cc', 'regionator/feature_list_region_handler.cc'],
  [('recursive region descent', 'regionator/regionator.cc'), ('feature sorting and partition', 'convenience/feature_list.cc')],
  'generated feature sets; conservation, nesting and link-closure invariants', 'Output goes to a scratch directory or recording handler.')

p('P28', 'CSV import turns every valid row into its placemark',
  'Reading CSV data whose header names its columns (in any order and case, none twice) yields for every row, in order, a placemark with the name, description, position, feature identifier, style and extra data of its columns, skips comments and blank lines, and skips and reports rows with the wrong number of columns or an unusable position without affecting the others. The same holds for the "|"-separated format with its styles. Line splitting accepts both line-ending styles and delivers every line exactly once.',
  I, 'all headers, column orders and rows', 'Tests use a few fixed tables.',
  ['convenience/csv_parser.cc', 'convenience/csv_file.cc', 'base/csv_splitter.cc'],
  [('column map', 'convenience/csv_parser.cc'), ('line splitter', 'base/csv_splitter.cc')],
  'generated tables; generator is the oracle', 'Columns, quoting and line endings are generated.')

p('P29', 'Link discovery finds every reference exactly once',
  'Collecting the links of a document returns every non-empty link, icon, overlay and resource address, style reference, schema reference and alias target in it, in document order, and nothing else (nothing from inside unknown elements); relative-link collection returns exactly the relative ones. The archive link checker reports exactly the relative file references that are missing from the archive, and fetching the target of a link or icon gives what its resolved address holds. The parents of links and icons are listed once each.',
  I, 'all documents and archives', 'Tests use a few fixed files.',
  ['engine/get_links.cc', 'engine/link_util.cc', 'engine/get_link_parents.cc', 'convenience/kmz_check_links.cc'],
  [('href collecting parser', 'engine/get_links.cc')],
  'generated documents and archives; reference collection on the XML view', 'Reference computed by the independent XML reader.')

p('P30', 'Entity and balloon expansion substitutes exactly the defined entities',
  'Expanding a text with a set of entities replaces every occurrence of each defined entity by its value, leaves everything else unchanged, and terminates, for values that hold no entities themselves. The entities of a feature are its fields, its extended data and schema data with their display names. A balloon text is the style template so expanded, or the default: the name, then the expanded description or, without one, a table of the extended data.',
  I, 'all texts, all entity maps and all features', 'Tests expand a few fixed strings.',
  ['base/string_util.cc', 'engine/entity_mapper.cc', 'engine/feature_balloon.cc'],
  [('CreateExpandedStrings', 'base/string_util.cc'), ('EntityMapper', 'engine/entity_mapper.cc')],
  'generated templates and maps; reference expander', 'Reference is a left-to-right scanner.')

p('P31', 'Text utilities obey their contracts on all strings',
  'Splitting a text at a separator gives exactly the parts between separators, empty ones included (the whole text for an empty separator), so that joining them gives the text back, and quoted splitting returns the quoted fields as written. Prefix, suffix, case, number and whitespace functions agree with their definitions, and attribute sets behave as maps that survive writing and reading. None of them reads outside its argument.',
  I, 'all strings', 'Tests use a few ASCII examples.',
  ['base/string_util.cc', 'base/attributes.cc', 'base/csv_splitter.cc'],
  [('SplitStringUsing, SplitQuotedUsing, StringEndsWith', 'base/string_util.cc'), ('Attributes', 'base/attributes.cc')],
  'generated strings; naive reference implementations', 'References are straightforward re-implementations from the header comments.')

p('P32', 'Dates and times convert exactly',
  'Every valid UTC date-time text of the form YYYY-MM-DDThh:mm:ssZ, years 1000 to 9999, converts to the right count of seconds since 1970 with leap years handled, and its printed date, time and date-time parts are the ones written. Text of any other form, out of range, or with anything but whitespace after it is rejected.',
  I, 'all date-time texts', 'Tests convert a few dates.',
  ['base/date_time.cc', 'base/time_util.cc'],
  [('strptime/timegm', 'base/date_time.cc')],
  'generated dates; days-from-civil reference', 'Independent proleptic-Gregorian arithmetic.')

p('P33', 'Files and paths are handled exactly',
  'Writing a string to a file and reading it back gives the same bytes for every content, existence and deletion report the truth, writes that fail or fall short and reads of what is no readable file are reported as failures, the latter leaving the output as it was. Joining and splitting slash-separated paths are inverse to each other. Temporary files are distinct and disappear with their owner.',
  F, 'all contents, names and orders of operations', 'Tests write a few short strings.',
  ['base/file.cc', 'base/file_posix.cc', 'base/tempfile.h'],
  [('File', 'base/file.cc')],
  'generated contents and paths in a scratch directory; reference path algebra', 'All effects stay inside a scratch directory.')

p('P34', 'GPX import delivers every track point with its own data',
  'Reading a GPX document reports each track point that has a numeric position exactly once, in order, with its own latitude, longitude, elevation and time, whatever else the document contains. Data of one point never leaks into another, and malformed documents are handled safely.',
  I, 'all GPX documents', 'One fixed file is tested.',
  ['convenience/gpx_trk_pt_handler.h'],
  [('GpxTrkPtHandler', 'convenience/gpx_trk_pt_handler.h')],
  'generated GPX documents; generator is the oracle', 'Points with and without elevation/time, foreign elements in between.')

p('P35', 'Atom feeds and the web services carry features faithfully',
  'From any Atom feed, feature extraction finds exactly the entries whose content holds a KML feature, in order, keeps the feature with all its content, records where it came from, and leaves the feed as it was, and lookups of links, categories, entries and sources find exactly the first match. Feed, entry, link and category data survive a read-write cycle. The web-service clients send requests with the right address, headers and body, follow every page of a feed, and report exactly the requests that succeeded.',
  I, 'all feeds', 'Tests use fixed feeds.',
  ['convenience/atom_util.cc', 'convenience/google_maps_data.cc', 'convenience/google_doc_list.cc', 'convenience/google_picasa_web.cc', 'convenience/google_spreadsheets.cc', 'convenience/http_client.cc', 'dom/atom.cc'],
  [('AtomUtil', 'convenience/atom_util.cc')],
  'generated feeds; reference extraction on the XML view', 'Network client is replaced by a recording stand-in.')

p('P36', 'XSD reading reproduces the declared types and hierarchy',
  'Reading a schema (in the unprefixed XSD vocabulary) finds every declared global element and type with its attributes, resolves each element to its declared type, and lists ancestors, children and enumeration values exactly as declared, what belongs to nested anonymous types belonging to no declared one. Any schema text, including cyclic or dangling declarations, is handled without crash or endless loop, a cyclic hierarchy being refused.',
  I, 'all schema documents of the supported subset', 'Tests use one schema and a few snippets.',
  ['xsd/xsd_handler.cc', 'xsd/xsd_file.cc', 'xsd/xsd_util.cc', 'xsd/xst_parser.cc'],
  [('XsdFile lookups', 'xsd/xsd_file.cc')],
  'generated schemas; generator is the oracle', 'Includes hostile schemas under ASan.')

p('P37', 'Namespace declarations match the namespaces used',
  'The namespace finder reports exactly the namespaces of the known elements in a tree, complex, simple and misplaced ones alike, and every namespace maps to its own prefix. A file object is written with a header and a root that declares, besides what it already declared, exactly these, KML being the default namespace, so that a namespace-aware reader finds every element and attribute in its right namespace. Elements of different namespaces with the same local name are never confused. The namespace-translating reader names every element by its namespace alone, whatever prefix the document binds to it.',
  I, 'all trees mixing namespaces', 'Tests use a few fixed trees.',
  ['base/xml_namespaces.cc', 'engine/find_xml_namespaces.cc', 'engine/kml_file.cc', 'dom/xsd.cc'],
  [('FindAndInsertXmlNamespaces', 'engine/find_xml_namespaces.cc')],
  'generated trees; namespace-aware expat re-read as oracle', 'Serialized files must be namespace-well-formed.')

p('P38', 'Old-style schema placemarks become ordinary placemarks',
  'A document using the old schema style is read so that each element named by the last such schema before it becomes a placemark in the same place with everything an ordinary placemark would hold, whose children named by the schema fields become extended data entries of that schema with the same names and values in order, each placemark getting its own. Only old-style schemas get an identifier made from their name; everything else in the document is read as usual. Any misuse of the old style is handled safely, and the conversion functions turn exactly the elements of known schemas into placemarks.',
  I, 'all documents with old-style schemas', 'Tests use one fixed file.',
  ['dom/kml_handler.cc', 'engine/parse_old_schema.cc', 'engine/old_schema_parser_observer.h'],
  [('old schema handling', 'dom/kml_handler.cc'), ('old schema conversion', 'engine/parse_old_schema.cc')],
  'generated old-style documents; reference conversion', 'Reference conversion on the model.')

p('P39', 'Computed views and convenience constructors hold what they were given',
  'A view computed for a feature or box looks straight down, north up, at the center of its bounding box from a range of 1.1 times tan 60 degrees times the distance from the center to a corner, but at least 1000 m; a feature with its own view keeps it, a fly-to gets a copy of it, and without a position there is none. The convenience constructors, extended-data functions and element counter produce and report exactly the values they are given, changing nothing else. Simplifying coordinates with a positive tolerance drops exactly the tuples within the tolerance of the tuple before them.',
  I, 'all features and boxes', 'Tests use a few fixed features.',
  ['engine/feature_view.cc', 'convenience/convenience.cc'],
  [('ComputeBboxLookAt', 'engine/feature_view.cc')],
  'generated features; reference geometry and metamorphic scaling', 'Formulas re-derived independently.')

p('P40', 'The Python modules do what the library does',
  'Through the Python modules made from src/swig every element they offer is created, read, changed, cleared, cast, cloned and written with exactly the outcome the same calls have in C++: presence, values, defaults, enumerations, order of arrays, types and serialized text, for any document and any sequence of calls, texts passing as Unicode both ways. Files, archives, bounds, addresses, colors, dates and attributes give the same results and report success or failure alike; what Python reads is what the document or archive holds, and what it set last is what it gets back. Whatever Python still holds stays valid after everything it came from has been let go.',
  H, 'all documents and all programs of calls through the modules', 'The Python tests make a few fixed calls per class; a misdeclared accessor, enumeration value or ownership compiles and shows only when that one call is made.',
  ['kmlbase.i', 'kmldom.i', 'kmlengine.i', 'libkml_kmlelements.i', 'libkml_intrusive_ptr.i'],
  [('class declarations mirrored by hand', 'libkml_kmlelements.i'), ('reference-counted element pointers', 'libkml_intrusive_ptr.i')],
  'generated documents and call programs carried out in embedded Python and in C++ (differential)', 'The modules are generated by the installed swig from the tree and linked into the harness under ASan. Freeing of what Python lets go is not judged.', base='src/swig/')


def main():
    with open(V + '/properties.jsonl', 'w') as f:
        for q in P:
            assert len(q['title']) <= 80, q['title']
            f.write(json.dumps({k: v for k, v in q.items() if not k.startswith('_')}) + '\n')
    checks, na = [], []
    for q in P:
        if q['id'] in TARGETS:
            checks.append(dict(property=q['id'], quick_cmd='python3 bin/check %s quick' % q['id'],
                               thorough_cmd='python3 bin/check %s thorough' % q['id'],
                               technique='property-based testing: ' + q['_t'], level='exploration',
                               level_note=q['_n']))
        else:
            na.append(dict(property=q['id'], reason='check not built yet'))
    m = dict(version=1, setup_cmd='python3 bin/check P10 --build-only' if 'P10' in TARGETS else 'true',
             checks=checks, not_applicable=na)
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
    open(V + '/MANIFEST.json', 'a').write('\n')


main()
