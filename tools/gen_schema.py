#!/usr/bin/env python3
"""Writes harness/schema_gen.inc: the KML vocabulary as a table with accessors.

Hand-written from the KML 2.2 / gx / Atom / xAL references and the public headers. Field syntax:
  [@]xmlname:kind[=suffix]   kinds: s b i d c  e(enum)  E(Type) G(group)  E*(Type) G*(group)
                             s* (string array) v* (space separated vec3 array) l(enum) enum list
                             T text content  C coordinates content
"""
import os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

ENUMS = {
    'altitudeMode': 'clampToGround relativeToGround absolute',
    'colorMode': 'normal random',
    'displayMode': 'default hide',
    'gridOrigin': 'lowerLeft upperLeft',
    'state': 'open closed error fetching0 fetching1 fetching2',
    'listItemType': 'check radioFolder checkOffOnly checkHideChildren',
    'refreshMode': 'onChange onInterval onExpire',
    'shape': 'rectangle cylinder sphere',
    'key': 'normal highlight',
    'units': 'fraction pixels insetPixels',
    'viewRefreshMode': 'never onRequest onStop onRegion',
    'gx:altitudeMode': 'clampToSeaFloor relativeToSeaFloor',
    'gx:flyToMode': 'bounce smooth',
    'gx:playMode': 'pause',
}
ALT = 'altitudeMode:e(altitudeMode) gx:altitudeMode:e(gx:altitudeMode)'
# class: (base, own fields)
CLASSES = {
    'Element': (None, ''),
    'Object': ('Element', '@id:s @targetId:s'),
    'Feature': ('Object', '''name:s visibility:b open:b atom:author:E(atom:author)=atomauthor
        atom:link:E(atom:link)=atomlink address:s phoneNumber:s
        xal:AddressDetails:E(xal:AddressDetails)=xaladdressdetails Snippet:E(Snippet)
        description:s AbstractView:G(AbstractView) TimePrimitive:G(TimePrimitive) styleUrl:s
        StyleSelector:G(StyleSelector)
        Region:E(Region) ExtendedData:E(ExtendedData) gx:balloonVisibility:b'''),
    'Container': ('Feature', 'Feature:G*(Feature)'),
    'Document': ('Container', 'StyleSelectors:G*(StyleSelector)=styleselector Schema:E*(Schema)'),
    'Folder': ('Container', ''),
    'Placemark': ('Feature', 'Geometry:G(Geometry)'),
    'Overlay': ('Feature', 'color:c drawOrder:i Icon:E(Icon)'),
    'GroundOverlay': ('Overlay', 'altitude:d ' + ALT + ' LatLonBox:E(LatLonBox) gx:LatLonQuad:E(gx:LatLonQuad)'),
    'PhotoOverlay': ('Overlay', 'rotation:d ViewVolume:E(ViewVolume) ImagePyramid:E(ImagePyramid) Point:E(Point) shape:e(shape)'),
    'ScreenOverlay': ('Overlay', 'overlayXY:E(overlayXY) screenXY:E(screenXY) rotationXY:E(rotationXY) size:E(size) rotation:d'),
    'NetworkLink': ('Feature', 'refreshVisibility:b flyToView:b Link:E(Link)'),
    'GxTour': ('Feature', 'gx:Playlist:E(gx:Playlist)'),
    'AbstractView': ('Object', 'TimePrimitive:G(GxTimePrimitive)=gx_timeprimitive'),
    'AbstractViewCommon': ('AbstractView', 'longitude:d latitude:d altitude:d heading:d tilt:d ' + ALT),
    'LookAt': ('AbstractViewCommon', 'range:d'),
    'Camera': ('AbstractViewCommon', 'roll:d'),
    'BasicLink': ('Object', 'href:s'),
    'AbstractLink': ('BasicLink', '''refreshMode:e(refreshMode) refreshInterval:d
        viewRefreshMode:e(viewRefreshMode) viewRefreshTime:d viewBoundScale:d viewFormat:s httpQuery:s'''),
    'Link': ('AbstractLink', ''), 'Icon': ('AbstractLink', ''), 'Url': ('AbstractLink', ''),
    'IconStyleIcon': ('BasicLink', 'gx:x:d gx:y:d gx:w:d gx:h:d'),
    'Region': ('Object', 'LatLonAltBox:E(LatLonAltBox) Lod:E(Lod)'),
    'AbstractLatLonBox': ('Object', 'north:d south:d east:d west:d'),
    'LatLonBox': ('AbstractLatLonBox', 'rotation:d'),
    'LatLonAltBox': ('AbstractLatLonBox', 'minAltitude:d maxAltitude:d ' + ALT),
    'Lod': ('Object', 'minLodPixels:d maxLodPixels:d minFadeExtent:d maxFadeExtent:d'),
    'GxLatLonQuad': ('Object', 'coordinates:E(coordinates)'),
    'Vec2': ('Element', '@x:d @y:d @xunits:e(units) @yunits:e(units)'),
    'HotSpot': ('Vec2', ''), 'OverlayXY': ('Vec2', ''), 'ScreenXY': ('Vec2', ''),
    'RotationXY': ('Vec2', ''), 'Size': ('Vec2', ''),
    'Geometry': ('Object', ''),
    'AltitudeGeometryCommon': ('Geometry', ALT),
    'ExtrudeGeometryCommon': ('AltitudeGeometryCommon', 'extrude:b'),
    'CoordinatesGeometryCommon': ('ExtrudeGeometryCommon', 'coordinates:E(coordinates)'),
    'Point': ('CoordinatesGeometryCommon', ''),
    'LineCommon': ('CoordinatesGeometryCommon', 'tessellate:b'),
    'LineString': ('LineCommon', ''), 'LinearRing': ('LineCommon', ''),
    'BoundaryCommon': ('Element', 'LinearRing:E(LinearRing)'),
    'OuterBoundaryIs': ('BoundaryCommon', ''), 'InnerBoundaryIs': ('BoundaryCommon', ''),
    'Polygon': ('ExtrudeGeometryCommon', 'tessellate:b outerBoundaryIs:E(outerBoundaryIs) innerBoundaryIs:E*(innerBoundaryIs)'),
    'MultiGeometry': ('Geometry', 'Geometry:G*(Geometry)'),
    'GxTrack': ('AltitudeGeometryCommon', 'when:s* gx:coord:v* gx:angles:v* Model:E(Model) ExtendedData:E(ExtendedData)'),
    'GxMultiTrack': ('Geometry', 'gx:interpolate:b gx:Track:E*(gx:Track)'),
    'Coordinates': ('Element', 'coordinates:C'),
    'Model': ('AltitudeGeometryCommon', 'Location:E(Location) Orientation:E(Orientation) Scale:E(Scale) Link:E(Link) ResourceMap:E(ResourceMap)'),
    'Location': ('Object', 'longitude:d latitude:d altitude:d'),
    'Orientation': ('Object', 'heading:d tilt:d roll:d'),
    'Scale': ('Object', 'x:d y:d z:d'),
    'Alias': ('Object', 'targetHref:s sourceHref:s'),
    'ResourceMap': ('Object', 'Alias:E*(Alias)'),
    'StyleSelector': ('Object', ''),
    'Style': ('StyleSelector', '''IconStyle:E(IconStyle) LabelStyle:E(LabelStyle) LineStyle:E(LineStyle)
        PolyStyle:E(PolyStyle) BalloonStyle:E(BalloonStyle) ListStyle:E(ListStyle)'''),
    'StyleMap': ('StyleSelector', 'Pair:E*(Pair)'),
    'Pair': ('Object', 'key:e(key) styleUrl:s StyleSelector:G(StyleSelector)'),
    'SubStyle': ('Object', ''),
    'ColorStyle': ('SubStyle', 'color:c colorMode:e(colorMode)'),
    'IconStyle': ('ColorStyle', 'scale:d heading:d Icon:E(IconStyleIcon) hotSpot:E(hotSpot)'),
    'LabelStyle': ('ColorStyle', 'scale:d'),
    'LineStyle': ('ColorStyle', 'width:d'),
    'PolyStyle': ('ColorStyle', 'fill:b outline:b'),
    'BalloonStyle': ('SubStyle', 'bgColor:c textColor:c text:s displayMode:e(displayMode)'),
    'ListStyle': ('SubStyle', 'listItemType:e(listItemType) bgColor:c ItemIcon:E*(ItemIcon) maxSnippetLines:i'),
    'ItemIcon': ('Object', 'state:l(state) href:s'),
    'TimePrimitive': ('Object', ''),
    'TimeSpan': ('TimePrimitive', 'begin:s end:s'), 'TimeStamp': ('TimePrimitive', 'when:s'),
    'GxTimeSpan': ('TimeSpan', ''), 'GxTimeStamp': ('TimeStamp', ''),
    'ExtendedData': ('Element', 'Data:E*(Data) SchemaData:E*(SchemaData)'),
    'Data': ('Object', '@name:s displayName:s value:s'),
    'SchemaData': ('Object', '@schemaUrl:s SimpleData:E*(SimpleData) gx:SimpleArrayData:E*(gx:SimpleArrayData)'),
    'SimpleData': ('Element', '@name:s text:T'),
    'GxSimpleArrayData': ('Element', '@name:s gx:value:s*'),
    'Schema': ('Object', '@name:s SimpleField:E*(SimpleField) gx:SimpleArrayField:E*(gx:SimpleArrayField)'),
    'SimpleField': ('Element', '@type:s @name:s displayName:s'),
    'GxSimpleArrayField': ('SimpleField', ''),
    'SnippetCommon': ('Element', '@maxLines:i text:T'),
    'Snippet': ('SnippetCommon', ''), 'LinkSnippet': ('SnippetCommon', ''),
    'NetworkLinkControl': ('Element', '''minRefreshPeriod:d maxSessionLength:d cookie:s message:s
        linkName:s linkDescription:s linkSnippet:E(linkSnippet) expires:s Update:E(Update)
        AbstractView:G(AbstractView)'''),
    'Update': ('Element', 'targetHref:s UpdateOperation:G*(UpdateOperation)'),
    'UpdateOperation': ('Element', ''),
    'Create': ('UpdateOperation', 'Container:G*(Container)'),
    'Delete': ('UpdateOperation', 'Feature:G*(Feature)'),
    'Change': ('UpdateOperation', 'Object:G*(Object)'),
    'Kml': ('Element', '@hint:s NetworkLinkControl:E(NetworkLinkControl) Feature:G(Feature)'),
    'GxPlaylist': ('Object', 'gx:TourPrimitive:G*(GxTourPrimitive)'),
    'GxTourPrimitive': ('Object', ''),
    'GxTourPrimitiveCommon': ('GxTourPrimitive', 'gx:duration:d'),
    'GxAnimatedUpdate': ('GxTourPrimitiveCommon', 'Update:E(Update)'),
    'GxFlyTo': ('GxTourPrimitiveCommon', 'gx:flyToMode:e(gx:flyToMode) AbstractView:G(AbstractView)'),
    'GxWait': ('GxTourPrimitiveCommon', ''),
    'GxSoundCue': ('GxTourPrimitive', 'href:s'),
    'GxTourControl': ('GxTourPrimitive', 'gx:playMode:e(gx:playMode)'),
    'ViewVolume': ('Object', 'leftFov:d rightFov:d bottomFov:d topFov:d near:d'),
    'ImagePyramid': ('Object', 'tileSize:i maxWidth:i maxHeight:i gridOrigin:e(gridOrigin)'),
    'AtomAuthor': ('Element', 'atom:name:s=name atom:uri:s=uri atom:email:s=email'),
    'AtomLink': ('Element', '@href:s @rel:s @type:s @hreflang:s @title:s @length:i'),
    'AtomCategory': ('Element', '@term:s @scheme:s @label:s'),
    'AtomContent': ('Element', '@src:s @type:s'),
    'AtomCommon': ('Element', '''atom:id:s=id atom:title:s=title atom:updated:s=updated
        atom:category:E*(atom:category)=category atom:link:E*(atom:link)=link'''),
    'AtomEntry': ('AtomCommon', 'atom:summary:s=summary atom:content:E(atom:content)=content'),
    'AtomFeed': ('AtomCommon', 'atom:entry:E*(atom:entry)=entry'),
    'XalAddressDetails': ('Element', 'xal:Country:E(xal:Country)=country'),
    'XalCountry': ('Element', 'xal:CountryNameCode:s=countrynamecode xal:AdministrativeArea:E(xal:AdministrativeArea)=administrativearea'),
    'XalAdministrativeArea': ('Element', '''xal:AdministrativeAreaName:s=administrativeareaname
        xal:Locality:E(xal:Locality)=locality
        xal:SubAdministrativeArea:E(xal:SubAdministrativeArea)=subadministrativearea'''),
    'XalSubAdministrativeArea': ('Element', 'xal:SubAdministrativeAreaName:s=subadministrativeareaname xal:Locality:E(xal:Locality)=locality'),
    'XalLocality': ('Element', '''xal:LocalityName:s=localityname xal:Thoroughfare:E(xal:Thoroughfare)=thoroughfare
        xal:PostalCode:E(xal:PostalCode)=postalcode'''),
    'XalThoroughfare': ('Element', 'xal:ThoroughfareNumber:s=thoroughfarenumber xal:ThoroughfareName:s=thoroughfarename'),
    'XalPostalCode': ('Element', 'xal:PostalCodeNumber:s=postalcodenumber'),
}
# concrete xml types: xml name -> C++ class (table key for IconStyleIcon is not its tag)
CONCRETE = {c: c for c in '''Document Folder Placemark GroundOverlay PhotoOverlay ScreenOverlay NetworkLink
 LookAt Camera Link Icon Url IconStyleIcon Region LatLonBox LatLonAltBox Lod Point LineString LinearRing Polygon
 MultiGeometry Model Location Orientation Scale Alias ResourceMap Style StyleMap Pair IconStyle LabelStyle
 LineStyle PolyStyle BalloonStyle ListStyle ItemIcon TimeSpan TimeStamp ExtendedData Data SchemaData SimpleData
 Schema SimpleField Snippet NetworkLinkControl Update Create Delete Change ViewVolume ImagePyramid'''.split()}
CONCRETE.update({'kml': 'Kml', 'coordinates': 'Coordinates', 'hotSpot': 'HotSpot', 'overlayXY': 'OverlayXY',
                 'screenXY': 'ScreenXY', 'rotationXY': 'RotationXY', 'size': 'Size', 'outerBoundaryIs': 'OuterBoundaryIs',
                 'innerBoundaryIs': 'InnerBoundaryIs', 'linkSnippet': 'LinkSnippet'})
for x in 'Tour Playlist AnimatedUpdate FlyTo Wait SoundCue TourControl Track MultiTrack LatLonQuad SimpleArrayData SimpleArrayField TimeSpan TimeStamp'.split():
    CONCRETE['gx:' + x] = 'Gx' + x
for x in 'author link category content entry feed'.split():
    CONCRETE['atom:' + x] = 'Atom' + x.capitalize()
for x in 'AddressDetails Country AdministrativeArea SubAdministrativeArea Locality Thoroughfare PostalCode'.split():
    CONCRETE['xal:' + x] = 'Xal' + x
TYPE_ID = {'HotSpot': 'hotSpot', 'OverlayXY': 'overlayXY', 'ScreenXY': 'screenXY', 'RotationXY': 'rotationXY',
           'Size': 'size', 'OuterBoundaryIs': 'outerBoundaryIs', 'InnerBoundaryIs': 'innerBoundaryIs',
           'LinkSnippet': 'linkSnippet', 'Kml': 'kml', 'Coordinates': 'coordinates'}
CREATE = {}
GROUPS = {
    'AbstractView': ['LookAt', 'Camera'],
    'TimePrimitive': ['TimeSpan', 'TimeStamp'],
    'GxTimePrimitive': ['gx:TimeSpan', 'gx:TimeStamp', 'TimeSpan', 'TimeStamp'],
    'StyleSelector': ['Style', 'StyleMap'],
    'Feature': ['Placemark', 'Folder', 'Document', 'GroundOverlay', 'ScreenOverlay', 'PhotoOverlay', 'NetworkLink', 'gx:Tour'],
    'Container': ['Folder', 'Document'],
    'Geometry': ['Point', 'LineString', 'LinearRing', 'Polygon', 'MultiGeometry', 'Model', 'gx:Track', 'gx:MultiTrack'],
    'UpdateOperation': ['Create', 'Delete', 'Change'],
    'GxTourPrimitive': ['gx:AnimatedUpdate', 'gx:FlyTo', 'gx:Wait', 'gx:SoundCue', 'gx:TourControl'],
    'Object': ['Placemark', 'Folder', 'Document', 'GroundOverlay', 'Style', 'StyleMap', 'IconStyle', 'LineStyle',
               'Point', 'Polygon', 'LookAt', 'Region', 'Link', 'Icon', 'LatLonBox', 'TimeSpan', 'Data', 'Schema', 'Pair'],
}
GROUP_CLASS = {'GxTimePrimitive': 'TimePrimitive'}


def parse(fields):
    out = []
    for tok in fields.split():
        m = re.match(r'(@?)([\w:]+?):(s\*|v\*|[EG]\*?\([\w:]+\)|e\([\w:]+\)|l\([\w:]+\)|[sbidcTC])(?:=(\w+))?$', tok)
        assert m, tok
        at, xml, kind, suf = m.groups()
        out.append((bool(at), xml, kind, suf or xml.lower().replace(':', '_')))
    return out


def chain(cls):
    r = []
    while cls:
        r.insert(0, cls)
        cls = CLASSES[cls][0]
    return r


def own(cls):
    return [(cls,) + f for f in parse(CLASSES[cls][1])]


def ordered(cls):
    fs = []
    for c in chain(cls):
        fs += own(c)
    by = lambda n: [f for f in fs if f[2] == n]
    names = [f[2] for f in fs]

    def move(name, before):
        f = by(name)[0]
        fs.remove(f)
        i = [k for k, g in enumerate(fs) if g[2] == before][0]
        fs.insert(i, f)
    if cls == 'Document':
        # name..styleUrl, selectors, Region.., Schema*, Feature*
        fs = [f for f in fs if f[2] != 'StyleSelector']
        sel, sch, fea = by('StyleSelectors')[0], by('Schema')[0], by('Feature')[0]
        for x in (sel, sch, fea):
            fs.remove(x)
        i = [k for k, g in enumerate(fs) if g[2] == 'Region'][0]
        fs.insert(i, sel)
        fs += [sch, fea]
    if cls in ('LookAt', 'Camera'):
        f = fs.pop()
        i = [k for k, g in enumerate(fs) if g[2] == 'altitudeMode'][0]
        fs.insert(i, f)
    if cls in ('Point', 'LineString', 'LinearRing', 'Polygon'):
        # extrude tessellate altitudeMode gx:altitudeMode ...
        front = [f for f in fs if f[1] and True] + by('extrude') + by('tessellate') + by('altitudeMode') + by('gx:altitudeMode')
        fs = front + [f for f in fs if f not in front]
    return fs


CT = {'s': 'string', 'b': 'bool', 'i': 'int', 'd': 'double', 'c': 'Color32'}


def main():
    o = ['// Generated by tools/gen_schema.py; do not edit.']
    o.append('static const EnumDef kEnums[] = {')
    for e, v in ENUMS.items():
        o.append('  {"%s", {%s}},' % (e, ', '.join('"%s"' % x for x in v.split())))
    o.append('};')
    done = {}
    fields = []

    def field_fn(f):
        cls, at, xml, kind, suf = f
        key = cls + '_' + suf
        if key in done:
            return done[key]
        done[key] = len(fields)
        K = kind[0]
        arr = kind.endswith('*') or '*(' in kind
        arg = re.search(r'\(([\w:]+)\)', kind)
        arg = arg.group(1) if arg else ''
        C = 'kmldom::' + cls
        cast = 'static_cast<%s*>(e)' % C
        if K in 'EG':
            t = arg if K == 'G' else CONCRETE.get(arg, arg)
            t = GROUP_CLASS.get(t, t)
            ptr = 'kmldom::' + t
        has = clear = set_ = get = count = at_ = 'NULL'
        k = {'s': 'K_STR', 'b': 'K_BOOL', 'i': 'K_INT', 'd': 'K_DBL', 'c': 'K_COLOR', 'e': 'K_ENUM',
             'E': 'K_ELEM', 'G': 'K_ELEM', 'T': 'K_TEXT', 'C': 'K_COORDS', 'l': 'K_ENUMS'}[K] if K != 'v' else 'K_VEC3S'
        if kind == 's*':
            k = 'K_STRS'
        if K in 'EG' and arr:
            k = 'K_ELEMS'
        member = {'K_STR': 'v.s', 'K_TEXT': 'v.s', 'K_BOOL': 'v.b', 'K_INT': 'v.i', 'K_DBL': 'v.d', 'K_ENUM': 'v.i',
                  'K_COLOR': 'v.c'}.get(k)
        if member:
            has = '[](Element* e) -> bool { return %s->has_%s(); }' % (cast, suf)
            clear = '[](Element* e) { %s->clear_%s(); }' % (cast, suf)
            set_ = '[](Element* e, const Val& v) { %s->set_%s(%s); }' % (cast, suf, member)
            get = '[](Element* e, Val& v) { %s = %s->get_%s(); }' % (member, cast, suf)
        elif k == 'K_ELEM':
            has = '[](Element* e) -> bool { return %s->has_%s(); }' % (cast, suf)
            clear = '[](Element* e) { %s->clear_%s(); }' % (cast, suf)
            set_ = '[](Element* e, const Val& v) { %s->set_%s(boost::static_pointer_cast<%s>(v.e)); }' % (cast, suf, ptr)
            get = '[](Element* e, Val& v) { v.e = %s->get_%s(); }' % (cast, suf)
        elif k == 'K_ELEMS':
            set_ = '[](Element* e, const Val& v) { %s->add_%s(boost::static_pointer_cast<%s>(v.e)); }' % (cast, suf, ptr)
            count = '[](Element* e) -> size_t { return %s->get_%s_array_size(); }' % (cast, suf)
            at_ = '[](Element* e, size_t i, Val& v) { v.e = %s->get_%s_array_at(i); }' % (cast, suf)
        elif k in ('K_STRS', 'K_VEC3S', 'K_ENUMS'):
            m = {'K_STRS': 'v.s', 'K_VEC3S': 'v.v', 'K_ENUMS': 'v.i'}[k]
            set_ = '[](Element* e, const Val& v) { %s->add_%s(%s); }' % (cast, suf, m)
            count = '[](Element* e) -> size_t { return %s->get_%s_array_size(); }' % (cast, suf)
            at_ = '[](Element* e, size_t i, Val& v) { %s = %s->get_%s_array_at(i); }' % (m, cast, suf)
        elif k == 'K_COORDS':
            set_ = '[](Element* e, const Val& v) { %s->add_vec3(v.v); }' % cast
            count = '[](Element* e) -> size_t { return %s->get_coordinates_array_size(); }' % cast
            at_ = '[](Element* e, size_t i, Val& v) { v.v = %s->get_coordinates_array_at(i); }' % cast
        if k == 'K_ENUMS':
            has = '[](Element* e) -> bool { return %s->has_%s(); }' % (cast, suf)
            clear = '[](Element* e) { %s->clear_%s(); }' % (cast, suf)
        xmln = 'StyleSelector' if xml == 'StyleSelectors' else xml
        fields.append('  {"%s", "%s", "%s", %s, %s, "%s", %s,\n   %s, %s,\n   %s,\n   %s,\n   %s, %s},' % (
            xmln, cls, suf, k, 'true' if at else 'false', arg, 'true' if K == 'G' else 'false',
            has, clear, set_, get, count, at_))
        return done[key]

    types = []
    for xml, cls in CONCRETE.items():
        idx = [field_fn(f) for f in ordered(cls)]
        tid = TYPE_ID.get(cls, cls)
        tag = 'Icon' if xml == 'IconStyleIcon' else xml
        isa = ', '.join('"%s"' % c for c in chain(cls))
        types.append('  {"%s", "%s", "%s", kmldom::Type_%s, []() -> ElementPtr { return KmlFactory::GetFactory()->Create%s(); },\n   {%s},\n   {%s}},' % (
            xml, tag, cls, tid, cls, isa, ', '.join(map(str, idx))))
    o.append('static const Field kFields[] = {')
    o += fields
    o.append('};')
    o.append('static const TypeDef kTypes[] = {')
    o += types
    o.append('};')
    o.append('static const GroupDef kGroups[] = {')
    for g, m in GROUPS.items():
        o.append('  {"%s", {%s}},' % (g, ', '.join('"%s"' % x for x in m)))
    o.append('};')
    open(V + '/harness/schema_gen.inc', 'w').write('\n'.join(o) + '\n')
    print(len(fields), 'fields', len(types), 'types')


main()
