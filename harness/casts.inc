// Downcast functions of kml_cast.h.
CAST(AbstractLatLonBox)
CAST(AbstractView)
CAST(Alias)
CAST(AtomAuthor)
CAST(AtomCategory)
CAST(AtomContent)
CAST(AtomEntry)
CAST(AtomFeed)
CAST(AtomLink)
CAST(BalloonStyle)
CAST(Camera)
CAST(Change)
CAST(ColorStyle)
CAST(Container)
CAST(Coordinates)
CAST(Create)
CAST(Data)
CAST(Delete)
CAST(Document)
CAST(ExtendedData)
CAST(Feature)
CAST(Folder)
CAST(Geometry)
CAST(GroundOverlay)
CAST(GxAnimatedUpdate)
CAST(GxFlyTo)
CAST(GxLatLonQuad)
CAST(GxMultiTrack)
CAST(GxPlaylist)
CAST(GxSimpleArrayData)
CAST(GxSimpleArrayField)
CAST(GxSoundCue)
CAST(GxTimeSpan)
CAST(GxTimeStamp)
CAST(GxTour)
CAST(GxTourControl)
CAST(GxTourPrimitive)
CAST(GxTrack)
CAST(GxWait)
CAST(HotSpot)
CAST(Icon)
CAST(IconStyle)
CAST(IconStyleIcon)
CAST(ImagePyramid)
CAST(InnerBoundaryIs)
CAST(ItemIcon)
CAST(Kml)
CAST(LabelStyle)
CAST(LatLonAltBox)
CAST(LatLonBox)
CAST(LineString)
CAST(LineStyle)
CAST(LinearRing)
CAST(Link)
CAST(LinkSnippet)
CAST(ListStyle)
CAST(Location)
CAST(Lod)
CAST(LookAt)
CAST(Metadata)
CAST(Model)
CAST(MultiGeometry)
CAST(NetworkLink)
CAST(NetworkLinkControl)
CAST(Object)
CAST(Orientation)
CAST(OuterBoundaryIs)
CAST(Overlay)
CAST(OverlayXY)
CAST(Pair)
CAST(PhotoOverlay)
CAST(Placemark)
CAST(Point)
CAST(PolyStyle)
CAST(Polygon)
CAST(Region)
CAST(ResourceMap)
CAST(RotationXY)
CAST(Scale)
CAST(Schema)
CAST(SchemaData)
CAST(ScreenOverlay)
CAST(ScreenXY)
CAST(SimpleData)
CAST(SimpleField)
CAST(Size)
CAST(Snippet)
CAST(Style)
CAST(StyleMap)
CAST(StyleSelector)
CAST(SubStyle)
CAST(TimePrimitive)
CAST(TimeSpan)
CAST(TimeStamp)
CAST(Update)
CAST(ViewVolume)
CAST(XalAddressDetails)
CAST(XalAdministrativeArea)
CAST(XalCountry)
CAST(XalLocality)
CAST(XalPostalCode)
CAST(XalSubAdministrativeArea)
CAST(XalThoroughfare)
