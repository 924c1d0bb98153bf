VISIT(AbstractLatLonBox)
VISIT(AbstractLink)
VISIT(AbstractView)
VISIT(Alias)
VISIT(BalloonStyle)
VISIT(BasicLink)
VISIT(Camera)
VISIT(Change)
VISIT(ColorStyle)
VISIT(Container)
VISIT(Coordinates)
VISIT(Create)
VISIT(Data)
VISIT(Delete)
VISIT(Document)
VISIT(ExtendedData)
VISIT(Feature)
VISIT(Folder)
VISIT(Geometry)
VISIT(GroundOverlay)
VISIT(GxAnimatedUpdate)
VISIT(GxFlyTo)
VISIT(GxLatLonQuad)
VISIT(GxMultiTrack)
VISIT(GxPlaylist)
VISIT(GxSimpleArrayData)
VISIT(GxSimpleArrayField)
VISIT(GxSoundCue)
VISIT(GxTimeSpan)
VISIT(GxTimeStamp)
VISIT(GxTour)
VISIT(GxTourControl)
VISIT(GxTourPrimitive)
VISIT(GxTrack)
VISIT(GxWait)
VISIT(HotSpot)
VISIT(Icon)
VISIT(IconStyle)
VISIT(IconStyleIcon)
VISIT(ImagePyramid)
VISIT(InnerBoundaryIs)
VISIT(ItemIcon)
VISIT(Kml)
VISIT(LabelStyle)
VISIT(LatLonAltBox)
VISIT(LatLonBox)
VISIT(LineString)
VISIT(LineStyle)
VISIT(LinearRing)
VISIT(Link)
VISIT(LinkSnippet)
VISIT(ListStyle)
VISIT(Location)
VISIT(Lod)
VISIT(LookAt)
VISIT(Metadata)
VISIT(Model)
VISIT(MultiGeometry)
VISIT(NetworkLink)
VISIT(NetworkLinkControl)
VISIT(Object)
VISIT(Orientation)
VISIT(OuterBoundaryIs)
VISIT(Overlay)
VISIT(OverlayXY)
VISIT(Pair)
VISIT(PhotoOverlay)
VISIT(Placemark)
VISIT(Point)
VISIT(PolyStyle)
VISIT(Polygon)
VISIT(Region)
VISIT(ResourceMap)
VISIT(RotationXY)
VISIT(Scale)
VISIT(Schema)
VISIT(SchemaData)
VISIT(ScreenOverlay)
VISIT(ScreenXY)
VISIT(SimpleData)
VISIT(SimpleField)
VISIT(Size)
VISIT(Snippet)
VISIT(Style)
VISIT(StyleMap)
VISIT(StyleSelector)
VISIT(SubStyle)
VISIT(TimePrimitive)
VISIT(TimeSpan)
VISIT(TimeStamp)
VISIT(Update)
VISIT(UpdateOperation)
VISIT(Url)
VISIT(Vec2)
VISIT(ViewVolume)
