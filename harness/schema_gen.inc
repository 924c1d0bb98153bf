// Generated by tools/gen_schema.py; do not edit.
static const EnumDef kEnums[] = {
  {"altitudeMode", {"clampToGround", "relativeToGround", "absolute"}},
  {"colorMode", {"normal", "random"}},
  {"displayMode", {"default", "hide"}},
  {"gridOrigin", {"lowerLeft", "upperLeft"}},
  {"state", {"open", "closed", "error", "fetching0", "fetching1", "fetching2"}},
  {"listItemType", {"check", "radioFolder", "checkOffOnly", "checkHideChildren"}},
  {"refreshMode", {"onChange", "onInterval", "onExpire"}},
  {"shape", {"rectangle", "cylinder", "sphere"}},
  {"key", {"normal", "highlight"}},
  {"units", {"fraction", "pixels", "insetPixels"}},
  {"viewRefreshMode", {"never", "onRequest", "onStop", "onRegion"}},
  {"gx:altitudeMode", {"clampToSeaFloor", "relativeToSeaFloor"}},
  {"gx:flyToMode", {"bounce", "smooth"}},
  {"gx:playMode", {"pause"}},
};
static const Field kFields[] = {
  {"id", "Object", "id", K_STR, true, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::Object*>(e)->has_id(); }, [](Element* e) { static_cast<kmldom::Object*>(e)->clear_id(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Object*>(e)->set_id(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::Object*>(e)->get_id(); },
   NULL, NULL},
  {"targetId", "Object", "targetid", K_STR, true, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::Object*>(e)->has_targetid(); }, [](Element* e) { static_cast<kmldom::Object*>(e)->clear_targetid(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Object*>(e)->set_targetid(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::Object*>(e)->get_targetid(); },
   NULL, NULL},
  {"name", "Feature", "name", K_STR, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::Feature*>(e)->has_name(); }, [](Element* e) { static_cast<kmldom::Feature*>(e)->clear_name(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Feature*>(e)->set_name(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::Feature*>(e)->get_name(); },
   NULL, NULL},
  {"visibility", "Feature", "visibility", K_BOOL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::Feature*>(e)->has_visibility(); }, [](Element* e) { static_cast<kmldom::Feature*>(e)->clear_visibility(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Feature*>(e)->set_visibility(v.b); },
   [](Element* e, Val& v) { v.b = static_cast<kmldom::Feature*>(e)->get_visibility(); },
   NULL, NULL},
  {"open", "Feature", "open", K_BOOL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::Feature*>(e)->has_open(); }, [](Element* e) { static_cast<kmldom::Feature*>(e)->clear_open(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Feature*>(e)->set_open(v.b); },
   [](Element* e, Val& v) { v.b = static_cast<kmldom::Feature*>(e)->get_open(); },
   NULL, NULL},
  {"atom:author", "Feature", "atomauthor", K_ELEM, false, "atom:author", false,
   [](Element* e) -> bool { return static_cast<kmldom::Feature*>(e)->has_atomauthor(); }, [](Element* e) { static_cast<kmldom::Feature*>(e)->clear_atomauthor(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Feature*>(e)->set_atomauthor(boost::static_pointer_cast<kmldom::AtomAuthor>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::Feature*>(e)->get_atomauthor(); },
   NULL, NULL},
  {"atom:link", "Feature", "atomlink", K_ELEM, false, "atom:link", false,
   [](Element* e) -> bool { return static_cast<kmldom::Feature*>(e)->has_atomlink(); }, [](Element* e) { static_cast<kmldom::Feature*>(e)->clear_atomlink(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Feature*>(e)->set_atomlink(boost::static_pointer_cast<kmldom::AtomLink>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::Feature*>(e)->get_atomlink(); },
   NULL, NULL},
  {"address", "Feature", "address", K_STR, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::Feature*>(e)->has_address(); }, [](Element* e) { static_cast<kmldom::Feature*>(e)->clear_address(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Feature*>(e)->set_address(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::Feature*>(e)->get_address(); },
   NULL, NULL},
  {"phoneNumber", "Feature", "phonenumber", K_STR, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::Feature*>(e)->has_phonenumber(); }, [](Element* e) { static_cast<kmldom::Feature*>(e)->clear_phonenumber(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Feature*>(e)->set_phonenumber(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::Feature*>(e)->get_phonenumber(); },
   NULL, NULL},
  {"xal:AddressDetails", "Feature", "xaladdressdetails", K_ELEM, false, "xal:AddressDetails", false,
   [](Element* e) -> bool { return static_cast<kmldom::Feature*>(e)->has_xaladdressdetails(); }, [](Element* e) { static_cast<kmldom::Feature*>(e)->clear_xaladdressdetails(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Feature*>(e)->set_xaladdressdetails(boost::static_pointer_cast<kmldom::XalAddressDetails>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::Feature*>(e)->get_xaladdressdetails(); },
   NULL, NULL},
  {"Snippet", "Feature", "snippet", K_ELEM, false, "Snippet", false,
   [](Element* e) -> bool { return static_cast<kmldom::Feature*>(e)->has_snippet(); }, [](Element* e) { static_cast<kmldom::Feature*>(e)->clear_snippet(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Feature*>(e)->set_snippet(boost::static_pointer_cast<kmldom::Snippet>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::Feature*>(e)->get_snippet(); },
   NULL, NULL},
  {"description", "Feature", "description", K_STR, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::Feature*>(e)->has_description(); }, [](Element* e) { static_cast<kmldom::Feature*>(e)->clear_description(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Feature*>(e)->set_description(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::Feature*>(e)->get_description(); },
   NULL, NULL},
  {"AbstractView", "Feature", "abstractview", K_ELEM, false, "AbstractView", true,
   [](Element* e) -> bool { return static_cast<kmldom::Feature*>(e)->has_abstractview(); }, [](Element* e) { static_cast<kmldom::Feature*>(e)->clear_abstractview(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Feature*>(e)->set_abstractview(boost::static_pointer_cast<kmldom::AbstractView>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::Feature*>(e)->get_abstractview(); },
   NULL, NULL},
  {"TimePrimitive", "Feature", "timeprimitive", K_ELEM, false, "TimePrimitive", true,
   [](Element* e) -> bool { return static_cast<kmldom::Feature*>(e)->has_timeprimitive(); }, [](Element* e) { static_cast<kmldom::Feature*>(e)->clear_timeprimitive(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Feature*>(e)->set_timeprimitive(boost::static_pointer_cast<kmldom::TimePrimitive>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::Feature*>(e)->get_timeprimitive(); },
   NULL, NULL},
  {"styleUrl", "Feature", "styleurl", K_STR, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::Feature*>(e)->has_styleurl(); }, [](Element* e) { static_cast<kmldom::Feature*>(e)->clear_styleurl(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Feature*>(e)->set_styleurl(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::Feature*>(e)->get_styleurl(); },
   NULL, NULL},
  {"StyleSelector", "Document", "styleselector", K_ELEMS, false, "StyleSelector", true,
   NULL, NULL,
   [](Element* e, const Val& v) { static_cast<kmldom::Document*>(e)->add_styleselector(boost::static_pointer_cast<kmldom::StyleSelector>(v.e)); },
   NULL,
   [](Element* e) -> size_t { return static_cast<kmldom::Document*>(e)->get_styleselector_array_size(); }, [](Element* e, size_t i, Val& v) { v.e = static_cast<kmldom::Document*>(e)->get_styleselector_array_at(i); }},
  {"Region", "Feature", "region", K_ELEM, false, "Region", false,
   [](Element* e) -> bool { return static_cast<kmldom::Feature*>(e)->has_region(); }, [](Element* e) { static_cast<kmldom::Feature*>(e)->clear_region(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Feature*>(e)->set_region(boost::static_pointer_cast<kmldom::Region>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::Feature*>(e)->get_region(); },
   NULL, NULL},
  {"ExtendedData", "Feature", "extendeddata", K_ELEM, false, "ExtendedData", false,
   [](Element* e) -> bool { return static_cast<kmldom::Feature*>(e)->has_extendeddata(); }, [](Element* e) { static_cast<kmldom::Feature*>(e)->clear_extendeddata(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Feature*>(e)->set_extendeddata(boost::static_pointer_cast<kmldom::ExtendedData>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::Feature*>(e)->get_extendeddata(); },
   NULL, NULL},
  {"gx:balloonVisibility", "Feature", "gx_balloonvisibility", K_BOOL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::Feature*>(e)->has_gx_balloonvisibility(); }, [](Element* e) { static_cast<kmldom::Feature*>(e)->clear_gx_balloonvisibility(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Feature*>(e)->set_gx_balloonvisibility(v.b); },
   [](Element* e, Val& v) { v.b = static_cast<kmldom::Feature*>(e)->get_gx_balloonvisibility(); },
   NULL, NULL},
  {"Schema", "Document", "schema", K_ELEMS, false, "Schema", false,
   NULL, NULL,
   [](Element* e, const Val& v) { static_cast<kmldom::Document*>(e)->add_schema(boost::static_pointer_cast<kmldom::Schema>(v.e)); },
   NULL,
   [](Element* e) -> size_t { return static_cast<kmldom::Document*>(e)->get_schema_array_size(); }, [](Element* e, size_t i, Val& v) { v.e = static_cast<kmldom::Document*>(e)->get_schema_array_at(i); }},
  {"Feature", "Container", "feature", K_ELEMS, false, "Feature", true,
   NULL, NULL,
   [](Element* e, const Val& v) { static_cast<kmldom::Container*>(e)->add_feature(boost::static_pointer_cast<kmldom::Feature>(v.e)); },
   NULL,
   [](Element* e) -> size_t { return static_cast<kmldom::Container*>(e)->get_feature_array_size(); }, [](Element* e, size_t i, Val& v) { v.e = static_cast<kmldom::Container*>(e)->get_feature_array_at(i); }},
  {"StyleSelector", "Feature", "styleselector", K_ELEM, false, "StyleSelector", true,
   [](Element* e) -> bool { return static_cast<kmldom::Feature*>(e)->has_styleselector(); }, [](Element* e) { static_cast<kmldom::Feature*>(e)->clear_styleselector(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Feature*>(e)->set_styleselector(boost::static_pointer_cast<kmldom::StyleSelector>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::Feature*>(e)->get_styleselector(); },
   NULL, NULL},
  {"Geometry", "Placemark", "geometry", K_ELEM, false, "Geometry", true,
   [](Element* e) -> bool { return static_cast<kmldom::Placemark*>(e)->has_geometry(); }, [](Element* e) { static_cast<kmldom::Placemark*>(e)->clear_geometry(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Placemark*>(e)->set_geometry(boost::static_pointer_cast<kmldom::Geometry>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::Placemark*>(e)->get_geometry(); },
   NULL, NULL},
  {"color", "Overlay", "color", K_COLOR, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::Overlay*>(e)->has_color(); }, [](Element* e) { static_cast<kmldom::Overlay*>(e)->clear_color(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Overlay*>(e)->set_color(v.c); },
   [](Element* e, Val& v) { v.c = static_cast<kmldom::Overlay*>(e)->get_color(); },
   NULL, NULL},
  {"drawOrder", "Overlay", "draworder", K_INT, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::Overlay*>(e)->has_draworder(); }, [](Element* e) { static_cast<kmldom::Overlay*>(e)->clear_draworder(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Overlay*>(e)->set_draworder(v.i); },
   [](Element* e, Val& v) { v.i = static_cast<kmldom::Overlay*>(e)->get_draworder(); },
   NULL, NULL},
  {"Icon", "Overlay", "icon", K_ELEM, false, "Icon", false,
   [](Element* e) -> bool { return static_cast<kmldom::Overlay*>(e)->has_icon(); }, [](Element* e) { static_cast<kmldom::Overlay*>(e)->clear_icon(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Overlay*>(e)->set_icon(boost::static_pointer_cast<kmldom::Icon>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::Overlay*>(e)->get_icon(); },
   NULL, NULL},
  {"altitude", "GroundOverlay", "altitude", K_DBL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::GroundOverlay*>(e)->has_altitude(); }, [](Element* e) { static_cast<kmldom::GroundOverlay*>(e)->clear_altitude(); },
   [](Element* e, const Val& v) { static_cast<kmldom::GroundOverlay*>(e)->set_altitude(v.d); },
   [](Element* e, Val& v) { v.d = static_cast<kmldom::GroundOverlay*>(e)->get_altitude(); },
   NULL, NULL},
  {"altitudeMode", "GroundOverlay", "altitudemode", K_ENUM, false, "altitudeMode", false,
   [](Element* e) -> bool { return static_cast<kmldom::GroundOverlay*>(e)->has_altitudemode(); }, [](Element* e) { static_cast<kmldom::GroundOverlay*>(e)->clear_altitudemode(); },
   [](Element* e, const Val& v) { static_cast<kmldom::GroundOverlay*>(e)->set_altitudemode(v.i); },
   [](Element* e, Val& v) { v.i = static_cast<kmldom::GroundOverlay*>(e)->get_altitudemode(); },
   NULL, NULL},
  {"gx:altitudeMode", "GroundOverlay", "gx_altitudemode", K_ENUM, false, "gx:altitudeMode", false,
   [](Element* e) -> bool { return static_cast<kmldom::GroundOverlay*>(e)->has_gx_altitudemode(); }, [](Element* e) { static_cast<kmldom::GroundOverlay*>(e)->clear_gx_altitudemode(); },
   [](Element* e, const Val& v) { static_cast<kmldom::GroundOverlay*>(e)->set_gx_altitudemode(v.i); },
   [](Element* e, Val& v) { v.i = static_cast<kmldom::GroundOverlay*>(e)->get_gx_altitudemode(); },
   NULL, NULL},
  {"LatLonBox", "GroundOverlay", "latlonbox", K_ELEM, false, "LatLonBox", false,
   [](Element* e) -> bool { return static_cast<kmldom::GroundOverlay*>(e)->has_latlonbox(); }, [](Element* e) { static_cast<kmldom::GroundOverlay*>(e)->clear_latlonbox(); },
   [](Element* e, const Val& v) { static_cast<kmldom::GroundOverlay*>(e)->set_latlonbox(boost::static_pointer_cast<kmldom::LatLonBox>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::GroundOverlay*>(e)->get_latlonbox(); },
   NULL, NULL},
  {"gx:LatLonQuad", "GroundOverlay", "gx_latlonquad", K_ELEM, false, "gx:LatLonQuad", false,
   [](Element* e) -> bool { return static_cast<kmldom::GroundOverlay*>(e)->has_gx_latlonquad(); }, [](Element* e) { static_cast<kmldom::GroundOverlay*>(e)->clear_gx_latlonquad(); },
   [](Element* e, const Val& v) { static_cast<kmldom::GroundOverlay*>(e)->set_gx_latlonquad(boost::static_pointer_cast<kmldom::GxLatLonQuad>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::GroundOverlay*>(e)->get_gx_latlonquad(); },
   NULL, NULL},
  {"rotation", "PhotoOverlay", "rotation", K_DBL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::PhotoOverlay*>(e)->has_rotation(); }, [](Element* e) { static_cast<kmldom::PhotoOverlay*>(e)->clear_rotation(); },
   [](Element* e, const Val& v) { static_cast<kmldom::PhotoOverlay*>(e)->set_rotation(v.d); },
   [](Element* e, Val& v) { v.d = static_cast<kmldom::PhotoOverlay*>(e)->get_rotation(); },
   NULL, NULL},
  {"ViewVolume", "PhotoOverlay", "viewvolume", K_ELEM, false, "ViewVolume", false,
   [](Element* e) -> bool { return static_cast<kmldom::PhotoOverlay*>(e)->has_viewvolume(); }, [](Element* e) { static_cast<kmldom::PhotoOverlay*>(e)->clear_viewvolume(); },
   [](Element* e, const Val& v) { static_cast<kmldom::PhotoOverlay*>(e)->set_viewvolume(boost::static_pointer_cast<kmldom::ViewVolume>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::PhotoOverlay*>(e)->get_viewvolume(); },
   NULL, NULL},
  {"ImagePyramid", "PhotoOverlay", "imagepyramid", K_ELEM, false, "ImagePyramid", false,
   [](Element* e) -> bool { return static_cast<kmldom::PhotoOverlay*>(e)->has_imagepyramid(); }, [](Element* e) { static_cast<kmldom::PhotoOverlay*>(e)->clear_imagepyramid(); },
   [](Element* e, const Val& v) { static_cast<kmldom::PhotoOverlay*>(e)->set_imagepyramid(boost::static_pointer_cast<kmldom::ImagePyramid>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::PhotoOverlay*>(e)->get_imagepyramid(); },
   NULL, NULL},
  {"Point", "PhotoOverlay", "point", K_ELEM, false, "Point", false,
   [](Element* e) -> bool { return static_cast<kmldom::PhotoOverlay*>(e)->has_point(); }, [](Element* e) { static_cast<kmldom::PhotoOverlay*>(e)->clear_point(); },
   [](Element* e, const Val& v) { static_cast<kmldom::PhotoOverlay*>(e)->set_point(boost::static_pointer_cast<kmldom::Point>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::PhotoOverlay*>(e)->get_point(); },
   NULL, NULL},
  {"shape", "PhotoOverlay", "shape", K_ENUM, false, "shape", false,
   [](Element* e) -> bool { return static_cast<kmldom::PhotoOverlay*>(e)->has_shape(); }, [](Element* e) { static_cast<kmldom::PhotoOverlay*>(e)->clear_shape(); },
   [](Element* e, const Val& v) { static_cast<kmldom::PhotoOverlay*>(e)->set_shape(v.i); },
   [](Element* e, Val& v) { v.i = static_cast<kmldom::PhotoOverlay*>(e)->get_shape(); },
   NULL, NULL},
  {"overlayXY", "ScreenOverlay", "overlayxy", K_ELEM, false, "overlayXY", false,
   [](Element* e) -> bool { return static_cast<kmldom::ScreenOverlay*>(e)->has_overlayxy(); }, [](Element* e) { static_cast<kmldom::ScreenOverlay*>(e)->clear_overlayxy(); },
   [](Element* e, const Val& v) { static_cast<kmldom::ScreenOverlay*>(e)->set_overlayxy(boost::static_pointer_cast<kmldom::OverlayXY>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::ScreenOverlay*>(e)->get_overlayxy(); },
   NULL, NULL},
  {"screenXY", "ScreenOverlay", "screenxy", K_ELEM, false, "screenXY", false,
   [](Element* e) -> bool { return static_cast<kmldom::ScreenOverlay*>(e)->has_screenxy(); }, [](Element* e) { static_cast<kmldom::ScreenOverlay*>(e)->clear_screenxy(); },
   [](Element* e, const Val& v) { static_cast<kmldom::ScreenOverlay*>(e)->set_screenxy(boost::static_pointer_cast<kmldom::ScreenXY>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::ScreenOverlay*>(e)->get_screenxy(); },
   NULL, NULL},
  {"rotationXY", "ScreenOverlay", "rotationxy", K_ELEM, false, "rotationXY", false,
   [](Element* e) -> bool { return static_cast<kmldom::ScreenOverlay*>(e)->has_rotationxy(); }, [](Element* e) { static_cast<kmldom::ScreenOverlay*>(e)->clear_rotationxy(); },
   [](Element* e, const Val& v) { static_cast<kmldom::ScreenOverlay*>(e)->set_rotationxy(boost::static_pointer_cast<kmldom::RotationXY>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::ScreenOverlay*>(e)->get_rotationxy(); },
   NULL, NULL},
  {"size", "ScreenOverlay", "size", K_ELEM, false, "size", false,
   [](Element* e) -> bool { return static_cast<kmldom::ScreenOverlay*>(e)->has_size(); }, [](Element* e) { static_cast<kmldom::ScreenOverlay*>(e)->clear_size(); },
   [](Element* e, const Val& v) { static_cast<kmldom::ScreenOverlay*>(e)->set_size(boost::static_pointer_cast<kmldom::Size>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::ScreenOverlay*>(e)->get_size(); },
   NULL, NULL},
  {"rotation", "ScreenOverlay", "rotation", K_DBL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::ScreenOverlay*>(e)->has_rotation(); }, [](Element* e) { static_cast<kmldom::ScreenOverlay*>(e)->clear_rotation(); },
   [](Element* e, const Val& v) { static_cast<kmldom::ScreenOverlay*>(e)->set_rotation(v.d); },
   [](Element* e, Val& v) { v.d = static_cast<kmldom::ScreenOverlay*>(e)->get_rotation(); },
   NULL, NULL},
  {"refreshVisibility", "NetworkLink", "refreshvisibility", K_BOOL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::NetworkLink*>(e)->has_refreshvisibility(); }, [](Element* e) { static_cast<kmldom::NetworkLink*>(e)->clear_refreshvisibility(); },
   [](Element* e, const Val& v) { static_cast<kmldom::NetworkLink*>(e)->set_refreshvisibility(v.b); },
   [](Element* e, Val& v) { v.b = static_cast<kmldom::NetworkLink*>(e)->get_refreshvisibility(); },
   NULL, NULL},
  {"flyToView", "NetworkLink", "flytoview", K_BOOL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::NetworkLink*>(e)->has_flytoview(); }, [](Element* e) { static_cast<kmldom::NetworkLink*>(e)->clear_flytoview(); },
   [](Element* e, const Val& v) { static_cast<kmldom::NetworkLink*>(e)->set_flytoview(v.b); },
   [](Element* e, Val& v) { v.b = static_cast<kmldom::NetworkLink*>(e)->get_flytoview(); },
   NULL, NULL},
  {"Link", "NetworkLink", "link", K_ELEM, false, "Link", false,
   [](Element* e) -> bool { return static_cast<kmldom::NetworkLink*>(e)->has_link(); }, [](Element* e) { static_cast<kmldom::NetworkLink*>(e)->clear_link(); },
   [](Element* e, const Val& v) { static_cast<kmldom::NetworkLink*>(e)->set_link(boost::static_pointer_cast<kmldom::Link>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::NetworkLink*>(e)->get_link(); },
   NULL, NULL},
  {"TimePrimitive", "AbstractView", "gx_timeprimitive", K_ELEM, false, "GxTimePrimitive", true,
   [](Element* e) -> bool { return static_cast<kmldom::AbstractView*>(e)->has_gx_timeprimitive(); }, [](Element* e) { static_cast<kmldom::AbstractView*>(e)->clear_gx_timeprimitive(); },
   [](Element* e, const Val& v) { static_cast<kmldom::AbstractView*>(e)->set_gx_timeprimitive(boost::static_pointer_cast<kmldom::TimePrimitive>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::AbstractView*>(e)->get_gx_timeprimitive(); },
   NULL, NULL},
  {"longitude", "AbstractViewCommon", "longitude", K_DBL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::AbstractViewCommon*>(e)->has_longitude(); }, [](Element* e) { static_cast<kmldom::AbstractViewCommon*>(e)->clear_longitude(); },
   [](Element* e, const Val& v) { static_cast<kmldom::AbstractViewCommon*>(e)->set_longitude(v.d); },
   [](Element* e, Val& v) { v.d = static_cast<kmldom::AbstractViewCommon*>(e)->get_longitude(); },
   NULL, NULL},
  {"latitude", "AbstractViewCommon", "latitude", K_DBL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::AbstractViewCommon*>(e)->has_latitude(); }, [](Element* e) { static_cast<kmldom::AbstractViewCommon*>(e)->clear_latitude(); },
   [](Element* e, const Val& v) { static_cast<kmldom::AbstractViewCommon*>(e)->set_latitude(v.d); },
   [](Element* e, Val& v) { v.d = static_cast<kmldom::AbstractViewCommon*>(e)->get_latitude(); },
   NULL, NULL},
  {"altitude", "AbstractViewCommon", "altitude", K_DBL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::AbstractViewCommon*>(e)->has_altitude(); }, [](Element* e) { static_cast<kmldom::AbstractViewCommon*>(e)->clear_altitude(); },
   [](Element* e, const Val& v) { static_cast<kmldom::AbstractViewCommon*>(e)->set_altitude(v.d); },
   [](Element* e, Val& v) { v.d = static_cast<kmldom::AbstractViewCommon*>(e)->get_altitude(); },
   NULL, NULL},
  {"heading", "AbstractViewCommon", "heading", K_DBL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::AbstractViewCommon*>(e)->has_heading(); }, [](Element* e) { static_cast<kmldom::AbstractViewCommon*>(e)->clear_heading(); },
   [](Element* e, const Val& v) { static_cast<kmldom::AbstractViewCommon*>(e)->set_heading(v.d); },
   [](Element* e, Val& v) { v.d = static_cast<kmldom::AbstractViewCommon*>(e)->get_heading(); },
   NULL, NULL},
  {"tilt", "AbstractViewCommon", "tilt", K_DBL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::AbstractViewCommon*>(e)->has_tilt(); }, [](Element* e) { static_cast<kmldom::AbstractViewCommon*>(e)->clear_tilt(); },
   [](Element* e, const Val& v) { static_cast<kmldom::AbstractViewCommon*>(e)->set_tilt(v.d); },
   [](Element* e, Val& v) { v.d = static_cast<kmldom::AbstractViewCommon*>(e)->get_tilt(); },
   NULL, NULL},
  {"range", "LookAt", "range", K_DBL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::LookAt*>(e)->has_range(); }, [](Element* e) { static_cast<kmldom::LookAt*>(e)->clear_range(); },
   [](Element* e, const Val& v) { static_cast<kmldom::LookAt*>(e)->set_range(v.d); },
   [](Element* e, Val& v) { v.d = static_cast<kmldom::LookAt*>(e)->get_range(); },
   NULL, NULL},
  {"altitudeMode", "AbstractViewCommon", "altitudemode", K_ENUM, false, "altitudeMode", false,
   [](Element* e) -> bool { return static_cast<kmldom::AbstractViewCommon*>(e)->has_altitudemode(); }, [](Element* e) { static_cast<kmldom::AbstractViewCommon*>(e)->clear_altitudemode(); },
   [](Element* e, const Val& v) { static_cast<kmldom::AbstractViewCommon*>(e)->set_altitudemode(v.i); },
   [](Element* e, Val& v) { v.i = static_cast<kmldom::AbstractViewCommon*>(e)->get_altitudemode(); },
   NULL, NULL},
  {"gx:altitudeMode", "AbstractViewCommon", "gx_altitudemode", K_ENUM, false, "gx:altitudeMode", false,
   [](Element* e) -> bool { return static_cast<kmldom::AbstractViewCommon*>(e)->has_gx_altitudemode(); }, [](Element* e) { static_cast<kmldom::AbstractViewCommon*>(e)->clear_gx_altitudemode(); },
   [](Element* e, const Val& v) { static_cast<kmldom::AbstractViewCommon*>(e)->set_gx_altitudemode(v.i); },
   [](Element* e, Val& v) { v.i = static_cast<kmldom::AbstractViewCommon*>(e)->get_gx_altitudemode(); },
   NULL, NULL},
  {"roll", "Camera", "roll", K_DBL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::Camera*>(e)->has_roll(); }, [](Element* e) { static_cast<kmldom::Camera*>(e)->clear_roll(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Camera*>(e)->set_roll(v.d); },
   [](Element* e, Val& v) { v.d = static_cast<kmldom::Camera*>(e)->get_roll(); },
   NULL, NULL},
  {"href", "BasicLink", "href", K_STR, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::BasicLink*>(e)->has_href(); }, [](Element* e) { static_cast<kmldom::BasicLink*>(e)->clear_href(); },
   [](Element* e, const Val& v) { static_cast<kmldom::BasicLink*>(e)->set_href(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::BasicLink*>(e)->get_href(); },
   NULL, NULL},
  {"refreshMode", "AbstractLink", "refreshmode", K_ENUM, false, "refreshMode", false,
   [](Element* e) -> bool { return static_cast<kmldom::AbstractLink*>(e)->has_refreshmode(); }, [](Element* e) { static_cast<kmldom::AbstractLink*>(e)->clear_refreshmode(); },
   [](Element* e, const Val& v) { static_cast<kmldom::AbstractLink*>(e)->set_refreshmode(v.i); },
   [](Element* e, Val& v) { v.i = static_cast<kmldom::AbstractLink*>(e)->get_refreshmode(); },
   NULL, NULL},
  {"refreshInterval", "AbstractLink", "refreshinterval", K_DBL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::AbstractLink*>(e)->has_refreshinterval(); }, [](Element* e) { static_cast<kmldom::AbstractLink*>(e)->clear_refreshinterval(); },
   [](Element* e, const Val& v) { static_cast<kmldom::AbstractLink*>(e)->set_refreshinterval(v.d); },
   [](Element* e, Val& v) { v.d = static_cast<kmldom::AbstractLink*>(e)->get_refreshinterval(); },
   NULL, NULL},
  {"viewRefreshMode", "AbstractLink", "viewrefreshmode", K_ENUM, false, "viewRefreshMode", false,
   [](Element* e) -> bool { return static_cast<kmldom::AbstractLink*>(e)->has_viewrefreshmode(); }, [](Element* e) { static_cast<kmldom::AbstractLink*>(e)->clear_viewrefreshmode(); },
   [](Element* e, const Val& v) { static_cast<kmldom::AbstractLink*>(e)->set_viewrefreshmode(v.i); },
   [](Element* e, Val& v) { v.i = static_cast<kmldom::AbstractLink*>(e)->get_viewrefreshmode(); },
   NULL, NULL},
  {"viewRefreshTime", "AbstractLink", "viewrefreshtime", K_DBL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::AbstractLink*>(e)->has_viewrefreshtime(); }, [](Element* e) { static_cast<kmldom::AbstractLink*>(e)->clear_viewrefreshtime(); },
   [](Element* e, const Val& v) { static_cast<kmldom::AbstractLink*>(e)->set_viewrefreshtime(v.d); },
   [](Element* e, Val& v) { v.d = static_cast<kmldom::AbstractLink*>(e)->get_viewrefreshtime(); },
   NULL, NULL},
  {"viewBoundScale", "AbstractLink", "viewboundscale", K_DBL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::AbstractLink*>(e)->has_viewboundscale(); }, [](Element* e) { static_cast<kmldom::AbstractLink*>(e)->clear_viewboundscale(); },
   [](Element* e, const Val& v) { static_cast<kmldom::AbstractLink*>(e)->set_viewboundscale(v.d); },
   [](Element* e, Val& v) { v.d = static_cast<kmldom::AbstractLink*>(e)->get_viewboundscale(); },
   NULL, NULL},
  {"viewFormat", "AbstractLink", "viewformat", K_STR, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::AbstractLink*>(e)->has_viewformat(); }, [](Element* e) { static_cast<kmldom::AbstractLink*>(e)->clear_viewformat(); },
   [](Element* e, const Val& v) { static_cast<kmldom::AbstractLink*>(e)->set_viewformat(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::AbstractLink*>(e)->get_viewformat(); },
   NULL, NULL},
  {"httpQuery", "AbstractLink", "httpquery", K_STR, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::AbstractLink*>(e)->has_httpquery(); }, [](Element* e) { static_cast<kmldom::AbstractLink*>(e)->clear_httpquery(); },
   [](Element* e, const Val& v) { static_cast<kmldom::AbstractLink*>(e)->set_httpquery(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::AbstractLink*>(e)->get_httpquery(); },
   NULL, NULL},
  {"gx:x", "IconStyleIcon", "gx_x", K_DBL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::IconStyleIcon*>(e)->has_gx_x(); }, [](Element* e) { static_cast<kmldom::IconStyleIcon*>(e)->clear_gx_x(); },
   [](Element* e, const Val& v) { static_cast<kmldom::IconStyleIcon*>(e)->set_gx_x(v.d); },
   [](Element* e, Val& v) { v.d = static_cast<kmldom::IconStyleIcon*>(e)->get_gx_x(); },
   NULL, NULL},
  {"gx:y", "IconStyleIcon", "gx_y", K_DBL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::IconStyleIcon*>(e)->has_gx_y(); }, [](Element* e) { static_cast<kmldom::IconStyleIcon*>(e)->clear_gx_y(); },
   [](Element* e, const Val& v) { static_cast<kmldom::IconStyleIcon*>(e)->set_gx_y(v.d); },
   [](Element* e, Val& v) { v.d = static_cast<kmldom::IconStyleIcon*>(e)->get_gx_y(); },
   NULL, NULL},
  {"gx:w", "IconStyleIcon", "gx_w", K_DBL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::IconStyleIcon*>(e)->has_gx_w(); }, [](Element* e) { static_cast<kmldom::IconStyleIcon*>(e)->clear_gx_w(); },
   [](Element* e, const Val& v) { static_cast<kmldom::IconStyleIcon*>(e)->set_gx_w(v.d); },
   [](Element* e, Val& v) { v.d = static_cast<kmldom::IconStyleIcon*>(e)->get_gx_w(); },
   NULL, NULL},
  {"gx:h", "IconStyleIcon", "gx_h", K_DBL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::IconStyleIcon*>(e)->has_gx_h(); }, [](Element* e) { static_cast<kmldom::IconStyleIcon*>(e)->clear_gx_h(); },
   [](Element* e, const Val& v) { static_cast<kmldom::IconStyleIcon*>(e)->set_gx_h(v.d); },
   [](Element* e, Val& v) { v.d = static_cast<kmldom::IconStyleIcon*>(e)->get_gx_h(); },
   NULL, NULL},
  {"LatLonAltBox", "Region", "latlonaltbox", K_ELEM, false, "LatLonAltBox", false,
   [](Element* e) -> bool { return static_cast<kmldom::Region*>(e)->has_latlonaltbox(); }, [](Element* e) { static_cast<kmldom::Region*>(e)->clear_latlonaltbox(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Region*>(e)->set_latlonaltbox(boost::static_pointer_cast<kmldom::LatLonAltBox>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::Region*>(e)->get_latlonaltbox(); },
   NULL, NULL},
  {"Lod", "Region", "lod", K_ELEM, false, "Lod", false,
   [](Element* e) -> bool { return static_cast<kmldom::Region*>(e)->has_lod(); }, [](Element* e) { static_cast<kmldom::Region*>(e)->clear_lod(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Region*>(e)->set_lod(boost::static_pointer_cast<kmldom::Lod>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::Region*>(e)->get_lod(); },
   NULL, NULL},
  {"north", "AbstractLatLonBox", "north", K_DBL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::AbstractLatLonBox*>(e)->has_north(); }, [](Element* e) { static_cast<kmldom::AbstractLatLonBox*>(e)->clear_north(); },
   [](Element* e, const Val& v) { static_cast<kmldom::AbstractLatLonBox*>(e)->set_north(v.d); },
   [](Element* e, Val& v) { v.d = static_cast<kmldom::AbstractLatLonBox*>(e)->get_north(); },
   NULL, NULL},
  {"south", "AbstractLatLonBox", "south", K_DBL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::AbstractLatLonBox*>(e)->has_south(); }, [](Element* e) { static_cast<kmldom::AbstractLatLonBox*>(e)->clear_south(); },
   [](Element* e, const Val& v) { static_cast<kmldom::AbstractLatLonBox*>(e)->set_south(v.d); },
   [](Element* e, Val& v) { v.d = static_cast<kmldom::AbstractLatLonBox*>(e)->get_south(); },
   NULL, NULL},
  {"east", "AbstractLatLonBox", "east", K_DBL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::AbstractLatLonBox*>(e)->has_east(); }, [](Element* e) { static_cast<kmldom::AbstractLatLonBox*>(e)->clear_east(); },
   [](Element* e, const Val& v) { static_cast<kmldom::AbstractLatLonBox*>(e)->set_east(v.d); },
   [](Element* e, Val& v) { v.d = static_cast<kmldom::AbstractLatLonBox*>(e)->get_east(); },
   NULL, NULL},
  {"west", "AbstractLatLonBox", "west", K_DBL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::AbstractLatLonBox*>(e)->has_west(); }, [](Element* e) { static_cast<kmldom::AbstractLatLonBox*>(e)->clear_west(); },
   [](Element* e, const Val& v) { static_cast<kmldom::AbstractLatLonBox*>(e)->set_west(v.d); },
   [](Element* e, Val& v) { v.d = static_cast<kmldom::AbstractLatLonBox*>(e)->get_west(); },
   NULL, NULL},
  {"rotation", "LatLonBox", "rotation", K_DBL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::LatLonBox*>(e)->has_rotation(); }, [](Element* e) { static_cast<kmldom::LatLonBox*>(e)->clear_rotation(); },
   [](Element* e, const Val& v) { static_cast<kmldom::LatLonBox*>(e)->set_rotation(v.d); },
   [](Element* e, Val& v) { v.d = static_cast<kmldom::LatLonBox*>(e)->get_rotation(); },
   NULL, NULL},
  {"minAltitude", "LatLonAltBox", "minaltitude", K_DBL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::LatLonAltBox*>(e)->has_minaltitude(); }, [](Element* e) { static_cast<kmldom::LatLonAltBox*>(e)->clear_minaltitude(); },
   [](Element* e, const Val& v) { static_cast<kmldom::LatLonAltBox*>(e)->set_minaltitude(v.d); },
   [](Element* e, Val& v) { v.d = static_cast<kmldom::LatLonAltBox*>(e)->get_minaltitude(); },
   NULL, NULL},
  {"maxAltitude", "LatLonAltBox", "maxaltitude", K_DBL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::LatLonAltBox*>(e)->has_maxaltitude(); }, [](Element* e) { static_cast<kmldom::LatLonAltBox*>(e)->clear_maxaltitude(); },
   [](Element* e, const Val& v) { static_cast<kmldom::LatLonAltBox*>(e)->set_maxaltitude(v.d); },
   [](Element* e, Val& v) { v.d = static_cast<kmldom::LatLonAltBox*>(e)->get_maxaltitude(); },
   NULL, NULL},
  {"altitudeMode", "LatLonAltBox", "altitudemode", K_ENUM, false, "altitudeMode", false,
   [](Element* e) -> bool { return static_cast<kmldom::LatLonAltBox*>(e)->has_altitudemode(); }, [](Element* e) { static_cast<kmldom::LatLonAltBox*>(e)->clear_altitudemode(); },
   [](Element* e, const Val& v) { static_cast<kmldom::LatLonAltBox*>(e)->set_altitudemode(v.i); },
   [](Element* e, Val& v) { v.i = static_cast<kmldom::LatLonAltBox*>(e)->get_altitudemode(); },
   NULL, NULL},
  {"gx:altitudeMode", "LatLonAltBox", "gx_altitudemode", K_ENUM, false, "gx:altitudeMode", false,
   [](Element* e) -> bool { return static_cast<kmldom::LatLonAltBox*>(e)->has_gx_altitudemode(); }, [](Element* e) { static_cast<kmldom::LatLonAltBox*>(e)->clear_gx_altitudemode(); },
   [](Element* e, const Val& v) { static_cast<kmldom::LatLonAltBox*>(e)->set_gx_altitudemode(v.i); },
   [](Element* e, Val& v) { v.i = static_cast<kmldom::LatLonAltBox*>(e)->get_gx_altitudemode(); },
   NULL, NULL},
  {"minLodPixels", "Lod", "minlodpixels", K_DBL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::Lod*>(e)->has_minlodpixels(); }, [](Element* e) { static_cast<kmldom::Lod*>(e)->clear_minlodpixels(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Lod*>(e)->set_minlodpixels(v.d); },
   [](Element* e, Val& v) { v.d = static_cast<kmldom::Lod*>(e)->get_minlodpixels(); },
   NULL, NULL},
  {"maxLodPixels", "Lod", "maxlodpixels", K_DBL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::Lod*>(e)->has_maxlodpixels(); }, [](Element* e) { static_cast<kmldom::Lod*>(e)->clear_maxlodpixels(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Lod*>(e)->set_maxlodpixels(v.d); },
   [](Element* e, Val& v) { v.d = static_cast<kmldom::Lod*>(e)->get_maxlodpixels(); },
   NULL, NULL},
  {"minFadeExtent", "Lod", "minfadeextent", K_DBL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::Lod*>(e)->has_minfadeextent(); }, [](Element* e) { static_cast<kmldom::Lod*>(e)->clear_minfadeextent(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Lod*>(e)->set_minfadeextent(v.d); },
   [](Element* e, Val& v) { v.d = static_cast<kmldom::Lod*>(e)->get_minfadeextent(); },
   NULL, NULL},
  {"maxFadeExtent", "Lod", "maxfadeextent", K_DBL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::Lod*>(e)->has_maxfadeextent(); }, [](Element* e) { static_cast<kmldom::Lod*>(e)->clear_maxfadeextent(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Lod*>(e)->set_maxfadeextent(v.d); },
   [](Element* e, Val& v) { v.d = static_cast<kmldom::Lod*>(e)->get_maxfadeextent(); },
   NULL, NULL},
  {"extrude", "ExtrudeGeometryCommon", "extrude", K_BOOL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::ExtrudeGeometryCommon*>(e)->has_extrude(); }, [](Element* e) { static_cast<kmldom::ExtrudeGeometryCommon*>(e)->clear_extrude(); },
   [](Element* e, const Val& v) { static_cast<kmldom::ExtrudeGeometryCommon*>(e)->set_extrude(v.b); },
   [](Element* e, Val& v) { v.b = static_cast<kmldom::ExtrudeGeometryCommon*>(e)->get_extrude(); },
   NULL, NULL},
  {"altitudeMode", "AltitudeGeometryCommon", "altitudemode", K_ENUM, false, "altitudeMode", false,
   [](Element* e) -> bool { return static_cast<kmldom::AltitudeGeometryCommon*>(e)->has_altitudemode(); }, [](Element* e) { static_cast<kmldom::AltitudeGeometryCommon*>(e)->clear_altitudemode(); },
   [](Element* e, const Val& v) { static_cast<kmldom::AltitudeGeometryCommon*>(e)->set_altitudemode(v.i); },
   [](Element* e, Val& v) { v.i = static_cast<kmldom::AltitudeGeometryCommon*>(e)->get_altitudemode(); },
   NULL, NULL},
  {"gx:altitudeMode", "AltitudeGeometryCommon", "gx_altitudemode", K_ENUM, false, "gx:altitudeMode", false,
   [](Element* e) -> bool { return static_cast<kmldom::AltitudeGeometryCommon*>(e)->has_gx_altitudemode(); }, [](Element* e) { static_cast<kmldom::AltitudeGeometryCommon*>(e)->clear_gx_altitudemode(); },
   [](Element* e, const Val& v) { static_cast<kmldom::AltitudeGeometryCommon*>(e)->set_gx_altitudemode(v.i); },
   [](Element* e, Val& v) { v.i = static_cast<kmldom::AltitudeGeometryCommon*>(e)->get_gx_altitudemode(); },
   NULL, NULL},
  {"coordinates", "CoordinatesGeometryCommon", "coordinates", K_ELEM, false, "coordinates", false,
   [](Element* e) -> bool { return static_cast<kmldom::CoordinatesGeometryCommon*>(e)->has_coordinates(); }, [](Element* e) { static_cast<kmldom::CoordinatesGeometryCommon*>(e)->clear_coordinates(); },
   [](Element* e, const Val& v) { static_cast<kmldom::CoordinatesGeometryCommon*>(e)->set_coordinates(boost::static_pointer_cast<kmldom::Coordinates>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::CoordinatesGeometryCommon*>(e)->get_coordinates(); },
   NULL, NULL},
  {"tessellate", "LineCommon", "tessellate", K_BOOL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::LineCommon*>(e)->has_tessellate(); }, [](Element* e) { static_cast<kmldom::LineCommon*>(e)->clear_tessellate(); },
   [](Element* e, const Val& v) { static_cast<kmldom::LineCommon*>(e)->set_tessellate(v.b); },
   [](Element* e, Val& v) { v.b = static_cast<kmldom::LineCommon*>(e)->get_tessellate(); },
   NULL, NULL},
  {"tessellate", "Polygon", "tessellate", K_BOOL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::Polygon*>(e)->has_tessellate(); }, [](Element* e) { static_cast<kmldom::Polygon*>(e)->clear_tessellate(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Polygon*>(e)->set_tessellate(v.b); },
   [](Element* e, Val& v) { v.b = static_cast<kmldom::Polygon*>(e)->get_tessellate(); },
   NULL, NULL},
  {"outerBoundaryIs", "Polygon", "outerboundaryis", K_ELEM, false, "outerBoundaryIs", false,
   [](Element* e) -> bool { return static_cast<kmldom::Polygon*>(e)->has_outerboundaryis(); }, [](Element* e) { static_cast<kmldom::Polygon*>(e)->clear_outerboundaryis(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Polygon*>(e)->set_outerboundaryis(boost::static_pointer_cast<kmldom::OuterBoundaryIs>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::Polygon*>(e)->get_outerboundaryis(); },
   NULL, NULL},
  {"innerBoundaryIs", "Polygon", "innerboundaryis", K_ELEMS, false, "innerBoundaryIs", false,
   NULL, NULL,
   [](Element* e, const Val& v) { static_cast<kmldom::Polygon*>(e)->add_innerboundaryis(boost::static_pointer_cast<kmldom::InnerBoundaryIs>(v.e)); },
   NULL,
   [](Element* e) -> size_t { return static_cast<kmldom::Polygon*>(e)->get_innerboundaryis_array_size(); }, [](Element* e, size_t i, Val& v) { v.e = static_cast<kmldom::Polygon*>(e)->get_innerboundaryis_array_at(i); }},
  {"Geometry", "MultiGeometry", "geometry", K_ELEMS, false, "Geometry", true,
   NULL, NULL,
   [](Element* e, const Val& v) { static_cast<kmldom::MultiGeometry*>(e)->add_geometry(boost::static_pointer_cast<kmldom::Geometry>(v.e)); },
   NULL,
   [](Element* e) -> size_t { return static_cast<kmldom::MultiGeometry*>(e)->get_geometry_array_size(); }, [](Element* e, size_t i, Val& v) { v.e = static_cast<kmldom::MultiGeometry*>(e)->get_geometry_array_at(i); }},
  {"Location", "Model", "location", K_ELEM, false, "Location", false,
   [](Element* e) -> bool { return static_cast<kmldom::Model*>(e)->has_location(); }, [](Element* e) { static_cast<kmldom::Model*>(e)->clear_location(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Model*>(e)->set_location(boost::static_pointer_cast<kmldom::Location>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::Model*>(e)->get_location(); },
   NULL, NULL},
  {"Orientation", "Model", "orientation", K_ELEM, false, "Orientation", false,
   [](Element* e) -> bool { return static_cast<kmldom::Model*>(e)->has_orientation(); }, [](Element* e) { static_cast<kmldom::Model*>(e)->clear_orientation(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Model*>(e)->set_orientation(boost::static_pointer_cast<kmldom::Orientation>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::Model*>(e)->get_orientation(); },
   NULL, NULL},
  {"Scale", "Model", "scale", K_ELEM, false, "Scale", false,
   [](Element* e) -> bool { return static_cast<kmldom::Model*>(e)->has_scale(); }, [](Element* e) { static_cast<kmldom::Model*>(e)->clear_scale(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Model*>(e)->set_scale(boost::static_pointer_cast<kmldom::Scale>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::Model*>(e)->get_scale(); },
   NULL, NULL},
  {"Link", "Model", "link", K_ELEM, false, "Link", false,
   [](Element* e) -> bool { return static_cast<kmldom::Model*>(e)->has_link(); }, [](Element* e) { static_cast<kmldom::Model*>(e)->clear_link(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Model*>(e)->set_link(boost::static_pointer_cast<kmldom::Link>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::Model*>(e)->get_link(); },
   NULL, NULL},
  {"ResourceMap", "Model", "resourcemap", K_ELEM, false, "ResourceMap", false,
   [](Element* e) -> bool { return static_cast<kmldom::Model*>(e)->has_resourcemap(); }, [](Element* e) { static_cast<kmldom::Model*>(e)->clear_resourcemap(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Model*>(e)->set_resourcemap(boost::static_pointer_cast<kmldom::ResourceMap>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::Model*>(e)->get_resourcemap(); },
   NULL, NULL},
  {"longitude", "Location", "longitude", K_DBL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::Location*>(e)->has_longitude(); }, [](Element* e) { static_cast<kmldom::Location*>(e)->clear_longitude(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Location*>(e)->set_longitude(v.d); },
   [](Element* e, Val& v) { v.d = static_cast<kmldom::Location*>(e)->get_longitude(); },
   NULL, NULL},
  {"latitude", "Location", "latitude", K_DBL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::Location*>(e)->has_latitude(); }, [](Element* e) { static_cast<kmldom::Location*>(e)->clear_latitude(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Location*>(e)->set_latitude(v.d); },
   [](Element* e, Val& v) { v.d = static_cast<kmldom::Location*>(e)->get_latitude(); },
   NULL, NULL},
  {"altitude", "Location", "altitude", K_DBL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::Location*>(e)->has_altitude(); }, [](Element* e) { static_cast<kmldom::Location*>(e)->clear_altitude(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Location*>(e)->set_altitude(v.d); },
   [](Element* e, Val& v) { v.d = static_cast<kmldom::Location*>(e)->get_altitude(); },
   NULL, NULL},
  {"heading", "Orientation", "heading", K_DBL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::Orientation*>(e)->has_heading(); }, [](Element* e) { static_cast<kmldom::Orientation*>(e)->clear_heading(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Orientation*>(e)->set_heading(v.d); },
   [](Element* e, Val& v) { v.d = static_cast<kmldom::Orientation*>(e)->get_heading(); },
   NULL, NULL},
  {"tilt", "Orientation", "tilt", K_DBL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::Orientation*>(e)->has_tilt(); }, [](Element* e) { static_cast<kmldom::Orientation*>(e)->clear_tilt(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Orientation*>(e)->set_tilt(v.d); },
   [](Element* e, Val& v) { v.d = static_cast<kmldom::Orientation*>(e)->get_tilt(); },
   NULL, NULL},
  {"roll", "Orientation", "roll", K_DBL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::Orientation*>(e)->has_roll(); }, [](Element* e) { static_cast<kmldom::Orientation*>(e)->clear_roll(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Orientation*>(e)->set_roll(v.d); },
   [](Element* e, Val& v) { v.d = static_cast<kmldom::Orientation*>(e)->get_roll(); },
   NULL, NULL},
  {"x", "Scale", "x", K_DBL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::Scale*>(e)->has_x(); }, [](Element* e) { static_cast<kmldom::Scale*>(e)->clear_x(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Scale*>(e)->set_x(v.d); },
   [](Element* e, Val& v) { v.d = static_cast<kmldom::Scale*>(e)->get_x(); },
   NULL, NULL},
  {"y", "Scale", "y", K_DBL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::Scale*>(e)->has_y(); }, [](Element* e) { static_cast<kmldom::Scale*>(e)->clear_y(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Scale*>(e)->set_y(v.d); },
   [](Element* e, Val& v) { v.d = static_cast<kmldom::Scale*>(e)->get_y(); },
   NULL, NULL},
  {"z", "Scale", "z", K_DBL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::Scale*>(e)->has_z(); }, [](Element* e) { static_cast<kmldom::Scale*>(e)->clear_z(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Scale*>(e)->set_z(v.d); },
   [](Element* e, Val& v) { v.d = static_cast<kmldom::Scale*>(e)->get_z(); },
   NULL, NULL},
  {"targetHref", "Alias", "targethref", K_STR, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::Alias*>(e)->has_targethref(); }, [](Element* e) { static_cast<kmldom::Alias*>(e)->clear_targethref(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Alias*>(e)->set_targethref(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::Alias*>(e)->get_targethref(); },
   NULL, NULL},
  {"sourceHref", "Alias", "sourcehref", K_STR, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::Alias*>(e)->has_sourcehref(); }, [](Element* e) { static_cast<kmldom::Alias*>(e)->clear_sourcehref(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Alias*>(e)->set_sourcehref(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::Alias*>(e)->get_sourcehref(); },
   NULL, NULL},
  {"Alias", "ResourceMap", "alias", K_ELEMS, false, "Alias", false,
   NULL, NULL,
   [](Element* e, const Val& v) { static_cast<kmldom::ResourceMap*>(e)->add_alias(boost::static_pointer_cast<kmldom::Alias>(v.e)); },
   NULL,
   [](Element* e) -> size_t { return static_cast<kmldom::ResourceMap*>(e)->get_alias_array_size(); }, [](Element* e, size_t i, Val& v) { v.e = static_cast<kmldom::ResourceMap*>(e)->get_alias_array_at(i); }},
  {"IconStyle", "Style", "iconstyle", K_ELEM, false, "IconStyle", false,
   [](Element* e) -> bool { return static_cast<kmldom::Style*>(e)->has_iconstyle(); }, [](Element* e) { static_cast<kmldom::Style*>(e)->clear_iconstyle(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Style*>(e)->set_iconstyle(boost::static_pointer_cast<kmldom::IconStyle>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::Style*>(e)->get_iconstyle(); },
   NULL, NULL},
  {"LabelStyle", "Style", "labelstyle", K_ELEM, false, "LabelStyle", false,
   [](Element* e) -> bool { return static_cast<kmldom::Style*>(e)->has_labelstyle(); }, [](Element* e) { static_cast<kmldom::Style*>(e)->clear_labelstyle(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Style*>(e)->set_labelstyle(boost::static_pointer_cast<kmldom::LabelStyle>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::Style*>(e)->get_labelstyle(); },
   NULL, NULL},
  {"LineStyle", "Style", "linestyle", K_ELEM, false, "LineStyle", false,
   [](Element* e) -> bool { return static_cast<kmldom::Style*>(e)->has_linestyle(); }, [](Element* e) { static_cast<kmldom::Style*>(e)->clear_linestyle(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Style*>(e)->set_linestyle(boost::static_pointer_cast<kmldom::LineStyle>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::Style*>(e)->get_linestyle(); },
   NULL, NULL},
  {"PolyStyle", "Style", "polystyle", K_ELEM, false, "PolyStyle", false,
   [](Element* e) -> bool { return static_cast<kmldom::Style*>(e)->has_polystyle(); }, [](Element* e) { static_cast<kmldom::Style*>(e)->clear_polystyle(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Style*>(e)->set_polystyle(boost::static_pointer_cast<kmldom::PolyStyle>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::Style*>(e)->get_polystyle(); },
   NULL, NULL},
  {"BalloonStyle", "Style", "balloonstyle", K_ELEM, false, "BalloonStyle", false,
   [](Element* e) -> bool { return static_cast<kmldom::Style*>(e)->has_balloonstyle(); }, [](Element* e) { static_cast<kmldom::Style*>(e)->clear_balloonstyle(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Style*>(e)->set_balloonstyle(boost::static_pointer_cast<kmldom::BalloonStyle>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::Style*>(e)->get_balloonstyle(); },
   NULL, NULL},
  {"ListStyle", "Style", "liststyle", K_ELEM, false, "ListStyle", false,
   [](Element* e) -> bool { return static_cast<kmldom::Style*>(e)->has_liststyle(); }, [](Element* e) { static_cast<kmldom::Style*>(e)->clear_liststyle(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Style*>(e)->set_liststyle(boost::static_pointer_cast<kmldom::ListStyle>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::Style*>(e)->get_liststyle(); },
   NULL, NULL},
  {"Pair", "StyleMap", "pair", K_ELEMS, false, "Pair", false,
   NULL, NULL,
   [](Element* e, const Val& v) { static_cast<kmldom::StyleMap*>(e)->add_pair(boost::static_pointer_cast<kmldom::Pair>(v.e)); },
   NULL,
   [](Element* e) -> size_t { return static_cast<kmldom::StyleMap*>(e)->get_pair_array_size(); }, [](Element* e, size_t i, Val& v) { v.e = static_cast<kmldom::StyleMap*>(e)->get_pair_array_at(i); }},
  {"key", "Pair", "key", K_ENUM, false, "key", false,
   [](Element* e) -> bool { return static_cast<kmldom::Pair*>(e)->has_key(); }, [](Element* e) { static_cast<kmldom::Pair*>(e)->clear_key(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Pair*>(e)->set_key(v.i); },
   [](Element* e, Val& v) { v.i = static_cast<kmldom::Pair*>(e)->get_key(); },
   NULL, NULL},
  {"styleUrl", "Pair", "styleurl", K_STR, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::Pair*>(e)->has_styleurl(); }, [](Element* e) { static_cast<kmldom::Pair*>(e)->clear_styleurl(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Pair*>(e)->set_styleurl(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::Pair*>(e)->get_styleurl(); },
   NULL, NULL},
  {"StyleSelector", "Pair", "styleselector", K_ELEM, false, "StyleSelector", true,
   [](Element* e) -> bool { return static_cast<kmldom::Pair*>(e)->has_styleselector(); }, [](Element* e) { static_cast<kmldom::Pair*>(e)->clear_styleselector(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Pair*>(e)->set_styleselector(boost::static_pointer_cast<kmldom::StyleSelector>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::Pair*>(e)->get_styleselector(); },
   NULL, NULL},
  {"color", "ColorStyle", "color", K_COLOR, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::ColorStyle*>(e)->has_color(); }, [](Element* e) { static_cast<kmldom::ColorStyle*>(e)->clear_color(); },
   [](Element* e, const Val& v) { static_cast<kmldom::ColorStyle*>(e)->set_color(v.c); },
   [](Element* e, Val& v) { v.c = static_cast<kmldom::ColorStyle*>(e)->get_color(); },
   NULL, NULL},
  {"colorMode", "ColorStyle", "colormode", K_ENUM, false, "colorMode", false,
   [](Element* e) -> bool { return static_cast<kmldom::ColorStyle*>(e)->has_colormode(); }, [](Element* e) { static_cast<kmldom::ColorStyle*>(e)->clear_colormode(); },
   [](Element* e, const Val& v) { static_cast<kmldom::ColorStyle*>(e)->set_colormode(v.i); },
   [](Element* e, Val& v) { v.i = static_cast<kmldom::ColorStyle*>(e)->get_colormode(); },
   NULL, NULL},
  {"scale", "IconStyle", "scale", K_DBL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::IconStyle*>(e)->has_scale(); }, [](Element* e) { static_cast<kmldom::IconStyle*>(e)->clear_scale(); },
   [](Element* e, const Val& v) { static_cast<kmldom::IconStyle*>(e)->set_scale(v.d); },
   [](Element* e, Val& v) { v.d = static_cast<kmldom::IconStyle*>(e)->get_scale(); },
   NULL, NULL},
  {"heading", "IconStyle", "heading", K_DBL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::IconStyle*>(e)->has_heading(); }, [](Element* e) { static_cast<kmldom::IconStyle*>(e)->clear_heading(); },
   [](Element* e, const Val& v) { static_cast<kmldom::IconStyle*>(e)->set_heading(v.d); },
   [](Element* e, Val& v) { v.d = static_cast<kmldom::IconStyle*>(e)->get_heading(); },
   NULL, NULL},
  {"Icon", "IconStyle", "icon", K_ELEM, false, "IconStyleIcon", false,
   [](Element* e) -> bool { return static_cast<kmldom::IconStyle*>(e)->has_icon(); }, [](Element* e) { static_cast<kmldom::IconStyle*>(e)->clear_icon(); },
   [](Element* e, const Val& v) { static_cast<kmldom::IconStyle*>(e)->set_icon(boost::static_pointer_cast<kmldom::IconStyleIcon>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::IconStyle*>(e)->get_icon(); },
   NULL, NULL},
  {"hotSpot", "IconStyle", "hotspot", K_ELEM, false, "hotSpot", false,
   [](Element* e) -> bool { return static_cast<kmldom::IconStyle*>(e)->has_hotspot(); }, [](Element* e) { static_cast<kmldom::IconStyle*>(e)->clear_hotspot(); },
   [](Element* e, const Val& v) { static_cast<kmldom::IconStyle*>(e)->set_hotspot(boost::static_pointer_cast<kmldom::HotSpot>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::IconStyle*>(e)->get_hotspot(); },
   NULL, NULL},
  {"scale", "LabelStyle", "scale", K_DBL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::LabelStyle*>(e)->has_scale(); }, [](Element* e) { static_cast<kmldom::LabelStyle*>(e)->clear_scale(); },
   [](Element* e, const Val& v) { static_cast<kmldom::LabelStyle*>(e)->set_scale(v.d); },
   [](Element* e, Val& v) { v.d = static_cast<kmldom::LabelStyle*>(e)->get_scale(); },
   NULL, NULL},
  {"width", "LineStyle", "width", K_DBL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::LineStyle*>(e)->has_width(); }, [](Element* e) { static_cast<kmldom::LineStyle*>(e)->clear_width(); },
   [](Element* e, const Val& v) { static_cast<kmldom::LineStyle*>(e)->set_width(v.d); },
   [](Element* e, Val& v) { v.d = static_cast<kmldom::LineStyle*>(e)->get_width(); },
   NULL, NULL},
  {"fill", "PolyStyle", "fill", K_BOOL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::PolyStyle*>(e)->has_fill(); }, [](Element* e) { static_cast<kmldom::PolyStyle*>(e)->clear_fill(); },
   [](Element* e, const Val& v) { static_cast<kmldom::PolyStyle*>(e)->set_fill(v.b); },
   [](Element* e, Val& v) { v.b = static_cast<kmldom::PolyStyle*>(e)->get_fill(); },
   NULL, NULL},
  {"outline", "PolyStyle", "outline", K_BOOL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::PolyStyle*>(e)->has_outline(); }, [](Element* e) { static_cast<kmldom::PolyStyle*>(e)->clear_outline(); },
   [](Element* e, const Val& v) { static_cast<kmldom::PolyStyle*>(e)->set_outline(v.b); },
   [](Element* e, Val& v) { v.b = static_cast<kmldom::PolyStyle*>(e)->get_outline(); },
   NULL, NULL},
  {"bgColor", "BalloonStyle", "bgcolor", K_COLOR, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::BalloonStyle*>(e)->has_bgcolor(); }, [](Element* e) { static_cast<kmldom::BalloonStyle*>(e)->clear_bgcolor(); },
   [](Element* e, const Val& v) { static_cast<kmldom::BalloonStyle*>(e)->set_bgcolor(v.c); },
   [](Element* e, Val& v) { v.c = static_cast<kmldom::BalloonStyle*>(e)->get_bgcolor(); },
   NULL, NULL},
  {"textColor", "BalloonStyle", "textcolor", K_COLOR, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::BalloonStyle*>(e)->has_textcolor(); }, [](Element* e) { static_cast<kmldom::BalloonStyle*>(e)->clear_textcolor(); },
   [](Element* e, const Val& v) { static_cast<kmldom::BalloonStyle*>(e)->set_textcolor(v.c); },
   [](Element* e, Val& v) { v.c = static_cast<kmldom::BalloonStyle*>(e)->get_textcolor(); },
   NULL, NULL},
  {"text", "BalloonStyle", "text", K_STR, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::BalloonStyle*>(e)->has_text(); }, [](Element* e) { static_cast<kmldom::BalloonStyle*>(e)->clear_text(); },
   [](Element* e, const Val& v) { static_cast<kmldom::BalloonStyle*>(e)->set_text(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::BalloonStyle*>(e)->get_text(); },
   NULL, NULL},
  {"displayMode", "BalloonStyle", "displaymode", K_ENUM, false, "displayMode", false,
   [](Element* e) -> bool { return static_cast<kmldom::BalloonStyle*>(e)->has_displaymode(); }, [](Element* e) { static_cast<kmldom::BalloonStyle*>(e)->clear_displaymode(); },
   [](Element* e, const Val& v) { static_cast<kmldom::BalloonStyle*>(e)->set_displaymode(v.i); },
   [](Element* e, Val& v) { v.i = static_cast<kmldom::BalloonStyle*>(e)->get_displaymode(); },
   NULL, NULL},
  {"listItemType", "ListStyle", "listitemtype", K_ENUM, false, "listItemType", false,
   [](Element* e) -> bool { return static_cast<kmldom::ListStyle*>(e)->has_listitemtype(); }, [](Element* e) { static_cast<kmldom::ListStyle*>(e)->clear_listitemtype(); },
   [](Element* e, const Val& v) { static_cast<kmldom::ListStyle*>(e)->set_listitemtype(v.i); },
   [](Element* e, Val& v) { v.i = static_cast<kmldom::ListStyle*>(e)->get_listitemtype(); },
   NULL, NULL},
  {"bgColor", "ListStyle", "bgcolor", K_COLOR, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::ListStyle*>(e)->has_bgcolor(); }, [](Element* e) { static_cast<kmldom::ListStyle*>(e)->clear_bgcolor(); },
   [](Element* e, const Val& v) { static_cast<kmldom::ListStyle*>(e)->set_bgcolor(v.c); },
   [](Element* e, Val& v) { v.c = static_cast<kmldom::ListStyle*>(e)->get_bgcolor(); },
   NULL, NULL},
  {"ItemIcon", "ListStyle", "itemicon", K_ELEMS, false, "ItemIcon", false,
   NULL, NULL,
   [](Element* e, const Val& v) { static_cast<kmldom::ListStyle*>(e)->add_itemicon(boost::static_pointer_cast<kmldom::ItemIcon>(v.e)); },
   NULL,
   [](Element* e) -> size_t { return static_cast<kmldom::ListStyle*>(e)->get_itemicon_array_size(); }, [](Element* e, size_t i, Val& v) { v.e = static_cast<kmldom::ListStyle*>(e)->get_itemicon_array_at(i); }},
  {"maxSnippetLines", "ListStyle", "maxsnippetlines", K_INT, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::ListStyle*>(e)->has_maxsnippetlines(); }, [](Element* e) { static_cast<kmldom::ListStyle*>(e)->clear_maxsnippetlines(); },
   [](Element* e, const Val& v) { static_cast<kmldom::ListStyle*>(e)->set_maxsnippetlines(v.i); },
   [](Element* e, Val& v) { v.i = static_cast<kmldom::ListStyle*>(e)->get_maxsnippetlines(); },
   NULL, NULL},
  {"state", "ItemIcon", "state", K_ENUMS, false, "state", false,
   [](Element* e) -> bool { return static_cast<kmldom::ItemIcon*>(e)->has_state(); }, [](Element* e) { static_cast<kmldom::ItemIcon*>(e)->clear_state(); },
   [](Element* e, const Val& v) { static_cast<kmldom::ItemIcon*>(e)->add_state(v.i); },
   NULL,
   [](Element* e) -> size_t { return static_cast<kmldom::ItemIcon*>(e)->get_state_array_size(); }, [](Element* e, size_t i, Val& v) { v.i = static_cast<kmldom::ItemIcon*>(e)->get_state_array_at(i); }},
  {"href", "ItemIcon", "href", K_STR, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::ItemIcon*>(e)->has_href(); }, [](Element* e) { static_cast<kmldom::ItemIcon*>(e)->clear_href(); },
   [](Element* e, const Val& v) { static_cast<kmldom::ItemIcon*>(e)->set_href(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::ItemIcon*>(e)->get_href(); },
   NULL, NULL},
  {"begin", "TimeSpan", "begin", K_STR, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::TimeSpan*>(e)->has_begin(); }, [](Element* e) { static_cast<kmldom::TimeSpan*>(e)->clear_begin(); },
   [](Element* e, const Val& v) { static_cast<kmldom::TimeSpan*>(e)->set_begin(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::TimeSpan*>(e)->get_begin(); },
   NULL, NULL},
  {"end", "TimeSpan", "end", K_STR, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::TimeSpan*>(e)->has_end(); }, [](Element* e) { static_cast<kmldom::TimeSpan*>(e)->clear_end(); },
   [](Element* e, const Val& v) { static_cast<kmldom::TimeSpan*>(e)->set_end(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::TimeSpan*>(e)->get_end(); },
   NULL, NULL},
  {"when", "TimeStamp", "when", K_STR, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::TimeStamp*>(e)->has_when(); }, [](Element* e) { static_cast<kmldom::TimeStamp*>(e)->clear_when(); },
   [](Element* e, const Val& v) { static_cast<kmldom::TimeStamp*>(e)->set_when(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::TimeStamp*>(e)->get_when(); },
   NULL, NULL},
  {"Data", "ExtendedData", "data", K_ELEMS, false, "Data", false,
   NULL, NULL,
   [](Element* e, const Val& v) { static_cast<kmldom::ExtendedData*>(e)->add_data(boost::static_pointer_cast<kmldom::Data>(v.e)); },
   NULL,
   [](Element* e) -> size_t { return static_cast<kmldom::ExtendedData*>(e)->get_data_array_size(); }, [](Element* e, size_t i, Val& v) { v.e = static_cast<kmldom::ExtendedData*>(e)->get_data_array_at(i); }},
  {"SchemaData", "ExtendedData", "schemadata", K_ELEMS, false, "SchemaData", false,
   NULL, NULL,
   [](Element* e, const Val& v) { static_cast<kmldom::ExtendedData*>(e)->add_schemadata(boost::static_pointer_cast<kmldom::SchemaData>(v.e)); },
   NULL,
   [](Element* e) -> size_t { return static_cast<kmldom::ExtendedData*>(e)->get_schemadata_array_size(); }, [](Element* e, size_t i, Val& v) { v.e = static_cast<kmldom::ExtendedData*>(e)->get_schemadata_array_at(i); }},
  {"name", "Data", "name", K_STR, true, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::Data*>(e)->has_name(); }, [](Element* e) { static_cast<kmldom::Data*>(e)->clear_name(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Data*>(e)->set_name(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::Data*>(e)->get_name(); },
   NULL, NULL},
  {"displayName", "Data", "displayname", K_STR, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::Data*>(e)->has_displayname(); }, [](Element* e) { static_cast<kmldom::Data*>(e)->clear_displayname(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Data*>(e)->set_displayname(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::Data*>(e)->get_displayname(); },
   NULL, NULL},
  {"value", "Data", "value", K_STR, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::Data*>(e)->has_value(); }, [](Element* e) { static_cast<kmldom::Data*>(e)->clear_value(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Data*>(e)->set_value(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::Data*>(e)->get_value(); },
   NULL, NULL},
  {"schemaUrl", "SchemaData", "schemaurl", K_STR, true, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::SchemaData*>(e)->has_schemaurl(); }, [](Element* e) { static_cast<kmldom::SchemaData*>(e)->clear_schemaurl(); },
   [](Element* e, const Val& v) { static_cast<kmldom::SchemaData*>(e)->set_schemaurl(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::SchemaData*>(e)->get_schemaurl(); },
   NULL, NULL},
  {"SimpleData", "SchemaData", "simpledata", K_ELEMS, false, "SimpleData", false,
   NULL, NULL,
   [](Element* e, const Val& v) { static_cast<kmldom::SchemaData*>(e)->add_simpledata(boost::static_pointer_cast<kmldom::SimpleData>(v.e)); },
   NULL,
   [](Element* e) -> size_t { return static_cast<kmldom::SchemaData*>(e)->get_simpledata_array_size(); }, [](Element* e, size_t i, Val& v) { v.e = static_cast<kmldom::SchemaData*>(e)->get_simpledata_array_at(i); }},
  {"gx:SimpleArrayData", "SchemaData", "gx_simplearraydata", K_ELEMS, false, "gx:SimpleArrayData", false,
   NULL, NULL,
   [](Element* e, const Val& v) { static_cast<kmldom::SchemaData*>(e)->add_gx_simplearraydata(boost::static_pointer_cast<kmldom::GxSimpleArrayData>(v.e)); },
   NULL,
   [](Element* e) -> size_t { return static_cast<kmldom::SchemaData*>(e)->get_gx_simplearraydata_array_size(); }, [](Element* e, size_t i, Val& v) { v.e = static_cast<kmldom::SchemaData*>(e)->get_gx_simplearraydata_array_at(i); }},
  {"name", "SimpleData", "name", K_STR, true, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::SimpleData*>(e)->has_name(); }, [](Element* e) { static_cast<kmldom::SimpleData*>(e)->clear_name(); },
   [](Element* e, const Val& v) { static_cast<kmldom::SimpleData*>(e)->set_name(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::SimpleData*>(e)->get_name(); },
   NULL, NULL},
  {"text", "SimpleData", "text", K_TEXT, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::SimpleData*>(e)->has_text(); }, [](Element* e) { static_cast<kmldom::SimpleData*>(e)->clear_text(); },
   [](Element* e, const Val& v) { static_cast<kmldom::SimpleData*>(e)->set_text(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::SimpleData*>(e)->get_text(); },
   NULL, NULL},
  {"name", "Schema", "name", K_STR, true, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::Schema*>(e)->has_name(); }, [](Element* e) { static_cast<kmldom::Schema*>(e)->clear_name(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Schema*>(e)->set_name(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::Schema*>(e)->get_name(); },
   NULL, NULL},
  {"SimpleField", "Schema", "simplefield", K_ELEMS, false, "SimpleField", false,
   NULL, NULL,
   [](Element* e, const Val& v) { static_cast<kmldom::Schema*>(e)->add_simplefield(boost::static_pointer_cast<kmldom::SimpleField>(v.e)); },
   NULL,
   [](Element* e) -> size_t { return static_cast<kmldom::Schema*>(e)->get_simplefield_array_size(); }, [](Element* e, size_t i, Val& v) { v.e = static_cast<kmldom::Schema*>(e)->get_simplefield_array_at(i); }},
  {"gx:SimpleArrayField", "Schema", "gx_simplearrayfield", K_ELEMS, false, "gx:SimpleArrayField", false,
   NULL, NULL,
   [](Element* e, const Val& v) { static_cast<kmldom::Schema*>(e)->add_gx_simplearrayfield(boost::static_pointer_cast<kmldom::GxSimpleArrayField>(v.e)); },
   NULL,
   [](Element* e) -> size_t { return static_cast<kmldom::Schema*>(e)->get_gx_simplearrayfield_array_size(); }, [](Element* e, size_t i, Val& v) { v.e = static_cast<kmldom::Schema*>(e)->get_gx_simplearrayfield_array_at(i); }},
  {"type", "SimpleField", "type", K_STR, true, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::SimpleField*>(e)->has_type(); }, [](Element* e) { static_cast<kmldom::SimpleField*>(e)->clear_type(); },
   [](Element* e, const Val& v) { static_cast<kmldom::SimpleField*>(e)->set_type(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::SimpleField*>(e)->get_type(); },
   NULL, NULL},
  {"name", "SimpleField", "name", K_STR, true, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::SimpleField*>(e)->has_name(); }, [](Element* e) { static_cast<kmldom::SimpleField*>(e)->clear_name(); },
   [](Element* e, const Val& v) { static_cast<kmldom::SimpleField*>(e)->set_name(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::SimpleField*>(e)->get_name(); },
   NULL, NULL},
  {"displayName", "SimpleField", "displayname", K_STR, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::SimpleField*>(e)->has_displayname(); }, [](Element* e) { static_cast<kmldom::SimpleField*>(e)->clear_displayname(); },
   [](Element* e, const Val& v) { static_cast<kmldom::SimpleField*>(e)->set_displayname(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::SimpleField*>(e)->get_displayname(); },
   NULL, NULL},
  {"maxLines", "SnippetCommon", "maxlines", K_INT, true, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::SnippetCommon*>(e)->has_maxlines(); }, [](Element* e) { static_cast<kmldom::SnippetCommon*>(e)->clear_maxlines(); },
   [](Element* e, const Val& v) { static_cast<kmldom::SnippetCommon*>(e)->set_maxlines(v.i); },
   [](Element* e, Val& v) { v.i = static_cast<kmldom::SnippetCommon*>(e)->get_maxlines(); },
   NULL, NULL},
  {"text", "SnippetCommon", "text", K_TEXT, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::SnippetCommon*>(e)->has_text(); }, [](Element* e) { static_cast<kmldom::SnippetCommon*>(e)->clear_text(); },
   [](Element* e, const Val& v) { static_cast<kmldom::SnippetCommon*>(e)->set_text(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::SnippetCommon*>(e)->get_text(); },
   NULL, NULL},
  {"minRefreshPeriod", "NetworkLinkControl", "minrefreshperiod", K_DBL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::NetworkLinkControl*>(e)->has_minrefreshperiod(); }, [](Element* e) { static_cast<kmldom::NetworkLinkControl*>(e)->clear_minrefreshperiod(); },
   [](Element* e, const Val& v) { static_cast<kmldom::NetworkLinkControl*>(e)->set_minrefreshperiod(v.d); },
   [](Element* e, Val& v) { v.d = static_cast<kmldom::NetworkLinkControl*>(e)->get_minrefreshperiod(); },
   NULL, NULL},
  {"maxSessionLength", "NetworkLinkControl", "maxsessionlength", K_DBL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::NetworkLinkControl*>(e)->has_maxsessionlength(); }, [](Element* e) { static_cast<kmldom::NetworkLinkControl*>(e)->clear_maxsessionlength(); },
   [](Element* e, const Val& v) { static_cast<kmldom::NetworkLinkControl*>(e)->set_maxsessionlength(v.d); },
   [](Element* e, Val& v) { v.d = static_cast<kmldom::NetworkLinkControl*>(e)->get_maxsessionlength(); },
   NULL, NULL},
  {"cookie", "NetworkLinkControl", "cookie", K_STR, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::NetworkLinkControl*>(e)->has_cookie(); }, [](Element* e) { static_cast<kmldom::NetworkLinkControl*>(e)->clear_cookie(); },
   [](Element* e, const Val& v) { static_cast<kmldom::NetworkLinkControl*>(e)->set_cookie(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::NetworkLinkControl*>(e)->get_cookie(); },
   NULL, NULL},
  {"message", "NetworkLinkControl", "message", K_STR, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::NetworkLinkControl*>(e)->has_message(); }, [](Element* e) { static_cast<kmldom::NetworkLinkControl*>(e)->clear_message(); },
   [](Element* e, const Val& v) { static_cast<kmldom::NetworkLinkControl*>(e)->set_message(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::NetworkLinkControl*>(e)->get_message(); },
   NULL, NULL},
  {"linkName", "NetworkLinkControl", "linkname", K_STR, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::NetworkLinkControl*>(e)->has_linkname(); }, [](Element* e) { static_cast<kmldom::NetworkLinkControl*>(e)->clear_linkname(); },
   [](Element* e, const Val& v) { static_cast<kmldom::NetworkLinkControl*>(e)->set_linkname(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::NetworkLinkControl*>(e)->get_linkname(); },
   NULL, NULL},
  {"linkDescription", "NetworkLinkControl", "linkdescription", K_STR, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::NetworkLinkControl*>(e)->has_linkdescription(); }, [](Element* e) { static_cast<kmldom::NetworkLinkControl*>(e)->clear_linkdescription(); },
   [](Element* e, const Val& v) { static_cast<kmldom::NetworkLinkControl*>(e)->set_linkdescription(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::NetworkLinkControl*>(e)->get_linkdescription(); },
   NULL, NULL},
  {"linkSnippet", "NetworkLinkControl", "linksnippet", K_ELEM, false, "linkSnippet", false,
   [](Element* e) -> bool { return static_cast<kmldom::NetworkLinkControl*>(e)->has_linksnippet(); }, [](Element* e) { static_cast<kmldom::NetworkLinkControl*>(e)->clear_linksnippet(); },
   [](Element* e, const Val& v) { static_cast<kmldom::NetworkLinkControl*>(e)->set_linksnippet(boost::static_pointer_cast<kmldom::LinkSnippet>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::NetworkLinkControl*>(e)->get_linksnippet(); },
   NULL, NULL},
  {"expires", "NetworkLinkControl", "expires", K_STR, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::NetworkLinkControl*>(e)->has_expires(); }, [](Element* e) { static_cast<kmldom::NetworkLinkControl*>(e)->clear_expires(); },
   [](Element* e, const Val& v) { static_cast<kmldom::NetworkLinkControl*>(e)->set_expires(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::NetworkLinkControl*>(e)->get_expires(); },
   NULL, NULL},
  {"Update", "NetworkLinkControl", "update", K_ELEM, false, "Update", false,
   [](Element* e) -> bool { return static_cast<kmldom::NetworkLinkControl*>(e)->has_update(); }, [](Element* e) { static_cast<kmldom::NetworkLinkControl*>(e)->clear_update(); },
   [](Element* e, const Val& v) { static_cast<kmldom::NetworkLinkControl*>(e)->set_update(boost::static_pointer_cast<kmldom::Update>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::NetworkLinkControl*>(e)->get_update(); },
   NULL, NULL},
  {"AbstractView", "NetworkLinkControl", "abstractview", K_ELEM, false, "AbstractView", true,
   [](Element* e) -> bool { return static_cast<kmldom::NetworkLinkControl*>(e)->has_abstractview(); }, [](Element* e) { static_cast<kmldom::NetworkLinkControl*>(e)->clear_abstractview(); },
   [](Element* e, const Val& v) { static_cast<kmldom::NetworkLinkControl*>(e)->set_abstractview(boost::static_pointer_cast<kmldom::AbstractView>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::NetworkLinkControl*>(e)->get_abstractview(); },
   NULL, NULL},
  {"targetHref", "Update", "targethref", K_STR, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::Update*>(e)->has_targethref(); }, [](Element* e) { static_cast<kmldom::Update*>(e)->clear_targethref(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Update*>(e)->set_targethref(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::Update*>(e)->get_targethref(); },
   NULL, NULL},
  {"UpdateOperation", "Update", "updateoperation", K_ELEMS, false, "UpdateOperation", true,
   NULL, NULL,
   [](Element* e, const Val& v) { static_cast<kmldom::Update*>(e)->add_updateoperation(boost::static_pointer_cast<kmldom::UpdateOperation>(v.e)); },
   NULL,
   [](Element* e) -> size_t { return static_cast<kmldom::Update*>(e)->get_updateoperation_array_size(); }, [](Element* e, size_t i, Val& v) { v.e = static_cast<kmldom::Update*>(e)->get_updateoperation_array_at(i); }},
  {"Container", "Create", "container", K_ELEMS, false, "Container", true,
   NULL, NULL,
   [](Element* e, const Val& v) { static_cast<kmldom::Create*>(e)->add_container(boost::static_pointer_cast<kmldom::Container>(v.e)); },
   NULL,
   [](Element* e) -> size_t { return static_cast<kmldom::Create*>(e)->get_container_array_size(); }, [](Element* e, size_t i, Val& v) { v.e = static_cast<kmldom::Create*>(e)->get_container_array_at(i); }},
  {"Feature", "Delete", "feature", K_ELEMS, false, "Feature", true,
   NULL, NULL,
   [](Element* e, const Val& v) { static_cast<kmldom::Delete*>(e)->add_feature(boost::static_pointer_cast<kmldom::Feature>(v.e)); },
   NULL,
   [](Element* e) -> size_t { return static_cast<kmldom::Delete*>(e)->get_feature_array_size(); }, [](Element* e, size_t i, Val& v) { v.e = static_cast<kmldom::Delete*>(e)->get_feature_array_at(i); }},
  {"Object", "Change", "object", K_ELEMS, false, "Object", true,
   NULL, NULL,
   [](Element* e, const Val& v) { static_cast<kmldom::Change*>(e)->add_object(boost::static_pointer_cast<kmldom::Object>(v.e)); },
   NULL,
   [](Element* e) -> size_t { return static_cast<kmldom::Change*>(e)->get_object_array_size(); }, [](Element* e, size_t i, Val& v) { v.e = static_cast<kmldom::Change*>(e)->get_object_array_at(i); }},
  {"leftFov", "ViewVolume", "leftfov", K_DBL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::ViewVolume*>(e)->has_leftfov(); }, [](Element* e) { static_cast<kmldom::ViewVolume*>(e)->clear_leftfov(); },
   [](Element* e, const Val& v) { static_cast<kmldom::ViewVolume*>(e)->set_leftfov(v.d); },
   [](Element* e, Val& v) { v.d = static_cast<kmldom::ViewVolume*>(e)->get_leftfov(); },
   NULL, NULL},
  {"rightFov", "ViewVolume", "rightfov", K_DBL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::ViewVolume*>(e)->has_rightfov(); }, [](Element* e) { static_cast<kmldom::ViewVolume*>(e)->clear_rightfov(); },
   [](Element* e, const Val& v) { static_cast<kmldom::ViewVolume*>(e)->set_rightfov(v.d); },
   [](Element* e, Val& v) { v.d = static_cast<kmldom::ViewVolume*>(e)->get_rightfov(); },
   NULL, NULL},
  {"bottomFov", "ViewVolume", "bottomfov", K_DBL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::ViewVolume*>(e)->has_bottomfov(); }, [](Element* e) { static_cast<kmldom::ViewVolume*>(e)->clear_bottomfov(); },
   [](Element* e, const Val& v) { static_cast<kmldom::ViewVolume*>(e)->set_bottomfov(v.d); },
   [](Element* e, Val& v) { v.d = static_cast<kmldom::ViewVolume*>(e)->get_bottomfov(); },
   NULL, NULL},
  {"topFov", "ViewVolume", "topfov", K_DBL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::ViewVolume*>(e)->has_topfov(); }, [](Element* e) { static_cast<kmldom::ViewVolume*>(e)->clear_topfov(); },
   [](Element* e, const Val& v) { static_cast<kmldom::ViewVolume*>(e)->set_topfov(v.d); },
   [](Element* e, Val& v) { v.d = static_cast<kmldom::ViewVolume*>(e)->get_topfov(); },
   NULL, NULL},
  {"near", "ViewVolume", "near", K_DBL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::ViewVolume*>(e)->has_near(); }, [](Element* e) { static_cast<kmldom::ViewVolume*>(e)->clear_near(); },
   [](Element* e, const Val& v) { static_cast<kmldom::ViewVolume*>(e)->set_near(v.d); },
   [](Element* e, Val& v) { v.d = static_cast<kmldom::ViewVolume*>(e)->get_near(); },
   NULL, NULL},
  {"tileSize", "ImagePyramid", "tilesize", K_INT, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::ImagePyramid*>(e)->has_tilesize(); }, [](Element* e) { static_cast<kmldom::ImagePyramid*>(e)->clear_tilesize(); },
   [](Element* e, const Val& v) { static_cast<kmldom::ImagePyramid*>(e)->set_tilesize(v.i); },
   [](Element* e, Val& v) { v.i = static_cast<kmldom::ImagePyramid*>(e)->get_tilesize(); },
   NULL, NULL},
  {"maxWidth", "ImagePyramid", "maxwidth", K_INT, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::ImagePyramid*>(e)->has_maxwidth(); }, [](Element* e) { static_cast<kmldom::ImagePyramid*>(e)->clear_maxwidth(); },
   [](Element* e, const Val& v) { static_cast<kmldom::ImagePyramid*>(e)->set_maxwidth(v.i); },
   [](Element* e, Val& v) { v.i = static_cast<kmldom::ImagePyramid*>(e)->get_maxwidth(); },
   NULL, NULL},
  {"maxHeight", "ImagePyramid", "maxheight", K_INT, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::ImagePyramid*>(e)->has_maxheight(); }, [](Element* e) { static_cast<kmldom::ImagePyramid*>(e)->clear_maxheight(); },
   [](Element* e, const Val& v) { static_cast<kmldom::ImagePyramid*>(e)->set_maxheight(v.i); },
   [](Element* e, Val& v) { v.i = static_cast<kmldom::ImagePyramid*>(e)->get_maxheight(); },
   NULL, NULL},
  {"gridOrigin", "ImagePyramid", "gridorigin", K_ENUM, false, "gridOrigin", false,
   [](Element* e) -> bool { return static_cast<kmldom::ImagePyramid*>(e)->has_gridorigin(); }, [](Element* e) { static_cast<kmldom::ImagePyramid*>(e)->clear_gridorigin(); },
   [](Element* e, const Val& v) { static_cast<kmldom::ImagePyramid*>(e)->set_gridorigin(v.i); },
   [](Element* e, Val& v) { v.i = static_cast<kmldom::ImagePyramid*>(e)->get_gridorigin(); },
   NULL, NULL},
  {"hint", "Kml", "hint", K_STR, true, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::Kml*>(e)->has_hint(); }, [](Element* e) { static_cast<kmldom::Kml*>(e)->clear_hint(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Kml*>(e)->set_hint(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::Kml*>(e)->get_hint(); },
   NULL, NULL},
  {"NetworkLinkControl", "Kml", "networklinkcontrol", K_ELEM, false, "NetworkLinkControl", false,
   [](Element* e) -> bool { return static_cast<kmldom::Kml*>(e)->has_networklinkcontrol(); }, [](Element* e) { static_cast<kmldom::Kml*>(e)->clear_networklinkcontrol(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Kml*>(e)->set_networklinkcontrol(boost::static_pointer_cast<kmldom::NetworkLinkControl>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::Kml*>(e)->get_networklinkcontrol(); },
   NULL, NULL},
  {"Feature", "Kml", "feature", K_ELEM, false, "Feature", true,
   [](Element* e) -> bool { return static_cast<kmldom::Kml*>(e)->has_feature(); }, [](Element* e) { static_cast<kmldom::Kml*>(e)->clear_feature(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Kml*>(e)->set_feature(boost::static_pointer_cast<kmldom::Feature>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::Kml*>(e)->get_feature(); },
   NULL, NULL},
  {"coordinates", "Coordinates", "coordinates", K_COORDS, false, "", false,
   NULL, NULL,
   [](Element* e, const Val& v) { static_cast<kmldom::Coordinates*>(e)->add_vec3(v.v); },
   NULL,
   [](Element* e) -> size_t { return static_cast<kmldom::Coordinates*>(e)->get_coordinates_array_size(); }, [](Element* e, size_t i, Val& v) { v.v = static_cast<kmldom::Coordinates*>(e)->get_coordinates_array_at(i); }},
  {"x", "Vec2", "x", K_DBL, true, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::Vec2*>(e)->has_x(); }, [](Element* e) { static_cast<kmldom::Vec2*>(e)->clear_x(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Vec2*>(e)->set_x(v.d); },
   [](Element* e, Val& v) { v.d = static_cast<kmldom::Vec2*>(e)->get_x(); },
   NULL, NULL},
  {"y", "Vec2", "y", K_DBL, true, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::Vec2*>(e)->has_y(); }, [](Element* e) { static_cast<kmldom::Vec2*>(e)->clear_y(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Vec2*>(e)->set_y(v.d); },
   [](Element* e, Val& v) { v.d = static_cast<kmldom::Vec2*>(e)->get_y(); },
   NULL, NULL},
  {"xunits", "Vec2", "xunits", K_ENUM, true, "units", false,
   [](Element* e) -> bool { return static_cast<kmldom::Vec2*>(e)->has_xunits(); }, [](Element* e) { static_cast<kmldom::Vec2*>(e)->clear_xunits(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Vec2*>(e)->set_xunits(v.i); },
   [](Element* e, Val& v) { v.i = static_cast<kmldom::Vec2*>(e)->get_xunits(); },
   NULL, NULL},
  {"yunits", "Vec2", "yunits", K_ENUM, true, "units", false,
   [](Element* e) -> bool { return static_cast<kmldom::Vec2*>(e)->has_yunits(); }, [](Element* e) { static_cast<kmldom::Vec2*>(e)->clear_yunits(); },
   [](Element* e, const Val& v) { static_cast<kmldom::Vec2*>(e)->set_yunits(v.i); },
   [](Element* e, Val& v) { v.i = static_cast<kmldom::Vec2*>(e)->get_yunits(); },
   NULL, NULL},
  {"LinearRing", "BoundaryCommon", "linearring", K_ELEM, false, "LinearRing", false,
   [](Element* e) -> bool { return static_cast<kmldom::BoundaryCommon*>(e)->has_linearring(); }, [](Element* e) { static_cast<kmldom::BoundaryCommon*>(e)->clear_linearring(); },
   [](Element* e, const Val& v) { static_cast<kmldom::BoundaryCommon*>(e)->set_linearring(boost::static_pointer_cast<kmldom::LinearRing>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::BoundaryCommon*>(e)->get_linearring(); },
   NULL, NULL},
  {"gx:Playlist", "GxTour", "gx_playlist", K_ELEM, false, "gx:Playlist", false,
   [](Element* e) -> bool { return static_cast<kmldom::GxTour*>(e)->has_gx_playlist(); }, [](Element* e) { static_cast<kmldom::GxTour*>(e)->clear_gx_playlist(); },
   [](Element* e, const Val& v) { static_cast<kmldom::GxTour*>(e)->set_gx_playlist(boost::static_pointer_cast<kmldom::GxPlaylist>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::GxTour*>(e)->get_gx_playlist(); },
   NULL, NULL},
  {"gx:TourPrimitive", "GxPlaylist", "gx_tourprimitive", K_ELEMS, false, "GxTourPrimitive", true,
   NULL, NULL,
   [](Element* e, const Val& v) { static_cast<kmldom::GxPlaylist*>(e)->add_gx_tourprimitive(boost::static_pointer_cast<kmldom::GxTourPrimitive>(v.e)); },
   NULL,
   [](Element* e) -> size_t { return static_cast<kmldom::GxPlaylist*>(e)->get_gx_tourprimitive_array_size(); }, [](Element* e, size_t i, Val& v) { v.e = static_cast<kmldom::GxPlaylist*>(e)->get_gx_tourprimitive_array_at(i); }},
  {"gx:duration", "GxTourPrimitiveCommon", "gx_duration", K_DBL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::GxTourPrimitiveCommon*>(e)->has_gx_duration(); }, [](Element* e) { static_cast<kmldom::GxTourPrimitiveCommon*>(e)->clear_gx_duration(); },
   [](Element* e, const Val& v) { static_cast<kmldom::GxTourPrimitiveCommon*>(e)->set_gx_duration(v.d); },
   [](Element* e, Val& v) { v.d = static_cast<kmldom::GxTourPrimitiveCommon*>(e)->get_gx_duration(); },
   NULL, NULL},
  {"Update", "GxAnimatedUpdate", "update", K_ELEM, false, "Update", false,
   [](Element* e) -> bool { return static_cast<kmldom::GxAnimatedUpdate*>(e)->has_update(); }, [](Element* e) { static_cast<kmldom::GxAnimatedUpdate*>(e)->clear_update(); },
   [](Element* e, const Val& v) { static_cast<kmldom::GxAnimatedUpdate*>(e)->set_update(boost::static_pointer_cast<kmldom::Update>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::GxAnimatedUpdate*>(e)->get_update(); },
   NULL, NULL},
  {"gx:flyToMode", "GxFlyTo", "gx_flytomode", K_ENUM, false, "gx:flyToMode", false,
   [](Element* e) -> bool { return static_cast<kmldom::GxFlyTo*>(e)->has_gx_flytomode(); }, [](Element* e) { static_cast<kmldom::GxFlyTo*>(e)->clear_gx_flytomode(); },
   [](Element* e, const Val& v) { static_cast<kmldom::GxFlyTo*>(e)->set_gx_flytomode(v.i); },
   [](Element* e, Val& v) { v.i = static_cast<kmldom::GxFlyTo*>(e)->get_gx_flytomode(); },
   NULL, NULL},
  {"AbstractView", "GxFlyTo", "abstractview", K_ELEM, false, "AbstractView", true,
   [](Element* e) -> bool { return static_cast<kmldom::GxFlyTo*>(e)->has_abstractview(); }, [](Element* e) { static_cast<kmldom::GxFlyTo*>(e)->clear_abstractview(); },
   [](Element* e, const Val& v) { static_cast<kmldom::GxFlyTo*>(e)->set_abstractview(boost::static_pointer_cast<kmldom::AbstractView>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::GxFlyTo*>(e)->get_abstractview(); },
   NULL, NULL},
  {"href", "GxSoundCue", "href", K_STR, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::GxSoundCue*>(e)->has_href(); }, [](Element* e) { static_cast<kmldom::GxSoundCue*>(e)->clear_href(); },
   [](Element* e, const Val& v) { static_cast<kmldom::GxSoundCue*>(e)->set_href(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::GxSoundCue*>(e)->get_href(); },
   NULL, NULL},
  {"gx:playMode", "GxTourControl", "gx_playmode", K_ENUM, false, "gx:playMode", false,
   [](Element* e) -> bool { return static_cast<kmldom::GxTourControl*>(e)->has_gx_playmode(); }, [](Element* e) { static_cast<kmldom::GxTourControl*>(e)->clear_gx_playmode(); },
   [](Element* e, const Val& v) { static_cast<kmldom::GxTourControl*>(e)->set_gx_playmode(v.i); },
   [](Element* e, Val& v) { v.i = static_cast<kmldom::GxTourControl*>(e)->get_gx_playmode(); },
   NULL, NULL},
  {"when", "GxTrack", "when", K_STRS, false, "", false,
   NULL, NULL,
   [](Element* e, const Val& v) { static_cast<kmldom::GxTrack*>(e)->add_when(v.s); },
   NULL,
   [](Element* e) -> size_t { return static_cast<kmldom::GxTrack*>(e)->get_when_array_size(); }, [](Element* e, size_t i, Val& v) { v.s = static_cast<kmldom::GxTrack*>(e)->get_when_array_at(i); }},
  {"gx:coord", "GxTrack", "gx_coord", K_VEC3S, false, "", false,
   NULL, NULL,
   [](Element* e, const Val& v) { static_cast<kmldom::GxTrack*>(e)->add_gx_coord(v.v); },
   NULL,
   [](Element* e) -> size_t { return static_cast<kmldom::GxTrack*>(e)->get_gx_coord_array_size(); }, [](Element* e, size_t i, Val& v) { v.v = static_cast<kmldom::GxTrack*>(e)->get_gx_coord_array_at(i); }},
  {"gx:angles", "GxTrack", "gx_angles", K_VEC3S, false, "", false,
   NULL, NULL,
   [](Element* e, const Val& v) { static_cast<kmldom::GxTrack*>(e)->add_gx_angles(v.v); },
   NULL,
   [](Element* e) -> size_t { return static_cast<kmldom::GxTrack*>(e)->get_gx_angles_array_size(); }, [](Element* e, size_t i, Val& v) { v.v = static_cast<kmldom::GxTrack*>(e)->get_gx_angles_array_at(i); }},
  {"Model", "GxTrack", "model", K_ELEM, false, "Model", false,
   [](Element* e) -> bool { return static_cast<kmldom::GxTrack*>(e)->has_model(); }, [](Element* e) { static_cast<kmldom::GxTrack*>(e)->clear_model(); },
   [](Element* e, const Val& v) { static_cast<kmldom::GxTrack*>(e)->set_model(boost::static_pointer_cast<kmldom::Model>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::GxTrack*>(e)->get_model(); },
   NULL, NULL},
  {"ExtendedData", "GxTrack", "extendeddata", K_ELEM, false, "ExtendedData", false,
   [](Element* e) -> bool { return static_cast<kmldom::GxTrack*>(e)->has_extendeddata(); }, [](Element* e) { static_cast<kmldom::GxTrack*>(e)->clear_extendeddata(); },
   [](Element* e, const Val& v) { static_cast<kmldom::GxTrack*>(e)->set_extendeddata(boost::static_pointer_cast<kmldom::ExtendedData>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::GxTrack*>(e)->get_extendeddata(); },
   NULL, NULL},
  {"gx:interpolate", "GxMultiTrack", "gx_interpolate", K_BOOL, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::GxMultiTrack*>(e)->has_gx_interpolate(); }, [](Element* e) { static_cast<kmldom::GxMultiTrack*>(e)->clear_gx_interpolate(); },
   [](Element* e, const Val& v) { static_cast<kmldom::GxMultiTrack*>(e)->set_gx_interpolate(v.b); },
   [](Element* e, Val& v) { v.b = static_cast<kmldom::GxMultiTrack*>(e)->get_gx_interpolate(); },
   NULL, NULL},
  {"gx:Track", "GxMultiTrack", "gx_track", K_ELEMS, false, "gx:Track", false,
   NULL, NULL,
   [](Element* e, const Val& v) { static_cast<kmldom::GxMultiTrack*>(e)->add_gx_track(boost::static_pointer_cast<kmldom::GxTrack>(v.e)); },
   NULL,
   [](Element* e) -> size_t { return static_cast<kmldom::GxMultiTrack*>(e)->get_gx_track_array_size(); }, [](Element* e, size_t i, Val& v) { v.e = static_cast<kmldom::GxMultiTrack*>(e)->get_gx_track_array_at(i); }},
  {"coordinates", "GxLatLonQuad", "coordinates", K_ELEM, false, "coordinates", false,
   [](Element* e) -> bool { return static_cast<kmldom::GxLatLonQuad*>(e)->has_coordinates(); }, [](Element* e) { static_cast<kmldom::GxLatLonQuad*>(e)->clear_coordinates(); },
   [](Element* e, const Val& v) { static_cast<kmldom::GxLatLonQuad*>(e)->set_coordinates(boost::static_pointer_cast<kmldom::Coordinates>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::GxLatLonQuad*>(e)->get_coordinates(); },
   NULL, NULL},
  {"name", "GxSimpleArrayData", "name", K_STR, true, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::GxSimpleArrayData*>(e)->has_name(); }, [](Element* e) { static_cast<kmldom::GxSimpleArrayData*>(e)->clear_name(); },
   [](Element* e, const Val& v) { static_cast<kmldom::GxSimpleArrayData*>(e)->set_name(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::GxSimpleArrayData*>(e)->get_name(); },
   NULL, NULL},
  {"gx:value", "GxSimpleArrayData", "gx_value", K_STRS, false, "", false,
   NULL, NULL,
   [](Element* e, const Val& v) { static_cast<kmldom::GxSimpleArrayData*>(e)->add_gx_value(v.s); },
   NULL,
   [](Element* e) -> size_t { return static_cast<kmldom::GxSimpleArrayData*>(e)->get_gx_value_array_size(); }, [](Element* e, size_t i, Val& v) { v.s = static_cast<kmldom::GxSimpleArrayData*>(e)->get_gx_value_array_at(i); }},
  {"atom:name", "AtomAuthor", "name", K_STR, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::AtomAuthor*>(e)->has_name(); }, [](Element* e) { static_cast<kmldom::AtomAuthor*>(e)->clear_name(); },
   [](Element* e, const Val& v) { static_cast<kmldom::AtomAuthor*>(e)->set_name(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::AtomAuthor*>(e)->get_name(); },
   NULL, NULL},
  {"atom:uri", "AtomAuthor", "uri", K_STR, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::AtomAuthor*>(e)->has_uri(); }, [](Element* e) { static_cast<kmldom::AtomAuthor*>(e)->clear_uri(); },
   [](Element* e, const Val& v) { static_cast<kmldom::AtomAuthor*>(e)->set_uri(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::AtomAuthor*>(e)->get_uri(); },
   NULL, NULL},
  {"atom:email", "AtomAuthor", "email", K_STR, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::AtomAuthor*>(e)->has_email(); }, [](Element* e) { static_cast<kmldom::AtomAuthor*>(e)->clear_email(); },
   [](Element* e, const Val& v) { static_cast<kmldom::AtomAuthor*>(e)->set_email(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::AtomAuthor*>(e)->get_email(); },
   NULL, NULL},
  {"href", "AtomLink", "href", K_STR, true, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::AtomLink*>(e)->has_href(); }, [](Element* e) { static_cast<kmldom::AtomLink*>(e)->clear_href(); },
   [](Element* e, const Val& v) { static_cast<kmldom::AtomLink*>(e)->set_href(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::AtomLink*>(e)->get_href(); },
   NULL, NULL},
  {"rel", "AtomLink", "rel", K_STR, true, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::AtomLink*>(e)->has_rel(); }, [](Element* e) { static_cast<kmldom::AtomLink*>(e)->clear_rel(); },
   [](Element* e, const Val& v) { static_cast<kmldom::AtomLink*>(e)->set_rel(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::AtomLink*>(e)->get_rel(); },
   NULL, NULL},
  {"type", "AtomLink", "type", K_STR, true, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::AtomLink*>(e)->has_type(); }, [](Element* e) { static_cast<kmldom::AtomLink*>(e)->clear_type(); },
   [](Element* e, const Val& v) { static_cast<kmldom::AtomLink*>(e)->set_type(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::AtomLink*>(e)->get_type(); },
   NULL, NULL},
  {"hreflang", "AtomLink", "hreflang", K_STR, true, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::AtomLink*>(e)->has_hreflang(); }, [](Element* e) { static_cast<kmldom::AtomLink*>(e)->clear_hreflang(); },
   [](Element* e, const Val& v) { static_cast<kmldom::AtomLink*>(e)->set_hreflang(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::AtomLink*>(e)->get_hreflang(); },
   NULL, NULL},
  {"title", "AtomLink", "title", K_STR, true, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::AtomLink*>(e)->has_title(); }, [](Element* e) { static_cast<kmldom::AtomLink*>(e)->clear_title(); },
   [](Element* e, const Val& v) { static_cast<kmldom::AtomLink*>(e)->set_title(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::AtomLink*>(e)->get_title(); },
   NULL, NULL},
  {"length", "AtomLink", "length", K_INT, true, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::AtomLink*>(e)->has_length(); }, [](Element* e) { static_cast<kmldom::AtomLink*>(e)->clear_length(); },
   [](Element* e, const Val& v) { static_cast<kmldom::AtomLink*>(e)->set_length(v.i); },
   [](Element* e, Val& v) { v.i = static_cast<kmldom::AtomLink*>(e)->get_length(); },
   NULL, NULL},
  {"term", "AtomCategory", "term", K_STR, true, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::AtomCategory*>(e)->has_term(); }, [](Element* e) { static_cast<kmldom::AtomCategory*>(e)->clear_term(); },
   [](Element* e, const Val& v) { static_cast<kmldom::AtomCategory*>(e)->set_term(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::AtomCategory*>(e)->get_term(); },
   NULL, NULL},
  {"scheme", "AtomCategory", "scheme", K_STR, true, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::AtomCategory*>(e)->has_scheme(); }, [](Element* e) { static_cast<kmldom::AtomCategory*>(e)->clear_scheme(); },
   [](Element* e, const Val& v) { static_cast<kmldom::AtomCategory*>(e)->set_scheme(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::AtomCategory*>(e)->get_scheme(); },
   NULL, NULL},
  {"label", "AtomCategory", "label", K_STR, true, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::AtomCategory*>(e)->has_label(); }, [](Element* e) { static_cast<kmldom::AtomCategory*>(e)->clear_label(); },
   [](Element* e, const Val& v) { static_cast<kmldom::AtomCategory*>(e)->set_label(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::AtomCategory*>(e)->get_label(); },
   NULL, NULL},
  {"src", "AtomContent", "src", K_STR, true, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::AtomContent*>(e)->has_src(); }, [](Element* e) { static_cast<kmldom::AtomContent*>(e)->clear_src(); },
   [](Element* e, const Val& v) { static_cast<kmldom::AtomContent*>(e)->set_src(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::AtomContent*>(e)->get_src(); },
   NULL, NULL},
  {"type", "AtomContent", "type", K_STR, true, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::AtomContent*>(e)->has_type(); }, [](Element* e) { static_cast<kmldom::AtomContent*>(e)->clear_type(); },
   [](Element* e, const Val& v) { static_cast<kmldom::AtomContent*>(e)->set_type(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::AtomContent*>(e)->get_type(); },
   NULL, NULL},
  {"atom:id", "AtomCommon", "id", K_STR, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::AtomCommon*>(e)->has_id(); }, [](Element* e) { static_cast<kmldom::AtomCommon*>(e)->clear_id(); },
   [](Element* e, const Val& v) { static_cast<kmldom::AtomCommon*>(e)->set_id(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::AtomCommon*>(e)->get_id(); },
   NULL, NULL},
  {"atom:title", "AtomCommon", "title", K_STR, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::AtomCommon*>(e)->has_title(); }, [](Element* e) { static_cast<kmldom::AtomCommon*>(e)->clear_title(); },
   [](Element* e, const Val& v) { static_cast<kmldom::AtomCommon*>(e)->set_title(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::AtomCommon*>(e)->get_title(); },
   NULL, NULL},
  {"atom:updated", "AtomCommon", "updated", K_STR, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::AtomCommon*>(e)->has_updated(); }, [](Element* e) { static_cast<kmldom::AtomCommon*>(e)->clear_updated(); },
   [](Element* e, const Val& v) { static_cast<kmldom::AtomCommon*>(e)->set_updated(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::AtomCommon*>(e)->get_updated(); },
   NULL, NULL},
  {"atom:category", "AtomCommon", "category", K_ELEMS, false, "atom:category", false,
   NULL, NULL,
   [](Element* e, const Val& v) { static_cast<kmldom::AtomCommon*>(e)->add_category(boost::static_pointer_cast<kmldom::AtomCategory>(v.e)); },
   NULL,
   [](Element* e) -> size_t { return static_cast<kmldom::AtomCommon*>(e)->get_category_array_size(); }, [](Element* e, size_t i, Val& v) { v.e = static_cast<kmldom::AtomCommon*>(e)->get_category_array_at(i); }},
  {"atom:link", "AtomCommon", "link", K_ELEMS, false, "atom:link", false,
   NULL, NULL,
   [](Element* e, const Val& v) { static_cast<kmldom::AtomCommon*>(e)->add_link(boost::static_pointer_cast<kmldom::AtomLink>(v.e)); },
   NULL,
   [](Element* e) -> size_t { return static_cast<kmldom::AtomCommon*>(e)->get_link_array_size(); }, [](Element* e, size_t i, Val& v) { v.e = static_cast<kmldom::AtomCommon*>(e)->get_link_array_at(i); }},
  {"atom:summary", "AtomEntry", "summary", K_STR, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::AtomEntry*>(e)->has_summary(); }, [](Element* e) { static_cast<kmldom::AtomEntry*>(e)->clear_summary(); },
   [](Element* e, const Val& v) { static_cast<kmldom::AtomEntry*>(e)->set_summary(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::AtomEntry*>(e)->get_summary(); },
   NULL, NULL},
  {"atom:content", "AtomEntry", "content", K_ELEM, false, "atom:content", false,
   [](Element* e) -> bool { return static_cast<kmldom::AtomEntry*>(e)->has_content(); }, [](Element* e) { static_cast<kmldom::AtomEntry*>(e)->clear_content(); },
   [](Element* e, const Val& v) { static_cast<kmldom::AtomEntry*>(e)->set_content(boost::static_pointer_cast<kmldom::AtomContent>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::AtomEntry*>(e)->get_content(); },
   NULL, NULL},
  {"atom:entry", "AtomFeed", "entry", K_ELEMS, false, "atom:entry", false,
   NULL, NULL,
   [](Element* e, const Val& v) { static_cast<kmldom::AtomFeed*>(e)->add_entry(boost::static_pointer_cast<kmldom::AtomEntry>(v.e)); },
   NULL,
   [](Element* e) -> size_t { return static_cast<kmldom::AtomFeed*>(e)->get_entry_array_size(); }, [](Element* e, size_t i, Val& v) { v.e = static_cast<kmldom::AtomFeed*>(e)->get_entry_array_at(i); }},
  {"xal:Country", "XalAddressDetails", "country", K_ELEM, false, "xal:Country", false,
   [](Element* e) -> bool { return static_cast<kmldom::XalAddressDetails*>(e)->has_country(); }, [](Element* e) { static_cast<kmldom::XalAddressDetails*>(e)->clear_country(); },
   [](Element* e, const Val& v) { static_cast<kmldom::XalAddressDetails*>(e)->set_country(boost::static_pointer_cast<kmldom::XalCountry>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::XalAddressDetails*>(e)->get_country(); },
   NULL, NULL},
  {"xal:CountryNameCode", "XalCountry", "countrynamecode", K_STR, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::XalCountry*>(e)->has_countrynamecode(); }, [](Element* e) { static_cast<kmldom::XalCountry*>(e)->clear_countrynamecode(); },
   [](Element* e, const Val& v) { static_cast<kmldom::XalCountry*>(e)->set_countrynamecode(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::XalCountry*>(e)->get_countrynamecode(); },
   NULL, NULL},
  {"xal:AdministrativeArea", "XalCountry", "administrativearea", K_ELEM, false, "xal:AdministrativeArea", false,
   [](Element* e) -> bool { return static_cast<kmldom::XalCountry*>(e)->has_administrativearea(); }, [](Element* e) { static_cast<kmldom::XalCountry*>(e)->clear_administrativearea(); },
   [](Element* e, const Val& v) { static_cast<kmldom::XalCountry*>(e)->set_administrativearea(boost::static_pointer_cast<kmldom::XalAdministrativeArea>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::XalCountry*>(e)->get_administrativearea(); },
   NULL, NULL},
  {"xal:AdministrativeAreaName", "XalAdministrativeArea", "administrativeareaname", K_STR, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::XalAdministrativeArea*>(e)->has_administrativeareaname(); }, [](Element* e) { static_cast<kmldom::XalAdministrativeArea*>(e)->clear_administrativeareaname(); },
   [](Element* e, const Val& v) { static_cast<kmldom::XalAdministrativeArea*>(e)->set_administrativeareaname(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::XalAdministrativeArea*>(e)->get_administrativeareaname(); },
   NULL, NULL},
  {"xal:Locality", "XalAdministrativeArea", "locality", K_ELEM, false, "xal:Locality", false,
   [](Element* e) -> bool { return static_cast<kmldom::XalAdministrativeArea*>(e)->has_locality(); }, [](Element* e) { static_cast<kmldom::XalAdministrativeArea*>(e)->clear_locality(); },
   [](Element* e, const Val& v) { static_cast<kmldom::XalAdministrativeArea*>(e)->set_locality(boost::static_pointer_cast<kmldom::XalLocality>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::XalAdministrativeArea*>(e)->get_locality(); },
   NULL, NULL},
  {"xal:SubAdministrativeArea", "XalAdministrativeArea", "subadministrativearea", K_ELEM, false, "xal:SubAdministrativeArea", false,
   [](Element* e) -> bool { return static_cast<kmldom::XalAdministrativeArea*>(e)->has_subadministrativearea(); }, [](Element* e) { static_cast<kmldom::XalAdministrativeArea*>(e)->clear_subadministrativearea(); },
   [](Element* e, const Val& v) { static_cast<kmldom::XalAdministrativeArea*>(e)->set_subadministrativearea(boost::static_pointer_cast<kmldom::XalSubAdministrativeArea>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::XalAdministrativeArea*>(e)->get_subadministrativearea(); },
   NULL, NULL},
  {"xal:SubAdministrativeAreaName", "XalSubAdministrativeArea", "subadministrativeareaname", K_STR, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::XalSubAdministrativeArea*>(e)->has_subadministrativeareaname(); }, [](Element* e) { static_cast<kmldom::XalSubAdministrativeArea*>(e)->clear_subadministrativeareaname(); },
   [](Element* e, const Val& v) { static_cast<kmldom::XalSubAdministrativeArea*>(e)->set_subadministrativeareaname(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::XalSubAdministrativeArea*>(e)->get_subadministrativeareaname(); },
   NULL, NULL},
  {"xal:Locality", "XalSubAdministrativeArea", "locality", K_ELEM, false, "xal:Locality", false,
   [](Element* e) -> bool { return static_cast<kmldom::XalSubAdministrativeArea*>(e)->has_locality(); }, [](Element* e) { static_cast<kmldom::XalSubAdministrativeArea*>(e)->clear_locality(); },
   [](Element* e, const Val& v) { static_cast<kmldom::XalSubAdministrativeArea*>(e)->set_locality(boost::static_pointer_cast<kmldom::XalLocality>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::XalSubAdministrativeArea*>(e)->get_locality(); },
   NULL, NULL},
  {"xal:LocalityName", "XalLocality", "localityname", K_STR, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::XalLocality*>(e)->has_localityname(); }, [](Element* e) { static_cast<kmldom::XalLocality*>(e)->clear_localityname(); },
   [](Element* e, const Val& v) { static_cast<kmldom::XalLocality*>(e)->set_localityname(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::XalLocality*>(e)->get_localityname(); },
   NULL, NULL},
  {"xal:Thoroughfare", "XalLocality", "thoroughfare", K_ELEM, false, "xal:Thoroughfare", false,
   [](Element* e) -> bool { return static_cast<kmldom::XalLocality*>(e)->has_thoroughfare(); }, [](Element* e) { static_cast<kmldom::XalLocality*>(e)->clear_thoroughfare(); },
   [](Element* e, const Val& v) { static_cast<kmldom::XalLocality*>(e)->set_thoroughfare(boost::static_pointer_cast<kmldom::XalThoroughfare>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::XalLocality*>(e)->get_thoroughfare(); },
   NULL, NULL},
  {"xal:PostalCode", "XalLocality", "postalcode", K_ELEM, false, "xal:PostalCode", false,
   [](Element* e) -> bool { return static_cast<kmldom::XalLocality*>(e)->has_postalcode(); }, [](Element* e) { static_cast<kmldom::XalLocality*>(e)->clear_postalcode(); },
   [](Element* e, const Val& v) { static_cast<kmldom::XalLocality*>(e)->set_postalcode(boost::static_pointer_cast<kmldom::XalPostalCode>(v.e)); },
   [](Element* e, Val& v) { v.e = static_cast<kmldom::XalLocality*>(e)->get_postalcode(); },
   NULL, NULL},
  {"xal:ThoroughfareNumber", "XalThoroughfare", "thoroughfarenumber", K_STR, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::XalThoroughfare*>(e)->has_thoroughfarenumber(); }, [](Element* e) { static_cast<kmldom::XalThoroughfare*>(e)->clear_thoroughfarenumber(); },
   [](Element* e, const Val& v) { static_cast<kmldom::XalThoroughfare*>(e)->set_thoroughfarenumber(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::XalThoroughfare*>(e)->get_thoroughfarenumber(); },
   NULL, NULL},
  {"xal:ThoroughfareName", "XalThoroughfare", "thoroughfarename", K_STR, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::XalThoroughfare*>(e)->has_thoroughfarename(); }, [](Element* e) { static_cast<kmldom::XalThoroughfare*>(e)->clear_thoroughfarename(); },
   [](Element* e, const Val& v) { static_cast<kmldom::XalThoroughfare*>(e)->set_thoroughfarename(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::XalThoroughfare*>(e)->get_thoroughfarename(); },
   NULL, NULL},
  {"xal:PostalCodeNumber", "XalPostalCode", "postalcodenumber", K_STR, false, "", false,
   [](Element* e) -> bool { return static_cast<kmldom::XalPostalCode*>(e)->has_postalcodenumber(); }, [](Element* e) { static_cast<kmldom::XalPostalCode*>(e)->clear_postalcodenumber(); },
   [](Element* e, const Val& v) { static_cast<kmldom::XalPostalCode*>(e)->set_postalcodenumber(v.s); },
   [](Element* e, Val& v) { v.s = static_cast<kmldom::XalPostalCode*>(e)->get_postalcodenumber(); },
   NULL, NULL},
};
static const TypeDef kTypes[] = {
  {"Document", "Document", "Document", kmldom::Type_Document, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateDocument(); },
   {"Element", "Object", "Feature", "Container", "Document"},
   {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20}},
  {"Folder", "Folder", "Folder", kmldom::Type_Folder, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateFolder(); },
   {"Element", "Object", "Feature", "Container", "Folder"},
   {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 21, 16, 17, 18, 20}},
  {"Placemark", "Placemark", "Placemark", kmldom::Type_Placemark, []() -> ElementPtr { return KmlFactory::GetFactory()->CreatePlacemark(); },
   {"Element", "Object", "Feature", "Placemark"},
   {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 21, 16, 17, 18, 22}},
  {"GroundOverlay", "GroundOverlay", "GroundOverlay", kmldom::Type_GroundOverlay, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateGroundOverlay(); },
   {"Element", "Object", "Feature", "Overlay", "GroundOverlay"},
   {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 21, 16, 17, 18, 23, 24, 25, 26, 27, 28, 29, 30}},
  {"PhotoOverlay", "PhotoOverlay", "PhotoOverlay", kmldom::Type_PhotoOverlay, []() -> ElementPtr { return KmlFactory::GetFactory()->CreatePhotoOverlay(); },
   {"Element", "Object", "Feature", "Overlay", "PhotoOverlay"},
   {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 21, 16, 17, 18, 23, 24, 25, 31, 32, 33, 34, 35}},
  {"ScreenOverlay", "ScreenOverlay", "ScreenOverlay", kmldom::Type_ScreenOverlay, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateScreenOverlay(); },
   {"Element", "Object", "Feature", "Overlay", "ScreenOverlay"},
   {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 21, 16, 17, 18, 23, 24, 25, 36, 37, 38, 39, 40}},
  {"NetworkLink", "NetworkLink", "NetworkLink", kmldom::Type_NetworkLink, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateNetworkLink(); },
   {"Element", "Object", "Feature", "NetworkLink"},
   {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 21, 16, 17, 18, 41, 42, 43}},
  {"LookAt", "LookAt", "LookAt", kmldom::Type_LookAt, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateLookAt(); },
   {"Element", "Object", "AbstractView", "AbstractViewCommon", "LookAt"},
   {0, 1, 44, 45, 46, 47, 48, 49, 50, 51, 52}},
  {"Camera", "Camera", "Camera", kmldom::Type_Camera, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateCamera(); },
   {"Element", "Object", "AbstractView", "AbstractViewCommon", "Camera"},
   {0, 1, 44, 45, 46, 47, 48, 49, 53, 51, 52}},
  {"Link", "Link", "Link", kmldom::Type_Link, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateLink(); },
   {"Element", "Object", "BasicLink", "AbstractLink", "Link"},
   {0, 1, 54, 55, 56, 57, 58, 59, 60, 61}},
  {"Icon", "Icon", "Icon", kmldom::Type_Icon, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateIcon(); },
   {"Element", "Object", "BasicLink", "AbstractLink", "Icon"},
   {0, 1, 54, 55, 56, 57, 58, 59, 60, 61}},
  {"Url", "Url", "Url", kmldom::Type_Url, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateUrl(); },
   {"Element", "Object", "BasicLink", "AbstractLink", "Url"},
   {0, 1, 54, 55, 56, 57, 58, 59, 60, 61}},
  {"IconStyleIcon", "Icon", "IconStyleIcon", kmldom::Type_IconStyleIcon, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateIconStyleIcon(); },
   {"Element", "Object", "BasicLink", "IconStyleIcon"},
   {0, 1, 54, 62, 63, 64, 65}},
  {"Region", "Region", "Region", kmldom::Type_Region, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateRegion(); },
   {"Element", "Object", "Region"},
   {0, 1, 66, 67}},
  {"LatLonBox", "LatLonBox", "LatLonBox", kmldom::Type_LatLonBox, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateLatLonBox(); },
   {"Element", "Object", "AbstractLatLonBox", "LatLonBox"},
   {0, 1, 68, 69, 70, 71, 72}},
  {"LatLonAltBox", "LatLonAltBox", "LatLonAltBox", kmldom::Type_LatLonAltBox, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateLatLonAltBox(); },
   {"Element", "Object", "AbstractLatLonBox", "LatLonAltBox"},
   {0, 1, 68, 69, 70, 71, 73, 74, 75, 76}},
  {"Lod", "Lod", "Lod", kmldom::Type_Lod, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateLod(); },
   {"Element", "Object", "Lod"},
   {0, 1, 77, 78, 79, 80}},
  {"Point", "Point", "Point", kmldom::Type_Point, []() -> ElementPtr { return KmlFactory::GetFactory()->CreatePoint(); },
   {"Element", "Object", "Geometry", "AltitudeGeometryCommon", "ExtrudeGeometryCommon", "CoordinatesGeometryCommon", "Point"},
   {0, 1, 81, 82, 83, 84}},
  {"LineString", "LineString", "LineString", kmldom::Type_LineString, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateLineString(); },
   {"Element", "Object", "Geometry", "AltitudeGeometryCommon", "ExtrudeGeometryCommon", "CoordinatesGeometryCommon", "LineCommon", "LineString"},
   {0, 1, 81, 85, 82, 83, 84}},
  {"LinearRing", "LinearRing", "LinearRing", kmldom::Type_LinearRing, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateLinearRing(); },
   {"Element", "Object", "Geometry", "AltitudeGeometryCommon", "ExtrudeGeometryCommon", "CoordinatesGeometryCommon", "LineCommon", "LinearRing"},
   {0, 1, 81, 85, 82, 83, 84}},
  {"Polygon", "Polygon", "Polygon", kmldom::Type_Polygon, []() -> ElementPtr { return KmlFactory::GetFactory()->CreatePolygon(); },
   {"Element", "Object", "Geometry", "AltitudeGeometryCommon", "ExtrudeGeometryCommon", "Polygon"},
   {0, 1, 81, 86, 82, 83, 87, 88}},
  {"MultiGeometry", "MultiGeometry", "MultiGeometry", kmldom::Type_MultiGeometry, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateMultiGeometry(); },
   {"Element", "Object", "Geometry", "MultiGeometry"},
   {0, 1, 89}},
  {"Model", "Model", "Model", kmldom::Type_Model, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateModel(); },
   {"Element", "Object", "Geometry", "AltitudeGeometryCommon", "Model"},
   {0, 1, 82, 83, 90, 91, 92, 93, 94}},
  {"Location", "Location", "Location", kmldom::Type_Location, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateLocation(); },
   {"Element", "Object", "Location"},
   {0, 1, 95, 96, 97}},
  {"Orientation", "Orientation", "Orientation", kmldom::Type_Orientation, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateOrientation(); },
   {"Element", "Object", "Orientation"},
   {0, 1, 98, 99, 100}},
  {"Scale", "Scale", "Scale", kmldom::Type_Scale, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateScale(); },
   {"Element", "Object", "Scale"},
   {0, 1, 101, 102, 103}},
  {"Alias", "Alias", "Alias", kmldom::Type_Alias, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateAlias(); },
   {"Element", "Object", "Alias"},
   {0, 1, 104, 105}},
  {"ResourceMap", "ResourceMap", "ResourceMap", kmldom::Type_ResourceMap, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateResourceMap(); },
   {"Element", "Object", "ResourceMap"},
   {0, 1, 106}},
  {"Style", "Style", "Style", kmldom::Type_Style, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateStyle(); },
   {"Element", "Object", "StyleSelector", "Style"},
   {0, 1, 107, 108, 109, 110, 111, 112}},
  {"StyleMap", "StyleMap", "StyleMap", kmldom::Type_StyleMap, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateStyleMap(); },
   {"Element", "Object", "StyleSelector", "StyleMap"},
   {0, 1, 113}},
  {"Pair", "Pair", "Pair", kmldom::Type_Pair, []() -> ElementPtr { return KmlFactory::GetFactory()->CreatePair(); },
   {"Element", "Object", "Pair"},
   {0, 1, 114, 115, 116}},
  {"IconStyle", "IconStyle", "IconStyle", kmldom::Type_IconStyle, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateIconStyle(); },
   {"Element", "Object", "SubStyle", "ColorStyle", "IconStyle"},
   {0, 1, 117, 118, 119, 120, 121, 122}},
  {"LabelStyle", "LabelStyle", "LabelStyle", kmldom::Type_LabelStyle, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateLabelStyle(); },
   {"Element", "Object", "SubStyle", "ColorStyle", "LabelStyle"},
   {0, 1, 117, 118, 123}},
  {"LineStyle", "LineStyle", "LineStyle", kmldom::Type_LineStyle, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateLineStyle(); },
   {"Element", "Object", "SubStyle", "ColorStyle", "LineStyle"},
   {0, 1, 117, 118, 124}},
  {"PolyStyle", "PolyStyle", "PolyStyle", kmldom::Type_PolyStyle, []() -> ElementPtr { return KmlFactory::GetFactory()->CreatePolyStyle(); },
   {"Element", "Object", "SubStyle", "ColorStyle", "PolyStyle"},
   {0, 1, 117, 118, 125, 126}},
  {"BalloonStyle", "BalloonStyle", "BalloonStyle", kmldom::Type_BalloonStyle, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateBalloonStyle(); },
   {"Element", "Object", "SubStyle", "BalloonStyle"},
   {0, 1, 127, 128, 129, 130}},
  {"ListStyle", "ListStyle", "ListStyle", kmldom::Type_ListStyle, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateListStyle(); },
   {"Element", "Object", "SubStyle", "ListStyle"},
   {0, 1, 131, 132, 133, 134}},
  {"ItemIcon", "ItemIcon", "ItemIcon", kmldom::Type_ItemIcon, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateItemIcon(); },
   {"Element", "Object", "ItemIcon"},
   {0, 1, 135, 136}},
  {"TimeSpan", "TimeSpan", "TimeSpan", kmldom::Type_TimeSpan, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateTimeSpan(); },
   {"Element", "Object", "TimePrimitive", "TimeSpan"},
   {0, 1, 137, 138}},
  {"TimeStamp", "TimeStamp", "TimeStamp", kmldom::Type_TimeStamp, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateTimeStamp(); },
   {"Element", "Object", "TimePrimitive", "TimeStamp"},
   {0, 1, 139}},
  {"ExtendedData", "ExtendedData", "ExtendedData", kmldom::Type_ExtendedData, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateExtendedData(); },
   {"Element", "ExtendedData"},
   {140, 141}},
  {"Data", "Data", "Data", kmldom::Type_Data, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateData(); },
   {"Element", "Object", "Data"},
   {0, 1, 142, 143, 144}},
  {"SchemaData", "SchemaData", "SchemaData", kmldom::Type_SchemaData, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateSchemaData(); },
   {"Element", "Object", "SchemaData"},
   {0, 1, 145, 146, 147}},
  {"SimpleData", "SimpleData", "SimpleData", kmldom::Type_SimpleData, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateSimpleData(); },
   {"Element", "SimpleData"},
   {148, 149}},
  {"Schema", "Schema", "Schema", kmldom::Type_Schema, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateSchema(); },
   {"Element", "Object", "Schema"},
   {0, 1, 150, 151, 152}},
  {"SimpleField", "SimpleField", "SimpleField", kmldom::Type_SimpleField, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateSimpleField(); },
   {"Element", "SimpleField"},
   {153, 154, 155}},
  {"Snippet", "Snippet", "Snippet", kmldom::Type_Snippet, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateSnippet(); },
   {"Element", "SnippetCommon", "Snippet"},
   {156, 157}},
  {"NetworkLinkControl", "NetworkLinkControl", "NetworkLinkControl", kmldom::Type_NetworkLinkControl, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateNetworkLinkControl(); },
   {"Element", "NetworkLinkControl"},
   {158, 159, 160, 161, 162, 163, 164, 165, 166, 167}},
  {"Update", "Update", "Update", kmldom::Type_Update, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateUpdate(); },
   {"Element", "Update"},
   {168, 169}},
  {"Create", "Create", "Create", kmldom::Type_Create, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateCreate(); },
   {"Element", "UpdateOperation", "Create"},
   {170}},
  {"Delete", "Delete", "Delete", kmldom::Type_Delete, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateDelete(); },
   {"Element", "UpdateOperation", "Delete"},
   {171}},
  {"Change", "Change", "Change", kmldom::Type_Change, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateChange(); },
   {"Element", "UpdateOperation", "Change"},
   {172}},
  {"ViewVolume", "ViewVolume", "ViewVolume", kmldom::Type_ViewVolume, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateViewVolume(); },
   {"Element", "Object", "ViewVolume"},
   {0, 1, 173, 174, 175, 176, 177}},
  {"ImagePyramid", "ImagePyramid", "ImagePyramid", kmldom::Type_ImagePyramid, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateImagePyramid(); },
   {"Element", "Object", "ImagePyramid"},
   {0, 1, 178, 179, 180, 181}},
  {"kml", "kml", "Kml", kmldom::Type_kml, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateKml(); },
   {"Element", "Kml"},
   {182, 183, 184}},
  {"coordinates", "coordinates", "Coordinates", kmldom::Type_coordinates, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateCoordinates(); },
   {"Element", "Coordinates"},
   {185}},
  {"hotSpot", "hotSpot", "HotSpot", kmldom::Type_hotSpot, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateHotSpot(); },
   {"Element", "Vec2", "HotSpot"},
   {186, 187, 188, 189}},
  {"overlayXY", "overlayXY", "OverlayXY", kmldom::Type_overlayXY, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateOverlayXY(); },
   {"Element", "Vec2", "OverlayXY"},
   {186, 187, 188, 189}},
  {"screenXY", "screenXY", "ScreenXY", kmldom::Type_screenXY, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateScreenXY(); },
   {"Element", "Vec2", "ScreenXY"},
   {186, 187, 188, 189}},
  {"rotationXY", "rotationXY", "RotationXY", kmldom::Type_rotationXY, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateRotationXY(); },
   {"Element", "Vec2", "RotationXY"},
   {186, 187, 188, 189}},
  {"size", "size", "Size", kmldom::Type_size, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateSize(); },
   {"Element", "Vec2", "Size"},
   {186, 187, 188, 189}},
  {"outerBoundaryIs", "outerBoundaryIs", "OuterBoundaryIs", kmldom::Type_outerBoundaryIs, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateOuterBoundaryIs(); },
   {"Element", "BoundaryCommon", "OuterBoundaryIs"},
   {190}},
  {"innerBoundaryIs", "innerBoundaryIs", "InnerBoundaryIs", kmldom::Type_innerBoundaryIs, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateInnerBoundaryIs(); },
   {"Element", "BoundaryCommon", "InnerBoundaryIs"},
   {190}},
  {"linkSnippet", "linkSnippet", "LinkSnippet", kmldom::Type_linkSnippet, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateLinkSnippet(); },
   {"Element", "SnippetCommon", "LinkSnippet"},
   {156, 157}},
  {"gx:Tour", "gx:Tour", "GxTour", kmldom::Type_GxTour, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateGxTour(); },
   {"Element", "Object", "Feature", "GxTour"},
   {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 21, 16, 17, 18, 191}},
  {"gx:Playlist", "gx:Playlist", "GxPlaylist", kmldom::Type_GxPlaylist, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateGxPlaylist(); },
   {"Element", "Object", "GxPlaylist"},
   {0, 1, 192}},
  {"gx:AnimatedUpdate", "gx:AnimatedUpdate", "GxAnimatedUpdate", kmldom::Type_GxAnimatedUpdate, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateGxAnimatedUpdate(); },
   {"Element", "Object", "GxTourPrimitive", "GxTourPrimitiveCommon", "GxAnimatedUpdate"},
   {0, 1, 193, 194}},
  {"gx:FlyTo", "gx:FlyTo", "GxFlyTo", kmldom::Type_GxFlyTo, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateGxFlyTo(); },
   {"Element", "Object", "GxTourPrimitive", "GxTourPrimitiveCommon", "GxFlyTo"},
   {0, 1, 193, 195, 196}},
  {"gx:Wait", "gx:Wait", "GxWait", kmldom::Type_GxWait, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateGxWait(); },
   {"Element", "Object", "GxTourPrimitive", "GxTourPrimitiveCommon", "GxWait"},
   {0, 1, 193}},
  {"gx:SoundCue", "gx:SoundCue", "GxSoundCue", kmldom::Type_GxSoundCue, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateGxSoundCue(); },
   {"Element", "Object", "GxTourPrimitive", "GxSoundCue"},
   {0, 1, 197}},
  {"gx:TourControl", "gx:TourControl", "GxTourControl", kmldom::Type_GxTourControl, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateGxTourControl(); },
   {"Element", "Object", "GxTourPrimitive", "GxTourControl"},
   {0, 1, 198}},
  {"gx:Track", "gx:Track", "GxTrack", kmldom::Type_GxTrack, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateGxTrack(); },
   {"Element", "Object", "Geometry", "AltitudeGeometryCommon", "GxTrack"},
   {0, 1, 82, 83, 199, 200, 201, 202, 203}},
  {"gx:MultiTrack", "gx:MultiTrack", "GxMultiTrack", kmldom::Type_GxMultiTrack, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateGxMultiTrack(); },
   {"Element", "Object", "Geometry", "GxMultiTrack"},
   {0, 1, 204, 205}},
  {"gx:LatLonQuad", "gx:LatLonQuad", "GxLatLonQuad", kmldom::Type_GxLatLonQuad, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateGxLatLonQuad(); },
   {"Element", "Object", "GxLatLonQuad"},
   {0, 1, 206}},
  {"gx:SimpleArrayData", "gx:SimpleArrayData", "GxSimpleArrayData", kmldom::Type_GxSimpleArrayData, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateGxSimpleArrayData(); },
   {"Element", "GxSimpleArrayData"},
   {207, 208}},
  {"gx:SimpleArrayField", "gx:SimpleArrayField", "GxSimpleArrayField", kmldom::Type_GxSimpleArrayField, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateGxSimpleArrayField(); },
   {"Element", "SimpleField", "GxSimpleArrayField"},
   {153, 154, 155}},
  {"gx:TimeSpan", "gx:TimeSpan", "GxTimeSpan", kmldom::Type_GxTimeSpan, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateGxTimeSpan(); },
   {"Element", "Object", "TimePrimitive", "TimeSpan", "GxTimeSpan"},
   {0, 1, 137, 138}},
  {"gx:TimeStamp", "gx:TimeStamp", "GxTimeStamp", kmldom::Type_GxTimeStamp, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateGxTimeStamp(); },
   {"Element", "Object", "TimePrimitive", "TimeStamp", "GxTimeStamp"},
   {0, 1, 139}},
  {"atom:author", "atom:author", "AtomAuthor", kmldom::Type_AtomAuthor, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateAtomAuthor(); },
   {"Element", "AtomAuthor"},
   {209, 210, 211}},
  {"atom:link", "atom:link", "AtomLink", kmldom::Type_AtomLink, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateAtomLink(); },
   {"Element", "AtomLink"},
   {212, 213, 214, 215, 216, 217}},
  {"atom:category", "atom:category", "AtomCategory", kmldom::Type_AtomCategory, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateAtomCategory(); },
   {"Element", "AtomCategory"},
   {218, 219, 220}},
  {"atom:content", "atom:content", "AtomContent", kmldom::Type_AtomContent, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateAtomContent(); },
   {"Element", "AtomContent"},
   {221, 222}},
  {"atom:entry", "atom:entry", "AtomEntry", kmldom::Type_AtomEntry, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateAtomEntry(); },
   {"Element", "AtomCommon", "AtomEntry"},
   {223, 224, 225, 226, 227, 228, 229}},
  {"atom:feed", "atom:feed", "AtomFeed", kmldom::Type_AtomFeed, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateAtomFeed(); },
   {"Element", "AtomCommon", "AtomFeed"},
   {223, 224, 225, 226, 227, 230}},
  {"xal:AddressDetails", "xal:AddressDetails", "XalAddressDetails", kmldom::Type_XalAddressDetails, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateXalAddressDetails(); },
   {"Element", "XalAddressDetails"},
   {231}},
  {"xal:Country", "xal:Country", "XalCountry", kmldom::Type_XalCountry, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateXalCountry(); },
   {"Element", "XalCountry"},
   {232, 233}},
  {"xal:AdministrativeArea", "xal:AdministrativeArea", "XalAdministrativeArea", kmldom::Type_XalAdministrativeArea, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateXalAdministrativeArea(); },
   {"Element", "XalAdministrativeArea"},
   {234, 235, 236}},
  {"xal:SubAdministrativeArea", "xal:SubAdministrativeArea", "XalSubAdministrativeArea", kmldom::Type_XalSubAdministrativeArea, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateXalSubAdministrativeArea(); },
   {"Element", "XalSubAdministrativeArea"},
   {237, 238}},
  {"xal:Locality", "xal:Locality", "XalLocality", kmldom::Type_XalLocality, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateXalLocality(); },
   {"Element", "XalLocality"},
   {239, 240, 241}},
  {"xal:Thoroughfare", "xal:Thoroughfare", "XalThoroughfare", kmldom::Type_XalThoroughfare, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateXalThoroughfare(); },
   {"Element", "XalThoroughfare"},
   {242, 243}},
  {"xal:PostalCode", "xal:PostalCode", "XalPostalCode", kmldom::Type_XalPostalCode, []() -> ElementPtr { return KmlFactory::GetFactory()->CreateXalPostalCode(); },
   {"Element", "XalPostalCode"},
   {244}},
};
static const GroupDef kGroups[] = {
  {"AbstractView", {"LookAt", "Camera"}},
  {"TimePrimitive", {"TimeSpan", "TimeStamp"}},
  {"GxTimePrimitive", {"gx:TimeSpan", "gx:TimeStamp", "TimeSpan", "TimeStamp"}},
  {"StyleSelector", {"Style", "StyleMap"}},
  {"Feature", {"Placemark", "Folder", "Document", "GroundOverlay", "ScreenOverlay", "PhotoOverlay", "NetworkLink", "gx:Tour"}},
  {"Container", {"Folder", "Document"}},
  {"Geometry", {"Point", "LineString", "LinearRing", "Polygon", "MultiGeometry", "Model", "gx:Track", "gx:MultiTrack"}},
  {"UpdateOperation", {"Create", "Delete", "Change"}},
  {"GxTourPrimitive", {"gx:AnimatedUpdate", "gx:FlyTo", "gx:Wait", "gx:SoundCue", "gx:TourControl"}},
  {"Object", {"Placemark", "Folder", "Document", "GroundOverlay", "Style", "StyleMap", "IconStyle", "LineStyle", "Point", "Polygon", "LookAt", "Region", "Link", "Icon", "LatLonBox", "TimeSpan", "Data", "Schema", "Pair"}},
};
