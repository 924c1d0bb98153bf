// What the Python module kmldom offers, by class: the getters of its accessors.
static const char* const kBindings[][2] = {
  {"Alias", " id sourcehref targethref targetid "},
  {"AtomAuthor", " email name uri "},
  {"AtomLink", " href hreflang length rel title type "},
  {"BalloonStyle", " bgcolor displaymode id targetid text textcolor "},
  {"Camera", " altitude altitudemode gx_altitudemode gx_timeprimitive heading id latitude longitude roll targetid tilt "},
  {"Change", " object_array_at object_array_size "},
  {"Coordinates", " coordinates_array_at coordinates_array_size "},
  {"Create", " container_array_at container_array_size "},
  {"Data", " displayname id name targetid value "},
  {"Delete", " feature_array_at feature_array_size "},
  {"Document", " abstractview address atomauthor atomlink description extendeddata feature_array_at feature_array_size gx_balloonvisibility id name open phonenumber region schema_array_at schema_array_size snippet styleselector styleselector_array_at styleselector_array_size styleurl targetid timeprimitive visibility "},
  {"ExtendedData", " data_array_at data_array_size schemadata_array_at schemadata_array_size "},
  {"Folder", " abstractview address atomauthor atomlink description extendeddata feature_array_at feature_array_size gx_balloonvisibility id name open phonenumber region snippet styleselector styleurl targetid timeprimitive visibility "},
  {"GroundOverlay", " abstractview address altitude altitudemode atomauthor atomlink color description draworder extendeddata gx_altitudemode gx_balloonvisibility gx_latlonquad icon id latlonbox name open phonenumber region snippet styleselector styleurl targetid timeprimitive visibility "},
  {"GxAnimatedUpdate", " gx_duration id targetid update "},
  {"GxFlyTo", " abstractview gx_duration gx_flytomode id targetid "},
  {"GxLatLonQuad", " coordinates id targetid "},
  {"GxPlaylist", " gx_tourprimitive_array_at gx_tourprimitive_array_size id targetid "},
  {"GxSoundCue", " href id targetid "},
  {"GxTimeSpan", " begin end id targetid "},
  {"GxTimeStamp", " id targetid when "},
  {"GxTour", " abstractview address atomauthor atomlink description extendeddata gx_balloonvisibility gx_playlist id name open phonenumber region snippet styleselector styleurl targetid timeprimitive visibility "},
  {"GxTourControl", " gx_playmode id targetid "},
  {"GxWait", " gx_duration id targetid "},
  {"HotSpot", " x xunits y yunits "},
  {"Icon", " href httpquery id refreshinterval refreshmode targetid viewboundscale viewformat viewrefreshmode viewrefreshtime "},
  {"IconStyle", " color colormode heading hotspot icon id scale targetid "},
  {"IconStyleIcon", " href id targetid "},
  {"ImagePyramid", " gridorigin id maxheight maxwidth targetid tilesize "},
  {"InnerBoundaryIs", " linearring "},
  {"ItemIcon", " href id state_array_at state_array_size targetid "},
  {"Kml", " feature hint networklinkcontrol "},
  {"LabelStyle", " color colormode id scale targetid "},
  {"LatLonAltBox", " altitudemode east gx_altitudemode id maxaltitude minaltitude north south targetid west "},
  {"LatLonBox", " east id north rotation south targetid west "},
  {"LineString", " altitudemode coordinates extrude gx_altitudemode id targetid tessellate "},
  {"LineStyle", " color colormode id targetid width "},
  {"LinearRing", " altitudemode coordinates extrude gx_altitudemode id targetid tessellate "},
  {"Link", " href httpquery id refreshinterval refreshmode targetid viewboundscale viewformat viewrefreshmode viewrefreshtime "},
  {"LinkSnippet", " maxlines text "},
  {"ListStyle", " bgcolor id itemicon_array_at itemicon_array_size listitemtype targetid "},
  {"Location", " altitude id latitude longitude targetid "},
  {"Lod", " id maxfadeextent maxlodpixels minfadeextent minlodpixels targetid "},
  {"LookAt", " altitude altitudemode gx_altitudemode gx_timeprimitive heading id latitude longitude range targetid tilt "},
  {"Model", " altitudemode gx_altitudemode id link location orientation resourcemap scale targetid "},
  {"MultiGeometry", " geometry_array_at geometry_array_size id targetid "},
  {"NetworkLink", " abstractview address atomauthor atomlink description extendeddata flytoview gx_balloonvisibility id link name open phonenumber refreshvisibility region snippet styleselector styleurl targetid timeprimitive visibility "},
  {"NetworkLinkControl", " abstractview cookie expires linkdescription linkname linksnippet maxsessionlength message minrefreshperiod update "},
  {"Orientation", " heading id roll targetid tilt "},
  {"OuterBoundaryIs", " linearring "},
  {"OverlayXY", " x xunits y yunits "},
  {"Pair", " id key styleselector styleurl targetid "},
  {"PhotoOverlay", " abstractview address atomauthor atomlink color description draworder extendeddata gx_balloonvisibility icon id imagepyramid name open phonenumber point region rotation shape snippet styleselector styleurl targetid timeprimitive viewvolume visibility "},
  {"Placemark", " abstractview address atomauthor atomlink description extendeddata geometry gx_balloonvisibility id name open phonenumber region snippet styleselector styleurl targetid timeprimitive visibility "},
  {"Point", " altitudemode coordinates extrude gx_altitudemode id targetid "},
  {"PolyStyle", " color colormode fill id outline targetid "},
  {"Polygon", " altitudemode extrude gx_altitudemode id innerboundaryis_array_at innerboundaryis_array_size outerboundaryis targetid tessellate "},
  {"Region", " id latlonaltbox lod targetid "},
  {"ResourceMap", " alias_array_at alias_array_size id targetid "},
  {"RotationXY", " x xunits y yunits "},
  {"Scale", " id targetid x y z "},
  {"Schema", " id name simplefield_array_at simplefield_array_size targetid "},
  {"SchemaData", " id schemaurl simpledata_array_at simpledata_array_size targetid "},
  {"ScreenOverlay", " abstractview address atomauthor atomlink color description draworder extendeddata gx_balloonvisibility icon id name open overlayxy phonenumber region rotation rotationxy screenxy size snippet styleselector styleurl targetid timeprimitive visibility "},
  {"ScreenXY", " x xunits y yunits "},
  {"SimpleData", " name text "},
  {"SimpleField", " displayname name type "},
  {"Size", " x xunits y yunits "},
  {"Snippet", " maxlines text "},
  {"Style", " balloonstyle iconstyle id labelstyle linestyle liststyle polystyle targetid "},
  {"StyleMap", " id pair_array_at pair_array_size targetid "},
  {"TimeSpan", " begin end id targetid "},
  {"TimeStamp", " id targetid when "},
  {"Update", " targethref updateoperation_array_at updateoperation_array_size "},
  {"ViewVolume", " bottomfov id leftfov near rightfov targetid topfov "},
};
