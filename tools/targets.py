"""Which harness decides which property, and what it links."""
ALL = ['base', 'dom', 'xsd', 'engine', 'convenience', 'regionator']
BASE = ['base']
DOM = ['base', 'dom']
ENGINE = ['base', 'dom', 'engine']
KG = ['schema.cc', 'kmlgen.cc']
TARGETS = {
    'P01': dict(src='p01_roundtrip.cc', libs=DOM, extra=KG),
    'P02': dict(src='p02_api_xml.cc', libs=DOM, extra=KG),
    'P03': dict(src='p03_unknown.cc', libs=DOM, extra=KG + ['foreign.cc']),
    'P04': dict(src='p04_hostile.cc', libs=ENGINE, extra=KG + ['mutate.cc'], san='address,undefined'),
    'P05': dict(src='p05_accept.cc', libs=ENGINE, extra=KG + ['mutate.cc', 'zipgen.cc']),
    'P06': dict(src='p06_agree.cc', libs=ENGINE, extra=KG + ['mutate.cc', 'zipgen.cc']),
    'P07': dict(src='p07_observers.cc', libs=ENGINE, extra=KG),
    'P08': dict(src='p08_fields.cc', libs=DOM, extra=KG),
    'P09': dict(src='p09_parents.cc', libs=DOM, extra=KG),
    'P10': dict(src='p10_types.cc', libs=DOM, extra=KG + ['mutate.cc']),
    'P11': dict(src='p11_clone.cc', libs=ENGINE, extra=KG + ['foreign.cc']),
    'P12': dict(src='p12_merge.cc', libs=ENGINE, extra=KG + ['foreign.cc']),
    'P13': dict(src='p13_traverse.cc', libs=ENGINE, extra=KG + ['foreign.cc']),
    'P14': dict(src='p14_ids.cc', libs=ENGINE, extra=KG + ['foreign.cc']),
    'P15': dict(src='p15_update.cc', libs=ENGINE, extra=KG + ['foreign.cc']),
    'P16': dict(src='p16_styles.cc', libs=ENGINE, extra=KG + ['foreign.cc']),
    'P17': dict(src='p17_split.cc', libs=ENGINE, extra=KG + ['foreign.cc']),
    'P18': dict(src='p18_coords.cc', libs=DOM, extra=KG),
    'P19': dict(src='p19_colors.cc', libs=DOM, extra=KG),
    'P20': dict(src='p20_numbers.cc', libs=ENGINE, extra=KG),
    'P21': dict(src='p21_bbox.cc', libs=ENGINE, extra=KG),
    'P22': dict(src='p22_sphere.cc', libs=ALL, extra=KG),
    'P23': dict(src='p23_uri.cc', libs=ENGINE, extra=KG),
    'P24': dict(src='p24_kmz.cc', libs=ENGINE, extra=KG + ['zipgen.cc']),
    'P25': dict(src='p25_zipsafe.cc', libs=ENGINE, extra=KG + ['zipgen.cc', 'mutate.cc'], san='address,undefined'),
    'P26': dict(src='p26_cache.cc', libs=ENGINE, extra=KG + ['zipgen.cc']),
    'P27': dict(src='p27_region.cc', libs=ALL, extra=KG),
    'P28': dict(src='p28_csv.cc', libs=ALL, extra=KG, san='address,undefined'),
    'P29': dict(src='p29_links.cc', libs=ALL, extra=KG + ['zipgen.cc']),
    'P30': dict(src='p30_entities.cc', libs=ENGINE, extra=KG),
    'P31': dict(src='p31_text.cc', libs=DOM, extra=KG, san='address,undefined'),
    'P32': dict(src='p32_time.cc', libs=ALL, extra=KG, san='address,undefined'),
    'P33': dict(src='p33_files.cc', libs=DOM, extra=KG),
    'P34': dict(src='p34_gpx.cc', libs=DOM, extra=KG + ['mutate.cc'], san='address,undefined'),
    'P35': dict(src='p35_atom.cc', libs=ALL, extra=KG),
    'P36': dict(src='p36_xsd.cc', libs=ALL, extra=KG + ['mutate.cc'], san='address,undefined'),
    'P38': dict(src='p38_oldschema.cc', libs=ENGINE, extra=KG + ['mutate.cc']),
    'P37': dict(src='p37_namespaces.cc', libs=ENGINE, extra=KG + ['foreign.cc']),
    'P39': dict(src='p39_convenience.cc', libs=ALL, extra=KG),
    'P40': dict(src='p40_bindings.cc', libs=ENGINE, extra=KG + ['zipgen.cc'], swig=['kmlbase', 'kmldom', 'kmlengine'],
                driver='p40_driver.py'),
}
