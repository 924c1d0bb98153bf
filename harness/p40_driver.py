# The Python side of p40_bindings.cc: does through the modules what the C++ side does directly.
import kmlbase
import kmldom
import kmlengine

FACTORY = kmldom.KmlFactory.GetFactory()
TABLE = {}    # type number -> (class name, [(suffix, kind)])
BY_NAME = {}


def table(text):
    for line in text.decode().split('\n'):
        if line:
            number, cls, fields = line.split('|')
            fs = [tuple(f.split(':')) for f in fields.split(',') if f]
            TABLE[int(number)] = (cls, fs)
            BY_NAME[cls] = fs
    return b''


def enc(s):
    if not isinstance(s, str):
        raise TypeError('not a string: %r' % (s,))
    return s.encode('utf-8', 'surrogateescape').hex()


def dec(h):
    return bytes.fromhex(h).decode('utf-8')


def num(d):
    if not isinstance(d, float):
        raise TypeError('not a float: %r' % (d,))
    if d != d:
        return 'nan'
    return '%.17g' % d


def boolean(b):
    if not isinstance(b, bool):
        raise TypeError('not a bool: %r' % (b,))
    return '1' if b else '0'


def integer(i):
    if isinstance(i, bool) or not isinstance(i, int):
        raise TypeError('not an integer: %r' % (i,))
    return str(i)


def color(c):
    return '%08x' % c.get_color_abgr()


def vec(v):
    return num(v.get_longitude()) + '/' + num(v.get_latitude()) + '/' + (num(v.get_altitude()) if v.has_altitude() else '-')


SCALAR = {'s': enc, 'b': boolean, 'i': integer, 'd': num, 'c': color, 'e': integer}


def cast(e):
    return getattr(kmldom, 'As' + TABLE[e.Type()][0])(e)


def show(e):
    t = e.Type()
    if t not in TABLE:
        return '#%d' % t
    cls, fields = TABLE[t]
    e = cast(e)
    if e is None:
        raise TypeError('no cast to ' + cls)
    out = ['#%d{' % t]
    for suffix, kind in fields:
        if kind == 'A':
            n = getattr(e, 'get_' + suffix + '_array_size')()
            at = getattr(e, 'get_' + suffix + '_array_at')
            out.append('%s[%s](%s)' % (suffix, integer(n), ' '.join(show(at(i)) for i in range(n))))
        elif kind == 'S':
            n = getattr(e, 'get_' + suffix + '_array_size')()
            at = getattr(e, 'get_' + suffix + '_array_at')
            out.append('%s[%s](%s)' % (suffix, integer(n), ' '.join(enc(at(i)) for i in range(n))))
        elif kind == 'N':
            n = getattr(e, 'get_' + suffix + '_array_size')()
            at = getattr(e, 'get_' + suffix + '_array_at')
            out.append('%s[%s](%s)' % (suffix, integer(n), ' '.join(integer(at(i)) for i in range(n))))
        elif kind == 'C':
            n = e.get_coordinates_array_size()
            out.append('coordinates[%s](%s)' % (integer(n), ' '.join(vec(e.get_coordinates_array_at(i)) for i in range(n))))
        elif kind == 'E':
            x = getattr(e, 'get_' + suffix)()
            h = boolean(getattr(e, 'has_' + suffix)())
            out.append('%s=%s(%s)' % (suffix, h, show(x) if x is not None else ''))
        else:
            h = boolean(getattr(e, 'has_' + suffix)())
            out.append('%s=%s:%s' % (suffix, h, SCALAR[kind](getattr(e, 'get_' + suffix)())))
    out.append('}')
    return ' '.join(out)


def text(e):
    return enc(kmldom.SerializeRaw(e)) + '\n' + enc(kmldom.SerializePretty(e)) + '\n'


def read(doc):
    e = kmldom.ParseKml(doc.decode('utf-8'))
    if e is None:
        return b'none'
    return (show(e) + '\n' + text(e)).encode()


def setter(kind, value):
    if kind == 's' or kind == 'S':
        return dec(value)
    if kind == 'b':
        return value == '1'
    if kind == 'i' or kind == 'e' or kind == 'N':
        return int(value)
    if kind == 'd':
        return float(value)
    return kmlbase.Color32(int(value, 16))


def run(program):
    slots = {}
    log = []
    for line in program.decode().split('\n'):
        if not line:
            continue
        w = line.split(' ')
        op = w[0]
        if op == 'new':
            slots[w[1]] = getattr(FACTORY, 'Create' + w[2])()
        elif op == 'byid':
            slots[w[1]] = cast(FACTORY.CreateElementById(int(w[2])))
        elif op == 'set':
            getattr(slots[w[1]], 'set_' + w[2])(setter(w[3], w[4]))
        elif op == 'add':
            getattr(slots[w[1]], 'add_' + w[2])(setter(w[3], w[4]))
        elif op == 'clear':
            getattr(slots[w[1]], 'clear_' + w[2])()
        elif op == 'setchild':
            getattr(slots[w[1]], 'set_' + w[2])(slots[w[3]])
        elif op == 'addchild':
            getattr(slots[w[1]], 'add_' + w[2])(slots[w[3]])
        elif op == 'latlng':
            slots[w[1]].add_latlng(float(w[2]), float(w[3]))
        elif op == 'latlngalt':
            slots[w[1]].add_latlngalt(float(w[2]), float(w[3]), float(w[4]))
        elif op == 'get':
            x = getattr(slots[w[1]], 'get_' + w[2])()
            slots[w[3]] = None if x is None else cast(x)
        elif op == 'at':
            slots[w[1]], x = slots[w[1]], getattr(slots[w[1]], 'get_' + w[2] + '_array_at')(int(w[4]))
            slots[w[3]] = cast(x)
        elif op == 'color':
            slots[w[3]] = getattr(slots[w[1]], 'get_' + w[2])()
        elif op == 'showcolor':
            log.append(color(slots[w[1]]))
        elif op == 'clone':
            slots[w[2]] = cast(kmlengine.Clone(slots[w[1]]))
        elif op == 'drop':
            del slots[w[1]]
        elif op == 'show':
            log.append(show(slots[w[1]]) + '\n' + text(slots[w[1]]))
        else:
            raise ValueError(line)
    return '\n'.join(log).encode()


def types(arg):
    w = arg.decode().split(' ')
    e = FACTORY.CreateElementById(int(w[0]))
    out = []
    if e is None:
        return b'none'
    out.append(integer(e.Type()))
    for name in w[1:]:
        x = getattr(kmldom, 'As' + name)(e)
        out.append('%s=%d' % (name, x is not None))
    for i in range(400):
        if e.IsA(i):
            out.append(str(i))
    return ' '.join(out).encode()


def names(arg):
    return ' '.join('%s=%d' % (n, getattr(kmldom, n)) for n in arg.decode().split(' ')).encode()


def parts(r, n):
    if not isinstance(r, (list, tuple)) or len(r) != n:
        raise TypeError('not %d results: %r' % (n, r))
    return r


def engine(arg):
    doc, ids = arg.decode('utf-8').split('\0')
    r = kmlengine.KmlFile.CreateFromParse(doc)
    if isinstance(r, str) or r is None or isinstance(r, list) and not isinstance(r[0], kmlengine.KmlFile):
        return b'none'
    f, errors = parts(r, 2)
    root = f.get_root()
    ok, xml = parts(f.SerializeToString(), 2)
    out = [show(root), boolean(ok), enc(xml)]
    for i in ids.split(' '):
        o = f.GetObjectById(i)
        s = f.GetSharedStyleById(i)
        out.append('object %s' % (show(o) if o else '-'))
        out.append('style %s' % (show(s) if s else '-'))
    feature = kmlengine.GetRootFeature(root)
    out.append('feature %s' % (show(feature) if feature else '-'))
    if feature:
        bbox = kmlengine.Bbox()
        ok = kmlengine.GetFeatureBounds(feature, bbox)
        out.append('bounds ' + boolean(ok))
        if ok:
            out += [num(bbox.get_north()), num(bbox.get_south()), num(bbox.get_east()), num(bbox.get_west())]
        r = parts(kmlengine.GetFeatureLatLon(feature), 3)
        out.append('center ' + boolean(r[0]))
        if r[0]:
            out += [num(r[1]), num(r[2])]
    g = kmlengine.KmlFile.CreateFromImport(kmlengine.Clone(root))
    out.append('import ' + (enc(parts(g.SerializeToString(), 2)[1]) if g else '-'))
    return '\n'.join(out).encode()


def kmz(arg):
    path, members = arg.decode('utf-8').split('\0')
    k = kmlengine.KmzFile.OpenFromFile(path)
    if k is None:
        return b'none'
    ok, kml = parts(k.ReadKml(), 2)
    out = [boolean(ok) + (enc(kml) if ok else '')]
    for m in members.split('\n'):
        ok, data = parts(k.ReadFile(m), 2)
        out.append(boolean(ok) + (enc(data) if ok else ''))
    return '\n'.join(out).encode()


def uris(arg):
    u = arg.decode('utf-8')
    ok, a, b = parts(kmlengine.KmzSplit(u), 3)
    out = [boolean(ok)] + ([enc(a), enc(b)] if ok else [])
    r = parts(kmlengine.SplitUri(u), 7)
    out += [boolean(r[0])] + ([enc(x) for x in r[1:]] if r[0] else [])
    return '\n'.join(out).encode()


def colors(arg):
    c = None
    out = []
    for line in arg.decode().split('\n'):
        w = line.split(' ')
        if w[0] == 'abgr':
            c = kmlbase.Color32(int(w[1]))
        elif w[0] == 'parts':
            c = kmlbase.Color32(*[int(x) for x in w[1:]])
        elif w[0] == 'text':
            c = kmlbase.Color32(w[1])
        elif w[0] == 'default':
            c = kmlbase.Color32()
        elif w[0] == 'set_color_abgr_text':
            c.set_color_abgr(w[1])
        elif w[0] == 'set_color_abgr_parts':
            c.set_color_abgr(*[int(x) for x in w[1:]])
        else:
            getattr(c, w[0])(int(w[1]))
        out.append(' '.join([integer(c.get_red()), integer(c.get_green()), integer(c.get_blue()), integer(c.get_alpha()),
                             integer(c.get_color_abgr()), integer(c.get_color_argb()), c.to_string_abgr(), c.to_string_argb(),
                             boolean(c.Color32_op_equal(kmlbase.Color32(c.get_color_abgr())))]))
    return '\n'.join(out).encode()


def bboxes(arg):
    b = None
    out = []
    for line in arg.decode().split('\n'):
        w = line.split(' ')
        v = [float(x) for x in w[1:]]
        if w[0] == 'new':
            b = kmlengine.Bbox(*v)
        elif w[0] == 'box':
            b.ExpandFromBbox(kmlengine.Bbox(*v))
        elif w[0] == 'contains':
            out.append(boolean(b.Contains(*v)))
        else:
            getattr(b, w[0])(*v)
        out.append(' '.join([num(b.get_north()), num(b.get_south()), num(b.get_east()), num(b.get_west())]))
    return '\n'.join(out).encode()


def misc(arg):
    w = arg.decode('utf-8').split('\0')
    out = []
    d = kmlbase.DateTime.Create(w[0])
    if d is not None:
        out += [integer(d.GetTimeT()), d.GetXsdTime(), d.GetXsdDate(), d.GetXsdDateTime()]
    else:
        out.append('none')
    out.append(integer(kmlbase.DateTime.ToTimeT(w[0])))
    v = kmlbase.Vec3(*[float(x) for x in w[1].split(' ')])
    out.append(vec(v))
    a = kmlbase.Attributes()
    for i in range(2, len(w) - 1, 2):
        a.SetString(w[i], w[i + 1])
        out.append(integer(a.GetSize()))
        for j in range(2, i + 2):
            ok, x = parts(a.FindValue(w[j]), 2)
            out.append(boolean(ok) + (enc(x) if ok else ''))
            ok, x = parts(a.FindKey(w[j]), 2)
            out.append(boolean(ok) + (enc(x) if ok else ''))
    out.append(kmlbase.Version.GetString())
    return '\n'.join(out).encode()
