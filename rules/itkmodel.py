"""What the image toolkit's objects do, as far as an image comparison uses them: readers, region extraction, the comparing
filter's pipeline side, geometry getters and smart pointers.  An object is a term; an image is known by where its pixels come
from: a file that was read, a region of another image, or a parameter."""
from .common import *
from sa.models import cstr
from sa.terms import NULL

DIFF = 'itk::tf::DifferenceImageFilter'
EXC = 'itk::ExceptionObject'


def obj(v):
    """the location a pointer value points to"""
    return v[1] if v[0] in ('p', 'l', 'o') else ('d', v)


def attr(o, n):
    return ('f', o, 'itk::' + n)


def content(E, st, v):
    """the value of an argument: what a reference or class value holds, or the pointer itself"""
    if v[0] in ('l', 'o'):
        return E.load(st, v[1])
    return v


def put(st, c, v):
    """give v to the result of a call that returns a class value"""
    if c.dest is not None:
        st.mem[c.dest] = v
        return [(st, ('o', c.dest))]
    return [(st, v)]


class Hooks(dict):
    """hooks by name, and by the pieces of names of the toolkit"""

    def get(self, name, d=None):
        h = dict.get(self, name)
        if h is None and isinstance(name, str) and name.startswith('itk::'):
            h = self.toolkit(name)
        return h if h is not None else d

    def toolkit(self, name):
        if name.startswith('itk::SmartPointer::'):
            return smart(name[len('itk::SmartPointer::'):])
        last = name.split('::')[-1]
        if last in ('operator==', 'operator!=') and (name.startswith('itk::operator') or name.split('::')[1] in GEOMETRY):
            return compared(last)
        return None


GEOMETRY = ('ImageRegion', 'Size', 'Index', 'Point', 'Vector', 'Matrix', 'FixedArray', 'CovariantVector')


def smart(op):
    if op == 'SmartPointer':
        def h(E, st, fr, c):
            st.mem[c.obj if c.obj is not None else c.dest] = content(E, st, c.args[0]) if c.args else NULL
            return [(st, ('void',))]
    elif op == 'operator=':
        def h(E, st, fr, c):
            st.mem[c.obj] = content(E, st, c.args[0])
            return [(st, ('l', c.obj))]
    elif op in ('operator->', 'GetPointer', 'get') or op.startswith('operator ') and op.endswith('*'):
        def h(E, st, fr, c):
            return [(st, E.load(st, c.obj))]
    elif op == 'operator*':
        def h(E, st, fr, c):
            return [(st, ('l', obj(E.load(st, c.obj))))]
    elif op in ('IsNull', 'IsNotNull', 'operator bool', 'operator!'):
        def h(E, st, fr, c):
            b = mk_null(E.load(st, c.obj))
            return [(st, b if op in ('IsNull', 'operator!') else mk_not(b))]
    elif op in ('operator==', 'operator!='):
        return compared(op)
    else:
        return None
    return h


def compared(op):
    def h(E, st, fr, c):
        xs = ([] if c.obj is None else [E.load(st, c.obj)]) + [content(E, st, a) for a in c.args]
        if len(xs) != 2:
            return None
        b = mk_eq(xs[0], xs[1])
        return [(st, b if op == 'operator==' else mk_not(b))]
    return h


def new(kind):
    def h(E, st, fr, c):
        o = T(kind, st.fresh())
        st.assume(mk_not(mk_null(o)))
        st.emit('itknew', kind, o)
        return put(st, c, o)
    return h


def setting(n):
    def h(E, st, fr, c):
        v = content(E, st, c.args[0])
        st.mem[attr(c.obj, n)] = v
        st.emit('itkset', c.obj, n, v)
        return [(st, ('void',))]
    return h


def set_file(E, st, fr, c):
    v = c.args[0]
    v = E.load(st, v[1]) if v[0] in ('l', 'o') else cstr(E, st, v) if v[0] == 'p' else v
    st.mem[attr(c.obj, 'file')] = v
    return [(st, ('void',))]


def set_input(E, st, fr, c):
    if len(c.args) == 2:
        n = num_const(c.args[0])
        v = content(E, st, c.args[1])
        if n is None:
            st.unknown('input number')
            return [(st, ('void',))]
    else:
        n, v = 0, content(E, st, c.args[0])
    st.mem[attr(c.obj, 'input%d' % n)] = v
    return [(st, ('void',))]


def num_const(v):
    return v[1] if v[0] == 'n' and not v[2] else None


def is_kind(v, k):
    return v[0] == 'd' and v[1][:2] == ('t', k)


def image(st, v, what='read'):
    """where the pixels (what='read') or the geometry (what='info') of the image v points to come from"""
    if v[0] == 't' and v[1] == 'out':
        o = v[2]
        if what == 'read':
            # the pipeline reads what is needed when it is updated
            f = st.mem.get(attr(('d', o), 'file'))
            f = T('image', f) if f is not None else None
        else:
            f = st.mem.get(attr(('d', o), 'info'))
        if o[:2] == ('t', 'extract'):
            r, i = st.mem.get(attr(('d', o), 'region')), st.mem.get(attr(('d', o), 'input0'))
            if r is not None and i is not None:
                return T('part', r, image(st, i))
            return T('unset', v)
        return f if f is not None else T('unread', v)
    return v


def update(full):
    def h(E, st, fr, c):
        o = c.obj
        s2 = st.fork()
        s2.emit('itkfail', o, c.line)
        E.throw(s2, EXC, None, fr, c.line)
        if is_kind(o, 'reader'):
            f = st.mem.get(attr(o, 'file'))
            st.mem[attr(o, 'info')] = T('image', f if f is not None else T('nofile', o))
        elif is_kind(o, 'diff') and full:
            k = st.fresh()
            n = T('count', k)
            st.iv[n] = (0, 2**64 - 1)
            cls = E.itk_diff_roles
            ins = []
            for i in (0, 1):
                v = st.mem.get(attr(o, 'input%d' % i))
                ins.append(None if v is None else image(st, v))
            st.emit('compared', o, tuple(ins), {q: E.load(st, field(o, q)) for q in cls['fields']}, n, c.line)
            st.mem[field(o, cls['count'])] = lin(n)
        st.emit('itkupdate', o, full, c.line)
        return [(st, ('void',))]
    return h


def output(E, st, fr, c):
    v = T('out', c.obj[1] if c.obj[0] == 'd' else c.obj)
    st.assume(mk_not(mk_null(v)))
    return [(st, v)]


def geometry(n):
    def h(E, st, fr, c):
        v = c.obj[1] if c.obj[0] == 'd' else T('at', c.obj)
        loc = ('d', T(n + 'of', v, st.fresh()))
        st.mem[loc] = T(n, image(st, v, 'info'))
        if c.dest is not None:
            st.mem[c.dest] = st.mem[loc]
            return [(st, ('o', c.dest))]
        return [(st, ('l', loc))]
    return h


def get_size(n):
    def h(E, st, fr, c):
        r = E.load(st, c.obj)
        x = r[2] if r[:2] == ('t', 'region') else r
        loc = ('d', T(n + 'in', x, st.fresh()))
        st.mem[loc] = T(n, x)
        if c.dest is not None:
            st.mem[c.dest] = st.mem[loc]
            return [(st, ('o', c.dest))]
        return [(st, ('l', loc))]
    return h


def region_ctor(E, st, fr, c):
    o = c.obj if c.obj is not None else c.dest
    if not c.args:
        st.mem[o] = T('region0')
    elif len(c.args) == 1 and c.args[0][0] in ('l', 'o') and 'ImageRegion' in str((c.e.get('a') or [{}])[0].get('c') or c.e.get('a')[0].get('t') or ''):
        st.mem[o] = E.load(st, c.args[0][1])
    elif len(c.args) == 1 and c.e.get('copy'):
        st.mem[o] = E.load(st, c.args[0][1])
    else:
        st.mem[o] = T('region', T('made', *[content(E, st, a) for a in c.args]))
    return [(st, ('void',))]


def region_assign(E, st, fr, c):
    st.mem[c.obj] = content(E, st, c.args[0])
    return [(st, ('l', c.obj))]


def nothing_bool(v):
    def h(E, st, fr, c):
        return [(st, v)]
    return h


def void(E, st, fr, c):
    return [(st, ('void',))]


def hooks(ck, base=None):
    h = Hooks(base or {})
    for n, k in (('itk::ImageFileReader::New', 'reader'), ('itk::ExtractImageFilter::New', 'extract')):
        dict.__setitem__(h, n, new(k))
    h['itk::ImageFileReader::SetFileName'] = set_file
    h['itk::ExtractImageFilter::SetExtractionRegion'] = setting('region')
    for n in ('itk::ImageToImageFilter::SetInput', 'itk::ProcessObject::SetNthInput'):
        h[n] = set_input
    h['itk::ProcessObject::Update'] = h['itk::ProcessObject::UpdateLargestPossibleRegion'] = update(True)
    h['itk::ProcessObject::UpdateOutputInformation'] = update(False)
    h['itk::ImageSource::GetOutput'] = output
    h['itk::ImageBase::GetLargestPossibleRegion'] = geometry('region')
    h['itk::ImageBase::GetSpacing'] = geometry('spacing')
    h['itk::ImageBase::GetOrigin'] = geometry('origin')
    h['itk::ImageBase::GetDirection'] = geometry('direction')
    h['itk::ImageRegion::GetSize'] = get_size('size')
    h['itk::ImageRegion::GetIndex'] = get_size('index')
    h['itk::ImageRegion::ImageRegion'] = region_ctor
    h['itk::ImageRegion::operator='] = region_assign
    h['itk::Object::GetDebug'] = nothing_bool(FALSE)
    h['itk::Object::Modified'] = h['itk::ProcessObject::Modified'] = void
    return h


# ------------------------------------------------------------------ iterating over images

ITERATORS = ('ImageRegionConstIterator', 'ImageRegionIterator', 'ConstNeighborhoodIterator', 'NeighborhoodIterator', 'ImageConstIterator', 'ImageIterator', 'Neighborhood', 'ImageRegionConstIteratorWithIndex', 'ImageRegionIteratorWithIndex', 'ImageRegionConstIteratorWithOnlyIndex', 'ImageIteratorWithIndex', 'ImageConstIteratorWithIndex')


def pos(o):
    return ('f', o, 'itk::pos')


class IterHooks(Hooks):
    def toolkit(self, name):
        ps = name.split('::')
        if len(ps) == 3 and ps[1] in ITERATORS:
            return iterating(ps[1], ps[2])
        if len(ps) > 2 and ps[1] in ('ProgressReporter', 'ZeroFluxNeumannBoundaryCondition', 'TotalProgressReporter'):
            return void
        if name.endswith('ImageBoundaryFacesCalculator::operator()'):
            return faces
        return Hooks.toolkit(self, name)


def faces(E, st, fr, c):
    a = [content(E, st, x) for x in c.args]
    E.drop_under(st, c.dest)
    st.mem[c.dest] = ('L', (), T('faces', *a), ())
    st.emit('faces', tuple(a), c.line)
    return [(st, ('o', c.dest))]


def iterating(cls, op):
    if op == cls:
        def h(E, st, fr, c):
            o = c.obj if c.obj is not None else c.dest
            a = [content(E, st, x) for x in c.args]
            near = cls in ('ConstNeighborhoodIterator', 'NeighborhoodIterator')
            if len(a) == (3 if near else 2):
                st.mem[o] = T('iter', a[1], a[2], a[0]) if near else T('iter', a[0], a[1])
                n = T('npix', a[-1])
                st.iv.setdefault(n, (0, 2**63 - 1))
            else:
                st.mem[o] = T('iterof', *a)
            st.mem[pos(o)] = num(0)
            st.emit('iterating', o, st.mem[o], c.line)
            return [(st, ('void',))]
    elif op in ('GoToBegin', 'GoToReverseBegin'):
        def h(E, st, fr, c):
            if op != 'GoToBegin':
                st.unknown('reverse')
            st.mem[pos(c.obj)] = num(0)
            return [(st, ('void',))]
    elif op in ('operator++', 'operator--'):
        def h(E, st, fr, c):
            p = E.load(st, pos(c.obj))
            st.mem[pos(c.obj)] = add(p, num(1 if op == 'operator++' else -1))
            st.emit('step', c.obj, p, c.line)
            return [(st, ('l', c.obj))]
    elif op in ('IsAtEnd', 'IsAtBegin'):
        def h(E, st, fr, c):
            it = E.load(st, c.obj)
            if it[:2] != ('t', 'iter'):
                return None
            p = E.load(st, pos(c.obj))
            if op == 'IsAtBegin':
                return [(st, mk_eq0(p))]
            n = T('npix', it[3])
            st.iv.setdefault(n, (0, 2**63 - 1))
            return [(st, mk_le(sub(lin(n), p)))]
    elif op in ('Get', 'GetCenterPixel', 'Value'):
        def h(E, st, fr, c):
            it = E.load(st, c.obj)
            if it[:2] != ('t', 'iter'):
                return None
            return [(st, T('pix', it[2], it[3], E.load(st, pos(c.obj))))]
    elif op == 'GetPixel':
        def h(E, st, fr, c):
            it = E.load(st, c.obj)
            if it[:2] != ('t', 'iter') or len(it) != 5 or len(c.args) != 1:
                return None
            i = content(E, st, c.args[0])
            i = num(0) if i == ('n', 0, ()) else i
            return [(st, T('near', it[2], it[3], E.load(st, pos(c.obj)), it[4], i))]
    elif op == 'Set':
        def h(E, st, fr, c):
            st.emit('outset', c.obj, E.load(st, pos(c.obj)), content(E, st, c.args[0]), c.line)
            return [(st, ('void',))]
    elif op == 'Size':
        def h(E, st, fr, c):
            it = E.load(st, c.obj)
            if it[:2] != ('t', 'iter') or len(it) != 5:
                return None
            t = T('nsize', it[4])
            st.iv.setdefault(t, (1, 2**32 - 1))
            return [(st, lin(t))]
    elif op == 'GetNeedToUseBoundaryCondition':
        def h(E, st, fr, c):
            return [(st, mk_true(T('boundary', E.load(st, c.obj))))]
    elif op in ('OverrideBoundaryCondition', 'NeedToUseBoundaryConditionOn', 'ResetBoundaryCondition', 'SetNeedToUseBoundaryCondition'):
        return void
    elif op == 'GoToEnd':
        def h(E, st, fr, c):
            it = E.load(st, c.obj)
            if it[:2] != ('t', 'iter'):
                return None
            n = T('npix', it[3])
            st.iv.setdefault(n, (0, 2**63 - 1))
            st.mem[pos(c.obj)] = lin(n)
            return [(st, ('void',))]
    elif op.startswith(('Get', 'Is', 'Size', 'Begin', 'End', 'In', '~')):
        return None
    else:
        def h(E, st, fr, c):
            # may move the iterator
            if c.obj is not None:
                st.unknown('%s::%s' % (cls, op))
                st.mem[pos(c.obj)] = lin(T('moved', st.mem.get(pos(c.obj), num(0)), op, c.line))
            return None
    return h


def fill(E, st, fr, c):
    st.mem[c.obj] = T('filled', c.args[0])
    return [(st, ('void',))]


def input_(E, st, fr, c):
    n = num_const(c.args[0]) if c.args else 0
    if n is None:
        return None
    return [(st, T('input', n))]


def pixel_hooks(ck):
    h = IterHooks(hooks(ck))
    h['itk::Size::Fill'] = fill
    h['itk::ImageToImageFilter::GetInput'] = input_
    h['itk::ImageSource::GetOutput'] = lambda E, st, fr, c: [(st, T('output'))]
    h['itk::ImageRegion::GetNumberOfPixels'] = lambda E, st, fr, c: npix(E, st, c)
    return h


def npix(E, st, c):
    t = T('npix', E.load(st, c.obj))
    st.iv.setdefault(t, (0, 2**63 - 1))
    return [(st, lin(t))]
