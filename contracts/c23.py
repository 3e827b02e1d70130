from vc.harness import unit
from vc.core import Unsupported
from .spec import *

NAMES = ['blk0-0', 'hdr', '9int', 'timestep', '10int', 'blk0-1', 'blk1-0', 'ntitle', 'remark1', 'remark2', 'blk1-1', 'blk2-0', 'natoms', 'blk2-1']


def dcd(g, fn, steps, atoms, lammps):
    """a DCD file of the documented layout; returns header entries, cell records (a, cos gamma, b, cos beta, cos alpha, c), coordinates"""
    import numpy as np, struct
    r = np.random.RandomState(g.int('seed', 0, 10 ** 6, samp=(0, 10 ** 6)))
    nine = [steps if lammps else 0] + [int(x) for x in r.randint(0, 10 ** 6, size=8)]
    ten = [int(x) for x in r.randint(0, 5, size=9)] + [24]
    dt = np.float32(r.uniform(0.1, 50))
    rem = [(b'REMARK ' + bytes(r.randint(65, 90, size=70).tolist())).ljust(80) for k in range(2)]
    head = dict(zip(NAMES, [84, b'CORD', nine, dt, ten, 84, 164, 2, rem[0], rem[1], 164, 4, atoms, 4]))
    cc = r.uniform(1, 60, size=(steps, 6))
    cc[:, [1, 3, 4]] = r.uniform(-0.99, 0.99, size=(steps, 3))
    if g.int('special', 0, 3) == 0:
        cc[r.randint(0, steps), [1, 3, 4]] = [(0.0, 1.0, -1.0), (0.5, -0.5, 0.0), (-1.0, 0.0, 1.0)][r.randint(0, 3)]
    xyz = (r.standard_normal((steps, 3, atoms)) * 10.0 ** r.randint(-6, 7, size=(steps, 3, atoms))).astype('<f4')
    with open(fn, 'wb') as f:
        f.write(struct.pack('<i4s9if10ii', 84, b'CORD', *nine, dt, *ten, 84))
        f.write(struct.pack('<ii80s80si', 164, 2, rem[0], rem[1], 164))
        f.write(struct.pack('<iii', 4, atoms, 4))
        for s in range(steps):
            f.write(struct.pack('<i6di', 48, *cc[s], 48))
            for k in range(3):
                f.write(struct.pack('<i', 4 * atoms) + xyz[s, k].tobytes() + struct.pack('<i', 4 * atoms))
    return head, cc, np.ascontiguousarray(np.swapaxes(xyz, 1, 2))


@unit('C23', ['dcd.read_dcd_header', 'dcd.read_dcd_data', 'dcd.read_dcd_data_ref', 'dcd.read_dcd_data_f', 'dcd.f90: get_dcd_file_info, read_dcd_data (compiled)'],
      mode='bounded', n=500, why='binary files')
def readers(g):
    """every reader: exactly the stored numbers, cell record reordered, angles as cosines or degrees"""
    import numpy as np
    steps = g.int('steps', 1, 7)
    atoms = g.int('atoms', 1, 9)
    if g.int('large', 0, 19) == 0:
        steps, atoms = g.int('many steps', 100, 300), g.int('many atoms', 50, 400)
    lammps = g.flag('nstep in header')
    with Scratch():
        fn = ['x.dcd', './x', 'some dir/x.dcd', 'x' * 200][g.int('name', 0, 3)]
        if '/' in fn[2:]:
            import os
            os.mkdir('some dir')
        head, cc, xyz = dcd(g, fn, steps, atoms, lammps)
        raw = open(fn, 'rb').read()
        h = g.call('dcd.read_dcd_header', fn)
        g.ensure('header entries', sorted(h) == sorted(NAMES) and all(np.array_equal(h[k], head[k]) for k in NAMES))
        want = cc[:, [0, 2, 5, 4, 3, 1]]
        conv = g.flag('convang')
        if conv:
            want = np.concatenate([want[:, :3], np.degrees(np.arccos(want[:, 3:]))], axis=1)
        kw = {'convang': True} if conv else ({'convang': False} if g.flag('convang given') else {})
        for name, k2 in [('read_dcd_data', {}), ('read_dcd_data_ref', {}), ('read_dcd_data_f', {}), ('read_dcd_data_f', {'nstephdr': False})] + (
                [('read_dcd_data_f', {'nstephdr': True})] if lammps else []):
            c, x = g.call('dcd.' + name, fn, **dict(kw, **k2))
            g.ensure(name + ': types', c.dtype == np.float64 and x.dtype == np.float32)
            g.ensure(name + ': shapes', c.shape == (steps, 6) and x.shape == (steps, atoms, 3))
            g.ensure(name + ': coordinates', np.array_equal(x, xyz))
            g.ensure(name + ': cell lengths', np.array_equal(c[:, :3], want[:, :3]))
            g.ensure(name + ': cell angles', np.allclose(c[:, 3:], want[:, 3:], rtol=1e-13, atol=1e-12) if conv else np.array_equal(c[:, 3:], want[:, 3:]))
        g.ensure('file kept', open(fn, 'rb').read() == raw)


@unit('C23', ['dcd.read_dcd_data'], mode='bounded', n=100, why='binary files')
def truncated(g):
    """a file that ends within a step is not read as a shorter trajectory"""
    import os
    steps, atoms = g.int('steps', 1, 5), g.int('atoms', 1, 5)
    if g.int('large', 0, 3) == 0:
        steps, atoms = g.int('many steps', 1, 300, samp=(1, 300)), g.int('many atoms', 10, 400, samp=(10, 400))
    with Scratch():
        dcd(g, 'x', steps, atoms, True)
        step = 80 + 12 * atoms
        size = os.path.getsize('x')
        cut = g.int('cut', 1, step - 1)
        if g.int('edge', 0, 2) == 0:
            cut = [1, 2, 3, 4, 8, step - 8, step - 4, step - 3, step - 2, step - 1][g.int('at', 0, 9)]
        os.truncate('x', size - cut)
        g.raises('truncated', Exception, lambda: g.call('dcd.read_dcd_data', 'x'))


# ------------------------------------------------------------------ contract of the file system: a well-formed DCD file

class Stored:
    """the records of a DCD file: header items and steps x (cell record, x, y, z), element order of the documented layout"""

    def __init__(self, g, S, N, cc, x, y, z, hdr, rest=0):
        self.g, self.S, self.N = g, S, N
        self.head = [('i4', 84), ('S4', b'CORD')] + [('i4', v) for v in hdr['nine']] + [('f4', hdr['dt'])] + [('i4', v) for v in hdr['ten']] + [
            ('i4', 84), ('i4', 164), ('i4', 2), ('S80', hdr['rem'][0]), ('S80', hdr['rem'][1]), ('i4', 164), ('i4', 4), ('i4', N), ('i4', 4)]
        self.hsize = 4 + 4 + 9 * 4 + 4 + 10 * 4 + 4 + 4 + 4 + 160 + 4 + 12
        self.step = [('i4', 1, None), ('f8', 6, cc), ('i4', 2, None), ('f4', N, x), ('i4', 2, None), ('f4', N, y), ('i4', 2, None),
                     ('f4', N, z), ('i4', 1, None)]
        self.recsize = 80 + 12 * N
        self.size = self.hsize + S * self.recsize + rest


class Fd:
    def __init__(self, st, log):
        self.st, self.pos, self.log = st, 0, log

    def tell(self):
        return self.pos

    def seek(self, off, whence=0):
        self.pos = off if whence == 0 else (self.pos + off if whence == 1 else self.st.size + off)
        return self.pos

    def close(self):
        self.log.append('close')

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class DT:
    """a structured dtype with symbolic field lengths: fields (name, type, number of elements) and the subarray shape"""

    def __init__(self, spec):
        self.shape = ()
        if isinstance(spec, tuple):
            spec, self.shape = spec
            self.shape = tuple(self.shape) if isinstance(self.shape, (tuple, list)) else (self.shape,)
        if isinstance(spec, DT):
            spec = spec.fields
        self.fields = [f if len(f) > 2 else (f[0], f[1], None) for f in spec]


class Header(list):
    """array of one record"""

    def __init__(self, d):
        list.__init__(self, [d])
        self.dtype = type('T', (), {'names': tuple(d)})()

    def __getitem__(self, q):
        return [self[0][q]] if isinstance(q, str) else list.__getitem__(self, q)


class Records:
    """arr[name] of the structured array; arr[k]: one record"""

    def __init__(self, shape, fields, at=None):
        self.shape, self.fields, self.at = shape, fields, at

    def __len__(self):
        return self.shape[0]

    def __getitem__(self, q):
        if isinstance(q, str):
            return self.fields[q](self.shape)
        if len(self.shape) == 2 and q == 0 or len(self.shape) == 2 and q == -1:
            return Records(self.shape[1:], {k: (lambda f: lambda sh: f((1,) + sh)[0])(f) for k, f in self.fields.items()})
        raise Unsupported('record index')


def fakenp(g, base, st, hdtype):
    class NP:
        def __getattr__(self, n):
            return getattr(base, n)

        def dtype(self, spec, *a, **k):
            return DT(spec)

        def fromfile(self, fd, dtype, count=-1, **k):
            if k or not isinstance(fd, Fd):
                raise Unsupported('fromfile')
            if not isinstance(dtype, DT):
                g.ensure('the header is read from the start of the file', fd.pos == 0)
                g.ensure('one header', count == 1)
                names, q, out = dtype.names, 0, {}
                for nm in names:
                    sub = dtype.fields[nm][0]
                    b, n = sub.base, 1
                    for s in sub.shape:
                        n *= s
                    want = st.head[q:q + n]
                    g.ensure('header field %s' % nm, all(t == b.str[1:] for t, v in want) and len(want) == n)
                    out[nm] = [v for t, v in want] if sub.shape else want[0][1]
                    q += n
                g.ensure('the whole header', q == len(st.head))
                fd.pos = fd.pos + st.hsize
                return Header(out)
            g.ensure('the data are read from the end of the header', g.land(fd.pos == st.hsize))
            # fields of one step against the stored elements
            items, fields = list(st.step), {}
            for nm, typ, shape in dtype.fields:
                shape = () if shape is None else (tuple(shape) if isinstance(shape, (tuple, list)) else (shape,))
                n = shape[0] if shape else 1
                t, m, src = items[0]
                g.ensure('field %s: type' % nm, t == str(typ).lstrip('<='))
                if src is None:
                    if not (isinstance(n, int) and n <= m):
                        raise Unsupported('frame markers')
                    items[0] = (t, m - n, None)
                    if m == n:
                        items.pop(0)
                    fields[nm] = None
                else:
                    g.ensure('field %s: elements' % nm, g.land(n == m))
                    items.pop(0)
                    fields[nm] = (lambda src, m: lambda sh: g.array(tuple(sh) + (m,), lambda *ix: src(ix[-2], ix[-1])))(src, m)
            g.ensure('all fields of a step', not items)
            if dtype.shape:
                g.ensure('one block of steps', count in (1, -1))
                g.ensure('all steps', g.land(dtype.shape[0] == st.S))
                sh = (1, st.S)
            else:
                g.ensure('all steps', count == -1 or g.land(count == st.S))
                sh = (st.S,)
            return Records(sh, fields)
    return NP()


@unit('C23', ['dcd.read_dcd_data', 'dcd.read_dcd_header'], n=30, fork={'convang': 2})
def python_reader(g):
    """for a well-formed file of any number of steps and atoms (contract of fromfile: fields in the order of the stored elements)"""
    S, N = g.dim('steps'), g.dim('atoms')
    conv = g.flag('convang')
    CC = g.reals('cell records', (S, 6), samp=(-1, 1))
    X = [g.reals('coords ' + a, (S, N), samp=(-9, 9)) for a in 'xyz']
    if conv:
        for k in (1, 3, 4):
            g.require_all((S,), lambda s, k=k: g.land(CC[s, k] >= -1, CC[s, k] <= 1))
    if g.sym:
        hdr = dict(nine=[g.int('nine%d' % k) for k in range(9)], dt=g.real('dt'), ten=[g.int('ten%d' % k) for k in range(10)], rem=[b'a', b'b'])
        log = []
        st = Stored(g, S, N, lambda s, k: CC[s, k], *[(lambda a: lambda s, i: a[s, i])(a) for a in X], hdr)
        m = g.mod('dcd')

        def fopen(fn, mode='r', *a):
            g.ensure('binary reading', mode == 'rb')
            log.append('open')
            return Fd(st, log)
        g.override('dcd.np', fakenp(g, m.np, st, m.HEADER_DTYPE))
        g.override('dcd.open', fopen)
        h = g.call('dcd.read_dcd_header', 'x')
        g.ensure('header: number of atoms', h['natoms'] == N)
        g.ensure('header: entries', sorted(h) == sorted(NAMES))
        for k in range(9):
            g.ensure('header: integers', h['9int'][k] == hdr['nine'][k])
        g.ensure('header: time step', h['timestep'] == hdr['dt'])
        c, x = g.call('dcd.read_dcd_data', 'x', convang=conv)
        g.ensure('closed', log.count('close') == log.count('open'))
        check_read(g, c, x, CC, X, S, N, conv)
    else:
        import numpy as np, struct
        with Scratch():
            with open('x', 'wb') as f:
                f.write(struct.pack('<i4s9if10ii', 84, b'CORD', *range(9), 0.5, *range(10), 84) + struct.pack('<ii80s80si', 164, 2, b'a', b'b', 164))
                f.write(struct.pack('<iii', 4, N, 4))
                for s in range(S):
                    f.write(struct.pack('<i6di', 48, *CC[s], 48))
                    for a in X:
                        f.write(struct.pack('<i', 4 * N) + a[s].astype('<f4').tobytes() + struct.pack('<i', 4 * N))
            c, x = g.call('dcd.read_dcd_data', 'x', convang=conv)
        check_read(g, c, x, CC, [a.astype(np.float32) for a in X], S, N, conv)


@unit('C23', ['dcd.read_dcd_data'], n=60)
def python_partial(g):
    """a file that ends within a step (any number of bytes after any number of whole steps) is refused"""
    S, N, rest = g.dim('steps', 0), g.dim('atoms'), g.dim('bytes', 1)
    g.require(rest < 80 + 12 * N)
    if g.sym:
        hdr = dict(nine=[0] * 9, dt=g.real('dt'), ten=[0] * 10, rem=[b'a', b'b'])
        Z = g.reals('any', (S, N))
        q = lambda a, b: Z[a, b]
        st = Stored(g, S, N, q, q, q, q, hdr, rest)
        m = g.mod('dcd')
        g.override('dcd.np', fakenp(g, m.np, st, m.HEADER_DTYPE))
        g.override('dcd.open', lambda fn, mode='r', *a: Fd(st, []))
        g.raises('refused', AssertionError, lambda: g.call('dcd.read_dcd_data', 'x'))
    else:
        import struct
        with Scratch():
            with open('x', 'wb') as f:
                f.write(struct.pack('<i4s9if10ii', 84, b'CORD', *range(9), 0.5, *range(10), 84) + struct.pack('<ii80s80si', 164, 2, b'a', b'b', 164))
                f.write(struct.pack('<iii', 4, N, 4) + b'\0' * (S * (80 + 12 * N) + rest))
            g.raises('refused', AssertionError, lambda: g.call('dcd.read_dcd_data', 'x'))


ORDER = [0, 2, 5, 4, 3, 1]


def check_read(g, c, x, CC, X, S, N, conv):
    g.shape('cell shape', c, (S, 6))
    g.shape('coordinates shape', x, (S, N, 3))
    for k in range(6):
        want = (lambda s: deg(g, g.acos(CC[s, ORDER[k]]))) if conv and k >= 3 else (lambda s: CC[s, ORDER[k]])
        g.forall('cell constants %d' % k, (S,), lambda s: g.close(c[s, k], want(s)))
    for k in range(3):
        g.forall('coordinates %d' % k, (S, N), lambda s, i: g.close(x[s, i, k], X[k][s, i]))
