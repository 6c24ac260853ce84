"""Reference files: encoders written from the format descriptions, independent of weio's writers. Each gives the bytes of a file
(and of its companions) and what reading it must return.

ref(name, gseed, size) -> dict(files={rel: bytes}, target=rel, klass='module.Class', auto=bool, frames=None|{key: (cols, values, rtol, atol)},
                               get=f(o)->{name: value}, expect={name: (value, rtol, atol)}, cuts=None|'bytes'|('lines', rel, first, last))
cuts: how the file may be torn such that a reader must notice: anywhere, or such that first..last lines of one file
are kept, or ('linelist', rel, [numbers of lines kept]), or ('file', rel): one file cut anywhere.
"""
import os
import struct
import numpy as np
from .formats import R, err, short

REFS = {}


def ref_(f):
    REFS[f.__name__[1:].replace('_', '-')] = f
    return f


def num(r, a, fmt=None):
    """numbers as text -> (list of str, the values the text stands for)"""
    fmt = fmt or r.choice(['%.8e', '%.6f', '%12.5E', '%.10g', '%15.7E'])
    s = [fmt % x for x in np.ravel(a)]
    return s, np.array([float(x) for x in s]).reshape(np.shape(a))


def table(r, nr, nc, sep=' ', fmt=None, kinds=('unit', 'scaled', 'ints', 'moderate')):
    a = np.column_stack([r.arr(nr, kind=r.choice(kinds)) for _ in range(nc)]) if nc else np.zeros((nr, 0))
    s, v = num(r, a, fmt)
    return [sep.join(s[i * nc:(i + 1) * nc]) for i in range(nr)], v


def eol(r, lines, last=True):
    e = r.choice(['\n', '\n', '\r\n'])
    return (e.join(lines) + (e if last else '')).encode()


def out(files, target, klass, frames=None, get=None, expect=None, auto=True, cuts=None, kw=None, kwread=True):
    """kw: options the reader is given; kwread: they are options of read() too, not of the constructor only"""
    return dict(files=files, target=target, klass=klass, frames=frames, get=get, expect=expect or {}, auto=auto, cuts=cuts, kw=kw or {}, kwread=kwread)


def check(ref, o):
    """None, or how the object read from the reference file differs from what the file says"""
    if type(o).__name__ != ref['klass'].split('.')[-1]:
        return 'read as %s, not %s' % (type(o).__name__, ref['klass'])
    if ref['get']:
        got = ref['get'](o)
        for k, (v, rt, at) in ref['expect'].items():
            if k not in got:
                return '%s is missing' % k
            e = err(k, v, got[k], rt, at)
            if e:
                return e
    if ref['frames'] is not None:
        df = o.toDataFrame()
        fr = ref['frames']
        if not isinstance(df, dict):
            df = {'': df}
        if '' in fr and len(df) == 1:
            df = {'': list(df.values())[0]}
        if sorted(map(str, df)) != sorted(fr):
            return 'dataframes: expected %s, got %s' % (short(list(fr)), short(list(df)))
        for k, (cols, val, rt, at) in fr.items():
            d = df[k]
            if cols is not None and [str(c) for c in d.columns] != list(cols):
                return 'dataframe %s columns: expected %s, got %s' % (k, short(list(cols)), short(list(d.columns)))
            e = err('dataframe %s' % k, val, d.values, rt, at)
            if e:
                return e
    return None


def make(name, gseed, size):
    return REFS[name](R('ref/%s/%s/%s' % (name, gseed, size)), size)


# ------------------------------------------------------------------------------------------------ FAST outputs
def _chan(r, nc, n=8):
    names = ['Time'] + r.names(nc)
    units = ['s'] + [r.choice(['m', 'kN', 'kN-m', 'm/s', 'deg', 'rpm', '-', 'deg/s^2']) for _ in range(nc)]
    return [x[:n] for x in names], units


@ref_
def _outb(r, size):
    nc, nt = 1 + r.randrange(6), r.rows(size)
    if size >= 3:       # readers take such files in pieces of 163840 values
        nc, nt = r.choice([(50 + r.randrange(90), 1500 + r.randrange(2500)), (1 + r.randrange(4), 60000 + r.randrange(60000)), (3 + r.randrange(30), 800 + r.randrange(1200))])
    ID = r.choice([1, 2, 3, 4])
    L = 10 if ID != 4 else r.choice([10, 15, 20, 33])
    names, units = _chan(r, nc)
    desc = r.choice(['', 'Predictions of ' + r.names(1)[0], 'x' * r.randrange(300)])
    b = struct.pack('<h', ID)
    if ID == 4:
        b += struct.pack('<h', L)
    b += struct.pack('<ii', nc, nt)
    t0, dt = r.choice([0.0, 0.5, 100.0]), r.choice([0.01, 0.0125, 0.05, 1.0])
    if ID == 1:
        tscl, toff = r.choice([1000.0, 2.5e5]), r.choice([0.0, -100.0, 32.0])
        pt = np.round((t0 + dt * np.arange(nt)) * tscl + toff).astype('<i4')
        b += struct.pack('<dd', tscl, toff)
        t = (pt.astype(float) - toff) / tscl
    else:
        b += struct.pack('<dd', t0, dt)
        t = t0 + dt * np.arange(nt)
    if ID != 3:
        scl = np.array([r.choice([1.0, 327.67, 1e-3, 2.5e4, r.uniform(0.1, 10)]) for _ in range(nc)], dtype='<f4')
        off = np.array([r.choice([0.0, -32768.0, 100.5, r.uniform(-1e4, 1e4)]) for _ in range(nc)], dtype='<f4')
        b += scl.tobytes() + off.tobytes()
        raw = r.np.randint(-32768, 32768, (nt, nc)).astype('<i2')
        v = (raw.astype(float) - off.astype(float)) / scl.astype(float)
    else:
        v = np.column_stack([r.arr(nt) for _ in range(nc)])
        raw = v.astype('<f8')
    b += struct.pack('<i', len(desc)) + desc.encode()
    for n in names:
        b += n.ljust(L).encode()
    for u in units:
        b += ('(' + u + ')').ljust(L).encode()
    if ID == 1:
        b += pt.tobytes()
    b += raw.tobytes()
    data = np.column_stack([t, v])
    return out({'f.outb': b}, 'f.outb', 'fast_output_file.FASTOutputFile',
               {'': ([n + '_[' + u + ']' for n, u in zip(names, units)], data, 1e-12, 1e-9)},
               lambda o: dict(names=list(o.info['attribute_names']), units=list(o.info['attribute_units']), desc=o.info['description'], data=o.data),
               dict(names=(names, 0, 0), units=(units, 0, 0), desc=(desc.strip(), 0, 0), data=(data, 1e-12, 1e-9)), cuts='bytes')


@ref_
def _out(r, size):
    nc, nt = 1 + r.randrange(7), r.rows(min(size, 2))
    names, units = _chan(r, nc)
    rows, v = table(r, nt, nc + 1, r.choice(['\t', '  ', ' ']))
    head = r.choice([[], ['', 'Predictions were generated on 12-Jan-2020 at 12:00:00 using OpenFAST', ' linked with ElastoDyn; AeroDyn', '', 'Description: ' + r.names(1)[0], '']])
    tail = r.choice([[], [], ['', 'This output file was closed on 19-Oct-2018 at 10:15:16.']])
    us = ['(' + u + ')' for u in units]
    return out({'f.out': eol(r, head + ['\t'.join(names), '\t'.join(us)] + rows + tail)}, 'f.out', 'fast_output_file.FASTOutputFile',
               {'': ([n + '_[' + u + ']' for n, u in zip(names, units)], v, 1e-14, 0)})


@ref_
def _elm(r, size):
    nc, nt = 2 + r.randrange(7), r.rows(min(size, 2), 2)
    names, units = _chan(r, nc)
    rows, v = table(r, nt, nc + 1, '    ', r.choice(['%.2E', '%.5e']))
    return out({'f.elm': eol(r, ['This file was generated by FAST(v7.02.00d-bjj, 20-Feb-2013) on 23-Oct-2018 at 13:35:57.', '    '.join(names), '    '.join('(' + u + ')' for u in units)] + rows)},
               'f.elm', 'fast_output_file.FASTOutputFile', {'': ([n + '_[' + u + ']' for n, u in zip(names, units)], v, 2e-12, 0)})


# ------------------------------------------------------------------------------------------------ HAWC2, Flex, Bladed
def _sel(scans, chans, T, form, names, units, descr, scale):
    L = ['_' * 120, '  Version ID : HAWC2MB 12.5', '%60sTime : 10:04:37' % '', '%60sDate : 24:01.2013' % '', '_' * 120, '  Result file : ./res.dat', '_' * 120,
         '   Scans    Channels    Time [sec]      Format', '  %9d %6d %14.3f       %s' % (scans, chans, T, form), '', '  Channel   Variable Description               ', '']
    for i in range(chans):
        L.append('%6d      %-30s %-10s %s' % (i + 1, names[i], units[i], descr[i]))
    L.append('_' * 120)
    if scale is not None:
        L.append('  Scale factors:')
        L += ['  %.5E' % s for s in scale]
    return ('\n'.join(L) + '\n').encode()


@ref_
def _h2bin(r, size):
    nc, nt = 1 + r.randrange(6), r.rows(size)
    names = r.names(nc + 1)
    units = [r.choice(['s', 'm/s', 'deg', 'kN', '-']) for _ in names]
    descr = [' '.join(r.names(3)) for _ in names]
    sc, scale = num(r, np.array([r.choice([1e-3, 0.5, r.uniform(1e-6, 1e2)]) for _ in names]), '%.5E')
    raw = r.np.randint(-32768, 32768, (nt, nc + 1)).astype('<i2')
    v = raw.astype(float) * scale
    ext = r.choice(['.dat', '.sel', '.dat'])
    return out({'res.sel': _sel(nt, nc + 1, nt * 0.1, 'BINARY', names, units, descr, scale), 'res.dat': raw.T.tobytes()}, 'res' + ext, 'hawc2_dat_file.HAWC2DatFile',
               {'': ([n + '_[' + u + ']' for n, u in zip(names, units)], v, 1e-13, 0)},
               lambda o: dict(descr=[str(s) for s in o.info['attribute_descr']]), dict(descr=(descr, 0, 0)), auto=ext == '.sel', cuts=('file', 'res.dat'))


@ref_
def _h2asc(r, size):
    nc, nt = 1 + r.randrange(6), r.rows(min(size, 2))
    names = r.names(nc + 1)
    units = [r.choice(['s', 'm/s', 'deg', 'kN', '-']) for _ in names]
    descr = [' '.join(r.names(3)) for _ in names]
    rows, v = table(r, nt, nc + 1, '  ')
    ext = r.choice(['.dat', '.sel'])
    return out({'res.sel': _sel(nt, nc + 1, nt * 0.1, 'ASCII', names, units, descr, None), 'res.dat': eol(r, rows)}, 'res' + ext, 'hawc2_dat_file.HAWC2DatFile',
               {'': ([n + '_[' + u + ']' for n, u in zip(names, units)], v, 1e-14, 0)}, auto=ext == '.sel', cuts=('lines', 'res.dat', 0, nt - 1))


@ref_
def _bhawc(r, size):
    nc, nt = 1 + r.randrange(6), r.rows(min(size, 2))
    names = r.names(nc + 1)
    units = ['[%s]' % r.choice(['s', 'm/s', 'deg', 'kN', '-', 'kN-m']) for _ in names]
    descr = [' '.join([r.choice(['Frc', 'Mom', 'Channel', 'Scans of', 'Rotor'])] + r.names(1 + r.randrange(3))) for _ in names]
    rows, v = table(r, nt, nc + 1, '  ')
    L = ['BHawC channel reference file (sel):', '+' + '=' * 137 + '+', '     BHawC command file :                                 NA.btc  2001.01.21  00:00:00  C:\\Res\\',
         ' Channel reference file :                                 NA.sel  2001.01.01  00:00:00  C:\\sim', '            Result file :                                 NA.dat  2001.01.01  00:00:00  C:\\sim',
         '', '+' + '=' * 137 + '+', '  Scans    Channels    Time [sec]                Coordinate convention: Siemens', '%7d %8d        %07.3f' % (nt, nc + 1, nt * 0.1), '',
         'Channel   Variable description                                                                 Label                 Unit', '']
    for i, (n, u, d) in enumerate(zip(names, units, descr)):
        L.append('%4d\t%s\t%s\t%s' % (i + 1, d, n, u) if size % 2 else '%4d  %-84s %-21s %s' % (i + 1, d, n, u))
    ext = r.choice(['.dat', '.sel'])
    return out({'res.sel': eol(r, L), 'res.dat': eol(r, rows)}, 'res' + ext, 'hawc2_dat_file.HAWC2DatFile',
               {'': ([n + '_' + u for n, u in zip(names, units)], v, 1e-13, 0)},
               lambda o: dict(descr=[str(s) for s in o.info['attribute_descr']]), dict(descr=(descr, 0, 0)), auto=ext == '.sel', cuts=('lines', 'res.sel', 12, 12 + nc))


@ref_
def _flex_res(r, size):
    ns, nt = 1 + r.randrange(6), r.rows(size)
    ver = r.choice([0, 2, 3])
    sens = r.random() < 0.6
    tmin, dt = r.choice([0.0, 0.5, 10.0]), r.choice([0.1, 0.05, 0.04, 1.0])
    if r.random() < 0.5:
        head = struct.pack('<i', 0) + struct.pack('<6i', 12, 6, 2019, 10, 33, 0) + b'a title'.ljust(40)
    else:
        head = struct.pack('<i', 0) + struct.pack('<i', 99) + b'x another title with more than fortyfour characters'.ljust(60)
    b = head + struct.pack('<2i', 0, 0) + struct.pack('<i', ns) + struct.pack('<%di' % ns, *range(1, ns + 1)) + struct.pack('<i', 0) + struct.pack('<i', ver)
    scale = np.array([r.choice([1.0, 0.01, r.uniform(1e-4, 2)]) for _ in range(ns)], dtype='<f4')
    b += struct.pack('<ff', tmin, dt) + scale.tobytes()
    raw = r.np.randint(-32768, 32768, (nt, ns)).astype('<i2')
    b += raw.T.tobytes() if ver == 3 else raw.tobytes()
    v = raw.astype(float) * scale.astype(float)
    files = {'f.res': b}
    if sens:
        names, units = r.names(ns), [r.choice(['(m)', '(kN)', '(deg)']) for _ in range(ns)]
        files['sensor'] = eol(r, ['Sensor list for f.res', ' No   forst  offset  korr. c  Volt    Unit   Navn    Beskrivelse------------'] +
                              ['%3d  1.000   0.000      1.00     0.00 %7s %-8s %s' % (i + 1, units[i], names[i], 'some text') for i in range(ns)])
    else:
        names, units = ['S%04d' % (i + 1) for i in range(ns)], ['(NA)'] * ns
    t = float(np.float32(tmin)) + np.arange(nt) * float(np.float32(dt))
    return out(files, 'f.res', 'flex_out_file.FLEXOutFile',
               {'': (['Time_[s]'] + [n + '_[' + u.strip('()') + ']' for n, u in zip(names, units)], np.column_stack([t, v]), 3e-6, 1e-9)})


def _bladed_pair(r, size, stem, no, nmaj, kind=None):
    nd = r.choice([2, 3])
    nsens = 1 + r.randrange(5)
    sec = 1 if nd == 2 else 1 + r.randrange(4)
    names = [x + ' ' + y for x, y in zip(r.names(nsens), r.names(nsens))]
    units = [r.choice([('FL', 'Nm'), ('F', 'N'), ('L', 'm'), ('A/T', 'rad/s'), ('P', 'W'), ('A', 'rad')]) for _ in range(nsens)]
    kind = kind or r.choice(['asc', 'r4', 'r8'])
    if kind == 'asc':
        rows, v = table(r, nmaj * sec, nsens, '  ', '%.7E')
        data = eol(r, rows)
    else:
        v = r.arr(nmaj * sec, nsens, kind=r.choice(['unit', 'moderate', 'ints'])) + 1.5
        d = v.astype('<f4' if kind == 'r4' else '<f8')
        v = d.astype(float)
        data = d.tobytes()
        # the reader looks at the first line to tell binary from text: real binary records hold control characters there
        if b'\x00' not in data.split(b'\n')[0]:
            v = v.copy(); v.flat[0] = 1.0
            d = v.astype(d.dtype); data = d.tobytes()
    dt, t0 = r.choice([0.05, 0.1, 1.0]), r.choice([0.0, 10.0])
    secs = [round(x, 2) for x in np.cumsum(r.np.uniform(1, 9, sec))]
    cat = ' '.join(r.names(2))
    L = ['FILE\t%s.$%02d' % (stem, no), 'ACCESS\tS', 'FORM\tF', 'RECL\t4', 'FORMAT\tR*%d' % (8 if kind == 'r8' else 4), "CONTENT\t'POWPROD'", "CONFIG\t'STATIONARY'", 'NDIMENS\t%d' % nd,
         'DIMENS\t%d\t%s%d' % (nsens, '' if nd == 2 else '%d\t' % sec, nmaj), "GENLAB\t'%s'" % cat, 'VARIAB\t' + ' '.join("'%s'" % n for n in names), 'VARUNIT\t' + ' '.join(u[0] for u in units)]
    if nd == 3:
        L += ["AXISLAB\t'Distance along blade'", 'AXIUNIT\t L', 'AXIMETH\t3', 'AXIVAL\t' + ' '.join('%.7f' % s for s in secs)]
    L += ["AXISLAB\t'Time'", 'AXIUNIT\tT', 'AXIMETH\t2', 'MIN \t%.7E' % t0, 'STEP\t%.7E' % dt, 'NVARS\t0']
    v = v.reshape(nmaj, sec, nsens)
    if nd == 3:
        cols = ['%sm-%s [%s]' % (str(np.around(float(s), 2)), n, u[1]) for s in secs for n, u in zip(names, units)]
        val = v.reshape(nmaj, sec * nsens)
    else:
        cols = ['%s [%s]' % (n, u[1]) for n, u in zip(names, units)]
        val = v[:, 0, :]
    t = np.arange(nmaj) * dt + t0
    return {'%s.%%%02d' % (stem, no): eol(r, L), '%s.$%02d' % (stem, no): data}, cols, val, t, cat, kind


@ref_
def _bladed(r, size):
    n = r.rows(min(size, 2))
    f, cols, val, t, cat, kind = _bladed_pair(r, size, 'run', 4, n)
    tgt = r.choice(['run.$04', 'run.%04'])
    return out(f, tgt, 'bladed_out_file.BladedFile', {'': (['Time [s]'] + cols, np.column_stack([t, val]), 1e-12, 1e-9)},
               cuts=('file', 'run.$04') if kind != 'asc' else ('lines', 'run.$04', 1, f['run.$04'].count(b'\n') - 1) if f['run.$04'].count(b'\n') > 1 else None)


@ref_
def _bladed_pj(r, size):
    n = r.rows(min(size, 2))
    files, C, V = {'run.$PJ': b'project\n'}, None, None
    nf = 2 + r.randrange(3)
    for no in sorted(r.sample(range(1, 60), nf)):
        f, cols, val, t, cat, kind = _bladed_pair(r, size, 'run', no, n)
        files.update(f)
        if C is None:
            C, V = ['Time [s]'] + cols, np.column_stack([t, val])
        else:
            C, V = C + cols, np.column_stack([V, val])
    if len(set(C)) != len(C):
        return _bladed_pj(r, size)
    return out(files, 'run.$PJ', 'bladed_out_file.BladedFile', {'': (C, V, 1e-12, 1e-9)})


# ------------------------------------------------------------------------------------------------ wind
@ref_
def _bts(r, size):
    nt, ny, nz, ntw = 1 + r.randrange(6), 1 + r.randrange(5), 1 + r.randrange(5), r.choice([0, 0, 1, 2, 3])
    if size >= 2:
        nt, ny, nz = 5 + r.randrange(40), 3 + r.randrange(12), 3 + r.randrange(12)
    dz, dy, dt = r.choice([1.0, 2.5, 10.0]), r.choice([1.0, 5.0]), r.choice([0.05, 0.5])
    ID = r.choice([7, 8])
    scl = np.array([r.choice([1000.0, 327.67, r.uniform(10, 2000)]) for _ in range(3)], dtype='<f4')
    off = np.array([r.choice([0.0, -32768.0, r.uniform(-2e4, 2e4)]) for _ in range(3)], dtype='<f4')
    info = r.choice(['', 'made by the simulator', 'y' * 200])
    zb, zh, uh = r.choice([0.0, 12.5]), 90.0, 11.25
    b = struct.pack('<h4l', ID, nz, ny, ntw, nt) + struct.pack('<6f', dz, dy, dt, uh, zh, zb)
    b += struct.pack('<6f', *[x for p in zip(scl, off) for x in p]) + struct.pack('<l', len(info)) + info.encode()
    raw = r.np.randint(-32768, 32768, (nt, nz, ny, 3)).astype('<i2')
    tw = r.np.randint(-32768, 32768, (nt, ntw, 3)).astype('<i2')
    for i in range(nt):
        b += raw[i].tobytes() + tw[i].tobytes()
    s, o_ = scl.astype(float), off.astype(float)
    u = ((raw.astype(float) - o_) / s).transpose(3, 0, 2, 1)
    uT = ((tw.astype(float) - o_) / s).transpose(2, 0, 1)
    y = np.arange(ny) * dy
    return out({'f.bts': b}, 'f.bts', 'turbsim_file.TurbSimFile', None,
               lambda o: {k: o[k] for k in ('u', 'uTwr', 'y', 'z', 't', 'dt', 'ID', 'info', 'zRef', 'uRef', 'zTwr')},
               dict(u=(u, 1e-9, 1e-9), uTwr=(uT, 1e-9, 1e-9), y=(y - y.mean(), 1e-6, 1e-9), z=(zb + np.arange(nz) * dz, 1e-6, 1e-9), t=(np.arange(nt) * dt, 1e-6, 1e-9),
                    dt=(dt, 1e-6, 0), ID=(ID, 0, 0), info=(info, 0, 0), zRef=(zh, 1e-6, 0), uRef=(uh, 1e-6, 0), zTwr=(zb - np.arange(ntw) * dz, 1e-6, 1e-9)), cuts='bytes')


@ref_
def _mann(r, size):
    nx, ny, nz = 1 + r.randrange(6), 1 + r.randrange(6), 1 + r.randrange(6)
    if size >= 2:
        nx, ny, nz = 8 + r.randrange(24), 4 + r.randrange(12), 4 + r.randrange(12)
    a = r.arr(nx, ny, nz, kind=r.choice(['unit', 'moderate', 'scaled'])).astype('<f4')
    n = 'box_%dx%dx%d%s' % (nx, ny, nz, r.choice(['.u', '.v', '.w', '.bin']))
    return out({n: a.tobytes()}, n, 'mannbox_file.MannBoxFile', None, lambda o: dict(field=o['field']), dict(field=(a[:, ::-1, :].astype(float), 0, 0)), cuts='bytes')


@ref_
def _wnd(r, size):
    n = r.rows(size, 2)
    rows, v = table(r, n, 8, r.choice([' ', '\t', '   ']), '%.4f', ('unit', 'ints', 'moderate', 'const'))
    cols = ['Time_[s]', 'WindSpeed_[m/s]', 'WindDir_[deg]', 'VertSpeed_[m/s]', 'HorizShear_[-]', 'VertShear_[-]', 'LinVShear_[-]', 'GustSpeed_[m/s]']
    head = ['! Deterministic Wind file', '! Time\tWind\tWind\tVert.\tHoriz.\tVert.\tLinV\tGust', '!\tSpeed\tDir\tSpeed\tShear\tShear\tShear\tSpeed'][:1 + r.randrange(3)]
    return out({'f.wnd': eol(r, head + rows)}, 'f.wnd', 'fast_wind_file.FASTWndFile', {'': (cols, v, 2e-12, 1e-300)})


@ref_
def _ts(r, size):
    npt, nco, nt = 1 + r.randrange(3), 1 + r.randrange(3), r.rows(size)
    prow, P = table(r, npt, 2, '   ', '%.3f', ('moderate',))
    rows, v = table(r, nt, 1 + npt * nco, '\t')
    ID = 1 + r.randrange(npt)
    L = ['--------------TurbSim v2.00.* User Time Series Input File-----------------------', 'Comment', '-' * 80,
         '          %d nComp - Number of velocity components in the file' % nco, '          %d nPoints - Number of time series points contained in this file (-)' % npt,
         '          %d RefPtID - Index of the reference point (1-nPoints)' % ID, '     Pointyi Pointzi ! nPoints listed in order of increasing height', '       (m)     (m)'] + prow + \
        ['--------Time Series' + '-' * 60, 'Elapsed Time            Point01u', '       (s)             (m/s)'] + rows
    return out({'f.txt': eol(r, L)}, 'f.txt', 'turbsim_ts_file.TurbSimTSFile', None, lambda o: dict(nComp=o['nComp'], ID=o['ID'], P=o['Points'], d=o['data']),
               dict(nComp=(nco, 0, 0), ID=(ID, 0, 0), P=(P, 1e-14, 0), d=(v, 1e-14, 0)), auto=False)


# ------------------------------------------------------------------------------------------------ HAWC2 inputs, HAWCStab2
@ref_
def _ae(r, size):
    L, sets = [], []
    ns = 1 + r.randrange(3)
    L.append('%d  number of sets' % ns)
    for i in range(ns):
        n = r.rows(min(size, 2))
        rows, v = table(r, n, 3, ' ', None, ('moderate', 'unit'))
        ids = [1 + r.randrange(4) for _ in range(n)]
        L += ['%d %d' % (i + 1, n)] + [x + ' %d ;' % k for x, k in zip(rows, ids)]
        sets.append(np.column_stack([v, np.array(ids, dtype=float)]))
    last = len(L) - 1
    return out({'f.ae': eol(r, L)}, 'f.ae', 'hawc2_ae_file.HAWC2AEFile', None,
               lambda o: dict(n=len(o.data.ae_sets), **{'s%d' % k: v for k, v in o.data.ae_sets.items()}),
               dict(n=(ns, 0, 0), **{'s%d' % (i + 1): (s, 1e-14, 0) for i, s in enumerate(sets)}), cuts=('lines', 'f.ae', 2, last))


@ref_
def _pc(r, size):
    ns = 1 + r.randrange(2)
    L, exp = ['%d airfoil sets' % ns], {}
    for i in range(ns):
        npf = 1 + r.randrange(3)
        L.append('%d' % npf)
        th = sorted(r.sample(range(10, 101), npf))
        for j in range(npf):
            n = r.rows(min(size, 2))
            rows, v = table(r, n, 4, ' ', None, ('moderate', 'unit'))
            L += ['%d %d %.2f text' % (j + 1, n, th[j])] + rows
            exp['p%d_%d' % (i + 1, j)] = (v, 1e-14, 0)
        exp['t%d' % (i + 1)] = ([float(x) for x in th], 1e-12, 0)

    def get(o):
        d = {}
        for k, (t, p) in o.data.pc_sets.items():
            d['t%d' % k] = t
            for j, x in enumerate(p):
                d['p%d_%d' % (k, j)] = x
        return d
    return out({'f.pc': eol(r, L)}, 'f.pc', 'hawc2_pc_file.HAWC2PCFile', None, get, exp, cuts=('lines', 'f.pc', 3, len(L) - 1))


@ref_
def _st(r, size):
    nm = 1 + r.randrange(2)
    L, exp, keep = ['%d number of sets, Nset' % nm, 'some turbine', '-' * 60], {}, []
    for i in range(nm):
        L.append('#%d body %d' % (i + 1, i + 1))
        for j in range(1 + r.randrange(2)):
            n = r.rows(min(size, 1), 2)
            rows, v = table(r, n, 19, ' ', '%.6e')
            keep += range(len(L) + 1, len(L) + 1 + n)
            L += ['$%d %d some text' % (j + 1, n)] + rows
            if r.random() < 0.4:
                L.append('r m x_cg y_cg ri_x ri_y x_sh y_sh E G I_x I_y I_p k_x k_y A pitch x_e y_e')
            exp['%d_%d' % (i + 1, j + 1)] = (v, 1e-14, 0)
    return out({'f.st': eol(r, L)}, 'f.st', 'hawc2_st_file.HAWC2StFile', None,
               lambda o: {'%d_%d' % (i, j): a for i, s in o.data.main_data_sets.items() for j, a in s.items()}, exp, cuts=('linelist', 'f.st', keep))


@ref_
def _htc(r, size):
    """sections in sections, repeated names, lines of comments, output sensors, parts in other files, structural files next to it"""
    taken = set()

    def word():
        while True:
            w = r.names(1)[0]
            if not w.lower().startswith(('begin', 'end', 'exit', 'continue')) and w.lower() not in taken | {'filename', 'buffer', 'data_format', 'name', 'sec', 'nsec'}:
                taken.add(w.lower())
                return w

    def value():
        return r.choice([r.randrange(-100, 1000), round(r.uniform(-10, 10), 4), './res/%s.dat' % word(), word(), r.uniform(-1, 1) * 1e-6, float(r.randrange(50))])

    def text(v):
        if isinstance(v, float) and v == int(v) and r.random() < 0.5:
            return r.choice(['%d', '%.1f', '%.2e']) % v
        return v if isinstance(v, str) else repr(v)

    def com():
        return r.choice(['', '', '', '\ta comment', ' a comment; with another'])

    def line(L, exp, path, ind, name, vals):
        sep = r.choice([' ', '\t', '  '])
        L.append(ind + name + sep + sep.join(text(v) for v in vals) + r.choice(['', ' ']) + ';' + com())
        exp[path] = (['n', float(v)] if not isinstance(v, str) else ['s', v] for v in vals)
        exp[path] = list(exp[path])
        if r.random() < 0.1:
            L.append(ind + '; a line of comments')

    def section(L, exp, path, ind, depth):
        """the lines of a section; names may be repeated"""
        seen = {}
        for _ in range(1 + r.randrange(4)):
            nm = r.choice(sorted(seen)) if seen and r.random() < 0.25 else word()
            k = seen[nm] = seen.get(nm, 0) + 1
            key = nm if k == 1 else '%s__%d' % (nm, k)
            if r.random() < 0.1:
                L.append(r.choice(['', '   ']))
            if depth and nm.islower() and r.random() < 0.4:
                block(L, exp, path + '/' + key, ind, nm, lambda i: section(L, exp, path + '/' + key, i, depth - 1))
            else:
                line(L, exp, path + '/' + key, ind, nm, [value() for _ in range(r.randrange(1, 4))])

    def block(L, exp, path, ind, name, body):
        up = r.choice([str, str, str.upper])
        L.append('%s%s %s;%s' % (ind, up('begin'), up(name), com()))
        body(ind + '  ')
        L.append('%s%s %s;%s' % (ind, up('end'), up(name), com()))

    exp, frames, files, sensors = {}, {}, {}, {}
    top = []          # the lines of each section of the file
    for s in ('simulation', 'wind', 'hydro', 'aerodrag')[:1 + r.randrange(4)]:
        L = []
        block(L, exp, s, '', s, lambda i: section(L, exp, s, i, 2))
        top.append(L)
    bodies = [word().lower() for _ in range(1 + r.randrange(3))]
    L = []
    cdef = {}
    st = None
    if r.random() < 0.7:
        while st is None or not all(k.startswith(('1_', '2_')) for k in st['expect']):
            st = _st(r, min(size, 1))
        stname = r.choice(['data_%s.st', './%s_st.st', 'sub/%s.st']) % word().lower()
        files[stname[2:] if stname[:2] == './' else stname] = st['files'][st['target']]

    def nhs(ind):
        for b, nm in enumerate(bodies):
            key = 'main_body' if b == 0 else 'main_body__%d' % (b + 1)
            p = 'new_htc_structure/' + key

            def body(i):
                line(L, exp, p + '/name', i, 'name', [nm])
                if st and (b == 0 or r.random() < 0.5):
                    m = r.choice(sorted(st['expect']))
                    plain = m == '1_1' and r.random() < 0.5

                    def tim(i2):
                        line(L, exp, p + '/timoschenko_input/filename', i2, 'filename', [stname])
                        if not plain:
                            line(L, exp, p + '/timoschenko_input/set', i2, 'set', [int(x) for x in m.split('_')])
                    block(L, exp, p, i, 'timoschenko_input', tim)
                    frames[nm + '_st'] = (None, np.asarray(st['expect'][m][0]), 1e-14, 0)
                n = 1 + r.rows(min(size, 1))
                c = np.round(np.column_stack([np.arange(1, n + 1)] + [r.np.uniform(-5, 80, n) for _ in range(4)]), 5)
                cdef[nm] = (c, 1e-14, 0)
                frames[nm + '_c2'] = (['z_[m]', 'x_[m]', 'y_[m]', 'twist_[deg]'], c[:, [3, 1, 2, 4]], 1e-14, 0)

                def c2(i2):
                    L.append('%snsec %d;' % (i2, n))
                    rows = list(range(n))
                    if r.random() < 0.2:
                        r.shuffle(rows)
                    for k in rows:
                        L.append('%ssec %d %s;%s' % (i2, k + 1, ' '.join(repr(float(x)) for x in c[k, 1:]), com()))
                block(L, exp, p, i, 'c2_def', c2)
                section(L, exp, p, i, 1)
            block(L, exp, p, ind, 'main_body', body)
    block(L, exp, '', '', 'new_htc_structure', nhs)
    top.append(L)
    for nm in ['output'] * r.randrange(2) + ['output_at_time aero %s' % r.choice([15.0, 0.5, 100.25])] * (r.random() < 0.3):
        S = sensors[nm.split()[0]] = []
        L = []

        def outp(i):
            line(L, exp, nm.split()[0] + '/filename', i, 'filename', ['./res/' + word()])
            if r.random() < 0.5:
                line(L, exp, nm.split()[0] + '/data_format', i, 'data_format', ['hawc_binary'])
            for _ in range(1 + r.randrange(5)):
                t, s, v = r.choice(['general', 'mbdy', 'aero', 'wind']), r.choice(['time', 'forcevec', 'alfa', 'free_wind', 'velocity']), [value() for _ in range(r.randrange(4))]
                c = r.choice(['', '', 'a comment', 'only one'])
                L.append('%s%s %s %s;%s' % (i, t, s, ' '.join(text(x) for x in v), c))
                S.append([t, s, [['n', float(x)] if not isinstance(x, str) else ['s', x] for x in v], c])
        block(L, exp, '', '', nm, outp)
        top.append(L)
    # parts of the file in others, also in several steps
    main = ['; a comment line', ';', ';and another'][:r.randrange(4)]
    parts = list(top)
    if st and r.random() < 0.6:
        k = r.randrange(len(parts))
        nest = r.random() < 0.4
        inner = list(parts[k])
        n1 = '%s.htc' % word().lower()
        if nest:
            n2 = r.choice(['%s.htc', 'sub/%s.htc']) % word().lower()
            files[n2] = eol(r, inner + r.choice([[], ['exit;']]))
            inner = ['; the inner one', 'continue_in_file %s ; here' % n2]
        files[n1] = eol(r, inner + r.choice([[], ['exit ;', 'begin never;', 'end never;']]))
        parts[k] = ['%scontinue_in_file %s%s;' % (r.choice(['', '  ']), r.choice(['', './']), n1 if r.random() < 0.7 else n1[:-4] + '.HTC')]
    for p in parts:
        main += p
        if r.random() < 0.2:
            main.append('; between sections')
    main += r.choice([['exit;'], ['exit;'], ['exit;', 'begin never;', 'end never;'], []])
    files['f.htc'] = eol(r, main)

    def seen(v):
        return ['s', v] if isinstance(v, str) else ['n', float(v)]

    def get(o):
        d = {}
        for k in exp:
            x = o.data
            for q in k.split('/'):
                x = x.contents[q]
            d[k] = repr([seen(v) for v in x.values])
        for b, sec in o.bodyDict.items():
            d['c2 ' + b] = o.bodyC2(sec)
        for k in sensors:
            d['sensors ' + k] = repr([[x.type, x.sensor, [seen(v) for v in x.values], x.comments] for x in o.data[k].sensors])
        d['bodies'] = list(o.bodyNames)
        d['top'] = [k for k in o.data.keys() if k.split('__')[0]]
        d['inputs'] = sorted(os.path.basename(x) for x in o.data.htc_inputfiles)
        return d
    want = {k: (repr(v), 0, 0) for k, v in exp.items()}
    want.update({'c2 ' + b: v for b, v in cdef.items()})
    want.update({'sensors ' + k: (repr(v), 0, 0) for k, v in sensors.items()})
    want['bodies'] = (bodies, 0, 0)
    want['top'] = (sorted({k.split('/')[0] for k in exp} | {'output' for k in sensors if k == 'output'}, key=[l[0].split(None, 1)[1].split(';')[0].split()[0].lower() for l in top].index), 0, 0)
    want['inputs'] = (sorted([os.path.basename(f) for f in files if f.endswith('.htc') and f != 'f.htc']), 0, 0)
    return out(files, 'f.htc', 'hawc2_htc_file.HAWC2HTCFile', frames, get, want)


@ref_
def _pwr(r, size):
    n = r.rows(min(size, 2))
    cols = [x + ' [' + r.choice(['m/s', 'kW', '-', 'deg']) + ']' for x in r.names(15)]
    rows, v = table(r, n, 15, ' ', '%20.10E')
    return out({'f.pwr': eol(r, [' # ' + ''.join('%15s%3d' % (c, i + 1) for i, c in enumerate(cols))] + rows)}, 'f.pwr', 'hawcstab2_pwr_file.HAWCStab2PwrFile',
               {'': (None, v, 1e-14, 0)})


@ref_
def _ind(r, size):
    n = r.rows(min(size, 2))
    nc = r.choice([38, 14, 18])
    rows, v = table(r, n, nc, ' ', '%14.6E')
    cols = [x[:5] + ' [m]' for x in r.names(nc, 5)]
    w = r.randrange(3000, 25000)
    return out({'case_u%d.ind' % w: eol(r, [' # ' + ''.join('%12s%2d' % (c, i + 1) for i, c in enumerate(cols))] + rows)}, 'case_u%d.ind' % w,
               'hawcstab2_ind_file.HAWCStab2IndFile', {'': (None, v, 1e-14, 0)}, lambda o: dict(wsp=o.wsp), dict(wsp=(w / 1000., 1e-14, 0)))


@ref_
def _cmb(r, size):
    n, nm, k = r.rows(min(size, 2), 2), 1 + r.randrange(5), r.choice([1, 2, 3])
    rows, v = table(r, n, 1 + nm * k, ' ', '%14.6E')
    c = ['Wind_[m/s]'] + [p + str(i + 1) for p in 'FDR'[:k] for i in range(nm)]
    return out({'f.cmb': eol(r, ['# Mode number: ' + ' '.join(str(i + 1) for i in range(nm))] + rows)}, 'f.cmb', 'hawcstab2_cmb_file.HAWCStab2CmbFile', {'': (c, v, 2e-12, 0)})


# ------------------------------------------------------------------------------------------------ others
@ref_
def _csv(r, size):
    nr, nc = r.rows(size, 2), 2 + r.randrange(5)
    sep = r.choice([',', ';', '\t', ' '])
    if r.randrange(12) == 0:
        nr = 1
    rows, v = table(r, nr, nc, sep)
    names = r.names(nc)
    head = r.choice([[], [], ['# a comment about ' + r.names(1)[0]], ['! first', '! second']])
    kind = r.choice(['names', 'names', 'quoted', 'none'])
    shown = names
    if kind == 'quoted':
        names = [n + r.choice(['', '', ' speed', sep + 'x', ' (m)', '_é']) for n in names]
        shown = ['"%s"' % n if n not in names[:1] or r.random() < 0.7 or not n.isalnum() else n for n in names]
    L = head + ([sep.join(shown)] if kind != 'none' else []) + rows
    return out({'f.csv': eol(r, L, r.random() < 0.8)}, 'f.csv', 'csv_file.CSVFile', {'': (names if kind != 'none' else None, v, 2e-12, 1e-300)})


@ref_
def _tecplot(r, size):
    nr, nc = r.rows(min(size, 2)), 1 + r.randrange(6)
    names = r.names(nc)
    rows, v = table(r, nr, nc, '  ', '%.7E')
    L = (['TITLE = "%s"' % r.names(1)[0]] if r.random() < 0.5 else []) + ['VARIABLES = ' + ','.join('"%s"' % n for n in names)] + rows
    return out({'f.dat': eol(r, L)}, 'f.dat', 'tecplot_file.TecplotFile', {'': (names, v, 1e-14, 0)})


@ref_
def _rosco(r, size):
    npi, nt = 2 + r.randrange(6), 2 + r.randrange(6)
    ps, p = num(r, np.sort(r.np.uniform(-5, 30, npi)), '%.2f')
    tss, t = num(r, np.sort(r.np.uniform(1, 15, nt)), '%.2f')
    L = ['# ----- Rotor performance tables for the turbine ----- ', '# ------------ Written by the simulator ------------ ', '', '# Pitch angle vector - x axis (matrix columns) (deg)', '   '.join(ps),
         '# TSR vector - y axis (matrix rows) (-)', '   '.join(tss), '# Wind speed vector - z axis (m/s)', '11.4    ', '']
    exp = dict(pitch=(p, 1e-14, 0), TSR=(t, 1e-14, 0), WS=([11.4], 1e-14, 0))
    for k, n in (('CP', 'Power'), ('CT', ' Thrust'), ('CQ', ' Torque')):
        rows, v = table(r, nt, npi, '   ', '%.6f', ('unit',))
        L += ['# %s coefficient' % n, ''] + rows + ['', '']
        exp[k] = (v, 1e-14, 0)
    return out({'f.txt': eol(r, L)}, 'f.txt', 'rosco_performance_file.ROSCOPerformanceFile', None, lambda o: {k: o[k] for k in exp}, exp, auto=False, cuts=('lines', 'f.txt', 1, len(L) - 3))


@ref_
def _vtk(r, size):
    nx, ny, nz = 2 + r.randrange(4), 2 + r.randrange(4), 1 + r.randrange(3)
    n = nx * ny * nz
    rows, v = table(r, n, 3, ' ', '%.5f', ('moderate', 'unit'))
    sp = [r.choice([1.0, 10.0, 2.5]) for _ in range(3)]
    org = [r.choice([0.0, -5.0, 12.5]) for _ in range(3)]
    L = ['# vtk DataFile Version 3.0', 'a slice', 'ASCII', 'DATASET STRUCTURED_POINTS', 'DIMENSIONS %d %d %d' % (nx, ny, nz), 'ORIGIN %g %g %g' % tuple(org),
         'SPACING %g %g %g' % tuple(sp), 'POINT_DATA %d' % n, 'VECTORS Vel float'] + rows
    return out({'f.vtk': eol(r, L)}, 'f.vtk', 'vtk_file.VTKFile', None, lambda o: dict(v=o.point_data['Vel'], x=o.xp_grid, y=o.yp_grid, z=o.zp_grid),
               dict(v=(v, 2e-6, 1e-6), x=(org[0] + sp[0] * np.arange(nx), 1e-9, 1e-9), y=(org[1] + sp[1] * np.arange(ny), 1e-9, 1e-9), z=(org[2] + sp[2] * np.arange(nz), 1e-9, 1e-9)), cuts=('lines', 'f.vtk', 9, 8 + n))


LIN_X = [('1st tower fore-aft bending mode DOF (internal DOF index = DOF_TFA1)', 'm', 'qt1FA'), ('Variable speed generator DOF (internal DOF index = DOF_GeAz)', 'rad', 'psi_rot'),
         ('2nd tower fore-aft bending mode DOF (internal DOF index = DOF_TFA2)', 'm', 'qt2FA')]
LIN_U = [('IfW Extended input: horizontal wind speed (steady/uniform wind), m/s', 'WS_[m/s]'), ('IfW Extended input: vertical power-law shear exponent, -', 'alpha_[-]'),
         ('IfW Extended input: propagation direction, rad', 'WD_[rad]'), ('ED Blade 2 pitch command, rad', 'B2pitch_[rad]'), ('ED Yaw moment, Nm', 'Yawmoment_[Nm]'), ('ED Generator torque, Nm', 'Qgen_[Nm]'),
         ('ED Extended input: collective blade-pitch command, rad', 'PitchColl_[rad]'), ('ED Blade 1 pitch command, rad', 'B1pitch_[rad]')]
LIN_Y = [('AD RtAeroMxh, (N-m)', 'ADRtAeroMxh_[Nm]'), ('ED TTDspFA, (m)', 'TTDspFA_[m]'), ('ED TwrBsMyt, (kN-m)', 'TwrBsMyt_[kNm]'), ('IfW Wind1VelX, (m/s)', 'Wind1VelX_[m/s]'),
         ('ED NcIMUTAxs, (m/s^2)', 'NcIMUTAxs_[m/s^2]'), ('ED Azimuth, (deg)', 'Azimuth_[deg]'), ('ED RotThrust, (kN)', 'RotThrust_[kN]'), ('ED RotSpeed, (rpm)', 'RotSpeed_[rpm]'), ('ED GenSpeed, (rpm)', 'GenSpeed_[rpm]')]
LIN_DOF = ['Sg', 'Sw', 'Hv', 'R', 'P', 'Y', 'TFA1', 'TSS1', 'TFA2', 'TSS2', 'Yaw', 'RFrl', 'GeAz', 'DrTr', 'TFrl', 'BF11', 'BE11', 'BF12', 'BF21', 'BE21', 'BF22', 'BF31', 'BE31', 'BF32']


@ref_
def _lin(r, size):
    nq = r.choice([0, 1, 1, 2, 3])
    q = r.sample(LIN_X, nq)
    dt = {'m': ('m/s', 'm/s^2'), 'rad': ('rad/s', 'rad/s^2')}
    first = 'First time derivative of '
    x = [('ED %s, %s' % (d, u), '%s_[%s]' % (s, u)) for d, u, s in q] + [('ED %s%s, %s' % (first, d, dt[u][0]), 'd_%s_[%s]' % (s, dt[u][0])) for d, u, s in q]
    xd = [('%sED %s, %s' % (first, d, dt[u][0]), 'd_%s_[%s]' % (s, dt[u][0])) for d, u, s in q] + [
        ('%sED %s%s, %s' % (first, first, d, dt[u][0] + '/s'), 'dd_%s_[%s]' % (s, dt[u][1])) for d, u, s in q]
    u, y = r.sample(LIN_U, 1 + r.randrange(len(LIN_U))), r.sample(LIN_Y, 1 + r.randrange(len(LIN_Y)))
    nx, nu, ny = len(x), len(u), len(y)
    order, jac = r.choice([False, False, True]), r.choice([False, False, True])
    exp, L, keep = {}, ['', 'Linearized model: Predictions were generated on 16-Feb-2020 at 10:36:41 using OpenFAST', ' linked with  NWTC Subroutine Library; ElastoDyn', '',
                        'Description from the FAST input file: test', '', 'Simulation information:', '   Simulation time:                   100.0000 s'], []
    for k, t, unit in (('RotSpeed', 'Rotor Speed:      ', 'rad/s'), ('Azimuth', 'Azimuth:          ', 'rad'), ('WindSpeed', 'Wind Speed:       ', 'm/s')):
        exp[k] = (None, 0, 0)
        if r.randrange(4):
            v = '%.4f' % r.uniform(0.01, 20)
            L += ['   %s                   %s %s' % (t, v, unit)]
            exp[k] = (float(v), 0, 0)
    L += ['   Number of continuous states:         %d' % nx, '   Number of discrete states:           0',
          '   Number of constraint states:         0', '   Number of inputs:                    %d' % nu, '   Number of outputs:                  %d' % ny, '   Jacobians included in this file?    %s' % ('Yes' if jac else 'No'), '']
    for title, k, names in (('continuous states', 'x', x), ('continuous state derivatives', 'xdot', xd), ('inputs', 'u', u), ('outputs', 'y', y)):
        n = len(names)
        if not n:
            continue
        s, v = num(r, r.arr(n, kind=r.choice(['unit', 'scaled'])), '%.8E')
        rot = [r.choice('TF') for _ in names]
        od = [r.choice([0, 1, 2]) for _ in names]
        keep += range(len(L) + 1, len(L) + 3 + n)
        L += ['Order of %s:' % title, '   Row/Column Operating Point                                    Rotating Frame? %sDescription' % ('Derivative Order ' if order else ''),
              '   ---------- ---------------                                    --------------- -----------']
        for i in range(n):
            op = s[i] if k != 'y' or r.randrange(4) else '%s, %.5E, %.5E' % (s[i], r.uniform(-3, 3), r.uniform(-3, 3))       # orientations come as three angles
            L += ['%11d %18s %40s        %s%s' % (i + 1, op, rot[i], '%12d      ' % od[i] if order else '', names[i][0])]
        L += ['']
        exp[k] = (v, 1e-14, 0)
        exp[k + ' rotating'], exp[k + ' order'] = (rot, 0, 0), (od if order else [-1] * n, 0, 0)
        exp[k + ' description'] = ([a for a, _ in names], 0, 0)
        exp[k + ' short'] = ([b for _, b in names], 0, 0)
        exp['df ' + k], exp['df %s columns' % k] = (v.reshape(1, -1), 1e-14, 0), ([b for _, b in names], 0, 0)
    mats = [('A', x, x), ('B', x, u), ('C', y, x), ('D', y, u)]
    if jac:
        L += ['Jacobian matrices:', '']
        mats = r.choice([[('dUdu', u, u), ('dUdy', u, y)], [('dUdu', u, u)]]) + mats
    else:
        L += ['Linearized state matrices:', '']
    if r.randrange(5) == 0:
        mats.append(('M', [(d, d) for d in LIN_DOF], [(d, d) for d in LIN_DOF]))
    for k, a, b in mats:
        if not a or not b:
            continue
        rows, v = table(r, len(a), len(b), '  ', '%.8E')
        keep += range(len(L) + 1, len(L) + 1 + len(a))
        L += ['ED M: ' + '  '.join(LIN_DOF) if k == 'M' else '%s: %d x %d' % (k, len(a), len(b))] + ['   ' + t for t in rows] + ['']
        exp[k] = exp['df ' + k] = (v, 1e-14, 0)
        exp['df %s index' % k], exp['df %s columns' % k] = ([t for _, t in a], 0, 0), ([t for _, t in b], 0, 0)
    exp['frames'] = (sorted(k[3:] for k in exp if k.startswith('df ') and ' ' not in k[3:]), 0, 0)

    def get(o):
        g = dict(o)
        for k, f in (('x', o.xdescr), ('xdot', o.xdotdescr), ('u', o.udescr), ('y', o.ydescr)):
            if k in o:
                g.update({k + ' rotating': o[k + '_info']['RotatingFrame'], k + ' order': o[k + '_info']['DerivativeOrder'], k + ' description': o[k + '_info']['Description'], k + ' short': f()})
        df = o.toDataFrame()
        g['frames'] = sorted(df)
        for k, d in df.items():
            g.update({'df ' + k: d.values, 'df %s columns' % k: [str(c) for c in d.columns], 'df %s index' % k: [str(c) for c in d.index]})
        return g
    return out({'f.lin': eol(r, L)}, 'f.lin', 'fast_linearization_file.FASTLinearizationFile', None, get, exp, cuts=('linelist', 'f.lin', keep))


@ref_
def _bmodes(r, size):
    nm, n = 1 + r.randrange(5), 2 + r.randrange(6)
    L = ['Results generated by BModes (v1.03.01, 25-Sept-2007, compiled using double precision) on 24-Dec-2021 at 12:22:43.', 'a tower', '=' * 80, '', '            tower frequencies & mode shapes',
         '            --- only first   %d modes printed' % nm, '', '']
    fr, sh = [], []
    for i in range(nm):
        f = '%.6E' % r.uniform(0.1, 9)
        fr.append(float(f))
        rows, v = table(r, n, 6, '\t', '%9.6f', ('unit',))
        sh.append(v)
        L += [' -------- Mode No.   %d  (freq = %s Hz)' % (i + 1, f), '', 'span_loc\ts-s disp\ts-s slope\tf-a disp\tf-a slope\ttwist', ''] + rows + ['', '']
    L += ['=' * 80]
    return out({'f.out': eol(r, L)}, 'f.out', 'bmodes_out_file.BModesOutFile', None, lambda o: dict(f=o['frequencies'], **{'m%d' % i: x for i, x in enumerate(o['mode_shapes'])}),
               dict(f=(fr, 1e-12, 0), **{'m%d' % i: (v, 1e-14, 0) for i, v in enumerate(sh)}))


@ref_
def _flex_blade(r, size):
    ver = r.choice([0, 1, 2, 3])
    n = r.rows(min(size, 1), 2)
    ncs, nca = {0: (8, 5), 1: (8, 6), 2: (9, 7), 3: (13, 7)}[ver]
    srow, s = table(r, n, ncs, '  ')
    arow, a = table(r, n, nca, '  ')
    L = ['#%03d comment' % ver if ver else 'comment', '%d r[m] ...' % n] + srow + ['0.50 !BetaC']
    d = [0.01, 0.02, 0.03, 0.04]
    if ver == 3:
        L += ['#LOGD', '0.01 0.02  ; Flapwise LOGD', '0.03 0.04  ; Edgewise LOGD', '0.05 0.06 ; Torsion LOGD', '#AERO', '; X[m]  C[m]']
    else:
        L += ['0.01 0.02 0.03 0.04 0.05 0.06 0.07 0.08 log decr.']
    pro = r.names(1)[0] + '.pro'
    L += arow + [pro, '99999.00']
    c = [['r_[m]', 'EIFlap_[Nm2]', 'EIEdge_[Nm2]', 'Mass_[kg/m]', 'Str.Twist_[deg]', 'CalcOutput_[0/1]', 'PreBendFlap_[m]', 'PreBendEdge_[m]', 'GKt_[Nm2]'],
         ['r_[m]', 'EIFlap_[Nm2]', 'EIEdge_[Nm2]', 'GKt_[Nm2]', 'Mass_[kg/m]', 'Jxx_[kg.m]', 'PreBendFlap_[m]', 'PreBendEdge_[m]', 'Str.Twist_[deg]', 'PhiOut_[deg]', 'Ycog_[m]', 'Yshc_[m]', 'CalcOutput_[0/1]']][ver == 3][:ncs]
    ca = ['Chord_[m]', 'AeroTwist_[deg]', 'RelThickness_[%]', 'AeroCenter_[m]', 'AeroTorsion_[0/1]', 'ProfileSet_[#]'][:nca - 1]
    exp = {k: (s[:, i], 1e-14, 0) for i, k in enumerate(c)}
    exp.update({k: (a[:, i + 1], 1e-14, 0) for i, k in enumerate(ca)})
    exp.update(pro=(pro, 0, 0), betac=(0.5, 0, 0), flap=([0.01, 0.02], 0, 0), edge=([0.03, 0.04], 0, 0))

    def get(o):
        g = {k: o.data[k].values.astype(float) for k in o.data.columns if o.data[k].notna().any()}
        g.update(pro=o.ProfileFile, betac=o.BetaC, flap=o.FlapDamping, edge=o.EdgeDamping)
        return g
    return out({'f.bld': eol(r, L)}, 'f.bld', 'flex_blade_file.FLEXBladeFile', None, get, exp, cuts=('lines', 'f.bld', 2, len(L) - 3))


@ref_
def _flex_pro(r, size):
    ns = 1 + r.randrange(2)
    L, exp = [], {}
    for i in range(ns):
        n = r.rows(min(size, 2), 2)
        th = sorted(r.sample(range(10, 101), 1 + r.randrange(3)))
        L += ['PROFILE SET %d: text' % (i + 1), '%d' % len(th), '\t'.join('%.2f' % t for t in th), '%d' % n]
        exp['t%d' % i] = ([float(t) for t in th], 0, 0)
        for j, t in enumerate(th):
            rows, v = table(r, n, 4, '\t', '%.7E', ('unit', 'moderate'))
            L += ['Profile %d AOA Cl Cd Cm' % (j + 1)] + rows
            exp['p%d_%d' % (i, j)] = (v, 1e-14, 0)

    def get(o):
        d = {}
        for i, s in enumerate(o.ProfileSets):
            d['t%d' % i] = s.thickness
            for j, p in enumerate(s.polars):
                d['p%d_%d' % (i, j)] = p
        return d
    return out({'f.pro': eol(r, L)}, 'f.pro', 'flex_profile_file.FLEXProfileFile', None, get, exp)


@ref_
def _flex_wko(r, size):
    nd, n = 1 + r.randrange(6), r.rows(min(size, 2), 2)
    ds, dep = num(r, np.sort(r.np.uniform(0, 1, nd)), '%.3f')
    rows, v = table(r, n, 2 + 2 * nd, '  ', '%7.3f', ('unit', 'moderate'))
    L = ['Wave kinematics', ' 3', 'CrestHeightMax               2.695 m', 'LongitudinalVelocityMax      2.064 m/s', 'LongitudinalAccelerationMax  1.034 m/s^2',
         '  20.00     5.39    12.54     11    Water Depth/Hs/Tp/spectype', ' 1     Number of displacements', '    0.00', '%d     Number of Relative Depths' % nd, '  ' + '  '.join(ds),
         ' t  [eta  u_1..u_nDepths  a_1..a_nDepths](x,t) * nDisplacements'] + rows
    return out({'f.wko': eol(r, L)}, 'f.wko', 'flex_wavekin_file.FLEXWaveKinFile', {'': (None, v, 2e-12, 1e-300)},
               lambda o: {k: o[k] for k in ('MaxCrestHeight', 'MaxLongiVel', 'MaxLongiAcc', 'WaterDepth', 'Hs', 'Tp', 'RelDepth')},
               dict(MaxCrestHeight=(2.695, 0, 0), MaxLongiVel=(2.064, 0, 0), MaxLongiAcc=(1.034, 0, 0), WaterDepth=(20., 0, 0), Hs=(5.39, 0, 0), Tp=(12.54, 0, 0), RelDepth=(dep, 1e-14, 0)))


@ref_
def _edtwr(r, size):
    n = r.rows(min(size, 2), 2)
    kv = {}

    def line(k, d):
        v = r.choice([1, 2.5, round(r.uniform(-9, 9), 4), r.uniform(-1, 1) * 1e-6])
        kv[k] = float(v)
        return '%14s   %-11s - %s' % (repr(v), k, d)
    rows, v = table(r, n, 4, '  ', '%.7E')
    L = ['------- ELASTODYN V1.00.* TOWER INPUT FILE -------------------------------------', 'a tower', '---------------------- TOWER PARAMETERS ----------------------------------------',
         '%11d   NTwInpSt    - Number of input stations to specify tower geometry' % n] + [line(k, 'damping ratio (%)') for k in ('TwrFADmp(1)', 'TwrFADmp(2)', 'TwrSSDmp(1)', 'TwrSSDmp(2)')] + \
        ['---------------------- TOWER ADJUSTMUNT FACTORS --------------------------------'] + [line(k, 'factor (-)') for k in ('FAStTunr(1)', 'FAStTunr(2)', 'SSStTunr(1)', 'SSStTunr(2)', 'AdjTwMa', 'AdjFASt', 'AdjSSSt')] + \
        ['---------------------- DISTRIBUTED TOWER PROPERTIES ----------------------------', '  HtFract       TMassDen         TwFAStif       TwSSStif', '   (-)           (kg/m)           (Nm^2)         (Nm^2)'] + rows + \
        ['---------------------- TOWER FORE-AFT MODE SHAPES ------------------------------'] + [line('TwFAM%dSh(%d)' % (m, i), 'coefficient of x^%d term' % i) for m in (1, 2) for i in range(2, 7)] + \
        ['---------------------- TOWER SIDE-TO-SIDE MODE SHAPES --------------------------'] + [line('TwSSM%dSh(%d)' % (m, i), 'coefficient of x^%d term' % i) for m in (1, 2) for i in range(2, 7)]
    exp = {k: (v_, 1e-15, 0) for k, v_ in kv.items()}
    exp['TowProp'] = (v, 1e-14, 0)
    exp['NTwInpSt'] = (n, 0, 0)
    i0 = next(i for i, l in enumerate(L) if '(kg/m)' in l)
    return out({'f.dat': eol(r, L)}, 'f.dat', 'fast_input_file.FASTInputFile', None, lambda o: {k: o[k] for k in exp}, exp, cuts=('lines', 'f.dat', i0 + 1, i0 + n))


@ref_
def _netcdf(r, size):
    import io
    from scipy.io import netcdf_file
    nx, ny = r.rows(min(size, 2)), 1 + r.randrange(4)
    b = io.BytesIO()
    exp = {}
    f = netcdf_file(b, 'w')
    f.createDimension('x', nx)
    f.createDimension('y', ny)
    for n in r.names(1 + r.randrange(3)):
        d = r.choice([('x',), ('x', 'y')])
        a = r.arr(*((nx, ny)[:len(d)]))
        v = f.createVariable(n, 'f8', d)
        v[:] = a
        exp[n] = (a, 0, 0)
    f.flush()
    data = b.getvalue()
    f.close()
    return out({'f.nc': data}, 'f.nc', 'netcdf_file.NetCDFFile', None, lambda o: {n: o.data[n].values for n in exp}, exp, cuts='bytes')


@ref_
def _parquet(r, size):
    import io, pyarrow as pa, pyarrow.parquet as pq
    nr, nc = r.rows(size), 1 + r.randrange(4)
    a = np.column_stack([r.arr(nr) for _ in range(nc)])
    names = r.names(nc)
    b = io.BytesIO()
    pq.write_table(pa.table({n: a[:, i] for i, n in enumerate(names)}), b)
    return out({'f.parquet': b.getvalue()}, 'f.parquet', 'parquet_file.ParquetFile', {'': (names, a, 0, 0)}, cuts='bytes')


@ref_
def _xlsx(r, size):
    import io, openpyxl
    wb = openpyxl.Workbook()
    fr = {}
    for i, s in enumerate(r.names(1 + r.randrange(2))):
        ws = wb.active if i == 0 else wb.create_sheet()
        ws.title = s
        nr, nc = r.rows(min(size, 1)), 1 + r.randrange(4)
        a = np.column_stack([r.arr(nr, kind=r.choice(['unit', 'moderate'])) for _ in range(nc)])
        names = r.names(nc)
        ws.append(names)
        for row in a.tolist():
            ws.append(row)
        fr[s] = (names, a, 1e-14, 0)
    b = io.BytesIO()
    wb.save(b)
    if len(fr) == 1:
        fr = {'': list(fr.values())[0]}
    return out({'f.xlsx': b.getvalue()}, 'f.xlsx', 'excel_file.ExcelFile', fr, cuts='bytes')


# ------------------------------------------------------------------------------------------------ readers with options
@ref_
def _mann_opt(r, size):
    nx, ny, nz = 1 + r.randrange(6), 1 + r.randrange(6), 1 + r.randrange(6)
    if size >= 2:
        nx, ny, nz = 8 + r.randrange(24), 4 + r.randrange(12), 4 + r.randrange(12)
    a = r.arr(nx, ny, nz, kind=r.choice(['unit', 'moderate', 'scaled'])).astype('<f4')
    kw = {}
    named = r.random() < 0.5
    if not named:
        kw['N'] = [nx, ny, nz]
    d = dict(dy=1, dz=1, y0=None, z0=0, zMid=None)
    for k, v in (('dy', [0.5, 2.0, 12.5]), ('dz', [0.5, 2.0, 10.0]), ('y0', [-20.0, 0.0, 3.5]), ('z0', [5.0, -1.5]), ('zMid', [90.0, 119.5])):
        if r.random() < 0.5:
            kw[k] = d[k] = r.choice(v)
    n = ('box_%dx%dx%d' % (nx, ny, nz) if named else r.choice(['box', 'turb_1_2_3x4x5', 'u2'])) + r.choice(['.u', '.v', '.w', '.bin'])
    z = d['z0'] + np.arange(nz) * d['dz']
    if d['zMid'] is not None:
        z = z + d['zMid'] - z.mean()
    y = np.arange(ny) * d['dy']
    y = y - y.mean() if d['y0'] is None else y + d['y0']
    e = dict(field=(a[:, ::-1, :].astype(float), 0, 0), y=(y, 1e-9, 1e-9), z=(z, 1e-9, 1e-9))
    e.update({k: (v, 0, 0) for k, v in d.items() if v is not None})
    return out({n: a.tobytes()}, n, 'mannbox_file.MannBoxFile', None, lambda o: dict(field=o['field'], y=o.y, z=o.z, **{k: o[k] for k in d}), e, cuts='bytes', kw=kw)


@ref_
def _bts_head(r, size):
    d = REFS['bts'](r, size)
    d['kw'] = {'header_only': True}
    d['cuts'] = None
    keys = ('y', 'z', 't', 'dt', 'ID', 'info', 'zRef', 'uRef', 'zTwr')
    d['get'] = lambda o: dict({k: o[k] for k in keys}, field='u' in o or 'uTwr' in o)
    d['expect'] = dict({k: d['expect'][k] for k in keys}, field=(False, 0, 0))
    return d


@ref_
def _csv_opt(r, size):
    nr, nc = r.rows(size, 2), 3 + r.randrange(4)
    kind = r.choice(['sep', 'colNames', 'commentLines', 'commentChar', 'colNamesLine', 'header', 'nodetect'])
    sep = r.choice([',', ';', '\t', '|', ' ']) if kind == 'sep' else r.choice([',', ';', ' '])
    rows, v = table(r, nr, nc, sep)
    names = r.names(nc)
    cols = names
    kw = {}
    if kind == 'sep' or r.random() < 0.3:
        kw['sep'] = sep
    if kind == 'sep':
        L = [sep.join(names)] + rows
    elif kind == 'colNames':
        kw['colNames'] = list(names)
        L = rows
    elif kind == 'commentLines':
        k = 1 + r.randrange(3)
        kw['commentLines'] = list(range(k))
        L = ['title %s of the file' % r.names(1)[0] for _ in range(k)] + [sep.join(names)] + rows
    elif kind == 'commentChar':
        c = r.choice(['%', '*', '#'])
        kw['commentChar'] = c
        L = [c + ' about ' + r.names(1)[0] for _ in range(1 + r.randrange(3))] + [sep.join(names)] + rows
    elif kind == 'colNamesLine':
        kw.update(colNamesLine=1, commentLines=[0, 2])
        L = ['title of the file', sep.join(names), sep.join(['unit'] * nc)] + rows
    elif kind == 'header':
        kw.update(colNamesLine=-1, commentChar='#')
        L = ['# about ' + r.names(1)[0]] * r.randrange(3) + ['# ' + sep.join(names)] + rows
    else:
        kw['detectColumnNames'] = False
        L, cols = rows, ['C%d' % i for i in range(nc)]
    return out({'f.csv': eol(r, L, r.random() < 0.8)}, 'f.csv', 'csv_file.CSVFile', {'': (cols, v, 2e-12, 1e-300)}, kw=kw, kwread=False)


from . import refs_fast, refs_more, refs_deck, refs_graph      # noqa: they add their encoders
NAMES = sorted(n for n in REFS if not n.endswith(('-opt', '-head')))
OPTS = sorted(n for n in REFS if n.endswith(('-opt', '-head')))
