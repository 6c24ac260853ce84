"""Further reference encoders (see refs)."""
import numpy as np
from .refs import ref_, out, eol, num, table


@ref_
def _sdsum(r, size):
    """SubDyn summary"""
    N, fixed = 2 + r.randrange(4 if size < 2 else 12), r.random() < 0.5
    fixed = fixed and N > 2
    nB, nL, nF = 6, 6 * (N - 1 - fixed), 6 * fixed
    nd = nB + nL + nF
    ncb = r.choice([0, 1, 3, 5])
    L = ['', '#This summary file was generated by SubDyn  on 21-Jul-2020 at 21:06:35.', '', '#Unless specified, units are consistent with Input units, [SI] system is advised.', '#' + '_' * 80,
         '#TP reference point:   0.000000E+00   0.000000E+00   0.000000E+00', '# Internal FEM representation']
    exp = {}

    def one(k, v, c):
        L.append('%-8s: %7d # %s' % (k, v, c))
        exp[k] = (v, 0, 0)

    def many(k, rows, c='', ints=True, shift=0, note=False):
        L.append('%s: # %s' % (k, c))
        a = []
        for i, x in enumerate(rows):
            s = ['%7d' % y if ints else r.choice(['%15.6E', '%15.3f']) % y for y in x]
            a.append([float(y) for y in s])
            L.append('  - [' + ', '.join(s) + (',]' if s else ' ]') + (' # %d' % (i + 1) if note else ''))
        a = np.array(a).reshape(len(rows), -1)
        exp[k] = (a - shift, 1e-12, 0)
        return a
    one('nNodes_I', 1, 'Number of Nodes: "interface" (I)')
    one('nNodes_L', N - 1 - fixed, 'Number of Nodes: "internal"  (L)')
    one('nNodes', N, 'Number of Nodes: total   (I+C+L)')
    one('nDOF__B', nB, 'Number of DOFs:             retained (__B)')
    one('nDOF_red', nd, 'Number of DOFs: total')
    B, F = list(range(1, 7)), list(range(nd - nF + 1, nd + 1))
    I = [i for i in range(1, nd + 1) if i not in B and i not in F]
    many('Nodes_I', [[1]], '1 x 1')
    many('Nodes_C', [[]], '1 x 0')
    many('DOF___B', [B], '1 x 6', shift=1)
    many('DOF___F', [F], '1 x %d' % nF, shift=1)
    many('DOF___L', [I], '1 x %d' % nL, shift=1)
    L += ['', '#Index map from DOF to nodes', '#     Node No.,  DOF/Node,   NodalDOF']
    m = [[i + 1, 6, j] for i in range(N) for j in range(1, 7)]
    four = r.random() < 0.5
    many('DOF2Nodes', [[k + 1] + x for k, x in enumerate(m)] if four else m, '%d x %d' % (nd, 3 + four), note=True)
    exp['DOF2Nodes'] = (np.array([[k] + x for k, x in enumerate(m)]), 0, 0)
    P = np.round(np.column_stack([r.np.uniform(-9, 9, N), r.np.uniform(-9, 9, N), -np.arange(N) * 3.0 - r.np.uniform(0, 2, N)]), 3)
    L.append('#     Node_[#]          X_[m]           Y_[m]           Z_[m]')
    Pn = many('Nodes', [[i + 1] + list(P[i]) + [1, 0, 0, 0, 0] for i in range(N)], '%d x 9' % N, ints=False)[:, 1:4]
    for k, c in enumerate('XYZ'):
        exp[c] = (Pn[:, k], 1e-12, 0)
    many('Elements', [[i + 1, i + 1, i + 2, 1, 1, 1] + list(r.np.uniform(0, 9, 10)) for i in range(N - 1)], '%d x 16' % (N - 1), ints=False)
    L += ['#' + '_' * 80, '#CB frequencies [Hz]']
    f = many('CB_frequencies', [list(np.sort(r.np.uniform(0, 50, ncb)))], '1 x %d' % ncb, ints=False)
    exp['CB_frequencies'] = (f.ravel(), 1e-12, 0)
    M = many('PhiM', [list(r.np.uniform(-1, 1, ncb)) for _ in range(nL)], '%d x %d (CB modes)' % (nL, ncb), ints=False)
    G = many('PhiR', [list(r.np.uniform(-1, 1, 6)) for _ in range(nL)], '%d x 6 (Guyan modes)' % nL, ints=False)
    for k in ('KBBt', 'MBBt', 'MRB'):
        many(k, r.arr(6, 6, kind='moderate'), '6 x 6', ints=False)
    # shapes, scaled to a tenth of the largest dimension, sorted along z
    o = np.argsort(Pn[:, 2])
    top = 0.1 * np.max(np.ptp(Pn, axis=0))
    cols = {'z_[m]': Pn[o, 2], 'x_[m]': Pn[o, 0], 'y_[m]': Pn[o, 1]}
    for pre, S in (('Guyan', np.vstack([np.eye(6), G, np.zeros((nF, 6))])), ('CB', np.vstack([np.zeros((6, ncb)), M, np.zeros((nF, ncb))]))):
        for k in range(S.shape[1]):
            d = S[:, k].reshape(N, 6)[:, :3]
            if np.abs(d).max() > 1e-5:
                d = d * top / np.abs(d).max()
            for j, c in enumerate('xyz'):
                if np.any(d[:, j]):
                    cols['%sMode%d%s_[m]' % (pre, k + 1, c)] = (Pn + d)[o, j]
                    cols['%sDisp%d%s_[m]' % (pre, k + 1, c)] = d[o, j]
    exp['=cols'] = (sorted(cols), 0, 0)
    exp['=values'] = (np.array([cols[c] for c in sorted(cols)]), 1e-9, 1e-9)

    def get(o):
        g = {k.strip(): v for k, v in o.items()}
        df = o.toDataFrame()
        g['=cols'], g['=values'] = sorted(df.columns), np.array([df[c].values for c in sorted(df.columns)])
        return g
    return out({'f.SD.sum.yaml': eol(r, L)}, 'f.SD.sum.yaml', 'fast_summary_file.FASTSummaryFile', None, get, exp)


@ref_
def _cactus(r, size):
    rpm, ut = round(r.uniform(1, 80), 3), round(r.uniform(1, 9), 2)
    nr, nti = 1 + r.randrange(5), 2 + r.randrange(8)
    nt = nr * nti if r.randrange(3) else 2 + r.randrange(nr * nti - 1)       # the simulation may have been stopped early
    rho = round(r.uniform(.002, .003), 6)
    L = ['&ConfigInputs', '  GPFlag = 0', '  nr = %d' % nr, '  nti = %d' % nti, '  iut = 0', '/', '', '&CaseInputs', "  jbtitle = '%s'" % r.names(1)[0], '  rho = %r' % rho, '  vis = 0.3739E-6', '  tempr = 60.0', '  hBLRef = 56.57',
         '  slex = 0.0', '  hAG = 15.0', '  RPM = %r' % rpm, '  Ut = %r' % ut, '  CTExcrM = 0.0', "  GeomFilePath='geom.geom'", '  nSect = 1', "  AFDPath = 'NACA_0015.dat'", '/']
    nb, ne, refr, refar = 1 + r.randrange(3), 1 + r.randrange(2), round(r.uniform(1, 60), 4), round(r.uniform(.5, 4), 3)
    G = ['NBlade: %d' % nb, 'NStrut: 0', 'RotN:  0.000000e+00  0.000000e+00  1.000000e+00', 'RotP:  0.000000e+00  0.000000e+00  0.000000e+00', 'RefAR: %r' % refar, 'RefR: %r ! radius' % refr, 'Type: VAWT', 'Blade 1:']
    base = ['Normalized Time (-)', 'Theta (rad)', 'Rev', 'Torque Coeff. (-)', 'Power Coeff. (-)', 'Fx Coeff. (-)', 'Fy Coeff. (-)', 'Fz Coeff. (-)']
    bl = ['Blade Fx Coeff. (-)', 'Blade Fy Coeff. (-)', 'Blade Fz Coeff. (-)', 'Blade Torque Coeff. (-)']
    rows, v = table(r, nt, 8 + 4 * nb, ',', '%.8E')
    el = ['Normalized Time (-)', 'Theta (rad)', 'Blade', 'Element', 'Rev', 'AOA25 (deg)', 'AOA50 (deg)', 'AOA75 (deg)', 'CL (-)', 'CD (-)', 'CM25 (-)', 'CLCirc (-)', 'CN (-)', 'CT (-)', 'Fx (-)', 'Fy (-)', 'Fz (-)', 'Re (-)', 'Ur (-)',
          'IndU (-)', 'IndV (-)', 'IndW (-)', 'GB (?)']
    dsc = ['Normalized Time (-)', 'Theta (rad)', 'Blade', 'Element', 'alpha (deg)', 'adotnorm (-)', 'alrefL (deg)', 'alrefD (deg)']

    def perelem(cols):
        _, ev = table(r, nt * nb * ne, len(cols), ',', '%.8E')
        ev[:, 2], ev[:, 3] = np.tile(np.repeat(np.arange(nb) + 1, ne), nt), np.tile(np.arange(ne) + 1, nt * nb)
        return [','.join('%d' % x if j in (2, 3) else '%.8E' % x for j, x in enumerate(row)) for row in ev], ev
    erows, ev = perelem(el)
    files = {'c.in': eol(r, L), 'geom.geom': eol(r, G), 'output/c_TimeData.csv': eol(r, [','.join(base + bl * nb)] + rows), 'output/c_ElementData.csv': eol(r, [','.join(el)] + erows)}
    cols = base + [b.replace('Blade', 'Blade%d' % (i + 1)) for i in range(nb) for b in bl]
    exp = {'omega': (rpm * 2 * np.pi / 60, 1e-12, 0), 'TSR': (ut, 1e-12, 0), 'RPM': (rpm, 1e-12, 0), 'nblade': (nb, 0, 0), 'refr': (refr, 1e-12, 0), 'refar': (refar, 1e-12, 0), 'rotn': ([0, 0, 1], 0, 0),
           'time': (v, 1e-14, 0), 'cols': (cols, 0, 0), 'elem': (ev, 1e-14, 0), 'ecols': (el, 0, 0), 'ds': (None, 0, 0)}
    if r.random() < 0.4:
        drows, dv = perelem(dsc)
        files['output/c_DSData.csv'] = eol(r, [','.join(dsc)] + drows)
        exp['ds'] = (dv, 1e-14, 0)
    # the dataframe: SI units, from the definitions of the coefficients
    om, R_, t = rpm * 2 * np.pi / 60, refr / 3.28084, np.arange(nt) * 2 * np.pi / (rpm * 2 * np.pi / 60) / nti
    U, A = om * R_ / ut, refar * R_ ** 2
    F0 = 0.5 * rho * 1.2 / 0.0023280000 * A * U ** 2
    z = lambda name: v[:, cols.index(name)]
    df = {'Time_[s]': t, 'Azimuth_[deg]': np.array([np.mod(x * om * 180 / np.pi, 360) for x in t]), 'HWindSpeedX_[m/s]': np.full(nt, U), 'Wind1VelX_[m/s]': np.full(nt, U), 'RotSpeed_[rpm]': np.full(nt, rpm),
          'RtAeroCp_[-]': z('Power Coeff. (-)'), 'RtAeroCq_[-]': z('Torque Coeff. (-)'), 'ZAeroFxg_[N]': z('Fx Coeff. (-)') * F0, 'ZAeroFyg_[N]': -z('Fz Coeff. (-)') * F0, 'ZAeroFzg_[N]': z('Fy Coeff. (-)') * F0,
          'ZAeroMzg_[N-m]': z('Torque Coeff. (-)') * F0 * R_, 'RtAeroFxh_[N]': z('Fy Coeff. (-)') * F0, 'RtAeroMxh_[N-m]': z('Torque Coeff. (-)') * F0 * R_}
    for i in range(nb):
        df.update({'Z%dAeroFxg_[N]' % (i + 1): z('Blade%d Fx Coeff. (-)' % (i + 1)) * F0, 'Y%dAeroMxb_[N-m]' % (i + 1): z('Blade%d Torque Coeff. (-)' % (i + 1)) * F0 * R_})
        for j in range(ne):
            sel = (ev[:, 2] == i + 1) & (ev[:, 3] == j + 1)
            df.update({'AB%dN%03d%s' % (i + 1, j + 1, k): f * ev[sel, el.index(c)] for k, c, f in (('Alpha_[deg]', 'AOA25 (deg)', -1), ('Cl_[-]', 'CL (-)', -1), ('Cd_[-]', 'CD (-)', 1), ('Cm_[-]', 'CM25 (-)', -1), ('Czg_[-]', 'Fy (-)', 1), ('Re_[-]', 'Re (-)', 1e-6), ('Vrel_[m/s]', 'Ur (-)', U), ('Gam_[m^2/s]', 'GB (?)', -U * R_))})
            if exp['ds'][0] is not None:
                df['AB%dN%03dalpha_34_[deg]' % (i + 1, j + 1)] = -dv[sel, 4]
    for k, x in df.items():
        exp['df ' + k] = (x, 1e-9, 1e-9 * float(np.max(np.abs(x))) if x.size else 0)
    exp['df Azimuth_[deg]'] = (np.cos(df['Azimuth_[deg]'] * np.pi / 180), 0, 1e-9)
    exp['kept'] = (v, 1e-14, 0)

    def get(o):
        g = {k: getattr(o, k) for k in ('omega', 'TSR', 'RPM')}
        g.update({k: o['geom'][k] for k in ('nblade', 'refr', 'refar', 'rotn')})
        g = dict(g, time=o['dfTime'].values, cols=list(o['dfTime'].columns), elem=o['dfElem'].values, ecols=list(o['dfElem'].columns), ds=None if o['dfDS'] is None else o['dfDS'].values)
        d = o.toDataFrame()
        g.update({'df ' + k: d[k].values for k in d.columns})
        g['df Azimuth_[deg]'] = np.cos(d['Azimuth_[deg]'].values * np.pi / 180)
        g['kept'] = d[cols].values
        return g
    return out(files, 'c.in', 'cactus_file.CactusFile', None, get, exp, auto=False)


@ref_
def _flexdoc(r, size):
    """log of a FLEX5 simulation"""
    exp, H = {}, []
    L = ['#Program  Flex5', '#BaseName %s' % r.names(1)[0], '#InfFile  .\\%s100.inf' % r.names(1)[0], '#' * 60, '### START INPUT FILE DATA', '#WTGName                  Unknown',
         '#Input_TowerFileName      data\\TubeLight%d.twr' % r.randrange(9), '### Rotor']
    for l in L:
        if l[1] != '#':
            exp[l.split()[0][1:]] = (l.split()[1], 0, 0)
    for sec in r.sample(['Rotor', 'Geometry', 'Hub', 'Nacelle', 'Shaft', 'Generator', 'Environment', 'Sim', 'RNA'], 3 + r.randrange(5)):
        for nm in r.names(1 + r.randrange(4), 6):
            n = r.choice([1, 1, 1, 3])
            s, v = num(r, r.arr(n, kind=r.choice(['unit', 'ints', 'scaled'])), r.choice(['%.3f', '%.2E', '%d', '%.5f']))
            L.append('#%s_%s      %s%s' % (sec, nm, '  '.join(s), r.choice([' [kg/m3]', ' [kgm2] [IXNAV]', ' [deg]', '', ' [-] (stiffness correction)', ' [m] (at H=0)'])))
            exp['%s_%s' % (sec, nm)] = (v if n > 1 else v[0], 1e-14, 0)
        L.append('### ' + sec + ' ends')
    for key, hd in (('Tower_SectionData', None), ('Tower_ShapeFunction_DOF1_Shape', None), ('Foundation_SectionData', None), ('Blade_ShapeFunction_DOF2_Shape', None)):
        if r.random() < 0.6:
            n, nc = r.rows(min(size, 1)), 2 + r.randrange(4)
            cols = [c + 'X' for c in r.names(nc, 3)]     # (FLEX's own "n" and "rough" columns have no unit)
            rows, v = table(r, n, nc, '  ', '%.6E')
            L += ['#' + key + r.choice(['', ' (Unit displacement at point K)'])] + ['  ' + '  '.join('%s [m]' % c for c in cols)] + ['  ' + x for x in rows] + r.choice([[''], ['###']])
            exp[key] = (v, 1e-14, 0)
            exp['#' + key] = (['%s_[m]' % c for c in cols], 0, 0)
    for key in ('Foundation_IsolatedMassMatrix', 'Tower_MassMatrix', 'Tower_IsolatedStiffnessMatrix', 'Blade_IsolatedMassMatrix', 'Blade_IsolatedStiffnessMatrix', 'Blade_IsolatedDampingMatrix', 'EVA_MassMatrix', 'EVA_Eigenvectors'):
        if r.random() < 0.6:
            n = 1 + r.randrange(7)
            rows, v = table(r, n, n, ' ', '%11.4E')
            L += ['#' + key + r.choice(['', ' (Tower system)'])] + ['  ' + x for x in rows] + r.choice([[''], []])
            exp[key] = (v, 1e-14, 0)
    L += ['### END', '#Last_Value 1.0']
    exp['Last_Value'] = (1.0, 0, 0)

    def get(o):
        g = {}
        for k in exp:
            a, _, b = k.strip('#').partition('_')
            x = o[a][b] if b else o[a]
            g[k] = list(x.columns) if k[0] == '#' else getattr(x, 'values', x)
        return g
    return out({'f.out': eol(r, L)}, 'f.out', 'flex_doc_file.FLEXDocFile', None, get, exp)


@ref_
def _raaw(r, size):
    import io
    from scipy.io import savemat
    n5, n1 = 1 + r.randrange(2), 1 + r.randrange(3)
    names = r.names(n5 + n1)
    cell, a5, a1 = np.empty((n5 + n1, 1), object), {}, {}
    t0 = [2000 + r.randrange(25), 1 + r.randrange(12), 1 + r.randrange(28), r.randrange(24), r.randrange(60), r.randrange(60)]
    for i, n in enumerate(names):
        d, k = (a5, 30000) if i < n5 else (a1, 600)
        d[n] = np.round(r.arr(k, kind='moderate'), 3)
        cell[i, 0] = {'id': float(i), 'name': n, 'unit': 'm', 'dt': 0.02 if i < n5 else 1.0, 'desc': 'x', 't0': np.array([t0], dtype=np.int32), 'data': d[n].reshape(-1, 1)}
    b = io.BytesIO()
    savemat(b, {'DataCell': cell}, do_compression=True)
    b = bytearray(b.getvalue())
    b[:116] = b'MATLAB 5.0 MAT-file'.ljust(116)          # (no date)
    fr = {'data50hz': (['time'] + list(a5), np.column_stack([np.arange(30000) * 0.02] + list(a5.values())), 1e-12, 1e-9),
          'data1hz': (['time'] + list(a1), np.column_stack([np.arange(600.)] + list(a1.values())), 1e-12, 1e-9)}

    def get(o):
        return {k: [x.year, x.month, x.day, x.hour, x.minute, x.second, x.microsecond] for k, x in (('first', o['data']['data50hz'].index[0]), ('second', o['data']['data1hz'].index[1]))}
    import datetime
    t = datetime.datetime(*t0)
    u = t + datetime.timedelta(seconds=1)
    exp = {k: ([x.year, x.month, x.day, x.hour, x.minute, x.second, 0], 0, 0) for k, x in (('first', t), ('second', u))}
    return out({'f.mat': bytes(b)}, 'f.mat', 'raawmat_file.RAAWMatFile', fr, get, exp, cuts='bytes')
