"""Reference encoders of FAST input files (see refs)."""
import numpy as np
from .refs import ref_, out, eol, num, table
KL = 'fast_input_file.FASTInputFile'
WORDS = 'the of number nodes flag switch blade tower used for when otherwise initial time step in each (m) (deg) (-) [m/s] time-step if True "default" 1=on; {0: none} e.g., value, ratio'.split()


def descr(r):
    return '- ' + ' '.join(r.choice(WORDS) for _ in range(1 + r.randrange(9)))


def value(r, kind=None):
    """text of a value and what it stands for"""
    k = kind or r.choice(['int', 'int', 'float', 'float', 'float', 'bool', 'str', 'quoted', 'blank', 'list', 'ilist', 'blist'])
    if k == 'int':
        v = r.choice([0, 1, r.randrange(1000), -r.randrange(1, 50), 10**r.randrange(3, 9)])
        return '%d' % v, float(v)
    if k == 'float':
        v = r.choice([r.uniform(-1, 1), r.uniform(-1e4, 1e4), r.uniform(-1, 1) * 10.0 ** r.randrange(-12, 12)])
        s = r.choice(['%.4f', '%.6E', '%.15g', '%.3e', '%g', '%r']) % v
        if r.random() < 0.1:
            s = r.choice(['.5', '5.', '-.25', '+3.5', '1.0E-100', '-2.5E+101', '0.', '1e5', '-0.0'])
        return s, float(s)
    if k == 'bool':
        s = r.choice(['True', 'False', 'TRUE', 'FALSE', 'true', 'false', 'T', 'F', 't', 'f'])
        return s, s.lower()[0] == 't'
    if k == 'str':
        s = r.choice(['DEFAULT', 'default', 'none', 'unused', 'ES10.3E2', 'twr.dat'])
        return s, s
    if k == 'quoted':
        s = r.choice(['"%s"' % r.names(1)[0], '"DEFAULT"', '""', '"../a/%s.dat"' % r.names(1)[0], '"ES15.7E2"', '"C:\\dir\\file.dat"', '"x,y"'])
        return s, s
    if k == 'blank':
        s = '"%s"' % ' '.join(r.names(2 + r.randrange(2)))
        return s, s
    n = 2 + r.randrange(5)
    if k == 'list':
        v = [round(r.uniform(-9, 9), 3) + r.choice([0, 0.5e-3]) for _ in range(n)]
        s = [r.choice(['%.4f', '%.5g', '%.3E']) % x for x in v]
        v = [float(x) for x in s]
        if all(x.lstrip('-').isdigit() for x in s):
            v = [int(x) for x in s]
    elif k == 'ilist':
        v = [r.randrange(0, 40) for _ in range(n)]
        s = ['%d' % x for x in v]
    else:
        v = [r.random() < 0.5 for _ in range(n)]
        s = [r.choice(['True', 'T'] if x else ['False', 'F']) for x in v]
    sep = r.choice([', ', ',', ',  '])
    return sep.join(s), ('list', v)


def line(r, exp, key, kind=None):
    s, v = value(r, kind)
    if isinstance(v, tuple):
        exp[key] = (np.array(v[1], float), 1e-15, 0)
    else:
        exp[key] = (v, 0 if not isinstance(v, float) else 1e-15, 0)
    sep = r.choice(['   ', ' ', '\t', '      '])
    return r.choice(['', '  ', '    ']) + r.choice(['%s', '%-14s', '%12s']) % s + sep + r.choice(['%s', '%-14s']) % key + ' ' + (descr(r) if r.random() < 0.9 else '')


#      name of the number of rows, name of the table, columns, units, all numbers, how many rows there must be
TABS = [('NumTwrNds', 'TowProp', 'TwrElev TwrDiam TwrCd', '(m) (m) (-)', True),
        ('NumCases', 'Cases', 'WndSpeed ShearExp RotSpd Pitch Yaw dT Tmax', '(m/s) (-) (rpm) (deg) (deg) (s) (s)', True),
        ('NHvCoef', 'HvCoefs', 'HvCoefID CdHv CaHv', '(-) (-) (-)', True),
        ('NAxCoef', 'AxCoefs', 'AxCoefID AxCd AxCa AxCp', '(-) (-) (-) (-)', True),
        ('NJoints', 'Joints', 'JointID JointXss JointYss JointZss', '(-) (m) (m) (m)', True),
        ('NCoefDpth', 'DpthProp', 'Dpth DpthCd DpthCdMG', '(m) (-) (-)', True),
        ('NMGDepths', 'MGProp', 'MGDpth MGThck MGDens', '(m) (m) (kg/m^3)', True),
        ('DLL_NumTrq', 'DLLProp', 'GenSpd_TLU GenTrq_TLU', '(rpm) (Nm)', True),
        ('NInterf', 'InterfaceJoints', 'IJointID ItfTDXss ItfTDYss', '(-) (flag) (flag)', True),
        ('NCOSMs', 'MemberCosineMatrix', 'COSMID COSM11 COSM12', '(-) (-) (-)', True),
        ('NCmass', 'ConcentratedMasses', 'CMJointID JMass JMXX JMYY JMZZ', '(-) (kg) (kg*m^2) (kg*m^2) (kg*m^2)', True),
        ('NReact', 'BaseJoints', 'RJointID RctTDXss RctTDYss SSIfile', '(-) (flag) (flag) (string)', False),
        ('NumTurbines', 'WindTurbines', 'WT_X WT_Y WT_Z WT_FASTInFile', '(m) (m) (m) (string)', False),
        ('NCoefMembers', 'MemberProp', 'MemberID MemberCd1 MemberCd2', '(-) (-) (-)', True),
        ('NMembers', 'Members', 'MemberID MJointID1 MJointID2 MType', '(-) (-) (-) (-)', False),
        ('NPropSets', 'SectionProp', 'PropSetID PropD PropThck', '(-) (m) (m)', True),
        ('NTypes', 'LineTypes', 'LineType Diam MassDen EA', '(-) (m) (kg/m) (N)', False),
        ('NConnects', 'ConnectionProp', 'Node Type X Y Z', '(-) (-) (m) (m) (m)', False),
        ('NLines', 'LineProp', 'Line LineType UnstrLen NumSegs', '(-) (-) (m) (-)', False),
        ('NCablePropSets', 'CableProp', 'PropSetID EA MatDens T0', '(-) (N) (kg/m) (N)', True),
        ('NRigidPropSets', 'RigidProp', 'PropSetID MatDens', '(-) (kg/m)', True)]


def tab(r, t, size, exp, frames):
    dim, name, cols, units, nums = t
    nc, n = len(cols.split()), r.choice([0, 1, r.rows(min(size, 2))])
    L = ['   %d   %s  %s' % (n, dim, descr(r)), r.choice(['', '  ']) + r.choice(['  ', '\t', '      ']).join(cols.split()), '  ' + r.choice(['  ', '     ']).join(units.split())]
    exp[dim] = (n, 0, 0)
    fc = ['%s_[%s]' % (c, u[1:-1]) for c, u in zip(cols.split(), units.split())]
    if nums:
        rows, v = table(r, n, nc, r.choice(['  ', '\t', ' ']))
        exp[name] = (v, 1e-14, 0)
        frames[name] = (fc, v)
    else:
        rows, v = [], []
        for i in range(n):
            x = [value(r, r.choice(['int', 'float']))[0] for _ in range(nc)]
            j = nc - 1 if cols.endswith(('ile', 'Type')) else (0 if cols.startswith('LineType') else 1)
            x[j] = r.choice(['"a %s.dat"', '"%s"', '%s', '"../%s"']) % r.names(1)[0] if cols.endswith('ile') else r.names(1)[0]
            rows.append(r.choice(['  ', '\t', '   ']).join(x))
            v.append(x)
        exp['=' + name] = ([y for x in v for y in x], 0, 0)
        frames[name] = (fc, None)
    if r.random() < 0.3 and rows:
        k = r.randrange(len(rows))
        rows[k] += r.choice(['  ! a note', '   !note 3'])
    return L + rows, rows


def fill(r, exp, k, kinds=None):
    names = [n for n in r.names(k, 5 + r.randrange(6)) if n.upper() not in ('T', 'F')]
    names = [r.choice([n, n, n + '(1)', n + '_2']) for n in names]
    return [line(r, exp, n) for n in names]


def get(exp, frames):
    def f(o):
        g = {}
        for k in exp:
            if k[0] == '=':
                g[k] = [str(x) for x in np.asarray(o[k[1:]]).ravel()]
            elif k[0] == '#':
                df = o.toDataFrame()
                if isinstance(df, dict):
                    df = df[k[2:]] if k[2:] in df else None
                g[k] = None if df is None else (list(df.columns) if k[1] == 'c' else df.values)
            elif k == 'OutList':
                g[k] = [x for x in o[k] if x.strip()]
            else:
                g[k] = o[k]
        return g
    for n, (cols, v) in frames.items():
        exp['#c' + n] = (cols, 0, 0)
        if v is not None:
            exp['#v' + n] = (v, 1e-14, 0)
    return f


@ref_
def _fastin(r, size):
    """a module input file: values, lists, tables, lists of files, output channels"""
    exp, frames = {}, {}
    L = ['------- %s v1.0%d.* INPUT FILE -------------------------------' % (r.names(1)[0].upper(), r.randrange(9)), r.choice(['a description of the case', 'Case file, for tests', 'Turbine'])]
    L += fill(r, exp, 6 + r.randrange(6))
    tabs = r.sample(TABS, r.randrange(5))
    # two tables with the same word as their mark are not in one file
    if sum(t[0] in ('NPropSets', 'NCablePropSets', 'NRigidPropSets', 'NTypes') for t in tabs) > 1:
        tabs = [t for t in tabs if t[0] not in ('NPropSets', 'NCablePropSets', 'NRigidPropSets', 'NTypes')]
    for t in tabs:
        L.append(r.choice(['---------------------- %s ------------------', '====== %s  =====================', '! %s']) % r.names(1)[0].upper())
        L += fill(r, exp, 3 + r.randrange(4))
        L += tab(r, t, size, exp, frames)[0]
    if r.random() < 0.4:
        n = 1 + r.randrange(5)
        lab, dim = r.choice([('AFNames', 'NumAFfiles'), ('FoilNm', 'NumFoil')])
        names = [r.choice(['"%s.dat"', '"a/b/%s.dat"', '"my %s.dat"']) % x for x in r.names(n)]
        L += ['  %d   %s   - number of files' % (n, dim)] + ['%s%s' % (x, '    %s   - names of the files (quoted strings)' % lab if i == 0 else '') for i, x in enumerate(names)]
        exp[dim], exp['=' + lab] = (n, 0, 0), (names, 0, 0)
    L += fill(r, exp, 4 + r.randrange(6))
    if r.random() < 0.5:
        o = ['"%s"%s' % (', '.join(r.names(1 + r.randrange(3))), r.choice(['', '   - a channel', '  ! (kN)'])) for _ in range(r.randrange(190) if size > 1 else r.randrange(12))]
        L += ['   OutList     - The next line(s) contains a list of output parameters. See OutListParameters.xlsx for a listing of available output channels, (-)'] + o + [
            'END of input file (the word "END" must appear in the first 3 columns of this last OutList line)', '---------------------------------------------------------------------------------------']
        exp['OutList'] = (o, 0, 0)
    dup = [k.lower() for k in exp]
    if len(set(dup)) != len(dup):
        return _fastin(r, size)
    return out({'f.dat': eol(r, L, r.random() < 0.8)}, 'f.dat', KL, None, get(exp, frames), exp)


@ref_
def _adbld(r, size):
    n = r.rows(min(size, 2), 6)
    rows, v = table(r, n, 6, r.choice(['  ', '\t']), kinds=('unit', 'moderate'))
    ids = [1 + r.randrange(9) for _ in range(n)]
    v = np.column_stack([v, ids])
    v[:, 0] = np.arange(n) * 1.25
    rows = ['%r %s  %d' % (float(v[i, 0]), x.split(None, 1)[1], ids[i]) for i, x in enumerate(rows)]
    cols, units = 'BlSpn BlCrvAC BlSwpAC BlCrvAng BlTwist BlChord BlAFID', '(m) (m) (m) (deg) (deg) (m) (-)'
    com = r.choice(['a blade', 'Blade of ' + r.names(1)[0], '5 MW blade', '  NREL  5.0 MW', 'Blade'])
    L = ['------- AERODYN v15.00.* BLADE DEFINITION INPUT FILE -------------------------------------', com, '======  Blade Properties =================================================================',
         '%8d   NumBlNds    - Number of blade nodes used in the analysis (-)' % n, '  ' + '   '.join(cols.split()), '   ' + '    '.join(units.split())] + rows
    fc = ['%s_[%s]' % (c, u[1:-1]) for c, u in zip(cols.split(), units.split())]
    exp = {'BldAeroNodes': (v, 1e-14, 0), 'NumBlNds': (n, 0, 0), 'comment': (com, 0, 0), 'columns': (fc, 0, 0), 'table': (v, 1e-14, 0)}

    def f(o):
        df = o.toDataFrame()
        return {'BldAeroNodes': o['BldAeroNodes'], 'NumBlNds': o['NumBlNds'], 'comment': o.comment, 'columns': list(df.columns)[:7], 'table': df.values[:, :7]}
    return out({'f.dat': eol(r, L)}, 'f.dat', KL, None, f, exp, cuts=('lines', 'f.dat', 6, 5 + n))


@ref_
def _edbld(r, size):
    n = r.rows(min(size, 2), 2)
    exp = {}
    rows, v = table(r, n, 6, r.choice(['  ', '\t']))
    x = np.linspace(0, 1, n)
    rows = ['%.7E %s' % (a, b.split(None, 1)[1]) for a, b in zip(x, rows)]
    v[:, 0] = ['%.7E' % a for a in x]
    L = ['------- ELASTODYN V1.00.* INDIVIDUAL BLADE INPUT FILE --------------------------', 'a blade', '---------------------- BLADE PARAMETERS ----------------------------------------',
         '%11d   NBlInpSt    - Number of blade input stations (-)' % n] + [line(r, exp, k, 'float') for k in ('BldFlDmp(1)', 'BldFlDmp(2)', 'BldEdDmp(1)')] + \
        ['---------------------- BLADE ADJUSTMENT FACTORS --------------------------------'] + [line(r, exp, k, 'float') for k in ('FlStTunr(1)', 'FlStTunr(2)', 'AdjBlMs', 'AdjFlSt', 'AdjEdSt')] + \
        ['---------------------- DISTRIBUTED BLADE PROPERTIES ----------------------------', ' BlFract  PitchAxis  StrcTwst  BMassDen  FlpStff  EdgStff', '  (-)  (-)  (deg)  (kg/m)  (Nm^2)  (Nm^2)'] + rows + \
        ['---------------------- BLADE MODE SHAPES ---------------------------------------']
    c = {}
    for m in ('BldFl1Sh', 'BldFl2Sh', 'BldEdgSh'):
        for i in range(2, 7):
            L.append(line(r, exp, '%s(%d)' % (m, i), 'float'))
            c[m, i] = exp['%s(%d)' % (m, i)][0]
    exp['BldProp'], exp['NBlInpSt'] = (v, 1e-14, 0), (n, 0, 0)
    for k, m in (('ShapeFlap1_[-]', 'BldFl1Sh'), ('ShapeFlap2_[-]', 'BldFl2Sh'), ('ShapeEdge1_[-]', 'BldEdgSh')):
        exp['df' + k] = (sum(c[m, i] * v[:, 0]**i for i in range(2, 7)), 1e-9, 1e-12 * max(abs(c[m, i]) for i in range(2, 7)))

    def f(o):
        df = o.toDataFrame()
        return {k: df[k[2:]].values if k.startswith('df') else o[k] for k in exp}
    i0 = next(i for i, l in enumerate(L) if 'BlFract' in l) + 2
    return out({'f.dat': eol(r, L)}, 'f.dat', KL, None, f, exp, cuts=('lines', 'f.dat', i0, i0 + n - 1))


@ref_
def _bdbld(r, size):
    n = r.rows(min(size, 1), 2)
    mu = ['%.4E' % x for x in r.np.uniform(0, 1, 6)]
    L = ['------- BEAMDYN V1.00.* INDIVIDUAL BLADE INPUT FILE --------------------------', r.choice(['! a beam', 'a beam']), ' ---------------------- BLADE PARAMETERS --------------------------------------',
         '%4d   station_total    - Number of blade input stations (-)' % n, ' %d   damp_type        - Damping type (switch): 0: no damping; 1: viscous damping' % r.randrange(2),
         '  ---------------------- DAMPING COEFFICIENT------------------------------------', '   mu1        mu2        mu3        mu4        mu5        mu6', '   (s)        (s)        (s)        (s)        (s)        (s)', '  '.join(mu),
         ' ---------------------- DISTRIBUTED PROPERTIES---------------------------------']
    span, K, M = np.array([float('%.6f' % x) for x in np.linspace(0, 1, n)]), [], []
    for j in range(n):
        L.append(r.choice(['  %.6f', '%.6f ', '%9.6f']) % span[j])
        for T in (K, M):
            a = r.arr(6, 6, kind=r.choice(['scaled', 'unit', 'mixed']))
            s, v = num(r, a, r.choice(['%.16E', '%.6E', '%.15E']))
            T.append(v)
            L += ['   ' + '  '.join(s[6 * i:6 * i + 6]) for i in range(6)] + ['']
    K, M = np.array(K), np.array(M)
    cols = ['Span'] + ['K%d%d' % (i, j) for i in range(1, 7) for j in range(1, 7)] + ['M%d%d' % (i, j) for i in range(1, 7) for j in range(1, 7)]
    v = np.column_stack([span, K.reshape(n, 36), M.reshape(n, 36)])
    exp = {'span': (span, 0, 1e-15), 'K': (K, 1e-15, 0), 'M': (M, 1e-15, 0), 'mu': ([[float(x) for x in mu]], 1e-15, 0), 'columns': (sorted(cols), 0, 0), 'table': (v, 1e-15, 0)}

    def f(o):
        b, df = o['BeamProperties'], o.toDataFrame()
        return {'span': b['span'], 'K': b['K'], 'M': b['M'], 'mu': o['DampingCoeffs'], 'columns': sorted(df.columns), 'table': df[cols].values}
    return out({'f.dat': eol(r, L)}, 'f.dat', KL, None, f, exp, cuts=('lines', 'f.dat', 10, 8 + 15 * n))


@ref_
def _extptfm(r, size):
    n, dt = 1 + r.randrange(8), r.choice([0.01, 0.05, 0.1, 0.25])
    nt = r.rows(min(size, 1), 2)
    T = round(dt * (nt - 1), 6)
    exp = {'nDOF': (n, 0, 0), 'dt': (dt, 1e-15, 0), 'T': (T, 1e-15, 0)}
    L = ['!' + r.choice(['Comment', 'a platform, ' + r.names(1)[0]]), '!Flex 5 Format', '!Dimension: %d' % n, '!Time increment in simulation: %r' % dt, '!Total simulation time in file: %r' % T, '']
    for k, w in (('MassMatrix', '!Mass Matrix'), ('StiffnessMatrix', '!Stiffness Matrix'), ('DampingMatrix', '!Damping Matrix')):
        rows, v = table(r, n, n, '  ')
        exp[k] = (v, 1e-15, 0)
        L += [w, '!Dimension: %d' % n] + rows + ['']
    rows, v = table(r, nt, n + 1, '  ', '%.8e')
    t = np.round(np.arange(nt) * dt, 6)
    rows = ['%.8e %s' % (a, b.split(None, 1)[1]) for a, b in zip(t, rows)]
    v[:, 0] = ['%.8e' % a for a in t]
    exp['Loading'] = (v, 1e-15, 0)
    i0 = len(L) + 2
    L += ['!Loading and Wave Elevation', '!Dimension: 1 time column -  %d force columns' % n] + rows
    cols = (['Time_[s]', 'InpF_Fx_[N]', 'InpF_Fy_[N]', 'InpF_Fz_[N]', 'InpF_Mx_[Nm]', 'InpF_My_[Nm]', 'InpF_Mz_[Nm]'] + ['CBF_%03d_[-]' % i for i in range(1, 9)])[:n + 1]
    return out({'f.dat': eol(r, L)}, 'f.dat', KL, {'': (cols, v, 1e-15, 0)}, lambda o: {k: o[k] for k in exp}, exp, cuts=('lines', 'f.dat', i0, i0 + nt - 1))


UA = ('alpha0 alpha1 alpha2 eta_e C_nalpha T_f0 T_V0 T_p T_VL b1 b2 b5 A1 A2 A5 S1 S2 S3 S4 Cn1 Cn2 St_sh Cd0 Cm0 k0 k1 k2 k3 k1_hat x_cp_bar UACutout filtCutOff').split()


@ref_
def _polar15(r, size):
    nt = r.choice([1, 1, 2, 3])
    exp = {'NumTabs': (nt, 0, 0)}
    com = r.choice(['! a polar', '! polar of ' + r.names(1)[0], '! ' + 'Pr\xe9vision'])
    L = ['! ------------ AirfoilInfo v1.01.x Input File ----------------------------------', com, '! line', '! line', '! ------------------------------------------------------------------------------']
    q = r.choice(['DEFAULT', '"DEFAULT"', '3', '1'])
    L += ['%s   InterpOrd   ! Interpolation order to use for quasi-steady table lookup {1=linear; 3=cubic spline; "default"} [default=3]' % q,
          '1   NonDimArea  ! The non-dimensional area of the airfoil (area/chord^2) (set to 1.0 if unsure or unneeded)']
    exp['InterpOrd'] = (int(q) if q.isdigit() else q, 0, 0)
    co = r.choice(['0', '@"coords.txt"'])
    exp['NumCoords'] = (0 if co == '0' else co, 0, 0)
    L += ['%s  NumCoords   ! The number of coordinates in the airfoil shape file. Set to zero if coordinates not included.' % co] + (['"pol_BL.txt"   BL_file     ! The file name including the boundary layer characteristics of the profile. Ignored if the aeroacoustic module is not called.'] if r.random() < 0.4 else []) + \
        ['%d  NumTabs     ! Number of airfoil tables in this file.  Each table must have lines for Re and Ctrl.' % nt]
    tabs = []
    for k in range(nt):
        sfx = '_%d' % (k + 1) if nt > 1 else ''
        L += ['! ------------------------------------------------------------------------------', '! data for table %d' % (k + 1), '! ------------------------------------------------------------------------------']
        re_ = round(r.uniform(0.05, 12), 3)
        L += ['%8s   Re   ! Reynolds number in millions' % re_, ' 0   Ctrl  ! Control setting (must be 0 for current AirfoilInfo)']
        exp['re' + sfx] = (re_, 1e-15, 0)
        ua = r.random() < 0.7
        L += ['%s  InclUAdata  ! Is unsteady aerodynamics data included in this table? If TRUE, then include 30 UA coefficients below this line' % r.choice(['True', 'TRUE'] if ua else ['False', 'FALSE'])]
        exp['InclUAdata' + sfx] = (ua, 0, 0)
        L.append('!........................................')
        if ua:
            for u in UA:
                if u in ('T_f0', 'T_V0', 'T_p', 'T_VL', 'b1', 'b2', 'St_sh', 'UACutout') and r.random() < 0.7:
                    s = v = r.choice(['DEFAULT', '"DEFAULT"', '"Default"'])
                else:
                    s, v = value(r, r.choice(['int', 'float']))
                L.append('   %s   %s   ! constant of the model. [default = 3]' % (s, u))
                exp[u + sfx] = (v, 1e-15 if isinstance(v, float) else 0, 0)
            L.append('!........................................')
        n = 2 + r.rows(min(size, 2)) + (24 if not ua or nt == 1 else 0)     # not most of the lines are comments
        s, v = num(r, np.column_stack([np.linspace(-180, 180, n)] + [r.arr(n, kind='unit') for _ in range(3)]), r.choice(['%.7E', '%12.5f', '%.6e']))
        L += ['! Table of aerodynamics coefficients', '  %d   NumAlf   ! Number of data lines in the following table' % n, '!    Alpha      Cl      Cd      Cm', '!    (deg)      (-)     (-)      (-)']
        L += ['   '.join(s[4 * i:4 * i + 4]) for i in range(n)]
        exp['AFCoeff' + sfx], exp['NumAlf' + sfx] = (v, 1e-15, 0), (n, 0, 0)
        tabs.append((sfx, v))
    exp['comment'] = (com[2:], 0, 0)
    for sfx, v in tabs:
        exp['df' + sfx] = (v, 1e-14, 0)
        exp['col' + sfx] = (['Alpha_[deg]', 'Cl_[-]', 'Cd_[-]', 'Cm_[-]'], 0, 0)

    def f(o):
        d, df = {}, o.toDataFrame()
        for k in exp:
            if k.startswith(('df', 'col')):
                sfx = k.lstrip('dfcol')
                t = df['AFCoeff' + sfx] if isinstance(df, dict) else df
                d[k] = t.values[:, :4] if k.startswith('df') else list(t.columns)[:4]
            elif k == 'comment':
                d[k] = o.comment.split('\n')[0].lstrip('! ')
            else:
                d[k] = o[k]
        return d
    e = r.choice(['\n', '\n', '\r\n'])
    return out({'f.dat': (e.join(L) + e).encode('utf-8')}, 'f.dat', KL, None, f, exp, cuts=('lines', 'f.dat', len(L) - n, len(L) - 1))


@ref_
def _polar14(r, size):
    nt, n = 1, 6 + r.rows(min(size, 2))
    nc = r.choice([3, 4])
    L = ['%s airfoil with an aspect ratio of 17' % r.names(1)[0], 'some words about the airfoil', '   1        Number of airfoil tables in this file', '   0.0      Table ID parameter']
    vals = {}
    for lab in ('Stall angle (deg)', 'Zero Cn angle of attack (deg)', 'Cn slope for zero lift (dimensionless)', 'Cn extrapolated to value at positive stall angle of attack',
                'Cn at stall value for negative angle of attack', 'Angle of attack for minimum CD (deg)', 'Minimum CD value'):
        s, v = value(r, 'float')
        vals[lab] = v
        L.append('  %s   %s' % (s, lab))
        if lab.startswith('Stall'):
            L += ['   0.0      No longer used, enter zero'] * 3
    s, v = num(r, np.column_stack([np.linspace(-180, 180, n)] + [r.arr(n, kind='unit') for _ in range(nc - 1)]), r.choice(['%.7E', '%12.5f', '%.4f']))
    L += [' ' + '  '.join(s[nc * i:nc * i + nc]) for i in range(n)]
    exp = {k: (x, 1e-15, 0) for k, x in vals.items()}
    exp['Polar'] = (v, 1e-15, 0)
    fr = {'': (['Alpha_[deg]', 'Cl_[-]', 'Cd_[-]', 'Cm_[-]'][:nc], v, 1e-14, 0)}
    tail = r.choice([[], [''], ['', 'EOT 1']])
    return out({'f.dat': eol(r, L + tail)}, 'f.dat', KL, fr, lambda o: {k: o[k] for k in exp}, exp)


@ref_
def _coords(r, size):
    n = r.rows(min(size, 2), 3)
    s, v = num(r, np.column_stack([r.np.uniform(0, 1, n), r.np.uniform(-.2, .2, n)]), '%.6f')
    p = [round(r.uniform(0, 1), 3), round(r.uniform(-.1, .1), 3)]
    L = ['   %d   NumCoords         ! The number of coordinates in the airfoil shape file (including an extra coordinate for airfoil reference).  Set to zero if coordinates not included.' % (n + 1),
         '! ......... x-y coordinates are next if NumCoords > 0 .............', '! x-y coordinate of airfoil reference', '!  x/c        y/c', '%r      %r' % tuple(p),
         '! coordinates of airfoil shape', '! airfoil ' + r.names(1)[0], '!  x/c        y/c'] + ['%s%s%s' % (s[2 * i], r.choice(['\t', '  ']), s[2 * i + 1]) for i in range(n)]
    exp = {'NumCoords': (n + 1, 0, 0), 'AirfoilRefPoint': (p, 1e-15, 0), 'AirfoilCoord': (v, 1e-15, 0)}
    return out({'f.txt': eol(r, L)}, 'f.txt', KL, {'': (['x/c_[-]', 'y/c_[-]'], v, 1e-15, 0)}, lambda o: {k: o[k] for k in exp}, exp, cuts=('lines', 'f.txt', 8, 7 + n))
