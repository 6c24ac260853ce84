"""Reference encoder of a FAST input deck: a main file and the files it names, in directories of their own."""
import os
import numpy as np
from .refs import ref_, out, eol, table, err, REFS
from .refs_fast import line, descr, fill

ALL = ['Fst', 'ED', 'AD', 'BD', 'BDbld', 'EDtwr', 'EDbld', 'ADbld', 'AF', 'AC', 'IW', 'HD', 'SrvD', 'SD', 'MD']


def module(r, title, entries, extra=6):
    """a module input file; entries: text of value, label -> lines, expected"""
    exp = {}
    L = ['------- %s INPUT FILE -------------------------------' % title, r.choice(['a description of the case', 'Case file, for tests'])]
    L += fill(r, exp, 6 + r.randrange(extra))
    for s, k, v in entries:
        L.append('%s   %s   %s' % (s, k, descr(r)))
        exp[k] = (v, 0, 0)
    L += fill(r, exp, 6 + r.randrange(extra))
    low = [k.lower() for k in exp]
    if len(set(low)) != len(low):
        return module(r, title, entries, extra)
    return L, exp


def sub(r, name, size):
    return REFS[name](r, min(size, 1))


def join(*p):
    return os.path.normpath(os.path.join(*p)).replace('\\', '/')


@ref_
def _deck(r, size, opts=False):
    files, expect, subs = {}, {}, {}
    dirs = r.choice([dict(ED='', AD='', IW=''), dict(ED='ED', AD='AD', IW='wind'), dict(ED='', AD='aero', IW='')])
    q = lambda s: '"%s"' % s

    def put(mod, path, L, exp):
        files[path] = eol(r, L)
        subs[mod] = exp

    comp = dict(CompElast=r.choice([1, 1, 1, 2]), CompInflow=r.choice([0, 1, 1]), CompAero=r.choice([0, 2, 2]), CompServo=r.choice([0, 1]), CompHydro=r.choice([0, 0, 1]),
                CompSub=r.choice([0, 0, 1]), CompMooring=r.choice([0, 0, 1, 2]), CompIce=0)
    names = {'EDFile': join(dirs['ED'], 'ed.dat'), 'InflowFile': join(dirs['IW'], 'iw.dat'), 'AeroFile': join(dirs['AD'], 'ad.dat'), 'ServoFile': 'srvd.dat', 'HydroFile': 'hd.dat', 'SubFile': 'sd.dat',
             'MooringFile': 'moor.dat', 'BDBldFile(1)': join(dirs['ED'], 'bd.dat')}
    for k, c in (('InflowFile', 'CompInflow'), ('AeroFile', 'CompAero'), ('ServoFile', 'CompServo'), ('HydroFile', 'CompHydro'), ('SubFile', 'CompSub'), ('MooringFile', 'CompMooring')):
        if not comp[c]:
            names[k] = r.choice(['unused', 'none', 'NA'])
    lost = r.choice([None] * 6 + ['ServoFile', 'HydroFile'])                # a file that is named but does not exist
    ent = [('3', 'InterpOrder', 3.0)] + [('%d' % v, k, float(v)) for k, v in comp.items()] + [(q(names[k]), k, q(names[k])) for k in names]
    ent += [(q(names['BDBldFile(1)']), 'BDBldFile(%d)' % i, q(names['BDBldFile(1)'])) for i in (2, 3)] + [('"unused"', 'IceFile', '"unused"')]
    L, exp = module(r, 'OpenFAST EXAMPLE', ent)
    put('Fst', 'main.fst', L, exp)

    bl = r.choice(['BldFile(%d)', 'BldFile%d'])
    e = [(q('twr.dat'), 'TwrFile', q('twr.dat'))] + [(q('bld.dat'), bl % i, q('bld.dat')) for i in (1, 2, 3)]
    put('ElastoDyn', names['EDFile'], *module(r, 'ELASTODYN v1.03.*', e))
    n = 2 + r.randrange(5)
    rows, v = table(r, n, 4, '  ', '%.6E')
    tw = {}
    L = ['------- ELASTODYN V1.00.* TOWER INPUT FILE -------------------------------------', 'a tower', '---------------------- TOWER PARAMETERS ----------------------------------------', '  %d   NTwInpSt    - Number of input stations' % n]
    L += [line(r, tw, k, 'float') for k in ('TwrFADmp(1)', 'TwrFADmp(2)', 'AdjTwMa', 'AdjFASt')]
    L += ['---------------------- DISTRIBUTED TOWER PROPERTIES ----------------------------', '  HtFract   TMassDen   TwFAStif   TwSSStif', '   (-)      (kg/m)   (Nm^2)    (Nm^2)'] + rows
    L += ['---------------------- TOWER FORE-AFT MODE SHAPES ------------------------------'] + [line(r, tw, 'TwFAM1Sh(%d)' % i, 'float') for i in range(2, 7)]
    tw['NTwInpSt'], tw['TowProp'] = (n, 0, 0), (v, 1e-14, 0)
    put('ElastoDynTower', join(dirs['ED'], 'twr.dat'), L, tw)
    b = sub(r, 'edbld', size)
    files[join(dirs['ED'], 'bld.dat')], subs['ElastoDynBlade'] = list(b['files'].values())[0], b
    if comp['CompElast'] == 2:
        put('BeamDyn', names['BDBldFile(1)'], *module(r, 'BEAMDYN with OpenFAST', [(q('bdbld.dat'), 'BldFile', q('bdbld.dat'))]))
        b = sub(r, 'bdbld', size)
        files[join(dirs['ED'], 'bdbld.dat')], subs['BeamDynBlade'] = list(b['files'].values())[0], b
    if comp['CompInflow']:
        put('InflowWind', names['InflowFile'], *module(r, 'InflowWind v3.01.*', []))
    na, ac = 0, 0
    if comp['CompAero']:
        na = 1 + r.randrange(3)
        af = [r.choice(['Airfoils/af%d.dat', 'af%d.dat', 'AF/my af%d.dat']) % i for i in range(na)]
        L, exp = module(r, 'AERODYN v15.03.*', [(q('adbld.dat'), 'ADBlFile(%d)' % i, q('adbld.dat')) for i in (1, 2, 3)])
        L += ['  %d   NumAFfiles   - number of files' % na] + ['%s%s' % (q(x), '    AFNames   - names of the files (quoted strings)' if i == 0 else '') for i, x in enumerate(af)] + fill(r, dict(), 2)
        exp['NumAFfiles'], exp['=AFNames'] = (na, 0, 0), ([q(x) for x in af], 0, 0)
        put('AeroDyn15', names['AeroFile'], L, exp)
        b = sub(r, 'adbld', size)
        files[join(dirs['AD'], 'adbld.dat')], subs['AeroDynBlade'] = list(b['files'].values())[0], b
        for i, x in enumerate(af):
            b = sub(r, 'polar15', 0)
            p = join(dirs['AD'], x)
            files[p], subs['af_data', i] = list(b['files'].values())[0], b
            if b['expect']['NumCoords'][0] != 0:
                c = sub(r, 'coords', 0)
                cp = join(os.path.dirname(p), 'coords.txt')
                if cp in files:
                    c = next(s for s in subs.values() if isinstance(s, dict) and s.get('at') == cp)
                else:
                    files[cp] = list(c['files'].values())[0]
                    c['at'] = cp
                subs['ac_data', ac] = c
                ac += 1
    if comp['CompServo']:
        put('ServoDyn', names['ServoFile'], *module(r, 'SERVODYN v1.05.*', []))
    if comp['CompHydro']:
        put('HydroDyn', names['HydroFile'], *module(r, 'HydroDyn v2.03.*', []))
    if comp['CompSub']:
        put('SubDyn', names['SubFile'], *module(r, 'SubDyn v1.01.x', []))
    if comp['CompMooring']:
        put('MAP' if comp['CompMooring'] == 1 else 'MoorDyn', names['MooringFile'], *module(r, 'Mooring', []))
    for k, m in (('ServoFile', 'ServoDyn'), ('HydroFile', 'HydroDyn')):
        if lost == k and m in subs:
            del subs[m], files[names[k]]
    kw = {}
    modkey = {'Fst': 'Fst', 'ElastoDyn': 'ED', 'ElastoDynTower': 'EDtwr', 'ElastoDynBlade': 'EDbld', 'BeamDyn': 'BD', 'BeamDynBlade': 'BDbld', 'InflowWind': 'IW', 'AeroDyn15': 'AD', 'AeroDynBlade': 'ADbld',
              'af_data': 'AF', 'ac_data': 'AC', 'ServoDyn': 'SrvD', 'HydroDyn': 'HD', 'SubDyn': 'SD', 'MAP': 'MD', 'MoorDyn': 'MD'}
    if opts:
        want = r.sample(ALL[1:], 1 + r.randrange(12))
        if {'EDtwr', 'EDbld'} & set(want):
            want.append('ED')
        if {'AF', 'AC', 'ADbld'} & set(want):
            want += ['AD', 'AF']
        if 'BDbld' in want:
            want.append('BD')
        kw = {'readlist': sorted(set(want))}
        subs = {k: s for k, s in subs.items() if modkey[k if isinstance(k, str) else k[0]] in want + ['Fst']}
        if 'AD' not in want:
            na = 0
        if 'AC' not in want:
            subs = {k: s for k, s in subs.items() if k[0] != 'ac_data'}

    def get(o):
        g, vt = {'modules': sorted(k for k, v in o.fst_vt.items() if v is not None and not isinstance(v, (list, str)))}, o.fst_vt
        g['polars'], g['coordinates'] = len(vt['af_data']), len([x for x in vt['ac_data'] if x is not None])
        for k, s in subs.items():
            m = vt[k] if isinstance(k, str) else vt[k[0]][k[1]]
            if 'expect' in s and 'klass' in s:
                d = s['get'](m) if s['get'] else {}
                for x, (v, rt, at) in s['expect'].items():
                    g['%s %s' % (k, x)] = d[x]
            else:
                for x in s:
                    g['%s %s' % (k, x)] = [str(y) for y in m[x[1:]]] if x[0] == '=' else m[x]
        g['version'] = o.version
        return g
    expect['modules'] = (sorted(k for k in subs if isinstance(k, str)), 0, 0)
    expect['version'] = ('OF2', 0, 0)
    expect['polars'] = (na, 0, 0)
    expect['coordinates'] = (len([k for k in subs if k[0] == 'ac_data']), 0, 0)
    for k, s in subs.items():
        for x, t in (s['expect'] if 'klass' in s else s).items():
            expect['%s %s' % (k, x)] = t
    return out(files, 'main.fst', 'fast_input_deck.FASTInputDeck', None, get, expect, auto=False, kw=kw, kwread=False)


@ref_
def _deck_opt(r, size):
    return _deck(r, size, True)
