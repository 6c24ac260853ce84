"""SubDyn and HydroDyn input files with all their tables, and the model (joints, members, properties) that they describe."""
import numpy as np
from .refs import ref_, out, eol, num


def _tab(r, L, exp, dim, name, cols, rows, fixed=False):
    """rows: lists of values; floats are written such that they are read back exactly"""
    if not fixed:
        L.append('   %d   %s   - number of %s' % (len(rows), dim, name))
        exp[dim] = (len(rows), 0, 0)
    L.append('  '.join(cols))
    L.append('  '.join(['(-)'] * len(cols)))
    for x in rows:
        L.append('   '.join(v if isinstance(v, str) else '%d' % v if isinstance(v, int) else repr(float(v)) for v in x))
    if rows and not any(isinstance(v, str) for v in rows[0]):
        exp[name] = (np.array(rows, float), 1e-14, 0)


def _f(r, n, lo=-9., hi=9., d=4):
    return [round(float(x), d) for x in r.np.uniform(lo, hi, n)]


def _nodes(r, size):
    n = 2 + r.randrange(4 if size < 2 else 12)
    ids = list(range(1, n + 1)) if r.random() < 0.6 else sorted(r.sample(range(1, 200), n))
    if r.random() < 0.2:
        r.shuffle(ids)
    P = [_f(r, 3, -40, 40, 3) for _ in ids]
    return ids, P


def _members(r, ids, n):
    out = []
    for k in range(n):
        i = r.sample(ids, 2) if k >= len(ids) - 1 else [ids[k], ids[k + 1]]
        out.append(i)
    mid = list(range(1, n + 1)) if r.random() < 0.6 else sorted(r.sample(range(1, 300), n))
    return list(zip(mid, out))



@ref_
def _sdgraph(r, size):
    ids, P = _nodes(r, size)
    exp, L = {}, ['----------- SubDyn v1.04.x MultiMember Support Structure Input File ------------', 'a structure', '---- SIMULATION CONTROL  ----', 'False   Echo   - Echo input (flag)', '3   IntMethod   - method',
                  '---- STRUCTURE JOINTS ----']
    exp['IntMethod'] = (3, 0, 0)
    five = r.random() < 0.5
    J = [[i] + p + ([1, 0.0, 0.0, 0.0, 0.0] if five else []) for i, p in zip(ids, P)]
    _tab(r, L, exp, 'NJoints', 'Joints', 'JointID JointXss JointYss JointZss'.split() + ('JointType JointDirX JointDirY JointDirZ JointStiff'.split() if five else []), J)
    L.append('---- BASE REACTION JOINTS ----')
    base = [[i] + [r.randrange(2) for _ in range(6)] + (['"soil%d.txt"' % k] if k == 0 or r.random() < 0.5 else ['""']) for k, i in enumerate(r.sample(ids, r.randrange(1 + len(ids) // 2)))]
    _tab(r, L, exp, 'NReact', 'BaseJoints', 'RJointID RctTDXss RctTDYss RctTDZss RctRDXss RctRDYss RctRDZss SSIFile'.split(), base)
    L.append('---- INTERFACE JOINTS ----')
    itf = [[i] + [r.randrange(2) for _ in range(6)] for i in r.sample(ids, r.randrange(1 + len(ids) // 2))]
    _tab(r, L, exp, 'NInterf', 'InterfaceJoints', 'IJointID ItfTDXss ItfTDYss ItfTDZss ItfRDXss ItfRDYss ItfRDZss'.split(), itf)
    np_ = 1 + r.randrange(3)
    beams = [[i + 1] + [float('%.4e' % x) for x in r.np.uniform(1e10, 9e11, 2)] + _f(r, 3, 0.1, 9) for i in range(np_)]
    cables = [[i + 1] + _f(r, 3, 1, 1e5) for i in range(r.randrange(3))]
    rigids = [[i + 1] + _f(r, 1, 1, 1e4) for i in range(r.randrange(3))]
    same = r.random() < 0.6
    mem = []
    for k, (i, ab) in enumerate(_members(r, ids, 1 + r.randrange(len(ids) + 2))):
        t = r.choice([1, 1, 1] + ([2] if cables else []) + ([3] if rigids else []))
        n = len((beams, cables, rigids)[t - 1])
        a = 1 + r.randrange(n)
        mem.append([i] + ab + [a, a if same else 1 + r.randrange(n), t])
    if all(m[5] == 1 for m in mem) and r.random() < 0.5:
        mem = [m[:5] for m in mem]
    L.append('---- MEMBERS ----')
    _tab(r, L, exp, 'NMembers', 'Members', 'MemberID MJointID1 MJointID2 MPropSetID1 MPropSetID2 MType'.split()[:len(mem[0])], mem)
    exp.pop('Members', None)
    L.append('---- MEMBER X-SECTION PROPERTY data 1/2 ----')
    _tab(r, L, exp, 'NPropSets', 'BeamProp', 'PropSetID YoungE ShearG MatDens XsecD XsecT'.split(), beams)
    L.append('---- CABLE PROPERTIES ----')
    _tab(r, L, exp, 'NCablePropSets', 'CableProp', 'PropSetID EA MatDens T0'.split(), cables)
    L.append('---- RIGID LINK PROPERTIES ----')
    _tab(r, L, exp, 'NRigidPropSets', 'RigidProp', 'PropSetID MatDens'.split(), rigids)
    L.append('---- JOINT ADDITIONAL CONCENTRATED MASSES ----')
    cm = [[i] + _f(r, 10, -1e3, 1e4, 2) for i in r.sample(ids, r.randrange(1 + len(ids) // 2))]
    _tab(r, L, exp, 'NCmass', 'ConcentratedMasses', 'CMJointID JMass JMXX JMYY JMZZ JMXY JMXZ JMYZ MCGX MCGY MCGZ'.split(), cm)
    L += ['---- OUTPUT ----', 'True   SSSum   - Output a Summary File (flag)', 'END of input']
    data = {i: {'Type': 1} for i in ids}
    for c in cm:
        m, c3 = c[1], np.array(c[8:11])
        S = np.array([[0, -c3[2], c3[1]], [c3[2], 0, -c3[0]], [-c3[1], c3[0], 0]])
        Jm = np.array([[c[2], c[5], c[6]], [c[5], c[3], c[7]], [c[6], c[7], c[4]]])
        data[c[0]]['addedMassMatrix'] = np.block([[m * np.eye(3), -m * S], [m * S, Jm - m * S @ S]])
    for x in itf:
        data[x[0]]['IBC'] = x[1:]
    for x in base:
        data[x[0]]['RBC'] = x[1:7]
    T = ['Beam', 'Cable', 'Rigid']
    props = {'Beam': {b[0]: dict(zip('E G rho D t'.split(), b[1:])) for b in beams}, 'Cable': {b[0]: dict(zip('EA rho T0'.split(), b[1:])) for b in cables}, 'Rigid': {b[0]: {'rho': b[1]} for b in rigids}}
    els = [dict(ID=m[0], nodes=m[1:3], propset=T[(m[5] if len(m) > 5 else 1) - 1], propIDs=m[3:5], data={}, type=T[(m[5] if len(m) > 5 else 1) - 1], D=1) for m in mem]
    o = out({'f_SD.dat': eol(r, L)}, 'f_SD.dat', 'fast_input_file.FASTInputFile', None, lambda o: {k: o[k] for k in exp}, exp)
    o['graph'] = dict(nodes=[(i, p, data[i]) for i, p in zip(ids, P)], els=els, props=props, misc={}, same=same)
    return o


@ref_
def _hdgraph(r, size):
    ids, P = _nodes(r, size)
    new = r.random() < 0.6
    exp, L = {}, ['------- HydroDyn v2.03.* Input File --------------------------------------------', 'a platform', 'False   Echo   - Echo the input file data (flag)', '---- ENVIRONMENTAL CONDITIONS ----', '1025   WtrDens   - Water density (kg/m^3)']
    exp['WtrDens'] = (1025, 0, 0)
    L.append('---- AXIAL COEFFICIENTS ----')
    na = 1 + r.randrange(3)
    ax = [[i + 1] + _f(r, 3, 0, 2) for i in range(na)]
    _tab(r, L, exp, 'NAxCoef', 'AxCoefs', 'AxCoefID AxCd AxCa AxCp'.split(), ax)
    L.append('---- MEMBER JOINTS ----')
    ja = [1 + r.randrange(na) for _ in ids]
    _tab(r, L, exp, 'NJoints', 'Joints', 'JointID Jointxi Jointyi Jointzi JointAxID JointOvrlp'.split(), [[i] + p + [a, 0] for i, p, a in zip(ids, P, ja)])
    L.append('---- MEMBER CROSS-SECTION PROPERTIES ----')
    ns = 1 + r.randrange(3)
    sec = [[i + 1] + _f(r, 2, 0.1, 9) for i in range(ns)]
    _tab(r, L, exp, 'NPropSets', 'SectionProp', 'PropSetID PropD PropThck'.split(), sec)
    sc = 'Cd CdMG Ca CaMG Cp CpMG'.split() + (['AxCd', 'AxCdMG'] if new else []) + 'AxCa AxCaMG AxCp AxCpMG'.split()
    L.append('---- SIMPLE HYDRODYNAMIC COEFFICIENTS (model 1) ----')
    sm = _f(r, len(sc), 0, 2)
    _tab(r, L, exp, None, 'SmplProp', ['Simpl' + c for c in sc], [sm], fixed=True)
    L.append('---- DEPTH-BASED HYDRODYNAMIC COEFFICIENTS (model 2) ----')
    dp = [_f(r, 1 + len(sc), 0, 50) for _ in range(r.choice([0, 0, 1, 3]) if new else 0)]
    _tab(r, L, exp, 'NCoefDpth', 'DpthProp', ['Dpth'] + ['Dpth' + c for c in sc], dp)
    same = r.random() < 0.6
    ms = _members(r, ids, 1 + r.randrange(len(ids) + 2))
    L.append('---- MEMBER-BASED HYDRODYNAMIC COEFFICIENTS (model 3) ----')
    mc = [c + k for c in sc for k in '12']
    mb = [[i] + _f(r, len(mc), 0, 3) for i, _ in r.sample(ms, min(len(ms), r.choice([0, 0, 1, 3])) if new else 0)]
    _tab(r, L, exp, 'NCoefMembers', 'MemberProp', ['MemberID'] + ['Member' + c for c in mc], mb)
    mem = []
    for i, ab in ms:
        a = 1 + r.randrange(ns)
        mem.append([i] + ab + [a, a if same else 1 + r.randrange(ns), round(r.uniform(.1, 2), 3), r.choice([1, 1, 1] + ([2] if dp else []) + ([3] if [i] in [x[:1] for x in mb] else [])), r.choice(['TRUE', 'FALSE', 'True', 'False'])])
    L.append('---- MEMBERS ----')
    _tab(r, L, exp, 'NMembers', 'Members', 'MemberID MJointID1 MJointID2 MPropSetID1 MPropSetID2 MDivSize MCoefMod PropPot'.split(), mem)
    L.append('---- FILLED MEMBERS ----')
    _tab(r, L, exp, 'NFillGroups', 'FillGroups', 'FillNumM FillMList FillFSLoc FillDens'.split(), [])
    L.append('---- MARINE GROWTH ----')
    mg = [_f(r, 3, 0, 100) for _ in range(r.choice([0, 0, 1, 3]))]
    _tab(r, L, exp, 'NMGDepths', 'MGProp', 'MGDpth MGThck MGDens'.split(), mg)
    L += ['---- OUTPUT ----', 'False   HDSum   - Output a summary file (flag)', 'END of input']
    data = {i: dict(zip('JAxCd JAxCa JAxCp'.split(), ax[a - 1][1:])) for i, a in zip(ids, ja)}
    for m in mem:
        if m[6] == 1:
            for i in m[1:3]:
                data[i].update(zip(sc, sm))
    T = ['SimpleCoefs', 'DepthCoefs', 'MemberCoefs']
    els = [dict(ID=m[0], nodes=m[1:3], propset='Section', propIDs=m[3:5], data={'CoefMod': T[m[6] - 1], 'DivSize': m[5], 'Pot': m[7].lower() == 'true'}, type=1, D=1) for m in mem]
    props = {'Section': {s[0]: dict(D=s[1], t=s[2]) for s in sec}, 'AxCoefs': {s[0]: dict(zip('JAxCd JAxCa JAxCp'.split(), s[1:])) for s in ax}, 'SimpleCoefs': {1: dict(zip(sc, sm))}}
    misc = {'DepthCoefs': [dict(zip(['Dpth'] + sc, x)) for x in dp], 'MemberCoefs': [dict(zip(['MemberID'] + [c.lower() for c in mc], x)) for x in mb], 'MG': [dict(zip('MGDpth MGThck MGDens'.split(), x)) for x in mg]}
    exp.pop(None, None)
    o = out({'f_HD.dat': eol(r, L)}, 'f_HD.dat', 'fast_input_file.FASTInputFile', None, lambda o: {k: o[k] for k in exp}, exp)
    o['graph'] = dict(nodes=[(i, p, data[i]) for i, p in zip(ids, P)], els=els, props=props, misc=misc, same=same)
    return o
