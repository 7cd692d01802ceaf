"""Reference crystallography used as oracle (International Tables A), independent of /repo."""
from fractions import Fraction as F
from itertools import product
from hall import mm, mv, det, inv, tr, neg, I3

# short Hermann-Mauguin symbols, International Tables A, numbers 1-230
HM = dict(enumerate('''P1 P-1 P2 P2_1 C2 Pm Pc Cm Cc P2/m P2_1/m C2/m P2/c P2_1/c C2/c
P222 P222_1 P2_12_12 P2_12_12_1 C222_1 C222 F222 I222 I2_12_12_1 Pmm2 Pmc2_1 Pcc2 Pma2 Pca2_1 Pnc2 Pmn2_1
Pba2 Pna2_1 Pnn2 Cmm2 Cmc2_1 Ccc2 Amm2 Aem2 Ama2 Aea2 Fmm2 Fdd2 Imm2 Iba2 Ima2 Pmmm Pnnn Pccm Pban Pmma Pnna
Pmna Pcca Pbam Pccn Pbcm Pnnm Pmmn Pbcn Pbca Pnma Cmcm Cmce Cmmm Cccm Cmme Ccce Fmmm Fddd Immm Ibam Ibca Imma
P4 P4_1 P4_2 P4_3 I4 I4_1 P-4 I-4 P4/m P4_2/m P4/n P4_2/n I4/m I4_1/a P422 P42_12 P4_122 P4_12_12 P4_222
P4_22_12 P4_322 P4_32_12 I422 I4_122 P4mm P4bm P4_2cm P4_2nm P4cc P4nc P4_2mc P4_2bc I4mm I4cm I4_1md I4_1cd
P-42m P-42c P-42_1m P-42_1c P-4m2 P-4c2 P-4b2 P-4n2 I-4m2 I-4c2 I-42m I-42d P4/mmm P4/mcc P4/nbm P4/nnc P4/mbm
P4/mnc P4/nmm P4/ncc P4_2/mmc P4_2/mcm P4_2/nbc P4_2/nnm P4_2/mbc P4_2/mnm P4_2/nmc P4_2/ncm I4/mmm I4/mcm
I4_1/amd I4_1/acd P3 P3_1 P3_2 R3 P-3 R-3 P312 P321 P3_112 P3_121 P3_212 P3_221 R32 P3m1 P31m P3c1 P31c R3m R3c
P-31m P-31c P-3m1 P-3c1 R-3m R-3c P6 P6_1 P6_5 P6_2 P6_4 P6_3 P-6 P6/m P6_3/m P622 P6_122 P6_522 P6_222 P6_422
P6_322 P6mm P6cc P6_3cm P6_3mc P-6m2 P-6c2 P-62m P-62c P6/mmm P6/mcc P6_3/mcm P6_3/mmc P23 F23 I23 P2_13 I2_13
Pm-3 Pn-3 Fm-3 Fd-3 Im-3 Pa-3 Ia-3 P432 P4_232 F432 F4_132 I432 P4_332 P4_132 I4_132 P-43m F-43m I-43m P-43n
F-43c I-43d Pm-3m Pn-3n Pm-3n Pn-3m Fm-3m Fm-3c Fd-3m Fd-3c Im-3m Ia-3d'''.split(), 1))
assert len(HM) == 230 and HM[75] == 'P4' and HM[143] == 'P3' and HM[195] == 'P23' and HM[230] == 'Ia-3d'

# groups that International Tables describe with two origins (suffix 1/2) or two axes (suffix H/R)
TWO_ORIGINS = {48, 50, 59, 68, 70, 85, 86, 88, 125, 126, 129, 130, 133, 134, 137, 138, 141, 142, 201, 203, 222, 224,
               227, 228}
RHOMB = {146, 148, 155, 160, 161, 166, 167}
OLD_E = {39: 'Abm2', 41: 'Aba2', 64: 'Cmca', 67: 'Cmma', 68: 'Ccca'}


def hm_spellings(n):
    s = HM[n]
    out = {s}
    if 3 <= n <= 15:
        out.add(s[0] + '1' + s[1:] + '1')
    if n in OLD_E:
        out.add(OLD_E[n])
    if n in TWO_ORIGINS:
        out |= {x + y for x in list(out) for y in '12'}
    if n in RHOMB:
        out |= {x + y for x in list(out) for y in 'HR'}
    return out


def sg_system(n):
    for hi, name in ((2, 'Triclinic'), (15, 'Monoclinic'), (74, 'Orthorhombic'), (142, 'Tetragonal'),
                     (194, 'Hexagonal'), (230, 'Cubic')):
        if n <= hi:
            return 'Rhombohedral' if n in RHOMB else name


# ------------------------------------------------------------------ lattice characters (ITA table 9.2.5.1)
# number -> (type, equalities, D, E, F as functions of the free parameters, Bravais lattice)
BRAVAIS_OF_CHAR = {}
for _k, _v in (('cF', '1'), ('hR', '2 4 9 24'), ('cP', '3'), ('cI', '5'), ('tI', '6 7 15 18'), ('oI', '8 19 42'),
               ('mC', '10 14 17 20 25 27 28 29 30 37 39 41'), ('tP', '11 21'), ('hP', '12 22'), ('oC', '13 23 36 38 40'),
               ('oF', '16 26'), ('aP', '31 44'), ('oP', '32'), ('mP', '33 34 35'), ('mI', '43')):
    for _n in _v.split():
        BRAVAIS_OF_CHAR[int(_n)] = _k
assert len(BRAVAIS_OF_CHAR) == 44

SYSTEM_OF = {'a': 'Triclinic', 'm': 'Monoclinic', 'o': 'Orthorhombic', 't': 'Tetragonal', 'h': 'Hexagonal', 'c': 'Cubic'}


def system_of_bravais(b):
    return 'Rhombohedral' if b == 'hR' else SYSTEM_OF[b[0]]


def gram(A, B, C, D, E, Fv):
    return ((A, Fv, E), (Fv, B, D), (E, D, C))


def niggli_ok(A, B, C, D, E, Fv):
    """is (A,B,C,D,E,F) with D=b.c, E=a.c, F=a.b a Niggli-reduced form"""
    if not (0 < A <= B <= C):
        return False
    x, e, z = 2 * D, 2 * E, 2 * Fv
    if abs(x) > B or abs(e) > A or abs(z) > A:
        return False
    if x > 0 and e > 0 and z > 0:
        if A == B and abs(x) > abs(e):
            return False
        if B == C and abs(e) > abs(z):
            return False
        if x == B and z > 2 * e:
            return False
        if e == A and z > 2 * x:
            return False
        if z == A and e > 2 * x:
            return False
    elif x <= 0 and e <= 0 and z <= 0:
        if x + e + z + A + B < 0:
            return False
        if A == B and abs(x) > abs(e):
            return False
        if B == C and abs(e) > abs(z):
            return False
        if x == -B and z != 0:
            return False
        if e == -A and z != 0:
            return False
        if z == -A and e != 0:
            return False
        if x + e + z + A + B == 0 and 2 * A + 2 * e + z > 0:
            return False
    else:
        return False
    return det(gram(A, B, C, D, E, Fv)) > 0


def char_family(n, rnd):
    """a random member of lattice character n as exact rationals (A,B,C,D,E,F), or None if the draw is not reduced"""
    A = F(rnd.randint(40, 90), rnd.choice((1, 2, 3)))
    q = lambda lo, hi: lo + (hi - lo) * F(rnd.randint(1, 996), 997)
    B = A if n <= 17 else q(A, 2 * A)
    C = A if n <= 8 else (q(A, 2 * A) if n <= 17 else (B if n <= 25 else q(B, 2 * B)))
    p = lambda m: q(F(0), m)          # positive
    m_ = lambda m: -q(F(0), m)        # negative
    t = {
        1: lambda: (A / 2, A / 2, A / 2), 2: lambda: (lambda d: (d, d, d))(p(A / 2)), 3: lambda: (0, 0, 0),
        4: lambda: (lambda d: (d, d, d))(m_(A / 3)), 5: lambda: (-A / 3, -A / 3, -A / 3),
        6: lambda: (lambda d: (d, d, -A - 2 * d))(m_(A / 2)), 7: lambda: (lambda e: (-A - 2 * e, e, e))(m_(A / 2)),
        8: lambda: (lambda e, f: (-A - e - f, e, f))(m_(A / 2), m_(A / 2)),
        9: lambda: (A / 2, A / 2, A / 2), 10: lambda: (lambda d: (d, d, p(A / 2)))(p(A / 2)), 11: lambda: (0, 0, 0),
        12: lambda: (0, 0, -A / 2), 13: lambda: (0, 0, m_(A / 2)),
        14: lambda: (lambda d: (d, d, m_(A / 2)))(m_(A / 2)), 15: lambda: (-A / 2, -A / 2, 0),
        16: lambda: (lambda d: (d, d, -A - 2 * d))(m_(A / 2)),
        17: lambda: (lambda e, f: (-A - e - f, e, f))(m_(A / 2), m_(A / 2)),
        18: lambda: (A / 4, A / 2, A / 2), 19: lambda: (p(B / 2), A / 2, A / 2),
        20: lambda: (lambda e: (p(B / 2), e, e))(p(A / 2)), 21: lambda: (0, 0, 0), 22: lambda: (-B / 2, 0, 0),
        23: lambda: (m_(B / 2), 0, 0), 24: lambda: ((-A / 3 - B) / 2 + F(0), -A / 3, -A / 3),
        25: lambda: (lambda e: (m_(B / 2), e, e))(m_(A / 2)),
        26: lambda: (A / 4, A / 2, A / 2), 27: lambda: (p(B / 2), A / 2, A / 2),
        28: lambda: (lambda d: (d, A / 2, 2 * d))(p(A / 4)), 29: lambda: (lambda d: (d, 2 * d, A / 2))(p(A / 4)),
        30: lambda: (lambda e: (B / 2, e, 2 * e))(p(A / 4)), 31: lambda: (p(B / 2), p(A / 2), p(A / 2)),
        32: lambda: (0, 0, 0), 33: lambda: (0, m_(A / 2), 0), 34: lambda: (0, 0, m_(A / 2)), 35: lambda: (m_(B / 2), 0, 0),
        36: lambda: (0, -A / 2, 0), 37: lambda: (m_(B / 2), -A / 2, 0), 38: lambda: (0, 0, -A / 2),
        39: lambda: (m_(B / 2), 0, -A / 2), 40: lambda: (-B / 2, 0, 0), 41: lambda: (-B / 2, m_(A / 2), 0),
        42: lambda: (-B / 2, -A / 2, 0),
        # 2|D+E+F| = A+B and |2D+F| = B
        43: lambda: (lambda f: ((-B - f) / 2, (-A - f) / 2, f))(m_(A / 2)),
        44: lambda: (m_(B / 2), m_(A / 2), m_(A / 2)),
    }[n]()
    D, E, Fv = (F(v) for v in t)
    if n == 24:
        # 2|D+E+F| = A+B with E=F=-A/3
        D = -(A + B) / 2 + 2 * A / 3
    if not niggli_ok(A, B, C, D, E, Fv):
        return None
    return A, B, C, D, E, Fv


def char_members(n, rnd, k, tries=4000):
    out = []
    for _ in range(tries):
        m = char_family(n, rnd)
        if m is not None:
            out.append(m)
            if len(out) == k:
                break
    return out


def conv_form(b, G):
    """does metric G have the form the conventional cell of Bravais lattice b requires; returns reason or None"""
    A, B, C = G[0][0], G[1][1], G[2][2]
    D, E, Fv = G[1][2], G[0][2], G[0][1]
    s = b[0]
    bad = []
    if s == 'm' and (D != 0 or Fv != 0):
        bad.append('alpha and gamma must be 90')
    if s in 'otc' and (D or E or Fv):
        bad.append('all angles must be 90')
    if s == 't' and A != B:
        bad.append('a must equal b')
    if s == 'c' and not (A == B == C):
        bad.append('a, b, c must be equal')
    if s == 'h' and not (A == B and D == 0 and E == 0 and Fv == -A / 2):
        bad.append('a=b, alpha=beta=90, gamma=120 required')
    return '; '.join(bad) or None


H = F(1, 2)
CENT = {'P': [], 'A': [(0, H, H)], 'B': [(H, 0, H)], 'C': [(H, H, 0)], 'I': [(H, H, H)],
        'F': [(0, H, H), (H, 0, H), (H, H, 0)], 'R': [(F(2, 3), F(1, 3), F(1, 3)), (F(1, 3), F(2, 3), F(2, 3))]}


def points_mod1(M):
    """lattice points spanned by the columns of M, modulo the unit cell (M rational with integer inverse multiple)"""
    gens = [tuple(M[i][j] % 1 for i in range(3)) for j in range(3)]
    s = {(F(0),) * 3}
    new = list(s)
    while new:
        nx = []
        for p in new:
            for g in gens:
                q = tuple((a + b) % 1 for a, b in zip(p, g))
                if q not in s:
                    s.add(q)
                    nx.append(q)
        new = nx
        if len(s) > 200:
            break
    return s


def frac3(m):
    return tuple(tuple(F(x) for x in r) for r in m)


# ------------------------------------------------------------------ point groups
def optype(r):
    d = det(r)
    t = r[0][0] + r[1][1] + r[2][2]
    return {(1, 3): '1', (1, -1): '2', (1, 0): '3', (1, 1): '4', (1, 2): '6', (-1, -3): '-1', (-1, 1): 'm',
            (-1, 0): '-3', (-1, -1): '-4', (-1, -2): '-6'}.get((d, t))


def generate(gens, limit=100):
    ops = {I3}
    new = [I3]
    while new:
        nx = []
        for a in new:
            for g in gens:
                c = mm(a, g)
                if c not in ops:
                    ops.add(c)
                    nx.append(c)
        new = nx
        if len(ops) > limit:
            return None
    return ops


def signature(ops):
    c = {}
    for r in ops:
        c[optype(r)] = c.get(optype(r), 0) + 1
    return tuple(sorted(c.items(), key=str))


# geometric crystal classes by their counts of operation types (these counts separate all 32 classes)
CLASS = {
    '1': '1:1', '-1': '1:1 -1:1', '2': '1:1 2:1', 'm': '1:1 m:1', '2/m': '1:1 2:1 -1:1 m:1', '222': '1:1 2:3',
    'mm2': '1:1 2:1 m:2', 'mmm': '1:1 2:3 -1:1 m:3', '4': '1:1 2:1 4:2', '-4': '1:1 2:1 -4:2',
    '4/m': '1:1 2:1 4:2 -1:1 m:1 -4:2', '422': '1:1 2:5 4:2', '4mm': '1:1 2:1 4:2 m:4', '-42m': '1:1 2:3 -4:2 m:2',
    '4/mmm': '1:1 2:5 4:2 -1:1 m:5 -4:2', '3': '1:1 3:2', '-3': '1:1 3:2 -1:1 -3:2', '32': '1:1 3:2 2:3',
    '3m': '1:1 3:2 m:3', '-3m': '1:1 3:2 2:3 -1:1 -3:2 m:3', '6': '1:1 2:1 3:2 6:2', '-6': '1:1 3:2 m:1 -6:2',
    '6/m': '1:1 2:1 3:2 6:2 -1:1 -3:2 m:1 -6:2', '622': '1:1 2:7 3:2 6:2', '6mm': '1:1 2:1 3:2 6:2 m:6',
    '-6m2': '1:1 2:3 3:2 m:4 -6:2', '6/mmm': '1:1 2:7 3:2 6:2 -1:1 -3:2 m:7 -6:2', '23': '1:1 2:3 3:8',
    'm-3': '1:1 2:3 3:8 -1:1 m:3 -3:8', '432': '1:1 2:9 3:8 4:6', '-43m': '1:1 2:3 3:8 -4:6 m:6',
    'm-3m': '1:1 2:9 3:8 4:6 -1:1 m:9 -3:8 -4:6'}
CLASS_ALIAS = {'-62m': '-6m2', '-4m2': '-42m', '-6m2': '-6m2', '-3m1': '-3m', '321': '32', '312': '32', '3m1': '3m', '31m': '3m'}


def class_signature(sym):
    s = CLASS.get(CLASS_ALIAS.get(sym, sym))
    if s is None:
        return None
    c = {}
    for p in s.split():
        k, v = p.rsplit(':', 1)
        c[k] = int(v)
    return tuple(sorted(c.items(), key=str))


assert len({class_signature(s) for s in CLASS}) == 32


def generic_metric(b, rnd):
    """generic metric of the conventional cell of Bravais lattice b"""
    q = lambda: F(rnd.randint(10007, 20011), 1009)
    A, B, C = q(), q(), q()
    s = b[0]
    D = E = Fv = F(0)
    if s == 'a':
        D, E, Fv = (F(rnd.randint(-2003, 2003), 1013) for _ in range(3))
    if s == 'm':
        E = F(rnd.randint(500, 2003), 1013)
    if s in 'tch':
        B = A
    if s == 'c':
        C = A
    if s == 'h':
        Fv = -A / 2
    return gram(A, B, C, D, E, Fv)


def holohedry(b, rnd):
    """integer matrices preserving the generic metric and the centering of b's conventional cell"""
    G = generic_metric(b, rnd)
    cent = CENT[b[1]]
    pts = {tuple(F(0) for _ in range(3))} | {tuple(F(x) for x in c) for c in cent}
    cols = list(product((-1, 0, 1), repeat=3))

    def dot(u, v):
        return sum(u[i] * G[i][j] * v[j] for i in range(3) for j in range(3))
    cand = [[c for c in cols if dot(c, c) == G[k][k]] for k in range(3)]
    out = set()
    for a in cand[0]:
        for bb in cand[1]:
            if dot(a, bb) != G[0][1]:
                continue
            for c in cand[2]:
                if dot(a, c) == G[0][2] and dot(bb, c) == G[1][2]:
                    r = tr((a, bb, c))
                    if all(tuple(x % 1 for x in mv(r, p)) in pts for p in pts):
                        out.add(r)
    return out
