"""The standardised structures: which steps lead to them."""
from common import Check
from engine import Agg, Mat
from terms import vkey
from checks_algebra import TRUST, fields
from checks_reduce import all_atoms
from models import matmul
from checks_query import Pipeline, chain

FNS = (('SymmetryAnalyzer::get_standard_conventional_structure', False), ('SymmetryAnalyzer::get_standard_primitive_structure', True))


def plain(m):
    """made of lattice and matrix entries only, so that the normal form decides"""
    return {a.name for x in m.e for a in all_atoms(x)} <= {'s.L', 'TC', 'TP'}


def c38(prog):
    ck = Check('C38')
    n = 0
    for fn, primitive in FNS:
        name = fn.split('::')[1]
        pl = Pipeline(prog, ck, fn)
        for st, S in pl.rets or ():
            if not isinstance(S, Agg):
                ck.ob('steps', None, name, 'result without a summary')
                continue
            ch, whole = chain(pl, S)
            if not whole:
                ck.ob('steps', None, name, 'the steps to the result are not recognised')
                continue
            n += 1
            ch = ch[::-1]
            names = [c['name'] for c in ch]
            moves = [c for c in ch if c['name'] == 'apply_transformation']
            before = [c for c in ch if c['name'] != 'apply_transformation']
            if not ck.ob('steps', bool(before) and before[0]['name'] == 'find_primitive_cell' and before[-1]['name'] == 'niggli_reduce' and ch == before + moves and bool(moves),
                         name + '/order', 'the result is not the input made primitive, Niggli-reduced and transformed: steps %s' % (', '.join(names) or 'none'), pl.p):
                continue
            ck.ob('steps', vkey(ch[0]['args'][1]) == vkey(pl.S), name + '/input', 'the primitive cell is not searched in the structure given', pl.p)
            nig = before[-1]
            tc = [c for c in pl.calls if c['name'] == 'conventional_transformation_matrix' and vkey(c['args'][1]) == vkey(nig['ret'])]
            if not ck.ob('matrix', bool(tc), name + '/conventional', 'the matrix of the conventional cell is not computed for the reduced cell', pl.p):
                continue
            total = matmul(fields(prog, nig['ret'])['lattice'], tc[0]['ret'].f[0])
            if primitive:
                tp = [c for c in pl.calls if c['name'] == 'primitive_transformation_matrix' and vkey(c['args'][1]) == vkey(tc[0]['ret'].f[1])]
                if not ck.ob('matrix', bool(tp), name + '/primitive', 'the matrix of the primitive setting is not the one of the lattice character found', pl.p):
                    continue
                total = matmul(total, tp[0]['ret'].f[0])
            got = fields(prog, S)['lattice']
            ck.ob('matrix', vkey(got) == vkey(total) or (False if isinstance(got, Mat) and plain(got) else None), name + '/lattice',
                  'the lattice returned is not the reduced lattice times the matrices computed for it', pl.p)
    ck.floor('standardised structures', n, 2)
    return ck.finish('other', 'summaries of the two functions with every step replaced by a symbol for its result (equal arguments give equal results): the structure returned is '
                     'the input made primitive, Niggli-reduced and carried by the matrix computed for that reduced cell, and for the primitive one then by the matrix of the '
                     'lattice character found for it', TRUST, ['results of the steps: C05, C06, C07, C12, C14, C15'])
