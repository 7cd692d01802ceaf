"""writes /verif/MANIFEST.json"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'constant propagation over the MIR of the table initialisers, compared with reference crystallography'
VF = 'value-flow analysis of the MIR; the summary formula compared with the required one'
DF = 'forward data flow over the MIR, through calls'
CHECKS = {
    'C01': (T, 'proof', 'all 230 entries and every operation, exhaustively; trusts the Hall-symbol expansion in analysis/hall.py'),
    'C02': (T, 'proof', 'all 230 numbers, exhaustively'),
    'C03': (T, 'proof', 'all 32 numbers, and the constructor propagated for each number'),
    'C04': (T, 'bounded', 'all Bravais lattices; metric identity tested at random exact metrics'),
    'C05': (T, 'bounded', 'all 44 characters; metric identity tested at random exact members of each family'),
    'C07': (T, 'proof', 'all centerings and the matrix returned for each of the 44 characters'),
    'C08': (T, 'proof', 'every value of the three enumerations and all 44 characters'),
    'C06': (VF, 'bounded', 'generic exact members of each of the 44 families, both hands; not the tolerance boundaries'),
    'C09': (VF, 'bounded', 'digit formulas at all 512 translation codes and sampled rotation codes; rebuilt operations for every code'),
    'C10': (VF, 'bounded', 'exact grid around every case boundary; lists of up to three vectors, any length by the list summary'),
    'C11': (VF, 'bounded', 'all functions that make or change a structure, any number of sites; identities tested at sample points'),
    'C14': (VF, 'bounded', 'sampled exact lattices; any number of sites and candidates by list summaries'),
    'C12': (VF, 'bounded', 'every step and exit of the reduction loop, at sampled exact cells and transformations; sites of any number'),
    'C13': (VF, 'bounded', 'every step and exit of the reduction loop, at sampled exact cells; both final choices'),
    'C15': (VF, 'bounded', 'sampled exact lattices and transformations; folding replaced by its specification, which C10 checks'),
    'C16': (VF, 'bounded', 'every case of the transformed lists at sampled pairs of transformation and rotation, also next to exact ones; any number of operations'),
    'C19': (VF, 'bounded', 'exit condition at reduced metrics and at cells violating one condition each'),
    'C20': (VF, 'bounded', 'exit condition at obtuse and near-obtuse superbases; abort path at the iteration limit'),
    'C18': (VF, 'bounded', 'identities in all 24 operation entries, tested at random exact points; real arithmetic'),
    'C26': (VF, 'bounded', 'identities in all nine lattice entries, tested at random exact points; real arithmetic'),
    'C28': (VF, 'bounded', 'exact grid of differences around every integer and tolerance'),
    'C30': (VF, 'bounded', 'every partial operation and every tolerance comparison, at sampled cells and their mirror images'),
    'C31': (VF, 'bounded', 'loop summaries for any number of generators and rounds; composition and comparison of operations replaced by their specifications (C18, C28)'),
    'C17': (VF, 'bounded', 'the whole query with each step replaced by a symbol for its result; composite matrix tested at sample points'),
    'C32': (VF, 'other', 'any set of operations and any table content; comparison and decoding replaced by their specifications (C09, C28)'),
    'C21': (DF + '; effect rules over every resolved call', 'unbounded', 'all functions of the crate; dependencies are taken to be functions of their arguments'),
    'C22': (VF, 'bounded', 'every function that inverts; sampled matrices of rank 0 to 3; exact arithmetic'),
    'C23': (DF, 'unbounded', 'all functions of the crate; counts are taken to fit 32 bits'),
    'C24': (VF, 'bounded', 'any structure and tolerance; scaling laws at sample points; analysis steps as symbols in the queries'),
    'C25': (VF, 'unbounded', 'any arguments; structure constructor and analyses as symbols'),
    'C27': (VF, 'bounded', 'any species list; text of an element at 40 pairs of count and divisor'),
    'C29': (VF, 'bounded', 'any structure and Bravais type; translation law and counting at sample points; holohedry, its change of axes and the element tally as symbols'),
    'C38': (VF, 'unbounded', 'any structure; each step as a symbol for its result'),
    'C39': (VF, 'bounded', 'one step of the loop at sampled superbases'),
    'C33': (VF, 'bounded', 'exact grid including boundaries; sequences of up to four elements'),
}
NA = {
    'C34': 'End-to-end correctness of numerical recognition over all structures; no structural clause beyond C01-C33 decides it without running the code.',
    'C35': 'Minimality of the volume found by a tolerance-driven search is a property of run-time values, not visible in the shape of the code.',
    'C36': 'Termination of the enlargement loops depends on floating-point site matching; no ranking function is visible in the source.',
    'C37': 'Stability under noise quantifies over run-time coordinates and tolerances; deciding it needs execution.',
}
def main():
    props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
    m = {'version': 1, 'setup_cmd': 'python3 analysis/check.py setup', 'checks': [], 'not_applicable': [],
         'notes': 'Static analysis of the MIR of /repo (driver/mirdump.rs); see DESIGN.md. Findings present in the unchanged tree: known-findings.txt.'}
    for p in props:
        if p in CHECKS:
            t, lv, note = CHECKS[p]
            m['checks'].append({'property': p, 'quick_cmd': 'python3 analysis/check.py ' + p,
                                'evidence_file': 'evidence/%s.json' % p, 'technique': t, 'level': 'other' if lv in ('bounded', 'unbounded') else lv, 'level_note': note})
        else:
            m['not_applicable'].append({'property': p, 'reason': NA.get(p, 'No static check is built for this property yet.')})
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
main()
