"""Shared machinery of the checks: building the MIR dump of /repo, obligations, evidence, verdicts."""
import fcntl
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
WORK = os.path.join(VERIF, '.work')
sys.setrecursionlimit(100000)


class SetupError(Exception):
    pass


def sh(cmd, env=None, cwd=None, timeout=600):
    e = dict(os.environ)
    e.update(env or {})
    r = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode('utf-8', 'replace')


def sysroot():
    rc, out = sh(['rustc', '+nightly', '--print', 'sysroot'])
    if rc:
        raise SetupError(out)
    return out.strip()


def build_driver():
    src = os.path.join(VERIF, 'driver', 'mirdump.rs')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    binp = os.path.join(WORK, 'mirdump-' + h)
    if not os.path.exists(binp):
        rc, out = sh(['rustc', '+nightly', '-O', src, '-o', binp + '.tmp%d' % os.getpid()])
        if rc:
            raise SetupError('driver does not build:\n' + out)
        os.rename(binp + '.tmp%d' % os.getpid(), binp)
    return binp


def dump(out):
    """type-check /repo with the driver as compiler wrapper; the driver writes the resolved MIR"""
    binp = build_driver()
    target = os.path.join(WORK, 'target')
    # cargo skips the wrapper for a package it thinks is fresh: forget this package (ours, not /repo's)
    for pat in ('.fingerprint/cryst-symm-*', 'build/cryst-symm', 'build/cryst-symm-*', 'incremental/crystsymm-*'):
        for d in glob.glob(os.path.join(target, 'debug', pat)):
            shutil.rmtree(d)
    if os.path.exists(out):
        os.remove(out)
    rc, log = sh(['cargo', '+nightly', 'check', '--offline', '--lib'],
                 env={'LD_LIBRARY_PATH': os.path.join(sysroot(), 'lib'), 'MIRDUMP_CRATE': 'crystsymm',
                      'MIRDUMP_OUT': out, 'RUSTC_WORKSPACE_WRAPPER': binp, 'CARGO_TARGET_DIR': target,
                      'CARGO_NET_OFFLINE': 'true'}, cwd=REPO)
    if rc or not os.path.exists(out):
        raise SetupError('cargo check of /repo failed (rc %d):\n%s' % (rc, log[-3000:]))


def load():
    os.makedirs(WORK, exist_ok=True)
    from engine import Program
    out = os.path.join(WORK, 'mir-%d.json' % os.getpid())
    with open(os.path.join(WORK, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        dump(out)
    try:
        return Program(out)
    finally:
        os.remove(out)


def known():
    """exact keys of findings recorded as present in the unchanged tree"""
    ks = {}
    fn = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(fn):
        for line in open(fn):
            line = line.rstrip('\n')
            if line.startswith('known: '):
                _, pid, key, text = line.split(' ', 3)
                ks[(pid.split('=')[1], key.split('=', 1)[1])] = text
    return ks


class Check:
    """collects obligations of one property and turns them into a verdict and an evidence file"""

    last = None

    def __init__(self, pid, title=''):
        Check.last = self
        self.pid = pid
        self.t0 = time.time()
        self.n = 0
        self.ok = 0
        self.undecided = []
        self.viol = {}
        self.kinds = {}
        self.samples = []
        self.analysed = set()
        self.ncalls = 0
        self.assumptions = []
        self.trusted = []
        self.extra = {}
        self.rules = []
        self.floors = []
        self.known = known()

    # -- obligations
    def ob(self, kind, good, key, msg='', where=''):
        """one obligation: good is True (discharged), False (violated) or None (undecided)"""
        self.n += 1
        k = self.kinds.setdefault(kind, [0, 0, 0])
        k[0] += 1
        if good is None:
            k[2] += 1
            self.undecided.append('%s: %s %s' % (kind, key, msg))
            return None
        if good:
            self.ok += 1
            k[1] += 1
            if k[1] <= 2:
                self.samples.append('%s: %s%s' % (kind, key, (' -- ' + msg) if msg else ''))
            return True
        self.fail(key, msg, where, kind)
        return False

    def fail(self, key, msg, where='', kind=''):
        key = key.replace(' ', '_')
        self.viol.setdefault(key, (kind, msg, where))

    def floor(self, what, got, least):
        """instance counts confirmed by hand on the unchanged tree: fewer means the rule lost its subject"""
        self.floors.append({'what': what, 'found': got, 'at_least': least})
        if got < least and self.undecided:
            # something could not be summarised (recorded above): its instances are undecided, not gone
            self.ob('coverage', None, 'floor/' + what, '%d of %d instances' % (got, least))
        elif got < least:
            self.fail('floor/' + what, 'only %d instances of "%s" found, at least %d expected' % (got, what, least),
                      kind='coverage')

    def missing(self, anchor):
        self.fail('anchor/' + anchor, 'the function or table %s that this property is about no longer exists' % anchor,
                  kind='anchor')

    def used(self, eng):
        self.analysed |= set(eng.analysed)
        self.ncalls += eng.callsites

    # -- end of the check
    def finish(self, level, rule, trusted, assumptions=(), explanation=None):
        wall = time.time() - self.t0
        out = []
        nviol = 0
        for key, (kind, msg, where) in sorted(self.viol.items()):
            k = (self.pid, key)
            if k in self.known:
                print('KNOWN-FINDING: property=%s %s' % (self.pid, self.known[k]))
                out.append({'key': key, 'known': True, 'kind': kind, 'what': msg, 'where': where})
            else:
                nviol += 1
                out.append({'key': key, 'known': False, 'kind': kind, 'what': msg, 'where': where})
        cov = {
            'obligations': self.n, 'discharged': self.ok,
            'undecided': len(self.undecided),
            'by_kind': {k: {'obligations': v[0], 'discharged': v[1], 'undecided': v[2]} for k, v in sorted(self.kinds.items())},
            'rule': rule,
            'functions_analysed': sorted(self.analysed),
            'call_sites': self.ncalls,
            'instance_floors': self.floors,
            'samples': self.samples[:24],
            'undecided_list': self.undecided[:40],
            'findings': out,
            'checker_cmd': 'python3 analysis/check.py ' + self.pid,
            'trusted_base': list(trusted),
        }
        if level in ('bounded', 'unbounded'):      # exhaustive over the paths of the code; `bounded`: sampled over the reals
            level, explanation = 'other', explanation or rule
        if explanation:
            cov['explanation'] = explanation
        cov.update(self.extra)
        ev = {'property': self.pid, 'tier': os.environ.get('VERIF_TIER', 'quick'),
              'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level, 'coverage': cov,
              'assumptions': list(assumptions) + self.assumptions, 'wall_s': round(wall, 3), 'violations': nviol}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        path = os.path.join(VERIF, 'evidence', self.pid + '.json')
        with open(path, 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        print('%s: %d obligations, %d discharged, %d undecided, %d violations (%.1f s)'
              % (self.pid, self.n, self.ok, len(self.undecided), nviol, wall))
        for o in out:
            if not o['known']:
                print('  [%s] %s: %s%s' % (o['kind'], o['key'], o['what'], (' at ' + o['where']) if o['where'] else ''))
        if nviol:
            rp = os.path.join('evidence', self.pid + '.json')
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        return 0
