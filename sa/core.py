"""Driver support: analysis context, findings, known-findings, evidence."""
import json
import os
import re
import sys
import time
import traceback
from multiprocessing import Pool

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)

import build
import graph
import interp
from build import AnalysisError

CTX = None


class Ctx:
    def __init__(self, tier='quick'):
        global CTX
        self.tier = tier
        self.b = build.Build()
        self.prog = self.b.prog
        self.dt = self.prog.dt
        self.g = graph.Graph(self.prog)
        self._view = None
        CTX = self

    @property
    def view(self):
        if self._view is None:
            self._view = self.b.view()
        return self._view

    def roots(self):
        """functions that are analysed on their own: exported ones of the
        confirmed interface and everything whose address is taken"""
        base = build.BASE_EXPORTS()
        out = []
        for n, f in self.prog.funcs.items():
            if n in self.g.addr_taken or (not f.internal and f.base in base):
                out.append(n)
        return out

    def field_index(self, struct, field):
        for n in ('struct.' + struct,):
            fs = self.dt.fields.get(n)
            if fs and field in fs:
                return fs.index(field)
        raise AnalysisError('struct %s has no field %s any more' % (struct, field))

    def enum(self, name):
        """value of an enumerator"""
        for m in self.prog.mods:
            for raw in m.md.values():
                if 'DIEnumerator(' in raw and 'name: "%s"' % name in raw:
                    return int(re.search(r'value: (-?\d+)', raw).group(1))
        raise AnalysisError('enumerator %s no longer exists' % name)

    def need(self, name):
        """a function of the stable interface"""
        if name not in self.prog.funcs:
            raise AnalysisError('anchor function %s no longer exists' % name)
        return name

    def where(self, i):
        return self.prog.where(i)


class Finding:
    def __init__(self, key, where, msg, trail='', hint=''):
        self.key, self.where, self.msg, self.trail = key, where, msg, trail

    def __repr__(self):
        return '%s: %s [%s]' % (self.where, self.msg, self.key)


class Report:
    def __init__(self, rule=''):
        self.findings = {}
        self.obligations = 0
        self.discharged = 0
        self.analysed = {}          # free-form counters
        self.samples = []
        self.rule = rule
        self.timeouts = []
        self.assumptions = []

    def find(self, key, where, msg, trail=''):
        key = key.replace('\n', ' ')
        if key not in self.findings:
            self.findings[key] = Finding(key, where, msg, trail)

    def ob(self, ok, key=None, where=None, msg=None, trail='', sample=None):
        """one obligation"""
        self.obligations += 1
        if ok:
            self.discharged += 1
            if sample and len(self.samples) < 12:
                self.samples.append(sample)
        else:
            self.find(key, where, msg, trail)
        return ok

    def count(self, what, n=1):
        self.analysed[what] = self.analysed.get(what, 0) + n

    def floor(self, what, n):
        """fail as analysis-broken when fewer instances than confirmed by hand exist"""
        if self.analysed.get(what, 0) < n:
            raise AnalysisError('only %d %s found, at least %d confirmed by hand' % (self.analysed.get(what, 0), what, n))

    def merge(self, o):
        for f in o.findings.values():
            self.findings.setdefault(f.key, f)
        self.obligations += o.obligations
        self.discharged += o.discharged
        for k, n in o.analysed.items():
            self.count(k, n)
        for s in o.samples:
            if len(self.samples) < 12:
                self.samples.append(s)
        self.timeouts += o.timeouts


# ------------------------------------------------------- parallel engine runs
_job = None


def _run(x):
    try:
        return _job(x)
    except interp.Timeout as e:
        return ('timeout', x, str(e))


def parallel(fn, items, procs=None):
    """map fn over items in forked workers (fn may be a closure: inherited by fork)"""
    global _job
    _job = fn
    items = list(items)
    procs = procs or min(8, os.cpu_count() or 4)
    if len(items) <= 2:
        return [_run(x) for x in items]
    with Pool(procs) as p:
        return p.map(_run, items, chunksize=max(1, len(items) // (procs * 8)))


# ------------------------------------------------------------- known findings
def known(pid):
    out = {}
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p, encoding='utf-8'):
            l = l.rstrip('\n')
            if l.startswith('known: property=%s ' % pid) and ' key=' in l:
                rest = l.split(' key=', 1)[1]
                key, _, desc = rest.partition(' :: ')
                out[key.strip()] = desc.strip()
    return out


def main(pid, tier):
    import importlib
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ev = os.path.join(ROOT, 'evidence')
    os.makedirs(ev, exist_ok=True)
    try:
        ctx = Ctx(tier)
        mod = importlib.import_module('rules.' + pid.lower())
        rep = mod.run(ctx)
    except AnalysisError as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        return 3
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s internal error' % pid)
        return 4
    kn = known(pid)
    new = [f for k, f in sorted(rep.findings.items()) if k not in kn]
    for k in sorted(rep.findings):
        if k in kn:
            print('KNOWN-FINDING: property=%s %s (%s)' % (pid, kn[k], rep.findings[k].where))
    for t in rep.timeouts:
        print('not completed (bound exceeded): %s' % (t,))
    cov = {'explanation': rep.rule,
           'obligations': rep.obligations, 'discharged': rep.discharged,
           'samples': rep.samples[:12] or ['(none)'],
           'checker_cmd': 'python3 /verif/sa/run.py %s --tier %s' % (pid, tier),
           'trusted_base': ['clang 18 front end and opt -passes=sroa (IR of every translation unit)',
                            '/verif/sa (IR parser, inliner, abstract interpreter, this rule)',
                            'the models of glib/libc functions listed in the rule'],
           'analysed': dict(rep.analysed, translation_units=len(ctx.b.units), functions=len(ctx.prog.funcs)),
           'known_findings': sorted(k for k in rep.findings if k in kn),
           'not_completed': rep.timeouts}
    json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'other'), 'coverage': cov,
               'assumptions': rep.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(new)},
              open(os.path.join(ev, pid + '.json'), 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %s, %.1fs' % (pid, rep.obligations, rep.discharged, cov['analysed'], time.time() - t0))
    if new:
        rp = os.path.join(ev, pid + '.violations.txt')
        with open(rp, 'w') as f:
            for x in new:
                f.write('%s\n  at: %s\n  key: %s\n  path: %s\n\n' % (x.msg, x.where, x.key, x.trail))
        for x in new[:40]:
            print('  %s: %s [key=%s]' % (x.where, x.msg, x.key))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0
