"""Guarded actions: what must have been established before something is done.

A fact (small name) is gained on a path when a test succeeded: a string compared
equal, a field found to hold a certain value, a function whose result promises
the fact returned zero/non-zero.  An action (a call, a store of a certain value)
demands one of several sets of facts.  What a function does not establish itself
it demands of all its callers, also those that call it through a slot, and then
only when the integer parameter is non-zero that was non-zero on the path to the
action.  A demand nobody is left to meet is a violation.
"""
import interp
from interp import mk, mkicmp, sub, ZERO
from graph import addr_class

TOP = frozenset(['*'])


def meet(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a is TOP or '*' in a:
        return b
    if '*' in b:
        return a
    return a & b


class Summary:
    __slots__ = ('z', 'nz', 'needs', 'may')

    def __init__(self):
        self.z = frozenset()        # facts that hold when the result is zero
        self.nz = frozenset()
        self.needs = {}     # (demand, conditional parameter) -> (where, what, trail)
        self.may = frozenset()      # what may have happened when it returns

    def key(self):
        return self.z, self.nz, frozenset(self.needs), self.may


class Spec:
    """what a rule provides"""
    demands = {}            # name -> list of frozensets of facts

    def compare(self, st, i, name, args, eng):
        """fact gained when the comparison finds equality, or None"""

    def field(self, st, i, addr, val, eng):
        """facts by value of a loaded field: {number or 'nz': facts}"""

    def gain(self, st, i, names, args, eng):
        """facts gained by a call, whatever it returns"""
        return ()

    def lose(self, st, i, names, args, eng):
        return ()

    def result(self, st, i, names, args, eng):
        """(facts if zero, facts if non-zero) of a call, besides summaries"""

    def invalidate(self, st, i, names, args, eng):
        """what a call may have undone, before what it promises is noted"""

    def demand_call(self, st, i, names, args, eng):
        """[(demand, what)]"""
        return ()

    def demand_store(self, st, i, addr, val, eng):
        return ()

    def demand_ret(self, st, i, val, eng):
        return ()

    def store_gains(self, st, i, addr, val, eng):
        return ()

    def store_loses(self, st, i, addr, val, eng):
        return ()

    def cond(self, st, i, cond, taken, eng):
        """facts gained by the outcome of a branch"""
        return []

    register = {}       # functions that arrange for a callback to be called: index of the callback

    def exempt(self, fn):
        return False

    def terminal(self, d):
        """is the demand one that callers cannot meet"""
        return False

    def skip(self, n, f):
        """what happens in a function that need not be interpreted, or None"""
        return None

    def maxstates(self, fn):
        return 24


class GuardRule(interp.Rule):
    lossy = True
    weak = ('R',)
    maxstates = 24

    def __init__(self, prog, spec, summ, taint=None):
        self.prog, self.spec, self.summ = prog, spec, summ
        self.z = TOP
        self.nz = TOP
        self.needs = {}
        self.may = set()
        self.wrong = {}
        self.oblig = {}
        self.met = {}
        self.sources = 0
        self.stable = getattr(spec, 'stable', set())

    def entry(self, st, fn, eng):
        self.fn = fn
        self.maxstates = self.spec.maxstates(fn)
        self.params = [st.env[p] for p in fn.params]
        for f in getattr(self.spec, 'initial', lambda fn: ())(fn):
            self.gain(st, (f,))

    def join_ts(self, a, b, eng):
        if {k for k in a if k[0] == 'F'} != {k for k in b if k[0] == 'F'}:
            return None
        return {k: v for k, v in a.items() if b.get(k) == v}

    def join_states(self, a, b, eng):
        return {k: v for k, v in a.ts.items() if b.ts.get(k) == v}

    # ------------------------------------------------------------------ facts
    def gain(self, st, fs):
        new = [f for f in fs if ('F', f) not in st.ts]
        if new:
            st.ts = dict(st.ts)
            for f in new:
                st.ts['F', f] = True

    def lose(self, st, fs):
        if any(('F', f) in st.ts for f in fs):
            st.ts = {k: v for k, v in st.ts.items() if not (k[0] == 'F' and k[1] in fs)}

    def on_result(self, st, e, table):
        """table: (('z'|'nz'|number), facts)..."""
        table = tuple((k, frozenset(f)) for k, f in table if f)
        if not table:
            return
        if e.k == 'c':
            self.gain(st, self.pick(st, e, table))
            return
        self.sources += 1
        st.ts = dict(st.ts)
        st.ts['R', e] = tuple(sorted(set(st.ts.get(('R', e), ())) | set(table), key=repr))

    def pick(self, st, e, table):
        out = []
        for k, f in table:
            if k == 'z':
                ok = st.isnull(e)
            elif k == 'nz':
                ok = st.nonnull(e)
            elif k == 'ge0':
                ok = st.range(e)[0] >= 0
            elif k == 'lt0':
                ok = st.range(e)[1] < 0
            elif isinstance(k, tuple) and k[0] == 'ne':
                ok = st.truth(mkicmp('eq', e, interp.const(k[1]))) is False
            elif isinstance(k, tuple) and k[0] == 'le':
                ok = st.range(e)[1] <= k[1]
            elif isinstance(k, tuple) and k[0] == 'nobits':
                ok = self.nobits(st, e, k[1])
            else:
                ok = st.range(e) == (k, k)
            if ok:
                out += f
        return out

    def nobits(self, st, e, bits):
        """is it known that none of these bits is set"""
        if st.isnull(e):
            return True
        for x, r in st.rng.items():
            if r == (0, 0) and x.k == 'bin' and x.a[0] == 'and':
                for a, b in ((x.a[1], x.a[2]), (x.a[2], x.a[1])):
                    if a == e and b.k == 'c' and b.a[0] & bits == bits:
                        return True
        return False

    def facts(self, st):
        out = {k[1] for k in st.ts if k[0] == 'F'}
        for k, t in st.ts.items():
            if k[0] == 'R':
                out.update(self.pick(st, k[1], t))
        return out

    def branch(self, st, i, cond, taken, eng):
        got = []
        lost = []
        for k, t in st.ts.items():
            if k[0] == 'R':
                got += self.pick(st, k[1], t)
        if cond is not None:
            got += self.spec.cond(st, i, cond, taken, eng)
        self.gain(st, [f for f in got if not f.startswith('-')])
        self.lose(st, [f[1:] for f in got if f.startswith('-')])

    # ---------------------------------------------------------------- sources
    def loaded(self, st, i, addr, val, eng):
        t = self.spec.field(st, i, addr, val, eng)
        if t and 'lose' in t:
            self.lose(st, t.pop('lose'))
        if t and 'any' in t:
            self.gain(st, t.pop('any'))
        if t:
            self.on_result(st, val, tuple(t.items()))

    def after(self, st, i, names, args, eng):
        e = st.env.get(i.res) if i.res is not None else None
        n0 = names[0].split('#')[0] if len(names) == 1 else None
        self.spec.invalidate(st, i, names, args, eng)
        if e is not None and n0:
            f = self.spec.compare(st, i, n0, args, eng)
            if f:
                self.on_result(st, e, (('z', f), ('nz', getattr(self.spec, 'unequal', lambda f: ())(f))))
        s = [self.summ.get(n) for n in names]
        if s and all(x is not None for x in s):
            z = nz = None
            for x in s:
                z, nz = meet(z, x.z), meet(nz, x.nz)
            if e is not None:
                if '*' in nz and '*' not in z:
                    st.assume_cmp('eq', e, ZERO)
                elif '*' in z and '*' not in nz:
                    st.assume_cmp('ne', e, ZERO)
                self.on_result(st, e, (('z', z - TOP), ('nz', nz - TOP)))
                self.gain(st, meet(z, nz) - TOP)
            else:
                self.gain(st, meet(z, nz) - TOP)
        self.gain(st, self.spec.gain(st, i, names, args, eng))
        r = self.spec.result(st, i, names, args, eng)
        if r and e is not None:
            self.on_result(st, e, r)

    def call(self, st, i, names, args, eng):
        l = self.spec.lose(st, i, names, args, eng)
        if l:
            self.lose(st, l)
        for d, what in self.spec.demand_call(st, i, names, args, eng):
            self.demand(st, i, d, what, eng)
        for n in names:
            k = self.spec.register.get(n)
            if k is not None and k < len(args) and args[k].k == 'g':
                s = self.summ.get(args[k].a[0])
                if s is not None:
                    for (d, _), (w, what, trail) in s.needs.items():
                        self.demand(st, i, d, what + ' (in %s)' % args[k].a[0].split('#')[0] if ' (in ' not in what else what, eng, w)
            s = self.summ.get(n)
            if s is None:
                continue
            for (d, k), (w, what, trail) in s.needs.items():
                s2 = st
                if k is not None and k < len(args):
                    if st.isnull(args[k]):
                        self.oblig[i.id, d] = True
                        self.met.setdefault((i.id, d), True)
                        continue
                    s2 = st.copy()
                    if not s2.assume_cmp('ne', args[k], ZERO):
                        continue
                self.demand(s2, i, d, what + ' (in %s)' % n.split('#')[0] if ' (in ' not in what else what, eng, w)
        return None

    def store(self, st, i, addr, val, eng):
        self.stored(st, i, addr, val, eng)
        self.lose(st, self.spec.store_loses(st, i, addr, val, eng))
        self.gain(st, self.spec.store_gains(st, i, addr, val, eng))

    def stored(self, st, i, addr, val, eng):
        for d, what in self.spec.demand_store(st, i, addr, val, eng):
            s2 = st
            if val.k != 'c':
                s2 = st.copy()
                if not s2.assume_cmp('ne', val, ZERO):
                    continue
            self.demand(s2, i, d, what, eng)

    def demand(self, st, i, d, what, eng, orig=None):
        self.oblig[i.id, d] = True
        if d is None:           # met, counted only
            self.met.setdefault((i.id, d), True)
            return
        if not self.spec.demands[d]:        # nothing can make it right
            self.met[i.id, d] = False
            self.wrong.setdefault((d, what), (self.prog.where(i), what, eng.trail(st)))
            return
        have = self.facts(st)
        if any(alt <= have for alt in self.spec.demands[d]):
            self.met.setdefault((i.id, d), True)
            return
        if self.spec.exempt(self.fn.name.split('#')[0]):
            return
        self.met[i.id, d] = False
        if self.spec.terminal(d):
            self.wrong.setdefault((d, what), (orig or self.prog.where(i), what, eng.trail(st)))
            return
        k = None
        for n, p in enumerate(self.params):
            if self.fn.ptypes[n] in ('i32', 'i8', 'i1') and st.nonnull(p):
                k = n
                break
        if k is not None and (d, None) in self.needs:
            return
        self.needs.setdefault((d, k), (orig or self.prog.where(i), what, eng.trail(st)))

    def ret(self, st, i, val, eng):
        for d, what in self.spec.demand_ret(st, i, val, eng):
            self.demand(st, i, d, what, eng)
        if val is None:
            f = frozenset(self.facts(st))
            self.z, self.nz = meet(self.z, f), meet(self.nz, f)
            return
        for p in ('eq', 'ne'):
            if (p == 'eq' and st.nonnull(val)) or (p == 'ne' and st.isnull(val)):
                continue
            s2 = st.copy()
            if not s2.assume(mkicmp(p, val, ZERO), True):
                continue
            f = frozenset(x for x in self.facts(s2) if x[0] != '-')
            if p == 'eq':
                self.z = meet(self.z, f)
            else:
                self.nz = meet(self.nz, f)


def outside(ctx, fn, register=()):
    """is the function called by something that is not in the program (the main
    loop, a library it was handed to)"""
    prog, g = ctx.prog, ctx.g
    if fn.split('#')[0] == 'main':
        return True
    for n, f in prog.funcs.items():
        for i in f.insts():
            if i.op == 'call' and i.x[0] == '@' and i.x[1] not in prog.funcs:
                if i.x[1] not in register and any(o == ('@', fn) for o in i.ops):
                    return 'given to %s' % i.x[1]
    for slot, fs in g.slots.items():
        if fn in fs and isinstance(slot[0], str) and slot[0].startswith('_G'):
            return 'in %s.%s' % slot[:2]
    return False


def registered(ctx, fn, register):
    for n, f in ctx.prog.funcs.items():
        for i in f.insts():
            if i.op == 'call' and i.x[0] == '@' and i.x[1] in register and any(o == ('@', fn) for o in i.ops):
                return True
    return False


def analyse(ctx, spec, rounds=10, steps=200000):
    """-> (summaries, per-function results)"""
    from core import parallel
    prog, g, view = ctx.prog, ctx.g, ctx.view
    names = ctx.roots()
    for n in names:
        view.func(n)
    summ = {n: Summary() for n in names}
    spec.summ = summ
    last = {}
    todo = set(names)
    hist = []
    for rnd in range(rounds):
        def one(n):
            may = spec.skip(n, view.func(n))
            if may is not None:
                return n, None, frozenset(), frozenset(), {}, may, {}, 0, 0, 0
            r = GuardRule(prog, spec, summ)
            e = interp.Engine(prog, g, r, view.func(n), maxsteps=steps * (5 if ctx.tier != 'quick' else 1))
            to = None
            try:
                e.run()
            except interp.Timeout as x:
                to = str(x)
            return n, to, r.z, r.nz, r.needs, r.may, r.wrong, len(r.oblig), sum(1 for v in r.met.values() if v), r.sources
        changed = set()
        for n, to, z, nz, needs, may, wrong, ob, met, src in parallel(one, sorted(todo)):
            last[n] = (to, needs, wrong, ob, met, src)
            s = summ[n]
            if to:
                z = nz = frozenset()
            old = s.key()
            s.z, s.nz, s.needs, s.may = z, nz, needs, s.may | may
            if old != s.key():
                changed.add(n)
        hist.append((len(todo), len(changed)))
        if not changed:
            break
        # what calls the changed ones, directly or through a slot
        todo = set()
        for n in names:
            for i in view.func(n).insts():
                if i.op == 'call' and (i.x[0] != '@' or i.x[1] in changed or i.x[1] in spec.register):
                    todo.add(n)
                    break
    return summ, last, hist


def report(ctx, rep, spec, summ, last, hist, mine=lambda fn, where: True):
    prog, g = ctx.prog, ctx.g
    callers = set()
    for n, f in prog.funcs.items():
        for i in f.insts():
            if i.op == 'call':
                for t in g.targets(n, i):
                    callers.add(t)
    for n in sorted(last):
        to, needs, wrong, ob, met, src = last[n]
        for (d, what), (where, what, trail) in wrong.items():
            if mine(n, where):
                rep.find('%s|%s|%s' % (d, n.split('#')[0], what), where, '%s without %s in %s' % (what, spec.why.get(d, d), n.split('#')[0]), trail)
        if to:
            rep.timeouts.append(to)
        rep.obligations += ob
        rep.discharged += met
        rep.count('tests_that_establish_a_fact', src)
        if not needs:
            continue
        out = outside(ctx, n, spec.register)
        if not out and (n in callers or spec.register and registered(ctx, n, spec.register)):
            rep.count('demands_passed_to_callers', len(needs))
            rep.discharged += ob - met
            continue
        if not out and n not in g.addr_taken:
            rep.count('demands_of_functions_never_called', len(needs))
            rep.discharged += ob - met
            continue
        for (d, k), (where, what, trail) in needs.items():
            if mine(n, where):
                rep.find('%s|%s|%s' % (d, n.split('#')[0], what), where,
                         '%s without %s on a path from %s%s' % (what, spec.why.get(d, d), n.split('#')[0],
                                                                ', which is called from outside the program (%s)' % out if isinstance(out, str) else ''), trail)
    rep.count('functions_analysed_as_roots', len(last))
    rep.count('functions_whose_result_promises_a_fact', sum(1 for s in summ.values() if (s.z - TOP) != (s.nz - TOP)))
    rep.count('functions_with_demands_on_callers', sum(1 for s in summ.values() if s.needs))
    rep.count('fixpoint_rounds', len(hist))
    rep.samples = (['%s demands %s of its callers%s' % (n.split('#')[0], d, '' if k is None else ' when parameter %d is set' % k)
                    for n, s in sorted(summ.items()) for d, k in s.needs][:8]
                   + ['%s: result non-zero promises %s' % (n.split('#')[0], ', '.join(sorted(s.nz)))
                      for n, s in sorted(summ.items()) if s.nz - TOP and s.nz != s.z][:6])
