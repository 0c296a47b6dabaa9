"""Driver of the NULL / argument-index analysis (nullflow) for this code base."""
import interp
import nullflow
from interp import mk, ZERO, const
from nullflow import NullRule, Summary, NULL_IFARG, args_addr, is_args_elem
from core import Report, AnalysisError, parallel


class Cfg(nullflow.Config):
    nullable_fields = {('irc_line', 'origin')}
    slot_null = ()


class Rule(NullRule):
    """NullRule + the idioms of this code base"""
    ctx = None

    # args[k] != NULL means k < argc
    def branch(self, st, i, cond, taken, eng):
        NullRule.branch(self, st, i, cond, taken, eng)
        c, t = cond, taken
        if c is None:
            return
        while True:
            if c.k == 'cast' and c.a[0] in ('zext', 'sext'):
                c = c.a[3]
            elif c.k == 'bin' and c.a[0] == 'xor' and c.a[2] is interp.ONE:
                c, t = c.a[1], not t
            else:
                break
        if c.k == 'icmp' and c.a[2] is ZERO and c.a[0] in ('eq', 'ne'):
            nn = (c.a[0] == 'ne') == t
            self.elem_fact(st, c.a[1], nn)

    def elem_fact(self, st, e, nonnull):
        x = is_args_elem(e)
        if not x:
            return
        line, k = x
        n = self.argc_of(st, line)
        if nonnull:
            st.addrel(k, n, -1)

    def entry(self, st, fn, eng):
        NullRule.entry(self, st, fn, eng)
        self.ifarg = {}         # copies of a possibly absent string
        self.stores = {}        # member -> (where, why): possibly NULL values stored in it

    def store(self, st, i, a, v, eng):
        NullRule.store(self, st, i, a, v, eng)
        if a.k == 'fld' and i.ops and v.k in ('s', 'ld', 'call') and (a.a[1], a.a[2]) not in self.stores \
                and not st.nonnull(v) and not self.proven(st, v):
            why = self.ifarg.get(v) or self.nullable(st, v, eng)
            if why and not isinstance(why, tuple):
                self.stores[a.a[1], a.a[2]] = (self.prog.where(i), why)

    def copied(self, st, i, names, args, eng):
        if len(names) == 1 and NULL_IFARG.get(names[0]) is not None and i.res is not None:
            a = args[NULL_IFARG[names[0]]]
            if a is ZERO or st.isnull(a):
                self.ifarg[eng.fresh(st, i)] = 'copy of NULL'
            elif not st.nonnull(a) and not self.proven(st, a):
                why = self.nullable(st, a, eng)
                if why and not isinstance(why, tuple):
                    self.ifarg[eng.fresh(st, i)] = why

    pure = NullRule.pure | {'g_key_file_has_key', 'g_key_file_has_group'}

    def call(self, st, i, names, args, eng):
        n0 = names[0] if names else None
        if n0 == 'g_return_if_fail_warning':
            return 'dead'           # a caller bug by contract, not an input
        if n0 in ('g_key_file_get_string', 'g_key_file_get_string_list', 'g_key_file_get_value') and self.haskey(st, args[:3], 'g_key_file_has_key') \
                or n0 == 'g_key_file_get_keys' and self.haskey(st, args[:2], 'g_key_file_has_group'):
            eng.effects(st, i, names, args)
            r = eng.fresh(st, i)
            st.env[i.res] = r
            st.ne.add((r, 0))
            return r
        r = NullRule.call(self, st, i, names, args, eng)
        self.copied(st, i, names, args, eng)
        if r is not None:
            return r
        if len(names) == 1 and i.res is not None:
            n = names[0]
            if n == 'linedup' and args:
                src = self.argc_of(st, args[0])
                return self.newline(st, i, src, names, args, eng)
            if n in ('irc_parse_line_args',):
                return self.newline(st, i, const(max(0, len(args) - 2)), names, args, eng)
        return None

    def haskey(self, st, args, fn):
        """a has_key / has_group test of the same key was true on this path"""
        a = tuple(args)
        for e, c in st.ne:
            if c == 0 and e.k == 'call' and e.a[0] == fn and e.a[1:1 + len(a)] == a:
                return True
        return False

    def newline(self, st, i, argc, names, args, eng):
        n0 = names[0]
        eng.effects(st, i, names, args)
        r = eng.fresh(st, i)
        a = mk('fld', r, 'irc_line', 'argc', self.cfg.argc_idx)
        st.mem[a] = argc
        o = args[0] if args else None
        oi = self.prog.dt.fields['struct.irc_line'].index('origin')
        if n0 == 'linedup':
            so = mk('fld', o, 'irc_line', 'origin', oi)
            o = st.mem.get(so) or mk('ld', so, 0, 'ptr')
        if o is not None and st.nonnull(o):
            st.ne.add((mk('ld', mk('fld', r, 'irc_line', 'origin', oi), 0, 'ptr'), 0))
        st.env[i.res] = r
        st.ne.add((r, 0))
        return r

    def require(self, st, i, n, q, args, eng, why):
        if q[0] in ('arg', 'argr') and not isinstance(q[2], tuple) and i.x[0] != '@' and q[1] < len(args):
            if self.table_bound(st, i, n, q, args, eng):
                self.oblig += 1
                self.disch += 1
                return
        return NullRule.require(self, st, i, n, q, args, eng, why)

    def nullable(self, st, e, eng, depth=0):
        r = NullRule.nullable(self, st, e, eng, depth)
        if isinstance(r, str) and e.k == 'ld' and e.a[0].k == 'fld' and (e.a[0].a[1], e.a[0].a[2]) in self.cfg.slot_null:
            # column of a constant table: NULL only in rows the path excludes?
            row = e.a[0].a[0]
            rows = self.rows(row)
            if rows is not None:
                col = e.a[0].a[3]
                if not any(cols[col][1] == ('c', 0) and self.feasible(st, row, t, cols)
                           for t, cols in rows if col < len(cols) and any(self.isset(x) for _, x in cols)):
                    return None
        return r

    def isset(self, v):
        return v[0] not in ('zero', 'undef') and v != ('c', 0)

    def rows(self, row):
        b = row
        while b.k in ('idx', 'fld'):
            b = b.a[0]
        if b.k != 'g':
            return None
        g = self.prog.globals.get(b.a[0])
        if g is None or g.init is None or g.init[0] != 'agg':
            return None
        return [(self.prog.dt.rowtype(b.a[0], t), x[1]) for t, x in g.init[1] if x[0] == 'agg']

    def feasible(self, st, row, t, cols):
        for k, (ct, cv) in enumerate(cols):
            if not (isinstance(ct, str) and ct[0] == 'i'):
                continue
            v = cv[1] if cv[0] == 'c' else 0
            nm = self.prog.dt.fname(t[1], k)
            for ld in {x for x in st.rng if self.iscol(x, row, nm)}:
                lo, hi = st.range(ld)
                if v < lo or v > hi or (ld, v) in st.ne:
                    return False
        return True

    def table_bound(self, st, i, n, q, args, eng):
        """handler called through a constant table: use the integer columns of
        its row as bounds proven before the call"""
        e = eng.val(st, i.x)
        if e.k != 'ld' or e.a[0].k != 'fld':
            return False
        row = e.a[0].a[0]
        b = row
        while b.k in ('idx', 'fld'):
            b = b.a[0]
        if b.k != 'g':
            return False
        g = self.prog.globals.get(b.a[0])
        if g is None or g.init is None or g.init[0] != 'agg':
            return False
        need = q[2] - (1 if q[0] == 'argr' else 0)
        argc = self.argc_of(st, args[q[1]])
        rows = []
        for t, x in g.init[1]:
            if x[0] == 'agg' and any(y == ('@', n) for _, y in x[1]):
                rows.append((t, x[1]))
        if not rows:
            return False
        for t, cols in rows:
            t = self.prog.dt.rowtype(b.a[0], t)
            best = -1
            feasible = True
            for k, (ct, cv) in enumerate(cols):
                if ct not in ('i32', 'i64'):
                    continue
                v = cv[1] if cv[0] == 'c' else 0
                nm = self.prog.dt.fname(t[1], k)
                lds = {x for x in st.rng if self.iscol(x, row, nm)} | {x for r in st.rel for x in r if self.iscol(x, row, nm)}
                for ld in lds:
                    lo, hi = st.range(ld)
                    if v < lo or v > hi or (ld, v) in st.ne:
                        feasible = False
                    d = st.diff(ld, argc)
                    if d < interp.INF:
                        best = max(best, v - d)       # argc >= v - d
            if not feasible:
                continue
            if need > best - 1:
                return False
        return True

    def iscol(self, x, row, nm):
        return x.k == 'ld' and x.a[0].k == 'fld' and x.a[0].a[0] is row and x.a[0].a[2] == nm


def const_params(ctx, names):
    """{function: [(parameter index, value)]}: functions with an integer parameter that every call
    site in the program passes as one of at most three constants, and whose address is not taken;
    they are analysed once per value"""
    sites = {}
    taken = set()
    for f in ctx.prog.funcs.values():
        for i in f.insts():
            if i.op == 'call' and i.x[0] == '@':
                sites.setdefault(i.x[1], []).append(i)
            for o in i.ops if i.ops else ():
                if isinstance(o, tuple) and o[0] == '@':
                    taken.add(o[1])
    for t in ctx.g.slots.values():
        taken |= set(t)
    out = {}
    for n in names:
        f = ctx.prog.funcs.get(n)
        if f is None or n in taken or not sites.get(n):
            continue
        for k, p in enumerate(f.params):
            if f.ptypes[k] not in ('i32', 'i64'):
                continue
            v = {i.ops[k][1] if len(i.ops) > k and i.ops[k][0] == 'c' else None for i in sites[n]}
            if None not in v and len(v) <= 3:
                out[n] = [(k, x) for x in sorted(v)]
                break
    return out


def analyse(ctx, rounds=8, cfg=None, rule=Rule):
    prog, g, view = ctx.prog, ctx.g, ctx.view
    cfg = cfg or Cfg(prog)
    # command handlers get a NULL-terminated word list with at least the command name
    cfg.vecparams = {n: {1: 1} for n in g.slots.get(('admin_command', 'handler'), ())}
    declared = dict(cfg.vecparams)
    if len(cfg.vecparams) < 15:
        raise AnalysisError('administration command table not found')
    interp.State.intrinsic = {('irc_line', 'argc'): (1, 1 << 30)}
    names = ctx.roots()
    for n in names:
        view.func(n)
    summ = {n: Summary() for n in names}
    consts = const_params(ctx, names)
    hist = []
    todo = set(names)
    last = {}
    vecargs, stores = {}, {}
    for rnd in range(rounds):
        def one(n):
            to = None
            f, q, spec = {}, {}, {}
            rn = False
            ob = dis = 0
            va, so = {}, {}
            for init in consts.get(n) or [None]:
                r = rule(prog, summ, cfg)
                e = interp.Engine(prog, g, r, view.func(n), maxsteps=200000 if ctx.tier == 'quick' else 1000000)
                st = None
                if init:
                    st = interp.State()
                    st.env[view.func(n).params[init[0]]] = interp.const(init[1])
                try:
                    e.run(st)
                except interp.Timeout as x:
                    to = str(x)
                for k, x in r.findings.items():
                    f.setdefault(k, (prog.where(x[0]), x[0].fn.name) + tuple(x[1:]))
                qq = {k: (prog.where(x[0]) if not isinstance(x[0], str) else x[0],) + tuple(x[1:]) for k, x in r.reqs.items()}
                q.update(qq)
                if init:
                    spec[init[1]] = qq
                rn |= r.rets_null
                so.update(r.stores)
                for c, m in r.vecargs.items():
                    va[c] = None if m is None or va.get(c, m) is None else min(m, va.get(c, m))
                ob += r.oblig
                dis += r.disch
            return n, to, f, q, rn, ob, dis, spec, va, so
        changed = set()
        for n, to, f, q, rn, o, d, spec, va, so in parallel(one, sorted(todo)):
            vecargs[n] = va
            stores[n] = so
            last[n] = (to, f, q, rn, o, d)
            old = summ[n].spec[1] if summ[n].spec else {}
            if (set(summ[n].reqs) != set(q) or summ[n].rets_null != rn
                    or any(set(old.get(v, ())) != set(spec[v]) for v in spec)):
                changed.add(n)
            summ[n].reqs = q
            summ[n].rets_null = rn
            if spec:
                summ[n].spec = (consts[n][0][0], spec)
        hist.append((len(todo), len(changed)))
        # functions whose parameter is a word list at each of their call sites
        vp = {}
        for va in vecargs.values():
            for (n, k), m in va.items():
                vp.setdefault(n, {}).setdefault(k, []).append(m)
        new = dict(declared)
        for n, ks in vp.items():
            for k, ms in ks.items():
                if n in summ and n not in declared and None not in ms:
                    new.setdefault(n, {})[k] = min(ms)
        again = {n for n in summ if new.get(n) != cfg.vecparams.get(n)}
        cfg.vecparams = new
        if not changed and not again:
            break
        # callers of changed functions, over the inlined view
        todo = {n for n in changed if any(q[0] in ('arg', 'argr') for q in summ[n].reqs)}
        for n in names:
            for i in view.func(n).insts():
                if i.op == 'call':
                    t = [i.x[1]] if i.x[0] == '@' else ['*']
                    if t == ['*'] or t[0] in changed:
                        todo.add(n)
                        break
        todo |= again
    inferred = {}
    for n in sorted(stores):
        for m, w in stores[n].items():
            inferred.setdefault(m, w)
    return last, summ, hist, inferred
