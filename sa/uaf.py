"""Use after release and double release, path by path.

The typestate of a path is the set of released values.  Using a released value
(reading or writing through it, passing it on, returning it, releasing it again)
is a finding.  What a function releases of its parameters on all of its paths is
summarised and applied at its call sites; so are members of a parameter that are
released and left in place.
"""
import interp
from interp import mk, ZERO

# released argument of library functions
FREE = {'g_free': 0, 'free': 0, 'g_list_free': 0, 'g_strfreev': 0, 'g_key_file_free': 0, 'g_error_free': 0, 'g_hash_table_destroy': 0,
        'g_list_free_full': 0, 'g_list_free_1': 0, 'g_queue_free': 0, 'g_mapped_file_unref': 0, 'fclose': 0, 'closedir': 0,
        'g_dir_close': 0, 'freeaddrinfo': 0, 'g_option_context_free': 0, 'g_list_delete_link': 1, 'g_slice_free1': 1,
        'g_array_free': 0, 'g_ptr_array_free': 0, 'g_string_free': 0, 'g_free_sized': 0, 'g_slist_free': 0, 'g_date_free': 0,
        'g_timer_destroy': 0, 'g_rand_free': 0, 'g_io_channel_close': None, 'g_tree_destroy': 0, 'g_main_loop_unref': None}
FREE = {k: v for k, v in FREE.items() if v is not None}

# library functions that only compare the pointer they are given
COMPARE = {'g_list_remove': (1,), 'g_list_find': (1,), 'g_list_index': (1,), 'g_queue_remove': (1,), 'g_slist_remove': (1,), 'g_list_remove_all': (1,),
           'g_hash_table_remove': (), 'printf': (), 'g_idle_remove_by_data': (0,), 'g_source_remove_by_user_data': (0,)}


class UafRule(interp.Rule):
    maxstates = 10
    lossy = True

    def __init__(self, prog, summ, view=None, makers=()):
        self.prog = prog
        self.summ = summ            # function -> Summary
        self.view = view
        self.makers = makers
        self._made = None
        self.findings = {}
        self.oblig = 0
        self.frees = None           # parameters released on every returning path
        self.maybe = set()
        self.dangling = {}          # (parameter, member...) left released on some path
        self.stale = {}             # members of other live objects left released
        self.events = 0

    def join_ts(self, a, b, eng):
        return {k: v for k, v in a.items() if b.get(k) == v}

    def join_states(self, a, b, eng):
        out = self.join_ts(a.ts, b.ts, eng)
        # what is released in one of the two states only, and still in its member
        for x, y in ((a, b), (b, a)):
            for k, w in x.ts.items():
                if k[0] in ('dead', 'may') and k not in out and self.chain(x, k[1], None, eng):
                    out['may', k[1]] = w
        return out

    def entry(self, st, fn, eng):
        self.fn = fn
        self.fnname = fn.name
        self.params = [st.env[p] for p in fn.params]

    def enter(self, st, b, eng):
        # what nothing can mention any more can not be used any more
        if st.ts:
            atoms = set()
            for e in st.env.values():
                atoms |= e.atoms
            for e in st.mem.values():
                atoms |= e.atoms
            live = None
            ts = {}
            for k, w in st.ts.items():
                e = k[1]
                keep = e.atoms <= atoms
                if keep and e.k == 'ld':
                    # still in the member it was read from, or in a variable
                    v = st.mem.get(e.a[0])
                    if not (v is e or v is None and st.ep.get(eng.cls(e.a[0], 'ptr'), st.ep.get('*', 0)) == e.a[1]):
                        if live is None:
                            live = set()
                            todo = list(st.env.values()) + list(st.mem.values())
                            while todo:
                                x = todo.pop()
                                if x not in live:
                                    live.add(x)
                                    todo += [y for y in x.a if isinstance(y, interp.E)]
                        keep = e in live
                if keep:
                    ts[k] = w
                elif k[0] != 'ref':
                    c = self.chain(st, e, b.insts[0], eng)
                    if c is None:
                        continue
                    if c[0].k in ('g', 'p') or c[0].a[0] in atoms:
                        ts['may', e] = w        # decided when the object is forgotten, too
                    else:
                        self.left(st, b.insts[0], e, w, eng)
            st.ts = ts

    def report(self, st, i, e, eng, how):
        w = st.ts.get(('dead', e))
        key = (i.id, how)
        if key not in self.findings:
            self.findings[key] = (i, how, interp.show(e), w, eng.trail(st))

    def isdead(self, st, e):
        return ('dead', e) in st.ts

    def use(self, st, i, e, eng, how):
        self.oblig += 1
        if e is not ZERO and ('dead', e) in st.ts and not st.isnull(e):
            self.report(st, i, e, eng, how)
            st.ts = {k: v for k, v in st.ts.items() if k != ('dead', e)}
            return True
        return False

    def load(self, st, i, a, eng):
        self.access(st, i, a, eng, 'read')

    def store(self, st, i, a, v, eng):
        self.access(st, i, a, eng, 'written')

    def access(self, st, i, a, eng, how):
        r = eng.root(a)
        if r.k in ('al', 'g', 'c'):
            return
        self.use(st, i, r, eng, how)

    def release(self, st, i, e, eng, how):
        if e.k in ('c', 'g', 'k') or st.isnull(e):
            return
        self.events += 1
        if self.use(st, i, e, eng, 'released again by ' + how):
            return
        if e.k in ('fld', 'idx'):
            return
        st.ts = dict(st.ts)
        st.ts['dead', e] = self.prog.where(i)

    def call(self, st, i, names, args, eng):
        n0 = names[0].split('#')[0] if names else None
        if len(names) == 1 and n0 in FREE and n0 not in self.prog.funcs:
            k = FREE[n0]
            if k < len(args):
                if n0 == 'g_string_free' and args[1] is ZERO:
                    return None     # only the wrapper goes
                self.release(st, i, args[k], eng, n0)
            return None
        for k, a in enumerate(args):
            r = eng.root(a)
            if ('dead', r) in st.ts and r is a:
                if n0 in COMPARE and (k in COMPARE[n0] or not COMPARE[n0]):
                    continue
                if n0 and n0.startswith('llvm.') and not n0.startswith('llvm.mem'):
                    continue
                s = [self.summ.get(n) for n in names]
                if all(x is not None for x in s) and s:
                    if any(k in x.frees for x in s):
                        self.use(st, i, a, eng, 'released again by ' + n0)
                        continue
                    if not any(k in x.uses for x in s):
                        continue
                self.use(st, i, a, eng, 'passed to %s' % (n0 or 'a callback'))
        return None

    def after(self, st, i, names, args, eng):
        s = [self.summ.get(n) for n in names]
        if not s or any(x is None for x in s):
            return
        for k, a in enumerate(args):
            if all(k in x.refs for x in s) and a.k != 'c':
                st.ts = dict(st.ts)
                st.ts['ref', a] = st.ts.get(('ref', a), 0) + 1
                continue
            if all(k in x.maybe for x in s) and ('ref', a) in st.ts:
                st.ts = dict(st.ts)
                st.ts['ref', a] -= 1
                if not st.ts['ref', a]:
                    del st.ts['ref', a]
                continue
            if all(k in x.maybe for x in s):
                self.release(st, i, a, eng, names[0].split('#')[0])
            else:
                for (p, chain), w in [y for x in s for y in x.dangling.items()]:
                    if p == k:
                        e = a
                        for f in chain:
                            e = mk('fld', e, *f[1:]) if f[0] == 'fld' else eng.read(st, e, 'ptr', i)
                        if e.k in ('ld', 's'):
                            st.ts = dict(st.ts)
                            st.ts['dead', e] = w

    def ret(self, st, i, val, eng):
        if val is not None and i.ty == 'ptr' and val is not ZERO:
            self.use(st, i, val, eng, 'returned')
        fr = {k for k, p in enumerate(self.params) if ('dead', p) in st.ts or st.isnull(p)}
        real = {k for k, p in enumerate(self.params) if ('dead', p) in st.ts}
        self.maybe |= real
        self.frees = fr if self.frees is None else self.frees & fr
        for key, w in st.ts.items():
            if key[0] == 'ref':
                continue
            self.left(st, i, key[1], w, eng)

    def chain(self, st, e, i, eng):
        """the members through which the released value e is still reachable, and their root"""
        chain = []
        x = e
        first = True
        while True:
            if x.k == 'ld':
                a = x.a[0]
                # the members on the way still hold what was read from them
                if st.mem.get(a, x) is not x or eng.read(st, a, 'ptr', i) is not x:
                    return None
                if not first and ('dead', x) in st.ts:
                    return None
                first = False
                chain.append(('ld',))
                x = a
            elif x.k in ('fld', 'idx'):
                chain.append((x.k,) + x.a[1:])
                x = x.a[0]
            else:
                break
        if ('dead', x) in st.ts or not chain:
            return None
        if len(chain) > 1 and chain[1][0] == 'fld' and chain[1][1].split('.')[-1] in ('_GList', '_GSList'):
            return None         # list elements: see the registry property
        if x.k == 'g':
            return x, tuple(reversed(chain))
        if len(chain) < 2 or x.k not in ('p', 's'):
            return None
        if x.k == 's' and (eng.is_alloc(x.a[0]) or x.a[0] in self.made() if isinstance(x.a[0], int) else x.a[0][0] != 'phi'):
            return None         # a new object of which nothing is known but that it is new
        return x, tuple(reversed(chain))

    def left(self, st, i, e, w, eng):
        """is the released value e still in the member it came from when it is forgotten"""
        c = self.chain(st, e, i, eng)
        if c is None:
            return
        x, chain = c
        if x.k == 'p':
            self.dangling.setdefault((x.a[1], chain), w)
        else:
            self.stale.setdefault((x.a[0] if x.k == 'g' else 'object', chain), (i, w, interp.show(e), eng.trail(st)))

    def made(self):
        if self._made is None:
            self._made = {i.id for i in self.view.func(self.fnname).insts() if i.op == 'call' and i.x[0] == '@' and i.x[1] in self.makers}
        return self._made


def makers(prog, view, names):
    """functions that return an object they allocated, or NULL"""
    out = set()
    alloc = interp.Engine.ALLOC

    def ok(v, defs, seen):
        if v == ('c', 0):
            return True
        if v[0] != '%' or v[1] not in defs:
            return False
        if v[1] in seen:
            return True
        seen.add(v[1])
        d = defs[v[1]]
        if d.op == 'phi':
            return all(ok(x, defs, seen) for x, _ in d.x)
        if d.op == 'select':
            return ok(d.ops[1], defs, seen) and ok(d.ops[2], defs, seen)
        return d.op == 'call' and d.x[0] == '@' and (d.x[1] in alloc or d.x[1] in out)
    ch = True
    while ch:
        ch = False
        for n in names:
            if n in out:
                continue
            f = view.func(n)
            defs = {i.res: i for i in f.insts() if i.res is not None}
            rets = [i.ops[0] for i in f.insts() if i.op == 'ret' and i.ops]
            if rets and any(r != ('c', 0) for r in rets) and all(ok(r, defs, set()) for r in rets):
                out.add(n)
                ch = True
    return out


class Summary:
    def __init__(self):
        self.frees = frozenset()
        self.maybe = frozenset()
        self.uses = frozenset()
        self.refs = frozenset()     # parameters of which a reference counter is incremented
        self.dangling = {}


def param_uses(fn):
    """parameters that a function does more with than compare them"""
    out = set()
    names = {p: k for k, p in enumerate(fn.params)}
    for i in fn.insts():
        if i.op == 'icmp':
            continue
        for o in _walk(i):
            if o in names:
                out.add(names[o])
    return frozenset(out)


def counters(prog, view, names, summ):
    """functions that take a reference: they add one to a counter in a parameter"""
    for n in names:
        fn = view.func(n)
        d = {i.res: i for i in fn.insts() if i.res is not None}

        def fld(v):
            g = d.get(v[1]) if v[0] == '%' else None
            if g is not None and g.op == 'gep' and g.ops[0][0] == '%' and g.ops[0][1] in fn.params:
                return fn.params.index(g.ops[0][1]), repr(g.x), repr(g.ops[1:])
            return None
        out = set()
        for i in fn.insts():
            if i.op == 'store' and i.ops[0][0] == '%' and i.ops[0][1] in d:
                b = d[i.ops[0][1]]
                if b.op == 'bin' and b.x == 'add' and b.ops[1] == ('c', 1) and b.ops[0][0] == '%' and b.ops[0][1] in d:
                    l = d[b.ops[0][1]]
                    f = fld(i.ops[1])
                    if l.op == 'load' and f and fld(l.ops[0]) == f and len(fn.blocks) <= 5:
                        out.add(f[0])
        summ[n].refs = frozenset(out)
    for _ in range(3):
        for n in names:
            fn = view.func(n)
            if len(fn.blocks) <= 2:
                for i in fn.insts():
                    if i.op == 'call' and i.x[0] == '@' and i.x[1] in summ:
                        for k in summ[i.x[1]].refs:
                            if k < len(i.ops) and i.ops[k][0] == '%' and i.ops[k][1] in fn.params:
                                summ[n].refs |= {fn.params.index(i.ops[k][1])}


def _walk(i):
    def w(o):
        if isinstance(o, tuple):
            if o and o[0] == '%':
                yield o[1]
            else:
                for x in o:
                    if isinstance(x, (tuple, list)):
                        yield from w(x)
        elif isinstance(o, list):
            for x in o:
                yield from w(x)
    for o in i.ops or ():
        yield from w(o)
    if i.x is not None and isinstance(i.x, (tuple, list)):
        yield from w(i.x)


def analyse(ctx, rounds=8, rule=UafRule):
    from core import parallel
    prog, g, view = ctx.prog, ctx.g, ctx.view
    names = ctx.roots()
    for n in names:
        view.func(n)
    summ = {n: Summary() for n in names}
    for n in names:
        summ[n].uses = param_uses(view.func(n))
    counters(prog, view, names, summ)
    mk_ = makers(prog, view, names)
    last, hist = {}, []
    todo = set(names)
    for rnd in range(rounds):
        def one(n):
            r = rule(prog, summ, view, mk_)
            e = interp.Engine(prog, g, r, view.func(n), maxsteps=200000 if ctx.tier == 'quick' else 1000000)
            to = None
            try:
                e.run()
            except interp.Timeout as x:
                to = str(x)
            f = {k: (prog.where(x[0]), x[0].fn.name) + tuple(x[1:]) for k, x in r.findings.items()}
            return n, to, f, frozenset(r.frees or ()) & frozenset(r.maybe), frozenset(r.maybe), r.dangling, r.oblig, r.events, \
                {k: (prog.where(x[0]),) + tuple(x[1:]) for k, x in r.stale.items()}
        changed = set()
        for n, to, f, fr, mb, dg, ob, ev, sl in parallel(one, sorted(todo)):
            last[n] = (to, f, ob, ev, sl)
            s = summ[n]
            if s.frees != fr or s.maybe != mb or set(s.dangling) != set(dg):
                changed.add(n)
            s.frees, s.maybe, s.dangling = fr, mb, dg
        hist.append((len(todo), len(changed)))
        if not changed:
            break
        todo = set()
        for n in names:
            for i in view.func(n).insts():
                if i.op == 'call' and (i.x[0] != '@' or i.x[1] in changed):
                    todo.add(n)
                    break
    return last, summ, hist
