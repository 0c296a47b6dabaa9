"""C23: what is released is in no list any more

A registry is a list in a member of a structure or in a global variable into which
structures are put.  Which registries hold which type is read from the insertions.
Every path that releases such a structure (itself, or through a function that releases
its parameter) must take it out of all registries of its type, before or after, until
it returns; unless it was never put in, or the list or its owner is released as well.
What a function leaves to do about a parameter is left to its callers.
"""
import interp
from interp import mk, const, ZERO
from core import Report, AnalysisError, parallel

ADD = {'g_list_append': 1, 'g_list_prepend': 1, 'g_list_insert_sorted': 1, 'g_list_insert': 1, 'g_slist_append': 1, 'g_slist_prepend': 1, 'g_list_insert_before': 2}
DEL = {'g_list_remove', 'g_list_remove_all', 'g_slist_remove', 'g_list_delete_link', 'g_list_remove_link', 'g_slist_delete_link'}
DROP = {'g_list_free', 'g_slist_free', 'g_list_free_full', 'g_slist_free_full'}
FIND = {'g_list_find', 'g_slist_find'}
EACH = {'g_list_foreach', 'g_slist_foreach'}
FREE = {'g_free', 'free', 'g_slice_free1', 'g_free_sized'}
ALLOC = {'g_malloc', 'g_malloc0', 'g_malloc_n', 'g_malloc0_n', 'g_memdup', 'g_memdup2', 'calloc', 'malloc', 'g_slice_alloc0', 'g_slice_alloc'}
LISTS = ('_GList', '_GSList')


# structures that others may refer to for longer: the member that tells that they have ended
ENDS = {'irc_client': 'connected'}


class Summ:
    """what a function leaves to its callers"""

    def __init__(self):
        self.frees = {}     # parameter -> (type, registries it may still be in, those it is still in if the owner passed is NULL: (registry, parameter))
        self.outs = {}      # parameter -> registries it is taken out of on every path
        self.fresh = False  # the result is new and in no registry
        self.dead = None    # registries that are given up on every path

    def key(self):
        return (tuple(sorted((k, v[0], tuple(sorted(v[1])), tuple(sorted(v[2]))) for k, v in self.frees.items())), tuple(sorted((k, tuple(sorted(v))) for k, v in self.outs.items())),
                tuple(sorted(self.dead or ())))


class Rule(interp.Rule):
    maxstates = 16
    lossy = False
    ends = ENDS

    def __init__(self, ctx, name, summ, regs, counted, groups):
        self.ctx, self.prog, self.name = ctx, ctx.prog, name
        self.summ, self.regs, self.counted = summ, regs, counted
        self.types = {}
        self.puts = {}          # registry -> types put in, with the place
        self.out = Summ()
        self.first = True
        self.left = {}          # (type, registry) -> (where, trail)
        self.at = {}            # value -> where it was released
        self.frees = 0
        self.oblig = 0
        self.conds = {}
        self.groups = groups
        self.removes = False
        self.slots = {}
        self.owners = {}
        for R in regs:
            if R[0] not in ('', '*'):
                self.owners.setdefault(R[0], []).append(R)

    # typestate: ('new', x)  ('out', x, R)  ('f', x): registries  ('g', T): registries  ('dead', R)  ('add', e): x  ('rem', e): x
    def upd(self, st, **kw):
        raise NotImplementedError

    def put(self, st, k, v):
        ts = dict(st.ts)
        if v is None:
            ts.pop(k, None)
        else:
            ts[k] = v
        st.ts = ts

    def one(self, names):
        return names[0].split('#')[0] if len(names) == 1 else None

    def reg(self, a):
        if a.k == 'fld':
            return (a.a[1], a.a[2])
        if a.k == 'g':
            return ('', a.a[0])
        if a.k == 'p':
            return ('*', 'list passed by address')
        return None

    def see(self, a):
        while a.k in ('fld', 'idx'):
            if a.k == 'fld':
                self.types.setdefault(a.a[0], a.a[1])
            a = a.a[0]

    def load(self, st, i, a, eng):
        self.see(a)

    def store(self, st, i, a, v, eng):
        self.see(a)
        if a.k == 'fld' and a.a[1] in self.ends and a.a[2] == self.ends[a.a[1]] and st.isnull(v):
            # it ends here, whoever still refers to it
            x, T = a.a[0], a.a[1]
            self.release(st, i, x, T, self.need(st, x, T), eng, True)
        ts = st.ts
        R = self.reg(a)
        if R is None:
            return
        x = ts.get(('add', v))
        if x is not None:
            self.puts.setdefault(R, []).append((x, self.prog.where(i)))
            self.put(st, ('add', v), None)
            self.put(st, ('new', x), None)
            self.put(st, ('out', x, R), None)
        if v.k != 'c':
            self.put(st, ('lst', v), R)
        x = ts.get(('rem', v))
        if x is not None:
            self.put(st, ('rem', v), None)
            if x[1] is None or x[1] == R:
                self.gone(st, x[0], R)
        if R in self.regs and st.isnull(v):
            self.over(st, R)

    def gone(self, st, x, R):
        """x was taken out of R"""
        self.removes = True
        self.put(st, ('out', x, R), True)
        f = st.ts.get(('f', x))
        if f is not None:
            T = self.types.get(x)
            self.put(st, ('f', x), self.reduce(st, x, T, f - {R}) or None)
        if x.k == 'p':
            self.put(st, ('po', x, R), True)

    def over(self, st, R):
        """the whole list is given up"""
        new = {}
        for k, v in st.ts.items():
            if k[0] in ('f', 'g'):
                v = v - {R}
                if not v:
                    continue
            new[k] = v
        new['dead', R] = True
        st.ts = new

    def need(self, st, x, T):
        if ('new', x) in st.ts:
            return frozenset()
        return frozenset(R for R in self.regs if T in self.regs[R] and ('out', x, R) not in st.ts)

    def release(self, st, i, x, T, need, eng, all_of=False):
        """x of type T is released; it may be in these"""
        self.frees += 1
        if st.isnull(x):
            return
        for R in list(self.regs):
            if R[0] == T:
                self.over(st, R)        # its own lists end with it
        if T in self.counted and not all_of and not (x.k == 'p' or x in self.elem):
            return              # the reference of another structure
        need = self.reduce(st, x, T, frozenset(R for R in need if R[0] != T), all_of)
        if need:
            no = set()
            for e in list(self.types):
                O = self.types[e]
                for R in need:
                    if R[0] == O and R not in no and e != x and st.isnull(e):
                        no.add(R)           # there is no owner
                        if e.k == 'p' and e.a[0] == self.fname and x.k == 'p' and x.a[0] == self.fname:
                            self.conds.setdefault(x.a[1], set()).add((R, e.a[1]))
            need -= no
        if need:
            self.put(st, ('f', x), (st.ts.get(('f', x)) or frozenset()) | need)
            for R in need:
                self.at.setdefault((T, R), (self.prog.where(i), eng.trail(st)))
            self.types.setdefault(x, T)

    def finds(self, st):
        for k, v in list(st.ts.items()):
            if k[0] == 'find' and st.isnull(k[1]):
                self.put(st, ('out', v[0], v[1]), True)

    def reduce(self, st, x, T, need, all_of=False):
        """what of these x may still be in: one of the groups of registries that hold T"""
        self.finds(st)
        for g in self.groups.get(T, ()):
            if T in self.ends or all_of:
                break
            if all(('out', x, R) in st.ts or ('dead', R) in st.ts or R[0] == T for R in g):
                return frozenset()
        return frozenset(R for R in need if ('out', x, R) not in st.ts and ('nobody', R) not in st.ts)

    def zero(self, st, x, T):
        return True

    def call(self, st, i, names, args, eng):
        n = self.one(names)
        if n in FREE and args:
            x = args[0]
            T = self.types.get(x)
            if T is not None:
                self.release(st, i, x, T, self.need(st, x, T), eng)
        elif n in DROP and args:
            R = self.listof(st, args[0])
            if n.endswith('_full') and len(args) > 1:
                pass
            if R is not None:
                self.over(st, R)
        return None

    def listof(self, st, e):
        R = st.ts.get(('lst', e))
        if R is not None:
            return R
        if e.k == 'ld':
            R = self.reg(e.a[0])
            if R in self.regs or R is not None:
                return R
        return None

    def after(self, st, i, names, args, eng):
        n = self.one(names)
        e = st.env.get(i.res) if i.res is not None else None
        if n in ALLOC and e is not None:
            self.put(st, ('new', e), True)
        elif n in ADD and e is not None and len(args) > ADD[n]:
            self.put(st, ('add', e), args[ADD[n]])
        elif n in DEL and e is not None:
            x = args[1]
            if 'link' in n:
                R = self.listof(st, x)
                x = self.node.get(x)
                if x is None and R is not None:
                    # the first element, read again
                    xs = [v for v, h in self.head.items() if h == R and v in st.env.values()]
                    x = xs[0] if len(xs) == 1 else None
            if x is not None:
                self.put(st, ('rem', e), (x, self.listof(st, args[0])))
        elif n in FIND and e is not None:
            R = self.listof(st, args[0])
            if R is not None:
                self.node[e] = args[1]
                self.put(st, ('find', e), (args[1], R))
        elif n in EACH and args[1].k == 'g':
            s = self.summ.get(args[1].a[0])
            R = self.listof(st, args[0])
            if s is not None and 0 in s.frees:
                T, need, cond = s.frees[0]
                if need:
                    self.put(st, ('g', T), (st.ts.get(('g', T)) or frozenset()) | need)
                    for q in need:
                        self.at.setdefault((T, q), (self.prog.where(i), eng.trail(st)))
        for m in names:
            s = self.summ.get(m)
            if s is None:
                continue
            if s.fresh and e is not None:
                self.put(st, ('new', e), True)
            if all(m in self.summ for m in names):
                for k, rs in s.outs.items():
                    rs = [R for R in rs if all(R in self.summ[o].outs.get(k, ()) for o in names)]
                    if k < len(args):
                        for R in rs:
                            self.gone(st, args[k], R)
                for R in (s.dead or ()) if len(names) == 1 else ():
                    self.over(st, R)
            for k, (T, need, cond) in s.frees.items():
                if k < len(args):
                    x = args[k]
                    self.types.setdefault(x, T)
                    need = need | {R for R, j in cond if j < len(args) and st.isnull(args[j])}
                    nd = frozenset() if ('new', x) in st.ts else need
                    self.release(st, i, x, T, nd, eng)

    node = {}

    def told(self, slot):
        ts = [self.summ.get(f) for f in self.ctx.g.slots.get(slot, ())]
        if ts and all(ts):
            for k, rs in ts[0].outs.items():
                yield k, [R for R in rs if all(R in t.outs.get(k, ()) for t in ts)]

    def loaded(self, st, i, a, v, eng):
        if a.k == 'fld' and v.k == 'ld' and (a.a[1], a.a[2]) in self.ctx.g.slots:
            self.slots[v] = (a.a[1], a.a[2])
        if a.k == 'fld' and a.a[1] in LISTS and a.a[2] == 'data':
            self.node[a.a[0]] = v
            self.elem.add(v)
            R = self.listof(st, a.a[0])
            if R is not None and self.again(eng, i):
                self.head[v] = R

    def again(self, eng, i):
        """is the first element read anew in each round?"""
        v, d = i.ops[0], None
        while v[0] == '%':
            d = eng.defs.get(v[1])
            if d is None or d.op != 'gep':
                break
            v = d.ops[0]
        return d is not None and d.op == 'load' and any(i.bb in body and d.bb in body for body in eng.loopof.values())

    def enter(self, st, b, eng):
        self.finds(st)
        # what has no owner is in no list of it
        for e, O in list(self.types.items()):
            if e.k == 'ld' and e.a[0].k == 'fld' and O in self.owners and st.isnull(e):
                x = e.a[0].a[0]
                for R in self.owners[O]:
                    if self.types.get(x) in self.regs[R]:
                        self.gone(st, x, R)
        # nobody is to be told
        for e in self.slots:
            if st.isnull(e):
                for k, rs in self.told(self.slots[e]):
                    for R in rs:
                        self.put(st, ('nobody', R), True)
                        for key in [q for q in st.ts if q[0] == 'f' and R in st.ts[q]]:
                            self.put(st, key, st.ts[key] - {R} or None)
        if b in eng.headers and eng.frm in eng.loopof[b]:
            self.fold(st)

    def fold(self, st):
        """what was released in a loop, other than parameters"""
        new, g = {}, {}
        for k, v in st.ts.items():
            if k[0] == 'f' and k[1].k != 'p':
                T = self.types.get(k[1], '?')
                g[T] = g.get(T, frozenset()) | v
                R = self.head.get(k[1])
                if R in v:
                    # the next round finds it there
                    self.left.setdefault((T, R), self.at.get((T, R)))
            elif k[0] in ('new', 'out') and k[1].k != 'p' and k[1] not in st.env.values():
                continue
            elif k[0] in ('add', 'rem', 'find', 'lst'):
                continue
            else:
                new[k] = v
        for T, v in g.items():
            new['g', T] = new.get(('g', T), frozenset()) | v
        st.ts = new

    def join_ts(self, a, b, eng):
        out = {}
        for k in set(a) | set(b):
            x, y = a.get(k), b.get(k)
            if k[0] in ('f', 'g'):
                v = (x or frozenset()) | (y or frozenset())
                # not discharged where the list was given up
                out[k] = v
            elif x == y:
                out[k] = x
        return out

    def tskey(self, ts):
        return frozenset(k for k in ts if k[0] in ('f', 'g'))

    def split(self, a, b, eng):
        return False

    def ret(self, st, i, val, eng):
        ts = st.ts
        outs = {}
        frees = {}
        dead = {k[1] for k in ts if k[0] == 'dead'}
        for k, v in ts.items():
            if k[0] == 'po' and k[1].a[0] == self.fname:
                outs.setdefault(k[1].a[1], set()).add(k[2])
            elif k[0] == 'f':
                T = self.types.get(k[1], '?')
                if k[1].k == 'p':
                    frees[k[1].a[1]] = (T, v)
                else:
                    for R in v:
                        self.left.setdefault((T, R), self.at.get((T, R)))
            elif k[0] == 'g':
                for R in v:
                    self.left.setdefault((k[1], R), self.at.get((k[1], R)))
        for k, (T, v) in frees.items():
            old = self.out.frees.get(k)
            self.out.frees[k] = (T, v | (old[1] if old else frozenset()), frozenset())
        for k, c in self.conds.items():
            T, v, o = self.out.frees.get(k) or (self.types.get(mk('p', self.fname, k), '?'), frozenset(), frozenset())
            self.out.frees[k] = (T, v, o | frozenset(c))
        # parameters that were released without anything left to do
        if self.first:
            self.out.outs = {k: frozenset(v) for k, v in outs.items()}
            self.out.dead = frozenset(dead)
            self.isnew = val is not None and ('new', val) in ts
            self.first = False
        else:
            self.out.outs = {k: frozenset(self.out.outs[k] & frozenset(v)) for k, v in outs.items() if k in self.out.outs}
            self.out.dead &= frozenset(dead)
            if val is not None and not st.isnull(val):
                self.isnew = self.isnew and ('new', val) in ts
        self.out.fresh = bool(self.isnew)


def run(ctx):
    prog = ctx.prog
    names = set(ADD) | DEL | DROP | FREE | EACH
    view = ctx.b.view(should=lambda f: f.internal and len(f.blocks) < 60)
    callers = {}
    base = set()
    for n, f in prog.funcs.items():
        for i in f.insts():
            if i.op == 'call' and i.x[0] == '@':
                callers.setdefault(i.x[1], set()).add(n)
                if i.x[1] in set(ADD) | DEL | FREE | DROP:
                    base.add(n)

    def roots_of(start):
        roots, seen, todo = set(), set(), list(start)
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            f = prog.funcs[n]
            if n in ctx.g.addr_taken or not f.internal:
                roots.add(n)
            if f.internal:
                todo.extend(callers.get(n, ()))
        return roots
    rep = Report('every path that releases a structure that is put into a list of the program takes it out of that list, or gives the list up')
    roots = sorted(roots_of(base))
    for n in roots:
        view.func(n)
    summ, regs, groups = {}, {}, {}
    counted = {n[7:] for n, fs in ctx.dt.fields.items() if n.startswith('struct.') and 'references' in fs}
    T0 = {}

    def one(n):
        types = {}
        for k in range(2):
            rule = Rule(ctx, n, summ, regs, counted, groups)
            rule.types = types
            rule.node, rule.head, rule.elem = {}, {}, set()
            rule.fname = n
            fn = view.func(n)
            try:
                interp.Engine(prog, ctx.g, rule, fn, maxsteps=80000).run()
            except interp.Timeout as e:
                return n, None, str(e), {}, {}, 0, (), {}
            if not rule.left and not rule.out.frees and not rule.removes:
                break
            rule.types = types
        puts = {R: sorted({(rule.types.get(x) or '?', w) for x, w in v}) for R, v in rule.puts.items()}
        same = {}
        for R, v in rule.puts.items():
            for x, w in v:
                same.setdefault(x, set()).add(R)
        return n, rule.out, None, puts, rule.left, rule.frees, [sorted(v) for v in same.values() if len(v) > 1], rule.at
    # which registries hold what
    both = []
    for r in parallel(one, roots):
        n, s, t, puts, left, k, same, ats = r
        both += same
        for R, v in puts.items():
            for T, w in v:
                if T != '?':
                    regs.setdefault(R, set()).add(T)
                else:
                    T0.setdefault(R, set()).add(w)
    # registries that the same object is put in belong together; others are alternatives
    for R in sorted(regs):
        for T in regs[R]:
            groups.setdefault(T, []).append({R})
    for T, gs in groups.items():
        for v in both:
            hit = [g for g in gs if g & set(v)]
            if len(hit) > 1:
                gs[:] = [g for g in gs if g not in hit] + [set().union(*hit)]
    rep.count('registries', len(regs))
    if len(regs) < 12:
        raise AnalysisError('only %d lists of entries were found' % len(regs))
    rep.samples = ['%s holds %s' % ('.'.join(R).split('#')[0].lstrip('.'), ', '.join(sorted(regs[R]))) for R in sorted(regs)]
    todo = list(roots)
    res = {}
    for rnd in range(6):
        changed = set()
        for r in parallel(one, todo):
            n, s, t, puts, left, k, same, ats = r
            res[n] = r
            if s is not None and (n not in summ or summ[n].key() != s.key() or summ[n].fresh != s.fresh):
                summ[n] = s
                changed.add(n)
        if not changed:
            break
        more = set()
        for n in changed:
            more |= {c for c in callers.get(n, ())}
            if n in ctx.g.addr_taken:
                more |= set(roots)
        todo = sorted(roots_of(more))
        for n in todo:
            view.func(n)
    for n, (n, s, t, puts, left, k, same, ats) in sorted(res.items()):
        if t:
            rep.timeouts.append(t)
        rep.count('functions_interpreted')
        rep.count('releases', k)
        rep.obligations += k
        rep.discharged += k
        if s is not None and n in ctx.g.addr_taken:
            for k, (T, need, cond) in s.frees.items():
                if T in counted:
                    continue
                for R in need:
                    left.setdefault((T, R), ats.get((T, R)))
        for (T, R), at in sorted(left.items()):
            rep.discharged -= 1
            rep.find('%s|%s|%s' % (n.split('#')[0], T, '.'.join(R).split('#')[0]), at[0] if at else '?',
                     '%s: a %s is released that may still be in %s' % (n.split('#')[0], T, '.'.join(R).split('#')[0]), at[1] if at else '')
    return rep
