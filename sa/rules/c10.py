"""C10: the settings that are saved are the settings that are loaded

The functions that fill a key file and write it to disk, and those that read one, are
interpreted with their helpers inlined.  Every key that is written, read, tested for and
removed is recorded with the group, the type and the member the value is of.  Then the
saving function is interpreted once for each key: when the file is written, the key must
have been set, removed or be known to be absent, on every path.
"""
import build
import interp
from interp import mk, mkicmp, const, ZERO
from core import Report, AnalysisError, parallel

KF = 'g_key_file_'
GET = {KF + 'get_' + t: t for t in ('string', 'boolean', 'integer', 'string_list', 'value', 'int64', 'uint64', 'double', 'integer_list', 'boolean_list', 'locale_string')}
SET = {KF + 'set_' + t: t for t in ('string', 'boolean', 'integer', 'string_list', 'value', 'int64', 'uint64', 'double', 'integer_list', 'boolean_list', 'locale_string')}
HAS, DEL, DELG, HASG = KF + 'has_key', {KF + 'remove_key'}, KF + 'remove_group', KF + 'has_group'
DATA = KF + 'to_data'
LOADF = {KF + 'load_from_file', KF + 'load_from_data'}
COPY = {'g_strdup', 'g_strndup', 'g_strstrip', 'g_strchug', 'g_strchomp', 'g_strdupv', 'strdup', 'g_intern_string', 'g_strdup_inline'}
# members that choose between kinds of entries: a key of one kind does not concern the others
KIND = ('network_config', 'type')


class Base(interp.Rule):
    maxstates = 32

    def __init__(self, ctx, fn):
        self.ctx, self.prog, self.fn = ctx, ctx.prog, fn
        self.main = set()           # symbols of the main key file

    def cstr(self, e):
        while e.k == 'idx' and e.a[2] is ZERO:
            e = e.a[0]
        if e.k != 'g':
            return None
        g = self.prog.globals.get(e.a[0])
        if g is None or g.init is None:
            return None
        if g.init[0] == 'zero' and g.const:
            return ''
        if g.init[0] != 'str':
            return None
        return bytes(c & 255 for c in g.init[1]).split(b'\0')[0].decode('latin1')

    def field(self, e):
        """(struct, member) a value was loaded from"""
        e = interp.strip(e)
        if e.k == 'ld' and e.a[0].k == 'fld':
            return e.a[0].a[1:3]
        return None

    def file(self, e):
        """the main configuration file, or another"""
        if self.field(e) == ('ctrlproxy_config', 'keyfile') or e in self.main:
            return 'main'
        return 'item'

    def place(self, args):
        """(class of the group, key)"""
        k = self.cstr(args[2])
        if k is None:
            return None
        g = self.cstr(args[1])
        if g is not None and self.file(args[0]) == 'main':
            return (g, k)
        return ('*', k)

    def store(self, st, i, a, v, eng):
        if a.k == 'fld' and a.a[1:3] == ('ctrlproxy_config', 'keyfile'):
            self.main.add(v)

    def loaded(self, st, i, a, v, eng):
        if a.k == 'fld' and a.a[1:3] == ('ctrlproxy_config', 'keyfile'):
            self.main.add(v)

    def joined(self, n, a, b, ren, eng):
        for new, x, y in ren:
            if x in self.main and y in self.main:
                self.main.add(new)

    def one(self, names):
        return names[0].split('#')[0] if len(names) == 1 else None


class Save(Base):
    """collects what is written; with a target, decides that key"""

    def __init__(self, ctx, fn, savers, target=None, kinds=None, rep=None, alike=()):
        Base.__init__(self, ctx, fn)
        self.alike = alike          # keys that hold the same member
        self.savers, self.target, self.kinds, self.rep = savers, target, kinds, rep
        self.fresh = set()
        # collected: target -> ...
        self.writes = {}        # [(type, field, text, where)]
        self.kind = {}          # [ranges of the kind of entry]
        self.tidy = set()       # in a key file that starts empty
        self.looped = set()     # in a loop
        self.deleted = set()
        self.used = set()       # members that are passed on or tested

    def set(self, st, **kw):
        ts = dict(st.ts)
        for k, v in kw.items():
            if v is None:
                ts.pop(k, None)
            else:
                ts[k] = v
        st.ts = ts

    def loop(self, i, eng):
        """the innermost loop around an instruction"""
        best = None
        for h, body in eng.loopof.items():
            if i.bb in body and (best is None or len(body) < len(eng.loopof[best])):
                best = h
        return best

    def which(self, args, i, eng):
        """identity of the key: (group, key) of the main file, or ('*', key, loop) of an entry"""
        p = self.place(args)
        if p is not None and p[0] == '*':
            h = self.loop(i, eng)
            return p + (h.name if h is not None else '',)
        return p

    def enter(self, st, b, eng):
        if b in eng.headers and 'kind' in st.ts and not any(b in body for h, body in eng.loopof.items() if h is not b):
            self.set(st, kind=None)
        if self.target is None:
            return
        self.normal(st, eng)
        if 'base' in st.ts and b in eng.headers and b.name == self.target[2]:
            self.decide(st, eng, 'when the next entry is saved')
            self.set(st, base=None, done=None, has=None, kind=None)

    def normal(self, st, eng):
        h = st.ts.get('has')
        if h is not None:
            if st.isnull(h):
                self.set(st, has=None, done=st.ts.get('done') or 'absent')
            elif st.nonnull(h):
                self.set(st, has=None)
        if self.kinds and 'done' not in st.ts and 'base' in st.ts:
            r = self.kindof(st)
            if all(r[1] < lo or r[0] > hi for lo, hi in self.kinds):
                self.set(st, done='other kind')

    def kindof(self, st):
        k = st.ts.get('kind')
        return st.range(k) if k is not None else (-interp.INF, interp.INF)

    def branch(self, st, i, cond, taken, eng):
        if self.target is not None:
            self.normal(st, eng)

    def decide(self, st, eng, when):
        self.rep.obligations += 1
        if st.ts.get('done'):
            self.rep.discharged += 1
            return
        g, k = self.target[:2]
        fn = self.fn.split('#')[0]
        self.rep.find('%s|%s/%s' % (fn, g, k), self.wherekey,
                      '%s: on some path the key "%s" of %s is neither set nor removed %s: the value saved earlier comes back' %
                      (fn, k, 'group "%s"' % g if g != '*' else 'an entry', when), eng.trail(st))

    def call(self, st, i, names, args, eng):
        n = self.one(names)
        if n is None:
            return None
        if self.target is not None:
            self.normal(st, eng)
        else:
            self.used |= {f for f in map(self.field, args) if f is not None}
        if n in SET or n in DEL:
            t = self.which(args, i, eng)
            if t is None:
                return None
            if self.target is None:
                if self.loop(i, eng) is not None:
                    self.looped.add(t)
                if n in DEL:
                    self.deleted.add(t)
                else:
                    f = self.field(args[3])
                    self.writes.setdefault(t, set()).add((SET[n], f, self.cstr(args[3]), self.prog.where(i)))
                    if args[0] in self.fresh and self.file(args[0]) != 'main':
                        self.tidy.add(t)
                    self.kind.setdefault(t, set()).add(self.kindof(st))
                return None
            if t[0] == '*' and t[2:] == self.target[2:]:
                if 'base' not in st.ts:
                    self.set(st, base=True)
                    self.normal(st, eng)
            if t == self.target or t in self.alike:
                self.set(st, done='set' if n in SET else 'removed', has=None)
        elif n == DELG and self.target is not None:
            if self.target[0] != '*' and self.cstr(args[1]) == self.target[0] and self.file(args[0]) == 'main':
                self.set(st, done='removed', has=None)
        elif n in self.savers and args and self.target is not None and self.target[0] != '*' and self.file(args[0]) == 'main':
            self.rep.count('files_written')
            self.set(st, file='ok' if st.ts.get('done') else 'bad')
        return None

    def after(self, st, i, names, args, eng):
        n = self.one(names)
        e = st.env.get(i.res) if i.res is not None else None
        if n == KF + 'new' and e is not None:
            self.fresh.add(e)
        elif self.target is not None and n == HAS and self.which(args, i, eng) == self.target and 'done' not in st.ts and e is not None:
            self.set(st, has=e)

    def loaded(self, st, i, a, v, eng):
        Base.loaded(self, st, i, a, v, eng)
        if a.k != 'fld':
            return
        if a.a[1:3] == KIND:
            self.set(st, kind=v)
        if self.target is None and not (v.k == 'ld' and v.a[2] == 'ptr'):
            self.used.add(a.a[1:3])

    def store(self, st, i, a, v, eng):
        Base.store(self, st, i, a, v, eng)
        f = self.field(v)
        if f is not None and self.target is None:
            self.used.add(f)

    def ret(self, st, i, val, eng):
        if self.target is None:
            return
        self.normal(st, eng)
        if 'base' in st.ts:
            self.decide(st, eng, 'before the return')
        elif self.target[0] != '*' and 'file' in st.ts:
            if st.ts['file'] == 'ok':
                self.set(st, done='set')
            else:
                self.set(st, done=None)
            self.decide(st, eng, 'when the file is written')


class Load(Base):
    """collects what is read, into which member"""
    maxstates = 4

    def __init__(self, ctx, fn):
        Base.__init__(self, ctx, fn)
        self.src = {}           # symbol -> (place, type)
        self.reads = {}         # place -> {types}
        self.into = {}          # place -> {(field, sign)}
        self.removed = set()    # places and groups
        self.where = {}
        self.fields = {}        # field -> places
        self.guess = {}

    def join_ts(self, a, b, eng):
        return a if a == b else {}

    def call(self, st, i, names, args, eng):
        n = self.one(names)
        if n in GET or n == HAS:
            st.ts = {}
        elif n in DEL:
            p = self.place(args)
            if p:
                self.removed.add(p)
        elif n == DELG:
            g = self.cstr(args[1])
            self.removed.add((g if g is not None and self.file(args[0]) == 'main' else '*', None))
        return None

    def after(self, st, i, names, args, eng):
        n = self.one(names)
        e = st.env.get(i.res) if i.res is not None else None
        if n in GET and e is not None:
            p = self.place(args)
            if p:
                self.src[e] = (p, GET[n])
                self.reads.setdefault(p, set()).add(GET[n])
                self.where.setdefault(p, self.prog.where(i))
                st.ts = {'last': e}
        elif n in COPY and e is not None and args and interp.strip(args[0]) in self.src:
            self.src[e] = self.src[interp.strip(args[0])]

    def origin(self, v):
        v = interp.strip(v)
        sign = True
        while v.k == 'icmp' and v.a[0] in ('eq', 'ne') and v.a[2] is ZERO or v.k == 'cast':
            if v.k == 'icmp':
                sign = sign == (v.a[0] == 'ne')
                v = v.a[1]
            else:
                v = v.a[3]
        return self.src.get(v), sign

    def put(self, p, f, sign):
        self.into.setdefault(p, set()).add((f, sign))
        if sign:
            self.fields.setdefault(f, set()).add(p)

    def store(self, st, i, a, v, eng):
        Base.store(self, st, i, a, v, eng)
        if a.k != 'fld':
            return
        f = a.a[1:3]
        o, sign = self.origin(v)
        if o is not None:
            self.put(o[0], f, sign)
        elif v.k == 'c':
            e = st.ts.get('last')
            if e is not None and self.src[e][1] == 'boolean':
                p = self.src[e][0]
                if st.isnull(e):
                    self.guess.setdefault(p, set()).add((f, v.a[0] == 0))
                elif st.nonnull(e):
                    self.guess.setdefault(p, set()).add((f, v.a[0] != 0))

    def finish(self):
        """what is chosen by a test of the value, where the value is not kept"""
        for p, fs in self.guess.items():
            if p not in self.into:
                for f, sign in fs:
                    self.put(p, f, sign)


def closure(prog, start):
    """functions that call one of these, directly or not"""
    callers = {}
    for n, f in prog.funcs.items():
        for i in f.insts():
            if i.op == 'call' and i.x[0] == '@':
                callers.setdefault(i.x[1].split('#')[0] if i.x[1] not in prog.funcs else i.x[1], set()).add(n)
    out, todo = set(start), list(start)
    while todo:
        for c in callers.get(todo.pop(), ()):
            if c not in out:
                out.add(c)
                todo.append(c)
    return out


def cyclic(f):
    """blocks of a function that are in a loop"""
    out = set()
    for b in f.blocks:
        seen, todo = set(), list(b.succs)
        while todo:
            c = todo.pop()
            if c not in seen:
                seen.add(c)
                todo += c.succs
        if b in seen:
            out.add(b)
    return out


FRESH = {'g_malloc', 'g_malloc0', 'g_malloc_n', 'g_malloc0_n', 'g_try_malloc0', 'calloc', 'malloc', 'g_slice_alloc0', 'g_slice_alloc'}


def fresh(f, made):
    """registers that hold something just made"""
    new = {i.res for i in f.insts() if i.op == 'call' and i.x[0] == '@' and i.x[1] in made}
    grow = bool(new)
    while grow:
        grow = False
        for i in f.insts():
            if i.op == 'phi' and i.res not in new and all(o[0][0] == '%' and o[0][1] in new for o in i.x):
                new.add(i.res)
                grow = True
    return new


def makers(prog):
    """functions that return something they have made"""
    out = set(FRESH)
    grow = True
    while grow:
        grow = False
        for n, f in prog.funcs.items():
            if n in out:
                continue
            rets = [i.ops[0] for i in f.insts() if i.op == 'ret' and i.ops]
            if rets and all(o[0] == '%' for o in rets):
                new = fresh(f, out)
                if all(o[1] in new for o in rets):
                    out.add(n)
                    grow = True
    return out


def fields(prog, f):
    """register -> ((struct, member), base) of the address of a member"""
    st = {}
    for i in f.insts():
        if i.op == 'gep' and isinstance(i.x, tuple) and i.x[0] == 'st':
            t = i.x
            last = None
            for o in i.ops[2:]:
                if isinstance(t, tuple) and t[0] == 'st' and o[0] == 'c':
                    last = (prog.dt.cname(t[1]), prog.dt.fname(t[1], o[1]))
                    body = prog.types.get(t[1])
                    t = body[o[1]] if body else 'i8'
                elif isinstance(t, tuple) and t[0] in ('arr', 'vec'):
                    t = t[2]
            if last:
                st[i.res] = last, i.ops[0]
    return st


def enumerated(prog):
    """member -> the numbers it can hold: everything stored to it is a constant, and its
    address is only used to load and store"""
    vals, bad = {}, set()
    for f in prog.funcs.values():
        st = fields(prog, f)
        for i in f.insts():
            ops = [o[0] for o in i.x] if i.op == 'phi' else i.ops
            for k, o in enumerate(ops):
                if o[0] != '%' or o[1] not in st:
                    continue
                m = st[o[1]][0]
                if i.op == 'store' and k == 1 and i.ops[0][0] == 'c':
                    vals.setdefault(m, {0}).add(i.ops[0][1])
                elif i.op != 'load':
                    bad.add(m)
    return {m: v for m, v in vals.items() if m not in bad}


def changed(prog, f, made):
    """members of things that exist already, which a function stores to"""
    new = fresh(f, made)
    st = {r: m for r, (m, b) in fields(prog, f).items() if not (b[0] == '%' and b[1] in new)}
    for i in f.insts():
        if i.op == 'store' and i.ops[1][0] == '%' and i.ops[1][1] in st:
            yield st[i.ops[1][1]]
        elif i.op == 'call':
            for o in i.ops:
                if o[0] == '%' and o[1] in st and st[o[1]][1] is not None:
                    yield st[o[1]]


def run(ctx):
    prog = ctx.prog
    view = ctx.view
    to_data = closure(prog, [DATA])
    savers = {n for n in to_data if n in prog.funcs} | {DATA}

    def uses(f, names):
        return any(i.op == 'call' and i.x[0] == '@' and i.x[1] in names for i in f.insts())
    # functions with loops that are called for each of a number of things are
    # read on their own
    cyc = {n: cyclic(f) for n, f in prog.funcs.items()}
    sites = {}
    for n, f in prog.funcs.items():
        for i in f.insts():
            if i.op == 'call' and i.x[0] == '@':
                sites.setdefault(i.x[1], []).append(i.bb in cyc[n])
    apart = {n for n in prog.funcs if cyc[n] and (len(sites.get(n, ())) > 1 or any(sites.get(n, ())))}
    base = build.BASE_EXPORTS()

    def should(f):
        return f.name not in apart and (f.internal or f.base not in base)
    lview = ctx.b.view(should=should)
    saves, loads = [], []
    for n, f in prog.funcs.items():
        if not (f.internal and n not in ctx.g.addr_taken) and uses(view.func(n), SET) and uses(view.func(n), savers):
            saves.append(n)
        if (not should(f) or n in ctx.g.addr_taken) and uses(lview.func(n), GET):
            loads.append(n)
    rep = Report('every key that is written (group, name, type, member) against every key that is read, and for every key that is written a path-sensitive typestate: when '
                 'the file is written (when an entry is done), the key has been set, removed, or tested to be absent, unless the member is only set when the file is loaded')

    # the value of a member that only ever holds listed constants
    interp.State.intrinsic = {m: (min(v), max(v)) for m, v in enumerated(prog).items() if len(v) <= 16}
    if not saves or not loads:
        raise AnalysisError('no function saves (%d) or loads (%d) a key file' % (len(saves), len(loads)))

    def job(x):
        kind, n = x
        r = Save(ctx, n, savers) if kind == 's' else Load(ctx, n)
        e = interp.Engine(prog, ctx.g, r, (view if kind == 's' else lview).func(n), maxsteps=3000000)
        e.run()
        if kind == 's':
            return r.writes, r.kind, r.tidy, r.looped, r.deleted, r.used
        r.finish()
        return r.reads, r.into, r.removed, r.where, r.fields
    jobs = [('s', n) for n in saves] + [('l', n) for n in loads]
    res = parallel(job, jobs)
    moved = set()       # keys and groups that are removed when the file is read
    reads, into, where, held, loaders = {}, {}, {}, {}, {}
    for (kind, n), r in zip(jobs, res):
        if r and r[0] == 'timeout':
            raise AnalysisError(r[2])
        if kind == 'l':
            for dst, src in ((reads, r[0]), (into, r[1]), (held, r[4])):
                for k, v in src.items():
                    dst.setdefault(k, set()).update(v)
            moved |= {x for x in r[2] if x[0] != '*'}
            for k, v in r[3].items():
                where.setdefault(k, v)
                loaders.setdefault(k, n.split('#')[0])
    # members that change other than when the file is read
    only = set(loads)
    callers = {}
    for n, f in prog.funcs.items():
        for i in f.insts():
            if i.op == 'call' and i.x[0] == '@':
                callers.setdefault(i.x[1], set()).add(n)
    grow = True
    while grow:
        grow = False
        for n in prog.funcs:
            if n not in only and callers.get(n) and n not in ctx.g.addr_taken and callers[n] <= only:
                only.add(n)
                grow = True
    change = {}
    made = makers(prog)
    for n, f in prog.funcs.items():
        if n not in only and n not in saves:
            for x in changed(prog, f, made):
                change.setdefault(x, set()).add(n.split('#')[0])
    rep.count('keys_read', len(reads))
    rep.count('members_changed_at_run_time', len(change))
    todo = []
    for (kind, n), r in zip(jobs, res):
        if kind != 's':
            continue
        writes, kinds, tidy, looped, deleted, used = r
        fn = n.split('#')[0]
        direct = set()
        for t in sorted(writes, key=str):
            p = t[:2]
            rep.count('keys_written')
            name = '%s/%s' % p
            for ty, f, text, w in sorted(writes[t], key=str):
                if f is not None:
                    direct.add(f)
                rep.obligations += 1
                k = '%s|%s|%s|%s' % (fn, name, ty, f and f[1])
                if p not in reads:
                    rep.find(k, w, '%s writes the key "%s" of %s, which is never read' % (fn, p[1], place(p)))
                elif ty not in reads[p]:
                    rep.find(k, w, '%s writes the key "%s" of %s as a %s, but it is read as a %s at %s' % (fn, p[1], place(p), ty, '/'.join(sorted(reads[p])), where[p]))
                elif f is not None and into.get(p) and (f, True) not in into[p]:
                    how = 'into %s' % ', '.join(sorted('%s.%s' % x[0] for x in into[p]))
                    if (f, False) in into[p]:
                        how = 'inverted'
                    rep.find(k, w, '%s writes %s.%s under the key "%s" of %s, but it is read %s at %s' % (fn, f[0], f[1], p[1], place(p), how, where[p]))
                else:
                    rep.discharged += 1
            if t in tidy:
                rep.count('in_files_written_afresh')
            else:
                fs = {x[1] for x in writes[t]}
                if None in fs or t in looped or any(f in change for f in fs):
                    finite = [x for x in kinds[t] if x != (-interp.INF, interp.INF)]
                    todo.append((n, t, tuple(finite), sorted(x[3] for x in writes[t])[0], frozenset(fs)))
        # what is read and can change must be written
        for f in sorted(held):
            gone = sorted(q for q in held[f] if q in moved or (q[0], None) in moved)
            if f not in change and not gone:
                continue
            rep.obligations += 1
            if f in direct or f in used and not any(q[:2] == t[:2] for q in held[f] for t in deleted - set(writes)):
                rep.discharged += 1
                continue
            q = sorted(held[f])[0]
            why = '%s can change' % ', '.join(sorted(change[f])[:3]) if f in change else 'is then removed from the file'
            if gone and f not in change:
                q = gone[0]
            rep.find('%s|%s.%s' % (fn, f[0], f[1]), where[q], '%s reads the key "%s" of %s into %s.%s, which %s, but %s does not save it' %
                     (loaders[q], q[1], place(q), f[0], f[1], why, fn))
    rep.floor('keys_read', 60)
    rep.floor('keys_written', 50)
    # other keys that hold the same member
    same = {}
    for n, t, kinds, w, fs in todo:
        if None not in fs:
            same.setdefault((n, fs, t[2:]), set()).add(t)

    def decide(x):
        n, t, kinds, w, fs = x
        one = Report('')
        r = Save(ctx, n, savers, target=t, kinds=kinds, rep=one, alike=same.get((n, fs, t[2:]), {t}))
        r.wherekey = w
        e = interp.Engine(prog, ctx.g, r, view.func(n), maxsteps=3000000)
        e.run()
        if not one.obligations:
            one.find('%s|%s/%s|unseen' % (n.split('#')[0], t[0], t[1]), w, '%s: the file is never written after the key "%s"' % (n.split('#')[0], t[1]))
        return one
    for x, r in zip(todo, parallel(decide, todo)):
        if isinstance(r, tuple):
            raise AnalysisError(r[2])
        rep.count('keys_followed')
        rep.merge(r)
    rep.floor('keys_followed', 30)
    return rep


def place(p):
    return 'an entry' if p[0] == '*' else 'group "%s"' % p[0]
