"""Call graph (with field-sensitive resolution of function pointers) and
field-based side-effect (mod) sets."""
from collections import defaultdict

MEMWRITE = {'llvm.memcpy.p0.p0.i64', 'llvm.memset.p0.i64', 'llvm.memmove.p0.p0.i64', 'memcpy', 'memset', 'memmove'}


def addr_class(prog, defs, v, ty, depth=0):
    """class of memory an address denotes: ('F',struct,field) | ('G',name) | ('L',fn,name) | ('I',ty) | ('O',ty)"""
    if v[0] == '@':
        return ('G', v[1])
    if v[0] == 'gep':
        return gep_class(prog, defs, v[1], v[2], list(v[3]), ty, depth)
    if v[0] == '%':
        d = defs.get(v[1])
        if d is None:
            return ('O', tystr(ty))
        if d.op == 'alloca':
            return ('L', v[1])
        if d.op == 'gep':
            return gep_class(prog, defs, d.x, d.ops[0], d.ops[1:], ty, depth)
        if d.op == 'cast':
            return addr_class(prog, defs, d.ops[0], ty, depth + 1)
    return ('O', tystr(ty))


def tystr(t):
    return t if isinstance(t, str) else t[0]


def gep_class(prog, defs, sty, base, idx, ty, depth):
    t = sty
    last = None
    for k, i in enumerate(idx):
        if k == 0:
            if len(idx) == 1 and not (i == ('c', 0)):
                last = ('I', tystr(t))
            continue
        if isinstance(t, tuple) and t[0] == 'st':
            body = prog.types.get(t[1])
            n = i[1] if i[0] == 'c' else 0
            last = ('F', prog.dt.cname(t[1]), prog.dt.fname(t[1], n))
            t = body[n] if body else 'i8'
        elif isinstance(t, tuple) and t[0] == 'arr':
            t = t[2]
            if last is None or last[0] != 'F':
                last = None
        elif isinstance(t, tuple) and t[0] == 'lit':
            last = ('F', 'lit', str(i[1] if i[0] == 'c' else 0))
            t = t[1][i[1] if i[0] == 'c' else 0]
    if last is not None and last[0] == 'F':
        return last
    c = addr_class(prog, defs, base, ty, depth + 1) if depth < 20 else ('O', tystr(ty))
    if c[0] in ('L', 'G', 'F'):
        return c
    return last or ('I', tystr(sty))


def defs_of(f):
    return {i.res: i for i in f.insts() if i.res is not None}


class Graph:
    def __init__(self, prog):
        self.prog = prog
        self.defs = {n: defs_of(f) for n, f in prog.funcs.items()}
        self._tg = {}
        self._listed = None
        self.slots = defaultdict(set)        # (struct, field) -> function names stored there
        self.slot_null = defaultdict(set)    # slots some constant table leaves NULL -> the tables
        self.slot_open = set()               # slots that also receive non-constant values
        self.addr_taken = set()
        self.by_sig = defaultdict(set)
        self.init_tables()
        self.calls = defaultdict(list)       # fn -> [(inst, [targets], kind)]
        self.callers = defaultdict(list)
        self.direct_calls = defaultdict(list)
        for n, f in prog.funcs.items():
            for i in f.insts():
                if i.op == 'call' and i.x[0] == '@':
                    self.direct_calls[i.x[1]].append((n, i))
                for o in i.ops:
                    if o[0] == '@' and o[1] in prog.funcs:
                        self.addr_taken.add(o[1])
                if i.op == 'phi':
                    for o, _ in i.x:
                        if o[0] == '@' and o[1] in prog.funcs:
                            self.addr_taken.add(o[1])
        for n, f in prog.funcs.items():
            self.by_sig[self.sig(f)].add(n)
        for n, f in prog.funcs.items():
            self.scan_taken(n, f)
        for n, f in prog.funcs.items():
            for i in f.insts():
                if i.op == 'call':
                    t = self.targets(n, i)
                    self.calls[n].append((i, t))
                    for x in t:
                        self.callers[x].append((n, i))
        self._mod = None

    def sig(self, f):
        return (f.rty if isinstance(f.rty, str) else 'agg', tuple(t if isinstance(t, str) else 'agg' for t in f.ptypes), f.va)

    # ---- tables
    def init_tables(self):
        for g in self.prog.globals.values():
            if g.init is not None:
                self.walk_init(g.ty, g.init, None, g.name)

    def walk_init(self, ty, v, slot, gname=None):
        ty = self.prog.dt.rowtype(gname, ty)
        if v[0] == '@' and v[1] in self.prog.funcs:
            self.addr_taken.add(v[1])
            if slot:
                self.slots[slot].add(v[1])
        elif v[0] == 'c' and v[1] == 0 and ty == 'ptr' and slot:
            self.slot_null[slot].add(gname)
        elif v[0] == 'agg':
            if isinstance(ty, tuple) and ty[0] == 'st':
                if not any(self.set(x) for t, x in v[1]):
                    return      # end marker of a table
                for k, (t, x) in enumerate(v[1]):
                    self.walk_init(t, x, (self.prog.dt.cname(ty[1]), self.prog.dt.fname(ty[1], k)), gname)
            else:
                for t, x in v[1]:
                    self.walk_init(t, x, slot, gname)

    def set(self, v):
        if v[0] == 'agg':
            return any(self.set(x) for t, x in v[1])
        return v[0] not in ('zero', 'undef', 'poison') and v != ('c', 0)

    def scan_taken(self, n, f):
        d = self.defs[n]
        for i in f.insts():
            if i.op == 'store':
                v, a = i.ops
                c = addr_class(self.prog, d, a, i.ty)
                if v[0] == '@' and v[1] in self.prog.funcs:
                    self.addr_taken.add(v[1])
                    self.slots[c if c[0] != 'F' else c[1:]].add(v[1])
                elif i.ty == 'ptr' and v != ('c', 0) and c[0] == 'F':
                    vals = self.origins(n, v)
                    if vals is None:
                        self.slot_open.add(c[1:])
                    else:
                        self.slots[c[1:]].update(x for x in vals if x in self.prog.funcs)
            elif i.op == 'call':
                for o in i.ops:
                    if o[0] == '@' and o[1] in self.prog.funcs:
                        self.addr_taken.add(o[1])
            elif i.op in ('phi', 'select', 'ret', 'icmp'):
                for o in (i.ops if i.op != 'phi' else [v for v, _ in i.x]):
                    if o[0] == '@' and o[1] in self.prog.funcs:
                        self.addr_taken.add(o[1])

    def origins(self, fn, v, depth=0):
        """constant functions a value may be (through parameters of directly
        called functions), or None when unknown"""
        if depth > 6:
            return None
        if v[0] == '@':
            return {v[1]} if v[1] in self.prog.funcs else set()
        if v[0] == 'c':
            return set()
        if v[0] != '%':
            return None
        f = self.prog.funcs[fn]
        d = self.defs[fn].get(v[1])
        if d is None:
            if v[1] in f.params:
                k = f.params.index(v[1])
                if fn in self.addr_taken:
                    return None
                out = set()
                for cn, ci in self.direct_calls.get(fn, ()):
                    if k >= len(ci.ops):
                        return None
                    r = self.origins(cn, ci.ops[k], depth + 1)
                    if r is None:
                        return None
                    out |= r
                return out
            return None
        if d.op == 'phi':
            out = set()
            for x, _ in d.x:
                r = self.origins(fn, x, depth + 1)
                if r is None:
                    return None
                out |= r
            return out
        return None

    def targets(self, fn, i):
        """names a call may reach: project functions or external names"""
        c = i.x
        if c[0] == '@':
            return [c[1]]
        k = (fn, i.id)
        r = self._tg.get(k)
        if r is None:
            r = self._tg[k] = self.targets_(fn, i)
        return r

    def sigmatch(self, i):
        sigs = (i.ty if isinstance(i.ty, str) else 'agg', tuple(t if isinstance(t, str) else 'agg' for t in (i.tys or [])))
        return {x for x in self.addr_taken if self.sig(self.prog.funcs[x])[:2] == sigs}

    def slot_targets(self, slot, i):
        """functions a call through a struct field may reach, None when unknown"""
        if slot == ('_GList', 'data'):
            return sorted(self.sigmatch(i) & self.listed())
        if slot in self.slot_open:
            return None
        return sorted(self.slots.get(slot, ()))

    def listed(self):
        """functions ever put into a list"""
        if self._listed is None:
            s = set()
            for n, f in self.prog.funcs.items():
                for i in f.insts():
                    if i.op == 'call' and i.x[0] == '@' and i.x[1].startswith(('g_list_', 'g_slist_')) and len(i.ops) > 1:
                        r = self.origins(n, i.ops[1])
                        if r:
                            s |= r
            self._listed = s
        return self._listed

    def targets_(self, fn, i):
        c = i.x
        sigs = (i.ty if isinstance(i.ty, str) else 'agg', tuple(t if isinstance(t, str) else 'agg' for t in (i.tys or [])))
        if c[0] == '%':
            d = self.defs[fn].get(c[1])
            if d is not None and d.op == 'load':
                cl = addr_class(self.prog, self.defs[fn], d.ops[0], 'ptr')
                if cl[0] == 'F':
                    r = self.slot_targets(cl[1:], i)
                    if r is not None:
                        return r
            r = self.origins(fn, c)
            if r is not None:
                return sorted(r)
        return sorted(x for x in self.addr_taken
                      if self.sig(self.prog.funcs[x])[:2] == sigs or
                      (len(self.prog.funcs[x].ptypes) == len(sigs[1]) and self.sig(self.prog.funcs[x])[0] == sigs[0]
                       and self.sig(self.prog.funcs[x])[1] == sigs[1]))

    def slot_of_call(self, fn, i):
        c = i.x
        if c[0] == '%':
            d = self.defs[fn].get(c[1])
            if d is not None and d.op == 'load':
                cl = addr_class(self.prog, self.defs[fn], d.ops[0], 'ptr')
                if cl[0] == 'F':
                    return cl[1:]
        return None

    # ---- reachability
    def reach(self, roots, stop=()):
        seen = set()
        work = list(roots)
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            if x in stop:
                continue
            for i, t in self.calls.get(x, ()):
                work.extend(t)
                for o in i.ops:
                    if o[0] == '@' and o[1] in self.prog.funcs:
                        work.append(o[1])
        return seen

    # ---- mod sets
    def mods(self):
        if self._mod is not None:
            return self._mod
        direct = {}
        for n, f in self.prog.funcs.items():
            s = set()
            d = self.defs[n]
            for i in f.insts():
                if i.op == 'store':
                    c = addr_class(self.prog, d, i.ops[1], i.ty)
                    if c[0] != 'L':
                        s.add(c)
                elif i.op == 'call' and i.x[0] == '@' and i.x[1] in MEMWRITE:
                    c = addr_class(self.prog, d, i.ops[0], 'i8')
                    if c[0] != 'L':
                        s.add(('M',) + c)
            direct[n] = s
        mod = {n: set(s) for n, s in direct.items()}
        deps = {}
        for n in self.prog.funcs:
            e = set()
            for i, t in self.calls[n]:
                e.update(x for x in t if x in self.prog.funcs)
                for o in i.ops:
                    if o[0] == '@' and o[1] in self.prog.funcs:
                        e.add(o[1])
            deps[n] = e
        rev = defaultdict(set)
        for n, e in deps.items():
            for x in e:
                rev[x].add(n)
        work = list(self.prog.funcs)
        inq = set(work)
        while work:
            n = work.pop()
            inq.discard(n)
            for c in rev[n]:
                if not mod[n] <= mod[c]:
                    mod[c] |= mod[n]
                    if c not in inq:
                        inq.add(c)
                        work.append(c)
        self._mod = mod
        return mod
