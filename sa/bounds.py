"""Accesses and copies stay inside fixed-size arrays.

Objects are arrays with a size fixed by their type: local variables, globals and
members of structures.  For every access, copy or library call that reads or
writes a counted number of bytes, the byte range must be inside the object on
every path.  What a function needs of the extent of a parameter is summarised
and checked at its call sites.
"""
import interp
from interp import mk, mkbin, ZERO, INF, const

# destination, byte count, kind; kind: 'w' counted write, 'r' counted read
COUNTED = {
    'memcpy': [(0, 2, 'w'), (1, 2, 'r')], 'memmove': [(0, 2, 'w'), (1, 2, 'r')], 'memset': [(0, 2, 'w')], 'memcmp': [(0, 2, 'r'), (1, 2, 'r')],
    'g_memdup': [(0, 1, 'r')], 'g_memdup2': [(0, 1, 'r')],
    'snprintf': [(0, 1, 'w')], 'vsnprintf': [(0, 1, 'w')], 'g_snprintf': [(0, 1, 'w')], 'g_vsnprintf': [(0, 1, 'w')],
    'strftime': [(0, 1, 'w')], 'fgets': [(0, 1, 'w')], 'read': [(1, 2, 'w')], 'recv': [(1, 2, 'w')], 'recvfrom': [(1, 2, 'w')],
    'write': [(1, 2, 'r')], 'send': [(1, 2, 'r')], 'fread': [(0, (1, 2), 'w')], 'fwrite': [(0, (1, 2), 'r')],
    'g_io_channel_read_chars': [(1, 2, 'w')], 'g_io_channel_read': [(1, 2, 'w')],
    'gethostname': [(0, 1, 'w')], 'getdomainname': [(0, 1, 'w')], 'g_strlcpy': [(0, 2, 'w')], 'g_strlcat': [(0, 2, 'w')], 'strlcpy': [(0, 2, 'w')],
    'strlcat': [(0, 2, 'w')], 'inet_ntop': [(2, 3, 'w')], 'readlink': [(1, 2, 'w')], 'getcwd': [(0, 1, 'w')], 'bzero': [(0, 1, 'w')],
    'getnameinfo': [(2, 3, 'w'), (4, 5, 'w')], 'gnutls_record_recv': [(1, 2, 'w')],
    'gnutls_x509_crt_get_dn': None, 'backtrace': [(0, (1, 8), 'w')], 'bind': [(1, 2, 'r')], 'connect': [(1, 2, 'r')],
    'g_iconv': None, 'strerror_r': [(1, 2, 'w')], 'getline': None, 'getentropy': [(0, 1, 'w')], 'gnutls_rnd': [(1, 2, 'w')],
    'fgetc': None,
}
COUNTED = {k: v for k, v in COUNTED.items() if v}
# destination, in/out length (pointer to the size of the destination)
INOUT = {'getpeername': (1, 2), 'getsockname': (1, 2), 'accept': (1, 2), 'getsockopt': (3, 4), 'gnutls_x509_crt_get_dn': (1, 2),
         'gnutls_x509_privkey_get_key_id': (2, 3), 'gnutls_x509_crt_export': (2, 3), 'gnutls_x509_privkey_export': (2, 3),
         'gnutls_x509_crt_get_key_id': (2, 3), 'gnutls_x509_crt_get_fingerprint': (2, 3)}
STRCPY = {'strcpy': (0, 1), 'stpcpy': (0, 1), 'g_stpcpy': (0, 1)}
STRCAT = {'strcat': (0, 1, None), 'strncat': (0, 1, 2)}
STRNCPY = {'strncpy': (0, 1, 2)}
SPRINTF = {'sprintf', 'vsprintf', 'g_sprintf', 'g_vsprintf'}


class BoundRule(interp.Rule):
    maxstates = 12
    lossy = True
    relpairs = True
    pure = interp.Rule.pure - {'strlen'}

    def __init__(self, prog, summ, sizes):
        self.prog, self.summ, self.sizes = prog, summ, sizes
        self.findings = {}
        self.oblig = 0
        self.blocks = {}            # allocated block -> (size, unit)
        self.need = {}              # (param, kind) -> bytes
        self.stat = {}
        self.where = {}

    def join_ts(self, a, b, eng):
        out = {}
        for k, v in a.items():
            w = b.get(k)
            if w is None:
                continue
            if k[0] == 'len':
                out[k] = max(v, w)
            elif v == w:
                out[k] = v
        return out

    def join_states(self, a, b, eng):
        return self.join_ts(a.ts, b.ts, eng)

    def entry(self, st, fn, eng):
        self.fn = fn

    cur = None

    # ------------------------------------------------------------- geometry
    def place(self, a, eng):
        """(object, size in bytes or None, [(index expression, element size)], constant offset)"""
        off, syms = 0, []
        while True:
            if a.k == 'idx':
                s = self.sizes.ssize(a.a[1])
                if s is None:
                    return None
                b = a.a[0]
                # one level of an array: its own size is the bound
                syms.append((a.a[2], s))
                a = b
                continue
            t = self.type_of(a, eng)
            if t is not None and isinstance(t, tuple) and t[0] == 'arr' and t[1] > 0:
                return a, self.prog.dt.size(t), syms, off
            if a.k == 'fld':
                if syms or off:
                    # members of an element of an array: the offset only matters for the index
                    o = self.sizes.offset(a.a[1], a.a[3])
                    if o is None:
                        return None
                    t2 = None
                else:
                    o = self.sizes.offset(a.a[1], a.a[3])
                if o is None:
                    return None
                # a scalar member: the enclosing structure is only interesting when it is in an array
                if not syms:
                    b = a.a[0]
                    if b.k not in ('idx',):
                        st = self.type_of(a, eng)
                        return a, self.prog.dt.size(st) if st is not None else None, [], 0
                off += o
                a = a.a[0]
                continue
            if a.k in ('al', 'g') and t is not None:
                return a, self.prog.dt.size(t), syms, off
            return a, None, syms, off

    def type_of(self, a, eng):
        if a.k == 'al':
            return self.altypes(eng).get(a.a[0])
        if a.k == 'g':
            g = self.prog.globals.get(a.a[0])
            return g.ty if g is not None else None
        if a.k == 'fld':
            return self.sizes.ftype(a.a[1], a.a[3])
        return None

    def altypes(self, eng):
        r = getattr(eng, '_alt', None)
        if r is None:
            r = {}
            for i in eng.fn.insts():
                if i.op == 'alloca':
                    r[i.id] = i.x[0] if isinstance(i.x, tuple) and i.x and i.x[0] not in ('st', 'arr', 'lit', 'vec') else i.x
            eng._alt = r
        return r

    def offrange(self, st, syms, off, eng):
        lo = hi = off
        for x, s in syms:
            self.clamp(st, x, eng)
            l, h = st.range(x)
            a, ca = interp.lin(x)
            for (p, q), c in list(st.rel.items()):
                if p is a and q is not None:
                    self.clamp(st, q, eng)
                # bounds through a value that is related to it
                if p is a and q is not None:
                    h = min(h, st.range(q)[1] + c + ca)
                elif q is a and p is not None:
                    l = max(l, st.range(p)[0] - c + ca)
            lo += l * s
            hi += h * s
        return lo, hi

    def clamp(self, st, x, eng):
        """an index that runs over a table with an end mark never passes it"""
        m = self.sentinels(eng)
        if not m:
            return
        todo = [x]
        while todo:
            e = todo.pop()
            if e.k == 's' and isinstance(e.a[0], tuple):
                t = e.a[0]
                if t[0] == 'old':
                    t = t[1]
                if isinstance(t, tuple) and t[0] == 'phi' and t[1:] in m:
                    l, h = st.range(e)
                    n, low, inside = m[t[1:]]
                    if e.a[0] is t and self.cur in inside:
                        n = min(n, low)
                    st.rng[e] = (max(l, 0), min(h, n))
            else:
                todo += [y for y in e.a if isinstance(y, interp.E) and e.k in ('cast', 'bin')]

    def sentinels(self, eng):
        r = getattr(eng, '_sent', None)
        if r is None:
            r = eng._sent = find_sentinels(self.prog, eng)
        return r

    # ----------------------------------------------------------------- checks
    def check(self, st, i, a, n, eng, what, kind, isconst=None):
        """n bytes (expression or int) at address a"""
        p = self.place(a, eng)
        if p is None:
            return
        obj, size, syms, off = p
        lo, hi = self.offrange(st, syms, off, eng)
        if isinstance(n, int):
            nl = nh = n
        else:
            nl, nh = st.range(n)
        if size is None and self.blocks.get(obj, (None,))[0] is not None:
            self.heap(st, i, obj, off, syms, n, eng, what)
            return
        if size is None:
            if obj.k == 'p':
                if -(1 << 31) < lo < 0 and syms:
                    # room needed in front of it
                    key = (obj.a[1], 'n')
                    self.need[key] = max(self.need.get(key, 0), -lo)
                    self.where.setdefault(key, (i, what))
                # extent needed of a parameter
                if kind == 'r' and hi + nh >= (1 << 31) - 1:
                    return          # a string, or a list with an end mark
                if hi + nh < (1 << 31) - 1 and hi + nh > 0 and lo >= 0:
                    key = (obj.a[1], kind)
                    self.need[key] = max(self.need.get(key, 0), hi + nh)
                    self.where.setdefault(key, (i, what))
                elif kind == 'w' and not (syms and not isinstance(n, int)) and lo >= 0:
                    key = (obj.a[1], kind)
                    if not syms or True:
                        self.need[key] = INF
                        self.where.setdefault(key, (i, what))
            return
        if not syms and isinstance(n, int) and off + n <= size and off >= 0:
            if obj.k == 'fld' or obj.k in ('al', 'g'):
                t = self.type_of(obj, eng)
                if isinstance(t, tuple) and t[0] == 'arr':
                    self.oblig += 1
            return
        self.oblig += 1
        self.stat[kind] = self.stat.get(kind, 0) + 1
        ok = lo >= 0 and nl >= 0 and hi + nh <= size
        if not ok and lo >= 0 and not isinstance(n, int):
            # the sum may be bounded where its parts are not
            e = n
            for x, s in syms:
                e = mkbin('add', e, x if s == 1 else mkbin('mul', x, const(s), 64), 64)
            l, h = st.range(e)
            ok = l >= 0 and nl >= 0 and h + off <= size
            if not ok and nl >= 0:
                # or what is left when terms that cancel are dropped
                c, t = off, {}
                for x, s in syms + [(n, 1)]:
                    k, m = linear(x)
                    c += k * s
                    for b, f in m.items():
                        t[b] = t.get(b, 0) + f * s
                ok = c + sum(f * st.range(b)[1 if f > 0 else 0] for b, f in t.items() if f) <= size
        if not ok:
            self.report(i, '%s %s' % (what, self.show(obj)),
                        '%s: bytes %s..%s of the %d bytes of %s' % (what, num(lo), num(hi + nh - 1), size, self.show(obj)), eng.trail(st))

    def heap(self, st, i, obj, off, syms, n, eng, what):
        """a block allocated with a computed size, where the sizes can be compared"""
        size = self.blocks[obj]
        c, t = off, {}
        terms = [(x, s) for x, s in syms] + [(const(n) if isinstance(n, int) else n, 1)]
        for x, s in terms + [(size[0], -size[1])]:
            k, m = linear(x)
            c += k * s
            for a, f in m.items():
                t[a] = t.get(a, 0) + f * s
        t = {a: f for a, f in t.items() if f}
        if t and len(t) <= 2:
            # what remains may be bounded
            hi = c
            for a, f in t.items():
                self.clamp(st, a, eng)
                l, h = st.range(a)
                hi += f * (h if f > 0 else l)
            if len(t) == 2 and sum(t.values()) == 0:
                # or their difference
                (a, f), (b, _) = t.items()
                if f < 0:
                    a, b, f = b, a, -f
                hi = min(hi, c + f * st.diff(a, b))
                if 0 < hi < (1 << 20):
                    self.oblig += 1
                    self.report(i, '%s block' % what, '%s: up to %d byte%s past the end of a block of %s bytes' % (
                        what, hi, 's' * (hi > 1), interp.show(size[0]) if size[1] == 1 else '%d times %s' % (size[1], interp.show(size[0]))), eng.trail(st))
                    return
            if hi <= 0:
                self.oblig += 1
                self.stat['heap'] = self.stat.get('heap', 0) + 1
            else:
                self.stat['undecided'] = self.stat.get('undecided', 0) + 1
            return
        if t:
            self.stat['undecided'] = self.stat.get('undecided', 0) + 1
            return
        self.oblig += 1
        self.stat['heap'] = self.stat.get('heap', 0) + 1
        if c > 0:
            self.report(i, '%s block' % what, '%s: %d byte%s past the end of a block of %s bytes' % (
                what, c, 's' * (c > 1), interp.show(size[0]) if size[1] == 1 else '%d times %s' % (size[1], interp.show(size[0]))), eng.trail(st))

    ALLOC = {'g_malloc': (0,), 'g_malloc0': (0,), 'malloc': (0,), 'g_try_malloc': (0,), 'g_try_malloc0': (0,), 'g_malloc_n': (0, 1),
             'g_malloc0_n': (0, 1), 'calloc': (0, 1), 'g_realloc': (1,), 'realloc': (1,), 'g_realloc_n': (1, 2), 'g_alloca': (0,)}

    def show(self, e):
        if e.k == 'fld':
            return '%s.%s' % (e.a[1], e.a[2])
        if e.k == 'al':
            return 'a local array'
        if e.k == 'g':
            return e.a[0].split('#')[0]
        return interp.show(e)

    def report(self, i, key, msg, trail):
        self.findings.setdefault((i.id, key), (i, key, msg, trail))

    def load(self, st, i, a, eng):
        self.cur = i.bb
        self.access(st, i, a, i.ty, eng, 'read', 'r')

    def store(self, st, i, a, v, eng):
        self.cur = i.bb
        if a.k == 'idx' or a.k == 'fld' or a.k == 'al':
            self.access(st, i, a, i.ty, eng, 'write', 'w')
        p = self.place(a, eng)
        if p is None or p[1] is None:
            return
        # a terminator at a known place bounds the string before it
        obj, size, syms, off = p
        if v is ZERO and i.ty == 'i8':
            if not syms:
                self.setlen(st, obj, off)
            elif len(syms) == 1 and st.range(syms[0][0])[0] == st.range(syms[0][0])[1] >= 0:
                k = off + st.range(syms[0][0])[1]
                if k < st.ts.get(('len', obj), INF):
                    self.setlen(st, obj, k)
        elif ('len', obj) in st.ts and not (len(syms) <= 1 and False):
            lo, hi = self.offrange(st, syms, off, eng)
            if not hi < st.ts['len', obj]:
                self.dellen(st, obj)

    def forget(self, st, f, eng):
        if any(k[0] == 'strlen' and f(eng.root(k[1])) for k in st.ts):
            st.ts = {k: v for k, v in st.ts.items() if not (k[0] == 'strlen' and f(eng.root(k[1])))}

    def setlen(self, st, obj, n):
        st.ts = dict(st.ts)
        st.ts['len', obj] = n

    def dellen(self, st, obj):
        if ('len', obj) in st.ts:
            st.ts = dict(st.ts)
            del st.ts['len', obj]

    def access(self, st, i, a, ty, eng, what, kind):
        if a.k != 'idx' and not (a.k == 'fld' and self.inarray(a)):
            if a.k == 's':
                self.phi(st, i, a, eng, what, kind)
            return
        self.check(st, i, a, self.prog.dt.size(ty), eng, what, kind)

    def inarray(self, a):
        while a.k == 'fld':
            a = a.a[0]
        return a.k == 'idx'

    def phi(self, st, i, a, eng, what, kind):
        """a pointer that walks through an array"""
        if a.a and isinstance(a.a[0], tuple):
            for s in eng.phisrc.get(a, ()):
                p = self.place(s, eng)
                if p is not None and p[1] is not None:
                    t = self.type_of(p[0], eng)
                    if isinstance(t, tuple) and t[0] == 'arr' and kind == 'w':
                        self.oblig += 1
                        self.report(i, 'walk %s' % self.show(p[0]),
                                    'write through a pointer that moves in %s without a bound that this analysis can see' % self.show(p[0]), eng.trail(st))

    def maxlen(self, st, e, eng):
        """upper bound of the length of the string at e"""
        s = self.prog.cstring(('@', e.a[0])) if e.k == 'g' else None
        if s is not None:
            return len(s)
        p = self.place(e, eng)
        if p is not None and p[1] is not None:
            obj, size, syms, off = p
            if not syms and off == 0 and ('len', obj) in st.ts:
                return st.ts['len', obj]
            t = self.type_of(obj, eng)
            if isinstance(t, tuple) and t[0] == 'arr' and t[2] == 'i8':
                lo, hi = self.offrange(st, syms, off, eng)
                return max(size - 1 - max(lo, 0), 0)
        l = st.ts.get(('strlen', e))
        if l is not None:
            return st.range(l)[1]
        return INF

    def call(self, st, i, names, args, eng):
        self.cur = i.bb
        n = names[0].split('.')[0] if names and names[0].startswith('llvm.') else names[0].split('#')[0] if names else None
        if names and names[0].startswith('llvm.mem'):
            n = names[0].split('.')[1]
        elif n == 'llvm':
            return None
        if len(names) == 1 and n and (n not in self.prog.funcs):
            n = n[2:-4] if n.startswith('__') and n.endswith('_chk') else n
            if n == 'strlen' and args:
                e = mk('s', i.id) if i.bb not in eng.inloop else eng.fresh(st, i)
                if args[0].k in ('p', 'ld', 's', 'g'):
                    e = mk('call', 'strlen', args[0])
                elif ('strlen', args[0]) in st.ts:
                    return st.ts['strlen', args[0]]
                else:
                    st.ts = {k: v for k, v in st.ts.items() if v is not e and not (k[0] == 'strlen' and v is e)}
                    m = self.maxlen(st, args[0], eng)
                    lo = 0
                    st.rng[e] = (lo, m)
                    st.ts['strlen', args[0]] = e
                return e
            if n in COUNTED:
                for d, c, k in COUNTED[n]:
                    if isinstance(c, tuple):
                        if c[1] >= len(args):
                            x = mkbin('mul', args[c[0]], const(c[1]), 64)
                        else:
                            x = mkbin('mul', args[c[0]], args[c[1]], 64)
                    else:
                        x = args[c] if c < len(args) else None
                    if x is None or d >= len(args) or st.isnull(args[d]):
                        continue
                    self.check(st, i, args[d], x, eng, n, k)
                    if k == 'w':
                        self.wrote(st, args[d], eng)
                if n in ('memset', 'memcpy') and len(args) > 2:
                    p = self.place(args[0], eng)
                    if p is not None and p[1] is not None and not p[2] and p[3] == 0:
                        if n == 'memset' and args[1] is ZERO:
                            self.setlen(st, p[0], 0)
                        elif n == 'memcpy' and args[1].k == 'g':
                            s = self.prog.cstring(('@', args[1].a[0]))
                            if s is not None:
                                self.setlen(st, p[0], len(s))
            elif n in INOUT:
                d, c = INOUT[n]
                ty = 'i32'
                v = eng.read(st, args[c], 'i32', i)
                if v.k == 'ld':
                    ty = 'i64'
                    v = eng.read(st, args[c], 'i64', i)
                self.check(st, i, args[d], v, eng, n, 'w')
                if n.startswith('gnutls_') and st.range(v)[1] < INF:
                    # on success the size can only have become smaller
                    self.pend = args[c], st.range(v)[1], ty
                self.wrote(st, args[d], eng)
            elif n in STRCPY:
                d, s = STRCPY[n]
                m = self.maxlen(st, args[s], eng)
                self.strcheck(st, i, args[d], m, eng, n)
                p = self.place(args[d], eng)
                if p is not None and p[1] is not None and not p[2] and p[3] == 0 and m < INF:
                    self.setlen(st, p[0], m)
            elif n in STRCAT:
                d, s, c = STRCAT[n]
                m = self.maxlen(st, args[s], eng)
                have = self.maxlen(st, args[d], eng)
                if c is not None:
                    l, h = st.range(args[c])
                    if h < m and l >= 0:
                        m = h
                tot = have + m
                k = st.ts.get(('strlen', args[d]))
                if c is not None and k is not None:
                    tot = min(tot, st.range(mkbin('add', args[c], k, 64))[1])
                self.strcheck(st, i, args[d], tot, eng, n)
                p = self.place(args[d], eng)
                if p is not None and p[1] is not None and not p[2] and p[3] == 0 and tot < INF:
                    self.setlen(st, p[0], tot)
            elif n in STRNCPY:
                d, s, c = STRNCPY[n]
                p = self.place(args[d], eng)
                if p is not None and p[1] is not None:
                    self.check(st, i, args[d], args[c], eng, n, 'w')
                    # room for the terminator
                    lo, hi = self.offrange(st, p[2], p[3], eng)
                    m = self.maxlen(st, args[s], eng)
                    l, h = st.range(args[c])
                    if l >= 0 and h <= p[1] - hi and min(h, m) >= p[1] - hi and self.ischars(p[0], eng):
                        self.oblig += 1
                        self.report(i, '%s unterminated %s' % (n, self.show(p[0])),
                                    '%s may fill all %d bytes of %s without a terminator' % (n, p[1], self.show(p[0])), eng.trail(st))
                    self.wrote(st, args[d], eng)
                    if not p[2] and p[3] == 0:
                        self.setlen(st, p[0], min(max(h, 0), m))
            elif n in SPRINTF:
                p = self.place(args[0], eng)
                if p is not None and p[1] is not None:
                    self.oblig += 1
                    m = self.fmtlen(st, args, eng) if not n.startswith('v') and 'vs' not in n else INF
                    self.strcheck(st, i, args[0], m, eng, n)
                    if not p[2] and p[3] == 0 and m < INF:
                        self.setlen(st, p[0], m)
            elif n in ('sscanf', '__isoc99_sscanf', 'fscanf', '__isoc99_fscanf', 'gets'):
                for a in args[2:] if n != 'gets' else args:
                    p = self.place(a, eng)
                    if p is not None and p[1] is not None and self.ischars(p[0], eng):
                        self.oblig += 1
                        self.report(i, '%s %s' % (n, self.show(p[0])), '%s into the fixed array %s' % (n, self.show(p[0])), eng.trail(st))
            else:
                for a in args:
                    r = eng.root(a)
                    if r.k == 'al':
                        pass
            return None
        self.forget(st, lambda r: r.k != 'al' or r.a[0] in eng.escaped, eng)
        # project functions: extents they need of their parameters
        for t in names:
            s = self.summ.get(t)
            if not s:
                continue
            for (k, kind), (n, w) in s.items():
                if k < len(args):
                    self.checkneed(st, i, args[k], n, eng, t, kind, w)
        for a in args:
            if a.k in ('al', 'fld', 'idx'):
                self.wrote(st, a, eng)
        return None

    def after(self, st, i, names, args, eng):
        z = self.ALLOC.get(names[0]) if len(names) == 1 else None
        if z and i.res is not None and len(args) > z[-1]:
            e = st.env.get(i.res)
            if e is not None:
                unit = 1
                x = args[z[0]]
                if len(z) == 2:
                    if args[z[1]].k == 'c':
                        unit = args[z[1]].a[0]
                    elif x.k == 'c':
                        unit, x = x.a[0], args[z[1]]
                    else:
                        x = None
                if e in self.blocks and self.blocks[e] != (x, unit):
                    x = None
                self.blocks[e] = (x, unit)
        if self.pend:
            a, h, ty = self.pend
            self.pend = None
            x = mk('s', ('inout', i.id))
            st.rng[x] = (0, h)
            eng.write(st, a, x, ty, i)

    pend = None

    def checkneed(self, st, i, a, n, eng, t, kind, w):
        p = self.place(a, eng)
        if p is None:
            return
        obj, size, syms, off = p
        if size is None:
            if obj.k == 'p' and not syms:
                key = (obj.a[1], kind)
                if kind == 'n':
                    off = -off
                    if n + off <= 0:
                        return
                self.need[key] = max(self.need.get(key, 0), n + off)
                self.where.setdefault(key, (i, 'through %s' % t.split('#')[0]))
            return
        ty = self.type_of(obj, eng)
        if not (isinstance(ty, tuple) and ty[0] == 'arr'):
            return
        self.oblig += 1
        lo, hi = self.offrange(st, syms, off, eng)
        if kind == 'n':
            if lo < n:
                self.report(i, 'argument %s front of %s' % (t.split('#')[0], self.show(obj)),
                            '%s uses up to %s bytes in front of its argument (at %s), given %s' % (
                                t.split('#')[0], num(n), w, self.show(obj)), eng.trail(st))
            return
        if not (lo >= 0 and hi + n <= size):
            self.report(i, 'argument %s %s' % (t.split('#')[0], self.show(obj)),
                        '%s %s %s bytes of its argument (at %s), given %s of %d bytes' % (
                            t.split('#')[0], 'writes' if kind == 'w' else 'reads', num(n), w, self.show(obj), size), eng.trail(st))

    def ischars(self, obj, eng):
        t = self.type_of(obj, eng)
        return isinstance(t, tuple) and t[0] == 'arr' and t[2] == 'i8'

    def wrote(self, st, a, eng):
        p = self.place(a, eng)
        if p is not None and p[1] is not None:
            self.dellen(st, p[0])
            r = eng.root(p[0])
            self.forget(st, lambda x: x is r, eng)

    def strcheck(self, st, i, d, m, eng, n):
        """a string of at most m characters is written at d"""
        p = self.place(d, eng)
        if p is None or p[1] is None:
            if p is not None and p[0].k == 'p' and not p[2]:
                key = (p[0].a[1], 'w')
                self.need[key] = max(self.need.get(key, 0), m + 1 + p[3])
                self.where.setdefault(key, (i, n))
            return
        obj, size, syms, off = p
        self.oblig += 1
        lo, hi = self.offrange(st, syms, off, eng)
        if not (lo >= 0 and hi + m + 1 <= size):
            self.report(i, '%s %s' % (n, self.show(obj)),
                        '%s writes a string of up to %s characters and its terminator into %s of %d bytes' % (n, num(m), self.show(obj), size), eng.trail(st))

    def fmtlen(self, st, args, eng):
        from rules.c18 import SPEC
        f = args[1]
        s = self.prog.cstring(('@', f.a[0])) if f.k == 'g' else None
        if s is None:
            return INF
        n, pos, k = 0, 0, 2
        while True:
            q = s.find('%', pos)
            if q < 0:
                return n + len(s) - pos
            n += q - pos
            m = SPEC.match(s, q)
            if not m:
                return INF
            pos = m.end()
            _, w, p, ln, c = m.groups()
            if c == '%':
                n += 1
                continue
            if w == '*' or p == '*':
                return INF
            if c == 'c':
                b = 1
            elif c == 's':
                b = self.maxlen(st, args[k], eng) if k < len(args) else INF
                if p:
                    b = min(b, int(p))
            elif c in 'diuxXo':
                b = {'hh': 4, 'h': 6}.get(ln, 20 if ln else 11)
            elif c == 'p':
                b = 18
            else:
                return INF
            n += max(b, int(w) if w else 0)
            k += 1


def find_sentinels(prog, eng):
    """(header, counter) -> index of the end mark of the table that the loop runs over, for
    loops that count up by one and leave when they read the end mark"""
    out = {}
    defs = {i.res: i for i in eng.fn.insts() if i.res is not None}
    where = {i.res: b for b in eng.fn.blocks for i in b.insts if i.res is not None}

    def strip(v):
        while v[0] == '%' and v[1] in defs and defs[v[1]].op == 'cast':
            v = defs[v[1]].ops[0]
        return v

    for h in eng.headers:
        loop = {b for b in eng.fn.blocks if h in eng.loopof and b in eng.loopof[h]}
        if not loop:
            continue
        latches = [b for b in loop if h in b.succs]
        for i in h.insts:
            if i.op != 'phi':
                break
            ok = True
            for v, l in i.x:
                if l in [b.name for b in latches]:
                    d = defs.get(v[1]) if v[0] == '%' else None
                    if not (d is not None and d.op == 'bin' and d.x == 'add' and strip(d.ops[0]) == ('%', i.res) and d.ops[1] == ('c', 1)):
                        ok = False
                elif not (v[0] == 'c' and v[1] >= 0):
                    ok = False
            if not ok:
                continue
            for b in loop:
                t = b.insts[-1]
                if t.op != 'br' or len(t.x) != 2 or not t.ops:
                    continue
                n = counted(i, b, t, defs, strip, loop, eng)
                if n is not None and dominates(h, b, latches, loop):
                    init = [v[1] for v, l in i.x if v[0] == 'c']
                    out[h.name, i.res] = max([n] + init), n - 1, passed(h, b, t, loop, eng)
                    continue
                c = defs.get(t.ops[0][1]) if t.ops[0][0] == '%' else None
                if c is not None and c.op == 'phi' and len(c.x) == 1 and c.x[0][0][0] == '%':
                    c = defs.get(c.x[0][0][1])
                if c is None or c.op != 'icmp' or c.x not in ('eq', 'ne'):
                    continue
                names = {x.name: x for x in eng.fn.blocks}
                inside = [names[x] in loop for x in t.x]
                if inside.count(True) != 1:
                    continue
                # value on which the loop is left
                leave_on_eq = (c.x == 'eq') == (not inside[0])
                if not leave_on_eq:
                    continue
                ld = defs.get(strip(c.ops[0])[1]) if c.ops[0][0] == '%' else None
                if ld is None or ld.op != 'load':
                    continue
                a = ld.ops[0]
                path = []
                while a[0] == '%' and a[1] in defs and defs[a[1]].op == 'gep':
                    g = defs[a[1]]
                    path = list(g.ops[1:])[1:] + path if (g.ops[1] == ('c', 0)) else [g.ops[1]] + list(g.ops[2:]) + path
                    a = g.ops[0]
                if a[0] != '@' or not path or strip(path[0]) != ('%', i.res):
                    continue
                gv = prog.globals.get(a[1])
                if gv is None or not gv.const and not never_written(prog, a[1]) or gv.init is None or gv.init[0] != 'agg':
                    continue
                # the test is passed in every turn
                if not dominates(h, b, latches, loop):
                    continue
                want = c.ops[1]
                for k, (_, row) in enumerate(gv.init[1]):
                    v = row
                    for p in path[1:]:
                        if v[0] == 'agg' and p[0] == 'c':
                            v = v[1][p[1]][1]
                        elif v[0] == 'zero':
                            break
                        else:
                            v = ('?',)
                            break
                    if v == want or (v[0] == 'zero' or v == ('c', 0)) and want == ('c', 0):
                        if (h.name, i.res) not in out:
                            out[h.name, i.res] = k, k - 1, passed(h, b, t, loop, eng)
                        break
    return out


def counted(i, b, t, defs, strip, loop, eng):
    """N if the loop is left at b unless the counter i is below (or unequal to) the constant N"""
    c = defs.get(t.ops[0][1]) if t.ops[0][0] == '%' else None
    if c is None or c.op != 'icmp' or strip(c.ops[0]) != ('%', i.res) or c.ops[1][0] != 'c':
        return None
    stay = [eng.fn.bmap[x] in loop for x in t.x]
    if stay.count(True) != 1:
        return None
    n = c.ops[1][1]
    if stay[0]:
        return {'slt': n, 'ult': n, 'sle': n + 1, 'ule': n + 1, 'ne': n}.get(c.x)
    return {'sge': n, 'uge': n, 'sgt': n + 1, 'ugt': n + 1, 'eq': n}.get(c.x)


def passed(h, b, t, loop, eng):
    """blocks of the loop that are only reached once the test at b was passed in this turn"""
    def reach(start, stop):
        seen, todo = set(start), list(start)
        while todo:
            for s in todo.pop().succs:
                if s in loop and s is not h and s not in stop and s not in seen:
                    seen.add(s)
                    todo.append(s)
        return seen
    stay = [eng.fn.bmap[x] for x in t.x if eng.fn.bmap[x] in loop]
    return frozenset(reach([s for s in stay if s is not h], ()) - ({h} | {b} if b is h else {h, b} | reach([h], (b,))))


def never_written(prog, name):
    r = getattr(prog, '_written', None)
    if r is None:
        r = set()
        for f in prog.funcs.values():
            for i in f.insts():
                if i.op == 'store':
                    a = i.ops[1]
                    defs = None
                    while a[0] == '%':
                        if defs is None:
                            defs = {x.res: x for x in f.insts() if x.res is not None}
                        d = defs.get(a[1])
                        if d is None or d.op != 'gep':
                            break
                        a = d.ops[0]
                    if a[0] == 'gep':
                        a = a[2]
                    if a[0] == '@':
                        r.add(a[1])
        prog._written = r
    return name not in r


def dominates(h, b, latches, loop):
    """is b on every path through the loop body from h to a latch"""
    if b is h:
        return True
    seen, todo = {h}, [h]
    while todo:
        x = todo.pop()
        if x in latches:
            return False
        for s in x.succs:
            if s in loop and s is not b and s is not h and s not in seen:
                seen.add(s)
                todo.append(s)
    return True


def linear(e):
    """(constant, {expression: factor}); assumes sums do not wrap"""
    if e.k == 'c':
        return e.a[0], {}
    if e.k == 'cast' and (e.a[0] == 'sext' and e.a[1] != 'i1' or e.a[0] == 'zext' and e.a[1] == 'i32'):
        return linear(e.a[3])
    if e.k == 'cast' and e.a[0] == 'zext' and e.a[2] != 'i64':
        return 0, {mk('cast', 'zext', e.a[1], 'i64', e.a[3]): 1}
    if e.k == 'bin' and e.a[0] in ('add', 'sub'):
        c, m = linear(e.a[1])
        d, n = linear(e.a[2])
        g = 1 if e.a[0] == 'add' else -1
        m = dict(m)
        for a, f in n.items():
            m[a] = m.get(a, 0) + g * f
        return c + g * d, m
    if e.k == 'bin' and e.a[0] == 'mul':
        c, m = linear(e.a[1])
        d, n = linear(e.a[2])
        if m and n:
            return 0, {e: 1}
        if m:
            return c * d, {a: f * d for a, f in m.items()}
        return c * d, {a: f * c for a, f in n.items()}
    if e.k == 'bin' and e.a[0] == 'shl' and e.a[2].k == 'c' and 0 <= e.a[2].a[0] < 32:
        c, m = linear(e.a[1])
        return c << e.a[2].a[0], {a: f << e.a[2].a[0] for a, f in m.items()}
    return 0, {e: 1}


def num(x):
    return 'unbounded' if x >= INF else '-unbounded' if x <= -INF else str(x)


class Sizes:
    def __init__(self, prog):
        self.prog = prog
        self.by = {}
        for n in prog.types:
            c = prog.dt.cname(n)
            if prog.types[n] and (c not in self.by or len(prog.types[n]) > len(prog.types[self.by[c]])):
                self.by[c] = n

    def body(self, c):
        n = self.by.get(c)
        return self.prog.types.get(n) if n else None

    def ftype(self, c, k):
        b = self.body(c)
        return b[k] if b and k < len(b) else None

    def offset(self, c, k):
        b = self.body(c)
        return self.prog.dt.layout(b)[0][k] if b and k < len(b) else None

    def ssize(self, s):
        if s.startswith('['):
            n, t = s[1:-1].split(' x ', 1)
            r = self.ssize(t)
            return None if r is None else int(n) * r
        if s in ('i1', 'i8', 'i16', 'i32', 'i64', 'ptr', 'double', 'float', 'i128'):
            return self.prog.dt.size(s)
        b = self.body(s)
        return self.prog.dt.layout(b)[1] if b else None


def analyse(ctx, rounds=6):
    from core import parallel
    prog, g, view = ctx.prog, ctx.g, ctx.view
    names = ctx.roots()
    for n in names:
        view.func(n)
    sizes = Sizes(prog)
    summ, last, hist = {}, {}, []
    todo = set(names)
    for rnd in range(rounds):
        def one(n):
            r = BoundRule(prog, summ, sizes)
            e = interp.Engine(prog, g, r, view.func(n), maxsteps=200000 if ctx.tier == 'quick' else 1000000)
            to = None
            try:
                e.run()
            except interp.Timeout as x:
                to = str(x)
            return n, to, [(prog.where(i), i.fn.name, k, m, t) for i, k, m, t in r.findings.values()], \
                {k: (v, prog.where(r.where[k][0]) if k in r.where else '?') for k, v in r.need.items()}, r.oblig, r.stat
        changed = set()
        for n, to, f, need, ob, stt in parallel(one, sorted(todo)):
            last[n] = (to, f, ob, stt)
            if {k: v[0] for k, v in summ.get(n, {}).items()} != {k: v[0] for k, v in need.items()}:
                changed.add(n)
            summ[n] = need
        hist.append((len(todo), len(changed)))
        if not changed:
            break
        todo = {n for n in names for i in view.func(n).insts() if i.op == 'call' and (i.x[0] != '@' or i.x[1] in changed)}
    return last, summ, hist
