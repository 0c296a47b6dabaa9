"""Path-sensitive abstract interpreter over the (inlined) IR.

Abstract state = symbolic environment for SSA values + a field-sensitive store
+ numeric/null facts + difference facts + a rule-specific typestate.  States are
kept apart per path up to a bound per block (then joined, facts intersected);
loop headers are widened, so the analysis terminates and covers every path.
No solver is involved: facts come from branch conditions only.
"""
import heapq
from collections import defaultdict

INF = float('inf')


class E:
    __slots__ = ('k', 'a', 'id', 'atoms', 'eps')

    def __repr__(self):
        return show(self)


_tab = {}


def mk(k, *a):
    key = (k,) + a
    e = _tab.get(key)
    if e is None:
        e = E()
        e.k = k
        e.a = a
        e.id = len(_tab)
        at = set()
        ep = set()
        for x in a:
            if isinstance(x, E):
                at |= x.atoms
                ep |= x.eps
        if k == 's':
            at.add(a[0])
        if k == 'ld':
            ep.add(a[1])
        e.atoms = frozenset(at)
        e.eps = frozenset(ep)
        _tab[key] = e
    return e


ZERO = mk('c', 0)
ONE = mk('c', 1)


def const(n):
    return mk('c', n)


def show(e, d=0):
    if d > 8:
        return '..'
    k, a = e.k, e.a
    if k == 'c':
        return str(a[0])
    if k == 'g':
        return '@' + a[0]
    if k == 'p':
        return 'arg:%s' % (a[1],)
    if k == 's':
        return '$%s' % (a[0],)
    if k == 'fld':
        return '&%s->%s' % (show(a[0], d + 1), a[2])
    if k == 'idx':
        return '&%s[%s]' % (show(a[0], d + 1), show(a[2], d + 1))
    if k == 'ld':
        s = show(a[0], d + 1)
        return s[1:] if s[0] == '&' else '*' + s
    if k == 'bin':
        return '(%s %s %s)' % (show(a[1], d + 1), a[0], show(a[2], d + 1))
    if k == 'cast':
        return show(a[3], d + 1)
    if k == 'icmp':
        return '(%s %s %s)' % (show(a[1], d + 1), a[0], show(a[2], d + 1))
    if k == 'al':
        return 'local%s' % a[0]
    if k == 'call':
        return '%s(%s)' % (a[0], ','.join(show(x, d + 1) for x in a[1:] if isinstance(x, E)))
    return '%s%r' % (k, a)


WIDTH = {'i1': 1, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'ptr': 64}
NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt',
       'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle',
        'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}


def wrap(n, w):
    n &= (1 << w) - 1
    if w > 1 and n >> (w - 1):
        n -= 1 << w
    return n


def mkbin(op, a, b, w):
    if a.k == 'c' and b.k == 'c':
        x, y = a.a[0], b.a[0]
        m = (1 << w) - 1
        try:
            r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y,
                 'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y,
                 'shl': lambda: x << (y & 63), 'lshr': lambda: (x & m) >> (y & 63), 'ashr': lambda: x >> (y & 63),
                 'sdiv': lambda: int(x / y), 'udiv': lambda: (x & m) // (y & m),
                 'srem': lambda: x - y * int(x / y), 'urem': lambda: (x & m) % (y & m)}[op]()
            return const(wrap(r, w) if w > 1 else r & 1)
        except (KeyError, ZeroDivisionError):
            return mk('bin', op, a, b)
    if op == 'sub' and b.k == 'c':
        return mkbin('add', a, const(-b.a[0]), w)
    if op == 'sub' and a is b:
        return ZERO
    if op == 'add':
        if a.k == 'c':
            a, b = b, a
        if b.k == 'c':
            if b.a[0] == 0:
                return a
            if a.k == 'bin' and a.a[0] == 'add' and a.a[2].k == 'c':
                return mkbin('add', a.a[1], const(a.a[2].a[0] + b.a[0]), w)
    if op == 'xor' and w == 1 and b.k == 'c' and b.a[0] in (1, -1):
        if a.k == 'icmp':
            return mk('icmp', NEG[a.a[0]], a.a[1], a.a[2])
        if a.k == 'bin' and a.a[0] == 'xor' and a.a[2] is ONE:
            return a.a[1]
        return mk('bin', 'xor', a, ONE)
    if op == 'mul' and b is ONE:
        return a
    if op in ('and', 'or') and a is b:
        return a
    if op in ('and', 'or', 'mul'):
        if a.k == 'c':
            a, b = b, a
        if b is ZERO:
            return a if op == 'or' else ZERO
        if op == 'and' and b is ONE and a.k == 'cast' and a.a[0] == 'zext' and a.a[1] == 'i1':
            return a
        if b.k == 'c' and wrap(b.a[0], w) == -1 and op == 'and' and w > 1:
            return a
    return mk('bin', op, a, b)


def mkcast(op, fr, to, a):
    if a.k == 'c':
        n = a.a[0]
        wf, wt = WIDTH.get(fr, 64), WIDTH.get(to, 64)
        if op == 'zext':
            n = n & ((1 << wf) - 1)
        elif op == 'trunc':
            n = wrap(n, wt) if wt > 1 else n & 1
        elif op == 'sext' and wf == 1:
            n = -(n & 1)
        return const(n)
    if fr == to or op in ('bitcast', 'ptrtoint', 'inttoptr'):
        return a
    if op == 'trunc' and a.k == 'cast' and a.a[0] in ('zext', 'sext') and a.a[1] == to:
        return a.a[3]
    if op == 'zext' and a.k == 'cast' and a.a[0] == 'zext':
        return mk('cast', 'zext', a.a[1], to, a.a[3])
    if op == 'sext' and a.k == 'cast' and a.a[0] in ('sext', 'zext'):
        return mk('cast', a.a[0], a.a[1], to, a.a[3])
    return mk('cast', op, fr, to, a)


def mkicmp(pred, a, b):
    if a.k == 'c' and b.k != 'c':
        a, b, pred = b, a, SWAP[pred]
    if a.k == 'c' and b.k == 'c':
        x, y = a.a[0], b.a[0]
        m = (1 << 64) - 1
        r = {'eq': x == y, 'ne': x != y, 'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y,
             'ult': (x & m) < (y & m), 'ule': (x & m) <= (y & m), 'ugt': (x & m) > (y & m), 'uge': (x & m) >= (y & m)}[pred]
        return ONE if r else ZERO
    if a is b:
        return ONE if pred in ('eq', 'sle', 'sge', 'ule', 'uge') else ZERO
    # (zext/sext i1 x) != 0  ->  x
    while b is ZERO and pred in ('eq', 'ne') and a.k == 'cast' and a.a[0] in ('zext', 'sext'):
        a = a.a[3]
        if a.k == 'icmp' or (a.k == 'bin' and a.a[0] == 'xor' and a.a[2] is ONE):
            return a if pred == 'ne' else mkbin('xor', a, ONE, 1)
    return mk('icmp', pred, a, b)


def strip(e):
    """look through value-preserving integer casts"""
    while e.k == 'cast' and e.a[0] == 'sext':
        e = e.a[3]
    return e


def lin(e):
    """e == base + off (base None for constants); assumes no signed overflow"""
    off = 0
    while True:
        if e.k == 'c':
            return None, off + e.a[0]
        if e.k == 'cast' and e.a[0] == 'sext' and e.a[1] != 'i1':
            e = e.a[3]
            continue
        if e.k == 'cast' and e.a[0] == 'zext' and e.a[1] == 'i32':
            e = e.a[3]          # loop counters and sizes: no wrap assumed
            continue
        if e.k == 'cast' and e.a[0] == 'zext' and e.a[1] not in ('i1',):
            return e, off
        if e.k == 'bin' and e.a[0] == 'add' and e.a[2].k == 'c':
            off += e.a[2].a[0]
            e = e.a[1]
            continue
        return e, off


class State:
    __slots__ = ('env', 'mem', 'rng', 'ne', 'rel', 'ep', 'ts', 'path', 'loops', 'prev')

    def __init__(self):
        self.env = {}
        self.mem = {}
        self.rng = {}
        self.ne = set()
        self.rel = {}       # (A,B) -> c : A - B <= c
        self.ep = {}
        self.ts = {}
        self.path = None
        self.loops = {}
        self.prev = None

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.mem = dict(self.mem)
        s.rng = dict(self.rng)
        s.ne = set(self.ne)
        s.rel = dict(self.rel)
        s.ep = dict(self.ep)
        s.ts = dict(self.ts)
        s.path = self.path
        s.loops = dict(self.loops)
        s.prev = self.prev
        return s

    # ------------------------------------------------------------- queries
    intrinsic = {}      # (struct, field) -> (lo, hi) of every value loaded from it

    def range(self, e, depth=0):
        if e.k == 'c':
            return e.a[0], e.a[0]
        r = self.rng.get(e)
        if e.k == 'ld' and self.intrinsic and e.a[0].k == 'fld':
            q = self.intrinsic.get((e.a[0].a[1], e.a[0].a[2]))
            if q:
                return q if r is None else (max(q[0], r[0]), min(q[1], r[1]))
        lo, hi = r if r else (-INF, INF)
        k = e.k
        if k == 'cast':
            op, fr, to, x = e.a
            wf, wt = WIDTH.get(fr, 64), WIDTH.get(to, 64)
            l2, h2 = self.range(x, depth + 1)
            if op == 'sext':
                l3, h3 = (-1, 0) if fr == 'i1' else (-(1 << (wf - 1)), (1 << (wf - 1)) - 1)
                l2, h2 = max(l2, l3), min(h2, h3)
            elif op == 'zext':
                if l2 >= 0:
                    h2 = min(h2, (1 << wf) - 1)
                else:
                    l2, h2 = 0, (1 << wf) - 1
            elif op == 'trunc':
                l3, h3 = (0, 1) if wt == 1 else (-(1 << (wt - 1)), (1 << (wt - 1)) - 1)
                if not (l2 >= l3 and h2 <= h3):
                    l2, h2 = l3, h3
            lo, hi = max(lo, l2), min(hi, h2)
        elif k == 'bin' and depth < 12:
            op, x, y = e.a
            if op == 'add':
                a, b = self.range(x, depth + 1), self.range(y, depth + 1)
                lo, hi = max(lo, a[0] + b[0]), min(hi, a[1] + b[1])
            elif op == 'sub':
                a, b = self.range(x, depth + 1), self.range(y, depth + 1)
                lo, hi = max(lo, a[0] - b[1]), min(hi, a[1] - b[0])
                d = self.diff(x, y)
                hi = min(hi, d)
                d = self.diff(y, x)
                lo = max(lo, -d)
            elif op == 'and' and y.k == 'c' and y.a[0] >= 0:
                lo, hi = max(lo, 0), min(hi, y.a[0])
            elif op == 'urem' and y.k == 'c' and y.a[0] > 0:
                lo, hi = max(lo, 0), min(hi, y.a[0] - 1)
            elif op == 'srem' and y.k == 'c' and y.a[0] > 0:
                a = self.range(x, depth + 1)
                lo, hi = max(lo, 0 if a[0] >= 0 else -(y.a[0] - 1)), min(hi, y.a[0] - 1)
            elif op == 'mul' and y.k == 'c' and y.a[0] > 0:
                a = self.range(x, depth + 1)
                lo, hi = max(lo, a[0] * y.a[0]), min(hi, a[1] * y.a[0])
            elif op in ('udiv', 'sdiv', 'lshr', 'ashr'):
                a = self.range(x, depth + 1)
                if a[0] >= 0:
                    lo, hi = max(lo, 0), min(hi, a[1])
        elif k == 'icmp':
            lo, hi = max(lo, 0), min(hi, 1)
        elif k in ('g', 'al', 'fld', 'idx'):
            lo = max(lo, 1)
        elif k == 'call' and e.a[0] in ('strlen', 'veclen'):
            lo = max(lo, 0)
        return lo, hi

    def diff(self, a, b):
        """upper bound of a - b"""
        A, ca = lin(a)
        B, cb = lin(b)
        c = ca - cb
        if A is B:
            return c
        best = INF
        ra = self.range(A) if A is not None else (0, 0)
        rb = self.range(B) if B is not None else (0, 0)
        best = min(best, ra[1] - rb[0])
        r = self.rel.get((A, B))
        if r is not None:
            best = min(best, r)
        if A is not None and A.k == 'bin' and A.a[0] == 'add':
            x, y = A.a[1], A.a[2]
            hx, hy = self.range(x)[1], self.range(y)[1]
            if B is not None and B.k != 'bin':
                if hy < INF:
                    best = min(best, self.diff(x, B) + hy)
                if hx < INF:
                    best = min(best, self.diff(y, B) + hx)
        # one intermediate hop
        for (x, y), v in self.rel.items():
            if x is A and y is not B:
                w = self.rel.get((y, B))
                if w is not None:
                    best = min(best, v + w)
                else:
                    ry = self.range(y)
                    best = min(best, v + ry[1] - rb[0])
            elif y is B and x is not A:
                rx = self.range(x)
                best = min(best, v + ra[1] - rx[0])
        return best + c

    def le(self, a, b):
        return self.diff(a, b) <= 0

    def lt(self, a, b):
        return self.diff(a, b) <= -1

    def nonnull(self, e):
        k = e.k
        if k == 'c':
            return e.a[0] != 0
        if k in ('g', 'al'):
            return True
        if k in ('fld', 'idx'):
            return True if k == 'fld' and e.a[3] != 0 else self.nonnull(e.a[0])
        if (e, 0) in self.ne:
            return True
        lo, hi = self.range(e)
        if lo > 0 or hi < 0:
            return True
        if k == 'cast' and e.a[0] in ('zext', 'sext'):
            return self.nonnull(e.a[3])
        return False

    def isnull(self, e):
        if e.k == 'c':
            return e.a[0] == 0
        if e.k in ('fld',) and e.a[3] == 0:
            return self.isnull(e.a[0])
        return self.range(e) == (0, 0)

    def truth(self, e):
        """True/False/None for a condition"""
        if e.k == 'c':
            return e.a[0] != 0
        if e.k == 'icmp':
            p, a, b = e.a
            if b.k == 'c' and p in ('eq', 'ne'):
                c = b.a[0]
                lo, hi = self.range(a)
                if lo == hi == c:
                    return p == 'eq'
                if c < lo or c > hi or (a, c) in self.ne or (c == 0 and self.nonnull(a)):
                    return p == 'ne'
                return self._bool_rng(e)
            if p in ('eq', 'ne'):
                if (a.k == 'al' and b.k == 'p') or (a.k == 'p' and b.k == 'al'):
                    return p == 'ne'        # the caller cannot know our local
                if self.diff(a, b) < 0 or self.diff(b, a) < 0:
                    return p == 'ne'
                if (a, b) in self.ne or (b, a) in self.ne:
                    return p == 'ne'
                if (self.isnull(a) and self.nonnull(b)) or (self.isnull(b) and self.nonnull(a)):
                    return p == 'ne'
                if self.isnull(a) and self.isnull(b):
                    return p == 'eq'
                return self._bool_rng(e)
            if p[0] == 'u':
                la, ha = self.range(a)
                lb, hb = self.range(b)
                if la < 0 or lb < 0:
                    return self._bool_rng(e)
                p = 's' + p[1:]
            if p == 'slt':
                return True if self.diff(a, b) <= -1 else (False if self.diff(b, a) <= 0 else None)
            if p == 'sle':
                return True if self.diff(a, b) <= 0 else (False if self.diff(b, a) <= -1 else None)
            if p == 'sgt':
                return True if self.diff(b, a) <= -1 else (False if self.diff(a, b) <= 0 else None)
            if p == 'sge':
                return True if self.diff(b, a) <= 0 else (False if self.diff(a, b) <= -1 else None)
            return None
        if e.k == 'bin' and e.a[0] == 'xor' and e.a[2] is ONE:
            t = self.truth(e.a[1])
            return None if t is None else not t
        if e.k == 'bin' and e.a[0] == 'and':
            x, y = self.truth(e.a[1]), self.truth(e.a[2])
            if x is False or y is False:
                return False
            if x and y and e.a[1].k in ('icmp',) and e.a[2].k in ('icmp',):
                return True
            return None
        if e.k == 'cast' and e.a[0] in ('zext', 'sext'):
            return self.truth(e.a[3])
        if self.nonnull(e):
            return True
        if self.isnull(e):
            return False
        return None

    def _bool_rng(self, e):
        r = self.rng.get(e)
        if r == (1, 1):
            return True
        if r == (0, 0):
            return False
        return None

    # -------------------------------------------------------------- assume
    def setrange(self, e, lo, hi):
        """intersect; returns False when empty"""
        l0, h0 = self.range(e)
        lo, hi = max(lo, l0), min(hi, h0)
        if lo > hi:
            return False
        if lo == hi and (e, lo) in self.ne:
            return False
        while (e, lo) in self.ne:
            lo += 1
        while (e, hi) in self.ne:
            hi -= 1
        if lo > hi:
            return False
        if e.k != 'c':
            self.rng[e] = (lo, hi)
        return True

    def assume(self, e, val):
        """assume condition e has truth value val; False if contradiction"""
        t = self.truth(e)
        if t is not None:
            if t != val:
                return False
        if e.k == 'c':
            return True
        if e.k == 'icmp':
            p, a, b = e.a
            if not val:
                p = NEG[p]
            return self.assume_cmp(p, a, b)
        if e.k == 'bin' and e.a[0] == 'xor' and e.a[2] is ONE:
            return self.assume(e.a[1], not val)
        if e.k == 'bin' and e.a[0] == 'and' and val and e.a[1].k == 'icmp' and e.a[2].k == 'icmp':
            return self.assume(e.a[1], True) and self.assume(e.a[2], True)
        if e.k == 'bin' and e.a[0] == 'or' and not val:
            return self.assume(e.a[1], False) and self.assume(e.a[2], False)
        if e.k == 'cast' and e.a[0] in ('zext', 'sext'):
            return self.assume(e.a[3], val)
        if val:
            return self.assume_cmp('ne', e, ZERO)
        return self.assume_cmp('eq', e, ZERO)

    def assume_cmp(self, p, a, b):
        if a.k == 'c' and b.k == 'c':
            t = mkicmp(p, a, b)
            return t is ONE
        if p[0] == 'u':
            lb, hb = self.range(b)
            la, ha = self.range(a)
            if p in ('ult', 'ule') and lb >= 0:
                if not self.setrange_lin(a, 0, INF):
                    return False
                p = 's' + p[1:]
            elif p in ('ugt', 'uge') and la >= 0 and (b.k != 'c' or b.a[0] >= 0) and lb >= 0:
                p = 's' + p[1:]
            elif p in ('ult', 'ule', 'ugt', 'uge') and la >= 0 and lb >= 0:
                p = 's' + p[1:]
            elif p in ('ugt', 'ult') :
                x, y = (a, b) if p == 'ugt' else (b, a)
                # x >u y  implies x != 0
                if y is ZERO or True:
                    self.ne.add((x, 0))
                return True
            else:
                return True
        if p == 'ne':
            if b.k == 'c':
                base, off = lin(a)
                if base is not None and base is not a:
                    c = b.a[0] - off
                    self.ne.add((base, c))
                    lo, hi = self.range(base)
                    if lo == c:
                        if not self.setrange(base, lo + 1, hi):
                            return False
                    lo, hi = self.range(base)
                    if hi == c:
                        return self.setrange(base, lo, hi - 1)
                    return True
                lo, hi = self.range(a)
                self.ne.add((a, b.a[0]))
                if lo == b.a[0]:
                    lo += 1
                if hi == b.a[0]:
                    hi -= 1
                if (lo, hi) != self.range(a):
                    return self.setrange(a, lo, hi)
                if a.k == 'bin' and a.a[0] == 'sub' and b is ZERO:
                    pass
                return True
            self.ne.add((a, b))
            return True
        if p == 'eq':
            if b.k == 'c':
                if (a, b.a[0]) in self.ne:
                    return False
                if a.k == 'fld' and a.a[3] == 0 and b is ZERO:
                    a = a.a[0]
                return self.setrange_lin(a, b.a[0], b.a[0]) and self.setrange(a, b.a[0], b.a[0])
            la, ha = self.range(a)
            lb, hb = self.range(b)
            if not (self.setrange_lin(a, lb, hb) and self.setrange_lin(b, la, ha)):
                return False
            if self.nonnull(a):
                self.ne.add((b, 0))
            if self.nonnull(b):
                self.ne.add((a, 0))
            return self.addrel(a, b, 0) and self.addrel(b, a, 0)
        if p == 'sgt':
            return self.addrel(b, a, -1)
        if p == 'sge':
            return self.addrel(b, a, 0)
        if p == 'slt':
            return self.addrel(a, b, -1)
        if p == 'sle':
            return self.addrel(a, b, 0)
        return True

    def setrange_lin(self, e, lo, hi):
        base, off = lin(e)
        if base is None:
            return lo <= off <= hi
        if base.k == 'cast' and base.a[0] == 'zext' and off == 0:
            x = base.a[3]
            if hi < (1 << (WIDTH.get(base.a[1], 64) - 1)) or self.range(x)[0] >= 0:
                if not self.setrange(x, lo, hi):
                    return False
        return self.setrange(base, lo - off, hi - off)

    def addrel(self, a, b, c):
        """a - b <= c"""
        A, ca = lin(a)
        B, cb = lin(b)
        c = c - ca + cb
        if A is None and B is None:
            return 0 <= c
        if A is None:
            return self.setrange_lin(B, -c, INF)
        if B is None:
            return self.setrange_lin(A, -INF, c)
        if A is B:
            return 0 <= c
        if self.diff(B, A) < -c:
            return False
        old = self.rel.get((A, B))
        if old is None or c < old:
            self.rel[(A, B)] = c
        la, ha = self.range(A)
        lb, hb = self.range(B)
        if hb < INF and not self.setrange(A, -INF, hb + c):
            return False
        if la > -INF and not self.setrange(B, la - c, INF):
            return False
        return True


class Timeout(Exception):
    pass


class Rule:
    """base class of checks run by the engine"""
    maxstates = 12
    pure = {'strcmp', 'strcasecmp', 'strncmp', 'strncasecmp', 'g_strcasecmp', 'g_strncasecmp', 'g_ascii_strcasecmp',
            'g_ascii_strncasecmp', 'irccmp', 'base_strcmp', 'base_irccmp', 'base_strncmp', 'strlen', 'g_str_equal', 'str_asciicmp',
            'str_rfc1459cmp', 'str_strictrfc1459cmp', 'strchr', 'strrchr', 'g_quark_from_static_string', 'g_quark_from_string'}
    # calls that never change project memory visible to the caller (logging)
    nomod = set()
    stable = set()      # field classes calls never modify
    weak = ()           # kinds of facts that are dropped with the value they are about
    relpairs = False    # relate counters that move together in a loop
    lossy = False       # may forget differences between typestates when there are too many

    def entry(self, st, fn, eng):
        pass

    def call(self, st, i, names, args, eng):
        return None

    def after(self, st, i, names, args, eng):
        pass

    def enter(self, st, b, eng):
        pass

    def load(self, st, i, addr, eng):
        pass

    def loaded(self, st, i, addr, val, eng):
        pass

    def store(self, st, i, addr, val, eng):
        pass

    def ret(self, st, i, val, eng):
        pass

    def branch(self, st, i, cond, taken, eng):
        pass

    def unreachable(self, st, i, eng):
        pass

    def subst_ts(self, st, f, eng):
        """typestate keys/values mention expressions: rewrite them with f"""
        new = {}
        for k, v in st.ts.items():
            new[sub(k, f)] = sub(v, f)
        st.ts = new

    def tskey(self, ts):
        """what of the typestate keeps paths apart"""
        return frozenset(ts.items())

    def same_ts(self, a, b):
        return a == b

    def split(self, a, b, eng):
        """may these typestates at the head of a loop not be merged?"""
        return self.join_ts(a, b, eng) is None

    def covers_ts(self, a, b, eng):
        return False

    def join_states(self, a, b, eng):
        return self.join_ts(a.ts, b.ts, eng)

    def joined(self, n, a, b, ren, eng):
        """n is the merge of a and b; ren: (new value, that of a, that of b)"""

    def join_ts(self, a, b, eng):
        """typestates must be equal to be merged unless the rule says otherwise"""
        return a if a == b else None


def sub(x, f):
    if isinstance(x, E):
        return f(x)
    if isinstance(x, tuple):
        return tuple(sub(y, f) for y in x)
    if isinstance(x, frozenset):
        return frozenset(sub(y, f) for y in x)
    return x


class Engine:
    def __init__(self, prog, graph, rule, fn, maxsteps=200000):
        self.prog = prog
        self.g = graph
        self.rule = rule
        self.fn = fn
        self.steps = 0
        self.maxsteps = maxsteps
        self.mods = graph.mods() if graph else {}
        self.prep()
        self.paths = 0

    # ------------------------------------------------------------ static prep
    def prep(self):
        fn = self.fn
        order = []
        seen = set()
        stack = [(fn.blocks[0], iter(fn.blocks[0].succs))]
        seen.add(fn.blocks[0])
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(s.succs)))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        self.rpo = {b: k for k, b in enumerate(order)}
        self.order = order
        self.headers = set()
        for b in order:
            for s in b.succs:
                if self.rpo[s] <= self.rpo[b]:
                    self.headers.add(s)
        # blocks inside loops
        self.inloop = set()
        self.loopof = defaultdict(set)
        for b in order:
            for s in b.succs:
                if self.rpo[s] <= self.rpo[b]:
                    body = {s}
                    work = [b]
                    while work:
                        x = work.pop()
                        if x in body:
                            continue
                        body.add(x)
                        work.extend(p for p in x.preds if p in self.rpo)
                    self.inloop |= body
                    self.loopof[s] |= body
        # liveness
        use, dfn = {}, {}
        for b in order:
            u, d = set(), set()
            for i in b.insts:
                if i.op != 'phi':
                    for o in self.opnds(i):
                        if o not in d:
                            u.add(o)
                if i.res is not None:
                    d.add(i.res)
            use[b], dfn[b] = u, d
        livein = {b: set() for b in order}
        ch = True
        while ch:
            ch = False
            for b in reversed(order):
                out = set()
                for s in b.succs:
                    for x in livein[s]:
                        out.add(x)
                    for i in s.insts:
                        if i.op != 'phi':
                            break
                        out.discard(i.res)
                    for i in s.insts:
                        if i.op != 'phi':
                            break
                        for v, l in i.x:
                            if l == b.name and v[0] == '%':
                                out.add(v[1])
                n = use[b] | (out - dfn[b])
                # phis of b are defined at its entry
                for i in b.insts:
                    if i.op != 'phi':
                        break
                    n.discard(i.res)
                if n != livein[b]:
                    livein[b] = n
                    ch = True
        self.livein = {}
        for b in order:
            l = set(livein[b])
            for i in b.insts:
                if i.op != 'phi':
                    break
                l.add(i.res)
            self.livein[b] = l
        # escaped allocas
        self.escaped = set()
        defs = {i.res: i for i in fn.insts() if i.res is not None}
        self.defs = defs

        def roots(v, d=0, vis=None):
            if v[0] == 'gep':
                return roots(v[2], d + 1, vis)
            if v[0] != '%':
                return set()
            vis = vis or set()
            if v[1] in vis:
                return set()
            vis.add(v[1])
            i = defs.get(v[1])
            if i is None:
                return set()
            if i.op == 'alloca':
                return {i.id}
            if i.op == 'gep':
                return roots(i.ops[0], d + 1, vis)
            if i.op == 'phi':
                r = set()
                for x, _ in i.x:
                    r |= roots(x, d + 1, vis)
                return r
            if i.op == 'select':
                return roots(i.ops[1], d + 1, vis) | roots(i.ops[2], d + 1, vis)
            return set()
        for i in fn.insts():
            if i.op == 'store' and i.ty == 'ptr':
                self.escaped |= roots(i.ops[0])

    def opnds(self, i):
        def walk(o):
            if o[0] == '%':
                yield o[1]
        for o in i.ops:
            yield from walk(o)
        if i.op == 'call' and i.x[0] == '%':
            yield i.x[1]

    # ------------------------------------------------------------- expressions
    def val(self, st, v):
        k = v[0]
        if k == '%':
            e = st.env.get(v[1])
            if e is None:
                e = mk('s', ('undef', v[1]))
            return e
        if k == 'c':
            return const(v[1])
        if k == '@':
            return mk('g', v[1])
        if k == 'gep':
            return self.gep(self.val(st, v[2]), v[1], [self.val(st, x) for x in v[3]])
        if k == 'undef':
            return mk('s', 'undef')
        if k == 'zero':
            return ZERO
        if k == 'cast':
            return mkcast(v[1], v[3], v[4], self.val(st, v[2]))
        if k == 'bin':
            return mkbin(v[1], self.val(st, v[2]), self.val(st, v[3]), 64)
        return mk('k', v)

    def gep(self, base, sty, idx):
        prog = self.prog
        t = sty
        e = base
        for k, i in enumerate(idx):
            if k == 0:
                if i is not ZERO:
                    if e.k == 'idx' and e.a[1] == self.ts(t):
                        e = mk('idx', e.a[0], e.a[1], mkbin('add', e.a[2], i, 64))
                        if e.a[2] is ZERO:
                            e = e.a[0]
                    else:
                        e = mk('idx', e, self.ts(t), i)
                continue
            if isinstance(t, tuple) and t[0] == 'st':
                n = i.a[0] if i.k == 'c' else 0
                body = prog.types.get(t[1])
                e = mk('fld', e, prog.dt.cname(t[1]), prog.dt.fname(t[1], n), n)
                t = body[n] if body else 'i8'
            elif isinstance(t, tuple) and t[0] == 'lit':
                n = i.a[0] if i.k == 'c' else 0
                e = mk('fld', e, 'lit', str(n), n)
                t = t[1][n]
            elif isinstance(t, tuple) and t[0] in ('arr', 'vec'):
                t = t[2]
                if i is not ZERO:
                    e = mk('idx', e, self.ts(t), i)
        return e

    def ts(self, t):
        if isinstance(t, str):
            return t
        if t[0] == 'st':
            return self.prog.dt.cname(t[1])
        if t[0] == 'arr':
            return '[%d x %s]' % (t[1], self.ts(t[2]))
        return t[0]

    def root(self, a):
        while a.k in ('fld', 'idx'):
            a = a.a[0]
        return a

    def cls(self, a, ty):
        if a.k == 'fld':
            return ('F', a.a[1], a.a[2])
        if a.k == 'al':
            return ('L', a.a[0])
        if a.k == 'g':
            return ('G', a.a[0])
        if a.k == 'idx':
            b = a.a[0]
            while b.k == 'idx':
                b = b.a[0]
            if b.k in ('fld', 'al', 'g'):
                return self.cls(b, ty)
            return ('I', self.tk(ty))
        return ('O', self.tk(ty))

    @staticmethod
    def tk(t):
        return t if isinstance(t, str) else t[0]

    def is_stable(self, a):
        """memory that calls do not change (rule.stable), including elements of a stable array field"""
        b = a
        while b.k == 'idx':
            b = b.a[0]
        if b.k == 'fld' and (b.a[1], b.a[2]) in self.rule.stable:
            return True
        if b is not a and b.k == 'ld':
            c = b.a[0]
            if c.k == 'fld' and (c.a[1], c.a[2]) in self.rule.stable:
                return True
        return False

    # ---------------------------------------------------------------- memory
    def read(self, st, addr, ty, i):
        v = st.mem.get(addr)
        if v is not None:
            return v
        if addr.k == 'g' or addr.k in ('fld', 'idx'):
            c = self.const_read(addr, ty)
            if c is not None:
                return c
        c = self.cls(addr, ty)
        if self.is_stable(addr):
            ep = 0
        else:
            ep = st.ep.get(c, st.ep.get('*', 0))
        if isinstance(ty, tuple) or self.root(addr).k == 'al' and ep == 0 and addr.k != 'al' and False:
            return mk('s', i.id)
        return mk('ld', addr, ep, self.tk(ty))

    def const_read(self, addr, ty):
        """read from a constant global table"""
        path = []
        a = addr
        while a.k in ('fld', 'idx'):
            if a.k == 'fld':
                path.append(a.a[3])
            else:
                if a.a[2].k != 'c':
                    return None
                path.append(('i', a.a[2].a[0]))
            a = a.a[0]
        if a.k != 'g':
            return None
        g = self.prog.globals.get(a.a[0])
        if g is None or not g.const or g.init is None:
            return None
        v = g.init
        for p in reversed(path):
            n = p[1] if isinstance(p, tuple) else p
            if v[0] == 'agg' and 0 <= n < len(v[1]):
                v = v[1][n][1]
            elif v[0] == 'str' and 0 <= n < len(v[1]):
                c = v[1][n]
                return const(c - 256 if c > 127 else c)
            elif v[0] == 'zero':
                return ZERO
            else:
                return None
        if v[0] == 'str' and ty == 'i8':
            c = v[1][0] if v[1] else 0
            return const(c - 256 if c > 127 else c)
        if v[0] == 'zero' and ty in ('i8', 'i32', 'ptr', 'i64'):
            return ZERO
        if v[0] == 'c':
            return const(v[1])
        if v[0] == '@':
            return mk('g', v[1])
        return None

    def disjoint(self, a, b):
        """addresses of the same class that certainly differ"""
        if a.k == 'idx' and b.k == 'idx' and a.a[0] is b.a[0] and a.a[1] == b.a[1]:
            x, y = a.a[2], b.a[2]
            if x.k == 'c' and y.k == 'c':
                return x is not y
            X, cx = lin(x)
            Y, cy = lin(y)
            if X is Y and cx != cy:
                return True
            return False
        ra, rb = self.root(a), self.root(b)
        if ra is rb:
            if a.k == 'fld' and b.k == 'fld':
                if a.a[0] is b.a[0]:
                    return a.a[3] != b.a[3]
            return False
        if ra.k == 'al' and rb.k == 'al':
            return True
        for x, y in ((ra, rb), (rb, ra)):
            if x.k == 'al' and x.a[0] not in self.escaped:
                return True
            if x.k in ('al', 'g') and y.k in ('al', 'g'):
                return True
            if x.k == 's' and isinstance(x.a[0], int) and self.is_alloc(x.a[0]):
                # fresh heap object: cannot equal anything computed before it, unless stored
                if y.k in ('p', 'g'):
                    return True
                if y.k == 's' and isinstance(y.a[0], int) and self.is_alloc(y.a[0]):
                    return True
        return False

    ALLOC = {'g_malloc', 'g_malloc0', 'malloc', 'calloc', 'g_slice_alloc', 'g_slice_alloc0', 'g_malloc_n', 'g_malloc0_n',
             'g_strdup', 'g_strndup', 'g_strdup_printf', 'strdup', 'g_strconcat', 'g_string_new', 'g_new0'}

    def is_alloc(self, iid):
        return iid in self.allocids()

    def allocids(self):
        r = getattr(self, '_alloc', None)
        if r is None:
            r = {i.id for i in self.fn.insts() if i.op == 'call' and i.x[0] == '@' and i.x[1] in self.ALLOC}
            self._alloc = r
        return r

    def write(self, st, addr, val, ty, i):
        c = self.cls(addr, ty)
        kill = []
        for a in st.mem:
            if a is addr:
                continue
            ca = self.cls(a, ty)
            if ca == c or self.may_cross(c, ca, addr, a):
                if not self.disjoint(a, addr):
                    kill.append(a)
        for a in kill:
            del st.mem[a]
        if c[0] != 'L' or addr.a and c[1] in self.escaped:
            self.bump(st, c, i)
        st.mem[addr] = val

    def may_cross(self, c, d, a, b):
        """may an access of class c touch class d (different classes)"""
        if c[0] in ('O', 'I') and d[0] in ('O', 'I'):
            return c[1] == d[1]
        if c[0] in ('O', 'I') and d[0] == 'L':
            return d[1] in self.escaped
        if d[0] in ('O', 'I') and c[0] == 'L':
            return c[1] in self.escaped
        return False

    def bump(self, st, c, i):
        if i.bb in self.inloop:
            self.retire_epoch(st, c, i.id)
        st.ep[c] = i.id
        if c[0] in ('O', 'I'):
            for k in (('O', c[1]), ('I', c[1])):
                st.ep[k] = i.id

    def retire_epoch(self, st, c, iid):
        """loads named with epoch iid come from an earlier iteration"""
        if st.ep.get(c) == iid or any(iid in e.eps for e in st.env.values()) or True:
            def f(e):
                if iid in e.eps:
                    return self.rename_epoch(e, iid)
                return e
            self.subst(st, f, lambda e: iid in e.eps)

    def rename_epoch(self, e, iid):
        return mk('s', ('stale', e))if False else mk('s', ('stale', e.id))

    def subst(self, st, f, test):
        hit = False
        for e in st.env.values():
            if test(e):
                hit = True
                break
        if not hit:
            for a, v in st.mem.items():
                if test(a) or test(v):
                    hit = True
                    break
        if hit:
            st.env = {k: f(v) for k, v in st.env.items()}
            nm = {}
            for a, v in st.mem.items():
                if test(a):
                    continue
                nm[a] = f(v)
            st.mem = nm
        # facts: those about renamed values are carried over
        if any(test(e) for e in st.rng):
            nr = {}
            for e, r in st.rng.items():
                nr[f(e) if test(e) else e] = r
            st.rng = nr
        ne = set()
        ch = False
        for a, b in st.ne:
            ta, tb = test(a), isinstance(b, E) and test(b)
            if ta or tb:
                ch = True
                ne.add((f(a) if ta else a, f(b) if tb else b))
            else:
                ne.add((a, b))
        if ch:
            st.ne = ne
        if any(test(a) or test(b) for a, b in st.rel):
            st.rel = {((f(a) if test(a) else a), (f(b) if test(b) else b)): c for (a, b), c in st.rel.items()}
        if st.ts:
            self.rule.subst_ts(st, lambda e: f(e) if test(e) else e, self)

    def retire_sym(self, st, tag):
        """instruction `tag` is executed again: earlier values become 'old'"""
        def test(e):
            return tag in e.atoms
        old = mk('s', ('old', tag))
        cur = mk('s', tag)

        def test2(e):
            return ('old', tag) in e.atoms
        # forget facts about the older generation
        if any(test2(e) for e in st.rng):
            st.rng = {e: r for e, r in st.rng.items() if not test2(e)}
        st.ne = {x for x in st.ne if not test2(x[0]) and not (isinstance(x[1], E) and test2(x[1]))}
        if any(test2(a) or test2(b) for a, b in st.rel):
            st.rel = {k: c for k, c in st.rel.items() if not test2(k[0]) and not test2(k[1])}
        cache = {}

        def f(e):
            if tag not in e.atoms:
                return e
            if e is cur:
                return old
            r = cache.get(e)
            if r is None:
                r = mk(e.k, *[f(x) if isinstance(x, E) else x for x in e.a])
                cache[e] = r
            return r
        self.subst(st, f, test)

    def clobber(self, st, classes, i, args=()):
        """a call may have written these classes"""
        if not classes:
            return
        kill = []
        star = ('*',) in classes
        hasO = {c[1] for c in classes if c[0] in ('O', 'I')}
        for a, v in st.mem.items():
            if self.is_stable(a):
                continue
            r = self.root(a)
            if r.k == 'al' and r.a[0] not in self.escaped:
                continue
            if star:
                kill.append(a)
                continue
            if a.k == 'fld':
                c = ('F', a.a[1], a.a[2])
                if c in classes:
                    kill.append(a)
            elif a.k == 'g':
                if ('G', a.a[0]) in classes:
                    kill.append(a)
            else:
                ca = self.cls(a, 'ptr')
                if ca in classes or (ca[0] in ('O', 'I') and (ca[1] in hasO or 'ptr' in hasO)) or (ca[0] == 'L' and hasO):
                    kill.append(a)
        for a in kill:
            del st.mem[a]
        for c in classes:
            if c[0] == 'M':
                continue
            if i.bb in self.inloop:
                pass
            st.ep[c] = i.id
            if c[0] in ('O', 'I'):
                st.ep[('O', c[1])] = i.id
                st.ep[('I', c[1])] = i.id
        if star:
            st.ep = {'*': i.id}
        if i.bb in self.inloop:
            def f(e):
                return self.rename_epoch(e, i.id) if i.id in e.eps else e
            # values read in an earlier iteration after this same call
            # (renaming must happen before new loads use epoch i.id)
            self.subst(st, f, lambda e: i.id in e.eps)

    # ------------------------------------------------------------------ run
    def run(self, init=None):
        fn = self.fn
        st = init or State()
        for k, p in enumerate(fn.params):
            if p not in st.env:
                st.env[p] = mk('p', fn.name, k)
        self.rule.entry(st, fn, self)
        self.pending = defaultdict(list)
        self.seen = defaultdict(list)
        self.heap = []
        self.queued = set()
        self.ctxs = defaultdict(list)
        self.cnt = defaultdict(int)
        self.phisrc = defaultdict(set)
        self.push(fn.blocks[0], st, None)
        while self.heap:
            k = heapq.heappop(self.heap)
            b = self.order[k]
            self.queued.discard(b)
            sts = self.pending.pop(b, [])
            for s in sts:
                if b in self.headers and s.prev is not None:
                    cid = s.loops.get(b)
                    if cid is not None and self.ctxs[b][cid] is not s:
                        continue        # superseded by a wider state
                self.block(b, s)

    def push(self, b, st, frm):
        # phi evaluation
        if frm is not None:
            new = {}
            for i in b.insts:
                if i.op != 'phi':
                    break
                for v, l in i.x:
                    if l == frm.name:
                        new[i.res] = self.val(st, v)
                        break
                else:
                    new[i.res] = mk('s', i.id)
            st.env.update(new)
        live = self.livein[b]
        st.env = {k: v for k, v in st.env.items() if k in live}
        for h in list(st.loops):
            if b not in self.loopof[h]:
                del st.loops[h]
        self.frm = frm
        self.rule.enter(st, b, self)
        self.gc(st)
        st.prev = frm
        if b in self.headers:
            st = self.header(b, st, frm)
            if st is None:
                return
            lst = self.pending[b]
            cid = st.loops[b]
            lst[:] = [x for x in lst if x.loops.get(b) != cid or x is st]
            if st not in lst:
                lst.append(st)
        else:
            for s in self.seen[b]:
                if self.covers(s, st):
                    return
            lst = self.pending[b]
            for s in lst:
                if self.covers(s, st):
                    return
            lst.append(st)
            if len(lst) + len(self.seen[b]) > self.rule.maxstates:
                self.compact(b, lst)
        if b not in self.queued:
            self.queued.add(b)
            heapq.heappush(self.heap, self.rpo[b])

    def compact(self, b, lst):
        # keep apart states that differ in what is NULL when that is affordable
        keys = set()
        for s in lst[1:]:
            for k, v in s.env.items():
                if lst[0].env.get(k) is not v:
                    keys.add(k)
                elif v.k in ('s', 'ld', 'call') and k not in keys:
                    o = lst[0]
                    if (o.isnull(v), (v, 0) in o.ne) != (s.isnull(v), (v, 0) in s.ne):
                        keys.add(k)
        keys = sorted(keys, key=str)

        def sig(s):
            out = []
            for k in keys:
                v = s.env.get(k)
                out.append(None if v is None else 0 if s.isnull(v) else 1 if s.nonnull(v) else 2)
            return tuple(out)
        sigs = [(self.tskey(s), sig(s)) for s in lst]
        nt = len({x[0] for x in sigs})
        if len(set(sigs)) > max(nt, self.rule.maxstates // 2):
            sigs = [x[0] for x in sigs]
        groups = {}
        for s, key in zip(lst, sigs):
            if key in groups:
                groups[key] = self.merge(groups[key], s, b, False)
            else:
                groups[key] = s
        if self.rule.lossy and len(groups) > self.rule.maxstates:
            # too many typestates: keep what they have in common
            g2 = {}
            for s in groups.values():
                key = frozenset(s.loops.items())
                g2[key] = self.merge(g2[key], s, b, False) if key in g2 else s
            groups = g2
        lst[:] = list(groups.values())

    def tskey(self, s):
        return (self.rule.tskey(s.ts), frozenset(s.loops.items()))

    def header(self, b, st, frm):
        back = frm is not None and self.rpo[frm] >= self.rpo[b]
        ctx = self.ctxs[b]
        if not back:
            # entering: values named after this header belong to an earlier execution
            def test(e):
                return any(isinstance(t, tuple) and t[0] == 'phi' and t[1] == b.name for t in e.atoms)
            if any(test(e) for e in st.env.values()) or any(test(e) for e in st.rng) or any(test(a) for a in st.mem):
                tags = set()
                for e in list(st.env.values()) + list(st.rng) + list(st.mem) + list(st.mem.values()):
                    for t in e.atoms:
                        if isinstance(t, tuple) and t[0] == 'phi' and t[1] == b.name:
                            tags.add(t)
                for t in tags:
                    self.retire_sym(st, t)
            outer = {h: c for h, c in st.loops.items() if h is not b}
            for k, c in enumerate(ctx):
                o2 = {h: x for h, x in c.loops.items() if h is not b}
                if o2 == outer and self.covers(c, st, ignore_loops=True):
                    return None
            cand = [k for k, c in enumerate(ctx) if self.rule.same_ts(c.ts, st.ts) and {h: x for h, x in c.loops.items() if h is not b} == outer]
            if len(cand) < max(2, self.rule.maxstates // 3):
                cid = len(ctx)
                st.loops[b] = cid
                ctx.append(st)
                self.cnt[(b, cid)] = 0
                return st
            cid = cand[-1]
        else:
            cid = st.loops.get(b)
            if cid is None:
                cid = 0
            acc = ctx[cid]
            if acc.ts != st.ts:
                if self.rule.split(acc.ts, st.ts, self):
                    # same loop, different typestate: its own context
                    outer = {h: c for h, c in st.loops.items() if h is not b}
                    cand = [k for k, c in enumerate(ctx) if self.rule.same_ts(c.ts, st.ts) and {h: x for h, x in c.loops.items() if h is not b} == outer]
                    if cand:
                        cid = cand[0]
                    else:
                        if len(ctx) > 60:
                            raise Timeout('%s: too many loop contexts' % self.fn.name)
                        cid = len(ctx)
                        st.loops[b] = cid
                        st = self.generalize(st, b)
                        ctx.append(st)
                        self.cnt[(b, cid)] = 0
                        return st
        acc = ctx[cid]
        st.loops[b] = cid
        if self.covers(acc, st):
            return None
        self.cnt[(b, cid)] += 1
        n = self.merge(acc, st, b, self.cnt[(b, cid)] >= 2)
        n.loops = dict(acc.loops)
        if self.covers(acc, n) and self.covers(n, acc):
            return None
        ctx[cid] = n
        return n

    def generalize(self, st, b):
        return st

    def covers(self, a, b, ignore_loops=False):
        """a is at least as general as b"""
        if not ignore_loops and a.loops != b.loops:
            return False
        env = b.env
        for k, v in a.env.items():
            if env.get(k) is not v:
                return False
        if a.ts != b.ts and not self.rule.covers_ts(a.ts, b.ts, self):
            return False
        for k, v in a.mem.items():
            if b.mem.get(k) is not v:
                return False
        for e, (lo, hi) in a.rng.items():
            l, h = b.range(e)
            if l < lo or h > hi:
                return False
        for x in a.ne:
            if x not in b.ne:
                if isinstance(x[1], E):
                    if b.truth(mkicmp('ne', x[0], x[1])) is not True:
                        return False
                elif x[1] == 0:
                    if not b.nonnull(x[0]):
                        return False
                else:
                    l, h = b.range(x[0])
                    if l <= x[1] <= h:
                        return False
        for (x, y), c in a.rel.items():
            if b.diff(x, y) > c:
                return False
        for k, v in a.ep.items():
            if b.ep.get(k) != v:
                return False
        return True

    def merge(self, a, b, blk, widen):
        n = State()
        n.path = a.path
        n.prev = a.prev
        n.loops = dict(a.loops)
        n.ts = dict(a.ts) if a.ts == b.ts else self.rule.join_states(a, b, self)
        if blk in self.headers:
            # symbols introduced by this header denote the previous iteration in b
            tags = set()
            for x, v in a.env.items():
                t = ('phi', blk.name, x)
                if v.k == 's' and v.a[0] == t and b.env.get(x) is not v:
                    tags.add(t)
            for x, v in a.mem.items():
                t = ('phi', blk.name, x.id)
                if v.k == 's' and v.a[0] == t and b.mem.get(x) is not v:
                    tags.add(t)
            if tags:
                b = b.copy()
                for t in tags:
                    self.retire_sym(b, t)
        ren = []

        def joinval(x, y, tag):
            if x is y:
                return x
            s = mk('s', ('phi', blk.name, tag))
            ren.append((s, x, y))
            src = self.phisrc[s]
            for z, zs in ((x, a), (y, b)):
                if z is not s and not (z.k != 'c' and zs.nonnull(z)):
                    src.add(z)
            return s
        for k, v in a.env.items():
            w = b.env.get(k)
            if w is None:
                continue
            n.env[k] = joinval(v, w, k)
        for k, v in a.mem.items():
            w = b.mem.get(k)
            if w is None:
                continue
            n.mem[k] = joinval(v, w, k.id)
        for e, (lo, hi) in a.rng.items():
            l, h = b.range(e)
            self.joinr(n, e, lo, hi, l, h, widen)
        for e, (lo, hi) in b.rng.items():
            if e not in a.rng:
                l, h = a.range(e)
                if l > -INF or h < INF:
                    self.joinr(n, e, l, h, lo, hi, widen)
        for x in a.ne:
            if x in b.ne:
                n.ne.add(x)
            elif not isinstance(x[1], E):
                if x[1] == 0 and b.nonnull(x[0]):
                    n.ne.add(x)
                else:
                    l, h = b.range(x[0])
                    if x[1] < l or x[1] > h:
                        n.ne.add(x)
        for x in b.ne:
            if x not in n.ne and not isinstance(x[1], E) and x[1] == 0 and a.nonnull(x[0]):
                n.ne.add(x)
        for (x, y), c in a.rel.items():
            d = b.diff(x, y)
            if d <= c:
                n.rel[(x, y)] = c
            else:
                if widen:
                    d = -1 if d <= -1 else 0 if d <= 0 else INF
                if d < INF:
                    n.rel[(x, y)] = d
        for (x, y), c in b.rel.items():
            if (x, y) not in n.rel and not widen:
                d = a.diff(x, y)
                if d < INF:
                    n.rel[(x, y)] = max(c, d)
        for s, x, y in ren:
            lo, hi = a.range(x)
            l, h = b.range(y)
            olds = a.rng.get(s) if x is s else None
            self.joinr(n, s, lo, hi, l, h, widen)
            if self.rule.relpairs and blk in self.headers:
                self.rule.cur = None
                self.rule.clamp(n, s, self)
            if a.nonnull(x) and b.nonnull(y):
                n.ne.add((s, 0))
            # difference facts through the joined value
            if lo > -INF or True:
                targets = set()
                for (p, q) in list(a.rel) + list(b.rel):
                    targets.add(p)
                    targets.add(q)
                for p in list(a.rng) + list(b.rng):
                    if p.k == 'call' and p.a[0] == 'veclen' or p.k == 'ld' and p.a[0].k == 'fld' and p.a[0].a[1:3] in State.intrinsic:
                        targets.add(p)
                lx, ly = lin(x), lin(y)
                for t in targets:
                    if t is None or t is s or t is lx[0] or t is ly[0]:
                        continue
                    if ('phi', blk.name) in [u[:2] for u in t.atoms if isinstance(u, tuple)] and any(t is r[0] for r in ren):
                        continue
                    for sgn in (0, 1):
                        if sgn == 0:
                            d1, d2 = a.diff(x, t), b.diff(y, t)
                        else:
                            d1, d2 = a.diff(t, x), b.diff(t, y)
                        d = max(d1, d2)
                        if widen and d > d1:
                            # next threshold, then unknown
                            d = -1 if d <= -1 else 0 if d <= 0 else INF
                        if d < INF:
                            n.rel[(s, t) if sgn == 0 else (t, s)] = d
        if self.rule.relpairs and blk in self.headers:
            # differences between counters that move together
            nums = [r for r in ren if max(a.range(r[1])[0], b.range(r[2])[0]) > -INF or min(a.range(r[1])[1], b.range(r[2])[1]) < INF]
            if len(nums) <= 6:
                for s, x, y in nums:
                    for t, u, v in nums:
                        if s is t:
                            continue
                        d1, d2 = a.diff(x, u), b.diff(y, v)
                        d = max(d1, d2)
                        if widen and d > d1:
                            d = -1 if d <= -1 else 0 if d <= 0 else INF
                        if d < INF:
                            n.rel[(s, t)] = d
        keys = set(a.ep) | set(b.ep)
        t = ('m', blk.name)
        differ = False
        for k in keys:
            x, y = a.ep.get(k, a.ep.get('*', 0)), b.ep.get(k, b.ep.get('*', 0))
            if x == y:
                n.ep[k] = x
            else:
                n.ep[k] = t
                differ = True
        if differ:
            # loads already named with that epoch are from an earlier pass
            self.subst(n, lambda e: mk('s', ('stale', e.id)) if t in e.eps else e, lambda e: t in e.eps)
        self.rule.joined(n, a, b, ren, self)
        self.gc(n)
        return n

    def joinr(self, n, e, lo, hi, l, h, widen):
        nl, nh = min(lo, l), max(hi, h)
        if widen:
            if l < lo:
                nl = -INF if l < 0 else 0 if lo >= 0 else -INF
            if h > hi:
                nh = INF
        if nl > -INF or nh < INF:
            n.rng[e] = (nl, nh)

    def gc(self, st):
        """drop facts about values nothing can mention any more"""
        atoms = set()
        livee = set()
        for e in st.env.values():
            atoms |= e.atoms
            livee.add(e)
        for e in st.mem.values():
            atoms |= e.atoms
            livee.add(e)
        weak = self.rule.weak
        for k, v in st.ts.items():
            if not (weak and isinstance(k, tuple) and k[0] in weak):
                collect(k, atoms)
                collect(v, atoms)
        if weak and any(isinstance(k, tuple) and k[0] in weak and not k[1].atoms <= atoms for k in st.ts):
            st.ts = {k: v for k, v in st.ts.items() if not (isinstance(k, tuple) and k[0] in weak and not k[1].atoms <= atoms)}
        if st.mem:
            dead = [a for a in st.mem if not a.atoms <= atoms]
            for a in dead:
                del st.mem[a]

        def ok(e):
            return e.atoms <= atoms and not isinstance(e.k, int)
        if self.rule.relpairs:
            for (a, b), c in st.rel.items():
                # what a value that goes away says about one that stays
                if ok(a) and not ok(b) and st.range(b)[1] + c < st.range(a)[1]:
                    st.rng[a] = (st.range(a)[0], st.range(b)[1] + c)
                elif ok(b) and not ok(a) and st.range(a)[0] - c > st.range(b)[0]:
                    st.rng[b] = (st.range(a)[0] - c, st.range(b)[1])
        if any(not ok(e) for e in st.rng):
            st.rng = {e: r for e, r in st.rng.items() if ok(e)}
        if any(not ok(x[0]) or (isinstance(x[1], E) and not ok(x[1])) for x in st.ne):
            st.ne = {x for x in st.ne if ok(x[0]) and (not isinstance(x[1], E) or ok(x[1]))}
        if any(not ok(a) or not ok(b) for a, b in st.rel):
            st.rel = self.eliminate(st.rel, ok)

    def eliminate(self, rel, ok):
        """drop difference facts about values that are not ok, keeping their consequences"""
        dead = {x for k in rel for x in k if not ok(x)}
        if len(dead) <= 6 and len(rel) <= 60:
            rel = dict(rel)
            for y in dead:
                ins = [(a, c) for (a, b), c in rel.items() if b is y and a is not y]
                outs = [(b, c) for (a, b), c in rel.items() if a is y and b is not y]
                rel = {k: c for k, c in rel.items() if k[0] is not y and k[1] is not y}
                for a, c1 in ins:
                    for b, c2 in outs:
                        if a is not b and c1 + c2 < rel.get((a, b), INF):
                            rel[(a, b)] = c1 + c2
        return {k: c for k, c in rel.items() if ok(k[0]) and ok(k[1])}

    # ---------------------------------------------------------------- execute
    def block(self, b, st):
        self.seen[b].append(st)
        if len(self.seen[b]) > max(480, 40 * self.rule.maxstates):
            raise Timeout('%s: state explosion at block %s' % (self.fn.name, b.name))
        work = [(st.copy(), 0)]
        while work:
            s, k = work.pop()
            insts = b.insts
            n = len(insts)
            while k < n:
                i = insts[k]
                k += 1
                self.steps += 1
                if self.steps > self.maxsteps:
                    raise Timeout('%s: step limit' % self.fn.name)
                op = i.op
                if op == 'phi':
                    continue
                if op in ('br', 'switch', 'ret', 'unreachable'):
                    self.term(b, s, i)
                    break
                r = self.inst(s, i)
                if r is not None:
                    if r == 'dead':
                        break
                    # list of alternative states
                    for s2 in r[1:]:
                        work.append((s2, k))
                    s = r[0]

    def setres(self, st, i, e):
        st.env[i.res] = e

    def fresh(self, st, i):
        if i.bb in self.inloop:
            self.retire_sym(st, i.id)
        return mk('s', i.id)

    def inst(self, st, i):
        op = i.op
        if op == 'load':
            a = self.val(st, i.ops[0])
            self.rule.load(st, i, a, self)
            v = self.read(st, a, i.ty, i)
            st.env[i.res] = v
            self.rule.loaded(st, i, a, v, self)
            return None
        if op == 'store':
            v = self.val(st, i.ops[0])
            a = self.val(st, i.ops[1])
            self.rule.store(st, i, a, v, self)
            self.write(st, a, v, i.ty, i)
            return None
        if op == 'gep':
            st.env[i.res] = self.gep(self.val(st, i.ops[0]), i.x, [self.val(st, x) for x in i.ops[1:]])
            return None
        if op == 'icmp':
            st.env[i.res] = mkicmp(i.x, self.val(st, i.ops[0]), self.val(st, i.ops[1]))
            return None
        if op == 'bin':
            st.env[i.res] = mkbin(i.x, self.val(st, i.ops[0]), self.val(st, i.ops[1]), WIDTH.get(i.ty, 64))
            return None
        if op == 'cast':
            st.env[i.res] = mkcast(i.x[0], self.tk(i.x[1]), self.tk(i.ty), self.val(st, i.ops[0]))
            return None
        if op == 'select':
            c = self.val(st, i.ops[0])
            t = st.truth(c)
            a, b = self.val(st, i.ops[1]), self.val(st, i.ops[2])
            if t is True:
                st.env[i.res] = a
            elif t is False:
                st.env[i.res] = b
            elif a is b:
                st.env[i.res] = a
            else:
                s2 = st.copy()
                out = []
                if st.assume(c, True):
                    st.env[i.res] = a
                    out.append(st)
                if s2.assume(c, False):
                    s2.env[i.res] = b
                    out.append(s2)
                return out or 'dead'
            return None
        if op == 'alloca':
            e = mk('al', i.id)
            st.env[i.res] = e
            return None
        if op == 'call':
            return self.call(st, i)
        if i.res is not None:
            st.env[i.res] = self.fresh(st, i)
        return None

    NORET = {'abort', 'exit', '_exit', 'g_assertion_message_expr', 'g_assertion_message', 'g_assertion_message_cmpnum',
             'g_assertion_message_cmpstr', 'g_assertion_message_error', '__assert_fail', 'g_assert_warning'}

    def call(self, st, i):
        names = self.callee(st, i)
        args = [self.val(st, o) for o in i.ops]
        # llvm.* helpers
        n0 = names[0] if names else None
        if n0 and n0.startswith('llvm.'):
            if n0.startswith('llvm.expect'):
                st.env[i.res] = args[0]
                return None
            if n0.startswith('llvm.is.constant'):
                st.env[i.res] = ZERO
                return None
        r = self.rule.call(st, i, names, args, self)
        if isinstance(r, E):
            if i.res is not None:
                st.env[i.res] = r
            return None
        if r == 'dead':
            return 'dead'
        if isinstance(r, list):
            return r
        res = None
        if i.res is not None:
            if n0 in self.rule.pure and len(names) == 1 and not (n0 in ('strchr', 'strrchr', 'strlen') and self.rewritten(i)):
                res = mk('call', n0, *args)
            else:
                res = self.fresh(st, i)
        if n0 not in self.rule.pure:
            self.effects(st, i, names, args)
        if res is not None:
            st.env[i.res] = res
            self.postfacts(st, i, n0, res)
        self.rule.after(st, i, names, args, self)
        return None

    def rewritten(self, i):
        """is the call in a loop that also writes characters: the same call may have another result next time"""
        r = getattr(self, '_rewrite', None)
        if r is None:
            r = self._rewrite = {}
        if i.id not in r:
            r[i.id] = False
            for h in self.headers:
                if i.bb in self.loopof[h] and any(
                        x.op == 'store' and x.ty == 'i8' for b in self.loopof[h] for x in b.insts):
                    r[i.id] = True
        return r[i.id]

    NONNULL_RET = {'g_malloc', 'g_malloc0', 'g_malloc_n', 'g_malloc0_n', 'g_strdup_printf', 'g_string_new', 'g_list_append',
                   'g_list_prepend', 'g_strconcat', 'g_hash_table_new', 'g_hash_table_new_full', 'g_queue_new', 'g_key_file_new',
                   'g_build_filename', 'g_strsplit', 'g_realloc', 'g_strdup_vprintf', 'g_ascii_strdown', 'g_ascii_strup',
                   '__errno_location', 'g_strerror', 'strerror', 'g_list_insert_sorted', 'g_list_insert',
                   'g_io_channel_unix_new', 'g_option_context_new', 'g_get_user_name', 'g_get_real_name', 'g_utf8_strup'}
    NONNEG = {'strlen', 'g_strv_length', 'g_list_length', 'g_hash_table_size', 'g_io_add_watch', 'g_timeout_add', 'g_timeout_add_seconds'}

    def postfacts(self, st, i, n, e):
        if n in self.NONNULL_RET:
            st.ne.add((e, 0))
        elif n in self.NONNEG:
            st.setrange(e, 0, INF)

    def callee(self, st, i):
        if i.x[0] == '@':
            return [i.x[1]]
        e = self.val(st, i.x)
        if e.k == 'g':
            return [e.a[0]]
        if self.g is None:
            return []
        # by slot of the load expression
        if e.k == 'ld':
            a = e.a[0]
            if a.k == 'fld':
                r = self.g.slot_targets((a.a[1], a.a[2]), i)
                if r is not None:
                    return r
        elif e.k == 'p':
            f = self.prog.funcs[e.a[0]]
            r = self.g.origins(e.a[0], ('%', f.params[e.a[1]]))
            if r is not None:
                return sorted(r)
        return sorted(self.g.sigmatch(i))

    READONLY = {'strlen', 'strcmp', 'strcasecmp', 'strncmp', 'strncasecmp', 'g_strcasecmp', 'strchr', 'strrchr', 'strstr', 'g_strdup',
                'g_strndup', 'g_strdup_printf', 'atoi', 'write', 'g_list_length', 'g_strconcat', 'fprintf', 'fputs', 'puts', 'printf',
                'g_error_matches', 'g_log', 'htons', 'htonl', 'ntohs', 'ntohl', 'bind', 'connect', 'getuid', 'geteuid', 'stat', 'open',
                'g_str_equal', 'toupper', 'tolower', 'isspace', 'g_file_test', 'g_build_filename', 'g_strsplit', 'g_malloc', 'g_malloc0',
                'g_ascii_strcasecmp', 'g_malloc_n', 'g_malloc0_n', 'g_quark_from_static_string', 'strerror', 'g_get_user_name',
                'g_source_remove', 'g_io_add_watch', '__errno_location', 'unlink', 'mkdir', 'chmod', 'access', 'inet_ntoa', 'close', 'time',
                'g_get_real_name', 'g_get_home_dir', 'g_hash_table_lookup', 'g_list_find', 'g_strv_length', 'g_io_channel_unix_get_fd',
                'g_timeout_add', 'memcmp', 'isalnum', 'isdigit', 'isalpha', 'g_timeout_add_seconds'}

    # arguments through which a library function does not write
    INPUT = {'g_io_channel_write_chars': (0, 1), 'g_io_channel_write_unichar': (0,), 'g_io_channel_flush': (0,), 'send': (1,),
             'sendto': (1, 4), 'fwrite': (0,), 'setsockopt': (3,), 'g_file_set_contents': (0, 1), 'g_spawn_async_with_pipes': (),
             'gss_accept_sec_context': (3,), 'g_convert_with_iconv': (0,), 'g_convert': (0,), 'g_utf8_validate': (0,)}

    def effects(self, st, i, names, args):
        cl = set()
        for n in names:
            base = n.split('#')[0]
            if base in self.rule.nomod or n in self.rule.nomod:
                continue
            if n in self.prog.funcs:
                cl |= self.mods.get(n, set())
        for a in args:
            if a.k == 'g' and a.a[0] in self.prog.funcs:
                cl |= self.mods.get(a.a[0], set())
        ext = [n for n in names if n not in self.prog.funcs]
        if not names:
            cl.add(('*',))
        # memory passed by address
        n0 = names[0] if names else None
        if n0 in self.READONLY and len(names) == 1:
            pass
        else:
            inp = self.INPUT.get(n0, ()) if len(names) == 1 else ()
            for ka, a in enumerate(args):
                if ka in inp:
                    continue
                if a.k in ('al', 'fld', 'idx', 'g', 's', 'ld', 'p') and a.k != 'c':
                    r = self.root(a)
                    if r.k == 'al':
                        self.kill_under(st, r, i)
                    elif a.k in ('fld', 'idx') and ext:
                        self.kill_under(st, a, i)
                    elif a.k == 'g' and a.a[0] in self.prog.globals and not self.prog.globals[a.a[0]].const and ext:
                        self.kill_under(st, a, i)
                    elif ext and n0 and self.memwriter(n0):
                        self.kill_under(st, a, i)
            if ext and any(n.startswith('g_string') for n in ext):
                cl |= {('F', '_GString', 'str'), ('F', '_GString', 'len'), ('F', '_GString', 'allocated_len')}
            if ext and any(n.startswith('g_list') for n in ext):
                cl |= {('F', '_GList', 'data'), ('F', '_GList', 'next'), ('F', '_GList', 'prev')}
        if cl:
            self.clobber(st, cl, i)

    def memwriter(self, n):
        return n in ('memcpy', 'memset', 'memmove', 'strcpy', 'strncpy', 'strcat', 'strncat', 'snprintf', 'sprintf', 'read', 'fread',
                     'fgets', 'g_snprintf', 'g_strlcpy', 'recv', 'g_strstrip', 'g_strchug', 'g_strchomp') or n.startswith('llvm.mem')

    def kill_under(self, st, root, i):
        dead = []
        for a in st.mem:
            x = a
            while True:
                if x is root:
                    dead.append(a)
                    break
                if x.k in ('fld', 'idx'):
                    x = x.a[0]
                else:
                    break
        for a in dead:
            del st.mem[a]
        # re-reading gives a new value
        c = self.cls(root, 'i8')
        if root.k == 'al':
            # every class under a local object is (fields) shared by type; use epoch of each dead entry's class
            for a in dead:
                ca = self.cls(a, 'ptr')
                self.bump(st, ca, i)
            self.bump(st, ('L', root.a[0]), i)
            t = self.alloca_type(root.a[0])
            if isinstance(t, tuple) and t[0] == 'st' and self.prog.types.get(t[1]):
                for k in range(len(self.prog.types[t[1]])):
                    self.bump(st, ('F', self.prog.dt.cname(t[1]), self.prog.dt.fname(t[1], k)), i)
        else:
            self.bump(st, c, i)
            for a in dead:
                self.bump(st, self.cls(a, 'ptr'), i)

    def alloca_type(self, iid):
        r = getattr(self, '_allt', None)
        if r is None:
            r = {x.id: x.x for x in self.fn.insts() if x.op == 'alloca'}
            self._allt = r
        return r.get(iid)

    def term(self, b, st, i):
        if i.op == 'ret':
            self.paths += 1
            self.rule.ret(st, i, self.val(st, i.ops[0]) if i.ops else None, self)
            return
        if i.op == 'unreachable':
            self.rule.unreachable(st, i, self)
            return
        bm = self.fn.bmap
        if i.op == 'br':
            if len(i.x) == 1:
                self.push(bm[i.x[0]], st, b)
                return
            c = self.val(st, i.ops[0])
            if i.x[0] == i.x[1]:
                self.push(bm[i.x[0]], st, b)
                return
            s2 = st.copy()
            if st.assume(c, True):
                st.path = (st.path, i, True)
                if self.rule.branch(st, i, c, True, self) != 'dead':
                    self.push(bm[i.x[0]], st, b)
            if s2.assume(c, False):
                s2.path = (s2.path, i, False)
                if self.rule.branch(s2, i, c, False, self) != 'dead':
                    self.push(bm[i.x[1]], s2, b)
            return
        v = self.val(st, i.ops[0])
        dflt, cases = i.x
        byl = defaultdict(list)
        for c, l in cases:
            byl[l].append(c)
        for l, cs in byl.items():
            for c in cs:
                s = st.copy()
                if s.assume_cmp('eq', v, const(c)) and s.truth(mkicmp('eq', v, const(c))) is not False:
                    s.path = (s.path, i, c)
                    if self.rule.branch(s, i, mkicmp('eq', v, const(c)), True, self) != 'dead':
                        self.push(bm[l], s, b)
        s = st.copy()
        ok = True
        for c, l in cases:
            if s.truth(mkicmp('eq', v, const(c))) is True or not s.assume_cmp('ne', v, const(c)):
                ok = False
                break
        if ok:
            s.path = (s.path, i, 'default')
            if self.rule.branch(s, i, None, True, self) != 'dead':
                self.push(bm[dflt], s, b)

    def trail(self, st, n=12):
        """the branch decisions that led here, newest last"""
        out = []
        p = st.path
        while p is not None and len(out) < n:
            l = self.prog.loc(p[1].dbg)[0]
            s = '%s:%d=%s' % (l[0].split('/')[-1], l[1], {True: 'T', False: 'F'}.get(p[2], p[2]))
            if not out or out[-1] != s:
                out.append(s)
            p = p[0]
        return ' '.join(reversed(out))


def collect(x, atoms):
    if isinstance(x, E):
        atoms |= x.atoms
    elif isinstance(x, (tuple, frozenset)):
        for y in x:
            collect(y, atoms)
