"""C28: a failed write to disk is noticed and reported, and no success is reported for it"""
import guard
import interp
from interp import ZERO, mkbin, mkcast, mkicmp, mk
from core import Report, AnalysisError
from .authspec import cstr

# where files are written; the other users of the same calls talk to sockets
DISK = ('src/settings.c', 'src/keyfile.c', 'src/nickserv.c', 'src/log_support.c', 'src/log_custom.c', 'src/tlscert.c', 'src/util.c',
        'src/network.c', 'src/log_irssi.c', 'libirc/linestack.c', 'src/main.c', 'daemon/main.c', 'daemon/user.c')
# what these return is not about files
OTHER = ('src/network.c', 'src/main.c', 'daemon/main.c', 'daemon/user.c')
# failing value of the result
WRITE = {'write': 'lt0', 'pwrite': 'lt0', 'writev': 'lt0', 'fputs': 'lt0', 'fputc': 'lt0', 'putc': 'lt0', 'fprintf': 'lt0', 'vfprintf': 'lt0',
         'fflush': 'nz', 'fsync': 'nz', 'fdatasync': 'nz', 'ftruncate': 'nz', 'rename': 'nz', 'fwrite': 'z',
         'g_io_channel_write_chars': 'z', 'g_io_channel_write_unichar': 'z', 'g_io_channel_flush': 'z', 'g_io_channel_seek_position': 'z',
         'g_file_set_contents': 'z', 'g_file_set_contents_full': 'z', 'rep_g_file_set_contents': 'z', 'g_key_file_save_to_file': 'z', 'g_rename': 'nz',
         'irc_send_line': 'z'}
STREAM = {'fputs': 1, 'fputc': 1, 'putc': 1, 'fprintf': 0, 'vfprintf': 0, 'fflush': 0, 'fwrite': 3}
OPEN = {'fopen': 1, 'g_fopen': 1, 'g_io_channel_new_file': 1}
CHANNEL = {'g_io_channel_write_chars', 'g_io_channel_write_unichar'}
SAY = {'log_global', 'log_network', 'log_client', 'network_log', 'client_log', 'listener_log', 'admin_out', 'perror', 'syslog', 'vsyslog', 'g_log', 'g_printerr',
       'g_logv', 'log_entry', 'daemon_log', 'log_user', 'user_log'}
SUCCESS = ('saved', 'written', 'stored', 'generated ok', ' ok')


def replace(e, old, new):
    """the value with one part replaced, simplified"""
    if e is old:
        return new
    if e.k == 'bin':
        a, b = replace(e.a[1], old, new), replace(e.a[2], old, new)
        if a is not e.a[1] or b is not e.a[2]:
            if a.k == 'c' or b.k == 'c' or True:
                return mkbin(e.a[0], a, b, 32)
    elif e.k == 'cast':
        a = replace(e.a[3], old, new)
        if a is not e.a[3]:
            return mkcast(e.a[0], e.a[1], e.a[2], a)
    elif e.k == 'icmp':
        a, b = replace(e.a[1], old, new), replace(e.a[2], old, new)
        if a is not e.a[1] or b is not e.a[2]:
            return mkicmp(e.a[0], a, b)
    return e


def inside(e, old):
    if e is old:
        return True
    return any(isinstance(x, interp.E) and inside(x, old) for x in e.a) if e.k in ('bin', 'cast', 'icmp') else False


class Written(guard.Spec):
    demands = {'noticed': [], 'success': [], 'message': []}
    why = {'noticed': 'the failure having been reported', 'success': 'the write having succeeded', 'message': 'everything having been written'}

    def __init__(self, ctx):
        self.ctx = ctx
        self.prog = ctx.prog
        self.g = ctx.g
        ctx.field_index('irc_network', 'linestack_errors')
        for n in ('save_configuration', 'nickserv_save', 'keyfile_write_file', 'log_support_write', 'linestack_insert_line', 'create_linestack',
                  'admin_out', 'log_global'):
            ctx.need(n)
        self.calls = {}
        self.relevant = self.closure()
        self.outer = {}

    def disk(self, fn):
        return fn.tu in DISK or fn.tu.endswith('linestack.c') and fn.tu.startswith('libirc/') and '/python/' not in fn.tu

    def purpose(self, fn):
        return self.disk(fn) and fn.tu not in OTHER

    def here(self, eng):
        return self.disk(eng.fn)

    def closure(self):
        """functions that write to files themselves or by what they call directly"""
        callers = {}
        seeds = set()
        for n, f in self.prog.funcs.items():
            for i in f.insts():
                if i.op == 'call' and i.x[0] == '@':
                    callers.setdefault(i.x[1], set()).add(n)
                    if self.disk(f) and (i.x[1] in WRITE or i.x[1] in OPEN) and not self.console(i):
                        if i.x[1] not in ('g_io_channel_seek_position', 'g_io_channel_flush') and not (i.x[1] in OPEN and not self.wmode(i)):
                            seeds.add(n)
        if len(seeds) < 5:
            raise AnalysisError('functions that write to files not found')
        self.seeds = set(seeds)
        todo = list(seeds)
        while todo:
            for c in callers.get(todo.pop(), ()):
                if c not in seeds and c.split('#')[0] not in SAY:
                    seeds.add(c)
                    todo.append(c)
        return seeds

    def console(self, i):
        k = STREAM.get(i.x[1])
        if k is None:
            return False
        o = i.ops[k]
        f = i.fn
        for _ in range(3):
            if o[0] == '@':
                return o[1] in ('stderr', 'stdout')
            d = self.defs(f).get(o[1]) if o[0] == '%' else None
            if d is None or d.op != 'load':
                return False
            o = d.ops[0]
        return False

    def defs(self, f):
        f = self.prog.funcs[f] if isinstance(f, str) else f
        r = self.calls.get(f.name)
        if r is None:
            r = self.calls[f.name] = {i.res: i for i in f.insts() if i.res is not None}
        return r

    def wmode(self, i):
        o = i.ops[OPEN[i.x[1]]]
        if o[0] == '@':
            g = self.prog.globals.get(o[1])
            if g is not None and g.init and g.init[0] == 'str':
                return any(c & 255 in b'wa+' for c in g.init[1])
        return True

    # --------------------------------------------------------------- the calls
    def writer(self, st, i, names, args, eng):
        """(fact kind, failing value, what) of a call"""
        n = names[0].split('#')[0] if len(names) == 1 else None
        w = '%s (%s)' % (n or 'a function called by pointer', self.prog.where(i))
        if n in WRITE and names[0] not in self.prog.funcs:
            if self.here(eng) and not self.iscons(args, n):
                return [('failed', WRITE[n], w)]
            return []
        if n == 'irc_send_line':
            return [('failed', 'z', w)] if self.here(eng) else []
        if n in OPEN:
            m = cstr(self.prog, args[OPEN[n]])
            if self.here(eng) and (m is None or any(c in m for c in 'wa+')):
                return [('failed', 'z', w)]
            return []
        out = []
        for x in names:
            s = self.summ.get(x)
            if s is None or x.split('#')[0] in SAY:
                continue
            for kind, val in s.may:
                out.append((kind, val, w))
        return out

    def iscons(self, args, n):
        k = STREAM.get(n)
        if k is None or k >= len(args):
            return False
        a = args[k]
        return a.k == 'ld' and a.a[0].k == 'g' and a.a[0].a[0] in ('stderr', 'stdout') or a.k == 'c'

    def result(self, st, i, names, args, eng):
        out = []
        for kind, val, w in self.writer(st, i, names, args, eng):
            if args and args[-1].k == 'al' and i.res is not None:
                # the error it sets tells the same as its result
                eng.rule.errs = getattr(eng.rule, 'errs', {})
                eng.rule.errs.setdefault(args[-1], {})[w] = kind
            out.append((val, ('%s@%s' % (kind, w), 'unsure@' + w)))
            out.append(({'z': 'nz', 'nz': 'z', 'lt0': 'ge0'}[val], ('-unsure@' + w,)))
        return tuple(out)

    def gain(self, st, i, names, args, eng):
        n = names[0].split('#')[0] if len(names) == 1 else None
        if n == '__errno_location' and i.res is not None:
            eng.rule.errnos = getattr(eng.rule, 'errnos', set())
            eng.rule.errnos.add(st.env[i.res])
        elif n in OPEN and i.res is not None and cstr(self.prog, args[OPEN[n]]) != 'r':
            eng.rule.files = getattr(eng.rule, 'files', set())
            eng.rule.files.add(st.env[i.res])
        if n == 'g_io_channel_flush' and self.here(eng):
            return ('flushed',)     # whether it worked is a matter of its result
        if n in ('g_io_channel_unref', 'g_io_channel_shutdown') and self.here(eng) and self.forwriting(st, args[0], eng):
            self.closed = getattr(self, 'closed', 0) + 1
            if 'flushed' not in eng.rule.facts(st):
                w = 'closing a file without having tested that what was buffered is written (%s)' % self.prog.where(i)
                return ('failed@' + w, 'unsure@' + w)
        if len(names) == 1 and names[0] in self.prog.funcs and n not in SAY:
            # a function that looks at the result
            for k, v in list(st.ts.items()):
                if k[0] == 'R' and k[1].k != 'c' and any(inside(a, k[1]) for a in args) and not any(f.startswith('-') and not f.startswith('-unsure') for _, fs in v for f in fs):
                    st.ts = {a: b for a, b in st.ts.items() if a != k}
        if n and self.saying(st, i, names, args, eng):
            self.said(st, eng)
        if len(names) == 1 and names[0] in self.relevant and names[0] in self.prog.funcs:
            f = self.prog.funcs[names[0]]
            if f.rty == 'void' and eng.fn.name in self.relevant:
                return ('unsure@%s (%s)' % (n, self.prog.where(i)),)
        return ()

    def lose(self, st, i, names, args, eng):
        n = names[0].split('#')[0] if len(names) == 1 else None
        if n in CHANNEL or n == 'irc_send_line' or n in OPEN:
            return ('flushed',)
        if len(names) == 1 and names[0] in self.relevant and names[0] in self.prog.funcs:
            return ('flushed',)
        return ()

    def saying(self, st, i, names, args, eng):
        n = names[0].split('#')[0]
        if n in SAY:
            return True
        if n in ('fprintf', 'fputs', 'vfprintf') and self.iscons(args, n):
            return True
        if n in ('exit', '_exit', 'abort'):
            return True
        # the error is handed on
        if n in ('irc_listener_log',):
            return True
        return False

    def said(self, st, eng):
        """what is known to have failed has been reported"""
        ts = dict(st.ts)
        for k, v in st.ts.items():
            if k[0] == 'F' and k[1].startswith('failed@'):
                del ts[k]
                ts['F', 'logged@' + k[1][7:]] = True
            elif k[0] == 'R':
                new = []
                for t, fs in v:
                    if any(f.startswith('failed@') for f in fs) and eng.rule.pick(st, k[1], ((t, fs),)):
                        fs = frozenset('logged@' + f[7:] if f.startswith('failed@') else f for f in fs)
                    new.append((t, fs))
                ts[k] = tuple(new)
        st.ts = ts

    def cond(self, st, i, cond, taken, eng):
        """what has been seen to have succeeded is settled"""
        ts = None
        out = []
        if any(k[0] == 'R' and v[0][1] == frozenset(['-interrupted']) and st.range(k[1]) == (4, 4) for k, v in st.ts.items()):
            # nothing was written and it is tried again
            st.ts = {k: v for k, v in st.ts.items() if not (k[0] == 'F' and '@write ' in k[1] or k[0] == 'R' and (
                '-interrupted' in v[0][1] or any('@write ' in f for _, fs in v for f in fs)))}
        fine = {f[6:] for k, v in st.ts.items() if k[0] == 'R' and st.isnull(k[1]) for t, fs in v if t == 'z' for f in fs if f.startswith('-fine@')}
        if fine:
            st.ts = {k: v for k, v in st.ts.items() if not (
                k[0] == 'R' and any('@' in f and f.split('@', 1)[1] in fine for _, fs in v for f in fs)
                or k[0] == 'F' and k[1].startswith('unsure@') and k[1][7:] in fine)}
        out += [f[5:] for k, v in st.ts.items() if k[0] == 'R' and st.nonnull(k[1]) for t, fs in v if t == 'nz' for f in fs
                if f.startswith('-set@') and ('F', 'logged@' + f.split('@', 2)[2]) not in st.ts]
        for k, v in st.ts.items():
            if k[0] != 'R':
                continue
            e = k[1]
            new = []
            for t, fs in v:
                if (st.nonnull(e) if t == 'z' else st.isnull(e) if t == 'nz' else st.range(e)[0] >= 0 if t == 'lt0' else False):
                    continue
                if any(f.startswith('-unsure@') for f in fs) and eng.rule.pick(st, e, ((t, fs),)):
                    out += fs
                    continue
                if any(f.startswith('failed@') or f.startswith('logged@') for f in fs) and eng.rule.pick(st, e, ((t, fs),)):
                    out += fs
                    continue
                new.append((t, fs))
            if len(new) != len(v):
                ts = dict(st.ts) if ts is None else ts
                if new:
                    ts[k] = tuple(new)
                else:
                    del ts[k]
        if ts is not None:
            st.ts = ts
        return out

    def field(self, st, i, addr, val, eng):
        if addr in getattr(eng.rule, 'errnos', ()) and self.here(eng):
            return {4: ('-interrupted',)}
        ws = getattr(eng.rule, 'errs', {}).get(addr)
        if ws:
            here = {w for k, v in st.ts.items() if k[0] == 'R' for _, fs in v for w in ws if any(f.endswith('@' + w) for f in fs)}
            if here:
                return {'nz': tuple('-set@%s@%s' % (ws[w], w) for w in here), 'z': tuple('-fine@' + w for w in here)}
        if addr.k == 'fld' and addr.a[1:3] == ('irc_network', 'linestack_errors') and val.k == 'ld':
            return {'nz': ('reported-before',)}
        return None

    # ----------------------------------------------------------------- results
    def failing(self, st, eng, prefixes):
        """(fact, state in which it holds, value, replacement)"""
        seen = set()
        for k in list(st.ts):
            if k[0] == 'F' and k[1].split('@')[0] in prefixes:
                seen.add(k[1])
                yield k[1], st, None
        for k, v in list(st.ts.items()):
            if k[0] != 'R':
                continue
            for t, fs in v:
                fs = [f for f in fs if f.split('@')[0] in prefixes and f not in seen]
                if not fs:
                    continue
                e = k[1]
                s2 = st.copy()
                p = {'z': 'eq', 'nz': 'ne', 'lt0': 'slt'}[t]
                if not s2.assume_cmp(p, e, ZERO):
                    continue
                if t == 'z' and self.contradicts(s2, e):
                    continue
                for f in fs:
                    yield f, s2, e if t == 'z' else None

    def contradicts(self, st, e):
        for x, r in st.rng.items():
            if x is not e and inside(x, e):
                v = replace(x, e, ZERO)
                if v.k == 'c' and not r[0] <= v.a[0] <= r[1]:
                    return True
        for a, b in st.ne:
            if isinstance(a, interp.E) and a is not e and inside(a, e):
                v = replace(a, e, ZERO)
                if v.k == 'c' and (v.a[0] == b if not isinstance(b, interp.E) else v is b):
                    return True
        return False

    def loose(self, eng):
        """is the result something else than whether it succeeded"""
        n = eng.fn.name
        r = self.outer.get(n)
        if r is None:
            r = self.outer[n] = eng.fn.rty == 'void' or n.startswith('main') or bool(guard.outside(self.ctx, n))
        return r

    def demand_ret(self, st, i, val, eng):
        fn = eng.fn
        if fn.name not in self.relevant:
            return
        if val is None or self.loose(eng):
            for f, s2, e in self.failing(st, eng, ('failed',)):
                if 'reported-before' in eng.rule.facts(s2):
                    continue
                yield 'noticed', '%s may have failed' % f.split('@', 1)[1]
            yield None, ''
            return
        for f, s2, e in self.failing(st, eng, ('failed', 'logged')):
            kind, w = f.split('@', 1)
            v = replace(val, e, ZERO) if e is not None else val
            if kind == 'failed' and 'reported-before' in eng.rule.facts(s2):
                kind = 'logged'
            if s2.range(v)[0] > 0 or s2.nonnull(v) and s2.range(v)[1] >= 0:
                if kind == 'failed':
                    yield 'noticed', '%s may have failed and success is returned' % w
                elif self.purpose(fn):
                    yield 'success', 'success is returned although %s may have failed' % w
                continue
            if kind == 'logged' and not self.purpose(fn):
                continue
            if s2.range(v)[1] < 0:
                eng.rule.may.add((kind, 'lt0'))
            else:
                eng.rule.may.add((kind, 'z'))
        yield None, ''

    def demand_call(self, st, i, names, args, eng):
        n = names[0].split('#')[0] if len(names) == 1 else None
        if eng.fn.name not in self.relevant:
            return
        if n in SAY:
            for a in args:
                s = cstr(self.prog, a)
                if s is not None and any(x in s.lower() for x in SUCCESS) and not any(
                        x in s.lower() for x in ('unable', 'not ', "n't", 'fail', 'error')):
                    self.messages = getattr(self, 'messages', 0) + 1
                    yield None, ''
                    for f, s2, e in self.failing(st, eng, ('unsure',)):
                        yield 'message', '"%s" is said although %s may have failed' % (s, f.split('@', 1)[1])

    def forwriting(self, st, a, eng):
        if a.k == 'ld' and a.a[0].k == 'fld' and a.a[0].a[1] == 'linestack_context':
            return True
        return a in getattr(eng.rule, 'files', ())


def silent(ctx, spec, summ, rep):
    """results of writes that nothing looks at"""
    prog = ctx.prog
    for n, f in sorted(prog.funcs.items()):
        if n not in spec.relevant:
            continue
        uses = {}
        for i in f.insts():
            vals = list(i.ops)
            if i.op == 'phi':
                vals = [v for v, _ in i.x] if i.x and isinstance(i.x[0], tuple) else vals
            for o in vals:
                if isinstance(o, tuple) and o and o[0] == '%':
                    uses.setdefault(o[1], []).append(i)
        for i in f.insts():
            if i.op != 'call' or i.x[0] != '@':
                continue
            c = i.x[1]
            ext = c in WRITE and c not in prog.funcs and spec.disk(f) and not spec.console(i)
            kinds = {k for k, _ in summ[c].may} if c in summ else set()
            if not ext and not kinds:
                continue
            if not ext and 'failed' not in kinds and (f.rty == 'void' or not spec.purpose(f)):
                rep.count('failures_already_reported')
                continue
            rep.obligations += 1
            rep.count('results_of_writes_looked_at')
            seen, todo, ok = set(), [i.res] if i.res is not None else [], False
            arith = False
            while todo and not ok:
                r = todo.pop()
                if r in seen:
                    continue
                seen.add(r)
                for u in uses.get(r, ()):
                    if u.op in ('br', 'switch', 'ret', 'store', 'call'):
                        ok = True
                    elif u.res is not None:
                        todo.append(u.res)
            if not ok and errortested(i, f, uses):
                ok = True
            if ok:
                rep.discharged += 1
            else:
                rep.find('ignored|%s|%s' % (n.split('#')[0], c.split('#')[0]), prog.where(i),
                         'whether %s succeeded is not looked at in %s' % (c.split('#')[0], n.split('#')[0]))
            if c == 'write' and ext:
                if shortchecked(i, uses, f):
                    rep.discharged += 1
                else:
                    rep.find('short|%s' % n.split('#')[0], prog.where(i), 'whether write wrote everything is not looked at in %s' % n.split('#')[0])
                rep.obligations += 1


def errortested(i, f, uses):
    """the error it sets is looked at instead"""
    if not i.ops or i.ops[-1][0] != '%':
        return False
    a = i.ops[-1][1]
    return any(u.op == 'load' and any(x.op == 'icmp' for x in uses.get(u.res, ())) for u in uses.get(a, ()))


def shortchecked(i, uses, f):
    """the number of bytes is compared with, or added to, something that is not constant"""
    seen, todo = set(), [i.res]
    while todo:
        r = todo.pop()
        if r in seen or r is None:
            continue
        seen.add(r)
        for u in uses.get(r, ()):
            if u.op == 'icmp':
                if not any(o[0] == 'c' for o in u.ops):
                    return True
            elif u.op in ('bin',):
                if not any(o[0] == 'c' for o in u.ops):
                    return True
                todo.append(u.res)
            elif u.op == 'ret':
                return True
            elif u.res is not None and u.op in ('cast', 'phi', 'select', 'sext', 'zext', 'trunc'):
                todo.append(u.res)
    return False


def run(ctx):
    spec = Written(ctx)
    rep = Report('every result of a call that writes to a file, and of every function that hands such a result on, is looked at; on every path on which it failed '
                 'the failure is reported or the function returns a failure; no function that stores data returns success and no message of '
                 'success is given on a path on which a write may have failed; files written through a buffer are flushed, and that tested, before they are closed')
    summ, last, hist = guard.analyse(ctx, spec)
    guard.report(ctx, rep, spec, summ, last, hist)
    silent(ctx, spec, summ, rep)
    may = {n: s.may for n, s in summ.items() if s.may}
    rep.count('functions_that_write_to_files', len(spec.seeds))
    rep.count('functions_that_hand_failures_on', len(may))
    rep.floor('functions_that_write_to_files', 8)
    rep.floor('functions_that_hand_failures_on', 8)
    rep.floor('results_of_writes_looked_at', 20)
    rep.samples = ['%s may return a failure: %s' % (n.split('#')[0], ', '.join(sorted('%s %s' % x for x in m))) for n, m in sorted(may.items())][:14]
    return rep
