"""Format strings are fixed by the program, agree with their arguments, and
sentinel-terminated argument lists are terminated."""
import re
from core import Report, AnalysisError

# library functions: index of the format argument (the arguments follow it)
FMT = {'printf': 0, 'fprintf': 1, 'sprintf': 1, 'snprintf': 2, 'asprintf': 1, 'dprintf': 1, 'syslog': 1, 'err': 1, 'errx': 1, 'warn': 0,
       'warnx': 0, 'g_strdup_printf': 0, 'g_string_printf': 1, 'g_string_append_printf': 1, 'g_log': 2, 'g_set_error': 3,
       'g_error_new': 2, 'g_print': 0, 'g_printerr': 0, 'g_snprintf': 2, 'g_fprintf': 1, 'g_printf': 0, 'g_prefix_error': 1,
       'g_sprintf': 1, 'g_assertion_message': None, 'g_message': 0, 'g_warning': 0, 'setproctitle': 0,
       'g_markup_printf_escaped': 0, 'g_propagate_prefixed_error': 2}
VFMT = {'vprintf': 0, 'vfprintf': 1, 'vsprintf': 1, 'vsnprintf': 2, 'vasprintf': 1, 'g_strdup_vprintf': 0, 'g_string_vprintf': 1,
        'g_string_append_vprintf': 1, 'g_logv': 2, 'g_vsnprintf': 2, 'vsyslog': 1, 'vdprintf': 1, 'g_vfprintf': 1, 'g_vprintf': 0,
        'g_error_new_valist': 2}
SCANF = {'sscanf': 1, 'fscanf': 1, 'scanf': 0}

SPEC = re.compile(r'%(?:(\d+)\$)?[-+ #0\']*(\*|\d+)?(?:\.(\*|\d+)?)?(hh|h|ll|l|q|j|z|t|L)?([diouxXeEfFgGaAcspnm%C])')


def conv(fmt):
    """expected IR types of the variadic arguments of a format; None when not understood"""
    out = []
    pos = 0
    while True:
        k = fmt.find('%', pos)
        if k < 0:
            return out
        m = SPEC.match(fmt, k)
        if not m:
            return None
        pos = m.end()
        n, w, p, ln, c = m.groups()
        if w == '*':
            out.append('i32')
        if p == '*':
            out.append('i32')
        if c in '%m':
            continue
        if c in 'spn':
            out.append('ptr')
        elif c in 'eEfFgGaA':
            out.append('double')
        elif ln in ('l', 'll', 'q', 'j', 'z', 't') and c != 'c':
            out.append('i64')
        else:
            out.append('i32')


class FormatRule:
    def __init__(self, ctx):
        self.ctx = ctx
        self.prog, self.g = ctx.prog, ctx.g
        self.rep = Report('every call of a printf-like function (library ones by table, project ones found by following the format '
                          'parameter into the v*printf family) takes a format that is a string constant on every path; the constant\'s '
                          'conversions agree in number and type with the arguments; every call of a project function that reads its '
                          'variadic arguments up to a NULL ends with NULL')
        self.fparam = {}      # project function -> format param index, variadic or va_list
        self.find_formats()

    # which parameters of project functions are formats
    def find_formats(self):
        ch = True
        while ch:
            ch = False
            for n, f in self.prog.funcs.items():
                for i in f.insts():
                    if i.op != 'call':
                        continue
                    for t in self.g.targets(n, i):
                        k = VFMT.get(t)
                        isv = True
                        if k is None and t in self.fparam:
                            k, isv = self.fparam[t]
                            isv = not self.prog.funcs[t].va
                        elif k is None:
                            k = FMT.get(t)
                            isv = False
                        if k is None or k >= len(i.ops):
                            continue
                        for p in self.params(n, i.ops[k]):
                            # a format parameter is one used as a format without own conversions processing
                            if n not in self.fparam:
                                self.fparam[n] = (p, f.va)
                                ch = True

    def params(self, n, v, seen=None):
        """indexes of parameters of n the value may be"""
        seen = seen if seen is not None else set()
        f = self.prog.funcs[n]
        if v[0] != '%' or v[1] in seen:
            return set()
        seen.add(v[1])
        if v[1] in f.params:
            return {f.params.index(v[1])}
        d = self.g.defs[n].get(v[1])
        out = set()
        if d is not None and d.op == 'phi':
            for x, _ in d.x:
                out |= self.params(n, x, seen)
        elif d is not None and d.op in ('select',):
            for x in d.ops[1:]:
                out |= self.params(n, x, seen)
        return out

    def consts(self, n, v, seen=None):
        """(set of constant strings, ok) for a value; parameters count as ok (checked at the callers)"""
        seen = seen if seen is not None else set()
        if v == ('c', 0):
            return set(), True
        s = self.prog.cstring(v)
        if s is not None:
            return {s}, True
        if v[0] != '%':
            return set(), False
        if v[1] in seen:
            return set(), True
        seen.add(v[1])
        f = self.prog.funcs[n]
        if v[1] in f.params:
            k = f.params.index(v[1])
            if n in self.fparam and self.fparam[n][0] == k:
                return set(), True
            if f.internal and n not in self.g.addr_taken:
                ss, ok = set(), True
                for cn, ci in self.g.direct_calls.get(n, ()):
                    a, o = self.consts(cn, ci.ops[k], seen) if k < len(ci.ops) else (set(), False)
                    ss |= a
                    ok = ok and o
                return ss, ok
            return set(), False
        d = self.g.defs[n].get(v[1])
        if d is None:
            return set(), False
        if d.op == 'phi':
            ss, ok = set(), True
            for x, _ in d.x:
                a, o = self.consts(n, x, seen)
                ss |= a
                ok = ok and o
            return ss, ok
        if d.op == 'select':
            a, o = self.consts(n, d.ops[1], seen)
            b, q = self.consts(n, d.ops[2], seen)
            return a | b, o and q
        if d.op == 'load':
            return self.table(d.ops[0], n)
        if d.op == 'call' and d.x[0] == '@':
            t = d.x[1]
            if t in ('gettext', 'dcgettext', 'g_dgettext', 'dgettext', 'ngettext', '_'):
                return self.consts(n, d.ops[0 if t in ('gettext', '_') else 1], seen)
            if t in self.prog.funcs:
                ss, ok = set(), True
                for j in self.prog.funcs[t].insts():
                    if j.op == 'ret' and j.ops:
                        a, o = self.consts(t, j.ops[0], seen)
                        ss |= a
                        ok = ok and o
                return ss, ok
        return set(), False

    def table(self, a, n):
        """load from a constant table of strings"""
        base = a
        d = self.g.defs[n].get(a[1]) if a[0] == '%' else None
        if d is not None and d.op == 'gep':
            base = d.ops[0]
        elif a[0] == 'gep':
            base = a[2]
        if base[0] == '@':
            g = self.prog.globals.get(base[1])
            if g is not None and g.const and g.init is not None:
                ss = set()
                self.strings(g.init, ss)
                return ss, True
        return set(), False

    def strings(self, v, out):
        if v[0] == 'agg':
            for _, x in v[1]:
                self.strings(x, out)
        else:
            s = self.prog.cstring(v)
            if s is not None:
                out.add(s)

    # functions reading their variadic arguments until NULL
    def sentinels(self):
        out = {}
        for n, f in self.prog.funcs.items():
            if f.va and n not in self.fparam:
                out[n] = len(f.params)
        return out

    def run(self):
        rep = self.rep
        sent = self.sentinels()
        rep.count('project_format_functions', len(self.fparam))
        rep.count('project_sentinel_functions', len(sent))
        for n, f in self.prog.funcs.items():
            for i in f.insts():
                if i.op != 'call':
                    continue
                for t in self.g.targets(n, i):
                    if t in SCANF:
                        self.one(n, i, t, SCANF[t], False, False)
                        continue
                    if t in VFMT:
                        self.one(n, i, t, VFMT[t], True, False)
                    elif t in FMT and FMT[t] is not None:
                        self.one(n, i, t, FMT[t], False, True)
                    elif t in self.fparam:
                        k, _ = self.fparam[t]
                        self.one(n, i, t, k, not self.prog.funcs[t].va, self.prog.funcs[t].va)
                    elif t in sent and i.x[0] == '@':
                        rep.count('sentinel_calls')
                        nf = sent[t]
                        ok = len(i.ops) > nf and i.ops[-1] == ('c', 0) and i.tys[-1] == 'ptr'
                        rep.ob(ok, 'sentinel|%s|%s' % (f.base, t.split('#')[0]), self.ctx.where(i),
                               'argument list of %s does not end in NULL' % t.split('#')[0])
        self.typed()
        rep.floor('format_calls', 350)
        rep.floor('sentinel_calls', 20)
        return rep

    def one(self, n, i, t, k, isv, check):
        rep = self.rep
        f = self.prog.funcs[n]
        if k >= len(i.ops):
            return
        rep.count('format_calls')
        ss, ok = self.consts(n, i.ops[k])
        nm = t.split('#')[0]
        if self.params(n, i.ops[k]) and n in self.fparam:
            pass
        if not rep.ob(ok, 'format|%s|%s' % (f.base, nm), self.ctx.where(i),
                      'format passed to %s is not a string constant on every path' % nm,
                      sample='%s: %s(%r)' % (self.ctx.where(i), nm, sorted(ss)[:1])):
            return
        if not check or isv:
            return
        for s in sorted(ss):
            exp = conv(s)
            act = list(i.tys[k + 1:])
            if exp is None:
                rep.ob(False, 'conv|%s|%s|%s' % (f.base, nm, s[:40]), self.ctx.where(i), 'format %r has an unknown conversion' % s)
                continue
            # small integers are promoted; enums are i32
            good = len(act) >= len(exp) and all(self.compat(e, a) for e, a in zip(exp, act)) and len(act) == len(exp)
            rep.ob(good, 'conv|%s|%s|%s' % (f.base, nm, s[:40]), self.ctx.where(i),
                   'format %r expects %s but is given %s' % (s, exp, act))

    def compat(self, e, a):
        return e == a

    def typed(self):
        """source-level types of the arguments: clang's own format check, with the
        format attribute added to every project format function found above"""
        import os, re, subprocess, tempfile, shutil
        from concurrent.futures import ThreadPoolExecutor
        import build
        heads = {}
        for d in ('libirc', 'src', 'daemon'):
            for h in sorted(os.listdir(os.path.join(build.REPO, d))):
                if h.endswith('.h'):
                    heads[d + '/' + h] = open(os.path.join(build.REPO, d, h), encoding='latin1').read()
        inc, decl = [], []
        for n, (k, va) in sorted(self.fparam.items()):
            f = self.prog.funcs[n]
            if f.internal or not f.va:
                continue
            for h, txt in heads.items():
                if re.search(r'\b%s\s*\(' % re.escape(f.base), txt):
                    if h not in inc:
                        inc.append(h)
                    decl.append('extern __typeof__(%s) %s __attribute__((format(printf,%d,%d)));' % (f.base, f.base, k + 1, len(f.params) + 1))
                    break
        tmp = tempfile.mkdtemp(prefix='ctrlproxy-fmt-')
        try:
            hp = os.path.join(tmp, 'fmt.h')
            open(hp, 'w').write('#include "internals.h"\n' + ''.join('#include "%s"\n' % h for h in inc) + '\n'.join(decl) + '\n')
            cfg = [] if os.path.exists(os.path.join(build.REPO, 'config.h')) else ['-I', os.path.join(build.HERE, 'fallback')]

            def one(s):
                def go(extra):
                    return subprocess.run([build.tool('clang'), '-fsyntax-only', '-std=gnu89', '-Wno-everything', '-Wformat',
                                           '-Wformat-extra-args', '-Wformat-security', '-I.', '-Ilibirc', '-Isrc'] + cfg + build.INC + build.DEFS + extra + [s],
                                          cwd=build.REPO, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                r = go(['-include', hp])
                if r.returncode != 0:
                    r = go([])
                    return s, False, r.stdout.decode('latin1')
                return s, True, r.stdout.decode('latin1')
            with ThreadPoolExecutor(8) as ex:
                res = list(ex.map(one, build.sources()))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        for s, full, out in res:
            self.rep.count('units_type_checked' if full else 'units_type_checked_without_added_attributes')
            for m in re.finditer(r'^(\S+?):(\d+):\d+: warning: (.*) \[(-Wformat\S*)\]$', out, re.M):
                self.rep.find('type|%s|%s' % (m.group(1), m.group(3)), '%s:%s' % (m.group(1), m.group(2)), m.group(3))
        self.rep.count('format_attributes_added', len(decl))


def run(ctx):
    return FormatRule(ctx).run()
