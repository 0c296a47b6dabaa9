"""Compile /repo's current working tree to LLVM IR and load it.

Nothing is executed: clang -> bitcode, llvm-link, and a fixed set of
normalising passes (sroa, always-inline of internal functions).  UB-exploiting
passes are not run and null checks are kept (-fno-delete-null-pointer-checks),
so the IR still contains every check the source contains.
"""
import os
import re
import subprocess
import tempfile
import shutil
from concurrent.futures import ThreadPoolExecutor

import ir

REPO = os.environ.get('SA_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))


class AnalysisError(Exception):
    pass


INC = ['-I/usr/include/glib-2.0', '-I/usr/lib/x86_64-linux-gnu/glib-2.0/include',
       '-isystem', '/usr/include/mit-krb5', '-I/usr/include/p11-kit-1']
DEFS = ['-DHAVE_CONFIG_H', '-DDEFAULT_CONFIG_DIR="/usr/local/etc/ctrlproxy"',
        '-DHELPFILE="/usr/local/share/ctrlproxy/help"', '-DMODULESDIR="/usr/local/lib/ctrlproxy"',
        '-DSTRICT_MEMORY_ALLOCS=', '-DSYSCONFDIR="/usr/local/etc"',
        '-DDEFAULT_CONFIG_FILE="/usr/local/etc/ctrlproxyd.conf"',
        '-DSSL_CREDENTIALS_DIR="/usr/local/etc/ssl"', '-DPIDFILE="/usr/local/var/run/ctrlproxyd.pid"']
FLAGS = ['-O1', '-Xclang', '-disable-llvm-passes', '-fno-builtin', '-fno-delete-null-pointer-checks',
         '-fno-strict-aliasing', '-fwrapv', '-g', '-std=gnu89', '-w', '-emit-llvm', '-c',
         '-fno-discard-value-names']

SKIP = {'src/gen_config.c'}      # build-time helper, not linked into either program


def tool(n):
    for c in (n, n + '-18', '/usr/lib/llvm-18/bin/' + n):
        if shutil.which(c):
            return c
    raise AnalysisError('tool %s not found' % n)


def sources():
    out = []
    for d in ('libirc', 'src', 'daemon'):
        p = os.path.join(REPO, d)
        for f in sorted(os.listdir(p)):
            if f.endswith('.c') and d + '/' + f not in SKIP:
                out.append(d + '/' + f)
    return out


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if r.returncode != 0:
        raise AnalysisError('%s failed: %s' % (cmd[0], r.stderr.decode('latin1')[:2000]))
    return r


class Build:
    """one compiled program; views with different inlining are produced on demand"""

    def __init__(self):
        self.tmp = tempfile.mkdtemp(prefix='ctrlproxy-sa-')
        self.views = {}
        try:
            self.compile()
        except BaseException:
            self.close()
            raise

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def compile(self):
        cc = tool('clang')
        cfg = []
        if not os.path.exists(os.path.join(REPO, 'config.h')):
            cfg = ['-I', os.path.join(HERE, 'fallback')]
        srcs = sources()
        if len(srcs) < 40:
            raise AnalysisError('only %d translation units found under %s' % (len(srcs), REPO))

        def one(s):
            n = re.sub(r'\W', '_', s)
            o = os.path.join(self.tmp, n + '.bc')
            l = os.path.join(self.tmp, n + '.ll')
            extra = ['-Dmain=main_' + n]
            if s.startswith('daemon/'):
                extra.append('-Dregister_hup_handler=register_hup_handler_daemon')
            run([cc] + FLAGS + extra + ['-I.', '-Ilibirc', '-Isrc'] + cfg + INC + DEFS + [s, '-o', o], cwd=REPO)
            run([tool('opt'), '-S', '-passes=sroa', o, '-o', l])
            return l
        with ThreadPoolExecutor(8) as ex:
            lls = list(ex.map(one, srcs))
        self.units = srcs
        mods = []
        for s, l in zip(srcs, lls):
            mods.append(ir.parse(open(l, encoding='latin1').read(), s))
        self.prog = ir.Program(mods)
        DebugTypes(self.prog)
        self.close()

    def view(self, inline=(), keep=(), should=None):
        """IR in which calls of internal functions (and of exported functions
        that do not exist in the confirmed tree, i.e. newly extracted helpers)
        are inlined, plus the exported functions named in `inline`."""
        inline, keep = set(inline), set(keep)
        base = BASE_EXPORTS()

        def dflt(f):
            if f.base in keep:
                return False
            return f.internal or f.base in inline or f.base not in base
        v = ir.View(self.prog, should or dflt)
        return v


_be = None


def BASE_EXPORTS():
    """exported functions of the confirmed tree: these stay as interfaces; any
    other (newly extracted) exported function is inlined like a static one"""
    global _be
    if _be is None:
        p = os.path.join(HERE, 'exports.txt')
        _be = set(open(p).read().split()) if os.path.exists(p) else set()
    return _be


# ---------------------------------------------------------------- debug types

PRIM = {'i1': 1, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'ptr': 8, 'double': 8, 'float': 4, 'i128': 16}


class DebugTypes:
    """maps (IR struct type, field index) -> source level field name"""

    def __init__(self, prog):
        self.prog = prog
        prog.dt = self
        self.gstruct = {}
        self.fields = {}      # struct name -> list of field names
        self.ftypes = {}      # struct name -> list of (module, DI type ref)
        self.canon = {}       # anonymous struct name -> name of its place in the parent
        for mod in prog.mods:
            self.mod = mod
            self.seen = set()
            comps = {}
            tds = {}
            for k, raw in mod.md.items():
                if 'DICompositeType(' in raw and ('DW_TAG_structure_type' in raw or 'DW_TAG_union_type' in raw) and 'name: "' in raw and 'elements:' in raw:
                    d = mod.mdget(k)
                    comps.setdefault(d.get('name'), k)
                elif 'DIDerivedType(tag: DW_TAG_typedef' in raw:
                    d = mod.mdget(k)
                    tds.setdefault(d.get('name'), k)
            for k in tds:
                comps.setdefault(k, tds[k])
            for g in mod.globals.values():
                if g.dbg and g.ty:
                    gv = mod.mdget(g.dbg[1])
                    var = mod.mdget(gv.get('var', ''))
                    self.match(g.ty, var.get('type'))
                    self.gtype(g, var.get('type'))
            for name in list(mod.types):
                m = re.match(r'^(struct|union)\.(.*?)(\.\d+)?$', name)
                if m and m.group(2) in comps:
                    self.match(('st', name), comps[m.group(2)])

    def gtype(self, g, ref):
        """declared element structure of a global (its initialiser may have a literal type)"""
        ref = self.strip(ref)
        d = self.mod.mdget(ref) if ref else {}
        while d.get('tag') == 'DW_TAG_array_type':
            ref = self.strip(d.get('baseType'))
            d = self.mod.mdget(ref) if ref else {}
        n = 'struct.' + (d.get('name') or '')
        if d.get('_kind') == 'DICompositeType' and n in self.prog.types:
            self.gstruct[g.name] = n

    def rowtype(self, gname, ty):
        """structure type of a row of a global table"""
        if isinstance(ty, tuple) and ty[0] == 'lit' and gname in self.gstruct:
            b = self.prog.types.get(self.gstruct[gname])
            if b and len(b) == len(ty[1]):
                return ('st', self.gstruct[gname])
        return ty

    def size(self, t):
        if isinstance(t, str):
            return PRIM.get(t, 8)
        if t[0] == 'arr':
            return t[1] * self.size(t[2])
        if t[0] == 'st':
            b = self.prog.types.get(t[1])
            if b is None:
                return 0
            return self.layout(b)[1]
        if t[0] == 'lit':
            return self.layout(t[1])[1]
        return 8

    def align(self, t):
        if isinstance(t, str):
            return PRIM.get(t, 8)
        if t[0] == 'arr':
            return self.align(t[2])
        if t[0] == 'st':
            b = self.prog.types.get(t[1]) or ()
            return max([self.align(x) for x in b] or [1])
        if t[0] == 'lit':
            return max([self.align(x) for x in t[1]] or [1])
        return 8

    def layout(self, body):
        off, offs, al = 0, [], 1
        for t in body:
            a = self.align(t)
            al = max(al, a)
            off = (off + a - 1) // a * a
            offs.append(off)
            off += self.size(t)
        return offs, (off + al - 1) // al * al

    def strip(self, ref):
        while ref:
            d = self.mod.mdget(ref)
            if d.get('_kind') == 'DIDerivedType' and d.get('tag') in ('DW_TAG_typedef', 'DW_TAG_const_type', 'DW_TAG_volatile_type'):
                ref = d.get('baseType')
            else:
                return ref
        return None

    def match(self, t, ref, place=None):
        ref = self.strip(ref)
        if not ref or isinstance(t, str):
            return
        d = self.mod.mdget(ref)
        if t[0] == 'arr':
            if d.get('tag') == 'DW_TAG_array_type':
                self.match(t[2], d.get('baseType'), place)
            return
        if t[0] == 'st' and d.get('_kind') == 'DICompositeType':
            if place and '#' in t[1]:
                self.canon.setdefault(t[1], self.canon.get(place.split('.')[0], place))
            self.assign(t[1], ref)

    def assign(self, name, ref):
        if name in self.seen:
            return
        self.seen.add(name)
        body = self.prog.types.get(name)
        if body is None or not isinstance(body, tuple):
            return
        d = self.mod.mdget(ref)
        el = self.mod.mdget(d.get('elements', '')).get('_list', [])
        if d.get('tag') == 'DW_TAG_union_type':
            self.fields[name] = ['u'] * len(body)
            self.ftypes[name] = [None] * len(body)
            for e in el:
                md = self.mod.mdget(e)
                cand = [t for t in self.anon_of(self.mod.tu) if self.fits(t, md.get('baseType'))]
                for t in cand:
                    self.match(t, md.get('baseType'), name + '.' + md.get('name', ''))
            return
        offs, _ = self.layout(body)
        byoff = {}
        for e in el:
            md = self.mod.mdget(e)
            if md.get('tag') == 'DW_TAG_member' and md.get('name'):
                byoff.setdefault(int(md.get('offset', 0)) // 8, (md['name'], md.get('baseType')))
            elif md.get('tag') == 'DW_TAG_member':
                byoff.setdefault(int(md.get('offset', 0)) // 8, ('', md.get('baseType')))
        names, types = [], []
        for t, o in zip(body, offs):
            nm, bt = byoff.get(o, ('#%d' % o, None))
            names.append(nm)
            types.append(bt)
        self.fields[name] = names
        self.ftypes[name] = [(self.mod, t) if t else None for t in types]
        for t, bt, nm in zip(body, types, names):
            if bt:
                self.match(t, bt, name + '.' + nm)

    def disize(self, ref):
        ref = self.strip(ref)
        d = self.mod.mdget(ref) if ref else {}
        try:
            return int(d.get('size', 0)) // 8
        except (TypeError, ValueError):
            return 0

    def anon_of(self, tu):
        return [('st', n) for n in self.prog.types if n.endswith('#' + tu) and n not in self.seen and self.prog.types[n]]

    def fits(self, t, ref):
        """is the anonymous IR struct t laid out like DI type ref (union members)"""
        ref = self.strip(ref)
        d = self.mod.mdget(ref) if ref else {}
        if d.get('_kind') != 'DICompositeType' or d.get('tag') != 'DW_TAG_structure_type' or d.get('name'):
            return False
        el = self.mod.mdget(d.get('elements', '')).get('_list', [])
        offs, size = self.layout(self.prog.types[t[1]])
        mo = [int(self.mod.mdget(e).get('offset', 0)) // 8 for e in el]
        ms = [self.disize(self.mod.mdget(e).get('baseType')) for e in el]
        if any(a and a != self.size(b) for a, b in zip(ms, self.prog.types[t[1]])):
            return False
        return mo == offs and size == int(d.get('size', 0)) // 8

    def cname(self, st):
        """name of a struct type that is the same in every unit"""
        if '#' in st:
            f = self.fields.get(st)
            return 'anon:' + ','.join(f) if f else st
        return st[7:] if st.startswith('struct.') else st

    def fname(self, st, idx):
        f = self.fields.get(st)
        if f and idx < len(f):
            return f[idx]
        return '#%d' % idx

    def is_char_array(self, t):
        return t[0] == 'arr' and t[2] == 'i8'
