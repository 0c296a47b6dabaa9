"""Where the text of file names comes from.

Forward, path-sensitive: every string value carries the set of places its text
may come from (tokens).  A value is harmless when its text is fixed by the
program or the configuration, or when every '/' in it has been replaced (or it
was tested to have none) and it does not start with '.'.  A file name made from
a parameter is a demand on all callers; integer arguments that are constant are
followed into the callee.

tokens: ('p', k)  parameter k of the function
        ('f', struct, member)  a member whose stores are looked at, too
        ('gv', name)  a variable, likewise
        ('call', function, context, (tokens of each argument...))
        ('bad', text)
"""
import interp
from interp import mk, ZERO, const

NONE = frozenset()
SLASH, DOT = 47, 46

# result made of the text of these arguments ('*': all pointers)
MADE = {'g_strdup': (0,), 'strdup': (0,), 'g_strndup': (0,), 'strndup': (0,), 'g_strconcat': '*', 'g_build_filename': '*', 'g_build_path': '*',
        'g_strdup_printf': '*', 'g_strjoin': '*', 'g_path_get_dirname': (0,), 'g_ascii_strdown': (0,), 'g_ascii_strup': (0,),
        'g_utf8_strdown': (0,), 'g_utf8_strup': (0,), 'g_strsplit': (0,), 'g_strsplit_set': (0,), 'g_strstrip': (0,), 'g_strchug': (0,), 'g_strchomp': (0,),
        'g_string_new': (0,), 'g_string_new_len': (0,), 'g_string_free': (0,), 'strchr': (0,), 'strrchr': (0,), 'strstr': (0,),
        'g_filename_from_utf8': (0,), 'g_locale_from_utf8': (0,), 'g_strescape': (0,), 'g_strreverse': (0,), 'g_strdelimit': (0,), 'g_strcanon': (0,),
        'realpath': (0,), 'g_strjoinv': '*', 'g_convert': (0,), 'dirname': (0,), 'g_strdup_vprintf': '*', 'g_strcompress': (0,), 'g_canonicalize_filename': '*',
        'g_uri_unescape_string': (0,), 'g_uri_escape_string': (0,), 'g_get_current_dir': (), 'strcpy': '*', 'strcat': '*', 'strncpy': '*', 'strncat': '*',
        'stpcpy': '*', 'strtok': (0,), 'g_string_append': '*', 'g_string_prepend': '*', 'g_string_append_len': '*', 'g_path_get_basename': (0,), 'basename': (0,), 'g_module_build_path': '*', 'g_get_prgname': ()}
# of these, the ones that leave something out (True) or change it (False)
PARTS = {'strchr': True, 'strrchr': True, 'strstr': True, 'strtok': True, 'g_strsplit': True, 'g_strsplit_set': True, 'g_strstrip': True, 'g_strchug': True,
         'g_strreverse': True, 'g_strcanon': False, 'g_strcompress': False, 'g_uri_unescape_string': False, 'g_path_get_basename': True, 'basename': True,
         'g_path_get_dirname': True, 'dirname': True}
# written into the first argument
INTO = {'strcpy', 'strcat', 'strncpy', 'strncat', 'snprintf', 'sprintf', 'g_snprintf', 'g_strlcpy', 'g_strlcat', 'stpcpy', 'g_string_append', 'strlcpy', 'strlcat',
        'g_string_append_printf', 'g_string_printf', 'g_string_prepend', 'g_string_append_len', 'g_string_assign', 'g_string_insert', 'memcpy', 'memmove',
        'g_stpcpy', 'g_string_append_c', 'vsnprintf', 'g_vsnprintf', 'llvm.memcpy.p0.p0.i64', 'llvm.memmove.p0.p0.i64'}
# text that does not come from peers
TRUSTED = {'g_get_home_dir', 'getenv', 'g_getenv', 'g_get_user_name', 'g_get_tmp_dir', 'g_dir_read_name', 'g_key_file_get_string', 'g_get_prgname',
           'g_key_file_get_value', 'g_key_file_get_locale_string', 'g_get_user_config_dir', 'g_get_current_dir', 'strerror', 'g_key_file_get_string_list',
           'g_key_file_get_groups', 'g_key_file_get_keys', 'get_current_dir_name', 'ttyname', 'getlogin', 'dlerror', 'g_module_error',
           'g_get_host_name', 'inet_ntoa', 'g_date_time_format', 'ctime', 'asctime', 'nl_langinfo', 'setlocale'}
KEEP = {'strlen', 'strcmp', 'strcasecmp', 'strncmp', 'g_free', 'free', 'g_strfreev', 'g_str_equal', 'g_strcasecmp', 'g_str_has_prefix', 'g_str_has_suffix'}

# the file system: arguments that name a file
SINKS = {'fopen': (0,), 'g_fopen': (0,), 'fopen64': (0,), 'open': (0,), 'open64': (0,), 'g_open': (0,), 'creat': (0,), 'g_creat': (0,), 'mkdir': (0,), 'g_mkdir': (0,),
         'g_mkdir_with_parents': (0,), 'unlink': (0,), 'g_unlink': (0,), 'remove': (0,), 'g_remove': (0,), 'rmdir': (0,), 'g_rmdir': (0,),
         'rename': (0, 1), 'g_rename': (0, 1), 'link': (0, 1), 'symlink': (0, 1), 'truncate': (0,), 'chmod': (0,), 'g_chmod': (0,), 'chown': (0,),
         'g_io_channel_new_file': (0,), 'g_file_set_contents': (0,), 'g_file_get_contents': (0,), 'g_key_file_save_to_file': (1,),
         'g_key_file_load_from_file': (1,), 'opendir': (0,), 'g_dir_open': (0,), 'g_module_open': (0,), 'freopen': (0,), 'mkfifo': (0,), 'chdir': (0,),
         'g_file_test': (0,), 'access': (0,), 'stat': (0,), 'lstat': (0,), 'dlopen': (0,), 'g_file_set_contents_full': (0,), 'execv': (0,), 'execl': (0,),
         'g_mapped_file_new': (0,), 'g_key_file_save_to_file#': (1,), 'gnutls_certificate_set_x509_key_file': (1, 2), 'gnutls_certificate_set_x509_trust_file': (1,)}


class Sum:
    __slots__ = ('needs', 'ret', 'cleans', 'bad', 'ob', 'sinks', 'busy', 'stores')

    def __init__(self):
        self.needs = {}         # parameter -> (where, what, trail)
        self.ret = NONE
        self.cleans = None
        self.bad = {}           # (what, source) -> (where, trail)
        self.ob = 0
        self.sinks = 0
        self.busy = True


def isptr(e):
    return e.k in ('ld', 's', 'p', 'al', 'fld', 'idx', 'g', 'call')


class NameRule(interp.Rule):
    maxstates = 10
    lossy = True
    weak = ('P', 'ns', 'nd', 'S', 'T', 'd1', 'd2')

    def __init__(self, an, fn, ctx, summ):
        self.an = an
        self.prog = an.prog
        self.ctx = ctx
        self.s = summ
        self.badloops = set()
        self.walks = {}
        self.bytes = set()

    # --------------------------------------------------------------- joining
    def join_ts(self, a, b, eng):
        out = {}
        for k in set(a) | set(b):
            if k[0] in ('P', 'DC'):
                out[k] = a.get(k, NONE) | b.get(k, NONE)
            elif k[0] in ('H',):
                out[k] = a.get(k, b.get(k))
            elif k in a and k in b and a[k] == b[k]:
                out[k] = a[k]
        return out

    def tskey(self, ts):
        return frozenset(k for k in ts if k[0] in ('ns', 'nd', 'H'))

    def same_ts(self, a, b):
        return self.tskey(a) == self.tskey(b)

    def split(self, a, b, eng):
        # the first character is often looked at in the first iteration only
        return self.small and {k for k in a if k[0] == 'nd' and k[1].k == 'p'} != {k for k in b if k[0] == 'nd' and k[1].k == 'p'}

    def covers_ts(self, a, b, eng):
        for k, v in b.items():
            if k[0] in ('P', 'DC'):
                if not v <= a.get(k, NONE) or k not in a:
                    return False
            elif k[0] == 'H' and k not in a:
                return False
        for k, v in a.items():
            if k[0] not in ('P', 'DC', 'H') and b.get(k) != v:
                return False
        return True

    def joined(self, n, a, b, ren, eng):
        for s, x, y in ren:
            if not (isptr(x) or x.k == 'c') or not (isptr(y) or y.k == 'c'):
                continue
            if x.k == 'c' and y.k == 'c':
                continue
            n.ts['P', s] = self.prov(a, x, eng) | self.prov(b, y, eng)
            for f in ('ns', 'nd'):
                if n.ts['P', s] and self.has(a, f, x) and self.has(b, f, y):
                    n.ts[f, s] = True
                else:
                    n.ts.pop((f, s), None)
            ta, tb = a.ts.get(('T', x)), b.ts.get(('T', y))
            if ta is not None and ta is tb:
                n.ts['T', s] = ta
            else:
                n.ts.pop(('T', s), None)
            # a value kept in memory has a new name now
            if s.k == 's' and isinstance(s.a[0], tuple) and isinstance(s.a[0][-1], int):
                for z, o in ((x, a), (y, b)):
                    h = o.ts.get(('H', z))
                    if h is not None:
                        n.ts.pop(('H', z), None)
                        n.ts['H', s] = h

    def has(self, st, f, e):
        if e.k == 'c' or st.isnull(e):
            return True
        if (f, e) in st.ts:
            return True
        if e.k in ('s', 'ld') and not self.prov(st, e, None):
            return True
        s = self.cstr(e)
        if s is not None:
            return '/' not in s if f == 'ns' else not s.startswith('.')
        if f == 'ns' and e.k == 'idx' and e.a[1] == 'i8':
            return self.has(st, f, e.a[0])
        return False

    def cstr(self, e):
        while e.k == 'idx' and e.a[2] is ZERO:
            e = e.a[0]
        if e.k != 'g':
            return None
        g = self.prog.globals.get(e.a[0])
        if g is None or g.init is None:
            return None
        if g.init[0] == 'zero' and g.const:
            return ''
        if g.init[0] != 'str':
            return None
        return bytes(c & 255 for c in g.init[1]).split(b'\0')[0].decode('latin1')

    # ------------------------------------------------------------ provenance
    def prov(self, st, e, eng, part=False):
        """where the text comes from; part: of a part of the text, so that facts about the whole don't count"""
        if e.k == 'c' or st.isnull(e):
            return NONE
        if not part and ('ns', e) in st.ts and ('nd', e) in st.ts:
            return NONE
        t = st.ts.get(('P', e))
        if t is not None:
            return t
        if e.k == 'p':
            return frozenset([('p', e.a[1])])
        if e.k == 'g':
            if self.cstr(e) is not None or e.a[0] in self.prog.funcs:
                return NONE
            return frozenset([('gv', e.a[0])])
        if e.k == 'call':
            if e.a[0] in MADE:
                return self.prov(st, e.a[1], eng, part or e.a[0] in PARTS)
            return NONE
        if e.k == 'idx':
            r = e
            while r.k == 'idx':
                r = r.a[0]
            if r.k in ('fld', 'al'):
                return self.place(st, r, eng)
            if e.a[1] == 'i8' and e.a[2] is not ZERO:
                part = True
            return self.prov(st, r, eng, part)
        if e.k in ('fld', 'al'):
            return self.place(st, e, eng)
        if e.k == 'ld':
            a = e.a[0]
            if a.k == 'idx' and a.a[0].k == 'g':
                r = a.a[0]
                g = self.prog.globals.get(r.a[0])
                if g is not None and g.const:
                    return NONE
            return self.place(st, a, eng)
        if e.k in ('bin', 'icmp', 'cast'):
            return NONE
        return frozenset([('bad', 'text of unknown origin')])

    def place(self, st, a, eng):
        """what may be stored at an address"""
        t = st.ts.get(('P', a))
        if t is not None:
            return t
        if a.k == 'fld':
            s, m = a.a[1], a.a[2]
            if (s, m) == ('_GString', 'str'):
                return self.prov(st, a.a[0], eng)
            k = self.an.member(s, m)
            return NONE if k is None else frozenset([k])
        if a.k == 'g':
            return frozenset([('gv', a.a[0])])
        if a.k == 'al':
            if eng is not None and eng.fn.name.split('#')[0].startswith('main'):
                return NONE         # filled in by the option parser
            return st.ts.get(('DC', a), frozenset([('bad', 'a local variable')]) if ('DC', a) not in st.ts else NONE)
        if a.k == 'idx':
            b = a.a[0]
            while b.k == 'idx':
                b = b.a[0]
            if ('DC', b) in st.ts:
                return st.ts['DC', b]
            if b.k == 'fld':
                return self.place(st, b, eng)
            return self.prov(st, b, eng)
        return self.prov(st, a, eng)

    # ----------------------------------------------------------------- hooks
    def entry(self, st, fn, eng):
        self.fn = fn
        self.eng = eng
        self.small = len(fn.blocks) <= 40
        self.params = [st.env[p] for p in fn.params]
        for k, (p, c) in enumerate(zip(self.params, self.ctx)):
            if c == 'z':
                st.assume_cmp('eq', p, ZERO)
            elif c == 'nz':
                st.assume_cmp('ne', p, ZERO)
        self.findwalks(eng)

    def findwalks(self, eng):
        """loops that go through a string character by character"""
        defs = {i.res: i for i in self.fn.insts() if i.res is not None}
        for h in eng.headers:
            for i in h.insts:
                if i.op != 'phi':
                    break
                ins = [(v, l) for v, l in i.x]
                outer = [(v, l) for v, l in ins if not any(b.name == l and b in eng.loopof[h] for b in eng.loopof[h])]
                if len({v for v, l in outer}) == 1:
                    self.walks.setdefault(h, []).append((i, outer[0][0]))

    def enter(self, st, b, eng):
        if b not in eng.headers:
            return
        back = eng.frm is not None and eng.rpo[eng.frm] >= eng.rpo[b]
        if back:
            for k in [k for k in st.ts if k[0] == 'H']:
                base = st.ts.pop(k)
                self.dirty(st, base, self.prov(st, k[1], eng), eng)
        for phi, v0 in self.walks.get(b, ()):
            new = st.env.get(phi.res)
            if new is None:
                continue
            key = ('L', b.name, phi.res)
            if not back:
                st.ts = dict(st.ts)
                st.ts[key] = new
            elif (b, phi.res) not in self.badloops and not self.stepped(st, b, phi, new, eng):
                self.badloops.add((b, phi.res))

    def stepped(self, st, b, phi, new, eng):
        """has everything the walk has passed in this iteration been seen not to be a separator"""
        q = st.ts.get(('L', b.name, phi.res))
        if q is None:
            return False
        if q.k == 'c':
            # an index: new = old + 1
            if new.k == 'c':
                x = const(new.a[0] - 1)
            else:
                x, c = interp.lin(new)
                if c != 1 or x is None:
                    return False
            ok = [k[1] for k in st.ts if k[0] == 'at' and k[2] is x]
            if not ok:
                return False
            for base in ok:
                v = eng.read(st, base if x is ZERO else mk('idx', base, 'i8', x), 'i8', b.insts[0])
                if self.isnot(st, v, SLASH):
                    self.bases = getattr(self, 'bases', {})
                    self.bases.setdefault((b, phi.res), set()).add(base)
                    return True
            return False
        # a pointer
        old = None
        if new.k == 'idx' and new.a[1] == 'i8' and new.a[2] is const(1):
            old = new.a[0]
        elif new.k == 'idx' and new.a[1] == 'i8':
            x, c = interp.lin(new.a[2])
            if c >= 1:
                old = mk('idx', new.a[0], 'i8', interp.mkbin('add', new.a[2], const(-1), 64))
        if ('S', new) in st.ts:
            old = new
        if old is None:
            return False
        return self.isnot(st, eng.read(st, old, 'i8', b.insts[0]), SLASH)

    def isnot(self, st, v, c):
        if v.k == 'c':
            return v.a[0] != c
        return st.truth(interp.mkicmp('eq', v, const(c))) is False

    def dirty(self, st, base, toks, eng):
        if not toks:
            return
        st.ts['DC', base] = st.ts.get(('DC', base), NONE) | toks

    def root(self, a):
        while a.k in ('idx',):
            a = a.a[0]
        return a

    def loaded(self, st, i, a, v, eng):
        if i.ty == 'i8':
            self.bytes.add(v)
        if i.ty not in ('ptr', 'i8') and v.k in ('ld', 's'):
            st.ts = dict(st.ts)
            st.ts['P', v] = NONE

    def load(self, st, i, a, eng):
        if i.ty == 'i8' and a.k == 'idx' and a.a[1] == 'i8':
            x, c = interp.lin(a.a[2])
            if x is None:
                x = a.a[2]
            elif c:
                x = None
            if x is not None and (x.k != 'c' or self.small) and ('at', a.a[0], x) not in st.ts:
                st.ts = dict(st.ts)
                st.ts['at', a.a[0], x] = True
        elif i.ty == 'i8' and a.k == 'p' and self.small:
            st.ts = dict(st.ts)
            st.ts['at', a, ZERO] = True

    def store(self, st, i, a, v, eng):
        r = self.root(a)
        if i.ty == 'i8' or v.k != 'c' and i.ty not in ('ptr',):
            if i.ty != 'i8':
                return
            # a character
            st.ts = dict(st.ts)
            if not self.isnot(st, v, SLASH):
                for k in [k for k in st.ts if k == ('ns', r) or k[0] in ('S', 'T')]:
                    del st.ts[k]
                src = self.charof(v)
                t = NONE
                if v.k != 'c':
                    t = self.prov(st, src, eng) if src is not None else frozenset([('bad', 'characters of unknown origin')])
                if r.k in ('s', 'al') and t:
                    st.ts['P', r] = st.ts.get(('P', r), NONE) | t
            if a is r:
                if self.isnot(st, v, DOT):
                    st.ts['nd', r] = True
                else:
                    st.ts.pop(('nd', r), None)
            return
        if i.ty != 'ptr':
            return
        t = self.prov(st, v, eng)
        if a.k == 'fld':
            self.an.stored(self, st, i, ('f', a.a[1], a.a[2]), t, eng)
        elif a.k == 'g':
            self.an.stored(self, st, i, ('gv', a.a[0]), t, eng)
        elif a.k == 'idx':
            b = self.root(a)
            if b.k in ('s', 'al'):
                st.ts = dict(st.ts)
                st.ts.setdefault(('DC', b), NONE)
                if t and v.k != 'c':
                    if v.k == 's':
                        st.ts['H', v] = b
                    else:
                        self.dirty(st, b, t, eng)
            elif b.k == 'fld':
                self.an.stored(self, st, i, ('f', b.a[1], b.a[2]), t, eng)
        elif a.k == 'al':
            st.ts = dict(st.ts)
            st.ts['DC', a] = st.ts.get(('DC', a), NONE) | t
        elif a.k in ('s',):
            st.ts = dict(st.ts)
            st.ts.setdefault(('DC', a), NONE)
            if t and v.k == 's':
                st.ts['H', v] = a
            else:
                self.dirty(st, a, t, eng)

    def charof(self, v):
        while v.k == 'cast':
            v = v.a[3]
        if v.k == 'ld':
            return self.root(v.a[0])
        return None

    def branch(self, st, i, cond, taken, eng):
        ts = {}
        if cond is None and i.op == 'switch':
            cond = eng.val(st, i.ops[0])
        if cond is not None:
            self.measured(st, cond, eng, ts)
            for v in self.chars(cond):
                a = v.a[0]
                if self.isnot(st, v, DOT):
                    b = a
                    if b.k == 'idx' and st.isnull(b.a[2]):
                        b = b.a[0]
                    ts['nd', b] = True
                if st.isnull(v):
                    self.ended(st, a, eng, ts)
        for k, arg in list(st.ts.items()):
            if k[0] == 'T' and st.isnull(k[1]):
                ts['ns', arg] = True
            elif k[0] == 'S' and st.isnull(k[1]):
                ts['ns', arg] = True
                self.ended(st, arg, eng, ts)
            elif k[0] == 'D' and st.isnull(k[1]):
                for f, e in arg:
                    ts[f, e] = True
            elif k[0] == 'N' and st.nonnull(k[1]):
                for f, e in arg:
                    ts[f, e] = True
        # text that comes from the program or the configuration needs no facts
        ts = {k: v for k, v in ts.items() if k[1].k not in ('s', 'ld', 'call') or self.prov(st, k[1], eng) or k in st.ts}
        if ts:
            st.ts = dict(st.ts)
            st.ts.update(ts)
            for k in ts:
                if k[0] in ('d1', 'd2') and ('d1', k[1]) in st.ts and ('d2', k[1]) in st.ts:
                    st.ts['nd', k[1]] = True

    def chars(self, c):
        """bytes read from memory that a condition is about"""
        out = []
        todo = [c]
        while todo:
            x = todo.pop()
            if x.k in ('icmp', 'bin', 'cast'):
                todo += [y for y in x.a if isinstance(y, interp.E)]
            elif x.k == 'ld' and x in self.bytes:
                out.append(x)
        return out

    def measured(self, st, cond, eng, ts):
        """a walk by index has come to the length of the string"""
        todo = [cond]
        while todo:
            x = todo.pop()
            if x.k in ('icmp', 'bin', 'cast'):
                todo += [y for y in x.a if isinstance(y, interp.E)]
            elif x.k == 'call' and x.a[0] == 'strlen':
                if st.isnull(x):
                    ts['ns', x.a[1]] = ts['nd', x.a[1]] = True
                for h, k2, cur in self.walking(st, eng):
                    if x.a[1] in getattr(self, 'bases', {}).get((h, k2), ()) and st.ts['L', h.name, k2] is ZERO:
                        if st.truth(interp.mkicmp('ult', cur, x)) is False or st.truth(interp.mkicmp('slt', cur, x)) is False:
                            ts['ns', x.a[1]] = True

    def walking(self, st, eng):
        for k in st.ts:
            if k[0] != 'L':
                continue
            h = next((b for b in eng.headers if b.name == k[1]), None)
            if h is None or (h, k[2]) in self.badloops or h not in self.passed:
                continue
            cur = st.env.get(k[2])
            if cur is not None:
                yield h, k[2], cur

    def ended(self, st, a, eng, ts):
        """the end of the string was reached at address a: if a walk led there, the string has no separator"""
        for k, q in st.ts.items():
            if k[0] != 'L':
                continue
            h = next((b for b in eng.headers if b.name == k[1]), None)
            if h is None or (h, k[2]) in self.badloops or h not in self.passed:
                continue
            cur = st.env.get(k[2])
            if cur is None:
                continue
            if q.k == 'c':
                if a.k == 'idx' and a.a[2] is cur and a.a[0] in getattr(self, 'bases', {}).get((h, k[2]), ()) and q is ZERO:
                    ts['ns', a.a[0]] = True
            elif a is cur:
                ts['ns', q] = True

    def called(self, names):
        return names[0].split('#')[0] if len(names) == 1 else None

    def call(self, st, i, names, args, eng):
        n = self.called(names)
        if n in SINKS and names[0] not in self.prog.funcs or n in ('rep_g_file_set_contents', 'rep_g_file_get_contents', 'rep_g_mkdir_with_parents'):
            for k in SINKS.get(n, (0,)):
                if k < len(args):
                    self.sink(st, i, args[k], n, eng)
            return None
        for x in names:
            if x in self.an.sinky and x in self.prog.funcs:
                s = self.an.summary(x, self.context(x, args, st))
                for k, (where, what, trail) in s.needs.items():
                    if x in self.an.owner:
                        break
                    if k < len(args):
                        self.sink(st, i, args[k], what if ' in ' in what else '%s in %s' % (what, x.split('#')[0]), eng)
        return None

    def context(self, fn, args, st):
        f = self.prog.funcs[fn]
        out = []
        for t, a in zip(f.ptypes, args):
            if t in ('i32', 'i1', 'i8') and st.isnull(a):
                out.append('z')
            elif t in ('i32', 'i1', 'i8') and st.nonnull(a):
                out.append('nz')
            else:
                out.append(None)
        return tuple(out)

    def sink(self, st, i, e, what, eng):
        self.s.ob += 1
        self.s.sinks += 1
        self.an.demand(self, st, i, self.prov(st, e, eng), what, eng)

    def after(self, st, i, names, args, eng):
        e = st.env.get(i.res) if i.res is not None else None
        n = self.called(names)
        st.ts = dict(st.ts)
        intern = [x for x in names if x in self.prog.funcs]
        # arrays that are handed to somebody else
        for a in args:
            b = self.root(a)
            if ('DC', b) in st.ts and n not in KEEP and (intern or n not in MADE and n not in INTO):
                if not (n or '').startswith('g_') or intern:
                    if b.k == 's' and any(k[0] == 'DC' and k[1] is b for k in st.ts):
                        self.dirty(st, b, frozenset([('bad', 'an array filled in by %s' % n)]), eng)
        if intern:
            done = None
            for x in intern:
                if x in self.an.cleaners:
                    c = self.an.summary(x, self.context(x, args, st)).cleans or frozenset()
                    done = c if done is None else done & c
                else:
                    done = frozenset()
            for f, k in done or ():
                if k < len(args):
                    st.ts[f, args[k]] = True
            if e is not None and i.ty == 'ptr':
                at = tuple(self.prov(st, a, eng) for a in args)
                st.ts['P', e] = frozenset(('call', x, self.context(x, args, st), at) for x in intern) if len(intern) == len(names) else frozenset([('bad', 'result of a callback')])
        elif n in INTO:
            r = args[0]
            if r.k == 'idx':
                r = self.root(r)
            t = NONE
            for a in args[1:]:
                if isptr(a):
                    t |= self.prov(st, a, eng)
            old = st.ts.get(('P', r), NONE)
            st.ts['P', r] = old | t
            if t:
                st.ts.pop(('ns', r), None)
                st.ts.pop(('nd', r), None)
            if e is not None and i.ty == 'ptr':
                st.ts['P', e] = old | t
        elif n in MADE and e is not None:
            w = args if MADE[n] == '*' else [args[k] for k in MADE[n] if k < len(args)]
            t = NONE
            for a in w:
                if isptr(a):
                    t |= self.prov(st, a, eng, n in PARTS)
            st.ts['P', e] = t
            if n in PARTS and PARTS[n] and self.has(st, 'ns', args[0]):
                st.ts['ns', e] = True
            if n in ('g_strdup', 'strdup', 'g_ascii_strdown', 'g_ascii_strup', 'g_strndup', 'g_utf8_strdown') and args:
                for f in ('ns', 'nd'):
                    if (f, args[0]) in st.ts:
                        st.ts[f, e] = True
            if n == 'g_strdelimit':
                self.delimit(st, args, e)
            if n in ('g_path_get_basename', 'basename'):
                st.ts['ns', e] = True
        elif n in ('g_malloc', 'g_malloc0', 'g_malloc_n', 'g_malloc0_n', 'malloc', 'calloc') and e is not None:
            st.ts['P', e] = NONE
            st.ts['DC', e] = NONE
        elif n in TRUSTED and e is not None:
            st.ts['P', e] = NONE
        elif n == 'g_strdelimit':
            self.delimit(st, args, e)
        if n in ('strchr', 'strrchr', 'memchr', 'g_utf8_strchr') and e is not None and len(args) > 1 and args[1].k == 'c' and args[1].a[0] == SLASH:
            st.ts['S', e] = args[0]
            if n != 'strrchr':
                self.upto(st, args[0], e, i, eng)
        if n in ('strpbrk', 'strstr') and e is not None and len(args) > 1 and (self.cstr(args[1]) or '').find('/') >= 0 and (n == 'strpbrk' or self.cstr(args[1]) == '/'):
            st.ts['S', e] = args[0]
            self.upto(st, args[0], e, i, eng)
        if n == 'g_str_has_prefix' and self.cstr(args[1]) == '.':
            st.ts['D', e] = (('nd', args[0]),)
        if n in ('strcmp', 'g_strcmp0', 'g_str_equal') and e is not None:
            for a, b in ((args[0], args[1]), (args[1], args[0])):
                s = self.cstr(b)
                if s in ('.', '..'):
                    st.ts['D' if n == 'g_str_equal' else 'N', e] = (('d%d' % len(s), a),)

    def upto(self, st, a, e, i, eng):
        """e is the first separator in a: there is none in what is before it"""
        x = a
        c = 0
        while x.k == 'idx' and x.a[1] == 'i8' and x.a[2].k == 'c':
            c += x.a[2].a[0]
            x = x.a[0]
        if c == 0 and ('T', x) not in st.ts:
            st.ts['T', e] = x
        elif ('T', x) in st.ts and (c == 0 or c == 1 and self.isnot(st, eng.read(st, x, 'i8', i), SLASH)):
            st.ts['T', e] = st.ts['T', x]

    def delimit(self, st, args, e):
        if (self.cstr(args[1]) or '').find('/') >= 0 and args[2].k == 'c' and args[2].a[0] != SLASH:
            st.ts['ns', args[0]] = True
            if e is not None:
                st.ts['ns', e] = True
        if (self.cstr(args[1]) or '').find('.') >= 0 and args[2].k == 'c' and args[2].a[0] != DOT:
            st.ts['nd', args[0]] = True
            if e is not None:
                st.ts['nd', e] = True

    def ret(self, st, i, val, eng):
        c = frozenset((f, k) for k, p in enumerate(self.params) for f in ('ns', 'nd') if (f, p) in st.ts or st.isnull(p))
        self.s.cleans = c if self.s.cleans is None else self.s.cleans & c
        if val is not None and i.ops and self.fn.rty == 'ptr':
            t = self.prov(st, val, eng)
            for k in [k for k in st.ts if k[0] == 'H' and st.ts[k] is self.root(val)]:
                t |= self.prov(st, k[1], eng)
            b = self.root(val)
            t |= st.ts.get(('DC', b), NONE)
            self.s.ret |= t


class Names:
    def __init__(self, ctx, trusted, pathstructs):
        self.ctx = ctx
        self.prog, self.g, self.view = ctx.prog, ctx.g, ctx.view
        self.trusted = trusted
        self.pathstructs = pathstructs
        self.wanted = {}        # member or variable a file name is read from -> where
        self.sums = {}
        self.owner = set()
        self.find()

    def member(self, s, m):
        if s in self.trusted or (s, m) in self.trusted:
            return None
        if s in self.pathstructs:
            return ('f', s, m)
        return ('bad', '%s.%s' % (s, m))

    def find(self):
        callers = {}
        todo = []
        self.direct = set()
        self.cleaners = set()
        for n, f in self.prog.funcs.items():
            for i in f.insts():
                if i.op == 'call':
                    for t in ([i.x[1]] if i.x[0] == '@' else self.g.targets(n, i)):
                        callers.setdefault(t, set()).add(n)
                    if i.x[0] == '@' and (i.x[1].split('#')[0] in SINKS and i.x[1] not in self.prog.funcs or i.x[1].startswith('rep_g_')):
                        self.direct.add(n)
                    if i.x[0] == '@' and i.x[1] == 'g_strdelimit':
                        self.cleaners.add(n)
                elif i.op == 'store' and i.ty == 'i8':
                    self.cleaners.add(n)
        self.callers = callers
        self.sinky = set(self.direct)
        for n in list(self.cleaners):
            for c in callers.get(n, ()):
                if len(self.prog.funcs[c].blocks) <= 6:
                    self.cleaners.add(c)

    def summary(self, fn, ctx):
        key = (fn, ctx)
        s = self.sums.get(key)
        if s is not None:
            return s
        s = self.sums[key] = Sum()
        self.run(fn, ctx, s)
        s.busy = False
        return s

    def run(self, fn, ctx, s):
        f = self.view.func(fn)
        bad = set()
        passed = set()
        # the first pass finds out which walks through strings skip nothing
        walks = fn in self.cleaners or any(i.op == 'store' and i.ty == 'i8' or i.op == 'load' and i.ty == 'i8' for i in f.insts())
        for rnd in range(2 if walks else 1):
            s.needs, s.ret, s.cleans, s.bad, s.ob, s.sinks = {}, NONE, None, {}, 0, 0
            r = NameRule(self, f, ctx, s)
            r.badloops = set(bad)
            r.passed = passed
            if len(f.blocks) > 60:
                r.maxstates = 4 if len(f.blocks) < 200 else 2
            e = interp.Engine(self.prog, self.g, r, f, maxsteps=300000)
            try:
                e.run()
            except interp.Timeout as x:
                s.bad["analysis of %s not finished: %s" % (fn, x), ""] = (fn, "")
                s.ret |= frozenset([('bad', 'result of a function that could not be analysed')])
                s.cleans = frozenset()
                break
            bad = r.badloops
            passed = set(e.headers)

    def resolve(self, toks, seen=()):
        """tokens without calls"""
        out = set()
        for t in toks:
            if t[0] != 'call':
                out.add(t)
                continue
            _, fn, ctx, at = t
            if (fn, ctx) in seen:
                continue
            s = self.summary(fn, ctx)
            for u in self.resolve(s.ret, seen + ((fn, ctx),)):
                if u[0] == 'p':
                    if u[1] < len(at):
                        out |= self.resolve(at[u[1]], seen + ((fn, ctx),))
                else:
                    out.add(u)
        return frozenset(out)

    def demand(self, rule, st, i, toks, what, eng):
        where = self.prog.where(i)
        for t in self.resolve(toks):
            if t[0] == 'p':
                rule.s.needs.setdefault(t[1], (where, what, eng.trail(st)))
            elif t[0] in ('f', 'gv'):
                self.wanted.setdefault(t, (where, what))
            else:
                rule.s.bad.setdefault((what, t[1]), (where, eng.trail(st)))

    def stored(self, rule, st, i, key, toks, eng):
        if key in self.wanted:
            rule.s.ob += 1
            self.demand(rule, st, i, toks, 'the file name kept in %s' % '.'.join(key[1:]), eng)

    def storers(self, key):
        """functions that store to the member or variable"""
        out = set()
        for n, f in self.prog.funcs.items():
            for i in f.insts():
                if i.op == 'store' and i.ty == 'ptr':
                    o = i.ops[1]
                    if key[0] == 'gv':
                        if o == ('@', key[1]):
                            out.add(n)
                    elif o[0] == '%':
                        d = self.defs(f).get(o[1])
                        if d is not None and d.op == 'gep' and key[1] in repr(d.x):
                            out.add(n)
        return out

    def defs(self, f):
        r = self.__dict__.setdefault('_defs', {})
        if f.name not in r:
            r[f.name] = {i.res: i for i in f.insts() if i.res is not None}
        return r[f.name]

    def solve(self):
        """all functions that name files, until nothing new turns up"""
        from core import parallel
        res = {}
        todo = set(self.sinky)
        for rnd in range(12):
            self.sums = {}

            def one(n):
                import time
                t = time.time()
                f = self.prog.funcs[n]
                s = self.summary(n, (None,) * len(f.ptypes))
                return n, s.needs, s.bad, s.ob, s.ret, self.wanted, len(self.sums), time.time() - t
            for n in sorted(todo):
                self.view.func(n)
            for n, needs, bad, ob, ret, wanted, k, t in parallel(one, sorted(todo)):
                s = res[n] = Sum()
                s.needs, s.bad, s.ob, s.ret = needs, bad, ob, ret
                for w in wanted:
                    self.wanted.setdefault(w, wanted[w])
            new = set()
            for k in self.wanted:
                new |= self.storers(k)
            for n, s in res.items():
                if s.needs:
                    new |= self.callers.get(n, set())
            todo = new - self.sinky
            if rnd == 0 or self.wanted_before != len(self.wanted):
                todo |= new & self.sinky
            self.wanted_before = len(self.wanted)
            # what calls something that has got new demands
            for n in list(self.sinky):
                if self.calls(n) & (new - self.sinky):
                    todo.add(n)
            self.sinky |= new
            if not todo:
                break
        return res

    def sinkcalls(self):
        return sum(1 for f in self.prog.funcs.values() for i in f.insts()
                   if i.op == 'call' and i.x[0] == '@' and i.x[1] in SINKS and i.x[1] not in self.prog.funcs)

    def calls(self, n):
        r = self.__dict__.setdefault('_calls', {})
        if n not in r:
            r[n] = {i.x[1] for i in self.view.func(n).insts() if i.op == 'call' and i.x[0] == '@'}
        return r[n]
