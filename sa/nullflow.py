"""Null-dereference and argument-index obligations.

Every dereference (load, store, or call of a function that dereferences the
parameter) of a *nullable* value must be preceded, on every path, by a check
that excludes NULL.  Nullable values: elements of a protocol line's argument
vector (NULL at index argc, unreadable beyond), its origin, results of functions
that can return NULL, listed nullable fields and NULL constants joined in.
Parameters generate requirements that are checked at every call site.
"""
from collections import defaultdict
import interp
from interp import mk, ZERO, const, E

# library functions: indexes of pointer arguments that must not be NULL
NONNULL_ARGS = {
    'strlen': [0], 'strcmp': [0, 1], 'strcasecmp': [0, 1], 'strncmp': [0, 1], 'strncasecmp': [0, 1], 'strchr': [0], 'strrchr': [0],
    'strstr': [0, 1], 'strcpy': [0, 1], 'strncpy': [0, 1], 'strcat': [0, 1], 'strncat': [0, 1], 'strtol': [0], 'atoi': [0], 'atol': [0],
    'strtoul': [0], 'g_strcasecmp': [0, 1], 'g_strncasecmp': [0, 1], 'g_ascii_strcasecmp': [0, 1], 'g_ascii_strncasecmp': [0, 1],
    'g_str_equal': [0, 1], 'memcpy': [0, 1], 'memcmp': [0, 1], 'g_str_hash': [0], 'strspn': [0, 1], 'strcspn': [0, 1],
    'strdup': [0], 'g_strsplit': [0, 1], 'g_string_append': [0, 1], 'g_string_new_len': [], 'g_hash_table_lookup': [0],
    'g_hash_table_insert': [0], 'g_key_file_get_string': [0], 'g_strstrip': [0], 'g_strchug': [0], 'g_strchomp': [0], 'fputs': [0, 1],
    'inet_ntoa': [], 'fopen': [0, 1], 'open': [0], 'unlink': [0], 'mkdir': [0],
    'g_str_has_prefix': [0, 1], 'g_str_has_suffix': [0, 1], 'strtok': [1], 'fwrite': [3], 'fread': [3], 'fseek': [0], 'ftell': [0],
    'fclose': [0], 'fgets': [0, 2], 'fprintf': [0, 1], 'fflush': [0], 'feof': [0], 'fileno': [0], 'g_strreverse': [0], 'strerror': [],
    'g_io_channel_unref': [0], 'g_io_channel_ref': [0], 'g_strdelimit': [0],
    'g_file_test': [0], 'g_ascii_strtod': [0], 'rename': [0, 1], 'g_strcanon': [0], 'g_strescape': [0], 'g_strcompress': [0],
    'getpwnam': [0], 'g_error_free': [0], 'g_io_channel_unix_get_fd': [0],
}
for _n in ('memset', 'llvm.memcpy.p0.p0.i64', 'llvm.memset.p0.i64', 'llvm.memmove.p0.p0.i64'):
    NONNULL_ARGS[_n] = [0]

# library functions that may return NULL
TWIN = {'strchr': 'strrchr', 'strrchr': 'strchr'}
NULL_RET = {'strchr', 'strrchr', 'strstr', 'g_hash_table_lookup', 'getenv', 'g_getenv', 'fopen', 'getpwnam', 'getpwuid',
            'gethostbyname', 'g_key_file_get_string', 'g_key_file_get_string_list', 'g_queue_peek_head', 'g_list_find',
            'g_list_find_custom', 'strpbrk', 'strtok', 'g_list_nth_data', 'g_list_nth', 'g_list_last', 'g_list_first', 'fgets', 'fdopen',
            'g_key_file_get_value', 'opendir', 'readdir',  'getservbyname', 'getservbyport', 'g_strdup', 'g_strndup',
            'g_dir_open', 'g_dir_read_name', 'g_convert', 'g_utf8_strchr', 'g_key_file_get_keys', 
            'g_io_channel_new_file', 'memchr', 'g_hash_table_find', 'popen', 'g_module_open', 'g_utf8_validate'}
# NULL only if their argument is NULL
NULL_IFARG = {'g_strdup': 0, 'g_strndup': 0, 'strdup': None}
NULL_RET -= {'g_utf8_validate'}


NEVER_NULL = {'g_malloc', 'g_malloc0', 'g_malloc_n', 'g_malloc0_n', 'g_realloc', 'g_realloc_n', 'g_strdup_printf', 'g_strdup_vprintf', 'g_strconcat',
              'g_build_filename', 'g_strsplit', 'g_strsplit_set', 'g_list_append', 'g_list_prepend', 'g_string_new', 'g_hash_table_new',
              'g_hash_table_new_full', 'g_key_file_new', 'g_queue_new', 'g_strescape', 'g_array_new', 'g_ptr_array_new'}

VEC_RET = {'g_strsplit': 0, 'g_strsplit_set': 0, 'g_strdupv': 0}

# expressions known to be NULL-terminated vectors: registered while an analysis runs
VECS = {}       # E -> minimum length


def is_args_elem(e):
    """value expression line->args[k] or vector[k] -> (line, k) or None"""
    if e.k != 'ld':
        return None
    return args_addr(e.a[0])


def args_addr(a):
    """address expression &line->args[k] or &vector[k] -> (line, k)"""
    if a.k == 'idx' and a.a[1] == 'ptr':
        b, k = a.a[0], a.a[2]
    elif a.k == 'ld' or a in VECS:
        b, k = a, ZERO
    else:
        return None
    if b in VECS:
        return mk('vec', b), k
    if b.k == 'ld' and b.a[0].k == 'fld' and b.a[0].a[1] == 'irc_line' and b.a[0].a[2] == 'args':
        return b.a[0].a[0], k
    return None


ASSERT_FAIL = {'g_assertion_message_expr', 'g_assertion_message', '__assert_fail', 'abort', 'g_assertion_message_cmpnum'}


def assertion_sides(fn):
    """{(branch id, side)}: sides of a two-way branch that end in a failed assertion and nothing else"""
    out = set()
    for b in fn.blocks:
        t = b.insts[-1]
        if t.op != 'br' or len(t.x) != 2 or t.x[0] == t.x[1]:
            continue
        d = next((i for i in b.insts if i.res == t.ops[0][1]), None)
        if d is None or d.op != 'icmp' or d.ty != 'ptr' or _collects_varargs(fn, d):
            continue
        for side in (0, 1):
            if _fails(fn, b, fn.bmap[t.x[side]]):
                out.add((t.id, side))
    return out


def _collects_varargs(fn, d):
    """the compared value is what a loop over the variable arguments collected: the number of
    arguments is the caller's, every call site passes at least one"""
    for o in d.ops:
        for b in fn.blocks:
            if o[0] == '%' and any(i.op == 'phi' and i.res == o[1] for i in b.insts):
                fwd = _reach([b], lambda x: [fn.bmap[s] if isinstance(s, str) else s for s in x.succs])
                back = _reach([b], lambda x: [fn.bmap[s] if isinstance(s, str) else s for s in x.preds])
                for x in fwd & back:
                    if any(i.op == 'gep' and '__va_list_tag' in str(i.x) for i in x.insts):
                        return True
    return False


def _reach(todo, nxt):
    seen = set()
    todo = list(todo)
    while todo:
        for y in nxt(todo.pop()):
            if y not in seen:
                seen.add(y)
                todo.append(y)
    return seen


def _fails(fn, prev, blk):
    for _ in range(6):
        env = {}

        def val(o):
            return o[1] if o[0] == 'c' else env.get(o[1]) if o[0] in ('%', 'l', 'r') else env.get(o)
        nxt = None
        for i in blk.insts:
            if i.op == 'phi':
                for v, l in i.x:
                    if l == prev.name and v[0] == 'c':
                        env[i.res] = v[1]
            elif i.op == 'cast' and i.res:
                v = val(i.ops[0])
                if v is not None:
                    env[i.res] = v
            elif i.op == 'icmp':
                a, c = val(i.ops[0]), val(i.ops[1])
                if a is not None and c is not None and i.x in ('ne', 'eq'):
                    env[i.res] = int((a != c) == (i.x == 'ne'))
            elif i.op == 'bin' and i.x == 'xor':
                a, c = val(i.ops[0]), val(i.ops[1])
                if a is not None and c is not None:
                    env[i.res] = (a ^ c) & 1
            elif i.op == 'call':
                n = i.x[1] if i.x[0] == '@' else None
                if n in ASSERT_FAIL:
                    return True
                if n and n.startswith('llvm.expect'):
                    v = val(i.ops[0])
                    if v is not None:
                        env[i.res] = v
                elif not (n and n.startswith('llvm.')):
                    return False
            elif i.op == 'br':
                if len(i.x) == 1:
                    nxt = i.x[0]
                else:
                    v = val(i.ops[0])
                    if v is None:
                        return False
                    nxt = i.x[0] if v else i.x[1]
            elif i.op not in ('alloca', 'gep'):
                return False
        if nxt is None:
            return False
        prev, blk = blk, fn.bmap[nxt]
    return False


class NullRule(interp.Rule):
    stable = {('irc_line', 'args'), ('irc_line', 'argc'), ('irc_line', 'origin')}

    def __init__(self, prog, summ, cfg):
        self.prog = prog
        self.summ = summ            # name -> Summary
        self.cfg = cfg
        self.findings = {}
        self.reqs = {}              # own requirements: ('p',k) / ('arg',k,n)
        self.rets_null = False
        self.oblig = 0
        self.disch = 0
        self.nomod = cfg.nomod
        self.vecargs = {}           # (callee, parameter) -> least length of the vectors passed

    # -------------------------------------------------- nullness
    def argcE(self, line):
        return mk('ld', mk('fld', line, 'irc_line', 'argc', self.cfg.argc_idx), 0, 'i64')

    def argc_of(self, st, line):
        if line.k == 'vec':
            v = mk('call', 'veclen', line.a[0])
            if st.range(v)[0] < VECS.get(line.a[0], 0):
                st.setrange(v, VECS.get(line.a[0], 0), 1 << 30)
            return v
        a = mk('fld', line, 'irc_line', 'argc', self.cfg.argc_idx)
        v = st.mem.get(a)
        if v is None:
            v = self.argcE(line)
        if v.k != 'c' and st.range(v)[0] < 0:
            st.setrange(v, 0, 1 << 30)
        return v

    def proven(self, st, e):
        if st.nonnull(e):
            return True
        x = is_args_elem(e)
        if x and self.idx_lt(st, x[0], x[1], 0):
            return True
        return False

    def ks(self, k):
        return str(k.a[0]) if k.k == 'c' else 'i'

    def idx_lt(self, st, line, k, slack):
        """k - slack < argc"""
        n = self.argc_of(st, line)
        if st.diff(k, n) <= -1 + slack:
            return True
        # elements with a larger index already seen non-NULL
        return False

    def nullable(self, st, e, eng, depth=0):
        """reason string when e may be NULL by its source, else None; 'p' sources give ('req', key)"""
        if e is ZERO:
            return 'NULL constant'
        if e.k == 'p':
            return ('p', e.a[1])
        x = is_args_elem(e)
        if x:
            line, k = x
            if line.k == 'p' and k.k == 'c':
                return ('arg', line.a[1], k.a[0])
            if line.k == 'p' and k.k == 'p':
                return ('arg', line.a[1], ('p', k.a[1]))
            if self.cfg.line_known(line, eng):
                return None
            if line.k == 'vec':
                return 'element %s of a NULL-terminated vector not known to be that long' % self.ks(k)
            return 'argument %s of a line with argc not known to exceed it' % self.ks(k)
        if e.k == 'ld' and e.a[0].k == 'fld':
            f = (e.a[0].a[1], e.a[0].a[2])
            if f in self.cfg.nullable_fields:
                b = e.a[0].a[0]
                if (mk('nn', e.a[0]), 0) in st.ne:
                    return None     # tested on this path
                if b.k == 'p' and f in self.cfg.required_fields:
                    return ('fld', b.a[1]) + f + (e.a[0].a[3],)
                return '%s.%s may be NULL' % f
        if e.k == 'call' and e.a[0] in NULL_RET:
            if e.a[0] in TWIN and st.nonnull(mk('call', TWIN[e.a[0]], *e.a[1:])):
                return None         # the first occurrence was found
            return 'result of %s may be NULL' % e.a[0]
        if e.k == 's':
            t = e.a[0]
            if isinstance(t, int):
                n = self.callres.get(t)
                if n:
                    for q in n:
                        if q in NULL_IFARG:
                            return None
                        if q in NULL_RET or (q in self.summ and self.summ[q].rets_null):
                            return 'result of %s may be NULL' % q.split('#')[0]
            elif isinstance(t, tuple) and t[0] == 'phi' and depth < 4:
                for y in eng.phisrc.get(e, ()):
                    if y.k in ('p',) or (y.k != 's' and st.nonnull(y)):
                        continue
                    r = self.nullable(st, y, eng, depth + 1)
                    if r and not isinstance(r, tuple):
                        return r
        return None

    def deref(self, st, i, e, eng, how):
        if e.k in ('al', 'g', 'fld', 'idx'):
            return
        if e.k == 's' or e.k == 'ld' or e.k == 'p' or e.k == 'call' or e is ZERO:
            r = self.nullable(st, e, eng)
            if r is None:
                return
            self.oblig += 1
            if self.proven(st, e):
                self.disch += 1
                return
            if isinstance(r, tuple):
                if r not in self.reqs:
                    self.reqs[r] = (i, how, eng.trail(st), self.src(i, r, how))
                if r[0] == 'arg':
                    line, k = is_args_elem(e)
                    st.addrel(k, self.argc_of(st, line), -1)
            else:
                key = (i.id, how)
                if key not in self.findings:
                    self.findings[key] = (i, how, r, interp.show(e), eng.trail(st))
            # once reported/assumed, the path continues with the value non-NULL
            if e is ZERO:
                return
            st.ne.add((e, 0))

    # -------------------------------------------------- hooks
    def branch(self, st, i, cond, taken, eng):
        if cond is not None and i.op == 'br':
            c, t = cond, taken
            while c.k == 'bin' and c.a[0] == 'xor' and c.a[2] is interp.ONE:
                c, t = c.a[1], not t
            if c.k == 'icmp' and c.a[2] is ZERO and c.a[0] in ('eq', 'ne') and c.a[1].k == 'ld' and (c.a[0] == 'ne') == t:
                a = c.a[1].a[0]
                if a.k == 'fld' and (a.a[1], a.a[2]) in self.cfg.nullable_fields:
                    st.ne.add((mk('nn', a), 0))
        # asserting that a value is not NULL is using it
        if cond is not None and i.op == 'br' and (i.id, 0 if taken else 1) in self.asserts:
            e, t = cond, taken
            if e.k == 'icmp' and e.a[2] is ZERO and (e.a[0] == 'eq') == t and e.a[0] in ('eq', 'ne'):
                self.deref(st, i, e.a[1], eng, 'asserted not to be NULL')

    def entry(self, st, fn, eng):
        self.asserts = assertion_sides(fn)
        self.callres = {}
        self.sized = {}         # vector whose length is in a variable: E -> address of the length
        VECS.clear()
        for k, n in self.cfg.vecparams.get(fn.name, {}).items():
            if k < len(fn.params):
                VECS[st.env[fn.params[k]]] = n
        self.fnname = fn.name
        for i in fn.insts():
            if i.op == 'call' and i.x[0] == '@':
                self.callres[i.id] = [i.x[1]]
        # what callers already have to guarantee holds from the start
        own = self.summ.get(fn.name)
        for q, why in (own.reqs_for([st.env[p] for p in fn.params]) if own else {}).items():
            if q[0] in ('arg', 'argr') and not isinstance(q[2], tuple):
                self.reqs[q] = self.own_req(why)
                st.addrel(const(q[2]), self.argc_of(st, st.env[fn.params[q[1]]]), -1 if q[0] == 'arg' else 0)
        self.cfg.entry(st, fn, eng, self)

    def own_req(self, why):
        return why

    def load(self, st, i, a, eng):
        self.access(st, i, a, eng, 'read')

    def loaded(self, st, i, a, v, eng):
        if a.k == 'fld' and a.a[1] == 'irc_line' and a.a[2] == 'argc' and v.k != 'c':
            st.setrange(v, 0, 1 << 30)

    def store(self, st, i, a, v, eng):
        self.access(st, i, a, eng, 'write')

    def access(self, st, i, a, eng, how):
        r = eng.root(a)
        x = args_addr(a) if a.k == 'idx' else None
        if x:
            line, k = x
            self.oblig += 1
            if self.idx_lt(st, line, k, 1) or k is ZERO:
                self.disch += 1
            elif k.k == 'c' and st.nonnull(mk('ld', self.elem(a, k.a[0] - 1), 0, 'ptr')):
                # args[k-1] != NULL means k <= argc
                self.disch += 1
            elif line.k == 'p' and k.k in ('c', 'p'):
                q = ('argr', line.a[1], k.a[0] if k.k == 'c' else ('p', k.a[1]))
                if q not in self.reqs:
                    self.reqs[q] = (i, how, eng.trail(st), self.src(i, q, how))
                st.addrel(k, self.argc_of(st, line), 0)
            elif not self.cfg.line_known(line, eng):
                key = (i.id, 'index')
                if key not in self.findings:
                    self.findings[key] = (i, 'index', ('vector' if line.k == 'vec' else 'argument') + ' index %s may lie beyond the end' % self.ks(k), interp.show(a), eng.trail(st))
        if r in self.sized and a.k == 'idx':
            # a list and its length, set together: below the length it is not NULL
            n = st.mem.get(self.sized[r])
            k = a.a[2]
            while k.k == 'cast' and k.a[0] in ('sext', 'zext', 'trunc'):
                k = k.a[3]
            if n is not None and (st.diff(k, n) <= -1 or any(self.below(x, k, n, st) for x in st.rng)):
                self.oblig += 1
                self.disch += 1
                return
        self.deref(st, i, r, eng, how)

    def below(self, x, k, n, st):
        if x.k != 'icmp' or x.a[0] not in ('ult', 'slt') or st.rng[x][0] < 1:
            return False
        y = x.a[1]
        while y.k == 'cast' and y.a[0] in ('sext', 'zext', 'trunc'):
            y = y.a[3]
        return y is k and x.a[2] is n

    def elem(self, a, n):
        return mk('idx', a.a[0], a.a[1], const(n)) if n else a.a[0]

    def call(self, st, i, names, args, eng):
        if i.x[0] != '@':
            self.deref(st, i, eng.val(st, i.x), eng, 'called')
        for k, a in enumerate(args):
            if a in VECS or a.k not in ('c', 'al', 'g') and any(n in self.summ for n in names):
                m = None if a not in VECS else max(VECS[a], st.range(self.argc_of(st, mk('vec', a)))[0],
                                                   1 if st.nonnull(mk('ld', a, 0, 'ptr')) else 0)
                for n in names:
                    o = self.vecargs.get((n, k), m)
                    self.vecargs[n, k] = None if m is None or o is None else min(o, m)
        if names and not any(n in self.prog.funcs for n in names) and not names[0].startswith('llvm.'):
            for x in args:
                # a position in what is not there
                if x.k == 'fld' or x.k == 'idx' and x.a[2].k == 'c' and x.a[2] is not ZERO:
                    self.deref(st, i, eng.root(x), eng, 'passed (with an offset) to %s' % names[0].split('#')[0])
        for n in names:
            if n in NONNULL_ARGS:
                for k in NONNULL_ARGS[n]:
                    if k < len(args):
                        if n.startswith('llvm.mem') or n in ('memcpy', 'memset'):
                            if args[-1 if n[0] != 'l' else 2] is ZERO:
                                continue
                        self.deref(st, i, eng.root(args[k]), eng, 'passed to %s' % n)
            s = self.summ.get(n)
            if s:
                for q, why in s.reqs_for(args).items():
                    self.require(st, i, n, q, args, eng, why)
        if names == ['g_strv_length'] and i.res is not None and args[0] in VECS:
            v = self.argc_of(st, mk('vec', args[0]))
            st.env[i.res] = v
            return v
        if len(names) == 1:
            self.callres[i.id] = names
            if i.res is not None and (names[0] in NEVER_NULL or names[0] in NULL_IFARG and NULL_IFARG[names[0]] is not None
                                      and st.nonnull(args[NULL_IFARG[names[0]]])):
                st.ne.add((eng.fresh(st, i), 0))
            if names[0] == 'g_key_file_get_string_list' and i.res is not None and len(args) > 3 and args[3] is not ZERO:
                self.sized[eng.fresh(st, i)] = args[3]
            if names[0] in VEC_RET and i.res is not None:
                v = eng.fresh(st, i)
                VECS[v] = VEC_RET[names[0]]
        else:
            self.callres[i.id] = names
        if len(names) > 0:
            self.cfg.call(st, i, names, args, eng, self)
        return None

    def require(self, st, i, n, q, args, eng, why):
        k = q[1]
        if k >= len(args):
            return
        nm = n.split('#')[0]
        if q[0] == 'p':
            a = eng.root(args[k])
            self.deref(st, i, a, eng, 'passed to %s, which dereferences it' % nm)
            return
        if q[0] == 'fld':
            fa = mk('fld', args[k], q[2], q[3], q[4])
            v = st.mem.get(fa)
            if v is None:
                v = mk('ld', fa, 0, 'ptr')
            self.deref(st, i, v, eng, 'passed to %s, which dereferences its %s' % (nm, q[3]))
            return
        line = args[k]
        if isinstance(q[2], tuple):
            if q[2][1] >= len(args):
                return
            x = args[q[2][1]]
            while x.k == 'cast' and x.a[0] in ('sext', 'zext'):
                x = x.a[3]
            if x.k == 'p':
                q = (q[0], q[1], ('p', x.a[1]))
                if st.diff(x, self.argc_of(st, line)) <= (-1 if q[0] == 'arg' else 0):
                    return
                if line.k == 'p':
                    self.reqs.setdefault((q[0], line.a[1], q[2]), (i, 'passed to %s' % nm, eng.trail(st), why[3]))
                    return
            if x.k != 'c':
                key = (i.id, 'passed to %s' % nm, q)
                self.findings.setdefault(key, (i, 'passed to %s, which uses an argument at a variable index' % nm, 'line may have fewer arguments', interp.show(line), eng.trail(st), why[3]))
                return
            q = (q[0], q[1], x.a[0])
        self.oblig += 1
        need = q[2]
        if q[0] == 'argr':
            need = q[2] - 1
        if self.cfg.line_known(line, eng) or st.diff(const(need), self.argc_of(st, line)) <= -1:
            self.disch += 1
            return
        if line.k == 'p':
            r = (q[0], line.a[1], q[2])
            if r not in self.reqs:
                self.reqs[r] = (i, 'passed to %s' % nm, eng.trail(st), why[3])
            return
        key = (i.id, 'passed to %s' % nm, q)
        if key not in self.findings:
            self.findings[key] = (i, 'passed to %s, which uses argument %d' % (nm, q[2]), 'line may have fewer arguments', interp.show(line), eng.trail(st), why[3])

    def src(self, i, q, how):
        return (self.fnname, self.prog.where(i), how, q)

    def ret(self, st, i, val, eng):
        if val is None or i.ty != 'ptr':
            return
        if val is ZERO or st.isnull(val):
            self.rets_null = True
        elif not st.nonnull(val):
            r = self.nullable(st, val, eng)
            if r and not isinstance(r, tuple):
                self.rets_null = True


class Summary:
    def __init__(self):
        self.reqs = {}
        self.rets_null = False
        self.spec = None        # (parameter, {constant: requirements}), analysed once per value

    def reqs_for(self, args):
        if self.spec and self.spec[0] < len(args):
            v = args[self.spec[0]]
            if v.k == 'c' and v.a[0] in self.spec[1]:
                return self.spec[1][v.a[0]]
        return self.reqs


class Config:
    vecparams = {}
    nullable_fields = set()
    required_fields = {('irc_line', 'origin')}
    nomod = set()

    def __init__(self, prog):
        t = prog.dt.fields['struct.irc_line']
        self.argc_idx = t.index('argc')

    def entry(self, st, fn, eng, rule):
        pass

    def call(self, st, i, names, args, eng, rule):
        pass

    def line_known(self, line, eng):
        """lines built by the proxy itself with a known shape"""
        return False
