"""Parser for textual LLVM 18 IR (opaque pointers) as produced by build.py.

Only the subset clang emits for this C code base is supported; anything else
raises IRError, which the driver turns into an analysis error (never a pass).
"""
import re


class IRError(Exception):
    pass


TOK = re.compile(r'''
   (?P<cstr>c"(?:[^"])*")
 | (?P<str>"(?:[^"])*")
 | (?P<name>[%@!$](?:"[^"]*"|[-a-zA-Z$._0-9]+)|!)
 | (?P<attr>\#[0-9]+)
 | (?P<num>-?[0-9][-+.0-9a-zA-Z]*)
 | (?P<word>[a-zA-Z_.][-a-zA-Z0-9_.$]*:?)
 | (?P<dots>\.\.\.)
 | (?P<punct>[(){}\[\]<>,=*:|])
''', re.X)

SKIPATTR = {
    'noundef', 'nonnull', 'signext', 'zeroext', 'noalias', 'nocapture', 'inreg',
    'readonly', 'readnone', 'writeonly', 'returned', 'immarg', 'swiftself',
    'tail', 'musttail', 'notail', 'fastcc', 'ccc', 'coldcc', 'nofree', 'nest',
    'inbounds', 'nsw', 'nuw', 'exact', 'volatile', 'nneg', 'disjoint', 'fast',
    'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'inrange',
    'dso_local', 'local_unnamed_addr', 'unnamed_addr', 'atomic', 'inalloca',
    'noreturn', 'nounwind', 'allocptr', 'allocalign',
}
SKIPPAREN = {'align', 'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'elementtype',
             'addrspace', 'range', 'captures', 'memory', 'preallocated', 'byref'}


def tokenize(s):
    out = []
    pos, n = 0, len(s)
    m = TOK.match
    while pos < n:
        c = s[pos]
        if c == ' ' or c == '\t' or c == '\n':
            pos += 1
            continue
        if c == ';':
            break
        t = m(s, pos)
        if not t:
            raise IRError('tokenize: %r at %r' % (s[:200], s[pos:pos + 30]))
        out.append(t.group())
        pos = t.end()
    return out


def unescape(s):
    """body of c"..." -> bytes"""
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\' and s[i + 1] == '\\':
            out.append(92)
            i += 2
        elif s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


INTRE = re.compile(r'^i[0-9]+$')
CASTS = {'zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'fpext', 'fptrunc', 'sitofp',
         'uitofp', 'fptosi', 'fptoui', 'addrspacecast'}
BINOPS = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}

# types: 'i32','ptr','void','double',... | ('arr',n,t) | ('st',name) | ('lit',(t,..)) | ('fn',ret,(args),va) | ('vec',n,t)


class P:
    __slots__ = ('t', 'i', 'mod')

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def expect(self, x):
        y = self.next()
        if y != x:
            raise IRError('expected %r got %r in %r' % (x, y, ' '.join(self.t[:60])))

    def accept(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def skip_attrs(self):
        while self.i < len(self.t):
            x = self.t[self.i]
            if x in SKIPATTR:
                self.i += 1
            elif x in SKIPPAREN:
                self.i += 1
                if self.accept('('):
                    d = 1
                    while d:
                        y = self.next()
                        if y == '(':
                            d += 1
                        elif y == ')':
                            d -= 1
                elif x == 'align':
                    self.i += 1
            else:
                break

    def type(self):
        x = self.next()
        if x[0] == '%':
            t = ('st', self.mod.tyname(x[1:].strip('"')))
        elif x == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('arr', n, e)
        elif x == '{':
            el = []
            while not self.accept('}'):
                el.append(self.type())
                self.accept(',')
            t = ('lit', tuple(el))
        elif x == '<' and self.peek() == '{':
            t = self.type()
            self.expect('>')
        elif x == '<':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect('>')
            t = ('vec', n, e)
        else:
            t = x
        while self.peek() == '(':
            # function type
            self.next()
            args = []
            va = False
            while not self.accept(')'):
                if self.accept('...'):
                    va = True
                else:
                    self_t = self.type()
                    self.skip_attrs()
                    args.append(self_t)
                self.accept(',')
            t = ('fn', t, tuple(args), va)
        return t

    def value(self, ty):
        x = self.next()
        c = x[0]
        if c == '%':
            return ('%', x[1:])
        if c == '@':
            return ('@', x[1:].strip('"'))
        if x == 'null' or x == 'zeroinitializer' or x == 'none':
            if x == 'zeroinitializer':
                return ('zero',)
            return ('c', 0)
        if x == 'undef' or x == 'poison':
            return ('undef',)
        if x == 'true':
            return ('c', 1)
        if x == 'false':
            return ('c', 0)
        if c == '-' or c.isdigit():
            if ty in ('double', 'float', 'x86_fp80'):
                return ('f', x)
            return ('c', int(x))
        if x[:2] == 'c"':
            return ('str', unescape(x[2:-1]))
        if x == 'getelementptr':
            self.skip_attrs()
            self.expect('(')
            self.skip_attrs()
            st = self.type()
            self.expect(',')
            ops = []
            while True:
                self.skip_attrs()
                t = self.type()
                ops.append(self.value(t))
                if not self.accept(','):
                    break
            self.expect(')')
            return ('gep', st, ops[0], tuple(ops[1:]))
        if x in CASTS:
            self.expect('(')
            t = self.type()
            v = self.value(t)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            if x in ('bitcast', 'addrspacecast'):
                return v
            if v[0] == 'c' and x in ('zext', 'sext', 'inttoptr', 'ptrtoint'):
                return v
            return ('cast', x, v, t, t2)
        if x in BINOPS:
            self.skip_attrs()
            self.expect('(')
            t = self.type()
            a = self.value(t)
            self.expect(',')
            t = self.type()
            b = self.value(t)
            self.expect(')')
            return ('bin', x, a, b)
        if x == '{' or x == '[' or x == '<':
            close = {'{': '}', '[': ']', '<': '>'}[x]
            if x == '<' and self.peek() == '{':
                self.next()
                close = '}'
                el = []
                while not self.accept('}'):
                    t = self.type()
                    el.append((t, self.value(t)))
                    self.accept(',')
                self.expect('>')
                return ('agg', tuple(el))
            el = []
            while not self.accept(close):
                t = self.type()
                el.append((t, self.value(t)))
                self.accept(',')
            return ('agg', tuple(el))
        if x == 'blockaddress' or x == 'dso_local_equivalent':
            raise IRError('unsupported constant ' + x)
        raise IRError('value %r in %r' % (x, ' '.join(self.t[:60])))

    def tv(self):
        self.skip_attrs()
        t = self.type()
        self.skip_attrs()
        return t, self.value(t)


class Inst:
    __slots__ = ('op', 'res', 'ty', 'ops', 'x', 'dbg', 'fn', 'bb', 'id', 'tys')

    def __init__(self, op, res, ty, ops, x=None):
        self.op = op
        self.res = res      # ssa name or None
        self.ty = ty        # result/access type
        self.ops = ops      # operand values
        self.x = x          # op specific
        self.dbg = None
        self.tys = None

    def __repr__(self):
        return '%s=%s %s %s %s' % (self.res, self.op, self.ty, self.ops, self.x)


class Block:
    __slots__ = ('name', 'insts', 'succs', 'preds', 'fn', 'idx')

    def __init__(self, name):
        self.name = name
        self.insts = []
        self.succs = []
        self.preds = []


class Func:
    def __init__(self, name):
        self.name = name
        self.blocks = []
        self.bmap = {}
        self.params = []
        self.ptypes = []
        self.rty = None
        self.va = False
        self.internal = False
        self.decl = True
        self.dbg = None

    def __repr__(self):
        return '<fn %s>' % self.name

    def insts(self):
        for b in self.blocks:
            for i in b.insts:
                yield i


class Global:
    __slots__ = ('name', 'ty', 'init', 'internal', 'const', 'dbg')


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = {}
        self.md = {}
        self.noreturn_attr = set()
        self._loc = {}
        self._mdc = {}

    def tyname(self, n):
        return n + '#' + self.tu if ANON.match(n) else n

    # ---- constant helpers
    def cstring(self, v):
        """value -> python str if it denotes a constant C string"""
        if v and v[0] == 'gep' and v[2][0] == '@':
            g = self.globals.get(v[2][1])
            if g and g.init and g.init[0] == 'str':
                off = 0
                idx = v[3]
                if v[1] == 'i8' and len(idx) == 1 and idx[0][0] == 'c':
                    off = idx[0][1]
                elif len(idx) == 2 and idx[1][0] == 'c':
                    off = idx[1][1]
                b = g.init[1][off:]
                return b.split(b'\0')[0].decode('latin1')
        if v and v[0] == '@':
            g = self.globals.get(v[1])
            if g and g.const and g.init:
                if g.init[0] == 'str':
                    return g.init[1].split(b'\0')[0].decode('latin1')
                if g.init[0] == 'zero' and g.ty and g.ty[0] == 'arr' and g.ty[2] == 'i8':
                    return ''
        return None

    # ---- metadata
    def mdget(self, ref):
        """'!12' -> dict of fields (lazy)"""
        r = self._mdc.get(ref)
        if r is not None:
            return r
        raw = self.md.get(ref)
        if raw is None:
            return {}
        m = re.match(r'(?:distinct )?!([A-Za-z]*)(?:\(|\{)(.*)[)}]$', raw, re.S)
        d = {'_kind': m.group(1) if m else ''}
        body = m.group(2) if m else ''
        if d['_kind'] == '':
            d['_list'] = [x.strip() for x in body.split(',')] if body.strip() else []
        else:
            for k, v in re.findall(r'(\w+): ("(?:[^"]*)"|!DIExpression\([^)]*\)|[^,]+)', body):
                d[k] = v.strip('"') if v[0] == '"' else v.strip()
        self._mdc[ref] = d
        return d

    def loc(self, dbg):
        """-> list of (file, line, function) innermost first.  A location of an
        instruction inlined by Program.inline is (mod, ref, outer location)."""
        if dbg is None:
            return [('?', 0, '?')]
        if len(dbg) == 3:
            return dbg[0].loc(dbg[:2]) + self.loc(dbg[2])
        m, ref = dbg
        r = m._loc.get(ref)
        if r is not None:
            return r
        d = m.mdget(ref)
        line = int(d.get('line', 0))
        sc = d.get('scope')
        fname, fun = '?', '?'
        fileref = None
        while sc:
            x = m.mdget(sc)
            if fileref is None:
                fileref = x.get('file')
            if x.get('_kind') == 'DISubprogram':
                fun = x.get('name', '?')
                break
            sc = x.get('scope')
        if fileref:
            fname = m.mdget(fileref).get('filename', '?')
        out = [(fname, line, fun)]
        m._loc[ref] = out
        return out

    def where(self, inst):
        l = self.loc(inst.dbg)
        f, ln, fn = l[0]
        s = '%s:%d (%s)' % (f, ln, fn)
        if len(l) > 1 and l[-1][2] != fn:
            s += ' via ' + ' <- '.join('%s:%d %s' % x for x in l[1:4])
        return s


DBGRE = re.compile(r', !dbg (![0-9]+)')
TAILMD = re.compile(r', ![a-zA-Z.]+ !?[0-9{][^,]*')


ANON = re.compile(r'^(struct|union)\.anon(\.\d+)?$')


def parse(text, tu=''):
    mod = Module()
    mod.tu = tu
    lines = text.split('\n')
    i, n = 0, len(lines)
    cur = None
    bb = None
    iid = 0
    strip = re.compile(r'(, !(?:dbg|tbaa|srcloc|heapallocsite|llvm\.[a-z.]+|prof|range|nonnull|noundef|unpredictable|tbaa\.struct|nosanitize|annotation|callees|fpmath|dereferenceable|align) ![0-9]+)+\s*$')
    while i < n:
        ln = lines[i]
        i += 1
        if cur is None:
            if not ln:
                continue
            c = ln[0]
            if c == '%':
                name, rest = ln.split(' = ', 1)
                rest = rest[len('type '):]
                name = mod.tyname(name[1:].strip('"'))
                if rest.startswith('opaque'):
                    mod.types[name] = None
                else:
                    if rest[0] == '<':
                        rest = rest[1:-1]
                    p = P(tokenize(rest), mod)
                    t = p.type()
                    mod.types[name] = t[1] if t[0] == 'lit' else t
            elif c == '@':
                parse_global(ln, mod)
            elif c == '!':
                k, v = ln.split(' = ', 1)
                mod.md[k] = v
            elif ln.startswith('declare') or ln.startswith('define'):
                f = parse_header(ln, mod)
                f.avail = ' available_externally ' in ln
                if ln.startswith('define'):
                    f.decl = False
                    mod.funcs[f.name] = f
                    cur = f
                    bb = None
                else:
                    mod.decls[f.name] = f
            elif ln.startswith('attributes'):
                a, b = ln.split(' = ', 1)
                if re.search(r'\bnoreturn\b', b):
                    mod.noreturn_attr.add(a.split()[1])
            continue
        # inside function
        if ln == '}':
            finish(cur)
            if cur.avail:        # extern inline from a system header: a library function
                del mod.funcs[cur.name]
                mod.decls[cur.name] = cur
            cur = None
            continue
        if not ln:
            continue
        if ln[0] != ' ':
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', ln)
            if m:
                bb = Block(m.group(1))
                bb.fn = cur
                cur.blocks.append(bb)
                continue
            raise IRError('line ' + ln)
        if bb is None:
            bb = Block('%entry')
            bb.fn = cur
            cur.blocks.append(bb)
        if 'call void @llvm.dbg.' in ln or '@llvm.lifetime.' in ln:
            continue
        s = ln.strip()
        if s.startswith('switch '):
            while not lines[i - 1].strip().startswith(']') and not re.search(r'\]\s*(,.*)?$', lines[i - 1]):
                s += ' ' + lines[i].strip()
                i += 1
        dbg = None
        m = DBGRE.search(s)
        if m:
            dbg = m.group(1)
        s = strip.sub('', s)
        try:
            ins = parse_inst(s, mod)
        except (IndexError, IRError, ValueError) as e:
            raise IRError('%s: cannot parse %r: %s' % (cur.name, s, e))
        ins.dbg = (mod, dbg) if dbg else None
        ins.fn = cur
        ins.bb = bb
        iid += 1
        ins.id = iid
        bb.insts.append(ins)
    return mod


LINK = {'private', 'internal', 'external', 'common', 'weak', 'linkonce', 'linkonce_odr', 'weak_odr', 'appending',
        'dso_local', 'unnamed_addr', 'local_unnamed_addr', 'hidden', 'protected', 'thread_local', 'available_externally',
        'extern_weak', 'externally_initialized', 'dllimport'}


def parse_global(ln, mod):
    m = re.match(r'^@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', ln)
    g = Global()
    g.name = m.group(1).strip('"')
    rest = m.group(2)
    d = re.search(r', !dbg (![0-9]+)', rest)
    g.dbg = d.group(1) if d else None
    rest = re.sub(r'(, ![a-z.]+ ![0-9]+)+$', '', rest)
    p = P(tokenize(rest), mod)
    g.internal = False
    ext = False
    while True:
        x = p.peek()
        if x in LINK:
            if x in ('private', 'internal'):
                g.internal = True
            if x == 'external':
                ext = True
            p.next()
            if x == 'thread_local' and p.accept('('):
                p.next()
                p.expect(')')
        else:
            break
    k = p.next()
    if k == 'alias':
        return
    g.const = (k == 'constant')
    if k not in ('constant', 'global'):
        raise IRError('global ' + ln[:200])
    g.ty = p.type()
    g.init = None
    if not ext and p.peek() not in (None, ','):
        g.init = p.value(g.ty)
    mod.globals[g.name] = g


HDR = {'define', 'declare', 'internal', 'dso_local', 'linkonce_odr', 'weak', 'available_externally', 'private',
       'hidden', 'extern_weak', 'local_unnamed_addr', 'unnamed_addr'}


def parse_header(ln, mod):
    d = re.search(r'!dbg (![0-9]+)', ln)
    p = P(tokenize(re.sub(r'!dbg ![0-9]+', '', ln).rstrip('{ ')), mod)
    internal = False
    while p.peek() in HDR:
        if p.next() in ('internal', 'private'):
            internal = True
    p.skip_attrs()
    r = p.peek()
    # return type (no function type parse: name follows)
    p2 = p.next()
    if p2[0] == '%':
        rty = ('st', mod.tyname(p2[1:].strip('"')))
    elif p2 == '{':
        p.i -= 1
        rty = p.type()
    else:
        rty = p2
    p.skip_attrs()
    nm = p.next()
    f = Func(nm[1:].strip('"'))
    f.rty = rty
    f.internal = internal
    f.dbg = d.group(1) if d else None
    p.expect('(')
    while not p.accept(')'):
        if p.accept('...'):
            f.va = True
            continue
        t = p.type()
        p.skip_attrs()
        f.ptypes.append(t)
        x = p.peek()
        if x and x[0] == '%':
            f.params.append(p.next()[1:])
        elif x and x.startswith('metadata'):
            p.next()
        else:
            f.params.append(None)
        p.accept(',')
    f.attrs = [x for x in p.t[p.i:] if x[0] == '#' or x == 'noreturn']
    return f


def parse_inst(s, mod):
    p = P(tokenize(s), mod)
    res = None
    if p.peek()[0] == '%' and p.peek(1) == '=':
        res = p.next()[1:]
        p.next()
    p.skip_attrs()
    op = p.next()
    if op == 'load':
        p.skip_attrs()
        t = p.type()
        p.expect(',')
        _, a = p.tv()
        return Inst('load', res, t, [a])
    if op == 'store':
        t, v = p.tv()
        p.expect(',')
        _, a = p.tv()
        return Inst('store', None, t, [v, a])
    if op == 'getelementptr':
        p.skip_attrs()
        t = p.type()
        p.expect(',')
        _, b = p.tv()
        idx = []
        while p.accept(','):
            if p.peek() and p.peek()[0] == '!':
                break
            _, v = p.tv()
            idx.append(v)
        return Inst('gep', res, 'ptr', [b] + idx, t)
    if op == 'call':
        p.skip_attrs()
        rty = p.next()
        if rty[0] == '%':
            rty = ('st', mod.tyname(rty[1:].strip('"')))
        elif rty in ('{', '['):
            p.i -= 1
            rty = p.type()
        # optional function type
        if p.peek() == '(':
            d = 0
            while True:
                y = p.next()
                if y == '(':
                    d += 1
                elif y == ')':
                    d -= 1
                    if d == 0:
                        break
        if p.peek() == 'asm':
            raise IRError('asm')
        callee = p.value('ptr')
        p.expect('(')
        args, tys = [], []
        while not p.accept(')'):
            if p.peek() == 'metadata':
                while p.peek() not in (',', ')'):
                    p.next()
                args.append(('undef',))
                tys.append('metadata')
            else:
                t, v = p.tv()
                args.append(v)
                tys.append(t)
            p.accept(',')
        ins = Inst('call', res, rty, args, callee)
        ins.tys = tys
        # attributes (noreturn groups)
        ins_attrs = [x for x in p.t[p.i:] if x[0] == '#']
        ins.tys = tys
        return ins
    if op == 'br':
        if p.accept('label'):
            return Inst('br', None, None, [], [p.next()[1:]])
        p.type()
        c = p.value('i1')
        p.expect(',')
        p.expect('label')
        a = p.next()[1:]
        p.expect(',')
        p.expect('label')
        b = p.next()[1:]
        return Inst('br', None, None, [c], [a, b])
    if op == 'ret':
        if p.accept('void'):
            return Inst('ret', None, 'void', [])
        t, v = p.tv()
        return Inst('ret', None, t, [v])
    if op == 'icmp' or op == 'fcmp':
        p.skip_attrs()
        pred = p.next()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return Inst(op, res, t, [a, b], pred)
    if op == 'phi':
        p.skip_attrs()
        t = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(t)
            p.expect(',')
            l = p.next()[1:]
            p.expect(']')
            inc.append((v, l))
            if not p.accept(','):
                break
        return Inst('phi', res, t, [], inc)
    if op in CASTS:
        p.skip_attrs()
        t, v = p.tv()
        p.expect('to')
        t2 = p.type()
        return Inst('cast', res, t2, [v], (op, t))
    if op in BINOPS:
        p.skip_attrs()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return Inst('bin', res, t, [a, b], op)
    if op == 'alloca':
        p.skip_attrs()
        t = p.type()
        n = None
        if p.accept(','):
            if p.peek() != 'align':
                _, n = p.tv()
        return Inst('alloca', res, 'ptr', [n] if n else [], t)
    if op == 'select':
        _, c = p.tv()
        p.expect(',')
        t, a = p.tv()
        p.expect(',')
        _, b = p.tv()
        return Inst('select', res, t, [c, a, b])
    if op == 'switch':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        p.expect('label')
        d = p.next()[1:]
        p.expect('[')
        cases = []
        while not p.accept(']'):
            p.type()
            c = p.value(t)
            p.expect(',')
            p.expect('label')
            cases.append((c[1], p.next()[1:]))
        return Inst('switch', None, None, [v], (d, cases))
    if op == 'unreachable':
        return Inst('unreachable', None, None, [])
    if op == 'extractvalue':
        t, v = p.tv()
        p.expect(',')
        idx = []
        while p.peek() is not None:
            x = p.next()
            if x != ',':
                idx.append(int(x))
        return Inst('extractvalue', res, t, [v], idx)
    if op == 'insertvalue':
        t, v = p.tv()
        p.expect(',')
        t2, v2 = p.tv()
        return Inst('insertvalue', res, t, [v, v2])
    if op == 'freeze':
        t, v = p.tv()
        return Inst('cast', res, t, [v], ('bitcast', t))
    if op == 'fneg':
        t, v = p.tv()
        return Inst('fneg', res, t, [v])
    if op == 'va_arg':
        return Inst('va_arg', res, None, [])
    raise IRError('unknown instruction ' + op)


def finish(f):
    if f.blocks and f.blocks[0].name == '%entry':
        f.blocks[0].name = str(len(f.params))
    names = {b.name: b for b in f.blocks}
    f.bmap = names
    for k, b in enumerate(f.blocks):
        b.idx = k
    for b in f.blocks:
        t = b.insts[-1]
        if t.op == 'br':
            tg = t.x
        elif t.op == 'switch':
            tg = [t.x[0]] + [l for _, l in t.x[1]]
        else:
            tg = []
        seen = set()
        for l in tg:
            if l in seen:
                continue
            seen.add(l)
            s = names.get(l)
            if s is None:
                raise IRError('label %s in %s' % (l, f.name))
            b.succs.append(s)
            s.preds.append(b)


def fname_clean(n):
    """strip the .NNN suffix llvm-link adds to clashing internal symbols"""
    return re.sub(r'\.\d+$', '', n)


def header_inline(m, f):
    d = m.mdget(f.dbg)
    fl = m.mdget(d.get('file', ''))
    return fl.get('filename', '').startswith('/usr/')


class Program(Module):
    """all translation units merged; internal symbols are qualified name#unit"""

    def __init__(self, mods):
        Module.__init__(self)
        self.mods = mods
        self.defunit = {}
        nid = 0
        for m in mods:
            ren = {}
            for n in m.decls:
                for pre in ('__isoc23_', '__isoc99_'):
                    if n.startswith(pre):
                        ren[n] = n[len(pre):]
            for n, f in list(m.funcs.items()):
                if f.internal:
                    if f.dbg and header_inline(m, f):
                        # static inline from a system header: treated as the library function
                        ren[n] = n[:-7] if n.endswith('_inline') else n
                        del m.funcs[n]
                        m.decls[ren[n]] = f
                        continue
                    ren[n] = n + '#' + m.tu
            for n, g in m.globals.items():
                if g.internal:
                    ren[n] = n + '#' + m.tu
            cache = {}

            def rv(v):
                if v[0] == '@':
                    return ('@', ren[v[1]]) if v[1] in ren else v
                if v[0] in ('%', 'c', 'undef', 'f', 'str', 'zero'):
                    return v
                r = cache.get(v)
                if r is None:
                    if v[0] == 'gep':
                        r = ('gep', v[1], rv(v[2]), tuple(rv(x) for x in v[3]))
                    elif v[0] == 'cast':
                        r = ('cast', v[1], rv(v[2]), v[3], v[4])
                    elif v[0] == 'bin':
                        r = ('bin', v[1], rv(v[2]), rv(v[3]))
                    elif v[0] == 'agg':
                        r = ('agg', tuple((t, rv(x)) for t, x in v[1]))
                    else:
                        raise IRError('value kind %r' % (v,))
                    cache[v] = r
                return r
            for n, g in m.globals.items():
                if g.init is not None:
                    g.init = rv(g.init)
                g.name = ren.get(n, n)
                g.dbg = (m, g.dbg) if g.dbg else None
                old = self.globals.get(g.name)
                if old is None or old.init is None:
                    self.globals[g.name] = g
            for n, f in m.funcs.items():
                f.base = n
                f.tu = m.tu
                f.name = ren.get(n, n)
                if f.name in self.funcs:
                    raise IRError('function %s defined twice' % f.name)
                self.funcs[f.name] = f
                for i in f.insts():
                    nid += 1
                    i.id = nid
                    if i.ops:
                        i.ops = [rv(o) for o in i.ops]
                    if i.op == 'call':
                        i.x = rv(i.x)
                    elif i.op == 'phi':
                        i.x = [(rv(v), l) for v, l in i.x]
            for n, t in m.types.items():
                if self.types.get(n) is None:
                    self.types[n] = t
            for n, d in m.decls.items():
                self.decls.setdefault(n, d)
        self.nid = nid

    def mdget(self, ref):
        raise IRError('Program has no metadata of its own')


def clone_into(prog, caller, call, callee, tag):
    """inline `callee` at `call` (an Inst of `caller`); returns new blocks"""
    pre = call.bb
    pos = pre.insts.index(call)
    cont = Block(pre.name + '.c%s' % tag)
    cont.fn = caller
    cont.insts = pre.insts[pos + 1:]
    pre.insts = pre.insts[:pos]
    for i in cont.insts:
        i.bb = cont
    pmap = {}
    for p, a in zip(callee.params, call.ops):
        pmap[p] = a

    def nm(n):
        return n + '.i%s' % tag

    def rv(v):
        k = v[0]
        if k == '%':
            x = pmap.get(v[1])
            return x if x is not None else ('%', nm(v[1]))
        return v
    new = []
    rets = []
    for b in callee.blocks:
        nb = Block(nm(b.name))
        nb.fn = caller
        for i in b.insts:
            j = Inst(i.op, nm(i.res) if i.res is not None else None, i.ty, [rv(o) for o in i.ops], i.x)
            j.tys = i.tys
            prog.nid += 1
            j.id = prog.nid
            j.fn = caller
            j.bb = nb
            if i.dbg is None:
                j.dbg = call.dbg
            elif len(i.dbg) == 3:
                j.dbg = (i.dbg[0], i.dbg[1], nest(i.dbg[2], call.dbg))
            else:
                j.dbg = (i.dbg[0], i.dbg[1], call.dbg) if call.dbg else i.dbg
            if i.op == 'br':
                j.x = [nm(l) for l in i.x]
            elif i.op == 'switch':
                j.x = (nm(i.x[0]), [(c, nm(l)) for c, l in i.x[1]])
            elif i.op == 'phi':
                j.x = [(rv(v), nm(l)) for v, l in i.x]
            elif i.op == 'call':
                j.x = rv(i.x)
            elif i.op == 'ret':
                if i.ops:
                    rets.append((j.ops[0], nb.name))
                else:
                    rets.append((None, nb.name))
                j.op = 'br'
                j.ops = []
                j.x = [cont.name]
            nb.insts.append(j)
        new.append(nb)
    # entry
    br = Inst('br', None, None, [], [nm(callee.blocks[0].name)])
    prog.nid += 1
    br.id = prog.nid
    br.fn = caller
    br.bb = pre
    br.dbg = call.dbg
    pre.insts.append(br)
    # successors' phis referring to pre now come from cont
    if cont.insts:
        t = cont.insts[-1]
        tg = t.x if t.op == 'br' else ([t.x[0]] + [l for _, l in t.x[1]] if t.op == 'switch' else [])
        for l in tg:
            sb = caller.bmap.get(l)
            if sb is not None:
                for i in sb.insts:
                    if i.op != 'phi':
                        break
                    i.x = [(v, cont.name if pl == pre.name else pl) for v, pl in i.x]
    if not rets:
        # callee never returns
        u = Inst('unreachable', None, None, [])
        prog.nid += 1
        u.id = prog.nid
        u.fn = caller
        u.bb = cont
        u.dbg = call.dbg
        cont.insts = [u]
    if call.res is not None:
        vals = [(v if v is not None else ('undef',), l) for v, l in rets]
        ph = Inst('phi', call.res, call.ty, [], vals)
        prog.nid += 1
        ph.id = prog.nid
        ph.fn = caller
        ph.bb = cont
        ph.dbg = call.dbg
        if rets:
            cont.insts.insert(0, ph)
    out = new + [cont]
    for b in out:
        caller.bmap[b.name] = b
    k = caller.blocks.index(pre)
    caller.blocks[k + 1:k + 1] = out
    return out


def nest(loc, outer):
    if outer is None:
        return loc
    if loc is None:
        return outer
    if len(loc) == 3:
        return (loc[0], loc[1], nest(loc[2], outer))
    return (loc[0], loc[1], outer)


def copy_func(prog, f):
    g = Func(f.name)
    g.__dict__.update({k: v for k, v in f.__dict__.items() if k not in ('blocks', 'bmap')})
    g.blocks = []
    for b in f.blocks:
        nb = Block(b.name)
        nb.fn = g
        for i in b.insts:
            j = Inst(i.op, i.res, i.ty, list(i.ops), list(i.x) if isinstance(i.x, list) else i.x)
            j.tys = i.tys
            j.dbg = i.dbg
            j.id = i.id
            j.fn = g
            j.bb = nb
            nb.insts.append(j)
        g.blocks.append(nb)
    g.bmap = {b.name: b for b in g.blocks}
    return g


def relink(f):
    for k, b in enumerate(f.blocks):
        b.idx = k
        b.succs = []
        b.preds = []
    for b in f.blocks:
        t = b.insts[-1]
        if t.op == 'br':
            tg = t.x
        elif t.op == 'switch':
            tg = [t.x[0]] + [l for _, l in t.x[1]]
        else:
            tg = []
        seen = set()
        for l in tg:
            if l in seen:
                continue
            seen.add(l)
            s = f.bmap[l]
            b.succs.append(s)
            s.preds.append(b)


def targets_of(t):
    return t.x if t.op == 'br' else [t.x[0]] + [l for _, l in t.x[1]] if t.op == 'switch' else []


def thread_jumps(f):
    """lead the paths on which a short-circuit condition is already decided past its test

    A block that only joins a truth value and branches on it is left by the predecessors that
    give a constant; the value then need not be remembered per path."""
    uses = {}
    for i in f.insts():
        for v in i.ops:
            if v[0] == '%':
                uses[v[1]] = uses.get(v[1], 0) + 1
        if i.op == 'phi':
            for v, _ in i.x:
                if v[0] == '%':
                    uses[v[1]] = uses.get(v[1], 0) + 1
        elif i.op == 'call' and i.x[0] == '%':
            uses[i.x[1]] = uses.get(i.x[1], 0) + 1
    dead = set()
    again = True
    while again:
        again = False
        for b in f.blocks:
            k = b.insts
            if b.name in dead or len(k) not in (2, 3) or k[0].op != 'phi' or k[-1].op != 'br' or len(k[-1].x) != 2 or not k[-1].ops:
                continue
            p, t = k[0], k[-1]
            if uses.get(p.res) != 1 or t.x[0] == t.x[1] or b.name in t.x:
                continue
            if len(k) == 2:
                if t.ops[0] != ('%', p.res):
                    continue
                test = lambda c: c != 0
            else:
                q = k[1]
                if q.op != 'icmp' or q.x not in ('eq', 'ne') or q.ops[0] != ('%', p.res) or q.ops[1][0] != 'c' \
                        or t.ops[0] != ('%', q.res) or uses.get(q.res) != 1:
                    continue
                test = (lambda c, z=q.ops[1][1]: c == z) if q.x == 'eq' else (lambda c, z=q.ops[1][1]: c != z)
            for v, l in list(p.x):
                if v[0] != 'c' or not isinstance(v[1], int):
                    continue
                a = f.bmap[l]
                s = f.bmap[t.x[0] if test(v[1]) else t.x[1]]
                if a.name in dead or a.insts[-1].op not in ('br', 'switch'):
                    continue
                tg = targets_of(a.insts[-1])
                if tg.count(b.name) != 1 or s.name in tg:
                    continue
                at = a.insts[-1]
                if at.op == 'br':
                    at.x = [s.name if x == b.name else x for x in at.x]
                else:
                    at.x = (s.name if at.x[0] == b.name else at.x[0], [(c, s.name if x == b.name else x) for c, x in at.x[1]])
                for i in s.insts:
                    if i.op != 'phi':
                        break
                    w = [y for y, m in i.x if m == b.name]
                    i.x = list(i.x) + [(w[0], a.name)]
                    if w[0][0] == '%':
                        uses[w[0][1]] = uses.get(w[0][1], 0) + 1
                p.x = [e for e in p.x if e[1] != l]
                again = True
            if not p.x:
                dead.add(b.name)
                for l in t.x:
                    for i in f.bmap[l].insts:
                        if i.op != 'phi':
                            break
                        i.x = [e for e in i.x if e[1] != b.name]
                again = True
    if dead:
        f.blocks = [b for b in f.blocks if b.name not in dead]
        f.bmap = {b.name: b for b in f.blocks}


class View:
    """the program with a chosen set of direct calls inlined (lazily, per root)"""

    def __init__(self, prog, should_inline, limit=60000):
        self.prog = prog
        self.should = should_inline      # Func -> bool
        self.done = {}
        self.busy = []
        self.limit = limit
        self.tag = 0
        self.not_inlined = set()

    def func(self, name):
        if name in self.done:
            return self.done[name]
        f = self.prog.funcs[name]
        self.busy.append(name)
        g = copy_func(self.prog, f)
        relink(g)
        size = sum(len(b.insts) for b in g.blocks)
        work = [i for i in g.insts() if i.op == 'call']
        for c in work:
            if c.x[0] != '@':
                continue
            cf = self.prog.funcs.get(c.x[1])
            if cf is None or cf.va or not self.should(cf):
                continue
            if c.x[1] in self.busy:
                self.not_inlined.add(c.x[1])
                continue
            h = self.func(c.x[1])
            hs = sum(len(b.insts) for b in h.blocks)
            if size + hs > self.limit:
                self.not_inlined.add(c.x[1])
                continue
            size += hs
            self.tag += 1
            clone_into(self.prog, g, c, h, str(self.tag))
        thread_jumps(g)
        relink(g)
        self.busy.pop()
        self.done[name] = g
        return g
