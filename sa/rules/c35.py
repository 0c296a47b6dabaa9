"""C35: a stored services password leaves the proxy only in a message to the services nick"""
import guard
from core import Report, AnalysisError
from .authspec import fieldof, cstr

CMP = {'irccmp', 'strcmp', 'strcasecmp', 'g_strcmp0', 'g_strcasecmp', 'g_ascii_strcasecmp', 'base_strcmp', 'base_irccmp', 'ircncmp'}
# the result contains the text of the arguments
COPY = {'g_strdup', 'g_strdup_printf', 'g_strconcat', 'g_strndup', 'strdup', 'g_strjoin', 'g_strescape', 'strndup', 'g_strdup_vprintf',
        'g_markup_printf_escaped', 'g_strstrip', 'g_strchomp', 'g_strchug'}
INTO = {'snprintf': 0, 'sprintf': 0, 'g_snprintf': 0, 'strcpy': 0, 'strncpy': 0, 'g_strlcpy': 0, 'strcat': 0, 'strncat': 0, 'g_strlcat': 0,
        'memcpy': 0, 'g_string_append': 0, 'g_string_append_printf': 0, 'g_string_printf': 0}
HARMLESS = CMP | {'strlen', 'g_free', 'free', 'memset', 'g_str_equal', 'g_str_has_prefix', 'strncmp', 'strncasecmp', 'explicit_bzero'}
STORED = {'write', 'g_io_channel_write_chars', 'g_file_set_contents', 'fwrite', 'fputs'}
FACTS = ('nick-equal', 'network-equal', 'network-any')


def base(x):
    while x.k == 'cast':
        x = x.a[3]
    return x


class Secret(guard.Spec):
    demands = {
        'entry': [frozenset(['nick-equal', 'network-any']), frozenset(['nick-equal', 'network-equal'])],
        'own-client': [],
        'leak': [],
    }
    why = {'entry': 'the nick, and the network unless it is for all, of the entry having been compared equal',
           'own-client': 'the line being one that goes to the server',
           'leak': 'being a message to the services nick on the network the password was looked up for'}

    def __init__(self, ctx):
        self.ctx = ctx
        self.prog = ctx.prog
        for s, f in (('keyfile_entry', 'pass'), ('keyfile_entry', 'nick'), ('keyfile_entry', 'network'), ('global', 'nickserv_nicks'),
                     ('irc_network', 'name')):
            ctx.field_index(s, f)
        for n in ('nickserv_find_nick', 'nickserv_nick', 'network_send_args'):
            ctx.need(n)
        self.to_server = ctx.enum('TO_SERVER')
        self.idx = ctx.field_index('global', 'nickserv_nicks')
        self.users = {}
        self.filters = set()
        self.sends = 0
        for n, f in self.prog.funcs.items():
            for i in f.insts():
                if i.op == 'call' and i.x[0] == '@':
                    if i.x[1] in ('add_server_filter',) and i.ops[1][0] == '@':
                        self.filters.add(i.ops[1][1])
                    if i.x[1] == 'nickserv_find_nick':
                        self.sends += 1

    def secret_fn(self, eng):
        n = eng.fn.name
        if n not in self.users:
            self.users[n] = eng.fn.tu == 'src/keyfile.c'
            for i in eng.fn.insts():
                if i.op == 'gep' and isinstance(i.x, tuple) or i.op in ('getelementptr', 'gep'):
                    if 'struct.global' in repr(i.x) and repr(self.idx) in repr(i.ops) + repr(i.x):
                        self.users[n] = True
        return self.users[n]

    # ------------------------------------------------------------------ taint
    def tainted(self, st, x):
        return ('P', base(x)) in st.ts

    def taint(self, st, x, net):
        if x is None or x.k == 'c':
            return
        st.ts = dict(st.ts)
        st.ts['P', base(x)] = net

    def field(self, st, i, addr, val, eng):
        if addr.k != 'fld':
            return None
        f = addr.a[1:3]
        mine = eng.fn.name.split('#')[0] == 'nickserv_find_nick'
        if f == ('_GList', 'data') and mine:
            return {'lose': FACTS}
        if f == ('keyfile_entry', 'network') and mine:
            return {'z': ('network-any',)}
        if f == ('keyfile_entry', 'pass') and self.secret_fn(eng):
            self.taint(st, val, None)
        return None

    def compare(self, st, i, name, args, eng):
        if name not in CMP or name == 'ircncmp' or eng.fn.name.split('#')[0] != 'nickserv_find_nick':
            return ()
        fs = [fieldof(a) for a in args]
        if ('keyfile_entry', 'nick') in fs and not any(cstr(self.prog, a) is not None for a in args):
            return ('nick-equal',)
        if ('keyfile_entry', 'network') in fs and ('irc_network', 'name') in fs:
            return ('network-equal',)
        return ()

    def name(self, names):
        return names[0].split('#')[0] if len(names) == 1 else ''

    def result(self, st, i, names, args, eng):
        n = self.name(names)
        e = st.env.get(i.res) if i.res is not None else None
        if n == 'nickserv_find_nick':
            self.taint(st, e, args[0])
        elif n == 'nickserv_nick' and e is not None:
            st.ts = dict(st.ts)
            st.ts['N', e] = args[0]
        elif n in COPY:
            for a in args:
                if self.tainted(st, a):
                    self.taint(st, e, st.ts['P', base(a)])
        elif n in INTO:
            for a in args[1:]:
                if self.tainted(st, a):
                    self.taint(st, args[INTO[n]], st.ts['P', base(a)])
        return None

    def demand_call(self, st, i, names, args, eng):
        n = self.name(names)
        bad = [a for a in args if self.tainted(st, a)]
        if not bad or n in COPY or n in INTO or n in HARMLESS or n in STORED or n.startswith('llvm.'):
            return
        if n == 'network_send_args':
            if len(args) >= 4 and cstr(self.prog, args[1]) in ('PRIVMSG', 'NS', 'NICKSERV') and not self.tainted(st, args[2]):
                who = ('N', args[2]) in st.ts and st.ts['N', args[2]] == args[0] or cstr(self.prog, args[2]) == 'NickServ'
                if cstr(self.prog, args[1]) != 'PRIVMSG':
                    who = True
                if who and all(st.ts['P', base(a)] is None or st.ts['P', base(a)] == args[0] for a in bad):
                    yield None, 'a services password is sent'
                    return
        yield 'leak', 'a stored services password is passed to %s' % (n or 'a callback')

    def demand_store(self, st, i, addr, val, eng):
        if self.tainted(st, val) and not (addr.k == 'fld' and addr.a[1:3] == ('keyfile_entry', 'pass')):
            if addr.k not in ('a', 'alloca', 'local', 'al'):
                yield 'leak', 'a stored services password is kept elsewhere'
        if addr.k == 'fld' and addr.a[1:3] == ('keyfile_entry', 'pass') and eng.fn.name in self.filters:
            p = eng.rule.params[2]
            if st.range(p) != (self.to_server, self.to_server):
                yield 'own-client', 'a services password is learned'
            else:
                yield None, 'learned'

    def demand_ret(self, st, i, val, eng):
        if val is not None and self.tainted(st, val):
            if eng.fn.name.split('#')[0] == 'nickserv_find_nick':
                yield 'entry', 'the password of an entry is returned'
            else:
                yield 'leak', 'a stored services password is returned by %s' % eng.fn.name.split('#')[0]


def run(ctx):
    spec = Secret(ctx)
    rep = Report('the password member of a services entry, what nickserv_find_nick returns and every string made from either is passed only to '
                 'string functions, to the file it is stored in, and to network_send_args as a PRIVMSG to nickserv_nick() of the network it was '
                 'looked up for; nickserv_find_nick returns it only when the nick and (unless the entry is for all networks) the network were '
                 'compared equal for that entry; a filter stores a new password only for lines that go to the server')
    summ, last, hist = guard.analyse(ctx, spec)
    guard.report(ctx, rep, spec, summ, last, hist)
    rep.count('lookups_of_passwords', spec.sends)
    rep.floor('lookups_of_passwords', 2)
    rep.floor('tests_that_establish_a_fact', 2)
    return rep
