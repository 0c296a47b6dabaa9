"""C11: files, sockets and directories that are created exclude other users from the start"""
import guard
from core import Report, AnalysisError
from .authspec import cstr

# creating functions: index of the mode, index of the flags (or None)
MODES = {'open': (2, 1), 'open64': (2, 1), 'g_open': (2, 1), 'openat': (3, 2), 'openat64': (3, 2), 'creat': (1, None), 'creat64': (1, None), 'g_creat': (1, None),
         'mkdir': (1, None), 'g_mkdir': (1, None), 'mkdirat': (2, None), 'g_mkdir_with_parents': (1, None), 'mkfifo': (1, None),
         'mknod': (1, None), 'g_mkstemp_full': (2, None), 'g_file_set_contents_full': (4, None), 'g_mkdtemp_full': (1, None)}
DIRS = ('mkdir', 'g_mkdir', 'mkdirat', 'g_mkdir_with_parents', 'g_mkdtemp_full')
# functions that create with whatever the umask leaves: index of the mode string
STREAMS = {'fopen': 1, 'fopen64': 1, 'freopen': 1, 'freopen64': 1, 'g_fopen': 1, 'g_freopen': 1, 'g_io_channel_new_file': 1}
PLAIN = ('g_file_set_contents', 'g_key_file_save_to_file', 'g_file_replace_contents', 'g_file_create', 'g_file_replace')
CHMOD = {'chmod': 1, 'g_chmod': 1, 'fchmod': 1, 'fchmodat': 2}
O_CREAT = 0o100
AF_UNIX = 1

# what is not secret, and why
PUBLIC = {
    'src/log.c': 'the log of the proxy',
    'src/log_support.c': 'logs of channels (their directories are private)',
    'src/log_custom.c': 'logs of channels',
    'src/log_irssi.c': 'logs of channels',
    'libirc/linestack.c': 'the history (its directory is private)',
}


class Private(guard.Spec):
    demands = {'private': [frozenset(['umask-private'])],
               'public': [frozenset(['umask-private']), frozenset(['certificate'])],
               'socket': [frozenset(['umask-private']), frozenset(['socket-private'])],
               'never': []}
    why = {'private': 'a mode that excludes other users', 'public': 'a mode that excludes other users',
           'socket': 'a umask that excludes other users', 'never': 'excluding other users'}

    def __init__(self, ctx):
        self.ctx = ctx
        self.prog = ctx.prog
        self.creators = {n: m for n, m in MODES.items() if n not in self.prog.funcs}
        # wrappers that take the mode as a parameter
        grown = True
        while grown:
            grown = False
            for n, f in self.prog.funcs.items():
                if n in self.creators:
                    continue
                for i in f.insts():
                    if i.op != 'call' or i.x[0] != '@' or i.x[1] not in self.creators:
                        continue
                    m, fl = self.creators[i.x[1]]
                    if m < len(i.ops) and i.ops[m][0] == '%' and i.ops[m][1] in f.params:
                        fl2 = f.params.index(i.ops[fl][1]) if fl is not None and i.ops[fl][0] == '%' and i.ops[fl][1] in f.params else None
                        self.creators[n] = (f.params.index(i.ops[m][1]), fl2)
                        grown = True

    def fn(self, eng):
        return eng.fn.name

    def public(self, i):
        return self.prog.where(i).split(':')[0] in PUBLIC

    def demand_call(self, st, i, names, args, eng):
        if i.x[0] != '@':
            return
        n = i.x[1]
        if n in self.creators:
            m, fl = self.creators[n]
            what = 'a directory is created' if n in DIRS else 'a file is created'
            if fl is not None and args[fl].k == 'c' and not args[fl].a[0] & O_CREAT:
                return
            if m >= len(args):
                if n in MODES and fl is not None:
                    yield 'never', what
                return
            mode = args[m]
            if mode.k == 'c':
                if n not in DIRS and self.public(i):
                    yield None, what
                elif mode.a[0] & 0o077:
                    yield 'private', what
                else:
                    yield None, what
            elif mode.k == 'p' and self.fn(eng) in self.creators:
                return
            else:
                yield 'private', what
            return
        if n in self.prog.funcs:
            return
        if n in STREAMS:
            m = cstr(self.prog, args[STREAMS[n]])
            if m is not None and m[:1] == 'r':
                return
            yield (None if self.public(i) else 'private'), 'a file is created'
        elif n in PLAIN:
            if len(args) > 1 and args[1].k == 'g' or self.public(i):
                yield None, 'a file is created'         # a text of the program
            elif self.pid(st, i, eng):
                yield None, 'a file is created'
            else:
                yield 'public', 'a file is created'
        elif n in CHMOD:
            mode = args[CHMOD[n]]
            yield (None if mode.k == 'c' and not mode.a[0] & 0o077 or self.public(i) else 'never'), 'the permissions of a file are changed'
        elif n == 'bind' and self.unix(st, i, args[1], eng):
            yield 'socket', 'a socket is created in the file system'

    def pid(self, st, i, eng):
        return ('F', 'pid-only') in st.ts

    def unix(self, st, i, e, eng):
        while e.k == 'cast':
            e = e.a[3]
        if e.k == 'al':
            return ('F', 'sockaddr-un') in st.ts
        return False

    def store_gains(self, st, i, addr, val, eng):
        if addr.k == 'fld' and addr.a[1] == 'sockaddr_un':
            return ('sockaddr-un',)
        return ()

    def gain(self, st, i, names, args, eng):
        n = i.x[1] if i.x[0] == '@' else None
        if n == 'umask':
            return ('umask-private',) if args[0].k == 'c' and args[0].a[0] & 0o077 == 0o077 else ()
        if n == 'fchmod' and args[1].k == 'c' and not args[1].a[0] & 0o077:
            return ('socket-private',)
        if n == 'gnutls_x509_crt_export':
            return ('certificate',)
        if n in ('snprintf', 'g_snprintf', 'sprintf') and any(a.k == 'v' and False for a in args):
            return ()
        if n == 'getpid':
            return ('pid-only',)
        return ()

    def lose(self, st, i, names, args, eng):
        n = i.x[1] if i.x[0] == '@' else None
        if n == 'umask' and not (args[0].k == 'c' and args[0].a[0] & 0o077 == 0o077):
            return ('umask-private',)
        if n in ('gnutls_x509_privkey_export', 'gnutls_x509_privkey_export_pkcs8', 'gnutls_x509_privkey_export2'):
            return ('certificate',)
        return ()


def run(ctx):
    spec = Private(ctx)
    rep = Report('every call that creates a file, directory or socket in the file system: the mode it is given is a constant without bits for group and others, '
                 'or the umask was set to exclude them on every path to it. Exempt: log files and history (%s), texts of the program itself, certificates '
                 '(the buffer was last filled by gnutls_x509_crt_export), the process id. Permissions are not widened later.' % ', '.join(sorted(PUBLIC)))
    summ, last, hist = guard.analyse(ctx, spec)
    guard.report(ctx, rep, spec, summ, last, hist)
    rep.count('creating_functions', len(spec.creators) + len(STREAMS) + len(PLAIN))
    rep.count('wrappers_with_a_mode_parameter', len([n for n in spec.creators if n not in MODES]))
    if rep.obligations < 15:
        raise AnalysisError('only %d places that create something were found' % rep.obligations)
    return rep
