"""C30: what the daemon starts for a user runs as that user, completely"""
import guard
from core import Report, AnalysisError
from .authspec import fieldof

SPAWN = {'g_spawn_async_with_pipes': 4, 'g_spawn_async': 4, 'g_spawn_sync': 4, 'g_spawn_async_with_fds': 4,
         'g_spawn_async_with_pipes_and_fds': 4}
EXEC = {'execv', 'execve', 'execvp', 'execvpe', 'execl', 'execlp', 'execle', 'fexecve', 'system', 'popen', 'posix_spawn', 'posix_spawnp',
        'g_spawn_command_line_async', 'g_spawn_command_line_sync'}
UID = {'setuid': 1, 'setreuid': 2, 'setresuid': 3}
GID = {'setgid': 1, 'setregid': 2, 'setresgid': 3}


class Drop(guard.Spec):
    demands = {
        'as-user': [frozenset(['gid', 'groups', 'uid']), frozenset(['not-root', 'uid']), frozenset(['no-system-user'])],
        'no-system-user': [frozenset(['virtual-users'])],
    }
    why = {'as-user': 'setgid, initgroups and setuid (in that order) to the ids of the user having succeeded',
           'no-system-user': 'the users of the daemon not being users of the system'}

    def __init__(self, ctx):
        self.ctx = ctx
        self.prog = ctx.prog
        for f in ('uid', 'username', 'configdir'):
            ctx.field_index('daemon_user', f)
        ctx.field_index('ctrlproxyd_config', 'configdir')
        self.setup = set()
        self.spawns = 0
        self.stores = 0
        for n, f in self.prog.funcs.items():
            if not f.tu.startswith('daemon/'):
                continue
            for i in f.insts():
                if i.op == 'call' and i.x[0] == '@' and i.x[1] in SPAWN:
                    self.spawns += 1
                    o = i.ops[SPAWN[i.x[1]]]
                    if o[0] == '@':
                        self.setup.add(o[1])

    def here(self, eng):
        return eng.fn.tu.startswith('daemon/')

    def ids(self, x, kind):
        """may the expression be the user's own id"""
        f = fieldof(x)
        if f is not None:
            return f in {'uid': {('daemon_user', 'uid'), ('passwd', 'pw_uid')}, 'gid': {('daemon_user', 'gid'), ('passwd', 'pw_gid')},
                         'name': {('daemon_user', 'username'), ('passwd', 'pw_name')}}[kind]
        while x.k == 'cast':
            x = x.a[3]
        return x.k == 'p'

    def field(self, st, i, addr, val, eng):
        if addr.k != 'fld':
            return None
        f = addr.a[1:3]
        if f == ('daemon_user', 'uid'):
            return {-1: ('no-system-user',), 0xffffffff: ('no-system-user',)}
        if f == ('ctrlproxyd_config', 'configdir'):
            return {'nz': ('virtual-users',)}
        return None

    def lose(self, st, i, names, args, eng):
        n = names[0] if len(names) == 1 else ''
        if n in GID or n in ('initgroups', 'setgroups'):
            return ('uid',)         # too late: there was nothing left to do it with
        return ()

    def result(self, st, i, names, args, eng):
        n = names[0] if len(names) == 1 else ''
        if n in UID:
            if all(self.ids(a, 'uid') for a in args[:UID[n]]):
                return (('z', ('uid',)), ('ge0', ('uid',)))
        elif n in GID:
            if all(self.ids(a, 'gid') for a in args[:GID[n]]):
                return (('z', ('gid',)), ('ge0', ('gid',)))
        elif n == 'initgroups':
            if self.ids(args[0], 'name') and self.ids(args[1], 'gid'):
                return (('z', ('groups',)), ('ge0', ('groups',)))
        elif n == 'setgroups':
            if st.isnull(args[0]):
                return (('z', ('groups',)), ('ge0', ('groups',)))
        elif n in ('geteuid', 'getuid'):
            return (('nz', ('not-root',)),) if n == 'geteuid' else None
        return None

    def demand_call(self, st, i, names, args, eng):
        n = names[0] if len(names) == 1 else ''
        if not self.here(eng):
            return
        if n in EXEC:
            yield 'as-user', '%s is called' % n
        elif n in SPAWN:
            a = args[SPAWN[n]]
            if not (a.k == 'g' and a.a[0] in self.setup):
                yield 'as-user', '%s is called without a function that changes the user' % n

    def demand_ret(self, st, i, val, eng):
        if eng.fn.name in self.setup:
            yield 'as-user', 'the process for a user is about to be executed'

    def demand_store(self, st, i, addr, val, eng):
        if addr.k == 'fld' and addr.a[1:3] in (('daemon_user', 'uid'), ('daemon_user', 'gid')):
            self.stores += 1
            if not self.ids(val, addr.a[2]):
                yield 'no-system-user', 'the %s of a user is set to something else than that of its account' % addr.a[2]


def run(ctx):
    spec = Drop(ctx)
    rep = Report('every function of the daemon that a process for a user runs before it executes the program returns only on paths on which '
                 'setgid, initgroups and setuid to the ids of that user were each tested to have succeeded (or the daemon is not root, or the '
                 'user is not a system user); every other way of starting a process in the daemon demands the same; the ids of a user come from '
                 'the password database')
    summ, last, hist = guard.analyse(ctx, spec)
    guard.report(ctx, rep, spec, summ, last, hist)
    rep.count('calls_that_start_a_process', spec.spawns)
    rep.count('functions_run_before_execution', len(spec.setup))
    rep.floor('calls_that_start_a_process', 1)
    rep.floor('functions_run_before_execution', 1)
    rep.floor('tests_that_establish_a_fact', 3)
    return rep
