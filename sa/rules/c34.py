"""C34: the proxy answers a query from its own state only when it has all of the answer"""
import guard
from core import Report, AnalysisError
from .authspec import fieldof, cstr

COMPLETE = {
    'client_send_nameslist': ('names', 'the list of nicks of a channel'),
    'client_send_banlist': ('bans', 'the ban list of a channel'),
    'client_send_channel_mode': ('modes', 'the modes of a channel'),
    'client_send_topic': ('topic', 'the topic of a channel'),
}


def terms(e, sign=1, out=None):
    """sum of signed atoms"""
    out = [] if out is None else out
    while e.k == 'cast' and e.a[0] in ('sext', 'zext', 'trunc'):
        e = e.a[3]
    if e.k == 'bin' and e.a[0] in ('add', 'sub'):
        terms(e.a[1], sign, out)
        terms(e.a[2], sign if e.a[0] == 'add' else -sign, out)
    else:
        out.append((sign, e))
    return out


class Cache(guard.Spec):
    demands = {
        'names': [frozenset(['channel', 'names-received', 'no-names-running', 'no-more-arguments-2'])],
        'bans': [frozenset(['channel', 'bans-received', 'no-bans-running', 'asks-for-bans', 'no-more-arguments-3'])],
        'modes': [frozenset(['channel', 'mode-received', 'no-more-arguments-2'])],
        'topic': [frozenset(['channel', 'names-received', 'no-more-arguments-2'])],
        'who': [frozenset(['channel', 'names-received', 'no-names-running', 'all-checked', 'no-more-arguments-2'])],
        'enabled': [frozenset(['cache-enabled'])],
        'connected': [frozenset(['connected'])],
        'never': [],
        'in-366': [frozenset(['in-366'])],
        'in-368': [frozenset(['in-368'])],
        'in-324': [frozenset(['in-324'])],
        'in-352': [frozenset(['in-352'])],
        'names-running': [frozenset(['names-running'])],
        'bans-running': [frozenset(['bans-running'])],
    }
    why = {'names': 'having received all of it since joining, and being asked just for it',
           'bans': 'having received all of it, and being asked just for it',
           'modes': 'having received them, and being asked just for them',
           'topic': 'having received what the server sends on joining, and being asked just for it',
           'who': 'having all nicks and information that is recent enough',
           'enabled': 'the cache being enabled for that network',
           'connected': 'the network being connected',
           'in-366': 'the server having sent 366 (end of names)',
           'in-368': 'the server having sent 368 (end of ban list)',
           'in-324': 'the server having sent 324 (channel mode)',
           'in-352': 'the server having sent 352 (WHO reply)',
           'names-running': 'namreply_started being set',
           'bans-running': 'banlist_started being set',
           'never': 'one being the consequence of the other'}

    def __init__(self, ctx):
        self.ctx = ctx
        self.prog = ctx.prog
        for s, f in (('irc_channel_state', 'namreply_started'), ('irc_channel_state', 'banlist_started'), ('irc_channel_state', 'mode_received'), ('irc_channel_state', 'names_received'),
                     ('irc_channel_state', 'chanmode_nicklist_present'), ('channel_nick', 'last_update'), ('cache_settings', 'max_who_age'),
                     ('network_config', 'implicit')):
            ctx.field_index(s, f)
        for n in ('client_try_cache', 'find_channel', 'client_send_response') + tuple(COMPLETE):
            ctx.need(n)
        self.connected = ctx.enum('NETWORK_CONNECTION_STATE_MOTD_RECVD')
        self.who = 352   # RPL_WHOREPLY, RFC 1459
        self.bit = self.bitfield('disable_cache')
        self.answers = set()
        for n in list(self.prog.globals):
            g = self.prog.globals[n]
            if g.init is not None and self.prog.dt.gstruct.get(g.name) == 'struct.cache_command':
                for t, row in g.init[1]:
                    if row[0] == 'agg':
                        for _, x in row[1]:
                            if x[0] == '@' and x[1] in self.prog.funcs:
                                self.answers.add(x[1])
        self.handlers = {}
        for g in self.prog.globals.values():
            if g.init is not None and self.prog.dt.gstruct.get(g.name) == 'struct.irc_command':
                for t, row in g.init[1]:
                    if row[0] == 'agg':
                        name = self.string(row[1][0][1])
                        for _, x in row[1]:
                            if x[0] == '@' and x[1] in self.prog.funcs:
                                self.handlers.setdefault(x[1], set()).add(name)
        for n in ('353', '366', '367', '368', '324', '352'):
            if not any(n in s for s in self.handlers.values()):
                raise AnalysisError('no handler for %s found in the table of commands of the server' % n)
        if len(self.answers) < 4:
            raise AnalysisError('table of cached commands not found (%d functions)' % len(self.answers))

    def string(self, x):
        g = self.prog.globals.get(x[1]) if x[0] == '@' else None
        if g is not None and g.init and g.init[0] == 'str':
            return bytes(c & 255 for c in g.init[1]).split(b'\0')[0].decode('latin-1')
        return None

    def initial(self, fn):
        return ['in-' + n for n in self.handlers.get(fn.name, ()) if n in ('366', '368', '324', '352')]

    def handles(self, eng, *names):
        return any(n in self.handlers.get(eng.fn.name, ()) for n in names)

    def flag(self, addr):
        a = addr
        if a.k == 'idx' and a.a[0].k == 'fld' and a.a[0].a[2] == 'chanmode_nicklist_present':
            return 'bans' if a.a[2].k != 'c' or a.a[2].a[0] == ord('b') else None
        if a.k == 'fld':
            return {('irc_channel_state', 'names_received'): 'names', ('irc_channel_state', 'mode_received'): 'mode',
                    ('channel_nick', 'last_update'): 'who', ('irc_channel_state', 'namreply_started'): 'names-started',
                    ('irc_channel_state', 'banlist_started'): 'bans-started'}.get(a.a[1:3])
        return None

    def demand_store(self, st, i, addr, val, eng):
        f = self.flag(addr)
        if f and self.prog.where(i).startswith('libirc/linestack.c'):
            return          # a copy read back from a log, which no query is answered from
        if f in ('names-started', 'bans-started'):
            if not st.nonnull(val):
                yield {'n': 'in-366', 'b': 'in-368'}[f[0]], 'receiving a list of %s ends' % ('nicks' if f[0] == 'n' else 'bans')
        elif f and not st.isnull(val):
            yield {'names': 'in-366', 'bans': 'in-368', 'mode': 'in-324', 'who': 'in-352'}[f], {
                'names': 'the list of nicks is marked complete', 'bans': 'a list of a channel mode is marked complete',
                'mode': 'the modes are marked known', 'who': 'information on a nick is marked up to date'}[f]

    def store_gains(self, st, i, addr, val, eng):
        f = self.flag(addr)
        if f in ('names-started', 'bans-started') and st.nonnull(val):
            return (f.split('-')[0] + '-running',)
        return ()

    def bitfield(self, name):
        import re
        for m in getattr(self.prog, 'modules', None) or self.prog.mods:
            for raw in m.md.values():
                if 'DIDerivedType(' in raw and 'name: "%s"' % name in raw and 'DIFlagBitField' in raw:
                    o = int(re.search(r'offset: (\d+)', raw).group(1))
                    s = int(re.search(r'extraData: i64 (\d+)', raw).group(1))
                    return o - s
        raise AnalysisError('bit field %s no longer exists' % name)

    def bits(self, e):
        """the bits of the member the expression is non-zero for: [(bit, where it is now)]"""
        if e.k == 'cast':
            return self.bits(e.a[3])
        if e.k == 'ld' and e.a[0].k == 'fld' and e.a[0].a[1:3] == ('network_config', 'implicit'):
            return [(b, b) for b in range(8)]
        if e.k == 'bin' and e.a[2].k == 'c':
            x = self.bits(e.a[1])
            n = e.a[2].a[0]
            if x is None:
                return None
            if e.a[0] == 'shl':
                return [(b, p + n) for b, p in x if p + n < 8]
            if e.a[0] == 'ashr':
                return [(b, max(p - n, 0)) for b, p in x if p >= n or p == 7]
            if e.a[0] == 'lshr':
                return [(b, p - n) for b, p in x if p >= n]
            if e.a[0] == 'and':
                return [(b, p) for b, p in x if n >> p & 1]
        return None

    def mine(self, eng):
        return eng.fn.name in self.answers or eng.fn.name == 'client_try_cache'

    def field(self, st, i, addr, val, eng):
        if not self.mine(eng):
            f = self.flag(addr)
            if f in ('names-started', 'bans-started') and self.handles(eng, '353', '367'):
                return {'nz': (f.split('-')[0] + '-running',)}
            if addr.k == 'fld' and addr.a[2] == 'state' and self.forwards(eng):
                return {self.connected: ('connected',)}
            return None
        a = addr
        if a.k == 'idx' and a.a[0].k == 'fld' and a.a[0].a[2] == 'chanmode_nicklist_present':
            x = a.a[2]
            if x.k == 'c' and x.a[0] == ord('b'):
                return {'nz': ('bans-received',)}
            return None
        if a.k == 'idx' or a.k == 'ld':
            v = a.a[0] if a.k == 'idx' else a
            n = a.a[2] if a.k == 'idx' else None
            if v.k == 'ld' and v.a[0].k == 'fld' and v.a[0].a[1:3] == ('irc_line', 'args') and n is not None and n.k == 'c':
                if n.a[0] in (2, 3):
                    return {'z': ('no-more-arguments-%d' % n.a[0],) + (('no-more-arguments-3',) if n.a[0] == 2 else ())}
                return None
            if v.k == 'ld' and v.a[0].k == 'idx':
                return {ord('b'): ('asks-for-bans',)}
            return None
        if a.k != 'fld':
            return None
        f = a.a[1:3]
        # every nick of the list has to pass the test of its age before the list is gone through to answer
        if f == ('irc_channel_state', 'nicks'):
            if ('F', 'nicks-seen') not in st.ts:
                return {'any': ('nicks-seen', 'all-fresh')}
            return {'any': ('all-checked',)} if ('F', 'all-fresh') in st.ts else None
        if f == ('_GList', 'data') and ('F', 'all-fresh') in st.ts:
            return {'lose': ('all-fresh', 'fresh'), 'any': ('fresh-so-far',)}
        if f == ('_GList', 'next') and ('F', 'fresh-so-far') in st.ts:
            return {'lose': ('fresh', 'fresh-so-far'), 'any': ('all-fresh',) if ('F', 'fresh') in st.ts else ()}
        if f == ('irc_channel_state', 'names_received'):
            return {'nz': ('names-received',)}
        if f == ('irc_channel_state', 'namreply_started'):
            return {'z': ('no-names-running',)}
        if f == ('irc_channel_state', 'banlist_started'):
            return {'z': ('no-bans-running',)}
        if f == ('irc_channel_state', 'mode_received'):
            return {'nz': ('mode-received',)}
        if f == ('irc_line', 'argc'):
            # a line without words asks for nothing
            return {0: ('answered',), ('le', 2): ('no-more-arguments-2', 'no-more-arguments-3'), ('le', 3): ('no-more-arguments-3',)}
        return None

    def forwards(self, eng):
        for i in eng.fn.insts():
            if i.op == 'call' and i.x[0] == '@' and i.x[1] == 'client_try_cache':
                return True
        return False

    def cond(self, st, i, cond, taken, eng):
        neg = not taken
        while cond.k == 'bin' and cond.a[0] == 'xor' and cond.a[2].k == 'c':
            cond, neg = cond.a[1], not neg
        if cond.k == 'icmp' and cond.a[0] in ('eq', 'ne') and cond.a[2] is guard.ZERO and (cond.a[0] == 'eq') != neg:
            x = self.bits(cond.a[1])
            if x and self.bit in [b for b, p in x]:
                return ['cache-enabled']
        if not self.mine(eng):
            return []
        if cond.k != 'icmp' or cond.a[0] in ('eq', 'ne'):
            return []
        t = terms(cond.a[1]) + terms(cond.a[2], -1)
        lu = [s for s, e in t if fieldof(e) == ('channel_nick', 'last_update')]
        age = [s for s, e in t if fieldof(e) == ('cache_settings', 'max_who_age')]
        if len(lu) == 1 and len(age) == 1 and lu == age:
            greater = cond.a[0][1] == 'g'
            if neg:
                greater = not greater
            if greater == (lu[0] > 0):
                return ['fresh']
            return ['-fresh', 'stale']
        return []

    def name(self, names):
        return names[0].split('#')[0] if len(names) == 1 else ''

    def result(self, st, i, names, args, eng):
        if self.mine(eng) and self.name(names) == 'find_channel':
            return (('nz', ('channel',)),)
        return None

    def gain(self, st, i, names, args, eng):
        n = self.name(names)
        if self.mine(eng) and (n in COMPLETE or n.startswith('client_send_')):
            return ('answered',)
        return ()

    def demand_call(self, st, i, names, args, eng):
        n = self.name(names)
        if n == 'client_try_cache':
            yield 'enabled', 'a query is answered from the cache'
            yield 'connected', 'a query is answered from the cache'
        if n == 'find_add_channel_nick' and self.handles(eng, '353'):
            yield 'names-running', 'a nick of a list that is being received is added'
        if n == 'nicklist_add_entry' and self.handles(eng, '367'):
            yield 'bans-running', 'a ban of a list that is being received is added'
        if not self.mine(eng):
            return
        if n in COMPLETE:
            d, what = COMPLETE[n]
            yield d, what + ' is given from the cache'
        elif n == 'client_send_response' and args[1].k == 'c' and args[1].a[0] == self.who:
            if ('F', 'stale') in st.ts:
                yield 'never', 'information that is too old is given from the cache'
            yield 'who', 'information on a nick is given from the cache'

    def demand_ret(self, st, i, val, eng):
        if not self.mine(eng):
            return
        have = eng.rule.facts(st)
        if val is not None and not st.nonnull(val):
            s2 = st.copy()
            if s2.assume_cmp('eq', val, guard.ZERO):
                yield ('never' if 'answered' in eng.rule.facts(s2) else None), 'a query that was answered from the cache is also passed on'
        if val is not None and not st.isnull(val):
            s2 = st.copy()
            if s2.assume_cmp('ne', val, guard.ZERO):
                yield ('never' if 'answered' not in eng.rule.facts(s2) else None), 'a query that was not answered is not passed on'


def run(ctx):
    spec = Cache(ctx)
    rep = Report('in every function of the table of cached commands: each kind of answer is reached only on paths on which the channel was found, '
                 'the query had no further arguments, and the members of the channel that say the data is complete and not just being received again '
                 'were tested; WHO replies only after the age of what is known was compared for every nick of the list; a function that returns TRUE has answered, and one '
                 'that returns FALSE has not; the cache is asked only when enabled and connected; the members that say that '
                 'something is complete are set only by the handler of the reply that completes it, and those that say it is being received before anything is added')
    summ, last, hist = guard.analyse(ctx, spec)
    guard.report(ctx, rep, spec, summ, last, hist)
    rep.count('cached_commands', len(spec.answers))
    rep.floor('tests_that_establish_a_fact', 10)
    return rep
