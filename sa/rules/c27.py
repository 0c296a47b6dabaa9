"""C27: what an event source refers to is not released while the source is pending

For every place an id of an event source is kept in (a slot) the path-sensitive
analysis follows whether the source may still be pending.  A slot whose source
only exists while another member of the object has certain values (the state of
a connection, `connected', the channel) may rely on that member, and whoever
changes the member or registers the source then has to keep up the relation.
"""
import guard
import interp
from interp import const
from core import Report, AnalysisError
from .authspec import fieldof, slot_of

# registers a source: index of the callback, of its data
ADD = {'g_timeout_add': (1, 2), 'g_timeout_add_seconds': (1, 2), 'g_timeout_add_full': (2, 3), 'g_timeout_add_seconds_full': (2, 3),
       'g_idle_add': (0, 1), 'g_idle_add_full': (1, 2), 'g_io_add_watch': (2, 3), 'g_io_add_watch_full': (3, 4),
       'g_child_watch_add': (1, 2), 'g_child_watch_add_full': (2, 3), 'g_unix_signal_add': (1, 2), 'g_unix_fd_add': (2, 3)}
REMOVE = {'g_source_remove'}
REMOVE_DATA = {'g_source_remove_by_user_data', 'g_idle_remove_by_data'}
FREE = {'g_free', 'free', 'g_slice_free1', 'g_realloc'}
PUT = {'g_list_append', 'g_list_prepend', 'g_list_insert', 'g_list_insert_sorted', 'g_slist_append', 'g_slist_prepend'}
TAKE = {'g_list_remove', 'g_slist_remove', 'g_list_remove_all'}
NET = ('irc_network_connection', 'state')
DATA = 'irc_transport_data_iochannel'
# what is logged goes to the log file and the clients of the admin network
LOG = {'log_global', 'network_log', 'listener_log', 'client_log'}
LOG_SLOTS = {('irc_network_callbacks', 'log'), ('irc_client_callbacks', 'log_fn'), ('irc_listener', 'log_fn'),
             ('irc_network_state', 'log'), ('irc_transport_callbacks', 'log')}
LENGTH = {'g_list_first', 'g_list_last', 'g_list_length', 'g_list_copy'}
NEW = {'g_malloc0', 'g_malloc0_n', 'calloc'}


def strip(e):
    while e.k == 'cast':
        e = e.a[3]
    return e


def owner(addr):
    """the object a member belongs to, through embedded structs, and its type"""
    t = None
    while addr.k in ('fld', 'idx') or addr.k == 'cast':
        if addr.k == 'fld':
            if addr.a[1] and not addr.a[1].startswith('anon'):
                t = addr.a[1]
            addr = addr.a[0]
        elif addr.k == 'idx':
            addr = addr.a[0]
        else:
            addr = addr.a[3]
    return addr, t


def key(addr):
    if addr.k != 'fld':
        return None
    s = addr.a[1]
    return ('anon' if s.startswith('anon:') else s, addr.a[2])


def name(s):
    return s[1] if s[0] == 'anon' else '%s.%s' % s


class Spec(guard.Spec):
    stable = {('network_config', 'type')}

    def __init__(self, ctx):
        self.ctx, self.prog, self.g = ctx, ctx.prog, ctx.g
        self.states = {k: ctx.enum('NETWORK_CONNECTION_STATE_' + k) for k in
                       ('NOT_CONNECTED', 'CONNECTING', 'CONNECTED', 'LOGIN_SENT', 'MOTD_RECVD', 'RECONNECT_PENDING')}
        self.virtual = ctx.enum('NETWORK_VIRTUAL')
        S = self.states
        # member that tells whether there may be a source: slots, and the values with which there may
        self.home = {NET: {('irc_network', 'reconnect_id'): {S['RECONNECT_PENDING']},
                           ('anon', 'connect_id'): {S['CONNECTING']},
                           ('anon', 'ping_id'): {S['CONNECTED'], S['LOGIN_SENT'], S['MOTD_RECVD']}},
                     ('irc_client', 'connected'): {('irc_client', 'ping_id'): None},
                     (DATA, 'incoming'): {(DATA, 'incoming_id'): None, (DATA, 'outgoing_id'): None}}
        # sources whose id is kept in an element of a list of the object they refer to
        self.listed = {('listener_iochannel', 'watch_id'): ('irc_listener', 'incoming')}
        for m in list(self.home) + list(self.listed.values()):
            ctx.field_index(*m)
        ctx.field_index('irc_network', 'references')
        ctx.field_index('global', 'networks')
        ctx.need('irc_network_unref')
        self.of = {s: m for m, t in self.home.items() for s in t}
        self.net = {name(s) for s in self.home[NET]}
        self.views = {}
        self.parts = {}
        self.scan()
        self.heads = {s[0] if s[0] != 'anon' else 'irc_network' for s in self.slots} | {t for n, i, cb, t in self.sources}
        # what the slots are members of, and what their sources refer to
        self.demands, self.why = {'unstored': [], 'closed': [frozenset('clean:' + n for n in self.net), frozenset(['virtual'])]}, {
            'unstored': 'its id being kept in the object', 'closed': 'it having been disconnected'}
        for s in self.slots:
            n = name(s)
            c = [frozenset(['clean:' + n])]
            v = [frozenset(['virtual'])] if n in self.net else []
            self.demands['free:' + n] = c + ([frozenset(['last-ref'])] if n in self.net else [])
            self.why['free:' + n] = 'the source of %s having been removed' % n
            self.demands['over:' + n] = c + v
            self.why['over:' + n] = 'the source it stood for having been removed'
            self.demands['dropped:' + n] = c + v
            self.why['dropped:' + n] = 'the source it stood for having been removed (or ending with this call)'
            up = [frozenset(['up:' + n])]
            if self.of.get(s) == NET:
                up = [frozenset(['st:%d' % k]) for k in self.home[NET][s]]
            self.demands['leave:' + n] = c + up + v
            self.why['leave:' + n] = 'the source of %s having been removed' % n
            if s in self.listed:
                self.demands['leave:' + n] = c + [frozenset(['listed:' + n])]
                self.demands['gone:' + n] = [frozenset(['none:' + n])]
                self.why['gone:' + n] = 'all its sources having been removed'

    # ----------------------------------------------------------- registrations
    def types(self, f):
        out = {}
        for i in f.insts():
            if i.op == 'gep' and isinstance(i.x, tuple) and i.x[0] == 'st' and len(i.ops) > 2 and i.ops[1] == ('c', 0):
                t = self.prog.dt.cname(i.x[1])
                if not t.startswith('anon'):
                    out.setdefault(i.ops[0], t)
        return out

    def scan(self):
        """what registers sources, with which callback, for which type; what types are released"""
        prog = self.prog
        ty = {n: self.types(f) for n, f in prog.funcs.items()}
        self.sources = []           # (function, instruction, callback, type)
        self.released = set()
        self.slots = {s for t in self.home.values() for s in t} | set(self.listed) | {
            ('pending_client', 'watch_id'), ('daemon_user', 'child_watch')}
        self.cbs = {}               # callback -> type of its data
        self.cbslot = {}
        self.datapar = {}
        change = True
        while change:               # the type of void pointers: from where they go and where they come from
            change = False

            def put(n, o, t):
                nonlocal change
                if t and o[0] == '%' and o not in ty[n]:
                    ty[n][o] = t
                    change = True
            for n, f in prog.funcs.items():
                for i in f.insts():
                    if i.op != 'call' or i.x[0] != '@':
                        continue
                    g = prog.funcs.get(i.x[1])
                    if g is not None:
                        for k, o in enumerate(i.ops[:len(g.params)]):
                            put(n, o, ty[g.name].get(('%', g.params[k])))
                    if i.x[1] in ADD:
                        c, d = ADD[i.x[1]]
                        g = prog.funcs.get(i.ops[c][1]) if i.ops[c][0] == '@' else None
                        if g is not None:
                            k = self.datapar[g.name] = 0 if i.x[1].startswith(('g_timeout', 'g_idle', 'g_unix_signal')) else 2
                            if k < len(g.params):
                                put(n, i.ops[d], ty[g.name].get(('%', g.params[k])))
                                put(g.name, ('%', g.params[k]), ty[n].get(i.ops[d]))
        for n, f in prog.funcs.items():
            geps = {}
            for i in f.insts():
                if i.op == 'gep':
                    geps[i.res] = i
            for i in f.insts():
                if i.op != 'call' or i.x[0] != '@':
                    continue
                if i.x[1] in FREE and i.ops:
                    t = ty[n].get(i.ops[-1 if i.x[1] == 'g_slice_free1' else 0])
                    if t:
                        self.released.add(t)
                if i.x[1] in ADD:
                    c, d = ADD[i.x[1]]
                    cb = i.ops[c][1] if i.ops[c][0] == '@' else None
                    t = ty[n].get(i.ops[d])
                    self.sources.append((n, i, cb, t))
                    self.cbs.setdefault(cb, t)
                    for j in f.insts():
                        if j.op == 'store' and j.ops[0] == ('%', i.res) and j.ops[1][0] == '%':
                            p = geps.get(j.ops[1][1])
                            if p is not None and isinstance(p.x, tuple) and p.x[0] == 'st' and p.ops[-1][0] == 'c':
                                s = prog.dt.cname(p.x[1])
                                s = ('anon' if s.startswith('anon') else s, prog.dt.fname(p.x[1], p.ops[-1][1]))
                                self.slots.add(s)
                                self.cbslot.setdefault(cb, s)

    def nodata(self, cb):
        return all(i.ops[ADD[i.x[1]][1]] in (('c', 0), ('null',)) for n, i, c, t in self.sources if c == cb)

    def once(self, cb):
        return all(i.x[1].startswith('g_child') for n, i, c, t in self.sources if c == cb)

    def typeof(self, fn, o):
        n = fn.name
        if n not in self.views:
            self.views[n] = self.types(fn)
        return self.views[n].get(o)

    def terminal(self, d):
        return d.startswith(('free:', 'gone:'))

    def inlined(self, n):
        """the function and what is analysed as part of it, with their calls"""
        if n not in self.parts:
            out, todo, calls = {n}, [n], []
            while todo:
                m = todo.pop()
                for i in self.prog.funcs[m].insts():
                    if i.op != 'call':
                        continue
                    ts = self.g.targets(m, i)
                    rest = []
                    for t in ts:
                        if t in self.summ or t not in self.prog.funcs:
                            rest.append(t)
                        elif t not in out:
                            out.add(t)
                            todo.append(t)
                    calls.append((m, i, rest))
            touch = False
            for m in out:
                f = self.prog.funcs[m]
                for i in f.insts():
                    if i.op == 'gep' and isinstance(i.x, tuple) and i.x[0] == 'st' and i.ops[-1][0] == 'c':
                        s = self.prog.dt.cname(i.x[1])
                        s = ('anon' if s.startswith('anon') else s, self.prog.dt.fname(i.x[1], i.ops[-1][1]))
                        if s in self.slots or s in self.home or s in self.listed.values():
                            touch = True
                    elif i.op == 'call' and i.x[0] == '@':
                        if i.x[1] in ADD or i.x[1] in REMOVE or i.x[1] in REMOVE_DATA:
                            touch = True
                        elif i.x[1] == 'irc_network_unref' and self.unlists(f):
                            touch = True
                        elif i.x[1] in FREE and self.typeof(f, i.ops[-1 if i.x[1] == 'g_slice_free1' else 0]) in self.heads:
                            touch = True
            self.parts[n] = touch, calls
        return self.parts[n]

    def unlists(self, f):
        return any(i.op == 'call' and i.x[0] == '@' and i.x[1] in TAKE for i in f.insts())

    def skip(self, n, f):
        touch, calls = self.inlined(n)
        if touch:
            return None
        may = set()
        for m, i, ts in calls:
            eff = set()
            for t in ts:
                s = self.summ.get(t)
                if s is not None and t not in LOG:
                    if s.needs:
                        return None
                    eff |= s.may
            may |= self.through(eff, self.g.slot_of_call(m, i))
        return frozenset(may)

    def initial(self, fn):
        """what holds when the main loop, or a transport, calls"""
        if fn.name in self.cbslot:
            s = self.cbslot[fn.name]
            if self.of.get(s) == NET:
                h = self.home[NET][s]
                if len(h) == 1:
                    yield 'st:%d' % min(h)
                for o, k in self.home[NET].items():
                    if not k & h:
                        yield 'clean:' + name(o)
        if fn.name in self.g.slots.get(('irc_transport_ops', 'activate'), ()):
            yield 'clean:irc_transport_data_iochannel.incoming_id'      # once, when it is given its callbacks
        if fn.name in self.g.addr_taken:
            for slot, fs in self.g.slots.items():
                if (slot[0] == 'irc_transport_callbacks' or slot == ('irc_network_callbacks', 'process_from_server')) and fn.name in fs:
                    # a network has a transport, and receives lines, from when it is connected until it is closed
                    yield 'clean:irc_network.reconnect_id'
                    yield 'clean:connect_id'
                    break

    # ------------------------------------------------------------------ facts
    def mark(self, st, *k, v=True):
        st.ts = dict(st.ts)
        st.ts[k] = v

    def unmark(self, st, *k):
        if k in st.ts:
            st.ts = dict(st.ts)
            del st.ts[k]

    def undo(self, st, facts, eng):
        """facts that no longer hold, and what would still promise them"""
        facts = set(facts)
        ts = {}
        for k, v in st.ts.items():
            if k[0] == 'F' and k[1] in facts:
                continue
            if k[0] == 'R':
                v = tuple((a, b - facts) for a, b in v if b - facts)
                if not v:
                    continue
            ts[k] = v
        st.ts = ts

    def clean(self, st, s, eng):
        eng.rule.gain(st, ('clean:' + name(s),))
        self.unmark(st, 'O', s)
        self.unmark(st, 'L', s)

    def field(self, st, i, addr, val, eng):
        k = key(addr)
        if k is None:
            return None
        if k == NET:
            t = {}
            for n, v in self.states.items():
                t[v] = ['st:%d' % v] + ['clean:' + name(s) for s, h in self.home[NET].items() if v not in h and ('O', s) not in st.ts]
                t['ne', v] = ['clean:' + name(s) for s, h in self.home[NET].items() if h == {v} and ('O', s) not in st.ts]
            return t
        if k in self.home:
            return {'z': ['clean:' + name(s) for s in self.home[k] if ('O', s) not in st.ts],
                    'nz': ['up:' + name(s) for s in self.home[k]]}
        if k in self.slots:
            if ('L', k) in st.ts or ('D', k) in st.ts:
                return None
            f = ['clean:' + name(k)]
            return {'z': f, ('le', 0): f, -1: f, 0xffffffff: f}
        for s, l in self.listed.items():
            if k == l:
                return {'z': ['none:' + name(s)]}
        if k == ('network_config', 'type'):
            return {self.virtual: ['virtual'] + ['clean:' + name(s) for s in self.home[NET] if ('O', s) not in st.ts]}
        if k == ('irc_network', 'references'):
            return {'z': ['last-ref']}
        if k[0] == '_GList' and k[1] == 'data':
            return {'lose': ['clean:' + name(s) for s in self.listed]}
        return None

    def within(self, e, p):
        """the object, or one that it leads to"""
        while e.k in ('ld', 'fld', 'idx') or e.k == 'cast':
            if e == p:
                return True
            e = e.a[0] if e.k != 'cast' else e.a[3]
        return e == p

    def one(self, names):
        return names[0].split('#')[0] if len(names) == 1 else ''

    # ----------------------------------------------------------------- stores
    def demand_store(self, st, i, addr, val, eng):
        k = key(addr)
        v = strip(val)
        if k is None:
            return
        if k in self.home:
            eng.rule.may.add('home:' + k[1])
            if k == NET:
                self.undo(st, ['st:%d' % x for x in self.states.values()], eng)
                if val.k == 'c':
                    eng.rule.gain(st, ('st:%d' % val.a[0],))
            else:
                self.undo(st, ['up:' + name(s) for s in self.home[k]], eng)
                if st.nonnull(val):
                    eng.rule.gain(st, ['up:' + name(s) for s in self.home[k]])
            have = eng.rule.facts(st)
            for s, h in self.home[k].items():
                stays = val.k == 'c' and val.a[0] in h if h else st.nonnull(val)
                if stays:
                    self.unmark(st, 'O', s)
                elif 'clean:' + name(s) not in have and (('new', owner(addr)[0]) not in st.ts or ('RG', s) in st.ts):
                    self.mark(st, 'O', s, v=('%s is changed' % k[1], owner(addr)[0]))
        elif k in self.slots:
            n = name(k)
            own, _ = owner(addr)
            reg = ('reg', v) in st.ts
            if reg:
                self.unmark(st, 'reg', v)
                if ('new', own) not in st.ts:
                    yield 'over:' + n, 'the id in %s is overwritten' % n
                self.mark(st, 'RG', k)
                self.undo(st, ['clean:' + n, 'none:' + n], eng)
                self.unmark(st, 'L', k)
                eng.rule.may.add('pend:' + n)
                have = eng.rule.facts(st)
                if k in self.listed or k in self.of and not any(a <= have for a in self.demands['leave:' + n]):
                    self.mark(st, 'O', k, v=('the source of %s is registered' % n, own))
            elif v.k == 'c':        # none
                if ('new', own) in st.ts and ('RG', k) not in st.ts:
                    self.clean(st, k, eng)
                elif 'clean:' + n not in eng.rule.facts(st):
                    if self.cbslot.get(eng.fn.name) == k and self.within(own, eng.rule.params[self.datapar[eng.fn.name]]):
                        self.mark(st, 'D', k)
                        self.clean(st, k, eng)
                    else:
                        self.mark(st, 'L', k)
            else:
                self.unmark(st, 'D', k)
                self.undo(st, ['clean:' + n], eng)
        elif k == ('global', 'networks'):
            if v.k != 'c' and ('taken', v) in st.ts:
                self.mark(st, 'unlisted')
        elif k == ('irc_network', 'references'):
            eng.rule.on_result(st, val, (('z', ['last-ref']),))
        elif ('reg', v) in st.ts:
            cb = st.ts['reg', v]
            t = self.cbs.get(cb)
            self.unmark(st, 'reg', v)
            if (t is None or t in self.released) and not self.nodata(cb):
                yield 'unstored', 'the source that calls %s is registered' % str(cb).split('#')[0]
        for s, l in self.listed.items():
            if k == l:
                self.undo(st, ['none:' + name(s)], eng)
                if ('put', v) in st.ts:
                    eng.rule.gain(st, ('listed:' + name(s),))
                elif ('taken', v) in st.ts:
                    yield 'free:' + name(s), 'what holds the id of a source is taken out of %s' % l[1]

    # ------------------------------------------------------------------ calls
    def effects(self, st, i, names, eng):
        """what a call may do to slots"""
        out = set()
        for n in names:
            s = self.summ.get(n)
            if s is not None and n not in LOG:
                out |= s.may
        return self.through(out, slot_of(st, i, eng))

    def through(self, out, slot):
        if slot and (slot[0] == 'virtual_network_ops' or slot in LOG_SLOTS):
            return set()            # a command to a network inside the proxy; it has no sources itself
        if slot and slot[0] == 'irc_transport_callbacks':
            out = {x if x.startswith('up ') else 'up ' + x for x in out}     # only with a transport
        return out

    def demand_call(self, st, i, names, args, eng):
        n = self.one(names)
        if n in ADD:
            return
        eff = self.effects(st, i, names, eng)
        if eff:
            touched = {x.split(' ')[-1] for x in eff}
            for k in [k for k in st.ts if k[0] == 'O']:
                m = self.of.get(k[1])
                if 'pend:' + name(k[1]) in touched or m and 'home:' + m[1] in touched:
                    if ('new', st.ts[k][1]) not in st.ts:       # else nobody knows it yet
                        yield 'leave:' + name(k[1]), st.ts[k][0]
        if n in FREE and args:
            k = -1 if n == 'g_slice_free1' else 0
            t = self.typeof(eng.fn, i.ops[k])
            e = strip(args[k])
            if t:
                for s in self.slots:
                    o = s[0] if s[0] != 'anon' else 'irc_network'
                    if t == o:
                        if ('new', e) in st.ts and ('RG', s) not in st.ts:
                            yield None, ''
                        else:
                            yield 'free:' + name(s), '%s is released' % t
                    elif self.refers(s, t):
                        if ('new', e) in st.ts and ('RG', s) not in st.ts:
                            yield None, ''
                            continue
                        yield ('gone:' if s in self.listed else 'free:') + name(s), '%s is released' % t
        if n == 'irc_network_unref' and ('unlisted',) in st.ts:
            yield 'closed', 'the last reference to a network is given up'

    def refers(self, s, t):
        return any(self.cbslot.get(cb) == s and d == t for n, i, cb, d in self.sources)

    def invalidate(self, st, i, names, args, eng):
        eff = self.effects(st, i, names, eng)
        if not eff:
            return
        eng.rule.may |= eff
        have = eng.rule.facts(st)
        if 'st:%d' % self.states['NOT_CONNECTED'] in have:
            eff = {x for x in eff if not x.startswith('up ')}
        lost = set()
        for x in eff:
            kind, m = x.split(' ')[-1].split(':')
            if kind == 'pend':
                lost |= {'clean:' + m, 'none:' + m}
            elif m == NET[1]:
                lost |= {'st:%d' % v for v in self.states.values()}
            else:
                for h, t in self.home.items():
                    if h[1] == m:
                        lost |= {'up:' + name(s) for s in t}
        if lost:
            self.undo(st, lost, eng)
            st.ts = {k: v for k, v in st.ts.items() if not (k[0] == 'O' and any(
                y.split(' ')[-1] in ('pend:' + name(k[1]), 'home:' + self.of.get(k[1], ('', ''))[1]) for y in eff))}

    def gain(self, st, i, names, args, eng):
        n = self.one(names)
        e = st.env.get(i.res) if i.res is not None else None
        if n in REMOVE:
            s = None
            x = strip(args[0])
            if x.k == 'ld' and x.a[0].k == 'fld':
                s = key(x.a[0])
            if s in self.slots:
                self.clean(st, s, eng)
        elif n in REMOVE_DATA:
            for s in self.slots:
                if self.refers(s, self.typeof(eng.fn, i.ops[-1])):
                    self.clean(st, s, eng)
        elif n in ADD and e is not None:
            c, d = ADD[n]
            self.mark(st, 'reg', strip(e), v=args[c].a[0] if args[c].k == 'g' else '?')
            if n.startswith('g_io'):
                x = strip(args[0])
                if x.k == 'ld' and x.a[0].k == 'fld' and key(x.a[0]) in self.home:
                    eng.rule.gain(st, ['up:' + name(s) for s in self.home[key(x.a[0])]])
        elif n in PUT and e is not None:
            self.mark(st, 'put', strip(e))
        elif n in TAKE and e is not None:
            self.mark(st, 'taken', strip(e))
        elif n in NEW and e is not None:
            self.mark(st, 'new', strip(e))
        return ()

    def result(self, st, i, names, args, eng):
        if self.one(names) in LENGTH and args:
            l = next((x for x in eng.fn.insts() if x.op == 'load' and ('%', x.res) == i.ops[0]), None)
            t = self.field(st, i, eng.val(st, l.ops[0]), args[0], eng) if l is not None else None
            if t and set(t) == {'z'} and t['z'][0].startswith('none:'):
                return tuple(t.items())

    def demand_ret(self, st, i, val, eng):
        mine = self.cbslot.get(eng.fn.name)
        for k in list(st.ts):
            if k[0] == 'O':
                if k[1] == mine and val is not None and st.isnull(val):
                    continue        # it ends with this call
                yield 'leave:' + name(k[1]), st.ts[k][0]
            elif k[0] == 'L':
                yield 'dropped:' + name(k[1]), 'the id in %s is forgotten' % name(k[1])
            elif k[0] == 'D' and not self.once(eng.fn.name) and (val is None or not st.isnull(val)):
                yield 'unstored', 'the source of %s may stay, its id was forgotten' % name(k[1])
            elif k[0] == 'reg':
                t = self.cbs.get(st.ts[k])
                if (t is None or t in self.released) and not self.nodata(st.ts[k]):
                    yield 'unstored', 'the source that calls %s is registered' % str(st.ts[k]).split('#')[0]


def run(ctx):
    spec = Spec(ctx)
    rep = Report('every registration of an event source whose data may be released stores the id in a member (slot) of it; on every path to the '
                 'release of the object, of what holds the slot, or to giving up a network, the source of the slot has been removed or is known not '
                 'to be there; a slot is not overwritten or cleared while its source is pending; where the state of a connection, `connected\' of a '
                 'client or the channel of a transport tell whether there is a source, whoever changes them has removed it')
    summ, last, hist = guard.analyse(ctx, spec)
    guard.report(ctx, rep, spec, summ, last, hist)
    rep.count('registrations_of_event_sources', len(spec.sources))
    rep.count('slots', len(spec.slots))
    rep.floor('registrations_of_event_sources', 10)
    rep.floor('tests_that_establish_a_fact', 10)
    for n, i, cb, t in spec.sources[:6]:
        rep.samples.append('%s registers %s for %s' % (n.split('#')[0], str(cb).split('#')[0], t))
    return rep
