"""C12: replies from the server go to the client that asked

Tables: every `struct query` in an initialiser is read and compared with the replies
that RFC 1459 and RFC 2812 give for the command.  Code: the functions that search,
fill and empty the stack of queries, those that deliver a reply that was matched and
those that send a query are interpreted path by path, with internal helpers inlined.
"""
import interp
from interp import mk, mkicmp, const, ZERO
from core import Report, AnalysisError, parallel
from rules.authspec import slot_of

QUERY, ENTRY, STACK = 'query', 'query_stack_entry', 'query_stack'
LISTS = ('replies', 'end_replies', 'errors')
SIZE = 20

# RFC 1459 section 6 and RFC 2812 section 3/5: replies in the middle, last replies, errors
ORACLE = {
    'WHOIS': ((311, 312, 313, 317, 319, 301, 401), (318,), (402, 431)),
    'WHO': ((352,), (315,), (402,)),
    'NAMES': ((353,), (366,), (402,)),
    'LIST': ((321, 322), (323,), (402,)),
    'TOPIC': ((), (331, 332), (461, 442, 482, 477)),
    'WHOWAS': ((314, 312, 406), (369,), (431,)),
    'STATS': ((211, 212, 242, 243), (219,), (402,)),
    'VERSION': ((), (351,), (402,)),
    'LINKS': ((364,), (365,), (402,)),
    'TIME': ((), (391,), (402,)),
    'TRACE': ((200, 201, 202, 203, 204, 205, 206, 208, 209), (262,), (402,)),
    'SUMMON': ((), (342,), (411, 424, 444, 445, 402)),
    'USERS': ((392, 393, 395), (394,), (424, 446, 402)),
    'USERHOST': ((), (302,), (461,)),
    'ISON': ((), (303,), (461,)),
    'INVITE': ((), (341, 301), (461, 442, 401, 443, 482)),
    'MOTD': ((375, 372), (376,), (422,)),
    'ADMIN': ((256, 257, 258), (259,), (402, 423)),
    'INFO': ((371,), (374,), (402,)),
    'SERVLIST': ((234,), (235,), ()),
    'OPER': ((), (381,), (461, 491, 464)),
    'LUSERS': ((251, 252, 253, 254), (255,), (402,)),
    'MODE': ((367, 348, 346), (221, 324, 368, 349, 347, 325), (461, 441, 467, 477, 482, 472, 501, 502, 403)),
    'AWAY': ((), (305, 306), ()),
    'REHASH': ((), (382,), (481,)),
    'SERVICE': ((), (383,), (462, 461, 432)),
    'KILL': ((), (), (481, 461, 401, 483)),
    'JOIN': ((), (), (461, 473, 475, 471, 476, 403, 405, 474)),
    'KICK': ((), (), (461, 476, 441, 403, 482, 442)),
    'PART': ((), (), (461, 403, 442)),
    'NICK': ((), (), (431, 433, 437, 432, 436, 484)),
    'PASS': ((), (), (461, 462)),
    'USER': ((), (), (461, 462)),
    'QUIT': ((), (), ()),
    'PRIVMSG': ((), (301,), (411, 412, 404, 413, 414, 407, 401)),
    'SQUERY': ((), (301,), (411, 412, 404, 413, 414, 407, 401)),
    'NOTICE': ((), (), ()),
    'PING': ((), (), (409,)),
    'PONG': ((), (), (409, 402)),
    'DIE': ((), (), (481,)),
    'RESTART': ((), (), (481,)),
    'SQUIT': ((), (), (481, 461, 402)),
    'CONNECT': ((), (), (402, 461, 481)),
    'WALLOPS': ((), (), (461,)),
}
NUMBER = {'atoi', 'strtol', 'strtoul', 'g_ascii_strtoll', 'g_ascii_strtoull'}
# queries that may be left out when the line is a change and no question
REFUSE = {'TOPIC'}
DELIVER, ALL = 'client_send_line', {'clients_send', 'clients_send_args_ex', 'clients_send_state'}
APPEND, PREPEND = {'g_list_append'}, {'g_list_prepend'}
REMOVE = {'g_list_remove', 'g_list_remove_all', 'g_list_remove_link', 'g_list_delete_link'}
MATCH, RECORD, SEND, REDIRECT = 'query_stack_match_response', 'query_stack_record', 'network_send_line', 'redirect_response'


# ----------------------------------------------------------------- tables
def flat(ty, v):
    """numbers of a list of codes, as far as the end mark"""
    if v[0] == 'agg':
        out = []
        for t, x in v[1]:
            r = flat(t, x)
            out += r
            if r and r[-1] == 0:
                break
        return out
    if v[0] == 'c':
        return [int(v[1])]
    return [0]


def rows(ctx):
    """(global, name, lists, handler) of every query in an initialiser"""
    out = []

    def row(g, a):
        fs = ctx.dt.fields['struct.' + QUERY]
        if len(a[1]) < len(fs):
            return
        v = dict(zip(fs, a[1]))
        name = None
        n = v['name'][1]
        if n[0] == '@':
            gi = ctx.prog.globals[n[1]]
            if gi.init is not None and gi.init[0] == 'str':
                name = bytes(c & 255 for c in gi.init[1]).split(b'\0')[0].decode('latin1')
        lists = {k: [c for c in flat(*v[k]) if c] for k in LISTS}
        h = v['handle'][1]
        out.append((g, name, lists, h[1] if h[0] == '@' else None))

    for g in ctx.prog.globals.values():
        if g.init is None or ctx.dt.gstruct.get(g.name) != 'struct.' + QUERY or g.init[0] != 'agg':
            continue
        els = g.init[1]
        if els and all(x[0] in ('agg', 'zero') for t, x in els) and not (els[0][1][0] == 'agg' and els[0][1][1] and els[0][1][1][0][0] == 'i32'):
            for t, x in els:
                if x[0] == 'agg':
                    row(g, x)
        else:
            row(g, g.init)
    return out


def tables(ctx, rep):
    allowed = {}
    for n, (m, e, x) in ORACLE.items():
        for c in [c for c in m + e if c < 400]:
            allowed.setdefault(c, set()).add(n)
    rs = rows(ctx)
    seen = {}
    for g, name, L, h in rs:
        rep.count('queries_in_the_table')
        where = g.name.replace('#', ' in ')
        who = name or '(unknown command)'
        if name is not None and h is None:
            rep.ob(False, '%s|handler' % who, where, 'the query %s has no handler' % who)
        both = set(L['replies']) & set(L['end_replies'] + L['errors'])
        rep.ob(not both, '%s|both|%s' % (who, sorted(both)), where, '%s: %s is listed as in the middle and as the end' % (who, sorted(both)))
        if name is None:
            for k in LISTS:
                for c in L[k]:
                    rep.ob(c not in allowed, '%s|foreign|%d' % (who, c), where, '%s: %d answers %s' % (who, c, '/'.join(sorted(allowed.get(c, ())))))
            continue
        up = name.upper()
        rep.ob(up not in seen, '%s|twice' % up, where, 'the query %s is listed twice' % up)
        seen[up] = (L, h, where)
        for k in LISTS:
            for c in L[k]:
                rep.ob(c not in allowed or up in allowed[c], '%s|foreign|%d' % (up, c), where,
                       '%s: %d is listed, but answers %s' % (up, c, '/'.join(sorted(allowed.get(c, ())))), sample='%s: %d' % (up, c))
    for n, (m, e, x) in sorted(ORACLE.items()):
        if not rep.ob(n in seen, '%s|missing' % n, 'table of queries', 'the query %s is not listed' % n):
            continue
        L, h, where = seen[n]
        fin = set(L['end_replies'] + L['errors'])
        for c in m:
            rep.ob(c in L['replies'], '%s|mid|%d' % (n, c), where, '%s: %d comes in the middle of the reply, but is not listed so' % (n, c))
        for c in e:
            rep.ob(c in fin, '%s|end|%d' % (n, c), where, '%s: %d ends the reply, but is not listed so' % (n, c))
        for c in x:
            rep.ob(c in fin, '%s|error|%d' % (n, c), where, '%s: error %d ends the query, but is not listed' % (n, c))
    return rs


# ------------------------------------------------------------------- code
class Base(interp.Rule):
    maxstates = 24
    pure = interp.Rule.pure | {'atoi'}
    nomod = {'time', 'atoi'}

    def __init__(self, ctx, rep, name):
        self.ctx, self.prog, self.rep, self.name = ctx, ctx.prog, rep, name
        self.bad = set()

    def find(self, what, i, st, eng):
        if what not in self.bad:
            self.bad.add(what)
            n = self.name.split('#')[0]
            self.rep.find('%s|%s' % (n, what), self.prog.where(i), '%s: %s' % (n, what), eng.trail(st))

    def ob(self, ok, what, i, st, eng):
        self.rep.obligations += 1
        if ok:
            self.rep.discharged += 1
        else:
            self.find(what, i, st, eng)

    def set(self, st, **kw):
        ts = dict(st.ts)
        for k, v in kw.items():
            if v is None:
                ts.pop(k, None)
            else:
                ts[k] = v
        st.ts = ts

    def one(self, names):
        return names[0].split('#')[0] if len(names) == 1 else None

    def fld(self, a, s, m=None):
        return a.k == 'fld' and a.a[1] == s and (m is None or a.a[2] == m)

    def ldof(self, e, s, m):
        return e.k == 'ld' and self.fld(e.a[0], s, m)

    def slot(self, i, names):
        """through which member is called"""
        s = self.ctx.g.slot_of_call(self.fn, i) if False else None
        return s


def within(e):
    out = []
    while isinstance(e, interp.E):
        out.append(e)
        e = e.a[0] if e.a else None
    return out


def elem(a):
    """(query, list) of an address of a code in a list"""
    while a.k == 'idx':
        a = a.a[0]
    if a.k == 'fld' and a.a[1] == QUERY and a.a[2] in LISTS:
        return a.a[0], a.a[2]
    return None


class Stack(Base):
    """searching, filling and emptying the stack"""

    def __init__(self, ctx, rep, name, matcher):
        Base.__init__(self, ctx, rep, name)
        self.matcher = matcher      # compares codes
        self.inserts, self.moves = set(), set()
        self.refuses = False
        self.compared = False
        self.noted = False

    # what is known about the entry that is looked at
    def drop(self, st):
        st.ts = {k: v for k, v in st.ts.items() if k not in ('e', 'node', 'ud', 'last', 'ref', 'early', 'unref', 'removed', 'freed', 'eb')
                 and not k.startswith(('el:', 'in:', 'out:', 'sc:'))}

    def final(self, st):
        return 'in:end_replies' in st.ts or 'in:errors' in st.ts or 'out:replies' in st.ts

    def normal(self, st):
        ts = st.ts
        new = {}
        n = ts.get('n')
        for k in LISTS:
            v = ts.get('el:' + k)
            if v is None:
                continue
            z = st.truth(mkicmp('eq', v, ZERO))
            m = st.truth(mkicmp('eq', v, n)) if n is not None else None
            if z is True:
                new.update({'out:' + k: True, 'el:' + k: None})
            elif m is True:
                new.update({'in:' + k: True, 'el:' + k: None})
            elif z is False and m is False:
                new['el:' + k] = None
        if new:
            self.set(st, **new)
            ts = st.ts
        for k in LISTS:
            if 'in:' + k in ts and 'out:' + k in ts:
                return 'dead'
        if 'in:replies' in ts and ('in:end_replies' in ts or 'in:errors' in ts):
            return 'dead'       # the tables are such
        return None

    def branch(self, st, i, cond, taken, eng):
        if cond is not None and cond.k == 'icmp' and 'last' in st.ts:
            for x in cond.a[1:3]:
                if x.k != 'c' and st.range(x)[0] >= SIZE and 'el:' + st.ts['last'] not in st.ts:
                    self.set(st, **{'out:' + st.ts['last']: True})
        if cond is not None and cond.k == 'icmp' and cond.a[0] in ('eq', 'ne') and (cond.a[0] == 'eq') == bool(taken):
            for k in LISTS:
                v = st.ts.get('el:' + k)
                if v is not None and st.ts.get('n') is not None and {cond.a[1], cond.a[2]} == {v, st.ts['n']}:
                    self.set(st, **{'in:' + k: True, 'el:' + k: None})
        return self.normal(st)

    def enter(self, st, b, eng):
        self.normal(st)
        if b in eng.headers and eng.frm in eng.loopof[b] and 'cmp' in st.ts:
            self.set(st, cmp=None)
        if b in eng.headers and eng.frm in eng.loopof[b] and st.ts.get('eb') in eng.loopof[b]:
            self.leave(st, eng.frm.insts[-1], eng)

    def leave(self, st, i, eng):
        """the entry is not looked at any more"""
        ts = st.ts
        if 'e' not in ts:
            return
        if self.matcher and 'removed' not in ts:
            if any('in:' + k in ts for k in LISTS):
                self.ob(False, 'a query that the line is a reply to is passed over', i, st, eng)
            else:
                self.ob(all('out:' + k in ts for k in LISTS), 'a query is passed over before all of its replies were compared', i, st, eng)
        self.balance(st, i, eng)
        self.drop(st)

    def balance(self, st, i, eng):
        ts = st.ts
        r, u, f = 'removed' in ts, ts.get('unref', 0), 'freed' in ts
        if u and f and not r:
            self.set(st, loose=True)
            return
        if r or u or f:
            self.ob(f, 'an entry that was removed is not released', i, st, eng)
            self.ob(u == 1, 'the reference of an entry that was removed is not given up once', i, st, eng)
            self.ob(r, 'an entry that is released stays in the list', i, st, eng)

    def loaded(self, st, i, a, v, eng):
        if self.fld(a, '_GList'):
            if a.a[2] == 'data':
                if st.ts.get('e') is not v:
                    self.leave(st, i, eng)
                    self.set(st, e=v, node=a.a[0], eb=i.bb)
            else:
                self.moves.add(a.a[2])
        if self.fld(a, 'irc_line', 'argc'):
            st.setrange(v, 1, interp.INF)       # no line is without a command
            if self.handler:
                self.set(st, argc=v)
        x = elem(a)
        if x:
            q, k = x
            self.compared = True
            if not (self.ldof(q, ENTRY, 'query') and q.a[0].a[0] is st.ts.get('e')):
                return
            if 'sc:' + k not in st.ts:
                self.ob(a.k != 'idx' or a.a[-1] is ZERO, 'the first of the replies is not compared', i, st, eng)
            self.set(st, **{'el:' + k: v, 'last': k, 'sc:' + k: True})
            self.normal(st)
        if self.fld(a, ENTRY, 'userdata') and a.a[0] is st.ts.get('e') and 'ud' not in st.ts:
            self.set(st, ud=v)

    def store(self, st, i, a, v, eng):
        ts = st.ts
        if self.fld(a, ENTRY) and a.a[0] is not ts.get('e'):
            if 'new' in ts and ts['new'] is not a.a[0]:
                self.ob(False, 'several entries are made', i, st, eng)
            self.set(st, new=a.a[0])
            if a.a[2] == 'userdata':
                self.set(st, nud=v)
            elif a.a[2] == 'query':
                self.set(st, nq=v)
        elif self.fld(a, ENTRY) and a.a[2] in ('userdata', 'query'):
            self.ob(False, 'the %s of an entry is changed' % ('client' if a.a[2] == 'userdata' else 'query'), i, st, eng)
        elif self.fld(a, STACK, 'entries'):
            if ts.get('rem') is v:
                self.set(st, rem=None, removed=True)
            elif ts.get('app') is v:
                self.set(st, app=None, ins=ts.get('ins', 0) + 1)
            elif st.isnull(v):
                self.set(st, reset=True)
        elif self.fld(a, STACK) and a.a[2] in ('ref_userdata', 'unref_userdata'):
            want = 0 if a.a[2] == 'ref_userdata' else 1
            self.ob(v.k == 'p' and v.a[1] == want, 'the functions that take and give up references are mixed up', i, st, eng)

    def call(self, st, i, names, args, eng):
        n = self.one(names)
        s = slot_of(st, i, eng)
        ts = st.ts
        if s == (STACK, 'ref_userdata'):
            if args[0] is ts.get('ud'):
                self.set(st, ref=ts.get('ref', 0) + 1)
            else:
                self.set(st, refd=(ts.get('refd') or ()) + (args[0],))
        elif s == (STACK, 'unref_userdata'):
            a = args[0]
            if a is ts.get('ud') or self.ldof(a, ENTRY, 'userdata') and a.a[0].a[0] is ts.get('e'):
                self.set(st, unref=ts.get('unref', 0) + 1)
                if 'ref' not in ts:
                    self.set(st, early=True)
            else:
                self.ob('e' not in ts, 'the reference of another entry is given up', i, st, eng)
        elif s == (QUERY, 'handle'):
            self.noted = True
            self.handle(st, i, args, eng)
        elif n in ('g_free', 'free'):
            if args[0] is ts.get('e'):
                self.ob('freed' not in ts, 'an entry is released twice', i, st, eng)
                self.set(st, freed=True)
            elif args[0] is ts.get('new'):
                self.set(st, new=None)
        elif n in ('g_list_free', 'g_list_free_full', 'g_list_free_1') and self.ldof(args[0], STACK, 'entries'):
            self.set(st, loose=None)
        return None

    def after(self, st, i, names, args, eng):
        n = self.one(names)
        ts = st.ts
        e = st.env.get(i.res) if i.res is not None else None
        if e is None:
            return
        if n in NUMBER and any(x.k == 'ld' and self.fld(x.a[0], 'irc_line', 'args') for a in args[:1] for x in within(a)):
            self.set(st, n=e)
        elif n in REMOVE and self.ldof(args[0], STACK, 'entries'):
            if args[1] is ts.get('e') or args[1] is ts.get('node'):
                self.set(st, rem=e)
            else:
                self.ob('e' not in ts, 'another entry is removed', i, st, eng)
        elif n in APPEND | PREPEND and self.ldof(args[0], STACK, 'entries'):
            if args[1] is ts.get('new'):
                self.set(st, app=e)
                self.inserts.add(n)
            elif args[1] is ts.get('e'):
                self.ob(False, 'the order of the queries is changed', i, st, eng)
        elif n == 'g_list_last':
            self.moves.add('last')
        elif n in ('g_list_reverse', 'g_list_sort') and self.ldof(args[0], STACK, 'entries'):
            self.ob(False, 'the order of the queries is changed', i, st, eng)
        elif n == 'base_strcmp' and len(args) == 2:
            self.set(st, cmp=(e, args[0], args[1]))

    def handle(self, st, i, args, eng):
        """a query is noted: by its own handler, for the client and the line that were given"""
        f = self.fn
        want = {0: 'line', 1: 'stack', 2: 'client'}
        self.ob('handled' not in st.ts, 'a line is noted twice', i, st, eng)
        for k, what in want.items():
            self.ob(args[k].k == 'p', 'the query is noted with another %s' % what, i, st, eng)
        if args[0].k == args[1].k == args[2].k == 'p':
            self.ob(len({x.a[1] for x in args[:3]}) == 3, 'the query is noted with arguments mixed up', i, st, eng)
        s = self.ctx.g and i
        q = args[3]
        target = None
        # the handler is that of the query that is noted
        self.set(st, handled=True)
        if q.k == 'g':
            g = self.prog.globals.get(q.a[0])
            if g is not None and g.name in self.unknown:
                return
        c = st.ts.get('cmp')
        ok = False
        if c is not None and st.truth(mkicmp('eq', c[0], ZERO)):
            for a, b in ((c[1], c[2]), (c[2], c[1])):
                if self.ldof(a, QUERY, 'name') and interp.strip(b).k == 'ld' and same(a.a[0].a[0], q):
                    ok = True
        self.ob(ok, 'the query that is noted is not the one that the line is', i, st, eng)

    def ret(self, st, i, val, eng):
        self.normal(st)
        ts = st.ts
        if self.matcher:
            rep = [k for k in LISTS if 'in:' + k in ts]
            if val is not None and 'ud' in ts and val is ts['ud']:
                self.rep.count('replies_matched')
                self.ob(bool(rep), 'a client is found without the line being a reply to its query', i, st, eng)
                self.ob(ts.get('ref') == 1, 'the client that is found comes without a reference', i, st, eng)
                self.ob('early' not in ts, 'the reference of the entry is given up before another one was taken', i, st, eng)
                if 'in:replies' in ts:
                    self.ob('removed' not in ts, 'a query in progress is removed', i, st, eng)
                elif self.final(st):
                    self.ob('removed' in ts, 'a query that has ended is kept', i, st, eng)
                else:
                    self.ob(False, 'it is not known whether the query has ended', i, st, eng)
                self.balance(st, i, eng)
            elif val is None or st.isnull(val):
                self.leave(st, i, eng)
            else:
                self.ob(False, 'the result is not the client of the query', i, st, eng)
        else:
            self.leave(st, i, eng)
        ts = st.ts
        self.ob('rem' not in ts and 'app' not in ts, 'the changed list is not kept', i, st, eng)
        self.ob('loose' not in ts, 'entries that are released stay in the list', i, st, eng)
        if 'new' in ts:
            self.rep.count('queries_noted')
            self.ob(ts.get('ins') == 1, 'a query is not put into the list once', i, st, eng)
            u = ts.get('nud')
            self.ob(u is not None and u.k == 'p', 'another client is noted', i, st, eng)
            self.ob(u is not None and list(ts.get('refd') or ()).count(u) == 1, 'the client of an entry is not referenced once', i, st, eng)
            q = ts.get('nq')
            self.ob(q is not None and q.k == 'p', 'another query is noted', i, st, eng)
        elif 'refd' in ts:
            self.ob(False, 'a client is referenced without an entry', i, st, eng)
        if self.handler:
            if 'new' not in ts:
                self.refuses = True
                v = ts.get('argc')
                self.ob(v is not None and st.range(v)[0] > 2, 'a query without a new value is left out', i, st, eng)
            if val is not None:
                self.ob(st.isnull(val) if 'new' not in ts else st.nonnull(val), 'the result does not tell whether the query was noted', i, st, eng)
        if self.recorder:
            self.ob('handled' in ts, 'a line is not noted', i, st, eng)


def same(a, b):
    return a is b or a.k == 'idx' and b.k == 'g' and a.a[0] is b and a.a[-1] is ZERO or b.k == 'idx' and a.k == 'g' and b.a[0] is a and b.a[-1] is ZERO


class Deliver(Base):
    """a reply that was matched: to that client alone"""

    def call(self, st, i, names, args, eng):
        n = self.one(names)
        ts = st.ts
        m = ts.get('m')
        if n == MATCH:
            self.ob('m' not in ts, 'a line is matched twice', i, st, eng)
            self.set(st, line=args[1], sent=0, un=0)
        elif m is None:
            return None
        elif n == DELIVER:
            if args[0] is m:
                self.ob(args[1] is ts['line'], 'another line is delivered', i, st, eng)
                self.ob(not ts['un'], 'the client is used after its reference was given up', i, st, eng)
                self.set(st, sent=ts['sent'] + 1)
            else:
                self.ob(st.isnull(m), 'a reply to the query of one client is sent to another', i, st, eng)
        elif n in ALL:
            self.ob(st.isnull(m), 'a reply to the query of one client is sent to all', i, st, eng)
        elif n == 'client_unref' and args[0] is m:
            self.set(st, un=ts['un'] + 1)
        return None

    def after(self, st, i, names, args, eng):
        if self.one(names) == MATCH:
            e = st.env.get(i.res) if i.res is not None else None
            self.ob(e is not None, 'the client that is found is not used', i, st, eng)
            if e is not None:
                self.set(st, m=e)

    def ret(self, st, i, val, eng):
        ts = st.ts
        m = ts.get('m')
        if m is None or st.isnull(m):
            return
        s = st.copy()
        if not s.assume_cmp('ne', m, ZERO):
            return
        self.rep.count('deliveries')
        self.ob(ts['sent'] == 1, 'a reply is not delivered once to the client that asked', i, st, eng)
        self.ob(ts['un'] == 1 or val is m, 'the reference to the client is not given up once', i, st, eng)
        if val is not None and val is not m:
            self.ob(s.nonnull(val), 'it is not told that the reply was delivered', i, st, eng)


class Caller(Base):
    """what was delivered to one client does not go to the others, now or later"""

    def call(self, st, i, names, args, eng):
        n = self.one(names)
        ts = st.ts
        if n == REDIRECT:
            self.ob(args[2] not in ts.get('all', ()), 'a reply is sent to all and to the client that asked', i, st, eng)
            self.set(st, line=args[2])
        elif n in ALL:
            self.set(st, all=(ts.get('all') or ()) + (args[1],))
            if args[1] is ts.get('line'):
                self.ob(False, 'a reply is sent to all and to the client that asked', i, st, eng)
        elif n == 'linestack_insert_line' and 'r' in ts and args[1] is ts.get('line'):
            self.rep.count('replies_remembered')
            self.ob(st.isnull(ts['r']), 'a reply to the query of one client is remembered for the others', i, st, eng)
        return None

    def after(self, st, i, names, args, eng):
        if self.one(names) == REDIRECT:
            e = st.env.get(i.res) if i.res is not None else None
            self.rep.count('replies_redirected')
            if e is not None:
                self.set(st, r=e)
            else:
                self.ob(False, 'it is not looked at whether a reply was delivered', i, st, eng)

    def ret(self, st, i, val, eng):
        pass


class Forward(Base):
    """a line of a client is noted, for that client, and then sent"""

    def call(self, st, i, names, args, eng):
        n = self.one(names)
        ts = st.ts
        if n == RECORD:
            self.rep.count('lines_noted')
            self.ob('rec' not in ts, 'a line is noted twice', i, st, eng)
            self.ob(args[1].k == 'p', 'a line is noted for another client', i, st, eng)
            self.set(st, rec=args[2])
        elif n == SEND and (args[2].k in ('p', 'al') or not st.isnull(args[1])):
            self.rep.count('lines_forwarded')
            self.ob(ts.get('rec') is args[2], 'a line is sent that was not noted before', i, st, eng)
            self.set(st, rec=None, fwd=True)
        return None

    def ret(self, st, i, val, eng):
        if 'rec' in st.ts:
            self.ob(False, 'a line is noted that is not sent', i, st, eng)


def run(ctx):
    prog = ctx.prog
    rep = Report('the lists of replies of every query are compared with those of RFC 1459 and RFC 2812 (middle, end, errors, nothing that answers another '
                 'command); path-sensitive typestate of the entry that is looked at: passed over only when the line is in none of its lists, returned with a '
                 'reference only when it is in one, removed and released exactly when it is not in the middle; entries hold one reference to the client that was '
                 'given and leave in the order they came; a matched line goes once to its client and to nobody else, nor into the backlog; lines are noted before they are sent')
    rs = tables(ctx, rep)
    if not rs:
        raise AnalysisError('no table of queries found')
    unknown = {g.name for g, n, L, h in rs if n is None}
    handlers = {h for g, n, L, h in rs if h}
    codes = {ctx.field_index(QUERY, k) for k in LISTS}
    touch, match, rec, callers = set(), set(), set(), {}
    for n, f in prog.funcs.items():
        for i in f.insts():
            if i.op == 'gep' and i.x in (('st', 'struct.' + ENTRY), ('st', 'struct.' + STACK)):
                touch.add(n)
            if i.op == 'gep' and i.x == ('st', 'struct.' + QUERY):
                touch.add(n)
            if i.op == 'call' and i.x[0] == '@':
                callers.setdefault(i.x[1], set()).add(n)
    view = ctx.b.view(should=lambda f: f.internal and len(f.blocks) < 60)

    def roots_of(start):
        roots, seen, todo = set(), set(), list(start)
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            f = prog.funcs[n]
            if n in ctx.g.addr_taken or not f.internal:
                roots.add(n)
            if f.internal:
                todo.extend(callers.get(n, ()))
        return roots

    jobs = [('stack', n) for n in sorted(roots_of(touch))]
    jobs += [('deliver', n) for n in sorted(roots_of(callers.get(MATCH, ())))]
    jobs += [('caller', n) for n in sorted(roots_of(callers.get(REDIRECT, ())))]
    jobs += [('forward', n) for n in sorted(roots_of(callers.get(RECORD, set()) | callers.get(SEND, set())))]
    for k, n in jobs:
        view.func(n)

    def reads_codes(fn):
        return any(i.op == 'gep' and i.x == ('st', 'struct.' + QUERY) and len(i.ops) > 2 and i.ops[2][0] == 'c' and i.ops[2][1] in codes for i in fn.insts())

    def calls_slot(fn):
        return any(i.op == 'call' and i.x[0] == '%' for i in fn.insts())

    def one(job):
        kind, n = job
        r = Report()
        fn = view.func(n)
        if kind == 'stack':
            rule = Stack(ctx, r, n, reads_codes(fn))
            rule.unknown = unknown
            rule.handler = n in handlers
            rule.recorder = n == RECORD
        else:
            rule = {'deliver': Deliver, 'caller': Caller, 'forward': Forward}[kind](ctx, r, n)
        rule.fn = fn
        interp.Engine(prog, ctx.g, rule, fn, maxsteps=600000).run()
        r.count('functions_interpreted')
        if kind == 'stack':
            return r, rule.inserts, rule.moves if rule.matcher else set(), rule.refuses
        return r, set(), set(), False

    ins, moves, refuse = set(), set(), set()
    for (kind, n), x in zip(jobs, parallel(one, jobs)):
        if x[0] == 'timeout':
            raise AnalysisError('analysis of %s not finished: %s' % (n, x[2]))
        r, a, m, z = x
        rep.merge(r)
        ins |= a
        moves |= m
        if z:
            refuse.add(n)
    if ins and moves:
        back = 'prev' in moves or 'last' in moves
        ok = (ins <= APPEND and not back) or (ins <= PREPEND and back and 'next' not in moves)
        rep.ob(ok, 'order', 'libirc/redirect.c', 'queries are added with %s, but searched from the other end' % '/'.join(sorted(ins)))
    for g, name, L, h in rs:
        if h in refuse:
            rep.ob(name is not None and name.upper() in REFUSE, '%s|refuses' % name, g.name.replace('#', ' in '),
                   'the handler %s of %s may leave the query out' % (h.split('#')[0], name))
    # stacks that are set up
    for n, f in prog.funcs.items():
        for i in f.insts():
            if i.op == 'call' and i.x == ('@', 'new_query_stack'):
                ok = all(o[0] == '@' for o in i.ops[:2])
                rep.count('stacks')
                rep.ob(ok and i.ops[0] != i.ops[1] and releases(ctx, i.ops[1][1]) and not releases(ctx, i.ops[0][1]), '%s|references' % n.split('#')[0], prog.where(i),
                       '%s: the functions given to take and to give up references are not such' % n.split('#')[0])
    rep.floor('functions_interpreted', 6)
    rep.assumptions = ['RFC 1459 and RFC 2812 say which replies follow a command; replies that they do not know may be listed anywhere']
    return rep


def releases(ctx, n):
    seen, todo = set(), [n]
    while todo:
        x = todo.pop()
        if x in ('g_free', 'free'):
            return True
        if x in seen or x not in ctx.prog.funcs:
            continue
        seen.add(x)
        for i in ctx.prog.funcs[x].insts():
            if i.op == 'call' and i.x[0] == '@':
                todo.append(i.x[1])
    return False
