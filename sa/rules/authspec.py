"""When a connection counts as authenticated (C05, C06)."""
import guard
from core import AnalysisError

EQ = {'strcmp', 'base_strcmp', 'g_strcmp0', 'g_str_equal'}

PWFIELDS = {('listener_config', 'password'), ('ctrlproxy_config', 'password'), ('allow_rule', 'password')}
SENDERS = ('transport_send_line', 'transport_send_args', 'transport_send_response', 'transport_sendf', 'transport_vsendf',
           'irc_transport_send_line')


def fieldof(e):
    """(struct, member) an expression was loaded from"""
    while e.k == 'cast':
        e = e.a[3]
    if e.k == 'ld' and e.a[0].k == 'fld':
        return e.a[0].a[1:3]
    return None


def cstr(prog, e):
    if e.k == 'g':
        g = prog.globals.get(e.a[0])
        if g is not None and g.const and g.init and g.init[0] == 'str':
            return bytes(c & 255 for c in g.init[1]).split(b'\0')[0].decode('latin-1')
    return None


def slot_of(st, i, eng):
    if i.x[0] == '%':
        e = eng.val(st, i.x)
        if e.k == 'ld' and e.a[0].k == 'fld':
            return e.a[0].a[1:3]
    return None


class Auth(guard.Spec):
    demands = {
        'attach': [frozenset(['password-equal']), frozenset(['no-global-password', 'no-listener-password', 'no-rule-password']),
                   frozenset(['socks-normal'])],
        'socks-normal': [frozenset(['password-equal']), frozenset(['no-global-password', 'no-listener-password', 'no-rule-password']),
                         frozenset(['backend-ok']), frozenset(['method-needs-no-data'])],
        'method': [frozenset(['method-acceptable'])],
        'backend': [frozenset(['backend-ok']), frozenset(['backend-authenticated']), frozenset(['socks-normal'])],
        'backend-authenticated': [frozenset(['backend-ok'])],
    }
    why = {'attach': 'the password having been compared equal (or no password being configured)',
           'socks-normal': 'the credentials having been accepted',
           'method': 'acceptable() of that SOCKS method having agreed',
           'backend': "the backend having accepted the client's password",
           'backend-authenticated': "the backend having answered PASS OK"}

    def __init__(self, ctx):
        self.ctx = ctx
        self.prog = ctx.prog
        self.normal = ctx.enum('SOCKS_STATE_NORMAL')
        for s, f in PWFIELDS | {('pending_client', 'socks'), ('socks_method', 'acceptable'), ('socks_method', 'handle_data'),
                                ('daemon_backend', 'authenticated'), ('daemon_backend', 'transport')}:
            ctx.field_index(s, f)
        for n in ('client_init', 'client_init_iochannel'):
            ctx.need(n)
        self.anon = self.nodata()
        self.seen = 0

    def nodata(self):
        """the acceptable() functions of the methods that ask for no credentials"""
        out = []
        n = 0
        for g in self.prog.globals.values():
            if g.init is not None and self.prog.dt.gstruct.get(g.name) == 'struct.socks_method':
                for t, row in g.init[1]:
                    if row[0] != 'agg' or not any(x != ('c', 0) for _, x in row[1][1:]):
                        continue
                    n += 1
                    a = self.ctx.field_index('socks_method', 'acceptable')
                    h = self.ctx.field_index('socks_method', 'handle_data')
                    if row[1][h][1] == ('c', 0):
                        out.append(row[1][a][1])
        if n < 2:
            raise AnalysisError('table of SOCKS methods not found')
        return out

    def compare(self, st, i, name, args, eng):
        if name not in EQ or name == 'g_str_equal':
            return ()
        for a, b in ((0, 1), (1, 0)):
            if fieldof(args[a]) in PWFIELDS and fieldof(args[b]) not in PWFIELDS and cstr(self.prog, args[b]) is None:
                return ('password-equal',)
            if cstr(self.prog, args[a]) == 'PASS OK' and cstr(self.prog, args[b]) is None:
                return ('backend-ok',)
        return ()

    def is_state(self, addr):
        return addr.k == 'fld' and addr.a[2] == 'state' and addr.a[0].k == 'fld' and addr.a[0].a[1:3] == ('pending_client', 'socks')

    def field(self, st, i, addr, val, eng):
        if addr.k != 'fld':
            return None
        f = addr.a[1:3]
        if self.is_state(addr):
            return {self.normal: ('socks-normal',)}
        if f == ('daemon_backend', 'authenticated'):
            return {'nz': ('backend-authenticated',)}
        if f == ('ctrlproxy_config', 'password'):
            return {'z': ('no-global-password',)}
        if f == ('listener_config', 'password'):
            return {'z': ('no-listener-password',)}
        if f == ('irc_listener', 'config'):
            return {'z': ('no-listener-password', 'no-rule-password')}
        if f == ('allow_rule', 'password'):
            return {'nz': ('-no-rule-password',)}
        if f == ('listener_config', 'allow_rules'):
            return {'any': ('no-rule-password',)}      # until a rule with a password turns up
        if f == ('socks_method', 'handle_data'):
            # no credentials are asked for: whoever wants that must have been acceptable anyhow
            fs = None
            for a in self.anon:
                s = self.summ.get(a[1]) if a[0] == '@' else None
                nz = s.nz if s is not None else frozenset()
                if '*' in nz or any(alt <= nz for alt in self.demands['attach']):
                    continue
                return None
            return {'z': ('method-needs-no-data',)}
        return None

    def result(self, st, i, names, args, eng):
        if slot_of(st, i, eng) == ('socks_method', 'acceptable'):
            return (('nz', ('method-acceptable',)),)
        if not names or i.x[0] != '@':
            return None
        return None

    def demand_call(self, st, i, names, args, eng):
        n0 = names[0].split('#')[0] if len(names) == 1 else None
        if n0 in ('client_init', 'client_init_iochannel') and not self.fnname(eng) in ('client_init', 'client_init_iochannel'):
            yield 'attach', 'a client is attached'
        if n0 in SENDERS and args and fieldof(args[0]) == ('daemon_backend', 'transport'):
            if len(args) > 2 and cstr(self.prog, args[2]) == 'PASS':
                return
            yield 'backend', "something of the client's is sent to the backend"

    def fnname(self, eng):
        return eng.fn.name.split('#')[0]

    def demand_store(self, st, i, addr, val, eng):
        if self.is_state(addr):
            if val.k != 'c' or val.a[0] == self.normal:
                yield 'socks-normal', 'a SOCKS client is let through'
        elif addr.k == 'fld' and addr.a[1:3] == ('daemon_backend', 'authenticated'):
            if not st.isnull(val):
                yield 'backend-authenticated', 'the backend connection is marked authenticated'
        elif addr.k == 'fld' and addr.a[2] == 'method' and addr.a[0].k == 'fld' and addr.a[0].a[1:3] == ('pending_client', 'socks'):
            if not st.isnull(val):
                yield 'method', 'a SOCKS method is chosen'

    def exempt(self, fn):
        return fn == 'main'     # the client on standard input started the proxy itself
