"""C16: no data over a TLS link that was not set up as asked for"""
import guard
from core import Report, AnalysisError
from .authspec import fieldof

RECORD = ('gnutls_record_recv', 'gnutls_record_send', 'gnutls_record_recv_seq', 'gnutls_record_send2', 'gnutls_record_recv_packet')
CERT_INVALID = 2
CRT_X509 = 1
E_REHANDSHAKE = -37


def base(x):
    while x.k == 'cast':
        x = x.a[3]
    return x


class Tls(guard.Spec):
    SETUP = ('handshake', 'not-client', 'no-ca', 'verify-ran', 'chain-valid', 'name-matches', 'no-x509')
    demands = {
        'data': [frozenset(['established'])],
        'established': [frozenset(['handshake', x]) for x in ('not-client', 'no-ca')] +
                       [frozenset(['handshake', 'verify-ran', 'chain-valid', x]) for x in ('name-matches', 'no-x509')],
        'ca-recorded': [frozenset(['ca-recorded'])],
        'channel-complete': [frozenset(['type-stored', 'cred-stored', 'host-stored'])],
        'tls': [frozenset(['no-tls']), frozenset(['wrapped']), frozenset(['not-tcp'])],
        'never': [],
    }
    why = {'data': 'the TLS session having been established',
           'established': 'the handshake having succeeded and, for a server when a CA file is given, its certificate chain and host name having been verified',
           'ca-recorded': 'recording that certificates have to be verified',
           'channel-complete': 'storing the kind of peer, the credentials and the host name that decide on verification',
           'tls': 'TLS having been set up on the connection (or not being asked for)',
           'never': 'TLS'}
    register = {'g_io_add_watch': 2, 'g_io_add_watch_full': 3}

    def maxstates(self, fn):
        for i in fn.insts():
            if i.op == 'call' and i.x[0] == '@' and (i.x[1] in RECORD or i.x[1] == 'gnutls_handshake'):
                return 100
        return 24

    def matters(self, eng):
        """does the function, or one it calls, use a connection to a server"""
        if getattr(eng, 'c16', None) is None:
            eng.c16 = False
            for i in eng.fn.insts():
                if i.op != 'call':
                    continue
                for n in ([i.x[1]] + [o[1] for o in i.ops if o[0] == '@'] if i.x[0] == '@' else self.ctx.g.targets(eng.fn.name, i)):
                    s = self.summ.get(n)
                    if n == 'irc_transport_new_iochannel' or s is not None and any(d == 'tls' for d, _ in s.needs):
                        eng.c16 = True
        return eng.c16

    def __init__(self, ctx):
        self.ctx = ctx
        self.prog = ctx.prog
        for s, f in (('tcp_server_config', 'ssl'), ('irc_listener', 'ssl'), ('network_config', 'type'), ('pending_client', 'connection'),
                     ('irc_network', 'ssl_credentials'), ('tcp_server_config', 'host')):
            ctx.field_index(s, f)
        for n in ('ssl_wrap_iochannel', 'ssl_get_client_credentials', 'network_set_iochannel', 'irc_transport_new_iochannel'):
            ctx.need(n)
        self.client = ctx.enum('SSL_TYPE_CLIENT')
        self.tcp = ctx.enum('NETWORK_TCP')
        self.chan, self.cred = self.types()
        self.records = self.wraps = 0
        for n, f in self.prog.funcs.items():
            for i in f.insts():
                if i.op == 'call' and i.x[0] == '@':
                    self.records += i.x[1] in RECORD
                    self.wraps += i.x[1] == 'ssl_wrap_iochannel'

    def types(self):
        """the structures that describe a channel and credentials"""
        chan = [s for s, f in self.prog.dt.fields.items() if 'established' in f and 'session' in f]
        cred = [s for s, f in self.prog.dt.fields.items() if 'have_ca_file' in f]
        if len(chan) != 1 or len(cred) != 1:
            raise AnalysisError('the TLS channel structures no longer exist (%s, %s)' % (chan, cred))
        s = lambda n: n[7:] if n.startswith('struct.') else n
        return s(chan[0]), s(cred[0])

    def field(self, st, i, addr, val, eng):
        if ('S', addr) in st.ts:
            return {('nobits', CERT_INVALID): ('chain-valid',)}
        if addr.k != 'fld':
            return None
        f = addr.a[1:3]
        if f == (self.chan, 'established'):
            return {'nz': ('established',)}
        if f == (self.chan, 'type'):
            return {('ne', self.client): ('not-client',)}
        if f == (self.cred, 'have_ca_file'):
            return {'z': ('no-ca',)}
        if f == ('irc_listener', 'ssl') or f == ('tcp_server_config', 'ssl') and self.matters(eng):
            return {'z': ('no-tls',)}
        if f == ('network_config', 'type') and self.matters(eng):
            return {('ne', self.tcp): ('not-tcp',)}
        return None

    def name(self, names):
        return names[0].split('#')[0] if len(names) == 1 else ''

    def lose(self, st, i, names, args, eng):
        n = self.name(names)
        if n == 'gnutls_handshake':
            return self.SETUP
        if n == 'gnutls_certificate_verify_peers2' or n == 'gnutls_certificate_verify_peers3':
            st.ts = dict(st.ts)
            st.ts['S', args[-1]] = True
            return ('verify-ran', 'chain-valid')
        return ()

    def result(self, st, i, names, args, eng):
        n = self.name(names)
        if n == 'gnutls_handshake':
            return (('ge0', ('handshake',)), ('z', ('handshake',)))
        if n == 'gnutls_certificate_verify_peers2':
            return (('ge0', ('verify-ran',)), ('z', ('verify-ran',)))
        if n == 'gnutls_certificate_verify_peers3':
            f = ('verify-ran', 'name-matches') if self.host(st, args[1]) else ('verify-ran',)
            return (('ge0', f), ('z', f))
        if n in ('gnutls_x509_crt_check_hostname', 'gnutls_x509_crt_check_hostname2'):
            return (('nz', ('name-matches',)),) if self.host(st, args[1]) else None
        if n in ('gnutls_certificate_type_get', 'gnutls_certificate_type_get2'):
            return ((('ne', CRT_X509), ('no-x509',)),)
        if n in RECORD:
            return ((E_REHANDSHAKE, ('-established',)),)
        if n == 'ssl_wrap_iochannel':
            return (('nz', ('wrapped',)),)
        return None

    def host(self, st, x):
        f = fieldof(x)
        if f is not None:
            return f == (self.chan, 'hostname')
        return base(x).k == 'p'

    def gain(self, st, i, names, args, eng):
        if self.name(names) == 'ssl_wrap_iochannel':
            st.ts = dict(st.ts)
            st.ts['W', args[0]] = True
        return ()

    def demand_call(self, st, i, names, args, eng):
        n = self.name(names)
        if n in RECORD:
            yield 'data', '%s is called' % n
        elif n == 'ssl_wrap_iochannel':
            if fieldof(args[3]) == ('irc_network', 'ssl_credentials'):
                if args[1].k != 'c' or args[1].a[0] != self.client:
                    yield 'never', 'a connection to a server is not set up as client side of'
                if fieldof(args[2]) != ('tcp_server_config', 'host') and base(args[2]).k != 'p':
                    yield 'never', 'the host name to verify is not that of the server in setting up'
        elif n == 'irc_transport_new_iochannel':
            if eng.fn.name.split('#')[0] == 'network_set_iochannel' or self.at(i, 'libirc/connection.c'):
                yield 'tls', 'a connection to a server is used'
        if n == 'g_io_add_watch' or (names and all(x in self.prog.funcs for x in names)):
            if n != 'ssl_wrap_iochannel' and not n.endswith('_log'):
                for a in args:
                    if ('W', a) in st.ts and ('F', 'wrapped') in st.ts:
                        yield 'never', 'the unwrapped channel is passed to %s despite' % (n or 'a function')

    def at(self, i, tu):
        return self.prog.where(i).split(':')[0].endswith(tu)

    def demand_store(self, st, i, addr, val, eng):
        if addr.k != 'fld':
            return
        f = addr.a[1:3]
        if f == (self.chan, 'established') and not st.isnull(val):
            yield 'established', 'a TLS session is marked as established'
        elif f == ('pending_client', 'connection') and not st.isnull(val):
            yield 'tls', 'a connection from a client is used'
            if ('W', val) in st.ts and ('F', 'wrapped') in st.ts:
                yield 'never', 'the unwrapped channel is kept despite'

    def store_gains(self, st, i, addr, val, eng):
        if addr.k != 'fld':
            return ()
        f = addr.a[1:3]
        if f == (self.chan, 'established') and st.nonnull(val):
            return ('established',)
        if f == (self.cred, 'have_ca_file') and st.nonnull(val):
            return ('ca-recorded',)
        if f == (self.chan, 'type') and base(val).k == 'p':
            return ('type-stored',)
        if f == (self.chan, 'cred') and base(val).k == 'p':
            return ('cred-stored',)
        if f == (self.chan, 'hostname') and not st.isnull(val):
            return ('host-stored',)
        return ()

    def store_loses(self, st, i, addr, val, eng):
        if addr.k != 'fld':
            return ()
        f = addr.a[1:3]
        if f == (self.chan, 'established') and not st.nonnull(val):
            return ('established',) + self.SETUP
        if f == (self.chan, 'established'):
            return self.SETUP       # have served their purpose
        if f == (self.cred, 'have_ca_file') and not st.nonnull(val):
            return ('ca-recorded',)
        return ()

    def demand_ret(self, st, i, val, eng):
        n = eng.fn.name.split('#')[0]
        if n == 'ssl_get_client_credentials' and not st.isnull(val):
            ca = next(iter(eng.rule.params), None)
            if ca is not None and not st.isnull(ca):
                yield 'ca-recorded', 'credentials for a CA file are returned'
        elif n == 'ssl_wrap_iochannel' and not st.isnull(val):
            yield 'channel-complete', 'a TLS channel is returned'


def run(ctx):
    spec = Tls(ctx)
    rep = Report('gnutls_record_recv/send are called only on paths on which the session is marked established; it is so marked only after the '
                 'handshake succeeded and (kind of peer is not a server, or no CA file was given, or gnutls_certificate_verify_peers2 ran, did not '
                 'set GNUTLS_CERT_INVALID, and the host name of an X.509 certificate matched); a renegotiation takes the mark away; credentials '
                 'for a CA file and channels record what decides on that; a connection to a server or from a client for which TLS is configured '
                 'is used only as wrapped by ssl_wrap_iochannel')
    summ, last, hist = guard.analyse(ctx, spec)
    guard.report(ctx, rep, spec, summ, last, hist)
    rep.count('record_calls', spec.records)
    rep.count('calls_that_set_up_tls', spec.wraps)
    rep.floor('record_calls', 2)
    rep.floor('calls_that_set_up_tls', 2)
    rep.floor('tests_that_establish_a_fact', 10)
    return rep
