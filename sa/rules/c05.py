"""C05: a connection becomes a client of the proxy only after it presented the configured password"""
import guard
from core import Report
from . import authspec


def run(ctx):
    spec = authspec.Auth(ctx)
    rep = Report('on every path to the creation of a client (client_init), to the SOCKS state in which a connection request is honoured, '
                 'and to the choice of a SOCKS method: a configured password has been compared equal to one the peer sent, or no '
                 'password is configured for that listener (global, listener, allow rules all looked at), or the backend answered PASS OK; '
                 'what a function does not establish is demanded of its callers, also through callback slots')
    summ, last, hist = guard.analyse(ctx, spec)
    guard.report(ctx, rep, spec, summ, last, hist, lambda fn, where: not where.startswith('daemon/'))
    rep.floor('tests_that_establish_a_fact', 8)
    rep.floor('functions_with_demands_on_callers', 2)
    return rep
