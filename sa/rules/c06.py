"""C06: the daemon passes nothing on to a user's backend before that backend accepted the password"""
import guard
from core import Report
from . import authspec


def run(ctx):
    spec = authspec.Auth(ctx)
    rep = Report('on every path to a call that sends something over the transport of a backend (other than PASS), to marking the backend '
                 'connection as authenticated, and to letting a SOCKS client through: the backend answered PASS OK on that path, or the '
                 'flag/state that is only ever set after that answer was tested; what a function does not establish is demanded of its '
                 'callers, also through callback slots, when the parameter that says "accepted" is non-zero')
    summ, last, hist = guard.analyse(ctx, spec)
    guard.report(ctx, rep, spec, summ, last, hist, lambda fn, where: not where.startswith('src/'))
    n = 0
    for fn, f in ctx.prog.funcs.items():
        if f.tu.startswith('daemon/'):
            n += 1
    rep.count('functions_of_the_daemon', n)
    rep.floor('functions_of_the_daemon', 30)
    rep.floor('functions_with_demands_on_callers', 4)
    return rep
