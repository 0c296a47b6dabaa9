"""C26: released memory is not used, released again, or left where later events find it"""
import re
import uaf
from core import Report

FN = re.compile(r'\(([\w.]+)\)')


def chain_text(c):
    return '->'.join(str(x[2]) if x[0] == 'fld' else '[]' for x in c if x[0] != 'ld')


def run(ctx):
    rep = Report('on every path: a value that was released (by a library release function, or by a project function that releases that '
                 'parameter on its paths) is not read or written through, passed on, returned or released again; and when it becomes '
                 'unreachable for the code at hand, no member of a live object and no global still holds it, unless a caller releases '
                 'or overwrites that member')
    last, summ, hist = uaf.analyse(ctx)
    prog, g = ctx.prog, ctx.g
    called = set()
    for n, f in prog.funcs.items():
        for i in f.insts():
            if i.op == 'call':
                called.update(g.targets(n, i))
    ev = 0
    for n in sorted(last):
        to, f, ob, e, stale = last[n]
        rep.obligations += ob
        ev += e
        if to:
            rep.timeouts.append(n)
        for where, fn, how, expr, w, trail in f.values():
            m = FN.search(where)
            rep.find('use|%s|%s|%s' % (m.group(1) if m else fn, how, re.sub(r'\d+', '', expr)), where,
                     'the value %s, released at %s, is %s' % (expr, w, how), trail)
        for (root, chain), (where, w, expr, trail) in stale.items():
            m = FN.search(w)
            rep.find('left|%s|%s|%s' % (m.group(1) if m else n, root.split('#')[0], chain_text(chain)), w,
                     'the value released here stays in %s->%s, where later code finds it (not overwritten until %s)'
                     % ('the object' if root == 'object' else root, chain_text(chain), where), trail)
    for n, s in summ.items():
        if n in called:
            continue            # judged at the callers
        for (p, chain), w in s.dangling.items():
            m = FN.search(w)
            rep.find('left|%s|arg%d|%s' % (m.group(1) if m else n, p, chain_text(chain)), w,
                     'the value released here stays in the object given to %s (member %s), which nothing in the program calls '
                     'directly: the next event finds it' % (n.split('#')[0], chain_text(chain)))
    rep.discharged = rep.obligations - len(rep.findings)
    rep.count('functions_analysed_as_roots', len(last))
    rep.count('release_events', ev)
    rep.count('functions_releasing_a_parameter', sum(1 for s in summ.values() if s.frees))
    rep.count('functions_taking_a_reference', sum(1 for s in summ.values() if s.refs))
    rep.count('functions_leaving_a_released_member_to_their_callers', sum(1 for s in summ.values() if s.dangling))
    rep.count('fixpoint_rounds', len(hist))
    rep.samples = ['%s releases parameter %s' % (n.split('#')[0], sorted(s.frees)) for n, s in sorted(summ.items()) if s.frees][:12]
    rep.floor('functions_analysed_as_roots', 300)
    rep.floor('release_events', 300)
    rep.floor('functions_releasing_a_parameter', 15)
    return rep
