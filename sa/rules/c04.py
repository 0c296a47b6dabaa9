"""C04: no access or copy outside a fixed-size array"""
import re
import bounds
from core import Report

FN = re.compile(r'\(([\w.]+)\)')


def run(ctx):
    rep = Report('on every path: an index into an array of fixed size (local, global or member of a structure), the bytes a library function '
                 'reads or writes there, and the string plus terminator that is copied, concatenated or printed into it lie inside the array; '
                 'what a function needs of the extent of a parameter holds at its calls; in a block allocated with a computed size, accesses '
                 'whose position can be compared with that size lie inside')
    last, summ, hist = bounds.analyse(ctx)
    tot = {}
    for n in sorted(last):
        to, f, ob, st = last[n]
        rep.obligations += ob
        if to:
            rep.timeouts.append(n)
        for k, v in st.items():
            tot[k] = tot.get(k, 0) + v
        for where, fn, key, msg, trail in f:
            m = FN.search(where)
            rep.find('%s|%s' % (m.group(1) if m else fn, key), where, msg, trail)
    rep.discharged = rep.obligations - len(rep.findings)
    rep.count('functions_analysed_as_roots', len(last))
    rep.count('functions_with_extent_requirements_on_callers', sum(1 for s in summ.values() if s))
    rep.count('fixpoint_rounds', len(hist))
    rep.count('reads_decided', tot.get('r', 0))
    rep.count('writes_decided', tot.get('w', 0))
    rep.count('accesses_to_computed_blocks_decided', tot.get('heap', 0))
    rep.count('accesses_to_computed_blocks_not_comparable', tot.get('undecided', 0))
    rep.samples = ['%s needs %s bytes of parameter %d (%s), %s' % (n.split('#')[0], v, k[0], k[1], w)
                   for n, s in sorted(summ.items()) for k, (v, w) in s.items() if v > 64][:12]
    rep.floor('functions_analysed_as_roots', 300)
    rep.floor('reads_decided', 100)
    rep.floor('writes_decided', 100)
    return rep
