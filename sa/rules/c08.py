"""C08: lines for a peer leave in order, each once, and waiting lines have a pending write event

Every function that touches the queue of waiting lines or its write event, with
everything it calls that writes, watches or queues inlined, is interpreted path
by path.  The typestate follows the line being sent (written? blocked? queued?),
the bytes that may still be in the buffer, and the write event.
"""
import interp
from interp import mk, mkicmp, const, ZERO
from core import Report, AnalysisError, parallel

DATA = 'irc_transport_data_iochannel'
WATCH, QUEUE = 'outgoing_id', 'pending_lines'
G_IO_OUT = 4
# what happens to the queue
TAIL = {'g_queue_push_tail'}
HEAD = {'g_queue_push_head'}
POP = {'g_queue_pop_head'}
LOOK = {'g_queue_is_empty', 'g_queue_get_length', 'g_queue_peek_head', 'g_queue_peek_tail', 'g_queue_foreach', 'g_queue_find', 'g_queue_index',
        'g_queue_peek_nth', 'g_queue_copy', 'g_queue_new', 'g_queue_init', 'g_queue_link_index', 'g_queue_peek_head_link', 'g_queue_peek_tail_link'}
DROP = {'g_queue_free', 'g_queue_free_full', 'g_queue_clear', 'g_queue_clear_full'}
CONVERT = {'g_convert', 'g_convert_with_iconv', 'g_convert_with_fallback', 'g_locale_from_utf8'}
ADDW = {'g_io_add_watch': (1, 2), 'g_io_add_watch_full': (2, 3)}


class Rule(interp.Rule):
    maxstates = 64

    def __init__(self, ctx, rep, handlers, wrote, dataq, name):
        self.ctx, self.rep, self.prog = ctx, rep, ctx.prog
        self.handlers = handlers
        self.wrote = wrote          # functions that write to a channel
        self.enum = {k: ctx.enum('G_IO_STATUS_' + k) for k in ('AGAIN', 'NORMAL', 'EOF', 'ERROR')}
        self.name = name
        self.bad = set()
        self.writes = False         # does this function write?
        self.lost = None            # a return without the line having been written or queued

    # ------------------------------------------------------------ reporting
    def find(self, what, i, st, eng):
        if what not in self.bad:
            self.bad.add(what)
            self.rep.find('%s|%s' % (self.name.split('#')[0], what), self.prog.where(i), '%s: %s' % (self.name.split('#')[0], what), eng.trail(st))

    def ob(self, ok, what, i, st, eng):
        self.rep.obligations += 1
        if ok:
            self.rep.discharged += 1
        else:
            self.find(what, i, st, eng)

    def cut(self, ok, what, owner, i, st, eng):
        """what waits is given up; fine when all of it is released then"""
        if ok:
            self.rep.obligations += 1
            self.rep.discharged += 1
        else:
            self.set(st, cut=(owner, what, i))

    # ---------------------------------------------------------------- state
    def set(self, st, **kw):
        ts = dict(st.ts)
        for k, v in kw.items():
            if v is None:
                ts.pop(k, None)
            else:
                ts[k] = v
        st.ts = ts

    def is_(self, st, v, name):
        return st.truth(mkicmp('eq', v, const(self.enum[name])))

    def normal(self, st):
        """what the path has found out about results since"""
        ts = st.ts
        new = {}
        w = ts.get('ws')
        if isinstance(w, interp.E):
            a, n = self.is_(st, w, 'AGAIN'), self.is_(st, w, 'NORMAL')
            if a is True:
                new['ws'] = 'A'
            elif a is False and n is True:
                new['ws'] = 'N'
            elif a is False and n is False:
                new['ws'] = 'E'
                new['eof'] = self.is_(st, w, 'EOF') or None
                new['dead'] = True
        f = ts.get('fs')
        if isinstance(f, interp.E):
            a = self.is_(st, f, 'AGAIN')
            if a is False:
                new['fs'] = None
                new['dirty'] = None
                new['clean'] = True
            elif a is True:
                new['fs'] = 'A'
                new['dirty'] = True
        p = ts.get('pop')
        if p is not None and st.isnull(p):
            new['pop'] = None
            new['empty'] = True
            new['asked'] = None
        e = ts.get('asked')
        if e is not None:
            kind, v = e
            t = st.isnull(v) if kind == 'z' else st.nonnull(v)
            if t:
                new['empty'] = True
                new['asked'] = None
        b, n = ts.get('bs'), ts.get('len')
        if b is not None and n is not None and ts.get('fits') is not n and st.le(n, b):
            new['fits'] = n
        if new:
            self.set(st, **new)

    def watch(self, st, i, eng):
        """is there a write event: 'busy', 'idle' (noted as none), 'given' (there was none when others were called) or '?'"""
        ts = st.ts
        k = ts.get('wr')
        if k is not None:
            return k
        if self.handler:
            return 'busy'       # the event that called it, and nobody else ends it
        a = ts.get('wa')
        if a is None:
            return '?'
        v = eng.read(st, a, 'i32', i)
        return 'idle' if st.isnull(v) else 'busy' if st.nonnull(v) else '?'

    # ---------------------------------------------------------------- hooks
    def entry(self, st, fn, eng):
        self.handler = self.name in self.handlers
        if self.handler:
            self.set(st, dirty=True)        # bytes may be waiting in the buffer

    def enter(self, st, b, eng):
        self.normal(st)

    def branch(self, st, i, cond, taken, eng):
        self.normal(st)

    def weakkey(self, k):
        return False

    def loaded(self, st, i, a, v, eng):
        if a.k == 'fld' and a.a[1] == DATA and a.a[2] == WATCH:
            if st.ts.get('wa') is not a:
                self.set(st, wa=a)
            if self.handler and v.k == 'ld' and v.a[1] == 0:
                st.ne.add((v, 0))

    def store(self, st, i, a, v, eng):
        if a.k == 'fld' and a.a[1] == DATA and a.a[2] == WATCH:
            if st.ts.get('wa') is not a:
                self.set(st, wa=a)
            if st.ts.get('aw') is v:
                self.set(st, aw=None, noted=True if self.handler else None, wr='busy')
            elif st.isnull(v):
                self.set(st, wr='idle')
            else:
                self.ob(False, 'something else is noted as the write event', i, st, eng)

    def isqueue(self, e):
        return e.k == 'ld' and e.a[0].k == 'fld' and e.a[0].a[1:3] == (DATA, QUEUE)

    def called(self, names):
        return names[0].split('#')[0] if len(names) == 1 else None

    def channel(self, e):
        return e.k == 'ld' and e.a[0].k == 'fld' and e.a[0].a[1:3] == (DATA, 'incoming')

    def call(self, st, i, names, args, eng):
        n = self.called(names)
        self.normal(st)
        ts = st.ts
        if n == 'g_io_channel_write_chars':
            self.write(st, i, args, eng)
        elif n == 'g_io_channel_write_unichar':
            self.find('a character is written around the queue', i, st, eng)
        elif n in TAIL and self.isqueue(args[0]):
            if self.handler and 'pop' in ts and args[1] is ts['pop']:
                self.ob(False, 'a line that was waiting is put behind the others', i, st, eng)
            if args[1].k in ('p', 'ld'):
                self.ob(False, 'a line is queued that others release', i, st, eng)
            w = ts.get('ws')
            self.ob(w in (None, 'A'), 'a line is queued although it may have been written', i, st, eng)
            self.set(st, q=True, ws=None, empty=None, asked=None, sent=None)
        elif n in HEAD and self.isqueue(args[0]):
            p = ts.get('pop')
            if p is not None and args[1] is p:
                self.ob(ts.get('ws') in (None, 'A'), 'a line is queued again although it may have been written', i, st, eng)
                self.set(st, pop=None, alt=None, ws=None, q=True, empty=None, asked=None, conv=None, len=None, fits=None, bs=None)
            else:
                self.ob(False, 'a new line is put before the ones that wait', i, st, eng)
        elif n in POP and self.isqueue(args[0]):
            self.ob('pop' not in ts, 'a line taken from the queue is forgotten', i, st, eng)
            self.set(st, pop=None)
        elif n == 'g_queue_peek_head' and self.isqueue(args[0]):
            self.still(st, i, eng)
        elif n in DROP and self.isqueue(args[0]):
            if 'empty' not in ts:
                self.set(st, dropped=args[0].a[0].a[0])
        elif n and n.startswith('g_queue_') and n not in LOOK and args and self.isqueue(args[0]):
            self.ob(False, 'the order of the queue is changed by %s' % n, i, st, eng)
        elif n in ADDW and self.out(args, ADDW[n]):
            self.rep.count('write_events_set_up')
            w = self.watch(st, i, eng)
            self.ob(w == 'idle', 'a second write event is set up', i, st, eng)
        elif n == 'g_source_remove':
            a = ts.get('wa')
            if a is not None and eng.read(st, a, 'i32', i) is args[0] and not st.isnull(args[0]):
                self.cut('empty' in ts and 'clean' in ts, 'the write event is removed while lines may wait', a.a[0], i, st, eng)
        elif n in ('g_io_channel_unref', 'g_io_channel_shutdown', 'g_io_channel_close') and self.channel(args[0]):
            c = args[0].a[0].a[0] if args[0].k == 'ld' and args[0].a[0].k == 'fld' else None
            self.cut(self.watch(st, i, eng) in ('idle', 'given'), 'the connection is closed while lines may wait', c, i, st, eng)
        else:
            # a line that was taken from the queue and is released
            ps = [ts[k] for k in ('pop', 'alt') if k in ts] if 'pop' in ts else ()
            if any(a is p for a in args for p in ps) and any(self.releases(x, [k for k, a in enumerate(args) if any(a is p for p in ps)]) for x in names):
                self.ob(ts.get('ws') in ('N', 'E') or self.unsendable(st), 'a line is released that may not have been written', i, st, eng)
                self.set(st, pop=None, alt=None, ws=None, conv=None, len=None, fits=None, bs=None)
            if n in ('g_free', 'free') and args[0] is ts.get('dropped'):
                self.set(st, dropped=None)
            if n in ('g_free', 'free') and args[0] is ts.get('cut', [None])[0]:
                self.rep.obligations += 1
                self.rep.discharged += 1
                self.set(st, cut=None)
            for x in names:
                if x in self.wrote:
                    self.find('%s writes around the queue' % x.split('#')[0], i, st, eng)
        return None

    def still(self, st, i, eng):
        """a line that was written from the queue has to leave it"""
        if 'peek' in st.ts:
            self.ob(st.ts.get('ws') in (None, 'A'), 'a line that was written stays in the queue', i, st, eng)
            self.set(st, peek=None, ws=None)

    def unsendable(self, st):
        """it could not be converted"""
        return 'ws' not in st.ts and st.ts.get('conv') is not None and st.isnull(st.ts['conv'])

    def releases(self, n, ks):
        f = self.prog.funcs.get(n)
        if f is None:
            return n in ('g_free', 'free')
        for i in f.insts():
            if i.op == 'call' and i.x[0] == '@' and (i.x[1] in ('g_free', 'free') or i.x[1] in self.prog.funcs and i.x[1] != n) and i.ops:
                for k in ks:
                    if i.ops[0] == ('%', f.params[k]):
                        if i.x[1] in ('g_free', 'free') or self.releases(i.x[1], [0]):
                            return True
        return False

    def out(self, args, pos):
        c, f = args[pos[0]], args[pos[1]]
        return f.k == 'g' and f.a[0] in self.handlers

    def write(self, st, i, args, eng):
        ts = st.ts
        self.rep.count('writes')
        self.writes = True
        self.ob(ts.get('ws') in (None, 'N', 'E'), 'another line is written after one that may have been blocked', i, st, eng)
        if self.handler:
            self.ob('pop' in ts or 'peek' in ts, 'the handler writes a line that it has not taken from the queue', i, st, eng)
            self.ob('dirty' not in ts, 'a line is written while earlier ones may still be in the buffer', i, st, eng)
        else:
            self.ob(self.watch(st, i, eng) == 'idle', 'a line is written while others may wait', i, st, eng)
            self.ob('sent' not in ts, 'a line is written a second time', i, st, eng)
        n = args[2]
        if n.k == 'c' and n.a[0] in (-1, 2 ** 64 - 1):
            n = mk('call', 'strlen', args[1])
        fits = ts.get('fits') is n or 'bs' in ts and st.le(n, ts['bs'])
        self.ob(fits, 'a line that does not fit in the buffer may be written in part', i, st, eng)
        self.set(st, sent=True, len=None, fits=None, bs=None)

    def after(self, st, i, names, args, eng):
        n = self.called(names)
        ts = st.ts
        e = st.env.get(i.res) if i.res is not None else None
        if n == 'g_io_channel_write_chars':
            self.set(st, ws=e if e is not None else 'lost', dirty=True, fs=None, eof=None, dead=None, clean=None)
        elif n == 'g_io_channel_flush':
            self.set(st, fs=e if e is not None else 'A')
        elif n == 'g_io_channel_get_buffer_size' and e is not None:
            st.setrange(e, 10, interp.INF)
            self.set(st, bs=e)
        elif n == 'g_io_channel_set_buffer_size':
            self.set(st, bs=args[1], fits=None)
        elif n == 'strlen' and e is not None:
            self.set(st, len=e, fits=None)
        elif n in CONVERT and e is not None:
            self.set(st, conv=e)
        elif n in POP and self.isqueue(args[0]) and e is not None:
            if 'empty' in st.ts:
                st.assume_cmp('eq', e, ZERO)
            if 'peek' in ts:
                self.set(st, pop=e, alt=ts['peek'], peek=None)
            else:
                self.set(st, pop=e, ws=None)
            self.normal(st)
        elif n in ('g_queue_is_empty',) and self.isqueue(args[0]) and e is not None:
            self.set(st, asked=('nz', e))
        elif n in ('g_queue_get_length', 'g_queue_peek_head', 'g_queue_peek_tail', 'g_queue_peek_head_link') and self.isqueue(args[0]) and e is not None:
            self.set(st, asked=('z', e))
            if n == 'g_queue_peek_head' and self.handler:
                self.set(st, peek=e)
        elif n in ADDW and self.out(args, ADDW[n]) and e is not None:
            st.ne.add((e, 0))
            self.set(st, aw=e)
        elif not names or any(x in self.prog.funcs for x in names):
            if not names or any(self.calls_back(x, eng) for x in names):
                # others may have queued a line
                w = self.watch(st, i, eng)
                self.set(st, empty=None, asked=None, wr='given' if w == 'idle' else 'busy' if w == 'busy' else None)
        self.normal(st)

    def calls_back(self, n, eng):
        m = eng.mods.get(n)
        return m is None or ('*',) in m or ('F', DATA, WATCH) in m

    def ret(self, st, i, val, eng):
        self.normal(st)
        ts = st.ts
        if 'pop' in ts:
            self.ob(False, 'a line taken from the queue is forgotten', i, st, eng)
        if 'peek' in ts:
            self.still(st, i, eng)
            ts = st.ts
        w = ts.get('ws')
        self.ob(w in (None, 'N', 'E'), 'a line that may have been blocked is dropped', i, st, eng)
        if not self.handler and not ('sent' in ts or 'q' in ts or self.unsendable(st)):
            self.lost = self.lost or (i, st.copy())
        self.ob('dropped' not in ts, 'lines that wait are dropped', i, st, eng)
        if 'cut' in ts:
            self.ob(False, ts['cut'][1], ts['cut'][2], st, eng)
        self.ob('aw' not in ts, 'the write event is not noted', i, st, eng)
        if self.handler:
            for zero in (True, False):
                s = st.copy()
                if val is None or not s.assume_cmp('eq' if zero else 'ne', val, ZERO):
                    continue
                k = self.watch(s, i, eng)
                if zero:
                    if 'noted' in ts:
                        self.ob(k == 'busy', 'the new write event is not noted', i, st, eng)
                    else:
                        self.ob(k in ('idle', 'given'), 'the write event ends but is still noted', i, st, eng)
                        self.ob(ts.get('eof') or 'empty' in ts and 'dirty' not in ts, 'the write event ends while lines may wait', i, st, eng)
                else:
                    self.ob(k == 'busy', 'the write event stays but is not noted any more', i, st, eng)
            if val is None:
                self.find('the handler has no result', i, st, eng)
        elif 'q' in ts or 'dirty' in ts and 'dead' not in ts:
            self.ob(self.watch(st, i, eng) == 'busy', 'lines wait but no write event is set up', i, st, eng)


def who_calls(prog):
    callers = {}
    for n, f in prog.funcs.items():
        for i in f.insts():
            if i.op == 'call' and i.x[0] == '@':
                callers.setdefault(i.x[1], set()).add(n)
    return callers


def reach(callers, start):
    """functions that call one of these, directly or not"""
    out, todo = set(), list(start)
    while todo:
        x = todo.pop()
        for c in callers.get(x, ()):
            if c not in out:
                out.add(c)
                todo.append(c)
    return out


def run(ctx):
    prog = ctx.prog
    kw, kq = ctx.field_index(DATA, WATCH), ctx.field_index(DATA, QUEUE)
    # functions that look at the queue or its event
    touch = set()
    handlers = set()
    for n, f in prog.funcs.items():
        for i in f.insts():
            if i.op == 'gep' and i.x == ('st', 'struct.' + DATA) and len(i.ops) > 2 and i.ops[2] in (('c', kw), ('c', kq)):
                touch.add(n)
            if i.op == 'call' and i.x[0] == '@' and i.x[1] in ADDW:
                c, fn = i.ops[ADDW[i.x[1]][0]], i.ops[ADDW[i.x[1]][1]]
                if fn[0] == '@' and c[0] != '%' and int(c[-1]) & G_IO_OUT:
                    handlers.add(fn[1])
    callers = who_calls(prog)
    wrote = reach(callers, ['g_io_channel_write_chars', 'g_io_channel_write_unichar', 'g_io_channel_flush'])
    inl = wrote | reach(callers, ['g_io_add_watch', 'g_io_add_watch_full', 'g_source_remove'] + [x for x in TAIL | HEAD | POP]) | touch
    view = ctx.b.view(should=lambda f: f.name in inl and len(f.blocks) < 80)
    # these and, for internal helpers, their callers
    roots, seen, todo = set(), set(), list(touch)
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        f = prog.funcs[n]
        if n in ctx.g.addr_taken or not f.internal:
            roots.add(n)
        if f.internal:
            todo.extend(c for c in callers.get(n, ()))
    handlers &= roots
    roots = sorted(roots)
    rep = Report('path-sensitive typestate of the line being sent, the queue and the write event: a new line is written only while no write event exists; a waiting line '
                 'is written only after the buffer was flushed, is queued again at the head exactly when it blocked, and released otherwise; at most one write event, noted '
                 'in outgoing_id, exists while and only while lines or bytes wait; a line fits in the buffer, so that no part of it is dropped')
    for n in roots:
        view.func(n)

    def one(n):
        r = Report()
        rule = Rule(ctx, r, handlers, wrote, None, n)
        e = interp.Engine(prog, ctx.g, rule, view.func(n), maxsteps=400000)
        e.run()
        if rule.writes and not rule.handler:
            r.obligations += 1
            if rule.lost:
                rule.find('a line is neither written nor queued', *rule.lost, e)
            else:
                r.discharged += 1
        r.count('functions_interpreted')
        return r
    for n, r in zip(roots, parallel(one, roots)):
        if isinstance(r, tuple):
            raise AnalysisError('analysis of %s not finished: %s' % (n, r[2]))
        rep.merge(r)
    rep.count('handlers_of_write_events', len(handlers))
    rep.floor('handlers_of_write_events', 1)
    rep.floor('functions_interpreted', 4)
    rep.floor('writes', 2)
    rep.floor('write_events_set_up', 2)
    rep.samples = ['%s: interpreted' % n for n in roots][:10]
    return rep
