"""Protocol monitor for event streams.

The public transformation methods return lazy streams.  For each of them the analysis engine builds the stream value from
symbolic inputs and explores `next_event` to a fixpoint over (state of the stream, state of the inputs, state of the
specification).  Inputs are opaque streams that may yield any well-formed sequence of parts; a typestate kept beside the
heap follows which parts have been pulled and not been accounted for, and compares what the stream emits with the
specification of the method.
"""
from rules.common import *

NOOP, DOCTYPE, COMMENT, DATA, RAW, OPEN, CLOSE, SELFC, VOID = range(9)
STARTS = (OPEN, SELFC, VOID)
NAMES = ('noop', 'doctype', 'comment', 'data', 'raw data', 'opening tag', 'closing tag', 'self-closed tag', 'void tag')
MON = ('MON',)


class T(object):
    """a term of the analysed program inside the monitor state"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return isinstance(o, T) and o.t == self.t

    def __hash__(self):
        return hash(self.t)

    def __repr__(self):
        return 'T(%s)' % show(self.t)[:60]


class Stop(Exception):
    """this path violates the specification"""

    def __init__(self, cat, msg):
        Exception.__init__(self, msg)
        self.cat, self.msg = cat, msg


class Src(object):
    __slots__ = ('role', 'recv', 'mode', 'phase', 'stack', 'err')

    def __init__(self, role, recv, mode='forest', phase='pre', stack=(), err=None):
        self.role, self.recv, self.mode, self.phase, self.stack, self.err = role, recv, mode, phase, stack, err

    def dump(self):
        return (self.role, self.recv, self.mode, self.phase, self.stack, self.err)

    @property
    def over(self):
        return self.phase in ('end', 'err')


class Item(object):
    """a part that was pulled and is not accounted for yet"""
    __slots__ = ('kind', 'fields', 'depth', 'match', 'of')

    def __init__(self, kind, fields, depth, match=None, of=None):
        self.kind, self.fields, self.depth, self.match, self.of = kind, fields, depth, match, of

    def dump(self):
        return (self.kind, self.fields, self.depth, self.match, self.of)

    @property
    def start(self):
        return self.kind in STARTS

    def tag(self):
        return self.fields[0] if self.kind >= OPEN else None

    def show(self):
        return NAMES[self.kind]


class Mstate(object):
    def __init__(self):
        self.src = []
        self.q = {}
        self.rel = ()
        self.x = {}
        self.out = 'live'
        self.pend = None

    def dump(self):
        return (tuple(s.dump() for s in self.src), tuple((r, tuple(i.dump() for i in q)) for r, q in sorted(self.q.items())),
                self.rel, tuple(sorted(self.x.items())), self.out, self.pend)

    @staticmethod
    def of(d):
        m = Mstate()
        m.src = [Src(*x) for x in d[0]]
        m.q = {r: [Item(*i) for i in q] for r, q in d[1]}
        m.rel = d[2]
        m.x = dict(d[3])
        m.out, m.pend = d[4], d[5]
        return m

    def role(self, r):
        for s in self.src:
            if s.role == r:
                return s
        return None

    def queue(self, r):
        return self.q.setdefault(r, [])


def encode(x, terms):
    if isinstance(x, T):
        terms.append(x.t)
        return ('$', len(terms) - 1)
    if isinstance(x, (tuple, list)):
        return tuple(encode(y, terms) for y in x)
    return x


def decode(x, terms):
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == '$':
            return T(terms[x[1]])
        return tuple(decode(y, terms) for y in x)
    return x


class Monitor(object):
    def __init__(self, A, e, M, spec, depth=3):
        self.A, self.e, self.M, self.spec, self.K = A, e, M, spec, depth
        self.reg, self.rev = {}, []
        self.viol = []          # (category, message, facts)
        self.und = []
        self.ok = {}
        self.cut = False
        self.handed = {}
        self.starts = []
        self.shape = False      # follow whether the output is one element; go on after other deviations
        self.marked = None      # type -> has the element marker
        self.EV = A.adt('Event')
        self.EK = A.adt('EventKind')
        self.pulls = 0
        self.builds = 0
        e.env = self

    # ------------------------------------------------------------ state
    def load(self, st):
        v = st.mem[MON]
        return Mstate.of(decode(self.rev[v[2]], v[3]))

    def save(self, st, m):
        terms = []
        c = encode(m.dump(), terms)
        if c not in self.reg:
            self.reg[c] = len(self.rev)
            self.rev.append(c)
        st.mem[MON] = ('adt', '$mon', self.reg[c], tuple(terms), ())

    def text(self, tag):
        return self.M.text_root(self.e, tag)

    def live_tags(self, m):
        r = []
        for s in m.src:
            r += list(s.stack)
        for k in sorted(m.q):
            for i in m.q[k]:
                if i.kind >= OPEN:
                    r.append(i.fields[0])
                if i.of is not None:
                    r.append(i.of)
        for k in sorted(m.x):
            r += self.x_tags(m.x[k])
        u = []
        for x in r:
            if x not in u:
                u.append(x)
        return u

    def x_tags(self, v):
        if isinstance(v, tuple) and v and v[0] == 'tag':
            return [v[1]]
        return []

    def relation(self, st, m):
        """known name equalities among the live tags"""
        tags = self.live_tags(m)
        tx = [self.text(t.t) for t in tags]
        par = {}

        def find(x):
            while par.get(x, x) != x:
                x = par[x]
            return x
        neq = []
        pos = {t: i for i, t in enumerate(tx)}
        for (a, b, r) in m.rel:
            if r:
                par[find(self.text(a.t))] = find(self.text(b.t))
            else:
                neq.append((self.text(a.t), self.text(b.t)))
        for k, f in st.facts.items():
            if k[0] == 'app' and k[1] == 'ideq' and f[0] == 'is' and (k[2] in pos or k[2] in par) and (k[3] in pos or k[3] in par):
                if f[1] == TRUE:
                    par[find(k[2])] = find(k[3])
                else:
                    neq.append((k[2], k[3]))
        return tags, tx, find, neq

    def sync(self, e, st):
        if MON not in st.mem:
            return
        m = self.load(st)
        tags, tx, find, neq = self.relation(st, m)
        rel = []
        for i in range(len(tags)):
            for j in range(i + 1, len(tags)):
                a, b = find(tx[i]), find(tx[j])
                if a == b:
                    rel.append((tags[i], tags[j], True))
                elif any((find(x), find(y)) in ((a, b), (b, a)) for x, y in neq):
                    rel.append((tags[i], tags[j], False))
        m.rel = tuple(rel)
        f = getattr(self.spec.core, 'sync', None)
        if f:
            f(self, st, m)
        for q in m.q.values():
            for i in q:
                if i.start and i.match is None:
                    i.match = self.match(st, i)
        self.save(st, m)

    def match(self, st, i):
        if i.match is not None:
            return i.match
        for k, f in st.facts.items():
            if k[0] == 'app' and k[1] == 'matches' and f[0] == 'is' and self.same(st, i, k[3]):
                return f[1] == TRUE
        return None

    def ideq(self, e, st, a, b):
        if MON not in st.mem:
            return None
        m = self.load(st)
        tags, tx, find, neq = self.relation(st, m)
        if a not in tx or b not in tx:
            return None
        x, y = find(a), find(b)
        if x == y:
            return TRUE
        if any((find(p), find(q)) in ((x, y), (y, x)) for p, q in neq):
            return FALSE
        return None

    # ------------------------------------------------------------ events
    def event(self, kind, fields):
        e = self.e
        return ('adt', self.EV, 0, (('adt', self.EK, kind, tuple(f.t for f in fields), ()),), ())

    def fresh_fields(self, s, kind):
        e = self.e
        fs = e.p.adt_fields(self.EK, kind)
        r = []
        for i, f in enumerate(fs):
            n = s.fresh()
            r.append(T(e.sym(('part', kind, i, n), e.p.T(f['ty']))))
        return tuple(r)

    def norm(self, st, ev):
        """(kind, fields) of an event value, or None"""
        e = self.e
        ev = e.strip(st, ev)
        k = e.get(ev, (('f', 0),))
        if k[0] == 'adt':
            return k[2], k[3]
        v = e.variant(st, k)
        if v is None:
            return None
        n = len(e.p.adt_fields(self.EK, v))
        return v, tuple(e.get(k, (('d', v), ('f', i))) for i in range(n))

    def same_val(self, st, a, b, d=0):
        e = self.e
        if a == b:
            return True
        if d > 4:
            return False
        if a[0] == 'adt' and b[0] == 'adt':
            return a[1:3] == b[1:3] and len(a[3]) == len(b[3]) and all(self.same_val(st, x, y, d + 1) for x, y in zip(a[3], b[3]))
        if a[0] == 'adt' and is_sym(b) or b[0] == 'adt' and is_sym(a):
            x, y = (a, b) if a[0] == 'adt' else (b, a)
            if len(e.p.adts.get(x[1], {}).get('variants', (1, 2))) > 1 and e.variant(st, y) != x[2]:
                return False
            try:
                return self.same_val(st, x, e.expand(y, x[2]), d + 1)
            except AnalysisError:
                return False
        if a[0] == 'rc' and b[0] == 'rc':
            return a[1] in st.mem and b[1] in st.mem and self.same_val(st, st.mem[a[1]], st.mem[b[1]], d + 1)
        ta, tb = self.M.text_root(e, a), self.M.text_root(e, b)
        if ta is not None and tb is not None and ta == tb:
            return True
        return e.simp(st, a) == e.simp(st, b)

    def same(self, st, item, ev):
        n = self.norm(st, ev)
        if n is None or n[0] != item.kind:
            return False
        return all(self.same_val(st, x, y.t) for x, y in zip(n[1], item.fields))

    # ------------------------------------------------------------ hooks called by the engine
    def trait_call(self, e, s, c, tr, recv):
        if MON not in s.mem:
            return None
        if tr == 'Stream' and c.method == 'next_event':
            return self.pull(e, s, recv, c.ret)
        if tr == 'Selector' and c.method == 'matches':
            ev = e.strip(s, c.args[1])
            n = self.norm(s, ev)
            if n is not None and n[0] == NOOP:
                self.fail(s, 'P34', 'a placeholder part is given to the selector')
                return []
            if n is not None and n[0] not in STARTS:
                return [(s, FALSE)]
            m = self.load(s)
            for q in m.q.values():
                for i in q:
                    if i.start and i.match is not None and self.same(s, i, ev):
                        return [(s, ('bool', i.match))]
            return [(s, e.app(('bool',), 'matches', recv, ev))]
        if tr.startswith('Build'):
            return self.build(e, s, c, recv)
        return None

    def fail(self, st, cat, msg):
        facts = facts_text(st, 8)
        tr = ' '.join(self.tr(x) for x in st.trace[-12:])
        self.viol.append((cat, msg, facts, tr))

    def tr(self, x):
        if x[0] == 'pull':
            return 'pull(%s)=%s' % (x[1], x[3] if len(x) > 3 else '')
        if x[0] in ('out', 'dout'):
            return '%s(%s)' % (x[0], show(x[1])[:60])
        return x[0]

    def find_source(self, m, recv):
        for s in m.src:
            if s.recv is not None and s.recv.t == recv:
                return s
        return None

    def pull(self, e, s, recv, ret):
        self.pulls += 1
        m = self.load(s)
        src = self.find_source(m, recv)
        if src is None:
            role = self.spec.new_source(self, s, m, recv)
            if role is None:
                raise AnalysisError('parts are read from a stream of unknown origin: %s' % show(recv)[:80])
            src = Src(role, T(recv))
            m.src.append(src)
        role = src.role
        rt = ret
        ert = rt[2][1] if rt[0] == 'adt' and len(rt[2]) > 1 else ('other', '?')
        evt = ('adt', self.EV, ())
        res = []

        def none(s2):
            return e.ok(e.none(evt), ert)

        def branch(what):
            s2 = s.clone()
            m2 = self.load(s2)
            sr = self.find_source(m2, recv)
            if sr is None:
                sr = Src(role, T(recv))
                m2.src.append(sr)
            s2.trace.append(('pull', role, recv, what))
            return s2, m2, sr
        if src.over:
            s2, m2, sr = branch('none')
            self.save(s2, m2)
            return [(s2, none(s2))]
        if src.err is not None:
            # stream built on an input that failed: it fails alike
            s2, m2, sr = branch('error')
            x = sr.err
            sr.phase, sr.err = 'err', None
            m2.pend = x
            self.save(s2, m2)
            return [(s2, e.err(x.t, ('adt', 'std::option::Option', (evt,))))]
        # failure
        s2, m2, sr = branch('error')
        x = T(e.sym(('error', s2.fresh()), ert))
        sr.phase, sr.stack = 'err', ()
        m2.pend = x
        self.save(s2, m2)
        res.append((s2, e.err(x.t, ('adt', 'std::option::Option', (evt,)))))
        # end
        if src.mode == 'forest' and not src.stack or src.phase == 'closed':
            s2, m2, sr = branch('none')
            sr.phase = 'end'
            self.save(s2, m2)
            res.append((s2, none(s2)))
        kinds = [NOOP]
        if src.mode == 'element' and src.phase == 'pre':
            kinds += [OPEN, SELFC, VOID]
        elif src.phase != 'closed':
            kinds += [DOCTYPE, COMMENT, DATA, RAW, SELFC, VOID]
            if len(src.stack) < self.K:
                kinds.append(OPEN)
            else:
                self.cut = True
            if src.stack:
                kinds.append(CLOSE)
        for k in kinds:
            s2, m2, sr = branch(NAMES[k])
            fs = self.fresh_fields(s2, k)
            depth = len(sr.stack)
            of = None
            if k == OPEN:
                sr.stack = sr.stack + (fs[0],)
                sr.phase = 'in'
            elif k == CLOSE:
                of = sr.stack[-1]
                sr.stack = sr.stack[:-1]
                depth -= 1
                m2.rel = m2.rel + ((fs[0], of, True),)
                a, b = self.text(fs[0].t), self.text(of.t)
                if repr(a) > repr(b):
                    a, b = b, a
                s2.facts[('app', 'ideq', a, b)] = ('is', TRUE)
                sr.phase = 'closed' if sr.mode == 'element' and not sr.stack else 'in'
            elif k in (SELFC, VOID) and sr.mode == 'element' and sr.phase == 'pre':
                sr.phase = 'closed'
            elif k != NOOP:
                sr.phase = 'in'
            if k != NOOP:
                it = Item(k, fs, depth, None, of)
                try:
                    if 'lenient' not in m2.x:
                        self.spec.on_pull(self, s2, m2, role, it)
                except Stop as x:
                    if not self.give_up(m2):
                        self.fail(s2, x.cat, x.msg)
                        continue
                if sum(len(q) for q in m2.q.values()) > 6:
                    self.cut = True
                    self.und.append('more than 6 parts are held back')
                    continue
            self.save(s2, m2)
            res.append((s2, e.ok(e.some(self.event(k, fs), evt), ert)))
        return res

    def item(self, e, s, it, v):
        """the user's iterator yields a value (None: it is exhausted)"""
        if MON not in s.mem:
            return
        m = self.load(s)
        s.trace.append(('item', it, v))
        if 'lenient' in m.x:
            return
        f = getattr(self.spec, 'on_item', None)
        if f:
            if f(self, s, m, T(v) if v is not None else None) is False:
                return False
            self.save(s, m)

    def ucall(self, e, s, f, args, res):
        if MON not in s.mem:
            return [(s, res)]
        m = self.load(s)
        g = getattr(self.spec.core, 'on_ucall', None)
        if g is None:
            raise AnalysisError('unknown call of %s' % show(f)[:60])
        try:
            g(self, s, m, f, args, res)
        except Stop as x:
            self.fail(s, x.cat, x.msg)
            return []
        self.save(s, m)
        return [(s, res)]

    def length(self, s, vec):
        return self.M.length(self.e, s, vec)

    def elem(self, s, vec, i):
        e = self.e
        seq = self.M.as_seq(e, s, vec)
        if i[0] == 'int' and seq[0] == 'seq' and all(x[0] == 'one' for x in seq[1][:i[1] + 1]):
            return e.strip(s, seq[1][i[1]][1]) if i[1] < len(seq[1]) else None
        return e.strip(s, e.index_value(vec, i))

    def build(self, e, s, c, recv):
        self.builds += 1
        m = self.load(s)
        n = s.fresh()
        built = e.sym(('built', recv, n), c.ret)
        res_stream = api_stream(e, s, built)
        s.trace.append(('build', recv, tuple(c.args[1:]), n, c.method))
        try:
            mode = ('none', 'B') if 'lenient' in m.x else self.spec.on_build(self, s, m, recv, c.args[1:])
        except Stop as x:
            if not self.give_up(m):
                self.fail(s, x.cat, x.msg)
                return []
            mode = ('none', 'B')
        role = mode[1]
        if mode[0] == 'none':
            m.src = [x for x in m.src if x.role != role]
            m.q.pop(role, None)
            m.src.append(Src(role, T(res_stream)))
            self.save(s, m)
            return [(s, built)]
        v = e.strip(s, mode[2])
        t = e.typeof(v)
        if self.shape and self.marked(t):
            m.x['hshape'] = 'pre'
        self.save(s, m)
        cell = e.new_cell(s, v, 'DR')

        def step(st):
            rets, own = [], []
            for s2, r in self.next_of(st, cell):
                for s3, k in e.split_variant(s2, r):
                    pl = e.payload(r, k)
                    s3 = s3.clone()
                    m3 = self.load(s3)
                    try:
                        if k == 1:
                            x = T(e.strip(s3, pl))
                            s3.trace.append(('derr', x.t))
                            if m3.pend is None:
                                raise Stop('P22', 'the stream handed to the builder fails although its input is well formed: %s' % show(x.t)[:160])
                            if not self.same_val(s3, x.t, m3.pend.t):
                                raise Stop('P16', 'the stream handed to the builder fails with %s instead of the error of its input' % show(x.t)[:120])
                            m3.pend = None
                            m3.x.pop('hshape', None)
                            self.loosely(m3, self.spec.drained, s3, m3, x)
                            self.save(s3, m3)
                            rets.append((s3, x))
                            continue
                        for s4, ev in e.split_variant(s3, pl):
                            s4 = s4.clone()
                            m4 = self.load(s4)
                            if m4.pend is not None:
                                raise Stop('P16', 'an error of the input is swallowed by the stream handed to the builder')
                            if ev == 0:
                                s4.trace.append(('dend',))
                                if m4.x.get('hshape', 'done') != 'done':
                                    raise Stop('P29', 'the stream handed to the builder, which counts as one element, ends before the element does')
                                m4.x.pop('hshape', None)
                                self.loosely(m4, self.spec.drained, s4, m4, None)
                                self.save(s4, m4)
                                rets.append((s4, None))
                                continue
                            o = e.payload(pl, 1)
                            s4.trace.append(('dout', e.strip(s4, o)))
                            nn = self.norm(s4, o)
                            if nn is not None and nn[0] == NOOP:
                                own.append(s4)
                                continue
                            if 'hshape' in m4.x:
                                m4.x['hshape'] = self.shaped(s4, m4.x['hshape'], nn, o, 'the stream handed to the builder, which counts as one element,')
                            self.loosely(m4, self.spec.dout, s4, m4, o)
                            self.save(s4, m4)
                            own.append(s4)
                    except Stop as x:
                        self.fail(s3, x.cat, x.msg)
            return rets, own, {}
        rets, _ = e.summarise(s, ('drain', show(recv)[:40]), step)
        out = []
        for s2, x in rets:
            m2 = self.load(s2)
            m2.src = [y for y in m2.src if y.role != role]
            m2.q.pop(role, None)
            m2.src.append(Src(role, T(res_stream), err=x))
            s2.mem.pop(cell, None)
            self.save(s2, m2)
            out.append((s2, built))
        return out

    def next_of(self, st, cell):
        e = self.e
        v = e.strip(st, st.mem[cell])
        t = e.typeof(v)
        hit = e.p.find_impl(STREAM, (t,))
        if hit is not None and 'next_event' in hit[0]['items']:
            im, b = hit
            return e.exec_fn(st, im['items']['next_event'], dict(b), [('ref', cell, ())])
        if v[0] == 'box':
            inner = e.new_cell(st, v[1], 'BX')
            res = self.next_of(st, inner)
            out = []
            for s2, r in res:
                s2 = s2.clone()
                s2.mem[cell] = ('box', s2.mem[inner])
                out.append((s2, r))
            return out
        if not is_sym(v):
            raise AnalysisError('no stream implementation for %s' % (t,))
        ret = ('adt', 'std::result::Result', (('adt', 'std::option::Option', (('adt', self.EV, ()),)), ('adt', self.A.adt('StreamError'), ())))
        return self.pull(e, st.clone(), v, ret)

    # ------------------------------------------------------------ the exploration
    def drive(self, st, stream, where):
        e = self.e
        cell = e.new_cell(st, stream, 'STREAM')

        def step(s):
            own = []
            for s2, r in self.next_of(s, cell):
                for s3, k in e.split_variant(s2, r):
                    pl = e.payload(r, k)
                    s3 = s3.clone()
                    try:
                        if k == 1:
                            x = e.strip(s3, pl)
                            s3.trace.append(('err', x))
                            m = self.load(s3)
                            self.top_err(s3, m, x)
                            self.save(s3, m)
                            own.append(s3)
                            continue
                        for s4, ev in e.split_variant(s3, pl):
                            s4 = s4.clone()
                            m = self.load(s4)
                            if ev == 0:
                                s4.trace.append(('end',))
                                self.top_end(s4, m)
                            else:
                                o = e.strip(s4, e.payload(pl, 1))
                                s4.trace.append(('out', o))
                                self.top_out(s4, m, o)
                            self.save(s4, m)
                            own.append(s4)
                    except Stop as x:
                        self.fail(s3, x.cat, x.msg)
            return [], own, {}
        e.summarise(st, ('drive', where), step)
        return e.loops[len(e.loops)] if False else [L for L in e.loops.values() if L.where == ('drive', where)][-1]

    def top_out(self, s, m, o):
        n = self.norm(s, o)
        if n is not None and n[0] == NOOP:
            return
        if m.out != 'live':
            raise Stop('P16', 'emits a part after it has %s' % ('ended' if m.out == 'done' else 'failed'))
        if m.pend is not None:
            raise Stop('P16', 'goes on after an error of its input')
        c = self.failed_conversion(s)
        if c is not None:
            raise Stop('P17', 'goes on although %s failed' % c[0])
        if self.shape is not False and m.x.get('shape') is not None:
            m.x['shape'] = self.shaped(s, m.x['shape'], n, o, 'a stream that counts as one element')
        self.loosely(m, self.spec.out, s, m, o)

    def shaped(self, s, d, n, o, what):
        """the state of the element after one more part"""
        if n is None:
            raise AnalysisError('a part of unknown kind: %s' % show(o)[:80])
        k = n[0]
        if d == 'done':
            raise Stop('P29', '%s contains %s after the end of the element' % (what, ev_text(self, s, o)))
        if d == 'pre':
            if k not in STARTS:
                raise Stop('P29', '%s starts with %s' % (what, ev_text(self, s, o)))
            return 1 if k == OPEN else 'done'
        d += 1 if k == OPEN else -1 if k == CLOSE else 0
        return d if d else 'done'

    def give_up(self, m):
        """after a deviation of another kind, only the shape of the output is followed"""
        if not self.shape:
            return False
        m.x = {k: v for k, v in m.x.items() if k in ('shape', 'hshape')}
        m.x['lenient'] = True
        m.q = {}
        return True

    def loosely(self, m, f, *a):
        if 'lenient' in m.x:
            return
        try:
            f(self, *a)
        except Stop as x:
            if x.cat == 'P29' or not self.give_up(m):
                raise

    def top_end(self, s, m):
        if m.out != 'live':
            return
        if m.pend is not None:
            raise Stop('P16', 'ends normally after an error of its input')
        c = self.failed_conversion(s)
        if c is not None:
            raise Stop('P17', 'ends normally although %s failed' % c[0])
        if self.shape and m.x.get('shape', 'done') != 'done':
            raise Stop('P29', 'a stream that counts as one element ends %s' % ('without any element' if m.x['shape'] == 'pre' else 'before the end of the element'))
        self.loosely(m, self.spec.end, s, m)
        m.out = 'done'
        self.trim(m)

    def top_err(self, s, m, x):
        if m.out != 'live' or 'lenient' in m.x:
            m.out = 'failed'
            self.trim(m)
            return
        c = self.failed_conversion(s)
        if m.pend is not None:
            if not self.same_val(s, x, m.pend.t):
                raise Stop('P16', 'fails with %s instead of the error of its input' % show(x)[:160])
        elif c is not None:
            if not contains(x, c[1]) and x != c[1]:
                raise Stop('P17', 'fails with %s, which does not carry the error of %s' % (show(x)[:160], c[0]))
            if c[2] is not None and x[0] == 'adt' and x[2] not in c[2]:
                raise Stop('P17', 'the error of %s is reported as the wrong kind: %s' % (c[0], show(x)[:120]))
        else:
            f = getattr(self.spec, 'own_error', None)
            if not (f and f(self, s, m, x)):
                raise Stop(self.spec.cat, 'fails although every input is well formed and nothing failed: %s' % show(x)[:200])
        m.out = 'failed'
        self.trim(m)

    def trim(self, m):
        """nothing is expected any more"""
        m.q = {}
        m.pend = None
        m.x = {}

    def failed_conversion(self, s):
        e = self.e
        for k, f in s.facts.items():
            if k[0] == 'app' and k[1] == 'discr' and f == ('is', INT(1)) and k[2][0] == 'app' and k[2][1] == 'tcall':
                name = k[2][2][1]
                want = {'into_identifier': ('Identifier',), 'into_selector': None, 'into_value': None}.get(name)
                wv = None
                if want:
                    vs = e.p.adts[self.A.adt('StreamError')]['variants']
                    wv = [i for i, v in enumerate(vs) if v['name'] in want]
                return ('the conversion ' + name, e.payload(k[2], 1), wv)
        return None


# ---------------------------------------------------------------- specifications
class Spec(object):
    """core behaviour, optionally inside the tags of an element"""
    cat = '?'

    def __init__(self, cat, core, wrap=None):
        self.cat, self.core, self.wrap = cat, core, wrap
        core.spec = self
        self.base = 1 if wrap else 0

    # sources
    def new_source(self, mon, s, m, recv):
        return self.core.new_source(mon, s, m, recv)

    def init(self, m, self_stream, element):
        m.src = [Src('S', T(self_stream), 'element' if element else 'forest')]
        if self.wrap:
            m.x['w'] = 'start'
        self.core.init(m)

    def on_pull(self, mon, s, m, role, it):
        if role == 'S':
            if self.wrap and (it.start and it.depth == 0 or it.kind == CLOSE and it.depth == 0):
                if not (it.kind == CLOSE and m.x.get('nowrap')):
                    m.queue('S').append(it)
                    return
            self.core.on_content(mon, s, m, it)
        else:
            self.core.on_other(mon, s, m, role, it)

    def content_head(self, m):
        """next part of the content that is not accounted for"""
        q = m.queue('S')
        if self.wrap:
            w = m.x['w']
            if isinstance(w, tuple) or w == 'done':
                return None
            if w == 'start':
                q = q[1:]
            if q and q[0].kind == CLOSE and q[0].depth == 0:
                return None
        return q[0] if q else None

    def pop_content(self, m):
        q = m.queue('S')
        i = 1 if self.wrap and m.x['w'] == 'start' else 0
        return q.pop(i)

    def content_over(self, m):
        q = m.queue('S')
        if self.wrap:
            w = m.x['w']
            if isinstance(w, tuple) or w == 'done':
                return True
            if w == 'start':
                if not q:
                    return False
                if q[0].kind != OPEN:
                    return True
                q = q[1:]
            return bool(q) and q[0].kind == CLOSE and q[0].depth == 0
        return m.role('S').over and not q

    def out(self, mon, s, m, o):
        void = self.wrap and self.is_void(m)
        try:
            self.out_(mon, s, m, o)
        except Stop as x:
            if void and x.cat == self.cat:
                x.cat = 'P11'
            raise
        if void and self.wrap:
            m.x['void'] = True

    def is_void(self, m):
        """the element at hand is void"""
        q = m.queue('S')
        return 'void' in m.x or m.x.get('w') == 'start' and bool(q) and q[0].kind == VOID

    def out_(self, mon, s, m, o):
        if self.wrap:
            w = m.x['w']
            q = m.queue('S')
            if w == 'start':
                if not q:
                    raise Stop(self.cat, 'emits %s before the start tag of the element is known' % ev_text(mon, s, o))
                self.start(mon, s, m, q[0], o)
                return
            if w == 'done':
                raise Stop(self.cat, 'emits %s after the end of the element' % ev_text(mon, s, o))
            if self.core.complete(mon, s, m):
                n = mon.norm(s, o)
                if isinstance(w, tuple):
                    if n is None or n[0] != CLOSE or not mon.same_val(s, n[1][0], w[1].t):
                        raise Stop(self.cat, 'emits %s instead of the closing tag of the element that was self-closed' % ev_text(mon, s, o))
                else:
                    it = q[0]
                    if not mon.same(s, it, o):
                        raise Stop(self.cat, 'emits %s instead of the closing tag of the element' % ev_text(mon, s, o))
                    q.pop(0)
                m.x['w'] = 'done'
                return
        self.core.out(mon, s, m, o)

    def start(self, mon, s, m, it, o):
        n = mon.norm(s, o)
        what = ev_text(mon, s, o)
        if n is None:
            raise Stop(self.cat, 'emits %s instead of the start tag' % what)
        if self.wrap == 'attributes':
            mon.starts.append((s.clone(), it.kind, it.fields[1].t, n[1][1] if n[0] == it.kind else None))
            if n[0] != it.kind or not mon.same_val(s, n[1][0], it.fields[0].t):
                raise Stop(self.cat, 'the start tag (%s) comes out as %s' % (it.show(), what))
        elif it.kind in (OPEN, VOID):
            if not mon.same(s, it, o):
                raise Stop(self.cat, 'the start tag (%s) comes out as %s' % (it.show(), what))
        else:
            if n[0] == SELFC and getattr(self, 'keep_selfclosed', False) and mon.same(s, it, o):
                pass
            elif n[0] != OPEN or not all(mon.same_val(s, x, y.t) for x, y in zip(n[1], it.fields)):
                raise Stop(self.cat, 'the self-closed start tag comes out as %s instead of an opening tag with the same name and attributes' % what)
        m.queue('S').pop(0)
        if it.kind == VOID or it.kind == SELFC and (self.wrap == 'attributes' or n[0] == SELFC):
            m.x['w'] = 'done'
        elif it.kind == SELFC:
            m.x['w'] = ('tag', it.fields[0])
        else:
            m.x['w'] = 'in'

    def end(self, mon, s, m):
        void = self.wrap and self.is_void(m)
        try:
            self.end_(mon, s, m)
        except Stop as x:
            if void and x.cat == self.cat:
                x.cat = 'P11'
            raise

    def end_(self, mon, s, m):
        if self.wrap:
            self.core.settle(mon, s, m)
            if m.x['w'] != 'done':
                raise Stop(self.cat, 'ends before the element is complete')
            if m.queue('S'):
                raise Stop(self.cat, 'ends and loses a part of the element')
            return
        if not self.core.complete(mon, s, m):
            raise Stop(self.cat, 'ends before %s' % self.core.missing(m))

    def on_build(self, mon, s, m, recv, args):
        return self.core.on_build(mon, s, m, recv, args)

    def dout(self, mon, s, m, o):
        self.core.dout(mon, s, m, o)

    def drained(self, mon, s, m, err):
        self.core.drained(mon, s, m, err)

    def on_item(self, mon, s, m, v):
        return self.core.on_item(mon, s, m, v)

    def own_error(self, mon, s, m, x):
        return self.core.own_error(mon, s, m, x)


def ev_text(mon, s, o):
    n = mon.norm(s, o)
    return 'a part of unknown kind' if n is None else 'a %s' % NAMES[n[0]]


class Core(object):
    def init(self, m):
        pass

    def new_source(self, mon, s, m, recv):
        return None

    def on_other(self, mon, s, m, role, it):
        m.queue(role).append(it)

    def on_item(self, mon, s, m, v):
        pass

    def on_build(self, mon, s, m, recv, args):
        raise Stop(self.spec.cat, 'runs a builder')

    def own_error(self, mon, s, m, x):
        return False

    def missing(self, m):
        return 'every part was emitted'

    def settle(self, mon, s, m):
        pass

    def emit_from(self, mon, s, m, role, o):
        q = m.queue(role)
        if not q:
            raise Stop(self.spec.cat, 'emits %s which is not the next part of %s' % (ev_text(mon, s, o), ROLES.get(role, role)))
        if not mon.same(s, q[0], o):
            raise Stop(self.spec.cat, 'emits %s instead of the next part (%s) of %s' % (ev_text(mon, s, o), q[0].show(), ROLES.get(role, role)))
        q.pop(0)

    def role_over(self, m, role):
        x = m.role(role)
        return x is not None and x.over and not m.queue(role)

    def arg_stream(self, mon, s, args):
        return api_stream(mon.e, s, args[0])


def api_stream(e, st, v):
    """the stream inside an Api value"""
    v = e.strip(st, v)
    t = e.typeof(v)
    if t[0] == 'adt' and t[1] in e.p.adts:
        fs = e.p.adts[t[1]]['variants'][0]['fields']
        for i, f in enumerate(fs):
            ft = e.p.T(f['ty'])
            if not (ft[0] == 'adt' and ft[1].endswith('PhantomData')):
                return e.strip(st, e.get(v, (('f', i),)))
    return e.strip(st, e.get(v, (('f', 0),)))


ROLES = {'S': 'the original stream', 'N': 'the new stream', 'B': "the builder's result", 'C': 'the content', 'F': "the builder's result"}


class Phases(Core):
    """the parts of several streams, one stream after the other"""

    def __init__(self, *phases):
        self.phases = phases        # 'S' the (content of the) original, 'N' the new stream
        self.drop = 'S' not in phases

    def new_source(self, mon, s, m, recv):
        return 'N' if 'N' in self.phases and m.role('N') is None and not (is_sym(recv) and recv[0] == 'sym' and recv[1][0] == 'built') else None

    def on_content(self, mon, s, m, it):
        if not self.drop:
            m.queue('S').append(it)

    def done(self, m, ph):
        return self.spec.content_over(m) if ph == 'S' else self.role_over(m, ph)

    def out(self, mon, s, m, o):
        for ph in self.phases:
            if self.done(m, ph):
                continue
            if ph == 'S':
                h = self.spec.content_head(m)
                if h is None:
                    raise Stop(self.spec.cat, 'emits %s which is not the next part of the original stream' % ev_text(mon, s, o))
                if not mon.same(s, h, o):
                    raise Stop(self.spec.cat, 'emits %s instead of the next part (%s) of the original stream' % (ev_text(mon, s, o), h.show()))
                self.spec.pop_content(m)
            else:
                self.emit_from(mon, s, m, ph, o)
            return
        raise Stop(self.spec.cat, 'emits %s beyond the parts of its streams' % ev_text(mon, s, o))

    def complete(self, mon, s, m):
        return all(self.done(m, ph) for ph in self.phases) and self.spec.content_over(m)

    def missing(self, m):
        for ph in self.phases:
            if not self.done(m, ph):
                return 'every part of %s was emitted' % ROLES[ph]
        return 'the original stream was consumed'


class Handed(Core):
    """everything is handed to a builder and its result is emitted"""

    def init(self, m):
        m.x['b'] = 'no'

    def on_content(self, mon, s, m, it):
        if m.x['b'] == 'done' or m.x['b'] == 'active':
            raise Stop('P22', 'parts of the content are read outside of the stream handed to the builder')
        m.queue('S').append(it)

    def on_build(self, mon, s, m, recv, args):
        if m.x['b'] != 'no':
            raise Stop(self.spec.cat, 'runs the builder twice')
        m.x['b'] = 'drain'
        return ('drain', 'B', self.arg_stream(mon, s, args))

    def dout(self, mon, s, m, o):
        h = self.spec.content_head(m)
        if h is None or not mon.same(s, h, o):
            raise Stop('P22', 'the stream handed to the builder yields %s instead of the next part of the content' % ev_text(mon, s, o))
        self.spec.pop_content(m)

    def drained(self, mon, s, m, err):
        if err is None and not self.spec.content_over(m):
            raise Stop('P22', 'the stream handed to the builder ends before the content does')
        m.x['b'] = 'active'

    def out(self, mon, s, m, o):
        if m.x['b'] != 'active':
            raise Stop(self.spec.cat, 'emits %s before the builder was run' % ev_text(mon, s, o))
        self.emit_from(mon, s, m, 'B', o)

    def complete(self, mon, s, m):
        return m.x['b'] == 'active' and self.role_over(m, 'B')


class Selecting(Core):
    def __init__(self, direct=False, once=False):
        self.direct, self.once = direct, once

    def init(self, m):
        m.x['s'] = 'scan'

    def on_content(self, mon, s, m, it):
        m.queue('S').append(it)

    def eligible(self, m, it):
        if not it.start or m.x['s'] == 'used':
            return False
        return not self.direct or it.depth == self.spec.base

    def out(self, mon, s, m, o):
        if m.x['s'] == 'active':
            if not self.role_over(m, 'B'):
                self.emit_from(mon, s, m, 'B', o)
                return
            self.finish(m)
        h = self.spec.content_head(m)
        if h is None:
            raise Stop(self.spec.cat, 'emits %s which is not the next part of the original stream' % ev_text(mon, s, o))
        if not mon.same(s, h, o):
            raise Stop(self.spec.cat, 'emits %s instead of the next part (%s) of the original stream' % (ev_text(mon, s, o), h.show()))
        if self.eligible(m, h):
            b = mon.match(s, h)
            if b is not False:
                raise Stop(self.spec.cat, 'passes on the start of an element (%s, %d levels inside) %s' % (
                    h.show(), h.depth - self.spec.base, 'although it is selected' if b else 'without asking the selector'))
        self.spec.pop_content(m)

    def finish(self, m):
        m.x['s'] = 'used' if self.once else 'scan'
        m.src = [x for x in m.src if x.role != 'B']
        m.q.pop('B', None)

    def on_build(self, mon, s, m, recv, args):
        if m.x['s'] == 'active':
            if not self.role_over(m, 'B'):
                raise Stop(self.spec.cat, 'runs the builder again before its last result was emitted')
            self.finish(m)
        h = self.spec.content_head(m)
        if m.x['s'] == 'used':
            raise Stop(self.spec.cat, 'runs the builder again')
        if h is None or not h.start:
            raise Stop(self.spec.cat, 'runs the builder on something that is not the start of an element')
        if not self.eligible(m, h):
            raise Stop(self.spec.cat, 'runs the builder for an element that is not at the level selected from')
        if mon.match(s, h) is not True:
            raise Stop(self.spec.cat, 'runs the builder for an element that %s' % ('is not selected' if mon.match(s, h) is False else 'was not checked'))
        m.x['d'] = ('first', h.depth)
        return ('drain', 'B', self.arg_stream(mon, s, args))

    def dout(self, mon, s, m, o):
        d = m.x['d']
        h = self.spec.content_head(m)
        if d[0] == 'over':
            raise Stop('P22', 'the stream handed to the builder contains %s after the selected element' % ev_text(mon, s, o))
        if h is None or not mon.same(s, h, o):
            raise Stop('P22', 'the stream handed to the builder yields %s instead of the next part%s of the selected element' % (
                ev_text(mon, s, o), '' if h is None else ' (%s)' % h.show()))
        self.spec.pop_content(m)
        if d[0] == 'first' and h.kind != OPEN or d[0] == 'in' and h.kind == CLOSE and h.depth == d[1]:
            m.x['d'] = ('over',)
        elif d[0] == 'first':
            m.x['d'] = ('in', d[1])

    def drained(self, mon, s, m, err):
        if err is None and m.x['d'][0] != 'over':
            raise Stop('P22', 'the stream handed to the builder ends before the selected element does')
        m.x.pop('d')
        m.x['s'] = 'active'

    def complete(self, mon, s, m):
        if m.x['s'] == 'active' and not self.role_over(m, 'B'):
            return False
        return self.spec.content_over(m)


class Repeating(Core):
    """collect, then one build per item on a fresh copy"""

    def __init__(self, fallback=False, builder=None, else_builder=None):
        self.fallback, self.builder, self.else_builder = fallback, builder, else_builder

    def init(self, m):
        m.x['r'] = 'collect'
        m.x['n'] = 0
        m.x['exp'] = None
        m.x['items'] = ()

    def on_item(self, mon, s, m, v):
        if 'r' not in m.x:
            return
        if v is None:
            m.x['n'] = 'end' if m.x['n'] in (0, 'end0') else 'endn'
            if m.x['n'] == 'end':
                m.x['n'] = 'end0'
        else:
            if m.x['n'] in ('end0', 'endn'):
                return False    # iterators stay at their end
            m.x['n'] = 'some'
            m.x['items'] = m.x['items'] + (v,)

    def on_content(self, mon, s, m, it):
        if self.fallback and m.x['r'] == 'drain':
            m.queue('S').append(it)
            return
        if m.x['r'] != 'collect':
            raise Stop(self.spec.cat, 'parts of the original are read after it was collected')
        ev = mon.event(it.kind, it.fields)
        exp = m.x['exp']
        seq = exp.t if exp is not None else ('seq', (), ('adt', mon.EV, ()))
        m.x['exp'] = T(('seq', seq[1] + (('one', ev),)) + seq[2:])

    def on_build(self, mon, s, m, recv, args):
        e = mon.e
        if m.x['r'] == 'active':
            if not self.role_over(m, 'B'):
                raise Stop(self.spec.cat, 'runs the builder again before its last result was emitted')
            m.x['r'] = 'ready'
        if self.fallback and contains(recv, self.else_builder):
            if m.x['n'] != 'end0':
                raise Stop(self.spec.cat, 'runs the fallback builder although there %s' % ('are items' if m.x['items'] or m.x['n'] != 0 else 'may be items'))
            m.x['r'] = 'drain'
            if self.spec.wrap:
                m.x['nowrap'] = True
                m.x['w'] = 'in'
            return ('drain', 'F', self.arg_stream(mon, s, args))
        if not contains(recv, self.builder):
            raise AnalysisError('unknown builder %s' % show(recv)[:60])
        if not m.x['items']:
            raise Stop(self.spec.cat, 'runs the builder without an item')
        it = m.x['items'][0]
        if len(args) < 2 or not mon.same_val(s, e.strip(s, args[1]), it.t):
            raise Stop(self.spec.cat, 'the builder is not given the next item')
        m.x['items'] = m.x['items'][1:]
        if not self.spec.content_over(m):
            raise Stop(self.spec.cat, 'runs the builder before the original was collected')
        ts = find_adt(e, s, self.arg_stream(mon, s, args), mon.A.adt('TemplateStream'))
        if ts is None:
            raise AnalysisError('the stream handed to the builder is not a template stream')
        vec, idx = template_stream(e, s, ts)
        if idx != INT(0):
            raise Stop(self.spec.cat, 'the builder is handed a copy of the original that starts at part %s' % show(idx))
        exp = m.x['exp'].t if m.x['exp'] is not None else ('seq', ())
        if vec[0] != 'seq':
            raise AnalysisError('the collected parts are not known')
        if vec[1] != exp[1]:
            raise Stop(self.spec.cat, 'the copy handed to the builder is not what was collected: %s instead of %s' % (show(vec)[:200], show(exp)[:200]))
        m.x['r'] = 'active'
        st = self.arg_stream(mon, s, args)
        t = e.typeof(st)
        rank = max([len(vec[1])] + [99 for x in vec[1] if x[0] == 'acc'])
        if t not in mon.handed or mon.handed[t][3] < rank:
            mon.handed[t] = (s.clone(), st, ts, rank)
        return ('none', 'B')

    def dout(self, mon, s, m, o):
        q = m.queue('S')
        if not q or not mon.same(s, q[0], o):
            raise Stop(self.spec.cat, 'the stream handed to the fallback builder yields %s instead of the next part of the original' % ev_text(mon, s, o))
        q.pop(0)

    def drained(self, mon, s, m, err):
        if err is None and not (m.queue('S') == [] and m.role('S').phase in ('closed', 'end')):
            raise Stop(self.spec.cat, 'the stream handed to the fallback builder ends early')
        m.x['r'] = 'fallback'

    def out(self, mon, s, m, o):
        if m.x['r'] == 'fallback':
            self.emit_from(mon, s, m, 'F', o)
            return
        if m.x['r'] != 'active':
            raise Stop(self.spec.cat, 'emits %s before a builder was run' % ev_text(mon, s, o))
        self.emit_from(mon, s, m, 'B', o)

    def complete(self, mon, s, m):
        if m.x['r'] == 'fallback':
            return not m.x.get('nowrap') and self.role_over(m, 'F')
        if self.fallback and m.x['n'] == 'end0':
            return False
        if m.x['r'] == 'active' and not self.role_over(m, 'B'):
            return False
        return m.x['n'] in ('end0', 'endn') and not m.x['items'] and self.spec.content_over(m)

    def settle(self, mon, s, m):
        if m.x.get('nowrap') and m.x['r'] == 'fallback' and self.role_over(m, 'F'):
            m.x['w'] = 'done'

    def missing(self, m):
        if self.fallback and m.x['n'] == 'end0':
            return 'the fallback builder was run'
        if m.x['n'] not in ('end0', 'endn') or m.x['items']:
            return 'every item was used'
        return 'every part was emitted'


def find_adt(e, s, v, name, d=0):
    v = e.strip(s, v)
    t = e.typeof(v)
    if t[0] == 'adt' and t[1] == name:
        return v
    if d > 5:
        return None
    if v[0] == 'adt':
        for x in v[3]:
            r = find_adt(e, s, x, name, d + 1)
            if r is not None:
                return r
    if v[0] == 'box':
        return find_adt(e, s, v[1], name, d + 1)
    return None


def template_stream(e, s, ts):
    """(events, index) of a template stream value"""
    vec = idx = None
    ad = e.p.adts[e.typeof(ts)[1]]['variants'][0]['fields']
    for i, f in enumerate(ad):
        x = e.get(ts, (('f', i),))
        t = e.p.T(f['ty'])
        if t[0] == 'int':
            idx = e.simp(s, x)
        elif t[0] == 'adt' and t[1] == 'std::rc::Rc':
            vec = e.load(s, x) if x[0] == 'rc' else x
    if vec is None or idx is None:
        raise AnalysisError('template stream not recognised')
    return vec, idx
