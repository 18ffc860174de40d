"""P06: rendering writes exactly the markup of each part, in order."""
from rules.common import *
from rules.simlib import Sim, Dead, Infeasible, Lost, live, projection

TECHNIQUE = 'trace-language inclusion: the write sequences of every MIR path of the rendering functions (loops as summarised graphs) are simulated against the documented markup grammar'
LEVEL_NOTE = 'static analysis: all paths of the Display implementations of parts and templates, loops by induction over summarised edges'
EXPLANATION = (
    'All paths of rendering one part and of rendering a template are analysed; the sequence of pieces each path writes '
    '(constants and texts of the part, with attribute and part loops as summarised graphs) must be admitted by the documented '
    'markup of that kind of part: every attribute once, in order, separated by one space, nothing else, and a failed write '
    'is reported.')

# kinds of parts by their public description (Event::description) are internal; they are identified by variant name
KIND = [('Noop', 'none'), ('Doctype', 'doctype'), ('Comment', 'comment'), ('RawData', 'text'), ('Data', 'text'),
        ('OpeningTag', 'open'), ('ClosingTag', 'close'), ('SelfClosedTag', 'self'), ('VoidTag', 'open')]
END = {'open': '>', 'self': ' />'}


def display_of(A, adt):
    return A.tmethod('std::fmt::Display', lambda t: t[0] == 'adt' and t[1] == adt, 'fmt')


def kinds(A):
    """variant index -> kind of the internal part enumeration"""
    ev = A.adt('Event', True)
    t = A.p.T(A.p.adts[ev]['variants'][0]['fields'][0]['ty'])
    ad = A.p.adts[t[1]]
    d = dict(KIND)
    return {i: d.get(v['name']) for i, v in enumerate(ad['variants'])}, t[1], ad


def run(ctx, rep):
    A = Ana(ctx)
    ev = A.adt('Event', True)
    tm = A.adt('Template', True)
    ke = display_of(A, ev)
    kt = display_of(A, tm)
    if ke is None:
        rep.missing('part', 'Display for Event')
    if kt is None:
        rep.missing('template', 'Display for Template')
    if ke is None or kt is None:
        return
    guarded(rep, 'part', A.name(ke), check, A, rep, 'part', ke, None, ev, tm)
    guarded(rep, 'template', A.name(kt), check, A, rep, 'template', kt, ke, ev, tm)
    rep.floor('part', 9)
    rep.floor('template', 1)
    rep.assume('the texts written are those of P01/P02 (content) and P03 (names)',
               'std iteration over slices and vectors yields every element once in order')


LOST = ('str', '<an element still held>')
GONE = ('str', '<an element no longer held>')


def has_app(t, op):
    if isinstance(t, tuple):
        return (len(t) > 1 and t[0] == 'app' and t[1] == op) or any(has_app(x, op) for x in t)
    return False


def contains_el(t):
    if isinstance(t, tuple):
        return (len(t) > 1 and t[0] == 'el') or any(contains_el(x) for x in t)
    return False


class Spec(object):
    """states: ('F',) a write failed;  (top, pend, phase, ev, cur, n, done, tn, tdone)"""

    def __init__(self, A, e, M, ev, root, whole):
        self.A, self.e, self.M, self.ev, self.root, self.whole = A, e, M, ev, root, whole
        self.kinds, self.kind_adt, self.ad = kinds(A)

    def init(self, s):
        if self.whole:
            return [('T', (), 'E', None, (), 0, False, 0, False)]
        return [('P', (), '0', self.root, (), 0, False, 0, False)]

    # ---- parts
    def inner(self, ev):
        return self.e.get(ev, (('f', 0),))

    def variant(self, s, v):
        if v[0] == 'adt':
            return v[2]
        f = s.facts.get(('app', 'discr', v))
        if f and f[0] == 'is':
            return f[1][1]
        return None

    def field(self, v, var, i):
        if v[0] == 'adt':
            return v[3][i]
        return self.e.get(v, (('d', var), ('f', i)))

    def layout(self, s, ev):
        """(kind, prefix tokens, attribute collection or None)"""
        k = self.inner(ev)
        var = self.variant(s, k)
        if var is None:
            raise Lost('kind of part not known')
        kind = self.kinds.get(var)
        if kind is None:
            raise Lost('unknown kind of part')
        fs = self.ad['variants'][var]['fields']
        tx, at = None, None
        for i, f in enumerate(fs):
            t = self.A.p.T(f['ty'])
            v = self.field(k, var, i)
            if t[0] == 'adt' and t[1].split('::')[-1] == 'Attributes' or t[0] == 'adt' and self.M.text_root(self.e, v) is None:
                at = v
            else:
                tx = self.M.text_root(self.e, v)
        if kind == 'none':
            return kind, (), None
        T = ('t', tx)
        if kind == 'text':
            return kind, (T,), None
        if kind == 'doctype':
            return kind, (('s', '<!doctype '), T, ('s', '>')), None
        if kind == 'comment':
            return kind, (('s', '<!--'), T, ('s', '-->')), None
        if kind == 'close':
            return kind, (('s', '</'), T, ('s', '>')), None
        return kind, (('s', '<'), T), at

    def attr(self, s, el):
        e = self.e
        el = e.strip(s, el)
        t = e.typeof(el)
        ad = self.A.p.adts.get(t[1]) if t[0] == 'adt' else None
        if ad is None or len(ad['variants']) != 1:
            raise Lost('attribute %s' % show(el)[:100])
        name = val = None
        for i, f in enumerate(ad['variants'][0]['fields']):
            ft = self.A.p.T(f['ty'])
            v = e.get(el, (('f', i),))
            if ft[0] == 'adt' and ft[1] == 'std::option::Option':
                val = v
            else:
                name = self.M.text_root(e, v)
        toks = (('t', name),)
        var = self.variant(s, val)
        if var == 0:
            return toks
        return toks + (('s', '="'), ('t', self.M.text_root(e, e.payload(val, 1))), ('s', '"'))

    def nonempty(self, s, at):
        e = self.e
        for k in list(s.facts):
            for x in (k,) + tuple(y for y in k[1:] if isinstance(y, tuple)):
                if x[0] == 'app' and x[1] == 'len' and projection(x[2], at):
                    if e.simp(s, x) == INT(0):
                        return False
                    r = e.cmp_terms(s, 'Lt', INT(0), x)
                    if r == TRUE or r == FALSE:
                        return r == TRUE
        return None

    # ---- one event
    def step(self, q, x, s):
        if x[0] == 'wfail':
            return [('F',)]
        if q[0] == 'F':
            return [q]
        if x[0] == 'w':
            return self.eat(q, x[1], s)
        if x[0] == 'next':
            return self.next(q, x, s)
        if x[0] == 'iter':
            return [q]
        raise Lost('event %s' % (x[0],))

    def next(self, q, x, s):
        top, pend, phase, ev, cur, n, done, tn, td = q
        src, el = x[1], x[3]
        if ev is not None and contains(src, ev):
            kind, pre, at = self.layout(s, ev)
            if at is not None and contains(src, at):
                if not projection(src, at):
                    if has_app(src, 'reverse'):
                        return []
                    raise Lost('iteration over %s' % show(src)[:100])
                ne = self.nonempty(s, at)
                if el is None:
                    if ne and n == 0:
                        raise Infeasible()
                    return [(top, pend, phase, ev, cur, n, True, tn, td)]
                if ne is False:
                    raise Infeasible()
                if len(cur) > 3:
                    raise Lost('many elements ahead')
                return [(top, pend, phase, ev, cur + (el,), 1, done, tn, td)]
        if self.whole and projection(src, self.root):
            if el is not None:
                if td:
                    raise Infeasible()
                if not self.finished(q, s):
                    return []
                return [(top, (), '0', self.e.strip(s, el), (), 0, False, 1, False)]
            if self.nonempty(s, self.root) and tn == 0:
                raise Infeasible()
            if not self.finished(q, s):
                return []
            return [(top, (), 'E', None, (), 0, False, tn, True)]
        if has_app(src, 'reverse') and contains(src, self.root):
            return []
        raise Lost('iteration over %s' % show(src)[:100])

    def finished(self, q, s):
        top, pend, phase, ev, cur, n, done, tn, td = q
        if pend or cur:
            return False
        if phase == '0':
            return self.layout(s, ev)[1] == ()
        return phase == 'E'

    def eat(self, q, piece, s):
        top, pend, phase, ev, cur, n, done, tn, td = q
        if piece == ('str', ''):
            return [q]
        if piece[0] == 'cat':
            Q = [q]
            for p in piece[1]:
                Q = [r for y in Q for r in self.eat(y, p, s)]
            return Q
        if pend:
            h, r = pend[0], pend[1:]
            if h[0] == 't':
                if h[1] is None and piece[0] != 'str':
                    raise Lost('text of an element of an earlier iteration')
                return [(top, r, phase, ev, cur, n, done, tn, td)] if piece == h[1] else []
            if piece[0] != 'str':
                return []
            a, b = h[1], piece[1]
            k = min(len(a), len(b))
            if a[:k] != b[:k]:
                return []
            if a[k:]:
                r = (('s', a[k:]),) + r
            return self.eat((top, r, phase, ev, cur, n, done, tn, td), ('str', b[k:]), s)
        if ev is None:
            return []
        if phase == '0':
            if piece[0] == 'app' and piece[1] == 'rendered' and piece[2] == ev:
                return [(top, (), 'E', ev, (), 0, False, tn, td)]
            kind, pre, at = self.layout(s, ev)
            if not pre:
                return []
            return self.eat((top, pre, 'A' if at is not None else 'E', ev, cur, n, done, tn, td), piece, s)
        if phase == 'E':
            return []
        kind, pre, at = self.layout(s, ev)
        if phase == 'S':
            if not cur:
                return []
            if cur[0] == GONE:
                return []
            if cur[0] == LOST:
                raise Lost('an element of an earlier iteration')
            return self.eat((top, self.attr(s, cur[0]), 'A', ev, cur[1:], n, done, tn, td), piece, s)
        out = []
        if cur and cur[0] == LOST:
            raise Lost('an element of an earlier iteration')
        if not cur and (done or self.nonempty(s, at) is False):
            out += self.eat((top, (('s', END[kind]),), 'E', ev, (), n, done, tn, td), piece, s)
        if not done or cur:
            out += self.eat((top, (('s', ' '),), 'S', ev, cur, n, done, tn, td), piece, s)
        return out

    def close(self, q, s):
        if q[0] == 'F':
            return q
        top, pend, phase, ev, cur, n, done, tn, td = q
        if top == 'T' and self.finished(q, s):
            return (top, (), 'E', None, (), 0, False, tn, td)
        if top == 'T' and not (ev is not None and contains(ev, self.root) and not contains_el(ev)):
            raise Lost('work on one part continues in the next iteration')
        pend = tuple(('t', None) if p[0] == 't' and contains_el(p[1]) else p for p in pend)
        cur = tuple(c if c in (LOST, GONE) else LOST if live(s, c) else GONE for c in cur)
        if len(cur) > 3:
            cur = cur[:3]
        return (top, pend, phase, ev, cur, n, done, tn, td)

    def enter(self, q, s, w):
        """loop entry: what the loop's first node does not hold any more is unknown"""
        if q[0] == 'F':
            return q
        cur = tuple(LOST if c not in (LOST, GONE) and live(s, c) and not live(w, c) else c for c in q[4])
        return q[:4] + (cur,) + q[5:]

    def accepts(self, Q, s):
        for q in Q:
            if q[0] == 'F':
                continue
            if self.whole:
                if self.finished(q, s) and (q[8] or self.nonempty(s, self.root) is False):
                    return True
            elif self.finished(q, s):
                return True
        return False


def explain(sp, ev, states, s):
    got = 'writes %s' % show(ev[1]) if ev[0] == 'w' else 'moves on to the next element' if ev[0] == 'next' and ev[3] is not None else 'stops iterating' if ev[0] == 'next' else str(ev[0])
    exp = []
    for q in sorted(states, key=repr):
        if q[0] == 'F':
            continue
        top, pend, phase, e_, cur, n, done, tn, td = q
        if pend:
            exp.append(repr(pend[0][1]) if pend[0][0] == 's' else show(pend[0][1]))
        elif phase == 'A':
            exp.append('the end of the tag' if done else 'a space and the next attribute, or the end of the tag')
        elif phase == 'S':
            exp.append('the attribute after the separating space')
        elif phase == '0':
            exp.append('the markup of the part')
        else:
            exp.append('nothing more')
    return '%s where the markup requires %s' % (got, ' or '.join(sorted(set(exp))[:4]))


def check(A, rep, rule, k, ke, ev, tm, keep=None):
    """`keep` restricts the paths to kinds of part"""
    e, M = A.new()
    whole = ke is not None
    if whole:
        def h(eng, st, c):
            v = eng.strip(st, c.args[0])
            return M.emit(eng, st, c.args[1], eng.app(STR, 'rendered', v))
        e.hooks[ke] = h
    args, outs = A.run(e, k)
    root = e.strip(St(), args[0])
    sp = Spec(A, e, M, ev, root, whole)
    sim = Sim(e, sp.step, sp.close, sp.enter)
    nm = A.name(k)
    for pn in e.panics:
        rep.bad(rule, nm, 'rendering can panic (%s) where %s' % (pn['kind'], facts_text(pn)) if False else 'rendering can panic (%s)' % pn['kind'])
    for s, v in outs:
        for s2, var in e.split_variant(s, v):
            if keep is not None and sp.variant(s2, sp.inner(root)) not in keep:
                continue
            where = facts_text(s2, 8)
            try:
                sets = sim.run(s2, sp.init(s2))
            except Dead as d:
                rep.bad(rule, nm, '%s, when %s' % (explain(sp, d.ev, d.states, d.st), facts_text(d.st, 10)))
                continue
            except Lost as x:
                rep.undecided(rule, nm, '%s, when %s' % (x, where))
                continue
            if not sets:
                continue
            if var != 0:
                if all(any(q[0] == 'F' for q in Q) for Q in sets):
                    rep.ok(rule, nm, 'a failed write is reported')
                else:
                    rep.bad(rule, nm, 'reports a failure although every write succeeded, when %s' % where)
                continue
            bad = [Q for Q in sets if not sp.accepts(Q, s2)]
            if bad:
                if any(q[0] == 'F' for Q in bad for q in Q):
                    rep.bad(rule, nm, 'a failed write is not reported, when %s' % where)
                else:
                    rep.bad(rule, nm, 'ends before the markup is complete: %s, when %s' % (explain(sp, ('end',), bad[0], s2), where))
            else:
                rep.ok(rule, nm, 'markup complete where %s' % where)
