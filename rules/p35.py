"""P35: injected content appears completely and unchanged."""
from rules.flows import *
from rules.flows import TECHNIQUE as _T
from rules.p01 import texts_of
from rules.textlib import Enc

TECHNIQUE = _T
LEVEL_NOTE = 'static analysis: every implementation of the content conversion trait, its stream explored to a fixpoint'
EXPLANATION = (
    'For every implementation of the trait that turns something into content, the stream it returns is explored with the analysis '
    'engine until its states repeat.  A text or number has to come out as exactly one data part with exactly the text of the value '
    '(escaped once when it is raw), then the end.  A template has to yield the part at position 0, 1, 2, ... of its list and end '
    'exactly at its length.  A stream is itself.  A result yields the content of its success or fails with its error.')


class OneText(Core):
    def __init__(self, arg, kind):
        self.arg, self.kind = arg, kind

    def init(self, m):
        m.x['n'] = 0
        m.x['arg'] = T(self.arg)

    def out(self, mon, s, m, o):
        e, M = mon.e, mon.M
        n = mon.norm(s, o)
        if n is None or n[0] != DATA:
            raise Stop('P35', 'yields %s instead of a data part' % ev_text(mon, s, o))
        if m.x['n']:
            raise Stop('P35', 'yields more than one part')
        m.x['n'] = 1
        ts = texts_of(e, M, s, e.strip(s, n[1][0]))
        if len(ts) != 1:
            raise AnalysisError('the data part holds %d texts' % len(ts))
        t = e.simp(s, ts[0])
        a = e.strip(s, m.x['arg'].t)
        if self.kind == 'int':
            if t != ('app', 'display', a):
                raise Stop('P35', 'the data part is %s instead of the decimal text of the number' % show(t)[:200])
            return
        if self.kind == 'raw':
            r, why = Enc(e, M).cover(s, ts[0], M.as_str(e, s, a))
            if r is False:
                raise Stop('P35', 'the data part is not the escaped text: ' + why)
            if r is None:
                raise AnalysisError(why)
            return
        src = texts_of(e, M, s, a)
        if len(src) != 1:
            raise AnalysisError('the value holds %d texts' % len(src))
        if t != e.simp(s, src[0]):
            raise Stop('P35', 'the data part is %s instead of %s' % (show(t)[:200], show(src[0])[:200]))

    def complete(self, mon, s, m):
        return m.x['n'] == 1


class OfResult(Core):
    """the content of a success, or the error"""

    def __init__(self, arg):
        self.arg = arg

    def init(self, m):
        m.x['arg'] = T(self.arg)

    def ok(self, mon, s, m):
        v = mon.e.variant(s, mon.e.strip(s, m.x['arg'].t))
        if v is None:
            raise AnalysisError('result not inspected')
        return v == 0

    def new_source(self, mon, s, m, recv):
        return 'N' if m.role('N') is None and contains(recv, m.x['arg'].t) else None

    def out(self, mon, s, m, o):
        if not self.ok(mon, s, m):
            raise Stop('P35', 'yields %s although the injected result is a failure' % ev_text(mon, s, o))
        self.emit_from(mon, s, m, 'N', o)

    def complete(self, mon, s, m):
        if not self.ok(mon, s, m):
            raise Stop('P35', 'ends normally although the injected result is a failure')
        return self.role_over(m, 'N')

    def own_error(self, mon, s, m, x):
        return not self.ok(mon, s, m) and contains(x, mon.e.payload(mon.e.strip(s, m.x['arg'].t), 1))


def run(ctx, rep):
    A = Ana(ctx)
    tr = A.trait('IntoStream')
    if tr is None:
        rep.missing('injection', 'trait IntoStream')
        return
    for im in A.impls(tr):
        k = im['items'].get('into_stream')
        if k not in A.p.fns:
            rep.missing('injection', 'into_stream')
            continue
        guarded(rep, 'injection', A.name(k), one, A, rep, k, A.impl_self(im), ctx)
    rep.floor('injection', 15)
    rep.assume('the parts of a template are immutable (P30)')


def one(A, rep, k, t, ctx):
    nm = A.name(k)
    F = Finding(nm)
    K = 3
    e, mon = engine(A, Spec('P35', Core()), K)
    args, outs = A.run(e, k)
    base = t
    while base[0] == 'ref' and base != STR:
        base = base[2]
    ok = True
    for s, v in outs:
        a = args[0]
        if base[0] == 'int':
            core = OneText(a, 'int')
        elif base in (STR, ('str',)):
            core = OneText(a, 'raw')
        elif base[0] == 'param':
            x, y = e.strip(s, v), e.strip(s, a)
            core = None
            if x != y:
                core = Phases('S')
        elif base[0] == 'adt' and base[1] == 'std::result::Result':
            core = OfResult(a)
        else:
            tv = e.strip(s, a)
            if base[1] in ('std::rc::Rc', 'std::sync::Arc'):
                tv = e.strip(s, e.load(s, tv))
            if e.typeof(tv)[0] == 'adt' and e.typeof(tv)[1] == A.adt('Template', True):
                core = Indexed(raw_events(e, s, tv))
            else:
                core = OneText(a, 'enc')
        if core is None:
            F.nodes += 1
            continue
        s = s.clone()
        mon.spec = Spec('P35', core)
        m = Mstate()
        if isinstance(core, Phases):
            mon.spec.init(m, e.strip(s, a), False)
        else:
            core.init(m)
        mon.save(s, m)
        run_stream(F, e, mon, s, v, (nm, len(e.loops)))
    if not outs and not e.panics:
        rep.undecided('injection', nm, 'no path returns')
        return
    finish(F, e, mon)
    result(rep, 'injection', nm, F)


def result(rep, rule, nm, F):
    seen = set()
    for c, msg, facts, tr in F.viol:
        if (c, msg) not in seen:
            seen.add((c, msg))
            rep.bad(rule, nm, '%s\n  when: %s\n  after: %s' % (msg, facts, tr))
    if not F.viol:
        if F.und:
            rep.undecided(rule, nm, F.und[0])
        else:
            rep.ok(rule, nm, '%d states, %d transitions' % (F.nodes, F.edges))
