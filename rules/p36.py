"""P36: transforming a template collects exactly the transformed stream."""
from rules.flows import *
from rules.flows import TECHNIQUE as _T
from rules.p35 import result

TECHNIQUE = _T
LEVEL_NOTE = 'static analysis: all paths of the template transformations with opaque builders and result streams'
EXPLANATION = (
    'transform and with_transformed_element are analysed on all paths with an opaque builder whose result stream may yield any '
    'parts, placeholders, failure or end.  The builder has to run exactly once, on a stream that yields every part of the template '
    '(explored to a fixpoint) or exactly the one empty element of the tag; the template returned has to hold exactly the parts the '
    'result stream yielded, in order and without placeholders, and a failure of the stream or of the name conversion has to be '
    'returned as it is.  with_element has to build the one part with that tag and no attributes.')


class Collecting(Core):
    def __init__(self, self_arg=None):
        self.self_arg = self_arg

    def init(self, m):
        m.x['b'] = 'no'
        m.x['exp'] = None

    def on_other(self, mon, s, m, role, it):
        if role != 'B':
            raise AnalysisError('unknown stream')
        collect(mon, m, it)

    def on_build(self, mon, s, m, recv, args):
        if m.x['b'] != 'no':
            raise Stop('P36', 'runs the builder twice')
        e = mon.e
        st = self.arg_stream(mon, s, args)
        if self.self_arg is None:
            m.x['b'] = 'drain'
            m.x['k'] = 0
            return ('drain', 'B', st)
        m.x['b'] = 'active'
        ts = find_adt(e, s, st, mon.A.adt('TemplateStream'))
        if ts is None:
            raise AnalysisError('the stream handed to the builder is not a template stream')
        vec, idx = template_stream(e, s, ts)
        mine = events_of(mon, s, raw_events(e, s, e.strip(s, self.self_arg)))
        if vec[0] != 'seq':
            vec = events_of(mon, s, vec)
        if idx != INT(0) or vec != mine:
            raise Stop('P36', 'the builder is handed %s from part %s instead of the parts of the template from the first on' % (show(vec)[:80], show(idx)))
        mon.handed[e.typeof(st)] = (s.clone(), st, ts, 0)
        return ('none', 'B')

    def dout(self, mon, s, m, o):
        e = mon.e
        n = mon.norm(s, o)
        if m.x['k']:
            raise Stop('P36', 'the stream handed to the builder has more than one part')
        m.x['k'] = 1
        if n is None or n[0] not in (SELFC, VOID):
            raise Stop('P36', 'the builder is handed %s instead of the empty element' % ev_text(mon, s, o))
        if not empty_element(mon, s, n, converted(e, s)):
            raise Stop('P36', 'the builder is handed an element with another tag or with attributes')

    def drained(self, mon, s, m, err):
        if err is None and not m.x['k']:
            raise Stop('P36', 'the builder is handed an empty stream')
        m.x['b'] = 'active'


def converted(e, s):
    """the name after its conversion"""
    conv = [k[2] for k in s.facts if k[0] == 'app' and k[1] == 'discr' and k[2][0] == 'app' and k[2][1] == 'tcall']
    if len(conv) != 1:
        raise AnalysisError('the name conversion is not identified')
    return e.payload(conv[0], 0)


def empty_element(mon, s, n, tag):
    e = mon.e
    if not mon.same_val(s, n[1][0], tag):
        return False
    a = n[1][1]
    while a[0] == 'adt' and len(a[3]) == 1:
        a = e.strip(s, a[3][0])
        if a[0] == 'rc':
            a = e.strip(s, e.load(s, a))
    if a[0] != 'seq':
        raise AnalysisError('attribute list not recognised')
    return a[1] == ()


def run(ctx, rep):
    A = Ana(ctx)
    T_ = A.adt('Template', True)
    if T_ is None:
        rep.missing('collect', 'type Template')
        return
    for n in ('transform', 'with_transformed_element', 'with_element'):
        k = A.method(T_, n)
        if k is None:
            rep.missing('collect', 'Template::' + n)
            continue
        guarded(rep, 'collect', 'Template::' + n, element if n == 'with_element' else collecting, A, rep, k, n)
    from rules import p11
    guarded(rep, 'constructed', 'element construction', p11.constructed, A, rep)
    rep.floor('constructed', 1)


def collecting(A, rep, k, n, cats=None):
    F = Finding(n)
    core = Collecting()
    e, mon = engine(A, Spec('P36', core), 3)
    args = A.args(e, k)
    if n == 'transform':
        core.self_arg = args[0]
    st = St()
    m = Mstate()
    core.init(m)
    mon.save(st, m)
    args, outs = A.run(e, k, args=args, st=st)
    n0 = 0
    for s, v in outs:
        m = mon.load(s)
        for s2, r in e.split_variant(s, v):
            n0 += 1
            F.paths += 1
            m = mon.load(s2)
            try:
                verdict(mon, s2, m, r, e.payload(v, r), args)
            except Stop as x:
                mon.fail(s2, x.cat, x.msg)
    if not n0 and not mon.viol and not e.panics:
        rep.undecided('collect', 'Template::' + n, 'no path returns')
        return
    for t, (s, stream, ts, _) in mon.handed.items():
        template_yields(F, e, mon, s, stream, ts, 'P36', 'the stream handed to the builder')
    F.nodes += len(outs)
    finish(F, e, mon)
    if cats:
        F.viol = [v for v in F.viol if v[0] in cats]
    result(rep, 'collect', 'Template::' + n, F)


def verdict(mon, s, m, r, pl, args):
    e = mon.e
    c = mon.failed_conversion(s)
    if r == 1:
        x = e.strip(s, pl)
        if m.pend is not None:
            if not mon.same_val(s, x, m.pend.t):
                raise Stop('P36', 'fails with %s instead of the error of the stream' % show(x)[:160])
        elif c is not None:
            if not contains(x, c[1]) or c[2] is not None and x[0] == 'adt' and x[2] not in c[2]:
                raise Stop('P36', 'the error of the name conversion comes out as %s' % show(x)[:160])
        else:
            raise Stop('P36', 'fails although nothing failed: %s' % show(x)[:160])
        return
    if m.pend is not None:
        raise Stop('P36', 'succeeds although the stream failed')
    if c is not None:
        raise Stop('P36', 'succeeds although %s failed' % c[0])
    if m.x['b'] != 'active':
        raise Stop('P36', 'succeeds without running the builder')
    b = m.role('B')
    if not b.over:
        raise Stop('P36', 'the result stream is not read to its end')
    vec = template_events(mon, s, pl)
    exp = m.x['exp'].t if m.x['exp'] is not None else ('seq', ())
    if vec[0] != 'seq':
        raise AnalysisError('the collected parts are not known')
    if vec[1] != exp[1]:
        no_noops(mon, s, vec)
        raise Stop('P36', 'the template holds %s instead of the parts of the result stream, %s' % (show(vec)[:200], show(exp)[:200]))


def element(A, rep, k, n):
    nm = 'Template::' + n
    e, mon = engine(A, Spec('P36', Core()), 3)
    args, outs = A.run(e, k)
    if not outs:
        rep.undecided('collect', nm, 'no path returns')
    for s, v in outs:
        for s2, r in e.split_variant(s, v):
            pl = e.payload(v, r)
            c = mon.failed_conversion(s2)
            cond = facts_text(s2, 6)
            if r == 1:
                if c is None or not contains(pl, c[1]):
                    rep.bad('collect', nm, 'fails with %s when %s' % (show(pl)[:160], cond))
                continue
            if c is not None:
                rep.bad('collect', nm, 'succeeds although the name is invalid, when ' + cond)
                continue
            vec = template_events(mon, s2, pl)
            if vec[0] != 'seq':
                rep.undecided('collect', nm, 'parts not known')
                continue
            tag = converted(e, s2)
            good = len(vec[1]) == 1 and vec[1][0][0] == 'one'
            if good:
                nn = mon.norm(s2, vec[1][0][1])
                good = nn is not None and nn[0] in (SELFC, VOID) and empty_element(mon, s2, nn, tag)
            if good:
                rep.ok('collect', nm, 'one %s when %s' % (NAMES[nn[0]], cond[:200]))
            else:
                rep.bad('collect', nm, 'the template is %s instead of one empty element of the tag, when %s' % (show(vec)[:200], cond))
