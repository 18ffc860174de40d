"""P27: selectors match exactly the elements they describe."""
from rules.lists import *
from rules.streams import STARTS, NAMES, NOOP

TECHNIQUE = 'path-partitioned dataflow over MIR; loops over attributes combined with a predicate automaton'
LEVEL_NOTE = 'static analysis: all paths of every selector, attribute lists of any length'
EXPLANATION = (
    'Every implementation of the selector trait is analysed on all paths with a part of any kind.  For parts that are no element start '
    'the answer has to be no.  For element starts the answer has to agree with the definition: equality of the tag name; an attribute '
    'named id with the value; an attribute named class with the name among its whitespace separated words; for class lists and string '
    'selectors the conjunction.  Loops over attributes are decided for lists of any length: the loop graph is combined with an '
    'automaton that follows whether an attribute read so far satisfies the definition, and each exit has to answer accordingly.  '
    'Shared and borrowed selectors have to ask the selector they stand for, about the same part.')


class Finder(object):
    """helpers that search an attribute list, established first"""

    def __init__(self, A, rep):
        self.A = A
        self.has = {}
        for k, f in A.local():
            if f['argc'] != 2 or f.get('generics') or k in A.s.preds or k in A.p.derived_fns:
                continue
            if A.p.T(f['locals'][0]) != ('bool',):
                continue
            e, M = A.new()
            at = Attr(A, e, M)
            if at.ty is None:
                continue
            try:
                args, outs = A.run(e, k)
                st = St()
                L = at.lst(st, args[0])
                if e.elem_type(L) != ('adt', at.ty, ()):
                    continue
                t = e.typeof(args[1])
                if t != STR and not M.textlike(e, t[2] if t[0] == 'ref' else t):
                    continue
                nm = M.as_str(e, st, args[1])
                if e.panics or e.unknown:
                    continue
                for what, P in (('has_class', HasClass), ('has_id', HasId)):
                    if not exists(e, M, L, P(at, nm), outs)[0]:
                        self.has[k] = what
                        rep.ok('search', A.name(k), 'answers whether ' + what.replace('_', ' ') + ' holds, lists of any length')
                        break
            except (AnalysisError, KeyError, IndexError, TypeError):
                continue

    def install(self, e, M):
        at = Attr(self.A, e, M)
        for k, what in self.has.items():
            e.hooks[k] = self.hook(at, what)
        return at

    def hook(self, at, what):
        def h(eng, st, c):
            L = at.lst(st, c.args[0])
            X = at.M.as_str(eng, st, c.args[1])
            t = ('app', what, L, X)
            f = st.facts.get(t)
            return [(st, f[1] if f and f[0] == 'is' else eng.app(('bool',), what, L, X))]
        return h


def exists(e, M, L, pred, outs):
    """problems with: the answer is whether an element of L satisfies pred"""
    bad = []
    n = 0
    for s, v in outs:
        for s2, r in e.split_bool(s, v):
            n += 1
            qs = Product(e, L, Exists(pred), s2).end()
            if e.simp(s2, M.length(e, s2, L)) == INT(0):
                qs = {(False, True)}
            if r and any(not f for f, d in qs):
                bad.append(('says yes although no attribute may match', s2))
            elif not r and any(f for f, d in qs):
                bad.append(('says no although an attribute may match', s2))
            elif not r and any(not d for f, d in qs):
                bad.append(('says no before every attribute was looked at', s2))
    return bad, n


def event_paths(A, k, F):
    """(engine, model, attribute access, arguments, [(state, answer)])"""
    e, M = A.new()
    at = F.install(e, M) if F else Attr(A, e, M)
    args, outs = A.run(e, k)
    return e, M, at, args, outs


def kind_of(e, s, ev):
    """the kind of the part, or the set of kinds it may have"""
    ev = e.strip(s, ev)
    if ev[0] == 'ref':
        ev = e.strip(s, e.load(s, ev))
    kt = e.get(ev, (('f', 0),))
    v = e.variant(s, kt)
    if v is not None:
        return {v}, kt
    return set(range(9)) - set(e.not_variants(s, kt) or ()), kt


def run(ctx, rep):
    A = Ana(ctx)
    tr = A.trait('Selector')
    if tr is None:
        rep.missing('selector', 'trait Selector')
        return
    F = Finder(A, rep)
    seen = set()
    for im in A.impls(tr):
        k = im['items'].get('matches')
        t = A.impl_self(im)
        if k not in A.p.fns:
            continue
        nm = A.name(k)
        if t[0] == 'ref' or t[0] == 'adt' and t[1] in ('std::rc::Rc', 'std::sync::Arc', 'std::boxed::Box'):
            seen.add('forward')
            guarded(rep, 'forward', nm, forward, A, rep, k, nm)
            continue
        n = t[1].split('::')[-1] if t[0] == 'adt' else '?'
        seen.add(n)
        g = {'Tag': tag, 'Id': one, 'Class': one, 'Classes': classes, 'Static': static}.get(n)
        if g is None:
            rep.undecided('selector', nm, 'no rule for this selector')
            continue
        guarded(rep, 'selector', nm, g, A, rep, k, nm, n, F)
    for n in ('Tag', 'Id', 'Class', 'Classes', 'Static', 'forward'):
        if n not in seen:
            rep.missing('selector', 'implementation for ' + n)
    rep.assume('the list of attributes and the names inside a selector do not change (P30, P31)')


def finishing(rep, nm, e, bad, n, rule='selector'):
    if e.panics:
        rep.bad(rule, nm, 'can panic: ' + e.panics[0]['kind'])
    if bad and e.unknown:
        rep.undecided(rule, nm, 'operations without a model: %s: possibly %s' % (', '.join(sorted(str(x) for x in e.unknown)[:3]), bad[0][0]))
        return
    if bad and derived(e):
        rep.undecided(rule, nm, 'a list made from the attributes is searched: possibly ' + bad[0][0])
        return
    seen = set()
    for msg, s in bad:
        if msg not in seen:
            seen.add(msg)
            rep.bad(rule, nm, '%s\n  when: %s' % (msg, facts_text(s, 12)))
    if not bad and not e.panics:
        if not n:
            rep.undecided(rule, nm, 'no path returns')
        else:
            rep.ok(rule, nm, '%d paths agree with the definition' % n)


def forward(A, rep, k, nm):
    e, M = A.new()
    args, outs = A.run(e, k)
    bad, n = [], 0
    ev = e.strip(St(), args[1])
    for s, v in outs:
        n += 1
        v = e.simp(s, v)
        if v[0] != 'app' or v[1] != 'matches':
            bad.append(('does not answer what the selector behind it answers but %s' % show(v)[:80], s))
            continue
        if not contains(v[2], args[0]):
            bad.append(('asks another selector', s))
        a = e.strip(s, args[1])
        b = v[3]
        if b != a and e.strip(s, b) != a and b != e.strip(s, e.load(s, a)):
            bad.append(('asks about another part: %s' % show(b)[:80], s))
    finishing(rep, nm, e, bad, n, 'forward')


def split_kinds(e, s, ev):
    """the path once per kind of element start it allows, and whether other kinds are possible"""
    ks, kt = kind_of(e, s, ev)
    return [k for k in ks if k in STARTS], [k for k in ks if k not in STARTS and k != NOOP], kt


def judge(e, outs, ev, formula):
    """bad paths: the answer differs from the three-valued formula"""
    bad, n = [], 0
    for s, v in outs:
        for s2, r in e.split_bool(s, v):
            n += 1
            starts, others, kt = split_kinds(e, s2, ev)
            if r and others:
                bad.append(('matches a %s' % NAMES[others[0]], s2))
                continue
            for k in starts:
                s3 = s2.clone()
                if len(starts) > 1 or others:
                    pass
                w = formula(s3, kt, k)
                if w is None:
                    bad.append(('answers %s without deciding the definition' % ('yes' if r else 'no'), s3))
                elif w != r:
                    bad.append(('answers %s although the definition says %s' % ('yes' if r else 'no', 'yes' if w else 'no'), s3))
    return bad, n


def parts(e, s, kt, k):
    """tag and attributes of an element start of kind k"""
    return e.get(kt, (('d', k), ('f', 0))), e.get(kt, (('d', k), ('f', 1)))


def own_text(e, M, s, v):
    """the name inside a selector"""
    return M.as_str(e, s, v)


def tag(A, rep, k, nm, n, F):
    e, M, at, args, outs = event_paths(A, k, F)

    def formula(s, kt, kk):
        return tv(M.ideq(e, s, M.as_str(e, s, parts(e, s, kt, kk)[0]), own_text(e, M, s, args[0])))
    bad, c = judge(e, outs, args[1], formula)
    finishing(rep, nm, e, bad, c)


def one(A, rep, k, nm, n, F):
    """id and class: an attribute of the list satisfies the definition"""
    what, P = ('has_id', HasId) if n == 'Id' else ('has_class', HasClass)
    e, M, at, args, outs = event_paths(A, k, F)
    X = own_text(e, M, St(), args[0])
    summarised = any(f[0] == 'app' and f[1] in ('has_id', 'has_class') for s, v in outs for f in list(s.facts) + [v])
    if summarised:
        def formula(s, kt, kk):
            L = at.lst(s, parts(e, s, kt, kk)[1])
            f = s.facts.get(('app', what, L, X))
            return None if f is None else f[1] == TRUE
        bad, c = judge(e, outs, args[1], formula)
        finishing(rep, nm, e, bad, c)
        return
    # the loops themselves
    e, M, at, args, outs = event_paths(A, k, None)
    bad, c = [], 0
    for s, v in outs:
        for s2, r in e.split_bool(s, v):
            c += 1
            starts, others, kt = split_kinds(e, s2, args[1])
            if r and others:
                bad.append(('matches a %s' % NAMES[others[0]], s2))
            for kk in starts:
                L = at.lst(s2, parts(e, s2, kt, kk)[1])
                b, _ = exists(e, M, L, P(at, X), [(s2, ('bool', r))])
                bad += b
    finishing(rep, nm, e, bad, c)


def conj(xs):
    if any(x is False for x in xs):
        return False
    return True if all(x is True for x in xs) else None


def all_fact(e, M, s, test, what, L, src_ok, name_ok):
    """truth of: for every x of a source, what(L, name of x)"""
    r = None
    for k, f in s.facts.items():
        if k[0] != 'app' or k[1] not in ('all', 'some') or f[0] != 'is':
            continue
        src, lit, v = k[2], k[3], k[4]
        if lit[0] != 'app' or lit[1] != what or lit[2] != L or not src_ok(src) or not name_ok(lit[3]):
            continue
        if k[1] == 'all' and v == ('is', TRUE):
            r = f[1] == TRUE
    return r


def classes(A, rep, k, nm, n, F):
    e, M, at, args, outs = event_paths(A, k, F)

    def src_ok(src):
        return contains(src, args[0])

    def name_ok(t):
        return contains(t, ('bound',))

    def formula(s, kt, kk):
        L = at.lst(s, parts(e, s, kt, kk)[1])
        return all_fact(e, M, s, None, 'has_class', L, src_ok, name_ok)
    bad, c = judge(e, outs, args[1], formula)
    if bad and 'has_class' not in F.has.values():
        rep.undecided('selector', nm, 'the search of the attributes is not summarised: possibly ' + bad[0][0])
        return
    finishing(rep, nm, e, bad, c)


def static(A, rep, k, nm, n, F):
    """restricted by the parts a string selector holds"""
    e, M, at, args, outs = event_paths(A, k, F)
    sel = e.strip(St(), args[0])
    t = e.typeof(sel)
    t = t[2] if t[0] == 'ref' else t
    fs = e.p.adts[t[1]]['variants'][0]['fields']
    ix = {f['name']: i for i, f in enumerate(fs)}
    if not {'tag', 'id', 'classes'} <= set(ix) or any(A.p.T(f['ty'])[1] != 'std::option::Option' for f in fs):
        rep.undecided('selector', nm, 'the selector is not stored as tag, id and classes')
        return

    def part(s, n):
        v = sel if sel[0] == 'adt' else e.load(s, sel) if e.typeof(sel)[0] == 'ref' else sel
        x = e.strip(s, e.get(v, (('f', ix[n]),)))
        c = e.variant(s, x)
        return c, (M.as_str(e, s, e.payload(x, 1)) if c == 1 else None)

    def formula(s, kt, kk):
        tg, at_ = parts(e, s, kt, kk)
        L = at.lst(s, at_)
        r = []
        c, x = part(s, 'tag')
        r.append(True if c == 0 else None if c is None else tv(M.ideq(e, s, M.as_str(e, s, tg), x)))
        c, x = part(s, 'id')
        f = s.facts.get(('app', 'has_id', L, x))
        r.append(True if c == 0 else None if c is None or f is None else f[1] == TRUE)
        c, x = part(s, 'classes')
        if c == 1:
            r.append(all_fact(e, M, s, None, 'has_class', L, lambda q: q[0] == 'app' and q[1] == 'split' and q[2] == x and q[3] == Cls.of('.'),
                              lambda y: y == ('bound',)))
        else:
            r.append(True if c == 0 else None)
        return conj(r)
    bad, c = judge(e, outs, args[1], formula)
    if bad and set(F.has.values()) != {'has_class', 'has_id'}:
        rep.undecided('selector', nm, 'the search of the attributes is not summarised: possibly ' + bad[0][0])
        return
    finishing(rep, nm, e, bad, c)
