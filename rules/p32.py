"""P32: equality of text depends only on content."""
from rules.common import *

TECHNIQUE = 'path-partitioned dataflow over MIR of every equality implementation against the structural equality of contents'
LEVEL_NOTE = 'static analysis: all paths of the equality implementations of texts, names, parts, templates and selectors'
EXPLANATION = (
    'Every equality implementation (derived or written by hand) of the text, name, part, template and selector types is '
    'analysed on all paths. A path that answers "equal" must have established that every component has equal content, a path '
    'that answers "different" must have established that some component differs (text: exact content, whatever its storage; '
    'names: ASCII case-insensitive).')

ROOTS = ('Value', 'Data', 'Identifier', 'Template', 'Event', 'Id', 'Tag', 'Class')


def run(ctx, rep):
    A = Ana(ctx)
    p = A.p
    eqs = {}
    for im in A.impls('std::cmp::PartialEq'):
        t = A.impl_self(im)
        if t[0] == 'adt':
            eqs.setdefault(t[1], []).append(im)
    todo, seen = [], []
    for r in ROOTS:
        a = A.adt(r, True)
        if a is None:
            rep.missing('equality', 'type ' + r)
            continue
        todo.append(a)
    while todo:
        a = todo.pop()
        if a in seen:
            continue
        seen.append(a)
        for v in p.adts[a]['variants']:
            for f in v['fields']:
                todo += reach(p, p.T(f['ty'])) if f['ty'] is not None else []
    for a in sorted(seen):
        if a not in eqs:
            if short_name(a).split('::')[-1] in ROOTS:
                rep.missing('equality', 'PartialEq for ' + short_name(a))
            continue
        for im in eqs[a]:
            for m in ('eq', 'ne'):
                k = im['items'].get(m)
                if k in p.fns:
                    guarded(rep, 'equality', A.name(k), one, A, rep, k, m == 'ne', im)
    rep.floor('equality', 8)
    rep.assume('the standard PartialEq of str, Option, Vec and Rc compare content elementwise', 'names are always valid (P03), hence ASCII')


def reach(p, t):
    if t[0] == 'adt':
        r = [x for a in t[2] for x in reach(p, a)]
        ad = p.adts.get(t[1])
        return r + ([t[1]] if ad and ad.get('local') else [])
    if t[0] in ('ref',):
        return reach(p, t[2])
    if t[0] in ('slice', 'array', 'ptr'):
        return reach(p, t[1])
    if t[0] == 'tuple':
        return [x for a in t[1] for x in reach(p, a)]
    return []


def one(A, rep, k, neg, im):
    e, M = A.new(preds=True)
    e.hooks = {kk: h for kk, h in e.hooks.items() if kk != k}
    nm = A.name(k)
    env = {}
    args, outs = A.run(e, k)
    n = 0
    for s, v in outs:
        for s2, r in e.split_bool(s, v):
            n += 1
            r = r != neg
            if not consistent(e, s2):
                continue
            q = spec(A, e, M, s2, e.strip(s2, args[0]), e.strip(s2, args[1]))
            if q == 'open' and r:
                rep.bad('equality', nm, 'answers "equal" although one list may be longer than the other, where %s' % facts_text(s2))
                continue
            if q == 'open':
                q = None
            if q is r:
                rep.ok('equality', nm, '%s where %s' % ('equal' if r else 'different', facts_text(s2, 6)))
            elif q is None and not plain(A, e, M, s2):
                rep.undecided('equality', nm, 'answers %s where %s' % ('equal' if r else 'different', facts_text(s2)))
            elif q is None:
                rep.bad('equality', nm, 'answers "%s" without %s, where %s' % (
                    'equal' if r else 'different',
                    'all components having been compared' if r else 'any component being known to differ', facts_text(s2)))
            else:
                rep.bad('equality', nm, 'answers "%s" for %s contents, where %s' % ('equal' if r else 'different', 'equal' if q else 'different', facts_text(s2)))
    if not n:
        rep.undecided('equality', nm, 'no path')


def consistent(e, s):
    """the two variants are not both known and known equal at the same time as different"""
    for f, x in s.facts.items():
        if f[0] == 'app' and f[1] == 'Eq' and x[0] == 'is' and all(t[0] == 'app' and t[1] == 'discr' for t in f[2:4]):
            a, b = (s.facts.get(t) for t in f[2:4])
            if a and b:
                if a[0] == 'is' and b[0] == 'is' and (a[1] == b[1]) != (x[1] == TRUE):
                    return False
                if x[1] == TRUE and ((a[0] == 'is' and b[0] == 'not' and a[1] in b[1]) or (b[0] == 'is' and a[0] == 'not' and b[1] in a[1])):
                    return False
    return True


def known(s, t):
    if t[0] == 'bool':
        return t[1]
    f = s.facts.get(t)
    return f[1] == TRUE if f and f[0] == 'is' and f[1][0] == 'bool' else None


def same_place(A, M, s, a, b, ra=None, rb=None):
    """both are known to be the very same storage"""
    if pair_fact(s, 'ptr_eq', a, b) is True:
        return True
    if ra is not None and pair_fact(s, 'Eq', ('app', 'addr', ra), ('app', 'addr', rb)) is True:
        return True
    return None


def pair_fact(s, op, a, b):
    for x, y in ((a, b), (b, a)):
        r = known(s, ('app', op, x, y))
        if r is not None:
            return r
    return None


def spec(A, e, M, s, a, b, d=0):
    """are the contents of a and b equal: True / False / None (not established)"""
    t = e.typeof(a)
    while t[0] == 'ref':
        a, b = e.strip(s, a), e.strip(s, b)
        t = t[2]
    if a == b or same_place(A, M, s, a, b):
        return True
    if t[0] == 'adt':
        ra, rb = M.text_root(e, a), M.text_root(e, b)
        if ra is not None and rb is not None:
            if isname(A, t):
                r = known(s, M.ideq(e, s, ra, rb))
                if r is None:
                    r = pair_fact(s, 'eqic', ra, rb)
                if r is None and pair_fact(s, 'Eq', ra, rb) is True:
                    r = True
                return r
            r = known(s, M.str_eq(e, s, ra, rb))
            if r is None:
                r = pair_fact(s, 'Eq', ra, rb)
            if r is None and same_place(A, M, s, a, b, ra, rb) and pair_fact(s, 'Eq', M.len_atom(e, ra), M.len_atom(e, rb)) is True:
                r = True
            if r is None and (pair_fact(s, 'Eq', M.len_atom(e, ra), M.len_atom(e, rb)) is False or pair_fact(s, 'eqic', ra, rb) is False):
                r = False
            return r
        ad = A.p.adts.get(t[1])
        if ad and ad.get('local') and derefs_to_str(A, t[1]) and all(len(x['fields']) == 1 for x in ad['variants']):
            da, db = discr(s, a), discr(s, b)
            if len(ad['variants']) == 1:
                da = db = 0
            if da is None or db is None:
                return pair_fact(s, 'Eq', a, b)
            x, y = field(e, s, a, 0, da, ad['variants']), field(e, s, b, 0, db, ad['variants'])
            res = None
            for f, z in s.facts.items():
                if f[0] == 'app' and f[1] == 'Eq' and z[0] == 'is' and len(f) == 4:
                    for u, w in ((f[2], f[3]), (f[3], f[2])):
                        if contains(u, x) and contains(w, y):
                            if is_len(u) or is_len(w):
                                if z[1] != TRUE and is_len(u) and is_len(w):
                                    return False
                            elif z[1] != TRUE:
                                return False
                            else:
                                res = True
            return res
        if ad and (ad.get('local') or t[1] == 'std::option::Option') and d < 6:
            vs = ad['variants']
            if len(vs) > 1:
                da, db = discr(s, a), discr(s, b)
                same = None
                if da is not None and db is not None:
                    same = da == db
                if same is None:
                    for x, y in ((a, b), (b, a)):
                        f = known(s, ('app', 'Eq', ('app', 'discr', x), ('app', 'discr', y)))
                        if f is not None:
                            same = f
                if same is None:
                    fa, fb = s.facts.get(('app', 'discr', a)), s.facts.get(('app', 'discr', b))
                    for x, y in ((fa, db), (fb, da)):
                        if x and x[0] == 'not' and y is not None and INT(y) in x[1]:
                            same = False
                if same is not True:
                    return same
                v = da if da is not None else db
                if v is None:
                    return True if all(not x['fields'] for x in vs) else None
            else:
                v = 0
            res = True
            for i in range(len(vs[v]['fields'])):
                r = spec(A, e, M, s, field(e, s, a, i, v, vs), field(e, s, b, i, v, vs), d + 1)
                if r is False:
                    return False
                if r is None or r == 'open' and res is True:
                    res = r
            return res
        if t[1] in ('std::rc::Rc', 'std::boxed::Box', 'std::sync::Arc'):
            r = pair_fact(s, 'Eq', a, b)
            if r is not None:
                return r
            for f, x in s.facts.items():
                if f[0] == 'app' and f[1] == 'Eq' and x[0] == 'is' and len(f) == 4:
                    for u, w in ((f[2], f[3]), (f[3], f[2])):
                        if contains(u, a) and contains(w, b) and e.typeof(u) == t[2][0] == e.typeof(w):
                            return x[1] == TRUE
            return side_by_side(A, e, M, s, a, b, d)
    return pair_fact(s, 'Eq', a, b)


def side_by_side(A, e, M, s, a, b, d):
    """two lists that a loop has compared element by element"""
    for f, z in s.facts.items():
        if f[0] == 'app' and f[1] == 'Eq' and z == ('is', FALSE) and len(f) == 4:
            for u, w in ((f[2], f[3]), (f[3], f[2])):
                if is_len(u) and is_len(w) and whole(e, u, a) and whole(e, w, b):
                    return False
    src = []
    for x in (a, b):
        r = {y[1] for y in s.trace if y[0] == 'iter' and contains(y[1], x)}
        if len(r) != 1:
            return None
        src.append(r.pop())
    lens = [M.length(e, s, x) for x in src]
    same_len = True if e.simp(s, lin_sub(lens[0], lens[1])) == INT(0) else pair_fact(s, 'Eq', *lens)
    loops = [n for n, x in enumerate(s.trace) if x[0] == 'loop']
    if same_len is False:
        return False
    if len(loops) != 1 or len([x for x in s.trace if x[0] == 'iter']) != 2:
        return None
    if any(x[0] not in ('next', 'iter', 'loop') for x in s.trace):
        return None
    L = e.loops.get(s.trace[loops[0]][1])
    if L is None or not L.edges or len(L.nodes) != 1:
        return None

    def drawn(t, st):
        # the elements drawn from the two lists: element, False (ended) or None (not asked)
        out = []
        for x in src:
            ns = [y for y in t if y[0] == 'next' and y[1] == x]
            if len(ns) > 1:
                return None
            out.append(None if not ns else False if ns[0][3] is None else ns[0][3])
        return out
    for i, j, bk, base in L.edges:
        at = [n for n, x in enumerate(bk.trace) if x[0] == 'loop' and x[1] == L.id]
        t = bk.trace[at[-1] + 1:] if at else bk.trace[base:]
        if any(x[0] not in ('next',) for x in t):
            return None
        xs = drawn(t, bk)
        if xs is None or not all(xs) or spec(A, e, M, bk, xs[0], xs[1], d + 1) is not True:
            return None
    xs = drawn(s.trace[loops[0]:], s)
    if xs is None:
        return None
    if xs[0] and xs[1]:
        return False if spec(A, e, M, s, xs[0], xs[1], d + 1) is False else None
    if xs[0] is False and xs[1] is False or same_len is True and False in xs:
        return True
    if False in xs and any(x not in (None, False) for x in xs):
        return False
    return 'open' if False in xs else None


def whole(e, n, a):
    """n is the length of the list behind the pointer a"""
    t = n[2]
    while t[0] == 'sym' and isinstance(t[1], tuple) and t[1] and t[1][0] == 'deref':
        t = t[1][1]
        if t == a:
            return True
    return t == a


def derefs_to_str(A, adt):
    for im in A.impls('std::ops::Deref'):
        t = A.impl_self(im)
        if t[0] == 'adt' and t[1] == adt and 'Target' in im['types'] and A.p.T(im['types']['Target']) == ('str',):
            return True
    return False


def field(e, s, a, i, v, vs):
    if a[0] == 'adt':
        return a[3][i]
    return e.get(a, (('d', v), ('f', i)) if len(vs) > 1 else (('f', i),))


def discr(s, a):
    if a[0] == 'adt':
        return a[2]
    f = s.facts.get(('app', 'discr', a))
    return f[1][1] if f and f[0] == 'is' else None


def isname(A, t):
    from rules.p05 import name_type
    return name_type(A, t)


def plain(A, e, M, s):
    if any(x[0] not in ('next', 'iter') for x in s.trace):
        return False
    for f, x in s.facts.items():
        if f[0] == 'app' and f[1] in ('discr', 'is_ascii', 'ideq', 'eqic', 'Eq', 'all', 'some', 'len', 'addr', 'ptr_eq'):
            continue
        if f[0] in ('lin',) or x[0] == 'not' and all(y[0] == 'int' for y in x[1]):
            continue
        return False
    return True


def is_len(t):
    return t[0] == 'app' and t[1] in ('len', 'blen', 'strlen', 'count')
