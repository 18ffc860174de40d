"""P05: names compare by ASCII case-insensitive equality everywhere."""
from rules.common import *

TECHNIQUE = 'path-partitioned dataflow over MIR: truth tables of comparators, comparison-fact audit of every function'
LEVEL_NOTE = 'static analysis: decision tables of the name comparators and of every path that compares name text'
EXPLANATION = (
    'comparator: the equality implementations of the name type (and every two-text boolean helper) are analysed on all '
    'paths; their result must agree, for ASCII operands, with ASCII case-insensitive equality under every consistent '
    'valuation of the atomic tests they use. uses: every function of the crate is analysed on all paths; a decision that '
    'depends on the text of a name being exactly (not case-insensitively) different from another text, without the '
    'case-insensitive comparison having been made on that path, is a violation.')


def run(ctx, rep):
    A = Ana(ctx)
    if A.s.ident_ty is None:
        rep.missing('comparator', 'name type')
        return
    comparators(A, rep)
    # hashing would have to agree with equality
    for im in A.impls('std::hash::Hash'):
        t = A.impl_self(im)
        if t[0] == 'adt' and t[1] == A.s.ident_ty and im['derived']:
            rep.bad('comparator', 'Hash for name type', 'derived hashing distinguishes names that compare equal')
    # two-text helpers that recognise names
    for k in sorted(A.s.preds):
        rep.ok('helper', A.name(k), 'decides %s' % ('ASCII case-insensitive equality' if A.s.preds[k][0] == 'ideq' else 'membership, ignoring ASCII case, in a fixed table of %d names' % len(A.s.preds[k][1])))
    uses(A, rep)
    rep.assume('core: str::eq_ignore_ascii_case, to_ascii_lowercase and is_ascii behave as documented')


def comparators(A, rep):
    # every equality implementation of the name type
    n = 0
    for im in A.impls('std::cmp::PartialEq'):
        t = A.impl_self(im)
        o = A.p.T(im['args'][1]) if len(im['args']) > 1 else t
        if not ((t[0] == 'adt' and t[1] == A.s.ident_ty) or (o[0] == 'adt' and o[1] == A.s.ident_ty)):
            continue
        for m in ('eq', 'ne'):
            k = im['items'].get(m)
            if k and k in A.p.fns:
                n += 1
                guarded(rep, 'comparator', A.name(k), comparator, A, rep, k, A.name(k), m == 'ne')
    if not n:
        rep.missing('comparator', 'equality of the name type')

def lit_of(t):
    return t if t[0] == 'str' else None


def comparator(A, rep, k, nm, negate):
    e, M = A.new(preds=False)
    args, outs = A.run(e, k)
    st0 = St()
    a, b = M.as_str(e, st0, args[0]), M.as_str(e, st0, args[1])
    pair = {a, b}
    unk = []
    paths = []
    for s, v in outs:
        for s2, r in e.split_bool(s, v):
            cond = []
            for f, x in s2.facts.items():
                if f[0] == 'app' and f[1] in ('all', 'some'):
                    t = repr((f, x))
                    if repr(a) in t and repr(b) in t:       # compared element by element
                        unk.append(show(f))
                        cond = None
                        break
                    continue
                if f[0] == 'app' and f[1] == 'discr':
                    continue        # how a text is stored
                c = atom(e, M, f, x, a, b)
                if c is None:
                    unk.append('%s (%s)' % (show(f), x))
                    cond = None
                    break
                cond.append(c)
            if cond is not None and any(t[0] in ('next', 'inext') for t in s2.trace):
                unk.append('the texts are walked through together')
                cond = None
            if cond is None:
                continue
            paths.append((cond, r != negate, s2))
    bad = []
    hit = {True: 0, False: 0}
    for E in (True, False):
        for Q in ((True, False) if E else (False,)):
            for L in ((True,) if E else (True, False)):
                for U in ((True,) if E else (True, False)):
                    w = {'asciia': True, 'asciib': True, 'eqic': E, 'eq': Q, 'len': L, 'fold': E, 'empty': False}
                    for cond, r, s in paths:
                        if all(w[c] == val for c, val in cond):
                            hit[E] += 1
                            if r != E:
                                bad.append((w, r, s))
    if bad:
        w, r, s = bad[0]
        rep.bad('comparator', nm, 'the comparison says %s for valid names that are %s, on the path where %s' % (
            'equal' if r else 'different',
            'equal ignoring ASCII case' + (' but spelled differently' if not w['eq'] else '') if w['eqic'] else 'different',
            facts_text(s)))
    elif unk:
        rep.undecided('comparator', nm, 'unrecognised test ' + unk[0])
    elif not hit[True] or not hit[False]:
        rep.undecided('comparator', nm, 'no path for some case')
    else:
        rep.ok('comparator', nm, '%d paths agree with ASCII case-insensitive equality' % len(paths))


def atom(e, M, f, x, a, b):
    """(atom, value) of a recorded fact, or None"""
    if x[0] != 'is' or x[1][0] != 'bool':
        return None
    v = x[1][1]
    if f[0] != 'app':
        return None
    if f[1] == 'is_ascii' and f[2] == a:
        return ('asciia', v)
    if f[1] == 'is_ascii' and f[2] == b:
        return ('asciib', v)
    if f[1] == 'eqic' and set(f[2:4]) == {a, b}:
        return ('eqic', v)
    if f[1] == 'ideq' and set(f[2:4]) == {a, b}:
        return ('eqic', v)
    if f[1] == 'Eq' and set(f[2:4]) == {a, b}:
        return ('eq', v)
    if f[1] == 'Eq' and len(f) == 4:
        la, lb = M.len_atom(e, a), M.len_atom(e, b)
        if set(f[2:4]) == {la, lb}:
            return ('len', v)
        d = lin_sub(la, lb)
        if (f[2] in (d, lin_sub(INT(0), d)) and f[3] == INT(0)):
            return ('len', v)
        if all(t[0] == 'app' and t[1] in ('uto_lowercase', 'uto_uppercase', 'lower', 'upper') and t[2] in (a, b) for t in f[2:4]) and any(t[1][0] == 'u' and t[1] != 'upper' for t in f[2:4]):
            return ('fold', v)
    return None


# ------------------------------------------------------------------ uses
def name_type(A, ty, d=0):
    while ty[0] == 'ref':
        ty = ty[2]
    if ty[0] != 'adt' or d > 3:
        return False
    if ty[1] == A.s.ident_ty:
        return True
    a = A.p.adts.get(ty[1])
    if a and a.get('local') and len(a['variants']) == 1 and len(a['variants'][0]['fields']) == 1:
        return name_type(A, A.p.T(a['variants'][0]['fields'][0]['ty']), d + 1)
    return False


def name_text(A, e, t):
    """is the term the text of a name (or of a wrapper around one)"""
    if t[0] == 'app' and t[1] == 'text':
        t = t[2]
    return t[0] in ('sym', 'app') and name_type(A, e.typeof(t))


def free_text(A, e, t):
    """part of an attribute value"""
    if isinstance(t, tuple) and t:
        if t[0] == 'app' and t[1] == 'text':
            return not name_text(A, e, t)
        return any(free_text(A, e, x) for x in t)
    return False


def text_term(e, M, t):
    try:
        return M.text_root(e, t) is not None
    except AnalysisError:
        return False


def uses(A, rep):
    import time
    skip = set()
    for im in A.p.impls:
        if im.get('trait') in ('std::cmp::PartialEq', 'std::fmt::Display', 'std::fmt::Debug', 'std::error::Error'):
            skip |= set(im['items'].values())
    for k, f in A.local():
        if k in A.p.derived_fns or k in skip or k in A.s.preds or k in A.s.validators:
            continue
        e, M = A.new(budget=60000)
        try:
            args, outs = A.run(e, k)
        except (AnalysisError, RecursionError) as x:
            rep.notes.append('%s: not explored as a root (%s); its callees are' % (A.name(k), x))
            continue
        except Exception as x:
            rep.notes.append('%s: not explored as a root (internal %r)' % (A.name(k), x))
            continue
        sts = [(s, v) for s, v in outs]
        for L in e.loops.values():
            sts += [(bk, None) for (i, j, bk, base) in L.edges]
        n = 0
        bad = None
        for s, v in sts:
            n += any(x[0] == 'app' and x[1] in ('ideq', 'idin') for x in s.facts)
            r = exact(A, e, M, s, v)
            if r:
                bad = bad or (r, s)
        if bad:
            rep.bad('uses', A.name(k), 'a decision depends on the exact spelling of a name: %s; path: %s' % (bad[0], facts_text(bad[1])))
        elif n:
            rep.ok('uses', A.name(k), '%d paths compare names, all ignoring ASCII case' % n)
    if any(r[0] == 'ideq' for r in A.s.preds.values()):
        rep.floor('uses', 1)


def exact(A, e, M, s, res=None):
    """an exact inequality between a name and another text that is not implied by a comparison ignoring case"""
    for f, x in s.facts.items():
        pairs = []
        if f[0] == "app" and f[1] == "Eq" and x == ("is", TRUE) and any(t[0] == 'app' and t[1] in ('uto_lowercase', 'uto_uppercase') for t in f[2:4]):
            ts = [t[2] if t[0] == 'app' and t[1] in ('uto_lowercase', 'uto_uppercase', 'lower', 'upper') else t for t in f[2:4]]
            if any(name_text(A, e, t) for t in ts) and any(M.is_ascii(e, s, t) != TRUE and free_text(A, e, t) for t in ts):
                return '%s and %s count as equal after Unicode case mapping' % (show(ts[0]), show(ts[1]))
        if f[0] == 'app' and f[1] == 'Eq' and len(f) == 4 and x == ('is', FALSE):
            a, b = f[2], f[3]
            if text_term(e, M, a) and text_term(e, M, b):
                pairs.append((a, b))
        elif x[0] == 'not' and is_sym(f):
            for b in x[1]:
                if b[0] == 'str' and b[1] != '':
                    pairs.append((f, b))
        for a, b in pairs:
            if not any(name_text(A, e, t) or s.facts.get(('app', 'valid', t)) == ('is', TRUE) for t in (a, b)):
                continue
            q = M.ideq(e, s, a, b)
            if q == FALSE or (res is not None and q[0] == 'app' and contains(res, q)):
                continue
            if 'str' in (a[0], b[0]):
                lit, o = (a, b) if a[0] == 'str' else (b, a)
                if M.idin(e, s, o, frozenset([lit[1].lower()])) == FALSE:
                    continue
            return '%s is compared exactly with %s' % (show(a), show(b))
    return None
