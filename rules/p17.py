"""P17: failed conversions surface as errors of the right kind."""
from rules import flows
from rules.common import *
from rules.flows import TECHNIQUE

LEVEL_NOTE = 'static analysis: all transformation state machines and every error conversion, all paths'
EXPLANATION = flows.EXPLANATION + (
    '  Arguments that need a conversion (names, selectors) may fail to convert: then nothing may be emitted and the failure reported '
    'has to carry the error of the conversion, in the variant for names or through the conversion of the selector error.  convert: '
    'every conversion into the stream error type is analysed on all paths; it has to yield the variant meant for its source and hold '
    'the original error.  pass: conversions of names and selectors that are given a result hand on its success or its error.')

# source of the conversion -> variant of the stream error, variant of the selector error inside it
WANT = {'InputError': ('Input', None), 'FileError': ('File', None), 'IdentifierError': ('Identifier', None),
        'IdError': ('Selector', 'Id'), 'TagError': ('Selector', 'Tag'), 'ClassError': ('Selector', 'Class'),
        'ClassesError': ('Selector', 'Classes'), 'StaticError': ('StaticSelector', None)}


def run(ctx, rep):
    flows.report(ctx, rep, flows.ALL, ('P17', 'panic'))
    A = Ana(ctx)
    SE = A.adt('StreamError', True)
    if SE is None:
        rep.missing('convert', 'StreamError')
        return
    got = set()
    for im in A.impls('std::convert::From'):
        t = A.impl_self(im)
        if t[0] != 'adt' or t[1] != SE or 'from' not in im['items']:
            continue
        src = A.p.T(im['args'][1])
        k = im['items']['from']
        if k not in A.p.fns or src[0] != 'adt':
            continue
        n = src[1].split('::')[-1]
        got.add(n)
        if n in WANT:
            guarded(rep, 'convert', 'From<%s> for StreamError' % n, conversion, A, rep, k, n, SE)
        else:
            rep.undecided('convert', 'From<%s> for StreamError' % n, 'no rule for this source')
    for n in sorted(set(WANT) - got):
        rep.missing('convert', 'From<%s> for StreamError' % n)
    for tr, m in (('IntoSelector', 'into_selector'), ('IntoIdentifier', 'into_identifier')):
        t = A.trait(tr)
        if t is None:
            rep.missing('pass', 'trait ' + tr)
            continue
        for im in A.impls(t):
            st = A.impl_self(im)
            if st[0] == 'ref' and st == STR:
                continue        # P03, P28
            k = im['items'].get(m)
            if k in A.p.fns:
                guarded(rep, 'pass', A.name(k), passes, A, rep, k, st)
    for tr in ('Id', 'Tag', 'Class'):
        parses(A, rep, tr)


def conversion(A, rep, k, n, SE):
    nm = 'From<%s> for StreamError' % n
    e, M = A.new()
    args, outs = A.run(e, k)
    want, inner = WANT[n]
    vs = [v['name'] for v in A.p.adts[SE]['variants']]
    if e.panics:
        rep.bad('convert', nm, 'can panic: ' + e.panics[0]['kind'])
    done = 0
    for s, v in outs:
        for s2, r in e.split_variant(s, v):
            done += 1
            cond = facts_text(s2, 6)
            if vs[r] != want:
                rep.bad('convert', nm, 'becomes %s instead of %s, when %s' % (vs[r], want, cond))
                continue
            x = e.strip(s2, e.payload(v, r))
            a = e.strip(s2, args[0])
            orig = a
            if inner in ('Id', 'Tag', 'Class'):
                iv = [y['name'] for y in A.p.adts[e.typeof(x)[1]]['variants']]
                c = e.variant(s2, x)
                if c is None:
                    rep.undecided('convert', nm, 'inner error not known')
                    continue
                if iv[c] != inner:
                    rep.bad('convert', nm, 'the selector error inside is %s instead of %s' % (iv[c], inner))
                    continue
                x = e.strip(s2, e.payload(x, c))
                orig = e.payload(a, 0)
            elif inner:
                iv = [y['name'] for y in A.p.adts[e.typeof(x)[1]]['variants']]
                c = e.variant(s2, x)
                if c is None or iv[c] != inner:
                    rep.bad('convert', nm, 'the selector error inside is %s instead of %s' % (iv[c] if c is not None else '?', inner))
                    continue
                x = e.strip(s2, e.payload(x, c))
            if x == orig or same(e, s2, x, orig):
                rep.ok('convert', nm, 'StreamError::%s with the original error' % want)
            elif is_sym(x) or x[0] == 'adt':
                rep.bad('convert', nm, 'holds %s instead of the original error %s, when %s' % (show(x)[:120], show(orig)[:120], cond))
            else:
                rep.undecided('convert', nm, 'holds %s' % show(x)[:120])
    if not done:
        rep.undecided('convert', nm, 'no path returns')


def same(e, s, a, b, d=0):
    """are the two values the same, one of them possibly taken apart and put together again"""
    if a == b:
        return True
    if d > 4 or a[0] != 'adt':
        return False
    try:
        if b[0] == 'adt':
            return a[1:3] == b[1:3] and all(same(e, s, x, y, d + 1) for x, y in zip(a[3], b[3]))
        if len(e.p.adts.get(a[1], {}).get('variants', (1, 2))) > 1 and e.variant(s, b) != a[2]:
            return False
        return same(e, s, a, e.expand(b, a[2]), d + 1)
    except AnalysisError:
        return False


def passes(A, rep, k, t):
    nm = A.name(k)
    e, M = A.new()
    args, outs = A.run(e, k)
    if e.panics:
        rep.bad('pass', nm, 'can panic: ' + e.panics[0]['kind'])
    done = 0
    isres = t[0] == 'adt' and t[1] == 'std::result::Result'
    for s, v in outs:
        a = e.strip(s, args[0])
        if isres and e.strip(s, v) == a:
            rep.ok('pass', nm, 'the result itself')
            done += 1
            continue
        for s1, q in (e.split_variant(s, a) if isres else [(s, None)]):
            for s2, r in e.split_variant(s1, v):
                done += 1
                x = e.strip(s2, e.payload(v, r))
                want = 0 if q is None else q
                if r != want:
                    rep.bad('pass', nm, ('fails although it was given a %s' % ('success' if isres else 'value')) if want == 0 else 'succeeds although it was given a failure')
                    continue
                orig = e.payload(a, q) if isres else a
                if orig[0] == 'ref':
                    orig = e.strip(s2, e.load(s2, orig))
                y = x
                if y[0] == 'ref':
                    y = e.strip(s2, e.load(s2, y))
                if x == orig or y == orig or x == e.strip(s2, args[0]) or same(e, s2, y, orig):
                    rep.ok('pass', nm, 'hands on what it was given')
                else:
                    M_ = M.text_root(e, y), M.text_root(e, orig)
                    if M_[0] is not None and M_[0] == M_[1]:
                        rep.ok('pass', nm, 'hands on the name it was given')
                    elif is_sym(y) and is_sym(orig) or y[0] == 'adt':
                        rep.bad('pass', nm, 'yields %s instead of %s' % (show(y)[:120], show(orig)[:120]))
                    else:
                        rep.undecided('pass', nm, 'yields %s' % show(y)[:120])
    if not done:
        rep.undecided('pass', nm, 'no path returns')


def parses(A, rep, n):
    """the error of a parsed selector holds the error of the name"""
    t = A.adt(n, True)
    k = A.tmethod('std::str::FromStr', lambda x: x[0] == 'adt' and x[1] == t, 'from_str')
    if k is None:
        rep.missing('parse', 'FromStr for ' + n)
        return
    guarded(rep, 'parse', 'FromStr for ' + n, parses_, A, rep, k, n)


def parses_(A, rep, k, n):
    nm = 'FromStr for ' + n
    e, M = A.new()
    args, outs = A.run(e, k)
    IE = A.adt('IdentifierError', True)
    done = 0
    X = M.as_str(e, St(), args[0])
    for s, v in outs:
        for s2, r in e.split_variant(s, v):
            done += 1
            x = e.strip(s2, e.payload(v, r))
            if r == 0:
                valid = M.valid(e, s2, X)
                vals = texts_in(e, M, s2, x)
                if vals and all(y == X for y in vals):
                    rep.ok('parse', nm, 'holds the name')
                elif vals:
                    rep.bad('parse', nm, 'holds %s instead of the text given' % show(vals[0])[:100])
                else:
                    rep.undecided('parse', nm, 'holds %s' % show(x)[:100])
                continue
            inner = e.strip(s2, e.payload(x, e.variant(s2, x) or 0))
            if e.typeof(inner)[0] == 'adt' and e.typeof(inner)[1] == IE and is_sym(inner):
                rep.ok('parse', nm, 'holds the error of the name')
            else:
                rep.bad('parse', nm, 'the error holds %s instead of the error of the name' % show(inner)[:100])
    if not done:
        rep.undecided('parse', nm, 'no path returns')


def texts_in(e, M, s, x):
    from rules.p01 import texts_of
    try:
        return [e.simp(s, t) for t in texts_of(e, M, s, x)]
    except AnalysisError:
        return []
