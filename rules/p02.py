"""P02: numbers render as their decimal text."""
from rules.common import *
from rules.p01 import texts_of

TECHNIQUE = 'provenance dataflow over MIR (text terms) for every integer conversion'
LEVEL_NOTE = 'static analysis: all paths of every integer IntoValue/IntoStream implementation'
EXPLANATION = (
    'Every implementation of the content and value conversion traits for a primitive integer type is analysed on all MIR '
    'paths with a symbolic integer. The text it stores must be exactly the standard decimal Display of the unchanged '
    'argument: no other piece, no cast, no formatting option, no case distinction.')


def run(ctx, rep):
    A = Ana(ctx)
    for tn, mn in (('IntoValue', 'into_value'), ('IntoStream', 'into_stream')):
        tr = A.trait(tn)
        if tr is None:
            rep.missing('decimal', 'trait ' + tn)
            continue
        for im in A.impls(tr):
            st = A.impl_self(im)
            if st[0] == 'ref' and st[2][0] == 'int':
                st = st[2]
            if st[0] != 'int':
                continue
            k = im['items'].get(mn)
            if k is None:
                rep.missing('decimal', '%s for %s' % (tn, st[1]))
                continue
            guarded(rep, 'decimal', '%s for %s' % (tn, st[1]), one, A, rep, k, '%s for %s' % (tn, st[1]))
    rep.floor('decimal', 20)
    rep.assume('core integer Display prints the decimal representation')


def one(A, rep, k, nm):
    e, M = A.new()
    args, outs = A.run(e, k)
    outs = [(s, v) for s, v in outs]
    if not outs:
        rep.undecided('decimal', nm, 'no path returns')
    x = args[0]
    want = {('app', 'display', x)}
    while e.typeof(x)[0] == 'ref':
        x = ('app', 'deref', x)
        want.add(('app', 'display', x))
    for s, v in outs:
        ts = texts_of(e, M, s, v)
        if len(ts) != 1:
            rep.undecided('decimal', nm, 'result holds %d texts' % len(ts))
            continue
        t = e.simp(s, ts[0])
        n = e.simp(s, args[0])
        if t in want or (n[0] == 'int' and t in (('str', str(n[1])), ('app', 'display', n))):
            rep.ok('decimal', nm, 'text is %s' % show(t))
        elif opaque(t, args[0]):
            rep.undecided('decimal', nm, 'text is %s' % show(t))
        else:
            rep.bad('decimal', nm, 'the stored text is %s instead of the decimal text of the argument, when %s' % (show(t), facts_text(s)))


def opaque(t, x):
    """a text the analysis cannot relate to the argument at all"""
    bad = []

    def walk(t):
        if isinstance(t, tuple) and t:
            if t[0] == 'sym' and t != x:
                bad.append(t)
            if t[0] == 'app' and t[1] == 'fmtarg':
                return
            if t[0] in ('accs', 'acc'):
                bad.append(t)
            for y in t:
                walk(y)
    walk(t)
    return bool(bad) or not contains(t, x) and t[0] != 'str' and t[0] != 'cat'
