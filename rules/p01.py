"""P01: inserted text is always escaped, exactly once."""
from rules.common import *
from rules.textlib import Enc, SPECIAL

TECHNIQUE = 'provenance dataflow over MIR (text terms), loop-invariant coverage proof of the escaping routine'
LEVEL_NOTE = 'static analysis: every public text constructor/conversion analysed on all paths'
EXPLANATION = (
    'Every exported function or trait implementation whose result carries rendered text is analysed on all of its MIR paths '
    'with symbolic arguments. Text arguments must reach the result as their escaped form: the result is decomposed into '
    'slices of the argument, literals and loop accumulators, and each path and each loop step must cover the input '
    'contiguously, writing & < > " as their entity and copying only stretches established to be free of them. Arguments '
    'that are already encoded must reach the result as the identical text. Rendering an encoded text must emit exactly it.')

RAW_T = ('str',)


def run(ctx, rep):
    A = Ana(ctx)
    p = A.p
    value, data = A.adt('Value', True), A.adt('Data', True)
    for n, x in (('Value', value), ('Data', data)):
        if x is None:
            rep.missing('escape', 'type ' + n)
            return
    carriers = {value, data}
    # local types that hold such a text (the content stream) or are held by it
    ch = True
    while ch:
        ch = False
        for n, a in p.adts.items():
            if not a.get('local') or n in carriers or a['generics']:
                continue
            ft = [p.T(f['ty']) for v in a['variants'] for f in v['fields'] if f['ty'] is not None]
            if len(a['variants']) == 1 and len(ft) == 1 and any(holds(t, carriers) for t in ft):
                carriers.add(n)
                ch = True
    inner = set()
    for n in (value, data):
        a = p.adts[n]
        if len(a['variants']) == 1 and len(a['variants'][0]['fields']) == 1:
            t = p.T(a['variants'][0]['fields'][0]['ty'])
            if t[0] == 'adt' and p.adts.get(t[1], {}).get('local'):
                inner.add(t[1])
    texts = carriers | inner
    n_raw = 0
    for k, f in A.local():
        if k in p.derived_fns or f.get('kind') == 'closure' or '{closure' in k:
            continue
        if not f.get('exported'):
            rt, ats = A.rett(k), A.argt(k)
            if rt[0] == 'adt' and rt[1] in (inner | {value, data}):
                if ats and all(arg_kind(A, t, texts) == 'enc' for t in ats):
                    guarded(rep, 'combine', A.name(k), combine, A, rep, k, A.name(k))
            continue
        im = p.fn_impl.get(k)
        rt = A.rett(k)
        if not (rt[0] == 'adt' and rt[1] in texts):
            continue
        if f['argc'] == 0:
            continue
        ats = A.argt(k)
        kinds = [arg_kind(A, t, texts) for t in ats]
        if 'int' in kinds:
            continue       # P02
        nm = A.name(k)
        if 'raw' in kinds and kinds.count('raw') == 1 and len(kinds) == 1:
            n_raw += 1
            guarded(rep, 'escape', nm, escape, A, rep, k, nm, texts)
        elif kinds == ['enc']:
            guarded(rep, 'as-is', nm, as_is, A, rep, k, nm)
        else:
            rep.undecided('escape', nm, 'parameters not classified: %s' % (kinds,))
    rep.floor('escape', 6)
    rep.floor('as-is', 7)
    # rendering
    for n in sorted(texts):
        k = A.tmethod('std::fmt::Display', lambda t: t[0] == 'adt' and t[1] == n, 'fmt')
        if k is None:
            continue
        guarded(rep, 'render', short_name(n), render, A, rep, k, short_name(n))
    rep.floor('render', 2)
    rep.assume('String/str/tendril primitives behave as documented (see models.py)')


def holds(t, carriers):
    if t[0] == 'adt':
        return t[1] in carriers or any(holds(x, carriers) for x in t[2])
    return False


def arg_kind(A, t, texts):
    while t[0] == 'ref' and t[2] != ('str',):
        t = t[2]
    if t == STR or (t[0] == 'adt' and t[1] in STRINGY):
        return 'raw'
    if t[0] == 'int':
        return 'int'
    if t[0] == 'adt' and t[1] in texts:
        return 'enc'
    if t[0] == 'param':
        return 'raw'
    return 'other'


def texts_of(eng, M, st, v, out=None):
    out = [] if out is None else out
    t = M.text_root(eng, v)
    if t is not None:
        out.append(eng.simp(st, t) if t[0] == 'app' else t)
        return out
    if v[0] == 'adt':
        for x in v[3]:
            texts_of(eng, M, st, x, out)
    elif v[0] == 'tup':
        for x in v[1]:
            texts_of(eng, M, st, x, out)
    return out


def bases(t, out):
    if isinstance(t, tuple) and t:
        if t[0] == 'app' and t[1] == 'sub':
            out.add(t[2])
            return
        if t[0] == 'cat':
            for x in t[1]:
                bases(x, out)
            return
        if is_sym(t):
            out.add(t)


def source(A, e, M, st, arg):
    """raw text of the argument"""
    t = e.typeof(arg)
    while t[0] == 'ref' and t != STR:
        t = t[2]
    if t[0] != 'param':
        return M.as_str(e, st, arg)
    return None


def escape(A, rep, k, nm, texts):
    e, M = A.new()
    args, outs = A.run(e, k)
    if not outs:
        rep.undecided('escape', nm, 'no path returns')
    enc = Enc(e, M)
    for s, v in outs:
        ts = texts_of(e, M, s, v)
        if len(ts) != 1:
            rep.undecided('escape', nm, 'result holds %d texts' % len(ts))
            continue
        V = ts[0]
        X = source(A, e, M, s, args[0])
        if X is None:
            bs = set()
            bases(V, bs)
            bs = set(b for b in bs if b[0] != 'accs')
            # accumulators: find what the loop reads
            if not bs:
                bs = set(b for b in loop_bases(e, V))
            bs = set(b for b in bs if contains(b, args[0]))
            if len(bs) != 1:
                rep.undecided('escape', nm, 'source of the text not identified in %s' % show(V))
                continue
            X = bs.pop()
        r, why = enc.cover(s, V, X)
        cond = facts_text(s)
        if r is True:
            rep.ok('escape', nm, 'text %s when %s' % (show(V)[:160], cond[:300]))
        elif r is False:
            rep.bad('escape', nm, '%s\n  on the path where: %s\n  resulting text: %s\n  argument text: %s' % (why, cond, show(V), show(X)))
        else:
            rep.undecided('escape', nm, why)


def loop_bases(e, V):
    out = set()
    for p in (str_pieces(V) or ()):
        if p[0] == 'accs':
            L = e.loops.get(p[1])
            if L:
                for N in L.nodes:
                    for v in N.mem.values():
                        bases_deep(v, out)
    return out


def bases_deep(t, out):
    if isinstance(t, tuple) and t:
        if t[0] == 'app' and len(t) == 5 and t[1] == 'sub':
            out.add(t[2])
        for x in t:
            bases_deep(x, out)


def as_is(A, rep, k, nm):
    e, M = A.new()
    args, outs = A.run(e, k)
    for s, v in outs:
        src = texts_of(e, M, s, e.strip(s, args[0]))
        ts = texts_of(e, M, s, v)
        if len(ts) != 1 or len(src) != 1:
            # streams: option of text
            rep.undecided('as-is', nm, 'texts %s -> %s' % ([show(x) for x in src], [show(x) for x in ts]))
            continue
        if same(e, s, ts[0], src[0]):
            rep.ok('as-is', nm, '%s' % show(ts[0]))
        else:
            rep.bad('as-is', nm, 'an already encoded text comes out as %s instead of %s when %s' % (show(ts[0]), show(src[0]), facts_text(s)))


def combine(A, rep, k, nm):
    """texts that are encoded already are put together without touching them"""
    e, M = A.new()
    args, outs = A.run(e, k)
    for s, v in outs:
        src = [texts_of(e, M, s, e.strip(s, a)) for a in args]
        ts = texts_of(e, M, s, v)
        if len(ts) != 1 or any(len(x) != 1 for x in src):
            rep.undecided('combine', nm, 'texts %s -> %s' % ([[show(y) for y in x] for x in src], [show(x) for x in ts]))
            continue
        src = [x[0] for x in src]
        left, bad = list(src), None
        for piece in (str_pieces(ts[0]) or (ts[0],)):
            hit = [x for x in left if same(e, s, piece, x)]
            if hit:
                left.remove(hit[0])
            else:
                bad = piece
                break
        if bad is None and all(e.simp(s, M.len_atom(e, x)) == INT(0) for x in left):
            rep.ok('combine', nm, '%s' % show(ts[0]))
        elif bad is None:
            rep.bad('combine', nm, 'the encoded text %s is lost: the result is %s when %s' % (show(left[0]), show(ts[0]), facts_text(s)))
        elif bad[0] == 'accs' or any(contains(bad, x) for x in src):
            rep.bad('combine', nm, 'an already encoded text is changed: the result contains %s when %s' % (show(bad), facts_text(s)))
        else:
            rep.undecided('combine', nm, 'the result contains %s' % show(bad))


def same(e, s, a, b):
    return a == b or e.simp(s, a) == e.simp(s, b) or (b[0] != 'str' and a == ('str', '') and e.simp(s, e.models.len_atom(e, b)) == INT(0))


def render(A, rep, k, nm):
    e, M = A.new()
    args, outs = A.run(e, k)
    for s, v in outs:
        if any(x[0] == 'wfail' for x in s.trace):
            continue
        src = texts_of(e, M, s, e.strip(s, args[0]))
        out = ('str', '')
        for x in s.trace:
            if x[0] == 'w':
                out = M.cat(e, s, out, x[1])
            elif x[0] not in ('loop', 'next', 'iter'):
                raise AnalysisError('effect %s' % x[0])
        if len(src) == 1 and same(e, s, out, src[0]):
            rep.ok('render', nm, 'writes ' + show(out))
        elif len(src) == 1:
            rep.bad('render', nm, 'rendering writes %s instead of %s when %s' % (show(out), show(src[0]), facts_text(s)))
        else:
            rep.undecided('render', nm, 'no single text')
