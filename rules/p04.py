"""P04: every valid name is read back whole by the parser."""
from rules.common import *
from rules.common import Cls

TECHNIQUE = 'dataflow over MIR of the parser: extent and validation of every name construction'
LEVEL_NOTE = 'static analysis: every path of the parser that constructs a name from input text'
EXPLANATION = (
    'The parser iteration is analysed on all paths over symbolic input. At every construction of a name from input text: '
    '(extent) the character after the word is known not to be one that valid names may contain, or the word reaches the '
    'end of input; (delimiters) the characters that follow names in rendered markup end a word; (validated) the word passed '
    'the public validation (or its equivalent) on that path.')


def parser_next(A):
    ev = A.adt('Event', True)
    for im in A.impls('std::iter::Iterator'):
        t = A.p.T(im['types']['Item']) if 'Item' in im['types'] else None
        if t and t[0] == 'adt' and t[1] == 'std::result::Result' and t[2][0] == ('adt', ev, ()):
            k = im['items'].get('next')
            if k in A.p.fns:
                return k
    return None


ALLOWED = ASCII - WS_ASCII - frozenset('="\'/><&,;')


def allowed(A, rep):
    """characters that can occur in a name the current validation accepts"""
    from rules.p03 import View
    res = None
    for k in sorted(A.s.validators):
        try:
            e, M = A.new(validator=False)
            args, outs = A.run(e, k)
            X = M.as_str(e, St(), args[0])
            for s, v in outs:
                for s2, var in e.split_variant(s, v):
                    if var != 0:
                        continue
                    w = View(e, M, s2, X)
                    if not w.plain() or not w.ascii:
                        return ALLOWED
                    res = (res or frozenset()) | (ASCII - w.out)
        except (AnalysisError, RecursionError):
            return ALLOWED
    return ALLOWED if res is None else res


def run(ctx, rep):
    A = Ana(ctx)
    A.allowed = allowed(A, rep)
    rep.ok('alphabet', 'validation', 'valid names may contain %s' % ''.join(sorted(c for c in A.allowed if c.isprintable())))
    k = parser_next(A)
    if k is None:
        rep.missing('extent', 'parser iteration (Iterator yielding parsed parts)')
        return
    guarded(rep, 'extent', A.name(k), check, A, rep, k)
    rep.floor('extent', 4)
    rep.floor('validated', 4)
    rep.assume('that the validation accepts exactly the documented names is P03',
               'tags named like other markup (`!--`, `!doctype`) are outside: no word is cut there, the construct is a different one')


def check(A, rep, k):
    e, M = A.new()
    e.watch = (A.s.ident_ty,)
    A.run(e, k)
    ext, val, dl = {}, {}, {}
    for s, v, fk in e.watched:
        t = M.text_root(e, v)
        where = A.name(fk)
        if t is None:
            rep.undecided('extent', where, 'name text %s' % show(v)[:200])
            continue
        S, lo, hi = M.view(e, s, t)
        # validated
        ok = s.facts.get(('app', 'valid', t)) == ('is', TRUE) or M.valid(e, s, t) == TRUE
        if ok:
            val.setdefault(where, []).append(None)
        elif not A.s.validators:
            rep.undecided('validated', where, 'the validation function was not recognised')
        else:
            val.setdefault(where, []).append('a name is made from input %s without validation, when %s' % (show(t), facts_text(s)))
        # extent
        end = M.len_atom(e, S)
        tail = M.sub(e, s, S, hi, end)
        key = where
        if zero(e, s, lin_sub(end, hi)):
            ext.setdefault(key, []).append((None, 'to the end of input'))
            continue
        stop = None
        for f, x in s.facts.items():
            if f[0] == 'app' and f[1] == 'starts' and f[2] == tail and x == ('is', TRUE):
                c = f[3] if f[3][0] == 'cls' else Cls.of(f[3][1][:1]) if f[3][0] == 'str' and f[3][1] else None
                if c is not None:
                    stop = c if stop is None else Cls.inter(stop, c)
        w = lin_sub(hi, lo)
        if stop is None and w[0] == 'app' and w[1] == 'findpos' and w[3][0] == 'cls':
            stop = w[3]
        if stop is None:
            ext.setdefault(key, []).append((False, 'nothing is known about the character after the word %s' % show(t)[:200]))
            continue
        bad = sorted(stop[1] & A.allowed)
        if bad:
            ext.setdefault(key, []).append((True, 'a word ends at %s although valid names may contain %s, so such a name is cut short' % (
                ' '.join(repr(c) for c in bad), 'it' if len(bad) == 1 else 'them')))
        else:
            ext.setdefault(key, []).append((None, 'ends at one of %s' % ''.join(sorted(stop[1]))))
        if w[0] == 'app' and w[1] == 'findpos' and w[3][0] == 'cls':
            miss = [c for c in ' =>' if c not in w[3][1]]
            dl.setdefault(key, []).append('a word does not end at %s, which follows names in rendered markup' % ', '.join(repr(c) for c in miss) if miss else None)
    for rule, d in (('validated', val), ('delimiters', dl)):
        for kk, l in sorted(d.items()):
            bad = [x for x in l if x]
            if bad:
                rep.bad(rule, kk, bad[0])
            for x in l:
                if not x:
                    rep.ok(rule, kk)
    for kk, l in sorted(ext.items()):
        bad = [x for x in l if x[0] is True]
        und = [x for x in l if x[0] is False]
        if bad:
            rep.bad('extent', kk, bad[0][1])
        if und:
            rep.undecided('extent', kk, und[0][1])
        for x in l:
            if x[0] is None:
                rep.ok('extent', kk, x[1])
