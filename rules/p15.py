"""P15: error messages and causes name the actual details."""
import re
from rules.common import *
from rules.simlib import projection

TECHNIQUE = 'dataflow over all MIR paths of the Display and cause implementations of every error type: which payload reaches which place of the message'
LEVEL_NOTE = 'static analysis: every variant of every public error type'
EXPLANATION = (
    'Every path of the message and cause functions of every error type is analysed per variant. (cause) a variant that wraps '
    'an error returns a reference to exactly that field, others return none. (details) every payload (text, name, place, '
    'number, path, offending character, kind of part) reaches the message. (roles) where a variant has several payloads of '
    'one type, each stands where the constant text names its role; line, column and byte offset of a place likewise. '
    '(wording) no two variants have the same message and no two variants carry each other\'s wording.')


def words(n):
    return [w.lower().rstrip('s') for w in re.findall(r'[A-Z]?[a-z]+', n)]


def err_types(A):
    for im in A.impls('std::error::Error'):
        t = A.impl_self(im)
        if t[0] == 'adt' and t[1] in A.p.adts and A.p.adts[t[1]].get('local'):
            yield t, im


def run(ctx, rep):
    A = Ana(ctx)
    p = A.p
    A.errs = set(t[1] for t, _ in err_types(A))
    for t, im in sorted(err_types(A), key=lambda x: x[0]):
        nm = short_name(t[1])
        guarded(rep, 'cause', nm, cause, A, rep, t, im, nm)
        guarded(rep, 'details', nm, message, A, rep, t, nm)
    if A.s.loc_ty is None:
        rep.missing('roles', 'location type')
    else:
        guarded(rep, 'roles', short_name(A.s.loc_ty), place, A, rep)
    rep.floor('cause', 20)
    rep.floor('details', 30)
    rep.floor('roles', 4)


def is_error(A, t):
    if t[0] != 'adt':
        return False
    if t[1] in A.errs:
        return True
    if t[1] in ('std::io::Error', 'std::string::FromUtf8Error', 'std::str::Utf8Error', 'std::fmt::Error', 'std::num::ParseIntError'):
        return True
    return A.p.adts.get(t[1], {}).get('local') is False and t[1].split('::')[-1].endswith('Error')


def variants(A, t):
    ad = A.p.adts[t[1]]
    for i, v in enumerate(ad['variants']):
        yield i, v['name'], [(f['name'], A.p.T(f['ty'])) for f in v['fields']]


def fld(e, self_, var, i, nvar):
    return e.get(self_, (('d', var), ('f', i)) if nvar > 1 else (('d', var), ('f', i)))


def which(e, A, s, obj, t):
    """variants of obj possible on the path"""
    n = len(A.p.adts[t[1]]['variants'])
    if n == 1:
        return [0]
    f = s.facts.get(('app', 'discr', obj))
    if f is None:
        return list(range(n))
    if f[0] == 'is':
        return [f[1][1]]
    return [i for i in range(n) if INT(i) not in f[1]]


def cause(A, rep, t, im, nm):
    ks = [m for m in ('cause', 'source') if m in im['items']]
    todo = [(m, im['items'][m]) for m in ks]
    vs = list(variants(A, t))
    wraps = {i: [j for j, (fn, ft) in enumerate(fs) if is_error(A, ft)] for i, _, fs in vs}
    if not todo:
        for i, vn, fs in vs:
            if wraps[i]:
                rep.bad('cause', '%s::%s' % (nm, vn), 'wraps an error in `%s` but the type reports no cause at all' % fs[wraps[i][0]][0])
            else:
                rep.ok('cause', '%s::%s' % (nm, vn), 'nothing wrapped, no cause')
        return
    for m, k in todo:
        e, M = A.new()
        args, outs = A.run(e, k)
        obj = e.strip(St(), args[0])
        seen = set()
        for s, v in outs:
            for s2, var in e.split_variant(s, v):
                for i in which(e, A, s2, obj, t):
                    _, vn, fs = vs[i]
                    seen.add(i)
                    what = '%s::%s' % (nm, vn)
                    if len(wraps[i]) > 1:
                        rep.undecided('cause', what, 'several wrapped errors')
                        continue
                    if not wraps[i]:
                        if var == 0:
                            rep.ok('cause', what, 'nothing wrapped, no cause')
                        else:
                            rep.bad('cause', what, '%s reports a cause although the variant wraps no error' % A.name(k))
                        continue
                    j = wraps[i][0]
                    if var == 0:
                        rep.bad('cause', what, '%s reports no cause although `%s` is wrapped, where %s' % (A.name(k), fs[j][0], facts_text(s2)))
                        continue
                    got = e.payload(v, 1)
                    g = e.strip(s2, got)
                    want = e.get(obj, (('d', i), ('f', j)))
                    if g == want:
                        rep.ok('cause', what, 'the cause is `%s`' % fs[j][0])
                    elif contains(g, obj) or not is_sym(g) or g[0] == 'adt':
                        rep.bad('cause', what, '%s reports %s as the cause instead of the wrapped `%s`' % (A.name(k), show(g)[:120], fs[j][0]))
                    else:
                        rep.undecided('cause', what, 'cause %s' % show(g)[:200])
        for i, vn, fs in vs:
            if i not in seen:
                rep.undecided('cause', '%s::%s' % (nm, vn), 'no path for this variant')


def leaves(A, e, t, term, name):
    """(name, type, term) of the displayable details in a payload"""
    if t[0] == 'tuple':
        r = []
        for i, x in enumerate(t[1]):
            r += leaves(A, e, x, e.get(term, (('f', i),)), name)
        return r
    if is_error(A, t):
        return []
    return [(name, t, term)]


def message(A, rep, t, nm):
    k = A.tmethod('std::fmt::Display', lambda x: x == t, 'fmt')
    if k is None or k not in A.p.fns:
        rep.missing('details', 'Display for ' + nm)
        return
    e, M = A.new()
    lt = A.s.loc_ty
    if lt:
        lk = A.tmethod('std::fmt::Display', lambda x: x[0] == 'adt' and x[1] == lt, 'fmt')
        if lk:
            e.hooks[lk] = lambda eng, st, c: M.emit(eng, st, c.args[1], eng.app(STR, 'rendered', eng.strip(st, c.args[0])))
    args, outs = A.run(e, k)
    obj = e.strip(St(), args[0])
    vs = list(variants(A, t))
    text = {}
    by_kind = {}
    for s, v in outs:
        if any(x[0] == 'wfail' for x in s.trace):
            continue
        for s2, var in e.split_variant(s, v):
            if var != 0:
                if not any(x[0] in ('wfail', 'loop') for x in s2.trace):
                    rep.bad('details', nm, 'writing the message fails by itself where %s' % facts_text(s2))
                continue
            pieces = [x[1] for x in s2.trace if x[0] == 'w']
            if any(x[0] not in ('w', 'loop', 'next', 'iter') for x in s2.trace):
                rep.undecided('details', nm, 'message path with %s' % sorted(set(x[0] for x in s2.trace)))
                continue
            for i in which(e, A, s2, obj, t):
                _, vn, fs = vs[i]
                one(A, e, M, rep, nm, s2, obj, i, vn, fs, pieces, by_kind)
                lit = ' '.join(x[1] for x in pieces if x[0] == 'str')
                text.setdefault(i, set()).add(lit)
    for key, d in sorted(by_kind.items()):
        seen = {}
        for kind, lits in sorted(d.items(), key=repr):
            for l in lits:
                seen.setdefault(l, set()).add(kind)
        dup = [sorted(x, key=repr) for x in seen.values() if len(x) > 1]
        if dup:
            rep.bad('details', key, 'the message is the same for the %d kinds of parts %s' % (len(dup[0]), dup[0]))
        elif len(d) < 2:
            rep.bad('details', key, 'the message does not depend on the part that was found')
        else:
            rep.ok('details', key, '%d kinds of parts told apart' % len(d))
    # wording
    for i, vn, fs in vs:
        if i not in text:
            rep.undecided('details', '%s::%s' % (nm, vn), 'no message path')
    fit = lambda a, b: len(set(words(vs[b][1])) & set(w for l in text[a] for w in words(l.lower())))
    for i in sorted(text):
        bad = False
        for j in sorted(text):
            if j <= i:
                continue
            if text[i] == text[j]:
                rep.bad('wording', '%s::%s' % (nm, vs[i][1]), 'has the same message as %s' % vs[j][1])
                bad = True
            elif fit(i, i) + fit(j, j) < fit(i, j) + fit(j, i):
                rep.bad('wording', '%s::%s' % (nm, vs[i][1]), 'carries the wording of %s and the other way round: "%s" / "%s"' % (vs[j][1], min(text[i]), min(text[j])))
                bad = True
        if not bad:
            rep.ok('wording', '%s::%s' % (nm, vs[i][1]), min(text[i]))


def one(A, e, M, rep, nm, s, obj, i, vn, fs, pieces, by_kind):
    what = '%s::%s' % (nm, vn)
    ls = []
    for j, (fn, ft) in enumerate(fs):
        ls += leaves(A, e, ft, e.get(obj, (('d', i), ('f', j))), fn)
    pos = {}
    for fn, ft, term in ls:
        key = '%s.%s' % (what, fn)
        if ft[0] == 'adt' and ft[1] == 'std::vec::Vec':
            vector(A, e, rep, key, s, term)
            continue
        if ft[0] == 'adt' and ft[1] == 'std::option::Option':
            f = s.facts.get(('app', 'discr', term))
            kind = ('none',)
            if f is None:
                rep.bad('details', key, 'the message does not depend on `%s`' % fn)
                continue
            if f[1] != INT(0):
                inner = e.payload(term, 1)
                kind = tuple(sorted((show(k), show(v[1])) for k, v in s.facts.items() if k[0] == 'app' and k[1] == 'discr' and contains(k[2], inner) and depth(k[2], inner) <= 2 and v[0] == 'is'))
            by_kind.setdefault(key, {}).setdefault(kind, set()).add(' '.join(x[1] for x in pieces if x[0] == 'str'))
            continue
        r = M.text_root(e, term)
        hit = [n for n, x in enumerate(pieces) if contains(x, term) or (r is not None and contains(x, r))]
        if hit:
            rep.ok('details', key)
            pos[fn] = hit[0]
        else:
            rep.bad('details', key, 'the message does not contain `%s`: %s, where %s' % (fn, ' '.join(show(x) for x in pieces)[:300], facts_text(s, 6)))
    # roles
    for a in range(len(ls)):
        for b in range(a + 1, len(ls)):
            fa, ta, _ = ls[a]
            fb, tb, _ = ls[b]
            if ta != tb or fa == fb or fa not in pos or fb not in pos:
                continue
            role(rep, what, fa, fb, pos, pieces)


def depth(t, inner):
    n = 0
    while t != inner and t[0] == 'sym' and t[1][0] in ('f', 'd', 'deref'):
        t = t[1][1]
        n += 1
    return n


def role(rep, what, fa, fb, pos, pieces):
    wa, wb = set(words(fa)), set(words(fb))
    wa, wb = wa - wb, wb - wa
    key = '%s.%s/%s' % (what, fa, fb)
    lo, hi = sorted((fa, fb), key=lambda f: pos[f])
    between = ''.join(x[1] if x[0] == 'str' else '\0' for x in pieces[pos[lo] + 1:pos[hi]])
    if between == '.' and {'tag'} in (wa, wb):
        if words(lo) == ['tag']:
            rep.ok('roles', key, 'written as tag.attribute')
        else:
            rep.bad('roles', key, '`%s` is written before `%s` in tag.attribute notation' % (lo, hi))
        return
    for f, own, other in ((fa, wa, wb), (fb, wb, wa)):
        before = ' '.join(x[1] for x in pieces[:pos[f]] if x[0] == 'str')
        if f == hi and pos[hi] - pos[lo] > 1:
            before = ' '.join(x[1] for x in pieces[:pos[f]] if x[0] == 'str')
        ment = [w for w in words(before.lower()) if w in own or w in other]
        if not ment:
            rep.undecided('roles', key, 'the text names neither role')
            return
        if ment[-1] in other:
            rep.bad('roles', key, '`%s` stands where the text names "%s": %s' % (f, ment[-1], ' '.join(show(x) for x in pieces)[:300]))
            return
    rep.ok('roles', key, 'each stands after its own role')


def vector(A, e, rep, key, s, term):
    """every element's details are written"""
    loops = [x for x in s.trace if x[0] == 'loop']
    empty = any(k[0] == 'app' and k[1] == 'len' and projection(k[2], term) and v == ('is', INT(0)) for k, v in s.facts.items())
    nx = [x for x in s.trace if x[0] == 'next' and projection(x[1], term)]
    if empty:
        rep.ok('details', key, 'empty')
        return
    if not nx and not loops:
        rep.bad('details', key, 'the elements do not reach the message where %s' % facts_text(s, 6))
        return
    bad = False
    n = 0
    for x in loops:
        L = e.loops[x[1]]
        for a, b, bk, base in L.edges:
            seg = bk.trace[base:]
            els = [y[3] for y in seg if y[0] == 'next' and y[3] is not None and projection(y[1], term)]
            for el in els:
                n += 1
                g = e.strip(bk, el)
                if not any(y[0] == 'w' and (contains(y[1], el) or contains(y[1], g)) for y in seg):
                    bad = True
    if bad:
        rep.bad('details', key, 'an element is skipped: an iteration over `%s` writes nothing of it' % key.split('.')[-1])
    elif n:
        rep.ok('details', key, 'every element is written')
    else:
        rep.undecided('details', key, 'iteration not recognised')


def place(A, rep):
    lt = A.s.loc_ty
    k = A.tmethod('std::fmt::Display', lambda x: x[0] == 'adt' and x[1] == lt, 'fmt')
    nm = short_name(lt)
    if k is None:
        rep.missing('roles', 'Display for ' + nm)
        return
    e, M = A.new()
    args, outs = A.run(e, k)
    obj = e.strip(St(), args[0])
    role_words = {'line': ('line',), 'column': ('column', 'col'), 'offset': ('offset', 'byte')}
    for s, v in outs:
        if any(x[0] == 'wfail' for x in s.trace):
            continue
        pieces = [x[1] for x in s.trace if x[0] == 'w']
        for acc, i in sorted(A.s.loc_field.items()):
            term = e.get(obj, (('f', i),))
            hit = [n for n, x in enumerate(pieces) if contains(x, term)]
            key = '%s.%s' % (nm, acc)
            if not hit:
                rep.bad('roles', key, 'the %s does not appear in the text of a place' % acc)
                continue
            if not (pieces[hit[0]][0] == 'app' and pieces[hit[0]][1] == 'display' and pieces[hit[0]][2] == term):
                rep.bad('roles', key, 'the text shows %s instead of the %s' % (show(pieces[hit[0]]), acc))
                continue
            before = pieces[hit[0] - 1][1] if hit[0] and pieces[hit[0] - 1][0] == 'str' else ''
            ment = [r for w in words(before.lower()) for r, ws in role_words.items() if w in ws]
            if not ment:
                rep.undecided('roles', key, 'no role named before it')
            elif ment[-1] != acc:
                rep.bad('roles', key, 'the %s stands where the text names the %s' % (acc, ment[-1]))
            else:
                rep.ok('roles', key, before)
