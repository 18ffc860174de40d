"""Which of the panics found on abstract paths are real."""
from rules.common import *
from models import pat_seq

NARROW = ('u8', 'i8', 'u16', 'i16')
BIG_ATOMS = ('Options',)


def atoms(t):
    return [k for k, _ in lin_parts(t)[1]]


def deep(t, f):
    """does f hold of a subterm"""
    if f(t):
        return True
    return isinstance(t, tuple) and any(deep(x, f) for x in t if isinstance(x, tuple))


def widened(t):
    return deep(t, lambda x: len(x) == 2 and x[0] == 'sym' and isinstance(x[1], tuple) and len(x[1]) > 0 and x[1][0] in ('w', 'unk', 'havoc', 'string_pop', 'string_remove'))


def unk(t):
    return deep(t, lambda x: len(x) == 2 and x[0] == 'sym' and isinstance(x[1], tuple) and len(x[1]) > 0 and x[1][0] in ('unk', 'havoc'))


def facts_on(st, X):
    for k, v in st.facts.items():
        if k[0] == 'app' and len(k) > 2 and k[2] == X:
            yield k, v


def slice_offset(e, st, X, off):
    """(status, reason) for one bound of a string slice: None when it is on a character boundary"""
    M = e.models
    off = e.simp(st, off)
    if M.boundary(e, st, X, off):
        return None
    L = e.simp(st, M.len_atom(e, X))
    if X[0] == 'str':
        if off[0] == 'int':
            return 'bad', 'byte %d of the text %r' % (off[1], X[1])
        return 'und', 'offset into a constant'
    if widened(off) or unk(off):
        return 'und', 'an offset carried around a loop'
    c, t = lin_parts(off)
    known = st.facts.get(('app', 'is_ascii', X)) == ('is', TRUE) or (X[0] == 'app' and X[1] in ('escape_default', 'display'))
    if any(k[1] in ('all', 'some', 'valid', 'ideq', 'idin') for k, v in facts_on(st, X) if v == ('is', TRUE)):
        known = True
    if any(k[1] == 'is_char_boundary' for k, v in facts_on(st, X)):
        return 'und', 'boundary checks'
    if not t:
        if c < 0:
            return 'bad', 'a negative offset'
        if known:
            return 'und', 'the text is restricted'
        # what is known of the first characters
        S, lo, hi = M.view(e, st, X)
        for (anc, p, b) in M.prefix_facts(st):
            if b == TRUE and anc[0] == S and e.simp(st, anc[1]) == e.simp(st, lo):
                ps = pat_seq(p)
                if ps is None:
                    return 'und', 'the beginning of the text is related to another one'
                if len(ps) < c and all(x[2] is False for x in ps):
                    if any(a2[0] == S and b2 == TRUE and e.simp(st, a2[1]) == e.simp(st, lin_add(lo, INT(len(ps)))) for a2, _, b2 in M.prefix_facts(st)):
                        return 'und', 'the beginning of the text is known in steps'
        return 'bad', 'byte %d of a text whose first %d bytes can be the middle of a character or more than there are' % (c, c)
    if len(t) == 1:
        k, n = t[0]
        if n == 1 and c < 0 and k == L and not known:
            if any(k2[1] == 'ends' and v == ('is', TRUE) for k2, v in facts_on(st, X)):
                return 'und', 'the end of the text is known'
            return 'bad', '%d bytes before the end of a text whose last character can be longer' % -c
        if n == 1 and k[0] == 'app' and k[1] in ('findpos', 'rfindpos', 'wslen') and M.same_text(e, st, k[2], X) and c > 0 and not known:
            tail = M.sub(e, st, X, k, L)
            S, lo, hi = M.view(e, st, tail)
            for (anc, p, b) in M.prefix_facts(st):
                if b == TRUE and anc[0] == S and e.simp(st, anc[1]) == e.simp(st, lo):
                    ps = pat_seq(p)
                    if ps is None:
                        return 'und', 'what follows is related to another text'
            pat = k[3] if len(k) > 3 else None
            ps = pat_seq(pat) if pat else None
            if k[1] == 'wslen' or (ps is not None and (len(ps) < c or any(x[2] is not False for x in ps))):
                return 'bad', '%d bytes after the position found, where a longer character can stand' % c
            return 'und', 'an offset after a position'
        if n == 1 and k[0] == 'app' and k[1] == 'nchars' and not known:
            return 'bad', 'a count of characters used as a byte offset'
        if n == 1 and k[0] == 'sym' and isinstance(k[1], tuple) and k[1] and k[1][0] == 'arg' and not known:
            if any(contains(f, k) for f in st.facts):
                return 'und', 'an argument that was checked'
            return 'bad', 'an arbitrary number as offset'
    return 'und', 'offset %s' % show(off)[:80]


def judge(e, p):
    """(status, text)"""
    st = St()
    st.facts = dict(p['facts'])
    cond = facts_text(st, 8)
    if any(unk(k) for k in st.facts):
        return 'und', '%s, on a path through an operation without a model' % p['kind']
    at = p.get('at')
    if at is None or at[0] == 'always':
        return 'bad', '%s, when %s' % (p['kind'], cond)
    if at[0] == 'slice':
        X, lo, hi = at[1:]
        why = None
        for off in (lo, hi):
            r = slice_offset(e, st, X, off)
            if r is not None:
                if r[0] == 'bad':
                    return 'bad', 'slices %s at %s: %s, when %s' % (show(X)[:80], show(off)[:80], r[1], cond)
                why = why or r
        if why is not None:
            return 'und', 'slice of %s: %s' % (show(X)[:80], why[1])
        # both on boundaries, order unknown
        a, b = [k for k in atoms(lo) if k[0] == 'app'], [k for k in atoms(hi) if k[0] == 'app']
        if len(a) == 1 and len(b) == 1 and a[0][1] == b[0][1] == 'findpos' and a[0][2] == b[0][2] == X and a[0][3:] != b[0][3:]:
            if not any(k[0] == 'app' and k[1] in ('Lt', 'Le') and contains(k, a[0]) and contains(k, b[0]) for k in st.facts):
                return 'bad', 'slices %s from %s to %s although the second position can be the earlier one, when %s' % (show(X)[:80], show(lo)[:80], show(hi)[:80], cond)
        return 'und', 'order of the bounds of a slice: %s, %s' % (show(lo)[:60], show(hi)[:60])
    if at[0] == 'index':
        v, ix = at[1], e.simp(st, at[2])
        if widened(v):
            return 'und', '%s: a list carried around a loop' % p['kind']
        if widened(ix) and not any(k[0] == 'app' and k[1] in ('Lt', 'Le') and any(contains(k, x) for x in atoms(ix)) for k in st.facts):
            return 'und', '%s: an index carried around a loop' % p['kind']
        return 'bad', '%s: %s of a list that can be shorter, when %s' % (p['kind'], show(ix)[:80], cond)
    if at[0] == 'range':
        v, lo, hi = at[1], e.simp(st, at[2]), e.simp(st, at[3])
        if widened(v) or widened(lo) or widened(hi):
            return 'und', '%s: carried around a loop' % p['kind']
        if any(k[0] == 'app' and k[1] in ('Lt', 'Le', 'Eq') for k in st.facts):
            return 'und', '%s: related to a comparison' % p['kind']
        return 'bad', '%s: %s to %s, when %s' % (p['kind'], show(lo)[:60], show(hi)[:60], cond)
    if at[0] == 'assert':
        if at[1].startswith('Overflow') and at[2] is not None:
            op, a, b = at[2]
            if op == 'Sub':
                d = e.simp(st, lin_sub(a, b))
                c, t = lin_parts(d)
                if not t:
                    return ('bad' if c < 0 else 'und'), 'subtracts %s from %s, when %s' % (show(b), show(a), cond)
                if any(widened(k) for k, _ in t):
                    return 'und', 'subtraction of a number carried around a loop'
                if all(n > 0 for _, n in t):
                    return 'bad', 'subtracts more than there is: %s - %s, when %s' % (show(a)[:60], show(b)[:60], cond)
                neg = [k for k, n in t if n < 0]
                if all(k[0] == 'sym' for k in neg) and not any(contains(f, k) for k in neg for f in st.facts if f[0] == 'app' and f[1] in ('Lt', 'Le')):
                    return 'bad', 'subtracts an arbitrary number: %s - %s, when %s' % (show(a)[:60], show(b)[:60], cond)
                return 'und', 'subtraction %s - %s' % (show(a)[:60], show(b)[:60])
            return 'und', 'arithmetic %s' % op
        if any(widened(k) for k in st.facts):
            return 'und', '%s, in a loop' % p['kind']
        return 'bad', '%s, when %s' % (p['kind'], cond)
    return 'und', p['kind']


def configured(p, k):
    """is the atom a number the caller sets freely"""
    def f(x):
        if x and x[0] == 'sym' and isinstance(x[1], tuple) and x[1] and x[1][0] == 'arg':
            return True
        return False
    return deep(k, f)


def limit_atom(e, k):
    """a number out of the public options record"""
    def f(x):
        if not x or x[0] != 'sym':
            return False
        t = e.symty.get(x)
        while t and t[0] == 'ref':
            t = t[2]
        return bool(t) and t[0] == 'adt' and t[1].split('::')[-1] == 'Options' and bool(e.p.adts.get(t[1], {}).get('local'))
    return deep(k, f)


def sums(e):
    """[(status, fn, span, text)] for additions and capacities"""
    out = []
    counted = {}
    for (fn, span, (op, a, b), ty), (facts, stack) in e.adds.items():
        if ty and ty[0] == 'tuple' and ty[1] and ty[1][0][0] == 'int' and ty[1][0][1] in NARROW and a[0] == b[0] == 'int' and b[1] > 0:
            counted.setdefault((fn, str(span), b[1], ty[1][0][1]), set()).add(a[1])
    for (fn, span, d, it), vs in counted.items():
        if any(v + d in vs and v + 2 * d in vs for v in vs):
            out.append(('bad', fn, span, 'counts in %s, step by step without a limit' % it))
    for (fn, span, (op, a, b), ty), (facts, stack) in e.adds.items():
        st = St()
        st.facts = dict(facts)
        if op == 'Mul':
            continue
        it = None
        if ty and ty[0] == 'tuple' and ty[1] and ty[1][0][0] == 'int':
            it = ty[1][0][1]
        r = e.simp(st, lin_add(a, b))
        c, t = lin_parts(r)
        if not t:
            w = {'u8': 255, 'i8': 127, 'u16': 65535, 'i16': 32767, 'i32': 2**31 - 1, 'u32': 2**32 - 1}.get(it)
            if w is not None and c > w:
                out.append(('bad', fn, span, 'adds %s and %s in %s' % (show(a), show(b), it)))
            continue
        if it in NARROW:
            if any(contains(f, k) for k, _ in t for f in facts):
                out.append(('und', fn, span, 'adds in %s under conditions' % it))
            else:
                out.append(('bad', fn, span, 'adds %s and %s in %s, which overflows for large inputs' % (show(a)[:60], show(b)[:60], it)))
            continue
        big = [k for k, n in t if n > 0 and limit_atom(e, k)]
        if big and all(n > 0 for _, n in t) and (c > 0 or len(t) > 1):
            if any(f[0] == 'app' and f[1] in ('Lt', 'Le') and contains(f, k) for k in big for f in facts):
                out.append(('und', fn, span, 'adds to a limit under conditions'))
            else:
                out.append(('bad', fn, span, 'adds %s and %s, which overflows for the largest limit' % (show(a)[:80], show(b)[:80])))
    for (fn, span, n), facts in e.caps.items():
        if any(limit_atom(e, k) for k in atoms(n)) or (n[0] == 'sym' and limit_atom(e, n)):
            if any(f[0] == 'app' and f[1] in ('Lt', 'Le', 'min') and contains(f, k) for k in atoms(n) for f in facts):
                out.append(('und', fn, span, 'reserves a limit under conditions'))
            else:
                out.append(('bad', fn, span, 'reserves memory for %s elements, whatever the limit is' % show(n)[:80]))
    return out


def of(e):
    """[(status, fn, span, text)]: everything one exploration says about panics"""
    out = []
    for p in e.panics:
        st, msg = judge(e, p)
        out.append((st, p['fn'], str(p['span']), msg))
    out += [(s, f, str(sp), m) for s, f, sp, m in sums(e)]
    return sorted(set(out))
