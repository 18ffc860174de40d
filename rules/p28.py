"""P28: string selectors mean tag#id.class.class."""
from rules.lists import *

TECHNIQUE = 'path-partitioned dataflow over MIR against an abstract reference decomposition of the text'
LEVEL_NOTE = 'static analysis: all paths of the string selector conversion, texts and class lists of any length'
EXPLANATION = (
    'The conversion of a static text into a selector is analysed on all paths.  For each path the text is taken apart by the definition '
    '(up to the first # or ., then the id up to the next ., then the classes between dots) under the facts of that path.  A success has '
    'to hold exactly these parts, each of which was found valid on the path; an error has to be the one of an invalid part, of the right '
    'kind, with the error of that part and, for classes, its index (shown by induction over the loop); unrestricted is returned exactly '
    'for the empty text.  The class list constructor is decided likewise.')


def run(ctx, rep):
    A = Ana(ctx)
    tr = A.trait('IntoSelector')
    k = A.tmethod(tr, STR, 'into_selector') if tr else None
    if k is None:
        rep.missing('parse', 'IntoSelector for &str')
    else:
        guarded(rep, 'parse', 'IntoSelector for &str', parse, A, rep, k)
    k = A.method(A.adt('Classes', True), 'from_str_iterator')
    if k is None:
        rep.missing('list', 'Classes::from_str_iterator')
    else:
        guarded(rep, 'list', 'Classes::from_str_iterator', lists, A, rep, k)
    rep.assume('P27 decides how the parts are matched')


def reference(e, M, s, X):
    """[(state, tag, id, classes)] where a part is a text or None"""
    D, H, P = Cls.of('.'), Cls.of('#'), Cls.of('#.')
    ln = lambda t: M.len_atom(e, t)
    out = []
    for s1, em in e.split_bool(s, e.eq_terms(s, e.simp(s, ln(X)), INT(0))):
        if em:
            out.append((s1, None, None, None))
            continue
        for s2, p in M.find(e, s1, X, P):
            if p is None:
                out.append((s2, X, None, None))
                continue
            for s3, z in e.split_bool(s2, e.eq_terms(s2, e.simp(s2, p), INT(0))):
                tag = None if z else M.sub(e, s3, X, INT(0), p)
                rest = M.sub(e, s3, X, p, ln(X))
                for s4, h in e.split_bool(s3, M.starts(e, s3, rest, H)):
                    if not M.set_starts(e, s4, rest, H if h else D, True):
                        continue
                    r = M.sub(e, s4, X, lin_add(p, INT(1)), ln(X))
                    if not h:
                        out.append((s4, tag, None, r))
                        continue
                    for s5, q in M.find(e, s4, r, D):
                        if q is None:
                            out.append((s5, tag, r, None))
                        else:
                            a = lin_add(p, INT(1))
                            b = lin_add(a, q)
                            out.append((s5, tag, M.sub(e, s5, X, a, b), M.sub(e, s5, X, lin_add(b, INT(1)), ln(X))))
    return out


def same_text(e, M, s, a, b):
    """True / False / None"""
    a, b = M.norm_text(e, e.simp(s, a)), M.norm_text(e, e.simp(s, b))
    if a == b:
        return True
    va, vb = M.view(e, s, a), M.view(e, s, b)
    if va[0] == vb[0]:
        d1 = e.simp(s, lin_sub(va[1], vb[1]))
        d2 = e.simp(s, lin_sub(M.len_atom(e, a), M.len_atom(e, b)))
        if zero(e, s, d1) and zero(e, s, d2):
            return True
        if e.eq_terms(s, d1, INT(0)) == FALSE or e.eq_terms(s, d2, INT(0)) == FALSE or d1[0] == 'int' and d1 != INT(0) or d2[0] == 'int' and d2 != INT(0):
            return False
    return None


def parse(A, rep, k):
    nm = 'IntoSelector for &str'
    e, M = A.new()
    args, outs = A.run(e, k)
    X = M.as_str(e, St(), args[0])
    bad, und, n = [], [], 0
    for s, v in outs:
        for s1, r in e.split_variant(s, v):
            x = e.strip(s1, e.payload(v, r))
            for s2, tag, id_, cls in reference(e, M, s1, X):
                n += 1
                try:
                    if r == 0:
                        success(A, e, M, s2, x, tag, id_, cls)
                    else:
                        failure(A, e, M, s2, x, tag, id_, cls)
                except Bad as b:
                    bad.append((str(b), s2))
                except AnalysisError as b:
                    und.append(str(b))
    close(rep, 'parse', nm, e, bad, und, n)


def close(rep, rule, nm, e, bad, und, n):
    if e.panics:
        rep.bad(rule, nm, 'can panic: ' + e.panics[0]['kind'])
    if bad and e.unknown:
        und.append('operations without a model: %s: possibly %s' % (sorted(str(x) for x in e.unknown)[0], bad[0][0]))
        bad = []
    seen = set()
    for msg, s in bad:
        if msg not in seen:
            seen.add(msg)
            rep.bad(rule, nm, '%s\n  when: %s' % (msg, facts_text(s, 12)))
    if bad or e.panics:
        return
    if und:
        rep.undecided(rule, nm, und[0])
    elif not n:
        rep.undecided(rule, nm, 'no path returns')
    else:
        rep.ok(rule, nm, '%d cases agree with the definition' % n)


def checked(e, M, s, t):
    """is the text known to be a valid name"""
    return M.valid(e, s, t) == TRUE


def field(A, e, s, x, name):
    t = e.typeof(x)
    for i, f in enumerate(e.p.adts[t[1]]['variants'][0]['fields']):
        if f['name'] == name and A.p.T(f['ty'])[0] == 'adt' and A.p.T(f['ty'])[1] == 'std::option::Option':
            return e.strip(s, e.get(x, (('f', i),)))
    raise AnalysisError('the selector is not stored as tag, id and classes')


def success(A, e, M, s, x, tag, id_, cls):
    if tag is None and id_ is None and cls is None:
        raise Bad('the empty text is accepted')
    for n, want in (('tag', tag), ('id', id_), ('classes', cls)):
        o = field(A, e, s, x, n)
        c = e.variant(s, o)
        if c is None:
            raise AnalysisError('%s of the selector not known' % n)
        if want is None:
            if c:
                raise Bad('the selector has a %s although the text has none' % n)
            continue
        if not c:
            raise Bad('the %s of the text is lost' % n)
        t = M.as_str(e, s, e.payload(o, 1))
        q = same_text(e, M, s, t, want)
        if q is None:
            raise AnalysisError('%s is %s' % (n, show(t)[:100]))
        if q is False:
            raise Bad('the %s of the selector is %s instead of %s' % (n, show(t)[:120], show(want)[:120]))
        if n != 'classes':
            if not checked(e, M, s, t):
                raise Bad('the %s is accepted without being validated' % n)
        elif not all_valid(e, M, s, t):
            raise Bad('a class is accepted without being validated')


def all_valid(e, M, s, t):
    D = Cls.of('.')
    for k, f in s.facts.items():
        if k[0] == 'app' and k[1] == 'all' and f == ('is', TRUE) and k[4] == ('is', TRUE) and k[3] == ('app', 'valid', ('bound',)):
            if k[2][0] == 'app' and k[2][1] == 'split' and k[2][3] == D and same_text(e, M, s, k[2][2], t):
                return True
    # a class list without a dot is its own only part
    return M.contains(e, s, t, D) == FALSE and checked(e, M, s, t)


def failure(A, e, M, s, x, tag, id_, cls):
    vs = e.p.adts[e.typeof(x)[1]]['variants']
    c = e.variant(s, x)
    if c is None:
        raise AnalysisError('the error is not known')
    n = vs[c]['name']
    if n == 'Unrestricted':
        if tag is not None or id_ is not None or cls is not None:
            raise Bad('refused as unrestricted although there is a %s' % ('tag' if tag is not None else 'id' if id_ is not None else 'class'))
        return
    fs = {f['name']: e.strip(s, e.get(x, (('d', c), ('f', i)))) for i, f in enumerate(vs[c]['fields'])}
    err = fs.get('error')
    if err is None or err[0] != 'app' or err[1] != 'iderr':
        if err is not None and err[0] == 'adt':
            raise Bad('refused with %s instead of the error of the part' % show(err)[:80])
        raise AnalysisError('the error inside is not understood')
    t = err[2]
    if n in ('Tag', 'Id'):
        want = tag if n == 'Tag' else id_
        if want is None:
            raise Bad('refused for its %s although it has none' % n.lower())
        q = same_text(e, M, s, t, want)
        if q is None:
            raise AnalysisError('the offending part is %s' % show(t)[:100])
        if q is False:
            raise Bad('refused as invalid %s because of %s, which is not the %s' % (n.lower(), show(t)[:120], n.lower()))
        return
    if n != 'Class':
        raise AnalysisError('unknown error ' + n)
    if cls is None:
        raise Bad('refused for a class although it has none')
    if not (t[0] == 'sym' and t[1][0] == 'el' and t[1][1][0] == 'app' and t[1][1][1] == 'split' and t[1][1][3] == Cls.of('.')):
        if same_text(e, M, s, t, cls) and M.contains(e, s, cls, Cls.of('.')) == FALSE and e.simp(s, fs['index']) == INT(0):
            return
        raise AnalysisError('the offending class is %s' % show(t)[:100])
    if not same_text(e, M, s, t[1][1][2], cls):
        raise Bad('refused because of a part of %s, which is not the class list' % show(t[1][1][2])[:120])
    w = counted(e, s, e.simp(s, fs['index']), t)
    if w:
        raise Bad(w)


def counted(e, s, ix, el):
    """is `ix` the number of elements read before `el`?  None if so, else the reason"""
    pos = [n for n, x in enumerate(s.trace) if x[0] == 'next' and x[3] == el or x[0] == 'inext' and contains(el, x[2]) if True]
    if not pos:
        raise AnalysisError('the place where the part was read is not found')
    mk = [(n, x) for n, x in enumerate(s.trace[:pos[0]]) if x[0] == 'loop']
    if not mk:
        raise AnalysisError('the part is not read in a loop')
    lid, node = mk[-1][1][1], mk[-1][1][2]
    L = e.loops[lid]
    base = ix
    k = 0
    if ix[0] == 'lin' or ix[0] == 'int':
        pass
    # value at the head of the loop, per node, at the place that holds the index
    cands = []
    for c, v in L.nodes[node].mem.items():
        for path, t in places(v):
            if t == ix and t != INT(0) or t == ix == INT(0):
                cands.append((c, path))
    why = None
    for c, path in cands:
        why = steps(e, L, c, path)
        if why is None:
            return None
    # the index may be computed from the counter
    for c, v in L.nodes[node].mem.items():
        for path, t in places(v):
            d = e.simp(s, lin_sub(ix, t))
            if d[0] == 'int' and d != INT(0) and steps(e, L, c, path) is None and t != INT(0):
                return 'the index is off by %d' % d[1]
    if ix[0] == 'int' and len(L.nodes) > 1:
        return None if node == 0 and ix == INT(0) else 'the index is always %d' % ix[1]
    if not cands:
        raise AnalysisError('the index %s is not followed' % show(ix)[:60])
    return why


def places(v, path=()):
    if isinstance(v, tuple) and v:
        if v[0] == 'int' or v[0] == 'sym' and isinstance(v[1], tuple) and v[1][:1] == ('w',):
            yield path, v
            return
        for i, x in enumerate(v):
            if isinstance(x, tuple):
                for y in places(x, path + (i,)):
                    yield y


def steps(e, L, cell, path):
    """the place starts at zero and grows by one with every element; None, or the reason"""
    v0 = value_at(L.entry.mem.get(cell), path)
    if v0 != INT(0):
        return 'the index does not start at zero'
    for (i, j, bk, base) in L.edges:
        a = value_at(L.nodes[i].mem.get(cell), path)
        b = value_at(bk.mem.get(cell), path)
        n = sum(1 for x in bk.trace[base:] if x[0] in ('next', 'inext') and x[-1] is not None)
        if a is None or b is None or n != 1:
            raise AnalysisError('the counter is not followed')
        d = e.simp(bk, lin_sub(b, a))
        if d != INT(1):
            return 'the index grows by %s with one part' % show(d)[:60]
    return None


def lists(A, rep, k):
    nm = 'Classes::from_str_iterator'
    e, M = A.new()
    args, outs = A.run(e, k)
    bad, und, n = [], [], 0
    for s, v in outs:
        for s1, r in e.split_variant(s, v):
            n += 1
            x = e.strip(s1, e.payload(v, r))
            reads = [t for t in s1.trace if t[0] == 'inext']
            try:
                if r == 1:
                    vs = e.p.adts[e.typeof(x)[1]]['variants']
                    c = e.variant(s1, x)
                    if c is None:
                        raise AnalysisError('error not known')
                    if vs[c]['name'] == 'Empty':
                        if len(reads) != 1 or e.variant(s1, ('sym', ('inext', reads[0][1], reads[0][2]))) != 0:
                            raise Bad('refused as empty although there are names')
                        continue
                    fs = {f['name']: e.strip(s1, e.get(x, (('d', c), ('f', i)))) for i, f in enumerate(vs[c]['fields'])}
                    err = fs.get('error')
                    if err is None or err[0] != 'app' or err[1] != 'iderr':
                        raise Bad('refused with %s instead of the error of the name' % show(err)[:80])
                    w = counted(e, s1, e.simp(s1, fs['index']), err[2])
                    if w:
                        raise Bad(w)
                    continue
                if not reads or e.variant(s1, ('sym', ('inext', reads[-1][1], reads[-1][2]))) != 0:
                    raise Bad('accepted before every name was read')
                if len(reads) == 1 and not any(t[0] == 'loop' and t[2] for t in s1.trace):
                    raise Bad('an empty list is accepted')
                v = names_of(e, s1, x)
                if v is None:
                    raise AnalysisError('list not known')
                copies(e, M, s1, v, reads[0][1])
            except Bad as b:
                bad.append((str(b), s1))
            except AnalysisError as b:
                und.append(str(b))
    close(rep, 'list', nm, e, bad, und, n)


def names_of(e, s, x):
    """the list inside the selector"""
    for _ in range(4):
        x = e.strip(s, x)
        if x[0] == 'seq':
            return x
        if x[0] != 'adt' or len(x[3]) != 1:
            return None
        x = x[3][0]
    return None


class Copies(Auto):
    """every element read is put into the list, as it is"""
    start = 'copy'

    def __init__(self, same):
        self.same = same

    def feed(self, s, q, elems, outs):
        elems = [x for x in elems if x is not None]
        if len(elems) > 1:
            raise AnalysisError('several elements in one step')
        if len(outs) != len(elems):
            raise Bad('%d names are kept for %d given' % (len(outs), len(elems)))
        for x, o in zip(elems, outs):
            if not self.same(s, x, o[1] if o[0] == 'one' else o):
                raise Bad('keeps %s for the name %s' % (show(o)[:80], show(x)[:80]))
        return [q]


def copies(e, M, s, v, src):
    if not any(x[0] == 'acc' for x in v[1]):
        raise AnalysisError('the list is not built in a loop')

    def same(st, x, o):
        a, b = M.as_str(e, st, o), M.as_str(e, st, x)
        return M.norm_text(e, a) == M.norm_text(e, b) or strip_into(a) == strip_into(b)
    Product(e, src, Copies(same), s, v[1]).end()


def strip_into(t):
    """the value behind conversions and references"""
    while t[0] == 'app' and t[1] == 'into' or t[0] == 'sym' and t[1][0] == 'deref':
        t = t[2] if t[0] == 'app' else t[1][1]
    return t
