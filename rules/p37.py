"""P37: line and column numbers count newlines and characters."""
from rules import grammar
from rules.common import *
from models import at_path

TECHNIQUE = 'symbolic arithmetic over MIR paths (counting terms) of the location functions, loops by induction on the scanned characters'
LEVEL_NOTE = 'static analysis: all paths of every function that advances a location'
EXPLANATION = (
    'advance: every function that maps a location and consumed text to a location is analysed on all paths; its new line '
    'must be the old line plus the number of newlines, its new column the old column plus the number of characters when the '
    'text has no newline, otherwise one plus the number of characters after the last newline, its offset the old offset plus '
    'the byte length (loops over characters are proved step by step). start: parsing starts at line 1, column 1, offset 0. '
    'accessors: line(), column() and offset() return the components that are advanced that way. position: on every path of the '
    'parser step, the place of the remaining input and the places in errors are those reached by advancing over exactly the text before them.')

NL = ('cls', frozenset('\n'), False)


def run(ctx, rep):
    A = Ana(ctx)
    S = A.s
    if S.loc_ty is None:
        rep.missing('advance', 'location type with line, column and offset accessors')
        return
    if len(S.loc_field) < 3:
        rep.undecided('accessors', short_name(S.loc_ty), 'accessors not recognised: %s' % S.loc_field)
        return
    if len(set(S.loc_field.values())) < 3:
        rep.bad('accessors', short_name(S.loc_ty), 'line(), column() and offset() do not return three separate components: %s' % S.loc_field)
        return
    rep.ok('accessors', short_name(S.loc_ty), 'fields %s' % S.loc_field)
    for k in sorted(S.advances):
        guarded(rep, 'advance', A.name(k), advance, A, rep, k)
    rep.floor('advance', 1)
    start(A, rep)
    rep.floor('start', 1)
    grammar.claim(ctx, rep, 'P37')
    rep.assume('str::chars, count, rfind, len behave as documented', 'no overflow of line, column and offset counters (texts are shorter than usize::MAX)')


def offsets(ctx, rep, rule='offset'):
    """every function that advances a location adds the byte length of the text"""
    A = Ana(ctx)
    S = A.s
    if S.loc_ty is None or 'offset' not in S.loc_field:
        rep.missing(rule, 'location type with an offset accessor')
        return
    for k in sorted(S.advances):
        guarded(rep, rule, A.name(k), offset_of, A, rep, rule, k)
    rep.floor(rule, 1)


def offset_of(A, rep, rule, k):
    e, M = A.new(location=False)
    nm = A.name(k)
    args, outs = A.run(e, k)
    i = A.s.loc_field['offset']
    X = M.as_str(e, St(), args[1])
    n = 0
    for s, v in outs:
        L = e.strip(s, args[0])
        old, new = e.get(L, (('f', i),)), e.simp(s, e.get(v, (('f', i),)))
        d = e.simp(s, lin_sub(new, lin_add(old, M.len_atom(e, X))))
        n += 1
        if d == INT(0):
            rep.ok(rule, nm, 'the old offset plus the byte length')
        else:
            rep_ = rep.bad if vocabulary(new, X, L) and plain(s, X, L) else rep.undecided
            rep_(rule, nm, 'the offset becomes %s instead of the old offset plus the byte length, when %s' % (show(new), facts_text(s)))


def norm(e, M, st, t, X, nl):
    """normal form of counting terms"""
    c, ps = lin_parts(t)
    r = INT(c)
    for a, n in ps:
        v = a
        if a[0] == 'app' and a[1] == 'count' and a[2] == X and a[3] == NL and nl is False:
            v = INT(0)
        elif a[0] == 'app' and a[1] == 'nchars' and a[2][0] == 'app' and a[2][1] == 'sub':
            S, lo, hi = a[2][2], a[2][3], a[2][4]
            if e.simp(st, lin_sub(hi, M.len_atom(e, S))) == INT(0) and lo != INT(0):
                v = lin_sub(('app', 'nchars', S), ('app', 'nchars', ('app', 'sub', S, INT(0), lo)))
        # multiply
        vc, vp = lin_parts(v)
        r = lin_add(r, mk_lin(vc * n, {k: m * n for k, m in vp}))
    return r


def vocabulary(t, X, L):
    """only counts and positions of the consumed text itself and the old location"""
    c, ps = lin_parts(t)
    return all(known(a, X, L) for a, n in ps)


COUNTS = ('count', 'nchars', 'len', 'rfindpos', 'findpos', 'contains', 'starts', 'first', 'last', 'len_utf8', 'is_ascii')


def known(a, X, L):
    if a == X or a == L or (isinstance(L, tuple) and a in L) or (isinstance(a, tuple) and a and a[0] in ('int', 'cls', 'str', 'bool', 'conf')):
        return True
    if not isinstance(a, tuple) or not a:
        return not isinstance(a, tuple)
    if a[0] == 'sym':
        return isinstance(a[1], tuple) and a[1] and a[1][0] == 'f' and not contains_w(a)
    if a[0] == 'lin':
        return vocabulary(a, X, L)
    if a[0] == 'app' and a[1] == 'sub':
        return (a[2] == X or known(a[2], X, L)) and vocabulary(a[3], X, L) and vocabulary(a[4], X, L)
    if a[0] == 'app' and a[1] in COUNTS:
        return all(known(x, X, L) for x in a[2:])
    return False


def plain(st, X, L):
    """every condition of the path that mentions the text is in the vocabulary (the path is
    then known to be taken by some text, up to the arithmetic of counts)"""
    return all(known(a, X, L) for a in st.facts if contains(a, X))


def advance(A, rep, k):
    e, M = A.new(location=False)
    nm = A.name(k)
    args, outs = A.run(e, k)
    S = A.s
    st0 = St()
    X = M.as_str(e, st0, args[1])
    loc = args[0]
    for s, v in outs:
        L = e.strip(s, loc)
        old = {n: e.get(L, (('f', i),)) for n, i in S.loc_field.items()}
        new = {n: e.simp(s, e.get(v, (('f', i),))) for n, i in S.loc_field.items()}
        nl = M.contains(e, s, X, NL)
        nl = True if nl == TRUE else False if nl == FALSE else None
        cnt = s.facts.get(('app', 'count', X, NL))
        if cnt is not None:
            has = True if cnt[0] == 'not' and INT(0) in cnt[1] else False if cnt == ('is', INT(0)) else None
            if has is not None and nl is not None and has != nl:
                continue            # impossible combination
            nl = has if nl is None else nl
        f = s.facts.get(M.len_atom(e, X)) if is_sym(M.len_atom(e, X)) else None
        if e.simp(s, M.len_atom(e, X)) == INT(0):
            nl = False
        ws = [t for t in (new['line'], new['column']) if contains_w(t)]
        if ws:
            r = by_loop(A, e, M, s, X, old, new)
        else:
            r = closed(e, M, s, X, old, new, nl)
            if r[0] is False and any(x[0] in ('loop', 'count') for x in s.trace):
                r = (None, r[1])        # what a loop over the text has found out is not summarised
        off = lin_sub(new['offset'], lin_add(old['offset'], M.len_atom(e, X)))
        if e.simp(s, off) != INT(0):
            if vocabulary(new['offset'], X, L) and plain(s, X, L):
                r = (False, 'the offset becomes %s instead of the old offset plus the byte length' % show(new['offset']))
            elif r[0] is True:
                r = (None, 'offset %s' % show(new['offset']))
        if r[0] is True:
            rep.ok('advance', nm, r[1])
        elif r[0] is False:
            rep.bad('advance', nm, '%s, when %s' % (r[1], facts_text(s)))
        else:
            rep.undecided('advance', nm, '%s, when %s' % (r[1], facts_text(s)))


def contains_w(t):
    if isinstance(t, tuple) and t:
        if t[0] == 'sym' and isinstance(t[1], tuple) and t[1] and t[1][0] == 'w':
            return True
        return any(contains_w(x) for x in t)
    return False


def closed(e, M, s, X, old, new, nl):
    cnt = ('app', 'count', X, NL)
    line = norm(e, M, s, new['line'], X, nl)
    col = norm(e, M, s, new['column'], X, nl)
    L = tuple(old.values())
    empty = e.simp(s, M.len_atom(e, X)) == INT(0)
    want_line = lin_add(old['line'], INT(0) if nl is False else cnt)
    if e.simp(s, lin_sub(line, want_line)) != INT(0):
        return (False if vocabulary(line, X, L) and plain(s, X, L) else None,
                'the line becomes %s instead of the old line plus the number of newlines' % show(new['line']))
    total = INT(0) if empty else ('app', 'nchars', X)
    if nl is False:
        want = lin_add(old['column'], total)
        what = 'the old column plus the number of characters'
    elif nl is True:
        rp = ('app', 'rfindpos', X, NL)
        want = lin_add(INT(1), lin_sub(('app', 'nchars', X), ('app', 'nchars', ('app', 'sub', X, INT(0), lin_add(rp, INT(1))))))
        what = 'one plus the number of characters after the last newline'
    else:
        return None, 'whether the text has a newline is not tested'
    if e.simp(s, lin_sub(col, want)) != INT(0):
        return (False if vocabulary(col, X, L) and plain(s, X, L) else None, 'the column becomes %s instead of %s' % (show(new['column']), what))
    return True, 'line and column follow the newlines and characters' + (' (text with newline)' if nl else ' (no newline)')


def by_loop(A, e, M, s, X, old, new):
    """the result is what a loop over the characters has accumulated"""
    wl, wc = new['line'], new['column']
    if not all(t[0] == 'sym' and isinstance(t[1], tuple) and t[1][0] == 'w' for t in (wl, wc)):
        return None, 'line %s, column %s' % (show(wl), show(wc))
    if wl[1][1:3] != wc[1][1:3]:
        return None, 'line and column come from different loops'
    L = e.loops.get(wl[1][1])
    if L is None or len(L.nodes) != 1 or not L.edges:
        return None, 'unrecognised loop'
    N = L.nodes[0]

    def val(st, w):
        # the widened symbol tells the place it stands for
        res = []
        for c, v in N.mem.items():
            if c in st.mem:
                find_places(v, w, st.mem[c], v, res)
        return res[0] if res else None
    # cursor
    cur = None
    for c, v in N.mem.items():
        if v[0] == 'it' and v[1] == 'chars':
            Y = v[2]
            if Y[0] == 'app' and Y[1] == 'sub' and Y[2] == X and contains_w(Y[3]):
                cur = (c, Y)
    if cur is None:
        return None, 'the loop does not scan the consumed text by characters'
    c, Y = cur
    en = L.entry.mem.get(c)
    if en is None or en[0] != 'it' or en[2] != X:
        return None, 'the loop does not start at the beginning of the text'
    # all of the text has been read on leaving
    if M.contains(e, s, X, ('cls', frozenset(), False)) != FALSE and e.simp(s, lin_sub(M.len_atom(e, X), Y[3])) != INT(0):
        return None, 'the loop may be left before the end of the text'
    if val(L.entry, wl) != old['line'] or val(L.entry, wc) != old['column']:
        return False, 'counting starts at line %s, column %s instead of the old ones' % (show(val(L.entry, wl)), show(val(L.entry, wc)))
    for (i, j, bk, base) in L.edges:
        b = bk.mem.get(c)
        if b is None or b[0] != 'it' or b[1] != 'chars':
            return None, 'cursor lost'
        nY = b[2]
        step = lin_sub(nY[3], Y[3]) if nY[0] == 'app' and nY[1] == 'sub' and nY[2] == X else None
        if step is None or not (step == ('app', 'len_utf8', ('app', 'first', Y)) or (step == INT(1) and M.starts(e, bk, Y, ('cls', ASCII, False)) == TRUE)):
            return None, 'a step of the loop is not one character'
        l2, c2 = val(bk, wl), val(bk, wc)
        isnl = M.starts(e, bk, Y, NL)
        if isnl == TRUE:
            want = (lin_add(wl, INT(1)), INT(1))
        elif isnl == FALSE:
            want = (wl, lin_add(wc, INT(1)))
        else:
            return None, 'a step does not tell newlines from other characters'
        if (l2, c2) != want:
            known = all(vocab_w(t, (wl, wc)) for t in (l2, c2))
            return (False if known else None), 'a step over %s changes line, column to %s, %s' % ('a newline' if isnl == TRUE else 'another character', show(l2), show(c2))
    return True, 'each step of the character loop counts correctly'


def vocab_w(t, ws):
    if t is None:
        return False
    c, ps = lin_parts(t)
    return all(a in ws for a, n in ps)


def find_places(pat, w, v, root, res):
    if pat == w:
        res.append(v)
        return
    if isinstance(pat, tuple) and isinstance(v, tuple) and len(pat) == len(v) and pat and pat[0] in ('adt', 'tup', 'box') or (
            isinstance(pat, tuple) and isinstance(v, tuple) and len(pat) == len(v) and pat and not isinstance(pat[0], str)):
        for x, y in zip(pat, v):
            find_places(x, w, y, root, res)


def start(A, rep):
    """locations made from constants only"""
    S = A.s
    lt = ('adt', S.loc_ty, ())
    seen = set()
    for k, f in A.local():
        if k in A.p.derived_fns or k in S.advances:
            continue
        e, M = A.new(budget=4000)
        e.watch = (S.loc_ty,)
        try:
            A.run(e, k)
        except (AnalysisError, RecursionError):
            continue
        for s, v, fk in e.watched:
            vals = {n: e.simp(s, v[3][i]) for n, i in S.loc_field.items()}
            if any(x[0] != 'int' for x in vals.values()):
                continue
            key = (A.name(fk), tuple(sorted(vals.items())))
            if key in seen:
                continue
            seen.add(key)
            if (vals['line'], vals['column'], vals['offset']) == (INT(1), INT(1), INT(0)):
                rep.ok('start', A.name(fk), 'line 1, column 1, offset 0')
            else:
                rep.bad('start', A.name(fk), 'a location is started at line %s, column %s, offset %s' % tuple(show(vals[n]) for n in ('line', 'column', 'offset')))
