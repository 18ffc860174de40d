"""Abstract semantics of the library surface used by the analysed crate (strings, vectors, iterators,
formatting, smart pointers, files) and of opaque user supplied parameters."""
from absint import *
from absint import mk_cat, str_pieces, STRINGY, is_sym

STR = ('ref', False, ('str',))
USZ = ('int', 'usize')
CHAR = ('char',)
WS_ASCII = frozenset('\t\n\x0b\x0c\r ')
ASCII = frozenset(chr(i) for i in range(128))


class Cls(object):
    """helpers on character classes ('cls', frozenset(ascii), nonascii) with nonascii in False/True/'ws'/'nws'"""
    WS = ('cls', WS_ASCII, 'ws')

    @staticmethod
    def of(chars):
        return ('cls', frozenset(c for c in chars if ord(c) < 128), False if all(ord(c) < 128 for c in chars) else ('set', frozenset(c for c in chars if ord(c) >= 128)))

    @staticmethod
    def subset(a, b):
        return a[1] <= b[1] and (a[2] == b[2] or a[2] is False or b[2] is True)

    @staticmethod
    def disjoint(a, b):
        if a[1] & b[1]:
            return False
        return a[2] is False or b[2] is False or {repr(a[2]), repr(b[2])} == {repr('ws'), repr('nws')}

    @staticmethod
    def neg(a):
        m = {False: True, True: False, 'ws': 'nws', 'nws': 'ws'}
        n = m[a[2]] if a[2] in (False, True, 'ws', 'nws') else (a[2][1] if a[2][0] == 'neg' else ('neg', a[2]))
        return ('cls', ASCII - a[1], n)


    @staticmethod
    def inter(a, b):
        x, y = a[2], b[2]
        n = x if x == y or y is True else y if x is True else False if (x is False or y is False or {repr(x), repr(y)} == {repr('ws'), repr('nws')}) else x
        return ('cls', a[1] & b[1], n)

    @staticmethod
    def union(a, b):
        x, y = a[2], b[2]
        n = x if x == y or y is False else y if x is False else True
        return ('cls', a[1] | b[1], n)


NWS = Cls.neg(Cls.WS)


def blanks(st):
    """the leading-blank lengths that facts talk about"""
    out, seen = [], set()

    def go(t):
        if not isinstance(t, tuple) or not t or t in seen:
            return
        seen.add(t)
        if t[0] == 'app' and len(t) > 2 and t[1] == 'wslen':
            out.append(t)
        for x in t:
            if isinstance(x, tuple):
                go(x)
    for k in st.facts:
        go(k)
    return out


def cursors(v, lid, path, out, c):
    """integer symbols widened by loop lid, with the place they live in"""
    if isinstance(v, tuple) and v:
        if v[0] == 'sym':
            if isinstance(v[1], tuple) and v[1][:2] == ('w', lid):
                out.append((v, c, path))
            return
        for i, x in enumerate(v):
            if isinstance(x, tuple):
                cursors(x, lid, path + (i,), out, c)


def at_path(v, path, ref=None):
    for i in path:
        if ref is not None and ref[0] == 'app' and ref[1] == 'sub' and v == ref[2]:
            # the whole text stands for its own full slice
            if i == 3:
                return INT(0)
            return ref[4] if i == 4 else None
        ref = ref[i] if isinstance(ref, tuple) and i < len(ref) and isinstance(ref[i], tuple) else None
        if not isinstance(v, tuple) or i >= len(v):
            return None
        v = v[i]
    return v


def has_acc(v, lid):
    if isinstance(v, tuple) and v:
        if v[0] in ('acc', 'accs') and len(v) > 1 and v[1] == lid:
            return True
        return any(has_acc(x, lid) for x in v)
    return False


def pat_seq(pat):
    """pattern -> tuple of classes (or None when it is not constant)"""
    if pat[0] == 'cls':
        return (pat,)
    if pat[0] == 'str':
        return tuple(Cls.of([c]) for c in pat[1])
    return None


def pat_implies(p, q):
    """given 'X starts with p' is TRUE: value of 'X starts with q' or None"""
    a, b = pat_seq(p), pat_seq(q)
    if a is None or b is None:
        return True if p == q else None
    for x, y in zip(a, b):
        if Cls.disjoint(x, y):
            return False
    if len(b) <= len(a) and all(Cls.subset(x, y) for x, y in zip(a, b)):
        return True
    return None


class Models(object):
    def __init__(self):
        self.valid_adts = set()
        self.notes = {}

    # ------------------------------------------------------------------ text-like ADTs
    def text_root(self, eng, v):
        """str term of a text-like value, or None"""
        if v[0] in ('str', 'cat'):
            return v
        if v[0] == 'adt':
            if self.textlike(eng, ('adt', v[1], v[4])) and len(v[3]) == 1:
                return self.text_root(eng, v[3][0])
            return None
        if is_sym(v):
            t = eng.typeof(v)
            if t == STR or (t[0] == 'adt' and t[1] in STRINGY):
                return v
            if self.textlike(eng, t):
                return self.text_of_sym(eng, v)
        return None

    def text_of_sym(self, eng, v):
        if v[0] == 'sym' and isinstance(v[1], tuple) and v[1][0] == 'f':
            par = v[1][1]
            if self.textlike(eng, eng.typeof(par)):
                return self.text_of_sym(eng, par)
        return eng.app(STR, 'text', v)

    def textlike(self, eng, t, d=0):
        if t[0] != 'adt' or d > 6:
            return False
        a = eng.p.adts.get(t[1])
        if not a or not a.get('local') or not a['variants']:
            return False
        for vi, va in enumerate(a['variants']):
            if len(va['fields']) != 1:
                return False
            ft = eng.field_type(t, vi, 0)
            if not (ft == STR or (ft[0] == 'adt' and ft[1] in STRINGY) or (ft[0] == 'ref' and ft[2] == ('str',)) or self.textlike(eng, ft, d + 1)):
                return False
        return True

    def field_hook(self, eng, v, variant, i, ft):
        """field of a text-like value that is itself string typed"""
        if ft == STR or (ft[0] == 'ref' and ft[2] == ('str',)) or (ft[0] == 'adt' and ft[1] in STRINGY):
            if self.textlike(eng, eng.typeof(v)):
                return self.text_of_sym(eng, v)
        return None

    # ------------------------------------------------------------------ strings
    def sub(self, eng, st, X, lo, hi):
        """slice [lo,hi) of X (offsets relative to X)"""
        lo, hi = eng.simp(st, lo), eng.simp(st, hi)
        if X[0] == 'str' and lo[0] == 'int' and hi[0] == 'int':
            try:
                return ('str', X[1].encode()[lo[1]:hi[1]].decode())
            except UnicodeDecodeError:
                return ('str', '')
        S, a, b = self.view(eng, st, X)
        nlo, nhi = eng.simp(st, lin_add(a, lo)), eng.simp(st, lin_add(a, hi))
        if nlo == INT(0) and nhi == eng.simp(st, self.len_atom(eng, S)):
            return S
        if eng.simp(st, lin_sub(nhi, nlo)) == INT(0):
            return ('str', '')
        return eng.app(STR, 'sub', S, nlo, nhi)

    def view(self, eng, st, X):
        if X[0] == 'app' and X[1] == 'sub':
            return X[2], X[3], X[4]
        return X, INT(0), self.len_atom(eng, X)

    def len_atom(self, eng, X):
        if X[0] == 'str':
            return INT(len(X[1].encode()))
        if X[0] == 'cat':
            r = INT(0)
            for p in X[1]:
                r = lin_add(r, self.len_atom(eng, p))
            return r
        if X[0] == 'app' and X[1] == 'sub':
            return lin_sub(X[4], X[3])
        return eng.app(USZ, 'len', X)

    @staticmethod
    def bytes_root(v):
        """the text whose bytes v is"""
        if v[0] == 'sym' and isinstance(v[1], tuple) and v[1][0] == 'deref':
            v = v[1][1]
        return v[2] if v[0] == 'app' and v[1] == 'bytes' and len(v) == 3 else None

    def byte_in(self, eng, st, v, chars):
        """is a byte of a text one of some ASCII characters; None when it can be the middle of a character"""
        X, ix = v[2], eng.simp(st, v[3])
        if not self.boundary(eng, st, X, ix):
            return None
        tail = self.sub(eng, st, X, ix, self.len_atom(eng, X))
        return self.starts(eng, st, tail, Cls.of(chars))

    def byte_char(self, eng, st, v):
        """the character a byte is, when it is a whole one"""
        X, ix = v[2], eng.simp(st, v[3])
        if not self.boundary(eng, st, X, ix):
            return None
        tail = self.sub(eng, st, X, ix, self.len_atom(eng, X))
        ch = eng.app(CHAR, 'first', tail)
        if self.starts(eng, st, tail, ('cls', ASCII, False)) == TRUE or self.char_in(eng, st, ch, ('cls', ASCII, False)) == TRUE:
            return ch
        return None

    def length(self, eng, st, v):
        v = eng.strip(st, v)
        t = self.text_root(eng, v)
        if t is None:
            t = self.bytes_root(v)
        if t is not None:
            return eng.simp(st, self.len_atom(eng, t))
        if v[0] == 'arr':
            return INT(len(v[1]))
        if v[0] == 'seq':
            r = INT(0)
            for s in v[1]:
                if s[0] == 'one':
                    r = lin_add(r, INT(1))
                elif s[0] == 'base':
                    r = lin_add(r, eng.app(USZ, 'len', s[1]))
                else:
                    r = lin_add(r, eng.app(USZ, 'len', s))
            return eng.simp(st, r)
        return eng.simp(st, eng.app(USZ, 'len', v))

    def as_str(self, eng, st, v):
        v = eng.strip(st, v)
        t = self.text_root(eng, v)
        if t is None:
            if v[0] == 'rc':
                return self.as_str(eng, st, eng.load(st, v))
            if v[0] in ('sym', 'app'):
                return v
            raise AnalysisError('string expected, got %r' % (v[0],))
        return eng.simp(st, t) if t[0] == 'app' else t

    def pattern(self, eng, st, v):
        """canonical pattern"""
        n = 0
        while v[0] == 'ref' and n < 5:
            v = eng.read(st, v[1], v[2])
            n += 1
        if v[0] == 'char':
            return Cls.of([v[1]])
        if v[0] == 'arr' and all(x[0] == 'char' for x in v[1]):
            return Cls.of([x[1] for x in v[1]])
        if v[0] == 'str':
            if len(v[1]) == 1:
                return Cls.of([v[1]])
            return v
        if v[0] in ('clo', 'fn'):
            c = self.classify(eng, st, v)
            if c is not None:
                return c
            return ('pfn', v)
        if v[0] in ('sym', 'app'):
            t = self.text_root(eng, v)
            return t if t is not None else v
        return v

    def char_in(self, eng, st, c, cls):
        """bool term: char value c is in class"""
        if c[0] == 'char':
            if ord(c[1]) < 128:
                return ('bool', c[1] in cls[1])
            if cls[2] in (True, False):
                return ('bool', cls[2])
            if cls[2] == 'ws':
                return ('bool', c[1].isspace())
            if isinstance(cls[2], tuple) and cls[2][0] == 'set':
                return ('bool', c[1] in cls[2][1])
            if isinstance(cls[2], tuple) and cls[2][0] == 'neg' and cls[2][1][0] == 'set':
                return ('bool', c[1] not in cls[2][1][1])
        f = st.facts.get(c)
        if f and f[0] == 'is':
            return self.char_in(eng, st, f[1], cls)
        if c[0] == 'app' and c[1] == 'first':
            return self.starts(eng, st, c[2], cls)
        for k, v in st.facts.items():
            if k[0] == 'app' and k[1] == 'cin' and k[2] == c and v[0] == 'is' and k[3] != cls:
                if v == ('is', TRUE):
                    if Cls.subset(k[3], cls):
                        return TRUE
                    if Cls.disjoint(k[3], cls):
                        return FALSE
                elif Cls.subset(cls, k[3]):
                    return FALSE
        return eng.app(('bool',), 'cin', c, cls)

    def classify(self, eng, st, f):
        """character class decided by a predicate value (constant folding over ASCII plus one symbolic
        non-ASCII character)"""
        key = ('cls', repr(f))
        if key in self.notes:
            return self.notes[key]
        self.notes[key] = None
        s0 = st.clone()
        acc = set()
        for i in range(128):
            r = self.pred_on(eng, s0, f, ('char', chr(i)))
            if r is None:
                return None
            if r:
                acc.add(chr(i))
        c = eng.sym(('nonascii', 'char'), CHAR)
        s0.facts[eng.app(('bool',), 'cin', c, ('cls', ASCII, False))] = ('is', FALSE)
        outs = self.pred_paths(eng, s0, f, c)
        na = None
        if outs is not None:
            vals = set()
            single = {}
            split = []
            for s, b in outs:
                split.extend((s2, ('bool', k)) for s2, k in eng.split_bool(s, b))
            for s, b in split:
                w = s.facts.get(('app', 'cin', c, Cls.WS))
                eqs = s.facts.get(c)
                if eqs and eqs[0] == 'is':
                    # equality with an ASCII constant: not a non-ASCII character
                    if eqs[1][0] != 'char' or ord(eqs[1][1]) >= 128:
                        single[eqs[1]] = b[1]
                    continue
                asc = s.facts.get(('app', 'cin', c, ('cls', ASCII, False)))
                if asc == ('is', TRUE):
                    continue
                vals.add((None if w is None else w[1][1], b[1]))
            if vals and '?' not in vals:
                res = set(b for _, b in vals)
                if len(res) == 1:
                    na = res.pop()
                elif vals == {(True, True), (False, False)}:
                    na = 'ws'
                elif vals == {(True, False), (False, True)}:
                    na = 'nws'
            odd = [k for k, b in single.items() if b != na]
            if na in ('ws', 'nws', None) and single:
                na = None
            elif odd:
                if not all(k[0] == 'char' for k in odd):
                    na = None
                else:
                    fs = ('set', frozenset(k[1] for k in odd))
                    na = fs if na is False else ('neg', fs)
        if na is None:
            return None
        r = ('cls', frozenset(acc), na)
        self.notes[key] = r
        return r

    def pred_paths(self, eng, st, f, c):
        try:
            np = len(eng.panics)
            outs = self.call_pred(eng, st.clone(), f, c)
            if len(eng.panics) > np:
                del eng.panics[np:]
                return None
            return outs
        except AnalysisError:
            return None

    def call_pred(self, eng, st, f, c):
        """predicates take char or &char; decide from the closure's signature"""
        byref = False
        g = f
        if g[0] == 'ref':
            g = eng.read(st, g[1], g[2])
        if g[0] == 'clo':
            fn = eng.p.fns[g[1]]
            t = eng.p.T(fn['locals'][2])
            byref = t[0] == 'ref'
            rr = byref and t[2][0] == 'ref'
        else:
            rr = False
            if g[0] == 'fn':
                ref = eng.fnrefs[g[1]]
                nm = norm_name(ref['name']) or ''
                byref = nm in ('char::is_ascii', 'char::is_ascii_whitespace', 'char::is_ascii_alphabetic', 'char::is_ascii_digit', 'char::is_ascii_alphanumeric', 'char::is_ascii_punctuation', 'char::is_ascii_control')
        a = c
        if byref:
            a = ('ref', eng.new_cell(st, c), ())
            if rr:
                a = ('ref', eng.new_cell(st, a), ())
        outs = eng.call_value(st, f, [a], ('bool',))
        res = []
        for s, v in outs:
            res.append((s, v))
        return res

    def pred_on(self, eng, st, f, c):
        outs = self.pred_paths(eng, st, f, c)
        if outs is None:
            return None
        vals = set()
        for s, b in outs:
            b = eng.simp(s, b)
            if b[0] != 'bool':
                return None
            vals.add(b[1])
        if len(vals) != 1:
            return None
        return vals.pop()

    # -- prefix knowledge
    def starts(self, eng, st, X, pat):
        """bool term for X.starts_with(pat)"""
        if X[0] == 'cat':
            X0 = X[1][0]
            if X0[0] == 'str' and X0[1]:
                X = X0
        if pat == ('str', ''):
            return TRUE
        ps = pat_seq(pat)
        if X[0] == 'str':
            if ps is not None:
                if len(X[1]) < len(ps):
                    return FALSE
                ok = True
                for ch, cl in zip(X[1], ps):
                    b = self.char_in(eng, st, ('char', ch), cl)
                    if b == FALSE:
                        return FALSE
                    if b != TRUE:
                        ok = False
                if ok:
                    return TRUE
        S, lo, hi = self.view(eng, st, X)
        anchor = (S, lo)
        cons = eng.simp(st, eng.eq_terms(st, self.len_atom(eng, X), INT(0)))
        if cons == TRUE and ps:
            return FALSE
        known = self.prefix_facts(st)
        if ps and len(ps) == 1:
            # what is left for the first character
            left = None
            for (anc, p, b) in known:
                if b == TRUE and anc == (S, lo, hi):
                    q = pat_seq(p)
                    if q:
                        left = q[0] if left is None else Cls.inter(left, q[0])
            if left is not None:
                for (anc, p, b) in known:
                    if b == FALSE and anc == (S, lo, hi):
                        q = pat_seq(p)
                        if q and len(q) == 1:
                            left = ('cls', left[1] - q[0][1], False if q[0][2] is True or q[0][2] == left[2] else left[2])
                if Cls.disjoint(left, ps[0]):
                    return FALSE
                if Cls.subset(left, ps[0]):
                    return TRUE
        for (anc, p, b) in known:
            if anc[0] == S and anc[1] == lo and (anc[2] == hi or (b == FALSE)):
                if b == TRUE:
                    r = pat_implies(p, pat)
                    if r is not None:
                        # a one-character view keeps only its first character
                        return ('bool', r)
                elif anc[2] == hi:
                    a, q = pat_seq(p), ps
                    if a is None or q is None:
                        if p == pat:
                            return FALSE
                    elif len(a) <= len(q) and all(Cls.subset(y, x) for x, y in zip(a, q)):
                        return FALSE
            elif anc[0] == S and anc[1] == lo and b == TRUE and ps is not None and len(ps) == 1:
                # different end: still the same first character when non-empty
                r = pat_implies(p, pat)
                if r is False:
                    return FALSE
                if r is True and eng.nonzero(st, eng.simp(st, self.len_atom(eng, X))):
                    return TRUE
        # what a text around this one is known not to contain
        if ps:
            for k, fv in st.facts.items():
                if k[0] == 'app' and k[1] == 'contains' and fv == ('is', FALSE) and k[3][0] == 'cls':
                    if Cls.subset(ps[0], k[3]) and (k[2] == X or self.within(eng, st, X, k[2])):
                        return FALSE
                    if len(ps) == 1 and Cls.subset(Cls.neg(k[3]), pat) and cons == FALSE and (k[2] == X or self.within(eng, st, X, k[2])):
                        return TRUE
        return eng.app(('bool',), 'starts', X, pat)

    def prefix_facts(self, st):
        out = []
        for k, v in st.facts.items():
            if k[0] == 'app' and k[1] == 'starts' and v[0] == 'is':
                X = k[2]
                S, lo, hi = (X[2], X[3], X[4]) if X[0] == 'app' and X[1] == 'sub' else (X, INT(0), ('app', 'len', X))
                out.append(((S, lo, hi), k[3], v[1]))
                if k[3][0] == 'str' and v[1] == TRUE:
                    # what follows within the known prefix
                    p, off = k[3][1], 0
                    for i in range(1, len(p)):
                        off += len(p[i - 1].encode())
                        out.append(((S, lin_add(lo, INT(off)), hi), ('str', p[i:]), TRUE))
        return out

    def set_starts(self, eng, st, X, pat, b):
        t = self.starts(eng, st, X, pat)
        return eng.assume(st, t, ('bool', b))

    def on_assume(self, eng, st, v, const):
        """consequences of a newly recorded fact; False when contradictory"""
        if v[0] != 'app':
            return True
        op = v[1]
        if op in ('len', 'wslen', 'findpos') and const[0] == 'int':
            # what is known about slices up to the end
            for k, fv in list(st.facts.items()):
                if k != v and k[0] == 'app' and k[1] in ('starts', 'contains', 'valid', 'is_ascii', 'ideq', 'idin') and fv[0] == 'is' and fv[1][0] == 'bool' and contains(k, v):
                    k2 = subst_norm(eng, st, k, v, const)
                    if k2 != k and k2[0] == 'app':
                        if not eng.assume(st, k2, fv[1]):
                            return False
        if op in ('starts', 'contains', 'valid', 'is_ascii') and const[0] == 'bool' and v[2][0] == 'app' and v[2][1] == 'sub':
            # the same fact about the text as it is written under what is known of the positions
            X2 = self.sub(eng, st, v[2][2], v[2][3], v[2][4])
            if X2 != v[2] and X2[0] != 'str' and not eng.assume(st, v[:2] + (X2,) + v[3:], const):
                return False
        if op == 'starts':
            X, pat = v[2], v[3]
            if const == TRUE:
                ln = eng.simp(st, self.len_atom(eng, X))
                if ln == INT(0):
                    return False
                need = len(pat[1].encode()) if pat[0] == 'str' else 1
                if ln[0] == 'int':
                    if ln[1] < need:
                        return False
                elif not eng.nonzero(st, ln) or need > 1:
                    if not eng.assume_not(st, ln, [INT(i) for i in range(need)]):
                        return False
                k = ('app', 'contains', X, pat)
                f = st.facts.get(k)
                if f == ('is', FALSE):
                    return False
                st.facts[k] = ('is', TRUE)
        elif op == 'findpos':
            X, pat = v[2], v[3]
            if const == INT(0):
                return self.set_starts(eng, st, X, pat, True)
        elif op == 'contains':
            X, pat = v[2], v[3]
            if const == FALSE and pat == NWS and X[0] != 'str':
                st.facts[('app', 'wslen', X)] = ('is', self.len_atom(eng, X))
            if const == FALSE and pat[0] == 'cls' and Cls.subset(Cls.WS, pat):
                # no blanks to skip here
                for t in blanks(st):
                    if t not in st.facts and (t[2] == X or self.within(eng, st, t[2], X)) and not eng.assume(st, t, INT(0)):
                        return False
            if const == FALSE and pat[0] == 'cls':
                # characters of the shared part would be in neither class: it is empty
                for k, fv in list(st.facts.items()):
                    if k[0] == 'app' and k[1] == 'contains' and fv == ('is', FALSE) and k[3][0] == 'cls' and k != v and Cls.union(k[3], pat)[1:] == (ASCII, True):
                        small = k[2] if k[2] == X or self.within(eng, st, k[2], X) else X if self.within(eng, st, X, k[2]) else None
                        if small is not None and not eng.assume(st, self.len_atom(eng, small), INT(0)):
                            return False
            if const == FALSE:
                return self.set_starts(eng, st, X, pat, False)
            if const == TRUE and X[0] != 'str':
                ln = eng.simp(st, self.len_atom(eng, X))
                if ln == INT(0) and pat != ('str', ''):
                    return False
                if ln[0] != 'int' and not eng.nonzero(st, ln):
                    return eng.assume_not(st, ln, [INT(0)])
        elif op == 'wslen':
            X = v[2]
            if const == INT(0):
                return self.set_starts(eng, st, X, Cls.WS, False)
        elif op == 'ideq':
            if const == TRUE:
                a, b = v[2], v[3]
                if a[0] == 'str':
                    a, b = b, a
                if b[0] == 'str':
                    if st.facts.get(('app', 'is_ascii', a)) == ('is', FALSE):
                        return False
                    st.facts[('app', 'is_ascii', a)] = ('is', TRUE)
                    for k, f in list(st.facts.items()):
                        if k[0] == 'app' and k[1] == 'ideq' and k != v and f == ('is', TRUE):
                            o = k[3] if k[2] == a else (k[2] if k[3] == a else None)
                            if o is not None and o[0] == 'str' and o[1].lower() != b[1].lower():
                                return False
            else:
                a, b = v[2], v[3]
                if a[0] == 'str':
                    a, b = b, a
                if b[0] == 'str':
                    return self.idin_left(st, a)
        elif op == 'idin':
            X = v[2]
            if const == TRUE:
                if self.is_ascii(eng, st, X) == FALSE:
                    return False
                st.facts[('app', 'is_ascii', X)] = ('is', TRUE)
            return self.idin_left(st, X)
        elif op == 'valid':
            if const == TRUE:
                return self.on_valid(eng, st, v[2])
        elif op == 'first':
            if const[0] == 'char':
                return self.set_starts(eng, st, v[2], Cls.of([const[1]]), True)
        elif op == 'byte' and const[0] == 'int' and const[1] < 128:
            r = self.byte_in(eng, st, v, [chr(const[1])])
            if r is not None and r != TRUE and (r == FALSE or not eng.assume(st, r, TRUE)):
                return False
        return True

    def on_zero(self, eng, st, v):
        """a linear term is known to be zero"""
        for k, n in lin_parts(v)[1]:
            if k[0] == 'app' and k[1] == 'wslen' and abs(n) == 1:
                d = lin_sub(self.len_atom(eng, k[2]), k)
                if d == (v if n < 0 else lin_sub(INT(0), v)):
                    # the blanks are all there is
                    c = self.contains(eng, st, k[2], NWS)
                    if c == TRUE or (c != FALSE and not eng.assume(st, c, FALSE)):
                        return False
        return True

    def idin_left(self, st, X):
        """some candidate must remain for every recorded table membership"""
        false, ins = set(), []
        for k, fv in st.facts.items():
            if k[0] != 'app' or fv[0] != 'is':
                continue
            if k[1] == 'ideq' and X in (k[2], k[3]) and fv[1] == FALSE:
                o = k[3] if k[2] == X else k[2]
                if o[0] == 'str':
                    false.add(o[1].lower())
            elif k[1] == 'idin' and k[2] == X:
                if fv[1] == TRUE:
                    ins.append(k[3])
                else:
                    false |= k[3]
        return all(s - false for s in ins)

    def on_assume_not(self, eng, st, v, consts):
        if v[0] != 'app':
            return True
        if v[1] == 'findpos' and INT(0) in consts:
            return self.set_starts(eng, st, v[2], v[3], False)
        if v[1] == 'wslen' and INT(0) in consts:
            return self.set_starts(eng, st, v[2], Cls.WS, True)
        if v[1] == 'byte':
            for c in consts:
                if c[0] == 'int' and c[1] < 128:
                    r = self.byte_in(eng, st, v, [chr(c[1])])
                    if r == TRUE or (r is not None and r != FALSE and not eng.assume(st, r, FALSE)):
                        return False
        if v[1] == 'sub':
            n = eng.simp(st, lin_sub(v[4], v[3]))
            for c in consts:
                if c[0] == 'str' and c[1] and n == INT(len(c[1].encode())):
                    tail = self.sub(eng, st, v[2], v[3], self.len_atom(eng, v[2]))
                    if not self.set_starts(eng, st, tail, Cls.of([c[1]]) if len(c[1]) == 1 else c, False):
                        return False
        if v[1] == 'first':
            for c in consts:
                if c[0] == 'char' and not self.set_starts(eng, st, v[2], Cls.of([c[1]]), False):
                    return False
        return True

    def simp_hook(self, eng, st, v):
        op = v[1]
        if op == 'starts':
            r = self.starts(eng, st, v[2], v[3])
            if r[0] == 'bool':
                return r
        elif op == 'contains':
            return self.contains(eng, st, v[2], v[3])
        elif op == 'ideq':
            return self.ideq(eng, st, v[2], v[3])
        elif op == 'idin':
            return self.idin(eng, st, v[2], v[3])
        elif op == 'valid':
            return self.valid(eng, st, v[2])
        elif op == 'cin':
            f = st.facts.get(v[2])
            if f and f[0] == 'is':
                return self.char_in(eng, st, f[1], v[3])
            if f and f[0] == 'not' and v[3][2] is False and all(('char', ch) in f[1] for ch in v[3][1]):
                return FALSE
        elif op == 'is_ascii':
            return self.is_ascii(eng, st, v[2])
        elif op == 'len_utf8':
            c = eng.simp(st, v[2])
            if c[0] == 'char':
                return INT(len(c[1].encode()))
            if self.char_in(eng, st, c, ('cls', ASCII, False)) == TRUE:
                return INT(1)
        return v

    def contains(self, eng, st, X, pat):
        if X[0] == 'str':
            ps = pat_seq(pat)
            if pat[0] == 'str':
                return ('bool', pat[1] in X[1])
            if pat[0] == 'cls':
                bs = [self.char_in(eng, st, ('char', c), pat) for c in X[1]]
                if TRUE in bs:
                    return TRUE
                if all(b == FALSE for b in bs):
                    return FALSE
        t = ('app', 'contains', X, pat)
        f = st.facts.get(t)
        if f and f[0] == 'is':
            return f[1]
        if pat[0] == 'cls':
            for k, fv in st.facts.items():
                if k[0] == 'app' and k[1] == 'contains' and k[3][0] == 'cls' and fv[0] == 'is':
                    if k[2] == X:
                        if fv[1] == TRUE and Cls.subset(k[3], pat):
                            return TRUE
                        if fv[1] == FALSE and Cls.subset(pat, k[3]):
                            return FALSE
                    elif fv[1] == FALSE and Cls.subset(pat, k[3]) and self.within(eng, st, X, k[2]):
                        return FALSE
                    elif fv[1] == TRUE and Cls.subset(k[3], pat) and self.within(eng, st, k[2], X):
                        return TRUE
        return eng.app(('bool',), 'contains', X, pat)

    def within(self, eng, st, X, Y):
        """X is a sub-slice of Y"""
        if X[0] == 'app' and X[1] == 'sub':
            S, a, b = self.view(eng, st, Y)
            if X[2] == S:
                return eng.nonneg(st, lin_sub(X[3], a)) and (eng.nonneg(st, lin_sub(b, X[4])) or X[4] == b)
        return False

    def is_ascii(self, eng, st, X):
        if X[0] == 'str':
            return ('bool', all(ord(c) < 128 for c in X[1]))
        f = st.facts.get(('app', 'is_ascii', X))
        if f and f[0] == 'is':
            return f[1]
        if X[0] == 'app' and X[1] in ('lower', 'upper'):
            return self.is_ascii(eng, st, X[2])
        if self.valid_text(eng, X) or st.facts.get(('app', 'valid', X)) == ('is', TRUE):
            return TRUE
        return eng.app(('bool',), 'is_ascii', X)

    FORBIDDEN = ('cls', frozenset('="\'/><&,;'), False)

    def is_valid_type(self, t):
        return t[0] == 'adt' and t[1] in self.valid_adts

    def valid_text(self, eng, X):
        """text of a value whose type only holds validated names"""
        if X[0] == 'app' and X[1] == 'text':
            return self.wraps_valid(eng, eng.typeof(X[2]))
        return False

    def wraps_valid(self, eng, t, d=0):
        if self.is_valid_type(t):
            return True
        if t[0] != 'adt' or d > 4 or not self.textlike(eng, t):
            return False
        a = eng.p.adts[t[1]]
        return all(self.wraps_valid(eng, eng.field_type(t, i, 0), d + 1) for i in range(len(a['variants'])))

    def valid(self, eng, st, X):
        if X[0] == 'str':
            x = X[1]
            return ('bool', bool(x) and x.isascii() and not any(c in WS_ASCII or c in self.FORBIDDEN[1] for c in x))
        if self.valid_text(eng, X):
            return TRUE
        f = st.facts.get(('app', 'valid', X))
        if f and f[0] == 'is':
            return f[1]
        if self.is_ascii(eng, st, X) == FALSE or eng.simp(st, self.len_atom(eng, X)) == INT(0):
            return FALSE
        if self.contains(eng, st, X, Cls.WS) == TRUE or self.contains(eng, st, X, self.FORBIDDEN) == TRUE:
            return FALSE
        return eng.app(('bool',), 'valid', X)

    def on_valid(self, eng, st, X):
        L = eng.simp(st, self.len_atom(eng, X))
        if L[0] == 'int':
            if L[1] == 0:
                return False
        elif not eng.nonzero(st, L) and not eng.assume_not(st, L, [INT(0)]):
            return False
        if self.is_ascii(eng, st, X) == FALSE:
            return False
        if X[0] != 'str':
            st.facts[('app', 'is_ascii', X)] = ('is', TRUE)
        for cl in (Cls.WS, self.FORBIDDEN):
            c = self.contains(eng, st, X, cl)
            if c == TRUE:
                return False
            if c != FALSE and not eng.assume(st, c, FALSE):
                return False
        return True

    @staticmethod
    def name_fact(k, v):
        """(text, names): the fact says that the text is one of the names; (None, None) otherwise"""
        if v == ('is', TRUE) and k[0] == 'app':
            if k[1] == 'idin':
                return k[2], k[3]
            if k[1] == 'ideq':
                for a, b in ((k[2], k[3]), (k[3], k[2])):
                    if a[0] == 'str' and b[0] != 'str':
                        return b, frozenset([a[1].lower()])
        return None, None

    def idin(self, eng, st, X, S):
        if X[0] == 'str':
            return ('bool', X[1].lower() in S and X[1].isascii())
        if self.is_ascii(eng, st, X) == FALSE:
            return FALSE
        false = set()
        for k, fv in st.facts.items():
            if k[0] == 'app' and k[1] == 'ideq' and X in (k[2], k[3]) and fv[0] == 'is':
                o = k[3] if k[2] == X else k[2]
                if o[0] == 'str':
                    if fv[1] == TRUE:
                        return ('bool', o[1].lower() in S)
                    false.add(o[1].lower())
            elif k[0] == 'app' and k[1] == 'idin' and k[2] == X and fv[0] == 'is':
                if fv[1] == TRUE and k[3] <= S:
                    return TRUE
                if fv[1] == TRUE and not (k[3] & S):
                    return FALSE
                if fv[1] == FALSE:
                    false |= k[3]
        if S <= false:
            return FALSE
        return eng.app(('bool',), 'idin', X, S)

    def ideq(self, eng, st, a, b):
        if a[0] == 'str' and b[0] == 'str':
            return ('bool', a[1].isascii() and b[1].isascii() and a[1].lower() == b[1].lower())
        for x in (a, b):
            if self.is_ascii(eng, st, x) == FALSE:
                return FALSE
            if eng.simp(st, self.len_atom(eng, x)) == INT(0):
                return eng.simp(st, eng.eq_terms(st, self.len_atom(eng, b if x is a else a), INT(0)))
        if a == b and self.is_ascii(eng, st, a) == TRUE:
            return TRUE
        if repr(a) > repr(b):
            a, b = b, a
        t = ('app', 'ideq', a, b)
        f = st.facts.get(t) or st.facts.get(('app', 'ideq', b, a))
        if f and f[0] == 'is':
            return f[1]
        if eng.env is not None:
            r = eng.env.ideq(eng, st, a, b)
            if r is not None:
                return r
        c, s = (a, b) if a[0] == 'str' else (b, a)
        if c[0] == 'str' and c[1] and self.starts(eng, st, s, Cls.of([c[1][0].lower(), c[1][0].upper()])) == FALSE:
            return FALSE
        if c[0] == 'str':
            for k, fv in st.facts.items():
                if k[0] == 'app' and k[1] == 'idin' and k[2] == s and fv[0] == 'is':
                    if (fv[1] == TRUE) != (c[1].lower() in k[3]):
                        return FALSE
            for k, fv in st.facts.items():
                if k[0] == 'app' and k[1] == 'ideq' and s in (k[2], k[3]):
                    o = k[3] if k[2] == s else k[2]
                    if o[0] == 'str':
                        if fv == ('is', TRUE):
                            return ('bool', o[1].lower() == c[1].lower())
                        if fv == ('is', FALSE) and o[1].lower() == c[1].lower():
                            return FALSE
        return eng.app(('bool',), 'ideq', a, b)

    def eqic(self, eng, st, a, b):
        """eq_ignore_ascii_case"""
        if a[0] == 'str' and b[0] == 'str':
            f = lambda s: ''.join(c.lower() if ord(c) < 128 else c for c in s)
            return ('bool', f(a[1]) == f(b[1]))
        if a == b:
            return TRUE
        aa, bb = self.is_ascii(eng, st, a), self.is_ascii(eng, st, b)
        if aa == TRUE or bb == TRUE:
            return self.ideq(eng, st, a, b)
        if repr(a) > repr(b):
            a, b = b, a
        return eng.app(('bool',), 'eqic', a, b)

    def str_eq(self, eng, st, a, b):
        a, b = self.norm_text(eng, a), self.norm_text(eng, b)
        if a == b:
            return TRUE
        if a[0] == 'str' and b[0] == 'str':
            return ('bool', a[1] == b[1])
        for x, y in ((a, b), (b, a)):
            if x[0] == 'app' and x[1] in ('lower', 'upper'):
                z = y
                if y[0] == 'str':
                    if y[1] != (y[1].lower() if x[1] == 'lower' else y[1].upper()) and y[1].isascii():
                        return FALSE
                elif y[0] == 'app' and y[1] == x[1]:
                    z = y[2]
                else:
                    continue
                return self.eqic(eng, st, x[2], z)
        for x, y in ((a, b), (b, a)):
            if y == ('str', ''):
                return eng.simp(st, eng.eq_terms(st, self.len_atom(eng, x), INT(0)))
        return eng.eq_terms(st, a, b)

    def norm_text(self, eng, v):
        t = self.text_root(eng, v)
        return t if t is not None else v

    def find(self, eng, st, X, pat):
        """[(state, pos or None)]"""
        out = []
        if X[0] == 'str' and pat_seq(pat) is not None:
            for i in range(len(X[1]) + 1):
                if self.starts(eng, st, ('str', X[1][i:]), pat) == TRUE:
                    return [(st, INT(len(X[1][:i].encode())))]
            return [(st, None)]
        ct = self.contains(eng, st, X, pat)
        sw = self.starts(eng, st, X, pat)
        if sw == TRUE:
            return [(st, INT(0))]
        for s, b in eng.split_bool(st, ct):
            if not b:
                out.append((s, None))
                continue
            p = self.fpos(eng, X, pat)
            if sw == FALSE:
                if not eng.assume_not(s, p, [INT(0)]):
                    continue
            tail = self.sub(eng, s, X, p, self.len_atom(eng, X))
            if not self.set_starts(eng, s, tail, pat, True):
                continue
            # nothing before the first occurrence matches
            head = self.sub(eng, s, X, INT(0), p)
            if head[0] == 'app' and pat[0] == 'cls':
                s.facts[('app', 'contains', head, pat)] = ('is', FALSE)
            # a nonempty prefix of X that lacks every terminator keeps X's first character facts
            out.append((s, p))
        return out

    def fpos(self, eng, X, pat):
        """position of the first match; the first non-blank is where the leading blanks end"""
        return eng.app(USZ, 'wslen', X) if pat == NWS else eng.app(USZ, 'findpos', X, pat)

    # -- loops that walk over a text character by character
    def derive_scan(self, eng, L, rets, others):
        if len(L.nodes) != 1 or not L.edges:
            return
        N = L.nodes[0]
        states = [s for s, _ in rets]
        for l in others.values():
            states.extend(l)
        states = [s for s in states if ('loop', L.id, 0) in s.trace]
        ws = []
        for c, v in N.mem.items():
            cursors(v, L.id, (), ws, c)
        accs = any(has_acc(v, L.id) for v in N.mem.values())
        done = set()
        for w, c, path in ws:
            if w in done:
                continue
            done.add(w)
            e0 = at_path(L.entry.mem.get(c), path, N.mem.get(c))
            if e0 is None:
                continue
            T, skip = None, None
            for (i, j, bk, base) in L.edges:
                b1 = at_path(bk.mem.get(c), path, N.mem.get(c))
                if b1 is None:
                    T = None
                    break
                t, k = self.scan_step(eng, bk, w, b1, N)
                if t is None or (T is not None and t != T):
                    T = None
                    break
                T = t
                skip = k if skip is None else Cls.union(skip, k)
            if T is None:
                continue
            X, H = T[2], T[4]
            stop = Cls.neg(skip)
            if stop[1:] == (frozenset(), False):
                continue
            whole = self.sub(eng, L.entry, X, e0, H)
            for n, s in enumerate(states):
                tail = self.sub(eng, s, X, w, H)
                if eng.simp(s, lin_sub(H, w)) == INT(0):
                    s.facts[('app', 'contains', whole, stop)] = ('is', FALSE)
                    if not accs:
                        self.replace_all(eng, s, rets, w, H)
                    continue
                head = eng.app(STR, 'sub', X, e0, w)
                s.facts[('app', 'contains', head, stop)] = ('is', FALSE)
                hit = [k for k, v in s.facts.items() if k[0] == 'app' and k[1] == 'starts' and k[2] == tail and v == ('is', TRUE) and k[3][0] == 'cls']
                if accs or not any(Cls.subset(k[3], stop) for k in hit):
                    continue
                fp = self.fpos(eng, whole, stop)
                self.replace_all(eng, s, rets, w, lin_add(e0, fp))
                s.facts[('app', 'contains', whole, stop)] = ('is', TRUE)
                eng.assume_not(s, self.len_atom(eng, whole), [INT(0)])

    def scan_step(self, eng, bk, w, b1, N):
        d = lin_sub(b1, w)
        T, skip = None, ('cls', ASCII, True)
        if d[0] == 'app' and d[1] == 'len_utf8' and d[2][0] == 'app' and d[2][1] == 'first':
            T = d[2][2]
        for k, v in bk.facts.items():
            if k[0] == 'app' and k[1] == 'starts' and k[3][0] == 'cls' and k[2][0] == 'app' and k[2][1] == 'sub' and k[2][3] == w:
                if T is None:
                    T = k[2]
                if k[2] != T:
                    continue
                if v[1][0] == 'bool':
                    skip = Cls.inter(skip, k[3] if v[1][1] else Cls.neg(k[3]))
        if T is None or not (T[0] == 'app' and T[1] == 'sub' and T[3] == w):
            return None, None
        if d == INT(1):
            if skip[2] is not False:
                return None, None
        elif not (d[0] == 'app' and d[1] == 'len_utf8' and d[2] == ('app', 'first', T)):
            return None, None
        return T, skip

    def replace_all(self, eng, s, rets, w, new):
        old = dict(s.mem)
        s.mem = {k: subst_norm(eng, s, v, w, new) for k, v in old.items()}
        fx = list(s.facts.items())
        s.facts = {k: v for k, v in fx if not contains(k, w)}
        for k, v in fx:
            if contains(k, w):
                k2 = subst_norm(eng, s, k, w, new)
                v2 = (v[0], subst_norm(eng, s, v[1], w, new)) if v[0] == 'is' else v
                if k2[0] in ('app', 'sym', 'lin') and s.facts.get(k2, v2) == v2:
                    if k2[0] == 'app' and k2[1] in ('starts', 'contains') and k2[2][0] == 'str':
                        continue
                    s.facts[k2] = v2
        s.trace = [subst_norm(eng, s, e, w, new) for e in s.trace]
        for n, (r, v) in enumerate(rets):
            if r is s:
                rets[n] = (r, subst_norm(eng, s, v, w, new))

    # -- slice boundaries
    def boundary(self, eng, st, X, off, d=0):
        off = eng.simp(st, off)
        L = eng.simp(st, self.len_atom(eng, X))
        if off == INT(0) or off == L:
            return True
        if X[0] == 'str':
            if off[0] == 'int':
                try:
                    X[1].encode()[:off[1]].decode()
                    return off[1] <= len(X[1].encode())
                except UnicodeDecodeError:
                    return False
        if d > 6:
            return False
        for k, v in st.facts.items():
            if v == ('is', TRUE) and k[0] == 'app' and self.same_text(eng, st, k[2], X) if len(k) > 3 and k[1] in ('ends', 'is_char_boundary') else False:
                if k[1] == 'is_char_boundary' and eng.simp(st, k[3]) == off:
                    return True
                n = eng.simp(st, lin_sub(L, off))
                ps = pat_seq(k[3]) if k[1] == 'ends' else None
                if ps and n[0] == 'int' and 0 <= n[1] <= len(ps) and all(x[2] is False for x in ps):
                    return True
        if st.facts.get(('app', 'is_ascii', X)) == ('is', TRUE) and eng.nonneg(st, eng.simp(st, lin_sub(L, off))) and eng.nonneg(st, off):
            return True
        c, t = lin_parts(off)
        for k, n in t:
            if n != 1 or k[0] != 'app':
                continue
            rest = lin_sub(off, k)
            if k[1] in ('findpos', 'wslen', 'rfindpos', 'trimlo', 'trimhi') and self.same_text(eng, st, k[2], X):
                tail = self.sub(eng, st, X, k, L)
                if rest == INT(0) or self.boundary(eng, st, tail, rest, d + 1):
                    return True
            if k[1] == 'len_utf8':
                ch = k[2]
                if ch[0] == 'app' and ch[1] == 'first' and self.same_text(eng, st, ch[2], X):
                    tail = self.sub(eng, st, X, k, L)
                    if rest == INT(0) or self.boundary(eng, st, tail, rest, d + 1):
                        return True
        for k, n in t:
            if n == 1 and k[0] == 'sym' and isinstance(k[1], tuple) and k[1][0] == 'pos' and self.same_text(eng, st, k[1][1], X):
                tail = self.sub(eng, st, X, k, L)
                rest = lin_sub(off, k)
                if rest == INT(0) or self.boundary(eng, st, tail, rest, d + 1):
                    return True
            if n == 1 and k in eng.wbound and self.same_text(eng, st, eng.wbound[k], X):
                rest = lin_sub(off, k)
                if rest == INT(0) or self.boundary(eng, st, self.sub(eng, st, X, k, L), rest, d + 1):
                    return True
            # length of a prefix known through starts_with(sym)
            if n == 1 and k[0] == 'app' and k[1] == 'len':
                sw = ('app', 'starts', X, k[2])
                if st.facts.get(sw) == ('is', TRUE) and lin_sub(off, k) == INT(0):
                    return True
        # fixed number of bytes covered by known ASCII prefix characters
        if off[0] == 'int':
            for (anc, p, b) in self.prefix_facts(st):
                S, lo, hi = self.view(eng, st, X)
                if b == TRUE and anc[0] == S and anc[1] == lo:
                    ps = pat_seq(p)
                    if ps and len(ps) >= off[1] and all(x[2] is False for x in ps):
                        return True
        # X itself is a suffix: offsets given relative to the underlying string
        if X[0] == 'app' and X[1] == 'sub':
            for k, n in t:
                if n == 1 and k[0] == 'app' and k[1] in ('findpos', 'wslen') and k[2][0] == 'app' and k[2][1] == 'sub' and k[2][2] == X[2]:
                    start = lin_sub(k[2][3], X[3])
                    if lin_add(start, k) == off and self.boundary(eng, st, X, start, d + 1):
                        return True
        return False

    def same_text(self, eng, st, a, b):
        if a == b:
            return True
        if a[0] == 'app' and a[1] == 'sub' and b[0] == 'app' and b[1] == 'sub' and a[2] == b[2]:
            return eng.simp(st, a[3]) == eng.simp(st, b[3]) and eng.simp(st, a[4]) == eng.simp(st, b[4])
        return False

    def slice_str(self, eng, st, c, X, lo, hi):
        L = self.len_atom(eng, X)
        ok = self.boundary(eng, st, X, lo) and self.boundary(eng, st, X, hi)
        if ok and lo != INT(0) and hi != L:
            d = eng.simp(st, lin_sub(hi, lo))
            ok = eng.nonneg(st, d)
        if not ok:
            self.note_panic(eng, st, c, 'string slice [%s..%s] may be out of bounds or off a character boundary' % (short(lo), short(hi)), ('slice', X, lo, hi))
        return [(st, self.sub(eng, st, X, lo, hi))]

    def note_panic(self, eng, st, c, kind, at=None):
        eng.panics.append({'fn': c.where, 'kind': kind, 'span': c.span, 'at': at, 'facts': dict(st.facts), 'trace': list(st.trace), 'stack': list(eng.stack)})

    def slice_range(self, eng, st, r, L):
        r = eng.strip(st, r)
        if r[0] == 'adt':
            n = r[1].split('::')[-1]
            if n == 'Range':
                return r[3][0], r[3][1]
            if n == 'RangeTo':
                return INT(0), r[3][0]
            if n == 'RangeFrom':
                return r[3][0], L
            if n == 'RangeFull':
                return INT(0), L
            if n == 'RangeToInclusive':
                return INT(0), lin_add(r[3][0], INT(1))
        return None

    # ------------------------------------------------------------------ sequences and iterators
    def as_seq(self, eng, st, v):
        """sequence view of a vector/slice/array value"""
        if v[0] == 'seq':
            return v
        if v[0] == 'arr':
            et = eng.typeof(v[1][0]) if v[1] else ('other', '?')
            return ('seq', tuple(('one', x) for x in v[1]), et)
        if v[0] == 'rc':
            return self.as_seq(eng, st, eng.load(st, v))
        if v[0] == 'box':
            return self.as_seq(eng, st, v[1])
        if is_sym(v):
            return ('seq', (('base', v),), eng.elem_type(v))
        raise AnalysisError('sequence expected, got %r' % (v[0],))

    def it_next(self, eng, st, it, c=None):
        """[(state, iterator, element or None)]"""
        k = it[0]
        if k == 'ref':
            inner = eng.read(st, it[1], it[2])
            out = []
            for s, i2, e in self.it_next(eng, st, inner, c):
                eng.write(s, it[1], it[2], i2)
                out.append((s, it, e))
            return out
        if k == 'box':
            return [(s, ('box', i2), e) for s, i2, e in self.it_next(eng, st, it[1], c)]
        if k != 'it':
            return self.user_next(eng, st, it, c)
        kind = it[1]
        if kind in ('slice', 'vec'):
            return self.seq_next(eng, st, it)
        if kind == 'chars':
            X = it[2]
            out = []
            for s, ch in self.first_char(eng, st, X):
                if ch is None:
                    out.append((s, it, None))
                else:
                    w = self.char_len(eng, s, ch)
                    out.append((s, ('it', 'chars', self.sub(eng, s, X, w, self.len_atom(eng, X))), ch))
            return out
        if kind == 'rchars':
            X = it[2]
            out = []
            for s, b in eng.split_bool(st, eng.app(('bool',), 'Eq', eng.simp(st, self.len_atom(eng, X)), INT(0))):
                if b:
                    out.append((s, it, None))
                else:
                    ch = eng.app(CHAR, 'last', X)
                    n = lin_sub(self.len_atom(eng, X), eng.app(USZ, 'len_utf8', ch))
                    out.append((s, ('it', 'rchars', self.sub(eng, s, X, INT(0), n)), ch))
            return out
        if kind == 'charidx':
            X, S = it[2], it[3]
            out = []
            for s, ch in self.first_char(eng, st, X):
                if ch is None:
                    out.append((s, it, None))
                else:
                    w = self.char_len(eng, s, ch)
                    pos = lin_sub(self.view(eng, s, X)[1], self.view(eng, s, S)[1])
                    out.append((s, ('it', 'charidx', self.sub(eng, s, X, w, self.len_atom(eng, X)), S), ('tup', (pos, ch))))
            return out
        if kind == 'midx':
            X, S, pat = it[2], it[3], it[4]
            out = []
            for s, q in self.find(eng, st, X, pat):
                if q is None:
                    out.append((s, ('it', 'empty'), None))
                    continue
                L = self.len_atom(eng, X)
                tail = self.sub(eng, s, X, q, L)
                n = self.pat_len(eng, pat, tail)
                end = lin_add(q, n)
                hit = self.sub(eng, s, X, q, end)
                if not self.set_starts(eng, s, hit, pat, True):
                    continue
                pos = lin_sub(lin_add(self.view(eng, s, X)[1], q), self.view(eng, s, S)[1])
                out.append((s, ('it', 'midx', self.sub(eng, s, X, end, L), S, pat), ('tup', (pos, hit))))
            return out
        if kind == 'lazy':
            # named virtual sequence: elements are fresh symbols with element facts from a generator
            return self.lazy_next(eng, st, it)
        if kind == 'map':
            out = []
            for s, i2, e in self.it_next(eng, st, it[2], c):
                if e is None:
                    out.append((s, ('it', 'map', i2, it[3]), None))
                else:
                    cell = eng.new_cell(s, it[3])
                    for s2, v in eng.call_value(s, ('ref', cell, ()), [e]):
                        f2 = s2.mem.get(cell, it[3])
                        out.append((s2, ('it', 'map', i2, f2), v))
            return out
        if kind in ('cloned', 'copied'):
            out = []
            for s, i2, e in self.it_next(eng, st, it[2], c):
                out.append((s, ('it', kind, i2), None if e is None else self.clone_of(eng, s, e)))
            return out
        if kind == 'enum':
            out = []
            for s, i2, e in self.it_next(eng, st, it[2], c):
                if e is None:
                    out.append((s, ('it', 'enum', i2, it[3]), None))
                else:
                    out.append((s, ('it', 'enum', i2, lin_add(it[3], INT(1))), ('tup', (it[3], e))))
            return out
        if kind in ('filter', 'filter_map', 'skip_while', 'take_while', 'map_while'):
            return self.filter_next(eng, st, it, kind, c)
        if kind == 'peek':
            if it[3][0] == 'adt':
                p = it[3][3][0]  # Some(Option)
                e = None if p[2] == 0 else p[3][0]
                return [(st, ('it', 'peek', it[2], ('none',)), e)]
            return [(s, ('it', 'peek', i2, ('none',)), e) for s, i2, e in self.it_next(eng, st, it[2], c)]
        if kind == 'chain':
            out = []
            if it[2] is not None and it[2] != ('done',):
                for s, i2, e in self.it_next(eng, st, it[2], c):
                    if e is None:
                        for s2, i3, e2 in self.it_next(eng, s, it[3], c):
                            out.append((s2, ('it', 'chain', ('done',), i3), e2))
                    else:
                        out.append((s, ('it', 'chain', i2, it[3]), e))
                return out
            return [(s, ('it', 'chain', ('done',), i3), e) for s, i3, e in self.it_next(eng, st, it[3], c)]
        if kind == 'once':
            if it[2] == ('done',):
                return [(st, it, None)]
            return [(st, ('it', 'once', ('done',)), it[2])]
        if kind == 'empty':
            return [(st, it, None)]
        if kind == 'fuse':
            return [(s, ('it', 'fuse', i2), e) for s, i2, e in self.it_next(eng, st, it[2], c)]
        if kind == 'skip':
            n = eng.simp(st, it[3])
            if n[0] == 'int':
                cur = [(st, it[2])]
                for _ in range(n[1]):
                    nxt = []
                    for s, i in cur:
                        nxt.extend((s2, i2) for s2, i2, e in self.it_next(eng, s, i, c))
                    cur = nxt
                out = []
                for s, i in cur:
                    out.extend((s2, ('it', 'skip', i2, INT(0)), e) for s2, i2, e in self.it_next(eng, s, i, c))
                return out
        if kind == 'take':
            n = eng.simp(st, it[3])
            if n[0] == 'int':
                if n[1] == 0:
                    return [(st, it, None)]
                return [(s, ('it', 'take', i2, INT(n[1] - 1)), e) for s, i2, e in self.it_next(eng, st, it[2], c)]
            out = []
            for s, b in eng.split_bool(st, eng.eq_terms(st, n, INT(0))):
                if b:
                    out.append((s, it, None))
                else:
                    out.extend((s2, ('it', 'take', i2, lin_sub(n, INT(1))), e) for s2, i2, e in self.it_next(eng, s, it[2], c))
            return out
        if kind == 'range':
            out = []
            lo, hi = eng.simp(st, it[2]), eng.simp(st, it[3])
            src, et = it[4:] or (None, None)
            for s, b in eng.split_bool(st, eng.cmp_terms(st, 'Lt', lo, hi)):
                if src is not None:
                    # the positions of a list stand for its elements
                    if s is st:
                        s = s.clone()
                    s.trace.append(('next', src, None, eng.sym(('el', src, lo), et) if b else None))
                if b:
                    s.trace.append(('count', None))
                    out.append((s, ('it', 'range', lin_add(lo, INT(1)), hi) + it[4:], lo))
                else:
                    out.append((s, it, None))
            return out
        if kind == 'zip':
            out = []
            for s, a2, e in self.it_next(eng, st, it[2], c):
                if e is None:
                    out.append((s, ('it', 'zip', a2, it[3]), None))
                    continue
                for s2, b2, g in self.it_next(eng, s, it[3], c):
                    out.append((s2, ('it', 'zip', a2, b2), None if g is None else ('tup', (e, g))))
            return out
        raise AnalysisError('iterator kind %s' % kind)

    def clone_of(self, eng, st, e):
        v = e
        if v[0] == 'ref':
            return eng.read(st, v[1], v[2])
        if is_sym(v):
            t = eng.typeof(v)
            if t[0] == 'ref' and t[2] != ('str',):
                return eng.load(st, v)
        return v

    def fresh_iter(self, st, it):
        """a new iterator over a list; noted in the trace, so that passes can be told apart"""
        bases = [g[1] if g[0] == 'base' else g for g in it[2][1] if g[0] != 'one']
        if bases:
            st = st.clone()
            for b in bases:
                st.trace.append(('iter', b))
        return [(st, it)]

    def seq_next(self, eng, st, it):
        """('it','slice'|'vec', seq): slice yields references, vec yields values"""
        seq = it[2]
        segs = seq[1]

        def out_elem(s, e):
            if it[1] == 'vec':
                return e
            if eng.is_text_term(e) or e[0] == 'str':
                return e
            return ('ref', eng.new_cell(s, e), ())
        if not segs:
            return [(st, it, None)]
        h = segs[0]
        if h[0] == 'one':
            s = st
            return [(s, ('it', it[1], ('seq', segs[1:]) + seq[2:]), out_elem(s, h[1]))]
        src = h[1] if h[0] == 'base' else h
        out = []
        # exhausted
        s0 = st.clone()
        s0.trace.append(('next', src, None, None))
        if self.untouched(eng, st, src):
            pass
        elif len(segs) == 1:
            out.append((s0, ('it', it[1], ('seq', ()) + seq[2:]), None))
        else:
            out.extend(self.seq_next(eng, s0, ('it', it[1], ('seq', segs[1:]) + seq[2:])))
        ln = eng.simp(st, eng.app(USZ, 'len', src))
        if ln == INT(0):
            return out
        s1 = st.clone()
        et = seq[2] if len(seq) > 2 else ('other', '?')
        e = eng.sym(('el', src, s1.fresh()), et)
        if not self.elem_facts(eng, s1, src, e):
            return out
        s1.trace.append(('next', src, None, e))
        out.append((s1, it, out_elem(s1, e)))
        return out

    def untouched(self, eng, st, src):
        """is this the first element of a list that is not empty"""
        if not (src[0] == 'app' and src[1] in ('split', 'rsplit')) or not eng.nonzero(st, eng.app(USZ, 'len', src)):
            return False
        for t in reversed(st.trace):
            if t[0] == 'iter' and t[1] == src:
                return True
            if t[0] == 'loop' or t[0] == 'next' and t[1] == src:
                return False
        return False

    def elem_facts(self, eng, st, src, e):
        """known properties of elements of derived sequences"""
        if src[0] == 'app':
            if src[1] == 'splitws':
                L = eng.app(USZ, 'len', e)
                if not eng.assume_not(st, L, [INT(0)]):
                    return False
                st.facts[('app', 'contains', e, Cls.WS)] = ('is', FALSE)
                if st.facts.get(('app', 'is_ascii', src[2])) == ('is', TRUE):
                    st.facts[('app', 'is_ascii', e)] = ('is', TRUE)
            elif src[1] == 'split':
                st.facts[('app', 'contains', e, src[3])] = ('is', FALSE)
                for k, v in list(st.facts.items()):
                    if k[0] == 'app' and k[1] == 'contains' and k[2] == src[2] and v == ('is', FALSE):
                        st.facts[('app', 'contains', e, k[3])] = v
            elif src[1] == 'midx':
                # e is a tuple (pos, &str)
                X, pat = src[2], src[3]
                p = eng.sym(('pos', X, e[1][2]), USZ)
                tail = self.sub(eng, st, X, p, self.len_atom(eng, X))
                if not self.set_starts(eng, st, tail, pat, True):
                    return False
                st.facts[eng.field_sym(e, 0, 0)] = ('is', p)
        return True

    def lazy_next(self, eng, st, it):
        raise AnalysisError('lazy iterator')

    def filter_next(self, eng, st, it, kind, c):
        f = it[3]
        cell = eng.new_cell(st, it[2], 'VI')
        fcell = eng.new_cell(st, f, 'VF')
        if kind == 'take_while' or kind == 'map_while':
            out = []
            for s, i2, e in self.it_next(eng, st, it[2], c):
                if e is None:
                    out.append((s, ('it', kind, i2, f), None))
                    continue
                for s2, ok, val in self.pred_elem(eng, s, fcell, e, kind):
                    if ok:
                        out.append((s2, ('it', kind, i2, s2.mem[fcell]), val))
                    else:
                        out.append((s2, ('it', 'empty'), None))
            return out
        if kind == 'skip_while' and len(it) > 4:
            return [(s, ('it', 'skip_while', i2, f, True), e) for s, i2, e in self.it_next(eng, st, it[2], c)]

        def step(s):
            rets, own = [], []
            for s2, i2, e in self.it_next(eng, s, s.mem[cell], c):
                s2.mem[cell] = i2
                if e is None:
                    rets.append((s2, ('none',)))
                    continue
                for s3, ok, val in self.pred_elem(eng, s2, fcell, e, kind):
                    if ok:
                        rets.append((s3, ('some', val)))
                    else:
                        own.append(s3)
            return rets, own, {}
        rets, _ = eng.summarise(st, ('iter', kind, c.span if c else '', c.where if c else ''), step)
        out = []
        for s, r in rets:
            i2 = s.mem.pop(cell)
            f2 = s.mem.pop(fcell)
            ni = ('it', kind, i2, f2) + ((True,) if kind == 'skip_while' else ())
            out.append((s, ni, r[1] if r[0] == 'some' else None))
        return out

    def pred_elem(self, eng, st, fcell, e, kind):
        """evaluate a filter closure: [(state, keep, value)]"""
        out = []
        if kind in ('filter_map', 'map_while'):
            for s, v in eng.call_value(st, ('ref', fcell, ()), [e]):
                for s2, k in eng.split_variant(s, v):
                    out.append((s2, k == 1, eng.payload(v, 1) if k == 1 else None))
            return out
        arg = e if eng.is_text_term(e) else ('ref', eng.new_cell(st, e), ())
        for s, v in eng.call_value(st, ('ref', fcell, ()), [arg], ('bool',)):
            for s2, b in eng.split_bool(s, v):
                out.append((s2, b if kind != 'skip_while' else not b, e))
        return out

    def first_char(self, eng, st, X):
        if X[0] == 'str':
            return [(st, ('char', X[1][0]) if X[1] else None)]
        if X[0] == 'cat' and X[1][0][0] == 'str' and X[1][0][1]:
            return [(st, ('char', X[1][0][1][0]))]
        out = []
        L = self.len_atom(eng, X)
        for s, b in eng.split_bool(st, eng.eq_terms(st, eng.simp(st, L), INT(0))):
            if b:
                out.append((s, None))
                continue
            # a known small first-character class is enumerated
            S, lo, hi = self.view(eng, s, X)
            cands = None
            for (anc, p, bb) in self.prefix_facts(s):
                if bb == TRUE and anc[0] == S and anc[1] == lo:
                    ps = pat_seq(p)
                    if ps and ps[0][2] is False and len(ps[0][1]) <= 16:
                        if cands is None or len(ps[0][1]) < len(cands):
                            cands = ps[0][1]
            if cands is not None:
                for ch in sorted(cands):
                    s2 = s.clone()
                    if self.set_starts(eng, s2, X, Cls.of([ch]), True):
                        out.append((s2, ('char', ch)))
            else:
                ch = eng.app(CHAR, 'first', X)
                f = s.facts.get(ch)
                out.append((s, f[1] if f and f[0] == 'is' else ch))
        return out

    def char_len(self, eng, st, ch):
        ch = eng.simp(st, ch)
        if ch[0] == 'char':
            return INT(len(ch[1].encode()))
        if self.char_in(eng, st, ch, ('cls', ASCII, False)) == TRUE:
            return INT(1)
        t = eng.app(USZ, 'len_utf8', ch)
        st.facts.setdefault(t, ('not', frozenset([INT(0)])))
        return t

    def user_next(self, eng, st, it, c):
        """next() on a local iterator type or an opaque parameter"""
        cell = eng.new_cell(st, it, 'UI')
        t = eng.typeof(it)
        hit = eng.p.find_impl('std::iter::Iterator', (t,)) if t[0] in ('adt',) else None
        res = []
        if hit is not None and 'next' in hit[0]['items']:
            im, b = hit
            k = im['items']['next']
            outs = None
            if k in eng.hooks:
                c2 = Call()
                c2.args, c2.span, c2.where = [('ref', cell, ())], '', k
                outs = eng.hooks[k](eng, st, c2)
            if outs is None:
                outs = eng.exec_fn(st, k, dict(b), [('ref', cell, ())])
        else:
            n = st.fresh()
            s0 = st.clone()
            s0.trace.append(('inext', it, n))
            item = eng.p.subst(('alias', 'std::iter::Iterator', 'Item', (t,)), {})
            if is_sym(it) and it[1][0] == 'usrit':
                pass
            item = eng.declared(item)
            v = eng.sym(('inext', it, n), ('adt', 'std::option::Option', (item,)))
            outs = [(s0, v)]
        for s, v in outs:
            for s2, k in eng.split_variant(s, v):
                i2 = s2.mem.get(cell, it)
                if hit is None and eng.env is not None:
                    s2 = s2.clone()
                    if eng.env.item(eng, s2, it, eng.payload(v, 1) if k == 1 else None) is False:
                        continue
                res.append((s2, i2, eng.payload(v, 1) if k == 1 else None))
        return res

    def vloop(self, eng, st, it, c, body, cells):
        """drive an iterator to exhaustion or break.  body(st, elem) -> [(st, brk or None)];
        returns [(st, ('end',) | ('brk', value))] with the iterator state stored in cells['it']"""
        cell = cells['it'] = eng.new_cell(st, it, 'VI')

        def step(s):
            rets, own = [], []
            for s2, i2, e in self.it_next(eng, s, s.mem[cell], c):
                s2.mem[cell] = i2
                if e is None:
                    rets.append((s2, ('end',)))
                    continue
                for s3, brk in body(s2, e):
                    if brk is None:
                        own.append(s3)
                    else:
                        rets.append((s3, ('brk', brk)))
            return rets, own, {}
        rets, _ = eng.summarise(st, ('iter', c.norm or c.method, c.span, c.where), step)
        return rets

    # ------------------------------------------------------------------ formatting
    def emit(self, eng, st, fmt, piece, rt=None):
        """write one piece to a formatter value; [(state, Result)]"""
        sink = self.sink_of(eng, st, fmt)
        OKV = eng.ok(UNIT, ('adt', 'std::fmt::Error', ()))
        if sink is not None:
            cell, path = sink
            cur = eng.read(st, cell, path)
            st = st.clone()
            eng.write(st, cell, path, mk_cat((self.norm_text(eng, cur), piece)))
            return [(st, OKV)]
        s1 = st.clone()
        if piece != ('str', ''):
            s1.trace.append(('w', piece))
        s2 = st.clone()
        s2.trace.append(('wfail', piece))
        e = eng.sym(('fmterr', s2.fresh()), ('adt', 'std::fmt::Error', ()))
        return [(s1, OKV), (s2, eng.err(e, ('tuple', ())))]

    def sink_of(self, eng, st, fmt):
        n = 0
        v = fmt
        while v[0] == 'ref' and n < 5:
            try:
                w = eng.read(st, v[1], v[2])
            except AnalysisError:
                return None
            if w[0] == 'sink':
                return w[1], w[2]
            if w[0] in ('str', 'cat') or (is_sym(w) and eng.typeof(w)[0] == 'adt' and eng.typeof(w)[1] in STRINGY):
                return v[1], v[2]
            v = w
            n += 1
        if v[0] == 'sink':
            return v[1], v[2]
        return None

    def args_pieces(self, eng, st, a):
        a = eng.strip(st, a)
        if a[0] == 'fmtargs':
            return a[1]
        raise AnalysisError('format arguments %r' % (a[0],))

    def make_args(self, eng, st, template, args):
        template = eng.strip(st, template)
        args = eng.strip(st, args)
        if args[0] != 'arr' or template[0] != 'arr':
            raise AnalysisError('format template')
        bs = [x[1] for x in template[1]]
        out = []
        i = 0
        ai = 0
        while i < len(bs):
            n = bs[i]
            i += 1
            if n == 0:
                break
            if n < 128:
                out.append(('str', bytes(bs[i:i + n]).decode()))
                i += n
            elif n == 128:
                ln = bs[i] | (bs[i + 1] << 8)
                i += 2
                out.append(('str', bytes(bs[i:i + ln]).decode()))
                i += ln
            else:
                spec = []
                if n & 1:
                    spec.append(('flags', tuple(bs[i:i + 4])))
                    i += 4
                if n & 2:
                    spec.append(('width', tuple(bs[i:i + 2])))
                    i += 2
                if n & 4:
                    spec.append(('prec', tuple(bs[i:i + 2])))
                    i += 2
                if n & 8:
                    ai = bs[i] | (bs[i + 1] << 8)
                    i += 2
                arg = args[1][ai]
                arg = eng.strip(st, arg) if arg[0] == 'ref' else arg
                out.append(('arg', arg, tuple(spec)))
                ai += 1
        return ('fmtargs', tuple(out))

    def is_int(self, eng, t, v):
        t = t if isinstance(t, tuple) else eng.typeof(v)
        while t[0] == 'ref':
            t = t[2]
        return t[0] == 'int'

    def write_args(self, eng, st, fmt, a):
        OKV = eng.ok(UNIT, ('adt', 'std::fmt::Error', ()))
        cur = [st]
        done = []
        for p in self.args_pieces(eng, st, a):
            nxt = []
            for s in cur:
                if p[0] == 'str':
                    outs = self.emit(eng, s, fmt, p)
                else:
                    arg = p[1]
                    if arg[0] != 'fmtarg':
                        raise AnalysisError('format argument')
                    if p[2] or arg[1] != 'Display' and not (arg[1] == 'Debug' and self.is_int(eng, arg[2], arg[3])):
                        outs = self.emit(eng, s, fmt, eng.app(STR, 'fmtspec', ('str', arg[1]), ('str', repr(p[2])), self.snapshot(eng, s, arg[3])))
                    else:
                        outs = self.display(eng, s, arg[2], arg[3], fmt)
                for s2, r in outs:
                    for s3, k in eng.split_variant(s2, r):
                        if k == 0:
                            nxt.append(s3)
                        else:
                            done.append((s3, r))
            cur = nxt
        return [(s, OKV) for s in cur] + done

    def snapshot(self, eng, st, v):
        v = eng.strip(st, v)
        t = self.text_root(eng, v)
        return t if t is not None else v

    def display(self, eng, st, t, ref, fmt, d=0):
        """Display::fmt of the value behind `ref` (static type t)"""
        while t[0] == 'ref':
            t2 = t[2]
            if t2 == ('str',):
                break
            ref2 = ref
            if ref[0] == 'ref':
                ref2 = eng.read(st, ref[1], ref[2])
            elif is_sym(ref) and eng.typeof(ref)[0] == 'ref':
                ref2 = eng.load(st, ref)
            ref, t = ref2, t2
        if t == ('str',) or (t[0] == 'ref' and t[2] == ('str',)) or (t[0] == 'adt' and t[1] in STRINGY):
            return self.emit(eng, st, fmt, self.as_str(eng, st, ref))
        if t[0] in ('int', 'char', 'bool', 'float'):
            v = eng.strip(st, ref)
            v = eng.simp(st, v)
            if v[0] == 'char':
                return self.emit(eng, st, fmt, ('str', v[1]))
            if v[0] == 'int':
                return self.emit(eng, st, fmt, ('str', str(v[1])))
            return self.emit(eng, st, fmt, eng.app(STR, 'display', v))
        if t[0] == 'adt' and t[1] in ('std::boxed::Box', 'std::rc::Rc', 'std::cell::RefMut', 'std::cell::Ref'):
            return self.display(eng, st, t[2][0], eng.strip(st, ref), fmt, d)
        if t[0] == 'adt' and t[1] == 'std::fmt::Arguments':
            return self.write_args(eng, st, fmt, ref)
        hit = eng.p.find_impl('std::fmt::Display', (t,)) if t[0] == 'adt' else None
        if hit is not None and 'fmt' in hit[0]['items']:
            if ref[0] != 'ref' and not (is_sym(ref) and eng.typeof(ref)[0] == 'ref'):
                ref = ('ref', eng.new_cell(st, ref), ())
            key = hit[0]['items']['fmt']
            if key in eng.hooks:
                c = Call()
                c.args = [ref, fmt]
                c.span = ''
                c.where = key
                r = eng.hooks[key](eng, st, c)
                if r is not None:
                    return r
            return eng.exec_fn(st, key, dict(hit[1]), [ref, fmt])
        return self.emit(eng, st, fmt, eng.app(STR, 'display', self.snapshot(eng, st, ref)))

    def to_text(self, eng, st, t, ref):
        """to_string(): [(state, str term)]"""
        cell = eng.new_cell(st, ('str', ''))
        sink = ('ref', eng.new_cell(st, ('sink', cell, ())), ())
        out = []
        for s, r in self.display(eng, st, t, ref, sink):
            out.append((s, s.mem[cell]))
        return out

    # ------------------------------------------------------------------ calls
    def opt(self, eng, outs, et=None):
        return [(s, eng.none(et) if e is None else eng.some(e)) for s, e in outs]

    def call(self, eng, st, c):
        m = getattr(self, 'c_' + c.norm.replace('::', '__').replace('[T]', 'slice').replace('[', '').replace(']', ''), None) if c.norm else None
        if m is not None:
            return m(eng, st, c)
        if c.norm:
            head, _, tail = c.norm.rpartition('::')
            if head == 'str':
                return self.str_method(eng, st, c, tail)
            if head in ('char', 'methods'):
                return self.char_method(eng, st, c, tail)
            if head in ('Vec', '[T]', 'slice'):
                return self.vec_method(eng, st, c, tail)
            if head in ('Tendril', 'String'):
                return self.string_method(eng, st, c, tail)
            if head in ('Option', 'Result'):
                return self.optres_method(eng, st, c, head, tail)
        return None

    # panics
    def _panic(self, eng, st, c, what):
        msg = ''
        for a in c.args:
            if a[0] == 'str':
                msg = a[1]
        self.note_panic(eng, st, c, what + (': ' + msg if msg else ''))
        return []

    def c_rt__begin_panic(self, eng, st, c):
        return self._panic(eng, st, c, 'panic')

    c_rt__panic_fmt = c_panicking__panic_fmt = c_panicking__panic = c_option__expect_failed = c_option__unwrap_failed = c_rt__begin_panic
    c_panicking__panic_explicit = c_panicking__panic_display = c_panicking__panic_str = c_panicking__unreachable_display = c_panicking__panic_nounwind = c_rt__begin_panic
    c_result__unwrap_failed = c_unwrap_failed__unwrap_failed_inner = c_panicking__assert_failed = c_panicking__panic_str_2015 = c_rt__panic_display = c_rt__begin_panic
    c_intrinsics__abort = c_process__abort = c_process__exit = c_rt__begin_panic

    def c_intrinsics__unreachable(self, eng, st, c):
        return []

    def c_intrinsics__discriminant_value(self, eng, st, c):
        v = eng.strip(st, c.args[0])
        if v[0] == 'adt':
            return [(st, INT(v[2]))]
        return [(st, eng.app(('int', 'isize'), 'discr', v))]

    # vec![..]: an uninitialised array behind a box is filled by one write and becomes a vector
    def c_Box__new_uninit(self, eng, st, c):
        return [(st, ('box', ('uninit',)))]

    def c_boxed__box_assume_init_into_vec_unsafe(self, eng, st, c):
        v = eng.strip(st, c.args[0])
        while v[0] == 'box':
            v = v[1]
        if v[0] != 'arr':
            return None
        s = self.as_seq(eng, st, v)
        return [(st, ('seq', s[1], c.ret[2][0] if c.ret[0] == 'adt' and c.ret[2] else s[2]))]

    def c_hint__must_use(self, eng, st, c):
        return [(st, c.args[0])]

    c_hint__black_box = c_hint__must_use

    def c_cmp__min(self, eng, st, c):
        x, y = eng.simp(st, eng.strip(st, c.args[0])), eng.simp(st, eng.strip(st, c.args[1]))
        if eng.typeof(x)[0] != 'int':
            return None
        out = []
        for s, b in eng.split_bool(st, eng.cmp_terms(st, 'Lt', x, y)):
            out.append((s, (x if b else y) if c.name.endswith('min') else (y if b else x)))
        return out

    c_cmp__max = c_cmp__min

    def c_mem__replace(self, eng, st, c):
        cell, path = eng.deref(st, c.args[0])
        old = eng.read(st, cell, path)
        st = st.clone()
        eng.write(st, cell, path, c.args[1])
        return [(st, old)]

    def c_mem__swap(self, eng, st, c):
        a, b = eng.deref(st, c.args[0]), eng.deref(st, c.args[1])
        x, y = eng.read(st, *a), eng.read(st, *b)
        st = st.clone()
        eng.write(st, a[0], a[1], y)
        eng.write(st, b[0], b[1], x)
        return [(st, UNIT)]

    def c_mem__take(self, eng, st, c):
        cell, path = eng.deref(st, c.args[0])
        old = eng.read(st, cell, path)
        t = eng.typeof(old)
        if t[0] == 'adt' and t[1] == 'std::option::Option':
            new = eng.none(t[2][0] if t[2] else None)
        elif self.text_root(eng, old) is not None and old[0] != 'adt':
            new = ('str', '')
        elif t[0] == 'adt' and t[1] == 'std::vec::Vec':
            new = ('seq', (), t[2][0] if t[2] else ('other', '?'))
        elif t[0] == 'int':
            new = INT(0)
        else:
            return None
        st = st.clone()
        eng.write(st, cell, path, new)
        return [(st, old)]

    def c_mem__drop(self, eng, st, c):
        return [(st, UNIT)]

    # fmt
    def c_Argument__new_display(self, eng, st, c):
        return [(st, ('fmtarg', 'Display', c.tys[0], c.args[0]))]

    def c_Argument__new_debug(self, eng, st, c):
        return [(st, ('fmtarg', 'Debug', c.tys[0], c.args[0]))]

    def c_Argument__new_lower_hex(self, eng, st, c):
        return [(st, ('fmtarg', 'LowerHex', c.tys[0], c.args[0]))]

    def c_Argument__new_octal(self, eng, st, c):
        return [(st, ('fmtarg', 'Octal', c.tys[0], c.args[0]))]

    def c_Argument__new_upper_hex(self, eng, st, c):
        return [(st, ('fmtarg', 'UpperHex', c.tys[0], c.args[0]))]

    def c_Arguments__from_str(self, eng, st, c):
        return [(st, ('fmtargs', (self.as_str(eng, st, c.args[0]),)))]

    c_Arguments__new_const = None

    def c_Arguments__new(self, eng, st, c):
        return [(st, self.make_args(eng, st, c.args[0], c.args[1]))]

    def c_Formatter__write_fmt(self, eng, st, c):
        return self.write_args(eng, st, c.args[0], c.args[1])

    def c_Formatter__write_str(self, eng, st, c):
        return self.emit(eng, st, c.args[0], self.as_str(eng, st, c.args[1]))

    def c_Formatter__pad(self, eng, st, c):
        return self.emit(eng, st, c.args[0], self.as_str(eng, st, c.args[1]))

    def flag(self, eng, st, c):
        return [(st, eng.app(c.ret, 'fmtflag', ('str', c.name.split('::')[-1] if hasattr(c, 'name') else '?')))]

    c_Formatter__alternate = flag
    c_Formatter__sign_plus = flag
    c_Formatter__width = flag
    c_Formatter__precision = flag

    def c_Formatter__write_char(self, eng, st, c):
        v = eng.simp(st, c.args[1])
        return self.emit(eng, st, c.args[0], ('str', v[1]) if v[0] == 'char' else eng.app(STR, 'display', v))

    def c_fmt__format(self, eng, st, c):
        cell = eng.new_cell(st, ('str', ''))
        sink = ('ref', eng.new_cell(st, ('sink', cell, ())), ())
        return [(s, s.mem[cell]) for s, r in self.write_args(eng, st, sink, c.args[0])]

    def c_fmt__write(self, eng, st, c):
        return self.write_args(eng, st, c.args[0], c.args[1])

    # smart pointers
    def c_Rc__new(self, eng, st, c):
        return [(st, ('rc', eng.new_cell(st, c.args[0], 'RC')))]

    def c_Rc__ptr_eq(self, eng, st, c):
        a, b = eng.strip(st, c.args[0]), eng.strip(st, c.args[1])
        return [(st, TRUE if a == b else eng.app(('bool',), 'ptr_eq', a, b))]

    c_ptr__eq = c_ptr__addr_eq = c_Rc__ptr_eq

    def c_Rc__make_mut(self, eng, st, c):
        cell, path = eng.deref(st, c.args[0])
        v = eng.read(st, cell, path)
        inner = eng.load(st, v)
        st = st.clone()
        nc = eng.new_cell(st, inner, 'RC')
        eng.write(st, cell, path, ('rc', nc))
        return [(st, ('ref', nc, ()))]

    def c_Rc__get_mut(self, eng, st, c):
        v = eng.strip(st, c.args[0]) if c.args[0][0] == 'ref' else c.args[0]
        out = []
        s0 = st.clone()
        s0.trace.append(('shared_mut', v))
        cell, path = eng.deref(s0, v)
        out.append((s0, eng.some(('ref', cell, path))))
        out.append((st.clone(), eng.none()))
        return out

    def c_Rc__try_unwrap(self, eng, st, c):
        v = c.args[0]
        inner = eng.load(st, v)
        return [(st.clone(), eng.ok(inner)), (st.clone(), eng.err(v))]

    def c_Rc__clone(self, eng, st, c):
        return [(st, self.clone_of(eng, st, c.args[0]))]

    def c_Box__new(self, eng, st, c):
        return [(st, ('box', c.args[0]))]

    def c_RefCell__new(self, eng, st, c):
        return [(st, c.args[0])]

    c_Cell__new = c_RefCell__new

    def c_RefCell__borrow_mut(self, eng, st, c):
        a = c.args[0]
        return [(st, a)]

    c_RefCell__borrow = c_RefCell__get_mut = c_RefCell__borrow_mut

    def c_RefCell__into_inner(self, eng, st, c):
        return [(st, c.args[0])]

    def c_ManuallyDrop__new(self, eng, st, c):
        return [(st, c.args[0])]

    def c_usize__max_value(self, eng, st, c):
        return [(st, INT(2 ** 64 - 1))]

    def c_usize__checked_sub(self, eng, st, c):
        a, b = c.args
        out = []
        for s, lt in eng.split_bool(st, eng.cmp_terms(st, 'Lt', eng.simp(st, a), eng.simp(st, b))):
            out.append((s, eng.none(USZ) if lt else eng.some(lin_sub(a, b), USZ)))
        return out

    def c_usize__saturating_sub(self, eng, st, c):
        a, b = c.args
        out = []
        for s, lt in eng.split_bool(st, eng.cmp_terms(st, 'Lt', eng.simp(st, a), eng.simp(st, b))):
            out.append((s, INT(0) if lt else eng.simp(s, lin_sub(a, b))))
        return out

    def c_usize__checked_add(self, eng, st, c):
        return [(st, eng.some(lin_add(c.args[0], c.args[1]), USZ))]

    def c_usize__saturating_add(self, eng, st, c):
        return [(st, lin_add(c.args[0], c.args[1]))]

    c_usize__wrapping_add = c_usize__saturating_add

    # paths and files
    def c_File__open(self, eng, st, c):
        s0 = st.clone()
        s0.trace.append(('open', self.snapshot(eng, st, c.args[0])))
        return [(s0, eng.sym(('open', s0.fresh()), c.ret))]

    def c_BufReader__new(self, eng, st, c):
        return [(st, eng.app(c.ret, 'bufreader', c.args[0]))]

    def c_BufReader__with_capacity(self, eng, st, c):
        eng.caps.setdefault((c.where, c.span, eng.simp(st, c.args[0])), dict(st.facts))
        # without any room the buffer is never filled: the content seems to be empty
        return [(s, eng.app(c.ret, 'bufreader0' if z else 'bufreader', c.args[1]))
                for s, z in eng.split_bool(st, eng.eq_terms(st, eng.simp(st, c.args[0]), INT(0)))]

    def c_Error__kind(self, eng, st, c):
        return [(st, eng.app(c.ret, 'iokind', eng.strip(st, c.args[0])))]

    def c_Path__to_path_buf(self, eng, st, c):
        return [(st, eng.app(c.ret, 'into', self.snapshot(eng, st, c.args[0])))]

    c_Path__to_owned = c_Path__to_path_buf

    def c_PathBuf__as_path(self, eng, st, c):
        return [(st, c.args[0])]

    def c_Utf8Error__valid_up_to(self, eng, st, c):
        return [(st, eng.app(USZ, 'validupto', eng.strip(st, c.args[0])))]

    def c_FromUtf8Error__utf8_error(self, eng, st, c):
        v = eng.strip(st, c.args[0])
        return [(st, eng.app(c.ret, *v[1:]))] if v[0] == 'app' and v[1] == 'utf8err' else None

    def c_String__from_utf8_lossy(self, eng, st, c):
        v = eng.strip(st, c.args[0])
        return [(s, eng.app(STR, 'utf8' if k else 'lossy', v)) for s, k in eng.split_bool(st, eng.app(('bool',), 'is_utf8', v))]

    def c_String__from_utf8(self, eng, st, c):
        return self.c_str__from_utf8(eng, st, c)

    def c_str__from_utf8(self, eng, st, c):
        v = eng.strip(st, c.args[0])
        t = c.ret
        b = eng.app(('bool',), 'is_utf8', v)
        out = []
        for s, k in eng.split_bool(st, b):
            if k:
                out.append((s, ('adt', 'std::result::Result', 0, (eng.app(STR, 'utf8', v),), t[2])))
            else:
                out.append((s, ('adt', 'std::result::Result', 1, (eng.app(t[2][1] if t[0] == 'adt' and len(t[2]) > 1 else ('other', '?'), 'utf8err', v),), t[2])))
        return out

    def c_Path__display(self, eng, st, c):
        return [(st, eng.app(c.ret, 'pathdisplay', self.snapshot(eng, st, c.args[0])))]

    # ------------------------------------------------------------------ str methods
    def str_method(self, eng, st, c, m):
        a = c.args
        if m in ('from_utf8', 'from_utf8_unchecked'):
            return None
        if not a:
            return None
        X = self.as_str(eng, st, a[0])
        L = self.len_atom(eng, X)
        B = lambda v: [(st, v)]
        if m == 'len':
            return B(eng.simp(st, L))
        if m == 'is_empty':
            return B(eng.eq_terms(st, eng.simp(st, L), INT(0)))
        if m == 'is_ascii':
            return B(self.is_ascii(eng, st, X))
        if m == 'eq_ignore_ascii_case':
            return B(self.eqic(eng, st, X, self.as_str(eng, st, a[1])))
        if m in ('to_ascii_lowercase', 'to_ascii_uppercase'):
            if X[0] == 'str':
                return B(('str', ''.join((ch.lower() if 'lower' in m else ch.upper()) if ord(ch) < 128 else ch for ch in X[1])))
            return B(eng.app(STR, 'lower' if 'lower' in m else 'upper', X))
        if m in ('to_lowercase', 'to_uppercase') and X[0] == 'str' and X[1].isascii():
            return B(('str', X[1].lower() if 'lower' in m else X[1].upper()))
        if m in ('to_lowercase', 'to_uppercase') and self.is_ascii(eng, st, X) == TRUE and X[0] != 'str':
            return B(eng.app(STR, 'lower' if 'lower' in m else 'upper', X))
        if m in ('to_lowercase', 'to_uppercase'):
            return B(eng.app(STR, 'u' + m, X))
        if m in ('to_string', 'to_owned', 'as_str', 'into_string', 'clone', 'into_boxed_str', 'as_ref'):
            return B(X)
        if m == 'as_ptr':
            return B(eng.app(('ptr', ('int', 'u8')), 'addr', X))
        if m in ('as_bytes', 'bytes', 'into_bytes'):
            return B(eng.app(('ref', False, ('slice', ('int', 'u8'))), 'bytes', X))
        if m == 'is_char_boundary':
            off = eng.simp(st, a[1])
            if self.boundary(eng, st, X, off):
                return B(TRUE)
            return B(eng.app(('bool',), 'is_char_boundary', X, off))
        if m == 'chars':
            return B(('it', 'chars', X))
        if m == 'char_indices':
            return B(('it', 'charidx', X, X))
        if m == 'find':
            p = self.pattern(eng, st, a[1])
            return self.opt(eng, self.find(eng, st, X, p), USZ)
        if m == 'contains':
            return B(self.contains(eng, st, X, self.pattern(eng, st, a[1])))
        if m == 'starts_with':
            return B(self.starts(eng, st, X, self.pattern(eng, st, a[1])))
        if m == 'ends_with':
            return B(eng.app(('bool',), 'ends', X, self.pattern(eng, st, a[1])))
        if m == 'rfind':
            p = self.pattern(eng, st, a[1])
            out = []
            for s, b in eng.split_bool(st, self.contains(eng, st, X, p)):
                if not b:
                    out.append((s, eng.none(USZ)))
                else:
                    q = eng.app(USZ, 'rfindpos', X, p)
                    tail = self.sub(eng, s, X, q, L)
                    if self.set_starts(eng, s, tail, p, True):
                        out.append((s, eng.some(q, USZ)))
            return out
        if m in ('trim_left', 'trim_start'):
            return B(self.trim_start(eng, st, X))
        if m in ('trim_left_matches', 'trim_start_matches'):
            p = self.pattern(eng, st, a[1])
            if p == Cls.WS:
                return B(self.trim_start(eng, st, X))
            return B(eng.app(STR, m, X, p))
        if m == 'trim':
            if X[0] == 'str':
                return B(('str', X[1].strip()))
            return B(eng.app(STR, 'trim', X))
        if m in ('trim_right', 'trim_end'):
            return B(eng.app(STR, 'trim_end', X))
        if m in ('trim_right_matches', 'trim_end_matches', 'trim_matches', 'replace', 'replacen', 'repeat'):
            return B(eng.app(STR, m, X, *[self.pattern(eng, st, x) for x in a[1:]]))
        if m in ('strip_prefix', 'strip_suffix'):
            p = self.pattern(eng, st, a[1])
            out = []
            bt = self.starts(eng, st, X, p) if m == 'strip_prefix' else eng.app(('bool',), 'ends', X, p)
            for s, b in eng.split_bool(st, bt):
                if not b:
                    out.append((s, eng.none(STR)))
                elif m == 'strip_prefix':
                    out.append((s, eng.some(self.sub(eng, s, X, self.pat_len(eng, p, X), L), STR)))
                else:
                    out.append((s, eng.some(self.sub(eng, s, X, INT(0), lin_sub(L, self.pat_len(eng, p, X))), STR)))
            return out
        if m in ('split_at',):
            return [(s, ('tup', (v, self.sub(eng, s, X, a[1], L)))) for s, v in self.slice_str(eng, st, c, X, INT(0), eng.simp(st, a[1]))]
        if m == 'get':
            r = self.slice_range(eng, st, a[1], L)
            if r is None:
                return None
            if self.boundary(eng, st, X, eng.simp(st, r[0])) and self.boundary(eng, st, X, eng.simp(st, r[1])):
                return B(eng.some(self.sub(eng, st, X, r[0], r[1]), STR))
            return [(st.clone(), eng.some(self.sub(eng, st, X, r[0], r[1]), STR)), (st.clone(), eng.none(STR))]
        if m == 'is_char_boundary':
            if self.boundary(eng, st, X, eng.simp(st, a[1])):
                return B(TRUE)
            return B(eng.app(('bool',), 'is_boundary', X, eng.simp(st, a[1])))
        if m == 'split_once':
            p = self.pattern(eng, st, a[1])
            out = []
            for s, pos in self.find(eng, st, X, p):
                if pos is None:
                    out.append((s, eng.none()))
                else:
                    n = self.pat_len(eng, p, X)
                    out.append((s, eng.some(('tup', (self.sub(eng, s, X, INT(0), pos), self.sub(eng, s, X, lin_add(pos, n), L))))))
            return out
        if m in ('split', 'split_whitespace', 'split_ascii_whitespace', 'rsplit', 'splitn', 'split_terminator', 'lines'):
            op = {'split_whitespace': 'splitws'}.get(m, m)
            extra = [self.pattern(eng, st, x) for x in a[1:]]
            base = eng.app(('adt', 'std::vec::Vec', (STR,)), op, X, *extra)
            if op in ('split', 'rsplit') and extra[-1:] != [('str', '')]:
                # at least one part, whatever the text is
                st = st.clone()
                if not eng.assume_not(st, eng.app(USZ, 'len', base), [INT(0)]):
                    return []
            return self.fresh_iter(st, ('it', 'vec', ('seq', (('base', base),), STR)))
        if m == 'matches':
            p = self.pattern(eng, st, a[1])
            return B(('it', 'matches', X, p)) if False else self.matches_iter(eng, st, X, p)
        if m == 'match_indices':
            p = self.pattern(eng, st, a[1])
            et = ('tuple', (USZ, STR))
            if p[0] in ('cls', 'str') and p != ('str', ''):
                return B(('it', 'midx', X, X, p))
            base = eng.app(('adt', 'std::vec::Vec', (et,)), 'midx', X, p)
            return B(('it', 'vec', ('seq', (('base', base),), et)))
        if m == 'parse':
            t = c.tys[0] if c.tys else ('other', '?')
            return self.parse_str(eng, st, c, X, t)
        return None

    def matches_iter(self, eng, st, X, p):
        out = []
        et = STR
        for s, b in eng.split_bool(st, self.contains(eng, st, X, p)):
            if not b:
                out.append((s, ('it', 'empty')))
                continue
            pos = eng.app(USZ, 'findpos', X, p)
            n = self.pat_len(eng, p, X)
            L = self.len_atom(eng, X)
            tail = self.sub(eng, s, X, pos, L)
            if not self.set_starts(eng, s, tail, p, True):
                continue
            first = self.sub(eng, s, X, pos, lin_add(pos, n))
            if p[0] == 'cls' or p[0] == 'str':
                self.set_starts(eng, s, first, p, True)
            base = eng.app(('adt', 'std::vec::Vec', (STR,)), 'matches_rest', X, p)
            out.append((s, ('it', 'vec', ('seq', (('one', first), ('base', base)), STR))))
        return out

    def pat_len(self, eng, p, X):
        if p[0] == 'cls':
            if p[2] is False:
                return INT(1)
            return eng.app(USZ, 'len_utf8', eng.app(CHAR, 'first', X))
        return self.len_atom(eng, p)

    def trim_start(self, eng, st, X):
        if X[0] == 'str':
            return ('str', X[1].lstrip())
        if self.starts(eng, st, X, Cls.WS) == FALSE:
            return X
        L = self.len_atom(eng, X)
        if eng.simp(st, L) == INT(0):
            return X
        w = eng.app(USZ, 'wslen', X)
        if self.contains(eng, st, X, NWS) == FALSE:
            st.facts[w] = ('is', L)
            return ('str', '')
        r = self.sub(eng, st, X, w, L)
        k = ('app', 'starts', r, Cls.WS)
        if st.facts.get(k) is None and r[0] == 'app' and r[1] == 'sub':
            st.facts[k] = ('is', FALSE)
        return r

    def parse_str(self, eng, st, c, X, t):
        hit = eng.p.find_impl('std::str::FromStr', (t,)) if t[0] == 'adt' else None
        if hit is not None and 'from_str' in hit[0]['items']:
            k = hit[0]['items']['from_str']
            if k in eng.hooks:
                r = eng.hooks[k](eng, st, c)
                if r is not None:
                    return r
            return eng.exec_fn(st, k, dict(hit[1]), [X])
        return [(st, eng.app(c.ret, 'parse', X))]

    # ------------------------------------------------------------------ char methods
    def char_method(self, eng, st, c, m):
        ch = eng.simp(st, eng.strip(st, c.args[0]))
        B = lambda v: [(st, v)]
        if m == 'is_whitespace':
            return B(self.char_in(eng, st, ch, Cls.WS))
        if m == 'len_utf8':
            return B(self.char_len(eng, st, ch))
        if m.startswith('is_ascii') or m in ('is_alphabetic', 'is_alphanumeric', 'is_numeric', 'is_control', 'is_lowercase', 'is_uppercase'):
            import string
            tab = {'is_ascii': ASCII, 'is_ascii_whitespace': frozenset('\t\n\x0c\r '), 'is_ascii_alphabetic': frozenset(string.ascii_letters),
                   'is_ascii_digit': frozenset(string.digits), 'is_ascii_alphanumeric': frozenset(string.ascii_letters + string.digits),
                   'is_ascii_lowercase': frozenset(string.ascii_lowercase), 'is_ascii_uppercase': frozenset(string.ascii_uppercase),
                   'is_ascii_punctuation': frozenset(string.punctuation), 'is_ascii_control': frozenset([chr(i) for i in range(32)] + [chr(127)]),
                   'is_ascii_graphic': frozenset(chr(i) for i in range(33, 127))}
            if m in tab:
                return B(self.char_in(eng, st, ch, ('cls', tab[m], False)))
            if ch[0] == 'char' and ord(ch[1]) < 128:
                f = {'is_alphabetic': str.isalpha, 'is_alphanumeric': str.isalnum, 'is_numeric': str.isnumeric, 'is_lowercase': str.islower, 'is_uppercase': str.isupper, 'is_control': lambda x: ord(x) < 32 or ord(x) == 127}[m]
                return B(('bool', f(ch[1])))
            return B(eng.app(('bool',), m, ch))
        if m == 'escape_default':
            return B(eng.app(c.ret, 'escape_default', ch))
        if m in ('to_ascii_lowercase', 'to_ascii_uppercase'):
            if ch[0] == 'char':
                return B(('char', (ch[1].lower() if 'lower' in m else ch[1].upper()) if ord(ch[1]) < 128 else ch[1]))
            return B(eng.app(CHAR, m, ch))
        if m == 'eq_ignore_ascii_case':
            o = eng.simp(st, eng.strip(st, c.args[1]))
            if ch[0] == 'char' and o[0] == 'char':
                return B(('bool', ch[1].lower() == o[1].lower()))
            return B(eng.app(('bool',), 'chareqic', ch, o))
        return None

    # ------------------------------------------------------------------ vec / slice methods
    def pop_last(self, eng, st, c):
        c2 = Call()
        for k in Call.__slots__:
            setattr(c2, k, getattr(c, k, None))
        return self.vec_method(eng, st, c2, 'pop')

    def vec_method(self, eng, st, c, m):
        a = c.args
        B = lambda v: [(st, v)]
        if m in ('with_capacity', 'reserve', 'reserve_exact') and a:
            eng.caps.setdefault((c.where, c.span, eng.simp(st, a[-1])), dict(st.facts))
        if m in ('new', 'with_capacity'):
            et = c.tys[0] if c.tys else ('other', '?')
            if c.ret[0] == 'adt' and c.ret[2]:
                et = c.ret[2][0]
            return B(('seq', (), et))
        if not a:
            return None
        if m in ('push', 'push_back'):
            cell, path = eng.deref(st, a[0])
            cur = self.as_seq(eng, st, eng.read(st, cell, path))
            st = st.clone()
            eng.write(st, cell, path, ('seq', cur[1] + (('one', a[1]),)) + cur[2:])
            return [(st, UNIT)]
        if m == 'insert':
            ix = eng.simp(st, a[1])
            cell, path = eng.deref(st, a[0])
            cur = self.as_seq(eng, st, eng.read(st, cell, path))
            if ix == INT(0):
                st = st.clone()
                eng.write(st, cell, path, ('seq', (('one', a[2]),) + cur[1]) + cur[2:])
                return [(st, UNIT)]
            if all(s[0] == 'one' for s in cur[1]) and ix[0] == 'int' and ix[1] <= len(cur[1]):
                st = st.clone()
                eng.write(st, cell, path, ('seq', cur[1][:ix[1]] + (('one', a[2]),) + cur[1][ix[1]:]) + cur[2:])
                return [(st, UNIT)]
            st = st.clone()
            self.note_panic(eng, st, c, 'Vec::insert index may exceed the length', ('range', cur, INT(0), ix))
            eng.write(st, cell, path, eng.app(eng.typeof(cur), 'vinsert', cur, ix, a[2]))
            return [(st, UNIT)]
        if m == 'pop':
            cell, path = eng.deref(st, a[0])
            cur = self.as_seq(eng, st, eng.read(st, cell, path))
            segs = cur[1]
            out = []
            if segs and segs[-1][0] == 'one':
                st = st.clone()
                eng.write(st, cell, path, ('seq', segs[:-1]) + cur[2:])
                return [(st, eng.some(segs[-1][1], cur[2] if len(cur) > 2 else None))]
            if not segs:
                return B(eng.none(cur[2] if len(cur) > 2 else None))
            src = segs[-1][1] if segs[-1][0] == 'base' else segs[-1]
            ln = eng.app(USZ, 'len', src)
            et = cur[2] if len(cur) > 2 else ('other', '?')
            for s, empty in eng.split_bool(st, eng.eq_terms(st, eng.simp(st, ln), INT(0))):
                if empty:
                    eng.write(s, cell, path, ('seq', segs[:-1]) + cur[2:])
                    if segs[:-1]:
                        c2 = Call()
                        for k in Call.__slots__:
                            setattr(c2, k, getattr(c, k, None))
                        out.extend(self.vec_method(eng, s, c2, 'pop'))
                    else:
                        out.append((s, eng.none(et)))
                else:
                    e = eng.sym(('last', src), et)
                    init = eng.app(('adt', 'std::vec::Vec', (et,)), 'init', src)
                    s = s.clone()
                    eng.write(s, cell, path, ('seq', segs[:-1] + (('base', init),)) + cur[2:])
                    out.append((s, eng.some(e, et)))
            return out
        if m in ('extend_from_slice', 'append', 'extend'):
            cell, path = eng.deref(st, a[0])
            cur = self.as_seq(eng, st, eng.read(st, cell, path))
            if m == 'append':
                oc = eng.deref(st, a[1])
                o = self.as_seq(eng, st, eng.read(st, *oc))
                st = st.clone()
                eng.write(st, oc[0], oc[1], ('seq', ()) + o[2:])
            else:
                o = self.as_seq(eng, st, eng.strip(st, a[1]))
                st = st.clone()
            eng.write(st, cell, path, ('seq', cur[1] + o[1]) + cur[2:])
            return [(st, UNIT)]
        if m in ('remove', 'swap_remove', 'split_off') and len(a) > 1:
            cell, path = eng.deref(st, a[0])
            cur = self.as_seq(eng, st, eng.read(st, cell, path))
            ix = eng.simp(st, a[1])
            ln = self.length(eng, st, cur)
            if c.ret[0] == 'adt' and c.ret[1].endswith('Option'):
                return None
            lt = eng.cmp_terms(st, 'Lt' if m != 'split_off' else 'Le', ix, ln)
            if eng.simp(st, lt) != TRUE:
                s2 = st.clone()
                if eng.assume(s2, lt, FALSE):
                    self.note_panic(eng, s2, c, 'Vec::%s index may be out of range' % m, ('index', cur, ix))
                st = st.clone()
                if not eng.assume(st, lt, TRUE):
                    return []
            segs = cur[1]
            if m == 'remove' and ix[0] == 'int' and len(segs) > ix[1] and all(x[0] == 'one' for x in segs[:ix[1] + 1]):
                st = st.clone()
                eng.write(st, cell, path, ('seq', segs[:ix[1]] + segs[ix[1] + 1:]) + cur[2:])
                return [(st, segs[ix[1]][1])]
            if m in ('remove', 'swap_remove') and eng.simp(st, lin_sub(ln, lin_add(ix, INT(1)))) == INT(0):
                return [(s, v[3][0]) for s, v in self.pop_last(eng, st, c) if v[0] == 'adt' and v[3]]
            return None
        if m in ('clear', 'truncate'):
            if m == 'truncate' and eng.simp(st, a[1]) != INT(0):
                cell, path = eng.deref(st, a[0])
                cur = self.as_seq(eng, st, eng.read(st, cell, path))
                if eng.simp(st, lin_sub(self.length(eng, st, cur), lin_add(a[1], INT(1)))) == INT(0):
                    return [(s, UNIT) for s, v in self.pop_last(eng, st, c)]
                return None
            cell, path = eng.deref(st, a[0])
            cur = self.as_seq(eng, st, eng.read(st, cell, path))
            st = st.clone()
            eng.write(st, cell, path, ('seq', ()) + cur[2:])
            return [(st, UNIT)]
        if m in ('reverse', 'dedup', 'sort', 'swap'):
            cell, path = eng.deref(st, a[0])
            cur = self.as_seq(eng, st, eng.read(st, cell, path))
            st = st.clone()
            t = cur[2] if len(cur) > 2 else ('other', '?')
            eng.write(st, cell, path, ('seq', (('base', eng.app(('adt', 'std::vec::Vec', (t,)), m, cur, *a[1:])),), t))
            return [(st, UNIT)]
        if m == 'len':
            return B(self.length(eng, st, a[0]))
        if m == 'is_empty':
            return B(eng.eq_terms(st, self.length(eng, st, a[0]), INT(0)))
        if m == 'iter':
            return self.fresh_iter(st, ('it', 'slice', self.as_seq(eng, st, eng.strip(st, a[0]))))
        if m in ('as_slice', 'as_ref', 'as_mut_slice', 'into_boxed_slice', 'shrink_to_fit', 'reserve'):
            return B(a[0] if m not in ('shrink_to_fit', 'reserve') else UNIT)
        if m in ('get', 'first', 'last'):
            v = eng.strip(st, a[0])
            seq = self.as_seq(eng, st, v)
            et = seq[2] if len(seq) > 2 else ('other', '?')
            if m == 'get' or m == 'first':
                ix = eng.simp(st, a[1]) if m == 'get' else INT(0)
                if ix[0] == 'adt':
                    return None
                segs = seq[1]
                if ix[0] == 'int' and all(s[0] == 'one' for s in segs[:ix[1] + 1]) and len(segs) > ix[1]:
                    return B(eng.some(eng.ref_to(st, segs[ix[1]][1])))
                if ix[0] == 'int' and all(s[0] == 'one' for s in segs):
                    return B(eng.none())
            else:
                segs = seq[1]
                if not segs:
                    return B(eng.none())
                if segs[-1][0] == 'one':
                    return B(eng.some(eng.ref_to(st, segs[-1][1])))
                ix = lin_sub(self.length(eng, st, v), INT(1))
            out = []
            ln = self.length(eng, st, v)
            bt = eng.cmp_terms(st, 'Lt', ix, ln) if m != 'last' else eng.neg(eng.eq_terms(st, ln, INT(0)))
            for s, b in eng.split_bool(st, bt):
                if b:
                    if m == 'last' and len(seq[1]) == 1 and seq[1][0][0] == 'base':
                        e = eng.sym(('last', seq[1][0][1]), et)
                    else:
                        e = eng.index_value(v, ix)
                    out.append((s, eng.some(eng.ref_to(s, e))))
                else:
                    out.append((s, eng.none()))
            return out
        if m == 'contains':
            x = eng.strip(st, a[1])
            v = eng.strip(st, a[0])
            if v[0] == 'arr' and all(e[0] == 'char' for e in v[1]):
                return B(self.char_in(eng, st, eng.simp(st, x), Cls.of([e[1] for e in v[1]])))
            if v[0] == 'arr' and all(e[0] == 'str' for e in v[1]):
                xs = self.as_str(eng, st, x)
                cur = [st]
                out = []
                for e in v[1]:
                    nx = []
                    for s in cur:
                        for s2, b in eng.split_bool(s, self.str_eq(eng, s, xs, e)):
                            if b:
                                out.append((s2, TRUE))
                            else:
                                nx.append(s2)
                    cur = nx
                return out + [(s, FALSE) for s in cur]
            return B(eng.app(('bool',), 'vcontains', v, self.norm_text(eng, x)))
        if m == 'to_vec' or m == 'into_vec' or m == 'to_owned' or m == 'clone':
            return B(self.as_seq(eng, st, eng.strip(st, a[0])))
        if m == 'split_last':
            return None
        if m == 'drain':
            cell, path = eng.deref(st, a[0])
            cur = self.as_seq(eng, st, eng.read(st, cell, path))
            r = eng.strip(st, a[1])
            if r[0] == 'adt' and r[1].endswith('RangeFull'):
                st = st.clone()
                eng.write(st, cell, path, ('seq', ()) + cur[2:])
                return self.fresh_iter(st, ('it', 'vec', cur))
            return None
        if m == 'retain':
            cell, path = eng.deref(st, a[0])
            cur = self.as_seq(eng, st, eng.read(st, cell, path))
            st = st.clone()
            acc = eng.new_cell(st, ('seq', ()) + cur[2:])
            fcell = eng.new_cell(st, a[1], 'VF')
            cells = {}

            def body(s, e):
                out = []
                r = ('ref', eng.new_cell(s, e), ())
                for s2, v in eng.call_value(s, ('ref', fcell, ()), [r], ('bool',)):
                    for s3, b in eng.split_bool(s2, v):
                        if b:
                            q = s3.mem[acc]
                            s3.mem[acc] = ('seq', q[1] + (('one', e),)) + q[2:]
                        out.append((s3, None))
                return out
            out = []
            st = self.fresh_iter(st, ('it', 'vec', cur))[0][0]
            for s, r in self.vloop(eng, st, ('it', 'vec', cur), c, body, cells):
                eng.write(s, cell, path, s.mem[acc])
                out.append((s, UNIT))
            return out
        return None

    # ------------------------------------------------------------------ owned strings
    def string_method(self, eng, st, c, m):
        a = c.args
        if m in ('with_capacity', 'reserve', 'reserve_exact') and a:
            eng.caps.setdefault((c.where, c.span, eng.simp(st, a[-1])), dict(st.facts))
        if m in ('new', 'with_capacity', 'from_char_x'):
            return [(st, ('str', ''))]
        if m in ('from', 'from_slice', 'from_str'):
            return [(st, self.as_str(eng, st, a[0]))]
        if m in ('push_slice', 'push_str', 'push', 'push_char', 'push_tendril', 'write_str', 'write_char'):
            cell, path = eng.deref(st, a[0])
            cur = self.as_str(eng, st, eng.read(st, cell, path))
            v = eng.simp(st, a[1])
            if v[0] == 'char':
                p = ('str', v[1])
            elif is_sym(v) and eng.typeof(v) == CHAR:
                p = self.char_piece(eng, st, v)
            else:
                p = self.as_str(eng, st, v)
            st = st.clone()
            eng.write(st, cell, path, self.cat(eng, st, cur, p))
            if m.startswith('write'):
                return [(st, eng.ok(UNIT))]
            return [(st, UNIT)]
        if m in ('clear',):
            cell, path = eng.deref(st, a[0])
            st = st.clone()
            eng.write(st, cell, path, ('str', ''))
            return [(st, UNIT)]
        if m in ('reserve', 'reserve_exact', 'shrink_to_fit'):
            return [(st, UNIT)]
        if m in ('pop', 'remove', 'insert', 'insert_str', 'truncate', 'split_off', 'pop_front', 'pop_back', 'retain', 'drain'):
            cell, path = eng.deref(st, a[0])
            cur = self.as_str(eng, st, eng.read(st, cell, path))
            st = st.clone()
            if m in ('remove', 'insert', 'insert_str', 'truncate', 'split_off') and len(a) > 1:
                off = eng.simp(st, a[1])
                ln = eng.simp(st, self.len_atom(eng, cur))
                if not (m == 'truncate' and eng.cmp_terms(st, 'Le', ln, off) == TRUE):
                    if not self.boundary(eng, st, cur, off):
                        self.note_panic(eng, st, c, 'String::%s offset %s may be out of bounds or off a character boundary' % (m, short(off)), ('slice', cur, off, off))
                    elif m == 'remove' and off == ln:
                        self.note_panic(eng, st, c, 'String::remove at the end', ('always',))
            eng.write(st, cell, path, eng.app(STR, 'string_' + m, cur, *[eng.strip(st, x) for x in a[1:]]))
            return [(st, eng.sym(('string_' + m, st.fresh()), c.ret))]
        return self.str_method(eng, st, c, m)

    def char_piece(self, eng, st, ch):
        """string consisting of one (symbolic) character: a one-character slice when its origin is known"""
        if ch[0] == 'app' and ch[1] == 'first':
            return self.sub(eng, st, ch[2], INT(0), self.char_len(eng, st, ch))
        return eng.app(STR, 'display', ch)

    def cat(self, eng, st, a, b):
        """concatenation, merging adjacent slices of the same string"""
        pa = list(str_pieces(a) or ())
        pb = list(str_pieces(b) or ())
        out = pa
        for p in pb:
            if out and out[-1][0] == 'app' and p[0] == 'app' and out[-1][1] == 'sub' and p[1] == 'sub' and out[-1][2] == p[2] \
                    and eng.simp(st, out[-1][4]) == eng.simp(st, p[3]):
                q = out.pop()
                S, lo, hi = q[2], q[3], p[4]
                if lo == INT(0) and hi == self.len_atom(eng, S):
                    out.append(S)
                else:
                    out.append(eng.app(STR, 'sub', S, lo, hi))
            else:
                out.append(p)
        return mk_cat(tuple(out))

    # ------------------------------------------------------------------ Option / Result fast paths not in the dump
    def optres_method(self, eng, st, c, head, m):
        a = c.args
        if m in ('copied', 'cloned') and head == 'Option':
            v = eng.strip(st, a[0]) if a[0][0] == 'ref' else a[0]
            out = []
            for s, k in eng.split_variant(st, v):
                out.append((s, eng.some(self.clone_of(eng, s, eng.payload(v, 1))) if k == 1 else eng.none()))
            return out
        return None

    # ------------------------------------------------------------------ traits
    def trait_call(self, eng, st, c, selft):
        tr, m = c.trait, c.method
        a = c.args
        B = lambda v: [(st, v)]
        if tr in ('std::ops::FnOnce', 'std::ops::FnMut', 'std::ops::Fn'):
            args = a[1]
            if args[0] == 'tup':
                args = list(args[1])
            elif is_sym(args):
                t = eng.typeof(args)
                args = [eng.get(args, (('f', i),)) for i in range(len(t[1]))] if t[0] == 'tuple' else [args]
            return eng.call_value(st, a[0], args, c.ret, c.span)
        if tr == 'std::iter::Iterator':
            return self.iter_method(eng, st, c, m)
        if tr in ('std::iter::DoubleEndedIterator', 'std::iter::ExactSizeIterator'):
            return self.iter_method(eng, st, c, m)
        if tr == 'std::iter::IntoIterator':
            return self.into_iter(eng, st, c, a[0])
        if tr == 'std::clone::Clone' and m == 'clone':
            return self.clone_call(eng, st, c, selft)
        if tr in ('std::borrow::ToOwned',) and m == 'to_owned':
            v = a[0]
            if self.text_root(eng, eng.strip(st, v)) is not None:
                return B(self.as_str(eng, st, v))
            return B(self.clone_of(eng, st, v))
        if tr == 'std::string::ToString' and m == 'to_string':
            return self.to_text(eng, st, selft, a[0])
        if tr in ('std::ops::Deref', 'std::ops::DerefMut', 'std::borrow::Borrow', 'std::borrow::BorrowMut'):
            return self.deref_call(eng, st, c, selft)
        if tr == 'std::convert::AsRef':
            return self.as_ref_call(eng, st, c, selft)
        if tr == 'std::ops::Index':
            return self.index_call(eng, st, c)
        if tr == 'std::cmp::PartialEq':
            return self.eq_call(eng, st, c, selft, m)
        if tr in ('std::cmp::PartialOrd', 'std::cmp::Ord'):
            x, y = eng.simp(st, eng.strip(st, a[0])), eng.simp(st, eng.strip(st, a[1])) if len(a) > 1 else None
            t = selft
            while t[0] == 'ref':
                t = t[2]
            if t[0] == 'int' and y is not None:
                if m == 'lt':
                    return B(eng.cmp_terms(st, 'Lt', x, y))
                if m == 'le':
                    return B(eng.cmp_terms(st, 'Le', x, y))
                if m == 'gt':
                    return B(eng.cmp_terms(st, 'Lt', y, x))
                if m == 'ge':
                    return B(eng.cmp_terms(st, 'Le', y, x))
                if m in ('min', 'max'):
                    out = []
                    for s, b in eng.split_bool(st, eng.cmp_terms(st, 'Lt', x, y)):
                        out.append((s, (x if b else y) if m == 'min' else (y if b else x)))
                    return out
                if m == 'cmp':
                    out = []
                    for s, b in eng.split_bool(st, eng.cmp_terms(st, 'Lt', x, y)):
                        if b:
                            out.append((s, ('adt', 'std::cmp::Ordering', 0, (), ())))
                        else:
                            for s2, b2 in eng.split_bool(s, eng.eq_terms(s, x, y)):
                                out.append((s2, ('adt', 'std::cmp::Ordering', 1 if b2 else 2, (), ())))
                    return out
            return None
        if tr == 'std::convert::Into' and m == 'into':
            return self.into_call(eng, st, c, a[0], c.tys)
        if tr == 'std::convert::From' and m == 'from':
            return self.from_call(eng, st, c, selft, a[0], c.tys)
        if tr == 'std::str::FromStr' and m == 'from_str':
            X = self.as_str(eng, st, a[0])
            if selft[0] == 'adt' and selft[1] in STRINGY:
                return B(eng.ok(X))
            return None
        if tr == 'std::fmt::Write':
            if m == 'write_fmt':
                return self.write_args(eng, st, a[0], a[1])
            if m == 'write_str':
                return self.emit(eng, st, a[0], self.as_str(eng, st, a[1]))
            if m == 'write_char':
                v = eng.simp(st, a[1])
                return self.emit(eng, st, a[0], ('str', v[1]) if v[0] == 'char' else self.char_piece(eng, st, v))
        if tr == 'std::fmt::Display' and m == 'fmt':
            t = selft
            if t[0] == 'param' or t[0] == 'alias':
                v = eng.strip(st, a[0])
                vt = eng.typeof(v)
                t = vt if vt[0] != 'other' else t
            return self.display(eng, st, t, a[0], a[1])
        if tr == 'std::fmt::Debug' and m == 'fmt':
            return B(eng.sym(('debugfmt', st.fresh()), c.ret))
        if tr == 'std::default::Default' and m == 'default':
            t = selft
            if t[0] == 'adt' and t[1] in STRINGY:
                return B(('str', ''))
            if t[0] == 'adt' and t[1] == 'std::vec::Vec':
                return B(('seq', (), t[2][0] if t[2] else ('other', '?')))
            if t[0] == 'int':
                return B(INT(0))
            if t[0] == 'bool':
                return B(FALSE)
            if t[0] == 'adt' and t[1] == 'std::option::Option':
                return B(eng.none(t[2][0] if t[2] else None))
            return None
        if tr == 'std::iter::FromIterator':
            return None
        if tr == 'std::iter::Extend' and m in ('extend', 'extend_one'):
            return self.extend(eng, st, c)
        if tr == 'std::ops::AddAssign' or tr == 'std::ops::Add':
            if tr == 'std::ops::AddAssign':
                cell, path = eng.deref(st, a[0])
                v = eng.read(st, cell, path)
                t = self.text_root(eng, v)
                if t is not None:
                    st = st.clone()
                    eng.write(st, cell, path, self.cat(eng, st, t, self.as_str(eng, st, a[1])))
                    return [(st, UNIT)]
                if eng.typeof(v)[0] == 'int':
                    st = st.clone()
                    eng.write(st, cell, path, eng.simp(st, lin_add(v, eng.strip(st, a[1]))))
                    return [(st, UNIT)]
            else:
                t = self.text_root(eng, a[0])
                if t is not None:
                    return B(self.cat(eng, st, t, self.as_str(eng, st, a[1])))
                x, y = eng.strip(st, a[0]), eng.strip(st, a[1])
                if eng.typeof(x)[0] == 'int':
                    return B(lin_add(x, y))
            return None
        if tr == 'std::io::BufRead' or tr == 'std::io::Read':
            return self.io_call(eng, st, c, m)
        return None

    def io_call(self, eng, st, c, m):
        a = c.args
        rd = eng.strip(st, a[0])
        s0 = st.clone()
        n = s0.fresh()
        if m == 'fill_buf':
            s0.trace.append(('fill', rd, n))
            t = c.ret
            ety = ('ref', False, ('slice', ('int', 'u8')))
            s1 = s0.clone()
            s1.trace[-1] = ('fill', rd, n, 'err')
            errt = t[2][1] if t[0] == 'adt' and len(t[2]) > 1 else ('other', '?')
            data = eng.app(('slice', ('int', 'u8')), 'chunk', rd, n)
            cell = ('CH', n)
            s0.mem[cell] = data
            if rd[0] == 'app' and rd[1] == 'bufreader0':
                eng.assume(s0, eng.eq_terms(s0, self.len_atom(eng, data), INT(0)), TRUE)
            return [(s0, ('adt', 'std::result::Result', 0, (('ref', cell, ()),), (ety, errt))),
                    (s1, ('adt', 'std::result::Result', 1, (eng.sym(('ioerr', n), errt),), (ety, errt)))]
        if m == 'consume':
            s0.trace.append(('consume', rd, eng.simp(st, a[1])))
            return [(s0, UNIT)]
        if m in ('read_to_string', 'read_to_end', 'read'):
            s1 = s0.clone()
            cell, path = eng.deref(s0, a[1])
            cur = eng.read(s0, cell, path)
            rest = eng.app(('adt', 'std::vec::Vec', (('int', 'u8'),)), 'rest', rd, n)
            errt = c.ret[2][1] if c.ret[0] == 'adt' and len(c.ret[2]) > 1 else ('other', '?')
            s0.trace.append((m, rd, n))
            s1.trace.append((m, rd, n, 'err'))
            if m == 'read_to_end':
                seq = self.as_seq(eng, s0, cur)
                eng.write(s0, cell, path, ('seq', seq[1] + (('base', rest),)) + seq[2:])
            elif m == 'read_to_string':
                ok = eng.app(('bool',), 'is_utf8', rest)
                eng.write(s0, cell, path, self.cat(eng, s0, self.as_str(eng, s0, cur), eng.app(STR, 'utf8', rest)))
            else:
                return None
            return [(s0, ('adt', 'std::result::Result', 0, (eng.app(USZ, 'len', rest),), c.ret[2] if c.ret[0] == 'adt' else ())),
                    (s1, ('adt', 'std::result::Result', 1, (eng.sym(('ioerr', n), errt),), c.ret[2] if c.ret[0] == 'adt' else ()))]
        if m == 'take' or m == 'by_ref' or m == 'bytes':
            return [(st, eng.app(c.ret, 'io_' + m, rd, *[eng.simp(st, x) for x in a[1:]]))]
        return None

    def clone_call(self, eng, st, c, selft):
        a0 = c.args[0]
        v = a0
        if v[0] == 'ref':
            v = eng.read(st, v[1], v[2])
        elif is_sym(v) and eng.typeof(v)[0] == 'ref' and eng.typeof(v)[2] != ('str',):
            v = eng.load(st, v)
        t = eng.typeof(v)
        if t[0] == 'adt' and t[1] in eng.p.adts and eng.p.adts[t[1]].get('local'):
            hit = eng.p.find_impl('std::clone::Clone', (t,))
            if hit is not None and not hit[0]['derived']:
                return None   # hand written: execute it
        return [(st, v)]

    def deref_call(self, eng, st, c, selft):
        a0 = c.args[0]
        # receiver is a reference to the smart pointer
        t = selft
        if t[0] == 'adt' and t[1] in eng.p.adts and eng.p.adts[t[1]].get('local'):
            return None
        v = a0
        if v[0] == 'ref':
            v = eng.read(st, v[1], v[2])
        elif is_sym(v) and eng.typeof(v)[0] == 'ref':
            if eng.typeof(v)[2] == ('str',):
                return [(st, v)]
            v = eng.load(st, v)
        if v[0] == 'adt' and v[1] in eng.p.adts and eng.p.adts[v[1]].get('local'):
            hit = eng.p.find_impl('std::ops::Deref', (eng.typeof(v),))
            if hit is not None and c.tys and t[0] not in ('adt',) :
                return None
        if self.is_ptr(eng, v):
            if v[0] == 'box':
                if a0[0] == 'ref':
                    return [(st, ('ref', a0[1], a0[2] + (('bx',),)))]
            cell, path = eng.deref(st, v)
            return [(st, ('ref', cell, path))]
        tt = self.text_root(eng, v)
        if tt is not None and v[0] != 'adt':
            return [(st, v)]
        if t[0] in ('param', 'alias', 'other') and v[0] == 'adt':
            return None
        if t[0] == 'param' and is_sym(v):
            vt = eng.typeof(v)
            if vt[0] == 'adt' and eng.p.find_impl('std::ops::Deref', (vt,)):
                return None
        # Vec, RefMut, PathBuf, ...: transparent
        return [(st, a0)]

    def is_ptr(self, eng, v):
        if v[0] in ('rc', 'box', 'ref'):
            return True
        if is_sym(v):
            t = eng.typeof(v)
            if t[0] == 'ref' and t[2] != ('str',):
                return True
            if t[0] == 'adt' and t[1] in ('std::rc::Rc', 'std::boxed::Box'):
                return True
        return False

    def as_ref_call(self, eng, st, c, selft):
        a0 = c.args[0]
        t = selft
        while t[0] == 'ref':
            t = t[2]
        if t == ('str',) or (t[0] == 'adt' and t[1] in STRINGY):
            return [(st, self.as_str(eng, st, a0))]
        if t[0] == 'adt' and t[1] in ('std::rc::Rc', 'std::boxed::Box', 'std::vec::Vec'):
            return self.deref_call(eng, st, c, t)
        if t[0] == 'param':
            want = c.tys[1] if len(c.tys) > 1 else None
            v = eng.strip(st, a0)
            tt = self.text_root(eng, v)
            if want == ('str',):
                if tt is not None:
                    return [(st, tt)]
                return [(st, eng.app(STR, 'as_ref', v))]
            return [(st, eng.app(('ref', False, want) if want else c.ret, 'as_ref', v))]
        return None

    def index_call(self, eng, st, c):
        v = eng.strip(st, c.args[0])
        t = self.text_root(eng, v)
        if t is not None:
            X = t
            r = self.slice_range(eng, st, c.args[1], self.len_atom(eng, X))
            if r is None:
                raise AnalysisError('string index')
            return self.slice_str(eng, st, c, X, eng.simp(st, r[0]), eng.simp(st, r[1]))
        ix = eng.simp(st, c.args[1])
        if ix[0] == 'adt':
            L = self.length(eng, st, v)
            r = self.slice_range(eng, st, ix, L)
            if r is None:
                raise AnalysisError('slice index')
            lo, hi = eng.simp(st, r[0]), eng.simp(st, r[1])
            if lo == INT(0) and hi == L:
                return [(st, eng.ref_to(st, v))]
            if v[0] in ('arr', 'seq') and lo[0] == 'int' and hi[0] == 'int':
                seq = self.as_seq(eng, st, v)
                if all(s[0] == 'one' for s in seq[1]) and lo[1] <= hi[1] <= len(seq[1]):
                    return [(st, eng.ref_to(st, ('seq', seq[1][lo[1]:hi[1]]) + seq[2:]))]
            okb = eng.cmp_terms(st, 'Le', lo, hi) == TRUE and eng.cmp_terms(st, 'Le', hi, L) == TRUE
            if not okb:
                self.note_panic(eng, st, c, 'slice index may be out of range', ('range', v, lo, hi))
            return [(st, eng.ref_to(st, eng.app(('slice', eng.elem_type(v)), 'vslice', v, lo, hi)))]
        L = self.length(eng, st, v)
        lt = eng.cmp_terms(st, 'Lt', ix, L)
        if eng.simp(st, lt) != TRUE:
            s2 = st.clone()
            if eng.assume(s2, lt, FALSE):
                self.note_panic(eng, s2, c, 'index may be out of range', ('index', v, ix))
            if not eng.assume(st, lt, TRUE):
                return []
        return [(st, eng.ref_to(st, eng.index_value(v, ix)))]

    def eq_call(self, eng, st, c, selft, m):
        x, y = eng.strip(st, c.args[0]), eng.strip(st, c.args[1])
        t = selft
        while t[0] == 'ref':
            t = t[2]
        res = None
        vt = eng.typeof(x)
        local = t[0] == 'adt' and t[1] in eng.p.adts and eng.p.adts[t[1]].get('local')
        vlocal = vt[0] == 'adt' and vt[1] in eng.p.adts and eng.p.adts[vt[1]].get('local')
        if local or vlocal:
            tt = t if local else vt
            hit = eng.p.find_impl('std::cmp::PartialEq', (tt, tt))
            if hit is None:
                hit = eng.p.find_impl('std::cmp::PartialEq', (tt,))
            if hit is not None and ('eq' in hit[0]['items']):
                k = hit[0]['items'].get('ne') if m == 'ne' else None
                rx = c.args[0]
                ry = c.args[1]
                # bring both to single references
                rx = self.single_ref(eng, st, rx)
                ry = self.single_ref(eng, st, ry)
                outs = eng.exec_fn(st, k or hit[0]['items']['eq'], dict(hit[1]), [rx, ry])
                if m == 'ne' and not k:
                    outs = [(s, eng.neg(v)) for s, v in outs]
                return outs
            return None
        a, b = self.text_root(eng, x), self.text_root(eng, y)
        if a is not None and b is not None:
            res = self.str_eq(eng, st, eng.simp(st, a), eng.simp(st, b))
        elif x[0] in ('rc', 'box') or y[0] in ('rc', 'box') or (t[0] == 'adt' and t[1] in ('std::rc::Rc', 'std::boxed::Box')):
            c2 = Call()
            for kx in Call.__slots__:
                setattr(c2, kx, getattr(c, kx, None))
            gx = eng.load(st, x) if x[0] != 'box' else x[1]
            gy = eng.load(st, y) if y[0] != 'box' else y[1]
            c2.args = [('ref', eng.new_cell(st, gx), ()), ('ref', eng.new_cell(st, gy), ())]
            it = t[2][0] if t[0] == 'adt' and t[2] else eng.typeof(gx)
            c2.tys = (it, it)
            return self.eq_call(eng, st, c2, it, m)
        elif vt[0] in ('int', 'bool', 'char'):
            res = eng.eq_terms(st, eng.simp(st, x), eng.simp(st, y))
        elif t[0] == 'adt' and t[1] == 'std::option::Option':
            return None
        else:
            if x == y:
                res = TRUE
            else:
                p, q = (x, y) if repr(x) <= repr(y) else (y, x)
                res = eng.app(('bool',), 'Eq', p, q)
        return [(st, eng.neg(res) if m == 'ne' else res)]

    def single_ref(self, eng, st, r):
        n = 0
        while r[0] == 'ref' and n < 5:
            v = eng.read(st, r[1], r[2])
            if v[0] == 'ref' or (is_sym(v) and eng.typeof(v)[0] == 'ref'):
                r = v
                n += 1
                continue
            break
        return r

    def into_call(self, eng, st, c, v, tys):
        src = tys[0] if tys else ('other', '?')
        dst = tys[1] if len(tys) > 1 else c.ret
        if src == dst:
            return [(st, v)]
        if self.stringy_t(dst) and self.text_root(eng, eng.strip(st, v)) is not None:
            return [(st, self.as_str(eng, st, v))]
        if src[0] in ('param', 'alias') and not (v[0] == 'adt'):
            return [(st, eng.app(dst, 'into', v))]
        st_ = eng.typeof(v) if src[0] in ('param', 'alias', 'other') else src
        if dst == st_:
            return [(st, v)]
        hit = eng.p.find_impl('std::convert::From', (dst, st_))
        if hit is not None and 'from' in hit[0]['items']:
            k = hit[0]['items']['from']
            if k in eng.hooks:
                c2 = c
                r = eng.hooks[k](eng, st, c)
                if r is not None:
                    return r
            return eng.exec_fn(st, k, dict(hit[1]), [v])
        hit = eng.p.find_impl('std::convert::Into', (st_, dst))
        if hit is not None and 'into' in hit[0]['items'] and hit[0]['items']['into'] in eng.p.fns and eng.p.fns[hit[0]['items']['into']]['local']:
            return eng.exec_fn(st, hit[0]['items']['into'], dict(hit[1]), [v])
        return [(st, eng.app(dst, 'into', self.snapshot(eng, st, v)))]

    def stringy_t(self, t):
        if t[0] == 'ref':
            t = t[2]
        return t == ('str',) or (t[0] == 'adt' and t[1] in STRINGY)

    def from_call(self, eng, st, c, selft, v, tys):
        if self.stringy_t(selft):
            tt = self.text_root(eng, eng.strip(st, v))
            if tt is not None:
                return [(st, tt)]
        src = tys[1] if len(tys) > 1 else eng.typeof(v)
        if src == selft:
            return [(st, v)]
        if selft[0] in ('param', 'alias'):
            return [(st, eng.app(c.ret, 'into', self.snapshot(eng, st, v)))]
        hit = eng.p.find_impl('std::convert::From', (selft, src))
        if hit is not None:
            return None
        if selft[0] == 'adt' and selft[1] in ('std::rc::Rc',):
            return [(st, ('rc', eng.new_cell(st, v, 'RC')))]
        if selft[0] == 'adt' and selft[1] == 'std::boxed::Box':
            return [(st, ('box', v))]
        return [(st, eng.app(selft, 'into', self.snapshot(eng, st, v)))]

    def into_iter(self, eng, st, c, v):
        if v[0] == 'it':
            return [(st, v)]
        if v[0] == 'seq' or v[0] == 'arr':
            return self.fresh_iter(st, ('it', 'vec', self.as_seq(eng, st, v)))
        if v[0] == 'ref':
            w = eng.read(st, v[1], v[2])
            if w[0] in ('it',):
                return [(st, v)]
            if w[0] == 'ref':
                return self.into_iter(eng, st, c, w)
            if w[0] in ('seq', 'arr'):
                return self.fresh_iter(st, ('it', 'slice', self.as_seq(eng, st, w)))
            if is_sym(w):
                t = eng.typeof(w)
                if t[0] in ('slice', 'array') or (t[0] == 'adt' and t[1] == 'std::vec::Vec'):
                    return self.fresh_iter(st, ('it', 'slice', self.as_seq(eng, st, w)))
            if w[0] == 'adt' or is_sym(w):
                return [(st, v)]
        if v[0] == 'adt' and v[1] == 'std::option::Option':
            if v[2] == 0:
                return [(st, ('it', 'empty'))]
            return [(st, ('it', 'once', v[3][0]))]
        if v[0] == 'adt' and v[1].split('::')[-1] == 'Range':
            lo, hi = eng.simp(st, v[3][0]), eng.simp(st, v[3][1])
            if lo == INT(0) and hi[0] == 'app' and hi[1] == 'len':
                et = eng.elem_type(hi[2])
                if et != ('other', '?'):
                    s = st.clone()
                    s.trace.append(('iter', hi[2]))
                    return [(s, ('it', 'range', lo, hi, hi[2], et))]
            return [(st, ('it', 'range', v[3][0], v[3][1]))]
        if v[0] == 'adt':
            return [(st, v)]
        if is_sym(v):
            t = eng.typeof(v)
            if t[0] == 'ref':
                return self.into_iter(eng, st, c, ('ref',) + eng.deref(st, v)) if t[2] != ('str',) else None
            if t[0] == 'adt' and t[1] == 'std::vec::Vec':
                return self.fresh_iter(st, ('it', 'vec', self.as_seq(eng, st, v)))
            return [(st, v)]
        return None

    def is_iter_val(self, eng, st, v):
        n = 0
        while v[0] == 'ref' and n < 4:
            v = eng.read(st, v[1], v[2])
            n += 1
        return v

    def iter_method(self, eng, st, c, m):
        a = c.args
        v0 = self.is_iter_val(eng, st, a[0])
        if m == 'next':
            if v0[0] != 'it':
                # local implementations execute through ordinary dispatch
                t = eng.typeof(v0)
                if v0[0] == 'adt' or (t[0] == 'adt' and eng.p.find_impl('std::iter::Iterator', (t,))):
                    return None
            out = []
            for s, i2, e in self.it_next(eng, st, a[0], c):
                et = None
                if c.ret[0] == 'adt' and c.ret[2]:
                    et = c.ret[2][0]
                out.append((s, eng.none(et) if e is None else eng.some(e, et)))
            return out
        it = a[0]
        W = lambda v: [(st, v)]
        if m in ('map', 'filter', 'filter_map', 'skip_while', 'take_while', 'map_while'):
            return W(('it', m, it, a[1]))
        if m in ('cloned', 'copied'):
            return W(('it', 'cloned', it))
        if m == 'enumerate':
            return W(('it', 'enum', it, INT(0)))
        if m == 'peekable':
            return W(('it', 'peek', it, ('none',)))
        if m == 'fuse':
            return W(('it', 'fuse', it))
        if m == 'by_ref':
            return W(a[0])
        if m in ('skip', 'take'):
            return W(('it', m, it, a[1]))
        if m in ('chain', 'zip'):
            r = self.into_iter(eng, st, c, a[1])
            return [(s, ('it', m, it, o)) for s, o in r]
        if m == 'rev':
            if v0[0] == 'it' and v0[1] in ('slice', 'vec'):
                q = v0[2]
                if all(s[0] == 'one' for s in q[1]):
                    return W(('it', v0[1], ('seq', tuple(reversed(q[1]))) + q[2:]))
                et = q[2] if len(q) > 2 else ('other', '?')
                return W(('it', v0[1], ('seq', (('base', eng.app(('adt', 'std::vec::Vec', (et,)), 'reverse', q)),), et)))
            if v0[0] == 'it' and v0[1] in ('chars', 'rchars'):
                return W(('it', 'rchars' if v0[1] == 'chars' else 'chars', v0[2]))
            return None
        if m == 'nth':
            n = eng.simp(st, a[1])
            if n[0] == 'int' and n[1] <= 3:
                cur = [(st, None)]
                out = []
                for i in range(n[1] + 1):
                    nx = []
                    for s, _ in cur:
                        for s2, i2, e in self.it_next(eng, s, a[0], c):
                            if e is None:
                                out.append((s2, eng.none()))
                            elif i == n[1]:
                                out.append((s2, eng.some(e)))
                            else:
                                nx.append((s2, e))
                    cur = nx
                return out
            return None
        # predicates over character sequences keep their set-level meaning
        if v0[0] == 'it' and v0[1] in ('chars', 'rchars') and m in ('any', 'all', 'find', 'count'):
            r = self.chars_query(eng, st, c, m, v0, a)
            if r is not None:
                return r
        if m == 'count':
            X = self.bytes_src(eng, st, v0)
            if X is not None:
                return W(self.len_atom(eng, X))
            if v0[0] == 'it' and v0[1] == 'filter':
                X = self.bytes_src(eng, st, v0[2])
                if X is not None:
                    r = self.count_bytes(eng, st, X, v0[3])
                    if r is not None:
                        return W(r)
        if v0[0] == 'it' and v0[1] == 'filter' and m == 'count' and self.is_iter_val(eng, st, v0[2])[0:2] == ('it', 'chars'):
            cls = self.classify(eng, st, v0[3])
            if cls is not None:
                X = self.is_iter_val(eng, st, v0[2])[2]
                return W(self.count_of(eng, st, X, cls))
        if m == 'count' and v0[0] == 'it' and v0[1] == 'vec' and v0[2][0] == 'seq' and len(v0[2][1]) == 2 and v0[2][1][1][0] == 'base':
            b = v0[2][1][1][1]
            if b[0] == 'app' and b[1] == 'matches_rest' and b[3][0] == 'cls':
                return W(self.count_of(eng, st, b[2], b[3]))
        if m == 'count' and v0[0] == 'it' and v0[1] == 'vec' and v0[2][0] == 'seq' and len(v0[2][1]) == 1 and v0[2][1][0][0] == 'base':
            b = v0[2][1][0][1]
            if b[0] == 'app' and b[1] in ('split', 'rsplit') and len(b) == 4 and b[3][0] == 'cls':
                return W(lin_add(self.count_of(eng, st, b[2], b[3]), INT(1)))
        if m == 'count' and v0[0] == 'it' and v0[1] == 'midx' and v0[2] == v0[3] and v0[4][0] == 'cls':
            return W(self.count_of(eng, st, v0[2], v0[4]))
        return self.consume(eng, st, c, m, it, a)

    def bytes_src(self, eng, st, v):
        """the text whose bytes, all of them, the iterator value yields"""
        v = self.is_iter_val(eng, st, v)
        if v[0] == 'app' and v[1] == 'bytes' and len(v) == 3:
            return v[2]
        if v[0] == 'it' and v[1] == 'cloned':
            return self.bytes_src(eng, st, v[2])
        if v[0] == 'it' and v[1] in ('slice', 'vec') and v[2][0] == 'seq' and len(v[2][1]) == 1 and v[2][1][0][0] == 'base':
            return self.bytes_src(eng, st, v[2][1][0][1])
        return None

    def count_bytes(self, eng, st, X, f):
        """bytes that satisfy a predicate: ASCII bytes stand for themselves; bytes that do not continue
        a character stand for the characters"""
        hit = [self.pred_on(eng, st, f, ('int', b)) for b in range(256)]
        if None in hit:
            return None
        if not any(hit[128:]):
            return self.count_of(eng, st, X, ('cls', frozenset(chr(b) for b in range(128) if hit[b]), False))
        if not any(hit[128:192]) and all(hit[192:245]):
            if all(hit[:128]):
                return eng.app(USZ, 'nchars', X)
            return self.count_of(eng, st, X, ('cls', frozenset(chr(b) for b in range(128) if hit[b]), True))
        return None

    def count_of(self, eng, st, X, cls):
        if X[0] == 'str':
            return INT(sum(1 for ch in X[1] if self.char_in(eng, st, ('char', ch), cls) == TRUE))
        t = eng.app(USZ, 'count', X, cls)
        ct = self.contains(eng, st, X, cls)
        if ct == FALSE:
            return INT(0)
        if ct == TRUE:
            st.facts.setdefault(t, ('not', frozenset([INT(0)])))
        return t

    def chars_query(self, eng, st, c, m, v0, a):
        X = v0[2]
        if m == 'count':
            if X[0] == 'str':
                return [(st, INT(len(X[1])))]
            return [(st, eng.app(USZ, 'nchars', X))]
        cls = self.classify(eng, st, a[1])
        if cls is None:
            return None

        def put(s, v):
            if a[0][0] == 'ref':
                eng.write(s, a[0][1], a[0][2], v)
        lost = ('it', v0[1], eng.app(STR, 'restafter', X, cls))
        if m == 'any':
            r = self.contains(eng, st, X, cls)
            put(st, lost)
            return [(st, r)]
        if m == 'all':
            r = eng.neg(self.contains(eng, st, X, Cls.neg(cls)))
            put(st, lost)
            return [(st, r)]
        if m == 'find' and v0[1] == 'rchars':
            out = []
            for s, b in eng.split_bool(st, self.contains(eng, st, X, cls)):
                put(s, lost if b else ('it', 'rchars', ('str', '')))
                out.append((s, eng.some(eng.app(CHAR, 'lastof', X, cls), CHAR) if b else eng.none(CHAR)))
            return out
        if m == 'find':
            out = []
            for s, p in self.find(eng, st, X, cls):
                if p is None:
                    put(s, ('it', 'chars', ('str', '')))
                    out.append((s, eng.none(CHAR)))
                else:
                    tail = self.sub(eng, s, X, p, self.len_atom(eng, X))
                    ch = eng.app(CHAR, 'first', tail)
                    put(s, ('it', 'chars', self.sub(eng, s, tail, self.char_len(eng, s, ch), self.len_atom(eng, tail))))
                    out.append((s, eng.some(eng.app(CHAR, 'first', tail), CHAR)))
            return out
        return None

    def consume(self, eng, st, c, m, it, a):
        st = st.clone()
        cells = {}
        # a by-reference receiver keeps its state in place
        byref = it[0] == 'ref'
        if m in ('find', 'any', 'all', 'position', 'find_map'):
            f = eng.new_cell(st, a[1], 'VF')
            n = eng.new_cell(st, INT(0), 'VN') if m == 'position' else None
            v0 = eng.strip(st, it)
            src = v0[2][1][0][1] if v0[:2] == ('it', 'slice') and len(v0[2][1]) == 1 and v0[2][1][0][0] == 'base' else None

            def body(s, e):
                out = []
                if m == 'find_map':
                    for s2, v in eng.call_value(s, ('ref', f, ()), [e]):
                        for s3, k in eng.split_variant(s2, v):
                            out.append((s3, v if k == 1 else None))
                    return out
                arg = e
                if m == 'find':
                    arg = e if eng.is_text_term(e) else ('ref', eng.new_cell(s, e), ())
                for s2, v in eng.call_value(s, ('ref', f, ()), [arg], ('bool',)):
                    for s3, b in eng.split_bool(s2, v):
                        hit = (not b) if m == 'all' else b
                        if hit:
                            if n and src is not None:
                                eng.assume(s3, eng.cmp_terms(s3, 'Lt', s3.mem[n], eng.app(USZ, 'len', src)), TRUE)
                            out.append((s3, {'find': e, 'any': TRUE, 'all': FALSE}.get(m, s3.mem.get(n))))
                        else:
                            if n:
                                s3.mem[n] = lin_add(s3.mem[n], INT(1))
                            out.append((s3, None))
                return out
            res = []
            for s, r in self.vloop(eng, st, it, c, body, cells):
                if r[0] == 'end':
                    v = {'find': eng.none(), 'any': FALSE, 'all': TRUE, 'position': eng.none(USZ), 'find_map': eng.none()}[m]
                else:
                    v = {'find': lambda: eng.some(r[1]), 'any': lambda: TRUE, 'all': lambda: FALSE, 'position': lambda: eng.some(r[1], USZ), 'find_map': lambda: r[1]}[m]()
                res.append((s, v))
            return res
        if m == 'collect':
            return self.collect(eng, st, c, it, c.tys[1] if len(c.tys) > 1 else c.ret)
        if m == 'count':
            n = eng.new_cell(st, INT(0), 'VN')

            def body(s, e):
                s.mem[n] = lin_add(s.mem[n], INT(1))
                return [(s, None)]
            return [(s, s.mem[n]) for s, r in self.vloop(eng, st, it, c, body, cells)]
        if m in ('for_each',):
            f = eng.new_cell(st, a[1], 'VF')

            def body(s, e):
                return [(s2, None) for s2, v in eng.call_value(s, ('ref', f, ()), [e])]
            return [(s, UNIT) for s, r in self.vloop(eng, st, it, c, body, cells)]
        if m == 'try_for_each':
            f = eng.new_cell(st, a[1], 'VF')

            def body(s, e):
                out = []
                for s2, v in eng.call_value(s, ('ref', f, ()), [e]):
                    for s3, k in eng.split_variant(s2, v):
                        bad = (k == 1) if eng.typeof(v)[1] == 'std::result::Result' else (k == 0)
                        out.append((s3, v if bad else None))
                return out
            isres = c.ret[0] == 'adt' and c.ret[1] == 'std::result::Result'
            return [(s, (eng.ok(UNIT) if isres else eng.some(UNIT)) if r[0] == 'end' else r[1]) for s, r in self.vloop(eng, st, it, c, body, cells)]
        if m in ('fold', 'try_fold'):
            f = eng.new_cell(st, a[2], 'VF')
            acc = eng.new_cell(st, a[1], 'VA')

            def body(s, e):
                out = []
                for s2, v in eng.call_value(s, ('ref', f, ()), [s.mem[acc], e]):
                    if m == 'fold':
                        s2.mem[acc] = v
                        out.append((s2, None))
                        continue
                    for s3, k in eng.split_variant(s2, v):
                        isres = eng.typeof(v)[1] == 'std::result::Result'
                        good = (k == 0) if isres else (k == 1)
                        if good:
                            s3.mem[acc] = eng.payload(v, k)
                            out.append((s3, None))
                        else:
                            out.append((s3, v))
                return out
            res = []
            isres = c.ret[0] == 'adt' and c.ret[1] == 'std::result::Result'
            for s, r in self.vloop(eng, st, it, c, body, cells):
                if r[0] == 'end':
                    v = s.mem[acc]
                    res.append((s, v if m == 'fold' else (eng.ok(v) if isres else eng.some(v))))
                else:
                    res.append((s, r[1]))
            return res
        if m == 'last':
            acc = eng.new_cell(st, eng.none(), 'VA')

            def body(s, e):
                s.mem[acc] = eng.some(e)
                return [(s, None)]
            return [(s, s.mem[acc]) for s, r in self.vloop(eng, st, it, c, body, cells)]
        if m == 'size_hint':
            return [(st, eng.sym(('size_hint', st.fresh()), c.ret))]
        if m == 'len':
            v0 = self.is_iter_val(eng, st, it)
            if v0[0] == 'it' and v0[1] in ('slice', 'vec'):
                return [(st, self.length(eng, st, v0[2]))]
        if m in ('eq',):
            return [(st, eng.app(('bool',), 'iter_eq', self.is_iter_val(eng, st, a[0]), self.is_iter_val(eng, st, a[1])))]
        return None

    def collect(self, eng, st, c, it, t):
        cells = {}
        if t[0] == 'adt' and t[1] in ('std::result::Result', 'std::option::Option'):
            inner = t[2][0] if t[2] else ('other', '?')
            isres = t[1] == 'std::result::Result'
        else:
            inner, isres = t, None
        strs = self.stringy_t(inner)
        et = inner[2][0] if inner[0] == 'adt' and inner[2] else ('other', '?')
        if et[0] in ('other', 'alias'):
            et = ('other', '?')
        acc = eng.new_cell(st, ('str', '') if strs else ('seq', (), et), 'VA')

        def add(s, e):
            if strs:
                if eng.simp(s, e)[0] == 'char':
                    p = ('str', eng.simp(s, e)[1])
                elif is_sym(e) and eng.typeof(e) == CHAR:
                    p = self.char_piece(eng, s, e)
                else:
                    p = self.as_str(eng, s, e)
                s.mem[acc] = self.cat(eng, s, s.mem[acc], p)
            else:
                q = s.mem[acc]
                s.mem[acc] = ('seq', q[1] + (('one', e),)) + q[2:]

        def body(s, e):
            if isres is None:
                add(s, e)
                return [(s, None)]
            out = []
            for s2, k in eng.split_variant(s, e):
                good = (k == 0) if isres else (k == 1)
                if good:
                    add(s2, eng.payload(e, k))
                    out.append((s2, None))
                else:
                    out.append((s2, ('bad', eng.payload(e, k) if isres else None)))
            return out
        res = []
        for s, r in self.vloop(eng, st, it, c, body, cells):
            if r[0] == 'end':
                v = s.mem[acc]
                if isres is True:
                    v = ('adt', t[1], 0, (v,), t[2])
                elif isres is False:
                    v = eng.some(v)
            else:
                v = ('adt', t[1], 1, (r[1][1],), t[2]) if isres else eng.none()
            res.append((s, v))
        return res

    def extend(self, eng, st, c):
        a = c.args
        cell, path = eng.deref(st, a[0])
        cur = eng.read(st, cell, path)
        st = st.clone()
        r = self.into_iter(eng, st, c, a[1])
        if r is None:
            return None
        out = []
        for s0, it in r:
            cells = {}

            def body(s, e):
                q = eng.read(s, cell, path)
                tt = self.text_root(eng, q)
                if tt is not None:
                    ee = eng.simp(s, eng.strip(s, e))
                    if ee[0] == 'char':
                        p = ('str', ee[1])
                    elif is_sym(ee) and eng.typeof(ee) == CHAR:
                        p = self.char_piece(eng, s, ee)
                    else:
                        p = self.as_str(eng, s, ee)
                    eng.write(s, cell, path, self.cat(eng, s, tt, p))
                else:
                    q = self.as_seq(eng, s, q)
                    eng.write(s, cell, path, ('seq', q[1] + (('one', e),)) + q[2:])
                return [(s, None)]
            out.extend((s, UNIT) for s, rr in self.vloop(eng, s0, it, c, body, cells))
        return out

    def c_Peekable__peek(self, eng, st, c):
        cell, path = eng.deref(st, c.args[0])
        it = eng.read(st, cell, path)
        if it[0] != 'it' or it[1] != 'peek':
            return [(st, eng.app(c.ret, 'peek', it))]
        if it[3][0] == 'adt':
            p = it[3][3][0]
            return [(st, eng.none() if p[2] == 0 else eng.some(eng.ref_to(st, p[3][0])))]
        out = []
        for s, i2, e in self.it_next(eng, st, it[2], c):
            p = eng.none() if e is None else eng.some(e)
            eng.write(s, cell, path, ('it', 'peek', i2, eng.some(p)))
            out.append((s, eng.none() if e is None else eng.some(eng.ref_to(s, e))))
        return out

    def c_iter__once(self, eng, st, c):
        return [(st, ('it', 'once', c.args[0]))]

    c_sources__once = c_iter__once
    c_once__once = c_iter__once

    def c_iter__empty(self, eng, st, c):
        return [(st, ('it', 'empty'))]

    # ------------------------------------------------------------------ fallbacks
    def derived(self, eng, st, c, key):
        im = eng.p.fn_impl[key]
        tr = im['trait'].split('::')[-1]
        if tr == 'Clone':
            return [(st, self.clone_of(eng, st, c.args[0]))]
        if tr == 'Debug':
            return [(st, eng.sym(('debugfmt', st.fresh()), c.ret))]
        return None

    def opaque_call(self, eng, st, f, args, rt, span):
        s = st.clone()
        n = s.fresh()
        fv = eng.strip(st, f)
        s.trace.append(('ucall', fv, tuple(args), n))
        res = eng.sym(('ucall', fv, n), rt)
        if eng.env is not None:
            return eng.env.ucall(eng, s, fv, args, res)
        return [(s, res)]

    def opaque_trait_call(self, eng, st, c):
        """method of a local trait on an opaque receiver"""
        recv = eng.strip(st, c.args[0]) if c.args else ('str', '?')
        s = st.clone()
        tr = c.trait.split('::')[-1]
        if eng.env is not None:
            r = eng.env.trait_call(eng, s, c, tr, recv)
            if r is not None:
                return r
        if tr == 'Stream' and c.method == 'next_event':
            n = s.fresh()
            s.trace.append(('pull', recv, n))
            v = eng.sym(('ev', recv, n), c.ret)
            return [(s, v)]
        if tr == 'Selector' and c.method == 'matches':
            ev = eng.strip(st, c.args[1])
            return [(s, eng.app(('bool',), 'matches', recv, ev))]
        if tr.startswith('Build'):
            n = s.fresh()
            s.trace.append(('build', recv, tuple(c.args[1:]), n, c.method))
            return [(s, eng.sym(('built', recv, n), c.ret))]
        return [(s, eng.app(c.ret, 'tcall', ('str', c.method), *[self.snapshot(eng, st, x) for x in c.args]))]

    def unknown_call(self, eng, st, c):
        """library routine without a model: havoc its result and everything it can write through"""
        name = c.name
        eng.unknown[name] = eng.unknown.get(name, 0) + 1
        s = st.clone()
        n = s.fresh()
        snap = []
        for x in c.args:
            try:
                snap.append(self.snapshot(eng, s, x))
            except AnalysisError:
                snap.append(('str', '?'))
        s.trace.append(('unknown', name, tuple(snap), n))
        muts = getattr(c, 'muts', ())
        for k, x in enumerate(c.args):
            if x[0] == 'ref' and x[1] in s.mem and x[1][0] != 'K':
                try:
                    old = eng.read(s, x[1], x[2])
                    if c.fn.get('name', '').endswith('_mut') or k < len(muts) and muts[k]:
                        eng.write(s, x[1], x[2], eng.sym(('havoc', n, 0), eng.typeof(old)))
                except AnalysisError:
                    pass
        return [(s, eng.sym(('unk', name, n), c.ret))]


def short(v, n=60):
    s = show(v)
    return s if len(s) <= n else s[:n] + '..'


def outside(x):
    """text of the non-ASCII part of a class"""
    if isinstance(x, tuple) and x[0] == 'set':
        return ''.join(sorted(x[1])).encode('unicode_escape').decode()
    if isinstance(x, tuple) and x[0] == 'neg':
        return 'not ' + outside(x[1])
    return str(x)


def show(v):
    try:
        return _show(v)
    except (IndexError, TypeError, AttributeError, ValueError):
        return repr(v)


def _show(v):
    if not isinstance(v, tuple):
        return str(v)
    if not v or not isinstance(v[0], str):
        return '(%s)' % ', '.join(show(x) for x in v)
    k = v[0]
    if k == 'int':
        return str(v[1])
    if k in ('str', 'char'):
        return repr(v[1])
    if k == 'bool':
        return str(v[1]).lower()
    if k == 'app':
        return '%s(%s)' % (v[1], ', '.join(show(x) for x in v[2:]))
    if k == 'sym':
        i = v[1]
        if isinstance(i, tuple) and i[0] == 'f':
            return '%s.%s%s' % (show(i[1]), ('v%d.' % i[2]) if i[2] else '', i[3])
        if isinstance(i, str):
            return i
        return show(i)
    if k == 'lin':
        return '+'.join(([str(v[1])] if v[1] else []) + ['%s%s' % ('' if n == 1 else '%d*' % n, show(a)) for a, n in v[2]])
    if k == 'adt':
        return '%s#%d{%s}' % (v[1].split('::')[-1], v[2], ', '.join(show(x) for x in v[3]))
    if k == 'tup':
        return '(%s)' % ', '.join(show(x) for x in v[1])
    if k == 'cat':
        return 'cat[%s]' % ', '.join(show(x) for x in v[1])
    if k == 'seq':
        return 'seq[%s]' % ', '.join(show(x[1]) if x[0] == 'one' else x[0] + ':' + show(x[1]) for x in v[1])
    if k == '#':
        return '#' + show(v[1])
    if k == 'cls':
        return 'cls{%s%s}' % (''.join(sorted(v[1]))[:40].replace('\n', '\\n'), '' if v[2] is False else '+' + outside(v[2]))
    return '%s(%s)' % (k, ', '.join(show(x) for x in v[1:]))
