"""P03: identifiers exist only for valid names, and rejections say why."""
from rules.common import *
from rules.p01 import texts_of

TECHNIQUE = 'character-class dataflow over all MIR paths of the validator; provenance of every constructed identifier'
LEVEL_NOTE = 'static analysis: every validator path and every construction site of the identifier type'
EXPLANATION = (
    'Each path of the name validator is analysed with a symbolic text: the character classes the path has established to be '
    'present or absent must entail exactly the documented verdict (empty, non-ASCII, first whitespace, first forbidden '
    'character, otherwise accepted unchanged). Every site that constructs an identifier must hold a text established to be '
    'valid on that path, and every conversion into an identifier must return the validated text unchanged or the '
    'validator\'s own error.')

FORB = Cls.of('="\'/><&,;')
WS_ = Cls.of(''.join(sorted(WS_ASCII)))
ASC = ('cls', ASCII, False)


def ascii_part(c):
    return ('cls', c[1], False)


class View(object):
    """what a path knows about one text"""

    def __init__(self, e, M, s, X):
        self.e, self.M, self.s, self.X = e, M, s, X
        self.hidden = []
        self.ascii = self.known(('app', 'is_ascii', X))
        ln = e.simp(s, M.len_atom(e, X))
        self.empty = True if ln == INT(0) else False if e.nonzero(s, ln) else None
        self.out = frozenset()
        self.yes = []
        for k, v in s.facts.items():
            if k[0] != 'app' or k[1] not in ('contains', 'starts'):
                continue
            if k[3][0] != 'cls':
                continue
            if k[1] == 'contains' and k[2] == X and v == ('is', FALSE):
                self.out |= k[3][1]
            elif v == ('is', TRUE) and contains(k[2], X):
                self.yes.append(k[3])
        if self.ascii is None and k_any(s, X):
            pass

    def known(self, k):
        f = self.s.facts.get(k)
        return None if f is None or f[0] != 'is' else f[1] == TRUE

    def has(self, C):
        if self.empty:
            return False
        if C[1] <= self.out:
            return False
        if any(y[1] and y[1] <= C[1] and y[2] is False or (self.ascii and y[1] <= C[1] and y[1]) for y in self.yes):
            return True
        return None

    def first(self, ch, C):
        """is ch the first character of X in class C: True / False / None"""
        e, M, s, X = self.e, self.M, self.s, self.X
        for k, v in s.facts.items():
            if not (k[0] == 'app' and k[1] == 'starts' and v == ('is', TRUE) and k[3][0] == 'cls'):
                continue
            T = k[2]
            if T == X:
                lo = INT(0)
            elif T[0] == 'app' and T[1] == 'sub' and T[2] == X:
                lo = T[3]
            else:
                continue
            if ch == ('app', 'first', T) or (ch[0] == 'char' and k[3][1] == frozenset([ch[1]]) and k[3][2] is False):
                # nothing of C before lo
                if lo == INT(0):
                    return True
                head = ('app', 'sub', X, INT(0), lo)
                for k2, v2 in s.facts.items():
                    if k2[0] == 'app' and k2[1] == 'contains' and k2[2] == head and v2 == ('is', FALSE) and k2[3][0] == 'cls' and C[1] <= k2[3][1]:
                        return True
                if lo[0] == 'app' and lo[1] == 'findpos' and lo[2] == X and lo[3][0] == 'cls' and C[1] <= lo[3][1]:
                    return True
        if ch[0] == 'app' and ch[1] in ('last', 'lastof'):
            return False
        if ch[0] == 'app' and ch[1] == 'first' and ch[2][0] == 'app' and ch[2][1] == 'sub' and ch[2][2] == X:
            lo = ch[2][3]
            if lo[0] == 'app' and lo[1] == 'findpos' and lo[2] == X and lo[3][0] == 'cls':
                return C[1] <= lo[3][1]
        return None

    def plain(self):
        """all facts are of the kinds understood here"""
        for k, v in self.s.facts.items():
            if k[0] == 'app' and k[1] in ('is_ascii', 'contains', 'starts', 'len', 'len_utf8', 'findpos', 'rfindpos', 'first', 'all', 'some'):
                continue
            if k[0] == 'lin':
                continue
            return False
        return not any(x[0] not in ('loop', 'next', 'iter') for x in self.s.trace)


def k_any(s, X):
    return False


def run(ctx, rep):
    A = Ana(ctx)
    p, S = A.p, A.s
    if S.ident_ty is None:
        rep.missing('construct', 'identifier type (FromStr with a character-carrying error)')
        return
    if not S.validators:
        rep.missing('validate', 'validation function')
    for k in sorted(S.validators):
        guarded(rep, 'validate', A.name(k), validator, A, rep, k)
    rep.floor('validate', 5)
    constructions(A, rep)
    rep.floor('construct', 2)
    conversions(A, rep)
    rep.floor('convert', 6)
    rep.assume('str primitives (is_ascii, find, matches, char::is_whitespace) behave as documented')


def variant_name(p, v):
    return p.adts[v[1]]['variants'][v[2]]['name']


def validator(A, rep, k):
    e, M = A.new(validator=False)
    nm = A.name(k)
    args, outs = A.run(e, k)
    X = M.as_str(e, St(), args[0])
    seen = set()
    for s, v in outs:
        for s2, var in e.split_variant(s, v):
            pay = e.payload(v, var) if v[0] != 'adt' else v[3][0]
            w = View(e, M, s2, X)
            if var == 0:
                seen.add('accept')
                verdict_accept(rep, nm, w, pay, X, e, M)
            else:
                if pay[0] != 'adt':
                    rep.undecided('validate', nm, 'error value %s' % show(pay))
                    continue
                vn = variant_name(A.p, pay)
                seen.add(vn)
                verdict_reject(rep, nm, w, vn, pay)
    for want in ('accept', 'Empty', 'NotAscii', 'Whitespace', 'Forbidden'):
        if want not in seen:
            rep.bad('validate', nm + ' ' + want, 'no path of the validator gives the verdict %r' % want)


def say(rep, nm, w, ok, what):
    """ok: True/False/None"""
    if ok is True:
        rep.ok('validate', nm, what)
    elif ok is False or w.plain():
        rep.bad('validate', '%s %s' % (nm, what.split(':')[0]), '%s\n  not entailed by the path where: %s' % (what, facts_text(w.s, 30)))
    else:
        rep.undecided('validate', nm, '%s not established where %s' % (what, facts_text(w.s)))


def both(*xs):
    return False if any(x is False for x in xs) else None if any(x is None for x in xs) else True


def no(x):
    return None if x is None else not x


def verdict_accept(rep, nm, w, pay, X, e, M):
    same = pay == UNIT or e.simp(w.s, pay) == X or M.text_root(e, pay) == X
    r = both(no(w.empty), w.ascii, no(w.has(WS_)), no(w.has(FORB)), bool(same))
    say(rep, nm, w, r, 'accepted: the name must be non-empty, ASCII, free of whitespace and forbidden characters, and returned unchanged')


def verdict_reject(rep, nm, w, vn, pay):
    if vn == 'Empty':
        say(rep, nm, w, w.empty, 'rejected as Empty: the name must be empty')
    elif vn == 'NotAscii':
        say(rep, nm, w, both(no(w.empty), no(w.ascii)), 'rejected as NotAscii: the name must be non-empty and not ASCII')
    elif vn == 'Whitespace':
        say(rep, nm, w, both(no(w.empty), w.ascii, w.has(WS_), w.first(pay[3][0], WS_)),
            'rejected as Whitespace: the ASCII name must contain whitespace and the error must name the first whitespace character')
    elif vn == 'Forbidden':
        say(rep, nm, w, both(no(w.empty), w.ascii, no(w.has(WS_)), w.has(FORB), w.first(pay[3][0], FORB)),
            'rejected as Forbidden: the ASCII name must be free of whitespace and the error must name the first forbidden character')
    else:
        rep.undecided('validate', nm, 'unknown rejection %s' % vn)


def mentions_agg(p, key, adt, seen=None):
    f = p.fns[key]
    for b in f['blocks']:
        for st in b['s']:
            if st[0] == '=' and st[2][0] == 'agg' and st[2][1][0] == 'adt' and st[2][1][1] == adt:
                return True
    return False


def constructions(A, rep):
    """every construction of an identifier holds a text established to be valid there"""
    p, I = A.p, A.s.ident_ty
    sites = {}
    for k, f in p.fns.items():
        if not f.get('local') or 'promoted' in k or k in p.derived_fns:
            continue
        if mentions_agg(p, k, I):
            root = f.get('root') or k
            if '{closure' in k:
                root = k.split('::{closure')[0]
            sites.setdefault(root, set()).add(k)
    for root, ks in sorted(sites.items()):
        nm = A.name(root) if root in p.fns else short_name(root)
        guarded(rep, 'construct', nm, construct, A, rep, root, ks, nm)


def construct(A, rep, root, ks, nm):
    e, M = A.new()
    e.watch = (A.s.ident_ty,)
    args, outs = A.run(e, root)
    hit = set()
    for s, v, k in e.watched:
        hit.add(k)
        ts = texts_of(e, M, s, v)
        if len(ts) != 1:
            rep.undecided('construct', nm, 'identifier with %d texts' % len(ts))
            continue
        t = M.valid(e, s, ts[0])
        t = e.simp(s, t)
        if t == TRUE:
            rep.ok('construct', nm, 'text %s is established to be valid' % show(ts[0]))
        elif plain_text(ts[0]):
            rep.bad('construct', nm, 'an identifier is constructed from the text %s, which was not validated, when %s' % (show(ts[0]), facts_text(s)))
        else:
            rep.undecided('construct', nm, 'text %s' % show(ts[0]))
    for k in ks - hit:
        rep.undecided('construct', nm, 'construction in %s not reached by the analysis' % k)


def plain_text(t):
    """built from arguments, fields and slices only"""
    if t[0] in ('str',):
        return True
    if t[0] == 'cat':
        return all(plain_text(x) for x in t[1])
    if t[0] == 'sym':
        return True
    if t[0] == 'app':
        return t[1] in ('sub', 'text', 'deref', 'lower', 'upper', 'trim', 'uto_lowercase', 'uto_uppercase', 'uto_ascii_lowercase', 'uto_ascii_uppercase')
    return False


def conversions(A, rep):
    p, I, E = A.p, A.s.ident_ty, A.s.err_ty
    rt = ('adt', 'std::result::Result', (('adt', I, ()), ('adt', E, ())))
    for k, f in A.local():
        if k in p.derived_fns or A.rett(k) != rt or f['argc'] != 1:
            continue
        if not f['blocks']:
            continue
        guarded(rep, 'convert', A.name(k), convert, A, rep, k, A.name(k))


def convert(A, rep, k, nm):
    e, M = A.new()
    args, outs = A.run(e, k)
    t = A.argt(k)[0]
    while t[0] == 'ref' and t != STR:
        t = t[2]
    st = St()
    if not outs:
        rep.undecided('convert', nm, 'no path returns')
    for s, v in outs:
        for s2, var in e.split_variant(s, v):
            pay = v[3][0] if v[0] == 'adt' else e.payload(v, var)
            if t == STR or (t[0] == 'adt' and t[1] in STRINGY):
                X = M.as_str(e, s2, args[0])
                if var == 0:
                    ts = texts_of(e, M, s2, pay)
                    good = len(ts) == 1 and e.simp(s2, ts[0]) == X
                    okv = e.simp(s2, M.valid(e, s2, X)) == TRUE
                    if good and okv:
                        rep.ok('convert', nm, 'accepts the validated text unchanged')
                    elif len(ts) == 1 and (plain_text(ts[0]) or good):
                        rep.bad('convert', nm, 'the identifier made from %s holds %s%s when %s' % (show(X), show(ts[0]), '' if okv else ' without validation', facts_text(s2)))
                    else:
                        rep.undecided('convert', nm, 'identifier %s' % show(pay))
                else:
                    if pay == ('app', 'iderr', X):
                        rep.ok('convert', nm, 'rejects with the validator\'s error')
                    elif pay[0] == 'adt' or (pay[0] == 'app' and pay[1] == 'iderr'):
                        rep.bad('convert', nm, 'the error for %s is %s instead of the validator\'s when %s' % (show(X), show(pay), facts_text(s2)))
                    else:
                        rep.undecided('convert', nm, 'error %s' % show(pay))
            elif t == ('adt', A.s.ident_ty, ()):
                src = e.strip(s2, args[0])
                a, b = texts_of(e, M, s2, src), texts_of(e, M, s2, pay) if var == 0 else []
                if var == 0 and a == b:
                    rep.ok('convert', nm, 'identity')
                elif var == 1 or plain_text(b[0]):
                    rep.bad('convert', nm, 'an identifier is not passed through unchanged (%s)' % show(v))
                else:
                    rep.undecided('convert', nm, show(v))
            elif t[0] == 'adt' and t[1] == 'std::result::Result':
                a = e.variant(s2, args[0])
                src = e.payload(args[0], var)
                same = a == var and (pay == src or texts_of(e, M, s2, pay) == texts_of(e, M, s2, src) != [])
                if same:
                    rep.ok('convert', nm, 'result passed on')
                elif a is not None and a != var or is_sym(pay):
                    rep.bad('convert', nm, 'a result is not passed on unchanged: %s becomes %s' % (show(src), show(v)))
                else:
                    rep.undecided('convert', nm, show(v))
            else:
                rep.undecided('convert', nm, 'parameter type %s' % (t,))
