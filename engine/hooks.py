"""Summaries that are established by analysing the crate's own helper functions first:
name comparison helpers, fixed name tables and the name validator."""
from absint import *
from models import STR, CHAR, USZ, Cls, show

B = ('bool',)


def text_param(M, eng, t):
    while t[0] == 'ref':
        if t[2] == ('str',):
            return True
        t = t[2]
    return M.textlike(eng, t) or (t[0] == 'adt' and t[1] in STRINGY)


def explore(eng, key, names=None):
    f = eng.p.fns[key]
    st = St()
    args = []
    for i in range(f['argc']):
        t = eng.p.T(f['locals'][1 + i])
        args.append(eng.sym(('arg', (names or {}).get(i, i + 1)), t))
    return args, eng.exec_fn(st, key, {}, args)


def pair_atom(M, eng, k, x, a, b):
    """what a fact says about two texts: (atom, value), () if nothing, None if not understood"""
    if k[0] == 'app' and k[1] in ('all', 'some', 'discr'):
        return ()
    la, lb = M.len_atom(eng, a), M.len_atom(eng, b)
    if k in (lin_sub(la, lb), lin_sub(lb, la)):
        if x == ('is', INT(0)):
            return ('len', True)
        return ('len', False) if x[0] == 'not' and INT(0) in x[1] else ()
    if x[0] != 'is' or x[1][0] != 'bool':
        return ()
    v = x[1][1]
    if k[0] != 'app':
        return None
    if k[1] == 'is_ascii':
        return ('asciia', v) if k[2] == a else ('asciib', v) if k[2] == b else None
    if k[1] in ('eqic', 'ideq') and set(k[2:4]) == {a, b}:
        return (k[1], v)
    if k[1] == 'Eq' and set(k[2:4]) == {a, b}:
        return ('eq', v)
    if k[1] == 'Eq' and len(k) == 4:
        if set(k[2:4]) == {la, lb} or k[3] == INT(0) and k[2] in (lin_sub(la, lb), lin_sub(lb, la)):
            return ('len', v)
        if {t[1] for t in k[2:4] if t[0] == 'app'} in ({'uto_lowercase'}, {'uto_uppercase'}) and {t[2] for t in k[2:4]} == {a, b}:
            return ('fold', v)
    return None


def detect_pred(eng, M, key, valid_types=()):
    """('ideq',) | ('idin', frozenset) | None for a boolean function over texts"""
    f = eng.p.fns[key]
    n = f['argc']
    np = len(eng.panics)
    try:
        args, outs = explore(eng, key)
        if len(eng.panics) > np:
            return None
    except AnalysisError:
        return None
    finally:
        del eng.panics[np:]
    texts = []
    st0 = St()
    for a in args:
        texts.append(M.as_str(eng, st0, a))
    paths = []
    full = []
    for s, v in outs:
        for s2, b in eng.split_bool(s, v):
            cond = []
            if n == 2:
                if any(e[0] not in ('loop', 'next', 'iter') for e in s2.trace):
                    return None
                full.append((list(s2.facts.items()), b))
                continue
            for k, x in s2.facts.items():
                if x[0] != 'is' or x[1][0] != 'bool':
                    continue
                if k[0] == 'app' and k[1] in ('is_ascii', 'ideq', 'eqic', 'idin'):
                    cond.append((k, x[1][1]))
                elif k[0] == 'app' and k[1] in ('all', 'some'):
                    continue
                else:
                    return None
            paths.append((cond, b))
            if any(e[0] not in ('loop', 'next', 'iter') for e in s2.trace):
                return None
    if n == 2:
        a, b = texts
        pths = []
        for facts, r in full:
            cond = []
            for k, x in facts:
                c = pair_atom(M, eng, k, x, a, b)
                if c is None:
                    return None
                if c:
                    cond.append(c)
            pths.append((cond, r))
        B = (True, False)
        for va in B:
            for vc in B:
                for ve in B:
                    for vq in B:
                        for vl in B:
                            for vf in B:
                                if (ve and not (va == vc and vl)) or (vq and not (ve and vf)) or (va and vc and ve != vf):
                                    continue
                                w = {'asciia': va, 'asciib': vc, 'eqic': ve, 'ideq': va and vc and ve, 'eq': vq, 'len': vl, 'fold': vf}
                                want = w['ideq']
                                hits = [r for cond, r in pths if all(w[k] == x for k, x in cond)]
                                if not hits or any(r != want for r in hits):
                                    return None
        return ('ideq',)
    if n == 1:
        X = texts[0]
        consts = set()
        asc = ('app', 'is_ascii', X)
        for cond, r in paths:
            for k, x in cond:
                if k == asc:
                    continue
                if k[1] == 'idin' and k[2] == X:
                    consts |= k[3]
                    continue
                if k[1] not in ('ideq', 'eqic'):
                    return None
                o = k[3] if k[2] == X else k[2] if k[3] == X else None
                if o is None or o[0] != 'str' or not o[1].isascii():
                    return None
                consts.add(o[1].lower())
        if not consts:
            return None
        inn = set()
        for w in sorted(consts) + [None]:
            for va in (True, False):
                def ev(k):
                    if k == asc:
                        return va
                    if k[1] == 'idin':
                        return va and w in k[3]
                    o = k[3] if k[2] == X else k[2]
                    return va and o[1].lower() == w
                hits = set(r for cond, r in paths if all(ev(k) == x for k, x in cond))
                if len(hits) != 1:
                    return None
                r = hits.pop()
                if va and w is not None:
                    if r:
                        inn.add(w)
                elif r:
                    return None
        return ('idin', frozenset(inn))
    return None


class Summaries(object):
    """found once per program and installed into every engine"""

    def __init__(self, prog, mk):
        self.p = prog
        self.preds = {}
        self.validators = set()
        self.err_ty = None
        self.ident_ty = None
        self.find_types()
        order = []
        for k, f in prog.fns.items():
            if not f.get('local') or '{closure' in k or 'promoted' in k or k in prog.derived_fns:
                continue
            order.append(k)
        self.find_validators(order)
        self.find_location(order)
        if self.loc_ty:
            self.locate_fields(mk)
        for rnd in (0, 1):
            for k in sorted(order):
                f = prog.fns[k]
                if k in self.preds or f['argc'] not in (1, 2) or f.get('generics'):
                    continue
                if prog.T(f['locals'][0]) != B:
                    continue
                e, M = mk()
                self.install(e, M)
                ts = [prog.T(f['locals'][1 + i]) for i in range(f['argc'])]
                if not all(text_param(M, e, t) for t in ts):
                    continue
                r = detect_pred(e, M, k)
                if r is not None:
                    self.preds[k] = r

    def find_types(self):
        """the name type is the local ADT whose FromStr error is a local enum with a char payload"""
        p = self.p
        for im in p.by_trait.get('std::str::FromStr', ()):
            t = p.T(im['args'][0])
            e = p.T(im['types']['Err']) if 'Err' in im['types'] else None
            if t[0] != 'adt' or e is None or e[0] != 'adt':
                continue
            a = p.adts.get(e[1])
            if a and a.get('local') and any(f['ty'] is not None and p.T(f['ty']) == CHAR for v in a['variants'] for f in v['fields']):
                self.ident_ty, self.err_ty = t[1], e[1]
                self.from_str = im['items'].get('from_str')

    def find_validators(self, order):
        p = self.p
        for k in order:
            f = p.fns[k]
            if f['argc'] != 1 or p.T(f['locals'][1]) != STR:
                continue
            r = p.T(f['locals'][0])
            if r[0] == 'adt' and r[1] == 'std::result::Result' and len(r[2]) == 2 and r[2][1] == ('adt', self.err_ty, ()):
                if r[2][0] in (STR, ('tuple', ())):
                    self.validators.add(k)

    def find_location(self, order):
        """the position type has public line/column/offset accessors; position advance functions map
        (position, consumed text) to a position"""
        p = self.p
        acc = {}
        for k in order:
            f = p.fns[k]
            if f['argc'] == 1 and p.T(f['locals'][0]) == USZ:
                t = p.T(f['locals'][1])
                t = t[2] if t[0] == 'ref' else t
                if t[0] == 'adt':
                    acc.setdefault(t[1], {})[f['name'].split('::')[-1]] = k
        self.loc_ty, self.loc_acc, self.loc_field = None, {}, {}
        for a, d in sorted(acc.items()):
            if {'line', 'column', 'offset'} <= set(d):
                self.loc_ty, self.loc_acc = a, d
        self.advances = set()
        if self.loc_ty is None:
            return
        lt = ('adt', self.loc_ty, ())
        for k in order:
            f = p.fns[k]
            if f['argc'] == 2 and p.T(f['locals'][0]) == lt:
                a, b = p.T(f['locals'][1]), p.T(f['locals'][2])
                if (a == lt or (a[0] == 'ref' and a[2] == lt)) and b == STR:
                    self.advances.add(k)

    def locate_fields(self, mk):
        """field index behind each accessor"""
        for n in ('line', 'column', 'offset'):
            e, M = mk()
            args, outs = explore(e, self.loc_acc[n])
            if len(outs) == 1:
                v = outs[0][1]
                if v[0] == 'sym' and v[1][0] == 'f':
                    self.loc_field[n] = v[1][3]

    def advance_hook(self):
        def h(eng, st, c):
            M = eng.models
            loc = eng.strip(st, c.args[0])
            X = M.as_str(eng, st, c.args[1])
            n = len(eng.p.adts[self.loc_ty]['variants'][0]['fields'])
            fs = []
            for i in range(n):
                if i == self.loc_field.get('offset'):
                    fs.append(lin_add(eng.get(loc, (('f', i),)), M.len_atom(eng, X)))
                else:
                    fs.append(eng.app(USZ, 'locpart', ('str', str(i)), eng.get(loc, (('f', i),)), X))
            return [(st, ('adt', self.loc_ty, 0, tuple(fs), ()))]
        return h

    def install(self, eng, M, validator=True, location=True, preds=True):
        M.valid_adts = {self.ident_ty}
        for k, r in (self.preds.items() if preds else ()):
            eng.hooks[k] = self.pred_hook(M, r)
        if location and self.loc_field.get('offset') is not None:
            for k in self.advances:
                eng.hooks[k] = self.advance_hook()
        if validator:
            for k in self.validators:
                eng.hooks[k] = self.valid_hook(M, k)

    def pred_hook(self, M, r):
        def h(eng, st, c):
            xs = [M.as_str(eng, st, a) for a in c.args]
            if r[0] == 'ideq':
                return [(st, M.ideq(eng, st, xs[0], xs[1]))]
            return [(st, M.idin(eng, st, xs[0], r[1]))]
        return h

    def valid_hook(self, M, k):
        rt = self.p.T(self.p.fns[k]['locals'][0])
        unit = rt[2][0] != STR

        def h(eng, st, c):
            X = M.as_str(eng, st, c.args[0])
            out = []
            for s, b in eng.split_bool(st, M.valid(eng, st, X)):
                if b:
                    out.append((s, ('adt', rt[1], 0, (UNIT if unit else X,), rt[2])))
                else:
                    e = eng.app(rt[2][1], 'iderr', X)
                    out.append((s, ('adt', rt[1], 1, (e,), rt[2])))
            return out
        return h
