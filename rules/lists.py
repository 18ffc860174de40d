"""Loops over attribute lists: the loop graph found by the analysis engine is combined with an automaton that reads
the elements of the list, and, for functions that build a new list, the elements that are put into it."""
from rules.common import *


class Bad(Exception):
    pass


def derived(e):
    """whether some loop of the exploration runs over a list that was made from another (collected, reversed, sorted):
    what it finds out is not related to the elements of the original"""
    def odd(t):
        return isinstance(t, tuple) and bool(t) and (t[0] in ('acc', 'havoc') or t[:2] in (('app', 'reverse'), ('app', 'unk')) or any(odd(x) for x in t))

    def any_of(tr):
        return any(x[0] in ('iter', 'next', 'inext') and odd(x[1]) for x in tr)
    return any(any_of(bk.trace) for L in e.loops.values() for (i, j, bk, base) in L.edges) or any(any_of(L.entry.trace) for L in e.loops.values() if L.entry is not None)


class Auto(object):
    """an automaton over the elements of a list; elements are None at its end"""
    start = None

    def feed(self, s, q, elems, outs):
        raise NotImplementedError

    def search(self, s, q, elems):
        """elements read before anything is built"""
        return [q]

    def restart(self, s, q):
        return [q]


class Product(object):
    """reachable automaton states at the end of the path s.  `pieces` (if given) is the list or text built, as pieces"""

    def __init__(self, e, src, auto, s, pieces=None):
        self.e, self.src, self.auto, self.s, self.final = e, src, auto, s, pieces
        self.places = {}
        if pieces is not None:
            for x in pieces:
                if x[0] in ('acc', 'accs') and x[1] not in self.places:
                    self.places[x[1]] = self.place(x)
        self.qs = {}
        self.rel = self.relevant()
        self.solve()

    def place(self, acc):
        for N in self.e.loops[acc[1]].nodes:
            for c, w in N.mem.items():
                if contains(w, acc):
                    for p, y in seqs(w):
                        if acc in y:
                            return c, p
        raise AnalysisError('the list under construction is not found')

    def out(self, s, lid):
        if lid not in self.places:
            return None
        c, p = self.places[lid]
        v = value_at(s.mem.get(c), p)
        r = pieces_of(v)
        if r is None:
            raise AnalysisError('the list under construction is lost')
        return r

    def chain(self):
        """the loops passed on the path, with those inside their iterations"""
        t = self.s.trace
        k = next((n for n, x in enumerate(t) if x[0] == 'iter' and x[1] == self.src), 0)
        todo = [x[1] for x in t[k:] if x[0] == 'loop']
        seen = set()
        while todo:
            l = todo.pop()
            if l in seen:
                continue
            seen.add(l)
            for (i, j, bk, base) in self.e.loops[l].edges:
                todo.extend(x[1] for x in bk.trace[base:] if x[0] == 'loop')
        return seen

    def relevant(self):
        r = set()
        for lid in self.chain():
            L = self.e.loops[lid]
            for (i, j, bk, base) in L.edges:
                cur = lid
                for x in bk.trace[base:]:
                    if x[0] == 'loop':
                        cur = x[1]
                    elif any(y is not None for y in self.reads(bk, x)):
                        r.add(cur)
        r |= set(l for l in self.places if l in self.chain())
        more = True
        while more:
            more = False
            for lid in self.chain() - r:
                if any(x[0] == 'loop' and x[1] in r for (i, j, bk, base) in self.e.loops[lid].edges for x in bk.trace[base:]):
                    r.add(lid)
                    more = True
        # loops within those that build: the list is at the same place
        for l in sorted(r):
            if l not in self.places:
                up = [x[1] for x in self.e.loops[l].entry.trace if x[0] == 'loop' and x[1] in self.places]
                if up:
                    self.places[l] = self.places[up[-1]]
        return r

    def reads(self, s, x):
        """elements of the source read by a step of the trace (None: its end)"""
        if x[0] == 'next' and x[1] == self.src:
            return [x[3]]
        if x[0] == 'inext' and x[1] == self.src:
            y = ('sym', ('inext', x[1], x[2]))
            v = self.e.variant(s, y)
            if v is None:
                raise AnalysisError('a read of the iterator is not looked at')
            return [self.e.payload(y, 1) if v else None]
        return []

    def marker(self, s):
        for n in range(len(s.trace) - 1, -1, -1):
            x = s.trace[n]
            if x[0] == 'loop' and x[1] in self.rel:
                return n, (x[1], x[2])
        return -1, None

    def at(self, s, now=None):
        """automaton states when path s is done, having built `now`"""
        n, mk = self.marker(s)
        if mk is None:
            start = [self.auto.start]
            before = None
        else:
            start = sorted(self.qs.get(mk, ()), key=repr)
            before = self.out(self.e.loops[mk[0]].nodes[mk[1]], mk[0])
        ops = []
        for x in s.trace[n + 1:]:
            if x[0] == 'iter' and x[1] == self.src:
                ops.append('restart')
            else:
                ops.extend(('el', y) for y in self.reads(s, x))
        r = set(start)
        while 'restart' in ops:
            k = ops.index('restart')
            el = [y for _, y in ops[:k]]
            ops = ops[k + 1:]
            if before is not None:
                raise AnalysisError('the list is read again while another is built')
            r = set(z for q in r for q2 in (self.auto.search(s, q, el) if el and self.final is not None else self.auto.feed(s, q, el, ()) if el else [q])
                    for z in self.auto.restart(s, q2))
        el = [y for _, y in ops]
        if self.final is None:
            return set(z for q in r for z in self.auto.feed(s, q, el, ()))
        if now is None:
            return set(z for q in r for z in self.auto.search(s, q, el))
        b = before or ()
        if now[:len(b)] != b:
            raise AnalysisError('the list under construction is not only added to')
        return set(z for q in r for z in self.auto.feed(s, q, el, now[len(b):]))

    def end(self):
        return self.at(self.s, self.final)

    def solve(self):
        changed = True
        n = 0
        while changed:
            changed = False
            n += 1
            if n > 60:
                raise AnalysisError('automaton does not stabilise')
            for lid in sorted(self.rel):
                L = self.e.loops[lid]
                for j, s in [(0, L.entry)] + [(j, bk) for (i, j, bk, base) in L.edges]:
                    q = self.at(s, self.out(s, lid))
                    o = self.qs.setdefault((lid, j), set())
                    if not q <= o:
                        o |= q
                        changed = True


def pieces_of(v):
    """the pieces of a list or text"""
    if not isinstance(v, tuple) or not v:
        return None
    if v[0] == 'seq':
        return v[1]
    return str_pieces(v)


def seqs(v, path=()):
    """the lists and texts inside a value"""
    if isinstance(v, tuple) and v:
        if v[0] == 'seq':
            yield path, v[1]
            return
        if v[0] == 'cat':
            yield path, v[1]
            return
        for i, x in enumerate(v):
            if isinstance(x, tuple):
                for y in seqs(x, path + (i,)):
                    yield y


def value_at(v, path):
    for i in path:
        if not isinstance(v, tuple) or i >= len(v):
            return None
        v = v[i]
    return v


class Exists(Auto):
    """does some element satisfy the predicate (three-valued on a path)"""
    start = (False, False)

    def __init__(self, pred):
        self.pred = pred

    def feed(self, s, q, elems, outs):
        qs = {q}
        for a in elems:
            if a is None:
                qs = {(f, True) for f, _ in qs}
                continue
            p = self.pred(s, a)
            n = set()
            for f, d in qs:
                if p is not False:
                    n.add((True, d))
                if p is not True:
                    n.add((f, d))
            qs = n
        return qs


class Attr(object):
    """access to the parts of attributes"""

    def __init__(self, A, e, M):
        self.A, self.e, self.M = A, e, M
        self.ty = self.name_i = self.val_i = None
        for n, a in A.p.adts.items():
            if not a.get('local') or len(a['variants']) != 1 or len(a['variants'][0]['fields']) != 2:
                continue
            fs = [A.p.T(f['ty']) for f in a['variants'][0]['fields']]
            ni = [i for i, t in enumerate(fs) if t == ('adt', A.s.ident_ty, ())]
            vi = [i for i, t in enumerate(fs) if t[0] == 'adt' and t[1] == 'std::option::Option' and t[2][0][0] == 'adt']
            if len(ni) == 1 and len(vi) == 1:
                self.ty, self.name_i, self.val_i = n, ni[0], vi[0]

    def strip(self, s, a):
        e = self.e
        a = e.strip(s, a)
        if a[0] == 'ref':
            a = e.strip(s, e.load(s, a))
        return a

    def name(self, s, a):
        return self.M.as_str(self.e, s, self.e.get(self.strip(s, a), (('f', self.name_i),)))

    def value(self, s, a):
        return self.e.strip(s, self.e.get(self.strip(s, a), (('f', self.val_i),)))

    def value_text(self, s, a):
        return self.M.as_str(self.e, s, self.e.payload(self.value(s, a), 1))

    def named(self, s, a, text):
        """True / False / None: is the name of the attribute this one"""
        return tv(self.M.ideq(self.e, s, self.name(s, a), text))

    def lst(self, s, v):
        """the list of attributes behind a value"""
        e = self.e
        for _ in range(6):
            v = e.strip(s, v)
            t = e.typeof(v)
            if v[0] == 'seq' or t[0] == 'adt' and t[1] == 'std::vec::Vec' or t[0] in ('slice',):
                return v
            if v[0] in ('ref', 'rc', 'box') or t[0] == 'ref' or t[0] == 'adt' and t[1] in ('std::rc::Rc', 'std::sync::Arc', 'std::boxed::Box'):
                v = e.load(s, v)
                continue
            if t[0] == 'adt' and t[1] in e.p.adts and len(e.p.adts[t[1]]['variants']) == 1:
                fs = e.p.adts[t[1]]['variants'][0]['fields']
                if len(fs) == 1:
                    v = e.get(v, (('f', 0),))
                    continue
            break
        raise AnalysisError('attribute list not found behind %s' % show(v)[:60])


def tv(x):
    return True if x == TRUE else False if x == FALSE else None


def words_fact(e, M, s, text, name):
    """is `name` among the whitespace separated words of `text`, according to the facts of the path"""
    WS = Cls.WS
    for k, f in s.facts.items():
        if k[0] != 'app' or k[1] != 'all' or f[0] != 'is':
            continue
        src, lit, v = k[2], k[3], k[4]
        if src[0] != 'app' or src[1] not in ('splitws', 'split') or src[2] != text:
            continue
        if src[1] == 'split' and src[3] != WS:
            continue
        if lit[0] == 'app' and lit[1] == 'ideq' and set((lit[2], lit[3])) == {name, ('bound',)} and v == ('is', FALSE):
            return f[1] == FALSE
    # a text without white space is its own only word
    return None


class HasClass(object):
    def __init__(self, at, name):
        self.at, self.name = at, name

    def __call__(self, s, a):
        at = self.at
        n = at.named(s, a, ('str', 'class'))
        if n is False:
            return False
        v = at.e.variant(s, at.value(s, a))
        if v == 0:
            return False
        w = None
        if v == 1:
            w = words_fact(at.e, at.M, s, at.value_text(s, a), self.name)
            if w is None:
                w = empty(at.e, at.M, s, at.value_text(s, a))
        return False if w is False else True if n and v == 1 and w else None


def empty(e, M, s, t):
    """no words in an empty text"""
    return False if e.simp(s, M.len_atom(e, t)) == INT(0) else None


class HasId(object):
    def __init__(self, at, name):
        self.at, self.name = at, name

    def __call__(self, s, a):
        at = self.at
        n = at.named(s, a, ('str', 'id'))
        if n is False:
            return False
        v = at.e.variant(s, at.value(s, a))
        if v == 0:
            return False
        w = tv(at.M.ideq(at.e, s, at.value_text(s, a), self.name)) if v == 1 else None
        return False if w is False else True if n and v == 1 and w else None
