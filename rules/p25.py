"""P25: attribute operations do exactly what they document."""
from rules import flows
from rules.lists import *
from rules.streams import NAMES, VOID

TECHNIQUE = 'typestate exploration of the operations; list-building loops combined with a transducer for the documented edit'
LEVEL_NOTE = 'static analysis: every attribute operation, all paths, attribute lists and class lists of any length'
EXPLANATION = (
    'Every attribute operation is explored from its public method to the start tag it emits (opening, self-closed and void).  The '
    'attribute list of the emitted tag is compared with the list of the tag that was read by a transducer that is run along the loop '
    'graphs that build the list: for each attribute read it knows what has to be put into the new list (the same attribute, nothing, or '
    'the edited one) according to the facts established about its name and value on that path, and that the new attribute is put in '
    'exactly when documented.  Every possibility left open by the facts has to be handled rightly, so lists of any length with '
    'duplicates in any letter case are covered.  Class lists are decided by a second transducer over the words of the value.')

# operation: (kind of edit, name, value, separator); arguments by position
OPS = {
    'add_attribute_with_value': ('add', ('id', 1), ('val', 2)),
    'add_attribute': ('add', ('id', 1), ('opt', 2)),
    'add_empty_attribute': ('add', ('id', 1), None),
    'add_to_attribute': ('join', ('id', 1), ('val', 2), ('val', 3)),
    'replace_attribute_value_if_exists': ('replace', ('id', 1), ('val', 2)),
    'set_attribute_with_value': ('set', ('id', 1), ('val', 2)),
    'set_attribute': ('set', ('id', 1), ('opt', 2)),
    'set_empty_attribute': ('set', ('id', 1), None),
    'remove_attribute': ('remove', ('id', 1)),
    'add_class': ('join', ('lit', 'class'), ('id', 1), ('lit', ' ')),
    'remove_class': ('unclass', ('lit', 'class'), ('id', 1)),
    'remove_id': ('remove', ('lit', 'id')),
    'set_id': ('set', ('lit', 'id'), ('id', 1)),
}


def run(ctx, rep):
    A = Ana(ctx)
    for name in sorted(OPS):
        guarded(rep, 'edit', name, edit, A, rep, name)
    rep.assume('the attribute operations pass on everything else unchanged (P26), names and attribute values do not change (P30, P31)')


def edit(A, rep, name):
    k = flows.api_key(A, name)
    if k is None:
        rep.missing('edit', 'the method ' + name)
        return
    e0, _ = A.new()
    spec, element = flows.make_spec(name, A.args(e0, k))
    e, mon = flows.engine(A, spec, 2)
    F = flows.Finding(name)
    args, outs = A.run(e, k)
    for s, v in outs:
        m = flows.Mstate()
        spec.init(m, flows.api_stream(e, s, args[0]), element)
        mon.save(s, m)
        flows.run_stream(F, e, mon, s, flows.api_stream(e, s, v), name)
    if F.und:
        rep.undecided('edit', name, F.und[0])
        return
    at = Attr(A, e, mon.M)
    if at.ty is None:
        rep.missing('edit', 'the attribute type')
        return
    bad, und, n = [], [], 0
    done = set()
    for s, kind, i, o in mon.starts:
        sig = (kind, i, o, tuple(sorted(((k, f) for k, f in s.facts.items()), key=repr)), tuple(x for x in s.trace if x[0] == 'loop'))
        if sig in done:
            continue
        done.add(sig)
        n += 1
        try:
            if o is None:
                raise Bad('the tag comes out as another kind of part')
            src = at.lst(s, i)
            out = at.lst(s, o)
            for s2, op in operation(A, e, mon.M, at, s, args, OPS[name]):
                compare(A, e, mon.M, at, s2, src, out, op)
                if op.deferred:
                    und.append(op.deferred)
        except Bad as b:
            bad.append(('%s: %s' % (NAMES[kind], b), s))
        except AnalysisError as b:
            und.append(str(b))
    kinds = set(k for _, k, _, o in mon.starts)
    if not bad and not und and kinds != {5, 7, 8}:
        und.append('not every kind of start tag was seen')
    if bad and derived(e):
        und.append('a list made from the attributes is searched: possibly ' + bad[0][0])
        bad = []
    from rules.p28 import close
    close(rep, 'edit', name, e, bad, und, n)


class Op(object):
    deferred = None


def operation(A, e, M, at, s, args, spec):
    """the operation with the texts of its arguments, per path"""
    def term(x, meth):
        t = ('app', 'tcall', ('str', meth), x)
        if t in e.symty:
            return t
        raise AnalysisError('the converted argument is not found')

    def text(s, d):
        if d[0] == 'lit':
            return ('str', d[1])
        x = args[d[1]]
        if d[0] == 'id':
            return M.as_str(e, s, e.payload(term(x, 'into_identifier'), 0))
        if d[0] == 'val':
            return M.as_str(e, s, term(x, 'into_value'))
        return M.as_str(e, s, term(e.payload(x, 1), 'into_value'))
    o = Op()
    o.kind = spec[0]
    o.name = text(s, spec[1])
    o.value = o.sep = None
    if len(spec) > 3:
        o.sep = text(s, spec[3])
    if len(spec) > 2 and spec[2] is not None:
        if spec[2][0] == 'opt':
            r = []
            for s2, v in e.split_variant(s, args[spec[2][1]]):
                p = Op()
                p.__dict__.update(o.__dict__)
                p.value = text(s2, spec[2]) if v else None
                r.append((s2, p))
            return r
        o.value = text(s, spec[2])
    return [(s, o)]


def compare(A, e, M, at, s, src, out, op):
    if out == src:
        pieces = (('base', src),)
    elif out[0] == 'seq':
        pieces = out[1]
    else:
        raise AnalysisError('the new list is %s' % show(out)[:100])
    auto = Edit(e, M, at, op, src)
    P = Product(e, src, auto, s, pieces)
    for q in P.end():
        auto.finish(s, q)


def same_words(e, M, s, a, b):
    """are the two texts the same, empty pieces left out"""
    def flat(t):
        t = M.norm_text(e, e.simp(s, t))
        r = []
        for p in (str_pieces(t) or (t,)):
            if p[0] in ('sym', 'app') and e.simp(s, M.len_atom(e, p)) == INT(0):
                continue
            r.append(p)
        return mk_cat(r)
    return flat(a) == flat(b)


class Edit(Auto):
    """q = (what a first search found, did an attribute of the name occur, end seen, dropped, added, reading from a search)"""
    start = (None, False, False, False, False, False)

    def __init__(self, e, M, at, op, src):
        self.src = src
        self.e, self.M, self.at, self.op = e, M, at, op
        self.words = {}

    # ---- facts about one attribute: the possibilities the path leaves open
    def cases(self, s, a):
        op, at = self.op, self.at
        n = at.named(s, a, op.name)
        if op.kind != 'unclass':
            return [n] if n is not None else [True, False]
        if n is False:
            return [False]
        v = self.e.variant(s, at.value(s, a))
        if v == 0:
            return [False]
        w = None
        if v == 1:
            w = words_fact(self.e, self.M, s, at.value_text(s, a), op.value)
            if w is None and self.e.simp(s, self.M.len_atom(self.e, at.value_text(s, a))) == INT(0):
                w = False
        if w is False:
            return [False]
        return [True] if n and v == 1 and w else [True, False]

    def name_of(self, s, a):
        return show(self.at.name(s, a))[:60]

    # ---- search before building
    def search(self, s, q, elems):
        known, found, over, drop, add, r = q
        qs = {(found, over)}
        for a in elems:
            if a is None:
                qs = {(f, True) for f, o in qs}
            else:
                qs = {(f or c, o) for f, o in qs for c in self.cases(s, a)}
        return [(known, f, o, drop, add, True) for f, o in qs]

    def restart(self, s, q):
        known, found, over, drop, add, r = q
        k = True if found else False if over else None
        if known is not None and k is not None and k != known:
            return []
        return [(known if known is not None else k, False, False, drop, add, False)]

    # ---- building
    def is_new(self, s, o):
        if o[0] != 'one':
            return False
        op, e, at = self.op, self.e, self.at
        if op.kind not in ('add', 'set', 'replace', 'join') or at.named(s, o[1], op.name) is not True:
            return False
        return self.has_value(s, o[1], op.value)

    def has_value(self, s, o, text):
        v = self.e.variant(s, self.at.value(s, o))
        if v is None:
            return False
        if text is None:
            return v == 0
        return v == 1 and same_words(self.e, self.M, s, self.at.value_text(s, o), text)

    def is_copy(self, s, o, a):
        if o[0] != 'one':
            return False
        x, y = self.at.strip(s, o[1]), self.at.strip(s, a)
        if x == y:
            return True
        if self.M.norm_text(self.e, self.at.name(s, x)) != self.M.norm_text(self.e, self.at.name(s, y)):
            return False
        u, v = self.at.value(s, x), self.at.value(s, y)
        if u == v:
            return True
        p, r = self.e.variant(s, u), self.e.variant(s, v)
        if p is None or p != r:
            return False
        return p == 0 or same_words(self.e, self.M, s, self.at.value_text(s, x), self.at.value_text(s, y))

    def expected(self, s, a, c, q):
        """how the attribute has to come out: 'copy', 'drop' or a predicate on the piece, with the states of the dropped flag"""
        op = self.op
        if not c:
            return 'copy'
        if op.kind == 'add':
            return 'copy'
        if op.kind in ('set', 'replace', 'remove'):
            return 'drop'
        if op.kind == 'join':
            return 'copy' if q[1] else 'join'
        return 'unclass'

    def feed(self, s, q, elems, outs):
        if outs and outs[0][0] == 'base':
            r = set()
            for q2 in self.search(s, q, elems):
                for q3 in self.restart(s, q2):
                    self.walk(s, q3, [], list(outs), r)
            return r
        if q[5] and (elems or outs):
            # a new pass would have started with a new iterator
            raise AnalysisError('a search goes on as the construction')
        r = set()
        self.walk(s, q, list(elems), list(outs), r)
        return r

    def walk(self, s, q, elems, outs, r):
        known, found, over, drop, add, _ = q
        if outs and outs[0][0] == 'base':
            if outs[0][1] != self.src:
                raise AnalysisError('the list contains %s' % show(outs[0])[:100])
            if elems or found or over or drop:
                raise AnalysisError('a copy of the whole list within its construction')
            none = self.e.simp(s, self.M.length(self.e, s, self.src)) == INT(0)
            qs = [(known, f, True, drop, add, False) for f in ((known,) if known is not None else (False,) if none else (True, False))]
            for q2 in qs:
                if q2[1] and self.op.kind != 'add':
                    raise Bad('the attributes are taken over although one of them %s' % (
                        'may have the class' if self.op.kind == 'unclass' else 'may have the name'))
                self.walk(s, q2, elems, outs[1:], r)
            return
        if not elems:
            if not outs:
                if over and known is not None and known != found:
                    return
                if over and self.pruned(s, q):
                    return
                r.add(q)
                return
            if over and not add and self.pruned(s, q):
                return
            if over and known is not None and known != found:
                return
            if self.is_new(s, outs[0]) and not add:
                self.walk(s, (known, found, over, drop, True, False), elems, outs[1:], r)
                return
            if outs[0][0] not in ('one', 'base'):
                raise AnalysisError('the list contains %s' % show(outs[0])[:100])
            raise Bad('%s is put into the list%s' % (show(outs[0])[:200], ' a second time' if add and self.is_new(s, outs[0]) else ''))
        a = elems[0]
        if a is None:
            self.walk(s, (known, found, True, drop, add, False), elems[1:], outs, r)
            return
        if over:
            return
        for c in self.cases(s, a):
            w = self.expected(s, a, c, q)
            f = found or c
            if w == 'unclass':
                w = self.unclass(s, a, outs)
            if w == 'drop':
                self.walk(s, (known, f, over, True, add, False), elems[1:], outs, r)
                continue
            test = {'copy': lambda o: self.is_copy(s, o, a), 'join': lambda o: self.is_joined(s, o, a), 'edited': lambda o: True}[w]
            k = 0
            ad = add
            if outs and not test(outs[0]) and not add and self.is_new(s, outs[0]):
                k, ad = 1, True
            if len(outs) <= k:
                raise Bad('an attribute %s is lost%s' % (self.name_of(s, a), self.why(s, a, c)))
            if not test(outs[k]):
                raise Bad('an attribute %s%s comes out as %s' % (self.name_of(s, a), self.why(s, a, c), show(outs[k])[:200]))
            self.walk(s, (known, f, over, drop, ad, False), elems[1:], outs[k + 1:], r)

    def why(self, s, a, c):
        if len(self.cases(s, a)) > 1:
            return ' (which may %s %s)' % ('have' if c else 'not have', 'the class' if self.op.kind == 'unclass' else 'the name')
        return ''

    def is_joined(self, s, o, a):
        op, e, M, at = self.op, self.e, self.M, self.at
        if o[0] != 'one' or at.named(s, o[1], op.name) is not True:
            return False
        v = e.variant(s, at.value(s, a))
        if v is None:
            raise AnalysisError('the value joined to is not known')
        if v == 0:
            return self.has_value(s, o[1], op.value)
        return self.has_value(s, o[1], mk_cat((at.value_text(s, a), op.sep, op.value)))

    def unclass(self, s, a, outs):
        """the attribute has the class: its value without it, or nothing if no other is left"""
        e, M, at, op = self.e, self.M, self.at, self.op
        text = at.value_text(s, a)
        WS = ('app', 'splitws', text)
        if outs and outs[0][0] == 'one' and at.named(s, outs[0][1], ('str', 'class')) is True and not self.is_copy(s, outs[0], a):
            if e.variant(s, at.value(s, outs[0][1])) != 1:
                raise Bad('an attribute comes out without its other classes')
            t = M.norm_text(e, e.simp(s, at.value_text(s, outs[0][1])))
            last = self.without(s, WS, t)
            if 'some' not in last:
                return 'drop'
            if 'none' in last:
                raise Bad('a class attribute without classes is kept')
            return 'edited'
        # dropped: every word has to be the class
        for k, f in s.facts.items():
            if k[0] == 'app' and k[1] == 'all' and k[2] == WS and f == ('is', TRUE) and k[4] == ('is', TRUE) and k[3][0] == 'app' and k[3][1] == 'ideq' \
                    and set((k[3][2], k[3][3])) == {op.value, ('bound',)}:
                return 'drop'
        unsure = None
        for k, f in list(s.facts.items()):
            if k[0] == 'app' and k[1] == 'len' and k[2][0] in ('cat', 'accs') and f == ('is', INT(0)):
                try:
                    last = self.without(s, WS, k[2] if k[2][0] == 'cat' else ('cat', (k[2],)))
                except (Bad, AnalysisError) as x:
                    unsure = x
                    continue
                if 'some' not in last:
                    return 'drop'
        P = Product(e, WS, NoOther(e, M, op.value), s)
        ends = [q for q in P.end() if not (q[2] and q[0] and not q[1])]
        if ends and all(over and not other for known, other, over in ends):
            return 'drop'
        if outs and self.is_copy(s, outs[0], a):
            raise Bad('an attribute that has the class is left as it is')
        if unsure is not None:
            # other paths may show what is wrong with the text; if none does, the case stays undecided
            op.deferred = 'a class attribute is dropped for an empty text, which may not be the one of its other classes (%s)' % unsure
            return 'drop'
        raise Bad('a class attribute is dropped although other classes may be left')

    def without(self, s, src, t):
        """the text is the words without the class; is any left"""
        auto = Words(self.e, self.M, self.op.value)
        P = Product(self.e, src, auto, s, str_pieces(t) if t != ('str', '') else ())
        r = set()
        for x, over in P.end():
            if not over:
                raise Bad('a class attribute keeps only the classes before a certain one')
            k = known_length(self.e, s, t)
            if k is not None and k != x:
                continue
            r.add('some' if x else 'none')
        return r

    def pruned(self, s, q):
        """facts about the lengths of both lists contradict the state"""
        e = self.e
        for k, f in s.facts.items():
            if k[0] == 'app' and k[1] == 'Eq' and f[0] == 'is':
                x, y = k[2], k[3]
            elif k[0] == 'app' and k[1] in ('Lt', 'Gt') and f == ('is', TRUE):
                x, y = k[2], k[3]
            else:
                continue
            if not all(t[0] == 'app' and t[1] == 'len' for t in (x, y)):
                continue
            ls = [t[2] for t in (x, y)]
            accs = [t for t in ls if t[0] == 'acc' or t[0] == 'seq' and len(t[1]) == 1 and t[1][0][0] == 'acc']
            if len(accs) != 1:
                continue
            eq = k[1] == 'Eq' and f[1] == TRUE
            if q[3] == eq and not q[4]:
                return True
        return False

    def finish(self, s, q):
        known, found, over, drop, add, sr = q
        op = self.op
        if sr:
            raise Bad('no attributes are left')
        if not over:
            ln = self.M.length(self.e, s, self.src)
            if self.e.simp(s, ln) != INT(0):
                if any(k[0] == 'app' and k[1] in ('Lt', 'Eq') and contains(k, ln) for k in s.facts):
                    raise AnalysisError('the attributes are visited by their positions')
                raise Bad('the attributes after a certain one are lost')
        want = {'add': True, 'set': True, 'replace': found, 'remove': False, 'join': not found, 'unclass': False}[op.kind]
        if add != want:
            raise Bad('the new attribute is %s although %s' % (
                'added' if add else 'missing', 'one of the name exists' if found else 'none of the name exists'))


def known_length(e, s, t):
    """is the text known to be nonempty (True) or empty (False)"""
    if t == ('str', ''):
        return False
    if t[0] == 'str':
        return True
    ps = str_pieces(t)
    if any(p[0] == 'str' for p in ps):
        return True
    r = [f for k, f in s.facts.items() if k[0] == 'app' and k[1] == 'len' and (k[2] == t or len(ps) == 1 and k[2] == ps[0])]
    for f in r:
        if f[0] == 'is' and f[1][0] == 'int':
            return f[1] != INT(0)
        if f[0] == 'not' and INT(0) in f[1]:
            return True
    return None


class NoOther(Auto):
    """is there a word other than the class; q = (found by an earlier pass, found, end seen)"""
    start = (False, False, False)

    def __init__(self, e, M, name):
        self.e, self.M, self.name = e, M, name

    def feed(self, s, q, elems, outs):
        qs = {q}
        for w in elems:
            if w is None:
                qs = {(k, o, True) for k, o, d in qs}
                continue
            c = tv(self.M.ideq(self.e, s, w, self.name))
            qs = {(k, o or x, d) for k, o, d in qs for x in ([False] if c else [True] if c is False else [True, False])}
        return qs

    def restart(self, s, q):
        return [(q[0] or q[1], False, False)]


class Words(Auto):
    """the words other than one, joined by blanks; q = (has a word been kept, end seen)"""
    start = (False, False)

    def __init__(self, e, M, name):
        self.e, self.M, self.name = e, M, name

    def so_far(self, t, mk):
        """the text as it was when the current iteration began"""
        if t[0] == 'cat':
            t = t[1][0] if len(t[1]) == 1 else t
        return t[0] == 'accs' and any(x[1] == t[1] for x in mk)

    def feed(self, s, q, elems, outs):
        some, over = q
        qs = [(some, over, tuple(outs))]
        # what is known about the text so far
        mk = [x for x in s.trace if x[0] == 'loop']
        for k, f in s.facts.items():
            if k[0] == 'app' and k[1] == 'len' and self.so_far(k[2], mk):
                x = None if f[0] == 'is' and f[1][0] != 'int' else f[1] != INT(0) if f[0] == 'is' else True if INT(0) in f[1] else None
                if x is not None and x != some:
                    return []
        for w in elems:
            n = []
            for some, over, outs in qs:
                if w is None:
                    n.append((some, True, outs))
                    continue
                c = tv(self.M.ideq(self.e, s, w, self.name))
                if c is not False:
                    if c is None:
                        raise Bad('a class is kept or dropped without being compared')
                    n.append((some, over, outs))
                    continue
                want = (('str', ' '), w) if some else (w,)
                if outs[:len(want)] != want:
                    raise Bad('the classes left are not joined by blanks')
                n.append((True, over, outs[len(want):]))
            qs = n
        for some, over, outs in qs:
            if outs:
                raise Bad('the class list becomes %s' % show(('cat', outs))[:100])
        return [(a, b) for a, b, _ in qs]
