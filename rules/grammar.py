"""The documented template grammar, evaluated on the path facts of the parser iteration.

One call of the parser iteration is analysed on all paths over symbolic remaining input, open element stack and options,
once for every parsing mode that is reachable.  For every path the grammar below decides from the recorded path facts
which part, error, remaining input, open element stack and next mode must result; atoms the code left undecided are
split.  Loops (attributes, raw text search, list of unclosed tags) are compared by induction over their edges."""
from rules.common import *
from rules.common import Cls
from rules.p04 import parser_next

RAW = ('script', 'style', 'textarea', 'title')
VOID = frozenset('area base br col embed hr img input keygen link menuitem meta param source track wbr'.split())
LT, GT, SL, EQ, QT = (Cls.of([c]) for c in '<>/="')
TERM = Cls.of(' \t\r\n><"/=\'&')
TEXT_KINDS = {'Doctype': 1, 'Comment': 2, 'Data': 3, 'RawData': 4}


class Unsure(Exception):
    pass


class Cur(object):
    """a position in the text S together with the location known to hold at `lo0`"""
    __slots__ = ('S', 'lo', 'loc', 'lo0')

    def __init__(self, S, lo, loc, lo0):
        self.S, self.lo, self.loc, self.lo0 = S, lo, loc, lo0

    def at(self, lo):
        return Cur(self.S, lo, self.loc, self.lo0)


class Finding(object):
    def __init__(self, prop, rule, inst, status, msg):
        self.prop, self.rule, self.inst, self.status, self.msg = prop, rule, inst, status, msg


def role_paths(A, t, path, out, depth=0):
    """where the parser keeps text, location, stack, options"""
    S = A.s
    if t == STR:
        out.setdefault('text', []).append(path)
        return
    if t == ('adt', S.loc_ty, ()):
        out.setdefault('loc', []).append(path)
        return
    if t[0] == 'adt' and t[1] == 'std::vec::Vec':
        out.setdefault('stack', []).append(path)
        return
    if t[0] == 'adt' and t[1].split('::')[-1] == 'Options':
        out.setdefault('opts', []).append(path)
        return
    a = A.p.adts.get(t[1]) if t[0] == 'adt' else None
    if a and a.get('local') and len(a['variants']) == 1 and depth < 4:
        env = dict(zip(a['generics'], t[2]))
        for i, f in enumerate(a['variants'][0]['fields']):
            role_paths(A, A.p.subst(A.p.T(f['ty']), env), path + (('f', i),), out, depth + 1)
        return
    out.setdefault('mode', []).append(path)


class Grammar(object):
    def __init__(self, A):
        self.A = A
        self.out = []
        self.key = parser_next(A)
        self.loops = {}
        if self.key is None:
            return
        self.err = A.adt('Error', True)
        for n in A.p.adts:
            if n.endswith('parse::Error') and A.p.adts[n].get('local'):
                self.err = n
        self.errs = {v['name']: (i, [f['name'] for f in v['fields']]) for i, v in enumerate(A.p.adts[self.err]['variants'])}
        self.ev = A.adt('Event', True)
        self.iter = A.argt(self.key)[0]
        while self.iter[0] == 'ref':
            self.iter = self.iter[2]
        self.roles = {}
        role_paths(A, self.iter, (), self.roles)
        el = None
        for r in ('text', 'loc', 'stack', 'opts', 'mode'):
            if len(self.roles.get(r, ())) != 1:
                raise Unsure('the parser state has %d parts for %s' % (len(self.roles.get(r, ())), r))
        self.R = {r: p[0] for r, p in self.roles.items()}
        t = self.type_at(self.iter, self.R['stack'])
        self.elem = t[2][0]
        er = {}
        self.elem_roles(self.elem, (), er)
        if len(er.get('loc', ())) != 1 or len(er.get('name', ())) != 1:
            raise Unsure('the entries of the open element stack are not recognised')
        self.E = {r: p[0] for r, p in er.items()}
        ot = self.type_at(self.iter, self.R['opts'])
        a = A.p.adts[ot[1]]
        self.opt = {f['name']: i for i, f in enumerate(a['variants'][0]['fields'])}

    def type_at(self, t, path):
        e, M = self.A.mk0()
        for p in path:
            t = e.field_type(t, 0, p[1])
        return t

    def elem_roles(self, t, path, out):
        S = self.A.s
        if t == ('adt', S.loc_ty, ()):
            out.setdefault('loc', []).append(path)
        elif t == ('adt', S.ident_ty, ()):
            out.setdefault('name', []).append(path)
        elif t[0] == 'tuple':
            for i, x in enumerate(t[1]):
                self.elem_roles(x, path + (('f', i),), out)
        elif t[0] == 'adt' and self.A.p.adts.get(t[1], {}).get('local') and len(self.A.p.adts[t[1]]['variants']) == 1:
            e, M = self.A.mk0()
            for i in range(len(self.A.p.adts[t[1]]['variants'][0]['fields'])):
                self.elem_roles(e.field_type(t, 0, i), path + (('f', i),), out)

    # ------------------------------------------------------------ results
    def note(self, prop, rule, inst, status, msg):
        if status == 'bad' and self.unsure:
            status, msg = 'und', 'the path runs a loop over the text that is not summarised: ' + msg
        self.out.append(Finding(prop, rule, inst, status, msg))

    # ------------------------------------------------------------ start
    def initial(self):
        """parser state at the beginning of a text"""
        A = self.A
        res = []
        for k, f in A.local():
            if k in A.p.derived_fns or A.rett(k) != self.iter:
                continue
            ts = A.argt(k)
            if not any(t == STR for t in ts):
                continue
            e, M = A.new()
            args, outs = A.run(e, k)
            res.append((k, e, M, args, outs))
        return res

    # ------------------------------------------------------------ exploration
    def explore(self):
        A = self.A
        modes = []          # (code value, reference mode)
        for k, e, M, args, outs in self.initial():
            nm = A.name(k)
            for s, v in outs:
                m = e.simp(s, e.get(v, self.R['mode']))
                X = M.as_str(e, s, e.get(v, self.R['text']))
                want = [M.as_str(e, s, a) for a, t in zip(args, A.argt(k)) if t == STR]
                if [X] != want:
                    self.note('P07', 'whole input', nm, 'bad', 'parsing starts with %s instead of the whole input' % show(X))
                else:
                    self.note('P07', 'whole input', nm, 'ok', 'parsing starts with the whole input')
                st = e.strip(s, e.get(v, self.R['stack']))
                if st[0] == 'seq' and st[1] == ():
                    self.note('P08', 'start', nm, 'ok', 'no element is open at the start')
                else:
                    self.note('P08', 'start', nm, 'bad', 'parsing starts with open elements %s' % show(st))
                loc = e.get(v, self.R['loc'])
                off = e.simp(s, e.get(loc, (('f', A.s.loc_field['offset']),)))
                self.note('P14', 'start', nm, 'ok' if off == INT(0) else 'bad' if off[0] == 'int' else 'und', 'parsing starts at offset %s' % show(off))
                os = e.strip(s, e.get(v, self.R['opts']))
                wo = [e.strip(s, a) for a, t in zip(args, A.argt(k)) if t[0] == 'adt' and t[1].split('::')[-1] == 'Options']
                if wo and os != wo[0]:
                    self.note('P09', 'options', nm, 'bad' if all(e.get(os, (('f', i),)) != e.get(wo[0], (('f', i),)) for i in self.opt.values()) else 'und', 'the parser runs with %s instead of the given options' % show(os))
                elif wo:
                    self.note('P09', 'options', nm, 'ok', 'the parser runs with the given options')
                modes.append((m, 'data'))
        if not modes:
            raise Unsure('no function that starts the parser was found')
        done = {}
        while modes:
            m, r = modes.pop(0)
            if (m, r) in done:
                continue
            if len(done) > 40 or self.symbolic(m):
                raise Unsure('the parsing mode %s is not one of a fixed set' % show(m))
            first = not any(x == m for x, _ in done)
            done[(m, r)] = True
            if not first:
                continue
            for m2, r2 in self.mode(m, r):
                if (m2, r2) not in modes:
                    modes.append((m2, r2))
        by = {}
        for m, r in done:
            by.setdefault(m, set()).add(r)
        for m, rs in by.items():
            if len(rs) > 1:
                self.note('P10', 'mode', show(m), 'bad', 'the same parsing mode %s follows tags whose content ends differently: %s' % (show(m), ', '.join(sorted(rs))))
        self.modes = by
        return by

    def symbolic(self, m):
        if isinstance(m, tuple):
            if m and m[0] in ('sym', 'app', 'accs', 'w'):
                return True
            return any(self.symbolic(x) for x in m)
        return False

    def mode(self, m, r):
        A = self.A
        e, M = A.new()
        self.e, self.M = e, M
        self.m = m
        self.loops = {}
        self.oddl = {}
        self.role = r
        st = St()
        v = e.sym(('arg', 'parser'), self.iter)
        cell = e.new_cell(st, v, 'SELF')
        e.write(st, cell, self.R['mode'], m)
        v = st.mem[cell]
        self.S = M.as_str(e, st, e.get(v, self.R['text']))
        self.L = e.get(v, self.R['loc'])
        self.stack = e.get(v, self.R['stack'])
        self.opts = e.get(v, self.R['opts'])
        args, outs = A.run(e, self.key, [('ref', cell, ())], st)
        self.term = self.word_class(outs)
        nxt = []
        self.paths = getattr(self, 'paths', 0) + len(outs)
        for s, v in outs:
            try:
                nxt.extend(self.path(s, v, cell, m, r))
            except (Unsure, AnalysisError) as x:
                self.note('*', 'parser step', self.label(v, r), 'und', '%s, when %s' % (x, facts_text(s)[:600]))
        return nxt

    def word_class(self, outs):
        """the characters that end a word, as the code has them"""
        need = frozenset(' =>')
        cs = set()
        for s, v in outs:
            for k in s.facts:
                if k[0] == 'app' and k[1] == 'contains' and k[3][0] == 'cls' and k[3][2] is False and need <= k[3][1] and '/' in k[3][1]:
                    cs.add(k[3])
        return cs.pop() if len(cs) == 1 else TERM

    unsure = False

    def odd(self, trace, r):
        """whether a loop on the path computes something other than a list, outside of raw text"""
        if r != 'data':
            return False
        for ev in trace:
            if ev[0] != 'loop':
                continue
            L = self.e.loops.get(ev[1])
            if L is None or not L.edges:
                continue
            if L.id not in self.oddl:
                grows = any(isinstance(v, tuple) and v and v[0] == 'seq' and any(x[0] == 'acc' and x[1] == L.id for x in v[1])
                            for N in L.nodes for v in N.mem.values())
                self.oddl[L.id] = not grows and any(self.carried(v, L.id) for N in L.nodes for v in N.mem.values())
            if self.oddl[L.id]:
                return True
        return False

    def carried(self, t, lid):
        if isinstance(t, tuple) and t:
            if t[0] == 'w' and len(t) > 2 and t[1] == lid:
                return True
            return any(self.carried(x, lid) for x in t)
        return False

    # ------------------------------------------------------------ one path
    def label(self, v, r):
        if v[0] == 'adt' and v[2] == 0 and 'option' in v[1]:
            return 'end of input'
        try:
            x = v[3][0]
            if x[2] == 1:
                return 'error %s' % self.A.p.adts[self.err]['variants'][x[3][0][2]]['name']
            k = x[3][0][3][0]
            return 'part %s' % self.A.p.adts[k[1]]['variants'][k[2]]['name']
        except (IndexError, TypeError, KeyError):
            return 'a step'

    def path(self, s, v, cell, m, r):
        e, M = self.e, self.M
        self.final = s
        lab = self.label(v, r)
        nxt = []
        n = 0
        odd = self.odd(s.trace, r)
        for s2, exp in self.ref(s.clone(), r):
            n += 1
            self.unsure = odd
            nm = self.compare(s2, v, cell, m, r, exp, lab)
            if nm is not None:
                if self.unsure:
                    self.note('P10', 'mode', lab, 'und', 'the parsing mode after a path with a loop that is not summarised')
                else:
                    nxt.append(nm)
            self.unsure = False
        return nxt

    # ------------------------------------------------------------ primitives on path facts
    def text(self, st, c, hi=None):
        hi = self.M.len_atom(self.e, c.S) if hi is None else hi
        return self.M.sub(self.e, st, c.S, c.lo, hi)

    def end(self, c):
        return self.M.len_atom(self.e, c.S)

    def empty(self, st, c):
        d = self.e.simp(st, lin_sub(self.end(c), c.lo))
        return self.e.split_bool(st, self.e.eq_terms(st, d, INT(0)))

    def starts(self, st, c, pat):
        return self.e.split_bool(st, self.M.starts(self.e, st, self.text(st, c), pat))

    def after(self, st, c, n):
        return c.at(self.e.simp(st, lin_add(c.lo, INT(n))))

    def skip(self, st, c):
        X = self.text(st, c)
        Y = self.M.trim_start(self.e, st, X)
        if Y == X:
            return c
        if Y == ('str', ''):
            return c.at(self.end(c))
        S, lo, hi = self.M.view(self.e, st, Y)
        if S != c.S:
            raise Unsure('blank skipping in %s' % show(X))
        return c.at(lo)

    def find(self, st, c, pat):
        """[(state, position or None)]"""
        X = self.text(st, c)
        if X == ('str', ''):
            return [(st, None)]
        out = []
        for s2, p in self.M.find(self.e, st.clone(), X, pat):
            out.append((s2, None if p is None else self.e.simp(s2, lin_add(c.lo, p))))
        return out

    def word(self, st, c):
        """[(state, None | end position)]"""
        out = []
        for s, b in self.empty(st, c):
            if b:
                out.append((s, None))
                continue
            for s2, p in self.find(s, c, self.term):
                if p is None:
                    out.append((s2, self.end(c)))
                    continue
                for s3, z in self.e.split_bool(s2, self.e.eq_terms(s2, self.e.simp(s2, lin_sub(p, c.lo)), INT(0))):
                    out.append((s3, None if z else p))
        return out

    def name(self, st, c):
        """[(state, None | ('bad', text) | ('ok', text, cursor))]"""
        out = []
        for s, p in self.word(st, c):
            if p is None:
                out.append((s, None))
                continue
            X = self.M.sub(self.e, s, c.S, c.lo, p)
            for s2, b in self.e.split_bool(s, self.M.valid(self.e, s, X)):
                out.append((s2, ('ok', X, c.at(p)) if b else ('bad', X)))
        return out

    # ------------------------------------------------------------ the grammar
    def ref(self, st, r):
        c = Cur(self.S, INT(0), self.L, INT(0))
        for s, b in self.empty(st, c):
            if b:
                for s2, z in self.e.split_bool(s, self.e.eq_terms(s, self.M.length(self.e, s, self.stack), INT(0))):
                    yield s2, (('end',) if z else ('missing',))
            elif r == 'data':
                for x in self.data(s, c):
                    yield x
            else:
                yield s, ('raw', r, c)

    def data(self, st, c):
        e, M = self.e, self.M
        for s, b in self.starts(st, c, ('str', '<!--')):
            if b:
                for s2, p in self.find(s, self.after(s, c, 4), ('str', '-->')):
                    if p is None:
                        yield s2, ('err', 'UnclosedComment', {'location': c})
                    else:
                        yield s2, ('text', 'Comment', M.sub(e, s2, c.S, self.after(s2, c, 4).lo, p), c.at(lin_add(p, INT(3))))
                continue
            for s2, b2 in self.starts(s, c, ('str', '<!')):
                if b2:
                    hit = list(self.doctype(s2, c))
                    for s3, x in hit:
                        if x is not None:
                            yield s3, x
                        else:
                            for y in self.tag(s3, c):
                                yield y
                    continue
                for s3, b3 in self.starts(s2, c, LT):
                    if b3:
                        for y in self.tag(s3, c):
                            yield y
                    else:
                        for s4, p in self.find(s3, c, LT):
                            hi = self.end(c) if p is None else p
                            yield s4, ('text', 'Data', M.sub(e, s4, c.S, c.lo, hi), c.at(hi))

    def doctype(self, st, c):
        e, M = self.e, self.M
        d = self.skip(st, self.after(st, c, 2))
        for s, p in self.word(st, d):
            if p is None:
                yield s, None
                continue
            X = M.sub(e, s, d.S, d.lo, p)
            bad = e.simp(s, M.valid(e, s, X)) == FALSE         # a text equal to a valid name is valid
            for s2, b in [(s, False)] if bad else e.split_bool(s, M.ideq(e, s, X, ('str', 'doctype'))):
                if not b:
                    yield s2, None
                    continue
                f = self.skip(s2, d.at(p))
                for s3, q in self.find(s2, f, GT):
                    if q is None:
                        yield s3, ('err', 'UnclosedDoctype', {'location': c})
                        continue
                    T = M.sub(e, s3, f.S, f.lo, q)
                    T = ('str', T[1].strip()) if T[0] == 'str' else e.app(STR, 'trim', T)
                    for s4, h in e.split_bool(s3, M.ideq(e, s3, T, ('str', 'html'))):
                        if h:
                            yield s4, ('text', 'Doctype', T, f.at(lin_add(q, INT(1))))
                        else:
                            yield s4, ('err', 'UnsupportedDoctype', {'location': c, 'doctype': T})

    def tag(self, st, c):
        d = self.skip(st, self.after(st, c, 1))
        for s, b in self.starts(st, d, SL):
            if b:
                for s2, x in self.close(s, c, self.skip(s, self.after(s, d, 1))):
                    yield s2, x
            else:
                for y in self.open(s, c, d):
                    yield y

    def close(self, st, c, d):
        for s, n in self.name(st, d):
            if n is None:
                yield s, ('err', 'ExpectedClosingTagIdentifier', {'location': d})
            elif n[0] == 'bad':
                yield s, ('err', 'InvalidClosingTagIdentifier', {'location': d, 'identifier_error': ('iderr', n[1])})
            else:
                f = self.skip(s, n[2])
                for s2, b in self.starts(s, f, GT):
                    if b:
                        yield s2, ('close', n[1], c, self.after(s2, f, 1))
                    else:
                        yield s2, ('err', 'ExpectedClosingTagClose', {'location': c, 'tag': n[1]})

    def attribute(self, st, c, tag):
        """[(state, None | ('err', ..) | ('attr', name, value or None, cursor))], ending after trailing blanks"""
        e, M = self.e, self.M
        for s, n in self.name(st, c):
            if n is None:
                yield s, None
            elif n[0] == 'bad':
                yield s, ('err', 'InvalidAttributeIdentifier', {'location': c, 'identifier_error': ('iderr', n[1])})
            else:
                f = self.skip(s, n[2])
                for s2, b in self.starts(s, f, EQ):
                    if not b:
                        yield s2, ('attr', n[1], None, f)
                        continue
                    g = self.skip(s2, self.after(s2, f, 1))
                    for s3, q in self.starts(s2, g, QT):
                        if not q:
                            yield s3, ('err', 'InvalidAttributeValue', {'location': g, 'tag': tag, 'attribute_name': n[1]})
                            continue
                        h = self.after(s3, g, 1)
                        for s4, p in self.find(s3, h, QT):
                            if p is None:
                                yield s4, ('err', 'UnclosedAttributeValue', {'location': g, 'tag': tag, 'attribute_name': n[1]})
                                continue
                            k = self.skip(s4, h.at(self.e.simp(s4, lin_add(p, INT(1)))))
                            yield s4, ('attr', n[1], M.sub(e, s4, h.S, h.lo, p), k)

    def open(self, st, c, d):
        e, M = self.e, self.M
        for s, n in self.name(st, d):
            if n is None:
                yield s, ('err', 'ExpectedOpeningTagIdentifier', {'location': d})
                continue
            if n[0] == 'bad':
                yield s, ('err', 'InvalidOpeningTagIdentifier', {'location': d, 'identifier_error': ('iderr', n[1])})
                continue
            tag = n[1]
            f = self.skip(s, n[2])
            lp = self.attr_loop(s, f, tag)
            if lp is not None:
                f = lp
            for s2, a in self.attribute(s, f, tag):
                if a is not None and a[0] == 'err':
                    yield s2, a
                    continue
                if a is not None:
                    yield s2, ('more', a)
                    continue
                for y in self.open_end(s2, c, tag, f, lp):
                    yield y

    def open_end(self, st, c, tag, f, lp):
        e, M = self.e, self.M
        if lp is not None and self.looks_for_blanks(st, f):
            # never any: the loop is entered and repeated after blanks (checked with its edges)
            f = self.skip(st, f)
        for s, sl in self.starts(st, f, SL):
            g = self.skip(s, self.after(s, f, 1)) if sl else f
            for s2, b in self.starts(s, g, GT):
                if not b:
                    yield s2, ('err', 'ExpectedOpeningTagClose', {'location': c, 'tag': tag})
                    continue
                h = self.after(s2, g, 1)
                for s3, vd in e.split_bool(s2, M.idin(e, s2, tag, VOID)):
                    if vd or sl:
                        nm = 'data' if vd or sl else None
                        yield s3, ('tag', 'VoidTag' if vd else 'SelfClosedTag', tag, c, h, lp, 'data')
                        continue
                    for s4, full, lim in self.depth(s3):
                        if full:
                            yield s4, ('err', 'StackLimitExceeded', {'location': c, 'tag': tag, 'limit': lim})
                            continue
                        for s5, md in self.raw_name(s4, tag):
                            yield s5, ('tag', 'OpeningTag', tag, c, h, lp, md)

    def looks_for_blanks(self, st, f):
        n = self.e.app(USZ, 'wslen', self.text(st, f))
        return any(contains(k, n) for k in st.facts) or any(contains(v, n) for v in self.final.mem.values())

    def raw_name(self, st, tag):
        e, M = self.e, self.M
        work = [st]
        for n in RAW:
            nx = []
            for s in work:
                for s2, b in e.split_bool(s, M.ideq(e, s, tag, ('str', n))):
                    if b:
                        yield s2, n
                    else:
                        nx.append(s2)
            work = nx
        for s in work:
            yield s, 'data'

    def depth(self, st):
        """[(state, refused, limit)]; the stack never exceeds the limit (it grows only here)"""
        e, M = self.e, self.M
        lim = e.get(self.opts, (('f', self.opt['max_stack_depth']),))
        for s, k in e.split_variant(st, lim):
            if k == 0:
                yield s, False, None
                continue
            n = e.get(lim, (('d', 1), ('f', 0)))
            ln = M.length(e, s, self.stack)
            lo, hi = None, 0
            ne = False
            d = lin_sub(ln, n)
            for f, x in s.facts.items():
                if f[0] == 'app' and f[1] in ('Lt', 'Eq') and x[0] == 'is' and x[1][0] == 'bool':
                    for sg, dd in ((1, d), (-1, lin_sub(n, ln))):
                        k2 = lin_sub(lin_sub(f[3], f[2]), dd)   # f3 - f2 = sg*d + k2
                        if k2[0] != 'int':
                            continue
                        k2 = k2[1]
                        if f[1] == 'Eq':
                            if x[1] == TRUE:
                                v = -k2 * sg
                                lo, hi = max(v, lo if lo is not None else v), min(v, hi)
                            elif k2 == 0:
                                ne = True
                            continue
                        if x[1] == TRUE:      # sg*d + k2 >= 1
                            if sg == 1:
                                lo = 1 - k2 if lo is None else max(lo, 1 - k2)
                            else:
                                hi = min(hi, k2 - 1)
                        else:                 # sg*d + k2 <= 0
                            if sg == 1:
                                hi = min(hi, -k2)
                            else:
                                lo = k2 if lo is None else max(lo, k2)
                elif f == d and x[0] == 'not' and INT(0) in x[1]:
                    ne = True
            if lo is not None and lo > hi:
                continue
            if ne and hi == 0:
                hi = -1
                if lo is not None and lo > hi:
                    continue
            if hi < 0:
                yield s, False, n
            elif lo == 0:
                yield s, True, n
            else:
                for s2, b in e.split_bool(s, e.eq_terms(s, ln, n)):
                    yield s2, b, n

    # ------------------------------------------------------------ loops
    def inputs(self, s, v, path=()):
        """(path, text, location) of values that hold remaining input with its location"""
        A = self.A
        if v[0] == 'adt' and A.p.adts.get(v[1], {}).get('local') and len(A.p.adts[v[1]]['variants']) == 1:
            r = {}
            role_paths(A, ('adt', v[1], v[4]), (), r)
            if set(r) == {'text', 'loc'} and len(r['text']) == 1 and len(r['loc']) == 1:
                yield path, self.M.as_str(self.e, s, self.e.get(v, r['text'][0])), self.e.get(v, r['loc'][0])
                return
        if v[0] in ('adt', 'tup'):
            for i, x in enumerate(v[3] if v[0] == 'adt' else v[1]):
                if isinstance(x, tuple) and x:
                    for y in self.inputs(s, x, path + (('f', i),)):
                        yield y

    def attr_loop(self, s, c, tag):
        """cursor after the attributes read by a loop on this path, or None"""
        e, M = self.e, self.M
        for ev in s.trace:
            if ev[0] != 'loop':
                continue
            L, node = e.loops.get(ev[1]), ev[2]
            if L is None or not L.edges:
                continue
            N = L.nodes[node]
            for cell, v in N.mem.items():
                if not isinstance(v, tuple) or v[0] not in ('adt', 'tup'):
                    continue
                for p, X, loc in self.inputs(s, v):
                    if not self.widened(X, ev[1]):
                        continue
                    en = L.entry.mem.get(cell)
                    if en is None or en[0] not in ('adt', 'tup'):
                        continue
                    hit = [(y, l) for q, y, l in self.inputs(L.entry, en) if q == p]
                    if not hit or not self.same_place(s, hit[0][0], hit[0][1], c):
                        continue
                    k = (ev[1], cell, p, tag)
                    if k not in self.loops:
                        self.loops[k] = None
                        self.loops[k] = self.check_attrs(L, cell, p, tag)
                    if self.loops[k] is None:
                        continue
                    cur = self.cursor(X, loc)
                    cur = Loop(cur, ev[1], node, cell, p)
                    return cur
        return None

    def widened(self, t, lid):
        if isinstance(t, tuple) and t:
            if t[0] == 'sym' and isinstance(t[1], tuple) and t[1][:2] == ('w', lid):
                return True
            return any(self.widened(x, lid) for x in t if isinstance(x, tuple))
        return False

    def cursor(self, X, loc):
        S, lo, hi = self.M.view(self.e, St(), X)
        return Cur(S, lo, loc, lo)

    def same_place(self, s, X, loc, c):
        return X == self.text(s, c) and self.loc_diff(s, loc, c) is None

    def check_attrs(self, L, cell, p, tag):
        """one iteration of the attribute loop reads one attribute; returns the recorded accumulators"""
        e, M = self.e, self.M
        accs = {}
        for c2, v in L.nodes[0].mem.items():
            if v[0] == 'seq' and any(x[0] == 'acc' and x[1] == L.id for x in v[1]):
                accs[c2] = v
        where = self.A.name(L.where[0]) if L.where and L.where[0] in self.A.p.fns else 'attributes'
        for i, j, bk, base in L.edges:
            X, loc = [(y, l) for q, y, l in self.inputs(bk, L.nodes[i].mem[cell]) if q == p][0]
            cur = self.cursor(X, loc)
            b = bk.mem.get(cell)
            got = [(y, l) for q, y, l in self.inputs(bk, b) if q == p] if b is not None else []
            if not got:
                self.note('P07', 'attributes', where, 'und', 'the remaining input of the attribute loop is lost')
                continue
            was = self.unsure
            self.unsure = was or self.odd(bk.trace[base:], self.role)
            for s2, a in self.attribute(bk.clone(), cur, tag):
                if a is None or a[0] != 'attr':
                    self.note('P07', 'attributes', where, 'bad', 'an attribute is read where there is none (%s), when %s' % (a and a[1], facts_text(s2)[-500:]))
                    continue
                if not self.same_place(s2, got[0][0], got[0][1], a[3]):
                    self.mism('P07', 'attributes', where, s2, got[0][0], self.text(s2, a[3]), 'after an attribute parsing continues at %s instead of %s')
                    continue
                bad = None
                n = 0
                for c2, nv in accs.items():
                    bv = bk.mem.get(c2)
                    if bv is None or bv[0] != 'seq':
                        continue
                    iv = L.nodes[i].mem.get(c2, nv)
                    add = bv[1][len(iv[1]):] if bv[1][:len(iv[1])] == iv[1] else None
                    if add is None:
                        bad = ('und', 'the attribute list %s' % show(bv))
                        continue
                    if len(add) != 1 or add[0][0] != 'one':
                        bad = ('bad', 'one attribute of the text becomes %d in the list' % len(add))
                        continue
                    n += 1
                    bad = self.attr_diff(s2, add[0][1], a)
                if bad is None and n == 0:
                    bad = ('und', 'no attribute list is built in the loop')
                if bad is None:
                    self.note('P07', 'attributes', where, 'ok', 'each attribute is read whole and kept, in order')
                else:
                    self.note('P07', 'attributes', where, bad[0], '%s, when %s' % (bad[1], facts_text(s2)[-500:]))
            self.unsure = was
        return accs

    def attr_diff(self, s, v, a):
        e, M = self.e, self.M
        v = e.strip(s, v)
        if v[0] != 'adt':
            return 'und', 'attribute %s' % show(v)
        nm = val = None
        t = ('adt', v[1], v[4])
        for i in range(len(v[3])):
            ft = e.field_type(t, v[2], i)
            if ft == ('adt', self.A.s.ident_ty, ()):
                nm = v[3][i]
            elif ft[0] == 'adt' and ft[1] == 'std::option::Option':
                val = v[3][i]
        if nm is None or val is None:
            return 'und', 'attribute %s' % show(v)
        X = M.as_str(e, s, nm)
        if not M.same_text(e, s, X, a[1]):
            return ('bad' if self.known(X) else 'und'), 'the attribute name is kept as %s instead of %s' % (show(X), show(a[1]))
        k = e.variant(s, val)
        if k is None:
            return 'und', 'attribute value %s' % show(val)
        if (k == 1) != (a[2] is not None):
            return 'bad', 'an attribute %s is kept %s' % (('with value', 'without it') if a[2] is not None else ('without value', 'with one'))
        if k == 1:
            Y = M.text_root(e, e.strip(s, e.payload(val, 1)))
            if Y is None:
                return 'und', 'attribute value %s' % show(val)
            if not self.eq_text(s, Y, a[2]):
                return ('bad' if self.known(Y) else 'und'), 'the attribute value is kept as %s instead of %s' % (show(Y), show(a[2]))
        return None

    # ------------------------------------------------------------ comparison
    def eq_text(self, s, a, b):
        e, M = self.e, self.M
        a, b = e.simp(s, a), e.simp(s, b)
        if M.same_text(e, s, a, b):
            return True
        if a[0] in ('app', 'sym') and b[0] in ('app', 'sym') and e.typeof(a) == e.typeof(b):
            try:
                v, w = M.view(e, s, a), M.view(e, s, b)
                if v[0] == w[0] and zero(e, s, lin_sub(v[1], w[1])) and zero(e, s, lin_sub(v[2], w[2])):
                    return True
            except AnalysisError:
                pass
        for x, y in ((a, b), (b, a)):
            if x == ('str', '') and y[0] == 'app' and y[1] == 'sub' and zero(e, s, lin_sub(y[4], y[3])):
                return True
        if a[0] == 'app' and b[0] == 'app' and a[1] == b[1] == 'trim':
            return self.eq_text(s, a[2], b[2])
        return False

    def known(self, t):
        """built from slices and positions the comparison understands"""
        if not isinstance(t, tuple) or not t:
            return True
        if t[0] == 'app':
            if t[1] not in ('sub', 'findpos', 'wslen', 'len', 'trim', 'lower', 'upper', 'text', 'iderr', 'rfindpos', 'locpart', 'lasttrim', 'trimend', 'last', 'init', 'encode', 'replace', 'nchars', 'trimlo', 'trimhi', 'Data', 'len_utf8', 'first'):
                return False
            return all(self.known(x) for x in t[2:])
        if t[0] == 'sym':
            x = t[1]
            return not (isinstance(x, tuple) and x and x[0] in ('havoc', 'unk', '#'))
        return all(self.known(x) for x in t if isinstance(x, tuple))

    def mism(self, prop, rule, inst, s, got, want, msg):
        st = 'bad' if self.known(got) and not self.raw_w(got) else 'und'
        self.note(prop, rule, inst, st, (msg % (show(got), show(want))) + ', when ' + facts_text(s)[-int(os.environ.get("FUSER_W", 700)):])

    def raw_w(self, t):
        return False

    def loc_diff(self, s, v, c):
        """None, or ('bad'|'und', text) when the location v is not that of cursor c"""
        e, M, S = self.e, self.M, self.A.s
        f = {n: e.get(v, (('f', i),)) for n, i in S.loc_field.items()}
        b = {n: e.get(c.loc, (('f', i),)) for n, i in S.loc_field.items()}
        want = lin_add(b['offset'], lin_sub(c.lo, c.lo0))
        d = e.simp(s, lin_sub(f['offset'], want))
        if not zero(e, s, d):
            # the end of a text that is known to be empty, and the like
            return ('bad' if self.known(f['offset']) else 'und'), 'byte offset %s instead of %s' % (show(f['offset']), show(want))
        for n in ('line', 'column'):
            t, parts = f[n], []
            while t[0] == 'app' and t[1] == 'locpart':
                parts.insert(0, t[4])
                t = t[3]
            if t != b[n]:
                return ('bad' if self.known(t) else 'und'), 'a %s that does not belong to the offset' % n
            pos = c.lo0
            for X in parts:
                if X == ('str', ''):
                    continue
                T, lo, hi = M.view(e, s, X)
                if T != c.S or not zero(e, s, lin_sub(lo, pos)):
                    return 'und', 'a %s counted over %s' % (n, show(X))
                pos = hi
            if parts and not zero(e, s, lin_sub(pos, c.lo)):
                return 'bad', 'a %s that does not belong to the offset' % n
        return None

    def compare(self, s, v, cell, m, r, x, lab):
        e, M, A = self.e, self.M, self.A
        nv = s.mem.get(cell) or self.final.mem[cell]
        if v[0] != 'adt':
            raise Unsure('result %s' % show(v))
        got_end = v[2] == 0
        res = v[3][0] if not got_end else None
        if res is not None and res[0] != 'adt':
            raise Unsure('result %s' % show(v))
        err = res is not None and res[2] == 1
        when = ', when ' + facts_text(s)[-int(os.environ.get("FUSER_W", 700)):]
        # ---------------- end of input
        if x[0] == 'end':
            if got_end:
                self.note('P08', 'end', 'end of input', 'ok', 'parsing ends when no element is open')
                self.note('P13', 'end', 'end of input', 'ok', 'parsing ends')
            else:
                self.note('P13', 'end', 'end of input', 'bad', 'at the end of the input, with no element open, %s is produced%s' % (lab, when))
            return None
        if got_end:
            if x[0] == 'missing':
                self.note('P08', 'end', 'end of input', 'bad', 'parsing ends without error although elements are open')
            else:
                self.note('P07', 'lost input', 'end of input', 'bad', 'parsing ends before the end of the input' + when)
            return None
        if x[0] == 'missing':
            self.missing(s, res, err, lab, nv)
            return None
        if x[0] == 'more':
            self.note('P07', 'attributes', lab, 'bad', 'an attribute %s is not read%s' % (show(x[1][1]), when))
            return None
        if x[0] == 'raw':
            return self.raw(s, res, err, lab, nv, x, when)
        if x[0] == 'close':
            return self.closing(s, res, err, lab, nv, m, x, when)
        # ---------------- errors
        if x[0] == 'err':
            self.error(s, res, err, lab, x, when)
            return None
        if err:
            name = self.A.p.adts[self.err]['variants'][res[3][0][2]]['name'] if res[3][0][0] == 'adt' else '?'
            prop = 'P09' if name == 'StackLimitExceeded' else 'P08' if name in ('UnexpectedClosingTag', 'MismatchedClosingTag', 'MissingClosingTags') else 'P07'
            self.note(prop, 'accepted', x[1], 'bad', 'the error %s is given for a well-formed %s%s' % (name, x[1], when))
            return None
        ev = self.event(s, res)
        kind = self.kname(ev)
        if x[0] == 'text':
            if kind != x[1]:
                self.note('P07', 'kind', x[1], 'bad', 'a %s is taken as %s%s' % (x[1], kind, when))
                return None
            T = M.text_root(e, e.strip(s, ev[3][0]))
            if T is None:
                raise Unsure('content %s' % show(ev))
            if not self.eq_text(s, T, x[2]):
                self.mism('P07', 'text', x[1], s, T, x[2], 'the text is kept as %s instead of %s')
            else:
                self.note('P07', 'text', x[1], 'ok', 'kept as it occurs in the input')
            self.rest(s, nv, x[3], x[1], 'P07')
            self.stack_is(s, nv, 'same', x[1])
            return self.next_mode(s, nv, 'data', x[1])
        if x[0] == 'tag':
            return self.opened(s, ev, kind, nv, x, lab, when)
        raise Unsure('grammar result %r' % (x[0],))

    def event(self, s, res):
        v = self.e.strip(s, res[3][0])
        if v[0] == 'adt' and v[1] == self.ev:
            v = self.e.strip(s, v[3][0])
        if v[0] != 'adt':
            raise Unsure('part %s' % show(v))
        return v

    def kname(self, ev):
        return self.A.p.adts[ev[1]]['variants'][ev[2]]['name']

    def fields(self, ev):
        return dict(zip([f['name'] for f in self.A.p.adts[ev[1]]['variants'][ev[2]]['fields']], ev[3]))

    def rest(self, s, nv, c, inst, prop):
        e, M = self.e, self.M
        X = M.as_str(e, s, e.get(nv, self.R['text']))
        W = self.text(s, c)
        if not self.eq_text(s, X, W):
            self.mism(prop, 'continues', inst, s, X, W, 'parsing continues with %s instead of %s')
            return
        self.note(prop, 'continues', inst, 'ok', 'parsing continues directly after it')
        d = self.loc_diff(s, e.get(nv, self.R['loc']), c)
        if d is None:
            self.note('P14', 'position', inst, 'ok', 'the location moves with the input')
        else:
            self.note('P14', 'position', inst, d[0], 'after a %s the location has %s, when %s' % (inst, d[1], facts_text(s)[-500:]))
        # progress
        if not isinstance(c, Loop):
            lo = e.simp(s, c.lo)
            if e.nonzero(s, lo) and c.S == self.S:
                self.note('P13', 'progress', inst, 'ok', 'at least one byte is consumed')
            elif inst == 'RawData':
                nm = e.simp(s, e.get(nv, self.R['mode']))
                if nm != self.m:
                    self.note('P13', 'progress', inst, 'ok', 'the raw text ends')
                else:
                    self.note('P13', 'progress', inst, 'bad', 'an empty raw text is produced without leaving the raw mode, when ' + facts_text(s)[-500:])
            elif c.S == self.S:
                self.note('P13', 'progress', inst, 'bad' if lo == INT(0) else 'und', 'nothing is consumed, when ' + facts_text(s)[-500:])

    def stack_of(self, s, nv):
        st = self.e.strip(s, self.e.get(nv, self.R['stack']))
        if st[0] == 'seq':
            return tuple(st[1])
        return (('base', st),)

    def stack_is(self, s, nv, how, inst, tag=None, c=None):
        e, M = self.e, self.M
        got = self.stack_of(s, nv)
        base = (('base', self.stack),)
        if how == 'same':
            ok = got == base or (got == () and zero(e, s, M.length(e, s, self.stack)))
            if ok:
                self.note('P08', 'open elements', inst, 'ok', 'unchanged')
            else:
                self.note('P08', 'open elements', inst, 'bad' if self.seq_known(got) else 'und', 'the list of open elements becomes %s at a %s' % (self.show_stack(got), inst))
        elif how == 'pop':
            ok = got == (('base', ('app', 'init', self.stack)),) or (got == () and e.simp(s, M.length(e, s, self.stack)) == INT(1))
            if ok:
                self.note('P08', 'open elements', inst, 'ok', 'the innermost open element is closed')
            else:
                self.note('P08', 'open elements', inst, 'bad' if self.seq_known(got) else 'und', 'a closing tag leaves the open elements %s' % self.show_stack(got))
        elif how == 'push':
            if got and got[-1][0] == 'one' and (got[:-1] == base or (got[:-1] == () and zero(e, s, M.length(e, s, self.stack)))):
                el = got[-1][1]
                X = M.as_str(e, s, e.get(e.strip(s, el), self.E['name']))
                d = self.loc_diff(s, e.get(e.strip(s, el), self.E['loc']), c)
                if not self.eq_text(s, X, tag):
                    self.note('P08', 'open elements', inst, 'bad' if self.known(X) else 'und', 'the open element is recorded as %s instead of %s' % (show(X), show(tag)))
                elif d is not None:
                    self.note('P08', 'open elements', inst, d[0], 'the open element is recorded with %s' % d[1])
                    self.note('P14', 'open elements', inst, d[0], 'the open element is recorded with %s' % d[1])
                else:
                    self.note('P08', 'open elements', inst, 'ok', 'recorded with name and place')
            else:
                self.note('P08', 'open elements', inst, 'bad' if self.seq_known(got) else 'und', 'an opening tag makes the open elements %s' % self.show_stack(got))

    def seq_known(self, got):
        return all(x[0] in ('one', 'base') for x in got) and all(x[0] == 'one' or x[1] == self.stack or x[1] == ('app', 'init', self.stack) for x in got)

    def show_stack(self, got):
        return '[%s]' % ', '.join('the same' if x == ('base', self.stack) else 'all but the innermost' if x == ('base', ('app', 'init', self.stack)) else show(x[1])[:120] for x in got)

    def next_mode(self, s, nv, r, inst):
        return (self.e.simp(s, self.e.get(nv, self.R['mode'])), r)

    # ---- opening, self closed, void
    def opened(self, s, ev, kind, nv, x, lab, when):
        e, M = self.e, self.M
        _, want, tag, c, h, lp, md = x
        if kind != want:
            prop = 'P11' if 'VoidTag' in (kind, want) else 'P07'
            self.note(prop, 'kind', want, 'bad', 'a %s is taken as %s%s' % (want, kind, when))
            if prop == 'P11':
                self.note('P08', 'kind', want, 'bad', 'a %s is taken as %s%s' % (want, kind, when))
            return None
        f = self.fields(ev)
        self.note('P11', 'kind', want, 'ok', '')
        X = M.as_str(e, s, f['tag'])
        if not self.eq_text(s, X, tag):
            self.mism('P07', 'tag name', want, s, X, tag, 'the tag name is kept as %s instead of %s')
        else:
            self.note('P07', 'tag name', want, 'ok', 'kept with its spelling')
        self.attrs(s, f['attributes'], lp, want)
        if lp is not None:
            h2 = h
        self.rest(s, nv, h, want, 'P07')
        if isinstance(lp, Loop) or h.S != self.S:
            self.note('P13', 'progress', want, 'ok', 'the tag delimiters are consumed')
        self.stack_is(s, nv, 'push' if want == 'OpeningTag' else 'same', want, tag, c)
        if want == 'OpeningTag':
            self.note('P09', 'depth', 'within the limit', 'ok', 'an opening tag within the limit is accepted')
        return self.next_mode(s, nv, md, want)

    def attrs(self, s, v, lp, inst):
        e, M = self.e, self.M
        q = self.vec(s, v)
        if q is None:
            self.note('P07', 'attribute list', inst, 'und', 'attributes %s' % show(v)[:300])
            return
        if lp is None:
            if q == ():
                self.note('P07', 'attribute list', inst, 'ok', 'no attributes')
            else:
                self.note('P07', 'attribute list', inst, 'bad' if all(z[0] == 'one' for z in q) else 'und', 'a tag without attributes gets %s' % show(('seq', q)))
            return
        if len(q) == 1 and q[0][0] == 'acc' and q[0][1] == lp.lid:
            self.note('P07', 'attribute list', inst, 'ok', 'all attributes read, in order')
        elif q == ():
            self.note('P07', 'attribute list', inst, 'bad', 'the attributes read are dropped')
        elif all(z[0] == 'one' or (z[0] == 'acc' and z[1] == lp.lid) for z in q):
            self.note('P07', 'attribute list', inst, 'bad', 'the attribute list is %s' % show(('seq', q)))
        else:
            self.note('P07', 'attribute list', inst, 'und', 'attributes %s' % show(('seq', q))[:300])

    def vec(self, s, v, d=0):
        e = self.e
        v = e.strip(s, v)
        if d > 5:
            return None
        if v[0] == 'seq':
            return tuple(v[1])
        if v[0] == 'rc':
            return self.vec(s, e.load(s, v), d + 1)
        if v[0] == 'adt' and len(v[3]) == 1:
            return self.vec(s, v[3][0], d + 1)
        return None

    # ---- closing tags
    def closing(self, s, res, err, lab, nv, m, x, when):
        e, M = self.e, self.M
        _, tag, c, h = x
        ln = M.length(e, s, self.stack)
        out = None
        for s2, none in e.split_bool(s, e.eq_terms(s, ln, INT(0))):
            if none:
                self.error(s2, res, err, lab, ('err', 'UnexpectedClosingTag', {'location': c, 'tag': tag}), when)
                continue
            top = e.sym(('last', self.stack), self.elem)
            T = M.as_str(e, s2, e.get(top, self.E['name']))
            for s3, same in e.split_bool(s2, M.ideq(e, s2, T, tag)):
                if not same:
                    self.error(s3, res, err, lab, ('err', 'MismatchedClosingTag', {
                        'opening_tag': T, 'opening_location': ('value', e.get(top, self.E['loc'])), 'closing_tag': tag, 'closing_location': c}), when)
                    continue
                if err:
                    name = self.A.p.adts[self.err]['variants'][res[3][0][2]]['name']
                    self.note('P08', 'accepted', 'ClosingTag', 'bad', 'the error %s is given for a closing tag that matches the innermost open element%s' % (name, when))
                    continue
                ev = self.event(s3, res)
                kind = self.kname(ev)
                if kind != 'ClosingTag':
                    self.note('P07', 'kind', 'ClosingTag', 'bad', 'a closing tag is taken as %s%s' % (kind, when))
                    continue
                X = M.as_str(e, s3, self.fields(ev)['tag'])
                if not self.eq_text(s3, X, tag):
                    self.mism('P07', 'tag name', 'ClosingTag', s3, X, tag, 'the tag name is kept as %s instead of %s')
                else:
                    self.note('P07', 'tag name', 'ClosingTag', 'ok', 'kept with its spelling')
                self.note('P08', 'accepted', 'ClosingTag', 'ok', 'a closing tag of the innermost open element is accepted')
                self.rest(s3, nv, h, 'ClosingTag', 'P07')
                self.stack_is(s3, nv, 'pop', 'ClosingTag')
                out = self.next_mode(s3, nv, 'data', 'ClosingTag')
        return out

    # ---- errors
    BAL = ('UnexpectedClosingTag', 'MismatchedClosingTag', 'MissingClosingTags')

    def error(self, s, res, err, lab, x, when):
        e, M = self.e, self.M
        _, name, want = x
        prop = 'P08' if name in self.BAL else 'P09' if name == 'StackLimitExceeded' else 'P14'
        if not err:
            self.note(prop if prop != 'P14' else 'P07', 'refused', name, 'bad', 'a %s is accepted where the error %s is due%s' % (lab, name, when))
            return
        v = e.strip(s, res[3][0])
        if v[0] != 'adt':
            raise Unsure('error %s' % show(v))
        got = self.A.p.adts[self.err]['variants'][v[2]]['name']
        if got != name:
            p2 = 'P09' if got == 'StackLimitExceeded' else 'P08' if got in self.BAL else prop
            self.note(p2, 'error kind', name, 'bad', 'the error %s is given where %s is due%s' % (got, name, when))
            if p2 != prop:
                self.note(prop, 'error kind', name, 'bad', 'the error %s is given where %s is due%s' % (got, name, when))
            return
        f = dict(zip(self.errs[name][1], v[3]))
        good = True
        for k, w in sorted(want.items()):
            if k not in f:
                self.note('P14', 'error details', name, 'und', 'the error has no field %s' % k)
                good = False
                continue
            g = f[k]
            r = None
            if isinstance(w, Cur):
                r = self.loc_diff(s, g, w)
            elif w[0] == 'value':
                if e.simp(s, g) != w[1]:
                    r = ('bad' if self.known(g) else 'und', '%s instead of %s' % (show(g), show(w[1])))
            elif w[0] == 'iderr':
                g = e.strip(s, g)
                if not (g[0] == 'app' and g[1] == 'iderr' and self.eq_text(s, g[2], w[1])):
                    r = ('bad' if g[0] == 'app' and g[1] == 'iderr' and self.known(g) else 'und', 'the reason %s' % show(g))
            elif k == 'limit':
                if e.simp(s, g) != e.simp(s, w):
                    r = ('bad' if e.simp(s, g)[0] in ('int', 'lin', 'app', 'sym') and self.known(g) else 'und', 'the limit %s instead of the configured one' % show(g))
            else:
                X = M.as_str(e, s, g)
                if not self.eq_text(s, X, w):
                    r = ('bad' if self.known(X) else 'und', '%s instead of %s' % (show(X), show(w)))
            if r is not None:
                good = False
                ps = {'P14', prop}
                for p in sorted(ps):
                    self.note(p, 'error details', name, r[0], '%s carries in `%s` %s%s' % (name, k, r[1], when))
        if good:
            for p in sorted({'P14', prop}):
                self.note(p, 'error details', name, 'ok', 'carries %s' % ', '.join(sorted(want)))

    # ---- unclosed elements
    def missing(self, s, res, err, lab, nv):
        e, M = self.e, self.M
        when = ', when ' + facts_text(s)[-400:]
        if not err:
            self.note('P08', 'end', 'unclosed elements', 'bad', 'at the end of the input with open elements %s is produced%s' % (lab, when))
            return
        v = e.strip(s, res[3][0])
        name = self.A.p.adts[self.err]['variants'][v[2]]['name'] if v[0] == 'adt' else '?'
        if name != 'MissingClosingTags':
            self.note('P08', 'end', 'unclosed elements', 'bad', 'at the end of the input with open elements the error %s is given%s' % (name, when))
            return
        f = dict(zip(self.errs[name][1], v[3]))
        top = e.sym(('last', self.stack), self.elem)
        inner = e.strip(s, f['inner'])
        r = self.pair_diff(s, inner, top)
        for p in ('P08', 'P14'):
            if r is None:
                self.note(p, 'unclosed', 'innermost', 'ok', 'the innermost open element with its place')
            else:
                self.note(p, 'unclosed', 'innermost', r[0], 'the innermost unclosed element is given as %s%s' % (show(inner), when))
        rest = ('app', 'init', self.stack)
        q = self.vec(s, f['others'])
        inst = 'the others'
        if q is None:
            self.note('P08', 'unclosed', inst, 'und', 'others %s' % show(f['others'])[:300])
            return
        if q == ():
            b = e.eq_terms(s, M.length(e, s, self.stack), INT(1))
            ok = e.simp(s, b) == TRUE or e.simp(s, M.length(e, s, rest)) == INT(0)
            self.note('P08', 'unclosed', inst, 'ok' if ok else 'bad', 'the other unclosed elements are not listed' + when if not ok else 'none')
            return
        if len(q) > 1 and q[-1][0] == 'acc' and any(contains(z, rest) for z in q[:-1]):
            self.note('P08', 'unclosed', inst, 'und', 'the others are built by position')
            return
        if len(q) != 1 or q[0][0] != 'acc':
            self.note('P08', 'unclosed', inst, 'bad' if all(z[0] in ('one', 'acc') for z in q) and any(z[0] == 'one' for z in q) else 'und', 'others %s' % show(('seq', q))[:300])
            return
        for p in ('P08', 'P14'):
            st, msg = self.others(s, q[0], rest)
            self.note(p, 'unclosed', inst, st, msg + (when if st != 'ok' else ''))

    def pair_diff(self, s, v, el):
        e, M = self.e, self.M
        if v[0] != 'tup' or len(v[1]) != 2:
            return 'und', ''
        X = M.as_str(e, s, v[1][0])
        if X != M.as_str(e, s, e.get(el, self.E['name'])):
            return ('bad' if self.known(X) else 'und'), 'name'
        if e.simp(s, v[1][1]) != e.get(el, self.E['loc']):
            return ('bad' if self.known(v[1][1]) else 'und'), 'place'
        return None

    def others(self, s, acc, rest):
        e, M = self.e, self.M
        L = e.loops.get(acc[1])
        if L is None or acc[2][0] != 'w':
            return 'und', 'others are not built by a recognised loop'
        cell = acc[2][3]
        cell = cell if cell in L.nodes[0].mem else acc[2][-1]
        if L.entry.mem.get(cell, (0, 0))[1] != ():
            return 'und', 'others start with %s' % show(L.entry.mem.get(cell, ('str', '?')))
        for c, v in L.entry.mem.items():
            cut = [y for y in sub_terms(v) if y[:2] == ('it', 'take') and any(z[0] == 'int' for z in y[2:] if isinstance(z, tuple) and z)] if c[0] == 'VI' else []
            if cut:
                return 'bad', 'only some of the unclosed elements are listed: %s' % show(cut[0])[-120:]
        for c, v in L.nodes[0].mem.items():
            if c[0] == 'VI' and self.iter_kinds(v) - {'map', 'slice', 'rev', 'vec', 'cloned', 'copied'}:
                return 'und', 'others are drawn from %s' % show(v)[:200]
        for i, j, bk, base in L.edges:
            t = bk.trace
            at = max(n for n, ev in enumerate(t) if ev[0] == 'loop' and ev[1] == L.id)
            nx = [ev for ev in t[at:] if ev[0] in ('next', 'nextback') and ev[1] == rest]
            if len(nx) != 1 or nx[0][3] is None:
                return 'und', 'a step of the list of others draws %d elements' % len(nx)
            b = bk.mem.get(cell)
            n = L.nodes[i].mem[cell]
            if b is None or b[0] != 'seq' or b[1][:len(n[1])] != n[1]:
                return 'und', 'others'
            add = b[1][len(n[1]):]
            if len(add) != 1 or add[0][0] != 'one':
                return 'bad', 'an unclosed element is listed %d times' % len(add)
            r = self.pair_diff(bk, e.strip(bk, add[0][1]), nx[0][3])
            if r is not None:
                return r[0], 'an unclosed element is listed as %s' % show(add[0][1])
        t = s.trace
        at = [n for n, ev in enumerate(t) if ev[0] == 'loop' and ev[1] == L.id]
        if not at or not any(ev[0] == 'next' and ev[1] == rest and ev[3] is None for ev in t[at[-1]:]):
            return 'und', 'the list of others may end early'
        if not any(ev[0] == 'iter' and ev[1] == rest for ev in t):
            return 'und', 'others are not drawn from all open elements'
        return 'ok', 'all other open elements with their places'

    def iter_kinds(self, v):
        out = set()

        def walk(x):
            if isinstance(x, tuple) and x:
                if x[0] == 'it':
                    out.add(x[1])
                for y in x:
                    walk(y)
        walk(v)
        return out

    # ---- raw text
    def raw(self, s, res, err, lab, nv, x, when):
        e, M = self.e, self.M
        _, tag, c = x
        if err:
            self.note('P10', 'raw text', tag, 'bad', 'an error (%s) is given inside raw text%s' % (lab, when))
            return None
        ev = self.event(s, res)
        kind = self.kname(ev)
        if kind != 'RawData':
            self.note('P10', 'raw text', tag, 'bad', 'the content of %s is taken as %s%s' % (tag, kind, when))
            return None
        T = M.text_root(e, e.strip(s, ev[3][0]))
        if T is None:
            raise Unsure('raw text %s' % show(ev))
        S, lo, hi = M.view(e, s, T)
        if T == ('str', ''):
            S, lo, hi = self.S, INT(0), INT(0)
        if S != self.S or lo != INT(0):
            st = 'bad' if self.known(T) else 'und'
            for p in ('P10', 'P07'):
                self.note(p, 'raw text', tag, st, 'the raw text is kept as %s%s' % (show(T), when))
            return None
        d = c.at(hi)
        self.rest(s, nv, d, 'RawData', 'P10')
        self.stack_is(s, nv, 'same', 'RawData')
        st, msg = self.raw_end(s, tag, d)
        self.note('P10', 'raw text', tag, st, msg + (when if st != 'ok' else ''))
        self.note('P07', 'text', 'RawData', 'ok', 'kept as it occurs in the input')
        return self.next_mode(s, nv, 'data', 'RawData')

    def matches(self, st, c, tag):
        """is there a well-formed closing tag `tag` at c: [(state, bool)]"""
        e, M = self.e, self.M
        out = []
        for s, b in self.starts(st, c, LT):
            if not b:
                out.append((s, False))
                continue
            d = self.skip(s, self.after(s, c, 1))
            for s2, b2 in self.starts(s, d, SL):
                if not b2:
                    out.append((s2, False))
                    continue
                for s3, x in self.close(s2, c, self.skip(s2, self.after(s2, d, 1))):
                    if x[0] != 'close':
                        out.append((s3, False))
                        continue
                    out.extend(e.split_bool(s3, M.ideq(e, s3, x[1], ('str', tag))))
        return out

    def raw_end(self, s, tag, d):
        e, M = self.e, self.M
        S = d.S
        end = self.end(d)
        atend = zero(e, s, lin_sub(end, d.lo)) or d.lo == end
        if not atend:
            rs = [b for _, b in self.matches(s.clone(), d, tag)]
            if not all(rs):
                return ('bad' if not any(rs) or True else 'und'), 'raw text ends at %s, where there is no well-formed closing tag for %s' % (show(d.lo), tag)
        # nothing before qualifies
        lo0 = self.scan(s, d, atend)
        if lo0[0] != 'ok':
            return lo0
        lo, L, cell, path, node = lo0[1:]
        # from lo to the end of the raw text there is no further `<`
        head = M.sub(e, s, S, lo, d.lo)
        if head != ('str', '') and M.contains(e, s, head, LT) != FALSE:
            return 'bad' if self.known(head) and not self.wsym(head) else 'und', 'whether a closing tag starts within %s is not looked at' % show(head)
        if L is None:
            return 'ok', 'there is no `<` before the end of the raw text'
        from models import at_path
        st0 = at_path(L.entry.mem.get(cell), path, L.nodes[0].mem.get(cell))
        if st0 != INT(0):
            return 'bad' if st0 is not None and st0[0] == 'int' else 'und', 'the search for the closing tag starts at %s' % (show(st0) if st0 else '?')
        for i, j, bk, base in L.edges:
            w = at_path(L.nodes[i].mem.get(cell), path)
            b = at_path(bk.mem.get(cell), path, L.nodes[i].mem.get(cell))
            if w is None or b is None:
                return 'und', 'search position lost'
            T = M.sub(e, bk, S, w, end)
            if T[0] == 'app' and lin_sub(b, w) == ('app', 'len_utf8', ('app', 'first', T)):
                # one character further
                if M.starts(e, bk, T, LT) == FALSE:
                    continue
                if M.starts(e, bk, T, LT) == TRUE:
                    b = lin_add(w, INT(1))
            # first `<` at or after w
            for s2, p in self.find(bk.clone(), d.at(w), LT):
                if p is None:
                    continue
                q = d.at(p)
                skip = e.simp(s2, lin_sub(b, p))
                if not (zero(e, s2, skip) or skip == INT(1)):
                    return 'und', 'the search moves from %s to %s' % (show(w), show(b))
                if skip == INT(1):
                    for s3, hit in self.matches(s2, q, tag):
                        if hit:
                            return 'bad', 'a well-formed closing tag %s is passed over, when %s' % (tag, facts_text(s3)[-600:])
        return 'ok', 'ends at the first well-formed closing tag'

    def wsym(self, t):
        if isinstance(t, tuple) and t:
            if t[0] == 'sym' and isinstance(t[1], tuple) and t[1] and t[1][0] == 'w':
                return True
            return any(self.wsym(x) for x in t if isinstance(x, tuple))
        return False

    def scan(self, s, d, atend):
        """('ok', position reached by the search loop, loop, cell, path, node)"""
        from models import cursors
        e, M = self.e, self.M
        for ev in reversed(s.trace):
            if ev[0] != 'loop':
                continue
            L = e.loops.get(ev[1])
            if L is None:
                continue
            ws = []
            for c, v in L.nodes[ev[2]].mem.items():
                if isinstance(v, tuple):
                    cursors(v, ev[1], (), ws, c)
            ws = [(w, c, p) for w, c, p in ws if e.typeof(w)[0] in ('int', 'other') and (contains(d.lo, w) or any(contains(k, w) for k in s.facts))]
            pref = [x for x in ws if contains(d.lo, x[0])] or ws
            if not pref:
                continue
            w, c, p = pref[0]
            return ('ok', w, L, c, p, ev[2])
        return ('ok', INT(0), None, None, None, None)


class Loop(Cur):
    __slots__ = ('lid', 'node', 'cell', 'path')

    def __init__(self, c, lid, node, cell, path):
        Cur.__init__(self, c.S, c.lo, c.loc, c.lo0)
        self.lid, self.node, self.cell, self.path = lid, node, cell, path


def analyse(ctx):
    A = Ana(ctx)
    g = Grammar(A)
    if g.key is not None:
        g.explore()
    return A, g


def report(rep, out, prop):
    """one obligation per case; within one rule and instance a violation wins over undecided"""
    d = {}
    for f in out:
        if f.prop != prop and f.prop != '*':
            continue
        d.setdefault((f.rule, f.inst), []).append(f)
    for (rule, inst), fs in sorted(d.items()):
        bad = [f for f in fs if f.status == 'bad']
        und = [f for f in fs if f.status == 'und']
        if bad:
            rep.bad(rule, inst, bad[0].msg)
        elif und:
            rep.undecided(rule, inst, und[0].msg)
        else:
            for f in fs:
                if f.status == 'ok':
                    rep.ok(rule, inst, f.msg)


def claim(ctx, rep, prop, required=(), load=False, step=True):
    """the obligations of one property from the parser step and, if asked, from the loading functions"""
    from rules import load as loading
    out = []
    A = None
    if step:
        try:
            A, g = analyse(ctx)
        except (Unsure, AnalysisError, RecursionError, KeyError, IndexError, TypeError, ValueError, AttributeError) as x:
            import traceback
            rep.undecided('parser step', 'parser', str(x) if isinstance(x, (Unsure, AnalysisError)) else traceback.format_exc()[-900:])
            g = None
        if g is not None:
            if g.key is None:
                rep.missing('parser step', 'parser iteration (Iterator yielding parsed parts)')
                return
            out += g.out
            rep.notes.append('parser step: %d paths in %d modes (%s)' % (g.paths, len(g.modes), ', '.join(sorted({r for rs in g.modes.values() for r in rs}))))
    if load:
        A, ld = loading.analyse(ctx, A)
        out += ld.out
    if prop == 'P37':
        # places whose line or column is not counted over the text before them
        out = [Finding('P37', f.rule, f.inst, f.status, f.msg) for f in out
               if f.prop == 'P14' and (f.rule == 'position' and f.status == 'ok' or f.status == 'bad' and 'that does not belong to the offset' in f.msg)]
    report(rep, out, prop)
    if rep.und or any(f.status == 'und' for f in out):
        return
    have = {(f.rule, f.inst) for f in out if f.prop == prop} | {(f.rule, None) for f in out if f.prop == prop}
    for rule, inst in required:
        if (rule, inst) not in have:
            rep.missing(rule, inst or rule)


TECHNIQUE = 'path-partitioned abstract interpretation of the parser step against a reference grammar, loops by induction'
EXPLANATION = (
    'One call of the parser iteration is analysed in MIR on all paths over symbolic remaining input, list of open elements and options, '
    'once for each parsing mode that is reachable from the start.  For every path the documented grammar decides from the facts '
    'established on that path (which characters come first, where words and delimiters end, which names compare equal) what has to '
    'result: the part or the error with all its details, the remaining input and its location, the open elements and the next mode; '
    'questions the path left open are split.  The attribute loop, the search for the end of raw text and the list of unclosed elements '
    'are compared by induction over their loop edges, so input of any length and nesting of any depth is covered.')
