"""Loading a template from a string or a file, decided on all paths with an opaque parser.

The parser iteration and its start are replaced by a protocol: the start yields a parser for a text with options, each call
of the iteration yields a part, an error or the end.  The outcomes of the loading functions are then compared with what the
sequence of parser (and file) operations on that path requires."""
from rules.common import *
from rules.p04 import parser_next


class Load(object):
    def __init__(self, A):
        self.A = A
        self.tpl = A.adt('Template', True)
        self.opts = None
        for n, a in A.p.adts.items():
            if a.get('local') and a.get('exported') and a['kind'] == 'struct' and {'max_stack_depth', 'max_input_len'} <= {f['name'] for f in a['variants'][0]['fields']}:
                self.opts = n
                self.optf = {f['name']: i for i, f in enumerate(a['variants'][0]['fields'])}
        self.nk = parser_next(A)
        self.iter = None
        if self.nk is not None:
            t = A.argt(self.nk)[0]
            while t[0] == 'ref':
                t = t[2]
            self.iter = t

    def loaders(self, err):
        """exported functions that give a Template or the error `err`"""
        A = self.A
        out = []
        for k, f in A.local():
            if not f.get('exported') or f.get('trait'):
                continue
            t = A.rett(k)
            if t[0] == 'adt' and t[1] == 'std::result::Result' and t[2][0][:2] == ('adt', self.tpl) and t[2][1][0] == 'adt' and t[2][1][1].split('::')[-1] == err:
                out.append(k)
        return out

    # ------------------------------------------------------------ hooks
    def install(self, e, M):
        A = self.A
        for k, f in A.local():
            if k in A.p.derived_fns or A.rett(k)[:2] != self.iter[:2]:
                continue
            ts = A.argt(k)
            if len([t for t in ts if t == STR]) == 1 and len([t for t in ts if t[:2] == ('adt', self.opts)]) == 1:
                e.hooks[k] = self.start_hook(M, ts)
        e.hooks[self.nk] = self.next_hook()

    def start_hook(self, M, ts):
        def h(eng, st, c):
            X = O = None
            for a, t in zip(c.args, ts):
                if t == STR:
                    X = M.as_str(eng, st, a)
                elif t[:2] == ('adt', self.opts):
                    O = eng.strip(st, a)
            return [(st, eng.app(self.iter, 'parser', X, O))]
        return h

    def next_hook(self):
        item = self.A.rett(self.nk)[2][0]

        def h(eng, st, c):
            cell, path = eng.deref(st, c.args[0])
            it = eng.read(st, cell, path)
            n = st.fresh()
            part = eng.sym(('part', n), item[2][0])
            err = eng.sym(('perr', n), item[2][1])
            out = []
            for v, kind, x in ((eng.none(), 'end', None), (eng.some(('adt', 'std::result::Result', 0, (part,), item[2])), 'part', part),
                               (eng.some(('adt', 'std::result::Result', 1, (err,), item[2])), 'err', err)):
                s = st.clone()
                s.trace.append(('parse', it, kind, x))
                out.append((s, v))
            return out
        return h

    # ------------------------------------------------------------ helpers
    def vname(self, v):
        return self.A.p.adts[v[1]]['variants'][v[2]]['name']

    def vfields(self, v):
        return dict(zip([f['name'] for f in self.A.p.adts[v[1]]['variants'][v[2]]['fields']], v[3]))

    def after_loop(self, e, s, pred):
        """(loop or None, events of the path after the last loop whose edges have such events)"""
        t = s.trace
        for n in range(len(t) - 1, -1, -1):
            if t[n][0] == 'loop':
                L = e.loops.get(t[n][1])
                if L is not None and any(any(pred(x) for x in self.own(bk, L)) for i, j, bk, base in L.edges):
                    return L, t[n][2], t[n + 1:], t[:n]
        return None, None, t, []

    def own(self, bk, L):
        t = bk.trace
        at = [n for n, ev in enumerate(t) if ev[0] == 'loop' and ev[1] == L.id]
        return t[at[-1] + 1:] if at else t

    def limit(self, e, s, opts):
        """[(state, None | limit term)]"""
        l = e.get(opts, (('f', self.optf['max_input_len']),))
        for s2, k in e.split_variant(s.clone(), l):
            yield s2, (e.get(l, (('d', 1), ('f', 0))) if k == 1 else None)

    # ------------------------------------------------------------ parse result
    def parsed(self, e, M, s, v, opts, check_text):
        """problems of a path that ran the parser: [(property, rule, status, message)]; v = ('ok', template) | ('err', input error)"""
        is_p = lambda x: x[0] == 'parse'
        L, node, tail, pre = self.after_loop(e, s, is_p)
        evs = [x for x in tail if is_p(x)]
        before = [x for x in pre if is_p(x)]
        out = []
        pulls = list(evs)
        if L is not None:
            for i, j, bk, base in L.edges:
                pulls += [x for x in self.own(bk, L) if is_p(x)]
        for x in pulls:
            it = x[1]
            if it[0] == 'app' and it[1] == 'parser':
                r = check_text(s, it[2])
                if r:
                    out.append(('P07', 'whole input', r[0], r[1]))
                if it[3] != opts:
                    out.append(('P09', 'options', 'bad' if it[3][0] == 'adt' else 'und', 'the parser is run with %s instead of the given options' % show(it[3])))
            else:
                out.append(('*', 'parser', 'und', 'the parser is %s' % show(it)))
        if before or not evs:
            out.append(('*', 'parser', 'und', 'the parser runs outside of a recognised loop'))
            return out
        if len(evs) > 1:
            for x in evs[:-1]:
                if x[2] == 'err':
                    out.append(('P13', 'first error', 'bad', 'parsing goes on after an error'))
        last = evs[-1]
        if last[2] == 'part':
            out.append(('P07', 'all parts', 'bad', 'parsing stops before the end'))
            return out
        if L is not None:
            for i, j, bk, base in L.edges:
                for x in self.own(bk, L):
                    if is_p(x) and x[2] == 'err':
                        out.append(('P08', 'refused', 'bad', 'an error of the parser does not end parsing'))
                        out.append(('P13', 'first error', 'bad', 'parsing goes on after an error'))
                    if is_p(x) and x[2] == 'end':
                        out.append(('P13', 'first error', 'bad', 'parsing goes on after the end'))
        if last[2] == 'err':
            if v[0] == 'ok':
                for p in ('P08', 'P07'):
                    out.append((p, 'refused', 'bad', 'a template is given although parsing failed'))
            else:
                w = e.strip(s, v[1])
                if w[0] != 'adt' or self.vname(w) != 'Parse':
                    out.append(('P08', 'refused', 'bad' if w[0] == 'adt' else 'und', 'a parse error becomes %s' % show(w)))
                elif e.simp(s, w[3][0]) != last[3]:
                    out.append(('P14', 'passed on', 'bad' if w[3][0][0] in ('sym', 'adt') else 'und', 'a parse error is reported as %s' % show(w)))
                    out.append(('P13', 'first error', 'bad' if w[3][0][0] in ('sym', 'adt') else 'und', 'a parse error is reported as %s' % show(w)))
            return out
        if v[0] != 'ok':
            out.append(('P07', 'accepted', 'bad', 'the error %s is given although parsing succeeded' % show(v[1])))
            return out
        q = self.events(e, s, v[1])
        if q is None:
            out.append(('P07', 'all parts', 'und', 'the parts of the template are %s' % show(v[1])[:300]))
            return out
        if L is None:
            if q != ():
                out.append(('P07', 'all parts', 'bad' if all(x[0] == 'one' for x in q) else 'und', 'the template consists of %s' % show(('seq', q))[:300]))
            return out
        if len(q) != 1 or q[0][0] != 'acc' or q[0][1] != L.id:
            out.append(('P07', 'all parts', 'bad' if q == () or all(x[0] in ('one', 'acc') for x in q) else 'und', 'the template consists of %s' % show(('seq', q))[:300]))
            return out
        cell = q[0][2][3] if q[0][2][0] == 'w' else None
        cells = [c for c, x in L.nodes[node].mem.items() if isinstance(x, tuple) and x and x[0] == 'seq' and q[0] in x[1]]
        if len(cells) != 1:
            out.append(('P07', 'all parts', 'und', 'the list of parts is not recognised'))
            return out
        cell = cells[0]
        en = L.entry.mem.get(cell)
        if en is None or en[0] != 'seq' or en[1] != ():
            out.append(('P07', 'all parts', 'bad' if en is not None and en[0] == 'seq' else 'und', 'the list of parts starts with %s' % (show(en) if en else '?')))
        for i, j, bk, base in L.edges:
            n, b = L.nodes[i].mem.get(cell), bk.mem.get(cell)
            if n is None or b is None or b[0] != 'seq' or b[1][:len(n[1])] != n[1]:
                out.append(('P07', 'all parts', 'und' if b is None or b[0] != 'seq' or any(x[0] != 'one' for x in b[1]) else 'bad', 'a step makes the list of parts %s' % (show(b)[:200] if b else '?')))
                continue
            add = [x[1] if x[0] == 'one' else None for x in b[1][len(n[1]):]]
            got = [x[3] for x in self.own(bk, L) if is_p(x) and x[2] == 'part']
            if add != got:
                out.append(('P07', 'all parts', 'bad' if None not in add else 'und', 'a step reads %s and keeps %s' % (', '.join(show(x) for x in got), ', '.join(show(x) if x else '?' for x in add) or 'nothing')))
        return out

    def events(self, e, s, v, d=0):
        v = e.strip(s, v)
        if d > 5:
            return None
        if v[0] == 'seq':
            return tuple(v[1])
        if v[0] == 'rc':
            return self.events(e, s, e.load(s, v), d + 1)
        if v[0] == 'adt' and len(v[3]) == 1:
            return self.events(e, s, v[3][0], d + 1)
        return None

    # ------------------------------------------------------------ from a string
    def from_str(self, k, note):
        A = self.A
        e, M = A.new()
        self.install(e, M)
        args, outs = A.run(e, k)
        nm = A.name(k)
        X = O = None
        for a, t in zip(args, A.argt(k)):
            if t == STR:
                X = a
            elif t[:2] == ('adt', self.opts):
                O = e.strip(St(), a)
        if X is None or O is None:
            note('*', 'arguments', nm, 'und', 'takes no text and options')
            return
        X = M.as_str(e, St(), X)
        n = 0
        for s, v in outs:
            n += 1
            if v[0] != 'adt':
                note('*', 'result', nm, 'und', 'result %s' % show(v))
                continue
            w = e.strip(s, v[3][0])
            res = ('ok', w) if v[2] == 0 else ('err', w)
            for s2, lim in self.limit(e, s, O):
                too = [(s2, False)] if lim is None else e.split_bool(s2, M.lt(e, s2, lim, M.len_atom(e, X)) if hasattr(M, 'lt') else e.app(('bool',), 'Lt', lim, M.len_atom(e, X)))
                for s3, big in too:
                    when = ', when ' + facts_text(s3)[-500:]
                    islim = res[0] == 'err' and w[0] == 'adt' and self.vname(w) == 'LengthLimitExceeded'
                    if big:
                        if not islim:
                            note('P09', 'length limit', nm, 'bad', 'input longer than the limit is not refused for its length' + when)
                            continue
                        if any(x[0] == 'parse' for x in s3.trace) or any(x[0] == 'loop' and self.after_loop(e, s3, lambda y: y[0] == 'parse')[0] for x in s3.trace):
                            note('P09', 'length limit', nm, 'bad', 'the length limit is checked after parsing' + when)
                        if e.simp(s3, w[3][0]) != e.simp(s3, lim):
                            note('P09', 'length limit', nm, 'bad', 'the length error gives the limit %s' % show(w[3][0]))
                        else:
                            note('P09', 'length limit', nm, 'ok', 'longer input is refused')
                        continue
                    if islim:
                        note('P09', 'length limit', nm, 'bad', 'input within the limit is refused for its length' + when)
                        continue
                    note('P09', 'length limit', nm, 'ok', 'input within the limit is parsed')
                    ps = self.parsed(e, M, s3, res, O, lambda st, Y: None if Y == X else (('bad' if Y[0] in ('str', 'app') and contains(Y, X) else 'und'), '%s is parsed instead of the whole input' % show(Y)))
                    for p, rule, status, msg in ps:
                        note(p, rule, nm, status, msg + when)
                    for p, rule in (('P07', 'whole input'), ('P07', 'all parts'), ('P08', 'refused'), ('P13', 'first error'), ('P14', 'passed on'), ('P09', 'options')):
                        if not any((q, r) == (p, rule) for q, r, _, _ in ps) and not any(q == '*' for q, _, _, _ in ps):
                            note(p, rule, nm, 'ok', 'loading a string')

    # ------------------------------------------------------------ from a file
    def from_file(self, k, note):
        A = self.A
        e, M = A.new()
        self.install(e, M)
        args, outs = A.run(e, k)
        nm = A.name(k)
        O = P = None
        for a, t in zip(args, A.argt(k)):
            if t[:2] == ('adt', self.opts):
                O = e.strip(St(), a)
            else:
                P = a
        if O is None or P is None:
            note('*', 'arguments', nm, 'und', 'takes no path and options')
            return
        for s, v in outs:
            try:
                self.file_path(e, M, s, v, O, P, nm, note)
            except AnalysisError as x:
                note('P33', 'file', nm, 'und', str(x))

    def is_path(self, e, s, t, P):
        d = 0
        while d < 12:
            d += 1
            if t[0] in ('ref', 'box', 'rc'):
                t = e.load(s, t)
            if t == P:
                return True
            if t[0] == 'sym' and isinstance(t[1], tuple) and t[1][0] == 'deref':
                t = t[1][1]
                continue
            if t[0] == 'app' and t[1] in ('into', 'from', 'as_ref', 'deref', 'to_path_buf', 'to_owned', 'borrow', 'path', 'tcall', 'into_owned', 'clone') and len(t) > 2:
                t = t[-1] if isinstance(t[-1], tuple) else t[2]
                continue
            break
        return None if contains(t, P) else False

    IO = ('open', 'fill', 'consume', 'read_to_end', 'read_to_string')

    def file_path(self, e, M, s, v, O, P, nm, note):
        A = self.A
        if v[0] != 'adt':
            note('P33', 'result', nm, 'und', 'result %s' % show(v))
            return
        w = e.strip(s, v[3][0])
        kind = 'Ok' if v[2] == 0 else self.vname(w) if w[0] == 'adt' else None
        if kind is None:
            note('P33', 'result', nm, 'und', 'error %s' % show(w))
            return
        when = ', when ' + facts_text(s)[-400:]
        f = {}
        if kind != 'Ok':
            f = self.vfields(w)
            r = self.is_path(e, s, f['path'], P) if 'path' in f else None
            if r is not True:
                note('P33', 'path', kind, 'bad' if r is False else 'und', 'the error %s names the path %s' % (kind, show(f.get('path', ('str', '?')))))
            else:
                note('P33', 'path', kind, 'ok', 'names the given path')
        if any(x[0] == 'unknown' for x in s.trace):
            note('P33', 'file', nm, 'und', 'unknown operation %s' % show([x for x in s.trace if x[0] == 'unknown'][0][1:])[:200])
            return
        opens = [x for x in s.trace if x[0] == 'open']
        if len(opens) != 1:
            note('P33', 'file', nm, 'bad' if not opens and kind == 'Ok' else 'und', 'the file is opened %d times' % len(opens))
            return
        if self.is_path(e, s, opens[0][1], P) is not True:
            note('P33', 'file', nm, 'bad' if self.is_path(e, s, opens[0][1], P) is False else 'und', 'the file %s is opened instead of the given one' % show(opens[0][1]))
            return
        fl = [t for t in s.facts if t[0] == 'app' and t[1] == 'discr' and t[2][0] == 'sym' and isinstance(t[2][1], tuple) and t[2][1][0] == 'open']
        if len(fl) != 1:
            note('P33', 'file', nm, 'und', 'the outcome of opening the file is not looked at')
            return
        fd = fl[0][2]
        if e.variant(s, fd) == 1:
            if kind != 'Open':
                note('P33', 'failures', 'open', 'bad', 'a failure to open the file gives %s' % kind)
            elif e.simp(s, f['error']) != e.get(fd, (('d', 1), ('f', 0))):
                note('P33', 'failures', 'open', 'und' if f['error'][0] == 'app' else 'bad', 'a failure to open the file is reported with %s' % show(f['error']))
            else:
                note('P33', 'failures', 'open', 'ok', 'reported with its cause')
            return
        if kind == 'Open':
            note('P33', 'failures', 'open', 'bad', 'an open failure is reported although the file was opened' + when)
            return
        src = e.get(fd, (('d', 0), ('f', 0)))
        io = [x for x in s.trace if x[0] in self.IO and len(x) > 3 and x[-1] == 'err']
        if io:
            if io[0][0] == 'read_to_string':
                note('P33', 'failures', 'decode', 'bad' if kind == 'Read' else 'und', 'a file that is not valid text is reported as %s' % kind)
                return
            want = e.sym(('ioerr', io[0][2]), None) if False else ('ioerr', io[0][2])
            err = e.simp(s, f['error']) if 'error' in f else None
            if kind != 'Read':
                note('P33', 'failures', 'read', 'bad', 'a failure to read the file gives %s' % kind)
            elif not (err[0] == 'sym' and err[1] == want):
                note('P33', 'failures', 'read', 'und' if err[0] == 'app' else 'bad', 'a failure to read the file is reported with %s' % show(err))
            else:
                note('P33', 'failures', 'read', 'ok', 'reported with its cause')
            return
        if kind == 'Read':
            note('P33', 'failures', 'read', 'bad', 'a read failure is reported although reading succeeded' + when)
            return
        what = self.content(e, M, s, src)
        # what: ('whole', seq) | ('part', length so far) | ('bad'|'und', message)
        if what[0] in ('bad', 'und'):
            note('P33', 'content', nm, what[0], what[1] + when)
            return
        if what[0] == 'part':
            got = what[1]
            if kind == 'Input':
                x = e.strip(s, f['error'])
                if x[0] == 'adt' and self.vname(x) == 'LengthLimitExceeded':
                    self.too_long(e, M, s, x, O, got, nm, note, when)
                    return
            note('P33', 'content', nm, 'bad', 'the file is not read to its end before %s is given%s' % (kind, when))
            return
        seq = what[1]
        note('P33', 'content', nm, 'ok', 'the whole file is read, each part once and in order')
        u = e.app(('bool',), 'is_utf8', seq)
        fk = s.facts.get(u)
        dec = fk[1] if fk and fk[0] == 'is' else None
        X = e.app(STR, 'utf8', seq)
        ln = M.length(e, s, seq)
        if kind == 'Decode':
            if dec != FALSE:
                note('P33', 'failures', 'decode', 'bad', 'a decoding failure is reported for valid text' + when)
            elif e.simp(s, f['error']) != e.app(e.typeof(f['error']), 'utf8err', seq):
                note('P33', 'failures', 'decode', 'und', 'a decoding failure is reported with %s' % show(f['error']))
            else:
                note('P33', 'failures', 'decode', 'ok', 'reported with its cause')
            return
        if kind == 'Input':
            x = e.strip(s, f['error'])
            if x[0] == 'adt' and self.vname(x) == 'LengthLimitExceeded':
                self.too_long(e, M, s, x, O, [ln, M.len_atom(e, X)], nm, note, when)
                return
            res = ('err', x)
        elif kind == 'Ok':
            res = ('ok', w)
        else:
            note('P33', 'result', nm, 'und', 'error kind %s' % kind)
            return
        if dec == FALSE:
            note('P33', 'failures', 'decode', 'bad', 'a file that is not valid text gives %s%s' % (kind, when))
            return
        if dec is None:
            note('P33', 'content', nm, 'und', 'the content is not decoded as a whole' + when)
            return
        for s2, lim in self.limit(e, s, O):
            big = False
            if lim is not None:
                b1, b2 = (e.simp(s2, e.app(('bool',), 'Lt', lim, y)) for y in (M.len_atom(e, X), ln))
                big = not (b1 == FALSE or b2 == FALSE)
            if big:
                note('P09', 'length limit', nm, 'bad', 'a file longer than the limit is not refused for its length' + when)
            else:
                note('P09', 'length limit', nm, 'ok', 'a file within the limit is parsed')
        for p, rule, status, msg in self.parsed(e, M, s, res, O, lambda st, Y: None if Y == X else ('und' if Y[0] == 'sym' else 'bad', '%s is parsed instead of the content of the file' % show(Y))):
            note('P33', rule, nm, status, msg + when)
            if p == 'P09':
                note('P09', rule, nm, status, msg + when)
        note('P33', 'parsed', nm, 'ok', 'the content is parsed like a string')

    def too_long(self, e, M, s, x, O, lens, nm, note, when):
        ls = lens if isinstance(lens, list) else [lens]
        for s2, lim in self.limit(e, s, O):
            if lim is None:
                # compared with the largest number instead: never true of what fits into memory
                top = any(big_const(k) for k in s2.facts)
                for p in ('P09', 'P33'):
                    note(p, 'length limit', nm, 'und' if top else 'bad', 'a length limit is applied without one being set' + when)
                continue
            if any(e.simp(s2, e.app(('bool',), 'Lt', lim, l)) == TRUE for l in ls):
                if e.simp(s2, x[3][0]) == lim:
                    note('P09', 'length limit', nm, 'ok', 'a longer file is refused')
                    note('P33', 'length limit', nm, 'ok', 'a longer file is refused')
                else:
                    note('P09', 'length limit', nm, 'bad', 'the length error gives the limit %s' % show(x[3][0]))
            else:
                for p in ('P09', 'P33'):
                    note(p, 'length limit', nm, 'bad', 'a file is refused for its length although what was read is within the limit' + when)

    def content(self, e, M, s, src):
        """what the path has read from the opened file"""
        is_io = lambda x: x[0] in self.IO and x[0] != 'open'
        L, node, tail, pre = self.after_loop(e, s, is_io)
        evs = [x for x in tail if is_io(x)]
        rd = e.app(('other', '?'), 'bufreader', src)
        ok_rd = lambda t: t == src or (t[0] == 'app' and t[1] == 'bufreader' and t[2] == src)
        for x in evs:
            if x[1][0] == 'app' and x[1][1] == 'bufreader0' and x[1][2] == src:
                return 'bad', 'with a buffer without room nothing is read from the file'
            if not ok_rd(x[1]):
                return 'und', 'reads from %s' % show(x[1])
        if L is None:
            if len(evs) == 1 and evs[0][0] in ('read_to_end', 'read_to_string'):
                rest = [q for c, q in s.mem.items() if isinstance(q, tuple) and q and q[0] == 'seq' and any(y[0] == 'base' and y[1][0] == 'app' and y[1][1] == 'rest' for y in q[1])]
                if len(rest) == 1 and len(rest[0][1]) == 1:
                    return 'whole', rest[0]
            return 'und', 'the way the file is read is not recognised'
        if any(is_io(x) for x in pre):
            return 'und', 'the file is read in several places'
        # the loop: every edge appends exactly the data it consumes
        cells = [c for c, q in L.nodes[node].mem.items() if isinstance(q, tuple) and q and q[0] == 'seq' and any(y[0] == 'acc' and y[1] == L.id for y in q[1])]
        if len(cells) != 1:
            return ('bad', 'the data read from the file is not kept') if not cells else ('und', 'several lists are built while reading')
        cell = cells[0]
        en = L.entry.mem.get(cell)
        if en is None or en[0] != 'seq' or en[1] != ():
            return 'und', 'the data starts with %s' % (show(en) if en else '?')
        for i, j, bk, base in L.edges:
            n, b = L.nodes[i].mem.get(cell), bk.mem.get(cell)
            if n is None or b is None or b[0] != 'seq' or b[1][:len(n[1])] != n[1]:
                return 'und', 'the data is changed while reading'
            add = b[1][len(n[1]):]
            pend, used = None, []
            for x in self.own(bk, L):
                if not is_io(x):
                    continue
                if not ok_rd(x[1]):
                    return 'und', 'reads from %s' % show(x[1])
                if x[0] == 'fill':
                    if x[-1] == 'err':
                        return 'und', 'reading goes on after a failure'
                    if pend is not None:
                        return 'und', 'the buffer is filled twice without being consumed'
                    pend = x
                elif x[0] == 'consume':
                    if pend is None:
                        return 'bad', 'data is consumed that was not looked at'
                    ch = [t for c, t in bk.mem.items() if isinstance(t, tuple) and t[:2] == ('app', 'chunk') and t[3] == pend[2]]
                    if not ch:
                        return 'und', 'the buffer is not found'
                    d = e.simp(bk, lin_sub(x[2], M.len_atom(e, ch[0])))
                    if not zero(e, bk, d):
                        less = e.simp(bk, e.app(('bool',), 'Lt', x[2], M.len_atom(e, ch[0]))) == TRUE
                        return ('bad' if d[0] == 'int' or less else 'und'), 'of the %s bytes in the buffer %s are consumed' % (show(M.len_atom(e, ch[0])), show(x[2]))
                    used.append(ch[0])
                    pend = None
                else:
                    return 'und', 'reading mixes %s' % x[0]
            if pend is not None:
                return 'bad', 'data is read again because it is not consumed'
            got = [x[1] if x[0] == 'base' else None for x in add]
            if got != used:
                return ('bad' if None not in got else 'und'), 'a step consumes %s and keeps %s' % (', '.join(show(x) for x in used) or 'nothing', ', '.join(show(x) if x else '?' for x in got) or 'nothing')
        fills = [x for x in evs if x[0] == 'fill']
        if len(fills) != 1 or any(x[0] == 'consume' for x in evs):
            return 'und', 'reading ends in a way that is not recognised'
        ch = [t for c, t in s.mem.items() if isinstance(t, tuple) and t[:2] == ('app', 'chunk') and t[3] == fills[0][2]]
        if not ch:
            return 'und', 'the buffer is not found'
        acc = L.nodes[node].mem[cell]
        if zero(e, s, M.len_atom(e, ch[0])):
            return 'whole', ('seq',) + ((acc[1],) + tuple(acc[2:]))
        n = M.length(e, s, acc)
        return 'part', [e.simp(s, lin_add(n, M.len_atom(e, ch[0]))), n]


def big_const(t):
    if isinstance(t, int):
        return t >= (1 << 63) - 1
    return isinstance(t, tuple) and any(big_const(x) for x in t)


def analyse(ctx, A=None):
    """(Ana, [Finding])"""
    from rules.grammar import Finding
    A = A or Ana(ctx)
    ld = Load(A)
    out = []

    def note(prop, rule, inst, status, msg):
        out.append(Finding(prop, rule, inst, status, msg))
    ld.out = out
    if ld.nk is None or ld.opts is None or ld.tpl is None:
        note('*', 'anchors', 'loading', 'und', 'parser, options or template type not recognised')
        return A, ld
    ld.strs = ld.loaders('InputError')
    ld.files = ld.loaders('FileError')
    for k in ld.strs:
        try:
            ld.from_str(k, note)
        except (AnalysisError, RecursionError, KeyError, IndexError, TypeError, ValueError, AttributeError) as x:
            import traceback
            note('*', 'loading', A.name(k), 'und', traceback.format_exc()[-600:])
    for k in ld.files:
        try:
            ld.from_file(k, note)
        except (AnalysisError, RecursionError, KeyError, IndexError, TypeError, ValueError, AttributeError) as x:
            import traceback
            note('P33', 'loading', A.name(k), 'und', traceback.format_exc()[-600:])
            note('P09', 'loading', A.name(k), 'und', traceback.format_exc()[-600:])
    return A, ld
