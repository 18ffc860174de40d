"""Proving that a text is the escaped form of another one."""
from rules.common import *

ESC = {'&': '&amp;', '<': '&lt;', '>': '&gt;', '"': '&quot;'}
SPECIAL = ('cls', frozenset(ESC), False)


class Enc(object):
    """coverage proof: V == E(S[lo..hi]) for text terms built from slices of S, literals and loop accumulators"""

    def __init__(self, eng, M, spec=ESC):
        self.e, self.M = eng, M
        self.spec = spec
        self.memo = {}

    def view(self, st, X):
        return self.M.view(self.e, st, X)

    def clean(self, st, piece):
        """no special character in the piece: True/False(not established)/None(unknown form)"""
        e, M = self.e, self.M
        if piece[0] == 'str':
            return not any(c in self.spec for c in piece[1])
        if M.contains(e, st, piece, SPECIAL) == FALSE:
            return True
        if all(M.contains(e, st, piece, Cls.of([c])) == FALSE for c in self.spec):
            return True
        # one character, known not to be special
        S, a, b = self.view(st, piece)
        tail = M.sub(e, st, S, a, M.len_atom(e, S))
        w = lin_sub(b, a)
        if w == INT(1) or w == e.app(USZ, 'len_utf8', e.app(CHAR, 'first', tail)):
            if M.starts(e, st, tail, SPECIAL) == FALSE or all(M.starts(e, st, tail, Cls.of([c])) == FALSE for c in self.spec):
                return True
        return False

    def cover(self, st, V, X):
        """(True, '') | (False, reason) | (None, reason)"""
        S, lo, hi = self.view(st, X)
        pos = lo
        pieces = list(str_pieces(V) or ())
        if str_pieces(V) is None:
            return None, 'unrecognised text %s' % show(V)
        r = self.advance(st, pieces, S, pos)
        if r[0] is not True:
            return r
        pos = r[1]
        if zero(self.e, st, lin_sub(pos, hi)):
            return True, ''
        known = self.e.simp(st, lin_sub(hi, pos))
        return False, 'the text ends after input position %s, but the input goes on up to %s' % (show(pos), show(hi))

    def advance(self, st, pieces, S, pos):
        """walk pieces from input position pos; (True, newpos) | (False|None, reason)"""
        e, M = self.e, self.M
        acc = max((n for n, p in enumerate(pieces) if p[0] == 'accs'), default=None)
        if acc is not None:
            p = pieces[acc]
            r = self.invariant(p, S)
            if r[0] is not True:
                return r
            L = e.loops[p[1]]
            home = get_path(L.nodes[p[2][2]].mem.get(p[2][3], ('undef',)), p[3])
            hp = list(str_pieces(home) or ()) if home is not None else None
            if hp is None or p not in hp or hp[:hp.index(p)] != pieces[:acc]:
                return None, 'text before the accumulator is not the one of its loop'
            pos = r[1][1]
            pieces = pieces[acc + 1:]
        for p in pieces:
            if p[0] == 'str':
                rest = p[1]
                while rest:
                    tail = M.sub(e, st, S, pos, M.len_atom(e, S))
                    known = None
                    for c in sorted(self.spec):
                        if M.starts(e, st, tail, Cls.of([c])) == TRUE:
                            known = c
                    if known is not None:
                        want = self.spec[known]
                        if not rest.startswith(want):
                            return False, 'character %r is written as %r instead of %r' % (known, rest, want)
                        rest = rest[len(want):]
                        pos = lin_add(pos, INT(1))
                        continue
                    c = rest[0]
                    if M.starts(e, st, tail, Cls.of([c])) == TRUE and c not in self.spec:
                        rest = rest[1:]
                        pos = lin_add(pos, INT(len(c.encode())))
                        continue
                    return False, 'literal text %r is written where the input at position %s is not known to require it' % (rest, show(pos))
                continue
            P, a, b = self.view(st, p)
            if P != S:
                return None, 'piece %s is not part of the input' % show(p)
            if not zero(e, st, lin_sub(a, pos)):
                return False, 'input from position %s is written where input from position %s is due' % (show(a), show(pos))
            if not self.clean(st, p):
                return False, 'input %s is written without escaping although it may contain special characters' % show(p)
            pos = b
        return True, e.simp(st, pos)

    def invariant(self, acc, S):
        """(True, (start, position symbol)): acc == E(S[start..position]) at its loop header"""
        key = (acc, S)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = (None, 'recursive accumulator')
        r = self._invariant(acc, S)
        self.memo[key] = r
        return r

    def _invariant(self, acc, S):
        e, M = self.e, self.M
        lid, wid, path = acc[1], acc[2], acc[3]
        L = e.loops.get(lid)
        if L is None:
            return None, 'unknown loop'
        # wid = ('w', loop, node, cell)
        node, cell = wid[2], wid[3]
        N = L.nodes[node]
        # candidate positions: widened starts of slices of S
        cands = []

        def scan(t):
            if isinstance(t, tuple):
                if len(t) == 5 and t[0] == 'app' and t[1] == 'sub' and t[2] == S and is_sym(t[3]) and isinstance(t[3][1], tuple) and t[3][1] and t[3][1][0] == 'w':
                    if t[3] not in cands:
                        cands.append(t[3])
                for x in t:
                    scan(x)
        for c, v in sorted(N.mem.items(), key=repr):
            scan(v)
        for c, v in sorted(N.mem.items(), key=repr):
            if v[0] == 'sym' and isinstance(v[1], tuple) and v[1] and v[1][0] == 'w' and e.typeof(v) == USZ and v not in cands:
                cands.append(v)
        if not cands:
            return None, 'no position found for the accumulator'
        last = (None, 'no position found')
        fails = []
        for cand in cands:
            self.memo[(acc, S)] = (True, (INT(0), cand))
            last = self.check(L, node, cell, path, acc, S, cand)
            if last[0] is True:
                return True, (INT(0), cand)
            if last[0] is False:
                fails.append(last)
        if last[0] is False and len(cands) > 1 and len(set(f[1] for f in fails)) > 1:
            # several positions are kept and none of them alone explains the text
            return None, last[1]
        return last

    def check(self, L, node, cell, path, acc, S, cand):
        e, M = self.e, self.M
        _, _, _, ccell = cand[1][:4]
        def value(st, cellx, like):
            """value in st of the position corresponding to the widened symbol"""
            N = L.nodes[node]
            res = []

            def walk(a, b):
                if a == like:
                    res.append(b)
                    return
                if isinstance(a, tuple) and isinstance(b, tuple):
                    if a[:2] == ('app', 'sub') and not b[:2] == ('app', 'sub'):
                        # the whole string is the slice from 0
                        if b == a[2] or (b[0] == 'str' and b[1] == ''):
                            walk(a[3], INT(0) if b == a[2] else M.len_atom(e, a[2]))
                            return
                    if len(a) == len(b):
                        for x, y in zip(a, b):
                            walk(x, y)
            for c, v in N.mem.items():
                if c in st.mem:
                    walk(v, st.mem[c])
            return res[0] if res else None
        if node != 0:
            return self.edges(L, node, cell, path, S, cand, ccell, value)
        en = L.entry
        if cell not in en.mem:
            return None, 'accumulator not present at loop entry'
        v0 = en.mem[cell]
        p0 = value(en, ccell, cand)
        if p0 is None:
            return None, 'position not present at loop entry'
        ev = get_path(v0, path)
        if ev is None:
            return None, 'accumulator has no simple entry value'
        r = self.advance(en, list(str_pieces(ev) or ()), S, INT(0))
        if r[0] is not True:
            return r
        if not zero(e, en, lin_sub(r[1], p0)):
            return False, 'at loop entry the position is %s but the text covers %s' % (show(p0), show(r[1]))
        return self.edges(L, node, cell, path, S, cand, ccell, value)

    def edges(self, L, node, cell, path, S, cand, ccell, value):
        e, M = self.e, self.M
        for (i, j, bk, base) in L.edges:
            if j != node:
                continue
            v = get_path(bk.mem.get(cell, ('undef',)), path)
            if v is None or str_pieces(v) is None:
                return None, 'accumulator %s' % show(bk.mem.get(cell, ('undef',)))
            p1 = value(bk, ccell, cand)
            if p1 is None:
                return None, 'position lost'
            r = self.advance(bk, list(str_pieces(v)), S, INT(0))
            if r[0] is not True:
                return r
            if not zero(e, bk, lin_sub(r[1], p1)):
                return False, 'one loop step writes the input up to %s but continues reading at %s' % (show(r[1]), show(p1))
        return True, None


def get_path(v, path):
    for p in path:
        if p == 'b':
            if v[0] != 'box':
                return None
            v = v[1]
        elif v[0] == 'adt' and isinstance(p, int):
            v = v[3][p]
        elif v[0] == 'tup' and isinstance(p, int):
            v = v[1][p]
        else:
            return None
    return v
