"""Subset simulation of specification automata over the traces of analysed paths.

A path's trace is a sequence of events; a loop summary is a graph whose nodes are joined states and whose edges are trace
segments.  A specification is a nondeterministic automaton over events.  `Sim.run` follows all its states along a trace;
loops are followed along every edge until no new set of states appears."""
from rules.common import *


class Dead(Exception):
    """no specification state admits the event"""

    def __init__(self, ev, states, st):
        self.ev, self.states, self.st = ev, states, st


class Infeasible(Exception):
    pass


class Lost(Exception):
    """the event is outside what the specification understands"""


class Sim(object):
    def __init__(self, e, step, close=None, enter=None):
        self.e = e
        self.step = step          # step(state, event, St) -> iterable of states; may raise Infeasible / Lost
        self.close = close or (lambda q, st: q)   # state at a back edge (drop what belongs to the iteration); may raise Lost
        self.enter = enter or (lambda q, a, b: q)  # state at loop entry: entry St, widened first node St
        self.cache = {}
        self.count = 0

    def seg(self, evs, st, Q):
        """Q: set of frozensets (one per class of concrete paths) -> set of frozensets"""
        cur = set(Q)
        for ev in evs:
            nxt = set()
            for S in cur:
                if ev[0] == 'loop':
                    nxt |= self.loop(ev[1], ev[2], S)
                    continue
                self.count += 1
                R = set()
                feas = False
                for q in S:
                    try:
                        R |= set(self.step(q, ev, st))
                        feas = True
                    except Infeasible:
                        continue
                if not feas:
                    continue
                if not R:
                    if widened(ev):
                        raise Lost('value joined over loop iterations')
                    raise Dead(ev, S, st)
                nxt.add(frozenset(R))
            cur = nxt
            if not cur:
                break
        return cur

    def loop(self, lid, node, S):
        key = (lid, S)
        if key not in self.cache:
            self.cache[key] = self.solve(lid, S)
        return self.cache[key].get(node, set())

    def solve(self, lid, S):
        L = self.e.loops.get(lid)
        if L is None:
            raise Lost('loop %s' % lid)
        S = frozenset(self.enter(q, L.entry, L.nodes[0]) for q in S)
        N = {0: {S}}
        work = [(0, S)]
        while work:
            i, X = work.pop()
            for (a, b, bk, base) in L.edges:
                if a != i:
                    continue
                for R in self.seg(bk.trace[base:], bk, {X}):
                    R = frozenset(self.close(q, bk) for q in R)
                    if R not in N.setdefault(b, set()):
                        N[b].add(R)
                        if len(N[b]) > 200:
                            raise Lost('too many specification states')
                        work.append((b, R))
        return N

    def run(self, st, init):
        return self.seg(st.trace, st, {frozenset(init)})


def live(st, term):
    """is the term still held by some variable"""
    todo = [c for c in st.mem if c[0] != 'H']
    seen = set(todo)
    while todo:
        c = todo.pop()
        v = st.mem.get(c)
        if v is None:
            continue
        if contains(v, term):
            return True
        stack = [v]
        while stack:
            x = stack.pop()
            if isinstance(x, tuple):
                if len(x) >= 2 and x[0] == 'ref' and isinstance(x[1], tuple):
                    if x[1] not in seen:
                        seen.add(x[1])
                        todo.append(x[1])
                stack.extend(x)
    return False


def projection(t, root):
    """is t a plain projection (field, dereference) of root: True / False / None when root does not occur"""
    if not contains(t, root):
        return None
    while True:
        if t == root:
            return True
        if t[0] == 'sym' and t[1][0] in ('f', 'd', 'deref'):
            t = t[1][1]
        else:
            return False


def widened(t):
    if isinstance(t, tuple):
        return (len(t) > 3 and t[0] == 'w' and isinstance(t[1], int) and isinstance(t[2], int)) or any(widened(x) for x in t)
    return False
