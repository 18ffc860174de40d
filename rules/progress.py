"""Does every step of a loop make progress?

For every loop summary of an exploration the steps (back edges) are looked at one by one: an element drawn from an iterator or stream,
a text that gets shorter, a list that loses an element or a number that only moves in one direction.  A step that leaves everything the
next step can depend on as it was repeats for ever."""
from rules.common import *
from rules.panics import unk


def slots(v, w, path=(), depth=0):
    """(path, value in the node, value at the end of the step) of all places that differ in form or can move"""
    if not isinstance(v, tuple) or not isinstance(w, tuple) or not v or not w or depth > 12:
        return
    yield path, v, w
    if v == w:
        if v[0] in ('adt', 'tup', 'it', 'box', 'seq'):
            pass
        else:
            return
    k = v[0]
    if k != w[0]:
        return
    if k == 'adt' and v[1] == w[1] and v[2] == w[2] and len(v[3]) == len(w[3]):
        for i, (x, y) in enumerate(zip(v[3], w[3])):
            for r in slots(x, y, path + (i,), depth + 1):
                yield r
    elif k == 'tup' and len(v[1]) == len(w[1]):
        for i, (x, y) in enumerate(zip(v[1], w[1])):
            for r in slots(x, y, path + (i,), depth + 1):
                yield r
    elif k == 'box':
        for r in slots(v[1], w[1], path + ('b',), depth + 1):
            yield r
    elif k == 'it' and v[1] == w[1] and len(v) == len(w):
        for i, (x, y) in enumerate(zip(v[2:], w[2:])):
            if isinstance(x, tuple) and isinstance(y, tuple):
                for r in slots(x, y, path + (('i', i),), depth + 1):
                    yield r
    elif k == 'rc':
        return


def drawn(e, bk, base):
    """an element drawn in this step from something that exists longer than the step"""
    t = bk.trace[base:]
    for n, x in enumerate(t):
        if x[0] in ('next', 'nextback') and x[3] is not None:
            if not any(y[0] == 'iter' and y[1] == x[1] for y in t[:n]):
                return 'an element is drawn'
        if x[0] == 'inext' and discr(e, bk, ('sym', ('inext', x[1], x[2]))) != 0:
            return 'an element is drawn'
        if x[0] == 'pull' and len(x) == 3 and discr(e, bk, ('sym', ('ev', x[1], x[2]))) != 1:
            return 'a part is drawn'
        if x[0] == 'pull' and len(x) > 3 and x[3] != 'none':
            return 'a part is drawn'
        if x[0] == 'parse' and x[2] != 'end':
            return 'a part is parsed'
        if x[0] == 'fill':
            return 'more of the file is read'
    return None


def discr(e, s, v):
    for k, f in s.facts.items():
        if k[0] == 'app' and k[1] in ('discr', 'disc', 'variant') and k[2] == v and f[0] == 'is' and f[1][0] == 'int':
            return f[1][1]
    return None


def moved(e, s, v, w):
    """how a place moves in a step: 'down' (a text or list gets smaller), 'same', 'up'/'under' for numbers, '?' otherwise"""
    M = e.models
    if v == w:
        return 'same'
    tv = e.typeof(v) if v[0] in ('sym', 'app') else None
    if v[0] == 'int' or tv and tv[0] == 'int':
        d = e.simp(s, lin_sub(w, v))
        c, t = lin_parts(d)
        if d == INT(0):
            return 'same'
        if all(n > 0 for _, n in t) and c >= 0 and e.nonzero(s, d):
            return 'up'
        if all(n < 0 for _, n in t) and c <= 0 and (c < 0 or e.nonzero(s, e.simp(s, lin_sub(v, w)))):
            return 'under'
        if all(n > 0 for _, n in t) and c >= 0:
            return 'up?'
        return '?'
    if v[0] == 'seq' and w[0] == 'seq':
        a, b = v[1], w[1]
        if isinstance(a, tuple) and isinstance(b, tuple) and len(b) < len(a) and (a[len(a) - len(b):] == b or a[:len(b)] == b):
            return 'down' if any(x[0] == 'one' for x in (a[:len(a) - len(b)] if a[len(a) - len(b):] == b else a[len(b):])) else 'down?'
        return '?'
    try:
        a, b = M.as_str(e, s, v), M.as_str(e, s, w)
    except Exception:
        return '?'
    if a is None or b is None:
        return '?'
    try:
        S, lo, hi = M.view(e, s, a)
        T, l2, h2 = M.view(e, s, b)
    except Exception:
        return '?'
    if S != T:
        if b == ('str', ''):
            return 'down' if e.nonzero(s, M.len_atom(e, a)) else 'down?'
        return '?'
    d1, d2 = e.simp(s, lin_sub(l2, lo)), e.simp(s, lin_sub(hi, h2))
    for d in (d1, d2):
        c, t = lin_parts(d)
        if c < 0 or any(n < 0 for _, n in t):
            return '?'
    if e.nonzero(s, d1) or e.nonzero(s, d2):
        return 'down'
    if d1 == INT(0) and d2 == INT(0):
        return 'same'
    return 'down?'


def loop(e, L):
    """(status, text) for one loop"""
    rows = []
    for (i, j, bk, base) in L.edges:
        why = drawn(e, bk, base)
        if why:
            rows.append((i, j, bk, why, None))
            continue
        mv = {}
        same = True
        for c, v in L.nodes[i].mem.items():
            if c[0] == 'K' or c not in bk.mem:
                continue
            for p, x, y in slots(v, bk.mem[c]):
                m = moved(e, bk, x, y)
                if m != 'same':
                    same = False
                    mv[(c, p)] = m
        new = [c for c in bk.mem if c not in L.nodes[i].mem and c[0] == 'D']
        rows.append((i, j, bk, None, (mv, same and not new)))
    stuck = [r for r in rows if r[3] is None and r[4][1] and r[0] == r[1]]
    if stuck:
        bk = stuck[0][2]
        if any(unk(k) for k in bk.facts):
            return 'und', 'a step changes nothing, on a path through an operation without a model'
        return 'bad', 'a step changes nothing, so that it repeats for ever, when %s' % facts_text(bk)[-400:]
    left = [r for r in rows if r[3] is None]
    if not left:
        return 'ok', 'each step draws an element'
    # a place counts when it never moves the other way; steps that are on no cycle of the remaining ones happen once
    way = {}
    for r in rows:
        for k, m in (r[4][0] if r[4] is not None else {}).items():
            way.setdefault(k, set()).add(m.rstrip('?') or '?')
    un = [r for r in left if not any(m in ('down', 'up', 'under') and way[k] == set([m]) for k, m in r[4][0].items())]
    nxt = {}
    for r in un:
        nxt.setdefault(r[0], set()).add(r[1])
    changed = True
    while changed:
        changed = False
        for i in list(nxt):
            nxt[i] = {j for j in nxt[i] if j in nxt}
            if not nxt[i]:
                del nxt[i]
                changed = True
    un = [r for r in un if r[0] in nxt and r[1] in nxt]
    if un:
        return 'und', 'progress of a step is not understood: %s' % [(str(c)[:60], p, m) for (c, p), m in un[0][4][0].items()][:6]
    return 'ok', 'each step draws an element or moves on'


def of(e):
    out = []
    for L in e.loops.values():
        fn = L.where[0]
        if not L.edges or fn in ('drive', 'drain'):
            continue
        st, msg = loop(e, L)
        out.append((st, fn, str(L.where[2]) if len(L.where) > 2 else '', msg))
    return sorted(set(out))
