"""P29: only streams that are one whole element count as element streams."""
import itertools
from rules import flows
from rules.common import *

TECHNIQUE = 'trait-implementation closure over the element marker (type-level dataflow) plus typestate analysis of the shape of marked streams'
LEVEL_NOTE = 'static analysis: every implementation of the marker, resolved for the result of every public transformation; shape of marked streams explored on all paths, elements nested up to a bounded depth'
EXPLANATION = (
    'For every public transformation the implementations of the marker trait are resolved for the type of the resulting stream; the '
    'type parameters that have to be marked for the result to be marked are collected.  They must include what makes the result one '
    'element (its input for operations on contents, attributes and below the element; the builder results as well for selections and '
    'alternatives; the inserted stream for a replacement), and operations such as append, remove or repeat, template streams, erased '
    'streams and collected templates must not be marked at all.  Operations on elements must demand the marker.  The streams of the '
    'marked operations, and the marked streams handed to builders, are explored as protocol automata: what they yield, up to '
    'failures, has to be exactly one element.')

NEED = flows.CONTENTS + flows.SUBSELECT + flows.ATTRS + ('repeat_contents', 'repeat_contents_or_else', 'into_boxed_element', 'apply_as_boxed_element')
S = ('S',)
# method -> the sets of roles (the stream itself, the argument at a position) whose being one element makes the result one element
ENOUGH = {
    'append': (), 'prepend': (), 'remove': (), 'repeat': (), 'repeat_or_else': (), 'apply_as_template': (), 'into_boxed': (),
    'replace': ({1},), 'apply': ({1},), 'apply_as_boxed': ({1},), 'apply_as_boxed_element': ({1},), 'into_boxed_element': ({'S'},),
    'apply_if': ({'S', 2},), 'apply_if_else': ({2, 3},), 'apply_with_option': ({2, 3},), 'apply_with_result': ({2, 3},),
    'repeat_contents': ({'S'},), 'repeat_contents_or_else': ({'S', 3},),
}
for _n in flows.SELECT:
    ENOUGH[_n] = ({'S', 2},)
for _n in flows.CONTENTS + flows.SUBSELECT + flows.ATTRS:
    ENOUGH[_n] = ({'S'},)


# what has to be one element for the stream handed to a builder to be one (unless that is the stream itself)
HANDED = {'repeat': ({'S'},), 'repeat_or_else': ({'S'},), 'apply_as_boxed_element': ({'S'},), 'into_boxed_element': ({'S'},)}
for _n in flows.SELECT + flows.SUBSELECT:
    HANDED[_n] = (set(),)


class Marker(object):
    def __init__(self, A, trait):
        self.A, self.p, self.trait = A, A.p, trait

    def params(self, t, out):
        if isinstance(t, tuple) and t:
            if t[0] == 'param':
                out.add(t)
            for x in t[1:]:
                self.params(x, out)
        return out

    def leaf(self, t):
        while t[0] == 'alias' and t[3]:
            t = t[3][0]
        return t

    def solve(self, t, depth=0):
        """the sets of types that have to be marked for `t` to be marked (minimal ones)"""
        if depth > 12:
            return [frozenset([t])]
        if t[0] == 'alias':
            n = self.p.normalise(t)
            if n != t:
                return self.solve(n, depth + 1)
        if t[0] in ('param', 'alias', 'other'):
            return [frozenset([self.leaf(t)])]
        if t[0] == 'dyn' and self.trait in self.supers(t[1]):
            return [frozenset()]
        out = []
        for im in self.p.by_trait.get(self.trait, ()):
            b = {}
            pat = self.p.T(im['args'][0])
            if not self.p.unify(pat, t, b):
                continue
            alts = [frozenset()]
            for pr in im['preds']:
                tr = pr.get('trait')
                if tr is None:
                    continue
                x = self.p.subst(self.p.T(pr['args'][0]), b)
                if self.trait in self.supers(tr):
                    alts = [a | c for a in alts for c in self.solve(x, depth + 1)]
                elif pat[0] == 'param' and not self.holds(tr, x):
                    alts = []
            out += alts
        return [a for a in set(out) if not any(b < a for b in out)]

    def holds(self, tr, x):
        if tr in self.p.traits and tr.startswith('html5_fuser') and x[0] not in ('param', 'alias', 'other'):
            return self.p.find_impl(tr, (x,)) is not None or x[0] == 'dyn' and tr in self.supers(x[1])
        return True

    def supers(self, tr, seen=None):
        seen = seen if seen is not None else set()
        if tr in seen:
            return seen
        seen.add(tr)
        d = self.p.traits.get(tr)
        for pr in (d or {}).get('preds', ()):
            if pr.get('trait') and pr['args'] and self.p.T(pr['args'][0]) == ('param', 'Self'):
                self.supers(pr['trait'], seen)
        return seen

    def given(self, preds):
        """types the method itself demands to be marked"""
        out = set()
        for pr in preds:
            if pr.get('trait') and self.trait in self.supers(pr['trait']):
                out.add(self.leaf(self.p.T(pr['args'][0])))
        return out


def roles(A, k):
    """type parameter -> the stream itself or the position of the argument that determines it"""
    p, f = A.p, A.p.fns[k]
    ts = A.argt(k)
    me = ts[0][2][0] if ts[0][0] == 'adt' and ts[0][2] else ts[0]
    r = {me: 'S'}
    for i, t in enumerate(ts[1:], 1):
        if t[0] == 'param':
            r.setdefault(t, i)
    for _ in range(3):
        for pr in f['preds']:
            if 'proj' not in pr:
                continue
            src = p.T(pr['args'][0])
            dst = p.T(pr['ty'])
            if dst[0] == 'adt' and dst[2]:
                dst = dst[2][0]
            if src in r and r[src] != 'S' and dst[0] == 'param':
                r.setdefault(dst, r[src])
    return me, r


def run(ctx, rep):
    A = Ana(ctx)
    tr = A.trait('ElementStream')
    if tr is None:
        rep.missing('marker', 'ElementStream')
        return
    mk = Marker(A, tr)
    marked = set()
    for n in flows.ALL:
        k = flows.api_key(A, n)
        if k is None:
            rep.missing('methods', 'transform::Api::' + n)
            continue
        guarded(rep, 'result', 'transform::Api::' + n, method, A, rep, mk, n, k, marked)
    rep.floor('result', len(flows.ALL))
    rep.floor('demands', len(NEED))
    rep.floor('handed', len(flows.SELECT + flows.SUBSELECT) + 10)
    guarded(rep, 'not marked', 'templates and erased streams', plain, A, rep, mk)
    rep.floor('not marked', 2)
    shapes(ctx, rep, mk, marked)
    rep.notes.append('%d implementations of the marker; results that count as one element: %s' % (len(A.p.by_trait.get(tr, ())), ', '.join(sorted(marked))))
    rep.assume('streams implemented outside of the library are not considered', 'what the operations do besides the shape of their result is P18 to P26')


def method(A, rep, mk, n, k, marked):
    p, f = A.p, A.p.fns[k]
    nm = 'transform::Api::' + n
    me, rl = roles(A, k)
    given = mk.given(f['preds'])
    if n in NEED:
        if me in given:
            rep.ok('demands', nm, 'only on element streams')
        else:
            rep.bad('demands', nm, 'the operation needs a whole element but is available on every stream')
    handed(A, rep, mk, n, k, me, rl, given)
    rt = A.rett(k)
    if rt[0] != 'adt' or not rt[2]:
        rep.undecided('result', nm, 'result type %s' % (rt,))
        return
    sets = mk.solve(rt[2][0])
    if not sets:
        rep.ok('result', nm, 'does not count as one element')
        return
    for s in sets:
        have = {rl.get(t) for t in s | given}
        names = sorted(str(t[1]) for t in s | given)
        if any(w <= have for w in ENOUGH[n]):
            rep.ok('result', nm, 'counts as one element when %s do' % ' and '.join(names))
            if n in NEED:
                marked.add(n)
            continue
        if None in have:
            rep.undecided('result', nm, 'the origin of %s is not known' % ' or '.join(str(t) for t in s if rl.get(t) is None))
            continue
        rep.bad('result', nm, 'the result counts as one element %s, although it need not be one' % ('when ' + ' and '.join(names) + ' do' if names else 'always'))


def handed(A, rep, mk, n, k, me, rl, given):
    p = A.p
    api = A.adt('Api', True)
    xs = []
    for pr in p.fns[k]['preds']:
        if pr.get('trait', '').split('::')[-1] not in ('Fn', 'FnMut', 'FnOnce'):
            continue
        t = p.T(pr['args'][1])
        for a in t[1] if t[0] == 'tuple' else ():
            if a[0] == 'adt' and a[1] == api and a[2] and a[2][0] not in xs:
                xs.append(a[2][0])
    for x in xs:
        nm = 'transform::Api::%s given %s' % (n, show_type(x))
        sets = mk.solve(x)
        if x == me or not sets:
            rep.ok('handed', nm, 'the stream itself' if x == me else 'not available as an element')
            continue
        for s in sets:
            have = {rl.get(t) for t in s | given}
            if any(w <= have for w in HANDED.get(n, ())):
                rep.ok('handed', nm, 'one element when %s' % (' and '.join(sorted(str(t[1]) for t in s | given)) or 'always'))
            elif None in have:
                rep.undecided('handed', nm, 'the origin of %s is not known' % ' or '.join(str(t) for t in s if rl.get(t) is None))
            else:
                rep.bad('handed', nm, 'a builder receives the stream as one element, although it need not be one')


def plain(A, rep, mk):
    p = A.p
    st = [t for t in p.traits if t.split('::')[-1] == 'Stream' and t.startswith('html5_fuser')]
    seen = set()
    for im in p.impls:
        if im.get('trait', '').split('::')[-1] != 'IntoStream' or 'Stream' not in im['types']:
            continue
        t = p.T(im['types']['Stream'])
        if t in seen or t[0] in ('param', 'alias'):
            continue
        seen.add(t)
        s = mk.solve(t)
        nm = show_type(t)
        if frozenset() in s:
            rep.bad('not marked', nm, 'injected content of any shape counts as one element')
        else:
            rep.ok('not marked', nm, 'does not count as one element' + (' by itself' if s else ''))
    for t in st:
        d = ('dyn', t, ())
        if frozenset() in mk.solve(d):
            rep.bad('not marked', 'dyn Stream', 'an erased stream counts as one element')
        else:
            rep.ok('not marked', 'dyn Stream', 'does not count as one element')
        bx = ('adt', 'std::boxed::Box', (d,))
        if frozenset() in mk.solve(bx):
            rep.bad('not marked', 'Box<Stream>', 'an erased stream counts as one element')
        else:
            rep.ok('not marked', 'Box<Stream>', 'does not count as one element')


def show_type(t):
    if t[0] == 'adt':
        return t[1].replace('html5_fuser::', '') + ('<%s>' % ', '.join(show_type(x) for x in t[2]) if t[2] else '')
    return str(t[1]) if len(t) > 1 else t[0]


def shapes(ctx, rep, mk, marked):
    cache = {}

    def is_marked(t):
        if t not in cache:
            cache[t] = t[0] == 'adt' and bool(mk.solve(t))
        return cache[t]
    names = tuple(n for n in flows.ALL if n in marked or n in flows.SELECT)
    flows.SHAPE = (marked, is_marked)
    try:
        flows.report(ctx, rep, names, ('P29',), rule='shape')
    finally:
        flows.SHAPE = None
