"""P34: placeholder parts are never observable."""
from rules import flows, p36
from rules.streams import NOOP
from rules.common import *
from rules.flows import TECHNIQUE

LEVEL_NOTE = 'static analysis: placeholder transitions of all transformation state machines'
EXPLANATION = flows.EXPLANATION + (
    '  Here inputs may yield placeholders anywhere.  A placeholder may never be given to a selector or collected into a template, and no '
    'cycle of states may yield placeholders without reading an input, an iterator or running a builder.  skip: the routine that reads on over placeholders is analysed '
    'on its own; it has to return the first part, end or failure that is no placeholder, after any number of placeholders.')


def run(ctx, rep):
    A = Ana(ctx)
    if skipping(A, rep):
        return      # everything else reads through it
    flows.report(ctx, rep, flows.ALL, ('P34',))
    t = A.adt('Template', True)
    for n in ('transform', 'with_transformed_element'):
        k = A.method(t, n)
        if k is None:
            rep.missing('collect', 'Template::' + n)
        else:
            guarded(rep, 'collect', 'Template::' + n, p36.collecting, A, rep, k, n, ('P34',))


def skipping(A, rep):
    """the routine that reads on over placeholders, on its own with an input that may yield anything"""
    bad = False
    for k, f in sorted(A.p.fns.items()):
        if f['name'].split('::')[-1] != 'next_event_skip_noop':
            continue
        t = A.argt(k)
        if len(t) == 1 and t[0][0] == 'ref' and t[0][-1][0] == 'param' or k.endswith('Stream::next_event_skip_noop'):
            bad |= bool(guarded(rep, 'skip', A.name(k), skips, A, rep, k))
    return bad


def status(e, s, ev):
    """what is established about the result of a pull: err, end, noop, part or None"""
    rs = e.split_variant(s, ev)
    out = set()
    for s1, r in rs:
        if r == 1:
            out.add('err')
            continue
        for s2, o in e.split_variant(s1, e.payload(ev, 0)):
            if o == 0:
                out.add('end')
                continue
            for s3, n in e.split_variant(s2, kind(e, s2, e.payload(e.payload(ev, 0), 1))):
                out.add('noop' if n == NOOP else 'part')
    return out


def kind(e, s, ev):
    return e.get(e.strip(s, ev), (('f', 0),))


def skips(A, rep, k):
    e, M = A.new()
    args, outs = A.run(e, k)
    nm = A.name(k)
    if e.unknown:
        rep.undecided('skip', nm, 'operations without a model: %s' % ', '.join(sorted(str(x) for x in e.unknown)[:4]))
        return
    bad = []
    for L in e.loops.values():
        for i, j, bk, base in L.edges:
            for x in bk.trace[base:]:
                if x[0] == 'pull' and status(e, bk, ev_of(e, x)) - {'noop'}:
                    bad.append(('reads on although the part read may not be a placeholder', bk))
    for s, v in outs:
        p = [x for x in s.trace if x[0] == 'pull']
        last = ev_of(e, p[-1]) if p else None
        for x in p[:-1]:
            if status(e, s, ev_of(e, x)) - {'noop'}:
                bad.append(('reads on although the part read may not be a placeholder', s))
        if last is None:
            bad.append(('returns without reading the input', s))
            continue
        w = status(e, s, last)
        if 'noop' in w:
            bad.append(('returns %s although the last part read is a placeholder' % ('it' if v == last else show(v)[:60]) , s))
        elif v != last:
            got = status(e, s, v)
            if got != w:
                bad.append(('returns %s although the input yields %s' % ('/'.join(sorted(got)), '/'.join(sorted(w))), s))
            elif w != {'end'} and not carries(e, s, v, last):
                rep.undecided('skip', nm, 'result %s is not understood' % show(v)[:80])
    carried = False
    for msg, s in bad:
        if msg.startswith('reads on') and any(x[0] == 'pull' and repr(ev_of(e, x)) in repr(s.mem) for x in s.trace):
            carried = True
    for msg, s in bad:
        n = None if carried else rounds(e, s)
        if carried:
            rep.undecided('skip', nm, 'the part read is carried round the loop: possibly ' + msg)
        elif n is not None:
            rep.bad('skip', nm, '%s after %d rounds of the loop' % (msg, n))
        else:
            rep.bad('skip', nm, '%s when %s' % (msg, facts_text(s, 6)))
    if not bad:
        rep.ok('skip', nm, '%d ways out, the result is the first part that is no placeholder' % len(outs))
    return bool(rep.viol)


def rounds(e, s):
    """the number of rounds after which a way out of a counting loop is taken, if a counter is all it depends on"""
    for L in e.loops.values():
        for i, W in enumerate(L.nodes):
            back = [bk for a, b, bk, base in L.edges if a == i and b == i]
            if not back or not any(t[0] == 'loop' and t[1:3] == (L.id, i) for t in s.trace):
                continue
            own = [(k, v) for k, v in s.facts.items() if has_w(k) and not all(bk.facts.get(k) == v for bk in back)]
            if len(own) != 1:
                continue
            (k, v), = own
            if k[:2] != ('app', 'Lt') or k[3][0] != 'int' or v != ('is', ('bool', False)) or not has_w(k[2]) or k[2][0] != 'sym':
                continue
            if all(bk.facts.get(k) == ('is', ('bool', True)) and steps(W, bk, k[2]) for bk in back):
                return k[3][1]
    return None


def steps(W, bk, w):
    """the value goes up by a constant on this way round"""
    hit = False
    for c, x in W.mem.items():
        for p, y in leaves(x):
            if y != w:
                continue
            z = bk.mem.get(c)
            for i in p:
                z = z[i] if isinstance(z, tuple) and len(z) > i else None
            if not (z and z[0] == 'lin' and z[1] > 0 and z[2] == ((w, 1),)):
                return False
            hit = True
    return hit


def leaves(x, p=()):
    yield p, x
    if isinstance(x, tuple) and x[:1] != ('sym',):
        for i, y in enumerate(x):
            for r in leaves(y, p + (i,)):
                yield r


def has_w(t):
    return isinstance(t, tuple) and (t[:1] == ('w',) or any(has_w(x) for x in t))


def ev_of(e, x):
    return ('sym', ('ev', x[1], x[2]))


def carries(e, s, v, last):
    for s1, r in e.split_variant(s, v):
        x, y = e.payload(v, r), e.payload(last, r)
        if r == 0 and x != y:
            x, y = e.payload(x, 1), e.payload(y, 1)
        if e.strip(s1, x) != e.strip(s1, y):
            return False
    return True
