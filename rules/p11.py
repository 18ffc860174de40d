"""P11: void elements are recognised consistently."""
from rules import grammar, flows, p06
from rules.common import *
from rules.grammar import VOID, Unsure

TECHNIQUE = 'path-partitioned dataflow over MIR (parser step, element construction, rendering) and typestate analysis of the content operations'
LEVEL_NOTE = 'static analysis: all paths of the parser step, the element constructor, rendering and the content operations; the set of void names is compared as a whole'
EXPLANATION = (
    'Predicates over names are summarised as sets of names compared without regard to ASCII case.  The parser step, compared with the '
    'documented grammar on every path, has to make a void part exactly where the name is in the documented set; so does the element '
    'constructor, whose template has to consist of that one part with the given name and no attributes.  Rendering a void part has to '
    'write the markup of an opening tag and nothing else, and the content operations, explored as protocol automata, have to emit a void '
    'element alone and unchanged.')

METHODS = flows.CONTENTS + ('repeat_contents', 'repeat_contents_or_else')


def run(ctx, rep):
    A = Ana(ctx)
    guarded(rep, 'constructed', 'element construction', constructed, A, rep)
    rep.floor('constructed', 1)
    ke = p06.display_of(A, A.adt('Event', True))
    if ke is None:
        rep.missing('rendered', 'Display for Event')
    else:
        names, _, _ = p06.kinds(A)
        ad = p06.kinds(A)[2]
        void = {i for i, v in enumerate(ad['variants']) if v['name'] == 'VoidTag'}
        guarded(rep, 'rendered', A.name(ke), p06.check, A, rep, 'rendered', ke, None, A.adt('Event', True), A.adt('Template', True), void)
        rep.floor('rendered', 1)
    flows.report(ctx, rep, METHODS, ('P11',), rule='contents')
    grammar.claim(ctx, rep, 'P11', [('kind', x) for x in ('VoidTag', 'SelfClosedTag', 'OpeningTag')])
    rep.assume('names compare as documented (P05)')


def constructors(A):
    """exported functions that make a template of nothing but a name"""
    tpl = A.adt('Template', True)
    for k, f in A.local():
        if not f.get('exported') or f.get('trait') or f['argc'] != 1:
            continue
        t = A.rett(k)
        if t[0] == 'adt' and t[1] == 'std::result::Result' and t[2][0][:2] == ('adt', tpl) and t[2][1][0] == 'adt' and t[2][1][1].split('::')[-1] == 'IdentifierError':
            yield k


def text_of(e, M, s, v):
    return M.as_str(e, s, v)


def constructed(A, rep):
    from rules.load import Load
    ld = Load(A)
    n = 0
    for k in constructors(A):
        n += 1
        e, M = A.new()
        args, outs = A.run(e, k)
        nm = A.name(k)
        bad, und, seen = [], [], set()
        for s, v in outs:
            for s1, r in e.split_variant(s, v):
                if r == 1:
                    x = e.strip(s1, e.payload(v, 1))
                    src = [q for q, f in s1.facts.items() if q[0] == 'app' and q[1] == 'discr' and q[2][0] == 'app' and q[2][1] == 'tcall' and f == ('is', INT(1))]
                    if not any(x == e.payload(q[2], 1) for q in src):
                        (und if contains(x, args[0]) else bad).append(('a failure that is not the one of the name: %s' % show(x)[:200], s1))
                    else:
                        seen.add('err')
                    continue
                q = ld.events(e, s1, e.payload(v, 0))
                if q is None or any(x[0] != 'one' for x in q):
                    und.append(('the parts of the template are %s' % show(v)[:200], s1))
                    continue
                if len(q) != 1:
                    bad.append(('the template consists of %d parts' % len(q), s1))
                    continue
                ev = e.strip(s1, q[0][1])
                if ev[0] == 'adt' and len(ev[3]) == 1 and ev[1] == A.adt('Event', True):
                    ev = e.strip(s1, ev[3][0])
                if ev[0] != 'adt':
                    und.append(('part %s' % show(ev)[:200], s1))
                    continue
                va = A.p.adts[ev[1]]['variants'][ev[2]]
                fs = dict(zip([f['name'] for f in va['fields']], ev[3]))
                given = [q[2] for q, f in s1.facts.items() if q[0] == 'app' and q[1] == 'discr' and q[2][0] == 'app' and q[2][1] == 'tcall' and f == ('is', INT(0))]
                if 'tag' not in fs or len(given) != 1:
                    if va['name'] not in ('VoidTag', 'SelfClosedTag'):
                        bad.append(('the part is a %s' % va['name'], s1))
                    else:
                        und.append(('the name of the part is not recognised', s1))
                    continue
                want = text_of(e, M, s1, e.payload(given[0], 0))
                X = text_of(e, M, s1, fs['tag'])
                if X != want:
                    (bad if X[0] == 'str' or X[0] == 'app' and X[1] in ('lower', 'upper', 'sub', 'trim') else und).append(('the name is kept as %s' % show(X)[:200], s1))
                    continue
                at = ld.events(e, s1, fs['attributes']) if 'attributes' in fs else None
                if at is None:
                    und.append(('the attributes are %s' % show(fs.get('attributes', va['name']))[:200], s1))
                    continue
                if at != ():
                    bad.append(('the element starts with attributes', s1))
                    continue
                for s2, vd in e.split_bool(s1, M.idin(e, s1, want, VOID)):
                    if va['name'] != ('VoidTag' if vd else 'SelfClosedTag'):
                        bad.append(('an element whose name is %s is made a %s' % ('void' if vd else 'not void', va['name']), s2))
                    else:
                        seen.add(va['name'])
        for p in e.panics:
            und.append(('can panic: %s' % p['kind'], s))
        if e.unknown:
            und += [('operations without a model: %s: possibly %s' % (sorted(str(x) for x in e.unknown)[0], m), z) for m, z in bad]
            bad = []
        for m, z in bad[:3]:
            rep.bad('constructed', nm, '%s\n  when: %s' % (m, facts_text(z)))
        if bad:
            continue
        if und:
            rep.undecided('constructed', nm, und[0][0])
            continue
        for x in ('VoidTag', 'SelfClosedTag'):
            if x in seen:
                rep.ok('constructed', nm + ' ' + x, 'exactly as documented')
            else:
                rep.bad('constructed', nm, 'never makes a %s' % x)
