"""What each public transformation has to do, and the exploration of all of them."""
import multiprocessing, os, time, traceback
from rules import panics, progress
from rules.streams import *

EXPLANATION = (
    'For every public transformation method the stream it returns is explored with the analysis engine as a protocol automaton: '
    'next_event is called again and again until the pairs (state of the stream, state of its inputs, state of the specification) '
    'repeat.  Inputs are opaque streams that may yield any part, placeholder, failure or end in any well-formed order (open elements '
    'up to the depth bound), selectors answer anything, builders return any stream.  Every emitted part has to be the one the '
    'specification of the method expects next; every end, failure and call of a builder has to be expected as well.')
TECHNIQUE = 'typestate analysis: abstract exploration of the stream state machines in MIR against a protocol automaton'

ATTRS = ('add_attribute_with_value', 'add_attribute', 'add_empty_attribute', 'add_to_attribute', 'replace_attribute_value_if_exists',
         'set_attribute_with_value', 'set_attribute', 'set_empty_attribute', 'remove_attribute', 'add_class', 'remove_class',
         'remove_id', 'set_id')
WHOLE = ('append', 'prepend', 'replace', 'remove')
CONTENTS = ('append_contents', 'prepend_contents', 'replace_contents', 'remove_contents', 'subselect_contents')
SELECT = ('select', 'select_once', 'select_direct', 'select_direct_once')
SUBSELECT = ('subselect', 'subselect_once', 'subselect_direct', 'subselect_direct_once')
REPEAT = ('repeat', 'repeat_or_else', 'repeat_contents', 'repeat_contents_or_else')
APPLY = ('apply', 'apply_if', 'apply_if_else', 'apply_with_option', 'apply_with_result', 'apply_as_boxed', 'apply_as_boxed_element',
         'apply_as_template', 'into_boxed', 'into_boxed_element')
ALL = WHOLE + CONTENTS + SELECT + SUBSELECT + REPEAT + APPLY + ATTRS

PROP = {}
for _n in WHOLE:
    PROP[_n] = 'P18'
for _n in CONTENTS:
    PROP[_n] = 'P19'
for _n in SELECT:
    PROP[_n] = 'P20'
for _n in SUBSELECT:
    PROP[_n] = 'P21'
for _n in REPEAT:
    PROP[_n] = 'P23'
for _n in APPLY:
    PROP[_n] = 'P24'
for _n in ATTRS:
    PROP[_n] = 'P26'

PHASES = {'append': 'SN', 'prepend': 'NS', 'replace': 'N', 'remove': ''}


def make_spec(name, args):
    """(specification, is the input one element)"""
    c = PROP[name]
    if name in WHOLE:
        return Spec(c, Phases(*PHASES[name])), False
    if name == 'subselect_contents':
        return Spec(c, Handed(), 'tags'), True
    if name in CONTENTS:
        return Spec(c, Phases(*PHASES[name[:-9]]), 'tags'), True
    if name in SELECT:
        return Spec(c, Selecting('direct' in name, 'once' in name)), False
    if name in SUBSELECT:
        sp = Spec(c, Selecting('direct' in name, 'once' in name), 'tags')
        sp.keep_selfclosed = True
        return sp, True
    if name in REPEAT:
        fb = name.endswith('or_else')
        core = Repeating(fb, args[2], args[3] if fb else None)
        return Spec(c, core, 'tags' if 'contents' in name else None), 'contents' in name
    if name in ATTRS:
        return Spec(c, Phases('S'), 'attributes'), True
    if name == 'apply_as_template':
        return Spec(c, Templated(args[1])), False
    return None, False


# None, or (methods whose result counts as one element, predicate: types that count as one element)
SHAPE = None


class Finding(object):
    def __init__(self, name):
        self.name = name
        self.viol, self.und = [], []
        self.pan = []
        self.prog = []
        self.nodes = self.edges = self.pulls = self.builds = self.paths = 0
        self.noop_edges = 0
        self.cut = False
        self.used = set()
        self.time = 0.0


def api_key(A, name):
    """the public method of the transformation interface"""
    api = A.adt('Api', True)
    if api is None:
        return None
    for n, k in A.inherent(api):
        if n == name:
            return k
    return None


def explore(A, name, K):
    F = Finding(name)
    t0 = time.time()
    try:
        explore_(A, name, K, F)
    except AnalysisError as x:
        F.und.append('analysis: %s' % x)
    except RecursionError:
        F.und.append('analysis: recursion limit')
    except Exception:
        F.und.append('analysis (internal): ' + traceback.format_exc())
    F.time = round(time.time() - t0, 2)
    return F


def engine(A, spec, K):
    e, M = A.new(budget=6000000)
    e.exact = K + 3
    e.max_nodes = 600
    mon = Monitor(A, e, M, spec, K)
    if SHAPE is not None:
        mon.shape, mon.marked = True, SHAPE[1]
    return e, mon


def finish(F, e, mon, L=None):
    F.pulls += mon.pulls
    F.builds += mon.builds
    F.cut |= mon.cut
    v = list(mon.viol)
    for p in e.panics:
        v.append(('panic', 'panics (%s)' % p['kind'], '; '.join('%s = %s' % (show(k), f[1] if f[0] != 'is' else show(f[1])) for k, f in list(p['facts'].items())[-8:]), p['fn']))
    full = any(len(l.nodes) >= e.max_nodes for l in e.loops.values())
    if e.unknown or full:
        why = 'states were merged' if full else 'operations without a model: %s' % ', '.join(sorted(str(x) for x in e.unknown)[:4])
        for x in v:
            F.und.append('%s: possibly %s' % (why, x[1]))
    else:
        F.viol += v
    for x in counters(e, mon.K):
        if x not in F.viol:
            F.viol.append(x)
    F.und += mon.und
    F.used |= set(e.visited)
    F.pan += panics.of(e)
    F.prog += progress.of(e)


def counters(e, K):
    """what depends on how deep elements are nested has to repeat: counters are not narrowed, and not compared with numbers beyond the depths explored"""
    out = []
    for (fn, op, c), vs in sorted(e.counts.items(), key=repr):
        if not any(v + 1 in vs and v + 2 in vs for v in vs):
            continue
        if op == 'cast':
            out.append(('deep', 'a counter is cut to %s in %s: elements nested deeper are mistaken for others' % (c, short_name(fn)), '', ''))
        elif op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge', 'match', 'Rem', 'BitAnd', 'Div', 'Shr') and K + 3 < c < 2 ** 31:
            out.append(('deep', 'a counter is compared with or reduced by %d in %s: elements nested deeper than that are treated differently' % (c, short_name(fn)), '', ''))
    return out


def explore_(A, name, K, F):
    k = api_key(A, name)
    if k is None:
        F.viol.append(('anchor', 'the method is missing', '', ''))
        return
    F.used.add(k)
    f = A.p.fns[k]
    e0, _ = A.new()
    args0 = A.args(e0, k)
    spec, element = make_spec(name, args0)
    e, mon = engine(A, spec, K)
    args, outs = A.run(e, k)
    if spec is None:
        applied(A, name, K, F, e, mon, args, outs)
        finish(F, e, mon)
        return
    if not outs and not e.panics:
        F.und.append('no path returns')
    for s, v in outs:
        F.paths += 1
        sv = api_stream(e, s, v)
        m = Mstate()
        spec.init(m, api_stream(e, s, args[0]), element)
        if SHAPE is not None and name in SHAPE[0]:
            m.x['shape'] = 'pre'
        mon.save(s, m)
        run_stream(F, e, mon, s, sv, name)
    for t, (s, stream, ts, _) in sorted(mon.handed.items(), key=lambda x: repr(x[0])):
        template_yields(F, e, mon, s, stream, ts, 'P23', 'the copy handed to the builder')
    finish(F, e, mon)


def template_yields(F, e, mon, s, stream, ts, cat, what):
    """does `stream` yield each part of the list behind the template stream `ts`, in order"""
    s = s.clone()
    mon.spec = Spec(cat, Indexed(raw_events(e, s, ts)))
    n0 = len(mon.viol)
    m = Mstate()
    mon.spec.core.init(m)
    mon.save(s, m)
    run_stream(F, e, mon, s, stream, ('template stream', what, len(e.loops)))
    mon.viol[n0:] = [(c, '%s: %s' % (what, msg), f, t) for c, msg, f, t in mon.viol[n0:]]


def raw_events(e, s, ts):
    for i, f in enumerate(e.p.adts[e.typeof(ts)[1]]['variants'][0]['fields']):
        ft = e.p.T(f['ty'])
        if ft[0] == 'adt' and ft[1] in ('std::rc::Rc', 'std::sync::Arc', 'std::vec::Vec'):
            return e.get(ts, (('f', i),))
    raise AnalysisError('template not recognised')


class Indexed(Core):
    """the parts of a template, from the first to the last"""

    def __init__(self, vec):
        self.vec = vec

    def init(self, m):
        m.x['i'] = T(INT(0))
        m.x['vec'] = T(self.vec)

    def out(self, mon, s, m, o):
        indexed_out(mon, s, m, events_of(mon, s, m.x['vec'].t), o, self.spec.cat, 'the template')

    def complete(self, mon, s, m):
        return indexed_over(mon, s, m, events_of(mon, s, m.x['vec'].t))


def run_stream(F, e, mon, s, stream, where):
    try:
        L = mon.drive(s, stream, where)
    except AnalysisError as x:
        F.und.append('analysis: %s' % x)
        return
    F.nodes += len(L.nodes)
    F.edges += len(L.edges)
    noops(F, e, mon, L)


def noops(F, e, mon, L):
    """cycles that only produce placeholders"""
    adj = {}
    for (i, j, bk, base) in L.edges:
        tr = bk.trace[base:]
        if any(x[0] in ('pull', 'item', 'build', 'ucall', 'loop', 'end', 'err') for x in tr):
            continue
        o = [x for x in tr if x[0] == 'out']
        if not o:
            continue
        n = mon.norm(bk, o[-1][1])
        if n is None or n[0] != NOOP:
            continue
        F.noop_edges += 1
        adj.setdefault(i, []).append((j, bk))
    # depth first search for a cycle
    state = {}

    def visit(i):
        state[i] = 1
        for j, bk in adj.get(i, ()):
            if state.get(j) == 1:
                W = L.nodes[j]
                al = e.align(W, bk)
                if all(W.mem.get(c) == v for c, v in al.mem.items() if c in W.mem):
                    F.viol.append(('P34', 'can yield placeholders forever without reading its input', facts_text(bk, 6), ''))
                else:
                    F.und.append('a cycle of placeholders whose progress is not understood')
                return True
            if j not in state and visit(j):
                return True
        state[i] = 2
        return False
    for i in list(adj):
        if i not in state and visit(i):
            break


# ------------------------------------------------------------------ apply
CHOICE = {
    'apply': [(None, None, 1, None)],
    'apply_if': [(1, True, 2, None), (1, False, None, None)],
    'apply_if_else': [(1, True, 2, None), (1, False, 3, None)],
    'apply_with_option': [(1, 1, 2, 1), (1, 0, 3, None)],
    'apply_with_result': [(1, 0, 2, 1), (1, 1, 3, 1)],
    'apply_as_boxed': [(None, None, 1, None)],
    'apply_as_boxed_element': [(None, None, 1, None)],
    'into_boxed': [(None, None, None, None)],
    'into_boxed_element': [(None, None, None, None)],
}


def applied(A, name, K, F, e, mon, args, outs):
    me = api_stream(e, St(), args[0])
    for s, v in outs:
        F.paths += 1
        calls = [x for x in s.trace if x[0] == 'ucall']
        todo = []
        for on, val, bi, pay in CHOICE[name]:
            if on is None:
                todo.append((s, bi, None))
                continue
            c = e.strip(s, args[on])
            if val is True or val is False:
                for s2, k in e.split_bool(s, c):
                    if k == val:
                        todo.append((s2, bi, None))
            else:
                for s2, k in e.split_variant(s, c):
                    if k == val:
                        todo.append((s2, bi, e.payload(c, k) if pay else None))
        for s2, bi, pay in todo:
            cond = facts_text(s2, 6)
            if bi is None:
                if calls:
                    F.viol.append(('P24', 'a builder runs although it was not chosen', cond, ''))
                    continue
                same_stream(A, name, K, F, e, mon, s2, api_stream(e, s2, v), me, 'S', 'the result')
                continue
            want = args[bi]
            good = [x for x in calls if x[1] == want]
            if len(calls) != 1 or not good:
                if not calls and contains(v, want):
                    F.und.append('the builder is kept in the result')
                else:
                    F.viol.append(('P24', 'runs %s instead of exactly the chosen builder' % (
                        'no builder' if not calls else ' and '.join(show(x[1]) for x in calls)), cond, ''))
                continue
            c = good[0]
            if pay is not None and (len(c[2]) < 2 or not mon.same_val(s2, e.strip(s2, c[2][1]), pay)):
                F.viol.append(('P24', 'the builder is not given the carried value', cond, ''))
                continue
            same_stream(A, name, K, F, e, mon, s2, api_stream(e, s2, c[2][0]), me, 'S', 'the stream handed to the builder')
            rt = A.p.T(A.p.fns[api_key(A, name)]['locals'][0])
            built = e.sym(('ucall', want, c[3]), e.symty.get(('sym', ('ucall', want, c[3])), rt)) if ('sym', ('ucall', want, c[3])) not in e.symty else ('sym', ('ucall', want, c[3]))
            same_stream(A, name, K, F, e, mon, s2, api_stream(e, s2, v), api_stream(e, s2, built), 'B', 'the result')


def same_stream(A, name, K, F, e, mon, s, stream, source, role, what):
    """does `stream` yield exactly what `source` yields"""
    if stream == source:
        F.nodes += 1
        return
    s = s.clone()
    spec = Spec('P24', Phases('S'))
    n0 = len(mon.viol)
    mon.spec = spec
    m = Mstate()
    spec.init(m, source, False)
    mon.save(s, m)
    run_stream(F, e, mon, s, stream, (name, what, len(e.loops)))
    mon.viol[n0:] = [(c, '%s: %s' % (what, msg), f, t) for c, msg, f, t in mon.viol[n0:]]


class Templated(Core):
    """collects everything, hands the template to the builder, emits the builder's template"""

    def __init__(self, builder):
        self.builder = builder

    def init(self, m):
        m.x['t'] = 'collect'
        m.x['exp'] = None

    def on_content(self, mon, s, m, it):
        if m.x['t'] != 'collect':
            raise Stop(self.spec.cat, 'parts of the original are read after the builder ran')
        collect(mon, m, it)

    def on_ucall(self, mon, s, m, f, args, res):
        e = mon.e
        if f != self.builder:
            raise AnalysisError('unknown call of %s' % show(f)[:60])
        if m.x['t'] != 'collect':
            raise Stop(self.spec.cat, 'runs the builder twice')
        if not self.spec.content_over(m) or not m.role('S').over:
            raise Stop(self.spec.cat, 'runs the builder before the whole stream was collected')
        vec = template_events(mon, s, args[0])
        exp = m.x['exp'].t if m.x['exp'] is not None else ('seq', ())
        if vec[0] != 'seq':
            raise AnalysisError('the collected parts are not known')
        if vec[1] != exp[1]:
            no_noops(mon, s, vec)
            raise Stop(self.spec.cat, 'the template handed to the builder is not what was collected: %s instead of %s' % (show(vec)[:200], show(exp)[:200]))
        m.x['t'] = 'called'
        m.x['res'] = T(res)
        m.x['exp'] = None
        m.x['i'] = T(INT(0))

    def sync(self, mon, s, m):
        """what is known of the builder's answer"""
        r = m.x.get('res')
        if m.x.get('t') == 'called' and r is not None:
            v = mon.e.variant(s, r.t)
            if v == 0:
                m.x['vec'] = T(template_rc(mon, s, mon.e.payload(r.t, 0)))
            elif v == 1:
                m.x['fail'] = T(mon.e.payload(r.t, 1))
            if v is not None:
                m.x.pop('res')

    def out(self, mon, s, m, o):
        if m.x['t'] != 'called':
            raise Stop(self.spec.cat, 'emits %s before the builder was run' % ev_text(mon, s, o))
        self.sync(mon, s, m)
        if 'fail' in m.x:
            raise Stop('P16', 'goes on although the builder failed')
        if 'vec' not in m.x:
            raise Stop(self.spec.cat, "emits %s without looking at the builder's answer" % ev_text(mon, s, o))
        indexed_out(mon, s, m, events_of(mon, s, m.x['vec'].t), o, self.spec.cat, "the builder's template")

    def complete(self, mon, s, m):
        if m.x['t'] != 'called':
            return False
        self.sync(mon, s, m)
        if 'fail' in m.x:
            raise Stop('P16', 'ends normally although the builder failed')
        return 'vec' in m.x and indexed_over(mon, s, m, events_of(mon, s, m.x['vec'].t))

    def own_error(self, mon, s, m, x):
        if m.x['t'] != 'called':
            return False
        self.sync(mon, s, m)
        return 'fail' in m.x and mon.same_val(s, x, m.x['fail'].t)


def no_noops(mon, s, vec):
    for x in vec[1]:
        n = mon.norm(s, x[1]) if x[0] == 'one' else None
        if n is not None and n[0] == NOOP:
            raise Stop('P34', 'a placeholder part is stored in a template')


def collect(mon, m, it):
    ev = mon.event(it.kind, it.fields)
    exp = m.x['exp']
    seq = exp.t if exp is not None else ('seq', (), ('adt', mon.EV, ()))
    m.x['exp'] = T(('seq', seq[1] + (('one', ev),)) + seq[2:])


def template_rc(mon, s, t):
    """the (shared) list of parts of a template value"""
    return raw_events(mon.e, s, mon.e.strip(s, t))


def events_of(mon, s, x):
    e = mon.e
    x = e.strip(s, x)
    t = e.typeof(x)
    if x[0] == 'rc' or t[0] == 'adt' and t[1] in ('std::rc::Rc', 'std::sync::Arc'):
        return e.strip(s, e.load(s, x))
    return x


def template_events(mon, s, t):
    return events_of(mon, s, template_rc(mon, s, t))


def indexed_out(mon, s, m, vec, o, cat, what):
    """`o` has to be the part of `vec` at the expected position"""
    e = mon.e
    i = e.simp(s, m.x['i'].t)
    w = mon.elem(s, vec, i)
    if w is None:
        raise AnalysisError('part %s of %s is not known' % (show(i)[:40], what))
    n = mon.norm(s, o)
    o = e.strip(s, o)
    if o != w:
        src = lambda t: t[1][1] if t[0] == 'sym' and isinstance(t[1], tuple) and t[1][0] == 'el' else None
        a, b = src(o), src(w)
        own = a is not None and b is not None and a != b and a[0] == 'seq' and not contains(a, b) and all(x[0] in ('acc', 'one') for x in a[1])
        if o[0] != 'adt' and a != b and not own or a is None and o[0] != 'adt':
            raise AnalysisError('the origin of an emitted part is not understood: %s' % show(o)[:80])
        raise Stop(cat, 'emits %s instead of %s, part %s of %s' % (show(o)[:120], show(w)[:120], show(i)[:40], what))
    m.x['i'] = T(e.simp(s, lin_add(i, INT(1))))


def indexed_over(mon, s, m, vec):
    e = mon.e
    i = e.simp(s, m.x['i'].t)
    ln = mon.length(s, vec)
    return e.simp(s, e.cmp_terms(s, 'Lt', i, ln)) == FALSE


# ------------------------------------------------------------------ all of them
_A = None


def work(x):
    return explore(_A, x[0], x[1])


def run_methods(ctx, names, K=None):
    global _A
    _A = Ana(ctx)
    if K is None:
        K = 6 if ctx.tier == 'thorough' else 4
    jobs = [(n, K) for n in names]
    cost = {'repeat_contents_or_else': 9, 'repeat_contents': 8, 'subselect': 7, 'select': 6}
    jobs.sort(key=lambda j: -cost.get(j[0], 0))
    mp = multiprocessing.get_context('fork')
    with mp.Pool(min(8, len(jobs))) as pool:
        r = pool.map(work, jobs, chunksize=1)
    for f in r:
        ctx.used |= f.used
    return K, sorted(r, key=lambda f: names.index(f.name))


def report(ctx, rep, names, cats=None, rule='protocol', drop=()):
    """one obligation per method; `cats` restricts the kinds of violation that count"""
    K, fs = run_methods(ctx, names)
    for f in fs:
        bad = [v for v in f.viol if (cats is None or v[0] in cats or v[0] == 'anchor' or v[0] == 'deep' and 'P22' in cats) and v[0] not in drop]
        seen = set()
        for c, msg, facts, tr in bad:
            if (c, msg) in seen:
                continue
            seen.add((c, msg))
            rep.bad(rule, 'transform::Api::' + f.name, '%s\n  when: %s\n  after: %s' % (msg, facts, tr))
        if bad:
            continue
        if f.und:
            rep.undecided(rule, 'transform::Api::' + f.name, f.und[0])
            continue
        rep.ok(rule, 'transform::Api::' + f.name, '%d states, %d transitions, %d reads of an input, %d builder calls, placeholder steps %d, %.1fs' % (
            f.nodes, f.edges, f.pulls, f.builds, f.noop_edges, f.time))
    rep.notes.append('elements nested up to depth %d; deeper nesting was %s' % (K, 'cut' if any(f.cut for f in fs) else 'never needed'))
    rep.assume('input streams, injected streams and the results of builders are well formed (balanced; one element where an element stream is required) and stay ended after their end or failure',
               'selectors answer the same for the same part', 'elements nest at most %d deep below the input (deeper nesting repeats the same states)' % K)
    return fs
