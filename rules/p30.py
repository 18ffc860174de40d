"""P30: templates are immutable and can be shared and reused."""
from rules import flows, p35
from rules.p33 import refs
from rules.common import *

TECHNIQUE = 'type-level freeze analysis (no shared mutable state reachable from a template), alias/unsafe inventory of the MIR, and path-partitioned dataflow of copies and template streams'
LEVEL_NOTE = 'static analysis: all types reachable from templates, parts and template streams; every function of the crate; all paths of copies and template streams'
EXPLANATION = (
    'A template is reached through shared references and reference counted pointers only, so it can change only through interior '
    'mutability, unsafe code or global state.  The rule walks the types of all fields reachable from templates, parts and template '
    'streams (resolved by the compiler) and refuses cells, locks, atomics and raw mutable pointers in them; the statics and thread '
    'locals of the crate are inspected for mutable state; every function is inspected for unsafe writes, casts to mutable pointers '
    'and unchecked mutable access to shared memory.  Copies: every Clone implementation of a reachable type is derived or analysed '
    'on all paths to return the value itself.  Streams of templates (owned, borrowed or shared) start at the first part and read '
    'every part once; repetition starts every round from the collected template.')

CELLS = ('std::cell::', 'core::cell::', 'std::sync::Mutex', 'std::sync::RwLock', 'std::sync::atomic::', 'std::sync::ReentrantLock', 'std::thread::LocalKey')
ONCE = ('OnceCell', 'LazyCell', 'OnceLock', 'LazyLock', 'Once')
PURE = ('std::vec::Vec', 'std::option::Option', 'std::result::Result', 'std::boxed::Box', 'std::string::String', 'std::marker::PhantomData',
        'std::collections::', 'std::borrow::Cow', 'std::path::PathBuf', 'std::ffi::OsString', 'std::num::', 'std::ops::Range', 'std::alloc::Global',
        'std::collections::VecDeque', 'std::slice::Iter', 'std::vec::IntoIter', 'std::str::Chars', 'std::str::CharIndices')
SHARED = ('std::rc::Rc', 'std::sync::Arc', 'std::rc::Weak', 'std::sync::Weak')
WRITES = ('get_mut_unchecked', 'from_raw_parts_mut', 'as_bytes_mut', 'as_mut_vec', 'transmute', 'transmute_copy', 'write_volatile', 'write_unaligned',
          'copy_nonoverlapping', 'as_mut_unchecked', 'swap_nonoverlapping', 'assume_init_mut', 'unsafe_subtendril', 'unsafe_pop_front', 'raw_get')
ROOTS = ('Template', 'TemplateStream', 'Event', 'Identifier', 'Value', 'Data')


class Walk(object):
    """types as the compiler resolved them, with the type parameters in scope"""

    def __init__(self, A, rep):
        self.A, self.p, self.rep, self.local = A, A.p, rep, []
        self.types = A.ctx.dump['types']
        self.n = 0

    def go(self, root, i, env, path, shared, seen):
        """`shared`: more than one owner can reach the place"""
        if i is None:
            return
        t = self.types[i]
        if t is None:
            self.rep.undecided('frozen', root, '%s has a type that is not known' % path)
            return
        k = t['k']
        if k == 'param':
            if t['n'] in env:
                self.go(root, env[t['n']][0], env[t['n']][1], path, shared, seen)
            return
        key = (i, shared, tuple(sorted((n, v[0]) for n, v in env.items())))
        if key in seen:
            return
        seen.add(key)
        self.n += 1
        if k == 'adt':
            name = t['def']
            if any(name.startswith(c) for c in CELLS):
                last = name.split('::')[-1]
                if last in ONCE or last.startswith('Lazy'):
                    self.rep.undecided('frozen', root, '%s is initialised once (%s): not analysed' % (path, name))
                elif shared:
                    self.rep.bad('frozen', root, '%s has type %s: it can change while others use the template' % (path, name))
                return
            args = [x for x in t['args'] if isinstance(x, int)]
            ad = self.p.adts.get(name)
            if ad is not None and ad.get('local'):
                if name not in self.local:
                    self.local.append(name)
                inner = dict((g, (x, env)) for g, x in zip(ad.get('generics') or (), args))
                for v in ad['variants']:
                    for f in v['fields']:
                        self.go(root, f['ty'], inner, path + '.' + f['name'], shared, seen)
                return
            if name in SHARED:
                shared = True
            elif not (any(name.startswith(x) for x in PURE) or name.split('::')[-1] in ('Tendril', 'UTF8', 'NonAtomic', 'Atomic', 'Global')):
                self.rep.undecided('frozen', root, '%s has the foreign type %s' % (path, name))
            for x in args:
                self.go(root, x, env, path, shared, seen)
        elif k in ('ref', 'slice', 'array'):
            self.go(root, t['t'], env, path, shared or k == 'ref', seen)
        elif k == 'ptr':
            self.rep.undecided('frozen', root, '%s is a raw pointer' % path)
        elif k == 'tuple':
            for x in t['ts']:
                self.go(root, x, env, path, shared, seen)
        elif k not in ('int', 'str', 'char', 'bool', 'float', 'never'):
            self.rep.undecided('frozen', root, '%s has a type that is not known (%s)' % (path, k))


class Cells(Walk):
    """mutable types below a type"""

    def __init__(self, A):
        Walk.__init__(self, A, self)
        self.hits = []

    def bad(self, rule, inst, msg):
        self.hits.append(('bad', msg))

    def undecided(self, rule, inst, msg):
        self.hits.append(('und', msg))


def run(ctx, rep):
    A = Ana(ctx)
    w = Walk(A, rep)
    for r in ROOTS:
        a = A.adt(r, True)
        if a is None:
            rep.missing('frozen', 'type ' + r)
            continue
        n = w.n
        for v in A.p.adts[a]['variants']:
            for f in v['fields']:
                w.go(short_name(a), f['ty'], {}, short_name(a) + '.' + f['name'], r != 'TemplateStream', set())
        if a not in w.local:
            w.local.append(a)
        rep.ok('frozen', short_name(a), '%d types below it' % (w.n - n))
    rep.floor('frozen', 6)
    state(A, rep)
    guarded(rep, 'no back door', 'crate', backdoor, A, rep)
    for a in sorted(w.local):
        copies(A, rep, a)
    rep.floor('copies', 6)
    tr = A.trait('IntoStream')
    tpl = A.adt('Template', True)
    for im in A.impls(tr) if tr else ():
        k = im['items'].get('into_stream')
        if k in A.p.fns and contains(A.impl_self(im), tpl):
            guarded(rep, 'injection', A.name(k), p35.one, A, rep, k, A.impl_self(im), ctx)
    rep.floor('injection', 3)
    flows.report(ctx, rep, flows.REPEAT, ('P23', 'P30'), rule='repetition')
    rep.assume('the reference counting pointers, Vec and the copy-on-write buffers of tendril are correct')


def state(A, rep):
    d = A.ctx.dump
    n = 0
    for s in d['statics']:
        n += 1
        nm = s.get('name') or s.get('key') or str(s)
        if s.get('mut'):
            rep.bad('global state', nm, 'mutable static')
            continue
        w = Cells(A)
        w.go(nm, s.get('ty'), {}, 'it', True, set())
        if any(h[0] == 'bad' for h in w.hits):
            rep.bad('global state', nm, 'global state that can change between uses of a template: ' + [h[1] for h in w.hits if h[0] == 'bad'][0])
            continue
        if w.hits:
            rep.undecided('global state', nm, w.hits[0][1])
            continue
        rep.ok('global state', nm, 'immutable')
    rep.ok('global state', 'crate', '%d statics inspected' % n)


def backdoor(A, rep):
    fns = A.ctx.dump['fns']
    n = 0
    for k, f in sorted(fns.items()):
        n += 1
        nm = A.name(k) if k in A.p.fns else k
        if f.get('unsafe') and f.get('exported'):
            rep.undecided('no back door', nm, 'exported unsafe function')
        out = []
        refs(f.get('blocks'), out)
        for _, rn, name in out:
            last = name.split('::')[-1]
            if last in WRITES or ('ptr::' in name and last in ('write', 'copy', 'swap', 'replace', 'as_mut', 'drop_in_place', 'cast_mut')) or ('UnsafeCell' in name):
                rep.bad('no back door', nm, 'uses %s, which can write to shared memory' % name)
            if 'thread::LocalKey' in name:
                rep.bad('no back door', nm, 'uses thread local state (%s)' % name)
        for op, ty in casts(f.get('blocks')) if f.get('local') else ():
            if mut_ptr(A, ty) and op[0] in ('c', 'm') and shared_src(A, f, op[1]):
                rep.bad('no back door', nm, 'casts a shared pointer to a mutable one')
    rep.ok('no back door', 'crate', '%d functions, %d unsafe blocks inspected' % (n, len(A.ctx.dump['unsafe_blocks'])))


def casts(x):
    """operands and target types of the casts in a piece of MIR"""
    if isinstance(x, dict):
        for v in x.values():
            for y in casts(v):
                yield y
    elif isinstance(x, list):
        if len(x) == 4 and x[0] == 'cast' and isinstance(x[3], int):
            yield x[2], x[3]
        for v in x:
            for y in casts(v):
                yield y


def mut_ptr(A, ty):
    t = A.ctx.dump['types'][ty]
    return bool(t) and t.get('k') == 'ptr' and bool(t.get('mut'))


def shared_src(A, f, place):
    if place[1]:
        return False
    t = A.ctx.dump['types'][f['locals'][place[0]]]
    return bool(t) and t.get('k') in ('ptr', 'ref') and not t.get('mut')


def copies(A, rep, adt):
    found = False
    for im in A.impls('std::clone::Clone'):
        t = A.impl_self(im)
        if t[0] != 'adt' or t[1] != adt:
            continue
        found = True
        nm = 'Clone for ' + short_name(adt)
        if im['derived']:
            rep.ok('copies', nm, 'derived: every component is copied')
            continue
        k = im['items'].get('clone')
        if k not in A.p.fns:
            rep.undecided('copies', nm, 'no body')
            continue
        guarded(rep, 'copies', nm, faithful, A, rep, nm, k)
        if 'clone_from' in im['items']:
            rep.undecided('copies', nm, 'clone_from is not analysed')
    return found


def faithful(A, rep, nm, k):
    e, M = A.new()
    args, outs = A.run(e, k)
    und = None
    for s, v in outs:
        src = e.strip(s, args[0])
        src = e.strip(s, e.load(s, src)) if e.typeof(src)[0] == 'ref' else src
        r = same(A, e, M, s, e.strip(s, v), src, 0)
        if r is False:
            rep.bad('copies', nm, 'the copy differs from the original\n  when: %s\n  copy: %s' % (facts_text(s), show(e.strip(s, v))[:300]))
            return
        if r is None:
            und = 'the copy is %s' % show(e.strip(s, v))[:300]
    if und or not outs:
        rep.undecided('copies', nm, und or 'no path returns')
    else:
        rep.ok('copies', nm, '%d paths return the value itself' % len(outs))


def same(A, e, M, s, a, b, depth):
    a, b = e.strip(s, a), e.strip(s, b)
    if a == b or e.simp(s, a) == e.simp(s, b):
        return True
    if depth > 6:
        return None
    ta, tb = e.typeof(a), e.typeof(b)
    if a[0] == 'rc' or ta[0] == 'adt' and ta[1] in SHARED[:2] and tb == ta:
        return same(A, e, M, s, e.load(s, a), e.load(s, b), depth + 1)
    if a[0] == 'seq':
        x, y = [g for g in a[1]], M.as_seq(e, s, b)[1]
        if x == list(y):
            return True
        if not x:
            n = M.length(e, s, b)
            return e.simp(s, n) == INT(0) if not e.assume(s.clone(), n, INT(0)) or e.assume_not(s.clone(), n, [INT(0)]) else None
        return None
    if a[0] == 'adt':
        i = e.variant(s, a)
        t = e.typeof(a)
        ad = A.p.adts.get(t[1]) if t[0] == 'adt' else None
        if ad is None:
            return None
        j = e.variant(s, b)
        vi = i if i is not None else 0
        if j is None and len(ad['variants']) > 1:
            return None
        if (j or 0) != vi:
            return False
        rs = [same(A, e, M, s, e.payload(a, vi, n), e.payload(b, vi, n), depth + 1) for n in range(len(ad['variants'][vi]['fields']))]
        return False if False in rs else (None if None in rs else True)
    r = e.eq_terms(s, a, b)
    return True if r == TRUE else (False if r == FALSE else None)
