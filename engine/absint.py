"""Path-partitioned abstract interpretation of MIR.

Values are immutable terms recording provenance (no concrete program input is ever supplied and no
program code is executed).  Branch outcomes are recorded as facts about terms; loops are summarised
by a finite graph of widened header states; calls are analysed through (context sensitive), except
for opaque type parameters, which become labelled effects ("pull the upstream", "call the builder").
"""
import re
import sys
import json

sys.setrecursionlimit(20000)

UNIT = ('tup', ())
TRUE = ('bool', True)
FALSE = ('bool', False)


class AnalysisError(Exception):
    pass


class Budget(AnalysisError):
    pass


def INT(n):
    return ('int', n)


INT_BITS = {'8': 8, '16': 16, '32': 32, '64': 64, '128': 128, 'size': 64}


def int_range(name):
    b = INT_BITS.get(name[1:], 64)
    return (0, (1 << b) - 1) if name[0] == 'u' else (-(1 << (b - 1)), (1 << (b - 1)) - 1)


def wrap_int(name, n):
    lo, hi = int_range(name)
    return (n - lo) % (hi - lo + 1) + lo


def is_sym(v):
    return v[0] in ('sym', 'app')


def norm_name(n):
    """'std::option::Option::<T>::map' -> 'Option::map'; '<A as B>::c' -> kept simplified."""
    m = re.match(r'^<(.*) as (.*)>::(\w+)$', n)
    if m:
        return None
    n = re.sub(r'<impl ([^>]*)>', lambda m: m.group(1).split('::')[-1], n)
    # strip generics
    out, d = [], 0
    for ch in n:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            out.append(ch)
    n = ''.join(out)
    parts = [p for p in n.split('::') if p]
    return '::'.join(parts[-2:])


# ------------------------------------------------------------------ linear integers
def lin_parts(v):
    if v[0] == 'int':
        return v[1], ()
    if v[0] == 'lin':
        return v[1], v[2]
    return 0, ((v, 1),)


def mk_lin(c, d):
    t = tuple(sorted(((k, n) for k, n in d.items() if n != 0), key=repr))
    if not t:
        return INT(c)
    if c == 0 and len(t) == 1 and t[0][1] == 1:
        return t[0][0]
    return ('lin', c, t)


def lin_add(a, b, sign=1):
    ca, ta = lin_parts(a)
    cb, tb = lin_parts(b)
    d = dict(ta)
    for k, n in tb:
        d[k] = d.get(k, 0) + sign * n
    return mk_lin(ca + sign * cb, d)


def lin_sub(a, b):
    return lin_add(a, b, -1)


class St(object):
    __slots__ = ('mem', 'facts', 'trace', 'ctr')

    def __init__(self):
        self.mem = {}
        self.facts = {}
        self.trace = []
        self.ctr = 0

    def clone(self):
        s = St()
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.trace = list(self.trace)
        s.ctr = self.ctr
        return s

    def fresh(self):
        self.ctr += 1
        return ('#', self.ctr)


class Frame(object):
    __slots__ = ('id', 'fn', 'env', 'key')


class Program(object):
    def __init__(self, d):
        self.d = d
        self.fns = d['fns']
        self.adts = d['adts']
        self.impls = d['impls']
        self.traits = d['traits']
        self._ty = {}
        self.by_trait = {}
        for im in self.impls:
            if 'trait' in im:
                self.by_trait.setdefault(im['trait'], []).append(im)
        self.derived_fns = set()
        self.fn_impl = {}
        for im in self.impls:
            for k in im['items'].values():
                self.fn_impl[k] = im
            if im['derived']:
                self.derived_fns |= set(im['items'].values())
        self.cfg = {}
        self.cyc = {}

    def T(self, i):
        if i in self._ty:
            return self._ty[i]
        j = self.d['types'][i]
        k = j['k']
        A = lambda l: tuple(self.T(x) for x in l if not isinstance(x, dict))
        if k in ('bool', 'char', 'str', 'never', 'float'):
            t = (k,)
        elif k == 'int':
            t = ('int', j['n'])
        elif k == 'adt':
            t = ('adt', j['def'], A(j['args']))
            if t[1] in ('std::cell::RefCell', 'std::cell::Cell') and t[2]:
                t = t[2][0]     # interior mutability is transparent to the analysis
        elif k == 'array':
            t = ('array', self.T(j['t']), j['len'])
        elif k == 'slice':
            t = ('slice', self.T(j['t']))
        elif k == 'ptr':
            t = ('ptr', self.T(j['t']))
        elif k == 'ref':
            t = ('ref', j['mut'], self.T(j['t']))
        elif k == 'fndef':
            t = ('fndef', j['def'], A(j['args']), j['name'])
        elif k == 'dyn':
            t = ('dyn', j['trait'], A(j['args']))
        elif k == 'closure':
            t = ('closure', j['def'], A(j['args']))
        elif k == 'tuple':
            t = ('tuple', A(j['ts']))
        elif k == 'param':
            t = ('param', j['n'])
        elif k == 'alias':
            t = ('alias', j['trait'], j['name'], A(j['args']))
        else:
            t = ('other', j.get('str', k))
        self._ty[i] = t
        return t

    # ---------------------------------------------------------------- types
    def subst(self, t, env):
        k = t[0]
        if k == 'param':
            return env.get(t[1], t)
        if k == 'adt':
            return ('adt', t[1], tuple(self.subst(x, env) for x in t[2]))
        if k in ('array',):
            return ('array', self.subst(t[1], env), t[2])
        if k in ('slice', 'ptr'):
            return (k, self.subst(t[1], env))
        if k == 'ref':
            return ('ref', t[1], self.subst(t[2], env))
        if k == 'tuple':
            return ('tuple', tuple(self.subst(x, env) for x in t[1]))
        if k in ('closure', 'dyn'):
            return (k, t[1], tuple(self.subst(x, env) for x in t[2]))
        if k == 'fndef':
            return (k, t[1], tuple(self.subst(x, env) for x in t[2]), t[3])
        if k == 'alias':
            return self.normalise(('alias', t[1], t[2], tuple(self.subst(x, env) for x in t[3])))
        return t

    def normalise(self, t):
        trait, name, args = t[1], t[2], t[3]
        if args:
            r = self.find_impl(trait, args)
            if r is not None:
                im, b = r
                if name in im['types']:
                    return self.subst(self.T(im['types'][name]), b)
            if trait == 'std::ops::Deref' and name == 'Target' and args[0][0] == 'adt' and args[0][2]:
                if args[0][1] in ('std::rc::Rc', 'std::boxed::Box'):
                    return args[0][2][0]
        return t

    def unify(self, pat, t, b):
        k = pat[0]
        if k == 'param':
            if pat[1] in b:
                return b[pat[1]] == t
            b[pat[1]] = t
            return True
        if k == 'alias':
            return True
        if pat[0] != t[0]:
            return False
        if k == 'adt':
            return pat[1] == t[1] and len(pat[2]) == len(t[2]) and all(self.unify(x, y, b) for x, y in zip(pat[2], t[2]))
        if k == 'ref':
            return pat[1] == t[1] and self.unify(pat[2], t[2], b)
        if k in ('slice', 'ptr', 'array'):
            return self.unify(pat[1], t[1], b)
        if k == 'tuple':
            return len(pat[1]) == len(t[1]) and all(self.unify(x, y, b) for x, y in zip(pat[1], t[1]))
        if k in ('dyn', 'closure'):
            return pat[1] == t[1]
        return pat == t

    def find_impl(self, trait, args, depth=0):
        """args[0] is the self type."""
        best = None
        if depth > 6:
            return None
        for im in self.by_trait.get(trait, ()):
            iargs = [self.T(x) for x in im['args'] if not isinstance(x, dict)]
            if len(iargs) != len(args):
                continue
            b = {}
            blanket = iargs[0][0] == 'param'
            if blanket and args[0][0] in ('param', 'alias', 'other'):
                continue
            if not all(self.unify(p, t, b) for p, t in zip(iargs, args)):
                continue
            if not self.preds_ok(im, b, depth):
                continue
            for g in im['generics']:
                b.setdefault(g, ('param', g))
            # bind projection-defined generics (e.g. F: FnOnce(A) -> R)
            score = 0 if blanket else 1
            if best is None or score > best[0]:
                best = (score, im, b)
        if best:
            return best[1], best[2]
        return None

    def preds_ok(self, im, b, depth):
        for p in im['preds']:
            if 'trait' not in p:
                continue
            a = [self.subst(self.T(x), b) for x in p['args'] if not isinstance(x, dict)]
            st = a[0]
            tr = p['trait']
            if tr in ('std::ops::FnOnce', 'std::ops::FnMut', 'std::ops::Fn'):
                if st[0] not in ('closure', 'fndef', 'fnptr', 'param'):
                    return False
                continue
            if tr in self.traits:
                if st[0] in ('param', 'alias', 'other', 'dyn'):
                    continue
                if self.find_impl(tr, tuple(a), depth + 1) is None:
                    return False
        return True

    # ---------------------------------------------------------------- CFG
    def loops_of(self, key):
        if key in self.cfg:
            return self.cfg[key]
        blocks = self.fns[key]['blocks']
        n = len(blocks)
        succ = [self.succ(b) for b in blocks]
        # dominators (iterative, on bitsets)
        reach = []
        seen = {0}
        stack = [0]
        while stack:
            x = stack.pop()
            reach.append(x)
            for y in succ[x]:
                if y not in seen:
                    seen.add(y)
                    stack.append(y)
        preds = {x: [] for x in seen}
        for x in seen:
            for y in succ[x]:
                preds[y].append(x)
        dom = {x: set(seen) for x in seen}
        dom[0] = {0}
        ch = True
        order = sorted(seen)
        while ch:
            ch = False
            for x in order:
                if x == 0:
                    continue
                ps = [dom[p] for p in preds[x]]
                nd = set.intersection(*ps) if ps else set()
                nd = nd | {x}
                if nd != dom[x]:
                    dom[x] = nd
                    ch = True
        heads = set()
        for x in seen:
            for y in succ[x]:
                if y in dom[x]:
                    heads.add(y)
        self.cfg[key] = heads
        return heads

    def counting(self, key, head):
        """whether the loop at block `head` counts: a local of it is increased by a constant"""
        c = self.cyc.get((key, head))
        if c is None:
            blocks = self.fns[key]['blocks']
            fwd, todo = {head}, [head]
            while todo:
                for y in self.succ(blocks[todo.pop()]):
                    if y not in fwd:
                        fwd.add(y)
                        todo.append(y)
            back, ch = {head}, True
            while ch:
                ch = False
                for x in fwd:
                    if x not in back and any(y in back for y in self.succ(blocks[x])):
                        back.add(x)
                        ch = True
            c = any(s[0] == '=' and s[2][0] == 'bin' and s[2][1].startswith('Add') and s[2][3][0] == 'k' and s[2][2][0] in 'cm' and s[2][2][1][1] == []
                    for x in back for s in blocks[x]['s'])
            self.cyc[(key, head)] = c
        return c

    @staticmethod
    def succ(b):
        t = b['t']
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return [x[1] for x in t[2]] + [t[3]]
        if k == 'drop':
            return [t[2]]
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        if k == 'assert':
            return [t[4]]
        return []

    def adt_fields(self, name, variant):
        a = self.adts.get(name)
        if not a or variant >= len(a['variants']):
            return None
        return a['variants'][variant]['fields']


class Call(object):
    __slots__ = ('name', 'norm', 'args', 'tys', 'ret', 'fn', 'span', 'where', 'trait', 'method', 'env', 'muts')


class Loop(object):
    def __init__(self, lid, where):
        self.id = lid
        self.where = where
        self.nodes = []
        self.edges = []   # (from, to, back state, base trace length)


class Engine(object):
    exact = 0           # counters up to this value are kept apart in loops
    max_nodes = 40
    env = None          # protocol monitor (rules/streams.py)

    def __init__(self, prog, models, budget=400000):
        self.watched = []
        self.wbound = {}
        self.p = prog
        self.models = models
        self.symty = {}
        self.loops = {}
        self.panics = []
        self.adds = {}
        self.caps = {}
        self.last_ovf = None
        self.counts = {}    # (function, operation, constant): numbers it was applied to
        self.unknown = {}
        self.visited = {}
        self.calls = 0
        self.fnrefs = []
        self.fnref_ix = {}
        self.budget = budget
        self.steps = 0
        self.stack = []
        self.hooks = {}        # fn key -> handler(eng, st, call)
        self.trait_hooks = {}  # (trait, method) -> handler for opaque receivers
        self.opaque_calls = {}

    # ---------------------------------------------------------------- symbols
    watch = ()

    def sym(self, ident, ty):
        v = ('sym', ident)
        if v not in self.symty or self.symty[v] is None:
            self.symty[v] = ty
        return v

    def app(self, ty, op, *args):
        v = ('app', op) + tuple(args)
        if ty is not None and self.symty.get(v) is None:
            self.symty[v] = ty
        return v

    def typeof(self, v):
        k = v[0]
        if k in ('sym', 'app'):
            t = self.symty.get(v)
            return t if t is not None else ('other', '?')
        if k == 'adt':
            return ('adt', v[1], v[4])
        if k == 'tup':
            return ('tuple', tuple(self.typeof(x) for x in v[1]))
        if k in ('int', 'lin'):
            return ('int', 'usize')
        if k == 'bool':
            return ('bool',)
        if k == 'char':
            return ('char',)
        if k == 'str' or k == 'cat':
            return ('ref', False, ('str',))
        if k == 'box':
            return ('adt', 'std::boxed::Box', (self.typeof(v[1]),))
        if k == 'clo':
            return ('closure', v[1], ())
        if k == 'seq':
            return ('adt', 'std::vec::Vec', (v[2] if len(v) > 2 and v[2] else ('other', '?'),))
        if k == 'fn':
            return ('fndef', v[1], ())
        return ('other', k)

    def field_type(self, t, variant, i):
        if t[0] == 'adt':
            fs = self.p.adt_fields(t[1], variant)
            if fs is None or i >= len(fs) or fs[i]['ty'] is None:
                return ('other', '?')
            gens = self.p.adts[t[1]]['generics']
            env = dict(zip(gens, t[2]))
            return self.p.subst(self.p.T(fs[i]['ty']), env)
        if t[0] == 'tuple' and i < len(t[1]):
            return t[1][i]
        return ('other', '?')

    def field_sym(self, v, variant, i):
        t = self.typeof(v)
        ft = self.field_type(t, variant, i)
        h = self.models.field_hook(self, v, variant, i, ft)
        if h is not None:
            return h
        return self.sym(('f', v, variant, i), ft)

    def expand(self, v, variant):
        """symbolic aggregate -> explicit aggregate of field symbols"""
        t = self.typeof(v)
        if t[0] == 'adt':
            fs = self.p.adt_fields(t[1], variant)
            if fs is None:
                raise AnalysisError('cannot expand %r' % (t,))
            return ('adt', t[1], variant, tuple(self.field_sym(v, variant, i) for i in range(len(fs))), t[2])
        if t[0] == 'tuple':
            return ('tup', tuple(self.field_sym(v, 0, i) for i in range(len(t[1]))))
        raise AnalysisError('cannot expand value of type %r' % (t,))

    # ---------------------------------------------------------------- paths
    def get(self, v, path):
        variant = 0
        for p in path:
            k = p[0]
            if k == 'd':
                variant = p[1]
                continue
            if k == 'f':
                i = p[1]
                if v[0] == 'adt':
                    if i >= len(v[3]):
                        raise AnalysisError('field %d of %r' % (i, v[:3]))
                    v = v[3][i]
                elif v[0] == 'tup':
                    v = v[1][i]
                elif v[0] == 'clo':
                    v = v[2][i]
                elif is_sym(v):
                    v = self.field_sym(v, variant, i)
                else:
                    raise AnalysisError('field of %r' % (v[0],))
            elif k == 'bx':
                if v[0] == 'box':
                    v = v[1]
                elif is_sym(v):
                    t = self.typeof(v)
                    inner = t[2][0] if t[0] == 'adt' and t[2] else ('other', '?')
                    v = self.sym(('box', v), inner)
                else:
                    raise AnalysisError('unbox %r' % (v[0],))
            elif k == 'ix':
                v = self.index_value(v, p[1])
            else:
                raise AnalysisError('path %r' % (p,))
            variant = 0
        return v

    def index_value(self, v, ix):
        if v[0] == 'arr' and ix[0] == 'int' and ix[1] < len(v[1]):
            return v[1][ix[1]]
        if v[0] == 'seq' and ix[0] == 'int' and all(s[0] == 'one' for s in v[1]) and ix[1] < len(v[1]):
            return v[1][ix[1]][1]
        t = self.models.bytes_root(v)
        if t is not None:
            return self.app(('int', 'u8'), 'byte', t, ix)
        et = self.elem_type(v)
        src = self.seq_src(v)
        if ix[0] == 'lin' and ix == lin_add(self.app(('int', 'usize'), 'len', src), INT(-1)):
            return self.sym(('last', src), et)
        return self.sym(('el', src, ix), et)

    def elem_type(self, v):
        t = self.typeof(v)
        if t[0] == 'adt' and t[2]:
            return t[2][0]
        if t[0] in ('slice', 'array'):
            return t[1]
        if t[0] == 'ref':
            return self.elem_type_t(t[2])
        if v[0] == 'arr':
            return self.typeof(v[1][0]) if v[1] else ('other', '?')
        return ('other', '?')

    def elem_type_t(self, t):
        if t[0] in ('slice', 'array'):
            return t[1]
        if t[0] == 'adt' and t[2]:
            return t[2][0]
        return ('other', '?')

    def seq_src(self, v):
        if v[0] == 'seq' and len(v[1]) == 1 and v[1][0][0] == 'base':
            return v[1][0][1]
        return v

    def put(self, v, path, new):
        if not path:
            return new
        p = path[0]
        if p[0] == 'd':
            # following element must be a field
            return self._put_field(v, p[1], path[1], path[2:], new) if len(path) > 1 else new
        if p[0] == 'f':
            return self._put_field(v, 0, p, path[1:], new)
        if p[0] == 'bx':
            inner = v[1] if v[0] == 'box' else self.get(v, (p,))
            return ('box', self.put(inner, path[1:], new))
        if p[0] == 'ix':
            if v[0] == 'arr' and p[1][0] == 'int':
                l = list(v[1])
                l[p[1][1]] = self.put(l[p[1][1]], path[1:], new)
                return ('arr', tuple(l))
            base = self.index_value(v, p[1])
            return self.app(self.typeof(v), 'upd', v, p[1], self.put(base, path[1:], new))
        raise AnalysisError('put %r' % (p,))

    def _put_field(self, v, variant, p, rest, new):
        i = p[1]
        if is_sym(v):
            v = self.expand(v, variant)
        if v[0] == 'uninit':
            # MaybeUninit<T>.value.value
            while rest and rest[0][0] == 'f':
                rest = rest[1:]
            return self.put(v, rest, new)
        if v[0] == 'undef':
            raise AnalysisError('write to field of uninitialised value')
        if v[0] == 'adt':
            l = list(v[3])
            l[i] = self.put(l[i], rest, new)
            return v[:3] + (tuple(l),) + v[4:]
        if v[0] == 'tup':
            l = list(v[1])
            l[i] = self.put(l[i], rest, new)
            return ('tup', tuple(l))
        if v[0] == 'clo':
            l = list(v[2])
            l[i] = self.put(l[i], rest, new)
            return ('clo', v[1], tuple(l), v[3])
        raise AnalysisError('put field on %r' % (v[0],))

    # ---------------------------------------------------------------- memory
    def read(self, st, cell, path=()):
        if cell[0] == 'V':
            return self.get(cell[1], path) if path else cell[1]
        if cell not in st.mem:
            raise AnalysisError('read of uninitialised %r' % (cell,))
        return self.get(st.mem[cell], path)

    def write(self, st, cell, path, val):
        if cell[0] == 'V':
            raise AnalysisError('write through shared view')
        if path:
            st.mem[cell] = self.put(st.mem.get(cell, ('undef',)), path, val)
        else:
            st.mem[cell] = val

    def new_cell(self, st, v, tag='H'):
        c = (tag, st.fresh())
        st.mem[c] = v
        return c

    def ref_to(self, st, v):
        """reference to a fresh cell holding v (strings are their own references)"""
        if self.is_text_term(v):
            return v
        return ('ref', self.new_cell(st, v), ())

    def is_text_term(self, v):
        if v[0] in ('str', 'cat'):
            return True
        if is_sym(v):
            t = self.symty.get(v)
            return t is not None and t[0] == 'ref' and t[2] == ('str',)
        return False

    def deref(self, st, v):
        """(cell, path) a reference-like value points to"""
        k = v[0]
        if k == 'ref':
            return v[1], v[2]
        if k in ('str', 'cat'):
            return ('V', v), ()
        if k == 'rc':
            return v[1], ()
        if is_sym(v):
            t = self.typeof(v)
            if t[0] == 'ref':
                if t[2] == ('str',):
                    return ('V', v), ()
                c = ('D', v)
                if c not in st.mem:
                    st.mem[c] = self.sym(('deref', v), t[2])
                return c, ()
            if t[0] == 'adt' and t[1] in ('std::rc::Rc',):
                c = ('D', v)
                if c not in st.mem:
                    st.mem[c] = self.sym(('deref', v), t[2][0])
                return c, ()
            if t[0] == 'adt' and t[1] in STRINGY:
                return ('V', v), ()
            c = ('D', v)
            if c not in st.mem:
                st.mem[c] = self.sym(('deref', v), ('other', '?'))
            return c, ()
        raise AnalysisError('deref of %r' % (k,))

    def load(self, st, v):
        """value behind a reference (identity on strings)"""
        c, p = self.deref(st, v)
        return self.read(st, c, p)

    def strip(self, st, v, n=8):
        """look through references for a read-only snapshot"""
        while n and v[0] == 'ref':
            v = self.read(st, v[1], v[2])
            n -= 1
        if is_sym(v) and n:
            t = self.typeof(v)
            if t[0] == 'ref' and t[2] != ('str',):
                return self.strip(st, self.load(st, v), n - 1)
        return v

    def resolve(self, st, fr, place):
        cell = (fr.id, place[0])
        path = ()
        for p in place[1]:
            if p == '*':
                if cell[0] == 'V' and not path:
                    v = cell[1]
                else:
                    v = self.read(st, cell, path)
                if v[0] == 'box':
                    path = path + (('bx',),)
                elif is_sym(v) and self.typeof(v)[0] == 'adt' and self.typeof(v)[1] == 'std::boxed::Box':
                    path = path + (('bx',),)
                else:
                    cell, path = self.deref(st, v)
            elif p[0] == 'f':
                path = path + (('f', p[1]),)
            elif p[0] == 'd':
                path = path + (('d', p[1]),)
            elif p[0] == 'i':
                path = path + (('ix', self.read(st, (fr.id, p[1]))),)
            elif p[0] == 'ci':
                if p[2]:
                    path = path + (('ix', ('app', 'fromend', INT(p[1]))),)
                else:
                    path = path + (('ix', INT(p[1])),)
            else:
                raise AnalysisError('projection %r' % (p,))
        return cell, path

    # ---------------------------------------------------------------- facts
    def simp(self, st, v):
        f = st.facts.get(v)
        if f is not None and f[0] == 'is':
            return self.simp(st, f[1]) if f[1][0] == 'lin' and not contains(f[1], v) else f[1]
        if v[0] == 'app':
            op = v[1]
            if op == 'Not':
                x = self.simp(st, v[2])
                if x[0] == 'bool':
                    return ('bool', not x[1])
                return v
            if op == 'Eq':
                a, b = self.simp(st, v[2]), self.simp(st, v[3])
                r = self.eq_terms(st, a, b)
                return r if r[0] == 'bool' else v
            if op in ('Lt', 'Le'):
                a, b = self.simp(st, v[2]), self.simp(st, v[3])
                r = self.cmp_terms(st, op, a, b)
                return r if r[0] == 'bool' else v
            r = self.models.simp_hook(self, st, v)
            if r is not v and r != v:
                return r
            if op == 'BitAnd' or op == 'BitOr':
                a, b = self.simp(st, v[2]), self.simp(st, v[3])
                if a[0] == 'bool':
                    if op == 'BitAnd':
                        return b if a[1] else FALSE
                    return TRUE if a[1] else b
                if b[0] == 'bool':
                    if op == 'BitAnd':
                        return a if b[1] else FALSE
                    return TRUE if b[1] else a
        if v[0] == 'lin':
            c, t = v[1], v[2]
            d = {}
            ch = False
            for k, n in t:
                s = self.simp(st, k)
                if s != k:
                    ch = True
                cc, tt = lin_parts(s)
                c += n * cc
                for k2, n2 in tt:
                    d[k2] = d.get(k2, 0) + n * n2
            return mk_lin(c, d) if ch else v
        return v

    def nonneg(self, st, v):
        """is the linear term provably >= 0 (all atoms are unsigned)?"""
        for _ in range(8):
            # positions within a text are bounded by its length
            c, t = lin_parts(v)
            k = next((k for k, n in t if n == -1 and k[0] == 'app' and k[1] in ('wslen', 'findpos', 'rfindpos')), None)
            if k is None:
                break
            v = lin_sub(lin_add(v, k), self.models.len_atom(self, k[2]))
        c, t = lin_parts(v)
        for k, n in t:
            if n < 0:
                return False
        if c >= 0:
            return True
        # an atom known nonzero contributes at least 1
        for k, n in t:
            f = st.facts.get(k)
            if f and f[0] == 'not' and INT(0) in f[1]:
                c += n
        return c >= 0

    def nonzero(self, st, v):
        if v[0] == 'int':
            return v[1] != 0
        f = st.facts.get(v)
        if f:
            if f[0] == 'is':
                return f[1] != INT(0)
            if INT(0) in f[1]:
                return True
        if v[0] == 'app' and v[1] == 'nchars' and v[2][0] in ('app', 'sym'):
            # a text has characters if it has bytes
            return self.nonzero(st, self.models.len_atom(self, v[2]))
        c, t = lin_parts(v)
        if v[0] == 'lin' and c > 0 and all(n > 0 for _, n in t):
            return True
        if v[0] == 'lin' and c >= 0 and all(n > 0 for _, n in t) and any(self.nonzero(st, k) for k, _ in t):
            return True
        return False

    def eq_terms(self, st, a, b):
        if a == b:
            return TRUE
        ck = ('int', 'bool', 'char', 'str')
        if a[0] in ck and b[0] in ck:
            return ('bool', a == b)
        if a[0] in ck:
            a, b = b, a
        if b[0] in ('char', 'str', 'bool'):
            f = st.facts.get(a)
            if f:
                if f[0] == 'is':
                    return ('bool', f[1] == b)
                if b in f[1]:
                    return FALSE
            if b[0] == 'bool' and a[0] == 'app':
                return a if b[1] else ('app', 'Not', a)
            return ('app', 'Eq', a, b)
        if (a[0] in ('int', 'lin') or b[0] in ('int', 'lin')):
            d = lin_sub(a, b)
            if d[0] == 'int':
                return ('bool', d[1] == 0)
            if self.nonneg(st, d) and self.nonzero(st, d):
                return FALSE
            nd = lin_sub(INT(0), d)
            if self.nonneg(st, nd) and self.nonzero(st, nd):
                return FALSE
            c, t = lin_parts(d)
            if len(t) == 1 and abs(t[0][1]) == 1:
                k, n = t[0]
                val = INT(-c * n)
                if val[1] < 0:
                    return FALSE
                if k[0] == 'app' and k[1] == 'byte' and val[1] < 128:
                    r = self.models.byte_in(self, st, k, [chr(val[1])])
                    if r is not None:
                        return r
                f = st.facts.get(k)
                if f:
                    if f[0] == 'is':
                        return ('bool', f[1] == val)
                    if val in f[1]:
                        return FALSE
                return ('app', 'Eq', k, val)
            f = st.facts.get(d)
            if f and f[0] == 'not' and INT(0) in f[1]:
                return FALSE
            return ('app', 'Eq', d, INT(0))
        if a[0] == 'adt' and b[0] == 'adt' and a[1] == b[1]:
            if a[2] != b[2]:
                return FALSE
        if repr(a) > repr(b):
            a, b = b, a
        return ('app', 'Eq', a, b)

    def cmp_terms(self, st, op, a, b):
        """Lt / Le on unsigned integers"""
        if a[0] == 'char' or b[0] == 'char':
            return ('app', op, a, b)
        d = lin_sub(b, a)  # b - a
        if d[0] == 'int':
            return ('bool', d[1] > 0 if op == 'Lt' else d[1] >= 0)
        if op == 'Lt' and a[0] == 'int' and a[1] >= (1 << 64) - 1:
            return FALSE
        if op == 'Le' and self.nonneg(st, d):
            return TRUE
        if op == 'Lt' and self.nonneg(st, d) and self.nonzero(st, d):
            return TRUE
        nd = lin_sub(a, b)
        if op == 'Lt' and self.nonneg(st, nd):
            return FALSE
        if op == 'Le' and self.nonneg(st, nd) and self.nonzero(st, nd):
            return FALSE
        for x, y, flip in ((a, b, False), (b, a, True)):
            if x[0] == 'app' and x[1] == 'byte' and y[0] == 'int':
                # x < n, x <= n or n < x, n <= x
                n = y[1] + (1 if (op == 'Le') != flip else 0)
                if n <= 128:
                    r = self.models.byte_in(self, st, x, [chr(i) for i in range(n)])
                    if r is not None:
                        return self.neg(r) if flip else r
        # x < 1, 0 < x etc. as equality with zero
        if op == 'Lt' and a == INT(0):
            return self.neg(self.eq_terms(st, b, INT(0)))
        if op == 'Lt' and b == INT(1):
            return self.eq_terms(st, a, INT(0))
        c, t = lin_parts(d)
        if len(t) == 1 and t[0][1] == 1:
            k = t[0][0]
            if (op == 'Lt' and c == 0) or (op == 'Le' and c == -1):
                return self.neg(self.eq_terms(st, k, INT(0)))
        if len(t) == 1 and t[0][1] == -1:
            k = t[0][0]
            if (op == 'Lt' and c == 1) or (op == 'Le' and c == 0):
                return self.eq_terms(st, k, INT(0))
        if op == 'Le':   # a <= b  ==  not (b < a)
            return self.neg(('app', 'Lt', b, a))
        f = st.facts.get(('app', 'Lt', a, b))
        if f and f[0] == 'is':
            return f[1]
        # n < x - y is y + n < x
        if any(k < 0 for w in (a, b) for _, k in lin_parts(w)[1]):
            lo, hi = mk_lin(max(-c, 0), {x: -k for x, k in t if k < 0}), mk_lin(max(c, 0), {x: k for x, k in t if k > 0})
            if (lo, hi) != (a, b):
                return self.cmp_terms(st, 'Lt', lo, hi)
        # a < b is refuted by a recorded b < a
        f = st.facts.get(('app', 'Lt', b, a))
        if f and f == ('is', TRUE):
            return FALSE
        if a[0] == 'int' or b[0] == 'int':
            x, n = (b, a[1]) if a[0] == 'int' else (a, b[1])
            lo, hi = self.bounds(st, x)
            if a[0] == 'int':
                if lo > n:
                    return TRUE
                if hi is not None and hi <= n:
                    return FALSE
            else:
                if hi is not None and hi < n:
                    return TRUE
                if lo >= n:
                    return FALSE
        return ('app', 'Lt', a, b)

    def bounds(self, st, x):
        """constant bounds on an unsigned value from recorded comparisons"""
        lo, hi = 0, None
        for k, v in st.facts.items():
            if k[0] == 'app' and k[1] == 'Lt' and v[0] == 'is':
                if k[2][0] == 'int' and k[3] == x:
                    if v[1] == TRUE:
                        lo = max(lo, k[2][1] + 1)
                    else:
                        hi = k[2][1] if hi is None else min(hi, k[2][1])
                elif k[3][0] == 'int' and k[2] == x:
                    if v[1] == TRUE:
                        hi = k[3][1] - 1 if hi is None else min(hi, k[3][1] - 1)
                    else:
                        lo = max(lo, k[3][1])
        return lo, hi

    @staticmethod
    def neg(v):
        if v[0] == 'bool':
            return ('bool', not v[1])
        if v[0] == 'app' and v[1] == 'Not':
            return v[2]
        return ('app', 'Not', v)

    def assume(self, st, v, const):
        """returns True if feasible; records facts in st"""
        v = self.simp(st, v)
        if v[0] in ('int', 'bool', 'char', 'str'):
            return v == const
        if v[0] == 'app' and const[0] == 'bool':
            op = v[1]
            if op == 'Not':
                return self.assume(st, v[2], ('bool', not const[1]))
            if op == 'Eq':
                a, b = v[2], v[3]
                if a[0] in ('int', 'char', 'str', 'bool'):
                    a, b = b, a
                if b[0] in ('int', 'char', 'str', 'bool'):
                    if const[1]:
                        return self.assume(st, a, b)
                    return self.assume_not(st, a, [b])
                st.facts[v] = ('is', const)
                return True
            if op == 'BitAnd' and const[1]:
                return self.assume(st, v[2], TRUE) and self.assume(st, v[3], TRUE)
            if op == 'BitOr' and not const[1]:
                return self.assume(st, v[2], FALSE) and self.assume(st, v[3], FALSE)
        if v[0] == 'lin':
            c, t = lin_parts(v)
            if len(t) == 1 and abs(t[0][1]) == 1 and const[0] == 'int':
                x = (const[1] - c) * t[0][1]
                if x < 0:
                    return False
                return self.assume(st, t[0][0], INT(x))
        f = st.facts.get(v)
        if f is not None:
            if f[0] == 'is':
                return f[1] == const
            if const in f[1]:
                return False
        st.facts[v] = ('is', const)
        if v[0] == 'app' and v[1] == 'discr' and const[0] == 'int':
            return self.on_discr(st, v[2], const[1])
        if v[0] == 'app' and not self.models.on_assume(self, st, v, const):
            return False
        if v[0] == 'lin' and const == INT(0) and not self.models.on_zero(self, st, v):
            return False
        if const[0] == 'int' and is_sym(v):
            for k, f in st.facts.items():
                if k[0] == 'app' and k[1] == 'Lt' and (k[2] == v or k[3] == v) and f[0] == 'is':
                    a, b = self.simp(st, k[2]), self.simp(st, k[3])
                    if a[0] == 'int' and b[0] == 'int' and (a[1] < b[1]) != f[1][1]:
                        return False
        return True

    def on_discr(self, st, v, variant):
        return True

    def assume_not(self, st, v, consts):
        v = self.simp(st, v)
        if v[0] in ('int', 'bool', 'char', 'str'):
            return v not in consts
        if v[0] == 'lin':
            c, t = lin_parts(v)
            if len(t) == 1 and abs(t[0][1]) == 1:
                cs = [INT((k[1] - c) * t[0][1]) for k in consts]
                return self.assume_not(st, t[0][0], [k for k in cs if k[1] >= 0])
        if consts and consts[0][0] == 'bool' and len(consts) == 1:
            return self.assume(st, v, ('bool', not consts[0][1]))
        f = st.facts.get(v)
        if f is not None:
            if f[0] == 'is':
                return f[1] not in consts
            s = f[1] | frozenset(consts)
        else:
            s = frozenset(consts)
        if v[0] == 'app' and v[1] == 'discr':
            t = self.typeof(v[2])
            if t[0] == 'adt' and t[1] in self.p.adts:
                n = len(self.p.adts[t[1]]['variants'])
                left = [i for i in range(n) if INT(i) not in s]
                if not left:
                    return False
                if len(left) == 1:
                    return self.assume(st, v, INT(left[0]))
        if v[0] == 'app' and consts and consts[0][0] == 'bool' and len(s) == 2:
            return False
        st.facts[v] = ('not', s)
        if v[0] == 'app' and not self.models.on_assume_not(self, st, v, consts):
            return False
        return True

    def variant(self, st, v):
        """known variant index or None"""
        if v[0] == 'adt':
            return v[2]
        if is_sym(v):
            f = st.facts.get(('app', 'discr', v))
            if f and f[0] == 'is':
                return f[1][1]
            t = self.typeof(v)
            if t[0] == 'adt' and t[1] in self.p.adts and len(self.p.adts[t[1]]['variants']) == 1:
                return 0
        return None

    def not_variants(self, st, v):
        f = st.facts.get(('app', 'discr', v))
        if f and f[0] == 'not':
            return set(x[1] for x in f[1])
        return set()

    def split_variant(self, st, v):
        """list of (state, variant) over the feasible variants of an enum value"""
        k = self.variant(st, v)
        if k is not None:
            return [(st, k)]
        t = self.typeof(v)
        if t[0] != 'adt' or t[1] not in self.p.adts:
            raise AnalysisError('variants of %r' % (t,))
        out = []
        for i in range(len(self.p.adts[t[1]]['variants'])):
            s = st.clone()
            if self.assume(s, ('app', 'discr', v), INT(i)):
                out.append((s, i))
        return out

    def split_bool(self, st, v):
        v = self.simp(st, v)
        if v[0] == 'bool':
            return [(st, v[1])]
        out = []
        for b in (True, False):
            s = st.clone()
            if self.assume(s, v, ('bool', b)):
                out.append((s, b))
        return out

    def payload(self, v, variant, i=0):
        return self.get(v, (('d', variant), ('f', i)))

    # option/result helpers
    def some(self, v, t=None):
        return ('adt', 'std::option::Option', 1, (v,), (t or self.typeof(v),))

    def none(self, t=None):
        return ('adt', 'std::option::Option', 0, (), (t or ('other', '?'),))

    def ok(self, v, e=None):
        return ('adt', 'std::result::Result', 0, (v,), (self.typeof(v), e or ('other', '?')))

    def err(self, e, t=None):
        return ('adt', 'std::result::Result', 1, (e,), (t or ('other', '?'), self.typeof(e)))

    # ---------------------------------------------------------------- constants
    def const(self, st, fr, j):
        t = self.p.subst(self.p.T(j['ty']), fr.env) if 'ty' in j else ('bool',)
        if 'fn' in j:
            return self.fnval(j['fn'], fr.env)
        if 'val' in j:
            return self.cval(st, j['val'], t)
        if 'promoted' in j and j['promoted'] in self.p.fns:
            return self.promoted(st, j['promoted'], fr.env)
        return self.sym(('const', j.get('constdef', '?'), t), t)

    def fnval(self, f, env):
        i = id(f)
        if i not in self.fnref_ix:
            self.fnref_ix[i] = len(self.fnrefs)
            self.fnrefs.append(f)
        ar = tuple(self.p.subst(self.p.T(x), env) for x in f['args'] if not isinstance(x, dict))
        # remember caller env for resolved args
        if 'rargs' in f:
            ra = tuple(self.p.subst(self.p.T(x), env) for x in f['rargs'] if not isinstance(x, dict))
        else:
            ra = None
        return ('fn', self.fnref_ix[i], ar, ra)

    def cval(self, st, x, t):
        if isinstance(x, bool):
            return ('bool', x)
        if isinstance(x, int):
            return INT(x)
        if 'char' in x:
            return ('char', chr(x['char']))
        if 'str' in x:
            return ('str', x['str'])
        if 'slice' in x:
            et = t[2][1] if t[0] == 'ref' and t[2][0] == 'slice' else ('other', '?')
            v = ('arr', tuple(self.cval(st, y, et) for y in x['slice']))
            c = ('K', v)
            st.mem[c] = v
            return ('ref', c, ())
        if 'array' in x:
            et = t[1] if t[0] == 'array' else ('other', '?')
            return ('arr', tuple(self.cval(st, y, et) for y in x['array']))
        if 'ref' in x:
            it = t[2] if t[0] == 'ref' else ('other', '?')
            v = self.cval(st, x['ref'], it)
            if v[0] == 'str':
                c = ('K', v)
                st.mem[c] = v
                return ('ref', c, ())
            c = ('K', v)
            st.mem[c] = v
            return ('ref', c, ())
        if 'tuple' in x:
            ts = t[1] if t[0] == 'tuple' else [('other', '?')] * len(x['tuple'])
            return ('tup', tuple(self.cval(st, y, ty) for y, ty in zip(x['tuple'], ts)))
        if 'adt' in x:
            n = x['adt']
            fs = []
            for i, y in enumerate(x['fields']):
                fs.append(self.cval(st, y, self.field_type(t, x['variant'], i)))
            return ('adt', n, x['variant'], tuple(fs), t[2] if t[0] == 'adt' else ())
        if 'zst' in x:
            if t[0] == 'tuple':
                return ('tup', ())
            if t[0] == 'adt':
                fs = self.p.adt_fields(t[1], 0)
                if fs is not None:
                    return ('adt', t[1], 0, tuple(self.sym(('zst', t, i), ('other', '?')) for i in range(len(fs))), t[2])
            if t[0] == 'array':
                return ('arr', ())
            if t[0] == 'closure':
                return ('clo', t[1], (), self.clo_env(t[1], t[2]))
        return self.sym(('const', json.dumps(x), t), t)

    def clo_env(self, key, targs):
        gens = self.p.fns[key]['generics'] if key in self.p.fns else []
        return tuple(zip(gens, targs))

    def promoted(self, st, key, env):
        fr = Frame()
        fr.id = ('P', key, tuple(sorted(env.items())))
        fr.key = key
        fr.fn = self.p.fns[key]
        fr.env = env
        c = (fr.id, 0)
        if c not in st.mem:
            rets, _ = self.run(st, fr, 0, ())
            if len(rets) != 1:
                raise AnalysisError('promoted constant %s' % key)
            st.mem.update(rets[0][0].mem)
        return st.mem[c]

    # ---------------------------------------------------------------- operands / rvalues
    def operand(self, st, fr, o):
        if o[0] == 'k':
            return self.const(st, fr, o[1])
        cell, path = self.resolve(st, fr, o[1])
        return self.read(st, cell, path)

    def make_ref(self, st, fr, place):
        cell, path = self.resolve(st, fr, place)
        if cell[0] == 'V' and not path:
            return cell[1] if self.is_text_term(cell[1]) or not is_sym(cell[1]) else cell[1]
        return ('ref', cell, path)

    def rvalue(self, st, fr, r):
        k = r[0]
        if k == 'use':
            return self.operand(st, fr, r[1])
        if k == 'ref':
            return self.make_ref(st, fr, r[2])
        if k == 'rawptr':
            return self.make_ref(st, fr, r[1])
        if k == 'discr':
            cell, path = self.resolve(st, fr, r[1])
            v = self.read(st, cell, path)
            if v[0] == 'adt':
                a = self.p.adts.get(v[1])
                return INT(a['variants'][v[2]]['discr'] if a else v[2])
            if is_sym(v):
                return self.app(('int', 'isize'), 'discr', v)
            raise AnalysisError('discriminant of %r' % (v[0],))
        if k == 'agg':
            h = r[1]
            ops = tuple(self.operand(st, fr, o) for o in r[2])
            if h[0] == 'tuple':
                return ('tup', ops)
            if h[0] == 'array':
                return ('arr', ops)
            if h[0] == 'adt':
                targs = tuple(self.p.subst(self.p.T(x), fr.env) for x in h[3] if not isinstance(x, dict))
                if h[1] in self.watch:
                    self.watched.append((st.clone(), ('adt', h[1], h[2], ops, targs), fr.key))
                return ('adt', h[1], h[2], ops, targs)
            if h[0] == 'closure':
                targs = tuple(self.p.subst(self.p.T(x), fr.env) for x in h[2] if not isinstance(x, dict))
                return ('clo', h[1], ops, self.clo_env(h[1], targs))
            raise AnalysisError('aggregate %r' % (h,))
        if k == 'cast':
            v = self.operand(st, fr, r[2])
            t = self.p.subst(self.p.T(r[3]), fr.env)
            if 'Unsize' in r[1]:
                return self.unsize(st, v, t)
            if v[0] in ('fn', 'clo'):
                return v
            if t[0] == 'int' and v[0] == 'int':
                if r[2][0] != 'k' and t[1] in ('u8', 'i8', 'u16', 'i16'):
                    self.counts.setdefault((fr.key, 'cast', t[1]), set()).add(v[1])
                return INT(wrap_int(t[1], v[1]))
            if v[0] == 'char' and t[0] == 'int':
                return INT(wrap_int(t[1], ord(v[1])))
            if t == ('char',) and v[0] == 'app' and v[1] == 'byte':
                ch = self.models.byte_char(self, st, v)
                if ch is not None:
                    return ch
            vt = self.typeof(v)
            if t == vt or t[0] in ('ref', 'ptr'):
                return v
            if t[0] == 'int' and vt[0] == 'int':
                lo, hi = int_range(t[1])
                lo2, hi2 = int_range(vt[1])
                if lo <= lo2 and hi2 <= hi:
                    return v
            return self.app(t, 'cast', ('str', str(t[1]) if len(t) > 1 else t[0]), v)
        if k == 'bin':
            if (r[2][0] == 'k') != (r[3][0] == 'k'):
                x, y = self.operand(st, fr, r[2]), self.operand(st, fr, r[3])
                if r[2][0] == 'k':
                    x, y = y, x
                if x[0] == 'int' and y[0] == 'int':
                    self.counts.setdefault((fr.key, r[1], y[1]), set()).add(x[1])
            return self.binop(st, r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]))
        if k == 'un':
            v = self.operand(st, fr, r[2])
            if r[1] == 'Not':
                return self.neg(v)
            if r[1] == 'PtrMetadata':
                return self.models.length(self, st, v)
            return self.app(self.typeof(v), r[1], v)
        if k == 'repeat':
            return self.app(('other', 'array'), 'repeat', self.operand(st, fr, r[1]), ('str', r[2]))
        raise AnalysisError('rvalue %r' % (k,))

    def unsize(self, st, v, t):
        if v[0] == 'box':
            return ('box', v[1])
        return v

    def binop(self, st, op, a, b):
        a, b = self.simp(st, a), self.simp(st, b)
        ovf = False
        if op.endswith('WithOverflow'):
            ovf = True
            op = op[:-len('WithOverflow')]
            self.last_ovf = (op, a, b)
        op = op.replace('Unchecked', '')
        num = ('int', 'lin', 'sym', 'app')
        if op in ('Add', 'Sub') and a[0] in num and b[0] in num:
            r = lin_add(a, b, 1 if op == 'Add' else -1)
            if not ovf:
                return r
            flag = FALSE
            if op == 'Sub':
                flag = self.cmp_terms(st, 'Lt', a, b)
            return ('tup', (r, flag))
        if op == 'Eq':
            return self.eq_terms(st, a, b)
        if op == 'Ne':
            return self.neg(self.eq_terms(st, a, b))
        if op in ('Lt', 'Le'):
            return self.cmp_terms(st, op, a, b)
        if op == 'Gt':
            return self.cmp_terms(st, 'Lt', b, a)
        if op == 'Ge':
            return self.cmp_terms(st, 'Le', b, a)
        if op in ('BitAnd', 'BitOr'):
            if a[0] == 'bool':
                if op == 'BitAnd':
                    return b if a[1] else FALSE
                return TRUE if a[1] else b
            if b[0] == 'bool':
                if op == 'BitAnd':
                    return a if b[1] else FALSE
                return TRUE if b[1] else a
            return self.app(self.typeof(a), op, a, b)
        if a[0] == 'int' and b[0] == 'int' and op == 'Mul':
            r = INT(a[1] * b[1])
        else:
            r = self.app(self.typeof(a), op, a, b)
        return ('tup', (r, self.app(('bool',), 'ovf', ('str', op), a, b))) if ovf else r

    # ---------------------------------------------------------------- execution
    def exec_fn(self, st, key, env, args):
        fn = self.p.fns[key]
        self.visited[key] = self.visited.get(key, 0) + 1
        if self.stack.count(key) > 12 or len(self.stack) > 160:
            raise AnalysisError('recursion through %s' % fn['name'])
        st = st.clone()
        fr = Frame()
        fr.id = ('L', st.fresh())
        fr.key = key
        fr.fn = fn
        fr.env = env
        if len(args) != fn['argc']:
            raise AnalysisError('argument count for %s: %d' % (fn['name'], len(args)))
        for i, a in enumerate(args):
            st.mem[(fr.id, i + 1)] = a
        self.stack.append(key)
        try:
            rets, backs = self.run(st, fr, 0, ())
        finally:
            self.stack.pop()
        out = []
        for s, v in rets:
            for c in [c for c in s.mem if c[0] == fr.id]:
                del s.mem[c]
            out.append((s, v))
        return out

    def run(self, st, fr, start, stops):
        """explore from block `start`; loop headers in `stops` collect back/outer edges."""
        rets = []
        backs = {}
        heads = self.p.loops_of(fr.key)
        work = [(st, start, True)]
        blocks = fr.fn['blocks']
        while work:
            st, b, first = work.pop()
            while True:
                if b in heads and not first:
                    hit = None
                    for h in stops:
                        if h == b:
                            hit = h
                    if hit is not None:
                        backs.setdefault(b, []).append(st)
                        break
                    r, bk = self.loop(st, fr, b, stops)
                    rets.extend(r)
                    for h, l in bk.items():
                        backs.setdefault(h, []).extend(l)
                    break
                if b in heads and first and b not in stops:
                    r, bk = self.loop(st, fr, b, stops)
                    rets.extend(r)
                    for h, l in bk.items():
                        backs.setdefault(h, []).extend(l)
                    break
                first = False
                self.steps += 1
                if self.steps > self.budget:
                    raise Budget('step budget exhausted in %s' % fr.fn['name'])
                blk = blocks[b]
                for x in blk['s']:
                    if x[0] == '=':
                        v = self.rvalue(st, fr, x[2])
                        cell, path = self.resolve(st, fr, x[1])
                        self.write(st, cell, path, v)
                    elif x[0] == 'dead':
                        st.mem.pop((fr.id, x[1]), None)
                    elif x[0] == 'setd':
                        cell, path = self.resolve(st, fr, x[1])
                        v = self.read(st, cell, path)
                        if is_sym(v):
                            v = self.expand(v, x[2])
                        self.write(st, cell, path, v[:2] + (x[2],) + v[3:])
                t = blk['t']
                k = t[0]
                if k == 'goto':
                    b = t[1]
                elif k == 'ret':
                    rets.append((st, st.mem.get((fr.id, 0), UNIT)))
                    break
                elif k == 'switch':
                    nxt = self.switch(st, fr, t)
                    for s, tb in nxt[1:]:
                        work.append((s, tb, False))
                    if not nxt:
                        break
                    st, b = nxt[0]
                elif k == 'drop':
                    b = t[2]
                elif k == 'assert':
                    c = self.simp(st, self.operand(st, fr, t[1]))
                    if t[3].startswith('Overflow'):
                        self.note_add(st, fr, t)
                    if c[0] != 'bool':
                        s2 = st.clone()
                        if self.assume(s2, c, ('bool', not t[2])):
                            self.panic(s2, fr, t[3], t[5])
                        if not self.assume(st, c, ('bool', t[2])):
                            break
                    elif c[1] != t[2]:
                        self.panic(st, fr, t[3], t[5])
                        break
                    b = t[4]
                elif k == 'call':
                    outs = self.call_term(st, fr, t)
                    if t[4] is None:
                        # diverging call
                        for s, v in outs:
                            pass
                        break
                    nxt = []
                    for s, v in outs:
                        cell, path = self.resolve(s, fr, t[3])
                        self.write(s, cell, path, v)
                        nxt.append((s, t[4], False))
                    if not nxt:
                        break
                    work.extend(nxt[1:])
                    st, b, _ = nxt[0]
                elif k in ('unreachable', 'resume'):
                    break
                else:
                    raise AnalysisError('terminator %r' % (k,))
        return rets, backs

    def switch(self, st, fr, t):
        v = self.simp(st, self.operand(st, fr, t[1]))
        dt = self.p.T(t[4])

        def conv(n):
            if dt[0] == 'bool':
                return ('bool', bool(n))
            if dt[0] == 'char':
                return ('char', chr(n))
            return INT(n)
        if v[0] in ('int', 'bool', 'char'):
            if v[0] == 'int' and dt != ('int', 'isize'):
                for n, tb in t[2]:
                    self.counts.setdefault((fr.key, 'match', n), set()).add(v[1])
            for n, tb in t[2]:
                if conv(n) == v:
                    return [(st, tb)]
            return [(st, t[3])]
        out = []
        blocks = fr.fn['blocks']
        for n, tb in t[2]:
            s = st.clone()
            if self.assume(s, v, conv(n)):
                out.append((s, tb))
        s = st.clone()
        if blocks[t[3]]['t'][0] != 'unreachable' and self.assume_not(s, v, [conv(n) for n, _ in t[2]]):
            out.append((s, t[3]))
        return out

    def note_add(self, st, fr, t):
        """sums are taken as exact; what is added is recorded for the range rules"""
        ty = None
        try:
            ty = self.p.T(fr.fn['locals'][t[1][1][0]])
        except (KeyError, IndexError, TypeError):
            pass
        if self.last_ovf is None or self.last_ovf[0] == 'Sub':
            return
        k = (fr.key, t[5], self.last_ovf, ty)
        if k not in self.adds:
            self.adds[k] = (dict(st.facts), list(self.stack))

    def declared(self, t):
        """what the bounds of the functions being analysed say an associated type is"""
        if t[0] != 'alias':
            return t
        for k in reversed(self.stack):
            f = self.p.fns.get(k)
            for q in (f or {}).get('preds') or ():
                if 'proj' in q and q['proj'] == '%s::%s' % (t[1], t[2]) and tuple(self.p.T(x) for x in q['args']) == tuple(t[3]):
                    r = self.p.T(q['ty'])
                    if r[0] != 'alias':
                        return r
        return t

    def panic(self, st, fr, kind, span):
        at = ('assert', kind, self.last_ovf) if kind.startswith('Overflow') else ('assert', kind, None)
        self.panics.append({'fn': fr.key if fr is not None else '?', 'kind': kind, 'span': span, 'at': at,
                            'facts': dict(st.facts), 'trace': list(st.trace), 'stack': list(self.stack)})

    # ---------------------------------------------------------------- loops
    def loop(self, st, fr, b, stops):
        def step(s):
            rets, backs = self.run(s, fr, b, stops + (b,))
            own = backs.pop(b, [])
            return rets, own, backs
        if self.p.counting(fr.key, b):
            st = st.clone()
            st.trace.append(('count', b))
        rets, others = self.summarise(st, (fr.key, b, fr.fn['blocks'][b]['sp']), step)
        return rets, others

    def summarise(self, st, where, step):
        lid = len(self.loops) + 1
        L = Loop(lid, where)
        L.entry = st.clone()
        self.loops[lid] = L
        entry = st.clone()
        nodes = [entry]
        base = len(st.trace)
        pre = list(st.trace)
        results = {}
        dirty = [0]
        rounds = 0
        while dirty:
            rounds += 1
            if rounds > self.max_nodes + 60:
                raise AnalysisError('loop at %s does not stabilise' % (where,))
            i = dirty.pop(0)
            W = nodes[i].clone()
            W.trace = pre + [('loop', lid, i)]
            npan = len(self.panics)
            nloops = len(self.loops)
            rets, own, others = step(W)
            L.edges = [e for e in L.edges if e[0] != i]
            results[i] = (rets, others, self.panics[npan:])
            del self.panics[npan:]
            redo = False
            for bk in self.flags_split(entry, own):
                if self.env is not None:
                    self.env.sync(self, bk)
                j = None
                al = bk
                for n, N in enumerate(nodes):
                    al = self.align(N, bk)
                    if not self.conflict(N, al):
                        j = n
                        break
                if j is None and len(nodes) < self.max_nodes:
                    R = self.rename(bk, nodes[i].ctr, lid, len(nodes))
                    R.ctr = max(R.ctr, 0)
                    nodes.append(R)
                    j = len(nodes) - 1
                    dirty.append(j)
                else:
                    if j is None:
                        j = 0
                        al = self.align(nodes[0], bk)
                    J = self.join(nodes[j], al, lid, j, entry.facts)
                    if J is not None:
                        nodes[j] = J
                        if j not in dirty:
                            dirty.append(j)
                        if j == i:
                            redo = True
                L.edges.append((i, j, bk, base + 1))
        L.nodes = nodes
        rets = []
        others = {}
        for i in sorted(results):
            r, o, pn = results[i]
            self.panics.extend(pn)
            rets.extend(r)
            for h, l in o.items():
                others.setdefault(h, []).extend(l)
        self.derive(L, rets, others)
        return rets, others

    def flags_split(self, entry, own):
        """flags that a loop computes from conditions are followed by value"""
        flags = [c for c, v in entry.mem.items() if v[0] == 'bool']
        if not flags:
            return own
        out = []
        for bk in own:
            l = [bk]
            for c in flags:
                v = bk.mem.get(c)
                if v is None or v[0] != 'app' or v[1] == 'unk':
                    continue
                n = []
                for s in l:
                    for s2, b in self.split_bool(s, v):
                        if s2 is s:
                            s2 = s.clone()
                        s2.mem[c] = ('bool', b)
                        n.append(s2)
                l = n
            out.extend(l)
        return out

    def align(self, W, B):
        """B with its heap cells named like the cells at the same places of W"""
        m, back = {}, {}
        todo = [(v, B.mem[c]) for c, v in W.mem.items() if c in B.mem and c[0] != 'K' and v != B.mem[c]]
        while todo:
            x, y = todo.pop()
            if x == y or not isinstance(x, tuple) or not isinstance(y, tuple) or not x or not y:
                continue
            if x[0] == 'rc' and y[0] == 'rc':
                c, d = x[1], y[1]
                if c != d and d not in m and c not in back and d not in W.mem:
                    m[d] = c
                    back[c] = d
                    if c in W.mem and d in B.mem:
                        todo.append((W.mem[c], B.mem[d]))
                continue
            if len(x) == len(y) and (x[0] == y[0] or isinstance(x[0], tuple)):
                if x[0] in ('adt', 'seq', 'clo') and x[1] != y[1] and x[0] != 'seq':
                    continue
                todo.extend(zip(x, y))
        if not m:
            return B
        memo = {}

        def rn(t):
            if not isinstance(t, tuple):
                return t
            r = memo.get(t)
            if r is None:
                r = m.get(t)
                if r is None:
                    r = tuple(rn(x) for x in t)
                    if r == t:
                        r = t
                memo[t] = r
                if r is not t and t in self.symty and r not in self.symty:
                    self.symty[r] = self.symty[t]
            return r
        R = B.clone()
        gone = set(back)
        R.mem = {rn(c): rn(v) for c, v in B.mem.items() if c not in gone}
        R.facts = {rn(k): v for k, v in B.facts.items()}
        return R

    def conflict(self, W, B):
        for c, v in W.mem.items():
            if c in B.mem:
                w = B.mem[c]
                if v is not w and v != w and self.vconf(W, v, B, w):
                    return True
        return False

    def vconf(self, W, a, B, b):
        if a == b:
            return False
        k = a[0]
        if k == 'bool' and b[0] == 'bool':
            return True
        if k == 'adt' and b[0] == 'adt':
            if a[1] != b[1]:
                return False
            if a[2] != b[2]:
                return True
            return any(x[0] == 'str' and y[0] == 'str' and x != y or self.vconf(W, x, B, y) for x, y in zip(a[3], b[3]))
        if self.env is not None and 'rc' in (k, b[0]):
            # shared lists of different origin are kept apart
            x = b if k == 'rc' else a
            return k == b[0] or x[0] == 'sym' and not (isinstance(x[1], tuple) and x[1][0] == 'w')
        if k == 'tup' and b[0] == 'tup' and len(a[1]) == len(b[1]):
            return any(self.vconf(W, x, B, y) for x, y in zip(a[1], b[1]))
        if k == 'it' and b[0] == 'it' and a[1] == b[1] and len(a) == len(b):
            if a[1] in ('slice', 'vec'):
                # iterators over literal tables are followed element by element
                return all(x[2][0] == 'seq' and x[2][1] is not None and all(y[0] == 'one' for y in x[2][1]) for x in (a, b)) and len(a[2][1]) != len(b[2][1])
            if a[1] in ('chars', 'charidx') and all(isinstance(x[2], tuple) and x[2][0] == 'str' and len(x[2][1]) <= 24 for x in (a, b)):
                # so are the characters of literals
                return a[2] != b[2]
            return any(isinstance(x, tuple) and isinstance(y, tuple) and x and y and isinstance(x[0], str) and self.vconf(W, x, B, y) for x, y in zip(a[2:], b[2:]))
        if self.exact and k == 'int' and b[0] == 'int' and max(a[1], b[1]) <= self.exact:
            return True
        if k == 'str' and b[0] == 'str' and len(a[1]) <= 1 and len(b[1]) <= 1:
            # separators and the like
            return True
        if k == 'int' and a[1] == 0 and self.nonzero(B, b):
            return True
        if b == INT(0) and self.nonzero(W, a):
            return True
        return False

    def join(self, W, B, lid, node, entry=None):
        """least widening of W covering B; None if W already covers B"""
        changed = False
        J = W.clone()
        self.wc = {}
        self.wa = {}
        for c, v in sorted(W.mem.items(), key=lambda x: repr(x[0])):
            if c[0] == 'K':
                continue
            if c not in B.mem:
                continue
            w = B.mem[c]
            if v is w or v == w:
                continue
            nv = self.vjoin(J, v, B, w, ('w', lid, node, c), ())
            if nv != v:
                J.mem[c] = nv
                changed = True
        for c, w in B.mem.items():
            if c not in W.mem and c[0] == 'D':
                init = ('sym', ('deref', c[1]))
                if w != init:
                    nv = self.sym(('w', lid, node, c), self.symty.get(init))
                    J.mem[c] = nv
                    changed = True
        wb = {w: b for w, b in self.wc.items() if w[0] == 'sym'}
        wb.update((w, self.wc[w]) for w in self.wa.values())
        if self.wa:
            # what is known of both values is known of the widened one
            for k, v in list(W.facts.items()):
                kw = self.replace(k, self.wa)
                if kw is k or kw in J.facts:
                    continue
                if B.facts.get(self.replace(kw, wb)) == v:
                    J.facts[kw] = v
                    changed = True
        fx = {}
        for k, v in W.facts.items():
            # what is known of a widened value has to hold of the value it takes on here
            k2 = self.replace(k, wb) if wb and self.mentions_w(k, lid, node) else k
            if B.facts.get(k2) == v or self.fact_covers(B, k, v, k2):
                fx[k] = v
        if len(fx) != len(W.facts):
            drop = [k for k in W.facts if k not in fx]
            # what was known before the loop stays true of immutable terms; what is known of widened terms and
            # what a step found out has to hold on every way to get here
            real = [k for k in drop if self.mentions_w(k, lid, node) or (entry is not None and entry.get(k) != W.facts[k])]
            if real:
                for k in real:
                    J.facts.pop(k, None)
                    X, S = self.models.name_fact(k, W.facts[k])
                    if X is not None:
                        for k2, v2 in B.facts.items():
                            X2, S2 = self.models.name_fact(k2, v2)
                            if X2 == X:
                                J.facts[('app', 'idin', X, S | S2)] = ('is', TRUE)
                                break
                changed = True
        return J if changed else None

    def replace(self, t, m):
        if not isinstance(t, tuple):
            return t
        if t in m:
            return m[t]
        r = tuple(self.replace(x, m) for x in t)
        if r == t:
            return t
        if t in self.symty and r not in self.symty:
            self.symty[r] = self.symty[t]
        return r

    def fact_covers(self, B, k, v, k2):
        if v == ('not', frozenset([INT(0)])):
            return self.nonzero(B, self.simp(B, k2) if k2 != k else k)
        if k2 != k and v[0] == 'is':
            return self.simp(B, k2) == v[1]
        return False

    def mentions_w(self, t, lid, node):
        if isinstance(t, tuple):
            if len(t) >= 3 and t[0] == 'w' and t[1] == lid and t[2] == node:
                return True
            return any(self.mentions_w(x, lid, node) for x in t)
        return False

    def vjoin(self, J, a, B, b, wid, path):
        if a == b:
            return a
        # already widened here
        me = ('sym', wid + (path,))
        if a[0] == 'sym' and isinstance(a[1], tuple) and a[1][:3] == wid[:3] and a[1][0] == 'w':
            b0 = self.wc.setdefault(a, b)
            if b0 != b and self.simp(B, lin_sub(b0, b)) != INT(0) if self.typeof(a)[0] == 'int' else b0 != b:
                # two places shared one widened value but diverge: give this one its own
                v = me if me != a else ('sym', wid + (path + ("'",),))
                v = self.sym(v[1], self.typeof(a))
                self.wc[v] = b
                return v
            f = J.facts.get(a)
            if f == ('not', frozenset([INT(0)])) and not self.nonzero(B, b):
                # retract on next join through mentions_w
                J.facts.pop(a)
            return a
        k = a[0]
        if k == 'adt' and b[0] == 'adt' and a[1] == b[1] and a[2] == b[2]:
            return a[:3] + (tuple(self.vjoin(J, x, B, y, wid, path + (i,)) for i, (x, y) in enumerate(zip(a[3], b[3]))),) + a[4:]
        if k == 'adt' and is_sym(b) and self.variant(B, b) == a[2] and self.typeof(b)[0] == 'adt' and self.typeof(b)[1] == a[1]:
            return self.vjoin(J, a, B, self.expand(b, a[2]), wid, path)
        if k == 'tup' and b[0] == 'tup' and len(a[1]) == len(b[1]):
            return ('tup', tuple(self.vjoin(J, x, B, y, wid, path + (i,)) for i, (x, y) in enumerate(zip(a[1], b[1]))))
        if k == 'clo' and b[0] == 'clo' and a[1] == b[1]:
            return ('clo', a[1], tuple(self.vjoin(J, x, B, y, wid, path + (i,)) for i, (x, y) in enumerate(zip(a[2], b[2]))), a[3])
        if k == 'box' and b[0] == 'box':
            return ('box', self.vjoin(J, a[1], B, b[1], wid, path + ('b',)))
        if k == 'it' and b[0] == 'it' and a[1] == b[1] and len(a) == len(b):
            r = []
            for i, (x, y) in enumerate(zip(a[2:], b[2:])):
                r.append(x if x == y else self.vjoin(J, x, B, y, wid, path + (i,)) if isinstance(x, tuple) else x)
            return a[:2] + tuple(r)
        if k == 'app' and b[0] == 'app' and a[1] == 'sub' and b[1] == 'sub' and a[2] == b[2]:
            lo = self.vjoin(J, a[3], B, b[3], wid, path + ('lo',)) if a[3] != b[3] else a[3]
            hi = self.vjoin(J, a[4], B, b[4], wid, path + ('hi',)) if a[4] != b[4] else a[4]
            for x in (lo, hi):
                if x[0] == 'sym':
                    self.wbound[x] = a[2]       # ends of slices are character boundaries
            return self.app(self.typeof(a), 'sub', a[2], lo, hi)
        if b[0] == 'app' and b[1] == 'sub' and b[2] == a:
            ln = self.app(('int', 'usize'), 'len', a)
            return self.vjoin(J, self.app(('ref', False, ('str',)), 'sub', a, INT(0), ln), B, b, wid, path)
        if k == 'seq' and b[0] == 'seq':
            pre = []
            for x, y in zip(a[1], b[1]):
                if x == y:
                    pre.append(x)
                else:
                    break
            acc = ('acc', lid_of(wid), wid, path)
            if acc in a[1]:
                # W = P acc ; covered when B = P acc + more
                if tuple(pre) == a[1]:
                    return a
                pre = pre[:pre.index(acc)] if acc in pre else pre
            elif any(x[0] == 'acc' and x[2][:3] == wid[:3] for x in a[1]) and tuple(pre) == a[1]:
                return a
            sh = self.wc.get(('pair', a, b))
            if sh is not None:
                return sh
            r = ('seq', tuple(pre) + (acc,)) + a[2:]
            self.wc[('pair', a, b)] = r
            return r
        sa, sb = str_pieces(a), str_pieces(b)
        if sa is not None and sb is not None and (self.is_strval(a) and self.is_strval(b)):
            pre = []
            for x, y in zip(sa, sb):
                if x == y:
                    pre.append(x)
                else:
                    break
            acc = ('accs', lid_of(wid), wid, path)
            if acc in sa:
                if tuple(pre) == tuple(sa):
                    return a
                pre = pre[:pre.index(acc)] if acc in pre else pre
            if a == ('str', '') or a[0] == 'cat' or not any(x[0] == 'app' and x[1] == 'sub' for x in (a, b)):
                return mk_cat(tuple(pre) + (acc,))
        t = self.typeof(a)
        if t[0] == 'other':
            t = self.typeof(b)
        sh = self.wc.get(('pair', a, b))
        if sh is not None and self.typeof(sh) == t:
            return sh
        v = self.sym(wid + (path,), t)
        self.wc[('pair', a, b)] = v
        self.wc[v] = b
        self.wa.setdefault(a, v)
        if k in ('int', 'lin') or b[0] in ('int', 'lin'):
            if self.nonzero(J, a) and self.nonzero(B, b):
                J.facts[v] = ('not', frozenset([INT(0)]))
        return v

    def is_strval(self, v):
        if v[0] in ('str', 'cat'):
            return True
        if is_sym(v):
            t = self.typeof(v)
            return t == ('ref', False, ('str',)) or (t[0] == 'adt' and t[1] in STRINGY)
        return False

    def rename(self, B, base, lid, node):
        memo = {}

        def rn(t):
            if not isinstance(t, tuple):
                return t
            r = memo.get(t)
            if r is not None:
                return r
            if len(t) == 2 and t[0] == '#' and isinstance(t[1], int) and t[1] > base:
                r = ('#', ('r', lid, node, t[1]))
            else:
                r = tuple(rn(x) for x in t)
                if r == t:
                    r = t
            memo[t] = r
            if r is not t and t in self.symty and r not in self.symty:
                self.symty[r] = self.symty[t]
            return r
        R = St()
        R.ctr = B.ctr
        R.trace = list(B.trace)
        R.mem = {}
        for c, v in B.mem.items():
            R.mem[rn(c)] = rn(v)
        for k, v in B.facts.items():
            R.facts[rn(k)] = v
        R.ctr = B.ctr
        return R

    def derive(self, L, rets, others):
        try:
            self.models.derive_scan(self, L, rets, others)
        except (AnalysisError, KeyError, IndexError, TypeError):
            pass
        self.derive_all(L, rets, others)

    def derive_all(self, L, rets, others):
        """existential / universal facts established by search loops"""
        if not L.edges:
            return
        lt = L.edges[0][2]
        # iterator elements drawn in each back edge: ('next', src, elem)
        pats = None
        src = None
        for (i, j, bk, base) in L.edges:
            nx = [e for e in bk.trace[base:] if e[0] == 'next' and e[3] is not None]
            if len(nx) != 1:
                return
            # elements drawn in loops inside the iteration are not looked at here
            todo = [e[1] for e in bk.trace[base:] if e[0] == 'loop']
            while todo:
                inner = self.loops[todo.pop()]
                for (_, _, b2, base2) in inner.edges:
                    if any(e[0] == 'next' and e[1] == nx[0][1] for e in b2.trace[base2:]):
                        return
                    todo.extend(e[1] for e in b2.trace[base2:] if e[0] == 'loop' and e[1] != inner.id)
            el = nx[0][3]
            if src is None:
                src = nx[0][1]
            elif src != nx[0][1]:
                return
            facts = {}
            N = L.nodes[i]
            for k, v in bk.facts.items():
                if N.facts.get(k) != v and contains(k, el):
                    facts[subst_term(k, el, ('bound',))] = v
            if pats is None:
                pats = facts
            else:
                pats = {k: v for k, v in pats.items() if facts.get(k) == v}
        if not pats or src is None:
            return
        alls = [s for s, _ in rets]
        for l in others.values():
            alls.extend(l)
        for s in alls:
            mine = [e for e in s.trace if e[0] == 'next' and e[1] == src]
            if not mine:
                continue
            last = mine[-1]
            ix = max((n for n, e in enumerate(s.trace) if e[0] == 'loop' and e[1] == L.id), default=None)
            if ix is None or last not in s.trace[ix:]:
                continue
            for k, v in pats.items():
                key = ('app', 'some', src, k, v)
                if last[3] is None:
                    # the loop has to start with a new iterator
                    it0 = max((n for n, e in enumerate(s.trace[:ix]) if e[0] == 'iter' and e[1] == src), default=None)
                    if it0 is None and src[0] not in ('acc',):
                        continue
                    if it0 is not None and any(e[0] == 'next' and e[1] == src for e in s.trace[it0:ix]):
                        continue
                    # every element satisfied k == v
                    s.facts[('app', 'all', src, k, v)] = ('is', TRUE)
                else:
                    kk = subst_term(k, ('bound',), last[3])
                    f = s.facts.get(kk)
                    if f is not None and f != v:
                        s.facts[('app', 'all', src, k, v)] = ('is', FALSE)

    # ---------------------------------------------------------------- calls
    def call_term(self, st, fr, t):
        f = self.operand(st, fr, t[1])
        args = [self.operand(st, fr, a) for a in t[2]]
        self.calls += 1
        rt = self.p.subst(self.p.T(fr.fn['locals'][t[3][0]]), fr.env) if not t[3][1] else None
        if rt is None:
            rt = ('other', '?')
        if f[0] == 'fn':
            return self.call_fn(st, f, args, rt, t[5], fr, tuple(self.is_mut(fr, a) for a in t[2]))
        return self.call_value(st, f, args, rt, t[5], fr)

    def is_mut(self, fr, op):
        """the operand is a mutable reference"""
        if op[0] == 'k' or op[1][1]:
            return False
        t = self.p.T(fr.fn['locals'][op[1][0]])
        return t[0] == 'ref' and bool(t[1])

    def call_value(self, st, f, args, rt=None, span='', fr=None):
        """call a callable value with positional arguments"""
        for _ in range(6):
            if f[0] == 'ref':
                f0 = self.read(st, f[1], f[2])
                if f0[0] == 'clo':
                    return self.call_closure(st, f0, args, f)
                f = f0
                continue
            break
        if f[0] == 'box':
            f = f[1]
        if f[0] == 'clo':
            return self.call_closure(st, f, args, None)
        if f[0] == 'fn':
            return self.call_fn(st, f, args, rt or ('other', '?'), span, fr)
        return self.models.opaque_call(self, st, f, args, rt, span)

    def call_closure(self, st, clo, args, selfref):
        key = clo[1]
        if key not in self.p.fns:
            raise AnalysisError('closure body %s missing' % key)
        fn = self.p.fns[key]
        t1 = self.p.T(fn['locals'][1])
        st = st.clone()
        if t1[0] == 'ref':
            if selfref is None:
                selfref = ('ref', self.new_cell(st, clo), ())
            a0 = selfref
        else:
            a0 = clo
        h = self.hooks.get(key)
        return self.exec_fn(st, key, dict(clo[3]), [a0] + list(args))

    def call_fn(self, st, f, args, rt, span, fr, muts=()):
        ref = self.fnrefs[f[1]]
        ar, ra = f[2], f[3]
        c = Call()
        c.fn = ref
        c.args = args
        c.tys = ar
        c.ret = rt
        c.span = span
        c.where = fr.key if fr is not None else '?'
        c.trait = ref.get('trait')
        c.method = ref.get('method')
        c.name = ref['name']
        c.env = None
        c.muts = muts
        if 'ctor' in ref:
            return [(st, ('adt', ref['ctor'][0], ref['ctor'][1], tuple(args), ar))]
        key = ref.get('rdef', ref['def'])
        targs = ra if ra is not None else ar
        c.norm = norm_name(ref['name'])
        if ref['def'] in self.hooks:
            r = self.hooks[ref['def']](self, st, c)
            if r is not None:
                return r
        if key in self.hooks:
            r = self.hooks[key](self, st, c)
            if r is not None:
                return r
        # trait method: dispatch on the (substituted) self type, then on the receiver value
        if c.trait:
            r = self.call_trait(st, c, ref, key, targs)
            if r is not None:
                return r
        else:
            r = self.models.call(self, st, c)
            if r is not None:
                return r
        if key in self.p.fns and (self.p.fns[key]['local'] or not c.trait or True):
            fn = self.p.fns[key]
            if key in self.p.derived_fns:
                r = self.models.derived(self, st, c, key)
                if r is not None:
                    return r
            if not (c.trait and 'rdef' not in ref):
                return self.exec_fn(st, key, dict(zip(fn['generics'], targs)), args)
        return self.models.unknown_call(self, st, c)

    def call_trait(self, st, c, ref, key, targs):
        selft = c.tys[0] if c.tys else ('other', '?')
        r = self.models.trait_call(self, st, c, selft)
        if r is not None:
            return r
        cands = [c.tys]
        if c.args:
            # receiver's dynamic type
            v = c.args[0]
            d = 0
            while v[0] == 'ref' and d < 4:
                try:
                    v = self.read(st, v[1], v[2])
                except AnalysisError:
                    break
                d += 1
            if v[0] in ('adt', 'clo', 'box') and selft[0] in ('param', 'alias', 'dyn', 'other'):
                vt = self.typeof(v)
                if v[0] == 'clo':
                    vt = ('closure', v[1], tuple(x[1] for x in v[3]))
                cands.append((vt,) + tuple(c.tys[1:]))
        for tys in cands:
            if c.trait in self.p.traits or self.p.by_trait.get(c.trait):
                hit = self.p.find_impl(c.trait, tuple(tys[:self.trait_arity(c.trait, tys)]))
                if hit is not None:
                    im, b = hit
                    if c.method in im['items']:
                        k = im['items'][c.method]
                        if k in self.hooks:
                            r = self.hooks[k](self, st, c)
                            if r is not None:
                                return r
                        if k in self.p.derived_fns:
                            r = self.models.derived(self, st, c, k)
                            if r is not None:
                                return r
                        env = dict(b)
                        fn = self.p.fns[k]
                        # method-level generics follow the trait's
                        extra = [g for g in fn['generics'] if g not in im['generics']]
                        rest = tys[self.trait_arity(c.trait, tys):]
                        env.update(zip(extra, rest))
                        return self.exec_fn(st, k, env, c.args)
                    dk = self.default_method(c.trait, c.method)
                    if dk:
                        return self.exec_fn(st, dk, self.default_env(dk, tys), c.args)
        # receiver opaque: hooks, then trait default
        h = self.trait_hooks.get((c.trait, c.method))
        if h:
            r = h(self, st, c)
            if r is not None:
                return r
        dk = self.default_method(c.trait, c.method)
        if dk:
            return self.exec_fn(st, dk, self.default_env(dk, c.tys), c.args)
        if c.trait in self.p.traits:
            return self.models.opaque_trait_call(self, st, c)
        if 'rdef' in ref and ref['rdef'] in self.p.fns:
            return None
        return self.models.unknown_call(self, st, c)

    def trait_arity(self, trait, tys):
        t = self.p.traits.get(trait)
        if t:
            return len(t['generics'])
        for im in self.p.by_trait.get(trait, ()):
            return len(im['args'])
        return 1

    def default_method(self, trait, method):
        t = self.p.traits.get(trait)
        if t and method in t['items'] and t['items'][method]['default']:
            k = t['items'][method]['key']
            if k in self.p.fns:
                return k
        return None

    def default_env(self, dk, tys):
        return dict(zip(self.p.fns[dk]['generics'], tys))

    # ---------------------------------------------------------------- conveniences
    def call_named(self, st, key, args, env=None):
        return self.exec_fn(st, key, env or {}, args)


def lid_of(wid):
    return wid[1]


def contains(t, x):
    if t == x:
        return True
    if isinstance(t, tuple):
        return any(contains(y, x) for y in t)
    return False


def subst_norm(eng, st, t, a, b):
    """substitute a symbol and restore the normal forms of the terms around it"""
    memo = {}

    def go(t):
        if t == a:
            return b
        if not isinstance(t, tuple) or not t:
            return t
        r = memo.get(t)
        if r is None:
            if t[0] == 'lin' and len(t) == 3:
                r = INT(t[1])
                for k, n in t[2]:
                    k2 = go(k)
                    if k2 is k or k2 == k:
                        r = lin_add(r, mk_lin(0, {k: n}))
                    else:
                        c, tt = lin_parts(k2)
                        r = lin_add(r, mk_lin(n * c, {x: n * m for x, m in tt}))
            else:
                r = tuple(go(x) for x in t)
                if r == t:
                    r = t
                elif t[0] == 'app' and t[1] == 'wslen' and r[2][0] == 'str':
                    r = INT(len(r[2][1].encode()) - len(r[2][1].lstrip().encode()))
                elif t[0] == 'app' and t[1] == 'sub':
                    r = eng.models.sub(eng, st, r[2], r[3], r[4])
                elif t[0] in ('app', 'sym') and t in eng.symty and r not in eng.symty:
                    eng.symty[r] = eng.symty[t]
                if t[0] == 'sym' and r is not t:
                    r = t          # never rewrite inside symbol identities
            memo[t] = r
        return r
    return go(t)


def subst_term(t, a, b):
    if t == a:
        return b
    if isinstance(t, tuple):
        return tuple(subst_term(x, a, b) for x in t)
    return t


STRINGY = ('std::string::String', 'html5_fuser::tendril::Tendril', 'tendril::Tendril', 'tendril::tendril::Tendril', 'html5_fuser::tendril::tendril::Tendril')


def str_pieces(v):
    if v[0] == 'cat':
        return v[1]
    if v[0] == 'str':
        return (v,) if v[1] else ()
    if v[0] in ('sym', 'app'):
        return (v,)
    return None


def mk_cat(ps):
    out = []
    for p in ps:
        for q in (p[1] if p[0] == 'cat' else (p,)):
            if q == ('str', ''):
                continue
            if q[0] == 'str' and out and out[-1][0] == 'str':
                out[-1] = ('str', out[-1][1] + q[1])
            else:
                out.append(q)
    if not out:
        return ('str', '')
    if len(out) == 1 and out[0][0] != 'accs':
        return out[0]
    return ('cat', tuple(out))
