"""Shared access to the analysis engine for the rules."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine'))
from absint import *            # noqa
from absint import mk_cat, str_pieces, STRINGY, is_sym, contains, subst_term
import models
import hooks
from models import show, Cls, STR, USZ, CHAR, ASCII, WS_ASCII

STREAM = 'html5_fuser::event::Stream'


class Ana(object):
    """program, summaries and fresh engines for one run"""
    LOG = None              # list that receives every engine, when set

    def __init__(self, ctx):
        self.ctx = ctx
        self.p = Program(ctx.dump)

        def mk():
            M = models.Models()
            return Engine(self.p, M), M
        self.mk0 = mk
        self.s = hooks.Summaries(self.p, mk)
        ctx.ana = self

    def new(self, validator=True, location=True, preds=True, budget=None):
        e, M = self.mk0()
        if budget:
            e.budget = budget
        self.s.install(e, M, validator, location, preds)
        if Ana.LOG is not None:
            Ana.LOG.append(e)
        return e, M

    # ------------------------------------------------------------ anchors
    def local(self):
        for k in sorted(self.p.fns):
            f = self.p.fns[k]
            if f.get('local') and '{closure' not in k and 'promoted' not in k:
                yield k, f

    def adt(self, last, exported=None):
        c = [n for n, a in self.p.adts.items() if a.get('local') and n.split('::')[-1] == last]
        if exported is not None:
            c = [n for n in c if bool(self.p.adts[n].get('exported')) == exported]
        return c[0] if len(c) == 1 else (sorted(c)[0] if c else None)

    def trait(self, last):
        c = [n for n in self.p.traits if n.split('::')[-1] == last and n.startswith('html5_fuser')]
        return sorted(c)[0] if c else None

    def impls(self, trait):
        return list(self.p.by_trait.get(trait, ()))

    def impl_self(self, im):
        return self.p.T(im['args'][0])

    def method(self, adt, name):
        """inherent method of a local type"""
        for im in self.p.impls:
            if 'trait' in im or name not in im['items']:
                continue
            t = self.p.T(im['self'])
            if t[0] == 'adt' and t[1] == adt:
                return im['items'][name]
        return None

    def inherent(self, adt):
        for im in self.p.impls:
            if 'trait' in im:
                continue
            t = self.p.T(im['self'])
            if t[0] == 'adt' and t[1] == adt:
                for n, k in sorted(im['items'].items()):
                    if k in self.p.fns:
                        yield n, k

    def tmethod(self, trait, selft, name):
        """implementation of a trait method for a given self type predicate"""
        for im in self.impls(trait):
            t = self.impl_self(im)
            if (selft(t) if callable(selft) else t == selft) and name in im['items']:
                return im['items'][name]
        return None

    def run(self, eng, key, args=None, st=None, env=None):
        self.ctx.used.add(key)
        f = self.p.fns[key]
        st = st or St()
        if args is None:
            args = self.args(eng, key, env)
        outs = eng.exec_fn(st, key, env or {}, args)
        self.ctx.used |= set(eng.visited)
        return args, outs

    def args(self, eng, key, env=None):
        f = self.p.fns[key]
        return [eng.sym(('arg', f['names'].get(str(i + 1)) or i + 1), self.p.subst(self.p.T(f['locals'][1 + i]), env or {})) for i in range(f['argc'])]

    def argt(self, key):
        f = self.p.fns[key]
        return [self.p.T(f['locals'][1 + i]) for i in range(f['argc'])]

    def rett(self, key):
        return self.p.T(self.p.fns[key]['locals'][0])

    def name(self, key):
        return short_name(self.p.fns[key]['name'])


def short_name(n):
    return n.replace('html5_fuser::', '')


def opaque(s):
    """whether the path depends on a value that a loop computes and whose meaning is not summarised: a flag or a
    counter carried around a loop, or a list element picked by such a counter"""
    seen = set()
    counts = any(x[0] == 'count' for x in s.trace)

    def bare(x):
        return x[0] == 'sym' and isinstance(x[1], tuple) and x[1][0] == 'w' and not (x[1][4] and x[1][4][-1] in ('lo', 'hi'))

    def picks(x):
        if not isinstance(x, tuple) or id(x) in seen:
            return False
        seen.add(id(x))
        if len(x) == 2 and x[0] == 'sym' and isinstance(x[1], tuple) and x[1] and x[1][0] == 'el' and len(x[1]) > 2 \
                and isinstance(x[1][2], tuple) and x[1][2] and ((x[1][2][0] == 'int' and counts) or has_w(x[1][2])):
            return True
        return any(picks(y) for y in x)

    def has_w(x):
        return isinstance(x, tuple) and bool(x) and ((x[0] == 'sym' and bare(x)) or any(has_w(y) for y in x))
    for k, v in s.facts.items():
        if v == ('is', INT(0)) and bare(k) and k[1][4] and k[1][4][-1] == 1:
            continue            # the elements that `take` leaves
        if bare(k) and (v[0] == 'is' or v[1] - {INT(0)}):
            return k
        if k[0] == 'app' and k[1] in ('Lt', 'Le', 'Eq', 'Gt', 'Ge', 'Ne') and any(
                isinstance(x, tuple) and x and (bare(x) or x[0] == 'lin' and any(bare(y[0]) if isinstance(y, tuple) and isinstance(y[0], tuple) else False for y in x[2])) for x in k[2:]):
            return k
        if picks(k) or picks(v):
            return k
    return None


def facts_text(s, limit=int(os.environ.get('FUSER_FACTS', 14))):
    out = []
    for k, v in s.facts.items():
        if k[0] == 'app' and k[1] in ('all', 'some'):
            continue
        if v[0] == 'is':
            out.append('%s = %s' % (show(k), show(v[1])))
        else:
            out.append('%s not in {%s}' % (show(k), ', '.join(sorted(show(x) for x in v[1]))))
    if len(out) > limit:
        out = out[:limit] + ['... %d more' % (len(out) - limit)]
    o = opaque(s)
    if o is not None:
        if os.environ.get('FUSER_OPAQUE'):
            with open(os.environ['FUSER_OPAQUE'], 'a') as f:
                f.write(' '.join(__import__('sys').argv[1:]) + ' ' + show(o)[:300].replace('\n', ' ') + ' ' + repr(o)[:400].replace('\n', ' ') + '\n')
        out.append('unk(value of a loop)')
    return '; '.join(out) if out else 'always'


def guarded(rep, rule, what, fn, *a):
    """run one obligation; loss of precision is reported as undecided"""
    try:
        return fn(*a)
    except AnalysisError as e:
        rep.undecided(rule, what, 'analysis: %s' % e)
    except RecursionError as e:
        rep.undecided(rule, what, 'analysis: recursion limit')
    except (KeyError, IndexError, TypeError, ValueError, AttributeError) as e:
        import traceback
        rep.undecided(rule, what, 'analysis (internal): ' + traceback.format_exc())
    return None


def zero(e, st, d):
    """is the difference established to be zero"""
    if e.simp(st, d) == INT(0):
        return True
    return e.simp(st, lin_sub(INT(0), d)) == INT(0) or e.eq_terms(st, e.simp(st, d), INT(0)) == TRUE


def sub_terms(t):
    """every tuple inside a term"""
    if isinstance(t, tuple) and t:
        yield t
        for x in t:
            for y in sub_terms(x):
                yield y
