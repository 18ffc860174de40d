"""P40: no loop of the library runs for ever."""
from rules import flows, grammar, load, progress
from rules.p12 import each, show_finding, settle
from rules.common import *

TECHNIQUE = 'abstract interpretation of every entry point in MIR with a progress obligation for every loop: what each turn draws, shortens or moves'
LEVEL_NOTE = 'static analysis: all loops of all exported functions, of the parser, of loading and of all transformations, loops by induction'
EXPLANATION = (
    'Every exported function, the parser step, file loading and every transformation are analysed on all paths.  For every loop met the turns (back '
    'edges of the loop summary) are looked at one by one: a turn has to draw an element from a list, iterator or stream that exists longer than the '
    'turn, make a text or list strictly shorter, or move a number that no turn moves the other way; turns that lie on no cycle of the remaining ones '
    'happen once and need nothing.  A turn that leaves everything the next turn depends on as it was is a violation.  Functions do not call '
    'themselves, directly or through others, without going through a part, list element or child (recursion is reported as undecided).')


def tell(rep, rule, inst, found, trouble, good):
    settle(rep, rule, inst, [x for x in found if x[0] != 'ok'], trouble, good)


def run(ctx, rep):
    A = Ana(ctx)
    n = [0]

    def one(rule, inst, found, trouble=None):
        n[0] += len(found)
        tell(rep, rule, inst, found, trouble, '%d loops: %s' % (len(found), '; '.join(short_name(f[1]) for f in found)[:200]))

    def streams():
        K, fs = flows.run_methods(ctx, flows.ALL)
        for f in fs:
            und = [u for u in f.und if u.startswith('analysis')]
            one('transformations', 'transform::Api::' + f.name, f.prog, und[0] if und else None)
    guarded(rep, 'transformations', 'all', streams)
    parser_loops(ctx, lambda name, found, trouble: one('parser', name, found, trouble))
    k = 0
    for key, r, found, vis, prog in each(A):
        ctx.used |= vis
        if r is None and not prog:
            k += 1
            continue
        one('public functions', A.name(key), prog, r)
    rep.ok('public functions', 'all others', '%d functions without a loop of their own' % k)
    rep.notes.append('%d loop summaries' % n[0])
    rep.floor('transformations', 10)
    rep.floor('public functions', 1)
    rep.floor('parser', 2)
    rep.assume('iterators, streams and readers given by the caller end', 'loops inside the standard library end')


def parser_loops(ctx, f):
    for name, fn in (('parsing', grammar.analyse), ('loading', load.analyse)):
        Ana.LOG = []
        trouble = None
        try:
            fn(ctx)
        except AnalysisError as x:
            trouble = 'analysis: %s' % x
        except RecursionError:
            trouble = 'analysis: recursion limit'
        finally:
            log, Ana.LOG = Ana.LOG, None
        found = []
        for e in log:
            found += progress.of(e)
            ctx.used |= set(e.visited)
        f(name, sorted(set(found)), trouble)
