#!/usr/bin/env python3
"""Run the check of one property:  check.py P01 [--thorough]

Exit 0: every obligation was discharged (or could not be decided and is listed as UNDECIDED).
Exit 1 with a VIOLATION line: a construct in /repo's current source breaks the property."""
import importlib, json, os, re, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.rules = {}
        self.items = []
        self.viol = []
        self.und = []
        self.notes = []
        self.assumptions = []

    def ok(self, rule, what, detail=None):
        self.rules.setdefault(rule, [0, 0, 0])[0] += 1
        self.items.append((rule, what, detail))

    def bad(self, rule, what, detail):
        """A construct that definitely breaks the rule.  `what` is the line-free key."""
        if re.search(r'\bunk\(', detail):        # the counter-path depends on an operation without a model
            return self.undecided(rule, what, detail)
        self.rules.setdefault(rule, [0, 0, 0])[1] += 1
        if sum(1 for x in self.viol if x[:2] == (rule, what)) >= 3:
            return
        self.viol.append((rule, what, detail))

    def undecided(self, rule, what, why):
        self.rules.setdefault(rule, [0, 0, 0])[2] += 1
        self.und.append((rule, what, why))

    def floor(self, rule, minimum):
        n = sum(self.rules.get(rule, [0, 0, 0]))
        if n < minimum and not self.und:
            self.bad(rule, 'anchor-count', 'rule %r matched %d instance(s), at least %d are confirmed to exist: '
                     'the anchors of this rule are missing' % (rule, n, minimum))

    def missing(self, rule, what):
        self.bad(rule, 'anchor ' + what, 'anchor not found in the current source: ' + what)

    def assume(self, *a):
        for x in a:
            if x not in self.assumptions:
                self.assumptions.append(x)


UNNAMED = ('P05', 'P12', 'P29', 'P30', 'P31')     # do not depend on how names are compared


def comparison(ctx, rep):
    """names are compared in a way that is not understood (and not known to be wrong): nothing is reported on top of it"""
    A = getattr(ctx, 'ana', None)
    if A is None or any(r[0] == 'ideq' for r in A.s.preds.values()):
        return
    from rules import p05
    own = Report('P05')
    p05.comparators(A, own)
    if own.viol:
        return
    for r, w, d in rep.viol:
        rep.undecided(r, w, 'the comparison of names is not understood: ' + d)
    rep.viol = []
    for r in rep.rules.values():
        r[1] = 0


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '0'))
    except ValueError:
        seed = 0
    rep = Report(pid)
    fatal = None
    analysed = {}
    explanation = ''
    try:
        from engine import context
        mod = importlib.import_module('rules.' + pid.lower())
        ctx = context.Context()
        ctx.tier = tier
        explanation = mod.EXPLANATION
        mod.run(ctx, rep)
        if rep.viol and pid not in UNNAMED:
            comparison(ctx, rep)
        analysed = ctx.analysed()
    except Exception as e:
        tb = traceback.format_exc()
        from engine.extract import ExtractError
        if isinstance(e, ExtractError):
            rep.bad('extract', 'extraction', str(e))
        else:
            fatal = tb
            rep.undecided('engine', 'internal', tb)
            if os.environ.get('FUSER_DEBUG'):
                print(tb)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    known = load_known(pid)
    new = [v for v in rep.viol if (v[0] + ' ' + v[1]) not in known]
    old = [v for v in rep.viol if (v[0] + ' ' + v[1]) in known]
    nd = sum(r[0] for r in rep.rules.values())
    no = sum(sum(r) for r in rep.rules.values())
    cov = {
        'explanation': explanation,
        'obligations': no, 'discharged': nd, 'undecided_count': len(rep.und),
        'rules': {k: {'discharged': v[0], 'violated': v[1], 'undecided': v[2]} for k, v in rep.rules.items()},
        'samples': [{'rule': r, 'instance': w, 'detail': d} for r, w, d in rep.items[:400]],
        'undecided': [{'rule': r, 'instance': w, 'why': str(d)[-2000:]} for r, w, d in rep.und],
        'analysed': analysed,
        'notes': rep.notes,
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'assumptions': rep.assumptions, 'violations': len(rep.viol), 'wall_s': round(time.time() - t0, 2)}
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for r, w, d in rep.und:
        print('UNDECIDED property=%s rule=%s instance=%s: %s' % (pid, r, w, str(d).strip().splitlines()[-1][:600] if str(d).strip() else ''))
    for r, w, d in old:
        print('KNOWN-FINDING: property=%s %s %s' % (pid, r, w))
    if new:
        rp = os.path.join(HERE, 'evidence', 'replay-%s.txt' % pid)
        with open(rp, 'w') as f:
            for r, w, d in new:
                f.write('rule: %s\ninstance: %s\n%s\n\n' % (r, w, d))
        for r, w, d in new:
            print('rule %s violated at %s' % (r, w))
            print('   ' + str(d).replace('\n', '\n   ')[:3000])
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('%s: %d of %d obligations discharged, %d undecided (%.1fs)' % (pid, nd, no, len(rep.und), time.time() - t0))
    return 0


def load_known(pid):
    out = set()
    p = os.path.join(HERE, 'known_findings.txt')
    for l in open(p):
        if l.startswith('known: property=%s ' % pid):
            out.add(l.strip().split(' ', 2)[2])
    return out


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
