"""P31: client code cannot forge names, encoded text, parts or templates."""
import os, re, shutil, subprocess, tempfile
from engine import extract

EXPLANATION = (
    'Type-level encapsulation, decided on the type-checked crate and by compile-fail witnesses. From the compiler: every '
    'field of the sealed types is non-public, internal carrier types are not nameable, no exported function or trait '
    'implementation hands out mutable access to a sealed value, builds a part or a template from unchecked parts, or '
    'packs/unpacks a transformation handle. From the borrow checker: each witness program (written as an external user) '
    'must be rejected with the stated error code while its twin, differing only in the offending line, compiles.')

SEALED = ['Identifier', 'Value', 'Data', 'EncodedStr', 'Event', 'Template', 'Api', 'TemplateStream']
SEALED_SEL = ['Tag', 'Id', 'Class', 'Classes', 'Static']
MUT_TRAITS = ('std::ops::DerefMut', 'std::ops::IndexMut', 'std::convert::AsMut', 'std::borrow::BorrowMut',
              'std::ops::AddAssign', 'std::iter::Extend', 'std::fmt::Write', 'std::io::Write')


class Types:
    def __init__(self, d):
        self.t = d['types']

    def __getitem__(self, i):
        return self.t[i]

    def contains(self, i, pred, seen=None):
        seen = seen if seen is not None else set()
        if i is None or i in seen:
            return False
        seen.add(i)
        t = self.t[i]
        if t is None:
            return False
        if pred(t):
            return True
        subs = list(t.get('args', []) if isinstance(t.get('args'), list) else [])
        for k in ('t',):
            if isinstance(t.get(k), int):
                subs.append(t[k])
        for k in ('ts', 'upvars'):
            subs += t.get(k, []) or []
        return any(self.contains(s, pred, seen) for s in subs if isinstance(s, int))

    def mutref_to(self, i, pred):
        def p(t):
            return t['k'] == 'ref' and t.get('mut') and self.contains(t['t'], pred)
        return self.contains(i, p)


def run(ctx, rep):
    d = ctx.dump
    T = Types(d)
    crate = 'html5_fuser'
    adts = {}
    for name, a in d['adts'].items():
        if a['local']:
            adts.setdefault(name.split('::')[-1], []).append((name, a))
    sealed = set()
    for n in SEALED:
        c = [x for x in adts.get(n, []) if x[1]['exported']]
        if not c:
            rep.missing('sealed-type', 'public type ' + n)
        for name, a in c:
            sealed.add(name)
    for name, a in adts.get('Tag', []) + adts.get('Id', []) + adts.get('Class', []) + adts.get('Static', []):
        if '::select::' in name and a['exported']:
            sealed.add(name)
    for name, a in adts.get('Classes', []):
        if a['exported'] and '::select::' in name:
            sealed.add(name)
    for name in sorted(sealed):
        a = d['adts'][name]
        if a['kind'] == 'enum':
            rep.bad('sealed-fields', name, 'sealed type %s (%s) is an enum with public variants: client code can build it'
                    % (name, a['span']))
            continue
        pub = [f['name'] for f in a['variants'][0]['fields'] if f['vis'] == 'pub']
        if pub:
            rep.bad('sealed-fields', '%s.%s' % (name, pub[0]), 'field %s of sealed type %s (%s) is public: client code can '
                    'build or modify the value without validation' % (', '.join(pub), name, a['span']))
        elif not a['variants'][0]['fields']:
            rep.bad('sealed-fields', name, 'sealed type %s has no private field: client code can build it' % name)
        else:
            rep.ok('sealed-fields', name, [f['name'] + ': ' + f['vis'] for f in a['variants'][0]['fields']])
    rep.floor('sealed-fields', 12)
    # internal carriers must not be exported
    for n in ('EventKind', 'EncodedText', 'Attributes', 'Attribute', 'Deferred', 'Text'):
        for name, a in adts.get(n, []):
            if a['exported']:
                rep.bad('internal-carrier', name, 'internal carrier type %s (%s) is part of the public interface' % (name, a['span']))
            else:
                rep.ok('internal-carrier', name, a['vis'])

    is_sealed = lambda t: t['k'] == 'adt' and t['def'] in sealed
    by_last = lambda *ns: (lambda t: t['k'] == 'adt' and t['def'] in sealed and t['def'].split('::')[-1] in ns)
    is_event, is_tpl, is_api = by_last('Event'), by_last('Template'), by_last('Api')
    itrait = {im['key']: im.get('trait') for im in d['impls']}
    n = 0
    for key, f in sorted(d['fns'].items()):
        if not f.get('local') or not f.get('exported') or f.get('closure'):
            continue
        n += 1
        nm = f['name']
        ret, params = f['locals'][0], f['locals'][1:1 + f['argc']]
        ftr = itrait.get(f.get('impl')) or f.get('trait')
        if ftr and ftr.startswith('std::') and ftr not in MUT_TRAITS:
            continue
        bad = False
        # mutable access to sealed data (streams advance themselves: &mut TemplateStream in next_event is theirs)
        nots = lambda t: is_sealed(t) and not t['def'].endswith('TemplateStream') and not t['def'].endswith('Api')
        for p in params:
            t = T[p]
            if t['k'] == 'ref' and t.get('mut') and nots(T[t['t']]):
                rep.bad('no-mutable-access', nm, 'exported function %s (%s) takes a mutable reference to a sealed value' % (nm, f['span']))
                bad = True
        if T.mutref_to(ret, nots):
            rep.bad('no-mutable-access', nm, 'exported function %s (%s) returns a mutable reference into a sealed value' % (nm, f['span']))
            bad = True
        direct = lambda i, p: T.contains(i, p)
        if not ftr:
            if direct(ret, is_event) and not T.contains(ret, lambda t: t['k'] == 'ref'):
                rep.bad('no-part-constructor', nm, 'exported function %s (%s) returns a part (Event) built outside of parsing' % (nm, f['span']))
                bad = True
            if direct(ret, is_tpl):
                gen_streams = {p['args'][0] for p in f.get('preds', []) if p.get('trait', '').endswith('event::Stream')
                               or p.get('trait', '').endswith('event::ElementStream')}
                for p in params:
                    if T.contains(p, is_event) or p in gen_streams:
                        rep.bad('no-template-constructor', nm, 'exported function %s (%s) builds a template from unchecked parts' % (nm, f['span']))
                        bad = True
            if direct(ret, is_api) and not any(T.contains(p, is_api) for p in params):
                rep.bad('no-handle-forging', nm, 'exported function %s (%s) creates a transformation handle from other values' % (nm, f['span']))
                bad = True
            if params and is_api(T[params[0]]) and not direct(ret, is_api):
                rep.bad('no-handle-forging', nm, 'exported function %s (%s) takes a transformation handle apart' % (nm, f['span']))
                bad = True
            if params and T[params[0]]['k'] == 'ref' and is_api(T[T[params[0]]['t']]):
                rep.bad('no-handle-forging', nm, 'exported function %s (%s) exposes the inside of a transformation handle' % (nm, f['span']))
                bad = True
        if not bad:
            rep.ok('exported-signature', nm)
    rep.floor('exported-signature', 90)
    handle_ok = 0
    for im in d['impls']:
        st = im['self']
        if st is None or T[st]['k'] != 'adt':
            continue
        tr = im.get('trait')
        de = T[st]['def']
        if de not in sealed or not tr:
            continue
        if tr in MUT_TRAITS or tr == 'std::default::Default':
            rep.bad('no-mutating-trait', '%s for %s' % (tr, de), 'sealed type %s implements %s (%s)' % (de, tr, im['span']))
        elif de.endswith('::Api') and tr in ('std::clone::Clone', 'std::marker::Copy', 'std::ops::Deref', 'std::convert::AsRef',
                                             crate + '::event::Stream', crate + '::event::ElementStream', 'std::convert::From',
                                             'std::iter::Iterator', 'std::borrow::Borrow'):
            rep.bad('no-handle-forging', '%s for %s' % (tr, de), 'transformation handle implements %s (%s): its stream can be used '
                    'outside of the transformation' % (tr, im['span']))
        else:
            rep.ok('trait-impl', '%s for %s' % (tr, de))
    if d['unsafe_blocks']:
        for u in d['unsafe_blocks']:
            rep.bad('no-unsafe', str(u)[:200], 'unsafe code can bypass the encapsulation: ' + str(u)[:300])
    else:
        rep.ok('no-unsafe', 'crate contains no unsafe block')
    witnesses(ctx, rep)
    rep.assume('rustc visibility and borrow checking are sound; client code uses no unsafe code')


WDIR = os.path.join(extract.VERIF, 'witness')


def witnesses(ctx, rep):
    """Each witness/NAME.rs has lines `/*BAD*/ code` and `/*GOOD*/ code` and a first line `//! CODES`."""
    tdir = tempfile.mkdtemp(prefix='fuser-witness-')
    try:
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(tdir, 't'))
        env.pop('RUSTFLAGS', None)
        r = subprocess.run(['cargo', '+nightly', 'check', '--lib', '--offline', '--message-format=json'], cwd=ctx.repo, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        m = re.findall(r'"(%s/[^"]*/libhtml5_fuser[^"]*\.rmeta)"' % re.escape(tdir), r.stdout)
        if r.returncode or not m:
            raise extract.ExtractError('building /repo failed:\n' + r.stderr[-3000:])
        lib = m[0]
        deps = sorted({os.path.dirname(x) for x in re.findall(r'"(%s/[^"]*\.rmeta)"' % re.escape(tdir), r.stdout)})
        jobs = []
        for fn in sorted(os.listdir(WDIR)):
            if not fn.endswith('.rs'):
                continue
            src = open(os.path.join(WDIR, fn)).read()
            codes = set(src.splitlines()[0].replace('//!', '').split())
            for kind in ('BAD', 'GOOD'):
                other = 'GOOD' if kind == 'BAD' else 'BAD'
                text = '\n'.join(l.replace('/*%s*/' % kind, '') for l in src.splitlines()[1:] if '/*%s*/' % other not in l)
                p = os.path.join(tdir, '%s_%s.rs' % (fn[:-3], kind.lower()))
                open(p, 'w').write(text + '\n')
                cmd = ['rustc', '+nightly', '--edition', '2018', '--crate-type', 'lib', '--emit', 'metadata', '-A', 'warnings',
                       '--error-format', 'json', '--extern', 'html5_fuser=' + lib, *[y for x in deps for y in ('-L', 'dependency=' + x)],
                       '-o', p + '.rmeta', p]
                jobs.append((fn[:-3], kind, codes, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)))
        res = {}
        for name, kind, codes, pr in jobs:
            err = pr.communicate()[1]
            got = re.findall(r'"code":"(E\d+)"', err)
            lifetime = 'lifetime may not live long enough' in err or 'borrowed data escapes' in err
            res[(name, kind)] = (pr.returncode, set(got), lifetime, codes, err)
        for (name, kind) in sorted(res):
            if kind != 'BAD':
                continue
            rc, got, lt, codes, err = res[(name, 'BAD')]
            grc, ggot, glt, _, gerr = res[(name, 'GOOD')]
            if grc != 0:
                rep.undecided('witness', name, 'the compiling twin of this witness no longer compiles: ' + ', '.join(sorted(ggot))
                              + ' ' + ' | '.join(re.findall(r'"rendered":"(error.*?)\\n', gerr))[:600])
            elif rc == 0:
                rep.bad('witness', name, 'the witness program %s.rs, which breaks the encapsulation, compiles' % name)
            elif (got & codes) or ('LIFETIME' in codes and lt):
                rep.ok('witness', name, 'rejected with %s; twin compiles' % ', '.join(sorted(got) or ['lifetime error']))
            else:
                rep.undecided('witness', name, 'rejected, but with %s instead of %s' % (sorted(got), sorted(codes)))
        rep.floor('witness', 10)
    finally:
        shutil.rmtree(tdir, ignore_errors=True)

TECHNIQUE = 'type-level encapsulation lint over the type-checked crate plus compile-fail witnesses with compiling twins'
LEVEL_NOTE = ('Exact for the enumerated ways of forging a value (visible fields, mutable access, raw constructors, handle '
              'packing); trusts rustc visibility and borrow checking. Client unsafe code is out of scope.')
