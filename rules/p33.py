"""P33: loading from a file equals loading its text; nothing else touches the outside world."""
from rules import grammar, load
from rules.common import *

TECHNIQUE = 'abstract interpretation of file loading over arbitrary read splits and faults; effect inventory of all calls'
LEVEL_NOTE = 'static analysis: every path of file loading with nondeterministic reads; every call site of the crate'
EXPLANATION = (
    'The exported functions that load a template from a file are analysed on all paths.  Opening may fail; every request for more data '
    'yields nothing (end of file), some data of any length, or a failure; the loop over reads is handled by induction, so any number of '
    'reads and any split of the content is covered.  On every path: the given path is opened once; a failure of opening, reading or '
    'decoding is reported as that failure with its cause and the path; every piece of data read is appended once and in order and '
    'consumed entirely; the content is decoded as a whole after the end of file was seen; and the result is that of loading the decoded '
    'text with the same options, input errors with the path.  The length limit refuses exactly what loading the text refuses.  '
    'The effect inventory walks every call and function reference in the MIR of the whole crate: operations on files, processes, '
    'network, threads or environment occur only in file loading (or private helpers that only it uses) and only read.')

EFFECTS = ('std::fs::', 'std::net::', 'std::process::', 'std::env::', 'std::os::', 'std::thread::', 'std::io::stdin', 'std::sys::',
           'std::ffi::', 'libc::', 'std::sync::mpsc')
PATHFX = ('exists', 'metadata', 'canonicalize', 'read_dir', 'read_link', 'is_dir', 'is_file', 'symlink_metadata', 'try_exists', 'is_symlink')
READS = ('std::fs::File::open', 'std::fs::read', 'std::fs::read_to_string', 'std::fs::File::options', 'std::fs::OpenOptions::new', 'std::fs::OpenOptions::read',
         'std::fs::OpenOptions::open', 'std::fs::metadata', 'std::fs::File::metadata', 'std::fs::Metadata::len')

REQUIRED = [('failures', 'open'), ('failures', 'read'), ('failures', 'decode'), ('content', None), ('parsed', None), ('path', None)]


def refs(x, out):
    """function references (definition, name) in a piece of MIR"""
    if isinstance(x, dict):
        f = x.get('fn')
        if isinstance(f, dict) and f.get('name'):
            out.append((f.get('rdef') or f.get('def'), f.get('rname') or f['name'], f['name']))
        for v in x.values():
            refs(v, out)
    elif isinstance(x, list):
        if len(x) > 1 and x[0] == 'closure' and isinstance(x[1], str):
            out.append((x[1], x[1], x[1]))
        for v in x:
            refs(v, out)


def effect(name):
    n = name.lstrip('<&')
    if any(n.startswith(p) for p in EFFECTS) or any((' as ' + p) in name for p in EFFECTS):
        return True
    return n.startswith('std::path::Path::') and n.split('::')[-1] in PATHFX


def inventory(A, rep, loaders):
    fns = A.ctx.dump['fns']
    uses, callers = {}, {}
    for k, f in fns.items():
        out = []
        refs(f.get('blocks'), out)
        uses[k] = out
        for d, _, _ in out:
            if d in fns:
                callers.setdefault(d, set()).add(k)
    root = lambda k: fns[k].get('root') or k
    allowed = set(loaders)
    # private helpers that only file loading uses
    changed = True
    while changed:
        changed = False
        for k, f in fns.items():
            if k in allowed or not f.get('local') or f.get('exported') or f.get('trait'):
                continue
            cs = callers.get(k, set())
            if root(k) != k and root(k) in allowed or (cs and all(c in allowed or root(c) in allowed for c in cs)):
                allowed.add(k)
                changed = True
    n = calls = 0
    for k, f in sorted(fns.items()):
        n += 1
        calls += len(uses[k])
        for d, rn, nm in uses[k]:
            if not (effect(nm) or effect(rn)):
                continue
            inside = k in allowed or root(k) in allowed
            if not inside:
                rep.bad('effects', A.name(k) if k in A.p.fns else k, 'calls %s outside file loading' % nm)
            elif not any(x in READS for x in (nm, rn)) and not ('std::fs::File' in rn and ('Read' in rn or 'Debug' in rn)):
                word = nm.split('::')[-1]
                if any(w in word for w in ('write', 'create', 'remove', 'rename', 'copy', 'set_', 'append', 'truncate', 'link', 'spawn', 'var', 'exit', 'abort', 'connect', 'bind', 'exec')):
                    rep.bad('effects', A.name(k) if k in A.p.fns else k, 'file loading calls %s' % nm)
                else:
                    rep.undecided('effects', A.name(k) if k in A.p.fns else k, 'file loading calls %s' % nm)
            else:
                rep.ok('effects', '%s: %s' % (k, nm), 'reads only, within file loading')
    foreign = [k for k, f in fns.items() if f.get('foreign')]
    for k in foreign:
        rep.bad('effects', k, 'foreign function')
    rep.ok('effects', 'inventory', '%d functions with %d calls and function references inspected' % (n, calls))


def run(ctx, rep):
    A = Ana(ctx)
    ld = load.Load(A)
    loaders = ld.loaders('FileError')
    grammar.claim(ctx, rep, 'P33', REQUIRED, load=True, step=False)
    guarded(rep, 'effects', 'crate', inventory, A, rep, loaders)
    rep.floor('effects', 1)
    rep.assume('std::fs::File::open, BufReader and BufRead behave as documented', 'P07-P14 decide what loading the text gives',
               'the file does not change while it is read')
