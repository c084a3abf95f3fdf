"""C23: the installed package answers like the source tree."""
import compileall, json, os, random, shutil, subprocess, sys
from . import c08, c12, c18, core, gen, purity, real, spec, words
from .core import Inconclusive

RULE = ('the package is built with its setup script and installed in different ways (directory, directory with spaces and other characters in its '
        'name, symbolic link, read-only for another user, compiled, path relative to the working directory, which then changes); new '
        'processes with different interpreter options, environments and a different module imported first answer command lines there, the command '
        'line tool runs there as a module, and every module is imported first once; answers and reports are compared with those of the source tree '
        'in this process, and the installations with what they were. Non-trivial: a line was answered; counted by distinct (line, way of installing)')
ASSUMPTIONS = ['setuptools of the system Python builds the package', 'byte code that the interpreter itself keeps is no change of the installation',
               'modules that read the arguments of a program when they are imported may refuse those of another program']
REQUIRED = ['oracle_decisions', 'lines_answered', 'installations', 'modules_imported', 'tool_runs', 'files_compared', 'unprivileged', 'without_assertions',
            'moved_away', 'commands_seen']
BATCH = 4
LIB = V = None
KINDS = ['dir', 'named', 'link', 'readonly', 'compiled', 'relative']
OPTIONS = [[], ['-O'], ['-O'], ['-OO'], ['-OO'], ['-X', 'dev'], ['-W', 'ignore'], ['-S'], ['-s'], ['-u']]
CHILD = '''
import sys, os, json, importlib
job = json.load(sys.stdin)
out, sys.stdout = sys.stdout, sys.stderr
sys.path[:0] = job['path']
mod = importlib.import_module(job['first'])
where = getattr(mod, '__file__', None) or list(mod.__path__)[0]
if job['leave']:
    os.chdir(job['leave'])
sys.path.append(job['v'])
from pav.purity import answers, digest
import pash_annotations.parser.parser as p
print(json.dumps([where, p.__file__, [digest(answers(l)[0]) for l in job['lines']]]), file=out)
'''


def prepare(ctx):
    """builds the package"""
    global LIB, V
    top = os.path.join(os.environ['PAV_SCRATCH'], 'built')
    src = os.path.join(top, 'src')
    os.makedirs(src)
    for n in os.listdir(core.REPO):
        if n in ('.git', 'build', 'dist') or n.endswith('.egg-info'):
            continue
        p = os.path.join(core.REPO, n)
        if os.path.isdir(p):
            shutil.copytree(p, os.path.join(src, n), symlinks=True, ignore=shutil.ignore_patterns('__pycache__', '*.pyc', 'old_annotations'))
        else:
            shutil.copy2(p, os.path.join(src, n))
    if subprocess.run([sys.executable, '-c', 'import setuptools'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
        raise Inconclusive('no setuptools')
    LIB = os.path.join(top, 'lib')
    p = subprocess.run([sys.executable, '-B', 'setup.py', '-q', 'build', '--build-lib', LIB, '--build-base', os.path.join(top, 'base')], cwd=src,
                       env={'PATH': '/usr/bin:/bin', 'HOME': top, 'PYTHONUTF8': '1', 'PYTHONDONTWRITEBYTECODE': '1'}, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=120)
    if not os.path.isdir(os.path.join(LIB, 'pash_annotations')):
        raise Inconclusive(f'the package was not built ({p.returncode}): ' + p.stdout.decode('utf-8', 'replace')[-300:])
    V = os.path.join(top, 'v')
    shutil.copytree(os.path.join(core.VERIF, 'pav'), os.path.join(V, 'pav'), ignore=shutil.ignore_patterns('__pycache__'))
    shutil.rmtree(src)
    for r in (LIB, V):
        for d, ds, fs in os.walk(r):
            os.chmod(d, 0o755)
            for f in fs:
                os.chmod(os.path.join(d, f), 0o644)
    os.chmod(top, 0o755)


def modules():
    out = []
    for d, ds, fs in os.walk(LIB):
        ds.sort()
        for f in sorted(fs):
            if f.endswith('.py'):
                m = os.path.relpath(os.path.join(d, f), LIB)[:-3].replace('/', '.')
                out.append(m[:-9] if m.endswith('.__init__') else m)
    return out


def every(rng):
    """a line for every command with data of its own"""
    for c in sorted(spec.CMDS):
        fl = gen.rand_flags(rng, c, 3)
        yield words.line_of(rng, gen.spell(rng, c, fl, gen.operands(rng, c, [k for k, _ in fl])))


def cases(ctx):
    rng = ctx.rng()
    for m in modules():
        yield ['first', m, rng.choice(KINDS), rng.randrange(1 << 30)]
    for i in range(ctx.n(42, 1200)):
        ls = list(every(rng)) if i % 3 == 0 else c12.lines(rng, 40)
        yield ['installed', ls, KINDS[i % len(KINDS)], rng.randrange(1 << 30)]
    # what has to be refused, mostly
    pool = [c[1] for c in c08.cases(core.Ctx('C08', 'quick', ctx.seed)) if c[0] == 'line']
    for i in range(ctx.n(24, 300)):
        yield ['installed', rng.sample(pool, 500), KINDS[i % len(KINDS)], rng.randrange(1 << 30)]
    for i in range(ctx.n(35, 900)):
        l = c12.line(rng)
        if '\0' not in l:
            yield ['tool', l, KINDS[i % len(KINDS)], rng.randrange(1 << 30)]


def put(kind, rng, top):
    """installs; (entry for the search path, working directory, where to go before the first answer or None, as another user)"""
    home = os.path.join(top, {'named': rng.choice(['my packages', 'ä', "it's", 'a:b'.replace(':', ';'), 'x.zip', 'pash_annotations', '%41', 'parser', 'd#1'])}.get(kind, 'inst'))
    cwd = os.path.join(top, 'cwd')
    os.mkdir(cwd)
    shutil.copytree(LIB, home)
    if kind == 'link':
        os.symlink(home, os.path.join(top, 'link'))
        home = os.path.join(top, 'link')
        if rng.random() < .5:
            os.mkdir(os.path.join(top, 'path'))
            os.symlink(os.path.join(home, 'pash_annotations'), os.path.join(top, 'path', 'pash_annotations'))
            home = os.path.join(top, 'path')
    elif kind == 'compiled':
        if rng.random() < .5:
            compileall.compile_dir(home, quiet=2, optimize=[0, 1, 2])
        else:                           # without the sources
            compileall.compile_dir(home, quiet=2, legacy=True)
            for d, _, fs in os.walk(home):
                for f in fs:
                    if f.endswith('.py'):
                        os.unlink(os.path.join(d, f))
    elif kind == 'readonly':
        for d, _, fs in os.walk(home):
            for f in fs:
                os.chmod(os.path.join(d, f), 0o444)
            os.chmod(d, 0o555)
    elif kind == 'relative':
        return '../inst', cwd, '/', False
    return home, cwd, None, kind == 'readonly' and real.can_drop()


def snap(top):
    out = {}
    for d, ds, fs in os.walk(top):
        ds[:] = [x for x in ds if x != '__pycache__']
        for n in ds + fs:
            p = os.path.join(d, n)
            s = os.lstat(p)
            c = None
            if os.path.isfile(p) and not os.path.islink(p):
                with open(p, 'rb') as f:
                    c = f.read()
            out[os.path.relpath(p, top)] = (s.st_mode, c)
    return out


def environment(rng, top):
    env = {'PATH': '/usr/bin:/bin', 'HOME': top, 'PYTHONUTF8': '1', 'LC_ALL': rng.choice(['C', 'C.UTF-8', 'POSIX']), 'PYTHONHASHSEED': str(rng.randrange(1, 1 << 32))}
    if rng.random() < .5:
        env['PYTHONDONTWRITEBYTECODE'] = '1'
    if rng.random() < .3:
        env['PYTHONPYCACHEPREFIX'] = os.path.join(top, 'cwd', '__pycache__')
    return env


def evaluate(case, mon):
    rng = random.Random(case[3])
    kind = case[2]
    top = os.path.join(os.environ['PAV_SCRATCH'], 'i%d' % rng.randrange(1 << 60))
    os.mkdir(top)
    os.chmod(top, 0o755)
    try:
        entry, cwd, leave, drop = put(kind, rng, top)
        if drop:
            os.chown(cwd, real.UID, real.UID)
            mon.count('unprivileged')
        mon.count('moved_away', leave is not None)
        mon.count('installations')
        before = snap(top)
        {'first': first, 'installed': installed, 'tool': tool}[case[0]](case, mon, rng, top, entry, cwd, leave, drop)
        after = snap(top)
        mon.count('files_compared', len(before))
        mon.check(after == before, lambda: f'changes the installation ({kind}): {[k for k in sorted(set(before) | set(after)) if before.get(k) != after.get(k)][:5]}')
    finally:
        shutil.rmtree(top, ignore_errors=True)


def call(rng, opts, args, top, cwd, drop, **kw):
    who = dict(user=real.UID, group=real.UID, extra_groups=[]) if drop else {}
    try:
        return subprocess.run([sys.executable, *opts, *args], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100, **who, **kw)
    except subprocess.TimeoutExpired:
        raise Inconclusive('a process did not end in 100 s')


def ask(mon, rng, case, lines, first_module, top, entry, cwd, leave, drop):
    opts = rng.choice(OPTIONS)
    env = environment(rng, top)
    mon.count('without_assertions', any(o.startswith('-O') for o in opts))
    if leave is not None and rng.random() < .5:
        leave = top
    # PAV_REPO only has to name something: the package is found on the search path before it
    job = {'path': [entry], 'first': first_module, 'leave': leave, 'v': V, 'lines': lines}
    env['PAV_REPO'] = os.path.join(top, 'nowhere')
    p = call(rng, opts, ['-c', CHILD], top, cwd, drop, env=env, input=json.dumps(job).encode())
    how = f'{case[2]}, python {" ".join(opts)}, {first_module} imported first'
    if p.returncode:
        mon.fail(f'fails when installed ({how}): ' + p.stderr.decode('utf-8', 'replace')[-400:])
        return None
    where, parser, got = json.loads(p.stdout)
    if not os.path.realpath(os.path.join(cwd, parser)).startswith(os.path.realpath(top)):
        raise Inconclusive('the package was not taken from the installation: ' + parser)
    return got, how


def first(case, mon, rng, top, entry, cwd, leave, drop):
    m = case[1]
    if m.endswith('annotation_cli') or m.endswith('__main__'):
        return tool(['tool', 'sort f1', *case[2:]], mon, rng, top, entry, cwd, leave, drop)
    ls = ['sort -k 1 f1', 'comm a b c', 'unknown x', 'grep -c x f1']
    r = ask(mon, rng, case, ls, m, top, entry, cwd, leave, drop)
    if r:
        mon.count('modules_imported')
        compare(mon, ls, *r, case)


def installed(case, mon, rng, top, entry, cwd, leave, drop):
    m = rng.choice([m for m in modules() if not m.endswith(('annotation_cli', '__main__'))])
    r = ask(mon, rng, case, case[1], m, top, entry, cwd, leave, drop)
    if r:
        compare(mon, case[1], *r, case)
        mon.sample({'installed': r[1], 'line': case[1][0], 'answer': r[0][0]})


def compare(mon, lines, got, how, case):
    for l, g in zip(lines, got):
        ref = purity.answers(l)[0]
        want = purity.digest(ref)
        mon.check(g == want, lambda: f'different answer when installed ({how}): {l!r} in {[k for k in set(want) | set(g) if g.get(k) != want.get(k)]}')
        mon.count('lines_answered')
        mon.count('commands_seen', len(ref) > 3)
        mon.nontrivial((l, case[2]))


def tool(case, mon, rng, top, entry, cwd, leave, drop):
    line = case[1]
    opts = [o for o in rng.choice(OPTIONS)]
    env = environment(rng, top)
    env['PYTHONPATH'] = entry if leave is None else os.path.join(top, 'inst')
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    what, want, _ = c18.expected(line)
    p = call(rng, opts, ['-m', 'pash_annotations.annotation_cli', '--command_invocation=' + line], top, cwd, drop, env=env, stdin=subprocess.DEVNULL)
    out = p.stdout.decode('utf-8', 'surrogateescape')
    how = f'{case[2]}, python {" ".join(opts)}'
    if mon.check(p.returncode == 0, lambda: f'the tool fails as a module of the installed package ({how}): {line!r}: ' + p.stderr.decode('utf-8', 'replace')[-300:]):
        mon.check(c18.norm(out) == c18.norm(want + '\n'), lambda: f'the tool reports something else when installed ({how}): {line!r}: {c18.diff(c18.norm(out), c18.norm(want))}')
        mon.count('tool_runs')
        mon.nontrivial((line, 'tool', case[2]))
