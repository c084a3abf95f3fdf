"""C18: the command line tool reports library results and overwrites nothing."""
import os, random, re, shutil, socket, stat, subprocess, sys, tempfile, zlib
from . import api, c12, core, partable, real
from pash_annotations.annotation_generation.datatypes.ParallelizabilityInfo import ParallelizabilityInfo

RULE = ('command lines of all commands through the real tool (a copy of the package, run as a process of an unprivileged user in a scratch '
        'directory) without save path, with new ones (relative to the working directory, nested, absolute, odd names) and with existing ones '
        '(files with and without content or permissions, directories, symbolic links also to nowhere, pipes, sockets); with other character encodings and bytes that are no characters; with the save path appearing at the last moment; report compared with '
        'what the library answers, all files before and after. Non-trivial: information was reported; counted by distinct (line, kind of path)')
ASSUMPTIONS = ['the directory of a new save path exists and is writable']
KINDS = ['file', 'empty', 'unreadable', 'readonly', 'dir', 'link', 'linkdir', 'dangling', 'fifo', 'socket', 'script']
BATCH = 4
NEW = ['out.txt', './o', 'sub/o.txt', '../up.txt', 'a b', 'ünï', '-x', 'ABS', 'sub/../o2', '.hidden', 'out', 'o.json', '"q"', '*', '~', '~x', '$HOME', '${HOME}2', '$NAME.txt', '%d', '%s', '{}',
       'file:x', 'out.txt ', ' x', 'OUT', 'a=b', 'a:b', '0', 'null', 'a\\b', 'sub/$NAME', 'http:x']
RACE = ['file', 'link', 'dangling', 'dir', 'empty']
ENVS = {'ascii': {'LC_ALL': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'}, 'strict': {'LC_ALL': 'C.UTF-8', 'PYTHONIOENCODING': 'utf-8:strict'},
        'plain': {}}
# Runs in the process of the tool: just before the first file operation that would create or change the save path, something appears there.
HOOK = '''
import os, sys
def hook(event, args, busy=[]):
    if busy or event not in ('open', 'os.rename', 'os.link', 'os.symlink', 'os.truncate', 'os.mkfifo'):
        return
    there = os.path.realpath(os.environ['RACE_PATH'])
    paths = [a for a in args[:2] if isinstance(a, (str, bytes))]
    if event == 'open' and (not isinstance(args[2], int) or args[2] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT) == 0):
        return
    if any(os.path.join(os.path.realpath(os.path.dirname(os.fsdecode(a))), os.path.basename(os.fsdecode(a))) == there for a in paths):
        busy.append(1)
        exec(os.environ['RACE_DO'])
sys.addaudithook(hook)
'''
DO = {'file': "open('there', 'w').write('precious\\n')", 'empty': "open('there', 'w').close()", 'link': "os.symlink('keep', 'there')",
      'dangling': "os.symlink('nowhere', 'there')", 'dir': "os.mkdir('there')"}
REQUIRED = ['oracle_decisions', 'texts', 'texts_compared', 'run_as_module', 'run_as_script', 'printed', 'saved', 'existing', 'no_info', 'other_outputs', 'applied', 'saved_elsewhere', 'files_compared', 'raced'] + ['env_' + e for e in ENVS] + \
           ['kind_' + k for k in KINDS]
COPY = None


def prepare(ctx):
    global COPY
    COPY = os.path.join(os.environ['PAV_SCRATCH'], 'copy')
    os.makedirs(COPY)
    shutil.copytree(core.PKG.rstrip('/'), os.path.join(COPY, 'pash_annotations'), ignore=shutil.ignore_patterns('__pycache__', 'tests', '*.pyc'))
    for d, ds, fs in os.walk(COPY):
        for n in [d] + [os.path.join(d, f) for f in fs]:
            os.chmod(n, 0o777 if os.path.isdir(n) else 0o666)
            if real.can_drop():
                os.chown(n, real.UID, real.UID)


def cases(ctx):
    rng = ctx.rng()
    fixed = ['sort f1', 'rm f1', 'unknown x', 'grep -c a', 'cat - f1', "echo 'ü'", 'bigrams_aux', 'tr a b', 'sort -o out f1', 'tee f1', 'mv a b', '--help',
             'grep "a  b" f1', 'sort -n\n', 'uniq -c', 'comm a', 'sed -i s/a/b/ f1', 'sort -T tmpd f1']
    odd = ["cat 'a\rb'", "cat 'a\r\n' f1", 'cat "x\ty"', "cat 'ü\u00a0日'", 'cat a\\ ', ' cat f1 ', 'cat\tf1', 'cat "" f1', "cat '\n'", "cat f1 ' '",
           "grep '%s {} \\t' f1", 'cat --', '-', "''", 'cat "a\n\n"', 'grep -e "\x0b" f1', 'cat &amp;', 'cat \\\\n']
    todo = [(l, k) for l in fixed for k in rng.sample(['new:' + n for n in NEW] + ['old:' + k for k in KINDS], 3) + ['none']]
    todo += [(l, k) for l in odd for k in ('none', 'new:out.txt')]
    todo += [(c12.line(rng), 'old:' + k) for k in KINDS * 3] + [(c12.line(rng), 'new:' + n) for n in NEW * 2]
    for _ in range(ctx.n(250, 6000)):
        r = rng.random()
        todo.append((c12.line(rng), 'none' if r < .5 else 'new:' + rng.choice(NEW) if r < .75 else 'old:' + rng.choice(KINDS)))
    for l, k in todo:
        yield ['cli', l, k]
    for _ in range(ctx.n(16, 400)):
        yield ['texts', c12.lines(rng, 400)]
    # bytes that are no characters, other character encodings of the environment
    for l in ["cat 'a\udcff'", 'grep \udce9 f1', 'sort -t \udcc3 f1', "cat 'ü' f1", 'unknown \udc80', 'mv a \udcff', "tr 'é' a", "cat 日\udcff"]:
        for e in ENVS:
            for k in ('none', 'new:' + rng.choice(NEW), 'old:file'):
                yield ['cli', l, k, e]
    for e in ENVS:
        for _ in range(ctx.n(6, 150)):
            yield ['cli', c12.line(rng), rng.choice(['none', 'new:' + rng.choice(NEW), 'old:' + rng.choice(KINDS)]), e]
    # something else creates the path while the tool works
    for k in RACE:
        for _ in range(ctx.n(3, 60)):
            yield ['cli', c12.line(rng), 'race:' + k]


def texts(case, mon):
    """what is reported shows the whole answer: all names in order, and different kinds of answers by different texts"""
    seen = {}
    for line in case[1]:
        inv = api.parse(line)
        info, par = api.io_info(inv), api.par_info(inv)
        cmd, fl, ops = api.view_inv(inv)
        mon.check(in_order(str(inv), [cmd, *[str(x) for f in fl for x in f], *map(str, ops)]), lambda: f'the text of the parsed invocation lacks something: {line!r}: {inv!s}')
        mon.count('texts')
        plain = not any(not w or set(w) & set(',[]\n: ') for w in [cmd, *[str(x) for f in fl for x in f], *map(str, ops)])
        if plain:
            unique(mon, seen, 'parsed', norm(str(inv)), api.view_inv(inv), line)
        if info is not None:
            cio = info.apply_input_output_info_to_command_invocation(inv)
            v = api.view_io(cio)
            names = [cmd] + [x for f in v['flags'] for x in (f[1:2] if f[0] == 'flag' else [f[1], f[2][1]])] + [o[1] for o in v['operands']]
            mon.check(in_order(str(cio), map(str, names)), lambda: f'the text of the input-output information lacks something: {line!r}: {cio!s}')
            if plain:
                unique(mon, seen, 'applied', norm(str(cio)), v, line)
        if par is not None:
            ps = [(partable.kind(p)[:2], p.get_mapper_spec().is_implemented, p.get_aggregator_spec().is_implemented) for p in par.parallelizer_list]
            unique(mon, seen, 'parallelizability', norm(str(par)), [ps, par.is_commutative], line)
        mon.nontrivial(('text', line))


def in_order(text, tokens):
    at = 0
    for t in tokens:
        at = text.find(t, at)
        if at < 0:
            return False
        at += len(t)
    return True


def unique(mon, seen, what, text, view, line):
    mon.count('texts_compared')
    old, l = seen.setdefault((what, text), (repr(view), line))
    mon.check(old == repr(view), lambda: f'the same text ({what}) for different answers: {line!r} and {l!r}: {text!r}')


def expected(line):
    inv = api.parse(line)
    info, par = api.io_info(inv), api.par_info(inv)
    out = '>>> READ COMMAND INVOCATION: \n' + line + '\n\n>>> PARSED COMMAND INVOCATION: \n' + str(inv) + '\n'
    out += '>>> INPUT-OUTPUT INFORMATION (applied to command invocation if possible): \n'
    if info is None:
        kind, mid = 'no_info', 'Information not provided so considered side-effectful.'
    elif info.has_other_outputs():
        kind, mid = 'other_outputs', 'Provided command has outputs other than streaming.'
    else:
        kind, mid = 'applied', str(info.apply_input_output_info_to_command_invocation(inv))
    out += mid + '\n>>> PARALLELIZABILITY INFORMATION: \n' + str(par if par is not None else ParallelizabilityInfo())
    return kind, out, par


def norm(s):
    return re.sub(r' at 0x[0-9a-f]+', '', s.replace('pash_annotations.', ''))


def snap(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for n in ds + fs:
            p = os.path.join(d, n)
            s = os.lstat(p)
            c = None
            if stat.S_ISREG(s.st_mode):
                with open(p, 'rb') as f:
                    c = f.read()
            elif stat.S_ISLNK(s.st_mode):
                c = os.readlink(p)
            out[os.path.relpath(p, root)] = (stat.S_IFMT(s.st_mode), s.st_mode, c, s.st_mtime_ns if not stat.S_ISDIR(s.st_mode) else 0)
    return out


def copy_state():
    return {os.path.join(d, f): (os.lstat(os.path.join(d, f)).st_size, os.lstat(os.path.join(d, f)).st_mtime_ns) for d, _, fs in os.walk(COPY) for f in fs}


def place(root, kind):
    """creates something at the path 'there'; returns the save path"""
    p = os.path.join(root, 'there')
    if kind in ('file', 'unreadable', 'readonly', 'empty'):
        with open(p, 'w') as f:
            f.write('' if kind == 'empty' else 'precious\n')
        os.chmod(p, {'unreadable': 0o200, 'readonly': 0o444}.get(kind, 0o644))
    elif kind == 'script':
        p = 'annotation_cli.py'
        with open(os.path.join(root, p), 'w') as f:
            f.write('precious\n')
        return p
    elif kind == 'dir':
        os.mkdir(p)
    elif kind == 'link':
        os.symlink('keep', p)
    elif kind == 'linkdir':
        os.symlink('sub', p)
    elif kind == 'dangling':
        os.symlink('nowhere', p)
    elif kind == 'fifo':
        os.mkfifo(p)
    elif kind == 'socket':
        s = socket.socket(socket.AF_UNIX)
        old = os.open('.', os.O_RDONLY)
        os.chdir(root)
        s.bind('there')
        os.fchdir(old)
        os.close(old)
        s.close()
    return 'there'


def evaluate(case, mon):
    if case[0] == 'texts':
        return texts(case, mon)
    _, line, where, *envname = case
    top = tempfile.mkdtemp(dir=os.environ['PAV_SCRATCH'])
    root = os.path.join(top, 'cwd')
    os.makedirs(os.path.join(root, 'sub'))
    with open(os.path.join(root, 'keep'), 'w') as f:
        f.write('keep\n')
    kind, _, name = where.partition(':')
    save = None
    if kind == 'new':
        save = os.path.join(root, 'absolute') if name == 'ABS' else name
    elif kind == 'old':
        save = place(root, name)
        mon.count('kind_' + name)
    elif kind == 'race':
        save = 'there'
        os.mkdir(os.path.join(top, 'hook'))
        with open(os.path.join(top, 'hook', 'sitecustomize.py'), 'w') as f:
            f.write(HOOK)
    if real.can_drop():
        for d, ds, fs in os.walk(top):
            for n in [d] + [os.path.join(d, x) for x in fs + ds]:
                os.chown(n, real.UID, real.UID, follow_symlinks=False)
    os.chmod(top, 0o755)
    before, copy = snap(top), copy_state()
    what, want, par = expected(line)
    # as a script or as a module of the package
    module = zlib.crc32((line + where).encode('utf-8', 'surrogateescape')) % 2
    mon.count('run_as_module' if module else 'run_as_script')
    args = [sys.executable, '-B'] + (['-m', 'pash_annotations.annotation_cli'] if module else [os.path.join(COPY, 'pash_annotations', 'annotation_cli.py')])
    args.append('--command_invocation=' + line)
    if save is not None:
        args.append('--save_to=' + save)
    kw = dict(user=real.UID, group=real.UID, extra_groups=[]) if real.can_drop() else {}
    env = {'PATH': '/usr/bin:/bin', 'LC_ALL': 'C.UTF-8', 'PYTHONPATH': COPY, 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONUTF8': '1'}
    if envname:
        env = {k: env[k] for k in ('PATH', 'PYTHONPATH', 'PYTHONDONTWRITEBYTECODE')} | ENVS[envname[0]]
        mon.count('env_' + envname[0])
    env |= {'HOME': os.path.join(root, 'sub'), 'NAME': 'named'}
    if kind == 'race':
        env |= {'PYTHONPATH': COPY + ':' + os.path.join(top, 'hook'), 'RACE_PATH': os.path.join(root, save), 'RACE_DO': DO[name]}
    try:
        p = subprocess.run(args, cwd=root, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, env=env, **kw)
    except subprocess.TimeoutExpired:
        mon.fail(f'does not end: {line!r} {where}')
        return
    out, err = p.stdout.decode('utf-8', 'surrogateescape'), p.stderr.decode('utf-8', 'replace')
    after = snap(top)
    mon.check(p.returncode == 0, lambda: f'exit status {p.returncode}: {line!r} {where}: {err[-300:]}')
    mon.check(copy_state() == copy, lambda: f'changed files next to the tool: {line!r} {where}')
    mon.count(what)
    mon.count('files_compared', len(before))
    rel = None
    if kind == 'race' and 'cwd/there' in after:
        # it appeared, and has to stay
        made = after.pop('cwd/there')
        before['cwd/there'] = made
        mon.check(made[2] == {'file': b'precious\n', 'empty': b'', 'link': 'keep', 'dangling': 'nowhere'}.get(name),
                  lambda: f'overwrote what was created meanwhile: {line!r} {where}: {str(made[2])[:80]}')
        after['cwd/there'] = made
        mon.count('raced')
    if kind == 'new':
        mon.count('saved')
        mon.count('saved_elsewhere', int('/' in save))
        rel = os.path.relpath(os.path.normpath(os.path.join(root, save)), top)
        got = after.get(rel)
        if mon.check(got is not None and got[0] == stat.S_IFREG, lambda: f'nothing saved: {line!r} at {save!r}: {sorted(set(after) - set(before))}'):
            text = got[2].decode('utf-8', 'surrogateescape')
            mon.check(norm(text) == norm(want), lambda: f'saved report: {line!r}: {diff(norm(text), norm(want))}')
    else:
        mon.count('printed')
        mon.count('existing', int(kind == 'old'))
        text = norm(out)
        w = norm(want) + '\n'
        mon.check(text == w if kind == 'none' else text.endswith(w), lambda: f'printed report: {line!r} {where}: {diff(text, w)}')
    a = {k: v for k, v in after.items() if k != rel}
    mon.check(a == before, lambda: f'changed files: {line!r} {where}: {[k for k in set(a) | set(before) if a.get(k) != before.get(k)]}')
    shutil.rmtree(top, ignore_errors=True)
    if what != 'no_info' or par is not None:
        mon.nontrivial((line, where))
        mon.sample({'line': line, 'save path': where, 'report': want[-200:]})


def diff(a, b):
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f'{a[max(0, i - 40):i + 60]!r}, expected {b[max(0, i - 40):i + 60]!r}'
