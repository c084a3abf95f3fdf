"""C03: the flag/option database against the real tools: probed arity, documented spellings and aliases, argument types, and
behaviour of the canonical form."""
import os, re, subprocess
from . import spec, gen, words, api, real, iocheck
from .core import Inconclusive

RULE = ('(a) every spelling the tool documents or the annotations list is given to the real tool without its argument, and its complaint '
        'decides whether it takes one; (b) spellings documented together must parse to one flag or option; (c) argument types of all options '
        'against the reviewed table; (d) random invocations run on the real tool as written and in the canonical form of their parse, in '
        'equal scratch directories. Non-trivial: a spelling probed, or a pair of runs of different word lists; counted by distinct words')
ASSUMPTIONS = ['GNU coreutils/grep/sed/diffutils/findutils as installed; awk (mawk here, gawk described) and col (not installed) only by table',
               'optspec.json for argument types']
REQUIRED = ['oracle_decisions', 'spellings_probed', 'takes_argument', 'takes_none', 'documented', 'alias_sets', 'types_checked', 'pairs_run',
            'pairs_different_words']
BATCH = 10
TOOLS = [t for t in iocheck.TOOLS if t != 'awk']
NOT_DOCUMENTED = {('cut', '-M')}                 # listed, but no option of the tool
HELP_EXCEPT = {('grep', '-NUM'), ('diff', '--GTYPE-group-format'), ('diff', '--LTYPE-line-format')}
# documented on one line, one of them with an optional (attached) argument
SPLIT = {('diff', '-c'), ('diff', '-u'), ('sort', '-C'), ('xargs', '-L')}
OPERANDS = {'grep': ['o', 'f1'], 'sed': ['p', 'f1'], 'comm': ['f1', 'f2'], 'diff': ['f1', 'f2'], 'mv': ['f1', 'f2'], 'seq': ['3'],
            'tr': ['a', 'b'], 'xargs': ['echo'], 'awk': ['1', 'f1'], 'uniq': ['f1'], 'mkfifo': ['p'], 'rm': ['f1'], 'tee': ['o1'], 'col': []}


def help_entries(tool):
    p = subprocess.run([tool, '--help'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=20, env=real.ENV)
    out = []
    for line in p.stdout.decode('utf-8', 'replace').splitlines():
        m = re.match(r'\s{1,9}(-\S.*)$', line)
        if m:
            sp = re.split(r'\s{2,}', m.group(1))[0]
            toks = re.findall(r'(?<![\w=])--?[A-Za-z0-9][\w-]*', sp)
            toks = [t for t in toks if (tool, t) not in HELP_EXCEPT]
            if toks:
                out.append(list(dict.fromkeys(toks)))
    return out


def cases(ctx):
    rng = ctx.rng()
    for t in TOOLS:
        ents = help_entries(t)
        if len(ents) < 2:
            yield ['broken', t]
            continue
        names = list(dict.fromkeys([n for e in ents for n in e] + [n for g in spec.CMDS[t].groups for n in g.names]))
        for n in names:
            if (t, n) not in NOT_DOCUMENTED:
                yield ['probe', t, n]
        for n in ('-!', '--zzz', '-@', '--he', '--versionx'):
            yield ['probe', t, n]
        for e in ents:
            yield ['alias', t, e]
    for t, c in spec.CMDS.items():
        for g in c.options:
            for n in g.names:
                for a in ('f1', '-', 'x y', 'd/g'):
                    yield ['type', t, n, a]
    # behaviour
    tools = TOOLS + ['awk']
    def pair(cn, fl):
        c = iocheck.run_case(rng, cn, fl)
        return ['pair', c[1]]
    for cn in tools:
        no = iocheck.norun(cn) | {'-R', '--parallel', '-P'} - ({'-R'} if cn in ('grep', 'rm') else set())
        for fl in gen.pairs(cn, exclude=no):
            for _ in range((3 if len(fl) < 2 else 1) if ctx.thorough or len(fl) < 2 or rng.random() < .1 else 0):
                yield pair(cn, fl)
    for _ in range(ctx.n(1200, 60000)):
        cn = rng.choice(tools)
        no = iocheck.norun(cn) | {'-R', '--parallel', '-P'} - ({'-R'} if cn in ('grep', 'rm') else set())
        yield pair(cn, gen.rand_flags(rng, cn, 5, exclude=no))


def complaint(tool, name, args):
    with real.Scratch() as s:
        try:
            r = real.run(s, [tool] + args, stdin=b'', watch=False, timeout=3)
        except Inconclusive:
            return ''
        return r.err.decode('utf-8', 'replace')


def probe(tool, name):
    """'required' | 'none' | 'optional' | 'unknown' according to the tool"""
    if name.startswith('--'):
        e = complaint(tool, name, [name])
        if re.search(r"unrecognized option|unknown option|ambiguous", e):
            return 'unknown'
        if re.search(r'requires an argument', e):
            return 'required'
        e2 = complaint(tool, name, [name + '=zzz'])
        return 'none' if re.search(r"doesn't allow an argument|does not allow", e2) else 'optional'
    e = complaint(tool, name, [name])
    if re.search(r'invalid option|unknown option|unrecognized option', e):
        return 'unknown'
    return 'required' if re.search(r'option requires an argument', e) else 'none'


def evaluate(case, mon):
    kind, t = case[0], case[1]
    if kind == 'broken':
        raise Inconclusive(f'{t} --help shows no options')
    if kind == 'probe':
        n = case[2]
        want = probe(t, n)
        line = words.line_of(None, [t, n, 'f1', 'f2'], 'single')
        cmd, fl, ops = api.view_inv(api.parse(line))
        mon.count('spellings_probed')
        mon.nontrivial((t, n))
        if want == 'unknown':
            # an abbreviation or no option at all must not be taken for one
            mon.count('unknown_probed')
            mon.check(not fl and ops == [n, 'f1', 'f2'], lambda: f'unknown to the tool: {t} {n} was parsed as {fl} {ops}')
            return
        if n in ('--he',):            # an abbreviation the tool would accept
            return
        mon.count('documented')
        if want == 'required':
            mon.count('takes_argument')
            mon.check(len(fl) == 1 and len(fl[0]) == 2 and fl[0][1] == 'f1' and ops == ['f2'],
                      lambda: f'takes an argument in {t}: {n}, but parsed as {fl} {ops}')
        else:
            mon.count('takes_none')
            mon.check(len(fl) == 1 and len(fl[0]) == 1 and ops == ['f1', 'f2'],
                      lambda: f'takes no (separate) argument in {t}: {n}, but parsed as {fl} {ops}')
        return
    if kind == 'alias':
        names = case[2]
        got = {}
        for n in names:
            _, fl, _ = api.view_inv(api.parse(words.line_of(None, [t, n, 'f1', 'f2'], 'single')))
            got[n] = fl[0][0] if fl else None
        mon.count('alias_sets')
        mon.nontrivial((t, tuple(names)))
        mon.check(None not in got.values(), lambda: f'documented but unknown: {t}: {[n for n in got if got[n] is None]}')
        if (t, names[0]) not in SPLIT:
            mon.check(len(set(got.values())) == 1, lambda: f'documented as one option: {t}: {got}')
        return
    if kind == 'type':
        _, t, n, a = case
        g = spec.CMDS[t].group_of(n)
        if t not in spec.ANNOTATED_IO or g.key == '--files0-from' and t == 'wc':
            return
        ops = OPERANDS.get(t, ['f2'])
        if t in ('grep', 'sed') and g.key in ('-e', '-f') or t == 'awk' and g.key in ('-e', '-f', '-E'):
            ops = ['f2']
        if t == 'uniq' or t == 'sort':
            ops = ['f2']
        inv = api.parse(words.line_of(None, [t, n, a] + ops, 'single'))
        info, cio = api.applied(inv)
        mon.count('types_checked')
        if not mon.check(cio is not None, lambda: f'no information: {t} {n} {a} {ops}'):
            return
        v = api.view_io(cio)
        want = ('arg', a) if g.access is None else \
            ('std', 'STDIN' if g.access.endswith('INPUT') else 'STDOUT', g.access) if a == '-' else ('file', a, g.access)
        mon.nontrivial(('type', t, n))
        mon.check(len(v['flags']) == 1 and v['flags'][0][2] == want, lambda: f'type of the option argument: {t} {n} {a!r}: {v["flags"]} expected {want}')
        return
    line = t
    ws = iocheck.split(line)
    inv = api.parse(line)
    cmd, fl, ops = api.view_inv(inv)
    canon = [cmd] + [x for f in fl for x in f] + ops
    if ws[0] == 'diff' and '-' in ops or any(w in ('random', '--sort=random', '-R', '--random-sort') for w in ws) and ws[0] == 'sort':
        mon.count('nondeterministic')
        return
    flags, _ = spec.classify(ws[0], ws[1:])
    if ws[0] == 'diff' and '-l' in [g.key for g, _ in flags]:
        mon.count('nondeterministic')
        return
    if canon == ws:
        mon.count('same_words')
        return
    res = []
    for argv in (ws, canon):
        with real.Scratch() as s:
            for dp, dn, fn in os.walk(s.root):
                for f in fn + dn:
                    os.utime(os.path.join(dp, f), (10 ** 9, 10 ** 9))
            r = real.run(s, argv, watch=False)
            if ws[0] == 'diff':           # for directories, diff shows its own options
                r.out = b''.join(l for l in r.out.splitlines(True) if not l.startswith(b'diff '))
            res.append((r.rc, r.out, real.snapshot(s.root), r.stdin_used))
    mon.count('pairs_run')
    mon.count('pairs_different_words')
    mon.count('pairs_succeeding', int(res[0][0] == 0))
    mon.nontrivial(tuple(ws))
    a, b = res
    mon.check(a[0] == b[0], lambda: f'exit status: {ws} {a[0]}, canonical {canon} {b[0]}')
    mon.check(a[1] == b[1], lambda: f'standard output: {ws} {a[1]!r}, canonical {canon} {b[1]!r}')
    mon.check(a[2] == b[2], lambda: f'files: {ws}, canonical {canon}: {sorted(k for k in set(a[2]) | set(b[2]) if a[2].get(k) != b[2].get(k))}')
    mon.sample({'words': ws, 'canonical': canon, 'rc': a[0], 'stdout_bytes': len(a[1])})
