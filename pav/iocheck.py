"""Common part of C05-C08: input-output information against the reference model and against observed real runs."""
import functools
import itertools
import os
from . import spec, gen, words, api, iomodel, real
from .core import Inconclusive

INPUTS = ('CONFIG_INPUT', 'STREAM_INPUT', 'CONTAINER_FOR_INPUT', 'EXCLUDES_FROM_INPUT', 'OTHER_INPUT')
OUTPUTS = ('STREAM_OUTPUT', 'OTHER_OUTPUT')
TOOLS = ['awk', 'cat', 'comm', 'cut', 'diff', 'grep', 'head', 'mkfifo', 'mv', 'rm', 'sed', 'seq', 'sort', 'tail', 'tee', 'tr', 'uniq',
         'wc', 'xargs']
# not run: endless, interactive, only in other implementations of the tool, or just printing a help text
NORUN = {'--help', '--version'}
NORUN_BY = {
    'awk': {g.key for g in spec.CMDS['awk'].groups} - {'-f', '-F', '-v'},
    'tail': {'-f', '-F', '--retry', '--pid'}, 'mv': {'-i', '-v', '--debug'}, 'rm': {'-i', '-I', '--interactive'},
    'xargs': {'-o', '-p'}, 'diff': {'-v'}, 'grep': {'-V'}, 'cut': {'-M'}, 'sed': {'-i'},
}


def norun(cmd):
    return NORUN | NORUN_BY.get(cmd, set())


# ---- part a: the model
def model_cases(ctx, n_random):
    rng = ctx.rng('model')
    cmds = spec.ANNOTATED_IO
    for cn in cmds:
        for fl in gen.pairs(cn):
            keys = [k for k, _ in fl]
            sh = iomodel.shapes(cn, keys)
            for ops in (sh if ctx.thorough or len(fl) < 2 else rng.sample(sh, 5) + sh[:2]):
                yield ['model', words.line_of(rng, gen.spell(rng, cn, fl, ops))]
    for _ in range(n_random):
        cn = rng.choice(cmds)
        fl = gen.rand_flags(rng, cn, 5)
        keys = [k for k, _ in fl]
        ops = rng.choice(iomodel.shapes(cn, keys)) if rng.random() < .6 else gen.operands(rng, cn, keys)
        yield ['model', words.line_of(rng, gen.spell(rng, cn, odd_args(rng, fl, ops), ops))]
    # triples: all of flags which matter by themselves, and others with them
    per = ctx.n(1, 6)
    for cn in cmds:
        gs = gen.cmd_of(cn).groups
        mat = significant(cn)
        three = list(itertools.combinations([g for g in gs if g.key in mat], 3))
        more = max(min(len(gs) ** 2, 700), 3) if len(gs) > 2 else 0
        three += [tuple(rng.sample(gs, 3)) for _ in range(more)]
        three += [(rng.choice(gs), *rng.sample([g for g in gs if g.key in mat], 2)) for _ in range(more) if len(mat) > 1]
        for t in three:
            for _ in range(per):
                fl = [(g.key, rng.choice(spec.args_of(g)) if g.is_option else None) for g in rng.sample(t, 3)]
                ops = rng.choice(iomodel.shapes(cn, [k for k, _ in fl]))
                yield ['model', words.line_of(rng, gen.spell(rng, cn, odd_args(rng, fl, ops), ops))]


def odd_args(rng, fl, ops):
    """now and then another option argument: the answers do not depend on it"""
    if rng.random() < .75:
        return fl
    return [(k, a if a is None else rng.choice([a, '-', '', 'a b', '-x', '--', '=', 'f1', '0', '--help', '-n'] + ops[:2])) for k, a in fl]


@functools.lru_cache(None)
def significant(cn):
    """keys of the flags and options which change, by themselves, what is expected for some operands"""
    c = gen.cmd_of(cn)
    def what(fl, ops):
        e = iomodel.expected(cn, fl, ops)
        return e and (e['operands'], e['in'], e['out'])
    return frozenset(g.key for g in c.groups if g.access or
                     any(what([(g, 'x')], ops) != what([], ops) for ops in iomodel.shapes(cn, [])))


def split(line):
    import shlex
    return shlex.split(line)     # only used on texts produced by words.line_of, which C01 checks against real shells


def model_and_actual(line):
    ws = split(line)
    flags, ops = spec.classify(ws[0], ws[1:])
    exp = iomodel.expected(ws[0], flags, ops)
    inv = api.parse(line)
    info, cio = api.applied(inv)
    return flags, ops, exp, None if info is None else api.view_io(cio)


def typed(view):
    """access (or 'ARG'/None) per flag/option and per operand"""
    fl = [None if f[0] == 'flag' else 'ARG' if f[2][0] == 'arg' else f[2][2] for f in view['flags']]
    return fl, ['ARG' if o[0] == 'arg' else o[2] for o in view['operands']]


# ---- part b: real runs
def run_operands(rng, cmd, keys):
    """operands with which the run reads and writes things inside the scratch directory"""
    F = ['f1', 'f2', 'f3', 'd/g', 'a b']
    k = rng.choice([0, 1, 1, 2, 2, 3])
    fs = rng.sample(F, k)
    if fs and rng.random() < .25:
        fs[rng.randrange(len(fs))] = '-'
    if cmd == 'grep':
        pre = [] if {'-e', '-f'} & set(keys) else [rng.choice(['o', '^b', 'a', 'f1', 'zz'])]
        if fs and {'-r', '-R', '-d'} & set(keys) and rng.random() < .5:
            fs[0] = 'd'
        return pre + fs
    if cmd == 'sed':
        return ([] if {'-e', '-f'} & set(keys) else [rng.choice(['s/o/0/', 'p', '/b/d', 's/a/X/g', 'f2', 'p;p', '1d'])]) + fs
    if cmd == 'awk':
        return ([] if '-f' in keys else [rng.choice(['{print $1}', '/o/', 'NR==1', '{print FILENAME, NF}'])]) + fs
    if cmd in ('comm', 'diff'):
        pool = F[:4] + ['-']
        two = rng.sample(pool, 2)
        if cmd == 'diff' and rng.random() < .1:
            return ['d', 'tmpd']
        if cmd == 'diff' and {'--from-file', '--to-file'} & set(keys):
            return [rng.choice(['f1', 'f2', 'd/g'])]
        return two if rng.random() < .95 else fs
    if cmd == 'uniq':
        r = rng.random()
        return fs[:1] if r < .5 else [rng.choice(['f1', 'f2', '-']), rng.choice(['out1', 'f3', '-'])] if r < .9 else []
    if cmd == 'tr':
        return gen.operands(rng, 'tr', keys)
    if cmd == 'seq':
        return rng.choice([['3'], ['1', '4'], ['1', '2', '9']])
    if cmd == 'xargs':
        return rng.choice([[], ['echo'], ['echo', 'f1']])
    if cmd == 'mv':
        if '-t' in keys:
            return rng.sample(['f1', 'f2', 'a b'], rng.choice([1, 2]))
        return rng.choice([['f1', 'f2'], ['f1', 'new'], ['f1', 'd'], ['f1', 'f2', 'd'], ['d', 'tmpd'], ['d', 'newd'], ['d/g', 'f1'],
                           ['f1', 'd/g'], ['d/g', 'd/h', 'tmpd'], ['f1', 'd/'], ['a b', 'f1'], ['f1', 'f2', 'f3'], ['f1', './d'], ['f1']])
    if cmd == 'rm':
        return rng.choice([['f1'], ['f1', 'f2'], ['d'], ['d/g'], ['tmpd'], ['nope'], ['f1', 'd', 'tmpd'], ['a b'], []])
    if cmd == 'mkfifo':
        return rng.choice([['p1'], ['p1', 'd/p2'], ['f1'], ['new p']])
    if cmd == 'tee':
        return rng.choice([[], ['out1'], ['out1', 'f1'], ['f3', 'd/new', 'f1'], ['d/g']])
    return fs


def run_cases(ctx, per_single, per_pair, n_random, tools=TOOLS, weights=None):
    rng = ctx.rng('run')
    for cn in tools:
        no = norun(cn)
        for fl in gen.pairs(cn, exclude=no):
            k = per_single if len(fl) < 2 else (1 if rng.random() < per_pair else 0)
            if cn in ('awk', 'tee', 'uniq', 'comm', 'head', 'tail', 'wc', 'seq', 'tr', 'mkfifo') and len(fl) == 2:
                k = max(k, int(per_pair * 2) or (1 if rng.random() < per_pair * 2 else 0))
            if not fl:
                k *= 4
            for _ in range(k):
                yield run_case(rng, cn, fl)
    for _ in range(n_random):
        cn = rng.choice(weights or tools)
        fl = gen.rand_flags(rng, cn, 4, exclude=norun(cn))
        yield run_case(rng, cn, fl)


def run_case(rng, cn, fl):
    if cn == 'cut' and not {'-b', '-c', '-f'} & {k for k, _ in fl}:
        fl = fl + [rng.choice([('-f', '1'), ('-c', '2-3'), ('-b', '1')])]
    keys = [k for k, _ in fl]
    if cn == 'tr':
        keys2 = keys
        ops = gen.operands(rng, 'tr', keys2)
    else:
        ops = run_operands(rng, cn, keys)
    fl = [(k, '-' if cn in ('grep', 'sort', 'awk') and k in ('-f', '--files0-from') and rng.random() < .08 else a) for k, a in fl]
    w = gen.spell(rng, cn, fl, ops, 'short' if cn == 'awk' else None)     # mawk knows the short ones
    return ['run', words.line_of(rng, w)]


def observe(line):
    """(flags, operands, view or None, run result or None)"""
    ws = split(line)
    flags, ops = spec.classify(ws[0], ws[1:])
    inv = api.parse(line)
    info, cio = api.applied(inv)
    if info is None:
        return flags, ops, None, None
    with real.Scratch() as s:
        r = real.run(s, ws)
    return flags, ops, api.view_io(cio), r


def declared(view):
    """[(kind, name, access)] of everything declared"""
    out = [f[2] for f in view['flags'] if f[0] == 'option' and f[2][0] in ('file', 'std')]
    out += [o for o in view['operands'] if o[0] in ('file', 'std')]
    out += [x for x in (view['in'], view['out']) if x]
    return out


def norm(p):
    return os.path.normpath(p) if p else p


def summary(r):
    return f'rc={r.rc} read={sorted(r.read)} changed={sorted(r.touched)} stdin_used={r.stdin_used} stdout={len(r.out)} bytes, {r.err[:80]!r}'
