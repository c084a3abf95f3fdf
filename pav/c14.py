"""C14: parallelism of line-wise and mergeable commands is offered."""
from . import api, gen, iomodel, partable, parcheck as pc, spec, words

RULE = ('every parallelizable command x flags/options (none, singles, pairs, random lists, all spellings) x operand shapes; the offered '
        'parallelizers (and whether their mapper and aggregator can be built) are compared with the reference table of what must be offered. '
        'Non-trivial: the table requires a parallelizer; counted by distinct (command, keys of flags and options, operands)')
ASSUMPTIONS = ['only what must be offered is checked here; C09 and C10 check that what is offered is right']
REQUIRED = ['oracle_decisions', 'required', 'nothing_required', 'commutative'] + ['req_' + c for c in pc.CMDS if c != 'uniq']
BATCH = 60


def cases(ctx):
    rng = ctx.rng()
    for cmd in pc.CMDS:
        few = len(gen.cmd_of(cmd).groups) < 12
        for fl in gen.pairs(cmd):
            for _ in range(ctx.n(12, 40) if len(fl) < 2 else ctx.n(2, 8) * (4 if few else 1)):
                yield case(rng, cmd, fl)
    for x in pc.scans(ctx, 0, ctx.n(1, 6)):
        for cmd, fl in pc.listed(rng, x[2:]):
            yield case(rng, cmd, fl)
    for _ in range(ctx.n(20000, 600000)):
        cmd = rng.choice(['grep', 'cut', 'tr', 'tr', 'sed', 'sort', 'sort', 'xargs', 'custom_sort', 'custom_tr'])
        yield case(rng, cmd, gen.rand_flags(rng, cmd, 5))


def case(rng, cmd, fl):
    if 'sort' in cmd and rng.random() < .2:
        fl = [(k, rng.choice(['random', 'r', 'numeric', 'n', 'month', 'version', 'general-numeric']) if k == '--sort' else
               rng.choice(['1R', '2,2Rn', '1,3', '1.2n', '2fd,2', '1Mr', '1R,1', '2Rn,3', '1,1R', '1,1']) if k == '-k' else a) for k, a in fl]
    if cmd == 'sort' and rng.random() < .05:
        fl = pc.rand_keys(rng) + fl[:1]
    if cmd == 'xargs' and rng.random() < .5:
        fl = [(k, rng.choice(['\\n', '\n', ',', ';', '\\0', '\\t', ' ']) if k == '--delimiter' else a) for k, a in fl]
    if cmd == 'sed' and rng.random() < .7:
        fl = [(k, rng.choice(pc.SED_LINEWISE) if k == '-e' else a) for k, a in fl]
    keys = [k for k, _ in fl]
    if rng.random() < .6:
        ops = pc.operands(rng, cmd, keys)
    elif cmd == 'tr':
        ops = [pc.rand_set(rng) if rng.random() < .4 else rng.choice(gen.TR_SETS + ['[:space:]', '[:cntrl:]', 'A-Za-z', '\\012', '\n', 'a\\n', '\\t ', '0-9', '[:alnum:]', ',.'])
               for _ in range(rng.randint(1, 2))]
    else:
        ops = gen.operands(rng, cmd, keys)
    if cmd in pc.BUILT and rng.random() < .7:
        like = pc.BUILT[cmd]
        fl = case(rng, like, gen.rand_flags(rng, like, rng.choice([1, 2, 3])))[2]
        ops = pc.operands(rng, like, [k for k, _ in fl])
        return ['par', cmd, fl, ops, words.line_of(rng, ['built:' + cmd] + gen.spell(rng, like, fl, ops)[1:])]
    return ['par', cmd, fl, ops, words.line_of(rng, gen.spell(rng, cmd, fl, ops))]


def evaluate(case, mon):
    _, cmd, fl, ops, line = case
    fl = [tuple(x) for x in fl]
    req, comm = partable.required(cmd, fl, ops)
    if not req:
        mon.count('nothing_required')
        return
    par = api.par_info(pc.inv_of(line))
    if not mon.check(par is not None, f'no parallelizability information: {line!r}'):
        return
    mon.count('required')
    mon.count('req_' + cmd)
    mon.nontrivial((cmd, fl, ops))
    lst, _, is_comm = par.unpack_info()
    have = [partable.kind(p) for p in lst if p.are_all_parts_implemented()]
    for r in req:
        mon.check(r in have, lambda: f'not offered {r}: {line!r} gets {have}')
    if comm:
        mon.count('commutative')
        mon.check(bool(is_comm), lambda: f'not commutative: {line!r}')
        mon.check(('unwrap', '2ary', 0) in have, lambda: f'no round robin with unwrap: {line!r} gets {have}')
    mon.sample({'line': line, 'offered': have})
