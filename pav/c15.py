"""C15: substituting stream variables follows the traversal order exactly."""
import random
from . import api, lower
from pash_annotations.annotation_generation.datatypes.parallelizability.Mapper import Mapper
from pash_annotations.annotation_generation.datatypes.parallelizability.Aggregator import Aggregator
from pash_annotations.annotation_generation.datatypes.parallelizability.AggregatorKind import AggregatorKindEnum
from pash_annotations.datatypes import AccessKind as AK

RULE = ('random invocations over stream variables (flags, options with plain or variable arguments, operands, implicit input and output; every '
        'access kind; unrelated entries in the access map) and random histories of 1-8 operations on them, compared after every operation '
        'with a list model. Non-trivial: the history changed the invocation; counted by distinct (invocation, history)')
ASSUMPTIONS = ['the variables of an invocation are distinct; variables substituted in are new or the ones they replace']
KIND_NAMES = ['CONFIG_INPUT', 'STREAM_INPUT', 'CONTAINER_FOR_INPUT', 'EXCLUDES_FROM_INPUT', 'OTHER_INPUT', 'STREAM_OUTPUT', 'OTHER_OUTPUT']
OPS = ['subst_in', 'subst_in', 'subst_out', 'subst_out', 'subst_both', 'replace', 'replace', 'remove_in', 'remove_out', 'read', 'wrong_in', 'wrong_out',
       'replace_absent', 'cat']
REQUIRED = ['oracle_decisions', 'refused', 'mixed_streams', 'option_vars', 'unrelated_entries'] + ['op_' + o for o in OPS] + ['access_' + k for k in KIND_NAMES]
BATCH = 300


def cases(ctx):
    rng = ctx.rng()
    for _ in range(ctx.n(60000, 3000000)):
        yield ['history', rng.randrange(1 << 40)]


MAKE = {'CONFIG_INPUT': 'make_config_input', 'STREAM_INPUT': 'make_stream_input', 'CONTAINER_FOR_INPUT': 'make_container_for_input',
        'EXCLUDES_FROM_INPUT': 'make_excludes_from_input', 'OTHER_INPUT': 'make_other_input', 'STREAM_OUTPUT': 'make_stream_output',
        'OTHER_OUTPUT': 'make_other_output'}


def access(name):
    f = getattr(AK, MAKE[name], None)
    return f() if f else AK.AccessKind(getattr(AK.AccessKindEnum, name))


class Gen:
    def __init__(self, rng):
        self.rng, self.used = rng, set()

    def var(self):
        while True:
            n = self.rng.choice([self.rng.randint(0, 12), self.rng.randint(0, 10 ** 6)])
            if n not in self.used:
                self.used.add(n)
                return n


def same(n):
    """an equal number, not the same object"""
    return n if n is None else int(str(n))


def make(rng, g):
    """(invocation, model)"""
    acc = {}
    kinds = rng.choice([KIND_NAMES, ['STREAM_INPUT', 'STREAM_OUTPUT'], ['STREAM_INPUT'], ['STREAM_INPUT', 'STREAM_OUTPUT', 'OTHER_OUTPUT', 'CONFIG_INPUT']])

    def var(ks=None):
        n = g.var()
        acc[n] = rng.choice(ks or kinds)
        return ('var', n)
    fl = []
    for _ in range(rng.randint(0, 4) if rng.random() < .97 else rng.randint(5, 16)):
        r = rng.random()
        fl.append(('flag', rng.choice(['-a', '-b', '--long'])) if r < .4 else
                  ('option', rng.choice(['-f', '-o', '--opt']), ('arg', rng.choice(['x', '1', '-', '3'])) if r < .6 else var()))
    ops = [var() if rng.random() < .75 else ('arg', rng.choice(['x', '5', '-'])) for _ in range(rng.randint(0, 5) if rng.random() < .97 else rng.randint(6, 16))]
    i = var(['STREAM_INPUT'] * 4 + kinds)[1] if rng.random() < .5 else None
    o = var(['STREAM_OUTPUT'] * 4 + kinds)[1] if rng.random() < .6 else None
    for _ in range(rng.choice([0, 0, 1, 2])):
        acc[g.var()] = rng.choice(KIND_NAMES)       # entries of variables that do not occur
    model = {'cmd': rng.choice(['sort', 'x']), 'flags': fl, 'operands': ops, 'in': i, 'out': o, 'access': acc}
    W = lambda w: api.ArgStringType(w[1]) if w[0] == 'arg' else same(w[1])
    objs = ([api.Flag(f[1]) if f[0] == 'flag' else api.OptionWithIOVar(f[1], W(f[2])) for f in fl], [W(w) for w in ops], i, o,
            {k: access(a) for k, a in acc.items()})
    r = rng.random()
    if r < .6:
        c = api.CommandInvocationWithIOVars(model['cmd'], *objs)
    elif r < .8:
        c = Mapper(model['cmd'], *objs)
    else:
        c = Aggregator(rng.choice(list(AggregatorKindEnum)), model['cmd'], *objs)
    return c, model


def rename(m, f, t):
    w = lambda x: ('var', t) if x == ('var', f) else x
    return {**m, 'flags': [x if x[0] == 'flag' else (x[0], x[1], w(x[2])) for x in m['flags']], 'operands': [w(x) for x in m['operands']],
            'in': t if m['in'] == f and f is not None else m['in'], 'out': t if m['out'] == f and f is not None else m['out'],
            'access': {(t if k == f else k): a for k, a in m['access'].items()}}


def drop(m, vs):
    gone = lambda x: x[0] == 'var' and x[1] in vs
    return {**m, 'flags': [x for x in m['flags'] if x[0] == 'flag' or not gone(x[2])], 'operands': [x for x in m['operands'] if not gone(x)],
            'in': None if m['in'] in vs else m['in'], 'out': None if m['out'] in vs else m['out'],
            'access': {k: a for k, a in m['access'].items() if k not in vs}}


def evaluate(case, mon):
    rng = random.Random(case[1])
    g = Gen(rng)
    c, m = make(rng, g)
    first = m
    for a in m['access'].values():
        mon.count('access_' + a)
    mon.count('unrelated_entries', len(m['access']) - len(lower.occurring(m)))
    mon.count('option_vars', sum(x[0] == 'option' and x[2][0] == 'var' for x in m['flags']))
    hist = []
    if not compare(mon, c, m, first, hist):
        return
    for _ in range(rng.randint(1, 8)):
        op = rng.choice(OPS)
        ins, outs = lower.streams(m, 'STREAM_INPUT'), lower.streams(m, 'STREAM_OUTPUT')
        new = lambda old: [x if rng.random() < .15 else g.var() for x in old]
        refuse = False
        hist.append(op)
        if ins and outs and len(ins) + len(outs) > 2:
            mon.count('mixed_streams')
        if op in ('subst_in', 'subst_out', 'subst_both'):
            ni, no = new(ins), new(outs)
            hist[-1] = (op, list(ni), list(no))
            if op == 'subst_in':
                call = lambda: c.substitute_inputs_in_cmd_invocation(list(ni))
            elif op == 'subst_out':
                call = lambda: c.substitute_outputs_in_cmd_invocation(list(no))
            else:
                call = lambda: c.substitute_inputs_and_outputs_in_cmd_invocation(list(ni), list(no))
            if op != 'subst_out':
                for f, t in zip(ins, ni):
                    m = rename(m, f, t)
            if op != 'subst_in':
                for f, t in zip(outs, no):
                    m = rename(m, f, t)
        elif op in ('wrong_in', 'wrong_out'):
            old = ins if op == 'wrong_in' else outs
            n = max(0, len(old) + rng.choice([-2, -1, 1, 2]))
            if n == len(old):
                n += 1
            l = [g.var() for _ in range(n)]
            hist[-1] = (op, list(l))
            refuse = True
            call = lambda: (c.substitute_inputs_in_cmd_invocation if op == 'wrong_in' else c.substitute_outputs_in_cmd_invocation)(l)
        elif op == 'replace':
            occ = lower.occurring(m)
            if not occ:
                continue
            f, t = rng.choice(occ), g.var()
            if rng.random() < .1:
                t = f
            hist[-1] = (op, f, t)
            call = lambda: c.replace_var(same(f), same(t))
            m = rename(m, f, t)
        elif op == 'replace_absent':
            f, t = g.var(), g.var()
            if rng.random() < .3:
                f = next(iter(set(m['access']) - set(lower.occurring(m))), f)     # has an access but does not occur
                if f in m['access']:
                    continue
            hist[-1] = (op, f, t)
            call = lambda: c.replace_var(f, t)
        elif op == 'remove_in':
            call = lambda: c.remove_streaming_inputs()
            m = drop(m, set(ins))
        elif op == 'remove_out':
            call = lambda: c.remove_streaming_outputs()
            m = drop(m, set(outs))
        elif op == 'cat':
            cat(mon, rng, g)
            continue
        else:
            call = lambda: None
        mon.count('op_' + op)
        try:
            call()
            err = None
        except Exception as e:
            err = e
        if refuse:
            mon.count('refused')
            mon.check(err is not None, lambda: f'accepted: {show(first, hist)}')
            return
        if not mon.check(err is None, lambda: f'refused: {show(first, hist)}: {err!r}'):
            return
        if not compare(mon, c, m, first, hist):
            return
    if m != first:
        mon.nontrivial((case[1],))
        mon.sample({'invocation': repr(first)[:400], 'history': repr(hist)[:400]})


def show(first, hist):
    return f'{first} after {hist}'


def compare(mon, c, m, first, hist):
    v = lower.view(c)
    ok = True
    for f in ('cmd', 'flags', 'operands', 'in', 'out', 'access'):
        ok = mon.check(v[f] == m[f], lambda: f'{f}: {v[f]!r}, expected {m[f]!r}: {show(first, hist)}') and ok
    i = c.generate_inputs()
    ok = mon.check(list(i.get_streaming_inputs()) == lower.streams(m, 'STREAM_INPUT') and list(i.get_config_inputs()) == [] and
                   list(i.get_all_inputs()) == lower.streams(m, 'STREAM_INPUT'),
                   lambda: f'generated inputs: {i.get_all_inputs()}: {show(first, hist)}') and ok
    o = c.generate_outputs()
    want = [x for x in lower.occurring(m) if m['access'][x] in ('STREAM_OUTPUT', 'OTHER_OUTPUT')]
    ok = mon.check(list(o) == want, lambda: f'generated outputs: {o}, expected {want}: {show(first, hist)}') and ok
    other = any(m['access'][x] == 'OTHER_OUTPUT' for x in lower.occurring(m))
    ok = mon.check(bool(c.has_other_outputs()) == other, lambda: f'has_other_outputs: {not other}: {show(first, hist)}') and ok
    ok = mon.check(lower.view(c) == v, lambda: f'reading changed it: {show(first, hist)}') and ok
    return ok


def cat(mon, rng, g):
    mon.count('op_cat')
    ins, out = [g.var() for _ in range(rng.randint(0, 5))], g.var()
    given = list(ins)
    v = lower.view(api.CommandInvocationWithIOVars.make_cat_command_invocation_with_io_vars(given, out))
    want = {'cmd': 'cat', 'flags': [], 'operands': [('var', x) for x in ins], 'in': None, 'out': out,
            'access': {**{x: 'STREAM_INPUT' for x in ins}, out: 'STREAM_OUTPUT'}}
    mon.check(v == want and given == ins, lambda: f'cat: {v}, expected {want}')
