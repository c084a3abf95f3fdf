"""C04: applying input-output information keeps the invocation intact."""
import itertools
from . import spec, gen, words, api, iomodel
from .core import dump
from pash_annotations.datatypes import AccessKind as AK
from pash_annotations.annotation_generation.datatypes.InputOutputInfo import InputOutputInfo
from pash_annotations.datatypes.BasicDatatypes import WhichClassForArg as W

RULE = ('every command x flags/options (none, singles, pairs, random lists) x operand shapes (including -, blanks, duplicates) is parsed, '
        'annotated and applied, and the result compared word by word with the parsed invocation; plus random sequences of the typing '
        'operations of InputOutputInfo against a list model. Non-trivial: information was provided and there is an operand or option '
        'argument; counted by distinct command line')
ASSUMPTIONS = ['access kinds are read through their predicates']
REQUIRED = ['oracle_decisions', 'applied', 'operands_checked', 'option_args_checked', 'std_descriptors', 'files', 'strings', 'other_outputs',
            'typer_ops']
BATCH = 60
KINDS = ['CONFIG_INPUT', 'STREAM_INPUT', 'CONTAINER_FOR_INPUT', 'EXCLUDES_FROM_INPUT', 'OTHER_INPUT', 'STREAM_OUTPUT', 'OTHER_OUTPUT']
NAMES = ['f1', '-', 'a b', 'd/g', '', "it's", 'STDIN', '--x', '-x', '\n', 'é', '/dev/null', '/dev/stdout', '/dev/stdin', 'stdout', 'StdDescriptorEnum.STDIN',
         ' -', '- ', '\t-', ' f1', 'f1 ', ' ', 'F1', '\u00a0-', './-', 'f1\n', '0']
OPS = ['all_operands_are_streaming_outputs', 'all_operands_are_other_inputs', 'all_operands_are_other_outputs',
       'all_operands_are_streaming_inputs', 'all_but_last_operand_is_streaming_input', 'all_but_first_operand_is_streaming_input',
       'all_but_last_operand_is_other_input', 'all_but_first_operand_is_streaming_output', 'all_but_first_operand_is_other_input',
       'only_last_operand_is_stream_output', 'only_last_operand_is_other_output', 'set_all_operands_as_config_arg_type_string',
       'set_first_operand_as_config_arg_type_string', 'set_first_operand_as_config_arg_type_filename_or_std_descriptor',
       'set_all_operands_as_arg_string']


def model_op(op, l):
    """the typing operations; streaming input is what operands are until they are said to be something else"""
    n = len(l)
    if op == 'all_operands_are_streaming_outputs':
        return ['STREAM_OUTPUT'] * n
    if op == 'all_operands_are_other_inputs':
        return ['OTHER_INPUT'] * n
    if op == 'all_operands_are_other_outputs':
        return ['OTHER_OUTPUT'] * n
    if op in ('set_all_operands_as_config_arg_type_string', 'set_all_operands_as_arg_string'):
        return ['ARG'] * n
    if op == 'all_but_last_operand_is_other_input':
        return ['OTHER_INPUT'] * (n - 1) + l[-1:]
    if op == 'all_but_first_operand_is_streaming_output':
        return l[:1] + ['STREAM_OUTPUT'] * (n - 1)
    if op == 'all_but_first_operand_is_other_input':
        return l[:1] + ['OTHER_INPUT'] * (n - 1)
    if op == 'only_last_operand_is_stream_output':
        return l[:-1] + ['STREAM_OUTPUT']
    if op == 'only_last_operand_is_other_output':
        return l[:-1] + ['OTHER_OUTPUT']
    if op == 'set_first_operand_as_config_arg_type_string':
        return ['ARG'] + l[1:]
    if op == 'set_first_operand_as_config_arg_type_filename_or_std_descriptor':
        return ['CONFIG_INPUT'] + l[1:]
    return l


# operations which say everything about the operands or change what was said before in a defined way; the *_streaming_input ones
# are defined on fresh information only
def cases(ctx):
    rng = ctx.rng()
    yield ['kinds']
    cmds = spec.ANNOTATED_IO
    for cn in cmds:
        for fl in gen.pairs(cn):
            keys = [k for k, _ in fl]
            sh = iomodel.shapes(cn, keys)
            few = ctx.thorough or len(fl) < 2
            for ops in (sh if few else rng.sample(sh, 3)):
                w = gen.canonical_words(cn, fl, ops)
                yield ['inv', words.line_of(rng, w)]
    for _ in range(ctx.n(12000, 300000)):
        cn = rng.choice(cmds)
        fl = gen.rand_flags(rng, cn, 5)
        fl = [(k, a if a is None or rng.random() < .7 else rng.choice(NAMES)) for k, a in fl]
        ops = gen.operands(rng, cn, [k for k, _ in fl])
        ops = [o if rng.random() < .6 else rng.choice(NAMES) for o in ops]
        yield ['inv', words.line_of(rng, gen.canonical_words(cn, fl, ops))]
    for _ in range(ctx.n(4000, 60000)):
        n = rng.randint(0, 5)
        names = [rng.choice(NAMES) for _ in range(n)]
        avail = [o for o in OPS if n or ('all_operands' in o)]
        seq = [rng.choice(avail) for _ in range(rng.randint(0, 5))]
        fo = [[rng.choice(['-a', '--long']), None, None] if rng.random() < .4 else
              ['-o', rng.choice(NAMES), rng.choice(KINDS + ['ARG', 'ARG'])] for _ in range(rng.randint(0, 4))]
        yield ['typer', fo, names, seq]


def check_word(mon, where, text, got):
    """text: the word of the invocation; got: describe()d result"""
    if got[0] == 'arg':
        mon.count('strings')
        mon.check(got[1] == text, lambda: f'{where}: word changed: {text!r} became string {got[1]!r}')
    elif got[0] == 'file':
        mon.count('files')
        if mon.check(got[2] is not None, lambda: f'{where}: {text!r} does not have exactly one kind of access'):
            mon.check(got[1] == text and text != '-', lambda: f'{where}: word changed: {text!r} became file {got[1]!r}')
    elif got[0] == 'std':
        mon.count('std_descriptors')
        if mon.check(got[2] is not None, lambda: f'{where}: {text!r} does not have exactly one kind of access'):
            want = 'STDIN' if got[2].endswith('INPUT') else 'STDOUT'
            mon.check(text == '-' and got[1] == want, lambda: f'{where}: {text!r} with access {got[2]} became {got[1]}')
    else:
        mon.fail(f'{where}: {text!r} became {got!r}')


def check_applied(mon, line, cmd, fl, ops, info, cio):
    v = api.view_io(cio)
    mon.check(v['cmd'] == cmd, lambda: f'command name: {line!r}: {v["cmd"]!r}')
    if mon.check(len(v['flags']) == len(fl), lambda: f'flags and options: {line!r}: {len(fl)} became {len(v["flags"])}: {v["flags"]}'):
        for f, g in zip(fl, v['flags']):
            mon.check(g[1] == f[0] and g[0] == ('flag' if len(f) == 1 else 'option'), lambda: f'flags and options: {line!r}: {f!r} became {g!r}')
            if g[0] == 'option' and len(f) == 2:
                mon.count('option_args_checked')
                check_word(mon, f'option argument: {line!r}', f[1], g[2])
    if mon.check(len(v['operands']) == len(ops), lambda: f'operands: {line!r}: {ops} became {v["operands"]}'):
        for o, g in zip(ops, v['operands']):
            mon.count('operands_checked')
            check_word(mon, f'operand: {line!r}', o, g)
    for imp, name, acc in ((v['in'], 'STDIN', 'STREAM_INPUT'), (v['out'], 'STDOUT', 'STREAM_OUTPUT')):
        mon.check(imp is None or imp == ('std', name, acc), lambda: f'implicit stream: {line!r}: {imp!r}')
    accs = [g[2][2] for g in v['flags'] if g[0] == 'option' and g[2][0] in ('file', 'std')] + [o[2] for o in v['operands'] if len(o) > 2]
    other = 'OTHER_OUTPUT' in accs
    mon.count('other_outputs', int(other))
    mon.check(info.has_other_outputs() == other, lambda: f'has_other_outputs: {line!r} says {info.has_other_outputs()} but accesses are {accs}')
    for meth, acc in (('get_operands_with_config_input', 'CONFIG_INPUT'), ('get_operands_with_stream_input', 'STREAM_INPUT'),
                      ('get_operands_with_other_input', 'OTHER_INPUT'), ('get_operands_with_stream_output', 'STREAM_OUTPUT'),
                      ('get_operands_with_other_output', 'OTHER_OUTPUT')):
        want = [o for o in v['operands'] if (len(o) > 2 and o[2] == acc) or (o[0] == 'arg' and acc == 'CONFIG_INPUT')]
        got = [api.describe(x) for x in getattr(cio, meth)()]
        mon.check(got == want, lambda: f'{meth}: {line!r}: {got} expected {want}')
    got = [(o.get_name(), api.describe(o.get_arg())) for o in cio.get_options_with_other_output()]
    want = [g[1:] for g in v['flags'] if g[0] == 'option' and len(g[2]) > 2 and g[2][2] == 'OTHER_OUTPUT']
    mon.check(got == want, lambda: f'get_options_with_other_output: {line!r}: {got} expected {want}')
    return v


def evaluate(case, mon):
    if case[0] == 'kinds':
        for k in KINDS:
            a = AK.get_access_from_string(k)
            mon.check(api.access_name(a) == k, lambda: f'access kind from string: {k} gives {api.access_name(a)}')
            b = getattr(AK, 'make_' + k.lower())()
            mon.check(api.access_name(b) == k, lambda: f'access kind factory: {k} gives {api.access_name(b)}')
            for x in (a, b):
                mon.check(bool(x.is_any_input()) == k.endswith('INPUT') and bool(x.is_any_output()) == k.endswith('OUTPUT'),
                          lambda: f'any input/output: {k}')
        for bad in ('', 'stream_input', 'INPUT', 'STREAM', 'OUTPUT'):
            try:
                AK.get_access_from_string(bad)
                mon.fail(f'unknown access kind accepted: {bad!r}')
            except Exception:
                mon.count('oracle_decisions')
        return
    if case[0] == 'typer':
        _, fo, names, seq = case
        typers, fl = [], []
        for n, a, k in fo:
            if k is None:
                fl.append(api.Flag(n))
                typers.append((W.PLAINSTRING, None))
            else:
                fl.append(api.Option(n, a))
                typers.append((W.ARGSTRING, None) if k == 'ARG' else (W.FILESTD, AK.get_access_from_string(k)))
        info = InputOutputInfo(typers, len(names))
        exp, fresh = ['STREAM_INPUT'] * len(names), True
        for op in seq:
            if op in ('all_operands_are_streaming_inputs', 'all_but_last_operand_is_streaming_input', 'all_but_first_operand_is_streaming_input') \
                    and not fresh:
                continue           # defined on fresh information only
            getattr(info, op)()
            new = model_op(op, exp)
            fresh = fresh and new == exp
            exp = new
            mon.count('typer_ops')
        inv = api.CommandInvocationInitial('tool', fl, [api.Operand(n) for n in names])
        cio = info.apply_input_output_info_to_command_invocation(inv)
        desc = f'operations {seq} on {fo} {names}'
        v = check_applied(mon, desc, 'tool', [(f[0],) if f[2] is None else (f[0], f[1]) for f in fo], names, info, cio)
        got = ['ARG' if o[0] == 'arg' else o[2] for o in v['operands']]
        mon.check(got == exp, lambda: f'operand typing: {desc}: {got} expected {exp}')
        gotf = ['ARG' if f[2][0] == 'arg' else f[2][2] for f in v['flags'] if f[0] == 'option']
        mon.check(gotf == [f[2] for f in fo if f[2] is not None], lambda: f'option argument typing: {desc}: {gotf}')
        mon.nontrivial(('typer', tuple(seq), len(names)))
        return
    line = case[1]
    inv = api.parse(line)
    info, cio = api.applied(inv)
    if info is None:
        mon.count('no_info')
        return
    cmd, fl, ops = api.view_inv(inv)
    mon.count('applied')
    v = check_applied(mon, line, cmd, fl, ops, info, cio)
    if ops or any(len(f) == 2 for f in fl):
        mon.nontrivial(line)
    if len(ops) > 1 and len(fl) > 1:
        mon.sample({'line': line, 'applied': repr(v)})
