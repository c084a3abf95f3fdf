"""C20: commands added as documented are annotated exactly as their data and generators say."""
import json, os, random, re, shutil, subprocess, sys
from . import c01, c12, core, gen, purity, spec, words
from .c04 import model_op, OPS
from .core import Inconclusive

RULE = ('random new commands: option data of random flags, options, aliases and argument types, and generators that are random programs over '
        'the helpers and operations of the generator interfaces (conditions on flags, option arguments and operands; nesting; refusals), with some '
        'of the parts missing; they are written into a copy of the package as docs/adding-annotations.md says, and a new process annotates command '
        'lines in random spellings there; the answers are compared with an interpretation of the program over the reference classification of the '
        'words. Non-trivial: a line of an added command was annotated; counted by distinct (command, line)')
ASSUMPTIONS = ['added command names can be part of file names', 'operations on the first or last operand are only used if there is one',
               'the *_streaming_input operations are only used as statements about fresh information',
               'long and short spellings of different flags do not overlap']
REQUIRED = ['oracle_decisions', 'commands_added', 'lines_annotated', 'refused_by_generator', 'no_generator', 'no_data', 'shared_generators',
            'operands_typed', 'option_files', 'parallelizers', 'commutative', 'old_lines', 'copies', 'branches_taken', 'branches_not_taken']
BATCH = 1
ACCESS = ['CONFIG_INPUT', 'STREAM_INPUT', 'CONTAINER_FOR_INPUT', 'EXCLUDES_FROM_INPUT', 'OTHER_INPUT', 'STREAM_OUTPUT', 'OTHER_OUTPUT']
OPERANDS = ['f1', 'f2', '-', 'a b', 'd/g', '', 's/a/b/', 'x', '-x', "it's", 'out=1', 'x', 'fx']
TEXTS = ['x', 'f', '-', 's/', 'a b', 'F1', '', 'd/', './', ' x', 'f ', '\t']
APPENDERS = {'if_seq_conc': ('indiv', 'concat'), 'if_seq_adjm': ('indiv', 'adjm'), 'cc_seq_conc': ('consec', 'concat'), 'cc_seq_adjm': ('consec', 'adjm'),
             'rr_seq_conc': ('rr', 'concat'), 'rr_seq_adjm': ('rr', 'adjm'), 'rr_seq_adjs': ('rr', 'adjs'), 'cc_seq_adjs': ('consec', 'adjs'),
             'rr_seq_adjf': ('rr', 'adjf'), 'cc_seq_adjf': ('consec', 'adjf')}
FRESH = ['all_operands_are_streaming_inputs', 'all_but_last_operand_is_streaming_input', 'all_but_first_operand_is_streaming_input']
TOUCHING = [o for o in OPS if o not in FRESH]
ENTRY = re.compile(r'''(["'])grep\1\s*:\s*(["'])Grep\2''')
DICT = re.compile(r'\bDICT_CMD_NAME_TO_REPRESENTATION_IN_MODULE_NAMES\b[^=\n]*=\s*\{')


def cases(ctx):
    rng = ctx.rng()
    for _ in range(ctx.n(220, 4000)):
        yield ['plug', rng.randrange(1 << 40)]


# ---- random commands
def rand_data(r):
    letters = list('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789')
    r.shuffle(letters)
    longs = ['--' + a + b for a in ('all', 'no-', 'out', 'in', 'x') for b in ('', 'put', 'file', 'dir', '-of', '0', 's')]
    r.shuffle(longs)
    groups = []
    for _ in range(r.randint(0, 7)):
        names = ['-' + letters.pop() for _ in range(r.choice([0, 1, 1, 1, 2]))]
        names += [longs.pop() for _ in range(r.choice([0, 1, 1, 2]) if names else r.choice([1, 1, 2]))]
        if r.random() < .15:
            r.shuffle(names)
        groups.append(names)
    k = r.randint(0, len(groups))
    opts = []
    for names in groups[k:]:
        x = r.random()
        arg = r.choice(['NUM', 'STRING', 'LIST', 'GLOB']) if x < .3 else [r.choice(['STRING', 'NUM', 'GLOB']), r.choice(ACCESS)] if x < .45 else \
            [r.choice(['FILE', 'DIR', 'DIRECTORY']), r.choice(ACCESS)]
        opts.append([names, arg])
    return {'flag': groups[:k], 'option': opts}


def rand_cond(r, raw):
    flags = [g[0] for g in raw['flag']]
    opts = [g[0][0] for g in raw['option']]
    x = r.random()
    if x < .4 and flags + opts:
        return ['has', r.sample(flags + opts, min(len(flags + opts), r.choice([1, 1, 2, 3])))]
    if x < .5 and flags + opts:
        return ['count', r.sample(flags + opts, min(len(flags + opts), r.choice([1, 2]))), r.randint(0, 2)]
    if x < .62 and opts:
        return ['arg', r.choice(opts), r.choice(OPERANDS)]
    if x < .74:
        return ['nops', r.choice(['==', '<', '>=', '!=']), r.randint(0, 3)]
    if x < .93:
        return [r.choice(['starts', 'starts', 'contains', 'first']), r.choice(TEXTS)]
    return r.choice([['not', rand_cond(r, raw)], ['and', rand_cond(r, raw), rand_cond(r, raw)], ['or', rand_cond(r, raw), rand_cond(r, raw)]])


def rand_prog(r, raw, stmt, depth=0):
    out = []
    for _ in range(r.choice([1, 1, 2, 2, 3]) if depth == 0 else r.choice([1, 1, 2])):
        if depth < 2 and r.random() < .5:
            out.append(['if', rand_cond(r, raw), rand_prog(r, raw, stmt, depth + 1), rand_prog(r, raw, stmt, depth + 1) if r.random() < .5 else []])
        else:
            out.append(stmt(r, raw, depth))
    return out


def io_stmt(r, raw, depth):
    x = r.random()
    if x < .06 and depth:
        return ['raise']
    if x < .2:
        return ['stdin', r.choice(['', '', 'True', 'COND', 'auto']), rand_cond(r, raw)]
    if x < .4:
        return ['stdout', r.choice(['', '', 'True', 'COND']), rand_cond(r, raw)]
    return ['op', r.choice(TOUCHING)]


def par_stmt(r, raw, depth):
    x = r.random()
    if x < .06 and depth:
        return ['raise']
    if x < .18:
        return ['commutative']
    if x < .3:
        return ['make', r.choice(['indiv', 'rr', 'consec']), r.choice(['seq', 'custom', 'none']), r.choice(['concat', 'none']), r.randrange(3), r.randint(0, 2)]
    a = r.choice(list(APPENDERS))
    return ['append', a, r.choice(['fun', 'fun -a', 'PLACEHOLDER: x']), r.random() < .5]


def rand_command(r, j):
    name = r.choice(['zz', 'my-tool', 'x_y', 'tool.v2', 'Zed', 'g++', '7zip', 'gsort', 'catt', 'a']) + r.choice(['', '', str(j)]) + 'qvwxyz'[j % 6]
    raw = rand_data(r)
    fresh = [['op', r.choice(FRESH)]] if r.random() < .3 else []
    return {'name': name, 'rep': r.choice(['Zz', 'X_', 'MyTool', 'Sorted', 'Cat']) + 'Plug' + str(j), 'raw': raw, 'json': r.random() < .92, 'entry': r.random() < .93,
            'io': fresh + rand_prog(r, raw, io_stmt) if r.random() < .93 else None, 'par': rand_prog(r, raw, par_stmt) if r.random() < .8 else None}


# ---- as Python text
def cond_text(c):
    k = c[0]
    if k == 'has':
        return f'self.does_flag_option_list_contain_at_least_one_of({c[1]!r})'
    if k == 'count':
        return f'len(self.get_flag_option_list_filtered_with({c[1]!r})) > {c[2]}'
    if k == 'arg':
        return f'any(str(option.get_arg()) == {c[2]!r} for option in self.get_flag_option_list_filtered_with([{c[1]!r}]))'
    if k == 'nops':
        return f'self.get_operand_list_length() {c[1]} {c[2]}'
    if k in ('starts', 'contains', 'first'):
        f = {'starts': f'does_first_operand_start_with({c[1]!r})', 'contains': f'does_first_operand_contain({c[1]!r})',
             'first': f'get_first_operand_name_as_string() == {c[1]!r}'}[k]
        return f'(self.get_operand_list_length() > 0 and self.{f})'
    if k == 'not':
        return f'(not {cond_text(c[1])})'
    return f'({cond_text(c[1])} {k} {cond_text(c[2])})'


def text_of(prog, ind):
    out = []
    for s in prog or [['pass']]:
        k = s[0]
        if k == 'if':
            out.append(f'{ind}if {cond_text(s[1])}:\n' + text_of(s[2], ind + '    ') + (f'{ind}else:\n' + text_of(s[3], ind + '    ') if s[3] else ''))
            continue
        if k == 'op':
            line = f'self.{s[1]}()'
            if s[1] in ('only_last_operand_is_stream_output', 'only_last_operand_is_other_output') or 'first' in s[1] or 'but_last' in s[1]:
                line = f'if self.get_operand_list_length() > 0: {line}'
        elif k in ('stdin', 'stdout'):
            line = 'self.if_no_operands_given_stdin_implicitly_used()' if s[1] == 'auto' else \
                f'self.set_implicit_use_of_{k}({cond_text(s[2]) if s[1] == "COND" else s[1]})'
        elif k == 'append':
            line = f'self.append_to_parallelizer_list_{s[1]}(' + (f'{s[2]!r}, {s[3]!r}' if s[1].endswith('adjf') else '') + ')'
        elif k == 'make':
            mapper = {'seq': 'make_mapper_spec_seq()', 'custom': 'make_mapper_spec_custom("m", is_implemented=True)', 'none': 'None'}[s[2]]
            agg = {'concat': 'make_aggregator_spec_concatenate()', 'none': 'None'}[s[3]]
            make = {'indiv': 'indiv_files', 'rr': 'round_robin', 'consec': 'consec_chunks'}[s[1]]
            line = f'self.append_to_parallelizer_list(make_parallelizer_{make}({mapper}, {agg}, ([None] + list(AdditionalInfoSplitterToMapper))[{s[4]}], {s[5]}))'
        else:
            line = {'raise': "raise Exception('not supported')", 'commutative': 'self.set_commutative()', 'pass': 'pass'}[k]
        out.append(ind + line + '\n')
    return ''.join(out)


G = 'pash_annotations.annotation_generation.annotation_generators.'
D = 'pash_annotations.annotation_generation.datatypes.parallelizability.'
HEAD = {'io': f'from {G}InputOutputInfoGenerator_Interface import InputOutputInfoGeneratorInterface\n\n\n',
        'par': f'from {G}ParallelizabilityInfoGenerator_Interface import ParallelizabilityInfoGeneratorInterface\n'
               f'from {D}Parallelizer import *\nfrom {D}MapperSpec import *\nfrom {D}AggregatorSpec import *\n\n\n'}


def install(root, cmds):
    """the documented steps"""
    pkg = os.path.join(root, 'pash_annotations')
    shutil.copytree(os.path.join(core.REPO, 'pash_annotations'), pkg, ignore=shutil.ignore_patterns('__pycache__', 'old_annotations', 'tests'))
    entries = ''.join(f'\n    {c["name"]!r}: {c["rep"]!r},' for c in cmds if c['entry'])
    # in the documented place, or wherever the dictionary may have moved
    top = os.path.join(pkg, 'annotation_generation')
    files = [os.path.join(top, 'AnnotationGeneration.py')] + sorted(os.path.join(d, f) for d, _, fs in os.walk(pkg) for f in fs if f.endswith('.py') and 'config' not in d)
    for path in files:
        src = open(path).read() if os.path.exists(path) else ''
        m = DICT.search(src)
        if m:
            break
    else:
        for path in files:
            src = open(path).read() if os.path.exists(path) else ''
            m = ENTRY.search(src)
            if m:
                break
        else:
            raise Inconclusive('the documented dictionary was not found')
    at = m.end() if m.re is DICT else m.start()
    open(path, 'w').write(src[:at] + entries + ' ' + src[at:])
    for c in cmds:
        if c['json']:
            data = {'flag': c['raw']['flag'], 'option': [names + [arg] for names, arg in c['raw']['option']]}
            with open(os.path.join(pkg, 'parser/command_flag_option_info/data', c['name'] + '.json'), 'w') as f:
                json.dump(data, f)
        for kind, base in (('io', 'InputOutputInfoGenerator'), ('par', 'ParallelizabilityInfoGenerator')):
            if c.get('shares') is None and c[kind] is not None:
                with open(os.path.join(pkg, 'annotation_generation/annotation_generators', base + c['rep'] + '.py'), 'w') as f:
                    f.write(HEAD[kind] + f'class {base}{c["rep"]}({base}Interface):\n\n    def generate_info(self) -> None:\n' + text_of(c[kind], ' ' * 8))


# ---- what they mean
class Refused(Exception):
    pass


def holds(c, fl, ops):
    k = c[0]
    keys = [g for g, _ in fl]
    if k == 'has':
        return any(x in keys for x in c[1])
    if k == 'count':
        return sum(x in c[1] for x in keys) > c[2]
    if k == 'arg':
        return any(g == c[1] and a == c[2] for g, a in fl)
    if k == 'nops':
        return {'==': len(ops) == c[2], '<': len(ops) < c[2], '>=': len(ops) >= c[2], '!=': len(ops) != c[2]}[c[1]]
    if k in ('starts', 'contains', 'first'):
        return bool(ops) and {'starts': ops[0].startswith(c[1]), 'contains': c[1] in ops[0], 'first': ops[0] == c[1]}[k]
    if k == 'not':
        return not holds(c[1], fl, ops)
    return (all if k == 'and' else any)([holds(c[1], fl, ops), holds(c[2], fl, ops)])


def run(prog, fl, ops, state, mon):
    for s in prog:
        k = s[0]
        if k == 'if':
            t = holds(s[1], fl, ops)
            mon.count('branches_taken' if t else 'branches_not_taken')
            run(s[2] if t else s[3], fl, ops, state, mon)
        elif k == 'raise':
            raise Refused
        elif k == 'op':
            if ops:
                state['types'] = model_op(s[1], state['types'])
        elif k in ('stdin', 'stdout'):
            v = not ops if s[1] == 'auto' else holds(s[2], fl, ops) if s[1] == 'COND' else True
            state[k] = state[k] or v          # saying that it is not used says nothing new: it is the default
        elif k == 'append':
            sp, ag = APPENDERS[s[1]]
            state['par'].append([sp, ag, 'none', 0, 0, s[2], s[3]])
        elif k == 'make':
            state['par'].append([s[1], s[3], s[2], s[4], s[5], '', False])
        elif k == 'commutative':
            state['comm'] = True


def word(kind, text):
    if kind == 'ARG':
        return ['arg', text]
    return ['std', 'STDIN' if kind.endswith('INPUT') else 'STDOUT', kind] if text == '-' else ['file', text, kind]


def expected(c, ws, mon):
    """{'parse', 'io' or None, 'par' or None} for the words of a line"""
    cl, ops = spec.classify(c['name'], ws)
    fl = [(g.key, a) for g, a in cl]
    out = {'parse': [c['name'], [[k] if a is None else [k, a] for k, a in fl], ops], 'io': None, 'par': None}
    prog = c
    if c.get('shares') is not None:
        prog = c['shares']
    fresh = lambda: {'types': ['STREAM_INPUT'] * len(ops), 'stdin': False, 'stdout': False, 'par': [], 'comm': False}
    if c['entry'] and prog['io'] is not None:
        s = fresh()
        try:
            run(prog['io'], fl, ops, s, mon)
            flags = [['flag', g.key] if not g.is_option else ['option', g.key, word(g.access or 'ARG', a)] for g, a in cl]
            out['io'] = {'cmd': c['name'], 'flags': flags, 'operands': [word(t, o) for t, o in zip(s['types'], ops)],
                         'in': ['std', 'STDIN', 'STREAM_INPUT'] if s['stdin'] else None, 'out': ['std', 'STDOUT', 'STREAM_OUTPUT'] if s['stdout'] else None}
            out['other'] = 'OTHER_OUTPUT' in s['types'] or any(g.is_option and g.access == 'OTHER_OUTPUT' for g, _ in cl)
        except Refused:
            mon.count('refused_by_generator')
    if c['entry'] and prog['par'] is not None:
        s = fresh()
        try:
            run(prog['par'], fl, ops, s, mon)
            out['par'], out['comm'] = s['par'], s['comm']
        except Refused:
            mon.count('refused_by_generator')
    return out


def texts_in(x):
    """what the first operand is compared with"""
    if isinstance(x, list):
        if len(x) == 2 and x[0] in ('starts', 'contains', 'first'):
            yield x[1]
        else:
            for y in x:
                yield from texts_in(y)


def near(r, t):
    return r.choice([t, t + 'y', ' ' + t, '\t' + t + 'z', 'y' + t, t[:-1], t[1:], t.upper(), t.lower() + 'q', t.swapcase(), './' + t, t + ' ', t[::-1], '-' + t, t * 2,
                     "'" + t + "'", '"' + t])


def lines_for(r, c, n):
    cmd = spec.CMDS[c['name']]
    prog = c if c.get('shares') is None else c['shares']
    texts = list(texts_in([prog['io'], prog['par']]))
    for _ in range(n):
        if r.random() < .75:
            fl = gen.rand_flags(r, c['name'], 4)
            fl = [(k, a if a is None else r.choice(OPERANDS)) for k, a in fl]
            ops = [r.choice(OPERANDS) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4]))]
            if texts and ops and r.random() < .6:
                ops[0] = near(r, r.choice(texts))
            ws = gen.spell(r, c['name'], fl, ops)
        else:
            ws = [c['name']] + [c01.rand_word(r, cmd) for _ in range(r.randint(0, 5))]
        if all('\r' not in w for w in ws):
            yield ws


def evaluate(case, mon):
    r = random.Random(case[1])
    cmds = [rand_command(r, j) for j in range(5)]
    names = {c['name'] for c in cmds}
    if len(names) < len(cmds) or names & set(spec.CMDS):
        return
    if cmds[0]['io'] is not None and r.random() < .6:       # another name for the same generators
        cmds[1].update(shares=cmds[0], rep=cmds[0]['rep'], raw=cmds[0]['raw'])
        mon.count('shared_generators')
    root = os.path.join(os.environ['PAV_SCRATCH'], 'plug%d' % case[1])
    added = {}
    try:
        install(root, cmds)
        mon.count('copies')
        for c in cmds:
            added[c['name']] = spec.Cmd(c['name'], c['raw'] if c['json'] else {'flag': [], 'option': []})
        spec.CMDS.update(added)
        jobs = []
        for c in cmds:
            mon.count('commands_added')
            if not c['json']:
                mon.count('no_data')
            for ws in lines_for(r, c, 40):
                jobs.append((c, ws, words.line_of(r, ws), expected(c, ws[1:], mon)))
        old = [c12.line(r) for _ in range(12)]
        env = {'PATH': '/usr/bin:/bin', 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONUTF8': '1', 'PAV_REPO': root, 'PYTHONPATH': core.VERIF,
               'PYTHONHASHSEED': str(r.randrange(1 << 32))}
        p = subprocess.run([sys.executable, '-B', '-m', 'pav.plug'], input=json.dumps({'lines': [[l, e['par']] for _, _, l, e in jobs], 'old': old}).encode(),
                           env=env, cwd=root, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200)
    finally:
        for n in added:
            spec.CMDS.pop(n, None)
        shutil.rmtree(root, ignore_errors=True)
    if p.returncode:
        mon.fail('the package with added commands fails: ' + p.stderr.decode('utf-8', 'replace')[-600:])
        return
    got, got_old = json.loads(p.stdout)
    for (c, ws, l, e), g in zip(jobs, got):
        judge(mon, c, ws, l, e, g)
    for l, g in zip(old, got_old):
        mon.count('old_lines')
        mon.check(g == purity.digest(purity.answers(l)[0]), lambda: f'adding commands changes the answer for another one: {l!r}')
    mon.sample({'command': cmds[0]['name'], 'io generator': text_of(cmds[0]['io'] or [], '')[:400], 'line': jobs[0][2], 'answer': got[0]})


def judge(mon, c, ws, l, e, g):
    if 'raised' in g:
        mon.fail(f'raises for an added command: {l!r}: {g["raised"]}')
        return
    show = lambda: f'{l!r} (data {c["raw"] if c["json"] else None}, io {c["io"]}, par {c["par"]})'
    mon.check(g['parse'] == e['parse'], lambda: f'parsed as {g["parse"]} instead of {e["parse"]}: {show()}')
    mon.check(g['kept'], lambda: f'the invocation was changed: {show()}')
    mon.check(g.get('io') == e['io'], lambda: f'input-output information {g.get("io")} instead of {e["io"]}: {show()}')
    if e['io'] is None:
        mon.count('no_generator')
    elif 'io' in g:
        mon.check(g['other'] is e['other'], lambda: f'other outputs {g["other"]}: {show()}')
        mon.count('operands_typed', len(e['io']['operands']))
        mon.count('option_files', sum(f[0] == 'option' and f[2][0] != 'arg' for f in e['io']['flags']))
        mon.nontrivial((str(c), l))
        mon.count('lines_annotated')
    if e['par'] is None or 'par' not in g:
        mon.check(e['par'] is None and 'par' not in g, lambda: f'parallelizability information {g.get("par")} instead of {e["par"]}: {show()}')
        return
    ag = {'none': 'concat'}
    want = [[p[0] if p[0] != 'indiv' else '', ag.get(p[1], p[1]), p[4]] for p in e['par']]
    ok = mon.check(g['par'] == want, lambda: f'parallelizers {g["par"]} instead of {want}: {show()}')
    mon.check(not ok or all(g['same']), lambda: f'parallelizers are not those that were asked for ({g["same"]}): {show()}')
    mon.check(g['commutative'] is e['comm'], lambda: f'commutative {g["commutative"]}: {show()}')
    inf = [w[:2] for w in want] + [['unwrap', w[1]] for w in want if e['comm'] and w[0] == 'consec']
    mon.check(g['inferred'] == inf, lambda: f'inferred parallelizers {g["inferred"]} instead of {inf}: {show()}')
    mon.count('parallelizers', len(want))
    mon.count('commutative', e['comm'])
