"""Development tool: mutation testing of the checks. Makes small changes to the package in scratch copies, drops those the unit
tests notice, and runs the checks (cheapest first) on the rest until one reports a violation. Results: one JSON line per mutant.
usage: mutate.py OUT.jsonl [--sample N] [--seed S] [--only REGEX] [--jobs J]"""
import argparse, ast, contextlib, json, threading, os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
LOCK, HEAVY = threading.Lock(), 'C05 C06 C07 C09 C10 C12'.split()     # these use all cores, one at a time
REPO = '/tmp/mutrepo'   # a snapshot of /repo, so that /repo may change meanwhile
ORDER = 'C17 C13 C14 C16 C04 C02 C15 C01 C11 C19 C03 C08 C18 C12 C20 C21 C22 C23 C10 C09 C07 C05 C06'.split()
BY_FILE = [('json$', 'C03 C02 C14 C01 C08 C04 C09 C05 C06 C07'), ('Interface', 'C08 C04 C14 C20 C13 C07 C05 C06'), ('InputOutputInfoGenerator', 'C08 C04 C07 C05 C06'),
           ('ParallelizabilityInfoGenerator', 'C14 C13 C16 C22 C10 C09'), ('parser.py', 'C01 C02 C08 C03'), ('TransformerFlag', 'C17 C11 C19'),
           ('Mapper', 'C11 C13 C16 C19'), ('Aggregator', 'C11 C13 C16 C19 C09'), ('Parallelizer|Splitter|ParallelizabilityInfo', 'C16 C13 C11 C19'),
           ('IOVar', 'C15 C11 C19'), ('cli', 'C18'), ('InputOutputInfo.py|WithIO.py|AccessKind', 'C04 C15 C19 C08'), ('BasicDatatypes.py', 'C14 C22 C04 C19 C01 C02'),
           ('AnnotationGeneration', 'C08 C14 C20 C12'), ('args-to-json', 'C21'), ('definitions', 'C03 C08 C04'), ('util_standard', 'C19 C17'), ('util', 'C19 C17 C04 C16 C11')]
SIB = [['all_operands_are_streaming_inputs', 'all_operands_are_streaming_outputs', 'all_operands_are_other_inputs', 'all_operands_are_other_outputs'],
       ['set_implicit_use_of_stdin', 'set_implicit_use_of_stdout'], ['all_but_last_operand_is_streaming_input', 'all_but_last_operand_is_other_input'],
       ['only_last_operand_is_stream_output', 'only_last_operand_is_other_output'], ['is_stream_input', 'is_any_input', 'is_config_input'],
       ['is_stream_output', 'is_any_output', 'is_other_output'], ['make_stream_input', 'make_other_input', 'make_config_input'],
       ['make_stream_output', 'make_other_output'], ['append_to_parallelizer_list_cc_seq_conc', 'append_to_parallelizer_list_rr_seq_conc'],
       ['append_to_parallelizer_list_cc_seq_adjm', 'append_to_parallelizer_list_cc_seq_conc'], ['append_to_parallelizer_list_cc_seq_adjs', 'append_to_parallelizer_list_cc_seq_conc'],
       ['is_splitter_consec_chunks', 'is_splitter_round_robin'], ['lexists', 'exists'], ['get_stdin_fd', 'get_stdout_fd'],
       ['set_first_operand_as_config_arg_type_string', 'set_all_operands_as_config_arg_type_string'], ['compute_actual_el_for_input', 'compute_actual_el_for_output'],
       ['make_splitter_round_robin', 'make_splitter_consec_chunks', 'make_splitter_round_robin_with_unwrap'], ['any', 'all'], ['startswith', 'endswith'],
       ['lstrip', 'strip'], ['remove_streaming_inputs', 'remove_streaming_outputs'], ['get_config_inputs', 'get_streaming_inputs']]
CMP = {ast.Eq: ['!='], ast.NotEq: ['=='], ast.Lt: ['<=', '>'], ast.LtE: ['<', '=='], ast.Gt: ['>=', '<'], ast.GtE: ['>'], ast.In: ['not in'],
       ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}


def py_mutants(rel, src):
    tree = ast.parse(src)
    starts = [0]
    for l in src.splitlines(keepends=True):
        starts.append(starts[-1] + len(l.encode()))
    b = src.encode()
    pos = lambda n: (starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda n: b[slice(*pos(n))].decode()
    docs = {id(n.body[0]) for n in ast.walk(tree) if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr)
            and isinstance(n.body[0].value, ast.Constant)}
    anns = set()
    for n in ast.walk(tree):
        for f in ('annotation', 'returns'):
            a = getattr(n, f, None)
            if a is not None:
                anns |= {id(x) for x in ast.walk(a)}
        if isinstance(n, ast.Assert):
            pass
        if isinstance(n, ast.Raise):
            anns |= {id(x) for x in ast.walk(n)}
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            anns |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.FunctionDef) and n.name in ('__repr__',):
            anns |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.JoinedStr):
            anns |= {id(x) for x in ast.walk(n)} - {id(n)}
    out = []

    def add(n, new, what):
        s, e = pos(n)
        if b[s:e].decode() != new:
            out.append((rel, n.lineno, what, (b[:s] + new.encode() + b[e:]).decode()))
    for n in ast.walk(tree):
        if id(n) in anns or id(n) in docs:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                add(n, f'{seg(n.left)} {o} {seg(n.comparators[0])}', 'cmp ' + o)
        elif isinstance(n, ast.BoolOp):
            o = ' and ' if isinstance(n.op, ast.Or) else ' or '
            add(n, '(' + o.join(f'({seg(v)})' for v in n.values) + ')', 'boolop')
            same = ' or ' if isinstance(n.op, ast.Or) else ' and '
            for i in range(len(n.values)):
                add(n, '(' + same.join(f'({seg(v)})' for j, v in enumerate(n.values) if j != i) + ')', f'drop operand {i}')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, f'({seg(n.operand)})', 'drop not')
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                add(n, str(not n.value), 'flip bool')
            elif isinstance(n.value, int):
                add(n, str(n.value + 1), 'int+1')
                if n.value:
                    add(n, str(n.value - 1), 'int-1')
        elif isinstance(n, (ast.List, ast.Tuple)) and n.elts and isinstance(n.ctx, ast.Load):
            if isinstance(n, ast.List):
                for i in range(len(n.elts)):
                    add(n, '[' + ', '.join(seg(v) for j, v in enumerate(n.elts) if j != i) + ']', f'drop element {i} {seg(n.elts[i])[:20]}')
        elif isinstance(n, ast.Dict) and len(n.keys) > 2:
            for i in range(len(n.keys)):
                add(n, '{' + ', '.join(f'{seg(k)}: {seg(v)}' for j, (k, v) in enumerate(zip(n.keys, n.values)) if j != i) + '}', f'drop key {seg(n.keys[i])[:20]}')
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Name) and n.func.id in ('deepcopy', 'list', 'str') and len(n.args) == 1:
                add(n, seg(n.args[0]), 'drop ' + n.func.id)
            if len(n.args) == 2 and not n.keywords:
                add(n, f'{seg(n.func)}({seg(n.args[1])}, {seg(n.args[0])})', 'swap args')
        elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
            add(n, f'{seg(n.right)} + {seg(n.left)}', 'swap +')
            add(n, seg(n.left), 'drop right of +')
            add(n, seg(n.right), 'drop left of +')
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            add(n, seg(n.value), 'drop slice')
        elif isinstance(n, ast.IfExp):
            add(n, f'({seg(n.orelse)} if {seg(n.test)} else {seg(n.body)})', 'swap ifexp')
            add(n, seg(n.body), 'ifexp body')
            add(n, seg(n.orelse), 'ifexp else')
        elif isinstance(n, (ast.If, ast.While)):
            add(n.test, f'not ({seg(n.test)})', 'negate if')
            if isinstance(n, ast.If):
                add(n.test, 'False', 'if False')
                add(n.test, 'True', 'if True')
        elif isinstance(n, ast.comprehension):
            for t in n.ifs:
                add(t, 'True', 'no filter')
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Assert, ast.Raise, ast.Break, ast.Continue)) and id(n) not in docs:
            if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                add(n, 'pass', 'delete stmt')
        elif isinstance(n, ast.Return) and n.value is not None:
            add(n, 'return None', 'return None')
        if isinstance(n, (ast.Name, ast.Attribute)):
            name = n.id if isinstance(n, ast.Name) else n.attr
            for g in SIB:
                if name in g:
                    for o in g:
                        if o != name:
                            add(n, seg(n)[:-len(name)] + o, f'{name} -> {o}')
        if isinstance(n, ast.Raise):
            add(n, 'pass', 'delete raise')
    return out


def json_mutants(rel, src):
    out = []
    d = json.loads(src)

    def add(what, f):
        c = json.loads(src)
        f(c)
        out.append((rel, 0, what, json.dumps(c, indent=2)))
    for kind in ('flag', 'option'):
        for i, g in enumerate(d[kind]):
            names = g if kind == 'flag' else g[:-1]
            add(f'drop {kind} {names}', lambda c: c[kind].pop(i))
            if len(names) > 1:
                add(f'swap names {names}', lambda c: c[kind][i].__setitem__(slice(0, 2), [names[1], names[0]]))
                add(f'drop alias {names}', lambda c: c[kind][i].pop(len(names) - 1))
            if kind == 'flag':
                add(f'flag as option {names}', lambda c: (c['flag'].pop(i), c['option'].append(names + ['ARG'])))
            else:
                add(f'option as flag {names}', lambda c: (c['option'].pop(i), c['flag'].append(names)))
                if isinstance(g[-1], list):
                    add(f'plain argument {names}', lambda c: c['option'][i].__setitem__(-1, 'STRING'))
                    for a in ('OTHER_INPUT', 'STREAM_INPUT', 'OTHER_OUTPUT'):
                        if a != g[-1][1]:
                            add(f'access {a} {names}', lambda c: c['option'][i][-1].__setitem__(1, a))
    return out


# code that nothing uses
DEAD = [('config/definitions.py', range(24, 99)), ('datatypes/BasicDatatypes.py', range(141, 190)),
        ('datatypes/CommandInvocationWithIOVars.py', range(193, 222)), ('AggregatorSpec.py', range(179, 192))]


def all_mutants():
    for d, ds, fs in os.walk(REPO + '/pash_annotations'):
        ds[:] = sorted(x for x in ds if x not in ('tests', '__pycache__', 'old_annotations'))
        for f in sorted(fs):
            p = os.path.join(d, f)
            rel = os.path.relpath(p, REPO)
            src = open(p).read()
            if f.endswith('.py'):
                yield from py_mutants(rel, src)
            elif f.endswith('.json'):
                yield from json_mutants(rel, src)


def run(args, m, i):
    rel, line, what, text = m
    top = f'/tmp/mut/{i}'
    shutil.rmtree(top, ignore_errors=True)
    shutil.copytree(REPO + '/pash_annotations', top + '/pash_annotations', ignore=shutil.ignore_patterns('__pycache__'))
    with open(f'{top}/{rel}', 'w') as f:
        f.write(text)
    res = {'file': rel, 'line': line, 'what': what}
    diff = subprocess.run(['diff', f'{REPO}/{rel}', f'{top}/{rel}'], capture_output=True, text=True).stdout
    res['diff'] = diff[:400]
    if (rel, line, what, res['diff']) in args.done:
        shutil.rmtree(top, ignore_errors=True)
        return
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONPYCACHEPREFIX='/nonexistent/pycache')
    try:
        t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=60'], cwd=top, env=env, capture_output=True,
                           text=True, timeout=120)
        if t.returncode:
            res['by'] = 'tests'
        else:
            for c in args.order or next((o for r, o in BY_FILE if re.search(r, rel)), ' '.join(ORDER)).split():
                heavy = c in HEAVY
                with LOCK if heavy else contextlib.nullcontext():
                  r = subprocess.run([sys.executable, '-B', 'check.py', c, '--tier', 'quick'], cwd=args.verif, capture_output=True, text=True, timeout=1500,
                                   env=dict(os.environ, PAV_REPO=top, PAV_JOBS='6' if heavy else '1', VERIF_SEED='1', VERIF_TIER='quick'))
                if r.returncode == 1:
                    res['by'] = c
                    break
                if r.returncode:
                    res.setdefault('odd', []).append(f'{c} rc={r.returncode} {r.stdout[-150:]} {r.stderr[-150:]}')
            else:
                res['by'] = None
    except subprocess.TimeoutExpired as e:
        res['by'] = 'timeout ' + str(e.cmd)[:80]
    shutil.rmtree(top, ignore_errors=True)
    with open(args.out, 'a') as f:
        f.write(json.dumps(res) + '\n')


if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--sample', type=int)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--only')
    ap.add_argument('--jobs', type=int, default=7)
    ap.add_argument('--order', default='')
    ap.add_argument('--retry', action='store_true', help='run those again that survived')
    ap.add_argument('--count', action='store_true')
    args = ap.parse_args()
    args.order = args.order.split()
    if not os.path.exists(REPO):
        shutil.copytree('/repo', REPO, ignore=shutil.ignore_patterns('.git', '__pycache__'))
    ms = []
    for m in all_mutants():
        if m[0].endswith('.py'):
            try:
                compile(m[3], m[0], 'exec')
            except SyntaxError:
                continue
        if any(m[0].endswith(f) and m[1] in r for f, r in DEAD):
            continue
        if not args.only or re.search(args.only, m[0] + ' ' + m[2]):
            ms.append(m)
    if args.count:
        from collections import Counter
        print(len(ms), Counter(m[0] for m in ms).most_common(60))
        sys.exit()
    if args.sample:
        ms = random.Random(args.seed).sample(ms, min(args.sample, len(ms)))
    args.done = set()
    if os.path.exists(args.out):
        args.done = {() if args.retry and r['by'] is None else (r['file'], r['line'], r['what'], r['diff']) for r in map(json.loads, open(args.out))}
    args.verif = '/tmp/mutverif'
    shutil.rmtree(args.verif, ignore_errors=True)
    shutil.copytree(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), args.verif, ignore=shutil.ignore_patterns('.git', 'evidence', 'seeded'))
    os.makedirs('/tmp/mut', exist_ok=True)
    with ThreadPoolExecutor(args.jobs) as ex:
        list(ex.map(lambda im: run(args, im[1], im[0]), enumerate(ms)))
