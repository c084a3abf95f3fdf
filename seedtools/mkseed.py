"""Development tool: builds /verif/seeded/<id>/ from the definitions in seeds_*.py, after confirming in /repo
(which must be clean and is restored) that the change builds, passes the tests and that the demonstration tells it.
usage: mkseed.py [ID...]; with -c also runs the property's quick check against the change."""
import importlib.util, json, os, re, subprocess, sys, glob
HERE = os.path.dirname(os.path.abspath(__file__)); OUT = '/verif/seeded'; R = '/repo'; BASE = '60c8c6d'
PRELUDE = '''import os, sys
sys.path.insert(0, os.getcwd())
from pash_annotations.parser.parser import parse
from pash_annotations.annotation_generation.AnnotationGeneration import (
    get_input_output_info_from_cmd_invocation as io_info,
    get_parallelizability_info_from_cmd_invocation as para_info)


def applied(line):
    inv = parse(line)
    info = io_info(inv)
    return None if info is None else info.apply_input_output_info_to_command_invocation(inv)


'''

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

def main(args):
    check = '-c' in args
    tier = [] 
    want = [a for a in args if not a.startswith('-')]
    seeds = {}
    for f in sorted(glob.glob(HERE + '/seeds_*.py')):
        spec = importlib.util.spec_from_file_location('s', f); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        seeds.update(m.SEEDS)
    assert not sh('git -C /repo status --porcelain').stdout, 'repo not clean'
    for sid, s in seeds.items():
        if want and sid not in want: continue
        d = f'{OUT}/{sid}'; problems = []
        try:
            for path, old, new in s['edits']:
                p = f'{R}/pash_annotations/{path}'; text = open(p).read()
                if text.count(old) != 1: problems.append(f'{path}: {text.count(old)} matches of {old!r}'); continue
                open(p, 'w').write(text.replace(old, new))
            diff = sh('git -C /repo diff').stdout
            removed = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
            base = '\n'.join(sh(f'git -C /repo show {BASE}:pash_annotations/{p}').stdout for p, _, _ in s['edits'])
            if not any(l.strip() and l in base.splitlines() for l in removed): problems.append('no original line changed')
            os.makedirs(d, exist_ok=True)
            open(d + '/patch.diff', 'w').write(diff)
            open(d + '/demo.py', 'w').write(PRELUDE + s['demo'].strip('\n') + '\n')
            open(d + '/demo.sh', 'w').write('#!/bin/bash\nset -eu\nexec python3 -B "$(dirname "$0")/demo.py"\n')
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
            t = sh('bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/seed_out.json | tail -1').stdout.strip()
            if '43 passed, 0 failed' not in t: problems.append('tests: ' + t[-200:])
            demo = sh(f'bash {d}/demo.sh', cwd=R)
            if demo.returncode == 0: problems.append('demo passes with the change')
            else: why = (demo.stderr.strip().splitlines() or demo.stdout.strip().splitlines() or ['?'])[-1]
            caught = ''
            if check and not problems:
                c = sh(f'cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 -B check.py {s["property"]} --tier quick')
                v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
                caught = f'CAUGHT' if c.returncode == 1 and v else f'MISSED rc={c.returncode} {c.stderr[-200:]}'
        finally:
            sh('git -C /repo checkout -- .')
        clean = sh(f'bash {d}/demo.sh', cwd=R)
        if clean.returncode: problems.append('demo fails on clean tree: ' + clean.stderr[-300:])
        print(sid, s['property'], 'PROBLEM ' + '; '.join(problems) if problems else 'ok [' + why[:70] + ']', caught if not problems else '', flush=True)

main(sys.argv[1:])
