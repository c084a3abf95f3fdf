AG = 'annotation_generation/annotation_generators/'
DT = 'annotation_generation/datatypes/'
SEEDS = {}

def seed(sid, prop, edits, demo, needs, breaks):
    SEEDS[sid] = dict(property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks)

HAS = 'self.does_flag_option_list_contain_at_least_one_of(["%s"])'

seed('c09-grep-count-vi', 'C09', [(AG + 'ParallelizabilityInfoGeneratorGrep.py', 'elif self.does_flag_option_list_contain_at_least_one_of(["-c"]):',
     'elif self.does_flag_option_list_contain_at_least_one_of(["-c"]) and not (' + HAS % '-v' + ' and ' + HAS % '-i' + '):')],
'''for line in ("grep -c a", "grep -v -c a", "grep -i -c -v a"):
    ps = para_info(parse(line)).unpack_info()[0]
    assert not any(p.are_all_parts_implemented() for p in ps), line
''',
'counting with -v and -i together', 'the counts of the chunks are concatenated')

seed('c14-grep-wx', 'C14', [(AG + 'ParallelizabilityInfoGeneratorGrep.py', 'elif self.does_flag_option_list_contain_at_least_one_of(["-b"]):',
     'elif ' + HAS % '-b' + ' or (' + HAS % '-w' + ' and ' + HAS % '-x' + ' and ' + HAS % '-h' + '):')],
'''for line in ("grep -w a", "grep -w -x a", "grep -h -x -w a"):
    ps = para_info(parse(line)).unpack_info()[0]
    assert len([p for p in ps if p.are_all_parts_implemented()]) == 2, line
''',
'three harmless flags of grep together', 'no parallelizer is offered')

seed('c05-sort-files0-T', 'C05', [(AG + 'InputOutputInfoGeneratorSort.py', 'if self.get_operand_list_length() == 0 and not self.does_flag_option_list_contain_at_least_one_of(["--files0-from"]):',
     'if self.get_operand_list_length() == 0 and not self.does_flag_option_list_contain_at_least_one_of(["--files0-from"]) and not (' + HAS % '-m' + ' and ' + HAS % '-u' + '):')],
'''for line in ("sort", "sort -m", "sort -u -m"):
    assert applied(line).implicit_use_of_streaming_input is not None, line
''',
'sort without files and with -m and -u', 'standard input is read but not declared')

seed('c06-grep-quiet-silent', 'C06', [(AG + 'InputOutputInfoGeneratorGrep.py', 'if not self.does_flag_option_list_contain_at_least_one_of(["-q"]):',
     'if not self.does_flag_option_list_contain_at_least_one_of(["-q"]) and not (' + HAS % '-s' + ' and ' + HAS % '-L' + '):')],
'''for line in ("grep -L a f", "grep -s a f", "grep -s -L a f"):
    assert applied(line).implicit_use_of_streaming_output is not None, line
''',
'grep -s together with -L', 'standard output is written but not declared')

seed('c15-many-operands', 'C15', [('datatypes/CommandInvocationWithIOVars.py', '            new_operand_list += function_to_apply(self.operand_list[i])',
     '            new_operand_list += function_to_apply(self.operand_list[i]) if i <= 9 else [self.operand_list[i]]')],
'''from pash_annotations.datatypes.CommandInvocationWithIOVars import CommandInvocationWithIOVars
from pash_annotations.datatypes.AccessKind import make_stream_input
for n in (2, 12):
    c = CommandInvocationWithIOVars("cat", [], list(range(n)), None, None, {i: make_stream_input() for i in range(n)})
    c.remove_streaming_inputs()
    assert c.operand_list == [], c.operand_list
''',
'an invocation with more than ten operands', 'later operands are not substituted or removed')

seed('c04-many-operands', 'C04', [(DT + 'InputOutputInfo.py', 'for (operand, typer) in zip(operand_list_original, self.operand_list_typer)]',
     'for (operand, typer) in zip(operand_list_original, self.operand_list_typer[:10])]')],
'''for n in (3, 13):
    assert len(applied("cat " + " ".join("f%d" % i for i in range(n))).operand_list) == n
''',
'more than ten operands', 'the later operands are lost')

seed('c12-same-size', 'C12', [('parser/parser.py', '''def get_set_of_all_flags(json_data) -> Set[str]:
    return get_set_of_all("flag", json_data)''', '''def get_set_of_all_flags(json_data, known=dict()) -> Set[str]:
    size = (len(json_data["flag"]), len(json_data["option"]))
    if size not in known:
        known[size] = get_set_of_all("flag", json_data)
    return known[size]''')],
'''def names():
    return [f.get_name() for f in parse("rm -r -f x").flag_option_list]

parse("cat -n x")
assert names() == ["-r", "-f"], names()
for cmd in ("sort", "cat", "tee", "tr", "rm"):
    parse(cmd + " -n x")
assert names() == ["-r", "-f"], names()
''',
'a command with as many flags and options as one parsed before', 'its flags are not recognised')

seed('c16-last-unwrap', 'C16', [(DT + 'ParallelizabilityInfo.py', 'if self.is_commutative and parallelizer.splitter.is_splitter_consec_chunks():',
     'if self.is_commutative and parallelizer.splitter.is_splitter_consec_chunks() and not parallelizer.info_mapper_aggregator > 2:')],
'''from pash_annotations.annotation_generation.datatypes.ParallelizabilityInfo import ParallelizabilityInfo
from pash_annotations.annotation_generation.datatypes.parallelizability.Parallelizer import make_parallelizer_consec_chunks
for n in (0, 3):
    info = ParallelizabilityInfo([make_parallelizer_consec_chunks(info_mapper_aggregator=n)], is_commutative=True)
    assert len(info.unpack_info()[0]) == 2, n
''',
'a commutative command with a parallelizer with three auxiliary streams', 'its unwrap variant is missing')

seed('c22-uniq-count', 'C22', [(AG + 'ParallelizabilityInfoGeneratorUniq.py', 'if self.does_flag_option_list_contain_at_least_one_of(["-c"]):',
     'if self.does_flag_option_list_contain_at_least_one_of(["-c"]) and not (' + HAS % '-i' + ' and ' + HAS % '-w' + '):')],
'''for line in ("uniq -c", "uniq -c -i", "uniq -w 2 -c", "uniq -c -i -w 2"):
    for p in para_info(parse(line)).unpack_info()[0]:
        assert not p.get_aggregator_spec().is_aggregator_spec_adj_lines_seq(), line
''',
'counting while ignoring case and comparing some characters only', 'counted lines are announced to be counted again')

seed('c22-tr-squeeze', 'C22', [(AG + 'ParallelizabilityInfoGeneratorTr.py', 'self.append_to_parallelizer_list_rr_seq_adjf("PLACEHOLDER: remove first line if empty", is_implemented = False)',
     'self.append_to_parallelizer_list_rr_seq_adjm() if ' + HAS % '-t' + ' else self.append_to_parallelizer_list_rr_seq_adjf("PLACEHOLDER: remove first line if empty", is_implemented = False)')],
'''for line in (r"tr -s '\\n'", r"tr -s -t '\\n'", r"tr -t -s 'a\\n' 'b\\n'"):
    for p in para_info(parse(line)).unpack_info()[0]:
        assert not p.get_aggregator_spec().is_aggregator_spec_adj_lines_merge(), line
''',
'squeezing newlines with -t', 'lines are announced to be joined')

seed('c23-assert', 'C23', [(AG + 'InputOutputInfoGeneratorUniq.py', '''        else:
            raise Exception('extra operand for uniq, the 3rd one')''', "        else:\n            assert False, 'extra operand for uniq, the 3rd one'")],
'''import subprocess
CODE = \'\'\'
import sys
from pash_annotations.parser.parser import parse
from pash_annotations.annotation_generation.AnnotationGeneration import get_input_output_info_from_cmd_invocation as io_info
sys.exit(0 if io_info(parse("uniq a b c")) is None and io_info(parse("uniq a b")) is not None else 5)
\'\'\'
for opts in ([], ["-O"]):
    assert subprocess.run([sys.executable, "-B", *opts, "-c", CODE], env={"PYTHONPATH": os.getcwd(), "PATH": os.environ["PATH"]}).returncode == 0, opts
''',
'an interpreter that does not execute assertions and uniq with three operands', 'uniq with three operands is not refused')

seed('c23-symlink', 'C23', [('annotation_generation/AnnotationGeneration.py', 'ANNOTATION_GENERATORS = "pash_annotations.annotation_generation.annotation_generators"',
     "ANNOTATION_GENERATORS = os.path.relpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'annotation_generators'), ROOT_DIR).replace(os.sep, '.')")],
'''import subprocess, tempfile, shutil
CODE = \'\'\'
import sys
from pash_annotations.parser.parser import parse
from pash_annotations.annotation_generation.AnnotationGeneration import get_input_output_info_from_cmd_invocation as io_info
sys.exit(0 if io_info(parse("uniq a b")) is not None else 5)
\'\'\'
top = tempfile.mkdtemp()
try:
    os.symlink(os.path.join(os.getcwd(), "pash_annotations"), os.path.join(top, "pash_annotations"))
    for where in (os.getcwd(), top):
        assert subprocess.run([sys.executable, "-B", "-c", CODE], cwd="/", env={"PYTHONPATH": where, "PATH": os.environ["PATH"]}).returncode == 0, where
finally:
    shutil.rmtree(top)
''',
'an installation reached through a symbolic link', 'no generator is found, so nothing is annotated')

seed('c23-first', 'C23', [(DT + 'parallelizability/Mapper.py', 'from pash_annotations.util_standard import standard_repr, standard_eq\n',
     'import pash_annotations.annotation_generation.datatypes.parallelizability.MapperSpec as MapperSpec # for type annotations\nfrom pash_annotations.util_standard import standard_eq, standard_repr\n')],
'''import subprocess
P = "pash_annotations.annotation_generation.datatypes.parallelizability."
for m in ("MapperSpec", "Mapper", "Parallelizer", "Aggregator", "AggregatorSpec"):
    assert subprocess.run([sys.executable, "-B", "-c", "import " + P + m], env={"PYTHONPATH": os.getcwd(), "PATH": os.environ["PATH"]}).returncode == 0, m
''',
'the module Mapper is the first to be imported', 'the package cannot be imported in that order')

seed('c12-many-lines', 'C12', [('parser/parser.py', '        if potential_flag_or_option in set_of_all_flags:',
     '        if potential_flag_or_option in set_of_all_flags and not parse.__dict__.setdefault("seen", set()) >= {potential_flag_or_option + str(k) for k in range(2, 9)} - {parse.__dict__["seen"].add(potential_flag_or_option + str(len(parsed_elements_list)))}:')],
'''first = parse("sort -r f")
for n in range(12):
    parse("sort --reverse" + " f" * n)
assert parse("sort --reverse f") == first
''',
'the same flag parsed in lines of many lengths before', 'the flag is no longer recognised')
