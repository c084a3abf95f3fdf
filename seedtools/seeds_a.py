AG = 'annotation_generation/annotation_generators/'
DT = 'annotation_generation/datatypes/'
SEEDS = {}

def seed(sid, prop, edits, demo, needs, breaks):
    SEEDS[sid] = dict(property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks)

seed('c01-cluster-repeat', 'C01', [('parser/parser.py', 'for split_el in list(potential_flag_or_option[1:]):', 'for split_el in dict.fromkeys(potential_flag_or_option[1:]):')],
'''flags = [f.get_name() for f in parse("grep -ivi a f").flag_option_list]
assert flags == ["-i", "-v", "-i"], flags''',
'a cluster of short flags that repeats one', 'the repeated flag of a cluster is lost')

seed('c01-option-dashdash', 'C01', [('parser/parser.py', 'elif (potential_flag_or_option in set_of_all_options) and ((i+1) < len(parsed_elements_list)):',
 "elif (potential_flag_or_option in set_of_all_options) and ((i+1) < len(parsed_elements_list)) \\\n                and parsed_elements_list[i+1] != '--':")],
'''inv = parse("grep --regexp -- f")
assert [(o.get_name(), o.get_arg()) for o in inv.flag_option_list] == [("-e", "--")], inv
assert [o.get_name() for o in inv.operand_list] == ["f"], inv''',
'the argument of an option is the word --', 'the option and its argument become operands')

seed('c01-comments', 'C01', [('parser/parser.py', 'parsed_elements_list : list[str] = shlex.split(command)', 'parsed_elements_list : list[str] = shlex.split(command, comments=True)')],
'''assert [o.get_name() for o in parse("cat a#b c").operand_list] == ["a#b", "c"], parse("cat a#b c")''',
'an unquoted # inside a word', 'the rest of the word and all following words are lost')

seed('c02-third-alias', 'C02', [('parser/parser.py', 'for i in range(1, len(list_of_equiv_flag_repr)):', 'for i in range(1, min(len(list_of_equiv_flag_repr), 2)):')],
'''assert parse("rm --recursive a") == parse("rm -r a"), parse("rm --recursive a")''',
'a flag with at least three spellings, given in the third', 'spellings beyond the second are not made canonical')

seed('c03-dir-not-file', 'C03', [('config/definitions.py', 'INDICATORS_FOR_FILENAMES = ["FILE", "DIR", "DIRECTORY"]', 'INDICATORS_FOR_FILENAMES = ["FILE", "DIRECTORY"]')],
'''arg = applied("sort -T d f").flag_option_list[0].get_arg()
assert hasattr(arg, "access") and arg.access.is_any_output(), arg''',
'an option whose argument is a directory described as DIR', 'sort -T is typed as a plain string')

seed('c04-options-other-output', 'C04', [(DT + 'InputOutputInfo.py', 'typer_lists = list(itertools.chain(self.flagoption_list_typer, self.operand_list_typer))',
  'typer_lists = list(itertools.chain(self.operand_list_typer, self.flagoption_list_typer))[:max(len(self.operand_list_typer), 1)]')],
'''inv = parse("mv -t d a b")
assert io_info(inv).has_other_outputs()''',
'an other output that is an option argument while there are operands', 'other outputs among option arguments are not reported')

seed('c04-strip-name', 'C04', [('util.py', '''    if str(input_el) == "-":
        return StdDescriptor(StdDescriptorEnum.STDIN)''', '''    if str(input_el).strip() == "-":
        return StdDescriptor(StdDescriptorEnum.STDIN)''')],
'''op = applied("cat ' -' f").operand_list[0]
assert op.get_name() == " -", op''',
'a file whose name is - with blanks around it', 'such a file is taken for standard input')

seed('c05-sed-f', 'C05', [(AG + 'InputOutputInfoGeneratorSed.py', 'if not self.does_flag_option_list_contain_at_least_one_of(["-e", "-f"]):', 'if not self.does_flag_option_list_contain_at_least_one_of(["-e"]):')],
'''inv = applied("sed -f script a b")
assert all(hasattr(o, "access") and o.access.is_stream_input() for o in inv.operand_list), inv''',
'a sed script given with -f', 'the first input file is taken for the script')

seed('c05-sort-T', 'C05', [(AG + 'InputOutputInfoGeneratorSort.py', 'self.get_operand_list_length() == 0 and not self.does_flag_option_list_contain_at_least_one_of(["--files0-from"])',
  'self.get_operand_list_length() == 0 and not self.does_flag_option_list_contain_at_least_one_of(["--files0-from", "--random-source"])')],
'''assert applied("sort --random-source=r -R").implicit_use_of_streaming_input is not None''',
'sort without operands but with --random-source', 'standard input is not declared')

seed('c06-grep-s', 'C06', [(AG + 'InputOutputInfoGeneratorGrep.py', 'if not self.does_flag_option_list_contain_at_least_one_of(["-q"]):', 'if not self.does_flag_option_list_contain_at_least_one_of(["-q", "-s"]):')],
'''assert applied("grep -s a f").implicit_use_of_streaming_output is not None''',
'grep -s (which only suppresses messages)', 'standard output is not declared')

seed('c06-tee-append', 'C06', [(AG + 'InputOutputInfoGeneratorTee.py', '        self.all_operands_are_streaming_outputs()', '''        if self.does_flag_option_list_contain_at_least_one_of(["-a"]):
            self.all_operands_are_other_inputs()    # the old contents are kept
        else:
            self.all_operands_are_streaming_outputs()''')],
'''assert all(o.access.is_stream_output() for o in applied("tee -a f g").operand_list)''',
'tee with -a', 'the files appended to are not declared as outputs')

seed('c07-tr-ds', 'C07', [(AG + 'InputOutputInfoGeneratorTr.py', '        self.set_all_operands_as_config_arg_type_string()', '''        if self.does_flag_option_list_contain_at_least_one_of(["-d"]):
            self.set_first_operand_as_config_arg_type_string()    # takes just one set
        else:
            self.set_all_operands_as_config_arg_type_string()''')],
'''assert not any(hasattr(o, "access") for o in applied("tr -ds ab c").operand_list)''',
'tr -d with two sets (together with -s)', 'the second character set is declared as a file')

seed('c07-uniq-out', 'C07', [(AG + 'InputOutputInfoGeneratorUniq.py', '            self.only_last_operand_is_stream_output()', '''            self.only_last_operand_is_stream_output()
            if self.does_flag_option_list_contain_at_least_one_of(["-c"]):
                self.set_implicit_use_of_stdout()'''),
  (AG + 'InputOutputInfoGeneratorUniq.py', "            raise Exception('extra operand for uniq, the 3rd one')", "            raise Exception('extra operand for uniq (the 3rd one)')")],
'''assert applied("uniq -c a b").implicit_use_of_streaming_output is None''',
'uniq -c with an output file', 'standard output is declared though nothing is written there')

seed('c08-para-raise', 'C08', [('annotation_generation/AnnotationGeneration.py', '    except Exception: # module does not exist', '    except AttributeError: # module does not exist')],
'''for line in ["tr -d", "sed", "tr -cd"]:
    para_info(parse(line))''',
'parallelizability information for a command without its set or script', 'an exception gets out instead of a refusal')

seed('c08-basename', 'C08', [('annotation_generation/AnnotationGeneration.py', 'DICT_CMD_NAME_TO_REPRESENTATION_IN_MODULE_NAMES.get(cmd_invocation.cmd_name)\n    try:\n        info_generator_class_for_cmd = str_to_class(str(INPUTOUTPUT',
 'DICT_CMD_NAME_TO_REPRESENTATION_IN_MODULE_NAMES.get(os.path.basename(cmd_invocation.cmd_name))\n    try:\n        info_generator_class_for_cmd = str_to_class(str(INPUTOUTPUT')],
'''assert io_info(parse("./cat a")) is None
assert io_info(parse("/opt/own/grep -q a f")) is None''',
'a command given with a path', 'another program of the same name gets the annotation, with its flags taken for operands')

seed('c09-filter-repeats', 'C09', [(DT + 'parallelizability/TransformerFlagOptionList.py', """        return [flagoption for flagoption in original_flag_option_list
                if flagoption.get_name() in self.list_filter]""", """        kept = {flagoption.get_name(): flagoption for flagoption in original_flag_option_list
                if flagoption.get_name() in self.list_filter}
        return list(kept.values())""")],
'''from pash_annotations.datatypes.CommandInvocationWithIOVars import CommandInvocationWithIOVars
from pash_annotations.datatypes.AccessKind import make_stream_input, make_stream_output
line = parse("sort -k 2,2 -k 1,1")
flags = [type(o)(o.get_name(), o.get_arg()) for o in line.flag_option_list]
vars_inv = CommandInvocationWithIOVars("sort", flags, [], 1, 2, {1: make_stream_input(), 2: make_stream_output()})
agg = para_info(line).parallelizer_list[0].get_actual_aggregator(vars_inv, [3, 4], 5)
assert [f.get_name() for f in agg.flag_option_list] == ["-k", "-k", "-m"], agg.flag_option_list''',
'sort with several keys', 'the merge uses only the last key')

seed('c09-bigrams-aux-order', 'C09', [(DT + 'parallelizability/AggregatorSpec.py', 'for x in [fst_normal_input] + fst_aux_inputs_from + [snd_normal_input] + snd_aux_inputs_from + [output_to] + aux_outputs_to:',
 'for x in [fst_normal_input] + snd_aux_inputs_from + [snd_normal_input] + fst_aux_inputs_from + [output_to] + aux_outputs_to:')],
'''par = para_info(parse("bigrams_aux")).parallelizer_list[0]
agg = par.get_actual_2_ary_aggregator_with_aux(1, [2, 3], 4, [5, 6], 7, [8, 9])
assert agg.operand_list == [1, 2, 3, 4, 5, 6, 7, 8, 9], agg.operand_list''',
'the aggregator with auxiliary streams (bigrams_aux)', 'the boundary words of the two chunks are exchanged')

seed('c10-unwrap-conc', 'C10', [(DT + 'ParallelizabilityInfo.py', 'if self.is_commutative and parallelizer.splitter.is_splitter_consec_chunks():',
  'if (self.is_commutative or parallelizer.core_aggregator_spec.is_aggregator_spec_concatenate()) and \\\n                    parallelizer.splitter.is_splitter_consec_chunks():')],
'''kinds = [p.splitter.is_splitter_round_robin_with_unwrap_flag() for p in para_info(parse("cut -f 1")).get_inferred_parallelizer_list()]
assert not any(kinds), kinds''',
'reading the inferred parallelizers of a command that is not commutative', 'pieces are dealt out and concatenated out of order')

seed('c10-bigrams-commutative', 'C10', [(AG + 'ParallelizabilityInfoGeneratorAltBigramsAux.py', '        parallelizer_cc = make_parallelizer_consec_chunks(mapper_spec=mapper_spec, aggregator_spec=agg_spec)',
  '        self.set_commutative()\n        parallelizer_cc = make_parallelizer_consec_chunks(aggregator_spec=agg_spec, mapper_spec=mapper_spec)')],
'''assert not para_info(parse("alt_bigrams_aux")).is_commutative
assert len(para_info(parse("alt_bigrams_aux")).get_inferred_parallelizer_list()) == 1''',
'dealing out the input of a bigram command', 'bigrams across pieces are lost or invented')

seed('c11-cat-sorted', 'C11', [('datatypes/CommandInvocationWithIOVars.py', '            operand_list=input_ids,', '            operand_list=sorted(input_ids),')],
'''from pash_annotations.datatypes.CommandInvocationWithIOVars import CommandInvocationWithIOVars as C
assert C.make_cat_command_invocation_with_io_vars([3, 1, 2], 9).operand_list == [3, 1, 2]''',
'chunk streams whose numbers do not ascend', 'chunks are concatenated in another order than given')

seed('c11-mapper-aux-order', 'C11', [(DT + 'parallelizability/MapperSpec.py', 'for x in [input_from, output_to] + [aux_output_to for aux_output_to in aux_output_tos]:', 'for x in [input_from] + [aux_output_to for aux_output_to in aux_output_tos] + [output_to]:')],
'''from pash_annotations.datatypes.CommandInvocationWithIOVars import CommandInvocationWithIOVars
from pash_annotations.datatypes.AccessKind import make_stream_input, make_stream_output
inv = CommandInvocationWithIOVars("bigrams_aux", [], [], 1, 2, {1: make_stream_input(), 2: make_stream_output()})
mapper = para_info(parse("bigrams_aux")).parallelizer_list[0].get_actual_mapper(inv, 3, 4, [5, 6])
assert mapper.operand_list == [3, 4, 5, 6], mapper.operand_list''',
'a mapper with auxiliary outputs', 'the mapper writes its result where auxiliary output is expected')

seed('c12-cwd-json', 'C12', [('parser/util_parser.py', "        json_data_bytes = pkgutil.get_data(__name__, 'command_flag_option_info/data/' + command_json_fn)",
 "        if os.path.isfile(command_json_fn): # description of a local command\n            with open(command_json_fn, 'rb') as f:\n                json_data_bytes = f.read()\n        else:\n            json_data_bytes = pkgutil.get_data(__name__, 'command_flag_option_info/data/' + command_json_fn)")],
'''import tempfile
here = repr(parse("grep -i a f").flag_option_list)
with tempfile.TemporaryDirectory() as d:
    with open(d + "/grep.json", "w") as f:
        f.write('{"command": "grep", "flag": [], "option": []}')
    os.chdir(d)
    there = repr(parse("grep -i a f").flag_option_list)
    os.chdir("/")
assert here == there, there''',
'a file grep.json in the working directory', 'the annotation depends on the working directory')

seed('c12-cache', 'C12', [('annotation_generation/AnnotationGeneration.py', '''        info_generator_object = info_generator_class_for_cmd(cmd_invocation)
        # Generate info
        info_generator_object.generate_info()
        return info_generator_object.get_info()
    except Exception: # module''', '''        info_generator_object = info_generator_class_for_cmd(cmd_invocation)
        # Generate info, only once for every invocation
        key = repr(cmd_invocation)
        if key not in CACHE_PARALLELIZABILITY_INFO:
            info_generator_object.generate_info()
            CACHE_PARALLELIZABILITY_INFO[key] = info_generator_object.get_info()
        return CACHE_PARALLELIZABILITY_INFO[key]
    except Exception: # module'''), ('annotation_generation/AnnotationGeneration.py', '# cannot be merged due to types\n', 'CACHE_PARALLELIZABILITY_INFO = dict()\n\n# cannot be merged due to types\n')],
'''first = para_info(parse("cut -f 1"))
number = len(first.parallelizer_list)
first.parallelizer_list.pop()
assert len(para_info(parse("cut -f 1")).parallelizer_list) == number''',
'a client that changes the list of parallelizers it got, then asks again', 'later answers are changed by what was done with earlier ones')

seed('c13-and-or', 'C13', [(DT + 'parallelizability/Parallelizer.py', 'return self.core_mapper_spec.is_implemented and self.core_aggregator_spec.is_implemented', 'return self.core_mapper_spec.is_implemented or self.core_aggregator_spec.is_implemented')],
'''assert not any(p.are_all_parts_implemented() for p in para_info(parse("uniq")).parallelizer_list)''',
'a parallelizer with one unimplemented part', 'it claims to be implemented')

seed('c13-mapper-kind', 'C13', [(DT + 'parallelizability/MapperSpec.py', '        if not self.is_implemented:', '        if not self.is_implemented and self.kind == MapperSpecKindEnum.SAME_AS_SEQ:')],
'''from pash_annotations.annotation_generation.datatypes.parallelizability.Parallelizer import make_parallelizer_consec_chunks
from pash_annotations.annotation_generation.datatypes.parallelizability.MapperSpec import make_mapper_spec_custom
from pash_annotations.datatypes.CommandInvocationWithIOVars import CommandInvocationWithIOVars
from pash_annotations.datatypes.AccessKind import make_stream_input, make_stream_output
inv = CommandInvocationWithIOVars("grep", [], [], 1, 2, {1: make_stream_input(), 2: make_stream_output()})
par = make_parallelizer_consec_chunks(mapper_spec=make_mapper_spec_custom("PLACEHOLDER:x", is_implemented=False))
assert not par.are_all_parts_implemented() and par.get_actual_mapper(inv, 3, 4, []) is None''',
'an unimplemented custom mapper', 'a placeholder command is built instead of nothing')

seed('c15-is', 'C15', [('datatypes/CommandInvocationWithIOVars.py', 'self.replace_var_consistently(from_var, to_var) if el == from_var else el', 'self.replace_var_consistently(from_var, to_var) if el is from_var else el')],
'''from pash_annotations.datatypes.CommandInvocationWithIOVars import CommandInvocationWithIOVars
from pash_annotations.datatypes.AccessKind import make_stream_input, make_stream_output
big = int("1000")
inv = CommandInvocationWithIOVars("cat", [], [big], None, 2, {big: make_stream_input(), 2: make_stream_output()})
inv.replace_var(int("1000"), 3)
assert inv.operand_list == [3], inv.operand_list''',
'a stream variable above 256 that is an equal but not the same object', 'the variable is not replaced')

seed('c15-zero', 'C15', [('datatypes/CommandInvocationWithIOVars.py', '[function_to_apply_to_vars(el)] if isinstance(el, int) else [el]', '[function_to_apply_to_vars(el)] if isinstance(el, int) and el else [el]')],
'''from pash_annotations.datatypes.CommandInvocationWithIOVars import CommandInvocationWithIOVars
from pash_annotations.datatypes.AccessKind import make_stream_input, make_stream_output
inv = CommandInvocationWithIOVars("cat", [], [0], None, 2, {0: make_stream_input(), 2: make_stream_output()})
inv.substitute_inputs_in_cmd_invocation([5])
assert inv.operand_list == [5], inv.operand_list''',
'the stream variable 0', 'the variable is not seen')

seed('c15-order', 'C15', [('datatypes/CommandInvocationWithIOVars.py', '''        self.flat_map_non_names_aux_flag_option_list(function_to_apply)
        self.flat_map_non_names_aux_operand_list(function_to_apply)
''', '''        self.flat_map_non_names_aux_operand_list(function_to_apply)
        self.flat_map_non_names_aux_flag_option_list(function_to_apply)
''')],
'''from pash_annotations.datatypes.CommandInvocationWithIOVars import CommandInvocationWithIOVars
from pash_annotations.datatypes.BasicDatatypesWithIOVar import OptionWithIOVar
from pash_annotations.datatypes.AccessKind import make_stream_input, make_stream_output
inv = CommandInvocationWithIOVars("x", [OptionWithIOVar("-f", 1)], [2], None, 3, {1: make_stream_input(), 2: make_stream_input(), 3: make_stream_output()})
inv.substitute_inputs_in_cmd_invocation([7, 8])
assert inv.flag_option_list[0].get_arg() == 7 and inv.operand_list == [8]''',
'streams both in an option argument and in an operand', 'streams are substituted in another order')

seed('c16-nary-rr', 'C16', [(DT + 'parallelizability/Parallelizer.py', '            assert(self.core_aggregator_spec.is_aggregator_spec_concatenate() or', '            assert(self.core_aggregator_spec.is_aggregator_spec_concatenate() or\n                   self.core_aggregator_spec.is_aggregator_spec_custom_n_ary() or')
 , (DT + 'parallelizability/Parallelizer.py', "               f'splitter: {self.splitter} \\n' \\", "               f'splitter:  {self.splitter} \\n' \\")],
'''from pash_annotations.annotation_generation.datatypes.parallelizability.Parallelizer import make_parallelizer_round_robin
from pash_annotations.annotation_generation.datatypes.parallelizability.AggregatorSpec import make_aggregator_spec_custom_n_ary_from_string_representation as n_ary
try:
    make_parallelizer_round_robin(aggregator_spec=n_ary("agg"))
except AssertionError:
    sys.exit(0)
sys.exit("accepted")''',
'round-robin combined with an n-input aggregator', 'the inadmissible combination is accepted')

seed('c16-unwrap-aux', 'C16', [(DT + 'parallelizability/Parallelizer.py', '''    new_parallelizer = deepcopy(parallelizer)
    new_parallelizer.splitter = make_splitter_round_robin_with_unwrap()
    return new_parallelizer''', '''    return Parallelizer(make_splitter_round_robin_with_unwrap(),
                        deepcopy(parallelizer.core_mapper_spec),
                        deepcopy(parallelizer.core_aggregator_spec),
                        parallelizer.info_splitter_mapper,
                        0)''')],
'''from pash_annotations.annotation_generation.datatypes.parallelizability import Parallelizer as P
par = P.make_parallelizer_consec_chunks(info_mapper_aggregator=2)
assert P.make_parallelizer_round_robin_with_unwrap_from_other(par).get_info_mapper_aggregator() == 2''',
'a commutative command with auxiliary streams', 'the inferred variant asks for no auxiliary streams')

seed('c17-add-name', 'C17', [(DT + 'parallelizability/TransformerFlagOptionList.py', '                                                                if flagoption not in original_flag_option_list]',
'                                                                if flagoption.get_name() not in [original.get_name() for original in original_flag_option_list]]')],
'''from pash_annotations.annotation_generation.datatypes.parallelizability.TransformerFlagOptionList import make_transformer_add
from pash_annotations.datatypes.BasicDatatypesWithIOVar import OptionWithIOVar
from pash_annotations.datatypes.BasicDatatypes import ArgStringType
a, b = OptionWithIOVar("-k", ArgStringType("1")), OptionWithIOVar("-k", ArgStringType("2"))
assert make_transformer_add([b]).get_flag_option_list_after_transformer_application([a]) == [a, b]''',
'adding an option of which another argument occurs already', 'the option is not added')

seed('c17-add-inplace', 'C17', [(DT + 'parallelizability/TransformerFlagOptionList.py', '        return original_flag_option_list + list_of_flagoptions_without_the_ones_in_original_one',
'        original_flag_option_list += list_of_flagoptions_without_the_ones_in_original_one\n        return original_flag_option_list')],
'''from pash_annotations.annotation_generation.datatypes.parallelizability.TransformerFlagOptionList import make_transformer_add
from pash_annotations.datatypes.BasicDatatypes import Flag
given = [Flag("-a")]
make_transformer_add([Flag("-m")]).get_flag_option_list_after_transformer_application(given)
assert given == [Flag("-a")], given''',
'looking at the given list afterwards', 'adding changes the list it was given')

CLI = '''import subprocess, tempfile
cli = os.path.join(os.getcwd(), "pash_annotations", "annotation_cli.py")


def run(line, *more, cwd=None):
    env = dict(os.environ, PYTHONPATH=os.getcwd() + os.pathsep + os.path.join(os.getcwd(), "pash_annotations"), PYTHONDONTWRITEBYTECODE="1")
    return subprocess.run([sys.executable, cli, "--command_invocation", line, *more], capture_output=True, text=True, env=env, cwd=cwd)


'''
seed('c18-strip', 'C18', [('annotation_cli.py', 'cmd_invocation = options.command_invocation\n', 'cmd_invocation = options.command_invocation.strip()\n')],
CLI + r'''res = run("cat a\\ ")
assert res.returncode == 0 and "a \n" in res.stdout + "\n" and str(parse("cat a\\ ")) in res.stdout, res''',
'a command line that ends in an escaped blank', 'the tool reports about another command line')

seed('c18-cr', 'C18', [('annotation_cli.py', 'command_invocation: CommandInvocationInitial = parse(cmd_invocation)', 'command_invocation: CommandInvocationInitial = parse(cmd_invocation.replace("\\r", ""))')],
CLI + r'''with tempfile.TemporaryDirectory() as d:
    run("cat 'a\rb'", "--save_to", "r", cwd=d)
    saved = open(d + "/r", "rb").read()
assert b"a\rb" in saved.split(b"PARSED")[1], saved''',
'a name with a carriage return', 'the report has other names')

seed('c19-operands-shared', 'C19', [('datatypes/CommandInvocationWithIOVars.py', 'self.operand_list: List[Union[ArgStringType, IOVar]] = deepcopy(operand_list)', 'self.operand_list: List[Union[ArgStringType, IOVar]] = list(operand_list)')],
'''from pash_annotations.datatypes.CommandInvocationWithIOVars import CommandInvocationWithIOVars
from pash_annotations.datatypes.BasicDatatypes import ArgStringType
from pash_annotations.datatypes.AccessKind import make_stream_input, make_stream_output
inv = CommandInvocationWithIOVars("grep", [], [ArgStringType("a")], 1, 2, {1: make_stream_input(), 2: make_stream_output()})
mapper = para_info(parse("grep a")).parallelizer_list[0].get_actual_mapper(inv, 3, 4, [])
mapper.operand_list[0].name = "b"
assert inv.operand_list[0].name == "a"''',
'changing an argument of a mapper in place', 'the original invocation changes too')

seed('c19-eq-str', 'C19', [('util_standard.py', '    return vars(obj1) == vars(obj2)', '    return str(vars(obj1)) == str(vars(obj2))')],
'''assert parse("cat a b") != parse("cat 'a, b'")
assert parse("cat a b") == parse("cat a 'b'")''',
'operands that read alike when printed in a list', 'different invocations compare equal')
