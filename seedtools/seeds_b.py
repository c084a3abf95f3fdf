AG = 'annotation_generation/annotation_generators/'
DT = 'annotation_generation/datatypes/'
PA = DT + 'parallelizability/'
SEEDS = {}

def seed(sid, prop, edits, demo, needs, breaks):
    SEEDS[sid] = dict(property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks)

seed('c14-xargs-noop', 'C14', [(AG + 'ParallelizabilityInfoGeneratorXargs.py',
'''        self.append_to_parallelizer_list_cc_seq_conc()
        self.append_to_parallelizer_list_rr_seq_conc()''',
'''        if len(self.cmd_inv.operand_list) > 0:
            self.append_to_parallelizer_list_cc_seq_conc()
            self.append_to_parallelizer_list_rr_seq_conc()''')],
'''assert len(para_info(parse("xargs -n 1")).parallelizer_list) == 2''',
'xargs without a command (which is echo)', 'xargs without a command gets no parallelizer')

seed('c14-grep-silent', 'C14', [(AG + 'ParallelizabilityInfoGeneratorGrep.py',
'elif self.does_flag_option_list_contain_at_least_one_of(["-c"]):', 'elif self.does_flag_option_list_contain_at_least_one_of(["-c", "-x"]):')],
'''assert len(para_info(parse("grep -x a")).parallelizer_list) == 2''',
'grep -x (whole lines)', 'grep -x is treated like grep -c, so no parallelizer is left')

seed('c14-tr-trunc', 'C14', [(AG + 'ParallelizabilityInfoGeneratorTr.py',
'does_delete_newlines: bool = self.does_flag_option_list_contain_at_least_one_of(["-d"])', 'does_delete_newlines: bool = self.does_flag_option_list_contain_at_least_one_of(["-d", "-t"])')],
r'''ps = para_info(parse(r"tr -t '\n' ab")).parallelizer_list
assert len(ps) == 2 and all(p.are_all_parts_implemented() for p in ps), ps''',
'tr -t with a newline in the first set', 'translation is treated like deletion')

seed('c09-uniq-adj', 'C09', [(PA + 'AggregatorSpec.py', 'return AggregatorSpecNonFunc(AggregatorKindEnum.ADJ_LINES_SEQ, is_implemented=False)',
  'return AggregatorSpecNonFunc(AggregatorKindEnum.CONCATENATE, is_implemented=True)')],
'''ps = para_info(parse("uniq")).parallelizer_list
assert not any(p.are_all_parts_implemented() and p.get_aggregator_spec().is_aggregator_spec_concatenate() for p in ps), ps''',
'equal lines on both sides of a chunk boundary', 'uniq claims that its outputs can be concatenated')

seed('c13-adjm-implemented', 'C13', [(PA + 'AggregatorSpec.py', 'return AggregatorSpecNonFunc(AggregatorKindEnum.ADJ_LINES_MERGE, is_implemented=False)',
  'return AggregatorSpecNonFunc(AggregatorKindEnum.ADJ_LINES_MERGE, is_implemented=True)')],
r'''from pash_annotations.datatypes.CommandInvocationWithIOVars import CommandInvocationWithIOVars
inv = CommandInvocationWithIOVars("tr", [], [], 1, 2, {})
for p in para_info(parse(r"tr -d '\n'")).parallelizer_list:
    assert not p.are_all_parts_implemented()
    assert p.get_actual_aggregator(inv, [3, 4], 5) is None''',
'tr that deletes newlines', 'an aggregator is announced as implemented that cannot be made')

seed('c15-outputs-stream', 'C15', [('datatypes/CommandInvocationWithIOVars.py', 'if self.access_map[el].is_any_output():', 'if self.access_map[el].is_stream_output():')],
'''from pash_annotations.datatypes.CommandInvocationWithIOVars import CommandInvocationWithIOVars
from pash_annotations.datatypes.AccessKind import make_other_output, make_other_input
inv = CommandInvocationWithIOVars("mv", [], [1, 2], None, None, {1: make_other_input(), 2: make_other_output()})
assert inv.generate_outputs() == [2]''',
'a command with an output that is no stream', 'outputs that are no streams are not listed')

seed('c15-replace-keeps', 'C15', [('datatypes/CommandInvocationWithIOVars.py', 'self.access_map[to_var] = self.access_map.pop(from_var)', 'self.access_map[to_var] = self.access_map[from_var]')],
'''from pash_annotations.datatypes.CommandInvocationWithIOVars import CommandInvocationWithIOVars
from pash_annotations.datatypes.AccessKind import make_stream_input, make_stream_output
inv = CommandInvocationWithIOVars("cat", [], [1], None, 2, {1: make_stream_input(), 2: make_stream_output()})
inv.replace_var(1, 7)
assert sorted(inv.access_map) == [2, 7], inv.access_map''',
'replacing a variable and then looking at the access map', 'replaced variables stay in the access map')

seed('c16-info-default', 'C16', [(PA + 'Parallelizer.py', '    return Parallelizer(make_splitter_consec_chunks(), mapper_spec, aggregator_spec, info_splitter_mapper, info_mapper_aggregator)',
 '    return Parallelizer(make_splitter_consec_chunks(), mapper_spec, aggregator_spec, info_splitter_mapper or None, info_mapper_aggregator and 1)')],
'''from pash_annotations.annotation_generation.datatypes.parallelizability.Parallelizer import make_parallelizer_consec_chunks
assert make_parallelizer_consec_chunks(info_mapper_aggregator=3).get_info_mapper_aggregator() == 3''',
'more than one auxiliary stream', 'the number of auxiliary streams is cut to one')

seed('c19-default-shared', 'C19', [(PA + 'AggregatorSpec.py',
 'def make_aggregator_spec_concatenate() -> AggregatorSpec:\n    return AggregatorSpecNonFunc(AggregatorKindEnum.CONCATENATE, is_implemented=True)',
 'def make_aggregator_spec_concatenate(_made=[]) -> AggregatorSpec:\n    if not _made:\n        _made.append(AggregatorSpecNonFunc(AggregatorKindEnum.CONCATENATE, is_implemented=True))\n    return _made[0]')],
'''a, b = para_info(parse("cut -c 1")).parallelizer_list
a.get_aggregator_spec().is_implemented = False
c = para_info(parse("grep a")).parallelizer_list[0]
assert b.get_aggregator_spec().is_implemented and c.get_aggregator_spec().is_implemented''',
'changing one result and then using another', 'all concatenating aggregators are one object')

seed('c06-comm-total', 'C06', [(AG + 'InputOutputInfoGeneratorComm.py', 'self.set_implicit_use_of_stdout()', 'self.set_implicit_use_of_stdout(not self.does_flag_option_list_contain_at_least_one_of(["--total"]))')],
'''assert applied("comm --total a b").implicit_use_of_streaming_output is not None''',
'comm with --total', 'standard output is not declared')


TF = PA + 'TransformerFlagOptionList.py'
IOV = 'datatypes/CommandInvocationWithIOVars.py'

seed('c12-alias-leak', 'C12', [('parser/parser.py', """def get_dict_flag_to_primary_repr(json_data):
    dict_flag_to_primary_repr: Dict[str, str] = dict()
""", """def get_dict_flag_to_primary_repr(json_data, dict_flag_to_primary_repr={}):
""")],
"""assert parse("tail --silent f") == parse("tail -q f")
alone = repr(parse("grep --silent f g"))
parse("tail --silent f")
assert repr(parse("grep --silent f g")) == alone, parse("grep --silent f g")
names = [repr(parse("head --null f")) for _ in range(2)]
parse("wc -l f"); parse("sort --numeric-sort f"); parse("sed --null-data f")
one = repr(parse("unknown-command --numeric-sort"))
import subprocess
fresh = subprocess.run([sys.executable, "-B", "-c", "import sys; sys.path.insert(0, '.'); from pash_annotations.parser.parser import parse; print(parse('xargs --silent --null -r'), parse('ls -R --color'))"], capture_output=True, text=True).stdout
for line in ["grep -R a", "sed --silent p", "cut -z", "uniq --zero-terminated", "sort --zero-terminated", "cat --squeeze-blank", "tee -i", "tr --complement a b", "rm --recursive a"]:
    parse(line)
assert fresh == f"{parse('xargs --silent --null -r')} {parse('ls -R --color')}\n" """,
'annotating different commands in one process, whose long flags stand for different short ones', 'spellings of one command are applied to others')
del SEEDS['c12-alias-leak']    # has no visible effect: a long flag is only looked up if the command knows it

seed('c02-cluster-option', 'C02', [('parser/parser.py', 'flag: Flag = Flag(dict_flag_to_primary_repr.get(f\'-{split_el}\', f\'-{split_el}\'))', 'flag: Flag = Flag(f\'-{split_el}\')')],
"""assert parse("grep -hy a f") == parse("grep -h -y a f"), parse("grep -hy a f")
assert parse("rm -Rf a") == parse("rm -R -f a"), parse("rm -Rf a")""",
'a cluster with a flag that has another primary spelling (rm -Rf)', 'flags in clusters are not made canonical')

seed('c05-grep-file', 'C05', [(AG + 'InputOutputInfoGeneratorGrep.py', """        if self.does_flag_option_list_contain_at_least_one_of(["-e", "-f"]):
            if self""", """        if self.does_flag_option_list_contain_at_least_one_of(["-e"]):
            if self""")],
"""inv = applied("grep -f patterns a b")
assert all(hasattr(o, "access") and o.access.is_stream_input() for o in inv.operand_list), inv""",
'grep whose patterns come only from a file', 'the first file is taken for a pattern')

seed('c05-mv-source-stream', 'C05', [(DT + 'InputOutputInfo.py', """        original_last_entry = self.operand_list_typer[-1]
        self.all_operands_are_other_inputs()
        self.operand_list_typer[-1] = original_last_entry""", """        self.operand_list_typer[0] = (WhichClassForArg.FILESTD, make_other_input())""")],
"""inv = applied("mv a b c d")
assert all(o.access.is_other_input() for o in inv.operand_list[:-1]), inv""",
'mv with at least two sources', 'further sources are declared as streams instead of other inputs')

seed('c07-set-diff', 'C07', [(AG + 'InputOutputInfoGeneratorAwk.py', """            if self.get_operand_list_length() == 1:
                self.set_implicit_use_of_stdin()""", """            if self.get_operand_list_length() <= 2:
                self.set_implicit_use_of_stdin()""")],
"""inv = applied("awk '{print}' f")
assert inv.implicit_use_of_streaming_input is None, inv""",
'awk with exactly one file', 'standard input is declared though it is not read')

seed('c08-mv-two-t', 'C08', [(AG + 'InputOutputInfoGeneratorMv.py', 'elif len(list_options_t) == 1:', 'elif len(set(map(str, list_options_t))) == 1:')],
"""assert applied("mv -t d a") is not None
assert applied("mv -t d -t d a b") is None, applied("mv -t d -t d a b")""",
'mv with the same -t twice', 'mv with several -t is guessed instead of refused')

seed('c08-wc-files0', 'C08', [(AG + 'InputOutputInfoGeneratorWc.py', 'if self.does_flag_option_list_contain_at_least_one_of(["--files0-from"]):', 'if self.does_flag_option_list_contain_at_least_one_of(["--files0-from"]) and self.get_operand_list_length() > 0:')],
"""assert applied("wc --files0-from names") is None, applied("wc --files0-from names")""",
'wc --files0-from without operands', 'a list of unknown input files is ignored')

seed('c09-sort-transformer-order', 'C09', [(TF, """        return [flagoption for flagoption in original_flag_option_list
                if flagoption.get_name() in self.list_filter]""", """        kept = sorted([flagoption for flagoption in original_flag_option_list
                       if flagoption.get_name() in self.list_filter], key=lambda flagoption: flagoption.get_name())
        return kept[:1] + [flagoption for flagoption in kept[1:] if flagoption.get_name() != kept[0].get_name()]""")],
"""from pash_annotations.annotation_generation.datatypes.parallelizability.TransformerFlagOptionList import make_transformer_filter
flags = parse("sort -k 2 -k 1 f").flag_option_list
assert len(make_transformer_filter(["-k"]).get_flag_option_list_after_transformer_application(flags)) == 2""",
'sort with several keys', 'the merging sort only gets the first of several keys')

seed('c11-agg-shared-list', 'C11', [(PA + 'AggregatorSpec.py', """        aggregator_cmd_inv.remove_streaming_inputs()
""", """        aggregator_cmd_inv.remove_streaming_inputs()
""")], '', '', '')
del SEEDS['c11-agg-shared-list']

seed('c11-cat-implicit', 'C11', [(IOV, '            operand_list=input_ids,\n            implicit_use_of_streaming_input=None,', '            operand_list=[] if len(input_ids) == 1 else input_ids,\n            implicit_use_of_streaming_input=input_ids[0] if len(input_ids) == 1 and input_ids[0] > output_id else None,')],
"""from pash_annotations.datatypes.CommandInvocationWithIOVars import CommandInvocationWithIOVars
inv = CommandInvocationWithIOVars.make_cat_command_invocation_with_io_vars([3], 9)
assert inv.operand_list == [3] or inv.implicit_use_of_streaming_input == 3, inv""",
'concatenating only one part whose variable was made before the output', 'the aggregator reads nothing')

seed('c16-commutative-tr', 'C16', [(PA + 'Parallelizer.py', """    return Parallelizer(make_splitter_round_robin(), mapper_spec,""", """    return Parallelizer(make_splitter_round_robin() if info_splitter_mapper is None else make_splitter_consec_chunks(), mapper_spec,""")],
"""from pash_annotations.annotation_generation.datatypes.parallelizability.Parallelizer import make_parallelizer_round_robin, AdditionalInfoSplitterToMapper
p = make_parallelizer_round_robin(info_splitter_mapper=AdditionalInfoSplitterToMapper.BYTE_OFFSET)
assert p.get_splitter().is_splitter_round_robin()""",
'a round-robin parallelizer whose mapper needs offsets', 'it is made with another splitter')

seed('c17-remove-equal', 'C17', [(TF, 'if flagoption.get_name() not in self.list_to_remove]', 'if flagoption.get_name() not in set(self.list_to_remove) or original_flag_option_list.index(flagoption) != original_flag_option_list.index(next(f for f in original_flag_option_list if f.get_name() == flagoption.get_name()))]')],
"""from pash_annotations.annotation_generation.datatypes.parallelizability.TransformerFlagOptionList import make_transformer_remove
flags = parse("sort -k 2 -k 1 -r f").flag_option_list
assert [f.get_name() for f in make_transformer_remove(["-k"]).get_flag_option_list_after_transformer_application(flags)] == ["-r"]""",
'the same option twice with different arguments', 'only the first occurrence is removed')

seed('c10-lru-mutation', 'C10', [(PA + 'Parallelizer.py', """def make_parallelizer_round_robin(mapper_spec: Optional[MapperSpec]=None,
                                  aggregator_spec""", """def make_parallelizer_round_robin(mapper_spec: Optional[MapperSpec]=return_mapper_spec_seq_if_none_else_itself(None),
                                  aggregator_spec""")], '', '', '')
del SEEDS['c10-lru-mutation']

seed('c10-grep-nb', 'C10', [(AG + 'ParallelizabilityInfoGeneratorGrep.py', """                    mapper_spec = make_mapper_spec_custom('PLACEHOLDER:grep_add_line_number_offset',
                                                                     is_implemented=False)
                    add_info_from_splitter=AdditionalInfoSplitterToMapper.LINE_NUM_OFFSET""", """                    add_info_from_splitter=AdditionalInfoSplitterToMapper.LINE_NUM_OFFSET""")],
"""assert not any(p.are_all_parts_implemented() for p in para_info(parse("grep -n a")).parallelizer_list)""",
'grep -n on more than one part', 'line numbers of the parts are taken for those of the input')

seed('c03-wc-json', 'C03', [('parser/command_flag_option_info/data/tail.json', None, None)], '', '', '')
del SEEDS['c03-wc-json']

for dropped in ['c19-default-shared', 'c02-cluster-option', 'c05-grep-file', 'c05-mv-source-stream']:
    del SEEDS[dropped]      # not in the statement of C19; not an original line; told by the tests

seed('c19-access-shared', 'C19', [(IOV, 'self.access_map = deepcopy(access_map)', 'self.access_map = dict(access_map)')],
"""from pash_annotations.datatypes.CommandInvocationWithIOVars import CommandInvocationWithIOVars
from pash_annotations.datatypes.AccessKind import make_stream_input, make_stream_output, make_config_input
m = {1: make_stream_input(), 2: make_stream_output()}
a = CommandInvocationWithIOVars("cat", [], [1], None, 2, m)
b = CommandInvocationWithIOVars("cat", [], [1], None, 2, m)
a.access_map[1].kind = make_config_input().kind
assert b.access_map[1].is_stream_input(), b""",
'changing an access kind in place', 'invocations share their access kinds')

seed('c19-eq-subclass', 'C19', [('util_standard.py', 'if not obj1.__class__ == obj2.__class__:', 'if not isinstance(obj1, obj2.__class__):')],
"""from pash_annotations.annotation_generation.datatypes.parallelizability.TransformerFlagOptionList import TransformerFlagOptionListSeq
from pash_annotations.datatypes.CommandInvocationWithIOVars import CommandInvocationWithIOVars
from pash_annotations.datatypes.AccessKind import make_stream_input, make_stream_output
inv = CommandInvocationWithIOVars("cut", [], [1], None, 2, {1: make_stream_input(), 2: make_stream_output()})
mapper = para_info(parse("cut -c 1")).parallelizer_list[0].get_actual_mapper(inv, 1, 2, [])
assert type(mapper) is type(inv) or mapper != inv, mapper
from pash_annotations.datatypes.BasicDatatypes import FileName, ArgStringType
class Other(FileName):
    pass
assert Other("a") != FileName("a")""",
'comparing an object with one of a derived class', 'objects of different kinds compare equal')
