AG = 'annotation_generation/annotation_generators/'
DT = 'annotation_generation/datatypes/'
PA = DT + 'parallelizability/'
CF = 'parser/command_flag_option_info/'
SEEDS = {}

def seed(sid, prop, edits, demo, needs, breaks):
    SEEDS[sid] = dict(property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks)

ADD = '''import json, shutil, subprocess, tempfile


def added(data, io, par, lines):
    """answers for lines of the new command zz, in a copy of the package"""
    with tempfile.TemporaryDirectory() as d:
        pkg = shutil.copytree("pash_annotations", d + "/pash_annotations", ignore=shutil.ignore_patterns("tests", "old_annotations", "__pycache__"))
        p = pkg + "/annotation_generation/AnnotationGeneration.py"
        head = "DICT_CMD_NAME_TO_REPRESENTATION_IN_MODULE_NAMES = {"
        src = open(p).read()
        open(p, "w").write(src.replace(head, head + '"zz": "Zz",', 1))
        json.dump(data, open(pkg + "/parser/command_flag_option_info/data/zz.json", "w"))
        for base, body in (("InputOutputInfoGenerator", io), ("ParallelizabilityInfoGenerator", par)):
            if body:
                g = "annotation_generation/annotation_generators/"
                with open(f"{pkg}/{g}{base}Zz.py", "w") as f:
                    f.write(f"from pash_annotations.{g.replace('/', '.')}{base}_Interface import {base}Interface\\n"
                            f"class {base}Zz({base}Interface):\\n    def generate_info(self):\\n        {body}\\n")
        code = ("import sys; sys.path.insert(0, '.')\\n"
                "from pash_annotations.parser.parser import parse\\n"
                "from pash_annotations.annotation_generation import AnnotationGeneration as A\\n"
                "for line in sys.argv[1:]:\\n"
                "    inv = parse(line)\\n"
                "    info = A.get_input_output_info_from_cmd_invocation(inv)\\n"
                "    par = A.get_parallelizability_info_from_cmd_invocation(inv)\\n"
                "    print([inv.flag_option_list, inv.operand_list, info and info.apply_input_output_info_to_command_invocation(inv), par])\\n"
                "    print(chr(0))\\n")
        return subprocess.run([sys.executable, "-B", "-c", code] + lines, cwd=d, capture_output=True, text=True, check=True).stdout.split(chr(0))


'''

seed('c20-starts-with', 'C20', [(AG + 'Generator_Interface.py', 'return first_operand_name.startswith(arg)', 'return first_operand_name.lstrip().startswith(arg)')],
ADD + '''out = added({"flag": [], "option": []}, 'self.set_implicit_use_of_stdout(self.does_first_operand_start_with("x"))', None, ["zz ' x'", "zz x"])
assert "STDOUT" not in out[0] and "STDOUT" in out[1], out''',
'a new command whose generator looks at the start of the first operand, which has a blank there', 'the condition holds for operands that do not start so')

seed('c20-first-output', 'C20', [(DT + 'InputOutputInfo.py', '''        original_first_entry = self.operand_list_typer[0]
        self.all_operands_are_streaming_outputs()''', '''        original_first_entry = (WhichClassForArg.FILESTD, make_stream_input())
        self.all_operands_are_streaming_outputs()''')],
ADD + '''out = added({"flag": [], "option": []}, "self.set_first_operand_as_config_arg_type_string(); self.all_but_first_operand_is_streaming_output()", None, ["zz a b"])
assert "STREAM_INPUT" not in out[0], out''',
'a new command whose first operand was typed before the others', 'the type of the first operand is forgotten')

seed('c20-excludes', 'C20', [('datatypes/AccessKind.py', '''    elif value == "EXCLUDES_FROM_INPUT":
        return make_excludes_from_input()''', '''    elif value == "EXCLUDES_FROM_INPUT":
        return make_container_for_input()''')],
ADD + '''out = added({"flag": [], "option": [["-x", ["FILE", "EXCLUDES_FROM_INPUT"]]]}, "self.set_implicit_use_of_stdout()", None, ["zz -x a"])
assert "EXCLUDES_FROM_INPUT" in out[0], out''',
'option data with an access kind that no shipped data uses', 'another access kind is declared')

seed('c20-indiv-merge', 'C20', [(AG + 'ParallelizabilityInfoGenerator_Interface.py', 'parallelizer_rr_seq_adjm = make_parallelizer_indiv_files(aggregator_spec=aggregator_spec)', 'parallelizer_rr_seq_adjm = make_parallelizer_round_robin(aggregator_spec=aggregator_spec)')],
ADD + '''out = added({"flag": [], "option": []}, None, "self.append_to_parallelizer_list_if_seq_adjm()", ["zz a"])
assert "INDIV_FILES" in out[0], out''',
'a new command that merges results of individual files', 'round-robin is offered instead of splitting by files')

seed('c20-adjf-flag', 'C20', [(AG + 'ParallelizabilityInfoGenerator_Interface.py', '''        aggregator_spec = make_aggregator_spec_adj_lines_func_from_string_representation(string_repr_func, is_implemented)
        parallelizer_rr_seq_adjs''', '''        aggregator_spec = make_aggregator_spec_adj_lines_func_from_string_representation(string_repr_func)
        parallelizer_rr_seq_adjs''')],
ADD + '''out = added({"flag": [], "option": []}, None, 'self.append_to_parallelizer_list_rr_seq_adjf("fun", True)', ["zz a"])
assert "is_implemented: False" not in out[0], out''',
'a new command with an implemented function for adjacent lines', 'it is announced as not implemented')

CONV = '''import json, subprocess


def convert(*lines):
    return json.loads(subprocess.run([sys.executable, "-B", "pash_annotations/parser/command_flag_option_info/args-to-json.py"],
                                     input="".join(l + "\\n" for l in lines), capture_output=True, text=True, check=True).stdout)


'''
seed('c21-duplicates', 'C21', [(CF + 'args-to-json.py', 'if flag not in past_flags:', 'if flag.lower() not in past_flags:')],
CONV + '''data = convert("-r, --reverse", "-R, --random-sort")
assert data == {"flag": [["-r", "--reverse"], ["-R", "--random-sort"]], "option": []}, data''',
'two short flags that differ in case only', 'the second of them is taken for a repetition')

seed('c21-inner-dash', 'C21', [(CF + 'args-to-json.py', '''phrase_parts = re.split(r"=", phrases[i])''', '''phrase_parts = re.split(r"=", phrases[i].replace(" ", ""))'''),
 (CF + 'args-to-json.py', 're.match(r"^[A-Z]+$", phrase_parts[1])', 're.match(r"^[A-Z][A-Z]+$", phrase_parts[1])')],
CONV + '''data = convert("-n, --lines=N")
assert data == {"flag": [], "option": [["-n", "--lines", "N"]]}, data''',
'an argument with a name of one letter', 'the option is taken for a flag')

seed('c21-optional', 'C21', [(CF + 'args-to-json.py', r"""line = re.sub(r"\[|\]", '', line)""", r"""line = re.sub(r"\[[^]]*\]", '', line)""")],
CONV + '''data = convert("--color[=WHEN]")
assert data == {"flag": [], "option": [["--color", "WHEN"]]}, data''',
'an option with an optional argument', 'it is taken for a flag')
