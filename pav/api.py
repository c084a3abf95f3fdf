"""Access to the code under test through its public interface only."""
from . import core
from pash_annotations.parser.parser import parse
from pash_annotations.annotation_generation import AnnotationGeneration as AG
from pash_annotations.datatypes.BasicDatatypes import Flag, Option, Operand, FileName, StdDescriptor, StdDescriptorEnum, \
    ArgStringType
from pash_annotations.datatypes.BasicDatatypesWithIO import OptionWithIO, FileNameWithIOInfo, StdDescriptorWithIOInfo
from pash_annotations.datatypes.BasicDatatypesWithIOVar import OptionWithIOVar
from pash_annotations.datatypes.CommandInvocationInitial import CommandInvocationInitial
from pash_annotations.datatypes.CommandInvocationWithIO import CommandInvocationWithIO
from pash_annotations.datatypes.CommandInvocationWithIOVars import CommandInvocationWithIOVars
from pash_annotations.datatypes.AccessKind import AccessKind, AccessKindEnum, make_stream_input


def io_info(inv):
    return AG.get_input_output_info_from_cmd_invocation(inv)


def par_info(inv):
    return AG.get_parallelizability_info_from_cmd_invocation(inv)


def applied(inv):
    """(info, invocation with io) or (None, None)"""
    info = io_info(inv)
    if info is None:
        return None, None
    return info, info.apply_input_output_info_to_command_invocation(inv)


def access_name(a):
    """name of the access kind according to its predicates; None if it is not exactly one"""
    preds = {'CONFIG_INPUT': a.is_config_input(), 'STREAM_INPUT': a.is_stream_input(), 'CONTAINER_FOR_INPUT': a.is_container_for_input(),
             'EXCLUDES_FROM_INPUT': a.is_excludes_from_input(), 'OTHER_INPUT': a.is_other_input(),
             'STREAM_OUTPUT': a.is_stream_output(), 'OTHER_OUTPUT': a.is_other_output()}
    t = [k for k, v in preds.items() if v]
    return t[0] if len(t) == 1 else None


def describe(x):
    """classified word -> ('arg', text) | ('file', name, access) | ('std', 'STDIN'|.., access)"""
    if isinstance(x, ArgStringType):
        return ('arg', x.get_name())
    if isinstance(x, StdDescriptor):
        return ('std', x.get_type().name, access_name(x.get_access()))
    if isinstance(x, FileName):
        return ('file', x.get_name(), access_name(x.get_access()))
    return ('?', type(x).__name__)


def view_io(cio):
    """plain view of an invocation with io"""
    fl = []
    for f in cio.flag_option_list:
        if isinstance(f, Flag):
            fl.append(('flag', f.get_name()))
        elif isinstance(f, OptionWithIO):
            fl.append(('option', f.get_name(), describe(f.get_arg())))
        else:
            fl.append(('?', type(f).__name__))
    imp = lambda x: None if x is None else describe(x)
    return {'cmd': cio.cmd_name, 'flags': fl, 'operands': [describe(o) for o in cio.operand_list],
            'in': imp(cio.implicit_use_of_streaming_input), 'out': imp(cio.implicit_use_of_streaming_output)}


def view_inv(inv):
    fl = []
    for f in inv.flag_option_list:
        if isinstance(f, Flag):
            fl.append((f.get_name(),))
        elif isinstance(f, Option):
            fl.append((f.get_name(), f.get_arg()))
        else:
            fl.append(('?', type(f).__name__))
    return inv.cmd_name, fl, [o.get_name() for o in inv.operand_list]
