"""A small language with a pipeline of four stages for batch-processing (C30). Importable in worker processes."""
import threading
from DHParser.compile import Compiler  # noqa: F401
from DHParser.dsl import create_parser, process_file
from DHParser.error import ErrorCode, Error, FATAL
from DHParser.nodetree import Node
from DHParser.pipeline import Junction, PseudoJunction  # noqa: F401
from DHParser.preprocess import nil_preprocessor, PreprocessorResult

local = threading.local()
CODES = {'note': 1, 'warn': 100, 'err': 1000, 'fatal': 10000}
gates = None        # name of the file -> callable waited for before it is processed
running = []        # log of beginnings and ends


def preprocess(text, name):
    r = nil_preprocessor(text, name)
    if text[:1] == '!':
        return PreprocessorResult(r.original_text, r.preprocessed_text, r.back_mapping, [Error('pre:fatal', 0, ErrorCode(10000))])
    return r


def preproc_factory():
    return preprocess


def parser_factory():
    if not hasattr(local, 'g'):
        local.g = create_parser(r'''@whitespace = /\s*/
            doc = ~ { word }+
            word = /\w+/~ ''')
    return local.g


def messages(tree, stage):
    for nd in tree.select('word'):
        st, _, kind = nd.content.strip().partition('_')
        if st == stage:
            tree.new_error(nd, stage + ':' + kind, ErrorCode(CODES[kind]))


def ast(tree):
    messages(tree, 'ast')
    for nd in tree.select('word'):
        nd.result = nd.content.strip()
    tree.stage = 'AST'
    return tree


def xml(tree):
    messages(tree, 'xml')
    tree.name = 'x'
    tree.stage = 'xml'
    return tree


def txt(tree):
    messages(tree, 'txt')
    return ','.join(nd.content for nd in tree.select('word'))


def top(tree):
    messages(tree, 'top')
    return '<' + ' '.join(nd.content for nd in tree.select('word')) + '>'


JUNCTIONS = {Junction('CST', lambda: ast, 'AST'), Junction('AST', lambda: xml, 'xml'),
             Junction('AST', lambda: txt, 'txt'), Junction('xml', lambda: top, 'top')}
setup = {'targets': set(), 'ser': {}}


def one(source, out_dir, cancel_query=None):
    return process_file(source, out_dir, preproc_factory, parser_factory, JUNCTIONS, set(setup['targets']),
                        dict(setup['ser']), cancel_query)


def wrapper(args: tuple[str, str, object]) -> str:
    if gates is not None:
        gates(args[0])
    log = running
    log.append(('begin', args[0], threading.get_ident()))
    try:
        return one(*args)
    finally:
        log.append(('end', args[0], threading.get_ident()))

