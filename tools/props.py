"""Source of properties.jsonl (run: python3 tools/props.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
              'anchors': {'files': files,
                          'state': [dict(name=n, meaning=m, where=w) for n, m, w in state],
                          'mechanism': [dict(name=n, where=w) for n, w in mech],
                          'observe_at': list(observe), 'hook_needed': None}})
D = 'DHParser/'
p('C01', 'Parsers recognise exactly what the PEG reading of the grammar prescribes',
  'For every grammar composed of the parser combinators and every text, whether the grammar matches and how far it matches is exactly what the PEG reading of its expressions prescribes: ordered choice, greedy bounded repetition, option, sequence, interleave (any order, each within its own bounds; its elements always consume text), positive and negative lookahead and lookbehind, synonyms, string, character-set, case-insensitive, whitespace and regular-expression leaves. Lookaheads and lookbehinds never consume text.',
  ['programs', 'inputs'], 'all grammars built from the combinators, all texts, all start positions',
  'the tests parse a few dozen hand-written grammars with a handful of texts each; combinations of nested combinators and failing alternatives are unbounded',
  [D+'parse.py'], [('__call__/_parse of each parser class', D+'parse.py'), ('Grammar.__call__', D+'parse.py')],
  ['Grammar.__call__ (returned tree, errors)'])
p('C02', 'The syntax tree has exactly the nodes the grammar names, in text order',
  'The tree returned for a match has exactly one node for each application of a named, non-disposable symbol, nested as the symbols were applied and in text order; nodes of anonymous and disposable parsers are removed, merged or flattened exactly as the chosen tree-reduction level says, and dropped parsers leave no trace. Every node carries the text position at which its match starts (as far as nothing dropped precedes it inside its own match).',
  ['programs', 'inputs', 'configurations'], 'all grammars with any mixture of named, disposable and dropped parsers, all four reduction levels, all texts',
  'tests compare a few trees; the reduction shortcuts depend on combinations of child shapes, names and levels',
  [D+'parse.py', D+'nodetree.py'], [('_return_value, _return_values and their reduction variants', D+'parse.py'), ('Parser.__call__ position assignment', D+'parse.py'), ('TreeReduction', D+'parse.py')],
  ['Grammar.__call__ with tree_reduction set; Node.name/children/content/pos'])
p('C03', 'No source text is ever lost, duplicated or invented by parsing',
  'Whatever the text and whether it matches, fails, is recovered from by skip- or resume-rules, or is matched only partially: if the grammar drops nothing, the content of the returned tree is exactly the source text (blanks at the end of the text that a complete match leaves over are left out, which a warning tells), and each leaf sits at the offset where its content is found in the source. Parsing always returns a tree; it never raises because of the text.',
  ['programs', 'inputs'], 'all grammars without dropped parsers, all texts including malformed ones, all recovery configurations',
  'text loss shows only where a particular failure/recovery path and a particular nesting meet (two such defects were found in the shipped code)',
  [D+'parse.py'], [('Grammar.__call__ stitching of skipped parts', D+'parse.py'), ('error-node handling in Parser.__call__', D+'parse.py')],
  ['Grammar.__call__: tree.content, leaf positions'])
p('C04', 'A parse result depends on grammar, start symbol and text only',
  'The same grammar object applied to the same text with the same start symbol yields the same tree and the same errors, however it was used before: after failed, aborted or erroneous parses, with other start symbols, other texts, with captures left open, after renewed instantiation, in another thread, and with history-tracking or tracing switched on or off (while tracing, a mismatch that is due only to a lookahead at the end of the text may carry an error code and place of its own).',
  ['histories', 'programs', 'schedules'], 'all sequences of uses of a grammar object, all interleavings of threads using their own instances',
  'tests use most grammar objects once; state leaking between runs needs specific sequences',
  [D+'parse.py', D+'trace.py'], [('Grammar.reset__ / Parser.reset', D+'parse.py'), ('memoization', D+'parse.py'), ('set_tracer', D+'trace.py')],
  ['Grammar.__call__ over a history of calls'],
  [('memo tables, captured variables, rollback stack, recursion counters', 'per-run state that must be reset', D+'parse.py')])
p('C05', 'Left-recursive grammars terminate and match the longest left-growing parse',
  'A grammar with direct, indirect or mutually nested left recursion terminates on every text and yields the match obtained by growing the seed: the recursive symbol is matched without its recursive alternative first and then extended as long as the match gets longer, giving a left-associative tree. Symbols that are not left-recursive on the given text are unaffected. Missing mandatory items are reported inside of a recursion as elsewhere (as long as no resume-rule applies within the recursion).',
  ['programs', 'inputs'], 'all left-recursive grammars and texts',
  'tests contain a handful of left-recursive grammars; the interaction of seed-growing with memoization depends on the nesting',
  [D+'parse.py'], [('Forward.__call__', D+'parse.py')], ['Grammar.__call__'])
p('C06', 'Captured values live and die with the match that captured them',
  'Capturing pushes the matched text on the stack of its symbol; retrieving matches exactly the (possibly filtered) topmost captured value without removing it, popping matches and removes it, and the optional variant of pop matches nothing (instead of failing) if the value does not follow. Backtracking over a capture or a pop restores the stack to what it was before, and at the end of a successful parse an unpopped capture that should have been popped is reported.',
  ['programs', 'inputs'], 'all grammars combining capture, retrieve and pop with choice, repetition and lookahead; all texts; values of non-zero length, captures not nested inside recursive symbols',
  'rollback happens only on backtracking paths tests do not sample',
  [D+'parse.py'], [('Capture, Retrieve, Pop', D+'parse.py'), ('rollback__/moving_forward', D+'parse.py')], ['Grammar.__call__'],
  [('variables__', 'stacks of captured values', D+'parse.py'), ('rollback__', 'undo log', D+'parse.py')])
p('C07', 'A violated mandatory item is reported where it occurs and recovered as ruled',
  'If an item of a series or interleave behind the mandatory marker does not match, no alternative is tried instead: a mandatory-violation error is reported at the very position where the item was expected (with the error code of the first of the customized errors of the symbol the search-rule of which matches right there, if there is one) and parsing continues exactly as the applicable skip- and resume-rules say, or stops there if there are none. A grammar whose mandatory items all match parses exactly as if the marker were not there.',
  ['programs', 'inputs', 'configurations'], 'all grammars with mandatory markers, skip- and resume-rules; all texts',
  'recovery positions depend on rule, nesting and text; the tests have some twenty cases',
  [D+'parse.py'], [('mandatory_violation, get_reentry_point, reentry_point', D+'parse.py'), ('ParserError handling in Parser.__call__', D+'parse.py')],
  ['Grammar.__call__: errors, positions, tree'])
p('C08', 'A mismatch is always reported, at the farthest failure, and only then',
  'A text that the start symbol does not match completely yields a tree with at least one error, a fully matched text without mandatory violations yields none. The reported position lies inside the text at the farthest point that parsing failed at, not before the end of what was matched, and the error code tells whether parsing stopped before the end or the start symbol did not match.',
  ['programs', 'inputs'], 'all grammars, all texts',
  'only a few error positions are asserted by tests',
  [D+'parse.py'], [('ff_pos__ and _negative_match', D+'parse.py'), ('Grammar.__call__', D+'parse.py')], ['RootNode.errors'])
p('C09', 'An EBNF grammar compiles to the parser its text describes',
  'Compiling an EBNF text in any supported dialect (dhparser, configurable, heuristic) yields a parser that recognises, and builds trees for, exactly what the EBNF text says: precedence of alternative, interleave, difference, sequence and postfix operators, repetition counts in all notations, lookaround, literals, backticked texts and regular-expression tokens, character codes and ranges, symbols and recursion, capture and retrieval, the mandatory marker. Equivalent spellings in other dialects yield the same trees; any choice of the parser optimizations yields the same trees where the optimized parts can match in one way only (see known finding: optimized parts backtrack like regular expressions).',
  ['programs', 'inputs', 'configurations'], 'all EBNF sources, dialects, optimization settings, texts',
  'tests cover single constructs and a few complete grammars',
  [D+'ebnf.py', D+'parse.py'], [('EBNFCompiler.on_* methods', D+'ebnf.py'), ('EBNF transformation table', D+'ebnf.py'), ('ebnf_grammar (FlexibleEBNF)', D+'ebnf.py')],
  ['create_parser, grammar_provider'])
p('C10', 'The EBNF compiler accepts well-formed grammars and reports ill-formed ones',
  'Compiling an EBNF text in DHParser\'s own syntax (with static analysis, no macros) never crashes, and it reports errors exactly for what is wrong with it. Texts that are no grammar (brackets that do not match, operators without an operand) yield an error. For all others the compiler reports, with the kind and the position that identifies the mistake: each use of an undefined symbol (1140, at the use); every definition of a symbol that is defined more than once (1000); symbols that are Python keywords (1555) or begin or end with a double underscore (1000); malformed regular expressions (1585); options and repetitions nested directly in each other or beginning with a mandatory marker (1000); repetitions zero times or with a maximum below the minimum (1000); lookbehinds for anything but regular expressions (1000); optional alternatives that are not the last (1570), also if they are optional through a symbol; the same literal twice (1570) or the same symbol twice (1560) among alternatives; symbols that are nothing but names of each other (1020); lookaheads (1520) and repetitions (1530) of optional symbols; unknown, wrongly placed or repeated directives (1000, 1080), wrong values, numbers of values and malformed or pointless regular expressions in directives, and directives for symbols that do not exist (1100, 1140). Mistakes that need the whole grammar (1020, 1520, 1530, 1560, 1570 through symbols) are only required to be reported if there are no others. A grammar free of mistakes yields a parser and no errors, and errors other than these are not reported (more findings about the order of alternatives, or about things that are optional, are allowed where alternatives overlap). Symbols that cannot be reached from the first one are reported as warnings (670), no other symbol is.',
  ['programs'], 'all EBNF texts in DHParser\'s own syntax (without macros), with any combination of the named mistakes', 'tests cover one instance per mistake',
  [D+'ebnf.py'], [('EBNFCompiler.on_ebnf / assemble_parser', D+'ebnf.py'), ('static_analysis', D+'parse.py')], ['compile_ebnf messages'])
p('C11', 'EBNF directives change the parser exactly as documented',
  'The directives have exactly their documented effect on the language and the tree, in any combination: whitespace and comment definitions, the placement of insignificant whitespace on either side of literals, ignoring case, dropping of strings, backticked strings, whitespace, regular expressions or named symbols (a part that is the whole definition of a named, not dropped symbol is kept), explicit drop- and hide-marks, disposable symbols, tree-reduction, skip-, resume- and error-message rules (string, regular expression or parser). Directives that only concern the tree leave recognition unchanged, those that only concern error-recovery leave texts without errors unchanged. (Explicitly dropped items next to implicit whitespace, synonyms of dropped symbols and regular expressions with a backslashed slash inside of a character class are outside of the claim.)',
  ['programs', 'configurations', 'inputs'], 'all combinations of directive values, grammars, texts',
  'directives interact; tests look at them one by one',
  [D+'ebnf.py'], [('EBNFCompiler.on_directive', D+'ebnf.py'), ('drop/disposable handling in generated code', D+'ebnf.py')], ['create_parser'])
p('C12', 'Trees survive serialization',
  'Writing any tree and reading the text back yields a tree with the same names, attributes, order of children and text: as S-expression or SXML (as_sxpr with any compactness, indentation and flattening; parse_sxpr, parse_sxml), as XML with inlined or single-line text (as_xml, parse_xml; text nodes with a name in string_tags become plain text again), as JSON (list and dictionary flavour, any indentation and escaping), as ElementTree, and through the format-detecting deserialize(). Text and attribute values keep quotes, backslashes, line-breaks, brackets, blanks and empty strings; positions are kept where they have been written. In XML, markup characters in text come back as the entity references they are written as, and whitespace with line-breaks between elements is layout. Readers yield the tree that a text denotes whatever its layout (whitespace, kind of quotes, order and style of attributes, comments in XML), and flatten_sxpr() does not change what an S-expression denotes.',
  ['inputs', 'configurations'], 'all trees, all serialization options that promise to be lossless',
  'content and shape of trees are unbounded; escaping depends on character combinations',
  [D+'nodetree.py'], [('as_sxpr/parse_sxpr', D+'nodetree.py'), ('as_xml/parse_xml', D+'nodetree.py'), ('as_json/parse_json', D+'nodetree.py')], ['Node.as_*, parse_*'])
p('C13', 'Tree selection and navigation visit exactly the right nodes in the right order',
  'Selecting nodes or paths by name, set, pattern or function, with skipping, reversal, start path and start-node inclusion yields exactly the matching nodes in document order (or its reverse), each once. Path navigation (next, previous, parent, leaf paths, pick, find-common-ancestor, siblings) agrees with that order for every tree and every path.',
  ['inputs', 'programs'], 'all trees, criteria, options and start paths', 'tests sample a few trees',
  [D+'nodetree.py'], [('Node.select*, select_path*, next_path, prev_path ...', D+'nodetree.py')], ['Node.select_if, select, select_path, pick*, next_path ...'])
p('C14', 'Content mappings translate text positions and tree paths into each other',
  'A content mapping over any tree, with any selection and ignore criteria, contains exactly the text of the selected leaves; the position of a path plus an offset maps back to that path and offset, and every position of the text maps to the path whose leaf holds the character there. Iterating over paths between two positions yields exactly the leaves between them.',
  ['inputs'], 'all trees, selections, positions', 'tests sample a few trees and positions',
  [D+'nodetree.py'], [('ContentMapping', D+'nodetree.py')], ['ContentMapping.content, get_path_index, get_path_and_offset, get_path_slice'])
p('C15', 'Marking up text never changes the text',
  'Marking up a text span with an element, inserting a node at a position or splitting a node leaves the string content of the tree unchanged (apart from the inserted content), covers exactly the marked span with the new element(s) and keeps all existing elements (possibly cut into fragments where allowed); the mapping stays consistent with the changed tree. Markups can be applied one after the other.',
  ['histories', 'inputs'], 'all trees, all sequences of markups, insertions and splits', 'tests sample a few markups',
  [D+'nodetree.py'], [('ContentMapping.markup, insert_node', D+'nodetree.py'), ('split_node, deep_split, markup_leaf', D+'nodetree.py')], ['ContentMapping.markup, tree content'])
p('C16', 'Editing a tree through the node interface keeps it consistent',
  'Adding, replacing, inserting, deleting and looking-up children by index, slice, name or node behave like the corresponding list operations for every sequence of edits, and a failing edit changes nothing; positions once assigned never change and new nodes get the position of the place where they are put. Attributes form an ordered map, and adding or removing tokens of an attribute affects exactly these tokens. Two trees are equal exactly if names, content, structure and attributes are equal; a deep copy of a node or root node is equal to, and shares no nodes, attributes, errors or tag-sets with, its original.',
  ['histories', 'inputs'], 'all trees and edit sequences', 'tests exercise single edits',
  [D+'nodetree.py'], [('Node.__getitem__/__setitem__/__delitem__/insert/remove/index/pick', D+'nodetree.py'), ('equals, __deepcopy__', D+'nodetree.py')], ['Node API'])
p('C17', 'Traversal applies the right transformations to every node, once, bottom-up',
  'traverse() with a transformation table calls for every node, after all calls for its descendants, first the functions listed under \'<\', then those of the entry for its key, or lacking one those of \'*\', then those under \'>\', each exactly once, in the order they are listed and with the path of nodes down to this node. The key (by default the name; otherwise the value of the given key function) and the children to be visited are those which the node has when it is reached, before its descendants are transformed: whatever the functions for one node do to the names, children or siblings does not keep other nodes from being visited, and nodes that are added are not visited. The filters at the beginning of \'<\' and of the entry keep the traversal from visiting the leaves, the anonymous leaves, or all descendants of every node with this key, also the first one. \'<<<\' and \'>>>\' are called once for the root before and after everything else. Keys can be combined in one entry (tuple or string with delimiters), values may be single functions, lists or tuples; \'~\' stands for \':Whitespace\'; a key that occurs twice (KeyError), \'~\' together with \':Whitespace\', and \'+\' (AssertionError) are rejected. The same table may be used for any number of trees. An exception in a function ends the traversal with an AssertionError. The given tree is changed in place and returned. transformer() does the same for trees in the right stage (ValueError otherwise) and sets the stage of the result; traverse_locally() does the same for the last node of a path.',
  ['programs', 'inputs'], 'all trees and transformation tables', 'tests use fixed tables',
  [D+'transform.py'], [('traverse', D+'transform.py')], ['traverse'])
p('C18', 'Structural transformations do what their names say on every tree',
  'Each predefined transformation, applied to the last node of a path in any tree, yields exactly the documented result and leaves the rest of the tree in place: replace_by_single_child, reduce_single_child, replace_or_reduce (condition evaluated on the child), replace_by_children, swap_nested_nodes, change_name, replace_child_names, flatten, collapse, collapse_children_if (merge rule on all levels), merge_adjacent, merge_leaves, merge_connected (also with nodes to be swallowed), merge_treetops, move_fringes (either side, merging with the neighbours or not), left_associative, lean_left, lstrip, rstrip, strip, keep_children, keep_children_if, keep_nodes, keep_tokens, keep_content, remove, remove_if, remove_children_if, remove_children, remove_tokens, remove_content, remove_empty, remove_brackets, replace_content_with, transform_result, normalize_whitespace, add_attributes, del_attributes, insert (at positions from 0 on, or before nodes with certain names), delimit_children, apply_if, apply_unless, apply_ifelse. Those which only restructure never change the text. The conditions (is_named, is_anonymous, is_one_of, not_one_of, is_token, is_empty, contains_only_whitespace, has_content, content_matches for the complete string, has_attr, has_children, has_parent, has_ancestor within a number of generations, has_descendant, has_child, has_sibling, is_single_child, neg, any_of, all_of, three_valued ...) are true for exactly the nodes they describe; error_on, assert_content, require and forbid add one error to exactly the nodes concerned. (Not claimed: conflicting values of the same attribute when nodes are merged, negative positions for insertions, the positions of merged nodes, pull_up.)',
  ['inputs', 'programs'], 'all trees, all parameters', 'tests use one or two trees per transformation',
  [D+'transform.py'], [('replace_by_single_child, flatten, collapse, merge_adjacent, strip, remove_children ...', D+'transform.py')], ['transformation functions'])
p('C19', 'Every position in preprocessed text maps back to where it came from',
  'For every preprocessing - includes from several files nested to any depth, insertion of tokens with make_preprocessor, and chains of preprocessors that may leave out parts of the text and describe this by a SourceMap - each position of the preprocessed text, its end included, maps back to the file, the text of this file and the position from which the character at this position stems; the characters of a token map to the place where it was inserted, its closing mark to the place behind its argument. The included text is exactly the text with each include that does not lie inside a comment replaced by the content of the file, paths being relative to the including file; an include reader that reads files only once leaves out later occurrences; circular and missing includes, however the path is spelled, end with an error instead of being followed. Errors of the preprocessors as well as errors added to the tree later are located in the original file with their line and column. PreprocessorToken-parsers match exactly the tokens of their name, strip_tokens() restores the text without tokens, and SourceMap.validate() refuses maps with lists of different lengths, without a beginning at 0 or without increasing positions. (At most one token-inserting preprocessor per chain.)',
  ['inputs', 'programs'], 'all include structures, texts, chains of preprocessors, positions', 'tests check a few positions',
  [D+'preprocess.py'], [('gen_neutral_srcmap_func, source_map, chain_preprocessors, preprocess_includes, make_preprocessor', D+'preprocess.py')], ['Preprocessed source map functions'])
p('C20', 'Errors are kept in order, counted once and located at the right line and column',
  'Lines and columns, both counted from one, are those obtained by counting the line-breaks before a position; a position outside the text raises ValueError; text_pos() converts back and yields -1 for places that do not exist. The root of a tree keeps every added error exactly once (errors with the same code and position count as the same) in the order in which they were added; errors_sorted lists them in the order of their positions; error_flag is the highest code, and severity, has_errors, only_errors and error_safe follow from the codes; new_error() with a limit appends a notice to the last error of that type instead of exceeding the limit. As soon as the root has a tree and a source, every error (also those added before, and those of empty documents) carries line, column, end line and end column, and is never longer than the text. An error that cannot be located raises and is not kept. node_errors() yields the errors of a node (also after transfer_errors(), copying or swallowing) that lie within its text, and the errors of nodes removed from the tree at the branches that cover their positions, but none of other nodes in the tree. The string, the canonical string (file name relative to the working directory), the LSP-diagnostic and the visualization of an error state this place, code, severity and message.',
  ['histories', 'inputs'], 'all texts, positions, sequences of added errors', 'tests add a few errors',
  [D+'error.py', D+'nodetree.py', D+'toolkit.py'], [('line_col, linebreaks, text_pos', D+'toolkit.py'), ('add_source_locations', D+'error.py'), ('RootNode.add_error, errors_sorted, node_errors', D+'nodetree.py')], ['RootNode, line_col, text_pos'])
p('C21', 'A pipeline runs each junction at most once, in order, without interference',
  'run_pipeline() yields for every target that can be reached exactly the result and the errors of applying the chain of junctions from the nearest given source stage to the target, one after the other; junctions that change their tree in place do not affect the results and errors of other targets. Each junction is run at most once, after the junction that yields its source stage, and only if it is needed for a target. (Stages between sources and targets may be part of the result, too; their trees and those of the sources may be used up.) After a fatal error no junction that depends on this stage is run, and the run may end before other targets are reached. If a junction yields None, so do all that depend on it; data other than trees cannot be processed further (ValueError), and targets that cannot be reached raise an error before anything is run. An exception inside a junction is passed on, unless there have been errors before; then it becomes a fatal error. The names AST and CST may be written in any case. end_points(), as_graph(), as_paths() and connection() state the ends, the tree, the paths and the way between stages of the graph of junctions.',
  ['programs', 'histories'], 'all acyclic junction graphs, start stages and target sets', 'tests run one or two pipelines',
  [D+'compile.py'], [('run_pipeline, extract_data, end_points', D+'compile.py')], ['run_pipeline, full_pipeline'])
p('C22', 'Compiling a tree calls the right method for each node and finalizes in order',
  'A Compiler-object called with a tree first calls prepare() with its root, then visits the root and finally calls the finalizers that were added, last one first, and finalize(). Visiting a node calls exactly one method: the one for its name (also if the name contains characters that cannot be part of the name of a method), else wildcard() or the fallback, which visits the children from left to right and replaces those for which another node was returned (dropping those that returned the empty node or None); then the attribute visitors that exist for its attributes, once each. All of them see the path of nodes down to their node. None as a result raises CompilerError unless it is allowed, values other than nodes among the results of the children of a fallback raise TypeError, exceptions of methods and visitors are passed on, and each call of the same object behaves as if it were the first. A cancelled compilation yields None and a CANCELED-error. Node.evaluate() and evaluate_path() apply the actions for the names (else the joker, else KeyError) bottom up. compile_source() runs preprocessor, parser, transformer and compiler in this order, but none of them after a fatal error or a cancellation; the result is None in that case; all messages are returned once, in the order of their positions, with their place in the source; a crash of the transformer or compiler becomes a fatal error if there have been errors before and is passed on otherwise; the AST is returned as the transformer left it, if it is asked for. process_tree() does the same for one step.',
  ['inputs', 'programs', 'histories'], 'all trees and method sets, sources, error levels', 'tests use simple compilers',
  [D+'compile.py'], [('Compiler.__call__/compile/fallback_compiler', D+'compile.py'), ('process_tree, compile_source', D+'compile.py')], ['Compiler, compile_source'])
p('C23', 'Configuration values have one well-defined, validated value per thread',
  'Reading a configuration value yields the value most recently set in this thread, else the preset as it was when this thread first asked for the value, else the default. Values set in one thread are never seen in another; presets changed between access_presets() and finalize_presets() are seen by every thread that has not got a value of its own yet. Setting a value or a preset outside the allowed range raises ValueError and changes nothing, setting an unknown key raises unless new keys are allowed (add_config_values() does not validate). get_config_values() and dump_config_data() yield exactly the keys matching any of the patterns with the values get_config_value() would yield. Configuration data read from a string sets the presets in the order of its entries; an invalid entry raises and ends it, and presets are closed afterwards. Calls of different threads that overlap have the same results as if they had taken place one after the other in some order (presets are opened and closed by one thread at a time).',
  ['histories', 'schedules'], 'all sequences of set, preset and get by several threads', 'tests are single threaded and short',
  [D+'configuration.py'], [('get_config_value, set_config_value, access_presets, finalize_presets', D+'configuration.py')], ['configuration API'])
p('C24', 'A string view behaves like the slice of the string it stands for',
  'Every operation on a view of a string gives the result the same operation gives on the equal plain string: length, truth value, slicing with any bounds, indexing (also from the end; IndexError outside), find, rfind, count, startswith and endswith with any start and end, in, split (with and without separator), strip/lstrip/rstrip with given characters, replace, ==, hash, +, iteration, and match, search (with start and end) and finditer of regular expressions, the match positions translated by index()/indices(). This holds for every view, including empty ones and views of views, and whatever operations were applied to it before. (Not claimed: slices with a step, the empty search string behind the end, the default characters of strip beyond blank, tab and line-break, regular expressions that look behind the start of the match.)',
  ['inputs', 'histories'], 'all strings, view bounds and arguments including negative and out-of-range ones', 'tests sample a few strings',
  [D+'stringview.py'], [('StringView', D+'stringview.py')], ['StringView API'])
p('C25', 'A text buffer after edits equals the text after the same edits',
  'After any sequence of edits, each replacing a range given by line and character (columns behind the end of a line mean its end), single or in lists of change-events that are applied one after the other, a TextBuffer holds exactly the text obtained by the same replacements on the plain string: as a whole (str, len, snapshot with either end-of-line marker), line by line, by index or slice, and whichever of these was asked for in between. CR-LF counts as one line-break. Each edit advances the version by one, unless the version is given.',
  ['histories', 'inputs'], 'all texts and edit sequences', 'tests do a few edits',
  [D+'lsp.py', D+'stringview.py', D+'server.py'], [('TextBuffer.update, snapshot', D+'stringview.py')], ['TextBuffer'])
p('C26', 'The server answers every request once and obeys the life-cycle',
  'For every sequence of messages on a connection to Server (over asyncio-streams, pipes or TCP; functions run directly, as coroutines or in threads) and for every order in which the called functions finish: (1) However the stream is cut into chunks, exactly the messages that were sent, each with a Content-Length header (possibly with other Content- fields before or after it, possibly of length zero), are processed, each as soon as its last byte has arrived. (2) Every request is answered exactly once, under its own id (number or string), with the result of its function (null included), or with a JSON-RPC error: -32601 for unknown methods, -32602 for parameters that do not fit, the error object that the function returned, any other code for exceptions and results that cannot be serialized, -32600 for an id that is still in use. Parameters may be given by name or by position. Notifications are never answered. Every answer is a valid JSON-RPC message. (3) Messages that are no JSON or no valid JSON-RPC are answered with -32700 (-32600 for malformed ids and methods) under their id or null and do not disturb the connection. (4) Life-cycle (strict): initialize is accepted once, initialized only after it; other methods are only called between initialized and shutdown and otherwise rejected with -32002 before and -32600 after shutdown; without strict_lsp only initialize and initialized are guarded. (5) Answers of the client to questions of the server (server_request, client_response) reach the function that waits for this very id, in any order and with any result; unexpected ones are harmless. (6) exit, and the end of the input, end the connection after the open requests (if they finish within three seconds) have been answered; what arrives after exit is ignored; the next connection starts afresh; a stop request on a TCP server is answered and ends it. (7) Other data is answered once with the text of the function called (or the default function), under a header with the length in bytes if it came with one. Excluded: HTTP-requests, batches, requests without header, negative ids, second connections while one is open, questions outside the initialized state.',
  ['histories', 'schedules', 'inputs', 'fault_sequences'], 'all conversations of a client with the server, all ways of cutting the stream into chunks, all orders in which functions finish', 'tests run a few conversations with whole messages',
  [D+'server.py'], [('Server.handle, Connection, ExecutionEnvironment', D+'server.py')], ['data written to the connection'])
p('C27', 'Thread-local factories give each thread its own single instance',
  'Within one thread every call of a ThreadLocalSingletonFactory, of a factory made by create_parser_junction(), create_compiler_junction() or create_junction(), or of get_ebnf_grammar(), get_ebnf_transformer(), get_ebnf_compiler() and get_ebnf_preprocessor() yields the same object, made by one run of the factory\'s own constructor; different threads and different factories never get the same object, also if factories have the same name or unique id, or a factory or thread takes the place of a deleted one. A constructor that raises passes its exception on and leaves nothing behind. (get_ebnf_grammar() makes a new object when the thread switches between the heuristic variant and the others.) This holds whatever other threads do at the same time.',
  ['schedules', 'histories'], 'all interleavings of calls from several threads', 'tests call it from one thread',
  [D+'toolkit.py', D+'compile.py'], [('ThreadLocalSingletonFactory', D+'toolkit.py')], ['factory call'])
p('C28', 'A grammar test report passes exactly if all test cases hold',
  'For every test-unit run with grammar_unit() (as dictionary, .ini- or .json-file; with or without report, shown stages, further stages given by junctions, verbose output, an own configuration section): (1) A match-case is reported exactly if the parser of the symbol (as start-symbol) does not match the text (blanks at the end are tolerated in match-, not in fail-cases), the AST-transformation (if it is run: report, AST- or later tests, show) or a tested or shown later stage adds an error (warnings do not count) or raises an exception, or the concrete tree, the AST or the result of a later stage differs from what the CST-, AST- or stage-test of the same name (an asterisk after either name does not matter) demands: a tree (S-expression or XML; names, structure, content, attributes) or a flat text; an expectation that is neither the flat text nor a tree counts as different and never aborts the run. (2) A fail-case is reported exactly if the parser matches the whole text. Tests of an unknown symbol are reported. (3) A symbol ending with a lookahead may, by default, leave over what its lookahead covers, and a mandatory lookahead may fail at the end of the text, in a match-case as well as (then reported) in a fail-case; not if test_suppress_lookahead_failures is off. (4) No erratum belongs to no case; the verdict on a case does not depend on other cases, on the form of the unit, or on being run before; the report-file lists each match- and fail-case once, under its symbol, match-cases first, with an error exactly if it was reported, and the CST only for cases marked with an asterisk; values of the config-section hold during the run and are restored afterwards. (5) grammar_suite() runs each matching file of the directory once, returns an empty text exactly if there are no errata, otherwise names exactly the files with errata and their total number, and leaves the working directory as it was. (6) Reading an .ini-file yields exactly the sections and cases written in it: quoted (single, double, triple), plain and multi-line texts (four blanks of indentation in all but the first line do not belong to the text), trees in AST- and CST-sections, sections that occur repeatedly are joined, ast and cst in any case, comments ignored; an unknown stage or a name used twice in a section (with or without asterisk) raises KeyError, lines that are no cases raise SyntaxError; unit_from_json() of the same unit and unit_from_config(unit_to_config(unit)) yield the same unit. (7) extract_symbols() yields the sections and symbols of a grammar in their order; create_test_templates() makes for each section one file with match-, ast- and fail-sections for each of its symbols, numbered from the last section to the first; files that exist for a section keep their content and are at most renumbered.',
  ['inputs', 'programs', 'histories'], 'all test-units over a fixed language (texts, expectations, stages, options), all test-files, all histories of grammars for templates', 'tests contain a few unit-test files',
  [D+'testing.py'], [('grammar_unit, unit_from_config, unit_from_json', D+'testing.py')], ['grammar_unit result'])
p('C29', 'Regenerating a parser script preserves the user-edited sections',
  'For every history of changes to a grammar, edits to its generated script and compilations (compile_on_disk, recompile_grammar on a file or on a directory, create_scripts), the script (seven sections set apart by section headings) develops as follows. A successful compilation replaces exactly the parser section by the code for the current grammar, generates those other sections that contain nothing but whitespace, and keeps every other section character by character, whatever it contains (text with other line ends than linefeed and with text that itself is a section heading is excluded); only user-written imports are completed: with a linefeed, if they do not end with one, and with the import of PseudoJunction and create_parser_junction, if they lack it. The script can be executed afterwards. An erroneous grammar, a script with too many or too few section headings (ValueError) and a script that is no UTF-8 text (UnicodeDecodeError) leave the script untouched, byte for byte. recompile_grammar compiles (and notifies) exactly if the script does not exist, if force is given or if the parser section belongs to another grammar text; it then returns False exactly if there were errors and leaves a file with the messages exactly if there were any. Given a directory, it does so for every file ending with .ebnf in it, whatever happens to the others, and returns whether none of them failed. create_scripts adds server- and application-scripts without touching existing ones (unless overwrite is given), and generates the parser script only if it does not exist.',
  ['histories', 'inputs', 'programs'], 'all histories of grammar changes, edits, damages, deletions and compilations of a script, all contents of the sections', 'tests recompile a grammar once',
  [D+'dsl.py'], [('compile_on_disk, split_source', D+'dsl.py')], ['compile_on_disk'])
p('C30', 'Batch-processing compiles every file once and reports completely and in order',
  'batch_process calls the given function exactly once for every file name - whether it runs in the calling thread (singlethread), in a pool of threads (multithreading) or processes (multicore), or through a submit_func of the caller, and in whatever order the files are finished -, returns the non-empty names of the message-files in the order of the file names, calls log_func once per file in this order with the base name of the file and, if there are messages, " with ERRORS" or " with WARNINGS", and nothing is running any more when it returns. If cancel_query becomes true after the i-th file has been logged, exactly the first i files are logged and reported. process_file (with the file name of the source, any junctions and target stages) writes, to <out_dir>/<target>/<name>.<target>, each target stage that has been reached without a fatal error, tree-stages once for every serialization given for the target, else for "*", else in the default serialization, with the normalized serialization name as extension (sxpr, xml, json; S-expression and default yield sxpr), and nothing else but the messages; what is written can be read back as the result of the stage. Stages after a fatal error are not written. All messages of all stages that have been run (notices, warnings, errors, fatal errors), each once, with file name, line, column, kind and text, ordered by position, are written to <out_dir>/<name>_ERRORS.txt if there is an error among them, otherwise to <name>_WARNINGS.txt; the name of this file is returned, or the empty string (and no file written) if there are no messages. Missing directories are created.',
  ['inputs', 'schedules', 'histories'], 'all source texts, pipelines, targets, numbers of workers, orders of finishing and moments of cancelling', 'tests process some files of an example',
  [D+'dsl.py', D+'toolkit.py', D+'pipeline.py'], [('batch_process, process_file', D+'dsl.py'), ('instantiate_executor', D+'toolkit.py')], ['batch_process'])
p('C31', 'What the parsing history says is true',
  'When a text is parsed with trace_history set on all parsers of a grammar (without captured symbols, recursion and mandatory markers), every entry of Grammar.history__ is a true claim: its call stack, read from the start-symbol down, contains only calls of symbols that the grammar allows, at locations that never decrease; line and column are those of the location of the last call; an entry claims a match of a symbol exactly if the symbol matches there according to the grammar, with exactly the text it matches, and the remaining text is what follows the match (respectively, after a failure, what follows the location; entries within lookbehinds aside) - also if the result has been recalled from the memo. A text that does not match leaves at least one entry for a failure, a non-empty text that matches completely an entry for the match of the start-symbol over the whole text. Recording the history changes nothing about the result (tree, errors) of parsing, except that failures of lookaheads at the end of the match are told apart from others.',
  ['programs', 'inputs'], 'all grammars without recursion, captures and mandatory markers, all texts', 'tests log the history of a few grammars without judging its entries',
  [D+'trace.py', D+'log.py'], [('trace_history, history_record, call_item', D+'trace.py'), ('HistoryRecord', D+'log.py')], ['Grammar.history__'])
if __name__ == '__main__':
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for x in P:
            f.write(json.dumps(x, ensure_ascii=True) + '\n')
    print(len(P))
