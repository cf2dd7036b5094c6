import json,subprocess
h={}
for l in subprocess.run(['git','-C','/repo','log','--oneline','--no-abbrev-commit'],capture_output=True,text=True).stdout.splitlines():
    a,b=l.split(' ',1); h[b]=a
F=[('C01','fix: Counted','a bounded repetition that does not reach its lower bound moved the location forward: Option(Counted(Text("A"),(2,2)))+Text("B") matched "AB" as "B"'),
('C03','fix: keep the text after','text after an uncaught mandatory violation was lost when the start parser is recursive'),
('C04','fix: clear captured','RuntimeError (dictionary changed size) instead of a result after a mandatory violation or cancellation while values were captured'),
('C01','fix: Interleave','an interleave containing the same parser twice never matched'),
('C08','fix: negated','false error positions after negated lookaheads'),
('C07','fix: a mandatory violation in an interleave','AssertionError instead of an error message when everything before the violation inside an interleave was dropped'),
('C03','fix: the text skipped by a resume-rule','text skipped by a resume rule was moved before text that precedes it, when an earlier error node was empty'),
('C06','fix: whether a symbol','a value left on the capture stack was only warned about if the captured symbol happens to match at the beginning of the document: doc = { delim text [::delim] } on abc'),
('C06','fix: Pop must not','IndexError (pop from empty list) when a pop with nothing captured is reported a second time at the same place'),
('C04','fix: parsers used in skip','stale memo of a resume-rule parser that is connected to the root- but not to the start-parser: second parse with start symbol recovers at the place of the first'),
('C04','fix: a new grammar object','creating a second object of a grammar class with parser-based resume-rules made the first one recover with the parsers of the second'),
('C07','fix: skip-rules with','NotImplementedError instead of an error message if a skip-rule is a disposable symbol that matches the empty string: @disposable = SKIP @item_skip = SKIP'),
('C07','fix: the search for a re-entry','endless loop when a string in a skip- or resume-rule does not occur in the rest of the text and this rest begins with a comment'),
('C07','fix: text skipped by a resume','TypeError (StringView found) when text skipped by a resume-rule with a disposable parser was merged with neighbouring leaves'),
('C07','fix: a mandatory violation in a parser that drops','NotImplementedError (frozen node) instead of a tree when a mandatory violation occurs inside a dropped symbol'),
('C04','fix: history-recording must not','IndexError while tracing if the first match recorded belongs to a symbol with nothing but whitespace: root = [~] on a text that starts with whitespace'),
('C13','fix: select_path() starting','select_path(start, criterion, skip_subtree=..) entered subtrees to be skipped if they were siblings of the start path (or of one of its ancestors), and elsewhere did not yield their roots'),
('C14','fix: ContentMapping.get_node_index','get_node_index()/get_node_position() of a branch yielded -1 if its first (last) leaf was excluded from the mapping although other leaves of it are part of it'),
('C15','fix: insert_node() keeps','inserting a node inside a divisible leaf with attributes lost the attributes of the leaf'),
('C15','fix: content mapping is updated','after insert_node() at the start or end of a leaf, or a non-greedy markup within one leaf, the content mapping lacked the new node or contained paths that do not exist any more'),
('C15','fix: content mapping keeps the right text','content of the mapping duplicated text after a markup that split its last leaf: markup 3..6 of yx,zz,z,xyz'),
('C15','fix: markup on restricted','with select=leaf_paths(name) a greedy markup skipped or covered too little text, because selected leaves were judged by truncated paths'),
('C16','fix: a deep copy of a RootNode','changing inline_tags or an error of a copied root node changed the original as well'),
('C16','fix: add_token() and','add_token("bolder", "bold") added nothing, remove_token("stroked stroke", "stroke") left "d"'),
('C12','fix: flatten_sxpr() leaves','whitespace inside strings and attribute values was collapsed when an S-expression was flattened: (a "x  y")'),
('C12','fix: parse_xml() reads attribute','parse_xml failed on or misread attributes with single quotes, line-breaks or >'),
('C12','fix: parse_sxpr() finds the end of triple','parse_sxpr misread triple-quoted strings that contain quotation marks'),
('C12','fix: as_sxpr() writes text with both','text with both kinds of quotation marks was written in a form that reads back as another text'),
('C12','fix: attribute values that contain double','attribute values with double quotation marks were not read back from S-expressions'),
('C12','fix: parse_sxpr() reads the position','parse_sxpr failed on its own `(pos ...) entries if they contain line and column'),
('C12','fix: as_xml() does not indent','line-breaks inside an inlined leaf were followed by additional indentation: a with "x\\n" in inline_tags'),
('C12','fix: parse_xml() does not mistake','attributes of an only child named :Text were lost when reading XML'),
('C12','fix: from_etree() keeps','from_etree() lost the attributes of elements with child-elements'),
('C24','fix: indexing a StringView','sv[-1] was empty or the character before the view'),
('C24','fix: StringView.startswith() and','startswith()/endswith() with an end behind the end of the view looked at the text behind the view, negative bounds were added to the start of the view'),
('C24','fix: StringView.split() without','TypeError for split(), endless loop for split("")'),
('C24','fix: a StringView with swapped','a view with start > end was empty but did not start with, or match, the empty string'),
('C24','fix: the in-operator','"ab" in StringView("cab") was False'),
('C25','fix: TextBuffer.snapshot() uses','snapshot(CRLF) returned the text with LF if the text had been asked for before'),
('C25','fix: the length of an empty','len(TextBuffer("")) raised a ValueError'),
('C23','fix: get_config_values() matches','values set in the thread for keys matching the second and further patterns were left out and then overwritten by the presets'),
('C23','fix: errors in configuration data','after a TypeError or NameError in read_config_string() the presets stayed open and every later reading failed'),
('C23','fix: configuration values can be read while','AssertionError when a value is read while another thread has the presets open, or in two overlapping calls of get_config_values()'),
('C27','fix: a thread-local factory never hands','a factory created with the uniqueID of a deleted factory failed with an AssertionError or handed out the instance of the deleted one'),
('C20', 'fix: text_pos() is the inverse', 'text_pos() yielded wrong positions for almost every line and column, with and without given line-breaks'),
('C20', 'fix: transfer_errors() must not', 'transfer_errors() made the target node appear at the positions of all errors of the tree: node_errors() reported them at wrong nodes'),
('C20', 'fix: RootNode.swallow() hands over', 'errors attached to a node before it is swallowed by the root were not found at the root or reported twice'),
('C20', 'fix: node_errors() reports errors of removed', 'node_errors() of a branch also reported the errors of its ancestors and of other nodes at the same position'),
('C20', 'fix: an error that cannot be located', 'add_error() with a position behind the end of the text raised ValueError, but left the error registered at the node'),
('C20', 'fix: errors in empty documents', 'errors in an empty document never received line and column'),
('C20', 'fix: Error.visualize() does not cut', 'Error.visualize() omitted the last character of the last line of a text without trailing line-break'),
('C20', 'fix: canonical error strings: relative', 'canonical_error_strings(): relative file names started with a slash; the prefix of sibling directories was cut off'),
('C20', 'fix: canonical error strings of errors in unnamed', 'canonical_error_strings() lost the line number of errors in documents without name'),
('C21', 'fix: run_pipeline() runs each junction after', 'KeyError when one of the targets lies on the way to another target: targets AST and html, junctions CST-AST, AST-mid, mid-html'),
('C22', 'fix: Compiler calls attribute visitors only once', 'attribute visitors were called twice for every node without compilation method of its own'),
('C22', 'fix: Compiler does not swallow AttributeErrors', 'an AttributeError raised inside of an attribute visitor was silently ignored'),
('C22', 'fix: messages of a failed preprocessing', 'messages of compile_source() had no line and column (and were not sorted) if the preprocessor failed'),
('C17', 'fix: filters of a table-entry', 'the filters (BLOCK_CHILDREN, BLOCK_LEAVES ...) of an entry were ignored for the first node with its name'),
('C17', 'fix: post-processors of a transformation', 'a tuple of functions for ">" raised TypeError'),
('C17', 'fix: expand_table reports', 'a duplicate key inside a tuple raised TypeError instead of KeyError'),
('C18', 'fix: has_ancestor does not', 'has_ancestor was true for nodes with one of the names themselves'),
('C18', 'fix: replace_or_reduce evaluates', 'the condition was evaluated for the node instead of the child'),
('C18', 'fix: collapse_children_if applies', 'the merge rule was not applied below the first level'),
('C18', 'fix: move_fringes does not drop', 'content was lost if leaves and branches met'),
('C18', 'fix: move_fringes with side', "nothing was moved with side='right' if all children fulfilled the condition"),
('C18', 'fix: name_matches and content_matches', "patterns matched strings with a trailing line-break, 'a or b$' matched mere beginnings"),
('C18', 'fix: merge_adjacent and merge_connected', 'infinite recursion if the merged node had the name of swallowed nodes'),
('C18', 'fix: merge_connected keeps the name', 'a swallowed first node yielded a node without a name'),
('C09', 'fix: a group or repetition may begin with a multiplier (ebnf', '( 3 * x ) was a syntax error'),
('C09', 'fix: a group or repetition may begin with a multiplier (heur', '( 3 * x ) was a syntax error in the heuristic dialect'),
('C09', 'fix: a group or repetition may begin with a character code like 0x61 (ebnf', '( 0x61 ) and { 0x62 }+ were syntax errors'),
('C09', 'fix: a group or repetition may begin with a character code like 0x61 (heur', '( 0x61 ) and { 0x62 }+ were syntax errors in the heuristic dialect'),
('C09', 'fix: literals and backticked', 'literals with both kinds of quotation marks yielded broken Python code'),
('C09', 'fix: wrap_str_literal', 'long literals in optimized grammars yielded broken Python code'),
('C09', 'fix: optimizing a sequence', '@ optimizations yielded malformed regular expressions'),
('C09', 'fix: a failed parser is reported', 'a parser that does not match a text of nothing but whitespace reported no error: doc = "b" on a blank'),
('C09', 'fix: hex codes of characters', '0x5E, 0x5C, [0x5E0x61], [0x610x2D0x63] were not taken for the characters they name'),
('C09', 'fix: optimizing a literal followed', 'an optimized literal with whitespace on the right captured its text twice'),
('C11', 'fix: AnyChar-parsers drop', 'with @drop = strings or an explicit -> DROP the any-character parser "." still left its content in the tree'),
('C11', 'fix: dropping one item does not', 'one item dropped explicitly (-> DROP) made the implicit whitespace next to literals vanish everywhere else in the grammar'),
('C11', 'fix: flags in whitespace- and comment', '"global flags not at the start of the expression" when @ignorecase = True stands before @whitespace = /.../'),
('C11', 'fix: optimized literals respect', 'with @optimizations literals ignored @ignorecase = True'),
('C11', 'fix: character-ranges and characters respect', 'character-ranges ignored @ignorecase and @drop = regexps'),
('C11', 'fix: recursive symbols can serve', 'AttributeError when a recursive symbol is used in a skip- or resume-rule'),
('C11', 'fix: optimizations do not drop any', 'optimized any-character parsers were dropped with @drop = regexps'),
('C11', 'fix: removing a drop clause', 'removing "-> DROP" from the source of a definition also cut off the closing bracket: broken generated code'),
('C11', 'fix: optimized plain text keeps', 'with optimizations plain text containing a backslash in front of a slash matched a different text'),
('C11', 'fix: every expression in a skip- or resume', 'of several bracketed expressions as skip- or resume-rules of a symbol (or of symbols with the same beginning of their names) only one was used'),
('C11', 'fix: a bracketed symbol can be', 'AssertionError for a bracketed symbol as skip-rule: @item_skip = (SKIP)'),
('C11', 'fix: a recursive symbol that failed', 'a recursive symbol that failed with a mandatory violation failed silently when it was tried again at the same place'),
('C19', 'fix: lengths of the lists of a source map are all compared', 'SourceMap.validate() accepted lists of different lengths if only one of them differed'),
('C19', 'fix: source map does not mix up the positions of different files', 'source_map() cut off positions by the position of the next segment, even if that belongs to another file or an earlier place'),
('C19', 'fix: end of a text that ends with a preprocessor-token can be mapped', 'mapping the end position of a text ending with a token raised ValueError'),
('C19', 'fix: an empty source text is not replaced by the content of a file', "preprocess_includes('' ...) read a file instead: compiling an empty document with any generated parser crashed"),
('C19', 'fix: includes after another preprocessor and nested preprocessor-chains', 'errors of preprocessors in nested chains were located in an intermediate text; includes after another preprocessor were not refused'),
('C19', 'fix: circular includes are recognized for any spelling of the path', 'circular includes via ../ or ./ were followed until the recursion limit'),
('C19', 'fix: a preprocessor-token is not taken for one with a shorter name', "PreprocessorToken('A') matched a token named 'AB'"),
('C19', 'fix: include reader is shared by all files of an include-tree', 'ReadIncludeOnce read a file again if it was included by another file'),
('C19', 'fix: text of a file that is left out the second time is not lost', 'source locations in a file that is included twice with ReadIncludeOnce referred to an empty text'),
('C19', 'fix: a symbol can be defined as a preprocessor-token', 'a grammar with a symbol defined as a token (start = BEG) crashed the compiler'),
('C10', 'fix: report malformed regular expressions in whitespace- and hide', 'compiling crashed on a malformed regular expression in an @whitespace- or @hide-directive'),
('C10', 'fix: do not let the static analysis fail', 'compiling crashed on grammars for which errors had been reported already, e.g. `a = COMMENT__`'),
('C10', 'fix: check what a symbol in a lookbehind', 'a lookbehind for a symbol that stands for a sequence was accepted, one for a hidden symbol was refused'),
('C10', 'fix: report the retrieval of recursive', 'compiling crashed if a recursive symbol was retrieved'),
('C10', "fix: '@hide' is as repeatable", 'a second @hide-directive was reported as an error (other than its synonym @disposable)'),
('C10', 'fix: a malformed regular expression for comments', 'compiling crashed on a malformed @comment together with a skip-rule'),
('C10', 'fix: lookbehind for symbols that are retrieved', 'compiling crashed on a lookbehind for a symbol that is retrieved elsewhere'),
('C29', 'fix: recompile_grammar(directory)', 'recompile_grammar on a directory looked for the files in the current directory and stopped at the first failure'),
('C29', 'fix: create_scripts(directory)', 'create_scripts on a directory looked for the grammars in the current directory'),
('C26', 'fix: server: keep the ids of json-rpc-requests', 'requests with result None were not answered, notifications were, string ids ended the connection, error texts yielded invalid JSON'),
('C26', 'fix: server: json-rpc-params by position', 'a request with parameters by position was never answered'),
('C26', 'fix: server: invalid json-rpc-messages', 'invalid UTF-8, a method that is no string, a used id ended the connection'),
('C26', 'fix: server: accept any kind of response', 'responses with a falsy result (null) were rejected, responses before initialize ended the connection'),
('C26', 'fix: server: result that cannot be serialized', 'results with circular references or a non-numerical code were never answered'),
('C26', 'fix: server: finish open tasks and release', 'after the last request and the end of the stream arrived together, requests remained unanswered and the connection was never released'),
('C26', 'fix: server: Content-Length counts bytes', 'Content-Length of plain answers counted characters'),
('C26', 'fix: server: header-fields before the Content-Length', 'a header starting with another field was torn apart when chunked'),
('C26', 'fix: server: a message of the length zero', 'Content-Length: 0 made the server loop forever'),
('C26', 'fix: Connection.client_response', 'a response of the client was given to whichever task waited'),
('C26', 'fix: LSPBase: all rpc-functions', 'lsp_shutdown and lsp_initialized could not be called by the server'),
('C26', 'fix: json_dumps: keys', 'keys of objects in server notifications were not escaped'),
('C26', 'fix: server: more than a hundred responses', 'the 101st response that was not fetched ended the connection'),
('C26', 'fix: server: id in the answers', 'messages without method and id were answered under an internal id'),
('C26', 'fix: server: messages that cannot be read', 'unreadable messages were answered under the id 0'),
('C28', 'fix: nodetree: deserialize() raises ValueError for text that is no tree', 'an AST-test expecting the text 5, null or <a aborted the whole run with an AssertionError'),
('C28', 'fix: testing: tests of later stages whose name is marked with an asterisk must not be skipped', 'match-test M1 with AST-test M1*: the AST-test was silently never run'),
('C28', 'fix: testing: texts that end with a quotation mark must not be enclosed by the same marks', 'unit_to_config() of a text like a\'b" yields a file that cannot be read'),
('C28', 'fix: testing: warnings do not turn a lookahead-artifact into a failure', 'fail-test of a symbol with mandatory lookahead passed because the AST-transformation added a warning'),
('C28', 'fix: testing: stages that are missing because of a reported error must not end the test-run', 'text that does not match and breaks a later stage: AttributeError instead of an erratum'),
('C30', 'fix: dsl.process_file(): the default serialization is one name', 'process_file without serialization for a stage: the default name "sxpr" was taken letter by letter ("s", "x", ...), which is no serialization'),
('C30', 'fix: dsl.process_file(): results with fatal errors', 'files with the text "None" or the concrete syntax tree were written for targets with fatal errors'),
('C30', 'fix: dsl.process_file(): the file extension is normalized', 'serialization "default" with the configuration S-expression yielded the extension ".s-expression"'),
('C30', 'fix: dsl.process_file(): the output-directory is created', 'a source with a fatal error at an intermediate stage and a missing output directory: FileNotFoundError instead of a file of messages'),
('C30', 'fix: toolkit.instantiate_executor(): multithreading with', 'batch_process with debug_parallel_execution "multithreading": TypeError issubclass() arg 1 must be a class'),
('C10', 'fix: ebnf: @..._error-directive without message string', 'an @..._error directive with a regular expression only made compilation end with a NameError'),
('C11', 'fix: ebnf: @drop = strings etc. must not drop the definition of a symbol that is put in brackets', 'definitions in brackets, e.g. a = ("x") with @drop = strings, were dropped, or ended with an AssertionError'),
('C12', 'fix: nodetree.Node.from_json_obj(): children', 'children whose names end with a double underscore were lost when reading JSON in dictionary-flavor'),
('C08','fix: a text only','error position before the end of the match, when dropped content precedes it: text "A   B" with dropped whitespace')]
OPEN=[('C06','captured-in-recursion','doc = a "x" ::c | a "y" ::c ; a = "(" (c|a) ")" ; c = /[ab]+/ does not match "(ab)yab": the memoized result of the recursive symbol a does not capture c again after the first alternative failed'),
('C09','optimization-backtracks','with @optimizations=all the grammar doc = ( "a" | /[a]{2}/ ) "c" matches "aac", although the first alternative matches and is final: optimized parts are regular expressions, which backtrack'),
('C12','attr-both-quotes','an attribute value with both kinds of quotation marks is not read back from the S-expression: Node a with attribute k="\''),
('C12','attr-escaped-quote','an attribute value with a backslash before a double quotation mark is not read back from the S-expression: k=a\\"b'),
('C12','text-both-quotes','a text with triple single quotes that ends with a double quotation mark is not read back from the S-expression: \'\'\' "')]
with open('/verif/known_findings.jsonl','w') as f:
    for p,pre,what in F:
        c=next(v for k,v in h.items() if k.startswith(pre))
        f.write(json.dumps({'property':p,'id':f'fixed: property={p} {c[:12]}','status':'fixed','commit':c,'what':what})+'\n')
    for p,case,what in OPEN:
        f.write(json.dumps({'property':p,'id':f'open: property={p} {case}','status':'open','case':case,'what':what})+'\n')
