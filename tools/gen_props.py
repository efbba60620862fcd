#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))
T='crates/brack-tokenizer/src/'; PA='crates/brack-parser/src/'; TR='crates/brack-transformer/src/'
PL='crates/brack-plugin/src/'; CG='crates/brack-codegen/src/'; LS='crates/brack-language-server/src/'; PM='crates/brack-project-manager/src/'

prop('P01','Tokenization is lossless and positions are exact',
 'Every document, whatever its characters, tokenizes successfully, and the concatenated text of its tokens in order is the document itself, character for character, ending in one end-of-input token. Every token starts where the previous one ended (or at column 0 of the next line after a newline, LF or CRLF), and its line and column range, counted in user-perceived characters, is exactly the range it occupies in the document. No document length changes this.',
 ['inputs'],'every document up to the bound over an alphabet with letters, blanks, LF, CRLF, every special character, multi-code-point graphemes and NUL; plus long-document families',
 'The ten tokenizer tests compare ten fixed documents; losslessness is a statement about all documents and all combinations of nesting state and adjacent characters.',
 [T+'dispatch.rs',T+'text.rs',T+'newline.rs',T+'identifier.rs',T+'module.rs',T+'utils.rs'],
 [('one handler per token kind advances line/column and flushes the pending text',T+'dispatch.rs'),('grapheme splitting',T+'utils.rs')],
 ['brack compile --output-level 1','tokenizer API'])
prop('P02','Characters get their syntactic role from context, and only from context',
 'Outside brackets a document is text, brackets, newlines and backslashes; blanks, dots and commas there are part of the text. Inside brackets blanks, dots and commas are separators of their own, and in a command the characters between the opening bracket and the dot are its module and those between the dot and the next blank or closing bracket its identifier. Brackets and backslashes are always structural, a backslash makes the special character after it plain text without opening or closing anything, and after a bracket is closed what follows has the role it has outside or in the enclosing bracket, as if the closed one were a single module, identifier or text.',
 ['inputs'],'every well-formed document up to the bound: all nestings of the three brackets, escapes of every special character, text of every kind before, between and after',
 'Ten fixed documents reach a handful of the nesting/adjacency states of the tokenizer; one wrong state transition only shows for particular successions of brackets, escapes and text.',
 [T+'dispatch.rs',T+'backslash.rs',T+'tokenizer.rs',T+'square_bracket_open.rs',T+'square_bracket_close.rs'],
 [('nesting counters and the looking-for-identifier flag',T+'tokenizer.rs'),('escape handling',T+'backslash.rs')],['tokenizer API'])
prop('P03','The concrete syntax tree follows the documented grammar',
 'A document is accepted by the parser exactly if its token sequence, read from left to right with each repetition taken as far as it goes, derives from the published concrete grammar: paragraphs separated by blank lines, brackets that may stay unclosed, closing brackets that close nothing only alone on their line. The leaves of the resulting tree, in order, are the tokens of the document with their texts and positions, an escape being a node with the escaped character below it, and every bracket node holds exactly what stands between it and the bracket that closes it (or the point where it ends unclosed).',
 ['inputs'],'every token sequence up to the bound over all token kinds, and every document up to the bound',
 'The 29 parser tests feed each rule a few tokens; acceptance and shape are statements about every sequence of tokens, including sequences no test author wrote.',
 [PA+'parse.rs',PA+'stmt.rs',PA+'expr.rs',PA+'square.rs',PA+'angle.rs',PA+'curly.rs',PA+'escaped.rs','brack.cst.ebnf'],
 [('recursive descent, one function per rule',PA+'parse.rs')],['brack compile --output-level 2'])
prop('P04','Node locations span what they contain, and node ids are unique',
 'In the syntax trees of every document a node starts where its first leaf starts and ends where its last leaf ends (an unclosed bracket may additionally span the token at which it was given up), so that a child never lies outside its parent and siblings follow each other in order. No two nodes of one tree share an id, and the node found by an id is the node with that id.',
 ['inputs'],'every document up to the bound, multi-line ones with lines of very different lengths included',
 'No test looks at the location or id of an inner node at all; wrong merging of locations shows only for particular line/column relations.',
 [PA+'cst.rs',T+'tokens.rs',PA+'expr.rs',TR+'transform.rs',TR+'ast.rs'],
 [('merge of child locations',T+'tokens.rs'),('fresh id per node',PA+'cst.rs')],['brack compile --output-level 2 and 3 --json'])
prop('P05','No diagnostics exactly when the document is well formed',
 'For every document the parser accepts, the list of syntax errors is empty if and only if every command has an opening bracket, a module, a dot, an identifier, non-empty arguments separated by single commas, no further dot among its own arguments and its matching closing bracket, every backslash is followed by a special character, and no closing bracket is left over. In particular a mistake in one command never makes anything outside that command be reported.',
 ['inputs'],'every document over an alphabet of syntax fragments up to the bound, judged by an independent recogniser',
 'No test of the repository ever runs the stage that reports syntax errors.',
 [TR+'utils.rs',TR+'square.rs',TR+'angle.rs',TR+'curly.rs',TR+'backslash.rs',TR+'stmt.rs'],
 [('checks on each bracket node',TR+'utils.rs'),('leftover closing brackets',TR+'stmt.rs')],['brack compile --output-level 3','textDocument/publishDiagnostics'])
prop('P06','Each diagnostic names the mistake and points at it',
 'When one mistake is made in an otherwise well-formed document, the reported errors are of the kind of that mistake and lie at the place where it was made: an unclosed bracket from the bracket to the end of its content, a leftover closing bracket, a superfluous comma, a superfluous dot or an invalid backslash at that character, an incomplete header as missing module, dot or identifier at the elements that stand in their place. The same error is not reported twice, and several mistakes in separate paragraphs are each reported.',
 ['inputs'],'every well-formed document up to the bound, every mistake of each kind at every place it can be made, and pairs of mistakes in separate paragraphs',
 'No test of the repository ever runs the stage that reports syntax errors, let alone looks at a location.',
 [TR+'utils.rs',TR+'error.rs',TR+'square.rs',TR+'angle.rs',TR+'curly.rs'],
 [('error kinds and locations',TR+'error.rs')],['brack compile --output-level 3','textDocument/publishDiagnostics'])
prop('P07','The abstract syntax tree says what the document says',
 'For every well-formed document the abstract tree has one paragraph per blank-line-separated block with one expression per line, each with exactly the texts, escaped characters and commands of that line in order, and each command has its module, its identifier and one expression per comma-separated argument, in order. Nothing of the text is lost, duplicated or reordered, except that blanks around arguments, commas and line breaks are structure and not text.',
 ['inputs'],'every well-formed document up to the bound, generated together with its meaning',
 'No test of the repository runs the transformation.',
 [TR+'transform.rs',TR+'utils.rs',TR+'stmt.rs',TR+'document.rs',TR+'expr.rs',TR+'square.rs',TR+'angle.rs',TR+'curly.rs'],
 [('simplification of bracket nodes and grouping of arguments',TR+'utils.rs')],['brack compile --output-level 3 --json'])
prop('P08','Every macro is expanded once, in order, with the whole document',
 'When a document is expanded, the macro of each angle-bracket command that is not itself an argument of another macro is called exactly once, in document order, with the whole unexpanded document and the id of that command. The result stands exactly where the command stood, everything else is unchanged, and an unknown module or macro, or one that fails or does not answer with a tree, is an error, not a silently unexpanded document.',
 ['inputs'],'every well-formed document with macros up to the bound, at every position and nesting, with macros that return different kinds of nodes',
 'The expander has no tests; order, multiplicity and position of expansions need all placements of several macros.',
 ['crates/brack-expander/src/expand.rs',PL+'plugins.rs'],
 [('recursive rebuild with macro results','crates/brack-expander/src/expand.rs')],['brack compile --output-level 4'])
prop('P09','Output is the composition of the commands of the document',
 'For every well-formed document without unexpanded macros, the generated output is obtained bottom-up: each square-bracket command is the result of the inline command and each curly-bracket command the result of the block command of that module and name, called once with the generated arguments in the declared positions, optional arguments absent or present and an array taking all remaining arguments; texts and results are concatenated in document order. Plugins may use WASI. A missing plugin or command, a command that fails, and a number of arguments the signature does not allow are errors.',
 ['inputs','configurations'],'every well-formed document up to the bound against every signature up to the bound of plain, optional and array arguments',
 'Code generation has no tests.',
 [CG+'generate.rs',CG+'square.rs',CG+'curly.rs',CG+'expr.rs',CG+'stmt.rs',CG+'text.rs',PL+'types.rs',PL+'plugins.rs'],
 [('argument counting',PL+'types.rs'),('argument binding',CG+'square.rs'),('argument binding',CG+'curly.rs')],['brack compile --output-level 5'])
prop('P10','Container hooks wrap exactly what they are declared for',
 'A plugin whose text, expression, statement or document hook is enabled gets every text, every line and argument, every paragraph, or the whole output respectively, exactly once, innermost first, and its result takes that place, even if it is empty, and if it fails there is no output; a hook that is not enabled has no effect, even if the plugin offers it. Loading fails if an enabled hook is not offered or has the wrong result type, or if two plugins enable the same hook.',
 ['configurations','inputs'],'every assignment of the four hooks to two plugins, every subset of offered hooks and result types, over a set of documents',
 'Hooks and plugin loading have no tests.',
 [PL+'plugin.rs',PL+'plugins.rs',CG+'text.rs',CG+'expr.rs',CG+'stmt.rs',CG+'generate.rs'],
 [('hook checks at load time',PL+'plugin.rs'),('hook calls',PL+'plugins.rs')],['brack build'])
prop('P11','No document crashes the compiler',
 'Whatever a document contains, well formed or not, every stage of compilation ends with a result or a reported error: it never panics, overflows the stack, or runs forever. This includes documents of tens of thousands of characters, nesting a hundred brackets deep, commands with any number of arguments, and output for documents that contain syntax errors.',
 ['inputs'],'every document up to the bound over the full special-character alphabet, through all stages, plus long, wide and deep families',
 'Tests contain only documents their author expected; a crash needs an unexpected succession of a few characters or an unusual size.',
 [T+'dispatch.rs',TR+'transform.rs',TR+'utils.rs','crates/brack-expander/src/expand.rs',CG+'square.rs',CG+'curly.rs',PL+'types.rs'],
 [('error values instead of panics',TR+'transform.rs')],['brack compile'])
prop('P12','Language server messages do not depend on how input is split',
 'The language server gives the same answers, in the same order, however the byte stream of its input is split into reads: messages may arrive in pieces cut anywhere, even inside the header or a multi-byte character, or many at once. Each message is answered as soon as its last byte has arrived, without waiting for further input.',
 ['schedules','inputs'],'every way of cutting a stream of messages into reads with up to the bounded number of cuts, and every number of messages per read',
 'The language server has no tests, and a test would fix one way of splitting.',
 [LS+'server.rs'],[('buffering of input until a message is complete',LS+'server.rs')],['standard input and output of brack language-server'])
prop('P13','Every request gets exactly one response, notifications none',
 'In every sequence of messages each request is answered by exactly one response that carries its id, number or string, in the order of the requests, with a result or an error: unknown methods get error -32601, invalid JSON gets error -32700 and an invalid message -32600, both with a null id. Notifications and responses sent to the server are never answered, and everything the server writes is a well-formed message whose announced length is its length in bytes.',
 ['histories'],'every sequence of messages up to the bounded length over a menu of requests, notifications, responses and invalid messages',
 'The language server has no tests; multiplicity and order of responses are properties of histories.',
 [LS+'server.rs',LS+'request.rs',LS+'notification.rs',LS+'result.rs',LS+'response.rs'],
 [('dispatch on id and method',LS+'server.rs')],['standard input and output of brack language-server'])
prop('P14','The language server survives bad messages and a bad environment',
 'No message and no state of the file system ends the language server before its input does: after messages that are not JSON or have missing, superfluous or ill-typed parameters, after documents that do not exist, are not UTF-8 or do not parse, after broken projects and plugins that cannot be downloaded or loaded, the next valid request is answered as usual.',
 ['histories','fault_sequences'],'every history up to the bounded length over a menu of bad messages and environment faults, each followed by a probe',
 'The language server has no tests; failures of the environment are not produced by any test.',
 [LS+'server.rs',LS+'notification/did_open.rs',LS+'notification/did_save.rs',LS+'request/semantic_tokens.rs',LS+'request/completion.rs'],
 [('errors of handlers become responses or log messages',LS+'server.rs')],['standard input and output of brack language-server'])
prop('P15','Published diagnostics are the errors of the saved file',
 'After a document that parses is saved, a client that announced support gets, under the URI it used, exactly the syntax errors the compiler reports for the file as it is on disk now, with their messages and with positions in UTF-16 code units as the protocol prescribes; when there are none it gets an empty list, which clears earlier ones. A client that did not announce support gets none.',
 ['histories','inputs'],'every document of a bounded family with multi-code-unit characters before and around errors, and every sequence of edits and saves of two documents up to the bounded length',
 'The language server has no tests; stale diagnostics need a history and position errors need unusual characters.',
 [LS+'notification/did_save.rs',LS+'server.rs',T+'utf16.rs'],
 [('errors of the transformer become diagnostics',LS+'notification/did_save.rs'),('column conversion',T+'utf16.rs')],['textDocument/publishDiagnostics'])
prop('P16','Semantic tokens decode to the commands of the document',
 'For every document the semantic tokens, decoded by the protocol rules (relative positions, UTF-16 code units), are exactly the brackets, modules and identifiers of the document, in order and without overlap, each at its place with its full length, and each with a type of the announced legend that depends only on what it is: namespace for modules, variable for identifiers, macro, method and function for angle, curly and square brackets.',
 ['inputs'],'every document up to the bound, multi-line, with characters of one and several code units',
 'The language server has no tests; the relative encoding is wrong only for particular neighbours.',
 [LS+'request/semantic_tokens.rs',T+'utf16.rs'],[('delta encoding',LS+'request/semantic_tokens.rs')],['textDocument/semanticTokens/full'])
prop('P17','Completion offers exactly the commands that fit the bracket',
 'With an opened document of a project, completion triggered by "[", "{" or "<" offers each inline command, block command or macro respectively of every plugin of the project exactly once, as module.command with the matching closing bracket, and nothing else; any other trigger offers nothing. Without a project the request is answered with no completions.',
 ['configurations','histories'],'every set of up to two plugins with every combination of command kinds, every trigger, with and without a project, after every switch between projects up to the bound',
 'The language server has no tests.',
 [LS+'request/completion.rs',LS+'notification/did_open.rs'],[('filter on trigger and result type',LS+'request/completion.rs')],['textDocument/completion'])
prop('P18','A build writes exactly the output of each document',
 'A successful build writes, for every document file of the docs directory, the output of compiling that document with the plugins and hooks configured for the project to a file of the same stem with the backend as its extension, replacing an old one, and changes nothing else but the plugin cache. The output of a document does not depend on the other documents, on earlier builds or on the order in which files are listed, and a document that cannot be compiled makes the build fail.',
 ['configurations','histories'],'every set of up to the bounded number of documents, edits and rebuilds up to the bounded depth, every order of directory entries, several backends',
 'The project manager has no tests.',
 [PM+'project.rs','src/main.rs'],[('build loop over docs',PM+'project.rs')],['out directory after brack build'])
prop('P19','The plugins used are the plugins configured',
 'A build or the language server uses for each configured plugin the release asset of the configured owner, repository and version for the configured backend, downloading it exactly if it was not downloaded for this configuration before, with exactly the configured hooks, whichever order and timing downloads complete in. If any download fails with an error status or a broken connection the command fails, and nothing but a completely downloaded asset is ever taken from the cache later.',
 ['configurations','schedules','fault_sequences','histories'],'every project of up to three plugins, every order of completion of the downloads, every assignment of answers (success, error status, truncated, reset) to them, every single change of the configuration between two builds',
 'The project manager has no tests and none has a network.',
 [PM+'project.rs',PM+'plugin.rs'],[('concurrent downloads joined before use',PM+'project.rs'),('cache key from the configuration',PM+'plugin.rs')],['HTTP requests, plugins directory and output of brack build'])
prop('P20','An interrupted or failed build or add can simply be repeated',
 'If a build or the addition of a plugin is killed at any point, or any of its file operations fails or is cut short, then documents and project configuration are still intact and loadable, with the configuration either as it was or as it should become, a failed operation is not reported as success, and running the command again without the fault leads to the same state as if nothing had happened.',
 ['crash_points','fault_sequences'],'every file-system operation of each command as crash point or failure, every torn length of its writes up to the bound, followed by recovery',
 'No test interrupts anything.',
 [PM+'project.rs',PM+'plugin.rs',PM+'atomic.rs'],[('write to a temporary file and rename',PM+'atomic.rs')],['files of the project after the crash and after recovery'])
prop('P21','Adding a plugin changes the configuration by exactly that plugin',
 'Adding "github:OWNER/REPO@VERSION" downloads the asset of that release, stores it, and extends the project configuration by exactly that plugin with that owner, repository and version, keeping everything configured before. An existing plugin, a malformed or unsupported specifier, a missing project or a failed download is an error that leaves the configuration as it was.',
 ['histories','inputs','fault_sequences'],'every sequence of additions up to the bounded length from several initial configurations, all specifiers of a bounded grammar of well-formed and malformed ones, every answer of the server',
 'The project manager has no tests.',
 [PM+'plugin.rs'],[('specifier parsing, duplicate check, rewrite of the configuration',PM+'plugin.rs')],['Brack.toml and plugins after brack add'])
prop('P22','Project configuration survives being saved and loaded',
 'Every project configuration that is written and read back is the same configuration: document name, version, backend and authors and, for each plugin, owner, repository, version and each hook setting, whatever characters the strings contain. Text with a missing, duplicate or unknown plugin setting or an unsupported plugin source is rejected rather than misread.',
 ['configurations'],'every configuration of the bounded space (strings with quotes, escapes, line breaks and non-ASCII, all hook settings, up to two plugins) and every single-field deviation of its text form',
 'The project manager has no tests; the hand-written serialization depends on every combination of optional fields.',
 [PM+'config.rs',PM+'document.rs',PM+'plugin.rs'],[('hand-written serialization and deserialization of plugins',PM+'plugin.rs')],['Brack.toml'])
prop('P23','A new project is complete, loadable, and overwrites nothing',
 'Creating a project with any name that is a possible directory name yields a directory with an empty main document and a configuration that loads and carries exactly that name, and the project can be built at once. If something of that name exists already, creation fails and changes nothing. A creation whose file operations fail is not reported as success, and nothing outside the new directory is ever touched.',
 ['inputs','histories'],'every name up to the bounded length over an alphabet with quotes, backslashes, blanks, line breaks, brackets and non-ASCII, each against every kind of existing file',
 'The command has no tests.',
 ['src/main.rs'],[('project template','src/main.rs')],['directory created by brack new'])
prop('P24','The compile command runs the requested stages with the given plugins',
 'For every document, output levels 1 to 5 of the compile command print what the tokenizer, parser, transformer, expander and generator yield for it, as JSON that describes the same value if requested, and level 3 without JSON prints the syntax errors if there are any. Every plugin file NAME_HASH.wasm in the given directory, or the one named by the environment, is available as module NAME, files of other names are ignored, and failure of any stage, a wrong file name or level gives a non-zero exit status and no output of later stages.',
 ['inputs','configurations'],'every document of a bounded family at every level and format, every plugin file name of a bounded grammar, every combination of options',
 'The binary has no tests.',
 ['src/main.rs','src/sub_commands.rs'],[('stage selection and plugin discovery','src/main.rs')],['standard output and exit status of brack compile'])
prop('P25','Commands that run at the same time do not break one another',
 'When two commands (build, add, a language server that opens a document) run on one project at the same time, then for every interleaving of their file operations: the configuration can be read at every moment and only gains the additions; a plugin that stands at its final place is complete; each command succeeds with the result it has when it runs alone (of two additions of one plugin the second may find it there; of two different additions one may be lost); the outputs are right in the end; and a later build gives the right outputs, also if one of the two died at any of its operations.',
 ['schedules','crashes'],'every interleaving of the file operations of two commands up to a number of preemptions, and the death of one of them at any operation',
 'The tests run one command at a time and never look at files in between.',
 [PM+'project.rs',PM+'plugin.rs','src/sub_commands.rs'],[('cache lookup, download and output',PM+'project.rs'),('writing of files that others may read',PM+'atomic.rs')],['files of the project after every operation','exit status of both commands'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+'\n')
print(len(P))
