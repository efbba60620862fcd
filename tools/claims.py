PLUG = " Plugins are generated WebAssembly modules that answer with exactly what they were given and count their calls."
CLAIMED.update({
    "P08": ("exhaustive enumeration of documents with macros against a reference expansion", "model_checking", "Every document over six alphabets up to the stated number of symbols, with macros that fail or answer with no tree among them, covering shapes with all their one-place edits, and every Unicode character, is expanded by the real expander with real (generated) plugins and compared with a reference expansion of the JSON tree, call numbers included." + PLUG + " Trusts that the tree handed to the expander is right (P07)."),
    "P09": ("exhaustive enumeration of documents and command signatures against a reference evaluation", "model_checking", "All signatures of up to four plain, optional and array parameters (and of up to two of every type there is) with 0 to 5 arguments, results of up to a mebibyte as output and as arguments, and every well-formed document over five alphabets, with failing commands among them, up to the stated number of symbols, covering shapes with their edits and every Unicode character, compared with a reference evaluation of the document." + PLUG),
    "P10": ("exhaustive enumeration of hook declarations, assignments and documents against a reference evaluation", "model_checking", "All 81 plugin offers x 16 hook settings, all 256 pairs of settings, and all 81 assignments of hooks to plugins, 15 sets of hooks with each of three fixed answers and 15 sets of failing hooks, for every well-formed document of two spaces." + PLUG + " The division into paragraphs, lines, arguments and texts is taken from the tree (P07)."),
    "P11": ("exhaustive enumeration of documents through every stage, and of periodic long and deep documents through the program", "model_checking", "Every document over eight alphabets up to the stated number of symbols, and all shapes, edits and Unicode characters, well formed or not, through every stage in process (panics are caught, crashes and endless loops seen by a guard process); long, wide and deep periodic documents through the unoptimized brack binary with its own stack." + PLUG),
    "P22": ("exhaustive enumeration of configurations and of defective settings, write-read round trip", "exploration", "Every listed string in every field and pair of fields, all hook settings of two plugins, every one or two defects of a plugin's settings, some 250 near-misses of sources, settings and types; written with the serialization brack uses and read by Project::load_brack_toml. Strings outside the list are not covered."),
})
SERVER = " The language server is the unoptimized brack binary, driven over its pipes; nothing in it is replaced."
CLAIMED.update({
    "P12": ("exhaustive enumeration of the ways to cut input streams into reads", "model_checking", "Every way to cut four streams (kinds of messages, forms of headers, line breaks and multi-byte characters in bodies) at one place and at two places, every uniform piece size, and every message size around the sizes of read buffers; each piece is read by the server before the next is written, and each answer must come once its message is complete." + SERVER + " The reference is the answer to the same messages arriving whole."),
    "P13": ("exhaustive enumeration of message sequences against a protocol monitor", "model_checking", "All sequences of up to two of 33 kinds of messages and of up to four (thorough: five) of the twelve most central ones, each in a process of its own, judged by a monitor of the JSON-RPC response rules; all listed ids in four kinds of requests; 64 method names as request and notification with six kinds of parameters." + SERVER),
    "P14": ("exhaustive enumeration of single-place message faults, file states and environments from each server state", "model_checking", "Every message with one place (thorough: two) removed, replaced or added, from three server states; every combination of 7 configurations, 14 plugin files and 5 directory shapes with all sequences of two requests; every document over 12 symbols up to the stated depth saved and coloured. After each, a request must be answered." + SERVER + " Downloads meet a closed port."),
    "P15": ("exhaustive enumeration of documents and histories of saves against the compiler's own errors", "model_checking", "Every document over four alphabets up to the stated number of symbols, saved and compared with the errors of the in-process compiler converted to UTF-16 by an independent conversion; all histories of three saves of five documents, eight forms of URIs and five client announcements; documents with up to 300 mistakes." + SERVER + " Trusts the compiler's errors (P05, P06)."),
    "P16": ("exhaustive enumeration of documents, decoding the answer by the protocol rules", "model_checking", "Every document over three alphabets up to the stated number of symbols, decoded and compared with the brackets, modules and identifiers of the tokenizer." + SERVER + " Trusts the tokenizer (P01, P02)."),
    "P17": ("exhaustive enumeration of plugin offers and triggers", "model_checking", "All 64 sets of six offered commands in one plugin, pairs of 16 (thorough: all 64 x 64) and triples, nine triggers each, before opening, after opening and after opening again; all histories of three (thorough: four) steps of configurations, some with plugins that cannot be had, and documents opened of two projects." + PLUG + SERVER),
})
NET = " brack is the unoptimized binary in a scratch directory; GitHub is a TLS server on the loopback interface with scripted answers."
CLAIMED.update({
    "P18": ("exhaustive enumeration of document sets, directory orders and build histories against in-process compilation", "model_checking", "All sets of up to three documents of 12 contents in every directory order, all assignments of hooks, histories of edits and builds, file names, symbolic links, states of the output directory; every file of the project is compared." + NET + " The reference is the compiler's own libraries with freshly loaded plugins (P07 to P10); documents with syntax errors are not specified."),
    "P19": ("exhaustive enumeration of download outcomes, completion schedules and configuration histories", "model_checking", "Every assignment of outcomes (complete, chunked, redirected, error statuses, connections cut at many bytes) to up to three downloads, every interleaving of their pieces, all hook settings, pairs of configurations easily taken for one another, and all histories of configurations and builds up to the stated depth; requests, cache and outputs are judged, and the language server's commands." + NET + " Assets are told apart by their answers."),
    "P20": ("exhaustive fault injection: every file operation killed before, failed, cut short or torn, then repeated", "fault_enumeration", "Every file-system operation of each scenario, recorded with an LD_PRELOAD shim, is the place of a kill, of each listed error, and for writes of tearing and short writes; then the command runs again without fault and the state must be that of an undisturbed run. Operations the shim does not see (mmap, io_uring) are not covered; the storage below does not reorder." + NET),
    "P21": ("exhaustive enumeration of specifiers, project states, download outcomes and sequences of additions", "model_checking", "Every specifier within two edits of a good one, every combination of ten configurations, five directory shapes and the listed download outcomes, and all sequences of additions and builds up to the stated length, against a reference grammar and configuration." + NET),
    "P23": ("exhaustive enumeration of project names and of things that exist already", "exploration", "Every name of up to three (thorough: four) of 26 characters, chosen for TOML, shells and Unicode, listed longer ones, and eight kinds of things in the way for each of five names; every file operation of a creation killed, failed, torn or cut short. The configuration is read with Project::load_brack_toml and the project built." ),
    "P24": ("exhaustive enumeration of documents, command lines and plugin directories against the stages called in process", "model_checking", "Every document over two alphabets up to the stated number of symbols at every level, as text and as JSON (which is also read back); all levels, file names and backends; all pairs of 33 plugin file names, also as symbolic links, and all pairs of places for the plugin directory. Random ids are compared up to renaming. Trusts the stages themselves (P01 to P11)."),
})
CLAIMED.update({
    "P25": ("stateless exploration of all interleavings of two processes at their file operations, with a bound on preemptions", "model_checking", "Eleven pairs of commands; an LD_PRELOAD shim stops both processes at every file operation on the project and a scheduler lets one at a time continue; every schedule with up to two (thorough: four) preemptions or deaths is run on the real program, and the project is judged after every step and at the end. Operations the shim does not see (mmap, io_uring) and more than two commands are not covered. GitHub is a TLS server on the loopback interface."),
})
