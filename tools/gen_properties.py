"""Writes /verif/properties.jsonl (kept in one place so it stays in step)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext},
              'why_tests_cant': why, 'anchors': a})
F = 'bant/frontend/'; X = 'bant/explore/'; T = 'bant/tool/'; U = 'bant/util/'
TIDY = 'scripts/run-clang-tidy-cached.cc'

p('C01', 'No BUILD file content can crash, corrupt or hang the tool',
  'Whatever bytes a BUILD file consists of, every command of the tool that reads it terminates in time roughly proportional to the size of the file and of the values it denotes, without touching memory it does not own, without undefined behaviour and without aborting on an internal check. A file that cannot be parsed is reported as an error and whatever else is in the project is still processed.',
  ['inputs', 'programs'], 'all byte sequences as BUILD content, valid, malformed, truncated at every offset, and every command run over them',
  'The parser, elaboration and query tests feed a few dozen well-formed snippets; malformed input is sampled in a handful of cases, and never pushed through the later stages.',
  [F+'scanner.cc', F+'parser.cc', F+'ast.cc', F+'elaboration.cc', F+'print-visitor.cc', F+'parsed-project.cc', X+'query-utils.cc', T+'dwyu.cc', T+'canon-targets.cc', T+'compilation-db.cc'],
  [('bounds checks in every scanner handler, error tokens', F+'scanner.cc'), ('error flag stops the parse, partial tree stays usable', F+'parser.cc'), ('null checks in every tree walk', F+'ast.h')])

p('C02', 'Arena memory stays aligned, disjoint and stable; its containers are sequences',
  'Every object handed out by the arena allocator is suitably aligned, lies in memory disjoint from every other allocation and keeps its content and address until the arena is destroyed. A sequence container built on the arena yields, after any history of appends, exactly the appended elements in order, through iteration, size, and all other accessors, and previously obtained element addresses remain valid.',
  ['histories', 'configurations'], 'every sequence of allocation sizes, types and appends, every arena block size and container growth configuration, several containers interleaved on one arena',
  'The one test that exists appends consecutive integers to one container of one configuration.',
  [U+'arena.h', U+'arena-container.h'],
  [('bump allocation with new block when exhausted', U+'arena.h'), ('blocks of growing capacity linked together', U+'arena-container.h')])

p('C03', 'Tokens tile the source: nothing lost, duplicated or invented',
  'For any content, scanning yields a finite sequence of tokens whose texts are non-overlapping pieces of that content in order, separated only by white space, line continuations and comments, ending in exactly one end marker; every valid lexeme is recognised as one token of the right kind. Looking ahead never changes what is returned next.',
  ['inputs', 'histories'], 'all byte sequences and every interleaving of peeking and consuming',
  'Tests compare a few dozen hand-picked lexemes; they can not cover adjacent lexemes, comments, escapes, line continuations and end-of-input in all combinations.',
  [F+'scanner.cc', F+'scanner.h'],
  [('hand written lexer', F+'scanner.cc'), ('one-token look-ahead buffer', F+'scanner.h')])

p('C04', 'Every position in a file maps to its exact line and column',
  'For every file content and every piece of text in it that the tool may report, the reported one-based line and column of start and end are those of the bytes in the file, and the surrounding line reported for it is exactly the line (or lines) containing it. This holds no matter which tokens precede it, including multi-line strings and comments.',
  ['inputs'], 'all contents (any mix of newlines, multi-line strings, comments, missing last newline) and all offsets in them',
  'Tests check a few positions in a few files; the line index is built as a side effect of scanning, so each lexer path can break it.',
  [F+'linecolumn-map.cc', F+'named-content.cc', F+'scanner.cc'],
  [('line starts registered while scanning', F+'scanner.cc'), ('binary search for line', F+'linecolumn-map.cc')],
  [('line index', 'sorted start of each line', F+'linecolumn-map.h')])

p('C05', 'Reported source ranges are rendered unambiguously and one-based',
  'A reported location renders as file name followed by one-based line:column, adding the end column if the range spans more than one character of that line, or the end line and column if it spans several lines; end columns are inclusive, empty ranges name just their start. From the rendered form the original range can be recovered, whatever the coordinates.',
  ['inputs'], 'all ranges: empty, single character, one line, many lines; all magnitudes of line and column',
  'Only a few sample ranges are formatted in the tests, mostly on single lines.',
  [F+'source-locator.cc', F+'source-locator.h', F+'linecolumn-map.cc'],
  [('stream operators for location, position and range', F+'source-locator.cc')])

p('C06', 'Printing a parsed file and parsing it again gives the same program',
  'Pretty-printing any successfully parsed BUILD file yields text that parses without error to the same program: same statements, calls, arguments, lists, operators with the same grouping, and literals with the same value. Printing is therefore stable: printing what was printed changes nothing.',
  ['programs'], 'all accepted BUILD files: nested lists, maps, tuples, comprehensions, all operators and literal kinds',
  'Parser tests print a few selected trees; no test parses what was printed.',
  [F+'print-visitor.cc', F+'parser.cc', F+'ast.cc'],
  [('print visitor', F+'print-visitor.cc')])

p('C07', 'Parsing yields exactly the structure and literal values written',
  'A BUILD file written in the supported subset of the language is accepted, and the resulting tree contains exactly the written statements in order, with the arguments, operators, nesting and literal values a reader of the language would assign. Text that violates the grammar is reported as an error at the position of the offending token.',
  ['programs', 'inputs'], 'all programs of the accepted grammar in any layout; single-token mutations of them',
  'Parser tests compare a couple of hand-built trees; the combinations of constructs and layouts are unbounded.',
  [F+'parser.cc', F+'scanner.cc', F+'ast.cc'],
  [('recursive descent parser', F+'parser.cc'), ('literal decoding', F+'ast.cc')])

p('C08', 'Range lookup finds exactly the range an element lies in',
  'After any history of inserting pairwise disjoint ranges, looking up a sub-range returns the value registered for the range that contains it, and reports absence when no registered range contains it.',
  ['histories'], 'all orders of inserting adjacent, distant and tiny ranges, and all lookups relative to them including boundaries',
  'The test inserts a handful of ranges in one order.',
  [U+'disjoint-range-map.h'], [('ordered map keyed by range end', U+'disjoint-range-map.h')])

p('C09', 'Target labels parse and print without changing their identity',
  'A target label in any accepted spelling (absolute, package-relative, implicit last component, with or without repository prefix) denotes the target the build language assigns to it; its canonical rendering parses back to an equal target and is the same for all spellings of it. Ordering and equality of labels are consistent with each other.',
  ['inputs'], 'all labels over repositories, packages, target names, relative to any package',
  'The tests list examples per spelling; equality of the spellings of one target for all names is not covered.',
  ['bant/types-bazel.cc', 'bant/types-bazel.h'],
  [('label parsing', 'bant/types-bazel.cc'), ('rendering', 'bant/types-bazel.cc')])

p('C10', 'Target patterns and visibility match exactly the targets they denote',
  'A target pattern (single target, whole package, package subtree, everything, and the visibility forms) matches a target if and only if the build language says so; in particular a package is never matched by the textual prefix of its name. Selecting a pattern on the command line selects just those targets.',
  ['inputs'], 'all patterns x all targets, including packages that are textual prefixes of one another, root package and external repositories',
  'Tests sample a small matrix of patterns and targets.',
  ['bant/types-bazel.cc', X+'query-utils.cc', 'bant/cli-commands.cc'],
  [('pattern kinds with package prefix test', 'bant/types-bazel.cc')])

p('C11', 'Glob patterns select exactly the files the build language selects',
  'A glob expression selects a file if and only if an include pattern matches its whole package-relative path and no exclude pattern does, with single stars never crossing a directory separator, double stars spanning any number of directories, and all other characters literal. Directories that can contain a match are never pruned from the search, except for those that are packages of their own.',
  ['inputs'], 'all sets of include and exclude patterns over all relative paths',
  'Tests sample a few patterns; meta characters in names, empty double stars, and the directory pruning predicate are sampled once each.',
  [U+'glob-match-builder.cc', F+'elaboration.cc'],
  [('translation to regular expressions', U+'glob-match-builder.cc'), ('verbatim and directory sets', U+'glob-match-builder.cc')])

p('C12', 'File collection finds each matching file exactly once and reads exactly',
  'Recursively collecting files below a directory returns every file that satisfies the file predicate and lies below directories that satisfy the directory predicate, exactly once, and terminates on symbolic link cycles. Reading a file returns exactly its bytes, or reports that it could not be read.',
  ['configurations', 'inputs'], 'all directory trees including symbolic links to files, directories and ancestors, dangling links, unreadable directories, empty and binary files',
  'The test walks one small fixed directory.',
  [U+'file-utils.cc'], [('work queue with seen inode set', U+'file-utils.cc')])

p('C13', 'Elaboration preserves the meaning of a BUILD file',
  'Evaluating a BUILD file replaces references to variables, concatenations of strings and of lists, globs and selects with a default by the value the build language gives them, and leaves everything it can not evaluate unchanged; only of a concatenation of lists the parts that can not be evaluated are left out. Apart from that it never changes the value of any attribute, loses or reorders elements, and doing it twice changes nothing more.',
  ['programs'], 'all BUILD files of the supported subset: nested concatenations, lists, variables defined in any order, globs against a file system',
  'Elaboration tests have about a dozen examples, each with a single construct.',
  [F+'elaboration.cc'], [('node replacement visitor with variable table', F+'elaboration.cc')])

p('C14', 'Target extraction reports each declared target with its attributes',
  'Listing targets yields each rule instance declared in a package exactly once, in order, with the rule kind, name and the attribute values written there, regardless of argument order, layout or unrelated arguments; nothing is reported that is not declared. A rule kind or name filter yields exactly the subset that matches.',
  ['programs'], 'all packages of declared rules with any attributes in any order, including inside assignments and nested calls',
  'The test covers one library with one set of attributes.',
  [X+'query-utils.cc', 'bant/cli-commands.cc'], [('visitor extracting attributes', X+'query-utils.cc')])

p('C15', 'The dependency graph is exactly the declared dependencies, both ways',
  'Starting from the selected targets, the reported dependencies are exactly the declared ones of every target reached within the requested depth, across packages that had to be loaded for it; the reverse listing is exactly the inverse relation, and alias listings are exactly the declared aliases. Dependency cycles do not prevent termination and each relation is reported once.',
  ['programs', 'histories'], 'all multi-package dependency graphs including cycles, self references, aliases, missing packages; all recursion depths and start patterns',
  'No test builds a dependency graph at all.',
  [X+'dependency-graph.cc', X+'aliased-by.cc', 'bant/cli-commands.cc'],
  [('breadth first resolution with package loading', X+'dependency-graph.cc')])

p('C16', 'Each header is attributed to exactly the targets that provide it',
  'A header or generated file is reported as provided by exactly those targets that list it, under every path it can be included by according to include, prefix and strip-prefix settings and generated-code rules. Looking up a path yields an exact entry if one exists and otherwise only entries sharing at least the required number of trailing path elements, choosing the longest.',
  ['programs', 'inputs'], 'all libraries with any header lists and include settings; all lookup paths',
  'Tests cover a few libraries and prefixes one by one.',
  [X+'header-providers.cc', X+'header-providers.h'],
  [('header to library mapping', X+'header-providers.cc'), ('suffix index', X+'header-providers.cc')])

p('C17', 'Dependency edits make declared dependencies match what is included',
  'For the headers the sources and headers of a target include in quotes, the suggested dependency edits add a visible library for each that is not available through a declared dependency that may be used, if only one such library provides it, and add nothing else. They remove a dependency if no included header comes from it, and never one that is marked to be kept, has to be linked in any case, or without which an included header would not be available anymore; nothing is removed from a target with a source or include that is not known. Applying all suggestions and running again yields no further suggestions.',
  ['programs', 'histories'], 'all projects of libraries, binaries, tests, aliases, visibility and feature declarations with any include graph',
  'The tests cover some thirty hand-written two- or three-target projects; interactions between rules and convergence are not covered.',
  [T+'dwyu.cc', T+'dwyu-internal.h', T+'edit-callback.cc'],
  [('include extraction', T+'dwyu.cc'), ('header to provider matching and keep/visibility rules', T+'dwyu.cc')])

p('C18', 'Canonicalizing dependencies keeps their meaning and converges',
  'Suggested canonical spellings denote the same target as the original spelling, exactly the dependencies of the selected targets that are not already in canonical form are renamed, and applying the edits leaves nothing to canonicalize.',
  ['programs', 'histories'], 'all dependency lists in all accepted spellings, including duplicates',
  'The test has one package with a few spellings.',
  [T+'canon-targets.cc', 'bant/types-bazel.cc'], [('comparison of canonical rendering', T+'canon-targets.cc')])

p('C19', 'All table formats carry the same rows, machine formats parse back',
  'Whatever table a command prints, each output format contains the same rows and cells in the same order; the comma-separated, JSON and s-expression forms are well-formed and decode to exactly the cell contents. In the aligned format columns line up and no cell content is truncated.',
  ['inputs', 'configurations'], 'all cell contents (quotes, separators, control characters, empty, non-ASCII) in all formats and any number of rows and columns',
  'The test prints one small table per format with harmless content.',
  [U+'table-printer.cc', U+'table-printer.h'], [('one printer per format with escaping', U+'table-printer.cc')])

p('C20', 'Command line contract: exit codes, prefixes, output neutrality',
  'Unknown commands and options are refused with a failure exit code and a message on the diagnostic stream, names of commands and output formats may be abbreviated to any unambiguous prefix and only to those, and the exit code reflects whether the request succeeded. Regular output depends only on the project content and command, not on verbosity, repetition, environment, or whether it goes to a file; no command changes anything in the project.',
  ['inputs', 'configurations'], 'all commands and their prefixes x option combinations x projects',
  'No test runs the command line tool.',
  ['bant/bant.cc', 'bant/cli-commands.cc', 'bant/session.h'],
  [('option parsing', 'bant/bant.cc'), ('command table and prefix lookup', 'bant/cli-commands.cc')])

p('C21', 'External repositories are resolved to the right directory',
  'Given the module declarations and the external directories present, each repository name resolves to the directory holding the declared module in the matching version if present, and to none if there is no such directory; resolution does not depend on directory listing order. The listing of external projects shows exactly the resolved ones.',
  ['configurations', 'inputs'], 'all sets of module declarations (with and without versions and alternative names) x all sets of directories in the output base, both naming schemes',
  'Tests do not cover workspace loading.',
  ['bant/workspace.cc', 'bant/workspace.h', T+'workspace.cc'],
  [('version-from-module extraction', 'bant/workspace.cc'), ('path resolution with version match', 'bant/workspace.cc')])

p('C22', 'The compilation database lists every source exactly once, well-formed',
  'The emitted compilation database is well-formed and has one entry per source and header file of each selected target, with the options configured in the project and include paths for the dependencies; the flags file variant carries the same options. No file is listed twice for one target and none is missing.',
  ['programs', 'configurations'], 'all projects of C++ targets with any source names, any bazelrc content',
  'No test covers this output.',
  [T+'compilation-db.cc'], [('option extraction from bazelrc', T+'compilation-db.cc'), ('entry per file', T+'compilation-db.cc')])

p('C23', 'Concurrent file prewarming is race-free and never changes results',
  'The background threads warming the file system cache never race with each other or with the main work, always finish before the process ends, and leave every command output identical to a run without them, however often and from whatever remembered state they are run. A corrupt, stale or unwritable remembered state is harmless.',
  ['schedules', 'histories', 'fault_sequences'], 'all thread schedules, all contents of the remembered file, concurrent processes sharing it',
  'The code is never run by a test; races depend on schedules.',
  [U+'filesystem-prewarm-cache.cc', 'bant/bant.cc'],
  [('thread pool reading remembered paths', U+'filesystem-prewarm-cache.cc')])

p('C24', 'A cached lint run reports the same as a run from scratch',
  'After any history of edits to sources, headers, configuration, tool version and arguments, a lint run that uses the cache produces the same report, summary and exit code as a run starting with an empty cache on the same tree. This includes editing, adding, removing and renaming files and headers included by them directly.',
  ['histories', 'configurations'], 'all histories of edits and runs; all file and include names; all argument lists',
  'The script has no test.',
  [TIDY], [('content hash over file and included headers', TIDY), ('cache directory named by tool version, arguments and configuration', TIDY)])

p('C25', 'Each out-of-date file is linted exactly once, others not at all',
  'A run invokes the lint tool exactly once for every source or header whose content, directly included headers or lint configuration are new since they were last linted, and never for one whose state was linted before, unless that result had findings and the build configuration is newer. Files that are not sources below the source directory are never linted.',
  ['histories', 'schedules'], 'all histories of edits, touches and runs, all worker schedules',
  'The script has no test.',
  [TIDY], [('work queue guarded by a mutex', TIDY), ('freshness test', TIDY)])

p('C26', 'The lint report is complete, counted right and in canonical paths',
  'The detailed report contains for each source with findings exactly the lint output of that source, in one block, with project paths made relative; the summary counts each kind of finding exactly as often as it is reported, ordered by count, and the exit code is success if and only if there are no findings.',
  ['inputs', 'configurations'], 'all lint outputs: any check names, any number of findings, any path prefixes, working directory names and file names',
  'The script has no test.',
  [TIDY], [('path canonicalization', TIDY), ('tallying by check name', TIDY)])

p('C27', 'Interrupted, failing or concurrent lint runs never poison the cache',
  'If a lint run is killed at any point, the lint tool crashes, or several runs share one cache at the same time, later runs still complete and report what a run from scratch reports. The worker threads of a run do not race.',
  ['crash_points', 'schedules', 'fault_sequences'], 'all points at which a run or the tool can be killed, all overlaps of concurrent runs',
  'The script has no test; the outcome depends on timing.',
  [TIDY], [('write to temporary and rename', TIDY), ('work queue guarded by a mutex', TIDY)])

p('C29', 'No project layout or file system state can crash the tool',
  'Every command either succeeds or fails with a message, in bounded time and without memory errors or undefined behaviour, whatever the directory tree, source files, module file and configuration files of the project look like. This includes missing, empty, unreadable, cyclic and oddly named files.',
  ['configurations', 'inputs', 'fault_sequences'], 'all project trees (links, permissions, names, missing pieces), all source file contents x all commands and options',
  'No test runs the tool on a file system.',
  ['bant/bant.cc', 'bant/cli-commands.cc', 'bant/workspace.cc', F+'parsed-project.cc', T+'dwyu.cc', T+'compilation-db.cc', T+'workspace.cc', U+'file-utils.cc'],
  [('optional results for unreadable files', U+'file-utils.cc'), ('error reporting on info stream', F+'parsed-project.cc')])

p('C30', 'Print shows exactly the selected targets, annotated and marked',
  'The print command shows the targets selected by the pattern, by -E (only files with syntax errors) and by -g (only targets with a name or string the regular expression matches), these and no others, each once and in the order of the file. Above each are its location, its label if it has a name, and its visibility. On a terminal exactly the matches of the regular expression are highlighted; the text is otherwise the same.',
  ['inputs', 'configurations'], 'all packages, with and without syntax errors, all patterns and regular expressions',
  'There is no test of the print command.',
  [F+'parsed-project.cc', F+'print-visitor.cc', 'bant/cli-commands.cc'],
  [('targets without name and -g filter buffered output', F+'parsed-project.cc'), ('highlighting by repeated search', F+'print-visitor.cc')])

p('C31', 'Diagnostics name each problem once and the exact place of it',
  'Syntax errors, labels that are none, sources that can not be read, includes nobody provides or that are not relative to the project, ambiguous, redundant or not permitted dependencies, files generated twice and modules that are missing are each reported, once per occurrence, on the diagnostic stream. The message starts with the file and the exact one-based line and columns of the text concerned, also if that is in a source or reached through a variable, and mentions the targets and files involved. Projects without such problems are not complained about, and quiet means quiet.',
  ['inputs', 'configurations'], 'all projects with any number of such problems, anywhere in files of any form, all levels of verbosity',
  'Tests look at suggested edits, not at diagnostics or the locations in them.',
  [T+'dwyu.cc', T+'canon-targets.cc', 'bant/workspace.cc', 'bant/explore/header-providers.cc', F+'parsed-project.cc', F+'parser.cc'],
  [('messages with location of the string concerned', T+'dwyu.cc'), ('location of the first unexpected token', F+'parser.cc')])

p('C32', 'Equivalent ways of writing a project give the same results',
  'What a command reports depends on what a project says, not on how it is written. White space, comments, line endings, quoting, order of arguments and of targets in a file, lists put together from parts, variables or globs instead of lists, other spellings of the same label, BUILD or BUILD.bazel, the order of includes in sources and what else is in there change nothing but locations; neither do statements and packages that have nothing to do with what is asked for. The result for a pattern is that of its packages, and of their targets, together.',
  ['inputs', 'configurations'], 'all projects, commands and patterns, and all pairs of equivalent forms of a project',
  'It is a relation between runs on different projects; tests look at single ones.',
  ['bant/cli-commands.cc', 'bant/explore/query-utils.cc', 'bant/explore/header-providers.cc', 'bant/explore/dependency-graph.cc', T+'dwyu.cc', T+'canon-targets.cc', T+'compilation-db.cc', F+'parsed-project.cc'],
  [('attributes of each target on its own', 'bant/explore/query-utils.cc'), ('packages loaded as needed', 'bant/explore/dependency-graph.cc')])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, (x['id'], len(x['title']))
        f.write(json.dumps(x) + '\n')
print(len(P), 'properties')
