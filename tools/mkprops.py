#!/usr/bin/env python3
"""Source text of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {'files': files,
         'mechanism': [dict(name=n, where=w) for n, w in mech],
         'observe_at': observe, 'hook_needed': None}
    if state:
        a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

OPS = 'marcel/op/'

prop('C01', 'Stream operators compute exactly their defined function',
 'For every input stream and every legal argument, each single-input stream operator (gen, map, select, head, tail, reverse, sort, unique, '
 'expand, window, cast) sends downstream exactly the items, with exactly the values and in exactly the order, that its documented '
 'definition prescribes: nothing is lost, invented, duplicated, reordered or altered. This holds for streams of any length, including '
 'empty ones, and for any composition of these operators into a pipeline.',
 ['inputs', 'programs'], 'all finite streams of Python values (scalars, tuples, lists, None, mixed arity), all legal arguments, all compositions of the operators',
 'The tests run a few fixed commands per operator on short well-formed streams; definitional correctness quantifies over all inputs, arguments and compositions.',
 [OPS+f for f in ('gen.py','map.py','select.py','head.py','tail.py','reverse.py','sort.py','unique.py','expand.py','window.py','cast.py')]+['marcel/core.py','marcel/pipeline.py'],
 [('Op.receive/flush/send protocol', 'marcel/core.py Op'), ('per-operator receive() and flush()', 'marcel/op/*.py')],
 ['stdout of a command ending in a repr-printing map', 'items gathered through the API'])

prop('C02', 'Reductions give each group its exact fold, in order of first appearance',
 'For every input stream, reduction with any combination of reducing functions and grouping markers outputs exactly one item per group, groups '
 'in order of first appearance, each component being the left fold of its function over that group in input order; in incremental mode '
 'each input item is instead output once, in order, extended with the running folds of its own group up to and including that item. '
 'Squishing replaces each item by the left fold of its own components. The predefined reductions (+ * ^ & | and or max min count concat) agree '
 'with the corresponding mathematical fold, for every stream including empty ones.',
 ['inputs'], 'all input streams, all vectors of reducers/group markers, incremental or not',
 'A handful of fixed reductions are tested; the fold identity quantifies over all streams, groupings and reducer vectors.',
 [OPS+'red.py', OPS+'squish.py', 'marcel/reduction.py', 'marcel/builtin.py', 'marcel/parser.py'],
 [('grouping and accumulator maintenance', 'marcel/op/red.py'), ('symbol to reduction function mapping', 'marcel/reduction.py')],
 ['stdout of the command'])

prop('C03', 'Combining several streams obeys bag, set and relational semantics',
 'Union yields the bag sum of all its inputs, difference the bag difference, intersection the bag minimum of multiplicities; join yields '
 'exactly one output for each pair of left and right items with equal keys (plus, when asked to keep, each unmatched left item once); '
 'filtering keeps or discards exactly the items that do, or do not, occur in the other stream. This holds for every combination of '
 'streams, including empty ones, duplicates and any number of argument pipelines, and no item is ever lost or duplicated beyond that.',
 ['inputs', 'programs'], 'all tuples of input streams, duplicates and empties included, and all argument pipelines producing them',
 'Tests use a few tiny fixed streams; multiplicity laws quantify over all bags.',
 [OPS+'union.py', OPS+'intersect.py', OPS+'difference.py', OPS+'join.py', OPS+'filter.py'],
 [('multiplicity maps', 'marcel/op/intersect.py, difference.py'), ('key to items map', 'marcel/op/join.py'), ('right-hand set', 'marcel/op/filter.py')],
 ['stdout of the command'])

prop('C04', 'A pipeline is a value: every invocation behaves like its text, afresh',
 'Invoking a pipeline, whether written in place, held in a variable, given positional or named arguments, passed as an argument to another '
 'pipeline or nested inside one, produces exactly the output of its text with the arguments substituted and no memory of anything else. '
 'In particular repeating an invocation, after earlier runs that completed, failed, were aborted or received other input, gives the same output '
 'as the first time, and two uses of the same pipeline within one command do not affect each other. Pipelines driven by operators that take '
 'pipelines as arguments (case, args, union, join, and so on) run once for each time those operators specify, with the arguments they specify.',
 ['programs', 'histories', 'inputs'], 'all programs built from nested, parameterised and shared pipelines, and all histories of earlier invocations',
 'Tests invoke each stored pipeline once or twice with one argument; state leakage shows only across particular sequences of runs and nestings.',
 ['marcel/pipeline.py', 'marcel/core.py', OPS+'runpipeline.py', OPS+'case.py', OPS+'args.py', 'marcel/nestednamespace.py', 'marcel/parser.py'],
 [('pipeline setup/run/flush/cleanup life cycle', 'marcel/pipeline.py PipelineMarcel'), ('argument binding', 'marcel/op/runpipeline.py'),
  ('copying and appending', 'marcel/pipeline.py PipelineExecutable')],
 ['stdout of repeated and nested invocations'])

prop('C05', 'A failure on one item is reported once, in place, and never stops the rest',
 'When a user-supplied function or conversion fails on some items of a stream, every failing item yields exactly one error, at the position where its output would '
 'have been, and every other item is processed exactly as if the failing items had not been in the stream. Errors travel downstream without being '
 'passed to later functions, and are written once as text rather than lost.',
 ['inputs', 'programs', 'fault_sequences'], 'every subset and order of failing items, in every operator of any composition that applies a user function per item',
 'Tests make one fixed function fail at one or two places; containment must hold for every failure pattern and operator.',
 ['marcel/core.py', 'marcel/object/error.py', OPS+'map.py', OPS+'select.py', OPS+'write.py', OPS+'red.py', OPS+'window.py', OPS+'cast.py', OPS+'case.py'],
 [('error objects and resume', 'marcel/core.py Op.call/fatal_error/receive_input'), ('error forwarding', 'marcel/core.py Op.receive_error')],
 ['stdout of the command'])

prop('C06', 'The Python API and the command line compute the same results',
 'For every pipeline expressible in both, running it through the Python API (by iterating over it, gathering it or taking its first item, with functions given '
 'as lambdas and nested pipelines given as pipelines or pipeline-valued functions) yields the same items in the same order as the command-line form. '
 'Re-evaluating an API expression gives the same items again, gathering wraps or unwraps single values and puts errors in the result '
 'or in the list given for them, exactly as requested; taking the first item gives the first result without needing the rest, and None if there is none.',
 ['programs', 'inputs', 'histories'], 'all pipelines expressible in both forms, all inputs',
 'API tests are a separate hand-written suite with its own expected values; equivalence of the two forms quantifies over all pipelines.',
 ['marcel/api.py', 'marcel/pipeline.py', 'marcel/argsparser.py', OPS+'gather.py', OPS+'first.py', OPS+'apiop.py'],
 [('operator overloading and OpList', 'marcel/pipeline.py'), ('function-valued pipelines', 'marcel/pipeline.py PipelineFunction')],
 ['API return values compared with command-line stdout'])

prop('C07', 'Running a pipeline leaves every variable it does not assign untouched',
 'Parameters of a pipeline are visible only inside that invocation, and shadow outer variables and parameters of the same name only there. '
 'After any command finishes, normally, by error or by abort, at any nesting depth, the variables '
 'visible to the next command have exactly the values they had before, except those the command itself assigned or deleted. '
 'Assignments made inside a pipeline to names that are not its parameters are visible afterwards.',
 ['programs', 'histories', 'fault_sequences'], 'all nestings of parameterised pipelines, names that collide with globals, and every point of failure inside them',
 'Tests use non-colliding parameter names and successful runs.',
 ['marcel/nestednamespace.py', 'marcel/pipeline.py', OPS+'runpipeline.py', OPS+'args.py', 'marcel/core.py'],
 [('scope push and pop', 'marcel/nestednamespace.py NestedNamespace')],
 ['values of all variables before and after each command'], [('scope stack', 'variable bindings per invocation', 'marcel/nestednamespace.py')])

prop('C08', 'What the user writes or quotes reaches the operator verbatim',
 'Every string, Python expression or nested pipeline written on the command line reaches its operator exactly as Python and the documented quoting and escaping rules '
 'define: quotes, escapes, blanks, operators, brackets and comment characters inside a literal never split it, end it or change its characters. '
 'A command that is not well formed (unbalanced parentheses or quotes, misplaced symbols) is rejected with an error and nothing is executed.',
 ['inputs', 'programs'], 'all argument strings, all quoting styles, all Python expressions with nested brackets and literals, all malformed truncations of commands',
 'Lexing is tested on a few literals; correctness is over all strings of characters, quoting styles and nestings.',
 ['marcel/parser.py', 'marcel/stringliteral.py', 'marcel/util.py'],
 [('tokenisation and source matching', 'marcel/parser.py Lexer/Token'), ('quote and escape scanning', 'marcel/parser.py String/ShellString'), ('string literal rendering', 'marcel/stringliteral.py')],
 ['values received by the operator', 'rejection message and absence of effects'])

prop('C09', 'Arguments mean the same however written, and illegal ones have no effect',
 'Flags may be given in short or long form and in any order without changing what an operator does; argument values given as constants, expressions or '
 'variables are interpreted alike. A command whose arguments (those of its own operators, outside nested pipelines) are unknown, '
 'missing, repeated too often, mutually exclusive, of the wrong type or out of range is rejected with an explanatory error on every operator, before any '
 'part of the command has produced output or changed anything.',
 ['inputs', 'programs', 'configurations'], 'all operators, all permutations and spellings of legal arguments, all classes of illegal ones',
 'Tests cover some flags of some operators in one order.',
 ['marcel/argsparser.py', 'marcel/function_args_parser.py', 'marcel/parser.py']+[OPS+f for f in ('ls.py','write.py','read.py','head.py','gen.py','window.py','filter.py')],
 [('flag and anon matching, exclusivity, value conversion', 'marcel/argsparser.py')],
 ['stdout/stderr, file system and variables after the command'])

prop('C10', 'No command can end or corrupt the session',
 'Whatever text is submitted as a command, other than one asking to exit, the session afterwards accepts further commands, and each of those behaves exactly as if '
 'the failed or aborted command had never run, apart from effects it completed before failing. A failed command reports an error; it never '
 'silently does something else, and never leaves the session with lost variables, a stuck nesting, or a different directory.',
 ['programs', 'histories', 'fault_sequences'], 'all command texts including malformed ones, every operator failing at setup, run, flush or cleanup, all sequences of such commands',
 'Tests run each failing command in a fixed order, and assert only its own output.',
 ['marcel/main.py', 'marcel/core.py', 'marcel/pipeline.py', 'marcel/exception.py', 'marcel/parser.py', 'marcel/op/bash.py'],
 [('exception taxonomy and top-level handler', 'marcel/main.py MainScript.parse_and_run_command'), ('scope and nesting restoration', 'marcel/pipeline.py, marcel/env.py CheckNesting')],
 ['probe commands after every command; process still alive'])

prop('C11', 'Variables hold what was assigned, until reassigned or deleted',
 'After an assignment the variable evaluates to the assigned value or invokes the assigned function or pipeline, for every kind of value, until it is reassigned '
 'or deleted; deletion makes it undefined for good. Listing, getting and setting variables agree with each other and with evaluation, and imports bind exactly '
 'the requested symbols under the requested names. Protected variables can be neither assigned nor deleted and keep their values, and the attempt is reported.',
 ['histories', 'inputs'], 'all sequences of assign, import, store, delete, list, and read operations on all kinds of values and names',
 'Tests exercise single assignments; the law is about every history.',
 [OPS+'assign.py', OPS+'env.py', OPS+'import.py', 'marcel/nestednamespace.py', 'marcel/env.py', 'marcel/object/workspace.py'],
 [('variable store and immutability enforcement', 'marcel/object/workspace.py, marcel/nestednamespace.py')],
 ['evaluation of each variable after each step', 'env listing'])

prop('C12', 'Closing and reopening a workspace restores exactly its variables and state',
 'A workspace reopened, in the same process or a later one, has exactly the variables, functions, pipelines, imports and '
 'reservoirs it had when it was last closed: what was assigned is back with an equal value and working, what was deleted stays deleted, and nothing from another workspace '
 'appears. Creating, opening, closing, listing and deleting workspaces affect only the named workspace, in any sequence, '
 'and each does what its description says or is refused without effect.',
 ['histories', 'inputs'], 'all histories of workspace operations and variable changes over several workspaces, values of every persistable kind, within and across processes',
 'Tests cover short fixed sequences in one process with simple values.',
 ['marcel/object/workspace.py', OPS+'ws.py', 'marcel/persistence/persistence.py', 'marcel/nestednamespace.py', 'marcel/locations.py', 'marcel/main.py'],
 [('serialisation of variables', 'marcel/nestednamespace.py to/from_persistent_state'), ('workspace files', 'marcel/object/workspace.py')],
 ['values and listings after each reopen'])

prop('C13', 'A workspace is owned by at most one live process, and never by a dead one',
 'A named workspace is open in at most one live process at a time: an attempt to open or delete a workspace another live process owns is refused, leaving both processes '
 'and the workspace unharmed. However its owner ended, normally or killed at any moment, the workspace can afterwards be opened again by another process, with its last saved contents.',
 ['schedules', 'crash_points', 'histories'], 'all interleavings of several processes opening, using, closing and being killed',
 'Tests run a single process, so contention and crashed owners never arise naturally.',
 ['marcel/object/workspace.py', 'marcel/locations.py', OPS+'ws.py', 'marcel/persistence/persistence.py'],
 [('owner marker file naming the pid', 'marcel/object/workspace.py Marker'), ('abandoned marker removal', 'marcel/object/workspace.py, marcel/persistence/persistence.py')],
 ['outcome of every open/delete per process against an event log of ownership intervals'])

prop('C14', 'Damage to one workspace is quarantined: no other data is lost and marcel starts',
 'If stored files of a workspace are missing, truncated or overwritten so that they cannot be read, marcel still starts, reports that workspace, '
 'moves what is left of it to quarantine, and every other workspace keeps all of its data; damage to the default workspace gives a fresh default workspace. '
 'An undamaged installation is never reported, moved or altered by this validation.',
 ['fault_sequences', 'crash_points', 'configurations'], 'every subset of stored files of any workspace removed, truncated, corrupted or replaced, and process death at any step of workspace operations',
 'Tests damage a couple of files in fixed ways.',
 ['marcel/persistence/persistence.py', 'marcel/object/workspace.py', 'marcel/main.py', 'marcel/locations.py'],
 [('validation of workspace files', 'marcel/persistence/persistence.py validate_all'), ('quarantine', 'marcel/object/workspace.py mark_broken')],
 ['file tree before and after startup', 'contents of other workspaces'])

prop('C15', 'Startup sets up or upgrades the installation once, losing nothing',
 'Starting on a fresh home, or on one left by an older version, produces a complete, working, current installation; the user\'s configuration, workspaces, variables, reservoirs and history survive unchanged '
 '(except that histories of versions before 0.32 are documented to be discarded). Starting again changes nothing, and does so whether or not an earlier start or upgrade was interrupted partway.',
 ['configurations', 'histories', 'crash_points'], 'all earlier storage layouts with any contents, all numbers of restarts',
 'Tests migrate a small sample layout once.',
 ['marcel/persistence/storagelayout.py', 'marcel/locations.py', 'marcel/main.py', 'marcel/configscript.py'],
 [('layout detection and migration chain', 'marcel/persistence/storagelayout.py')],
 ['file tree before and after start', 'contents visible after start'])

prop('C16', 'Reservoirs and files return exactly what was stored',
 'Loading a reservoir, or reading a file written through a redirect, returns exactly the items stored, in order: storing replaces the previous contents, appending adds after them, and a stored-then-loaded '
 'stream equals the stream. This holds for any sequence of operations, through either operators or redirect arrows, and a failed store or load '
 'does not disturb other reservoirs or variables.',
 ['histories', 'inputs'], 'all sequences of store, append, load over reservoirs and files, all picklable items',
 'Tests store and load one or two small streams.',
 [OPS+'store.py', OPS+'load.py', OPS+'redirect.py', 'marcel/reservoir.py', 'marcel/picklefile.py', 'marcel/parser.py'],
 [('pickled item log', 'marcel/picklefile.py'), ('redirect to load/store/read/write', 'marcel/op/redirect.py, marcel/parser.py')],
 ['loaded items after each step'])

prop('C17', 'Writing then reading a file in any format gives back the items',
 'Items written to a file in a format (CSV, TSV, JSON, pickle, or plain text) and read back in that format are equal to the originals, '
 'for all values the format can represent, including separators, quotes, newlines and non-ASCII text inside values; '
 'writing never alters the stream passing through, and appending extends a file without changing what was there. Reading many files yields every record of every file in order, labelled with the right file '
 'when asked, and skips exactly the header rows asked for.',
 ['inputs', 'histories'], 'all streams representable in each format, all files with all line endings and quoting, all sets of files, label and header options',
 'Tests read a few sample files.',
 [OPS+'read.py', OPS+'write.py', 'marcel/picklefile.py', 'marcel/jsonutil.py'],
 [('format writers', 'marcel/op/write.py'), ('format readers', 'marcel/op/read.py')],
 ['bytes of written files', 'items read'])

prop('C18', 'Listing files reports exactly what exists, once, with true attributes',
 'Listing files gives, for any mixture of names, directories and glob patterns at any depth, each matching file system entry exactly once, limited to the requested kinds (files, directories, symlinks) and depth, '
 'and nothing else; hidden files, odd names, broken or cyclic links, and unreadable directories included. Each reported file has the '
 'attributes the operating system reports for it, and results do not depend on the form (absolute, relative, ~ or ..) in which the location was written.',
 ['inputs', 'configurations'], 'all directory trees with all entry kinds and names, all argument and flag combinations',
 'Tests list one fixed small tree.',
 [OPS+'ls.py', OPS+'filenames.py', OPS+'filenamesop.py', 'marcel/object/file.py', 'marcel/util.py'],
 [('traversal and duplicate suppression', 'marcel/op/filenamesop.py, ls.py'), ('file attributes', 'marcel/object/file.py')],
 ['stdout compared with an independent os.walk/os.lstat model'])

prop('C19', 'Directory navigation follows the shell directory stack, or changes nothing',
 'After any sequence of directory commands (change, push, pop, rotate, reset and list) the current directory, the directory stack, the process working directory '
 'and the PWD and DIRS variables agree with each other and with the shell directory-stack model. An operation that cannot be carried out (missing, unreadable, non-directory target, empty stack) reports '
 'an error and leaves all of them as they were.',
 ['histories', 'fault_sequences'], 'all sequences of directory operations over existing, missing, deleted, renamed and inaccessible directories',
 'Tests use one fixed sequence over existing directories.',
 ['marcel/directorystate.py', OPS+'cd.py', OPS+'pushd.py', OPS+'popd.py', OPS+'dirs.py', OPS+'pwd.py', 'marcel/env.py'],
 [('directory stack maintenance', 'marcel/directorystate.py')],
 ['pwd, dirs, PWD, DIRS and getcwd after each command'])

prop('C20', 'Background jobs: effects arrive exactly once and control acts on the right job',
 'In an interactive session each command runs to completion exactly once, and the variables and directory it assigned are then visible in the session; a command killed or interrupted stops, is removed from the job list, and changes no variables. '
 'Suspending, resuming, foregrounding and killing act on exactly the designated job and no other, whatever order jobs are started, stopped and finished in, and '
 'the session always returns to a working prompt with no job lost or left running unaccounted for.',
 ['schedules', 'histories', 'fault_sequences'], 'all interleavings of job completion, ctrl-C, ctrl-Z, bg, fg, kill, and namespace changes',
 'Tests do not run the job machinery: their harness executes every command in the main process.',
 ['marcel/job.py', 'marcel/main.py', OPS+'jobop.py', OPS+'jobs.py', OPS+'fg.py', OPS+'bg.py'],
 [('job table and signal handlers', 'marcel/job.py JobControl'), ('namespace change transmission', 'marcel/job.py, marcel/main.py update_namespace')],
 ['transcript of a pty session', 'process table', 'side-effect log written by the commands'])

prop('C21', 'Forked and clustered work delivers every item exactly once, labelled',
 'Running a pipeline in parallel over a number of workers, a list of items, or the hosts of a cluster delivers every output item of every worker exactly once, '
 'in that worker\'s own order, and labelled with the host that produced it (or with whatever the pipeline does with the worker it is given), whatever the relative speed of the workers. A worker that fails is '
 'reported and does not lose, duplicate or corrupt the output of the others, and the command ends when, and only when, all of them have finished.',
 ['schedules', 'fault_sequences', 'inputs'], 'all relative timings and failure patterns of the workers, all worker counts and outputs',
 'Tests run a few workers of equal speed.',
 [OPS+'fork.py', OPS+'forkmanager.py', OPS+'remote.py', 'marcel/object/cluster.py'],
 [('worker pipes and wait loop', 'marcel/op/forkmanager.py'), ('labelling', 'marcel/op/fork.py, remote.py')],
 ['multiset and per-worker order of delivered items against a log of produced items'])

prop('C22', 'Host executables receive exact input and arguments and return exact output',
 'Running a host executable, explicitly or by name, passes it exactly the given arguments and pipes it exactly the input items as lines, and delivers '
 'each line it prints exactly once in order as a string, for any amount of data in either direction and without deadlock. What it prints on standard error is surfaced '
 'as errors and not taken for output, none of its processes survive an aborted command, and shell strings are interpreted by the shell and not by marcel.',
 ['inputs', 'schedules'], 'all input and output streams of any size, all argument strings, executables that ignore input, exit early, fail or interleave',
 'Tests run a few tiny shell commands.',
 [OPS+'bash.py', 'marcel/parser.py', 'marcel/util.py'],
 [('process wrapper and output-reading thread', 'marcel/op/bash.py')],
 ['bytes received and sent by a recording executable'])

prop('C23', 'Remote, elevated and file-transfer commands act as their local counterparts',
 'A pipeline sent to another host or run with elevated privilege produces there exactly the output the same pipeline would produce locally on the same input, '
 'with the functions, variables and nested pipelines it refers to, and each result labelled with its host. Uploading and downloading '
 'transfer exactly the named files, with any legal file names, to exactly the named directory. Failures to connect or run are reported as errors for that host only.',
 ['programs', 'inputs', 'fault_sequences'], 'all transmissible pipelines, data, file names and hosts; hosts failing in any combination',
 'Tests need a live ssh server, and so cover little and are excluded from the reliable set.',
 [OPS+'remote.py', OPS+'sudo.py', OPS+'upload.py', OPS+'download.py', 'bin/farcel.py', 'marcel/object/cluster.py'],
 [('pickled pipeline over stdin to the remote runner', 'marcel/op/remote.py, bin/farcel.py'), ('scp invocations', 'marcel/op/upload.py, download.py')],
 ['argv and files seen by stand-in ssh, scp and sudo', 'stdout of the command'])

prop('C24', 'SQL: each input row executes once with its values, transactions as requested',
 'An SQL command executes its statement exactly once per input item, or once with no input, binding exactly the values given, and outputs exactly the result rows in order, or the update counts when asked. '
 'Changes are committed as often as asked and all of them by the end of a command that succeeds; statements that fail are reported for their own row. The connection is '
 'always released, including after failures.',
 ['inputs', 'fault_sequences', 'histories'], 'all statements, row streams, commit intervals, autocommit choices and points of failure',
 'There is no database in the test environment, so these tests are excluded from the reliable set.',
 [OPS+'sql.py', 'marcel/object/db.py'],
 [('statement classification, commit counter', 'marcel/op/sql.py'), ('connection life cycle', 'marcel/object/db.py')],
 ['call log of a stand-in database driver', 'stdout of the command'])

prop('C25', 'Tab completion offers exactly the legal continuations of what was typed',
 'For any partial command, completion offers every operator, flag, variable, executable, workspace, or file name that can legally continue the word at the cursor and begins with it, and nothing that does not; '
 'accepting a completion of a file name, however quoted or escaped, yields text that denotes that file when the command is run. Completion itself '
 'has no effect on the session and never fails.',
 ['inputs', 'configurations'], 'all prefixes of command lines, all directory contents including names with blanks, quotes and special characters',
 'Tests complete a fixed list of prefixes in one directory.',
 ['marcel/tabcompleter.py', 'marcel/parser.py', 'marcel/util.py'],
 [('parsing the incomplete command', 'marcel/parser.py, marcel/tabcompleter.py'), ('quoting of completed names', 'marcel/tabcompleter.py')],
 ['candidate lists returned for each prefix', 'the command completed and run'])

prop('C26', 'History records each command once, in order, and recalls exactly it',
 'Every command entered interactively is recorded exactly once, in order of entry, and is available in later sessions of the same workspace and only there. Listing the history, '
 'rerunning by number or last, and recalling for editing yield exactly the text that was entered, whatever characters it contains.',
 ['histories', 'inputs'], 'all sequences of commands, sessions and workspaces, all command texts',
 'The history needs a terminal session, which the tests do not run.',
 ['marcel/reader.py', OPS+'history.py', OPS+'run.py', OPS+'edit.py', 'marcel/object/historyrecord.py', 'marcel/runeditor.py', 'marcel/main.py'],
 [('history file and numbering', 'marcel/reader.py'), ('rerun', 'marcel/op/run.py')],
 ['history output and the commands executed in a terminal session'])

prop('C27', 'A script runs each of its commands exactly once, in order, as if typed',
 'A script given as a file or as standard input executes each of its commands exactly once in order, with continued lines joined and blank lines ignored, '
 'with the same results as typing them one at a time; a failing command is reported and does not prevent the following ones. Script arguments reach the script exactly as given, and are '
 'validated against the usage the script declares.',
 ['programs', 'inputs', 'fault_sequences'], 'all scripts, continuation layouts, argument vectors and failing positions',
 'Tests run two or three fixed scripts.',
 ['marcel/main.py', 'marcel/cliargs.py', 'marcel/util.py', 'marcel/configscript.py'],
 [('splitting into commands', 'marcel/main.py commands_in_script'), ('argument parsing', 'marcel/cliargs.py')],
 ['stdout/stderr of real marcel processes'])

prop('C28', 'JSON conversion and structured values preserve the data',
 'Parsing JSON text gives a value whose fields can be reached by name and by key and which converts back to JSON equal to the original, for every JSON document however nested. '
 'Structured values, file and process objects compare, sort, hash, render and survive pickling consistently, with the same fields.',
 ['inputs'], 'all JSON documents, all field names and nestings, all file system entries',
 'Tests parse a few documents.',
 ['marcel/jsonutil.py', 'marcel/structish.py', 'marcel/object/file.py', 'marcel/object/process.py', 'marcel/builtin.py'],
 [('decoder and encoder', 'marcel/jsonutil.py'), ('attribute-accessible dict', 'marcel/structish.py')],
 ['round-tripped values'])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P), 'properties')
