"use strict";
// Single source for properties.jsonl and MANIFEST.json (node bin/genmeta.js).
const P = [];
const p = (id, title, statement, over, qtext, why, files, mechanism, technique, note) => P.push({ id, title, statement, over, qtext, why, files, mechanism, technique, note });
const STR = "abstract interpretation of the text-building functions over a regular-language string domain with data/code provenance";
p("C01", "Generated completion scripts cannot be escaped from by their parameters",
  "For every shell dialect, the completion script generated for any program name and any completion arguments contains those texts only as inert words: argument text never leaves the quoting it is written in, and program names that could be read as shell syntax are rejected before a script is produced. This holds for every character, including quotes, backslashes, line breaks and the typographic quotes PowerShell accepts.",
  ["inputs", "configurations"], "all program names and completion argument strings, for each built-in shell dialect",
  "Tests try a handful of quotes and names; the set of strings is infinite and each shell has its own quoting grammar.",
  ["packages/core/src/completion.ts"], [{ name: "per-dialect argument quoting and program-name validation", where: "packages/core/src/completion.ts generateScript members" }],
  STR + ", checked against a quote-state monitor of each shell",
  "Proves, for all strings over the modelled alphabet, that data characters in the script stay inside quotes; trusts the quote-state monitors of the five shells and that script text between data is as written.");
p("C02", "Completion suggestions cannot forge records or fields of the wire format",
  "When suggestions are encoded for a shell, text taken from a suggestion (its value, description, file pattern or extensions) never contains the characters that separate records or fields of that shell's format, so one suggestion always arrives as exactly one suggestion. In file-completion directives the separators of the directive itself are encoded too.",
  ["inputs"], "all suggestion texts, descriptions, patterns and extension lists, for each built-in shell dialect",
  "Tests encode some control characters in some fields; each shell has several record shapes and the property quantifies over every text in every field.",
  ["packages/core/src/completion.ts"], [{ name: "sanitising of suggestion fields before joining them with separators", where: "packages/core/src/completion.ts encodeSuggestions members" }],
  STR,
  "Proves for all strings that no separator character from a suggestion field reaches the encoded stream; trusts the list of separators per shell.");
p("C03", "Application text in man pages never becomes roff markup",
  "In generated man pages and roff fragments, text supplied by the application (messages, option and command names, metavariables, values, titles, versions, references) is rendered literally: no supplied character starts a control line, introduces an escape sequence, ends a quoted request argument or breaks a request line. Only the formatter itself writes roff markup.",
  ["inputs"], "all documentation pages, messages and man page options",
  "Tests cover chosen strings in chosen fields; the page has dozens of fields and any string may occur in each.",
  ["packages/man/src/man.ts", "packages/man/src/roff.ts"], [{ name: "escaping helpers applied to each field before concatenation", where: "packages/man/src/roff.ts, packages/man/src/man.ts" }],
  STR + ", checked against a monitor of roff line and escape state",
  "Proves for all strings that data characters never act as roff syntax in any field; trusts the roff monitor (control lines, escapes, quoted arguments). Nested usage terms are handled by induction.");
p("C04", "Styling is written only on request and never leaks past the text it styles",
  "Formatted messages, usage lines and documentation pages contain no terminal escape sequence unless the caller turned colours on. With colours on, every styled text or hyperlink is closed again, so formatting a term, message or page leaves the terminal in the state it was in (or in the surrounding style the caller asked to have restored). Inside the library, colours are on only where the caller's colour option, or for run() the terminal, says so.",
  ["inputs", "configurations"], "all messages, usage terms and documentation pages, with colours off and on",
  "Tests check some terms with colours on; leaks need particular combinations of terms, list lengths and options.",
  ["packages/core/src/message.ts", "packages/core/src/usage.ts", "packages/core/src/doc.ts"], [{ name: "colour options and reset sequences", where: "formatMessage, formatUsageTerm, formatUsage, formatDocPage" }],
  "abstract interpretation of the formatters with a terminal-state monitor, plus a dataflow check of colour options at formatter call sites",
  "Off: no escape character written by a formatter can reach its result, for all inputs. On: each kind of term, for lists of one to three elements and all option settings, and each shape of documentation entry, composes to a text that ends in the state it started in. Does not check which colours are used.");
p("C05", "Parsers are reusable: no call leaves a trace in shared or caller-owned data",
  "Parsing, completing, suggesting, documenting and formatting never modify the parsers, states, contexts, token buffers, messages or usage trees they are given, and keep nothing in a parser or module between calls. A parser can therefore be run any number of times, nested or concurrently, and every run depends only on its own arguments and annotations.",
  ["inputs", "history", "concurrency"], "all parsers, all sequences and interleavings of calls on them",
  "Tests run a parser once or twice; leaked state shows only for particular earlier runs, element orders or shared sub-parsers.",
  ["packages/core/src", "packages/config/src/index.ts", "packages/env/src/index.ts", "packages/prompt/src/index.ts"], [{ name: "copy-on-write of states and buffers; per-run registries", where: "every parse/complete/suggest/getDocFragments implementation" }],
  "interprocedural ownership and effect analysis (who owns the storage each write reaches, and does it outlive the call)",
  "Attributes every write in the source to its owner and propagates it through resolved calls and callbacks. Writes through values returned by dynamically dispatched calls are reported as unowned. Values cached under an object identity in the reviewed WeakMaps are trusted to depend only on that object.");
p("C12", "The core uses no ambient host state, and loading a package has no effects",
  "@optique/core and the binding packages built on it (prompt, derived-defaults, standard-schema, zod, valibot) import no host modules and read no ambient state: no process, environment, file system, terminal, clock, randomness, local time zone or host locale, and no dynamic code. Their results depend only on their arguments, on every runtime. Loading any library module performs no I/O and changes no global, and only the runner and the command-line tools end the process.",
  ["configurations", "environments"], "all inputs on all runtimes and environments",
  "Tests run in one process with one environment; a dependence on ambient state shows only when that state differs.",
  ["packages/core/src", "packages/prompt/src/index.ts", "packages/derived-defaults/src/index.ts", "packages/standard-schema/src/index.ts", "packages/zod/src/index.ts", "packages/valibot/src/index.ts"], [{ name: "dependency-free core; output functions injected by the caller", where: "packages/core/src/facade.ts RunOptions; package.json sideEffects" }],
  "capability analysis over resolved symbols (imports, globals, clock, randomness, time zone, dynamic code) and of module-level code",
  "Complete for direct and typed access; access through values typed any/unknown that alias the global object is reported at the point where globalThis, process or a host module is named. Third-party schema libraries are trusted. The grapheme segmenter is taken to be locale-independent; a caller may pass an undefined locale to valueSet.");
p("C18", "No asynchronous result or failure is dropped",
  "Wherever the library starts asynchronous work (asynchronous parsers, prompts, hooks, context loading, disposal, callbacks), it waits for it or hands its promise to the caller: no promise is discarded, tested as if it were its value, passed to a callback position that ignores it, or returned out of a try block before the handler or cleanup that guards it could see its rejection.",
  ["schedules", "faults"], "all timings and rejections of asynchronous parsers, prompts, hooks and contexts",
  "A missing wait is invisible unless the work is slow or rejects at that very point.",
  ["packages/core/src", "packages/discover/src/index.ts", "packages/prompt/src/index.ts", "packages/env/src/index.ts", "packages/config/src/index.ts", "packages/run/src/run.ts"], [{ name: "await at every asynchronous call; return await inside try", where: "every async function" }],
  "type-directed dataflow of promise-typed expressions to their uses",
  "Covers every expression whose static type may be a promise; values typed unknown are not followed. A promise that is stored and used later counts as waited for.");
p("C20", "Input that spells a name of Object.prototype is ordinary input",
  "Text from the command line, the environment or a file that happens to spell a member every JavaScript object inherits (constructor, toString, __proto__, ...) is treated like any other text: tables and records are looked up by their own keys only, so such input never matches a unit, colour, branch, shell, group or export that was not defined.",
  ["inputs"], "all tables looked up with a name that may come from input, all input strings",
  "Nobody tests every table with every inherited name; the few tests that exist cover one table.",
  ["packages/core/src/valueparser.ts", "packages/core/src/constructs.ts", "packages/core/src/facade.ts"], [{ name: "Map, null-prototype objects or Object.hasOwn before a lookup", where: "every computed property read" }],
  "key-provenance dataflow with own-key guard and null-prototype analysis of every computed lookup",
  "Covers reads, membership tests and Reflect.get with string-typed keys in all packages. Keys that the application itself chose (field names, options) are trusted.");
p("C19", "No pattern applied to text backtracks exponentially",
  "Every regular expression the library applies is unambiguous enough that matching it never takes time exponential in the length of the text, whatever the text is; and no regular expression is built from user text (only from constants or from a RegExp the application supplied).",
  ["inputs"], "all texts matched against every pattern in the source",
  "An exponential pattern is fast on every sample until a text that nearly matches comes along.",
  ["packages/core/src/valueparser.ts", "packages/temporal/src/index.ts", "packages/core/src", "packages/man/src"], [{ name: "validation patterns of value parsers and formatters", where: "every regular expression literal and RegExp construction" }],
  "ambiguity analysis (exponential degree of ambiguity) of the position automaton of every pattern",
  "Decides exponential ambiguity exactly for the modelled alphabet; lookarounds are analysed separately and backreferences treated as empty; bounded repetitions are analysed with at most five copies. Polynomial backtracking is not covered.");
p("C25", "Value parsers report malformed text as failures and never throw",
  "Whatever text a user types, the parse and suggest members of every built-in value parser return a result: text they cannot accept becomes a failure with a message, and an operation that rejects malformed text by throwing (URL, number, big integer, locale, date and time, pattern, file system or git access) is either guarded by a test of that text or its exception is turned into a failure.",
  ["inputs"], "all texts given to every built-in value parser",
  "Tests try some malformed texts; a throwing operation is reached only by particular spellings.",
  ["packages/core/src/valueparser.ts", "packages/temporal/src/index.ts", "packages/git/src/index.ts", "packages/run/src/valueparser.ts", "packages/standard-schema/src/index.ts", "packages/zod/src/index.ts", "packages/valibot/src/index.ts"], [{ name: "guards and try blocks around operations that throw", where: "parse and suggest members of value parsers" }],
  "interprocedural exception-flow and taint analysis with dominating-guard and regular-language checks",
  "Covers a table of built-in operations known to throw, throw statements decided by the text, unchecked matches and split parts. Application callbacks (custom errors, transforms, schema refinements) are trusted.");
p("C15", "What the application hides is hidden wherever it asked, and nothing else is",
  "A command, option, argument or pass-through marked hidden is absent from every place that setting covers (true: usage lines, documentation, man pages, suggestions and did-you-mean candidates; 'usage': usage lines; 'doc': documentation; 'help': both), however it is nested in optional, repeated, sequential or alternative terms; so are the arguments of a hidden command and every hidden alias. Combinators with a hidden setting hide all terms inside them, merged settings hide wherever either does, help/version/completion terms and discovered commands carry and inherit theirs, and visible terms are still shown.",
  ["inputs", "configurations"], "all kinds of terms, nestings and hidden settings, in all outputs that list terms",
  "A dozen outputs times kinds, nestings and settings; tests visit a few combinations.",
  ["packages/core/src/usage.ts", "packages/core/src/constructs.ts", "packages/core/src/primitives.ts", "packages/core/src/suggestion.ts", "packages/man/src/man.ts", "packages/core/src/facade.ts", "packages/discover/src/index.ts"], [{ name: "isUsageHidden/isDocHidden/isSuggestionHidden tests and merged visibilities", where: "usage.ts, applyHiddenToUsage, mergeHidden" }],
  "abstract interpretation of formatters, extractors, primitive parsers and hiding combinators over marked terms, plus a dataflow check of inherited visibility",
  "Enumerates every kind of term, each container one level deep, and every setting, with arbitrary names and texts. Deeper nesting follows because the traversals recurse; shell scripts themselves list no terms.");
p("C06", "The user is prompted only for a missing value, once, and never during probes",
  "A parser wrapped with a prompt asks the user only in the real completion (no phase, or phase complete), and there exactly once, when nothing was typed and neither a bound source nor a default gives a value and completion is not deferred; the answer is then the result. Parsing, pre-completion, dependency resolution, suggestions, documentation and other queries about the parser never ask. A typed value is used (or its failure reported) without asking, and malformed input fails without asking. A cancelled prompt, or a number or required selection left unanswered, is reported as a failure and never becomes a value.",
  ["inputs", "histories"], "all combinations of typed input, bound source, default, deferral, execution phase and prompt outcome, for every prompt type",
  "Completion is probed many times in one run; a prompt in the wrong probe shows only with a particular composition.",
  ["packages/prompt/src/index.ts", "packages/inquirer/src/index.ts", "packages/clack/src/index.ts"], [{ name: "CLI state, source probing, deferral and probe-phase tests before executing the prompt", where: "createPromptAdapter; executePrompt functions of the adapters" }],
  "abstract interpretation of the prompt wrapper and its adapters over stub parsers, sources and prompts with chosen answers",
  "Enumerates every combination of input outcome, source, default, deferral, phase, mode and prompt outcome with arbitrary values. The carrying of annotations through states is taken as given; the prompt libraries are stubs.");
p("C07", "Fallback values are held to the constraints of the parser they stand in for",
  "A value that did not come from the command line is checked as if it had: values of bound environment variables, configuration entries and derived defaults, and the defaults declared with bindEnv, bindConfig and bindDerivedDefault, also when they serve as a dependency source, pass through the validation of the wrapped parser; its rejection is the result, and its canonical value is used. optional, withDefault, nonEmpty, group, command and the binding wrappers hand validation on to the parser inside (optional accepts only undefined by itself); repeated parsers hold a list to their bounds and every element to its parser and reject what is no list; option and argument check a value through their value parser; plain flags accept booleans only.",
  ["inputs", "configurations"], "all fallback values, sources, wrappers and verdicts of the wrapped parser, synchronous and asynchronous",
  "Each wrapper has several paths on which a fallback can slip past validation; tests cover some with one value parser.",
  ["packages/env/src/index.ts", "packages/config/src/index.ts", "packages/derived-defaults/src/index.ts", "packages/core/src/modifiers.ts", "packages/core/src/primitives.ts", "packages/core/src/constructs.ts"], [{ name: "validateValue hooks and their forwarding", where: "getEnvOrDefault, validateFallbackValue, getDerivedOrDefault, validateValue members" }],
  "abstract interpretation of the binding wrappers, forwarding wrappers, lists and primitives over stub parsers with a chosen verdict",
  "Enumerates sources, defaults, verdicts, list lengths up to three and both modes with arbitrary values. Derived value parsers and values their format cannot write are exempt by design.");
p("C08", "A typed value wins, then the bound source, then the declared default",
  "For parsers wrapped with bindEnv, bindConfig or bindDerivedDefault: when the wrapped parser consumed input, its result, success or failure, is the result; malformed input is a failure; otherwise the bound source decides whenever it has a value, falsy values included, and a malformed variable is a failure that no default masks; otherwise the declared default; otherwise what the wrapped parser completes to by itself or a failure. bindEnv over bindConfig orders typed value, variable, configuration, default. Parsers that depend on the value of such a parser see the value of the same source. optional and withDefault give undefined or the default only when the wrapped parser matched nothing, and report its failures otherwise.",
  ["inputs", "configurations"], "all combinations of typed input, source value, default and outcome of the wrapped parser, synchronous and asynchronous",
  "The number of combinations of sources, defaults, falsy values and failures is far beyond the sampled ones.",
  ["packages/env/src/index.ts", "packages/config/src/index.ts", "packages/derived-defaults/src/index.ts", "packages/core/src/modifiers.ts"], [{ name: "hasCliValue state and ordered fallback resolution", where: "parse/complete/extractSourceValue of bindEnv, bindConfig, bindDerivedDefault; processOptionalStyleResult" }],
  "abstract interpretation of every source-binding wrapper over stub parsers and sources with chosen answers; origin of the result",
  "Enumerates every combination, with constants for the falsy values and arbitrary other values. optional and withDefault are checked over plain parsers. The carrying of annotations through states is taken as given.");
p("C09", "Each source context is disposed once, after the run, and no error is lost",
  "runWith, runWithAsync and runWithSync given source contexts dispose every context that can be disposed exactly once, after the run has settled, whether it succeeded or failed at any stage (identifiers, phases, first or second collection, the run itself) and whether or not other disposals fail. The asynchronous runners prefer and await Symbol.asyncDispose, runWithSync prefers Symbol.dispose and reports a promised disposal as an error. A successful run returns its result; a failed run fails with its own error, whatever value was thrown; a single failing disposal fails with its error, several with all of them, and when run and disposal fail both errors are reported.",
  ["histories", "faults"], "all lists of contexts, disposers, and failures of contexts, runs and disposals, in the three runners",
  "Needs a fault in one context and another at the right place of the list; tests cover a few combinations.",
  ["packages/core/src/facade.ts"], [{ name: "disposal after the body, collected errors and SuppressedError", where: "runWith, runWithSync, disposeContexts, disposeContextsSync" }],
  "abstract interpretation of the runners over stub contexts, parsers and a stub plain runner, with promises settled only when awaited",
  "Enumerates lists of up to three contexts, every kind of disposer, stage of failure and failing disposal, with arbitrary errors. The plain runner (runParser) is a stub here.");
p("C10", "Contexts are asked in two phases with the right values and merged in order",
  "In runWith, runWithAsync and runWithSync every context is asked for its annotations exactly once before parsing. If one is two-pass, the parser is first run on the merged annotations, and if that gives a value (by completing, or as a partial seed) each two-pass context is asked exactly once more, with that value, and its new annotations replace its old ones; single-pass contexts keep theirs. A help, version or completion request that the parser does not take as input skips the second collection, as does a first pass without a value. The parser is then run exactly once on the merged annotations, where an earlier context wins per key. Context options reach every collection. Parts of the first value that are deferred to the final run are hidden from the contexts. Repeated identifiers, unknown phases, failing contexts and, in runWithSync, promises stop the run with an error.",
  ["histories", "configurations"], "all lists of contexts, phases, annotations, requests and outcomes of the first pass, in the three runners",
  "Order, phase and merging mistakes show only with particular lists of contexts sharing keys and particular first-pass outcomes.",
  ["packages/core/src/facade.ts", "packages/core/src/phase2-seed.ts", "packages/core/src/validate.ts"], [{ name: "phase snapshots, seed extraction, early exit and merge order", where: "collectPhase1Annotations(Sync), collectFinalAnnotations(Sync), mergeAnnotations, extractPhase2Seed(Sync/Async), prepareParsedForContexts" }],
  "abstract interpretation of the runners over stub contexts and parsers; annotations carried by each parser run, order and arguments of collections",
  "Enumerates lists of up to four contexts with shared and own keys, ten kinds of request, three parse and three completion outcomes, deferred shapes and empty values, with arbitrary values. The plain runner is a stub here.");
p("C11", "A run ends once: value, requested output with exit 0, or one reported error",
  "runParser, runParserSync and runParserAsync (parser or Program) end in exactly one way. Arguments the parser accepts give its value, with nothing written and no callback, even if they spell help, version or completion. Otherwise an enabled request - option forms before `--`, command forms only as the first token, custom names replacing the default ones, the later of help and version winning - is written to stdout only, and its onShow is called once with 0 after the output and gives the result. Otherwise (rejected or incomplete arguments, an unknown or missing completion shell, help for an unknown command) the message goes to stderr only and onError is called once with 1 afterwards and gives the result, whatever it returns or throws; aboveError decides what precedes the message. Without onError a RunParserError is thrown, and a synchronous parser refuses callbacks that return promises.",
  ["inputs", "configurations"], "all argument lists, enabled forms and names, callbacks, streams, parser modes and outcomes of the parser",
  "Requests, terminators, custom names, forms and failures combine in far more ways than tests sample; writing or calling back twice shows only with particular callbacks.",
  ["packages/core/src/facade.ts"], [{ name: "classification of requests and failures, and the handlers that end the run", where: "runParser, classifyParseFailure, displayError" }],
  "abstract interpretation of the plain runner over stub parsers, callbacks and output streams; outcome, writes and calls in order",
  "Enumerates requests in every form, enabling, name, position and callback kind, in both modes and all entry points, over stub parsers that take a given list of tokens. Which text is written is not decided here.");
p("C13", "run() passes on everything it is given and ends the process as documented",
  "run, runSync and runAsync call the corresponding runner of the core once, with the caller's parser, the program name (the option, else the program's metadata, else the base name of the running script), the given arguments (also an empty list) or else those of the process, and every option they share with it unchanged, falsy values included; documentation not given as an option is taken from the program's metadata. Help, version and completion are enabled in exactly the forms asked for. Output goes to the given streams, else line by line to those of the process. A shown request exits with 0 and an error with errorExitCode (default 1, an explicit 0 included), through onExit if given, else by ending the process; a value is returned. Source contexts and their options are passed on, and runSync refuses asynchronous parsers.",
  ["configurations"], "all combinations of options, program metadata and process state, for the three entry points",
  "Two dozen options times defaults and fallbacks; a lost or mixed-up option shows only when exactly it is given.",
  ["packages/run/src/run.ts"], [{ name: "construction of the core options and fallbacks to metadata and process", where: "buildCoreOptions, runImpl" }],
  "abstract interpretation of the process runner with the core runners as recording stubs; options compared with those given",
  "Enumerates every shared option (read from the types) with marker, false, zero and empty values, every form of help, version and completion, each fallback and entry point. The core runners are stubs, decided by C09, C10 and C11.");
p("C14", "Program and command hooks nest around one handler and always learn of failures",
  "runProgram runs the handler of the parsed command once, between the hooks: program beforeEach, command beforeEach, handler, command afterEach, program afterEach, each awaited before the next. Each afterEach and onError gets the context its own beforeEach gave (an empty object if nullish; without a beforeEach, the command's hooks get the program's), afterEach with the handler's result. The handler gets the parsed value and, only if a beforeEach exists, the most specific context. When a step fails, later steps are skipped, onError of the command (if its scope was entered) and then of the program are called with the original error, whatever was thrown; their own failures are ignored and the run rejects with the original error. When parsing gives no command, nothing is called.",
  ["histories", "faults"], "all sets of hooks of the two scopes, failing steps, thrown values, contexts and results, immediate or promised",
  "Needs a failure of one particular step with one particular set of hooks; tests cover a few.",
  ["packages/discover/src/index.ts"], [{ name: "nested hook scopes around the handler", where: "runProgram, runCommandInvocation" }],
  "abstract interpretation of the program runner over stub hooks and handlers; order, arguments and outcome of their calls",
  "Enumerates every set of hooks in both scopes, each failing step alone and with failing onError hooks, kinds of thrown values and contexts. Parsing is a stub.");
p("C16", "A discovered program reaches the runner with its options and contexts intact",
  "runProgram hands every option it shares with run() on unchanged, falsy values included. Documentation that is not given as an option comes from the metadata; the program is named by programName, else by its metadata; help and completion default to both forms and the version to that of the metadata, and false turns each off. Source contexts arrive in order with their identity, phase and exactly the optional members they have; each call to one of their members reaches the original once, with its other arguments, and gives its answer. In the second phase a context sees the value of the command's parser where the runner has a command invocation, and any other request unchanged.",
  ["configurations"], "all options, metadata, lists of contexts and requests made to them",
  "The wrapper must forward every option and member; a lost one shows only when a program uses exactly it.",
  ["packages/discover/src/index.ts"], [{ name: "options built for the runner and wrapped source contexts", where: "runProgram, wrapProgramContext, unwrapProgramContextRequest" }],
  "abstract interpretation of the program runner with the process runner as a recording stub; options and contexts compared with those given",
  "Enumerates every shared option (read from the types), each default, contexts with every set of optional members, alone or first of two, and kinds of request. The process runner is a stub, decided by C13.");
p("C17", "Every argument is taken by exactly one part of the parser, or parsing fails",
  "When parse succeeds, every argument was taken by exactly one option, flag, argument or command of the parser, once, and shows in the value: none is dropped, taken twice or given to a part of an alternative that is not the one reported. object, tuple, merge, concat and seq give each part exactly what it took (seq in order), or and longestMatch give the value of a single alternative that accounts for everything taken (input of another alternative is an error, not forgotten), optional and withDefault give undefined or the default only for parts that took nothing, multiple gives one element per occurrence within its bounds, command takes its name first, map, group and nonEmpty keep what is inside. Arguments that no assignment to parts explains, malformed or missing values included, are an error; arguments that the parser allows without such ambiguity are accepted.",
  ["inputs", "configurations"], "all parser trees built from the combinators and all argument lists",
  "Trees times argument orders is unbounded; arguments are lost only by particular nestings and interleavings (such as switching alternatives between two options of an outer object).",
  ["packages/core/src/constructs.ts", "packages/core/src/modifiers.ts", "packages/core/src/primitives.ts", "packages/core/src/parser.ts"], [{ name: "state threading of the combinators and branch selection with replay", where: "parse/complete of object, tuple, merge, concat, seq, or, longestMatch, optional, withDefault, multiple, command; parseSync loop" }],
  "abstract interpretation of the combinators and the parse loop over abstract leaf parsers and token classes; values compared with those an assignment of tokens to parts allows",
  "Bounded: about 340 trees (every binary combinator over six wrappings of its parts, 49 hand-picked and 47 nested trees; all leaf pairs in the thorough tier) and token lists up to length four to six. Leaves stand for any option, flag or argument; `--`, option clusters, `=` forms, dependencies and conditional() are not covered. Whether overlapping alternatives accept every explainable list is left open.");
p("C21", "Asynchronous parsers behave exactly as synchronous ones do",
  "A parser tree some of whose parts answer with promises gives, through parseAsync, the same value or the same error with the same text as the same tree with immediate answers gives through parseSync, for every combinator and whichever parts are asynchronous; suggestAsync offers the same suggestions in the same order and getDocPageAsync the same documentation as their synchronous counterparts. A synchronous parser given to parseAsync behaves as with parseSync.",
  ["inputs", "configurations", "schedules"], "all parser trees, choices of asynchronous parts and argument lists",
  "Every combinator implements its logic twice; a difference shows only where a test happens to run the asynchronous twin on the same unusual input.",
  ["packages/core/src/constructs.ts", "packages/core/src/modifiers.ts", "packages/core/src/primitives.ts", "packages/core/src/parser.ts"], [{ name: "sync and async twins of parse, complete, suggest and the loops", where: "parseSync/parseAsync, completeSync/completeAsync in each combinator; dispatchByMode" }],
  "abstract interpretation of both twins over the same abstract leaf parsers; outcomes compared",
  "Bounded as C17, with all parts, the first or the last part asynchronous; error messages included except added suggestions of similar names. Promises settle when awaited; no other interleaving is considered.");
const NA = [];
const na = (id, title, statement, over, qtext, why, files, mechanism, reason) => { P.push({ id, title, statement, over, qtext, why, files, mechanism, na: reason }); NA.push({ property: id, reason }); };
na("C30", "Printing a value and parsing the text again gives the same value",
  "For every built-in value parser, format(v) of a value v that parse accepted is text that parse accepts again, with an equal value.",
  ["inputs"], "all values of all value parsers and their options", "Round trips over numbers, dates, URLs and custom formats have unboundedly many values.",
  ["packages/core/src/valueparser.ts", "packages/temporal/src/index.ts"], [{ name: "format/parse pairs", where: "ValueParser implementations" }],
  "equality of the values depends on number, date and URL conversions of the JavaScript runtime, which no static argument in reach models; only running them settles it");
na("C31", "Wrapped text never exceeds the requested display width",
  "formatMessage, formatUsage and formatDocPage given maxWidth break lines so that no line is wider than it, except for single words that do not fit.",
  ["inputs", "configurations"], "all messages, pages and widths", "Widths depend on Unicode properties of every character and on the interplay of terms.",
  ["packages/core/src/displaywidth.ts", "packages/core/src/message.ts", "packages/core/src/usage.ts", "packages/core/src/doc.ts"], [{ name: "display width accounting", where: "getDisplayWidth and the wrapping loops" }],
  "a bound on sums of run-time character widths over loops; needs numeric invariants over strings that the string domains here cannot express");
na("C32", "Similar-name suggestions are the nearest names",
  "The names suggested for a mistyped option or command are those at the smallest edit distance within the limit, in order of distance.",
  ["inputs"], "all names and typos", "The distance is a dynamic programme over arbitrary strings.",
  ["packages/core/src/suggestion.ts"], [{ name: "edit distance and ranking", where: "levenshteinDistance, findSimilar" }],
  "functional correctness of a numeric dynamic programme; beyond dataflow and abstract interpretation without an inductive proof");
na("C33", "Integer and float parsers accept exactly the numbers in their range",
  "integer() and float() accept a text exactly if it denotes a number within min and max (and is exactly representable where required), in number and bigint modes.",
  ["inputs"], "all texts and bounds", "The boundary cases of decimal texts and binary numbers are unbounded.",
  ["packages/core/src/valueparser.ts"], [{ name: "numeric conversion and range checks", where: "integer, float" }],
  "depends on decimal-to-binary conversion and rounding of the runtime; no numeric domain in reach is exact for it (that these parsers never throw is C25)");
module.exports = { P, NA, p, na };
