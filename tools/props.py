#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["public accessors and exceptions after each call"]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

ARGS, ARGUMENT, ARGH, SI = "src/args.cpp", "src/argument.cpp", "include/blet/args/argument.h", "single_include/blet/args.h"
USAGE, VALID, EXC, UTIL, ARGSH, VEC, TOP = ("src/usage.cpp", "src/valid.cpp", "src/exception.cpp", "include/blet/args/utils.h",
    "include/blet/args/args.h", "include/blet/args/vector.h", "include/blet/args.h")
RARE = ("the 18 tests that run cover definition errors, usage text and access errors and parse only a handful of fixed command lines; "
        "the file with most parsing examples is not even run here")

p("P01", "Every command-line token is accounted for exactly once, in order",
  "After a successful non-strict parse, every token that follows the program name has been used exactly once: as an option spelling, as a value of exactly one occurrence of one option, as a value of exactly one positional argument, as the `--` separator, or as an additional argument. No value appears that was neither on the command line nor a declared default, and the values of each argument and of the additional arguments keep the order and the exact text they had on the command line.",
  ["inputs", "configurations"], "every set of argument definitions (all action/nargs kinds, defaults, alternative mode or not) and every command line accepted by it",
  "Conservation is a statement about all mixes of kinds and token orders; " + RARE,
  [ARGS, UTIL, SI], [("token loop and index bookkeeping of the parser", "src/args.cpp parseArguments, parseShortArgument_, parseArgument_, parsePositionnalArgument_"),
   ("name=value splitting", "include/blet/args/utils.h takeArg")],
  [("values and additional arguments", "where each token of the line ended up", "src/args.cpp")])
p("P02", "Option values follow the declared action, nargs, count and defaults",
  "After a successful parse each option holds exactly what its action and number of values say for its occurrences on the line: a plain option keeps its last value(s), a list option the values of its last occurrence, append and extend options the concatenation of all occurrences (grouped by nargs), and store-true, store-false and absent options the corresponding truth value. An option absent from the line holds exactly its declared defaults (or nothing), values given on the line replace the defaults entirely, and the existence flag and occurrence count equal what is on the line.",
  ["inputs", "configurations"], "every option kind reachable with the public actions and nargs (0 to 5 and '+'), with and without defaults, every number of occurrences and every spelling",
  "The kinds, defaults, occurrence counts and spellings multiply; " + RARE,
  [ARGS, ARGUMENT, SI], [("kind selection from action and nargs", "src/argument.cpp typeConstructor_"), ("storing values", "src/args.cpp parseArgument_"), ("defaults", "src/argument.cpp defaultsConstructor_, clear_")])
p("P03", "Equivalent spellings of an option give the same result",
  "The documented spellings of one option use (`-s V`, `-sV`, `-s=V`, `-bsV`, `-bs=V`, `--simple V`, `--simple=V`, and with alternative mode `-simple V`, `-simple=V`, by any of the option's flags, and flags without value written apart or in one cluster) are interchangeable: exchanging one for another anywhere in a command line leaves every observable result of the parse unchanged. With alternative mode off, a single-dash token is never taken as a long option, and the text after the first `=` is the value verbatim, including further `=` characters and the empty string.",
  ["inputs", "configurations"], "every option kind that takes one value or none, every value (without `=` in the glued `-sV` form), every context of surrounding tokens",
  "It relates pairs of command lines; tests fix one spelling at a time and sample few contexts; " + RARE,
  [ARGS, UTIL, SI], [("short clusters and inline values", "src/args.cpp parseShortArgument_"), ("long options", "src/args.cpp parseLongArgument_"), ("split at =", "include/blet/args/utils.h takeArg")])
p("P04", "Positional arguments are filled in order, `--` ends options",
  "Tokens that are not options nor option values fill the positional arguments in their order (required ones first, then in order of declaration), each taking its declared number of tokens, and what is left over becomes additional arguments in order, or in strict mode is rejected naming the first such token. After the first `--` every token, whatever it looks like, is positional; the separator itself is never a value, and a lone `-` is an ordinary value.",
  ["inputs", "configurations"], "every list of positional definitions (single, fixed number, unbounded list, unbounded groups; required or not, each settled before the next is defined; with defaults) mixed with options, with and without `--`, strict or not",
  "Interleavings of positionals, options and the separator are unbounded; " + RARE,
  [ARGS, ARGUMENT, UTIL, SI], [("positional assignment", "src/args.cpp parsePositionnalArgument_"), ("ordering of definitions", "src/argument.cpp compareOption_"), ("end of options", "include/blet/args/utils.h endOptionIndex")])
p("P05", "Open-ended lists stop only at a recognised option or at the separator",
  "An option or positional that takes an open-ended number of values takes every following token up to the first one that the parser would recognise as an option (long, short, cluster, or single-dash long in alternative mode, with or without `=value`), or up to `--` or the end of the line; a token that merely looks like an option but is not one is a value. An option with a fixed number of values takes exactly that number of tokens whatever they look like, and an open-ended group list only ends between complete groups.",
  ["inputs", "configurations"], "every open-ended kind, every token following it: near-miss flags, unknown flags, negative numbers, clusters mixing known and unknown letters, with alternative mode on and off",
  "The decision is made per token against all definitions; tests contain a few tokens only; " + RARE,
  [ARGS, SI], [("look-ahead that recognises an option", "src/args.cpp endOfInfiniteArgument_"), ("loops over following tokens", "src/args.cpp parseArgument_, parsePositionnalArgument_")])
p("P06", "Malformed command lines are rejected with the right error, valid ones never",
  "A command line with an unknown option, a missing value, an incomplete group, a value given to an option that takes none, a single inline value given to an option that takes several, or a value-taking option inside a cluster where it cannot be, is always rejected with the parse error that names the offending option, letter or token and the cause; the first such error in line order is the one reported. A command line without such an error is never rejected for its form.",
  ["inputs", "configurations"], "every definition set and command line, in particular lines derived from valid ones by dropping, duplicating, gluing and corrupting tokens",
  "Soundness and completeness of rejection range over all lines; tests sample a few bad lines; " + RARE,
  [ARGS, EXC, SI], [("errors raised while parsing", "src/args.cpp parseShortArgument_, parseLongArgument_, parseArgument_, parsePositionnalArgument_"), ("exception classes", "src/exception.cpp")],
  observe=["exception class, its message and the argument it names"])
p("P07", "Help, version, required and validation take precedence in that order",
  "When a well-formed line contains the help option the parse ends with help, otherwise with version if it is there, otherwise with a required error naming the first missing required argument (as an argument or as an option), and only then are values validated and delivered. Help and version either throw the exception carrying exactly the usage or version text, or, when exceptions are not enabled, print exactly that text and a newline on standard output and exit with status 0; a help option is available under whichever of `-h` and `--help` is free when none was defined. Errors in the form of the line come before all of these.",
  ["inputs", "configurations"], "every combination of help, version, missing required arguments, failing validators and malformed tokens, with exceptions enabled or not",
  "Precedence is about combinations of conditions; tests have single conditions, and the exit path is not tested; " + RARE,
  [ARGS, USAGE, SI], [("checks after the token loop", "src/args.cpp parseArguments"), ("ownership of the help and version option", "src/argument.cpp typeConstructor_, action")],
  observe=["exceptions", "standard output and exit status of a child process"])
p("P08", "Validators see exactly the parsed values, once, and decide",
  "A validator is called exactly once per parse for an argument that is on the command line, with all its values in order, and never for an argument that is absent. If it rejects, by returning false or by its validation error, the parse fails with a validation error that carries its message and the argument's first flag or its name; if it accepts, the values it left are the ones every accessor and destination then shows, the count staying as parsed whatever length the list it left has. Arguments are validated in their listing order and an earlier rejection prevents later validators from being called.",
  ["inputs", "configurations", "histories"], "every argument kind, accepting, rejecting, throwing and transforming validators, repeated parses",
  "It constrains calls made during every parse; tests check a few outcomes and never record the calls",
  [ARGS, VALID, ARGH, SI], [("validation loop", "src/args.cpp parseArguments"), ("attached validator", "include/blet/args/argument.h valid")],
  observe=["recording validators supplied by the workload"])
p("P09", "The built-in validators accept exactly what they describe",
  "The number validator accepts an argument only if all of its values are complete decimal numbers; the range validator only if the number that each value starts with (its numeric view) lies between the two bounds, inclusive, in whichever order they were given; the choice validator only if all equal one of the choices exactly; the path validator only if all exist and are, as asked, any path, a regular file or a directory (following links). On rejection the error names the first offending value, and accepted values are left unchanged.",
  ["inputs"], "every list of values, bounds, choices and file kinds, on options and positionals of every kind",
  "Boundaries, near misses and position of the bad value are unbounded; tests sample one or two values",
  [VALID, SI], [("built-in validators", "src/valid.cpp")])
p("P10", "Destinations receive exactly what the accessors show",
  "After a successful parse every bound destination holds the conversion of the argument's value as the accessors show it: scalars the value, vectors one element per value in order (appended to what the vector held), vectors of vectors one row per group, truth-valued options their truth value, text without alteration, character arrays the longest prefix that fits with its terminator, and `const char*` texts that stay readable as long as the parsed result. A custom conversion is called exactly once per parse with the existence flag and exactly these values; a value for a destination whose type nothing converts to is reported by an error, never dropped; when the parse fails in form, by help, version or a missing argument, no destination is written.",
  ["inputs", "configurations"], "every supported destination type (integers, floating point, bool, text, arrays), as scalar, vector and vector of vectors, custom or not, for every argument kind; numbers representable in the destination type",
  "Types, containers and kinds multiply; the tests that run bind no destination at all",
  [ARGH, SI], [("conversions", "include/blet/args/argument.h strTo, boolTo"), ("delivery", "include/blet/args/argument.h ArgumentType, ArgumentVectorType, ArgumentVectorVectorType")],
  observe=["destination objects owned by the workload"])
p("P11", "The numeric view of a value is the number it starts with",
  "After a successful parse a value, or element of a list value, is reported as a number if and only if its text starts with a decimal number, and then the numeric view equals that number; otherwise asking for the number fails. This holds for values given on the line, for defaults and for values changed by a validator, and no earlier parse influences it.",
  ["inputs", "histories"], "every value text over number-like and other text, every kind of argument and nesting, repeated parses",
  "All texts and all positions; the tests that run never parse numbers",
  [ARGUMENT, ARGH, SI], [("number conversion", "src/argument.cpp toNumber_"), ("numeric accessor", "include/blet/args/argument.h getNumber, operator T")])
p("P12", "A parse depends only on the definitions and its own command line",
  "Parsing with an object that has already parsed other command lines, successfully or not, gives the same results, errors and accessor values as parsing with a freshly defined object with the same definitions. Nothing of an earlier line (values, counts, existence, numbers, additional arguments) survives, and defaults are back in full.",
  ["histories", "inputs"], "every sequence of accepted, rejected, help, version and validation-failing lines on one object, every kind of argument",
  "A statement about histories of parses; the repository shows the same object parsing twice but no test that runs does",
  [ARGS, ARGUMENT, SI], [("reset before a parse", "src/argument.cpp clear_"), ("reset of additional arguments", "src/args.cpp parseArguments")])
p("P13", "The registry of names stays exact over any history of definition changes",
  "After any sequence of adding arguments, adding flags, removing names and updating, a name is known if and only if it was accepted and not removed, every known name leads to the one argument it was given to, an argument disappears exactly when its last name is removed, and its listed flags are its current ones, short before long and each alphabetically. Invalid requests (malformed, empty or already used names, flags on positionals, unknown names) are rejected with the documented error naming the offending name and change nothing, and a later parse and the usage text know exactly the registered names.",
  ["histories"], "every sequence of definition operations with valid, duplicate, malformed and unknown names, followed by parses",
  "Histories are unbounded; the tests that run do single operations on fresh objects",
  [ARGS, ARGSH, ARGUMENT, SI], [("adding and removing", "src/args.cpp addArgument, removeArguments"), ("adding a flag", "src/argument.cpp flag, validFormatFlag_, sortNameOrFlags_"), ("lookup", "include/blet/args/args.h argumentExists, getArgument, updateArgument")])
p("P14", "The order in which an argument's properties are declared does not matter",
  "Declaring the same properties of an argument (flags, action, number of values, requirement, defaults, help, metavar, validator, destination) in any order that is accepted, in one chain or by later updates, gives an argument that behaves identically in every later parse, access and usage text; the same holds for the order in which options are added. What was declared can be read back unchanged, the defaults being the values before any line, and a contradictory declaration (a second help or version option, the action of an option or no value at all on a positional, a number of defaults that does not fit) is rejected naming the argument and changes nothing.",
  ["configurations", "inputs"], "every set of builder calls, every permutation of it that is accepted, options in every order, then any command line",
  "Permutations of builder calls are a combinatorial space; tests always use one order",
  [ARGH, ARGUMENT, ARGS, SI], [("builder methods", "include/blet/args/argument.h, src/argument.cpp"), ("replacement of the argument object by a destination", "include/blet/args/argument.h dest"), ("ordering", "src/argument.cpp compareOption_")])
p("P15", "The usage text lists every argument, in order, within the layout",
  "The usage text contains each defined argument exactly once in the synopsis and once in its section, options sorted (required first, then short before long, alphabetically) and positionals in parse order, with all its flags, its value name, its help and its required or default note, optional ones in brackets. Text is laid out in the configured columns and wrapped only at spaces, losing no word, description and epilog included, and a custom usage text replaces everything.",
  ["inputs", "configurations"], "every set of definitions, help, metavar, description and epilog texts, binary names and column widths",
  "Texts, widths and definition sets are unbounded; usage tests cover some fixed layouts",
  [USAGE, ARGUMENT, SI], [("usage generation", "src/usage.cpp getUsage"), ("wrapping", "src/usage.cpp s_multilineWrap"), ("default value name", "src/argument.cpp metavarDefault_")],
  observe=["the usage string", "help output"])
p("P16", "No use of the library corrupts memory, leaks, hangs or is undefined",
  "For every definition history, command line, access and destruction, including those that end in an error, no memory is read or written outside live objects, nothing is leaked or freed twice, no undefined operation is executed and every call returns. This includes empty argument vectors, empty and very long tokens, arbitrary bytes, and many tokens or definitions.",
  ["inputs", "histories"], "every API history and argv of non-null strings, within available memory; numbers delivered to numeric destinations are in range",
  "Tests run without sanitizers on friendly inputs; memory errors often leave no visible trace",
  [ARGS, ARGUMENT, ARGH, USAGE, VALID, UTIL, SI], [("ownership of arguments and pointers between them", "src/args.cpp, include/blet/args/argument.h"), ("buffer copies", "include/blet/args/argument.h strTo, boolTo")],
  observe=["AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer, libstdc++ assertions, valgrind"])
p("P17", "Validators are destroyed exactly once, or never when not owned",
  "A validator handed over for ownership is destroyed exactly once: when it is replaced, when its argument is removed, when the parser is cleared or destroyed, and not before; one lent without ownership is never destroyed by the library. This holds over every sequence of definition changes, destination bindings, copies of arguments, parses and errors.",
  ["histories"], "every history of attaching, replacing, binding destinations, copying, removing, clearing, parsing and destroying",
  "Lifetime is a property of histories; no test observes destruction",
  [ARGH, ARGUMENT, ARGS, SI], [("ownership flag of the validator", "include/blet/args/argument.h valid, dest"), ("destruction", "src/argument.cpp ~Argument, src/args.cpp removeArguments, clear")],
  observe=["counting validators supplied by the workload"])
p("P18", "Parsers are independent, and a parsed result can be read concurrently",
  "Parsers used by different threads at the same time do not influence each other and each gives the result it gives alone. A parsed result may be read through every read-only accessor (including the usage text) from several threads at once without data race and with the same answers.",
  ["schedules", "inputs"], "every interleaving of threads defining, parsing, reading and destroying their own parsers, or reading one shared parsed parser",
  "No test uses threads; hidden shared or lazily written state would be invisible to them",
  [ARGS, ARGUMENT, USAGE, ARGH, VALID, SI], [("absence of global and mutable state", "whole library")],
  observe=["ThreadSanitizer, comparison with single-threaded results"])
p("P19", "All delivered forms of the library behave identically",
  "The separately compiled library and the single header give identical results, errors and texts for every history and command line, in every supported language standard, compiler and optimisation level. The single header can be included from several translation units of one program.",
  ["programs", "configurations", "inputs"], "library and single header, C++98 to C++20, gcc and clang, optimisation levels, static and shared; every history and command line",
  "The tests run one configuration of one form only",
  [SI, TOP, ARGS, ARGUMENT, USAGE, VALID, EXC, "CMakeLists.txt"], [("hand-maintained copy of all sources", "single_include/blet/args.h")],
  observe=["observation logs of the same workload from every build"])
p("P20", "Clearing gives a parser that behaves like a new one",
  "After clearing, at any point of any history, a parser has no arguments, no texts, no additional arguments and all modes and widths at their initial values, and everything done with it afterwards gives the same results as with a new parser. Each mode, text and name set before is read back as set.",
  ["histories"], "every history of settings, definitions and parses before and after the clear",
  "Leftover state shows only in later behaviour; no running test clears",
  [ARGS, ARGSH, "include/blet/args/usage.h", SI], [("reset", "src/args.cpp clear"), ("setters and getters", "include/blet/args/args.h, include/blet/args/usage.h")])
p("P21", "All views of an argument agree with each other",
  "For every argument at every moment the text view, stream output, string conversion, list and list-of-lists conversions, element access, size, truth value and numeric view describe the same value: the text is the values joined by `, ` with groups in parentheses, conversions that do not fit the kind are refused with the documented error, and access past the end is refused. Truth value equals existence, inverted for store-false.",
  ["inputs", "configurations"], "every argument kind before and after every parse, present, absent, with defaults, with zero values",
  "It relates accessors over all states; tests look at one accessor at a time",
  [ARGUMENT, ARGH, SI], [("accessors and conversions", "src/argument.cpp getString, operator std::vector; include/blet/args/argument.h")])
p("P22", "An allocation failure during a parse leaves the parser usable",
  "If memory runs out at any point of a parse, the failure is reported as the standard out-of-memory exception (or the parse completes), nothing is corrupted, and when memory is available again the same parser gives the same results for any line as a parser that never failed. Everything is still released exactly once.",
  ["fault_sequences", "inputs"], "every allocation made while parsing, failed one at a time or all from that point on, for every argument kind, with a help option of the user or the automatic one",
  "No test injects faults, and the failing point ranges over every allocation of every line",
  [ARGS, ARGUMENT, ARGH, SI], [("value semantics of the stored results and reset before each parse", "src/args.cpp parseArguments, src/argument.cpp clear_")],
  observe=["replaced global allocation functions", "AddressSanitizer"])
p("P23", "Inputs are never modified nor needed after the call",
  "Parsing does not modify the argument vector or any of its strings nor reads beyond the given count, and every text, list and array handed to the library is copied: overwriting or freeing it after the call changes no later result, and a text of the parser itself may be given to a definition call or lookup like any other. A parse that is given fewer arguments than the vector holds behaves as if the rest did not exist.",
  ["inputs", "histories"], "every definition history and command line, with every caller-owned buffer scrambled and freed after the call that received it",
  "Tests pass string literals that live forever, so a kept pointer is invisible",
  [ARGS, ARGUMENT, ARGH, VEC, UTIL, SI], [("values stored as strings", "include/blet/args/argument.h, include/blet/args/args.h, include/blet/args/usage.h")],
  observe=["guarded and scrambled buffers, AddressSanitizer"])
p("P24", "All ways to write a list of names or values are equivalent",
  "A list of names, defaults or choices gives the same definitions whether it is written as an initializer list, with the list helper for any number of items from none to twenty, as an array of texts, by concatenation, or as a single text. Every item arrives unchanged and in its place.",
  ["inputs", "configurations"], "every list length the helpers offer, every item text, every way to write the list, used for names, removal, defaults and choices",
  "Tests use lists of a few items; the helper has twenty-one hand-written overloads",
  [TOP, VEC, SI], [("list helper overloads", "include/blet/args.h vector"), ("list constructors", "include/blet/args/vector.h")])
p("P25", "Errors are caught as documented and carry their own text",
  "Every failure of the library is an exception of the documented hierarchy: it can be caught by its own class, by each of its documented bases and as std::exception, and by no other class of the hierarchy. Bad definitions, unknown names, malformed lines, missing required arguments and rejected values are each reported by the class meant for them. Its message and the argument it names stay the same in every copy of it, also after the parser, the definitions and the command line are gone.",
  ["inputs", "histories"], "every refused call, failed parse and refused access, every copy of its exception, read at any later time",
  "Tests catch the exception at once and by one class, while everything it could point to is alive",
  [EXC, "include/blet/args/exception.h", ARGS, ARGUMENT, SI], [("exception classes", "include/blet/args/exception.h, src/exception.cpp"), ("where they are thrown", "src/args.cpp, src/argument.cpp, src/valid.cpp")],
  observe=["the class by which an exception is caught, what(), argument(), copies of it", "AddressSanitizer"])
p("P26", "Reading changes nothing",
  "Looking an argument up, reading any of its properties, values, views and conversions, reading modes and texts, printing the usage, and copying an argument change nothing, at any moment of any history and any number of times: two readings in a row agree, and every later call gives what it gives without them. This includes lookups, accesses and conversions that are refused; references and iterators taken earlier stay good, and writing to a stream is writing the text, whatever the settings of the stream.",
  ["histories"], "every history of definitions, settings, parses and clears, with readings between any two calls or none",
  "A change left by a reading shows only later, and only in comparison with a history without it",
  [ARGS, ARGUMENT, ARGH, USAGE, ARGSH, SI], [("lookups", "src/args.cpp operator[], argExists"), ("accessors and conversions", "src/argument.cpp, include/blet/args/argument.h"), ("usage text", "src/usage.cpp")])
p("P27", "Exceptions of user code pass through and leave the parser usable",
  "Whatever a validator (other than its own validation error) or a custom conversion throws, of any type, leaves the parse unchanged; arguments treated before it are validated and delivered, those after it are not. The next line then gives what a new parser gives, nothing is leaked and validators are still released exactly once.",
  ["fault_sequences", "inputs"], "every argument kind, every place of the throwing validator or conversion among the others, exceptions of the hierarchy, of the standard library and of no class, followed by any line",
  "The place of the exception ranges over all callbacks of all lines; no test throws anything but the validation error",
  [ARGS, ARGUMENT, ARGH, SI], [("calls of validators and conversions", "src/args.cpp parseArguments"), ("reset before each parse", "src/argument.cpp clear_")],
  observe=["exceptions leaving the parse, validator and conversion calls, accessors after the next parse", "AddressSanitizer"])
p("P28", "Parsers used alternately or inside one another are independent",
  "Several parsers of one thread, their calls interleaved in any order, give each exactly what they give alone. This holds too for parsers that are defined, run, read or destroyed from within a validator or a conversion of another parser.",
  ["schedules", "histories"], "every interleaving of the calls, readings and callbacks of several histories within one thread",
  "Tests use one parser at a time; state shared between parsers shows only when they alternate",
  [ARGS, ARGUMENT, USAGE, ARGH, VALID, SI], [("absence of global state", "whole library"), ("calls of user code", "src/args.cpp parseArguments")],
  observe=["complete observation logs of each parser"])
p("P29", "A definition call that runs out of memory changes nothing",
  "If memory runs out in a call that adds, changes or removes a definition or sets a text, the failure is reported as the standard out-of-memory exception and the parser is exactly as before the call: same names, properties, defaults, values and usage text, and validators still owned and released exactly once. The same call made again when memory is available, and everything after it, gives what it gives without the failure; when it is not made again, everything after gives what it gives without the call.",
  ["fault_sequences", "histories"], "every allocation of every definition call at any point of any history, failed one at a time or all from that point on",
  "No test injects faults; a half made change shows only in later calls",
  [ARGS, ARGUMENT, ARGH, VEC, SI], [("adding and removing", "src/args.cpp addArgument, removeArguments"), ("changing", "src/argument.cpp flag, change_; include/blet/args/argument.h dest")],
  observe=["replaced global allocation functions", "all accessors after the failed call and after everything that follows", "AddressSanitizer"])
p("P30", "Parsing and reading cost in proportion to the command line",
  "Parsing a command line, and reading back what it gave, takes processor time, allocations and memory in proportion to the number of its tokens and to their length, for every kind of argument and every way its tokens are spread over options, lists, groups, clusters, positionals and additional arguments.",
  ["inputs"], "every definition set and every growing command line: a part repeated any number of times, or one token of any length",
  "Tests have lines of a few tokens, on which quadratic work cannot be seen",
  [ARGS, ARGUMENT, ARGH, UTIL, SI], [("token loop and list look-ahead", "src/args.cpp parseArguments, parseArgument_, parsePositionnalArgument_, endOfInfiniteArgument_"), ("conversions", "src/argument.cpp")],
  observe=["counting allocation functions", "thread processor time"])

p("P31", "The surroundings of the process neither matter nor change",
  "What the library does depends only on the calls made to it and on the files its path validator looks at: environment variables, the current directory, the terminal, the time, the user, the random numbers, errno and the format flags of the standard streams make no difference, nor whether it is called while the program runs or by its global objects before and after main. No call changes any of these, nor locale, signal handlers, file mask or rounding mode, leaves files, threads or child processes behind, reads standard input, or writes anything except the help or version text that ends the process.",
  ["configurations", "histories"], "every history of calls, every environment, directory, terminal, errno value and stream state it may run in",
  "Tests run in the one environment of the build machine, where everything that could matter has its usual value",
  [ARGS, ARGUMENT, USAGE, VALID, ARGH, SI], [("number conversions", "src/argument.cpp toNumber_, include/blet/args/argument.h strTo, src/valid.cpp"), ("usage text", "src/usage.cpp"), ("help and version", "src/args.cpp parseArguments")],
  observe=["observation logs in different surroundings", "state of the process before and after", "interposed getenv, isatty, ioctl, time, getuid"])
p("P32", "Copies of results keep what they hold",
  "A copy of an argument, of its elements or of a list of elements holds at any later time exactly what the original held when it was made: through further parses, changes and removals of the original, clearing and the end of the parser. Elements can be copied, assigned, moved about within lists and destroyed in any order, each keeping its own text, number and inner elements.",
  ["histories"], "every argument kind and value, every moment of a history at which copies are made, everything that may happen to the original afterwards",
  "A copy that shares something with its original is right until the original changes, which no test waits for",
  [ARGUMENT, ARGH, SI], [("copying", "src/argument.cpp Argument, ArgumentElement copy constructors"), ("reset of the original", "src/argument.cpp clear_, typeConstructor_")],
  observe=["all accessors of the copies at the end", "AddressSanitizer"])
p("P33", "What is set last holds alone, as if declared so from the start",
  "Names, action, number of values, defaults, requirement, help, value name, validator and destination of an argument, and the modes and texts of the parser, can be set again at any time, also between lines: what is set last holds alone. The values set before, refused settings and lines parsed under them leave no trace in any later line, property or usage text.",
  ["histories", "configurations"], "every set of definitions and every way to reach it by way of other settings, refused ones and parsed lines",
  "Tests declare each argument once, so a trace of an earlier setting cannot show",
  [ARGUMENT, ARGH, ARGS, SI], [("changing", "src/argument.cpp change_, typeConstructor_, defaultsConstructor_, flag, required"), ("replacing the destination", "src/argument.cpp replace_"), ("validator", "include/blet/args/argument.h valid"), ("removing names", "src/args.cpp removeArguments")],
  observe=["observation logs of later lines", "AddressSanitizer"])
p("P34", "Validators and conversions see the finished line",
  "A validator or custom conversion that reads the parser while it is called sees the whole line: every argument with its existence, its full count and its values, those treated before it as their validators left them, the additional arguments, and defaults, names and texts in place. Reading there, through any accessor and as often as it likes, changes nothing of what the parse gives.",
  ["inputs", "configurations"], "every definition set and line, every validator and conversion called, every argument it may look at",
  "No test has a validator that looks at another argument",
  [ARGS, ARGUMENT, ARGH, SI], [("order of the stages", "src/args.cpp parseArguments"), ("delivery", "include/blet/args/argument.h toDest_")],
  observe=["what each callback reads", "observation logs with and without readings"])
p("P35", "Reuse does not accumulate memory",
  "A parser that goes through the same calls again and again, lines that fail, definitions added and removed, texts set and readings included, holds no more memory after many rounds than after few. What a line needed is given back or used again by the lines that follow, whichever way the line ended.",
  ["histories"], "every cycle of calls on one parser, repeated any number of times",
  "Memory that grows is released in the end and no leak checker sees it; tests use a parser once",
  [ARGS, ARGUMENT, ARGH, USAGE, SI], [("reset before each parse", "src/argument.cpp clear_; src/args.cpp parseArguments"), ("definitions added and removed", "src/args.cpp addArgument, removeArguments"), ("texts", "src/usage.cpp")],
  observe=["blocks and bytes held by the library, from replaced global allocation functions"])
p("P36", "An argument that a line does not use affects nothing else",
  "For a line that neither uses an optional argument nor could be read as using it, all other arguments have the same existence, counts and values, the same validators and conversions are called, the same exception or result comes out and the usage text lists them with the same lines, whether that argument is declared or not. This holds whatever its names, kind, defaults, validator, destination and place among the declarations are.",
  ["inputs", "configurations"], "every definition set, every argument of it and every line that does not use it",
  "An influence of an unused declaration shows only in comparison with the same line without it",
  [ARGS, ARGUMENT, ARGH, SI], [("recognition of options", "src/args.cpp parseArgument_, parseShortArgument_, parseLongArgument_"), ("end of lists", "src/args.cpp endOfInfiniteArgument_"), ("stages after the token loop", "src/args.cpp parseArguments")],
  observe=["observation logs of the other arguments"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
for x in P:
    import re
    n = len(re.findall(r"[.!?](?:\s|$)", x["statement"]))
    if n > 3: print(x["id"], "sentences", n)
    if len(x["title"]) > 80: print(x["id"], "title", len(x["title"]))
print(len(P))
