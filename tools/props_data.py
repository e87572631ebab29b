NC = False  # flips to True per property as its check lands
MC = "model_checking"
BASE_NOTE = "Exhaustive inside the stated alphabet and bounds, says nothing outside them; trusts the Go toolchain, go/types and go/ast, and the reference model in the harness. "

prop("S01", "A suppression silences exactly the findings on the code it is attached to",
 "With suppression comments honoured, a finding is withheld if and only if some suppression comment attached to code whose line span contains the finding's lines, or lies inside them, names the finding's rule or names no rule at all. Every other finding in that file, in other files and in other packages is still reported. The outcome does not depend on how many suppression comments the file has, how their spans nest or repeat, or the order in which files are scanned.",
 ["inputs", "programs"], "all small Go files built from a fixed skeleton of nested blocks with up to three suppression comments, placed at every attachment point, with every rule list from a small alphabet",
 "Tests use single-comment samples; nesting, repetition and overlap of several comments with different rule lists, multiplied by map iteration order, is a combinatorial space they never enter.",
 ["analyzer.go"], [("comment to node association and span bookkeeping", "analyzer.go: updateIgnores, ignores.add/get"), ("filtering", "analyzer.go: updateIssues")])

prop("S02", "Suppression directive grammar: tag, rule list, justification",
 "A comment is a suppression directive exactly when one of its lines starts with `#nosec`, or with the configured alternative tag, or when it is a `//gosec:disable` directive comment. The rule IDs before the first run of two or more dashes restrict it to those rules (none listed means all rules), and the text after those dashes is its justification. The alternative tag is matched literally whatever characters it contains, and no other setting changes what the default tag is.",
 ["inputs", "configurations"], "all comment texts over a token alphabet up to a length bound, in line and block comment form, under every tag configuration of a small set",
 "A handful of literal comments are tested; the grammar is a language over prefixes, separators, dashes, newlines and configured tags.",
 ["analyzer.go", "config.go"], [("directive recognition", "analyzer.go: findNoSecDirective, findNoSecTag"), ("rule list and justification", "analyzer.go: ignore")])

prop("S03", "Suppression modes and their accounting agree",
 "For every combination of overriding suppressions, showing ignored findings and tracking suppressions, each finding is either absent, present unmarked, or present and marked as suppressed exactly as those modes prescribe. A tracked finding carries one record per suppression comment or global exclusion that applies to it, with the right kind and justification, and an untracked or unsuppressed finding carries none. The file, line, directive and finding counts equal the numbers of scanned files, scanned lines, honoured directives and reported unsuppressed findings.",
 ["configurations", "inputs"], "every combination of the mode switches, rule selections and directive placements of a bounded program family",
 "Each mode is tested alone on one sample; the modes interact pairwise.",
 ["analyzer.go", "cmd/gosec/main.go", "issue/issue.go"], [("mode logic", "analyzer.go: NewAnalyzer, ignore, getSuppressionsAtLineInFile, updateIssues"), ("recount", "cmd/gosec/main.go: filterIssues")])

prop("P01", "Exactly the selected rules run",
 "The rules whose findings are reported are exactly those included (all rules when none is named) minus those excluded, for syntax rules and data-flow analyzers alike. A selection on the command line replaces the corresponding selection in the configuration file; with suppression tracking, deselected rules still report but every such finding is marked externally suppressed. Selecting nothing aborts the run instead of silently passing.",
 ["configurations"], "every include/exclude pair from a bounded set of rule lists, crossed with configuration-file selections and tracking, against every rule's firing probe",
 "Tests check list lengths for a few filters, never the findings of every rule under combinations of flags and configuration.",
 ["rules/rulelist.go", "analyzers/analyzerslist.go", "cmd/gosec/main.go", "analyzer.go", "rule.go", "analyzers/analyzers_set.go"],
 [("filters", "rules/rulelist.go: Generate, NewRuleFilter; analyzers/analyzerslist.go: Generate"), ("merge with configuration", "cmd/gosec/main.go: loadConfig, loadRules, loadAnalyzers")])

prop("P02", "Findings of a package do not depend on what was scanned before it",
 "The findings, suppressions and errors reported for a package are a function of that package and the configuration alone. Scanning any sequence of packages, in any order and with files in any order, with one scanner reports for each package exactly what scanning it alone reports, and the totals are the sums.",
 ["histories", "programs"], "every ordered sequence up to a depth over a library of packages chosen to touch each piece of cross-file rule state",
 "Each test scans one package with a fresh scanner, so state carried by rules from one file or package to the next is never exercised.",
 ["analyzer.go", "rules/tls.go", "rules/implicit_aliasing.go", "rules/readfile.go", "rules/archive.go", "rules/slowloris.go", "rules/decompression-bomb.go"],
 [("per-file context", "analyzer.go: CheckRules"), ("stateful rules", "rules/tls.go, rules/implicit_aliasing.go, rules/readfile.go, rules/decompression-bomb.go")])

prop("P03", "Concurrent loading is schedule independent and always terminates",
 "For every interleaving of the package loading workers and every concurrency value of at least one, a scan terminates, examines every requested package exactly once under the requested build tags, and yields the same findings, metrics and errors as a sequential scan. When a scan aborts with an error no worker stays blocked.",
 ["schedules", "fault_sequences"], "all interleavings up to a preemption bound of 1-3 workers over 0-4 packages, with every assignment of load outcomes (ok, load failure, unparsable error position, missing directory)",
 "Tests run one schedule chosen by the runtime, with a single package.",
 ["analyzer.go"], [("worker pool", "analyzer.go: Process"), ("shared load configuration", "analyzer.go: load")])

prop("P04", "Repeated scans give identical reports",
 "Scanning the same inputs with the same options twice yields the same findings, errors and metrics. The report also lists them in the same order, except that without sorting the order may follow which of several concurrent loaders finished first. No container iteration order influences what is reported or how it is ordered.",
 ["schedules", "inputs"], "every iteration order (up to a deviation bound) of every unordered container iterated during scans of a program corpus that reaches them",
 "Tests observe one random iteration order per run and do not compare runs.",
 ["analyzer.go", "helpers.go", "analyzers/slice_bounds.go", "analyzers/hardcoded_nonce.go", "analyzers/conversion_overflow.go", "cmd/gosec/sort_issues.go", "errors.go"],
 [("ordering", "cmd/gosec/sort_issues.go, errors.go"), ("map iteration", "helpers.go: PackagePaths; analyzers/slice_bounds.go; analyzers/hardcoded_nonce.go; analyzer.go: updateIgnores")])

prop("P05", "Scanning never crashes or hangs",
 "For every Go package, whether or not it type-checks, and every rule configuration accepted by the loader, scanning terminates in reasonable time and returns a report; it never panics, overflows the stack or loops forever. A package that cannot be analysed is recorded, and does not take the scan down.",
 ["programs", "configurations"], "all programs of a bounded grammar: every API the rules match on crossed with every argument shape (literals, variables, parameters, multi-value calls, variadics, conversions, nil, nested selectors) and every import form, and recursive, cyclic and closure-carrying value flows; and every single-token edit of those programs, most of which do not parse or type-check",
 "Tests feed idiomatic samples; rules index and type-assert on syntax shapes that samples never have.",
 ["rules", "analyzers", "analyzer.go", "helpers.go"], [("rule matchers", "rules/*.go: Match"), ("SSA analyzers", "analyzers/*.go"), ("panic containment", "analyzer.go: buildSSA")])

prop("P06", "Load and type errors are surfaced and do not hide other packages",
 "Every syntax or type error of a requested package is reported once under its file with the right line and column (an error which keeps a whole directory from being loaded, under the directory), and makes the run fail unless failures are disabled, also when output is quiet. A broken, missing or empty package never removes the findings of any other requested package.",
 ["inputs", "fault_sequences"], "every assignment of health states (clean, vulnerable, syntax error, type error, missing import, empty, excluded by constraints, missing directory) to a bounded set of packages, in every order",
 "Tests load a single broken package at a time.",
 ["analyzer.go", "errors.go", "cmd/gosec/main.go"], [("error collection", "analyzer.go: ParseErrors, AppendError, load"), ("ordering", "errors.go: sortErrors"), ("exit status", "cmd/gosec/main.go: exit")])

prop("P07", "Package discovery finds every directory not excluded",
 "For a recursive target, the scanned packages are exactly the directories at or below it that contain Go files and in whose path no exclusion pattern occurs, each once; a non-recursive target is passed through. The result does not depend on how the target is written or on the directory tree's shape, and an excluded directory does not hide directories which no pattern excludes.",
 ["inputs", "configurations"], "all directory trees up to a size bound over a small name alphabet, crossed with exclusion lists and target spellings",
 "Tests walk one or two fixed trees.",
 ["helpers.go", "cmd/gosec/main.go"], [("walk and exclusion", "helpers.go: PackagePaths, isExcluded, ExcludedDirsRegExp")])

prop("P08", "Exactly the files selected by the options are scanned",
 "In each requested package the scanned files are exactly its buildable Go files under the requested build tags, plus its test files when test scanning is on, minus generated files when those are excluded. This holds for syntax rules and data-flow analyzers alike, for every package of the run, and no file is scanned or finding reported twice even if targets overlap. Nothing outside the requested packages is scanned.",
 ["configurations", "inputs"], "every combination of the file kinds (plain, tagged, negated tag, os suffix, in-package test, external test, generated, cgo) and of the option switches, over one and two packages",
 "Options are tested one at a time on one package.",
 ["analyzer.go"], [("file selection", "analyzer.go: load, CheckRules, CheckAnalyzers, generatedFiles")])

prop("P09", "A run which cannot do what was asked fails instead of looking clean",
 "A run whose severity, confidence, configuration, log file, rule selection or other option is unusable, which names no target, or whose (only recursive) targets contain no package, ends with a nonzero status, prints no report and leaves the results file alone, whatever its other options are, disabled failures and quiet output included. A run with usable options and a package with a finding reports the finding, whatever those options are (a concurrency below one counts as one).",
 ["configurations", "inputs"], "every fault of the command line, its files and targets alone, in pairs and under every setting and pair of settings of the other options; every pair of valid settings",
 "The command's main function has no tests, and each test of its parts takes one value.",
 ["cmd/gosec/main.go", "analyzer.go"], [("options", "cmd/gosec/main.go: main, loadConfig, convertToScore"), ("workers", "analyzer.go: Process")])

prop("R01", "Every report format carries exactly the reported findings",
 "For every finding list, each output format is well formed for its consumer and contains exactly the reported findings, with those of file, line, column, rule, severity, confidence, weakness and message which that format has a place for, intact whatever characters those contain (characters which a format cannot represent may be replaced). Findings suppressed under tracking appear only in the JSON and SARIF formats, and producing one report never changes what another report of the same run contains.",
 ["inputs", "configurations"], "all finding lists up to a length bound over a small alphabet of findings including hostile strings, multi-line ranges, missing weakness and suppressions, in every format and in every sequence of two formats",
 "Tests render one fixed issue per rule into each format.",
 ["report/formatter.go", "report/json/writer.go", "report/csv/writer.go", "report/junit", "report/sonar", "report/yaml/writer.go", "report/golint/writer.go", "report/html", "report/text"],
 [("format dispatch and suppression filtering", "report/formatter.go: CreateReport"), ("writers", "report/*/writer.go, builder.go, formatter.go")])

prop("R02", "SARIF reports are internally consistent",
 "In every SARIF report each result's rule index designates the rule entry with that result's rule ID, rule entries are unique and sorted by ID, and every weakness a rule refers to is listed in the taxonomy. Each result has the location, region, level and suppressions of its finding, with paths relative to the scan root that contains it.",
 ["inputs"], "all sequences of findings up to a length bound over a rule and location alphabet, crossed with root path lists",
 "Tests check one fixed sequence of findings.",
 ["report/sarif/formatter.go", "report/sarif/builder.go", "report/sarif/types.go"], [("index bookkeeping", "report/sarif/formatter.go: GenerateReport, addRuleInOrder"), ("region and location", "report/sarif/formatter.go: parseSarifRegion, parseSarifArtifactLocation")])

prop("R03", "Severity and confidence filters, ordering and exit status",
 "The reported findings are exactly those at or above both the severity and the confidence threshold, ordered by non-increasing severity when sorting is on. The exit status is nonzero if and only if an unsuppressed reported finding or a load error exists and failing is not disabled, for every output, quiet and logging option; the reported total equals the number of unsuppressed findings listed.",
 ["configurations", "inputs"], "all threshold pairs, sort, quiet, no-fail, show-ignored and tracking switches crossed with packages of every finding and error profile",
 "Filtering and exit status live in the command, which has almost no tests.",
 ["cmd/gosec/main.go", "cmd/gosec/sort_issues.go"], [("filter and exit", "cmd/gosec/main.go: filterIssues, exit"), ("ordering", "cmd/gosec/sort_issues.go: sortIssues")])

prop("R04", "Output destinations receive the selected formats",
 "The results file receives the report in the requested format, standard output receives it when no file is named or when echoing is requested, in the overriding format if one is given. Each destination's content equals what it would be if it were the only one, an unwritable destination is an error and not silent success, and log text never mixes into the report.",
 ["configurations", "fault_sequences"], "every combination of format, output file state (none, new, existing, unwritable), echo, overriding format, tracking and terse switches",
 "No test exercises the command's output plumbing.",
 ["cmd/gosec/main.go", "report/formatter.go"], [("destinations", "cmd/gosec/main.go: main, printReport, saveReport")])

prop("R05", "Every rule is classified and documented consistently",
 "Every finding of every rule carries the weakness (CWE) mapped to its rule, with a matching identifier and link, in every format that shows it. Every available rule has a unique identifier, fires on code it describes, and stamps its own identifier, severity and confidence on its findings.",
 ["programs", "inputs"], "every rule and analyzer, each with a firing probe, in every report format",
 "Tests look up two or three mappings; a rule added without a mapping passes them.",
 ["issue/issue.go", "cwe/data.go", "cwe/types.go", "rules/rulelist.go", "analyzers/analyzerslist.go"], [("mapping", "issue/issue.go: ruleToCWE, GetCweByRule"), ("weakness data", "cwe/data.go")])

prop("R06", "Findings point at the code they are about",
 "Each finding names the file, and the lines and the byte column of the code construct it is about (data-flow findings: of a point inside that construct), and its snippet shows exactly those source lines with one line of context on each side, numbered as in the file. This holds for every position of the construct in the file, including the first and last lines, multi-line constructs, tabs, wide characters and line endings.",
 ["inputs"], "all layouts of a finding over prefix and suffix lines, spans, indentation and line-ending alphabets",
 "Tests check that some code is attached, at one position.",
 ["issue/issue.go", "analyzers/util.go"], [("location and snippet", "issue/issue.go: New, GetLine, CodeSnippet"), ("analyzer issue creation", "analyzers/util.go: newIssue")])

prop("D01", "Dangerous API use is recognised under every import form and only then",
 "A call of a listed dangerous function or an import of a blocklisted package is reported however the package is imported (plainly, renamed, by versioned path, with a raw-string path, several times, next to others; dot imports excepted) and wherever the use occurs in the file. A same-named function of another package or of a local type, or a blank import where only calls matter, is not reported.",
 ["programs"], "every listed API crossed with every import form, syntactic context and look-alike",
 "Each rule has samples with one import form; the cross product of listed functions and forms is untested.",
 ["import_tracker.go", "call_list.go", "helpers.go", "rules/blocklist.go", "rules/weakcryptohash.go", "rules/rand.go", "rules/ssh.go", "rules/http_serve.go", "rules/weakcrypto.go"],
 [("import names", "import_tracker.go: TrackImport, importName"), ("call matching", "call_list.go: ContainsPkgCallExpr; helpers.go: GetCallInfo, MatchCallByPackage")])

prop("D02", "Integer conversions are reported exactly when they can lose value",
 "A conversion between integer types is reported if and only if a value can reach it which the target cannot represent: given by the ranges of the two types, the constant converted, the bit size of a strconv parse call on every way, or the comparisons of the value with constants in the conditions on all ways which lead to the conversion. This holds for every pair of types (byte, rune and named types included, uintptr not), every position of the conversion and every shape of guard. (Judged are comparisons of the value itself - a variable, a field or what a pointer points to - and not boolean variables, compound conditions in switch cases, or a hole made by != in the middle of a range.)",
 ["programs"], "all ordered pairs of integer types, on 32- and 64-bit targets, crossed with guard shapes, comparison operators, operand orders and boundary constants",
 "Samples cover a few pairs and a few guards; off-by-one boundaries and operator/operand-order combinations are not sampled.",
 ["analyzers/conversion_overflow.go"], [("range reasoning", "analyzers/conversion_overflow.go: runConversionOverflow, isSafeConversion, isRangeCheck, explicitValsInRange")])

prop("D03", "Out-of-range constant slice accesses are reported exactly",
 "For a slice made in the program with a constant size, an index or slice expression with constant bounds is reported if and only if it panics by Go's rules for length and capacity, for every length which the comparisons of its length with constants on the ways to it allow. This holds for slices made by make, literals and arrays, through chains of slice expressions and parameters of functions. (Elements between the length and the capacity given to make count as usable; slices merged of several, kept in fields, elements or captured variables are not judged.)",
 ["programs"], "all lengths, capacities and indexes up to a bound crossed with make/slice expressions, reslicing chains, calls into other functions and length guards",
 "A few dozen samples stand for a three-dimensional arithmetic space.",
 ["analyzers/slice_bounds.go"], [("bounds tracking", "analyzers/slice_bounds.go")])

prop("D04", "File permission rules compare modes as bit sets",
 "A file-creating or mode-changing call is reported if and only if its literal mode has a permission bit outside the rule's configured maximum (or it is the all-permissions constant os.ModePerm, which is always reported). This holds for every mode value and literal spelling, every covered function and every configured maximum, given as text or number.",
 ["inputs", "configurations"], "all 4096 permission words and literal spellings, for every covered function, under every configured maximum of a family",
 "Tests use four or five modes and one configuration; a numeric instead of bitwise comparison passes them.",
 ["rules/fileperms.go"], [("mode test", "rules/fileperms.go: modeIsSubset, Match, getConfiguredMode")])

prop("D05", "TLS settings are judged literal by literal",
 "Each TLS configuration literal is reported (once) if and only if one of its own settings is at fault: certificate verification not provably on, minimum version below the profile's or not known, maximum version below the profile's, a named cipher suite outside the profile, server cipher preference off. An assignment to such a field (versions excepted) is judged alike. This holds for every way of writing the value, the literal or the configuration, and whatever other configurations the file or program contains.",
 ["programs", "histories"], "all sequences of up to three configuration literals and assignments over a field and value alphabet",
 "Samples hold one configuration each.",
 ["rules/tls.go", "rules/tls_config.go"], [("per literal state", "rules/tls.go: processTLSConfVal, processTLSConf, checkVersion, resetVersion, Match")])

prop("D06", "Non-constant values reaching commands, files, URLs and SQL are reported",
 "A command, a file path, a URL or an SQL text that carries data from a parameter, a field, an element, a call result or another non-constant source is reported, and one built solely from constants is not, for every covered sink function under every name of its package, whether the value is a literal, a constant, a concatenation, formatted, joined, or held in local variables by whatever form of declaration (each judged by its own initial value). (A plain parameter as command argument is not reported by design; a path or URL given directly in the call is only judged where it is a variable, or for paths a concatenation or join with a variable; later assignments to a variable are not followed, and the value of one declared in another file is not known; a cleaned path is not reported; SQL calls are judged as statements and in assignments, verbs of numbers carry no text, and a variable holding constant SQL parts is free.)",
 ["programs"], "all value-construction expressions up to a depth over a source alphabet, for every covered sink",
 "Samples show typical injections; combinations of sink, construction and source are not enumerated.",
 ["rules/subproc.go", "rules/readfile.go", "rules/ssrf.go", "rules/sql.go", "resolve.go", "helpers.go"], [("constant resolution", "resolve.go: TryResolve"), ("sinks", "rules/subproc.go, rules/readfile.go, rules/ssrf.go, rules/sql.go")])

prop("D07", "Hard-coded credential detection follows its documented settings",
 "A string literal bound to a variable or constant by assignment, declaration or comparison is reported if and only if its name matches the configured pattern and, unless entropy is ignored, its text (truncated as configured) reaches the configured entropy thresholds, or its text has a known secret format and reaches them too. Each of several names bound at once is judged by its own value. (Fields, map elements, composite literals, switch cases and literals inside larger expressions are not judged.)",
 ["inputs", "configurations"], "binding forms crossed with names, secrets on both sides of each threshold and every settings combination of a small family",
 "Tests use default settings with a few samples.",
 ["rules/hardcoded_credentials.go"], [("matching", "rules/hardcoded_credentials.go")])

prop("D08", "Unchecked-error auditing honours the allow lists",
 "A call statement which drops an error result is reported if and only if the function, named by its package or receiver type, is on neither the built-in nor the configured allow list; assigning the error to the blank identifier is reported, under the same lists, only in audit mode. This holds for functions, methods on values and pointers through any receiver expression, any import name, and every position of the error among the results. (Deferred calls, go statements and variable declarations are not judged.)",
 ["programs", "configurations"], "all combinations of callee kind, result tuple shape, dropping form, audit mode and allow-list entries",
 "Samples have one allow-listed function and one position.",
 ["rules/errors.go", "call_list.go"], [("audit", "rules/errors.go: Match, returnsError")])

prop("D09", "Fixed nonces are reported wherever they are fixed, fresh ones are not",
 "A nonce or initialization vector argument of a covered encryption call is reported when its bytes are fixed in the program (literal, converted string, array, made slice, result of a function which makes such), directly, on one of several branches, or handed through variables, fields, results and parameters of functions; the finding is at the call which gets the fixed value. It is not reported when the bytes were filled from crypto/rand before, in place or by the function which makes or fills them, and calls which are not covered are never reported.",
 ["programs"], "covered calls crossed with nonce construction and propagation shapes up to a depth",
 "Samples hold single shapes per cipher.",
 ["analyzers/hardcoded_nonce.go"], [("value tracking", "analyzers/hardcoded_nonce.go: raiseIssue, iterateThroughReferrers")])

prop("D10", "Calls with unsafe constant arguments are judged by the value",
 "Listening on a constant address with no host, 0.0.0.0 or [::], generating an RSA key of a constant size below 2048, creating a file at a path which begins (constant or os.TempDir, joined or concatenated) in a shared temporary directory, converting anything but a constant to a template type, serving the directory / (or what the configured pattern names), and an http.Server literal with neither ReadTimeout nor ReadHeaderTimeout are reported, and the same with other values are not. This holds for every way of writing the constant and the literal, under every import name, wherever it stands. (An address is also judged where it is a local variable declared with a literal; other variables are not followed.)",
 ["programs"], "all values around what decides crossed with all ways of writing a constant, uses, and places in a program",
 "Samples use a literal or two per rule; named, composed, converted constants and neighbouring values are not enumerated.",
 ["rules/bind.go", "rules/rsa.go", "rules/tempfiles.go", "rules/templates.go", "rules/directory-traversal.go", "rules/slowloris.go"], [("value rules", "Match of each of the files")])

prop("D11", "A value is followed from its source through a variable to where it must not go",
 "Converting the result of strconv.Atoi to int32 or int16 (G109), copying without limit from a decompressing or archive reader (G110), and joining a path with the name in an archive entry (G305) are reported exactly if the variable used is one which the code in front gave that value to (G305: declared with it), or the value is used without a variable. It makes no difference whether the variable is declared or assigned, alone or along with others, in a statement, a condition or the package, and in which file; a different variable of the same name, and one which got another value of the same statement, is not taken for it. Taking the address of the value variable of a range loop, or of a part within it, is reported wherever it stands in the loop, once for each place, unless it is what a return statement returns or is of a copy, and only for Go versions before 1.22, as given by the GOSECGOVERSION variable or else by the module (G601).",
 ["programs", "environments"], "all ways from sources and non-sources through variables and their namesakes to sinks and non-sinks, all loops crossed with all uses, all forms of Go versions",
 "Samples show one or two assignments per rule, and one variable per function.",
 ["rules/integer_overflow.go", "rules/decompression-bomb.go", "rules/archive.go", "rules/implicit_aliasing.go", "helpers.go"], [("tracked variables", "rules/*.go: Match, assignedVars, declaredValue"), ("version", "helpers.go: GoVersion, goModVersion, parseGoVersion")])

prop("C01", "Configuration survives a round trip and sets what it says",
 "Reading a valid configuration makes every section it has retrievable with the values given, keeps the sections it does not have, and preserves unknown content; writing it and reading it back yields the same effective configuration. Invalid input (a global section that is no object included) is rejected with an error and changes nothing. A file and the command line options which set the same things have the same effect, in every order of operations.",
 ["inputs", "configurations"], "all configurations over a small option and value alphabet, through every order of set, write and read operations up to a depth",
 "Tests set one or two options.",
 ["config.go", "cmd/gosec/main.go"], [("globals conversion", "config.go: ReadFrom, convertGlobals, SetGlobal, GetGlobal, WriteTo")])

prop("C02", "Suggested fixes reach exactly the findings they were asked for",
 "For every finding list and every pattern of answers and failures of the AI service, a finding's suggested fix is the whole text of the service's (first) answer for that finding's problem or nothing, a failure or an answer without text is reported as an error and never leaves a wrong fix behind, no answer crashes the scan or changes its exit status, and the findings are otherwise unchanged. The service is asked at most once per distinct problem, and not at all without a key and a provider.",
 ["fault_sequences", "inputs"], "all finding lists up to a length over a problem alphabet crossed with all answer/failure/empty patterns of the service",
 "Tests use a mock with one answer.",
 ["autofix/ai.go", "cmd/gosec/main.go"], [("caching and assignment", "autofix/ai.go: generateSolutionByGemini, GenerateSolution")])

TECH = {
"P09": ('exhaustive enumeration of faulty and valid command lines (faults alone and in pairs, option settings alone and in pairs) run with the built command', BASE_NOTE + ''),
"D11": ("exhaustive enumeration of ways from source to sink through variables, of loops and uses, and of version forms on the real rules vs. the flow which the construction has", BASE_NOTE + ''),
"D10": ("exhaustive enumeration of values, notations, uses and places on the real rules vs. the value's side of the limit", BASE_NOTE + ''),
"C02": ('exhaustive enumeration of finding lists crossed with answer, failure and breakage scripts of a service on the loopback network against the real client and command', BASE_NOTE + ''),
"D06": ('exhaustive enumeration of value constructions, declarations, sinks and positions on the real rules vs. a constant-or-not oracle', BASE_NOTE + ''),
"D03": ("exhaustive enumeration of slices, chains of slice expressions, accesses, ways to other functions and guard shapes on the real analyzer vs. Go's rules for length and capacity", BASE_NOTE + ''),
"D09": ('exhaustive enumeration of nonce constructions, ways to the call and covered and other calls on the real analyzer vs. the kind of the construction', BASE_NOTE + ''),
"D02": ('exhaustive enumeration of type pairs, sources, constants, parse calls and guard shapes with all boundary comparisons on the real analyzer vs. a reference which evaluates the guards on every boundary value', BASE_NOTE + 'Evaluating guards on every constant in them with its neighbours stands for all values, as the conditions are comparisons with constants.'),
"D07": ('exhaustive enumeration of binding forms, names, texts around the thresholds and settings on the real rule vs. a reference judgement', BASE_NOTE + 'The entropy of a text is taken from the library the rule uses.'),
"C01": ('exhaustive enumeration of sequences of read, set, write and command line operations over an alphabet of configurations with I/O faults on the real configuration code and built command vs. a reference configuration', BASE_NOTE + ''),
"D05": ('exhaustive enumeration of setting products, literal forms, assignment forms and sequences of configurations on the real rule under the three profiles vs. a reference judgement', BASE_NOTE + 'Initial values of version variables are taken as their values.'),
"D08": ('exhaustive enumeration of callee kinds, result tuples, dropping forms, audit settings and allow lists on the real scanner vs. a reference decision', BASE_NOTE + ''),
"D01": ("exhaustive enumeration of every listed API crossed with import forms, syntactic contexts and look-alikes on the real scanner vs. a reference resolution of the called function", BASE_NOTE + "Dot imports are not covered."),
"D04": ("exhaustive enumeration of all permission words, literal spellings, covered functions and configured maxima on the real scanner vs. a bit-set comparison", BASE_NOTE),
"R03": ("exhaustive enumeration of option combinations over packages of every finding profile on the built command vs. a reference model of filtering, ordering, totals and exit status", BASE_NOTE),
"R04": ("exhaustive enumeration of output option combinations and destination faults on the built command vs. the single-output reports", BASE_NOTE),
"R01": ("exhaustive enumeration of finding lists over an alphabet of hostile findings, through every format and every ordered pair of formats of the real report writers, read back by independent consumers (JSON/YAML/CSV/XML decoders, an executed HTML page)", BASE_NOTE),
"R02": ("exhaustive enumeration of finding sequences and root path lists through the real SARIF writer vs. a consistency specification", BASE_NOTE),
"R05": ("exhaustive enumeration of every rule, its firing sites, ordered pairs of sites and every report format on the real scanner and writers vs. the documented rule and weakness lists", BASE_NOTE),
"R06": ("exhaustive enumeration of source layouts (prefix, line breaks, indentation, wide characters, line endings, suffix) of marked constructs on the real scanner vs. marked positions and the raw file bytes", BASE_NOTE),
"S01": ("exhaustive enumeration of annotated programs on the real scanner vs. a reference suppression model", BASE_NOTE),
"S02": ("exhaustive enumeration of comment texts and tag configurations on the real scanner vs. a reference grammar", BASE_NOTE),
"S03": ("exhaustive enumeration of mode combinations and directive placements on the real scanner and command vs. a reference accounting model", BASE_NOTE),
"P01": ("exhaustive enumeration of include/exclude selections on the real scanner and command vs. a reference selection model", BASE_NOTE),
"P02": ("exhaustive exploration of scan histories (sequences of packages and file orders) of one scanner vs. scanning each package alone", BASE_NOTE),
"P04": ("explicit enumeration of iteration orders in the real code: a build-time overlay of the current sources routes every iteration over an unordered container through an explorer, all single deviations (thorough: pairs) and uniform deviations per execution, plus all load orders of five packages", BASE_NOTE + "Orders of containers with more than three elements are reversal and every rotation of one element to the front."),
"P06": ("exhaustive enumeration of package health tuples and error positions on the real loader, analyzer and command vs. hand-marked error positions", BASE_NOTE),
"P07": ("exhaustive enumeration of directory trees, exclusion lists and target spellings on the real discovery code and command vs. a reference listing", BASE_NOTE),
"P08": ("exhaustive enumeration of file-kind sets, options and target lists on the real loader, analyzer and command vs. a reference selection", BASE_NOTE + "Findings inside files which use cgo are only required to lie in the package."),
"P03": ("stateless model checking of the real worker pool: its goroutines, channels and locks run on a controlled scheduler (build-time overlay of the current sources), all schedules up to a preemption bound with causal-state caching, plus happens-before race detection on every explored schedule", BASE_NOTE + "Memory accesses inside one statement are atomic for the interleaving search; packages.Load is replaced by a table of pre-type-checked packages."),
"P05": ("exhaustive enumeration of a bounded program grammar and configuration space on the real scanner, crash and hang monitored in isolated workers", BASE_NOTE),
}
for p in P:
    if p["id"] in TECH: p["technique"], p["note"] = TECH[p["id"]]
