p("U01","Every input line yields exactly one result, in input order",
"For any list of tasks given as arguments and on standard input, and any number of worker threads, the command-line program prints exactly one result per task, in the order the tasks were given (arguments first, then input lines), with no result lost, duplicated, split, merged with another or moved. This holds in plain-text and JSON output alike, however the workers are scheduled and however long individual tasks take.",
["schedules","inputs","configurations"],
"all task lists, all thread counts, all relative completion orders of the workers, both output formats",
"The existing tests call the library for one URL at a time and never run the program with several worker threads or with tasks that finish out of order.",
["src/main.rs","src/types/job/job.rs","src/types/job/task_config.rs"],
[("round-robin hand-out to per-worker channels and round-robin collection by the printing thread","src/main.rs"),("chained iterator over arguments and stdin lines","src/main.rs")],
[("per-worker input/output channels","tasks waiting for / results of each worker","src/main.rs")],
["stdout of the program"])
p("U02","Failures stay with their own input and are reported faithfully",
"An input that is not a task, or whose cleaning fails, produces a failure in its own place (a blank line on standard output plus one message on standard error in text mode; an error object in JSON mode) and leaves every other input's result the same as if it were alone. The exit status is 0 when every input succeeded, 1 when every input failed and 2 when some succeeded and some failed, and in JSON mode standard output is always one well-formed document with one entry per input.",
["inputs","configurations","fault_sequences"],
"all mixtures of valid, malformed and failing inputs; failing, erroring and panicking-free rule sets; both output formats; any thread count",
"No existing test runs the program with failing inputs or looks at its exit status, standard error or JSON structure.",
["src/main.rs","src/types/job/task_config.rs","src/types/job/task.rs","src/util.rs"],
[("per-result counting of successes and failures and the exit code table","src/main.rs"),("error serialization","src/main.rs, src/util.rs")],
[("some_ok / some_error","whether any result so far succeeded/failed","src/main.rs")],
["stdout, stderr and exit status of the program"])
p("U03","Cleaning any input with the shipped rules never crashes or hangs",
"For every input URL and every combination of the flags and variables the shipped configuration understands, cleaning ends after a bounded number of steps with either a cleaned URL or an ordinary error value; it never panics, overflows the stack, or runs away. A returned web URL is always one that parses again to itself.",
["inputs","configurations"],
"all URLs of every scheme and host kind (including every host named by the shipped configuration), all flag/variable settings",
"The shipped examples cover a few hundred well-formed URLs with default flags; index arithmetic, host edge cases and rule recursion depend on the particular input.",
["default-config.json","src/types/rules.rs","src/types/rules/mappers.rs","src/types/url_part.rs","src/types/better_url.rs","src/util.rs"],
[("bounded repeat and retry limits","src/types/rules.rs, src/types/rules/mappers.rs"),("error returns in place of panics","src/types/better_url.rs, src/types/url_part.rs")],
[],["library result of cleaning one task; process exit"])
p("U04","A URL's result does not depend on its batch, thread or earlier tasks",
"With the same configuration, parameters and context, a given task always yields the same result whether it is cleaned alone, repeatedly, in any position of any batch, after tasks that set variables or failed, or concurrently with others on shared configuration state. In particular scratch flags, scratch variables and call arguments of one task are never visible to another, and patterns that are compiled on first use behave the same whichever thread compiles them.",
["schedules","histories","inputs"],
"all batches, orders, thread counts and interleavings of tasks sharing one configuration",
"Tests clean one URL at a time in one thread with a fresh state, so leaks between tasks or races in lazily initialised shared state cannot show.",
["src/types/job/job.rs","src/types/job/task.rs","src/types/job/task_scratchpad.rs","src/glue/regex.rs","src/glue/glob.rs","src/main.rs"],
[("fresh scratchpad per task","src/types/job/task.rs"),("once-initialised compiled regex","src/glue/regex.rs")],
[("scratchpad","per-task flags and variables","src/types/job/task_scratchpad.rs"),("compiled regex cell","lazily filled, shared between threads","src/glue/regex.rs")],
["results of concurrent and sequential cleaning of the same tasks"])
p("U05","Host facts always describe the host the URL currently has",
"After any sequence of successful or failed edits of a URL, everything the URL object reports about its host (whether it has one, is a domain, IPv4, IPv6 or fully qualified; its subdomain, domain, suffix, middle, registrable and not-domain-suffix parts) is exactly what parsing its current text from scratch would report. An edit that fails leaves the URL and those facts unchanged.",
["histories","inputs"],
"all sequences of edits of all URL parts, hosts, schemes and ports over URLs of every scheme",
"Existing tests apply one edit to one URL; a stale cached host boundary only shows after particular sequences of edits that change the host kind or length.",
["src/types/better_url.rs","src/types/better_url/host_details.rs","src/types/better_url/host_details/domain.rs","src/types/better_url/host_details/ip.rs","src/types/url_part.rs"],
[("recomputation of host details in every host-changing setter","src/types/better_url.rs")],
[("cached host details","byte ranges of the host's domain parts or its IP kind","src/types/better_url/host_details.rs")],
["public accessors of the URL object after each edit"])
p("U06","Reading and writing a URL part touches that part and only that part",
"Reading any part of a URL gives the value the URL standard and the public suffix list define for it. A successful write of a part makes the URL the one obtained by replacing exactly that part (in the standard's sense, percent-encoding included) and leaves every other part as it was; a write the part does not support fails and changes nothing.",
["inputs","histories"],
"all parts (scheme, user, password, host and its sub-parts, port, path, query, single parameters, fragment), all URLs, all values including none, empty and non-ASCII",
"The existing tests sample a few parts and values; the percent-encoding, empty-versus-absent and host-boundary cases form a large product they do not enumerate.",
["src/types/url_part.rs","src/types/better_url.rs"],
[("get/set dispatch per part","src/types/url_part.rs"),("validated setters","src/types/better_url.rs")],
[],["part value and whole URL text before and after each write"])
p("U07","Path, host and fragment segment edits act as edits on a list",
"Reading, replacing, removing and inserting path segments, subdomain/domain segments and segment ranges behave exactly as the same operation on the list of segments, with negative positions counting from the end, for every position inside, at and beyond both ends. Positions outside the list yield \"absent\" or an error, as do edits the kind of URL cannot take, and leave the URL unchanged; untouched segments keep their exact text and order.",
["inputs","histories"],
"all segment lists (empty, trailing-slash, encoded and repeated segments), all positive, negative and out-of-range positions, all edit sequences",
"Tests check a handful of positions on one or two URLs; off-by-one faults at the ends and with negative positions depend on the list length.",
["src/types/url_part.rs","src/types/better_url.rs","src/util.rs"],
[("negative index normalisation","src/util.rs"),("segment iterators and joins","src/types/better_url.rs, src/types/url_part.rs")],
[],["URL text and part values before and after each edit"])
p("U08","Query edits remove exactly the chosen parameters and keep the rest in order",
"Removing or keeping query parameters by name, by list or by pattern, and setting or reading a single (possibly repeated) parameter, acts on the ordered list of decoded name/value pairs exactly as described: chosen pairs go or stay, all surviving pairs keep their names, values and order, and a query left without parameters disappears instead of becoming empty. A URL whose query has nothing to remove keeps the meaning of its query, and parts other than the query never change.",
["inputs","histories"],
"all queries (repeated names, empty names/values, missing '=', stray '&', percent and plus encoding, non-ASCII), all name sets and patterns",
"Tests use a few simple queries; decoding, duplicates and emptiness interact in ways single examples miss.",
["src/types/rules/mappers.rs","src/types/url_part.rs","src/types/better_url.rs"],
[("filter-and-reserialise of query pairs","src/types/rules/mappers.rs"),("query parameter part","src/types/url_part.rs")],
[],["query text and decoded pairs before and after each edit"])
p("U09","Error-handling mappers contain errors and roll back as documented",
"Ignoring an error keeps what was done before it and goes on, reverting on error restores the URL and all scratch flags and variables to their state before the failing action and still reports the error, try-else runs its alternative only after an error, first-not-error stops at its first success, and retrying makes as many attempts as it takes up to its limit, waiting at least the given time between them. An error that is not caught stops the enclosing sequence at once, so no later action runs, and combined operations that move or copy a part are all-or-nothing.",
["programs","inputs","fault_sequences"],
"all nestings of mappers, with a failure injected at every action of the sequence",
"Tests exercise each combinator with at most one failing child; the rollback and sequencing promises concern every nesting and every failure point.",
["src/types/rules/mappers.rs","src/types/rules.rs"],
[("state snapshot and restore","src/types/rules/mappers.rs"),("early return with ?","src/types/rules/mappers.rs, src/types/rules.rs")],
[("task state","URL plus scratch flags and variables","src/types/job/task_state.rs")],
["task state and result after each program"])
p("U10","Rules and mappers run exactly the branches their conditions select",
"Every rule form (conditional, map-dispatched by a part or string, shared-condition, sequence, bounded repeat, stored common rule) and every branching mapper runs exactly the actions selected by its condition or key, in written order, once each: the mapped entry when present, the designated fallback when the value or the entry is missing, and nothing otherwise. A repeat ends at its limit or as soon as one whole pass changes nothing, whichever is first.",
["programs","inputs"],
"all rule/mapper programs up to a generated depth, on all URLs and task states",
"Unit tests execute tiny programs; which branch runs depends on combinations of state, maps, fallbacks and nesting.",
["src/types/rules.rs","src/types/rules/mappers.rs","src/types/map.rs"],
[("rule dispatch","src/types/rules.rs"),("map lookup with null and missing fallbacks","src/types/map.rs")],
[],["task state and result after each program, compared with an independent interpreter"])
p("U11","Conditions evaluate to their documented truth value",
"Each condition on a URL, its host, parts, parameters, flags, variables or strings evaluates to the documented truth value or error for the current task state, and evaluating it never changes that state. Boolean combinators evaluate in order and stop as soon as the answer is known, an error in an evaluated operand propagates, and the error-handling wrappers turn errors, and only errors, into pass, fail or the alternative.",
["programs","inputs"],
"all nested conditions, all URLs, contexts, flags and variables, with errors injected at any operand",
"Unit tests cover single conditions on single URLs; evaluation order, error propagation and absent parts interact combinatorially.",
["src/types/rules/conditions.rs","src/types/error_behavior.rs","src/types/flag_var_thing/flag.rs"],
[("condition evaluator","src/types/rules/conditions.rs")],
[],["verdict of each condition, compared with an independent evaluator"])
p("U12","String modifications compute their documented function or fail cleanly",
"Every string modification (case changes, trimming, affixes, replacing, ranges, characters, segments, regular expressions, percent/base64 codecs, JSON lookup and their combinators) turns its input into exactly the documented output for every string and argument, including empty, multi-byte and out-of-range cases. When it cannot, it returns an error without panicking and the string being modified is left as it was.",
["inputs","programs"],
"all strings (empty, ASCII, multi-byte), all positive/negative/out-of-range positions, all nested modifications",
"Tests sample a few ASCII strings; byte boundaries, negative positions and separators at the ends form a space they cannot enumerate.",
["src/types/string_modification.rs","src/util.rs","src/glue/base64.rs","src/glue/regex.rs"],
[("checked slicing and index normalisation","src/types/string_modification.rs, src/util.rs")],
[],["result string or error of each modification, compared with an independent evaluator"])
p("U13","String locations, matchers and character classes decide as documented",
"A string-location test answers whether the needle occurs at the stated place of the haystack (anywhere, start, end, whole, before/after or at a position, as whole segments, and negated or combined forms), a string matcher and a character class answer whether the string or character belongs to the described set, for every input. Positions outside the string give the documented error and never a panic, and combinators follow ordinary logic with in-order short-circuiting.",
["inputs","programs"],
"all haystack/needle pairs including empty, overlapping and multi-byte ones, all positions, all nested matchers and character classes",
"Unit tests check a few pairs per variant; separators at the ends, empty needles and multi-byte offsets are where implementations differ.",
["src/types/string_location.rs","src/types/string_matcher.rs","src/types/char_matcher.rs"],
[("location tests","src/types/string_location.rs"),("matcher evaluator","src/types/string_matcher.rs"),("character classes","src/types/char_matcher.rs")],
[],["verdict of each test, compared with an independent evaluator"])
p("U14","String sources, variables, flags, maps and partitions look up the right value",
"A string source, variable or flag reference yields exactly the value stored under that name in the place it names (parameters, job context, task context, scratchpad, call arguments, environment), absent when nothing is stored, and an error where that place does not exist. Map and partition look-ups return the entry for the key, the missing-key fallback or the absent-value fallback as written, and fallbacks such as none-to, if-some, if-flag or if-error choose the alternative exactly when their trigger occurs.",
["programs","inputs","configurations"],
"all nested string sources over all task states, including names that exist in several places at once",
"Tests look up one name in one place; confusing two places, or absent with empty, needs states where both exist and differ.",
["src/types/string_source.rs","src/types/flag_var_thing/var.rs","src/types/flag_var_thing/flag.rs","src/types/map.rs","src/types/named_partitioning.rs"],
[("source evaluator","src/types/string_source.rs"),("variable and flag dispatch","src/types/flag_var_thing/var.rs, src/types/flag_var_thing/flag.rs"),("partition index","src/types/named_partitioning.rs")],
[],["value or error of each source, compared with an independent evaluator"])
p("U15","Common calls see their own arguments and the caller's scratchpad only",
"A call of a stored rule, mapper, condition, matcher, modification or source runs the named definition with exactly the flags, variables and functions passed in that call, evaluated in the caller, regardless of what the caller itself was passed. After the call returns the caller's own arguments are in force again, scratch flags and variables changed by the callee stay changed, and a call of an unknown name or with an argument that evaluates to nothing is an error.",
["programs","histories"],
"all call graphs (nested and repeated calls with shadowed argument names) of stored functions",
"No test nests calls with clashing argument names, which is the only way to tell the caller's arguments from the callee's.",
["src/types/config/common_call.rs","src/types/config/commons.rs","src/types/rules/mappers.rs","src/types/rules/conditions.rs","src/types/string_source.rs"],
[("argument evaluation in the caller","src/types/config/common_call.rs"),("argument frame swap","src/types/rules/mappers.rs")],
[("call arguments","flags and variables of the current call","src/types/config/common_call.rs")],
["task state and result of programs with nested calls"])
p("U16","Parameter overrides apply exactly, from files and from the command line",
"Applying a parameter diff changes exactly the flags, variables, set members, map entries and switches it names (each addition and removal in the documented order), leaves all other parameters untouched, and applying several diffs equals applying them one after another. Command-line override options have the same effect as the equivalent diff, for every combination and repetition of options.",
["configurations","histories","inputs"],
"all parameter sets, all diffs and sequences of diffs, all combinations of command-line override options",
"Tests do not compare option combinations with diffs; lost or reordered overrides only show with several options touching the same name.",
["src/types/config/params.rs","src/main.rs","src/glue/http_client_config.rs"],
[("diff application","src/types/config/params.rs"),("option-to-diff translation","src/types/config/params.rs")],
[("params","flags, vars, sets, lists, maps, cache switches, HTTP client settings","src/types/config/params.rs")],
["parameters after application; program output under overrides"])
p("U17","The cache returns the last value written, even across crashes and processes",
"For every key the cache returns the value most recently written to it (absent-value markers included), or nothing when never written, no matter how many threads, handles or processes read and write concurrently: each key's history is linearizable. Values whose write completed survive reopening and crashes, and a crash or concurrent open at any moment, including first creation, leaves a cache file that can be opened and used.",
["schedules","histories","crash_points","fault_sequences"],
"all interleavings of reads and writes by threads and processes, all overwrite sequences, a kill at any point",
"No existing test writes a key twice, shares the file between processes, or kills a process during creation.",
["src/glue/caching.rs"],
[("lazy connection and table creation","src/glue/caching.rs"),("replace-into write and keyed select","src/glue/caching.rs")],
[("cache table","category, key, value rows","src/glue/caching.rs")],
["read results and write completions at the cache's public interface"])
p("U18","Caching obeys its switches, never stores failures, never changes results",
"A cached operation reads the cache only when reading is enabled and writes it only when writing is enabled; a hit gives the stored result without performing the operation, a miss performs it once and stores its successful result under its own category and key. A failed operation is never stored, and with a cold cache, a warm cache or caching disabled the same deterministic operation gives the same result.",
["histories","configurations","fault_sequences"],
"all settings of the two switches, all sequences of hits, misses and failing operations, clashing categories and keys",
"Tests never inspect the cache between operations nor count how often the underlying operation ran.",
["src/types/rules/mappers.rs","src/types/string_source.rs","src/glue/caching.rs","src/types/config/params.rs"],
[("read-before and write-after around the operation","src/types/rules/mappers.rs, src/types/string_source.rs")],
[],["cache contents and count of operations performed"])
p("U19","HTTP requests carry exactly what the configuration asks for",
"Every HTTP request made on behalf of a task goes to the configured URL with the configured method, headers, body, user agent, redirect limit and proxy, merging the default client settings with the request's own overrides field by field, and nothing is sent that was not configured. The chosen part of the response (body, header, URL or cookie) is returned exactly, and a connection failure, oversized redirect chain or missing part is an error.",
["configurations","inputs","fault_sequences"],
"all request configurations and client-setting overrides, all responses including redirects, errors and truncated bodies",
"The test suite performs no network requests in its stable part, so nothing checks what is really sent.",
["src/glue/http.rs","src/glue/http_client_config.rs","src/glue/proxy.rs"],
[("request construction","src/glue/http.rs"),("client settings and their diffs","src/glue/http_client_config.rs")],
[],["requests received by a loopback server; values returned to the task"])
p("U20","Redirect expansion follows the server's answer, once, and caches it",
"Expanding a redirect replaces the URL by the server's redirect target, resolved against the requested URL, or keeps the URL when the server does not redirect; with a client that does not follow redirects, as shipped, it sends one request per expansion to the current URL and none to the target (with one that does, it gives the URL at the end of the chain). A successful expansion is remembered so that the same URL is not requested again while the cache is enabled, and a failed expansion leaves the URL unchanged and is reported as an error.",
["inputs","histories","fault_sequences"],
"all redirect statuses and Location forms (absolute, relative, with fragment, missing, malformed), all connection faults, warm and cold caches",
"Network tests are excluded from the stable suite and exercise only live sites.",
["src/types/rules/mappers.rs","src/glue/http_client_config.rs","src/glue/caching.rs"],
[("redirect expansion","src/types/rules/mappers.rs")],
[],["requests received by a loopback server; resulting URL; cache rows"])
p("U21","With the no-network flag the shipped rules never touch the network",
"When the no-network flag is set, cleaning any URL with the shipped configuration opens no network connection and performs no name lookup, whatever other flags are set; without the flag only the kinds of link that the configuration names as needing a request cause one.",
["inputs","configurations"],
"all URLs, in particular every host, path and parameter shape named in the shipped configuration, all other flags",
"Tests never observe connections, and each network-using rule must check the flag separately.",
["default-config.json","src/types/rules/mappers.rs","src/glue/http.rs"],
[("flag checks guarding each network action","default-config.json")],
[],["connections reaching a recording proxy; connect system calls"])
p("U22","Default cleaning removes tracking parameters and nothing else",
"On hosts without a dedicated rule, the shipped configuration removes exactly the query (and query-like fragment) parameters it lists as universal tracking, by name or prefix, and leaves every other parameter, with its value and order, the path and the credentials as they were; scheme upgrade, www removal and the other universal clean-ups apply exactly under the flags that govern them. Hosts listed as exceptions keep their parameters.",
["inputs","configurations"],
"all URLs on unlisted and exempt hosts, all parameter lists mixing listed and unlisted names, all flags governing the universal clean-ups",
"The shipped examples contain a few tracking parameters on a few hosts; the promise is about every listed name in every position and about leaving everything else alone.",
["default-config.json","src/types/rules/mappers.rs","src/types/config.rs"],
[("universal cleaning routine and its parameter sets","default-config.json")],
[],["cleaned URL compared with an independent model of the universal rules"])
p("U23","Cleaning an already clean URL changes nothing",
"With the shipped configuration and the same parameters, cleaning the result of a successful offline cleaning of a web URL gives that same result again, and spellings that parse to one URL (letter case of scheme and host, default port, surrounding white space, already-encoded versus raw characters) clean to the same URL. Not promised: redirect links without a destination on a mirror of another site, wikis named m or mobile, fragments where a removed parameter precedes one a site's rule looks for, and mirror hosts set to something that is not a host of its own.",
["inputs","configurations"],
"all web URLs whose cleaning needs no network, over every host named by the shipped configuration and every flag setting",
"Tests check single expected outputs and never clean an output again.",
["default-config.json","src/types/rules.rs","src/types/rules/mappers.rs"],
[("repeat-until-stable redirect section and ordered universal clean-up","default-config.json")],
[],["result of cleaning twice"])
p("U24","HTML text and attribute extraction match the HTML standard's decoding",
"Decoding character references in text yields the standard's text for every named reference and every numeric reference to a printable character, and an error for malformed ones (an unfinished reference, an unknown name, a control or white-space character by number), and extracting an attribute from a start tag yields the decoded value of the last attribute of that name for every quoting style, spacing, letter case and position among other attributes, with absent and valueless attributes told apart; anything that is not a complete, well-formed start tag is an error. Neither ever panics or returns text from the wrong place, multi-byte text included.",
["inputs"],
"all start tags and texts, all named and numeric references, all attribute orders, quoting styles and multi-byte content",
"The unit tests decode a few dozen strings; byte/character offset slips and attribute-ordering faults need mixed, multi-byte input.",
["src/glue/parse/html/unescape.rs","src/glue/parse/html/get_attribute.rs"],
[("reference table and decoder","src/glue/parse/html/unescape.rs"),("attribute scanner","src/glue/parse/html/get_attribute.rs")],
[],["decoded value compared with an independent generator/decoder"])
p("U25","JavaScript string literals decode to the string JavaScript would see",
"Extracting a leading string literal from script text yields exactly the string a JavaScript engine gives that literal, for single and double quotes and every escape form (single-character, hexadecimal, Unicode, code-point of up to five digits, octal, line continuation), ignoring whatever follows the closing quote. Text that is not such a literal, or one that is unterminated or malformed, is an error and never a panic.",
["inputs"],
"all strings encoded with all mixtures of escape forms, all truncations and corruptions of them",
"The unit test decodes a handful of literals; each escape has its own digit ranges and terminators.",
["src/glue/parse/js/string_literal_prefix.rs","src/types/string_modification.rs"],
[("escape state machine","src/glue/parse/js/string_literal_prefix.rs")],
[],["decoded value compared with an independent encoder/decoder"])
p("U26","A configuration survives being written out and read back",
"Any configuration that can be loaded can be serialized, and loading the serialized form gives an equal configuration that cleans every URL the same way; an unknown kind of construct, or a value of the wrong type where a construct belongs, is rejected with an error instead of being dropped (only unknown field names are ignored). A field left out, and every short form, means exactly the documented default. The shipped configuration loads identically from its embedded copy and from its file.",
["programs","configurations"],
"all generated rules, conditions, mappers, sources, matchers, modifications, parameters and client settings",
"Tests round-trip only the shipped configuration; the hand-written string/struct shorthands have many other forms.",
["src/types/config.rs","src/types/config/params.rs","src/types/string_source.rs","src/types/string_matcher.rs","src/types/string_modification.rs","src/glue/http_client_config.rs","src/glue/regex.rs"],
[("serde derives and shorthand deserializers","src/types, src/glue"),("embedded default configuration","src/types/config.rs, build.rs")],
[],["equality and behaviour of the re-read configuration"])
p("U27","The test runner and suitability check report a failure exactly when there is one",
"Running a test file reports success exactly when every expectation in it (expected URL per set of parameter overrides) matches what cleaning really gives, and fails visibly otherwise, including when a test input errors or an expectation is malformed. The suitability check passes exactly for configurations that document every parameter flag, parameter, environment, job and task variable, set, map and partitioning their rules and common parts name literally, name flags and variables only literally, and contain no debugging construct and no command, at any depth.",
["configurations","inputs"],
"all test files with a wrong expectation, a failing input or a malformed entry at any position; all configurations with a single offence anywhere",
"A gate that silently passes looks the same as a passing suite; nothing tests the gate itself with wrong expectations.",
["src/testing.rs","src/util/suitability.rs","url-cleaner-macros/src/suitability.rs","src/types/config/docs.rs"],
[("expectation comparison","src/testing.rs"),("suitability walk","src/util/suitability.rs")],
[],["exit status and output of the program's test modes"])
p("U28","External commands get exactly their inputs and return exactly their outputs",
"Running an external command passes exactly the configured program, arguments, environment, working directory and standard input, and yields exactly its standard output or exit code; a program that cannot be run, undecodable output, or death by a signal when the exit code is asked for is an error, and nothing is ever a panic or a hang, whatever the amount of data on either pipe. What a command writes to its standard error appears nowhere when its output is asked for. Commands are run once per evaluation.",
["inputs","fault_sequences","configurations"],
"all argument lists, environments, inputs and outputs of any size and content, children that ignore input, exit early, fail or die by signal",
"No existing test runs a command with large input/output or a failing child.",
["src/glue/command.rs","src/types/string_source.rs","src/types/rules/conditions.rs","src/types/rules/mappers.rs"],
[("child process set-up and pipe handling","src/glue/command.rs")],
[],["what a recording child process received; value returned to the task"])
p("U29","A name said twice is refused, and one said once is there",
"Loading a configuration, a parameter override, a task, a job context or a test file fails when it says one thing twice, however spelled: a flag, variable, set, list, map or partitioning of the parameters or an override, the documentation of one, a variable of a task or job context, a key of a map, a partition, a value in one partitioning, a query parameter in one list of those to remove or to keep, or a field of a construct (one written directly inside TreatErrorAsPass or TreatErrorAsFail aside). What is said once is all there after loading, with exactly the value written for it, and members of sets and lists may repeat.",
["configurations","inputs"],
"all documents with exactly one repetition at any place, in any order and spelling, and all documents without any",
"A duplicate is dropped without a trace, so only a test written for that very place would notice; no test contains one.",
["src/types/config/params.rs","src/types/config/docs.rs","src/types/map.rs","src/types/named_partitioning.rs","src/types/job/task_context.rs","src/types/job/job_context.rs","src/types/rules/mappers.rs"],
[("duplicate-refusing deserializers","src/types"),("partitioning construction","src/types/named_partitioning.rs")],
[],["whether the document loads, and the loaded names and values against the written ones"])
p("U30","Debugging shows what happens and changes none of it",
"Putting a Debug construct around any mapper, condition, part, matcher, modification, source, location or character matcher of a program changes nothing but what is written to standard error: the result, the URL, the scratchpad and every effect are as without it, what it wraps is done exactly once, errors stay errors, and every time it is reached it says so. The program and the library built with their debugging feature give the same results, standard output and exit status as those built without, with times only or in full, however often and from however many threads they are used; without debugging nothing of it is printed.",
["inputs","configurations","schedules"],
"all programs and all places in them where debugging can be put, all inputs, the library used with and without the program around it",
"No test contains a debugging construct or builds with the debugging feature.",
["src/types/rules/mappers.rs","src/types/rules/conditions.rs","src/types/url_part.rs","src/types/string_source.rs","src/types/string_matcher.rs","src/types/string_modification.rs","src/types/string_location.rs","src/types/char_matcher.rs","src/util/macros.rs","src/main.rs"],
[("Debug variants","src/types"),("debug! macro","src/util/macros.rs")],
[],["result, URL and scratchpad with and without debugging; runs of a counting command; standard error; results of builds with the feature"])
p("U31","Carried destinations and other names of sites clean to what they stand for",
"With the shipped rules and without the network, a link that carries its destination (in a query parameter, as the whole query, in the path, in base64 or JSON, or doubly encoded, as each such service writes it) cleans to exactly what the destination itself cleans to, whatever the destination and the other parameters, and however many such links stand inside each other; a link under another name, short domain or embedding domain of a site cleans to exactly what the site's own link for the same thing cleans to. A link that only resembles one (another path, another parameter name or letter case) is never sent to what its parameters name.",
["inputs","configurations"],
"all destinations, encodings, parameter orders, ports, fragments, nestings and spellings of the hosts, under all documented flags that say nothing about the link",
"The shipped examples hold one link per service with a tame destination; separators inside destinations, encodings and nesting are what breaks extraction.",
["default-config.json","src/types/rules/mappers.rs","src/types/url_part.rs","src/types/string_modification.rs"],
[("redirecting hosts and their extraction rules","default-config.json"),("GetUrlFromQueryParam, CopyPart, SetPart of the whole URL","src/types/rules/mappers.rs, src/types/url_part.rs")],
[],["result of cleaning the link against that of its destination or of the site's own link"])
p("U32","Each documented flag does what its documentation says and nothing else",
"With the shipped rules and without the network, a documented flag (and the host variable it uses) changes exactly the links its documentation describes, in exactly that way: alternative front ends and back, embedding hosts, watch, shorts, live and playlist links, profile cards, blog subdomains, external images, onion gateways, HTTPS upgrade, language and subscription parameters. Without the flag, and for every other link, the result is as if it did not exist, and flags combine without getting into each other's way.",
["inputs","configurations"],
"all sets of flags and host variables, all links to the sites they speak of, near misses included",
"The shipped examples try a few flags one at a time on one link each, hardly ever together, and never with other host variables.",
["default-config.json","src/types/config/params.rs","src/types/rules/conditions.rs","src/types/rules/mappers.rs"],
[("flag conditions","default-config.json"),("flag and variable documentation","default-config.json")],
[],["result of cleaning the link against a model of the documentation"])
