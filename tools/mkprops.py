#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place where the property texts live)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Output is one entry per input, in input order, under every schedule",
  "For every list of tasks (arguments first, then STDIN lines), every --threads value and every order in which the workers happen to finish, the program writes exactly one result per task, in input order, each result belonging to its own task, and then terminates. In text mode a result is written as soon as it and all results before it are known, without waiting for later input lines or slower later tasks.",
  ["schedules", "inputs"], "all numbers of tasks, all worker counts, all interleavings of getter, workers and printer",
  "The CLI tests feed a handful of URLs through whatever schedule the machine happens to produce; reordering, loss or withheld output needs particular relative speeds of the workers.",
  ["src/main.rs"],
  [("round-robin distribution over per-worker channels", "src/main.rs: Task Getter thread"),
   ("round-robin collection in the same order", "src/main.rs: Stdout thread")],
  [("in/out channels", "one FIFO queue per worker in each direction", "src/main.rs")], ["stdout of the program"])

p("C02", "Outcome of every task is reported faithfully, and failures stay local",
  "For every mix of succeeding, failing and unparsable tasks, text mode prints the cleaned URL for a success and an empty line for a failure (with the error on stderr), JSON mode is one valid JSON document with an Ok or Err entry per task that agrees with text mode, and the exit code is 0 when nothing failed, 1 when everything failed and 2 when both happened. A failing or malformed task changes neither the result nor the position of any other task.",
  ["inputs", "fault_sequences"], "every sequence of ok / task error / parse error lines, both output modes, all thread counts",
  "Existing tests only use inputs that succeed; no test looks at exit codes, stderr or JSON mode.",
  ["src/main.rs", "src/types/job/task_config.rs", "src/types/job/task.rs"],
  [("result matching in the printing thread", "src/main.rs: Stdout thread"), ("exit code table", "src/main.rs: end of main"),
   ("string or JSON task syntax", "src/types/job/task_config.rs: TaskConfig::from_str")], None, ["stdout", "stderr", "exit status"])

p("C03", "A task's result depends on that task alone",
  "Cleaning a URL gives the same result whatever other tasks run before, after or beside it in the same job and however many threads are used: the result is a function of the task (URL and its own context), the job context, the configuration with its parameters, and the cache contents. Every task starts with an empty scratchpad, flags and variables set by one task are never visible to another, and running a job never changes the configuration.",
  ["histories", "schedules", "inputs"], "all sequences and interleavings of tasks over configurations that read and write scratchpad, contexts and commons",
  "Tests run one task per assertion; leakage only shows when a particular task follows another on the same job or worker.",
  ["src/types/job/task.rs", "src/types/job/job.rs", "src/types/job/task_state.rs", "src/types/job/task_scratchpad.rs"],
  [("a fresh TaskScratchpad per task", "src/types/job/task.rs: Task::do"), ("shared data only behind & references", "src/types/job/task_state.rs")],
  [("scratchpad", "per task flags and vars", "src/types/job/task_scratchpad.rs")], ["result of each task"])

p("C04", "Failed steps are contained exactly as the error handlers promise",
  "A part assignment that fails leaves the URL exactly as it was, moving a part is all-or-nothing, and revert-on-error restores both the URL and the scratchpad to their values before the failed step, at any nesting depth and with any partial progress. Ignore-error keeps the partial effects and continues, try/else and first-not-error run each alternative in order until one succeeds (starting from the state the failed ones left) and report an error only if all fail, and any unhandled error fails the task instead of yielding a partially cleaned URL.",
  ["programs", "fault_sequences"], "all nestings of error handlers over steps that fail after partial progress",
  "Tests use one handler around one step; containment must hold for every composition and every point of failure.",
  ["src/types/rules/mappers.rs", "src/types/string_modification.rs", "src/types/better_url.rs", "src/types/url_part.rs"],
  [("snapshot and restore", "src/types/rules/mappers.rs: RevertOnError"), ("clone then commit", "src/types/rules/mappers.rs: MovePart"),
   ("snapshot and restore of the string", "src/types/string_modification.rs: RevertOnError")], None, ["URL, scratchpad and error after the step"])

p("C05", "Rules and mappers run exactly the selected steps, in order and bounded",
  "A configuration's rules are applied in order and each rule runs exactly the branch its condition or map lookup selects (condition chains run the first satisfied link only, maps fall back first to the null entry for absent values and then to the else entry). Repeat applies its rules until the URL and scratchpad stop changing or its limit is reached, Retry runs its mapper at most limit times and stops at the first success, and a common call sees the caller's URL, scratchpad and parameters with only its own flags and variables as common arguments.",
  ["programs", "inputs"], "all rule programs built from the documented rules and mappers, on all URLs and parameters",
  "Unit tests touch a few mappers with fixed values; ordering, fall-through, fixpoints and call scoping are properties of compositions.",
  ["src/types/rules.rs", "src/types/rules/mappers.rs", "src/types/map.rs", "src/types/config/common_call.rs"],
  [("Rules::apply / Rule::apply", "src/types/rules.rs"), ("Mapper::apply", "src/types/rules/mappers.rs"), ("Map::get fallbacks", "src/types/map.rs"),
   ("CommonCallArgsSource::build", "src/types/config/common_call.rs")],
  [("task state", "url + scratchpad + common args", "src/types/job/task_state.rs")], ["URL and scratchpad after the rules"])

p("C06", "Conditions decide exactly what they name, without side effects",
  "Every condition (host, domain, path, query, part, flag, variable and string comparisons and their all/any/not/if combinations) is true exactly when the named relation holds for the current URL, parameters, contexts and scratchpad; absent parts compare as absent, not as empty. All and any stop at the first deciding element, error filters catch exactly the listed errors and pass the rest on, and evaluating a condition never changes the URL, the scratchpad or the parameters.",
  ["programs", "inputs"], "all condition expressions on all task states",
  "The only tests of conditions are through fixed default-config rules.",
  ["src/types/rules/conditions.rs", "src/types/flag_var_thing/flag.rs", "src/types/flag_var_thing/var.rs", "url-cleaner-macros/src/error_names.rs"],
  [("Condition::satisfied_by", "src/types/rules/conditions.rs"), ("FlagRef/VarRef lookups", "src/types/flag_var_thing"),
   ("generated error filter", "url-cleaner-macros/src/error_names.rs")], None, ["boolean or error returned"])

p("C07", "The cache returns the last value written for exactly that category and key",
  "For every history of operations, reading a category and key gives the value most recently written for that same category and key (a stored absent value being distinct from no entry), whatever else was written, also after reopening the cache. Cached steps (redirect expansion, cached URLs, cached strings) run their inner step only on a miss, store a result only when it succeeded, and neither read nor write the cache when the read-cache or write-cache parameter is off.",
  ["histories", "inputs"], "all sequences of cached reads and writes, all read/write flag settings, all keys",
  "The cache tests write distinct keys once; overwriting, category mixing and stored nulls need histories.",
  ["src/glue/caching.rs", "src/types/rules/mappers.rs", "src/types/string_source.rs"],
  [("InnerCache::read / write", "src/glue/caching.rs"), ("read-compute-write in CacheUrl and ExpandRedirect", "src/types/rules/mappers.rs"),
   ("read-compute-write in StringSource::Cache", "src/types/string_source.rs")],
  [("cache table", "rows (category,key,value)", "src/glue/caching.rs")], ["values read", "rows of the database file"])

p("C08", "The cache file survives crashes and concurrent use",
  "If the program is killed at any point while creating, opening or writing its cache file, the next run starts normally with that file and every entry whose write had completed is still there with its value. Several programs or threads that start on the same missing cache file at once all work and never corrupt or lose each other's completed entries.",
  ["crash_points", "schedules", "histories"], "every system-call boundary of cache creation and writing, and all interleavings of concurrent openers",
  "No test kills the process or opens the same file concurrently.",
  ["src/glue/caching.rs"], [("InnerCache::connect creation of file and table", "src/glue/caching.rs")],
  [("database file", "missing / empty / with table", "src/glue/caching.rs")], ["result of a later run on the same file"])

p("C09", "Host facts always agree with the URL they describe",
  "After any sequence of edits, successful or failed, every host-derived fact (kind of host, domain, subdomain, registrable domain, middle, suffix, fully-qualified dot) is the one obtained by parsing the resulting URL text afresh. Splitting a domain into its parts and rejoining them gives the domain back, and a fact is absent exactly when the host has no such part.",
  ["histories", "inputs"], "all edit histories over domain, IPv4, IPv6, fully qualified and hostless URLs",
  "Unit tests check single edits on fresh URLs; stale cached details need a history of edits.",
  ["src/types/better_url.rs", "src/types/better_url/host_details.rs", "src/types/better_url/host_details/domain.rs"],
  [("recomputation in set_host/set_domain_host", "src/types/better_url.rs"), ("DomainDetails bounds", "src/types/better_url/host_details/domain.rs")],
  [("host_details", "cached offsets of the host parts", "src/types/better_url.rs")], ["host part getters vs. a re-parse"])

p("C10", "Setting a URL part changes that part only, to that value",
  "After successfully setting a part (scheme, username, password, host, domain parts, port, path, query, fragment or the whole URL), reading it back gives the value set, in the URL standard's normal form, and every independent part is unchanged; domain-part setters keep the fully-qualified dot. The resulting URL text always parses back to the same URL, and values that are not valid for the part are rejected without a crash.",
  ["inputs", "histories"], "all parts, all values including hostile ones, all URLs reached by earlier edits",
  "Tests set a few parts on one tame URL.",
  ["src/types/url_part.rs", "src/types/better_url.rs"], [("UrlPart::get / set", "src/types/url_part.rs"), ("BetterUrl setters", "src/types/better_url.rs")],
  None, ["URL text and every part after the set"])

p("C11", "Segment operations address exactly the requested segment",
  "For every separator-delimited list (path, domain, subdomain, suffix, arbitrary strings) and every index, non-negative from the start or negative from the end, get, set, insert-before, insert-after, append and remove affect exactly the addressed segment and leave all others in place and in order. An index outside the list is an error when a value is being set and absence when reading, never a wrap-around, a neighbouring segment or a crash.",
  ["inputs", "programs"], "all segment lists (including empty segments), all indices, all separators",
  "Index helpers are tested on three-element lists, not through the operations that use them, nor at the boundaries of empty segments.",
  ["src/util.rs", "src/types/url_part.rs", "src/types/string_modification.rs"],
  [("neg_index / neg_range / set_rel_segment", "src/util.rs"), ("segment parts", "src/types/url_part.rs"), ("segment modifications", "src/types/string_modification.rs")],
  None, ["URL or string after the operation"])

p("C12", "Query edits keep every untouched parameter, its value and its order",
  "Removing or keeping query parameters by name, set or matcher leaves exactly the parameters that were not removed, in their original order with unchanged decoded names and values, including duplicates and encoded names; a query left without parameters disappears and URLs without a query are untouched. Reading, setting, adding or removing the n-th parameter of a name affects only that one.",
  ["inputs", "programs"], "all queries: duplicates, empty names and values, percent and plus encodings, all selectors",
  "Tests use two or three plain parameters.",
  ["src/types/rules/mappers.rs", "src/types/url_part.rs", "src/types/string_modification.rs"],
  [("query mappers", "src/types/rules/mappers.rs"), ("QueryParamSelector::get / set", "src/types/url_part.rs"), ("string-level query filters", "src/types/string_modification.rs")],
  None, ["query pairs after the operation"])

p("C13", "Parameter changes from files and command line add up exactly",
  "Applying any sequence of parameter diffs and command-line options yields exactly the parameters obtained by performing the listed changes in order, with removals in one diff winning over insertions in the same diff and later diffs over earlier ones; everything not mentioned keeps its value. Every command-line option has its documented effect whether given alone, repeated, or together with any others.",
  ["configurations", "histories"], "all combinations and repetitions of options and diff files, over all initial parameters",
  "No test applies a diff or passes these options.",
  ["src/types/config/params.rs", "src/glue/http_client_config.rs", "src/main.rs", "src/types/map.rs"],
  [("ParamsDiff::apply", "src/types/config/params.rs"), ("ParamsDiffArgParser", "src/types/config/params.rs"), ("HttpClientConfigDiff::apply", "src/glue/http_client_config.rs")],
  None, ["parameters after the changes"])

p("C14", "String modifications compute exactly the described string",
  "Every string modification (set, append, replace, strip, slice, insert, segment, case, URL/base64 coding, JSON pointer, extract-between and their combinations) yields exactly the described result or its described error for every string and argument, byte positions being honoured only on character boundaries. Decoding inverts encoding, errors of single modifications leave the string unchanged, and no input crashes the program.",
  ["inputs", "programs"], "all strings (ASCII and multi-byte), all arguments, all compositions",
  "Each modification is tested on a handful of ASCII strings if at all.",
  ["src/types/string_modification.rs", "src/util.rs", "src/glue/base64.rs"], [("StringModification::apply", "src/types/string_modification.rs")],
  None, ["string and result after the modification"])

p("C15", "String sources yield exactly the named value, absent, or error",
  "Every string source (literal, part, extracted part, variable of each kind, map or partition lookup, join, conditional, modified, extract-between, common) yields exactly the value it names for the current task, distinguishing an absent value from an empty one and from an error. Conversions between absent, empty and error happen only where an explicit handler asks for it, and named partitions never place one element in two partitions.",
  ["programs", "inputs", "configurations"], "all source expressions on all task states",
  "Tests exercise sources only via a few default-config rules.",
  ["src/types/string_source.rs", "src/types/flag_var_thing/var.rs", "src/types/map.rs", "src/types/named_partitioning.rs"],
  [("StringSource::get", "src/types/string_source.rs"), ("VarType::get", "src/types/flag_var_thing/var.rs"), ("NamedPartitioning", "src/types/named_partitioning.rs")],
  None, ["value or error returned"])

p("C16", "Matchers and locations accept exactly the described strings",
  "Every string matcher, string location and character matcher, and every all/any/not/if/try combination of them, accepts exactly the strings it describes: start, end, anywhere, at/after/before a byte index, within a range, per segment, by set, list, length, character class, glob or regular expression. Indices count from the end when negative, and an index out of range or inside a character is an error rather than a crash or a silent match.",
  ["inputs", "programs"], "all haystacks, needles, indices and matcher expressions",
  "Location tests cover a few constructors on one string; combinators, negative indices and empty strings are not covered.",
  ["src/types/string_matcher.rs", "src/types/string_location.rs", "src/types/char_matcher.rs"],
  [("StringMatcher::satisfied_by", "src/types/string_matcher.rs"), ("StringLocation::satisfied_by", "src/types/string_location.rs"), ("CharMatcher::satisfied_by", "src/types/char_matcher.rs")],
  None, ["boolean or error returned"])

p("C17", "The default configuration strips tracking and nothing else, and settles",
  "For every URL not claimed by a site-specific rule, the default configuration removes exactly the query (and query-like fragment) parameters that its universal tracking lists name, removes a www. prefix and trailing host dot and upgrades http to https where not exempted, and changes nothing else; enabling or disabling one of its documented flags changes only the behaviour that flag documents. Cleaning is idempotent: cleaning an already cleaned URL returns it unchanged, without error or crash.",
  ["inputs", "configurations"], "all hosts, ports, paths, queries and fragments, all settings of the documented flags",
  "The test file lists a few dozen URLs; exactness and idempotence quantify over all URLs.",
  ["default-config.json", "src/types/rules.rs", "src/types/rules/mappers.rs", "src/types/string_matcher.rs"],
  [("common mapper universal and the two top-level rules", "default-config.json"), ("Config::apply", "src/types/config.rs")], None, ["output URL"])

p("C18", "Network use is exactly what the rules and parameters allow",
  "A task contacts the network only when a redirect-expanding or request-making step is actually reached, sends exactly the described request (method, URL, headers, body, through the configured proxy), and takes exactly the described result: the target named by a redirect answer, or else the answering URL; with the no-network flag the default configuration sends nothing. A failed request or an answer without a usable target is an error that leaves the URL and the cache unchanged.",
  ["programs", "fault_sequences", "configurations"], "all server answers (each status class, with or without location, dropped connections) and client settings",
  "Network tests need the internet and are not run; no test controls the server.",
  ["src/glue/http.rs", "src/glue/http_client_config.rs", "src/glue/proxy.rs", "src/types/rules/mappers.rs", "default-config.json"],
  [("ExpandRedirect", "src/types/rules/mappers.rs"), ("RequestConfig::response", "src/glue/http.rs"), ("HttpClientConfig::apply/http_client", "src/glue/http_client_config.rs")],
  None, ["requests seen by the server", "result of the task"])

p("C19", "HTML attributes and JavaScript literals are read as the languages define them",
  "Extracting an attribute from an HTML element returns the value of the last attribute of that name (as documented; names compare case-insensitively, values quoted or unquoted, before or after any other attributes, with character references decoded), the absence of a value or of the attribute, or an error on malformed input; reading a JavaScript string literal prefix returns exactly the characters the literal denotes (documented exception: \\u{} with more than five digits is an error). Text unescaping decodes exactly the defined character references, and no input crashes the program.",
  ["inputs"], "all tag and literal texts, including multi-byte characters and truncated input",
  "Tests contain a few well-formed tags with the attribute in a favourable position.",
  ["src/glue/parse/html/get_attribute.rs", "src/glue/parse/html/unescape.rs", "src/glue/parse/js/string_literal_prefix.rs"],
  [("get_attribute_value automaton", "src/glue/parse/html/get_attribute.rs"), ("unescape_text", "src/glue/parse/html/unescape.rs"), ("string_literal_prefix", "src/glue/parse/js/string_literal_prefix.rs")],
  None, ["value or error returned"])

p("C20", "A configuration means the same in every accepted notation",
  "Loading a configuration, writing it out and loading it again gives a configuration that behaves identically on every task, and every shorthand notation (bare strings for sources, modifications, calls and references, null for absent, omitted defaults) means exactly its spelled-out form. Text that is not a configuration is rejected with an error when loading and never changes meaning silently.",
  ["configurations", "programs"], "all configurations expressible in the format",
  "Only the default configuration is loaded, and it is never compared after a round trip.",
  ["src/types/config.rs", "src/types/string_source.rs", "src/types/string_modification.rs", "src/util/macros.rs", "src/types/map.rs", "src/types/named_partitioning.rs"],
  [("string_or_struct_magic", "src/util/macros.rs"), ("custom (de)serialisers", "src/types/string_source.rs"), ("serde defaults and skip rules", "src/types")],
  None, ["behaviour of the re-loaded configuration"])

with open(__import__("os").path.dirname(__import__("os").path.abspath(__file__)) + "/../properties.jsonl", "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
