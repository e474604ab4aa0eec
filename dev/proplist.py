prop("C10", "A rule set applies each rule exactly where its scope says",
     "For every list of scopes, the rule at position i is registered for scanning at exactly its include paths (or at the root when the scope is exclude-style or default) and is registered as excluded at exactly its exclude paths. "
     "Registering a path never drops, moves or duplicates the registration of another rule or of another path, except that a registration already implied by the same one on an ancestor path is merged into it, so that no rule is registered twice along one path.",
     ["configurations", "inputs"], "every list of scopes, any number of include/exclude paths of any depth, overlapping or not",
     "Tests build a handful of scope lists with one or two paths each; the guarantee ranges over every combination of overlapping paths and rules.",
     ["sds/src/scoped_ruleset/mod.rs", "sds/src/scanner/scope.rs"],
     ["ScopedRuleSet::new inserts one change per scope path", "insert_rule_inner walks one segment per level and merges only identical changes", "Scope constructors"])
prop("C11", "Rules offered and excluded for a string are exactly those active at its path",
     "While a string is scanned, every rule registered at the string's path or an ancestor of it is offered, and no other; with implicit index wildcards each rule is offered at most once per string. "
     "A rule is reported as excluded for that string if and only if an exclusion of it is registered at the path or an ancestor. "
     "What was offered for one string never affects the next string.",
     ["inputs", "configurations", "histories"], "every event, every path, every order of strings visited with one rule set",
     "Tests visit a few small events; stale de-duplication state or a missed ancestor shows only for particular sequences of strings and nestings.",
     ["sds/src/scoped_ruleset/mod.rs", "sds/src/scoped_ruleset/bool_set.rs"],
     ["RuleIndexVisitor::visit_rule_indices", "ExclusionCheck::is_excluded", "visit_string resets the per-string set", "BoolSet"])
prop("C12", "Entering and leaving a path segment restores the scanner's position exactly",
     "After any balanced sequence of entering and leaving path segments, the current path and the set of active rule registrations are the same as before. "
     "Entering a segment activates exactly the registrations of the matching child of every currently active position (an index directly after a skipped index does not match), plus, when indices are implicit wildcards, those positions themselves for an index segment.",
     ["inputs", "histories"], "every sequence of segments entered and left while walking an event",
     "Tests walk shallow events; an off-by-one in the bookkeeping needs several simultaneously active positions and a return to the parent to show.",
     ["sds/src/scoped_ruleset/mod.rs"],
     ["push_segment/pop_segment keep one counter per segment", "visit_string_rule_combinations sets up the root position"])
prop("C13", "Walking an event visits every string exactly once under its own path",
     "For every event (nested maps, lists, strings and JSON values), walking it visits every string leaf exactly once, and for JSON also every number and boolean as text, with the path that leads from the root to that leaf. "
     "Every segment entered is left again right after the child it names has been visited.",
     ["inputs"], "every event value of any shape and depth, in each of the supported event types",
     "Tests walk two small events per type; empty keys, long lists, nesting of containers in containers are not reached.",
     ["sds/src/event.rs", "sds/src/simple_event.rs", "sds/src/event_json.rs"],
     ["impl Event for SimpleEvent / serde_json::Value / HashMap / String: visit_event"])
prop("C14", "Rewriting addresses exactly the string at the given path",
     "For every path produced by walking an event, the rewrite entry point of that event follows the path segment by segment (list position for an index, map key for a field) and hands exactly the string found there, once, to the caller.",
     ["inputs"], "every event and every path of a string leaf in it",
     "Tests rewrite one string in shallow events.",
     ["sds/src/event.rs", "sds/src/simple_event.rs", "sds/src/event_json.rs"],
     ["impl Event for SimpleEvent / serde_json::Value / HashMap / String: visit_string_mut"])
EQ = "static value-flow analysis over rustc MIR, compared with an independently written specification analysed by the same engine (summary equivalence)"
prop("C05", "Keyword settings are accepted exactly within their limits",
     "For every proximity keyword configuration, compiling it is refused exactly when the look-ahead count is not between 1 and 50 (InvalidLookAheadCharacterCount), when there are more than 50 included or more than 50 excluded keywords (TooManyKeywords), "
     "when a keyword has more characters than the look-ahead count (KeywordTooLong carrying that count) or when a keyword has nothing left after trimming, and for excluded keywords after removing '-' and '_' (EmptyKeyword). "
     "Otherwise the included side is present exactly when there are included keywords, the excluded side exactly when there are excluded keywords, and each carries the configured look-ahead count and the patterns of its own keyword list.",
     ["configurations"], "every look-ahead count and every pair of keyword lists",
     "Tests try one value on each side of a limit; the limits, their order and which list feeds which side must hold for all lists.",
     ["sds/src/proximity_keywords/mod.rs"],
     ["compile_keywords_proximity_config", "compile_keywords", "compile_keywords_to_ast"], tech=EQ)
prop("C06", "A keyword matches as a whole word, case-insensitively, and nothing else",
     "For every keyword list, the pattern used on content is the alternation, in list order, of the trimmed keywords taken literally (every regex meta character escaped), with an ASCII word boundary before the keyword exactly when its first character is an ASCII letter or digit "
     "and after it exactly when its last character is; the pattern used on paths is built the same way from the standardised, lower-cased keyword. Both are compiled case-insensitively, and for excluded keywords '-' and '_' are removed first.",
     ["inputs", "configurations"], "every keyword, with any characters, at every position of the list",
     "Tests use a few ASCII keywords; escaping and boundaries must be right for every character that can be first, last or in between.",
     ["sds/src/proximity_keywords/mod.rs"],
     ["calculate_keyword_content_pattern", "calculate_keyword_path_pattern", "compile_keywords", "should_push_word_boundary", "literal_ast"], tech=EQ)
prop("C07", "Excluded keywords discard a match exactly when one precedes it in the window",
     "For every content and match position, a match is a false positive exactly when an excluded keyword occurs in the window made of the configured number of characters before the match start, once '-' and '_' are removed from it; characters outside the window (one on each side) only serve as context for word boundaries. "
     "Windows are counted in characters, never panic on multi-byte text, and the false-positive counter is incremented by one exactly for the matches discarded. A keyword is found in a path exactly when the path pattern matches the standardised path.",
     ["inputs", "configurations"], "every content (any UTF-8), match position and look-ahead count",
     "Tests use short, mostly ASCII content; the window arithmetic only goes wrong at the edges, with multi-byte characters or when stripping leaves little behind.",
     ["sds/src/proximity_keywords/excluded_keywords.rs", "sds/src/proximity_keywords/mod.rs"],
     ["CompiledExcludedProximityKeywords::is_false_positive_match", "contains_excluded_keyword_match", "get_prefix_start", "next_char_index", "contains_keyword_in_path"], tech=EQ)
prop("C08", "Included keyword search finds every keyword and every position in its look-ahead",
     "For every content, the included keyword search starts at the beginning, each step searches from the current position with the content pattern, reports the start of the keyword found and goes on from the character after that start (so overlapping keywords are found and the search always advances); "
     "skipping only ever moves the search forward. A match start counts as within a keyword's look-ahead exactly when it is at most the configured number of characters after the keyword start.",
     ["inputs", "histories"], "every content, every interleaving of next and skip_to, every look-ahead count",
     "Tests use a few short strings; off-by-one in characters versus bytes, or a search that stalls or skips, needs particular positions.",
     ["sds/src/proximity_keywords/included_keywords.rs", "sds/src/proximity_keywords/mod.rs"],
     ["IncludedKeywordSearch::next", "IncludedKeywordSearch::skip_to", "keyword_matches", "is_index_within_prefix"], tech=EQ)
prop("C09", "Path operations keep every segment, in order, unchanged",
     "For every path: the root has no segments; its length is the number of segments; it is empty exactly when there are none; converting it to an owned path keeps every segment equal and in order; one path is a prefix of another exactly when all its segments equal the other's first segments; "
     "a segment is an index exactly when it was made from a position, and its length is the number of bytes of its field name (0 for an index). Displayed, fields are joined with '.' and positions appear as [n] without a dot before them.",
     ["inputs"], "every path of any length and any field names",
     "Tests compare a handful of two-segment paths.",
     ["sds/src/path.rs"], ["Path::{root,len,is_empty,into_static,starts_with}", "PathSegment::{is_index,length,into_static}", "Display for Path"], tech=EQ)
prop("C21", "Digit checksums accept exactly the numbers with the right check digits",
     "For every text: the Luhn check looks only at decimal digits, doubles every second one from the right starting next to the check digit (subtracting 9 above 9) and accepts exactly when the last digit completes the sum to a multiple of 10; "
     "the Chinese ID check accepts exactly 18-byte texts whose first 17 characters are digits and whose last (X allowed, either case) is the weighted-sum check character; "
     "the NHS check accepts exactly texts with 10 digits satisfying the weighted modulo-11 check; the NIR check accepts exactly texts with 13 digits followed by a 2-digit key equal to 97 minus the number modulo 97. "
     "A rule's checksum setting selects the check of that name.",
     ["inputs"], "every text, of any length and any characters",
     "Tests check a few valid and invalid numbers per check; weights, carries, lengths and separators must be right for all of them.",
     ["sds/src/secondary_validation/luhn_checksum.rs", "sds/src/secondary_validation/chinese_id_checksum.rs", "sds/src/secondary_validation/nhs_check_digit.rs", "sds/src/secondary_validation/nir_checksum.rs", "sds/src/secondary_validation/mod.rs"],
     ["Validator::is_valid_match of LuhnChecksum, ChineseIdChecksum, NhsCheckDigit, NirChecksum", "get_previous_digit/get_next_digit", "SecondaryValidator dispatch"],
     note="Integer casts between widths of at least 32 bits are taken as value preserving; sums are taken as unbounded.", tech=EQ)
prop("C22", "Token and account checks accept exactly what their format defines",
     "For every text: the GitHub token check accepts exactly a text with a _ where the part after the last '_' has more than 6 bytes, is ASCII alphanumeric, and its last 6 characters are the base62 CRC32 (zero padded to 6) of what precedes them; "
     "the IBAN check accepts exactly when the text with everything but alphanumeric characters removed parses as an IBAN; the JWT check accepts exactly texts of three '.'-separated parts whose first two are base64url JSON and whose exp claim, if present, is an integer later than the current time. "
     "A rule's checksum setting selects the check of that name.",
     ["inputs", "histories"], "every text and every current time",
     "Tests check a few tokens; padding, separators, missing claims and boundary times are not reached.",
     ["sds/src/secondary_validation/github_token_checksum.rs", "sds/src/secondary_validation/iban_checker.rs", "sds/src/secondary_validation/jwt_expiration_checker.rs", "sds/src/secondary_validation/mod.rs"],
     ["Validator::is_valid_match of GithubTokenChecksum, IbanChecker, JwtExpirationChecker", "SecondaryValidator dispatch"],
     note="crc32, base62, base64, serde_json and the iban parser are uninterpreted functions.", tech=EQ)
prop("C26", "Standardised paths are the same for every spelling of the same words",
     "For every path segment and keyword, standardising copies the first character, replaces each run's first separator (one of - _ . space /) by '.', inserts '.' before an ASCII capital that follows neither a separator nor a capital, copies the last character unchanged, and lower-cases the result; segments all in one case are only lower-cased. "
     "A path's standardised form joins its field segments in order with '.' and leaves positions out.",
     ["inputs"], "every path and keyword, any characters including multi-byte ones",
     "Tests list some spellings; the rules about the last character, runs of separators and multi-byte characters combine in ways no list covers.",
     ["sds/src/path.rs", "sds/src/proximity_keywords/mod.rs"], ["standardize_path_chars", "Path::sanitize", "PathSegment::sanitize"], tech=EQ)
prop("C15", "Binary events decode to exactly the encoded strings and paths",
     "For every encoded event, decoding enters a field for each tag 0 (4-byte big-endian length, then the name), enters an index for each tag 1 (4-byte big-endian position), leaves a segment for each tag 2 and visits a string for each tag 3 (length and bytes), in order and consuming every byte exactly once; any other tag is refused. "
     "Every visited string that may be rewritten is kept under its own path, unmodified and without replacing an entry already there, and rewriting a path hands exactly that string to the caller and records whether it was changed. "
     "Bytes that are not valid UTF-8 never reach a string unchecked unless the caller declared them valid.",
     ["inputs"], "every encoded event, of any length and nesting",
     "Tests decode one small event; a wrong offset, length or byte order shows only for other lengths and nestings.",
     ["sds-bindings-utils/src/lib.rs"], ["BinaryEvent::visit_event", "BinaryEvent::visit_string_mut"], tech=EQ)
prop("C16", "Scan results are encoded completely and unambiguously",
     "For every set of rewritten strings and matches, the encoded response is absent exactly when there are no matches; otherwise it lists, in storage order, tag 4 and the tagged path and tag 3 and the text of exactly the modified strings, followed by one tag 5 record per match, in order, with its rule index, displayed path, replacement type name, start, end and shift. "
     "Numbers are 4-byte big-endian and every text is preceded by its length in bytes; a displayed path joins fields with '.' and shows positions as [n], and each replacement type has its own fixed name.",
     ["inputs"], "every storage content and every list of matches",
     "Tests encode one or two responses; which strings are included and every length and field order must be right for all.",
     ["sds-bindings-utils/src/lib.rs", "sds/src/path.rs", "sds/src/rule_match.rs"], ["encode_response", "Display for Path", "Display for ReplacementType"], tech=EQ)
prop("C20", "Merging match statuses always keeps the most significant one",
     "For every pair of match statuses, merging leaves the greater of the two in the order NotChecked, NotAvailable, Invalid, Error, Valid (two errors are ordered by their text), so the result of merging several statuses does not depend on the order they arrive in.",
     ["histories", "schedules"], "every pair of statuses, hence every order in which the results of concurrent validations are merged",
     "Tests merge some pairs; order independence is a statement about all pairs and all error texts.",
     ["sds/src/match_validation/match_status.rs"], ["MatchStatus::merge"], tech=EQ)
prop("C03", "Patterns are accepted exactly when they are usable, with the right error",
     "A pattern is accepted if and only if it parses and translates, the regex engine can build it within an automaton size of 1,000,000 bytes, and it cannot match without consuming anything; the error names the cause (syntax, nesting depth, quantifier, complexity, empty match). "
     "Every accepted pattern is built with leftmost-first Unicode semantics in which '.' does not match a line feed, and `validate_regex` gives the same verdict as building the pattern. "
     "The complexity estimate is the smallest limit, found by bisection up to ten times the normal one, with which the pattern can be built.",
     ["inputs", "programs"], "every pattern text",
     "Tests try a dozen patterns; the options and limits apply to every pattern and a changed option shows only on patterns that depend on it.",
     ["sds/src/validation.rs"], ["validate_and_create_regex", "validate_regex", "build_regex", "get_regex_complexity_estimate_very_slow"], tech=EQ)
prop("C02", "Every text is parsed to the one tree the pattern grammar gives it, or rejected",
     "For every text, the parser either returns the syntax tree of the documented grammar (alternatives, concatenation, greedy and lazy quantifiers, groups, flags, quotes, assertions, classes, escapes, Unicode property names) covering the whole text, or an error; nothing is skipped, reordered or read as something else. "
     "Nesting deeper than 50 groups is refused with ExceededDepthLimit, whatever else the text contains and however many groups stand side by side; every other refusal is InvalidSyntax.",
     ["inputs"], "every UTF-8 text of any length and nesting",
     "Tests parse a list of short patterns; the order of alternatives in the grammar, the characters that need escaping and the depth accounting multiply into cases no list covers.",
     ["sds/src/parser/regex_parser.rs", "sds/src/parser/input.rs", "sds/src/parser/error.rs", "sds/src/parser/unicode_property_names.rs"],
     ["parse_regex_pattern", "every grammar function (expression .. capture_group_name)", "Input and ParseError as nom sees them"], tech=EQ)
prop("C04", "A parsed pattern means the same to the regex engine",
     "For every parsed pattern, each node is translated to the engine's equivalent: literals stay literal (metacharacters escaped, whitespace protected wherever the x flag must not skip it), \\d \\w \\s \\h \\v and their negations are their ASCII classes, \\b is ASCII-only, $ and \\Z allow one final line feed, quantifiers keep bounds and laziness and are refused above 3000, groups keep name, kind, flags and content, and lists keep their order. "
     "A flag both set and cleared is cleared, repeated flags appear once, and the first error of any part is the error of the whole.",
     ["inputs", "programs"], "every syntax tree the parser can produce",
     "Tests translate a table of short patterns; each combination of class, flag, literal and nesting is its own case.",
     ["sds/src/normalization/rust_regex_adapter.rs"], ["convert_ast", "convert_flags", "convert_literal", "convert_bracket_items", "convert_to_rust_regex"], tech=EQ)
prop("C17", "The regex store hands out the regex of exactly the pattern asked for",
     "For every history of lookups, insertions and clean-ups, looking up a pattern yields the live regex built for that same pattern, or nothing; an insertion returns the one already stored if it is still in use. "
     "Clean-up, after every 1000th insertion, forgets exactly the regexes no scanner holds any more. "
     "What is built for a key depends only on the key, and rules and keywords, which are built with different options, never share a key.",
     ["histories", "configurations"], "every sequence of scanner creations and drops, every set of patterns",
     "Tests insert one pattern or a thousand equal-shaped ones; a wrong entry needs a particular sequence of drops, re-insertions and clean-ups, or a keyword and a rule with the same text.",
     ["sds/src/scanner/regex_rule/regex_store.rs", "sds/src/proximity_keywords/mod.rs", "sds/src/scanner/regex_rule/config.rs"],
     ["RegexStore::get, insert, gc", "compile_keywords: keys with their own prefix", "convert_to_compiled_rule: keys with their own prefix"], tech=EQ)
prop("C18", "Threads share the regex store without deadlock or waiting for a compilation",
     "A pattern is compiled at most once per request, only when the store has no live regex for it, and never while the store is locked; every lookup and insertion happens under the lock. "
     "No thread takes a lock while it holds one that another thread may hold while waiting for the first, and no code supplied by a caller runs under the store's lock.",
     ["schedules"], "every interleaving of threads that create scanners and scan",
     "Tests create scanners from one thread; a lock held over a compilation or taken in another order shows only under a particular schedule.",
     ["sds/src/scanner/regex_rule/regex_store.rs", "sds/src/scanner/shared_pool.rs"],
     ["get_memoized_regex_with_custom_store", "locks held at each call, over all functions"], tech="static lock-order analysis over rustc MIR (guards live at each call, locks taken by callees) and value-flow equivalence")
prop("C19", "Every regex searches with its own scratch space",
     "For every regex, the scratch space handed out is the one stored under that regex's key, created by that regex the first time it is asked for.",
     ["histories"], "every order in which regexes ask for scratch space",
     "Tests use a few regexes per thread; a mix-up needs many regexes or reused keys.",
     ["sds/src/scanner/regex_rule/regex_cache_store.rs"], ["RegexCaches::get, raw_get"], tech=EQ)
prop("C23", "Published totals always equal what is stored",
     "After every operation, the gauges for scanners, regexes and scratch memory show the number of scanners created and not dropped, of regexes in the store, and the sum of the scratch sizes recorded for them. "
     "Each counter and gauge is registered under its documented name with the labels of its rule or scanner.",
     ["histories"], "every sequence of scanner creations and drops, insertions and clean-ups",
     "Tests look at one metric after one operation; a drift needs a history with drops and replacements.",
     ["sds/src/stats.rs", "sds/src/scanner/regex_rule/regex_store.rs", "sds/src/scanner/metrics.rs"],
     ["Stats", "RegexStore::insert and gc report what they add and remove", "RuleMetrics::new, ScannerMetrics::new"], tech=EQ)
prop("C24", "Labels are kept, in order, through combining, writing and reading",
     "Combining two label lists yields the first list followed by the second, nothing dropped or merged; building a list keeps every pair in order. "
     "Writing a list and reading it back yields the same list, and reading refuses every entry that is not a pair of two strings.",
     ["inputs"], "every list of labels, every serialised input",
     "Tests combine and read a few short lists; repeated keys, empty values and malformed entries are not reached.",
     ["sds/src/observability/labels.rs"], ["Labels::clone_with_labels, new", "Serialize and Deserialize for Labels"], tech=EQ)
prop("C27", "Each match action replaces exactly the part of the match it says",
     "For every action and matched text: None changes nothing; Redact replaces the whole text by the placeholder; Hash replaces it by the hexadecimal hash of its bytes (or of its UTF-16 form); "
     "PartialRedact of the first or last n characters replaces exactly those, counted in characters, by as many asterisks, or the whole text when it has n characters or fewer. "
     "An action is refused exactly when it redacts zero characters, and the reported replacement type and whether it changes the text follow from the action.",
     ["inputs", "configurations"], "every action, every matched text (any UTF-8)",
     "Tests redact short ASCII texts; off-by-one and character/byte mix-ups show with multi-byte texts or texts of exactly the configured length.",
     ["sds/src/match_action.rs"], ["MatchAction::get_replacement", "MatchAction::validate, is_mutating, replacement_type"], tech=EQ)
prop("C28", "Replacements land on their match and reported positions fit the new text",
     "For every text and every list of matches in order, each match's action is applied to the text as the earlier actions left it, at the match's position shifted by what they added or removed, and the rest of the text is untouched. "
     "Each reported match carries the rule, path, replacement type, the start and end in the event's encoding within the new text, the shift, the matched text exactly when matches are to be returned, and a status saying whether it can be validated.",
     ["inputs"], "every text, any number of matches, replacements longer or shorter than the match, any encoding",
     "Tests apply one to three replacements to ASCII text; a wrong shift needs several replacements of different lengths or another encoding.",
     ["sds/src/scanner/mod.rs"], ["Scanner::apply_match_actions", "Scanner::apply_match_actions_for_string"], tech=EQ)
prop("C29", "Of overlapping matches exactly the one with the highest priority is kept",
     "For every list of matches of one text, the matches kept are those obtained by taking them by priority (those that change the text first, then by start, then the longer, then the lower rule index) and dropping each that overlaps one already kept; "
     "the result is in order of start and no match that overlaps none is lost.",
     ["inputs", "configurations"], "every list of matches of any rules, any overlaps",
     "Tests overlap two or three matches; priorities must be right for every combination of action, start, length and rule.",
     ["sds/src/scanner/mod.rs"], ["Scanner::sort_and_remove_overlapping_rules"], tech=EQ)
prop("C30", "A rule reports exactly its matches that pass keywords, checks and scope",
     "For every text, a rule without included keywords reports every successive match of its regex that is not preceded by an excluded keyword and passes its secondary check; with included keywords it reports the matches within reach of a keyword in the text, and every match when a keyword stands in the path and paths count. "
     "A rejected candidate moves the search on by one character, a match by its length, so none is skipped or found twice; matches in an excluded place are remembered for the second pass and not reported.",
     ["inputs", "configurations"], "every text and path, every combination of keywords and checks",
     "Tests search short texts with one match; a missed or repeated match needs rejected candidates next to real ones, several keywords, or multi-byte characters.",
     ["sds/src/scanner/regex_rule/compiled.rs", "sds/src/scanner/mod.rs"],
     ["RegexCompiledRule::get_string_matches", "TruePositiveSearch::next", "is_false_positive_match, get_next_regex_start"], tech=EQ)
prop("C31", "Scanning one text collects the matches of every active rule that is not blocked",
     "For every text, each rule active at its path and not blocked is asked once, with that text, path, exclusion state and the scanner's settings, and each match it reports is recorded with the rule's index and its position, in order of start, together with the path, exactly when there is at least one. "
     "Positions in the event's encoding are computed for the start and end of that same match. A rule is noted as having a keyword in the path exactly when its included keyword pattern matches the path, once.",
     ["inputs", "configurations"], "every text, set of rules, list of blocked rules",
     "Tests scan with a few rules; the bookkeeping must hold for every combination of rules active, blocked and matching.",
     ["sds/src/scanner/mod.rs"], ["ScannerContentVisitor::visit_content", "ScannerContentVisitor::find_true_positive_rules_from_current_path"], tech=EQ)
prop("C32", "A scan covers the whole event and returns exactly the matches it applied",
     "For every event, all texts are searched before any is changed; then, text by text, matches equal to one found in an excluded place are dropped (only when that feature is on, and only for rules that take part), overlaps are resolved, actions applied, the event is told whether the text changes, and exactly the matches applied are returned. "
     "A scanner is built from one compiled rule per configured rule, in order and with the configured settings, keeps matched texts exactly when some rule can be validated, and is counted once when built and once when dropped; each scan is counted once with its number of matches.",
     ["inputs", "configurations", "histories"], "every event, every list of rule configurations and settings",
     "Tests scan small events with a few rules; that every text, rule and setting is taken into account must hold for all of them.",
     ["sds/src/scanner/mod.rs"], ["Scanner::scan", "ScannerBuilder and ScannerBuilder::build", "impl Drop for Scanner"], tech=EQ)
prop("C33", "Validating matches keeps every match and asks the right validator",
     "For every list of matches, validation hands each match of a rule with match validation to the validator of that rule's kind, exactly once and with the scanner's rules, and afterwards the list holds the same matches, those of rules without validation included, in order of start. "
     "It is refused, leaving the list unchanged, exactly when the scanner does not keep matched texts.",
     ["inputs", "configurations"], "every list of matches and every mix of rules with and without validation",
     "Tests validate lists in which every rule has a validator.",
     ["sds/src/scanner/mod.rs"], ["Scanner::validate_matches"], tech=EQ)
prop("C34", "A compiled rule is the configured rule",
     "For every configuration of a rule, each setter changes that setting alone, and compiling yields a rule with the configured regex, match action, scope, keywords, check and match validation, at the index it was given and with the scanner's labels extended by its own. "
     "It is refused exactly when its regex, its match action or its keywords are refused, with the corresponding error. "
     "Through the object-safe interface every rule answers, counts and keeps its shared data as the rule itself does.",
     ["inputs", "configurations"], "every rule configuration, rule index, set of labels and implementation of a rule",
     "Tests compile a few configurations and read back one or two settings.",
     ["sds/src/scanner/regex_rule/config.rs", "sds/src/scanner/regex_rule/compiled.rs", "sds/src/scanner/config.rs", "sds/src/scanner/mod.rs"],
     ["RegexRuleConfig", "RuleConfig::convert_to_compiled_rule", "RegexCompiledRule accessors", "impl CompiledRuleDyn for T"], tech=EQ)
prop("C35", "Match validators ask every service and believe the best answer",
     "For every configuration and list of matches, the HTTP validator sends one request per match and configured endpoint (the endpoint with each host, its method, timeout and headers with the matched text), and the AWS validator one signed request per pair of id and secret. "
     "Each answer is read by the configured ranges of status codes (valid ones first) or as success, client and server error, and merged into the status of exactly the matches it is about. "
     "A configuration is refused exactly when hosts are given for an endpoint without $HOST, or none for one with it.",
     ["inputs", "configurations", "fault_sequences"], "every validator configuration, list of matches and sequence of answers or failed requests",
     "Tests use a local mock server with a few matches and codes; the pairs, ranges and failures are unbounded.",
     ["sds/src/match_validation/config.rs", "sds/src/match_validation/http_validator.rs", "sds/src/match_validation/aws_validator.rs", "sds/src/match_validation/validator_utils.rs"],
     ["HttpValidatorConfig::new", "HttpValidator::validate", "AwsValidator::validate", "generate_aws_headers_and_body"], tech=EQ)

prop("C36", "The Go bindings own handles correctly and never let a panic cross",
     "For every sequence of calls over the C interface, each function borrows, releases or creates exactly the handles its contract says (a scan or an append never consumes its scanner, rule or list; every free releases exactly one; results are handed over with the length and capacity they are freed with). "
     "Anything that can panic runs under a handler that turns the panic into an error code and message. "
     "Exported names and signatures match the C header, and results and error codes are those of the scanner behind the handle.",
     ["histories", "fault_sequences", "inputs"], "every sequence of calls from Go, every event, rule and configuration, and every panic inside a call",
     "The Rust tests never go through the C interface, and a leak, double free or unwinding across it shows only in some histories.",
     ["sds-go/rust/src/native/scan.rs", "sds-go/rust/src/native/rule.rs", "sds-go/rust/src/native/create_scanner.rs", "sds-go/rust/src/native/delete_scanner.rs", "sds-go/rust/src/native/mod.rs", "sds-go/go/dd_sds.h", "sds/src/scanner/error.rs"],
     ["scan", "create_scanner", "append_rule_to_list", "free_vec", "convert_panic_to_go_error"],
     tech="ownership (borrow / release / create) and may-panic analysis over the compiler's MIR of the bindings, signatures against the C header, and value-flow comparison of results with a reference")

prop("C37", "A configuration written as JSON reads back as the same configuration",
     "For every rule configuration (pattern, action, scope, paths, keywords, validators, match validation), the JSON it is written as reads back as an equal configuration: each member and variant is written under the name and tag it is read from, and none is dropped or altered on the way. "
     "The names and tags stay those callers send today; fields the library does not know are ignored. "
     "Only the scope, labels, keyword lists and optional members may be left out (then: everything in scope, no labels, no keywords, none), null labels and keyword lists read as empty, and every other member is required.",
     ["inputs", "configurations"], "every value of every configuration type and every JSON document read as one",
     "The tests decode a few documents by hand and never write one; a member that is skipped, renamed or defaulted on one side only shows on particular values.",
     ["sds/src/scanner/regex_rule/config.rs", "sds/src/scanner/scope.rs", "sds/src/path.rs", "sds/src/match_action.rs", "sds/src/match_validation/config.rs"],
     ["RegexRuleConfig", "ProximityKeywordsConfig", "SecondaryValidator", "MatchAction", "Scope", "Path", "PathSegment", "MatchValidationType"],
     tech="value-flow analysis of the generated and hand-written serialization code: table of names, tags and members written per variant against the table read")
