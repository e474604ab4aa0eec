From 40ee3baf0dc76b92d4b5c58f07966c833eeaaaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:40 +0000
Subject: [PATCH 1/8] fix: excluded keyword search panics when only a
 multi-byte char is left after stripping
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

With a look ahead of 4, content "-----é" and a match at 5, the stripped prefix is
"é", so the search span is 2..0 and building the regex input panics.
---
 sds/src/proximity_keywords/excluded_keywords.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sds/src/proximity_keywords/excluded_keywords.rs b/sds/src/proximity_keywords/excluded_keywords.rs
index 1005c0c..9dec128 100644
--- a/sds/src/proximity_keywords/excluded_keywords.rs
+++ b/sds/src/proximity_keywords/excluded_keywords.rs
@@ -59,6 +59,11 @@ fn contains_excluded_keyword_match(
         0
     };
 
+    if span_start >= span_end {
+        // Only the chars added for assertion checking are left after stripping, so there is nothing to search
+        return false;
+    }
+
     let input = Input::new(&stripped_prefix)
         .earliest(true)
         .span(span_start..span_end);
-- 
2.43.0


From 95b75de7fb988ed7e71d1dbe4682b54d8cdee0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:40 +0000
Subject: [PATCH 2/8] fix: last character of multi-byte paths is not recognized
 when standardizing
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The position of the last character was computed from the length in bytes, but it
is compared with a position in characters: "é_" became "é." while "e_" is kept.
---
 sds/src/proximity_keywords/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sds/src/proximity_keywords/mod.rs b/sds/src/proximity_keywords/mod.rs
index 40cdf98..b221018 100644
--- a/sds/src/proximity_keywords/mod.rs
+++ b/sds/src/proximity_keywords/mod.rs
@@ -326,7 +326,7 @@ where
         return;
     };
 
-    let kw_length = characters.len();
+    let kw_length = characters.chars().count();
 
     let mut previous = char;
     for (i, current) in characters_iter.enumerate() {
-- 
2.43.0


From ea3968957f4969665e1ea37cb6dc81a91a94d7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:40 +0000
Subject: [PATCH 3/8] fix: reject patterns with empty matches that depend on
 the surrounding content

Patterns such as `\b` or `\ba*` were accepted since they don't match the empty
string, but they have empty matches in other content, and the scanner then
never gets past the first one (the next search starts at the end of a match).
---
 sds/src/validation.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sds/src/validation.rs b/sds/src/validation.rs
index 89921b6..c95b1f2 100644
--- a/sds/src/validation.rs
+++ b/sds/src/validation.rs
@@ -65,12 +65,19 @@ pub fn validate_and_create_regex(input: &str) -> Result<meta::Regex, RegexValida
     // This validates that the syntax is valid and normalizes behavior.
     let converted_pattern = convert_to_rust_regex(input)?;
     let regex = build_regex(&converted_pattern, REGEX_COMPLEXITY_LIMIT)?;
-    if regex.is_match("") {
+    if regex.is_match("") || can_match_empty_string(&converted_pattern) {
         return Err(RegexValidationError::MatchesEmptyString);
     }
     Ok(regex)
 }
 
+/// Searching an empty string isn't enough to find patterns with empty matches. For example, `\b` doesn't
+/// match an empty string, but it does match (with length 0) inside of other content.
+fn can_match_empty_string(converted_pattern: &str) -> bool {
+    regex_automata::util::syntax::parse(converted_pattern)
+        .map_or(true, |hir| hir.properties().minimum_len() == Some(0))
+}
+
 fn is_regex_within_complexity_limit(
     converted_pattern: &str,
     complexity_limit: usize,
-- 
2.43.0


From 4d9809fadc58abcd626816dd5ded359870a9fc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:37 +0000
Subject: [PATCH 4/8] fix: accept GitHub tokens whose checksum needs zero
 padding

The checksum is base62 of the CRC32, padded with leading zeros to 6 characters. About one valid token in five was rejected.
---
 sds/src/secondary_validation/github_token_checksum.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sds/src/secondary_validation/github_token_checksum.rs b/sds/src/secondary_validation/github_token_checksum.rs
index e26375b..11aa294 100644
--- a/sds/src/secondary_validation/github_token_checksum.rs
+++ b/sds/src/secondary_validation/github_token_checksum.rs
@@ -22,7 +22,8 @@ impl Validator for GithubTokenChecksum {
 
         // extract the payload (everything except the last 6 chars)
         let computed_checksum = crc32fast::hash(last_part[..last_part.len() - 6].as_bytes());
-        let computed_checksum_b62 = base62::encode(computed_checksum);
+        // the checksum is left-padded with zeros to 6 chars
+        let computed_checksum_b62 = format!("{:0>6}", base62::encode(computed_checksum));
         // check that the crc is the last 6 chars
         computed_checksum_b62 == last_part[last_part.len() - 6..]
     }
-- 
2.43.0


From 1709f93ea15905b7adda48c2c2170d2adb433960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:37 +0000
Subject: [PATCH 5/8] fix: NHS numbers have exactly 10 digits

Matches with fewer or 11 digits could be accepted (for example "0" or "10000000001").
---
 sds/src/secondary_validation/nhs_check_digit.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sds/src/secondary_validation/nhs_check_digit.rs b/sds/src/secondary_validation/nhs_check_digit.rs
index c13125b..c28df5e 100644
--- a/sds/src/secondary_validation/nhs_check_digit.rs
+++ b/sds/src/secondary_validation/nhs_check_digit.rs
@@ -29,6 +29,10 @@ impl Validator for NhsCheckDigit {
             nb_digit += 1;
         }
 
+        if nb_digit != 10 {
+            return false;
+        }
+
         // Divide the total_sum by 11 and get the remainder
         let remainder = total_sum % 11;
 
-- 
2.43.0


From 1e0c396289d73d653fe75b6e44b2a0815c8c0c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:56 +0000
Subject: [PATCH 6/8] fix: keywords and rules with the same pattern share a
 memoized regex

---
 sds/src/proximity_keywords/mod.rs    | 16 ++++++++++++++--
 sds/src/scanner/regex_rule/config.rs |  5 ++++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/sds/src/proximity_keywords/mod.rs b/sds/src/proximity_keywords/mod.rs
index b221018..4fa5e13 100644
--- a/sds/src/proximity_keywords/mod.rs
+++ b/sds/src/proximity_keywords/mod.rs
@@ -230,11 +230,23 @@ fn compile_keywords(
         .syntax(regex_automata::util::syntax::Config::default().case_insensitive(true));
 
     Ok(Some((
-        get_memoized_regex(&content_pattern, |p| regex_builder.build(p)).unwrap(),
-        get_memoized_regex(&path_pattern, |p| regex_builder.build(p)).unwrap(),
+        get_memoized_regex(&keyword_regex_key(&content_pattern), |_| {
+            regex_builder.build(&content_pattern)
+        })
+        .unwrap(),
+        get_memoized_regex(&keyword_regex_key(&path_pattern), |_| {
+            regex_builder.build(&path_pattern)
+        })
+        .unwrap(),
     )))
 }
 
+/// Keywords are compiled with different settings than the patterns of regex rules, so a keyword
+/// and a rule with the same pattern must not share a memoized regex.
+fn keyword_regex_key(pattern: &str) -> String {
+    format!("keywords:{pattern}")
+}
+
 fn should_push_word_boundary(c: char) -> bool {
     c.is_ascii_alphabetic() || c.is_ascii_digit()
 }
diff --git a/sds/src/scanner/regex_rule/config.rs b/sds/src/scanner/regex_rule/config.rs
index c855fff..31fe8df 100644
--- a/sds/src/scanner/regex_rule/config.rs
+++ b/sds/src/scanner/regex_rule/config.rs
@@ -95,7 +95,10 @@ impl RuleConfig for RegexRuleConfig {
         rule_index: usize,
         scanner_labels: Labels,
     ) -> Result<Box<dyn CompiledRuleDyn>, CreateScannerError> {
-        let regex = get_memoized_regex(&self.pattern, validate_and_create_regex)?;
+        // The prefix keeps these separate from the memoized regexes of proximity keywords
+        let regex = get_memoized_regex(&format!("rule:{}", self.pattern), |_| {
+            validate_and_create_regex(&self.pattern)
+        })?;
         self.match_action.validate()?;
 
         let rule_labels = scanner_labels.clone_with_labels(self.labels.clone());
-- 
2.43.0


From 4145c6dd42a96819331a35e1434e5aede9dc094d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:01 +0000
Subject: [PATCH 7/8] fix: total_regex_cache_size is never increased

---
 sds/src/scanner/regex_rule/regex_store.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sds/src/scanner/regex_rule/regex_store.rs b/sds/src/scanner/regex_rule/regex_store.rs
index 24d9681..1d50b53 100644
--- a/sds/src/scanner/regex_rule/regex_store.rs
+++ b/sds/src/scanner/regex_rule/regex_store.rs
@@ -127,10 +127,12 @@ impl RegexStore {
             let shared_regex = Arc::new(regex);
 
             let regex_cache = shared_regex.create_cache();
+            let cache_size = regex_cache.memory_usage() + std::mem::size_of::<Cache>();
             let cache_key = self.key_map.insert(WeakSharedRegex {
                 regex: Arc::downgrade(&shared_regex),
-                cache_size: regex_cache.memory_usage() + std::mem::size_of::<Cache>(),
+                cache_size,
             });
+            GLOBAL_STATS.add_total_regex_cache(cache_size as i64);
             if let Some(old_cache_key) = self.pattern_index.insert(pattern.to_owned(), cache_key) {
                 // cleanup old value (which must be a "dead" reference since `get` returned None)
                 if let Some(weak_ref) = self.key_map.remove(old_cache_key) {
-- 
2.43.0


From 8a8e14c07cf8a14f8a3f3e6ebc370c1a9a624e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:39:11 +0000
Subject: [PATCH 8/8] fix: validate_matches keeps the matches of rules without
 match validation

---
 sds/src/scanner/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sds/src/scanner/mod.rs b/sds/src/scanner/mod.rs
index 6572883..af92d4b 100644
--- a/sds/src/scanner/mod.rs
+++ b/sds/src/scanner/mod.rs
@@ -394,6 +394,8 @@ impl Scanner {
         }
         // Create MatchValidatorRuleMatch per match_validator_type to pass it to each match_validator
         let mut match_validator_rule_match_per_type = AHashMap::new();
+        // Matches of rules without match validation are kept as they are
+        let mut not_validated_matches = Vec::new();
         for rule_match in rule_matches.drain(..) {
             let rule = &self.rules[rule_match.rule_index];
             if let Some(match_validation_type) = rule.get_internal_match_validation_type() {
@@ -404,6 +406,8 @@ impl Scanner {
                     .get_mut(match_validation_type)
                     .unwrap()
                     .push(rule_match);
+            } else {
+                not_validated_matches.push(rule_match);
             }
         }
 
@@ -423,6 +427,7 @@ impl Scanner {
         for (_, mut matches) in match_validator_rule_match_per_type {
             rule_matches.append(&mut matches);
         }
+        rule_matches.append(&mut not_validated_matches);
 
         // Sort rule_matches by start index
         rule_matches.sort_by_key(|rule_match| rule_match.start_index);
-- 
2.43.0

