From e1c968a7a78990dcad408a24bbd608298b036c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 01/27] Add verification entry points behind cfg
 snips_nlu_verif

---
 src/intent_classifier/mod.rs |  6 ++++++
 src/lib.rs                   | 13 +++++++++++++
 src/nlu_engine.rs            | 15 +++++++++++++++
 src/resources/mod.rs         |  7 +++++++
 src/slot_filler/mod.rs       |  7 +++++++
 5 files changed, 48 insertions(+)

diff --git a/src/intent_classifier/mod.rs b/src/intent_classifier/mod.rs
index ab1852b..e3a8efa 100644
--- a/src/intent_classifier/mod.rs
+++ b/src/intent_classifier/mod.rs
@@ -45,3 +45,9 @@ pub fn build_intent_classifier<P: AsRef<Path>>(
         _ => Err(format_err!("{:?} is not an intent classifier", metadata)),
     }
 }
+
+#[cfg(snips_nlu_verif)]
+pub mod verif_hooks {
+    pub use super::featurizer::*;
+    pub use super::logreg::*;
+}
diff --git a/src/lib.rs b/src/lib.rs
index 25bbf73..b175f1e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -19,6 +19,19 @@ mod slot_utils;
 mod testutils;
 mod utils;
 
+/// Entry points for the verification harnesses, compiled only with `--cfg snips_nlu_verif`
+#[cfg(snips_nlu_verif)]
+pub mod verif_hooks {
+    pub use crate::entity_parser::*;
+    pub use crate::intent_classifier::verif_hooks::*;
+    pub use crate::intent_parser::*;
+    pub use crate::resources::loading::*;
+    pub use crate::resources::verif_hooks::*;
+    pub use crate::slot_filler::verif_hooks::*;
+    pub use crate::slot_utils::*;
+    pub use crate::utils::*;
+}
+
 pub const MODEL_VERSION: &str = "0.20.0";
 
 pub extern crate snips_nlu_ontology as ontology;
diff --git a/src/nlu_engine.rs b/src/nlu_engine.rs
index 6b995e8..3a710da 100644
--- a/src/nlu_engine.rs
+++ b/src/nlu_engine.rs
@@ -104,6 +104,21 @@ impl SnipsNluEngine {
     }
 }
 
+#[cfg(snips_nlu_verif)]
+impl SnipsNluEngine {
+    pub fn from_parts(
+        dataset_metadata: DatasetMetadata,
+        intent_parsers: Vec<Box<dyn IntentParser>>,
+        shared_resources: Arc<SharedResources>,
+    ) -> Self {
+        SnipsNluEngine {
+            dataset_metadata,
+            intent_parsers,
+            shared_resources,
+        }
+    }
+}
+
 #[cfg(test)]
 impl SnipsNluEngine {
     pub fn from_path_with_resources<P: AsRef<Path>>(
diff --git a/src/resources/mod.rs b/src/resources/mod.rs
index 2540854..cd3c3e9 100644
--- a/src/resources/mod.rs
+++ b/src/resources/mod.rs
@@ -19,3 +19,10 @@ pub struct SharedResources {
     pub word_clusterers: HashMap<String, Arc<dyn WordClusterer>>,
     pub stop_words: HashSet<String>,
 }
+
+#[cfg(snips_nlu_verif)]
+pub mod verif_hooks {
+    pub use super::gazetteer::*;
+    pub use super::stemmer::*;
+    pub use super::word_clusterer::*;
+}
diff --git a/src/slot_filler/mod.rs b/src/slot_filler/mod.rs
index e49c135..1b51d36 100644
--- a/src/slot_filler/mod.rs
+++ b/src/slot_filler/mod.rs
@@ -47,3 +47,10 @@ pub fn build_slot_filler<P: AsRef<Path>>(
         _ => Err(format_err!("{:?} is not a slot filler", metadata)),
     }
 }
+
+#[cfg(snips_nlu_verif)]
+pub mod verif_hooks {
+    pub use super::crf_utils::*;
+    pub use super::feature_processor::*;
+    pub use super::features_utils::*;
+}
-- 
2.43.0


From eeee9b42a278dbe13026c4d38d22ba65f0e09af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:38 +0000
Subject: [PATCH 02/27] fix: never list the returned intent among its
 alternatives

The alternatives skipped the first intent of get_intents, which is not always the returned one
(ambiguous match of a first parser, answer of a later parser): the returned intent was then listed
again and another candidate was lost.
---
 src/nlu_engine.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nlu_engine.rs b/src/nlu_engine.rs
index 3a710da..84bbc66 100644
--- a/src/nlu_engine.rs
+++ b/src/nlu_engine.rs
@@ -227,7 +227,8 @@ impl SnipsNluEngine {
                     })
                     .unwrap_or(true)
             })
-            .skip(1) // We do not duplicate the top result in the list of alternatives
+            // We do not duplicate the top result in the list of alternatives
+            .filter(|res| res.intent_name != parsing_result.intent.intent_name)
             .take(intents_alternatives)
             .map(|res| {
                 res.intent_name
-- 
2.43.0


From 0bc9ee07985de8497c91d8fad7efe2420c35e059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:38 +0000
Subject: [PATCH 03/27] fix: raw value of an extracted custom slot is the text
 of the input

The custom entity parser works on the lowercased, re-spaced input, so the matched value is not the
text found at the slot's range.
---
 src/nlu_engine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nlu_engine.rs b/src/nlu_engine.rs
index 84bbc66..d91850d 100644
--- a/src/nlu_engine.rs
+++ b/src/nlu_engine.rs
@@ -470,7 +470,7 @@ fn extract_custom_slot(
     )?;
     Ok(if let Some(matched_entity) = custom_entities.pop() {
         Some(Slot {
-            raw_value: matched_entity.value,
+            raw_value: substring_with_char_range(input, &matched_entity.range),
             value: SlotValue::Custom(matched_entity.resolved_value.into()),
             alternatives: matched_entity
                 .alternative_resolved_values
-- 
2.43.0


From 81be1eab353d4c04f1ae39fc549b2a341b3fdf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:29 +0000
Subject: [PATCH 04/27] fix: lookup parser must not panic on texts that contain
 placeholders

A text such as "%city%" was found in the table as an utterance with an entity although it has none:
a panic in debug builds, an intent without its slots otherwise.
---
 src/intent_parser/lookup_intent_parser.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/intent_parser/lookup_intent_parser.rs b/src/intent_parser/lookup_intent_parser.rs
index 32f5e08..10d8872 100644
--- a/src/intent_parser/lookup_intent_parser.rs
+++ b/src/intent_parser/lookup_intent_parser.rs
@@ -293,8 +293,11 @@ impl LookupIntentParser {
         intents: Option<&[&str]>,
     ) -> Option<InternalParsingResult> {
         let (intent_id, slots_ids) = output;
-        // assert invariant: length of slot ids matches that of entities
-        debug_assert!(slots_ids.len() == entities.len());
+        // the length of slot ids matches that of entities, unless the input itself contains
+        // placeholders
+        if slots_ids.len() != entities.len() {
+            return None;
+        }
         let intent_name = &self.intents_names[*intent_id as usize];
         if intents
             .map(|intents_list| intents_list.contains(&intent_name.as_ref()))
-- 
2.43.0


From 0948c31b8f2b95e70445bde45c6a2f0d86305a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:06 +0000
Subject: [PATCH 05/27] fix: match lookup candidates with the utterances of
 their own intent only

---
 src/intent_parser/lookup_intent_parser.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/intent_parser/lookup_intent_parser.rs b/src/intent_parser/lookup_intent_parser.rs
index 10d8872..11e86ce 100644
--- a/src/intent_parser/lookup_intent_parser.rs
+++ b/src/intent_parser/lookup_intent_parser.rs
@@ -168,12 +168,14 @@ impl LookupIntentParser {
         intents: Option<&[&str]>,
     ) -> Result<Vec<InternalParsingResult>> {
         let mut results_per_intent = HashMap::<String, Vec<InternalParsingResult>>::new();
-        for (text_candidate, entities) in self.get_candidates(input, intents)? {
+        for (text_candidate, entities, candidate_intent) in self.get_candidates(input, intents)? {
             let candidate_key = hash_str_to_i32(&text_candidate);
             if let Some(result) = self
                 .map
                 .get(&candidate_key)
                 .and_then(|val| self.parse_map_output(input, val, entities, intents))
+                // a candidate is made of the stop words and entity scope of one intent only
+                .filter(|result| result.intent.intent_name.as_ref() == Some(candidate_intent))
             {
                 if let Some(intent_name) = result.intent.intent_name.as_ref() {
                     results_per_intent
@@ -220,10 +222,10 @@ impl LookupIntentParser {
         &self,
         input: &str,
         intents_whitelist: Option<&[&str]>,
-    ) -> Result<Vec<(String, Vec<MatchedEntity>)>> {
-        let mut candidates: Vec<(String, Vec<MatchedEntity>)> = Vec::new();
+    ) -> Result<Vec<(String, Vec<MatchedEntity>, &IntentName)>> {
+        let mut candidates: Vec<(String, Vec<MatchedEntity>, &IntentName)> = Vec::new();
         for entity_scope in self.entity_scopes.iter() {
-            let intent_group: Vec<&String> = entity_scope
+            let intent_group: Vec<&IntentName> = entity_scope
                 .intent_group
                 .iter()
                 .filter(|intent| {
@@ -243,8 +245,8 @@ impl LookupIntentParser {
                 for intent in intent_group.iter() {
                     let cleaned_text = self.preprocess_text(input, intent);
                     let cleaned_processed_text = self.preprocess_text(&processed_text, intent);
-                    candidates.push((cleaned_text, vec![]));
-                    candidates.push((cleaned_processed_text, entities.clone()));
+                    candidates.push((cleaned_text, vec![], *intent));
+                    candidates.push((cleaned_processed_text, entities.clone(), *intent));
                 }
             }
         }
-- 
2.43.0


From b52e7680ea78f118d8255c10d5ffbdfa725b33d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:26 +0000
Subject: [PATCH 06/27] fix: honour the intents filter when the classifier has
 one intent or nothing to classify

---
 .../log_reg_intent_classifier.rs              | 33 +++++++++++--------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/intent_classifier/log_reg_intent_classifier.rs b/src/intent_classifier/log_reg_intent_classifier.rs
index 19f88b3..eb0ea18 100644
--- a/src/intent_classifier/log_reg_intent_classifier.rs
+++ b/src/intent_classifier/log_reg_intent_classifier.rs
@@ -103,9 +103,25 @@ impl LogRegIntentClassifier {
         input: &str,
         intents_whitelist: Option<&[&str]>,
     ) -> Result<Vec<IntentClassifierResult>> {
+        let opt_intents_set: Option<HashSet<&str>> =
+            intents_whitelist.map(|intent_list| HashSet::from_iter(intent_list.iter().cloned()));
+        let is_allowed = |intent_name: &Option<IntentName>| {
+            if let (Some(intent), Some(intents)) = (intent_name.as_ref(), opt_intents_set.as_ref())
+            {
+                intents.contains(&**intent)
+            } else {
+                true
+            }
+        };
+
         if self.intent_list.len() <= 1 {
+            let intent_name = self.intent_list.first().cloned().unwrap_or(None);
             return Ok(vec![IntentClassifierResult {
-                intent_name: self.intent_list.first().cloned().unwrap_or(None),
+                intent_name: if is_allowed(&intent_name) {
+                    intent_name
+                } else {
+                    None
+                },
                 confidence_score: 1.0,
             }]);
         }
@@ -114,6 +130,7 @@ impl LogRegIntentClassifier {
             return Ok(self
                 .intent_list
                 .iter()
+                .filter(|intent_name| is_allowed(intent_name))
                 .map(|intent_name| IntentClassifierResult {
                     intent_name: intent_name.clone(),
                     confidence_score: if intent_name.is_none() { 1.0 } else { 0.0 },
@@ -122,9 +139,6 @@ impl LogRegIntentClassifier {
                 .collect());
         }
 
-        let opt_intents_set: Option<HashSet<&str>> =
-            intents_whitelist.map(|intent_list| HashSet::from_iter(intent_list.iter().cloned()));
-
         let featurizer = self.featurizer.as_ref().unwrap(); // Checked above
         let logreg = self.logreg.as_ref().unwrap(); // Checked above
 
@@ -139,16 +153,7 @@ impl LogRegIntentClassifier {
                 intent_name: intent_name.clone(),
                 confidence_score: *score,
             })
-            .filter(|res| {
-                if let Some(intent) = res.intent_name.as_ref() {
-                    opt_intents_set
-                        .as_ref()
-                        .map(|intents| intents.contains(&**intent))
-                        .unwrap_or(true)
-                } else {
-                    true
-                }
-            })
+            .filter(|res| is_allowed(&res.intent_name))
             .sorted_by(|a, b| b.confidence_score.partial_cmp(&a.confidence_score).unwrap())
             .collect())
     }
-- 
2.43.0


From 3a33e36712941af3bad778d0d26dffdc9a0f7dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:29 +0000
Subject: [PATCH 07/27] fix: keep character positions when lowercasing the text
 given to entity parsers

---
 src/entity_parser/builtin_entity_parser.rs |  4 ++--
 src/entity_parser/custom_entity_parser.rs  |  4 ++--
 src/entity_parser/utils.rs                 | 13 +++++++++++++
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/entity_parser/builtin_entity_parser.rs b/src/entity_parser/builtin_entity_parser.rs
index 01416b8..693d14f 100644
--- a/src/entity_parser/builtin_entity_parser.rs
+++ b/src/entity_parser/builtin_entity_parser.rs
@@ -5,7 +5,7 @@ use log::info;
 use snips_nlu_ontology::{BuiltinEntity, BuiltinEntityKind};
 use snips_nlu_parsers::BuiltinEntityParser as _BuiltinEntityParser;
 
-use super::utils::Cache;
+use super::utils::{lowercase, Cache};
 use crate::errors::*;
 
 pub trait BuiltinEntityParser: Send + Sync {
@@ -38,7 +38,7 @@ impl BuiltinEntityParser for CachingBuiltinEntityParser {
         use_cache: bool,
         max_alternative_resolved_values: usize,
     ) -> Result<Vec<BuiltinEntity>> {
-        let lowercased_sentence = sentence.to_lowercase();
+        let lowercased_sentence = lowercase(sentence);
         if !use_cache {
             return self.parser.extract_entities(
                 &lowercased_sentence,
diff --git a/src/entity_parser/custom_entity_parser.rs b/src/entity_parser/custom_entity_parser.rs
index 98d3585..836c1e8 100644
--- a/src/entity_parser/custom_entity_parser.rs
+++ b/src/entity_parser/custom_entity_parser.rs
@@ -14,7 +14,7 @@ use snips_nlu_parsers::{GazetteerEntityMatch, GazetteerParser};
 use snips_nlu_utils::language::Language as NluUtilsLanguage;
 use snips_nlu_utils::token::*;
 
-use crate::entity_parser::utils::Cache;
+use crate::entity_parser::utils::{lowercase, Cache};
 use crate::errors::*;
 use crate::language::FromLanguage;
 use crate::utils::EntityName;
@@ -72,7 +72,7 @@ impl CustomEntityParser for CachingCustomEntityParser {
         filter_entity_kinds: Option<&[String]>,
         max_alternative_resolved_values: usize,
     ) -> Result<Vec<CustomEntity>> {
-        let lowercased_sentence = sentence.to_lowercase();
+        let lowercased_sentence = lowercase(sentence);
         let cache_key = CacheKey {
             input: lowercased_sentence,
             kinds: filter_entity_kinds.map(|entity_kinds| entity_kinds.to_vec()),
diff --git a/src/entity_parser/utils.rs b/src/entity_parser/utils.rs
index 265e42c..94508e3 100644
--- a/src/entity_parser/utils.rs
+++ b/src/entity_parser/utils.rs
@@ -28,3 +28,16 @@ where
         Ok(value)
     }
 }
+
+/// Lowercase a string without changing the positions of its characters: the characters whose
+/// lowercase form has several characters are replaced with the first of them
+pub fn lowercase(input: &str) -> String {
+    let lowercased = input.to_lowercase();
+    if lowercased.chars().count() == input.chars().count() {
+        return lowercased;
+    }
+    input
+        .chars()
+        .map(|c| c.to_lowercase().next().unwrap_or(c))
+        .collect()
+}
-- 
2.43.0


From 3d4462722ea4832e7750778b536bf0ab4b62711d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:08 +0000
Subject: [PATCH 08/27] fix: map entity ranges of the lowercased text back to
 the text as typed

---
 src/entity_parser/builtin_entity_parser.rs | 48 +++++++++++++---------
 src/entity_parser/custom_entity_parser.rs  | 14 +++++--
 src/entity_parser/utils.rs                 | 22 +++++-----
 3 files changed, 51 insertions(+), 33 deletions(-)

diff --git a/src/entity_parser/builtin_entity_parser.rs b/src/entity_parser/builtin_entity_parser.rs
index 693d14f..0ccbe71 100644
--- a/src/entity_parser/builtin_entity_parser.rs
+++ b/src/entity_parser/builtin_entity_parser.rs
@@ -5,7 +5,7 @@ use log::info;
 use snips_nlu_ontology::{BuiltinEntity, BuiltinEntityKind};
 use snips_nlu_parsers::BuiltinEntityParser as _BuiltinEntityParser;
 
-use super::utils::{lowercase, Cache};
+use super::utils::{restore_range, Cache};
 use crate::errors::*;
 
 pub trait BuiltinEntityParser: Send + Sync {
@@ -38,30 +38,38 @@ impl BuiltinEntityParser for CachingBuiltinEntityParser {
         use_cache: bool,
         max_alternative_resolved_values: usize,
     ) -> Result<Vec<BuiltinEntity>> {
-        let lowercased_sentence = lowercase(sentence);
-        if !use_cache {
-            return self.parser.extract_entities(
+        let lowercased_sentence = sentence.to_lowercase();
+        let entities = if !use_cache {
+            self.parser.extract_entities(
                 &lowercased_sentence,
                 filter_entity_kinds,
                 max_alternative_resolved_values,
-            );
-        }
-        let cache_key = CacheKey {
-            input: lowercased_sentence,
-            kinds: filter_entity_kinds.map(|entity_kinds| entity_kinds.to_vec()),
-            max_alternative_resolved_values,
-        };
+            )
+        } else {
+            let cache_key = CacheKey {
+                input: lowercased_sentence,
+                kinds: filter_entity_kinds.map(|entity_kinds| entity_kinds.to_vec()),
+                max_alternative_resolved_values,
+            };
 
-        self.cache
-            .lock()
-            .unwrap()
-            .try_cache(&cache_key, |cache_key| {
-                self.parser.extract_entities(
-                    &cache_key.input,
-                    filter_entity_kinds,
-                    max_alternative_resolved_values,
-                )
+            self.cache
+                .lock()
+                .unwrap()
+                .try_cache(&cache_key, |cache_key| {
+                    self.parser.extract_entities(
+                        &cache_key.input,
+                        filter_entity_kinds,
+                        max_alternative_resolved_values,
+                    )
+                })
+        }?;
+        Ok(entities
+            .into_iter()
+            .map(|mut entity| {
+                entity.range = restore_range(sentence, &entity.range);
+                entity
             })
+            .collect())
     }
 }
 
diff --git a/src/entity_parser/custom_entity_parser.rs b/src/entity_parser/custom_entity_parser.rs
index 836c1e8..65b4956 100644
--- a/src/entity_parser/custom_entity_parser.rs
+++ b/src/entity_parser/custom_entity_parser.rs
@@ -14,7 +14,7 @@ use snips_nlu_parsers::{GazetteerEntityMatch, GazetteerParser};
 use snips_nlu_utils::language::Language as NluUtilsLanguage;
 use snips_nlu_utils::token::*;
 
-use crate::entity_parser::utils::{lowercase, Cache};
+use crate::entity_parser::utils::{restore_range, Cache};
 use crate::errors::*;
 use crate::language::FromLanguage;
 use crate::utils::EntityName;
@@ -72,14 +72,15 @@ impl CustomEntityParser for CachingCustomEntityParser {
         filter_entity_kinds: Option<&[String]>,
         max_alternative_resolved_values: usize,
     ) -> Result<Vec<CustomEntity>> {
-        let lowercased_sentence = lowercase(sentence);
+        let lowercased_sentence = sentence.to_lowercase();
         let cache_key = CacheKey {
             input: lowercased_sentence,
             kinds: filter_entity_kinds.map(|entity_kinds| entity_kinds.to_vec()),
             max_alternative_resolved_values,
         };
 
-        self.cache
+        let entities = self
+            .cache
             .lock()
             .unwrap()
             .try_cache(&cache_key, |cache_key| {
@@ -88,7 +89,14 @@ impl CustomEntityParser for CachingCustomEntityParser {
                     filter_entity_kinds,
                     max_alternative_resolved_values,
                 )
+            })?;
+        Ok(entities
+            .into_iter()
+            .map(|mut entity| {
+                entity.range = restore_range(sentence, &entity.range);
+                entity
             })
+            .collect())
     }
 }
 
diff --git a/src/entity_parser/utils.rs b/src/entity_parser/utils.rs
index 94508e3..c3673c8 100644
--- a/src/entity_parser/utils.rs
+++ b/src/entity_parser/utils.rs
@@ -1,4 +1,5 @@
 use std::hash::Hash;
+use std::ops::Range;
 
 use lru_cache::LruCache;
 
@@ -29,15 +30,16 @@ where
     }
 }
 
-/// Lowercase a string without changing the positions of its characters: the characters whose
-/// lowercase form has several characters are replaced with the first of them
-pub fn lowercase(input: &str) -> String {
-    let lowercased = input.to_lowercase();
-    if lowercased.chars().count() == input.chars().count() {
-        return lowercased;
-    }
-    input
+/// Convert a range of characters of the lowercased text into the corresponding range of the text:
+/// they differ after characters that have several characters in lower case
+pub fn restore_range(text: &str, lowercased_range: &Range<usize>) -> Range<usize> {
+    let char_indexes: Vec<usize> = text
         .chars()
-        .map(|c| c.to_lowercase().next().unwrap_or(c))
-        .collect()
+        .enumerate()
+        .flat_map(|(index, c)| c.to_lowercase().map(move |_| index))
+        .collect();
+    if char_indexes.len() == text.chars().count() {
+        return lowercased_range.clone();
+    }
+    char_indexes[lowercased_range.start]..char_indexes[lowercased_range.end - 1] + 1
 }
-- 
2.43.0


From 1a8ca24aa6a3e5d6400a63db8fe5c1c65b13b4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:27 +0000
Subject: [PATCH 09/27] fix: keep the values of an entity when its new parser
 cannot be written

---
 src/injection/injection.rs | 51 ++++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 11 deletions(-)

diff --git a/src/injection/injection.rs b/src/injection/injection.rs
index 541981c..89d90fc 100644
--- a/src/injection/injection.rs
+++ b/src/injection/injection.rs
@@ -151,17 +151,7 @@ impl<P: AsRef<Path>> NluInjector<P> {
                     msg: format!("could not inject values for entity '{}'", entity),
                 })?;
 
-            fs::remove_dir_all(parser_dir.clone()).with_context(|_| {
-                NluInjectionErrorKind::InternalInjectionError {
-                    msg: format!("could not remove previous parser at {:?}", parser_dir),
-                }
-            })?;
-
-            gazetteer_parser.dump(&parser_dir).with_context(|_| {
-                NluInjectionErrorKind::InternalInjectionError {
-                    msg: format!("failed to dump gazetteer parser in {:?}", parser_dir),
-                }
-            })?;
+            replace_parser(&gazetteer_parser, parser_dir)?;
         }
 
         info!("Injection performed with success !");
@@ -169,6 +159,45 @@ impl<P: AsRef<Path>> NluInjector<P> {
     }
 }
 
+/// Replace the parser of a directory, which is left as it was when the new one cannot be written
+fn replace_parser(
+    gazetteer_parser: &GazetteerEntityParser,
+    parser_dir: &Path,
+) -> Result<(), NluInjectionError> {
+    let temp_dir = parser_dir
+        .parent()
+        .map(|parent_dir| {
+            tempfile::Builder::new()
+                .prefix("injection_")
+                .tempdir_in(parent_dir)
+        })
+        .unwrap_or_else(tempfile::tempdir)
+        .with_context(|_| NluInjectionErrorKind::InternalInjectionError {
+            msg: format!("could not create temporary directory for {:?}", parser_dir),
+        })?;
+    let new_parser_dir = temp_dir.path().join("new_parser");
+    let previous_parser_dir = temp_dir.path().join("previous_parser");
+
+    gazetteer_parser.dump(&new_parser_dir).with_context(|_| {
+        NluInjectionErrorKind::InternalInjectionError {
+            msg: format!("failed to dump gazetteer parser in {:?}", new_parser_dir),
+        }
+    })?;
+
+    fs::rename(parser_dir, &previous_parser_dir).with_context(|_| {
+        NluInjectionErrorKind::InternalInjectionError {
+            msg: format!("could not remove previous parser at {:?}", parser_dir),
+        }
+    })?;
+
+    fs::rename(&new_parser_dir, parser_dir)
+        .or_else(|error| fs::rename(&previous_parser_dir, parser_dir).and(Err(error)))
+        .with_context(|_| NluInjectionErrorKind::InternalInjectionError {
+            msg: format!("could not move gazetteer parser to {:?}", parser_dir),
+        })?;
+    Ok(())
+}
+
 fn get_entity_parsers_dirs(
     engine_info: &NluEngineInfo,
     maybe_builtin_parser_info: &Option<BuiltinGazetteerParserInfo>,
-- 
2.43.0


From 2f4e352a1b16ad6fd55e14c3c1927bbac17271dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:29 +0000
Subject: [PATCH 10/27] fix: report entries of an engine archive that cannot be
 written instead of panicking

---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 8e3c00f..91826f0 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -79,7 +79,7 @@ pub fn extract_nlu_engine_zip_archive<R: io::Read + io::Seek>(
                     fs::create_dir_all(&p)?;
                 }
             }
-            let mut outfile = fs::File::create(&outpath).unwrap();
+            let mut outfile = fs::File::create(&outpath)?;
             io::copy(&mut file, &mut outfile)?;
         }
     }
-- 
2.43.0


From 8ea8eecd5f7d1ad1edd427ee89348ecd6ef05631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:29 +0000
Subject: [PATCH 11/27] fix: map placeholder ranges back in texts of more than
 32767 characters

---
 src/utils.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 91826f0..2e3dc6b 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -146,13 +146,14 @@ where
     let mut current_ix = 0;
 
     for matched_entity in dedup_matches {
-        let range_start = (matched_entity.range.start as i16 + offset) as usize;
+        let range_start = (matched_entity.range.start as isize + offset) as usize;
         let prefix_text =
             substring_with_char_range(text.to_string(), &(current_ix..matched_entity.range.start));
         let entity_text = placeholder_fn(&*matched_entity.entity_name);
         processed_text = format!("{}{}{}", processed_text, prefix_text, entity_text);
-        offset += entity_text.chars().count() as i16 - matched_entity.range.clone().count() as i16;
-        let range_end = (matched_entity.range.end as i16 + offset) as usize;
+        offset +=
+            entity_text.chars().count() as isize - matched_entity.range.clone().count() as isize;
+        let range_end = (matched_entity.range.end as isize + offset) as usize;
         let new_range = range_start..range_end;
         current_ix = matched_entity.range.end;
         range_mapping.insert(new_range, matched_entity.range);
-- 
2.43.0


From 8443e6367fa86cf3c98aede30a4b305b23e2b591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:44 +0000
Subject: [PATCH 12/27] fix: keep the labels of word clusters as written, and
 report lines without one

---
 src/resources/word_clusterer.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/resources/word_clusterer.rs b/src/resources/word_clusterer.rs
index 3c7ff03..0e7e797 100644
--- a/src/resources/word_clusterer.rs
+++ b/src/resources/word_clusterer.rs
@@ -1,4 +1,5 @@
 use crate::errors::*;
+use failure::format_err;
 use itertools::Either;
 use snips_nlu_ontology::Language;
 use snips_nlu_utils::string::hash_str_to_i32;
@@ -24,33 +25,36 @@ impl HashMapWordClusterer {
             .has_headers(false)
             .from_reader(reader);
         // This flag is switched to false as soon as a record is found which cannot
-        // be converted to a u16
+        // be converted to a u16 and back
         let mut u16_casting_ok = true;
         let mut u16_values = HashMap::new();
         let mut str_values = HashMap::new();
         for record in csv_reader.records() {
             let elements = record?;
             let hashed_key = hash_str_to_i32(elements[0].as_ref());
+            let cluster = elements
+                .get(1)
+                .ok_or_else(|| format_err!("No cluster found for word '{}'", &elements[0]))?;
             // Casting into u16 is attempted only when all previous clusters were converted
             // successfully
             if u16_casting_ok {
-                match u16::from_str(elements[1].as_ref()) {
-                    Ok(u16_value) => {
+                match u16::from_str(cluster) {
+                    Ok(u16_value) if u16_value.to_string() == cluster => {
                         u16_values.insert(hashed_key, u16_value);
                     }
-                    Err(_) => {
+                    _ => {
                         // A word cluster cannot be converted into a u16, let's move all the
                         // previously stored clusters into a raw string representation
                         for (hash, value) in u16_values.iter() {
                             str_values.insert(*hash, format!("{}", value));
                         }
-                        str_values.insert(hashed_key, elements[1].to_string());
+                        str_values.insert(hashed_key, cluster.to_string());
                         u16_casting_ok = false;
                         u16_values.clear();
                     }
                 }
             } else {
-                str_values.insert(hashed_key, elements[1].to_string());
+                str_values.insert(hashed_key, cluster.to_string());
             }
         }
         Ok(Self {
-- 
2.43.0


From 91fd8c55e07b4a657501bda8d9a2f95faae4abac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:22 +0000
Subject: [PATCH 13/27] fix: refuse an intent classifier whose weights are
 inconsistent instead of panicking

---
 src/intent_classifier/log_reg_intent_classifier.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/intent_classifier/log_reg_intent_classifier.rs b/src/intent_classifier/log_reg_intent_classifier.rs
index eb0ea18..9542860 100644
--- a/src/intent_classifier/log_reg_intent_classifier.rs
+++ b/src/intent_classifier/log_reg_intent_classifier.rs
@@ -4,7 +4,7 @@ use std::iter::FromIterator;
 use std::path::Path;
 use std::sync::Arc;
 
-use failure::ResultExt;
+use failure::{format_err, ResultExt};
 use itertools::Itertools;
 use log::{debug, info};
 use ndarray::prelude::*;
@@ -53,7 +53,13 @@ impl LogRegIntentClassifier {
         let logreg = if let (Some(intercept), Some(coeffs)) = (model.intercept, model.coeffs) {
             let arr_intercept = Array::from_vec(intercept);
             let nb_classes = arr_intercept.dim();
-            let nb_features = coeffs[0].len();
+            let nb_features = coeffs.first().map_or(0, |coeffs| coeffs.len());
+            if coeffs.len() != nb_classes || coeffs.iter().any(|c| c.len() != nb_features) {
+                return Err(format_err!(
+                    "Inconsistent intercept and coeffs in {:?}",
+                    &classifier_model_path
+                ));
+            }
             // Note: the deserialized coeffs matrix is transposed
             let arr_weights =
                 Array::from_shape_fn((nb_features, nb_classes), |(i, j)| coeffs[j][i]);
-- 
2.43.0


From 858671249e399a5981966e6d4e39aec5a671e5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:31 +0000
Subject: [PATCH 14/27] fix: keep intents of zero confidence that only a later
 parser knows

---
 src/nlu_engine.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/nlu_engine.rs b/src/nlu_engine.rs
index d91850d..f436adf 100644
--- a/src/nlu_engine.rs
+++ b/src/nlu_engine.rs
@@ -306,11 +306,8 @@ impl SnipsNluEngine {
                 continue;
             }
             for res in parser_results.into_iter() {
-                let existing_score = results
-                    .get(&res.intent_name)
-                    .map(|r| r.confidence_score)
-                    .unwrap_or(0.0);
-                if res.confidence_score > existing_score {
+                let existing_score = results.get(&res.intent_name).map(|r| r.confidence_score);
+                if existing_score.map_or(true, |score| res.confidence_score > score) {
                     results
                         .entry(res.intent_name.clone())
                         .and_modify(|e| e.confidence_score = res.confidence_score)
-- 
2.43.0


From a274db05c1c6ac9a4e9c67401c07c0db92c53899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:15 +0000
Subject: [PATCH 15/27] fix: refuse tagging scheme codes of features that are
 no scheme instead of truncating them

---
 src/slot_filler/features.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/slot_filler/features.rs b/src/slot_filler/features.rs
index b7f9657..be626d0 100644
--- a/src/slot_filler/features.rs
+++ b/src/slot_filler/features.rs
@@ -1,4 +1,5 @@
 use std::collections::HashMap;
+use std::convert::TryFrom;
 use std::sync::Arc;
 
 use failure::format_err;
@@ -278,7 +279,7 @@ impl Feature for CustomEntityMatchFeature {
         shared_resources: Arc<SharedResources>,
     ) -> Result<Vec<Box<dyn Feature>>> {
         let entities = parse_as_vec_string(args, "entities")?;
-        let tagging_scheme_code = parse_as_u64(args, "tagging_scheme_code")? as u8;
+        let tagging_scheme_code = u8::try_from(parse_as_u64(args, "tagging_scheme_code")?)?;
         let tagging_scheme = TaggingScheme::from_u8(tagging_scheme_code)?;
         let use_stemming = parse_as_bool(args, "use_stemming")?;
         let opt_stemmer = if use_stemming {
@@ -343,7 +344,7 @@ impl Feature for BuiltinEntityMatchFeature {
         shared_resources: Arc<SharedResources>,
     ) -> Result<Vec<Box<dyn Feature>>> {
         let builtin_entity_labels = parse_as_vec_string(args, "entity_labels")?;
-        let tagging_scheme_code = parse_as_u64(args, "tagging_scheme_code")? as u8;
+        let tagging_scheme_code = u8::try_from(parse_as_u64(args, "tagging_scheme_code")?)?;
         let tagging_scheme = TaggingScheme::from_u8(tagging_scheme_code)?;
 
         builtin_entity_labels
-- 
2.43.0


From 2df67d03a91fb13d28837ce7dfcfb1096e91d1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:04 +0000
Subject: [PATCH 16/27] fix: refuse an engine missing from a folder whose name
 is no UTF-8 with an error

---
 src/nlu_engine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nlu_engine.rs b/src/nlu_engine.rs
index f436adf..890f4ad 100644
--- a/src/nlu_engine.rs
+++ b/src/nlu_engine.rs
@@ -68,7 +68,7 @@ impl SnipsNluEngine {
     fn load_model<P: AsRef<Path>>(path: P) -> Result<NluEngineModel> {
         let engine_model_path = path.as_ref().join("nlu_engine.json");
         Self::check_model_version(&engine_model_path).with_context(|_| {
-            SnipsNluError::ModelLoad(engine_model_path.to_str().unwrap().to_string())
+            SnipsNluError::ModelLoad(engine_model_path.to_string_lossy().into_owned())
         })?;
         let model_file = fs::File::open(&engine_model_path)
             .with_context(|_| format!("Could not open nlu engine file {:?}", &engine_model_path))?;
-- 
2.43.0


From b9df01ac6c22d88365032ed2173d0cd919a4ee44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:39 +0000
Subject: [PATCH 17/27] fix: refuse a vocabulary with words that have no idf
 weight

---
 src/intent_classifier/featurizer.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/intent_classifier/featurizer.rs b/src/intent_classifier/featurizer.rs
index 36cb84f..9a701c3 100644
--- a/src/intent_classifier/featurizer.rs
+++ b/src/intent_classifier/featurizer.rs
@@ -5,7 +5,7 @@ use std::path::Path;
 use std::str::FromStr;
 use std::sync::Arc;
 
-use failure::{format_err, ResultExt};
+use failure::{bail, format_err, ResultExt};
 use itertools::Itertools;
 use ndarray::prelude::*;
 use snips_nlu_ontology::{BuiltinEntityKind, Language};
@@ -122,6 +122,13 @@ impl TfidfVectorizer {
     ) -> Result<Self> {
         let vocabulary = model.vectorizer.vocab;
         let idf_diag = model.vectorizer.idf_diag;
+        if let Some((word, index)) = vocabulary.iter().find(|(_, ix)| **ix >= idf_diag.len()) {
+            bail!(
+                "The index {} of the word '{}' has no idf weight",
+                index,
+                word
+            );
+        }
 
         let ontology_language = Language::from_str(model.language_code.as_ref())?;
         let language = NluUtilsLanguage::from_language(ontology_language);
@@ -217,7 +224,7 @@ impl TfidfVectorizer {
             word_clusters,
         ];
 
-        let vocabulary_size = self.vocabulary.values().max().unwrap() + 1;
+        let vocabulary_size = self.vocabulary.values().max().map_or(0, |ix| ix + 1);
         let mut features: Vec<f32> = vec![0.; vocabulary_size];
         let mut match_idx: HashSet<usize> = HashSet::new();
         for extracted_features in features_it.iter() {
-- 
2.43.0


From 9b4febffdc3fe00c0c670500f7f61ee907fd9d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:39 +0000
Subject: [PATCH 18/27] fix: refuse word pairs whose indices are out of bounds

---
 src/intent_classifier/featurizer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/intent_classifier/featurizer.rs b/src/intent_classifier/featurizer.rs
index 9a701c3..9e3ea11 100644
--- a/src/intent_classifier/featurizer.rs
+++ b/src/intent_classifier/featurizer.rs
@@ -291,11 +291,14 @@ impl CooccurrenceVectorizer {
             })
             .collect::<Result<Vec<BuiltinEntityKind>>>()?;
 
-        let word_pairs = model
+        let word_pairs: HashMap<WordPair, usize> = model
             .word_pairs
             .into_iter()
             .map(|(index, pairs)| (pairs, index))
             .collect();
+        if let Some(index) = word_pairs.values().find(|ix| **ix >= word_pairs.len()) {
+            bail!("The index {} of a word pair is out of bounds", index);
+        }
 
         let filter_stop_words = model.config.filter_stop_words;
         let window_size = model.config.window_size;
-- 
2.43.0


From cd53200df0e7365884eb9b2e9325a99b50dba140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:39 +0000
Subject: [PATCH 19/27] fix: keep a huge co-occurrence window from overflowing

---
 src/intent_classifier/featurizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/intent_classifier/featurizer.rs b/src/intent_classifier/featurizer.rs
index 9e3ea11..26b96f6 100644
--- a/src/intent_classifier/featurizer.rs
+++ b/src/intent_classifier/featurizer.rs
@@ -377,7 +377,7 @@ impl CooccurrenceVectorizer {
             .enumerate()
             .flat_map(|(i, t)| {
                 let max_index = self.window_size.map_or(num_tokens, |window_size| {
-                    min(i + window_size + 1, num_tokens)
+                    min((i + 1).saturating_add(window_size), num_tokens)
                 });
                 filtered_tokens[i + 1..max_index].iter().map(move |other| {
                     if self.keep_order || t < other {
-- 
2.43.0


From 11309b10e78356c97e45957ebf752c775ee10e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:55 +0000
Subject: [PATCH 20/27] fix: refuse lookup tables with ids of unknown intents
 or slots

---
 src/intent_parser/lookup_intent_parser.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/intent_parser/lookup_intent_parser.rs b/src/intent_parser/lookup_intent_parser.rs
index 11e86ce..afaa8bb 100644
--- a/src/intent_parser/lookup_intent_parser.rs
+++ b/src/intent_parser/lookup_intent_parser.rs
@@ -7,7 +7,7 @@ use crate::slot_utils::*;
 use crate::utils::{deduplicate_overlapping_entities, IntentName, MatchedEntity, SlotName};
 use crate::IntentParser;
 use crate::{EntityScope, GroupedEntityScope, InputHash, IntentId, SlotId};
-use failure::ResultExt;
+use failure::{bail, ResultExt};
 use itertools::Itertools;
 use log::debug;
 use snips_nlu_ontology::{BuiltinEntityKind, IntentClassifierResult, Language};
@@ -61,6 +61,17 @@ impl LookupIntentParser {
     /// create a parser instance
     pub fn new(model: LookupParserModel, shared_resources: Arc<SharedResources>) -> Result<Self> {
         let language = Language::from_str(&model.language_code)?;
+        let is_known = |id: i32, names: &[String]| id >= 0 && (id as usize) < names.len();
+        for (intent_id, slots_ids) in model.map.values() {
+            if !is_known(*intent_id, &model.intents_names) {
+                bail!("Unknown intent id in lookup table: {}", intent_id);
+            }
+            for slot_id in slots_ids {
+                if !is_known(*slot_id, &model.slots_names) {
+                    bail!("Unknown slot id in lookup table: {}", slot_id);
+                }
+            }
+        }
         let stop_words = if model.config.ignore_stop_words {
             shared_resources.stop_words.clone()
         } else {
-- 
2.43.0


From e3837372bd6518230692afc8260fabb7306332b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:55 +0000
Subject: [PATCH 21/27] fix: answer with an error when the scores of intents
 are not numbers

---
 src/intent_classifier/log_reg_intent_classifier.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/intent_classifier/log_reg_intent_classifier.rs b/src/intent_classifier/log_reg_intent_classifier.rs
index 9542860..49bdf4b 100644
--- a/src/intent_classifier/log_reg_intent_classifier.rs
+++ b/src/intent_classifier/log_reg_intent_classifier.rs
@@ -4,7 +4,7 @@ use std::iter::FromIterator;
 use std::path::Path;
 use std::sync::Arc;
 
-use failure::{format_err, ResultExt};
+use failure::{bail, format_err, ResultExt};
 use itertools::Itertools;
 use log::{debug, info};
 use ndarray::prelude::*;
@@ -150,6 +150,9 @@ impl LogRegIntentClassifier {
 
         let features = featurizer.transform(input)?;
         let scores = logreg.run(&features.view())?;
+        if scores.iter().any(|score| score.is_nan()) {
+            bail!("Cannot compute the scores of the intents: weights are too large");
+        }
 
         Ok(self
             .intent_list
-- 
2.43.0


From eace6dee04c0dd7d9378148709935ed3dcd543f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:55 +0000
Subject: [PATCH 22/27] fix: keep n-grams of a huge size from overflowing

---
 src/slot_filler/features.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/slot_filler/features.rs b/src/slot_filler/features.rs
index be626d0..ceb90fd 100644
--- a/src/slot_filler/features.rs
+++ b/src/slot_filler/features.rs
@@ -150,7 +150,7 @@ impl Feature for NgramFeature {
 
     fn compute(&self, tokens: &[Token], token_index: usize) -> Result<Option<String>> {
         // TODO we should precompute the lowercase value somewhere, perhaps use NormalizedToken ?
-        if token_index + self.ngram_size > tokens.len() {
+        if token_index.saturating_add(self.ngram_size) > tokens.len() {
             return Ok(None);
         }
         let result = tokens[token_index..token_index + self.ngram_size]
@@ -196,7 +196,7 @@ impl Feature for ShapeNgramFeature {
 
     fn compute(&self, tokens: &[Token], token_index: usize) -> Result<Option<String>> {
         let max_len = tokens.len();
-        let end = token_index + self.ngram_size;
+        let end = token_index.saturating_add(self.ngram_size);
         Ok(if token_index < end && end <= max_len {
             Some(
                 tokens[token_index..end]
-- 
2.43.0


From 840594885a0885245f22684b5584bfcf4a335587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:09 +0000
Subject: [PATCH 23/27] fix: keep huge feature offsets from overflowing

---
 src/slot_filler/feature_processor.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/slot_filler/feature_processor.rs b/src/slot_filler/feature_processor.rs
index 5d118ca..367052e 100644
--- a/src/slot_filler/feature_processor.rs
+++ b/src/slot_filler/feature_processor.rs
@@ -40,8 +40,9 @@ impl ProbabilisticFeatureProcessor {
             for i in 0..input.len() {
                 if let Some(value) = offsetter.feature.compute(input, i)? {
                     offsetter.offsets_with_name().iter().for_each(|&(offset, ref key)| {
-                        if i as i32 - offset >= 0 && i as i32 - offset < input.len() as i32 {
-                            features[(i as i32 - offset) as usize].push(
+                        let target = i as i64 - i64::from(offset);
+                        if target >= 0 && target < input.len() as i64 {
+                            features[target as usize].push(
                                 (key.clone(), value.clone())
                             );
                         }
-- 
2.43.0


From 0cd38b831dccd100b7ca4491ac764fd5d0220530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:11 +0000
Subject: [PATCH 24/27] fix: refuse patterns with groups that are no slot of
 their intent

---
 .../deterministic_intent_parser.rs            | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/intent_parser/deterministic_intent_parser.rs b/src/intent_parser/deterministic_intent_parser.rs
index 0ee4ca7..439c011 100644
--- a/src/intent_parser/deterministic_intent_parser.rs
+++ b/src/intent_parser/deterministic_intent_parser.rs
@@ -109,9 +109,27 @@ impl DeterministicIntentParser {
                 )
             })
             .collect();
+        let regexes_per_intent = compile_regexes_per_intent(model.patterns)?;
+        for (intent, slots_entities) in model.slot_names_to_entities.iter() {
+            let regexes = regexes_per_intent.get(intent).into_iter().flatten();
+            for group_name in regexes.flat_map(|regex| regex.capture_names().flatten()) {
+                let group_name = group_name.split('_').collect::<Vec<&str>>()[0];
+                model
+                    .group_names_to_slot_names
+                    .get(group_name)
+                    .and_then(|slot_name| slots_entities.get(slot_name))
+                    .ok_or_else(|| {
+                        format_err!(
+                            "No slot of intent '{}' associated with group '{}'",
+                            intent,
+                            group_name
+                        )
+                    })?;
+            }
+        }
         Ok(DeterministicIntentParser {
             language,
-            regexes_per_intent: compile_regexes_per_intent(model.patterns)?,
+            regexes_per_intent,
             group_names_to_slot_names: model.group_names_to_slot_names,
             slot_names_to_entities: model.slot_names_to_entities,
             stop_words,
-- 
2.43.0


From 1bcebb22ac731bf671d79f2b254fc4b07b4f7a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:39 +0000
Subject: [PATCH 25/27] fix: accept empty arrays of strings without data in the
 C interface, and refuse invalid ones

---
 ffi/src/lib.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/ffi/src/lib.rs b/ffi/src/lib.rs
index 3c90072..8d4dc54 100644
--- a/ffi/src/lib.rs
+++ b/ffi/src/lib.rs
@@ -408,8 +408,20 @@ fn get_model_version(version: *mut *const libc::c_char) -> Result<()> {
 
 unsafe fn convert_to_rust_vec<'a>(c_array: *const CStringArray) -> Result<Vec<&'a str>> {
     let array = &*c_array;
+    if array.size == 0 {
+        // An empty array may come without data
+        return Ok(vec![]);
+    }
+    if array.size < 0 || array.data.is_null() {
+        return Err(format_err!("Invalid array of strings"));
+    }
     slice::from_raw_parts(array.data, array.size as usize)
         .into_iter()
-        .map(|&ptr| Ok(CStr::from_ptr(ptr).to_str().map_err(failure::Error::from)?))
+        .map(|&ptr| {
+            if ptr.is_null() {
+                return Err(format_err!("Unexpected null pointer in array of strings"));
+            }
+            Ok(CStr::from_ptr(ptr).to_str().map_err(failure::Error::from)?)
+        })
         .collect::<Result<Vec<_>>>()
 }
-- 
2.43.0


From d92c05b471b761287498d1acb7055267a17fc827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:39 +0000
Subject: [PATCH 26/27] fix: refuse a null pointer instead of zip data in the C
 interface

---
 ffi/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ffi/src/lib.rs b/ffi/src/lib.rs
index 8d4dc54..0414eb6 100644
--- a/ffi/src/lib.rs
+++ b/ffi/src/lib.rs
@@ -258,6 +258,9 @@ fn create_from_zip(
     zip_size: libc::c_uint,
     client: *mut *const CSnipsNluEngine,
 ) -> Result<()> {
+    if zip.is_null() {
+        return Err(format_err!("Unexpected null pointer instead of zip data"));
+    }
     let slice = unsafe { slice::from_raw_parts(zip, zip_size as usize) };
     let reader = Cursor::new(slice.to_owned());
     let nlu_engine = SnipsNluEngine::from_zip(reader)?;
-- 
2.43.0


From cd7c2257d0a3df2b128f076b3fc46fa41aee3d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:26 +0000
Subject: [PATCH 27/27] fix: keep rounding from deciding between ambiguous
 intents

---
 src/intent_parser/deterministic_intent_parser.rs | 7 ++++---
 src/intent_parser/lookup_intent_parser.rs        | 9 +++++----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/intent_parser/deterministic_intent_parser.rs b/src/intent_parser/deterministic_intent_parser.rs
index 439c011..b8881d9 100644
--- a/src/intent_parser/deterministic_intent_parser.rs
+++ b/src/intent_parser/deterministic_intent_parser.rs
@@ -280,15 +280,16 @@ impl DeterministicIntentParser {
         // In such cases, priority is given to results containing fewer slots
         let weights = results
             .iter()
-            .map(|res| 1. / (1. + res.slots.len() as f32))
+            .map(|res| 1. / (1. + res.slots.len() as f64))
             .collect::<Vec<_>>();
-        let total_weight: f32 = weights.iter().sum();
+        // The order of the results, hence of this sum, is arbitrary: its rounding must not matter
+        let total_weight: f64 = weights.iter().sum();
 
         Ok(results
             .into_iter()
             .enumerate()
             .map(|(idx, mut res)| {
-                res.intent.confidence_score = weights[idx] / total_weight;
+                res.intent.confidence_score = (weights[idx] / total_weight) as f32;
                 res
             })
             .sorted_by(|res1, res2| {
diff --git a/src/intent_parser/lookup_intent_parser.rs b/src/intent_parser/lookup_intent_parser.rs
index afaa8bb..65b07a2 100644
--- a/src/intent_parser/lookup_intent_parser.rs
+++ b/src/intent_parser/lookup_intent_parser.rs
@@ -196,7 +196,7 @@ impl LookupIntentParser {
                 }
             }
         }
-        let results: Vec<(InternalParsingResult, f32)> = results_per_intent
+        let results: Vec<(InternalParsingResult, f64)> = results_per_intent
             .into_iter()
             .filter_map(|(_, internal_results)| {
                 internal_results
@@ -204,19 +204,20 @@ impl LookupIntentParser {
                     .map(|res| {
                         // In some rare cases there can be multiple ambiguous intents
                         // In such cases, priority is given to results containing fewer slots
-                        let score = 1. / (1. + res.slots.len() as f32);
+                        let score = 1. / (1. + res.slots.len() as f64);
                         (res, score)
                     })
                     .max_by(|(_, score_a), (_, score_b)| score_a.partial_cmp(score_b).unwrap())
             })
             .collect();
 
-        let total_weight: f32 = results.iter().map(|(_, score)| score).sum();
+        // The order of the results, hence of this sum, is arbitrary: its rounding must not matter
+        let total_weight: f64 = results.iter().map(|(_, score)| score).sum();
 
         Ok(results
             .into_iter()
             .map(|(mut res, score)| {
-                res.intent.confidence_score = score / total_weight;
+                res.intent.confidence_score = (score / total_weight) as f32;
                 res
             })
             .sorted_by(|res1, res2| {
-- 
2.43.0

