From e4a6c49c41c8c93e53b3e846553e90e53ec1a78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:15 +0000
Subject: [PATCH 01/22] fix: flush dict.da and report write errors when
 building a dictionary

---
 lindera-dictionary-builder/src/dict.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lindera-dictionary-builder/src/dict.rs b/lindera-dictionary-builder/src/dict.rs
index c0d8f17..8da778b 100644
--- a/lindera-dictionary-builder/src/dict.rs
+++ b/lindera-dictionary-builder/src/dict.rs
@@ -238,6 +238,10 @@ impl DictBuilder {
 
         compress_write(&da_bytes, self.compress_algorithm, &mut wtr_da)?;
 
+        wtr_da
+            .flush()
+            .map_err(|err| LinderaErrorKind::Io.with_error(anyhow::anyhow!(err)))?;
+
         let mut vals_buffer = Vec::new();
         for word_entries in word_entry_map.values() {
             for word_entry in word_entries {
-- 
2.43.0


From 0e9cb080e69861eba3c55aaf9de69238b6e04643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:15 +0000
Subject: [PATCH 02/22] fix: return errors from the ko-dic and CC-CEDICT
 dictionary builds instead of panicking

---
 lindera-cc-cedict-builder/src/cc_cedict_builder.rs | 8 ++++----
 lindera-ko-dic-builder/src/ko_dic_builder.rs       | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/lindera-cc-cedict-builder/src/cc_cedict_builder.rs b/lindera-cc-cedict-builder/src/cc_cedict_builder.rs
index d1845eb..bb92ff6 100644
--- a/lindera-cc-cedict-builder/src/cc_cedict_builder.rs
+++ b/lindera-cc-cedict-builder/src/cc_cedict_builder.rs
@@ -36,10 +36,10 @@ impl DictionaryBuilder for CcCedictBuilder {
         fs::create_dir_all(output_dir)
             .map_err(|err| LinderaErrorKind::Io.with_error(anyhow::anyhow!(err)))?;
 
-        let chardef = self.build_chardef(input_dir, output_dir).unwrap();
-        self.build_unk(input_dir, &chardef, output_dir).unwrap();
-        self.build_dict(input_dir, output_dir).unwrap();
-        self.build_cost_matrix(input_dir, output_dir).unwrap();
+        let chardef = self.build_chardef(input_dir, output_dir)?;
+        self.build_unk(input_dir, &chardef, output_dir)?;
+        self.build_dict(input_dir, output_dir)?;
+        self.build_cost_matrix(input_dir, output_dir)?;
 
         Ok(())
     }
diff --git a/lindera-ko-dic-builder/src/ko_dic_builder.rs b/lindera-ko-dic-builder/src/ko_dic_builder.rs
index 67d0142..123e5f1 100644
--- a/lindera-ko-dic-builder/src/ko_dic_builder.rs
+++ b/lindera-ko-dic-builder/src/ko_dic_builder.rs
@@ -36,10 +36,10 @@ impl DictionaryBuilder for KoDicBuilder {
         fs::create_dir_all(output_dir)
             .map_err(|err| LinderaErrorKind::Io.with_error(anyhow::anyhow!(err)))?;
 
-        let chardef = self.build_chardef(input_dir, output_dir).unwrap();
-        self.build_unk(input_dir, &chardef, output_dir).unwrap();
-        self.build_dict(input_dir, output_dir).unwrap();
-        self.build_cost_matrix(input_dir, output_dir).unwrap();
+        let chardef = self.build_chardef(input_dir, output_dir)?;
+        self.build_unk(input_dir, &chardef, output_dir)?;
+        self.build_dict(input_dir, output_dir)?;
+        self.build_cost_matrix(input_dir, output_dir)?;
 
         Ok(())
     }
-- 
2.43.0


From fe22b575edb3b289407e329f6dbebe07327c2bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:15 +0000
Subject: [PATCH 03/22] fix: reject user dictionary rows with too few fields
 instead of panicking

---
 lindera-dictionary-builder/src/user_dict.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lindera-dictionary-builder/src/user_dict.rs b/lindera-dictionary-builder/src/user_dict.rs
index d4a1f4d..969a9a1 100644
--- a/lindera-dictionary-builder/src/user_dict.rs
+++ b/lindera-dictionary-builder/src/user_dict.rs
@@ -58,6 +58,13 @@ impl UserDictBuilder {
         let mut word_entry_map: BTreeMap<String, Vec<WordEntry>> = BTreeMap::new();
 
         for (row_id, row) in rows.iter().enumerate() {
+            if row.len() != self.simple_userdic_fields_num && row.len() < 4 {
+                return Err(LinderaErrorKind::Content.with_error(anyhow::anyhow!(
+                    "user dictionary should be a CSV with {} or {}+ fields",
+                    self.simple_userdic_fields_num,
+                    self.detailed_userdic_fields_num
+                )));
+            }
             let surface = row[0].to_string();
             let word_cost = if row.len() == self.simple_userdic_fields_num {
                 self.simple_word_cost
-- 
2.43.0


From 23e48c6e7d30b47c248a756641f4780e675a9d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:15 +0000
Subject: [PATCH 04/22] fix: reject lexicon rows with too few fields instead of
 panicking

---
 lindera-dictionary-builder/src/dict.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lindera-dictionary-builder/src/dict.rs b/lindera-dictionary-builder/src/dict.rs
index 8da778b..d85d140 100644
--- a/lindera-dictionary-builder/src/dict.rs
+++ b/lindera-dictionary-builder/src/dict.rs
@@ -120,6 +120,12 @@ impl DictBuilder {
         let mut word_entry_map: BTreeMap<String, Vec<WordEntry>> = BTreeMap::new();
 
         for (row_id, row) in rows.iter().enumerate() {
+            if row.len() < 4 {
+                return Err(LinderaErrorKind::Content.with_error(anyhow::anyhow!(
+                    "lexicon rows should have 4+ fields, got {}",
+                    row.len()
+                )));
+            }
             let word_cost = match i16::from_str(row[3].trim()) {
                 Ok(wc) => wc,
                 Err(_err) => {
-- 
2.43.0


From 250e80c7a92b68ba5688af54913506fdcd348a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:15 +0000
Subject: [PATCH 05/22] fix: reject surfaces with more entries than the index
 can address

---
 lindera-dictionary-builder/src/dict.rs      | 8 ++++++++
 lindera-dictionary-builder/src/user_dict.rs | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/lindera-dictionary-builder/src/dict.rs b/lindera-dictionary-builder/src/dict.rs
index d85d140..06d2d51 100644
--- a/lindera-dictionary-builder/src/dict.rs
+++ b/lindera-dictionary-builder/src/dict.rs
@@ -232,6 +232,14 @@ impl DictBuilder {
 
         let mut keyset: Vec<(&[u8], u32)> = vec![];
         for (key, word_entries) in &word_entry_map {
+            // The number of entries is stored in 5 bits.
+            if word_entries.len() >= 1 << 5 {
+                return Err(LinderaErrorKind::Content.with_error(anyhow::anyhow!(
+                    "too many entries for the surface {:?}: {}",
+                    key,
+                    word_entries.len()
+                )));
+            }
             let len = word_entries.len() as u32;
             let val = (id << 5) | len; // 27bit for word ID, 5bit for different parts of speech on the same surface.
             keyset.push((key.as_bytes(), val));
diff --git a/lindera-dictionary-builder/src/user_dict.rs b/lindera-dictionary-builder/src/user_dict.rs
index 969a9a1..0fa8153 100644
--- a/lindera-dictionary-builder/src/user_dict.rs
+++ b/lindera-dictionary-builder/src/user_dict.rs
@@ -135,6 +135,14 @@ impl UserDictBuilder {
         // building double array trie
         let mut keyset: Vec<(&[u8], u32)> = vec![];
         for (key, word_entries) in &word_entry_map {
+            // The number of entries is stored in 5 bits.
+            if word_entries.len() >= 1 << 5 {
+                return Err(LinderaErrorKind::Content.with_error(anyhow::anyhow!(
+                    "too many entries for the surface {:?}: {}",
+                    key,
+                    word_entries.len()
+                )));
+            }
             let len = word_entries.len() as u32;
             let val = (id << 5) | len;
             keyset.push((key.as_bytes(), val));
-- 
2.43.0


From 4fb1ec6bb2f7d0b0902f3ca4ceea9a0366a0f732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:15 +0000
Subject: [PATCH 06/22] fix: reject unknown word ids and costs that do not fit
 instead of wrapping them

---
 lindera-core/src/unknown_dictionary.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/lindera-core/src/unknown_dictionary.rs b/lindera-core/src/unknown_dictionary.rs
index 996f64c..a7947b1 100644
--- a/lindera-core/src/unknown_dictionary.rs
+++ b/lindera-core/src/unknown_dictionary.rs
@@ -93,7 +93,7 @@ fn make_category_references(
         .collect()
 }
 
-fn make_costs_array(entries: &[UnknownDictionaryEntry]) -> Vec<WordEntry> {
+fn make_costs_array(entries: &[UnknownDictionaryEntry]) -> LinderaResult<Vec<WordEntry>> {
     entries
         .iter()
         .map(|e| {
@@ -102,12 +102,15 @@ fn make_costs_array(entries: &[UnknownDictionaryEntry]) -> Vec<WordEntry> {
             if e.left_id != e.right_id {
                 warn!("left id and right id are not same: {:?}", e);
             }
-            WordEntry {
+            Ok(WordEntry {
                 word_id: WordId(std::u32::MAX, true),
-                left_id: e.left_id as u16,
-                right_id: e.right_id as u16,
-                word_cost: e.word_cost as i16,
-            }
+                left_id: u16::try_from(e.left_id)
+                    .map_err(|err| LinderaErrorKind::Parse.with_error(anyhow::anyhow!(err)))?,
+                right_id: u16::try_from(e.right_id)
+                    .map_err(|err| LinderaErrorKind::Parse.with_error(anyhow::anyhow!(err)))?,
+                word_cost: i16::try_from(e.word_cost)
+                    .map_err(|err| LinderaErrorKind::Parse.with_error(anyhow::anyhow!(err)))?,
+            })
         })
         .collect()
 }
@@ -125,7 +128,7 @@ pub fn parse_unk(
     }
 
     let category_references = make_category_references(categories, &unknown_dict_entries[..]);
-    let costs = make_costs_array(&unknown_dict_entries[..]);
+    let costs = make_costs_array(&unknown_dict_entries[..])?;
     Ok(UnknownDictionary {
         category_references,
         costs,
-- 
2.43.0


From 76394c8b43a12e95a0651f7ef3424bed0dc8b5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:15 +0000
Subject: [PATCH 07/22] fix: reject malformed connection matrices instead of
 panicking or wrapping costs

---
 lindera-dictionary-builder/src/cost_matrix.rs | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/lindera-dictionary-builder/src/cost_matrix.rs b/lindera-dictionary-builder/src/cost_matrix.rs
index 53367a1..a201b59 100644
--- a/lindera-dictionary-builder/src/cost_matrix.rs
+++ b/lindera-dictionary-builder/src/cost_matrix.rs
@@ -43,6 +43,14 @@ impl CostMatrixBuilder {
         let header = lines_it.next().ok_or_else(|| {
             LinderaErrorKind::Content.with_error(anyhow::anyhow!("unknown error"))
         })?;
+        if header.len() < 2
+            || header
+                .iter()
+                .any(|&size| i16::try_from(size).unwrap_or(-1) < 0)
+        {
+            return Err(LinderaErrorKind::Content
+                .with_error(anyhow::anyhow!("invalid matrix size: {:?}", header)));
+        }
         let forward_size = header[0] as u32;
         let backward_size = header[1] as u32;
         let len = 2 + (forward_size * backward_size) as usize;
@@ -50,10 +58,18 @@ impl CostMatrixBuilder {
         costs[0] = forward_size as i16;
         costs[1] = backward_size as i16;
         for fields in lines_it {
+            if fields.len() < 3
+                || !(0..header[0]).contains(&fields[0])
+                || !(0..header[1]).contains(&fields[1])
+            {
+                return Err(LinderaErrorKind::Content
+                    .with_error(anyhow::anyhow!("invalid connection cost: {:?}", fields)));
+            }
             let forward_id = fields[0] as u32;
             let backward_id = fields[1] as u32;
-            let cost = fields[2] as u16;
-            costs[2 + (backward_id + forward_id * backward_size) as usize] = cost as i16;
+            let cost = i16::try_from(fields[2])
+                .map_err(|err| LinderaErrorKind::Parse.with_error(anyhow::anyhow!(err)))?;
+            costs[2 + (backward_id + forward_id * backward_size) as usize] = cost;
         }
 
         let wtr_matrix_mtx_path = output_dir.join(Path::new("matrix.mtx"));
-- 
2.43.0


From aa692e5bf67fb3c8da45ddbe34fb6b5cdd57de2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:15 +0000
Subject: [PATCH 08/22] fix: keep character category definitions under the id
 of their category

---
 lindera-core/src/character_definition.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/lindera-core/src/character_definition.rs b/lindera-core/src/character_definition.rs
index c3fb3dd..837f172 100644
--- a/lindera-core/src/character_definition.rs
+++ b/lindera-core/src/character_definition.rs
@@ -101,7 +101,7 @@ impl CharacterDefinitions {
 
 #[derive(Default)]
 pub struct CharacterDefinitionsBuilder {
-    category_definition: Vec<CategoryData>,
+    category_definition: Vec<Option<CategoryData>>,
     category_index: HashMap<String, CategoryId>,
     char_ranges: Vec<(u32, u32, Vec<CategoryId>)>,
 }
@@ -161,6 +161,13 @@ impl CharacterDefinitionsBuilder {
                 self.parse_category(line_str)?;
             }
         }
+        // categories may be used before they are defined, but not without a definition
+        for (name, CategoryId(id)) in &self.category_index {
+            if !matches!(self.category_definition.get(*id), Some(Some(_))) {
+                return Err(LinderaErrorKind::Content
+                    .with_error(anyhow::anyhow!("Undefined category: {}", name)));
+            }
+        }
         Ok(())
     }
 
@@ -222,8 +229,17 @@ impl CharacterDefinitionsBuilder {
             length,
         };
         // force a category_id allocation
-        self.category_id(fields[0]);
-        self.category_definition.push(category_data);
+        let CategoryId(id) = self.category_id(fields[0]);
+        if self.category_definition.len() <= id {
+            self.category_definition.resize(id + 1, None);
+        }
+        if self.category_definition[id]
+            .replace(category_data)
+            .is_some()
+        {
+            return Err(LinderaErrorKind::Content
+                .with_error(anyhow::anyhow!("Duplicate category: {}", fields[0])));
+        }
 
         Ok(())
     }
@@ -237,7 +253,7 @@ impl CharacterDefinitionsBuilder {
         }
         let mapping = self.build_lookup_table();
         CharacterDefinitions {
-            category_definitions: self.category_definition,
+            category_definitions: self.category_definition.into_iter().flatten().collect(),
             category_names,
             mapping,
         }
-- 
2.43.0


From 1814f1e5cbdeaf16920189fcb70b3049b7375b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:15 +0000
Subject: [PATCH 09/22] fix: reject part-of-speech tags with more than four
 parts instead of panicking

---
 lindera-filter/src/token_filter/japanese_compound_word.rs | 8 ++++++++
 lindera-filter/src/token_filter/japanese_keep_tags.rs     | 8 ++++++++
 lindera-filter/src/token_filter/japanese_number.rs        | 8 ++++++++
 lindera-filter/src/token_filter/japanese_stop_tags.rs     | 8 ++++++++
 4 files changed, 32 insertions(+)

diff --git a/lindera-filter/src/token_filter/japanese_compound_word.rs b/lindera-filter/src/token_filter/japanese_compound_word.rs
index 3403c13..b203665 100644
--- a/lindera-filter/src/token_filter/japanese_compound_word.rs
+++ b/lindera-filter/src/token_filter/japanese_compound_word.rs
@@ -30,6 +30,10 @@ impl JapaneseCompoundWordTokenFilterConfig {
             let mut formatted_tag = ["*", "*", "*", "*"];
 
             let tag_array: Vec<&str> = tag.split(',').collect();
+            if tag_array.len() > formatted_tag.len() {
+                return Err(LinderaErrorKind::Args
+                    .with_error(anyhow::anyhow!("too many parts in tag: {}", tag)));
+            }
             for (i, j) in tag_array.iter().enumerate() {
                 formatted_tag[i] = j;
             }
@@ -41,6 +45,10 @@ impl JapaneseCompoundWordTokenFilterConfig {
             let mut formatted_tag = ["*", "*", "*", "*"];
 
             let tag_array: Vec<&str> = new_tag_str.split(',').collect();
+            if tag_array.len() > formatted_tag.len() {
+                return Err(LinderaErrorKind::Args
+                    .with_error(anyhow::anyhow!("too many parts in tag: {}", new_tag_str)));
+            }
             for (i, j) in tag_array.iter().enumerate() {
                 formatted_tag[i] = j;
             }
diff --git a/lindera-filter/src/token_filter/japanese_keep_tags.rs b/lindera-filter/src/token_filter/japanese_keep_tags.rs
index 16a5f63..9f4aa5d 100644
--- a/lindera-filter/src/token_filter/japanese_keep_tags.rs
+++ b/lindera-filter/src/token_filter/japanese_keep_tags.rs
@@ -23,6 +23,10 @@ impl JapaneseKeepTagsTokenFilterConfig {
             let mut formatted_tag = ["*", "*", "*", "*"];
 
             let tag_array: Vec<&str> = tag.split(',').collect();
+            if tag_array.len() > formatted_tag.len() {
+                // Never matches, because the tags of a token have four parts.
+                continue;
+            }
             for (i, j) in tag_array.iter().enumerate() {
                 formatted_tag[i] = j;
             }
@@ -57,6 +61,10 @@ impl JapaneseKeepTagsTokenFilterConfig {
                     .map(|s| s.to_string())
             })
             .collect::<LinderaResult<HashSet<String>>>()?;
+        if let Some(tag) = tags.iter().find(|tag| tag.split(',').count() > 4) {
+            return Err(LinderaErrorKind::Deserialize
+                .with_error(anyhow::anyhow!("too many parts in tag: {}", tag)));
+        }
         Ok(Self::new(tags))
     }
 }
diff --git a/lindera-filter/src/token_filter/japanese_number.rs b/lindera-filter/src/token_filter/japanese_number.rs
index f25007d..446fe40 100644
--- a/lindera-filter/src/token_filter/japanese_number.rs
+++ b/lindera-filter/src/token_filter/japanese_number.rs
@@ -25,6 +25,10 @@ impl JapaneseNumberTokenFilterConfig {
                     let mut formatted_tag = ["*", "*", "*", "*"];
 
                     let tag_array: Vec<&str> = tag.split(',').collect();
+                    if tag_array.len() > formatted_tag.len() {
+                        // Never matches, because the tags of a token have four parts.
+                        continue;
+                    }
                     for (i, j) in tag_array.iter().enumerate() {
                         formatted_tag[i] = j;
                     }
@@ -73,6 +77,10 @@ impl JapaneseNumberTokenFilterConfig {
             None
         };
 
+        if let Some(tag) = tags.iter().flatten().find(|tag| tag.split(',').count() > 4) {
+            return Err(LinderaErrorKind::Deserialize
+                .with_error(anyhow::anyhow!("too many parts in tag: {}", tag)));
+        }
         Ok(Self::new(tags))
     }
 }
diff --git a/lindera-filter/src/token_filter/japanese_stop_tags.rs b/lindera-filter/src/token_filter/japanese_stop_tags.rs
index 9e657e1..57f5c9e 100644
--- a/lindera-filter/src/token_filter/japanese_stop_tags.rs
+++ b/lindera-filter/src/token_filter/japanese_stop_tags.rs
@@ -23,6 +23,10 @@ impl JapaneseStopTagsTokenFilterConfig {
             let mut formatted_tag = ["*", "*", "*", "*"];
 
             let tag_array: Vec<&str> = tag.split(',').collect();
+            if tag_array.len() > formatted_tag.len() {
+                // Never matches, because the tags of a token have four parts.
+                continue;
+            }
             for (i, j) in tag_array.iter().enumerate() {
                 formatted_tag[i] = j;
             }
@@ -57,6 +61,10 @@ impl JapaneseStopTagsTokenFilterConfig {
                     .map(|s| s.to_string())
             })
             .collect::<LinderaResult<HashSet<String>>>()?;
+        if let Some(tag) = tags.iter().find(|tag| tag.split(',').count() > 4) {
+            return Err(LinderaErrorKind::Deserialize
+                .with_error(anyhow::anyhow!("too many parts in tag: {}", tag)));
+        }
         Ok(Self::new(tags))
     }
 }
-- 
2.43.0


From b3e57cd2b3a5126353873b6ef4b650b8f780951a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:25 +0000
Subject: [PATCH 10/22] fix: read back tokenizer configurations written without
 a user dictionary

---
 lindera-tokenizer/src/tokenizer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lindera-tokenizer/src/tokenizer.rs b/lindera-tokenizer/src/tokenizer.rs
index 88c2952..31285f7 100644
--- a/lindera-tokenizer/src/tokenizer.rs
+++ b/lindera-tokenizer/src/tokenizer.rs
@@ -138,6 +138,7 @@ impl<'de> Deserialize<'de> for TokenizerConfig {
                 }
                 let dictionary =
                     dictionary.ok_or_else(|| de::Error::missing_field("dictionary"))?;
+                let user_dictionary = user_dictionary.unwrap_or(None);
                 let mode = mode.unwrap_or(Mode::Normal);
                 Ok(TokenizerConfig {
                     dictionary,
-- 
2.43.0


From e60caec3a990e5fe413c02c06e4d5efa9ff95a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:25 +0000
Subject: [PATCH 11/22] fix: compute token offsets from the start of their
 sentence

---
 lindera-tokenizer/src/tokenizer.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lindera-tokenizer/src/tokenizer.rs b/lindera-tokenizer/src/tokenizer.rs
index 31285f7..540b0e5 100644
--- a/lindera-tokenizer/src/tokenizer.rs
+++ b/lindera-tokenizer/src/tokenizer.rs
@@ -259,9 +259,8 @@ impl Tokenizer {
                 let surface = &sentence[byte_start..byte_end];
 
                 // compute the token's absolute byte positions
-                let token_start = byte_position;
-                byte_position += surface.len();
-                let token_end = byte_position;
+                let token_start = byte_position + byte_start;
+                let token_end = byte_position + byte_end;
 
                 tokens.push(Token::new(
                     surface,
@@ -275,6 +274,9 @@ impl Tokenizer {
 
                 position += 1;
             }
+
+            // the next sentence starts here, even if this one could not be segmented
+            byte_position += sentence.len();
         }
 
         Ok(tokens)
-- 
2.43.0


From b70da24bca1ee100d6fe1b0e59442d6adf7160cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:25 +0000
Subject: [PATCH 12/22] fix: accept filters without arguments on the command
 line

---
 lindera-filter/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lindera-filter/src/lib.rs b/lindera-filter/src/lib.rs
index c3e0d1f..7713fa3 100644
--- a/lindera-filter/src/lib.rs
+++ b/lindera-filter/src/lib.rs
@@ -8,7 +8,7 @@ pub mod token;
 pub mod token_filter;
 
 fn parse_cli_flag(cli_flag: &str) -> LinderaResult<(&str, Value)> {
-    let (kind, json) = cli_flag.split_once(':').unwrap_or((cli_flag, ""));
+    let (kind, json) = cli_flag.split_once(':').unwrap_or((cli_flag, "{}"));
 
     let args: Value = serde_json::from_str(json)
         .map_err(|err| LinderaErrorKind::Content.with_error(anyhow::anyhow!(err)))?;
-- 
2.43.0


From 8c0ec1957df610d6fb62fe0cc9d6a7f23bf7f92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:25 +0000
Subject: [PATCH 13/22] fix: correct offsets for regex replacements that refer
 to capture groups

---
 lindera-filter/src/character_filter/regex.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lindera-filter/src/character_filter/regex.rs b/lindera-filter/src/character_filter/regex.rs
index ba4f66e..63bf351 100644
--- a/lindera-filter/src/character_filter/regex.rs
+++ b/lindera-filter/src/character_filter/regex.rs
@@ -64,11 +64,17 @@ impl CharacterFilter for RegexCharacterFilter {
         let mut offsets: Vec<usize> = Vec::new();
         let mut diffs: Vec<i64> = Vec::new();
 
-        self.regex.find_iter(text).for_each(|mat| {
+        self.regex.captures_iter(text).for_each(|caps| {
+            let mat = match caps.get(0) {
+                Some(mat) => mat,
+                None => return,
+            };
             let input_start = mat.start();
             let input_text = mat.as_str();
             let input_len = input_text.len();
-            let replacement_text = self.config.replacement.as_str();
+            // The replacement may refer to capture groups.
+            let mut replacement_text = String::new();
+            caps.expand(&self.config.replacement, &mut replacement_text);
             let replacement_len = replacement_text.len();
             let diff_len = input_len as i64 - replacement_len as i64;
             let input_offset = input_start + input_len;
-- 
2.43.0


From 779295ee695af3ad79d09fd0c2fb3729ca917aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:19 +0000
Subject: [PATCH 14/22] fix: report offset corrections of the iteration mark
 filter

---
 .../japanese_iteration_mark.rs                | 69 +++++++++++++++++--
 1 file changed, 65 insertions(+), 4 deletions(-)

diff --git a/lindera-filter/src/character_filter/japanese_iteration_mark.rs b/lindera-filter/src/character_filter/japanese_iteration_mark.rs
index 6bb46e5..adb670d 100644
--- a/lindera-filter/src/character_filter/japanese_iteration_mark.rs
+++ b/lindera-filter/src/character_filter/japanese_iteration_mark.rs
@@ -6,7 +6,7 @@ use serde_json::Value;
 use lindera_core::error::LinderaErrorKind;
 use lindera_core::LinderaResult;
 
-use crate::character_filter::CharacterFilter;
+use crate::character_filter::{add_offset_diff, CharacterFilter};
 
 pub const JAPANESE_ITERATION_MARK_CHARACTER_FILTER_NAME: &str = "japanese_iteration_mark";
 
@@ -147,6 +147,44 @@ impl JapaneseIterationMarkCharacterFilter {
 
         normalized_str
     }
+
+    /// Report the difference in length between each iteration mark and its replacement.
+    fn correct(
+        &self,
+        iter_marks: &BTreeMap<usize, &char>,
+        normalized: &str,
+        mut input_start: usize,
+        offsets: &mut Vec<usize>,
+        diffs: &mut Vec<i64>,
+    ) {
+        for (iter_mark, replacement) in iter_marks.values().zip(normalized.chars()) {
+            let input_len = iter_mark.len_utf8();
+            let replacement_len = replacement.len_utf8();
+            let diff_len = input_len as i64 - replacement_len as i64;
+            let input_offset = input_start + input_len;
+
+            if diff_len != 0 {
+                let prev_diff = *diffs.last().unwrap_or(&0);
+
+                if diff_len > 0 {
+                    // Replacement is shorter than the iteration mark.
+                    let offset = (input_offset as i64 - diff_len - prev_diff) as usize;
+                    let diff = prev_diff + diff_len;
+                    add_offset_diff(offsets, diffs, offset, diff);
+                } else {
+                    // Replacement is longer than the iteration mark.
+                    let output_offset = (input_offset as i64 + -prev_diff) as usize;
+                    for extra_idx in 0..diff_len.unsigned_abs() as usize {
+                        let offset = output_offset + extra_idx;
+                        let diff = prev_diff - extra_idx as i64 - 1;
+                        add_offset_diff(offsets, diffs, offset, diff);
+                    }
+                }
+            }
+
+            input_start += input_len;
+        }
+    }
 }
 
 impl CharacterFilter for JapaneseIterationMarkCharacterFilter {
@@ -155,8 +193,13 @@ impl CharacterFilter for JapaneseIterationMarkCharacterFilter {
     }
 
     fn apply(&self, text: &str) -> LinderaResult<(String, Vec<usize>, Vec<i64>)> {
+        let mut offsets: Vec<usize> = Vec::new();
+        let mut diffs: Vec<i64> = Vec::new();
+
         let mut filterd_text = String::with_capacity(text.len());
 
+        // byte offset of the first pending iteration mark, or else of the current character
+        let mut input_start = 0_usize;
         let text_chars = text.chars().collect::<Vec<char>>();
         let mut iter_marks = BTreeMap::new();
         for (i, c) in text_chars.iter().enumerate() {
@@ -174,19 +217,37 @@ impl CharacterFilter for JapaneseIterationMarkCharacterFilter {
                 }
                 _ => {
                     if !iter_marks.is_empty() {
-                        filterd_text.push_str(&self.normalize(&iter_marks, &text_chars));
+                        let normalized = self.normalize(&iter_marks, &text_chars);
+                        self.correct(
+                            &iter_marks,
+                            &normalized,
+                            input_start,
+                            &mut offsets,
+                            &mut diffs,
+                        );
+                        filterd_text.push_str(&normalized);
+                        input_start += iter_marks.values().map(|c| c.len_utf8()).sum::<usize>();
                         iter_marks.clear();
                     }
                     filterd_text.push(*c);
+                    input_start += c.len_utf8();
                 }
             }
         }
 
         if !iter_marks.is_empty() {
-            filterd_text.push_str(&self.normalize(&iter_marks, &text_chars));
+            let normalized = self.normalize(&iter_marks, &text_chars);
+            self.correct(
+                &iter_marks,
+                &normalized,
+                input_start,
+                &mut offsets,
+                &mut diffs,
+            );
+            filterd_text.push_str(&normalized);
         }
 
-        Ok((filterd_text, Vec::new(), Vec::new()))
+        Ok((filterd_text, offsets, diffs))
     }
 }
 
-- 
2.43.0


From ad6498c4abb3316e0253c69b97a74f8158ab74ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:18 +0000
Subject: [PATCH 15/22] fix: reject number filter tags that are not an array

A "tags" setting of another type was silently ignored, which made the filter
apply to all tokens.
---
 lindera-filter/src/token_filter/japanese_number.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lindera-filter/src/token_filter/japanese_number.rs b/lindera-filter/src/token_filter/japanese_number.rs
index 446fe40..97f8374 100644
--- a/lindera-filter/src/token_filter/japanese_number.rs
+++ b/lindera-filter/src/token_filter/japanese_number.rs
@@ -52,7 +52,7 @@ impl JapaneseNumberTokenFilterConfig {
 
     pub fn from_value(value: &serde_json::Value) -> LinderaResult<Self> {
         let tags = if let Some(t) = value.get("tags") {
-            if t.is_array() {
+            if !t.is_null() {
                 Some(
                     t.as_array()
                         .ok_or_else(|| {
-- 
2.43.0


From b6f5c69fd35f2c8c72c1219e1b05c0fb607b19b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 16/22] fix: reject lexicons the double array cannot hold

---
 lindera-dictionary-builder/src/dict.rs      | 11 +++++++++++
 lindera-dictionary-builder/src/user_dict.rs | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/lindera-dictionary-builder/src/dict.rs b/lindera-dictionary-builder/src/dict.rs
index 06d2d51..17c17e2 100644
--- a/lindera-dictionary-builder/src/dict.rs
+++ b/lindera-dictionary-builder/src/dict.rs
@@ -232,6 +232,11 @@ impl DictBuilder {
 
         let mut keyset: Vec<(&[u8], u32)> = vec![];
         for (key, word_entries) in &word_entry_map {
+            // The double array uses NUL to mark the end of a key.
+            if key.contains('\0') {
+                return Err(LinderaErrorKind::Content
+                    .with_error(anyhow::anyhow!("NUL in the surface {:?}", key)));
+            }
             // The number of entries is stored in 5 bits.
             if word_entries.len() >= 1 << 5 {
                 return Err(LinderaErrorKind::Content.with_error(anyhow::anyhow!(
@@ -246,6 +251,12 @@ impl DictBuilder {
             id += len;
         }
 
+        // A double array cannot be built without any key.
+        if keyset.is_empty() {
+            return Err(LinderaErrorKind::Content
+                .with_error(anyhow::anyhow!("the dictionary has no entries")));
+        }
+
         let da_bytes = DoubleArrayBuilder::build(&keyset).ok_or_else(|| {
             LinderaErrorKind::Io.with_error(anyhow::anyhow!("DoubleArray build error."))
         })?;
diff --git a/lindera-dictionary-builder/src/user_dict.rs b/lindera-dictionary-builder/src/user_dict.rs
index 0fa8153..b9cf24e 100644
--- a/lindera-dictionary-builder/src/user_dict.rs
+++ b/lindera-dictionary-builder/src/user_dict.rs
@@ -135,6 +135,11 @@ impl UserDictBuilder {
         // building double array trie
         let mut keyset: Vec<(&[u8], u32)> = vec![];
         for (key, word_entries) in &word_entry_map {
+            // The double array uses NUL to mark the end of a key.
+            if key.contains('\0') {
+                return Err(LinderaErrorKind::Content
+                    .with_error(anyhow::anyhow!("NUL in the surface {:?}", key)));
+            }
             // The number of entries is stored in 5 bits.
             if word_entries.len() >= 1 << 5 {
                 return Err(LinderaErrorKind::Content.with_error(anyhow::anyhow!(
@@ -148,6 +153,12 @@ impl UserDictBuilder {
             keyset.push((key.as_bytes(), val));
             id += len;
         }
+        // A double array cannot be built without any key.
+        if keyset.is_empty() {
+            return Err(LinderaErrorKind::Content
+                .with_error(anyhow::anyhow!("the user dictionary has no entries")));
+        }
+
         let da_bytes = DoubleArrayBuilder::build(&keyset).ok_or_else(|| {
             LinderaErrorKind::Io.with_error(anyhow::anyhow!("DoubleArray build error."))
         })?;
-- 
2.43.0


From e36c1b3d8100da3e6d316a392005e64076d72455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 17/22] fix: reject mappings the double array cannot hold

---
 lindera-filter/src/character_filter/mapping.rs | 10 ++++++++++
 lindera-filter/src/token_filter/mapping.rs     | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/lindera-filter/src/character_filter/mapping.rs b/lindera-filter/src/character_filter/mapping.rs
index d76f063..a59855d 100644
--- a/lindera-filter/src/character_filter/mapping.rs
+++ b/lindera-filter/src/character_filter/mapping.rs
@@ -50,9 +50,19 @@ impl MappingCharacterFilter {
         let mut keys = config.mapping.keys().collect::<Vec<_>>();
         keys.sort();
         for (value, key) in keys.into_iter().enumerate() {
+            // The double array uses NUL to mark the end of a key.
+            if key.contains('\0') {
+                return Err(LinderaErrorKind::Args
+                    .with_error(anyhow::anyhow!("NUL in the mapping key {:?}", key)));
+            }
             keyset.push((key.as_bytes(), value as u32));
         }
 
+        // A double array cannot be built without any key.
+        if keyset.is_empty() {
+            return Err(LinderaErrorKind::Args.with_error(anyhow::anyhow!("mapping is empty")));
+        }
+
         let data = DoubleArrayBuilder::build(&keyset).ok_or_else(|| {
             LinderaErrorKind::Io.with_error(anyhow::anyhow!("DoubleArray build error."))
         })?;
diff --git a/lindera-filter/src/token_filter/mapping.rs b/lindera-filter/src/token_filter/mapping.rs
index 8de2470..945597f 100644
--- a/lindera-filter/src/token_filter/mapping.rs
+++ b/lindera-filter/src/token_filter/mapping.rs
@@ -47,9 +47,19 @@ impl MappingTokenFilter {
         let mut keys = config.mapping.keys().collect::<Vec<_>>();
         keys.sort();
         for (value, key) in keys.into_iter().enumerate() {
+            // The double array uses NUL to mark the end of a key.
+            if key.contains('\0') {
+                return Err(LinderaErrorKind::Args
+                    .with_error(anyhow::anyhow!("NUL in the mapping key {:?}", key)));
+            }
             keyset.push((key.as_bytes(), value as u32));
         }
 
+        // A double array cannot be built without any key.
+        if keyset.is_empty() {
+            return Err(LinderaErrorKind::Args.with_error(anyhow::anyhow!("mapping is empty")));
+        }
+
         let data = DoubleArrayBuilder::build(&keyset).ok_or_else(|| {
             LinderaErrorKind::Io.with_error(anyhow::anyhow!("DoubleArray build error."))
         })?;
-- 
2.43.0


From 0bec2632ea190c263d9f67c69ed767de88e5ccdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 18/22] fix: find no keys across a NUL character

---
 lindera-core/src/prefix_dict.rs                | 6 ++++++
 lindera-filter/src/character_filter/mapping.rs | 2 ++
 lindera-filter/src/token_filter/mapping.rs     | 2 ++
 3 files changed, 10 insertions(+)

diff --git a/lindera-core/src/prefix_dict.rs b/lindera-core/src/prefix_dict.rs
index d077164..4e64d7e 100644
--- a/lindera-core/src/prefix_dict.rs
+++ b/lindera-core/src/prefix_dict.rs
@@ -36,6 +36,8 @@ impl<D: Deref<Target = [u8]>> PrefixDict<D> {
     pub fn prefix<'a>(&'a self, s: &'a str) -> impl Iterator<Item = (usize, WordEntry)> + 'a {
         self.da
             .common_prefix_search(s)
+            // No key contains NUL, but a search across one can end up at an unrelated key.
+            .filter(|&(_offset_len, prefix_len)| !s.as_bytes()[..prefix_len].contains(&0))
             .flat_map(move |(offset_len, prefix_len)| {
                 let len = offset_len & ((1u32 << 5) - 1u32);
                 let offset = offset_len >> 5u32;
@@ -55,6 +57,10 @@ impl<D: Deref<Target = [u8]>> PrefixDict<D> {
 
     /// Find `WordEntry`s with surface
     pub fn find_surface(&self, surface: &str) -> Vec<WordEntry> {
+        if surface.contains('\0') {
+            return vec![];
+        }
+
         match self.da.exact_match_search(surface) {
             Some(offset_len) => {
                 let offset = offset_len >> 5u32;
diff --git a/lindera-filter/src/character_filter/mapping.rs b/lindera-filter/src/character_filter/mapping.rs
index a59855d..55c50f1 100644
--- a/lindera-filter/src/character_filter/mapping.rs
+++ b/lindera-filter/src/character_filter/mapping.rs
@@ -95,6 +95,8 @@ impl CharacterFilter for MappingCharacterFilter {
             match self
                 .trie
                 .common_prefix_search(suffix.as_bytes())
+                // No key contains NUL, but a search across one can end up at an unrelated key.
+                .filter(|&(_, prefix_len)| !suffix.as_bytes()[..prefix_len].contains(&0))
                 .last()
                 .map(|(_offset_len, prefix_len)| prefix_len)
             {
diff --git a/lindera-filter/src/token_filter/mapping.rs b/lindera-filter/src/token_filter/mapping.rs
index 945597f..8e57d88 100644
--- a/lindera-filter/src/token_filter/mapping.rs
+++ b/lindera-filter/src/token_filter/mapping.rs
@@ -90,6 +90,8 @@ impl TokenFilter for MappingTokenFilter {
                 match self
                     .trie
                     .common_prefix_search(suffix.as_bytes())
+                    // No key contains NUL, but a search across one can end up at an unrelated key.
+                    .filter(|&(_, prefix_len)| !suffix.as_bytes()[..prefix_len].contains(&0))
                     .last()
                     .map(|(_offset_len, prefix_len)| prefix_len)
                 {
-- 
2.43.0


From be2388d888e74677dec40fcd8a4a4cbe6953e670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:17 +0000
Subject: [PATCH 19/22] fix: japanese_number panicked on text behind a numeral
 and on numbers out of order

---
 lindera-filter/src/token_filter/japanese_number.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lindera-filter/src/token_filter/japanese_number.rs b/lindera-filter/src/token_filter/japanese_number.rs
index 97f8374..fc3b8d9 100644
--- a/lindera-filter/src/token_filter/japanese_number.rs
+++ b/lindera-filter/src/token_filter/japanese_number.rs
@@ -137,7 +137,7 @@ impl TokenFilter for JapaneseNumberTokenFilter {
 
 fn adjust_digits(num: &str, base: &str, digit: &str) -> String {
     let zero_str = format!("{}{}", base, digit);
-    let zero_len = zero_str.len() - num.len();
+    let zero_len = zero_str.len().saturating_sub(num.len());
     let zeros = &zero_str[0..zero_len];
 
     let mut num_str = num.to_owned();
@@ -148,6 +148,8 @@ fn adjust_digits(num: &str, base: &str, digit: &str) -> String {
 fn to_arabic_numerals(from_str: &str) -> String {
     let mut num_buf = String::new();
     let mut digit = String::new();
+    // Text behind the number, which must not be counted as its digits.
+    let mut rest = String::new();
 
     let from_chars = from_str.chars().rev().collect::<Vec<char>>();
 
@@ -284,13 +286,15 @@ fn to_arabic_numerals(from_str: &str) -> String {
                 }
             }
             _ => {
-                num_buf.insert(0, *c);
+                rest.insert_str(0, &num_buf);
+                rest.insert(0, *c);
+                num_buf.clear();
                 digit.clear();
             }
         }
     }
 
-    num_buf
+    num_buf + &rest
 }
 
 #[cfg(test)]
-- 
2.43.0


From 15fe76258efc7d2da70024478d0f2a8aa5f79c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:17 +0000
Subject: [PATCH 20/22] fix: japanese_katakana_stem panicked on characters
 outside all Unicode blocks

---
 lindera-filter/src/token_filter/japanese_katakana_stem.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lindera-filter/src/token_filter/japanese_katakana_stem.rs b/lindera-filter/src/token_filter/japanese_katakana_stem.rs
index 63e44f0..f30b057 100644
--- a/lindera-filter/src/token_filter/japanese_katakana_stem.rs
+++ b/lindera-filter/src/token_filter/japanese_katakana_stem.rs
@@ -91,8 +91,8 @@ impl TokenFilter for JapaneseKatakanaStemTokenFilter {
 
 fn is_katakana(text: &str) -> bool {
     for ch in text.chars() {
-        let block = unicode_blocks::find_unicode_block(ch).unwrap();
-        if block != unicode_blocks::KATAKANA {
+        // A character may belong to no block.
+        if unicode_blocks::find_unicode_block(ch) != Some(unicode_blocks::KATAKANA) {
             return false;
         }
     }
-- 
2.43.0


From b854e21c27653e5144145d24f1d0ff2b99a584f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:23 +0000
Subject: [PATCH 21/22] fix: token filters panicked on tokens with fewer
 details than expected

---
 .../src/token_filter/japanese_base_form.rs         | 14 ++++++++++----
 .../src/token_filter/japanese_compound_word.rs     |  2 +-
 .../src/token_filter/japanese_keep_tags.rs         |  2 +-
 lindera-filter/src/token_filter/japanese_number.rs |  2 +-
 .../src/token_filter/japanese_reading_form.rs      | 14 ++++++++++----
 .../src/token_filter/japanese_stop_tags.rs         |  2 +-
 .../src/token_filter/korean_keep_tags.rs           |  7 ++++++-
 .../src/token_filter/korean_reading_form.rs        |  6 ++++--
 .../src/token_filter/korean_stop_tags.rs           |  7 ++++++-
 9 files changed, 40 insertions(+), 16 deletions(-)

diff --git a/lindera-filter/src/token_filter/japanese_base_form.rs b/lindera-filter/src/token_filter/japanese_base_form.rs
index baf713f..3a49389 100644
--- a/lindera-filter/src/token_filter/japanese_base_form.rs
+++ b/lindera-filter/src/token_filter/japanese_base_form.rs
@@ -58,22 +58,28 @@ impl TokenFilter for JapaneseBaseFormTokenFilter {
 
     fn apply<'a>(&self, tokens: &mut Vec<Token>) -> LinderaResult<()> {
         for token in tokens.iter_mut() {
-            if token.details[0] == "UNK" {
+            if token.details.first().map(String::as_str) == Some("UNK") {
                 // NOOP
                 continue;
             }
             match self.config.kind {
                 #[cfg(feature = "ipadic")]
                 DictionaryKind::IPADIC => {
-                    token.text = token.details[6].to_string();
+                    if let Some(detail) = token.details.get(6) {
+                        token.text = detail.to_string();
+                    }
                 }
                 #[cfg(feature = "ipadic-neologd")]
                 DictionaryKind::IPADICNEologd => {
-                    token.text = token.details[6].to_string();
+                    if let Some(detail) = token.details.get(6) {
+                        token.text = detail.to_string();
+                    }
                 }
                 #[cfg(feature = "unidic")]
                 DictionaryKind::UniDic => {
-                    token.text = token.details[10].to_string();
+                    if let Some(detail) = token.details.get(10) {
+                        token.text = detail.to_string();
+                    }
                 }
                 _ => {
                     // NOOP
diff --git a/lindera-filter/src/token_filter/japanese_compound_word.rs b/lindera-filter/src/token_filter/japanese_compound_word.rs
index b203665..f426ada 100644
--- a/lindera-filter/src/token_filter/japanese_compound_word.rs
+++ b/lindera-filter/src/token_filter/japanese_compound_word.rs
@@ -142,7 +142,7 @@ impl TokenFilter for JapaneseCompoundWordTokenFilter {
         for token in tokens.iter_mut() {
             let mut formatted_tags = ["*", "*", "*", "*"];
             let tags_len = if token.details.len() >= 4 { 4 } else { 1 };
-            for (i, j) in token.details[0..tags_len].iter().enumerate() {
+            for (i, j) in token.details.iter().take(tags_len).enumerate() {
                 formatted_tags[i] = j;
             }
 
diff --git a/lindera-filter/src/token_filter/japanese_keep_tags.rs b/lindera-filter/src/token_filter/japanese_keep_tags.rs
index 9f4aa5d..f5fc0c9 100644
--- a/lindera-filter/src/token_filter/japanese_keep_tags.rs
+++ b/lindera-filter/src/token_filter/japanese_keep_tags.rs
@@ -97,7 +97,7 @@ impl TokenFilter for JapaneseKeepTagsTokenFilter {
         tokens.retain(|token| {
             let mut formatted_tags = ["*", "*", "*", "*"];
             let tags_len = if token.details.len() >= 4 { 4 } else { 1 };
-            for (i, j) in token.details[0..tags_len].iter().enumerate() {
+            for (i, j) in token.details.iter().take(tags_len).enumerate() {
                 formatted_tags[i] = j;
             }
             self.config.tags.contains(&formatted_tags.join(","))
diff --git a/lindera-filter/src/token_filter/japanese_number.rs b/lindera-filter/src/token_filter/japanese_number.rs
index fc3b8d9..af6ed08 100644
--- a/lindera-filter/src/token_filter/japanese_number.rs
+++ b/lindera-filter/src/token_filter/japanese_number.rs
@@ -113,7 +113,7 @@ impl TokenFilter for JapaneseNumberTokenFilter {
         for token in tokens.iter_mut() {
             let mut tag_vec = ["*", "*", "*", "*"];
             let tags_len = if token.details.len() >= 4 { 4 } else { 1 };
-            for (i, j) in token.details[0..tags_len].iter().enumerate() {
+            for (i, j) in token.details.iter().take(tags_len).enumerate() {
                 tag_vec[i] = j;
             }
             let tag = tag_vec.join(",");
diff --git a/lindera-filter/src/token_filter/japanese_reading_form.rs b/lindera-filter/src/token_filter/japanese_reading_form.rs
index 03fab89..a9ef9df 100644
--- a/lindera-filter/src/token_filter/japanese_reading_form.rs
+++ b/lindera-filter/src/token_filter/japanese_reading_form.rs
@@ -57,22 +57,28 @@ impl TokenFilter for JapaneseReadingFormTokenFilter {
 
     fn apply<'a>(&self, tokens: &mut Vec<Token>) -> LinderaResult<()> {
         for token in tokens.iter_mut() {
-            if token.details[0] == "UNK" {
+            if token.details.first().map(String::as_str) == Some("UNK") {
                 // NOOP
                 continue;
             }
             match self.config.kind {
                 #[cfg(feature = "ipadic")]
                 DictionaryKind::IPADIC => {
-                    token.text = token.details[7].to_string();
+                    if let Some(detail) = token.details.get(7) {
+                        token.text = detail.to_string();
+                    }
                 }
                 #[cfg(feature = "ipadic-neologd")]
                 DictionaryKind::IPADICNEologd => {
-                    token.text = token.details[7].to_string();
+                    if let Some(detail) = token.details.get(7) {
+                        token.text = detail.to_string();
+                    }
                 }
                 #[cfg(feature = "unidic")]
                 DictionaryKind::UniDic => {
-                    token.text = token.details[6].to_string();
+                    if let Some(detail) = token.details.get(6) {
+                        token.text = detail.to_string();
+                    }
                 }
                 _ => {
                     // NOOP
diff --git a/lindera-filter/src/token_filter/japanese_stop_tags.rs b/lindera-filter/src/token_filter/japanese_stop_tags.rs
index 57f5c9e..f2018c0 100644
--- a/lindera-filter/src/token_filter/japanese_stop_tags.rs
+++ b/lindera-filter/src/token_filter/japanese_stop_tags.rs
@@ -97,7 +97,7 @@ impl TokenFilter for JapaneseStopTagsTokenFilter {
         tokens.retain(|token| {
             let mut formatted_tags = ["*", "*", "*", "*"];
             let tags_len = if token.details.len() >= 4 { 4 } else { 1 };
-            for (i, j) in token.details[0..tags_len].iter().enumerate() {
+            for (i, j) in token.details.iter().take(tags_len).enumerate() {
                 formatted_tags[i] = j;
             }
             !self.config.tags.contains(&formatted_tags.join(","))
diff --git a/lindera-filter/src/token_filter/korean_keep_tags.rs b/lindera-filter/src/token_filter/korean_keep_tags.rs
index 2262289..72911c8 100644
--- a/lindera-filter/src/token_filter/korean_keep_tags.rs
+++ b/lindera-filter/src/token_filter/korean_keep_tags.rs
@@ -56,7 +56,12 @@ impl TokenFilter for KoreanKeepTagsTokenFilter {
     }
 
     fn apply<'a>(&self, tokens: &mut Vec<Token>) -> LinderaResult<()> {
-        tokens.retain(|token| self.config.tags.contains(&token.details[0]));
+        tokens.retain(|token| {
+            token
+                .details
+                .first()
+                .is_some_and(|tag| self.config.tags.contains(tag))
+        });
 
         Ok(())
     }
diff --git a/lindera-filter/src/token_filter/korean_reading_form.rs b/lindera-filter/src/token_filter/korean_reading_form.rs
index fb8df2a..fcdd576 100644
--- a/lindera-filter/src/token_filter/korean_reading_form.rs
+++ b/lindera-filter/src/token_filter/korean_reading_form.rs
@@ -29,8 +29,10 @@ impl TokenFilter for KoreanReadingFormTokenFilter {
 
     fn apply<'a>(&self, tokens: &mut Vec<Token>) -> LinderaResult<()> {
         for token in tokens.iter_mut() {
-            if token.details[0] != "UNK" {
-                token.text = token.details[3].to_string();
+            if token.details.first().map(String::as_str) != Some("UNK") {
+                if let Some(detail) = token.details.get(3) {
+                    token.text = detail.to_string();
+                }
             }
         }
 
diff --git a/lindera-filter/src/token_filter/korean_stop_tags.rs b/lindera-filter/src/token_filter/korean_stop_tags.rs
index 1170a5a..a939db9 100644
--- a/lindera-filter/src/token_filter/korean_stop_tags.rs
+++ b/lindera-filter/src/token_filter/korean_stop_tags.rs
@@ -56,7 +56,12 @@ impl TokenFilter for KoreanStopTagsTokenFilter {
     }
 
     fn apply<'a>(&self, tokens: &mut Vec<Token>) -> LinderaResult<()> {
-        tokens.retain(|token| !self.config.tags.contains(&token.details[0]));
+        tokens.retain(|token| {
+            !token
+                .details
+                .first()
+                .is_some_and(|tag| self.config.tags.contains(tag))
+        });
 
         Ok(())
     }
-- 
2.43.0


From 1a86b332494149d21424a3b10673ea088ad31e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:55 +0000
Subject: [PATCH 22/22] fix: read the lexicon of a directory whose name has
 pattern characters

---
 lindera-dictionary-builder/src/dict.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lindera-dictionary-builder/src/dict.rs b/lindera-dictionary-builder/src/dict.rs
index 17c17e2..b4d6cb9 100644
--- a/lindera-dictionary-builder/src/dict.rs
+++ b/lindera-dictionary-builder/src/dict.rs
@@ -12,7 +12,7 @@ use csv::StringRecord;
 use derive_builder::Builder;
 use encoding_rs::{Encoding, UTF_8};
 use encoding_rs_io::DecodeReaderBytesBuilder;
-use glob::glob;
+use glob::{glob, Pattern};
 use log::{debug, warn};
 use yada::builder::DoubleArrayBuilder;
 
@@ -43,7 +43,8 @@ pub struct DictBuilder {
 impl DictBuilder {
     pub fn build(&self, input_dir: &Path, output_dir: &Path) -> LinderaResult<()> {
         let pattern = if let Some(path) = input_dir.to_str() {
-            format!("{}/*.csv", path)
+            // The path itself is not a pattern.
+            format!("{}/*.csv", Pattern::escape(path))
         } else {
             return Err(
                 LinderaErrorKind::Io.with_error(anyhow::anyhow!("Failed to convert path to &str."))
-- 
2.43.0

