From 23b098bcd6c3ef748a7279df31b3e2dbd1e0c9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:27 +0000
Subject: [PATCH 01/28] fix: nested values must be indented deeper than the key
 or dash they belong to

`a:\nb: 1` was read as b nested in a, a scalar on the line below its key kept its
indentation and quotes, and `- - j` / `a: &x` swallowed less indented lines.
---
 src/yaml.pest | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index aa93289..11c387a 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -57,25 +57,33 @@ inline_value = { (anchor | inline_array | inline_hash | string ) }
 inline_array_value = { (anchor | inline_array | inline_hash | inline_array_string ) }
 
 inline_array = { "[" ~ (spaces ~ inline_array_value ~ (spaces ~ "," ~ spaces ~ inline_array_value)*)? ~ spaces ~ "]" }
-block_array_element = { "-" ~ SPACE_SEPARATOR+ ~ block_array_aliased_yaml_value }
+block_array_element = { "-" ~ (SPACE_SEPARATOR+ | &NEWLINE) ~ !unnested_value ~ block_array_aliased_yaml_value }
 first_block_array_element = { block_array_element ~ comment? }
 block_array_data = { commentnls ~ PEEK ~ block_array_element ~ comment? }
-block_array = { commentnls ~ blank ~ PUSH(SPACE_SEPARATOR*) ~ first_block_array_element ~ SPACE_SEPARATOR* ~ (blank ~ block_array_data)* ~ DROP ~ commentnls }
+block_array = { blanknl? ~ commentnls ~ blank ~ PUSH(SPACE_SEPARATOR*) ~ first_block_array_element ~ SPACE_SEPARATOR* ~ (blank ~ block_array_data)* ~ DROP ~ commentnls }
 array = { inline_array | block_array }
 alternative_array = { first_block_array_element ~ blanknl ~ PUSH(SPACE_SEPARATOR*) ~ first_block_array_element ~ SPACE_SEPARATOR* ~ (blanknl ~ block_array_data)* ~ DROP ~ commentnls }
 
 block_array_aliased_yaml_value = { alternative_aliased_yaml_value | aliased_yaml_value }
-alternative_aliased_yaml_value = { (alias ~ spaces)? ~  (alternative_hash | alternative_array) }
+alternative_aliased_yaml_value = { (alias ~ SPACE_SEPARATOR*)? ~  (alternative_hash | alternative_array) }
 
-yaml_value= { hash | array | string_multiline_literal | string_multiline_folded | inline_value }
+// A value on the lines below its key or dash: only if it is indented deeper (or, for the
+// sequence of a key, at least as deep) as the container it belongs to.
+next_line = _{ (blanknl | commentnl) ~ commentnls }
+nested_hash = _{ &(next_line ~ PEEK ~ SPACE_SEPARATOR) ~ hash }
+nested_array = _{ &("[" | next_line ~ PEEK) ~ array }
+nested_inline_value = _{ (blanknl ~ PEEK ~ SPACE_SEPARATOR+)? ~ inline_value }
+unnested_value = _{ (alias ~ SPACE_SEPARATOR*)? ~ next_line ~ !(PEEK ~ SPACE_SEPARATOR) }
+
+yaml_value= { nested_hash | nested_array | string_multiline_literal | string_multiline_folded | nested_inline_value }
 aliased_yaml_value = { (alias ~ SPACE_SEPARATOR*)? ~ yaml_value }
-hash_element = { hash_key ~ ":" ~ (SPACE_SEPARATOR+ | blanknl) ~ block_array_aliased_yaml_value}
+hash_element = { hash_key ~ ":" ~ (SPACE_SEPARATOR+ | &NEWLINE) ~ block_array_aliased_yaml_value}
 first_hash_element = { hash_element ~ comment? }
 hash_element_data = { blanknl ~ commentnls ~ PEEK ~ hash_element ~ comment? }
-hash = { NEWLINE? ~ commentnls ~ blank ~ PUSH(SPACE_SEPARATOR*) ~ first_hash_element  ~ (hash_element_data)* ~ DROP ~ commentnls }
+hash = { blanknl? ~ commentnls ~ blank ~ PUSH(SPACE_SEPARATOR*) ~ first_hash_element  ~ (hash_element_data)* ~ DROP ~ commentnls }
 
 alternative_hash_continuation = { blanknl ~ commentnls ~ &(PEEK ~ SPACE_SEPARATOR+) ~ PUSH(SPACE_SEPARATOR*) ~ first_hash_element ~ (hash_element_data)* ~ DROP }
-alternative_hash = { first_hash_element ~ alternative_hash_continuation? ~ commentnls }
+alternative_hash = { !(hash_key ~ ":" ~ SPACE_SEPARATOR* ~ unnested_value) ~ first_hash_element ~ alternative_hash_continuation? ~ commentnls }
 
 
 inline_hash_element = { hash_key ~ spaces ~ ":" ~ spaces ~ inline_array_value }
-- 
2.43.0


From abc91bd30d4fa7b12ac8f314da690e83073efdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:24 +0000
Subject: [PATCH 02/28] fix: a sequence after a dash ends with its own elements

`- - j\n- k` was read as [[j, k]], deeper chains of dashes took exponential time, and elements
under another dash were put in the wrong sequence.
---
 src/yaml.pest      |  7 ++++---
 src/yaml/parser.rs | 40 +++++++++++++++++++++++++++++++++++++---
 2 files changed, 41 insertions(+), 6 deletions(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index 11c387a..302e959 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -14,7 +14,7 @@ disallowed_unquoted_inline_string_elements = { "," | "[" | "]" | "{" | "}" | ":
 unquoted_inline_string_elements = { !(disallowed_unquoted_inline_string_elements) ~ ANY } 
 unquoted_inline_string_start_elements = { !(disallowed_unquoted_inline_string_start_elements) ~ ANY } 
 unquoted_inline_string = @{ unquoted_inline_string_start_elements ~ unquoted_inline_string_elements* }
-disallowed_unquoted_string_start_elements = { "[" | "]" | "{" | "}" | ": " | "\"" | "'" | "#" | ">" | "|" | NEWLINE }
+disallowed_unquoted_string_start_elements = { "- " | "[" | "]" | "{" | "}" | ": " | "\"" | "'" | "#" | ">" | "|" | NEWLINE }
 disallowed_unquoted_string_elements = { ": " | "#" |  NEWLINE }
 unquoted_string_elements = { !(disallowed_unquoted_string_elements) ~ ANY } 
 unquoted_string_start_elements = { !(disallowed_unquoted_string_start_elements) ~ ANY } 
@@ -60,9 +60,10 @@ inline_array = { "[" ~ (spaces ~ inline_array_value ~ (spaces ~ "," ~ spaces ~ i
 block_array_element = { "-" ~ (SPACE_SEPARATOR+ | &NEWLINE) ~ !unnested_value ~ block_array_aliased_yaml_value }
 first_block_array_element = { block_array_element ~ comment? }
 block_array_data = { commentnls ~ PEEK ~ block_array_element ~ comment? }
-block_array = { blanknl? ~ commentnls ~ blank ~ PUSH(SPACE_SEPARATOR*) ~ first_block_array_element ~ SPACE_SEPARATOR* ~ (blank ~ block_array_data)* ~ DROP ~ commentnls }
+block_array = { blanknl? ~ commentnls ~ blank ~ PUSH(SPACE_SEPARATOR*) ~ first_block_array_element ~ SPACE_SEPARATOR* ~ (blanknl ~ block_array_data)* ~ DROP ~ commentnls }
 array = { inline_array | block_array }
-alternative_array = { first_block_array_element ~ blanknl ~ PUSH(SPACE_SEPARATOR*) ~ first_block_array_element ~ SPACE_SEPARATOR* ~ (blanknl ~ block_array_data)* ~ DROP ~ commentnls }
+alternative_array_continuation = { blanknl ~ commentnls ~ &(PEEK ~ SPACE_SEPARATOR) ~ PUSH(SPACE_SEPARATOR*) ~ first_block_array_element ~ SPACE_SEPARATOR* ~ (blanknl ~ block_array_data)* ~ DROP }
+alternative_array = { first_block_array_element ~ SPACE_SEPARATOR* ~ alternative_array_continuation? ~ commentnls }
 
 block_array_aliased_yaml_value = { alternative_aliased_yaml_value | aliased_yaml_value }
 alternative_aliased_yaml_value = { (alias ~ SPACE_SEPARATOR*)? ~  (alternative_hash | alternative_array) }
diff --git a/src/yaml/parser.rs b/src/yaml/parser.rs
index 9e664d1..efc087d 100644
--- a/src/yaml/parser.rs
+++ b/src/yaml/parser.rs
@@ -480,13 +480,31 @@ impl YamlParser {
         ))
     }
 
+    fn alternative_array_continuation(input: Node) -> InternalYamlResult<Vec<ArrayData>> {
+        match_nodes!(input.into_children();
+            [commentnls(cs), first_block_array_element(element), block_array_data(elements)..] => Ok(
+                cs.into_iter().map(|c| ArrayData::Comment(c))
+                .chain(element.into_iter())
+                .chain(elements.into_iter().flatten())
+                .collect()
+            ),
+        )
+    }
+
     fn alternative_array(input: Node) -> InternalYamlResult<Yaml> {
+        check_alignment(&input)?;
         match_nodes!(input.into_children();
-        [first_block_array_element(element1),first_block_array_element(element2), block_array_data(elements).., commentnls(cs)] => Ok(
+        [first_block_array_element(element1), alternative_array_continuation(cont), commentnls(cs)] => Ok(
+            Yaml::Array(
+                element1.into_iter()
+                .chain(cont.into_iter())
+                .chain(cs.into_iter().map(|c| ArrayData::Comment(c)))
+                .collect()
+            )
+        ),
+        [first_block_array_element(element1), commentnls(cs)] => Ok(
             Yaml::Array(
                 element1.into_iter()
-                .chain(element2.into_iter())
-                .chain(elements.into_iter().flatten())
                 .chain(cs.into_iter().map(|c| ArrayData::Comment(c)))
                 .collect()
             )
@@ -544,6 +562,22 @@ pub fn parse_yaml_file(input_str: &str) -> YamlResult<Document> {
     YamlParser::yaml(input).map_err(|e| e.into())
 }
 
+/// The elements of a sequence that starts on the line of its key or dash must all have their dash
+/// below the first one: otherwise they belong to another sequence.
+fn check_alignment(sequence: &Node) -> InternalYamlResult<()> {
+    let column = |n: &Node| n.as_pair().line_col().1;
+    for child in sequence.children() {
+        for element in child.children() {
+            if element.as_rule() == Rule::first_block_array_element
+                && column(&element) != column(sequence)
+            {
+                return Err(element.error("this element is not aligned with its sequence"));
+            }
+        }
+    }
+    Ok(())
+}
+
 fn count_whitespace_bytes_at_start(input: &str) -> usize {
     input
         .chars()
-- 
2.43.0


From 57b28d71e88049da78b1cf33de5de07fd1edfa1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:59 +0000
Subject: [PATCH 03/28] fix: block scalars keep exactly the lines and
 indentation of their content

Indicators 0 and above the integer range, and short blank lines, panicked; leading blank lines and
characters of under-indented lines were dropped, CRLF blank lines counted twice, and a block scalar
in the first entry of a list item swallowed the entries after it.
---
 src/yaml.pest      | 23 ++++++++----
 src/yaml/parser.rs | 91 +++++++++++++++++++++++++++-------------------
 2 files changed, 68 insertions(+), 46 deletions(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index 302e959..244777b 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -41,13 +41,20 @@ string = { unquoted_string | double_quoted_string | single_quoted_string }
 inline_array_string = { unquoted_inline_string | double_quoted_string | single_quoted_string }
 
 block_string = @{ (!NEWLINE ~ ANY)+ | "" }
-block_empty_lines = @{ NEWLINE* }
+block_leading_empty_lines = @{ (" "* ~ NEWLINE)* }
+block_leading_short_lines = @{ (!(PEEK ~ " ") ~ " "* ~ NEWLINE)* }
+block_empty_lines = @{ (!(PEEK[-2..]) ~ " "* ~ NEWLINE)* }
 string_multiline_content_part = { NEWLINE ~ block_empty_lines ~ PEEK[-2..] ~ block_string }
-string_multiline_trailing = @{ (NEWLINE ~ &NEWLINE)* }
-string_multiline_content = { blanknl ~ block_empty_lines ~ (PEEK ~ PUSH(" ") ~ block_string) ~ string_multiline_content_part* ~ string_multiline_trailing ~ DROP }
-string_multiline_indent = { (NUMBER+)* } 
-string_multiline_folded = { ">" ~ string_block_chomping? ~ string_multiline_indent ~ string_multiline_content }
-string_multiline_literal = { "|" ~ string_block_chomping? ~  string_multiline_indent  ~ string_multiline_content }
+string_multiline_trailing = @{ (NEWLINE ~ " "* ~ &NEWLINE)* }
+// Without an indicator, the first line that is not empty sets the indentation of the content.
+string_multiline_content = { SPACE_SEPARATOR* ~ NEWLINE ~ block_leading_empty_lines ~ (PEEK ~ PUSH(" "+) ~ !NEWLINE ~ &ANY ~ block_string) ~ string_multiline_content_part* ~ string_multiline_trailing ~ DROP }
+string_multiline_indented_content = { SPACE_SEPARATOR* ~ NEWLINE ~ block_leading_short_lines ~ (PEEK ~ PUSH(" ") ~ block_string) ~ string_multiline_content_part* ~ string_multiline_trailing ~ DROP }
+string_multiline_indent = { ASCII_NONZERO_DIGIT ~ ASCII_DIGIT* }
+// The indentation it is relative to is only known for an entry that starts its line.
+string_multiline_unknown_indent = _{ (alias ~ SPACE_SEPARATOR*)? ~ (">" | "|") ~ string_block_chomping? ~ string_multiline_indent }
+string_multiline_lines = { string_multiline_indent ~ string_multiline_indented_content | string_multiline_content }
+string_multiline_folded = { ">" ~ string_block_chomping? ~ string_multiline_lines }
+string_multiline_literal = { "|" ~ string_block_chomping? ~ string_multiline_lines }
 
 string_block_chomping = { "-" | "+" }
 
@@ -63,7 +70,7 @@ block_array_data = { commentnls ~ PEEK ~ block_array_element ~ comment? }
 block_array = { blanknl? ~ commentnls ~ blank ~ PUSH(SPACE_SEPARATOR*) ~ first_block_array_element ~ SPACE_SEPARATOR* ~ (blanknl ~ block_array_data)* ~ DROP ~ commentnls }
 array = { inline_array | block_array }
 alternative_array_continuation = { blanknl ~ commentnls ~ &(PEEK ~ SPACE_SEPARATOR) ~ PUSH(SPACE_SEPARATOR*) ~ first_block_array_element ~ SPACE_SEPARATOR* ~ (blanknl ~ block_array_data)* ~ DROP }
-alternative_array = { first_block_array_element ~ SPACE_SEPARATOR* ~ alternative_array_continuation? ~ commentnls }
+alternative_array = { !("-" ~ SPACE_SEPARATOR+ ~ string_multiline_unknown_indent) ~ first_block_array_element ~ SPACE_SEPARATOR* ~ alternative_array_continuation? ~ commentnls }
 
 block_array_aliased_yaml_value = { alternative_aliased_yaml_value | aliased_yaml_value }
 alternative_aliased_yaml_value = { (alias ~ SPACE_SEPARATOR*)? ~  (alternative_hash | alternative_array) }
@@ -84,7 +91,7 @@ hash_element_data = { blanknl ~ commentnls ~ PEEK ~ hash_element ~ comment? }
 hash = { blanknl? ~ commentnls ~ blank ~ PUSH(SPACE_SEPARATOR*) ~ first_hash_element  ~ (hash_element_data)* ~ DROP ~ commentnls }
 
 alternative_hash_continuation = { blanknl ~ commentnls ~ &(PEEK ~ SPACE_SEPARATOR+) ~ PUSH(SPACE_SEPARATOR*) ~ first_hash_element ~ (hash_element_data)* ~ DROP }
-alternative_hash = { !(hash_key ~ ":" ~ SPACE_SEPARATOR* ~ unnested_value) ~ first_hash_element ~ alternative_hash_continuation? ~ commentnls }
+alternative_hash = { !(hash_key ~ ":" ~ SPACE_SEPARATOR* ~ (unnested_value | string_multiline_unknown_indent)) ~ first_hash_element ~ alternative_hash_continuation? ~ commentnls }
 
 
 inline_hash_element = { hash_key ~ spaces ~ ":" ~ spaces ~ inline_array_value }
diff --git a/src/yaml/parser.rs b/src/yaml/parser.rs
index efc087d..429ee4c 100644
--- a/src/yaml/parser.rs
+++ b/src/yaml/parser.rs
@@ -233,11 +233,16 @@ impl YamlParser {
         Ok(input.as_str().to_string())
     }
 
+    fn block_leading_empty_lines(input: Node) -> InternalYamlResult<Vec<String>> {
+        Ok(empty_lines(input.as_str()))
+    }
+
+    fn block_leading_short_lines(input: Node) -> InternalYamlResult<Vec<String>> {
+        Ok(empty_lines(input.as_str()))
+    }
+
     fn block_empty_lines(input: Node) -> InternalYamlResult<Vec<String>> {
-        Ok((0..input.as_str().len())
-            .into_iter()
-            .map(|_| "".to_string())
-            .collect())
+        Ok(empty_lines(input.as_str()))
     }
 
     fn string_block_chomping(input: Node) -> InternalYamlResult<BlockChomping> {
@@ -248,13 +253,9 @@ impl YamlParser {
         })
     }
 
-    fn string_multiline_indent(input: Node) -> InternalYamlResult<Option<usize>> {
-        Ok(if input.as_str().is_empty() {
-            None
-        } else {
-            let given: usize = input.as_str().parse().unwrap();
-            Some(given - 1)
-        })
+    fn string_multiline_indent(input: Node) -> InternalYamlResult<usize> {
+        let given: usize = input.as_str().parse().map_err(|e| input.error(e))?;
+        Ok(given - 1)
     }
 
     fn string_multiline_content_part(input: Node) -> InternalYamlResult<Vec<String>> {
@@ -265,12 +266,12 @@ impl YamlParser {
     }
 
     fn string_multiline_trailing(input: Node) -> InternalYamlResult<Vec<String>> {
-        Ok(input.as_str().chars().filter(|c| *c == '\n').map(|_| String::new()).collect())
+        Ok(empty_lines(input.as_str()))
     }
 
     fn string_multiline_content(input: Node) -> InternalYamlResult<Vec<String>> {
         match_nodes!(input.into_children();
-        [block_empty_lines(es), block_string(b), string_multiline_content_part(bs).., string_multiline_trailing(trailing)] => {
+        [block_leading_empty_lines(es), block_string(b), string_multiline_content_part(bs).., string_multiline_trailing(trailing)] => {
             Ok(es.into_iter()
                 .chain(std::iter::once(b))
                 .chain(bs.into_iter().flat_map(|x| x))
@@ -279,26 +280,36 @@ impl YamlParser {
         })
     }
 
-    fn string_multiline_folded(input: Node) -> InternalYamlResult<Yaml> {
+    fn string_multiline_indented_content(input: Node) -> InternalYamlResult<Vec<String>> {
         match_nodes!(input.into_children();
-        [string_multiline_indent(indent), string_multiline_content(cs)] => Ok(Yaml::FoldedString(
-            clean_multiline_strings(indent, cs), BlockChomping::Clip
-        )),
-        [string_block_chomping(chomp), string_multiline_indent(indent), string_multiline_content(cs)] => Ok(Yaml::FoldedString(
-            clean_multiline_strings(indent, cs), chomp
-        )))
+        [block_leading_short_lines(es), block_string(b), string_multiline_content_part(bs).., string_multiline_trailing(trailing)] => {
+            Ok(es.into_iter()
+                .chain(std::iter::once(b))
+                .chain(bs.into_iter().flat_map(|x| x))
+                .chain(trailing)
+                .collect())
+        })
+    }
+
+    fn string_multiline_lines(input: Node) -> InternalYamlResult<Vec<String>> {
+        match_nodes!(input.children();
+        [string_multiline_indent(indent), string_multiline_indented_content(cs)] => {
+            clean_multiline_strings(indent, cs)
+                .ok_or_else(|| input.error("a line is indented less than the indentation indicator says"))
+        },
+        [string_multiline_content(cs)] => Ok(cs))
+    }
 
-        // string_block_chomping
+    fn string_multiline_folded(input: Node) -> InternalYamlResult<Yaml> {
+        match_nodes!(input.into_children();
+        [string_multiline_lines(cs)] => Ok(Yaml::FoldedString(cs, BlockChomping::Clip)),
+        [string_block_chomping(chomp), string_multiline_lines(cs)] => Ok(Yaml::FoldedString(cs, chomp)))
     }
 
     fn string_multiline_literal(input: Node) -> InternalYamlResult<Yaml> {
         match_nodes!(input.into_children();
-        [string_multiline_indent(indent), string_multiline_content(cs)] => Ok(Yaml::LiteralString(
-            clean_multiline_strings(indent, cs), BlockChomping::Clip
-        )),
-        [string_block_chomping(chomp), string_multiline_indent(indent), string_multiline_content(cs)] => Ok(Yaml::LiteralString(
-            clean_multiline_strings(indent, cs), chomp
-        )))
+        [string_multiline_lines(cs)] => Ok(Yaml::LiteralString(cs, BlockChomping::Clip)),
+        [string_block_chomping(chomp), string_multiline_lines(cs)] => Ok(Yaml::LiteralString(cs, chomp)))
     }
 
     fn yaml_value(input: Node) -> InternalYamlResult<Yaml> {
@@ -578,24 +589,28 @@ fn check_alignment(sequence: &Node) -> InternalYamlResult<()> {
     Ok(())
 }
 
-fn count_whitespace_bytes_at_start(input: &str) -> usize {
-    input
+/// One empty line per line break.
+fn empty_lines(input: &str) -> Vec<String> {
+    let breaks = input.replace("\r\n", "\n");
+    breaks
         .chars()
-        .take_while(|ch| ch.is_whitespace() && *ch != '\n')
-        .map(|ch| ch.len_utf8())
-        .sum()
+        .filter(|c| matches!(c, '\n' | '\r'))
+        .map(|_| String::new())
+        .collect()
 }
 
-fn clean_multiline_strings(indent: Option<usize>, lines: Vec<String>) -> Vec<String> {
-    let indent = indent.unwrap_or_else(|| count_whitespace_bytes_at_start(&lines[0]));
-
+/// Removes the indentation; None if a line that is not blank has less of it.
+fn clean_multiline_strings(indent: usize, lines: Vec<String>) -> Option<Vec<String>> {
     lines
         .into_iter()
         .map(|x| {
-            if x.is_empty() {
-                x
+            let spaces = x.bytes().take_while(|b| *b == b' ').count();
+            if spaces >= indent {
+                Some(x[indent..].to_string())
+            } else if spaces == x.len() {
+                Some(String::new())
             } else {
-                x[indent..].to_string()
+                None
             }
         })
         .collect()
-- 
2.43.0


From 9ee442d7d52eed9aa3f53cea28956707a7fd2baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:40 +0000
Subject: [PATCH 04/28] fix: format a comment on its own line when it cannot
 follow on the last one

After a block scalar or nested collection, or when its entry was removed, an end-of-line comment
was written into the text of the scalar, glued to another comment, or after the document marker;
a mapping or sequence holding only comments lost its place.
---
 src/yaml/mod.rs | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index 9c27b94..25e344e 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -305,6 +305,16 @@ impl YamlInsert for Yaml {
 }
 
 impl Yaml {
+    /// Whether the text of this value ends on a line on which a comment can follow.
+    fn takes_inline_comment(&self) -> bool {
+        match self {
+            Yaml::Hash(v) => v.is_empty(),
+            Yaml::Array(v) => v.is_empty(),
+            Yaml::FoldedString(_, _) | Yaml::LiteralString(_, _) => false,
+            _ => true,
+        }
+    }
+
     pub fn format(
         &self,
         f: &mut String,
@@ -327,15 +337,20 @@ impl Yaml {
                 write!(f, "}}")
             }
             Yaml::Hash(v) => {
-                if v.is_empty() {
-                    return write!(f, " {{}}");
+                if !v.iter().any(|d| matches!(d, HashData::Element(_))) {
+                    write!(f, " {{}}")?;
                 }
                 for (idx, element) in v.iter().enumerate() {
                     match element {
                         HashData::Comment(c) => {
                             write!(f, "\n{}#{}", indent(spaces), c)
                         }
-                        HashData::InlineComment(c) => write!(f, " #{}", c),
+                        HashData::InlineComment(c) => match idx.checked_sub(1).map(|i| &v[i]) {
+                            Some(HashData::Element(e)) if e.value.value.takes_inline_comment() => {
+                                write!(f, " #{}", c)
+                            }
+                            _ => write!(f, "\n{}#{}", indent(spaces), c),
+                        },
                         HashData::Element(v) => {
                             let element = Some(Parent::Hash);
                             let same_line = match (element, parent) {
@@ -370,13 +385,18 @@ impl Yaml {
                 write!(f, "]")
             }
             Yaml::Array(v) => {
-                if v.is_empty() {
-                    return write!(f, " []");
+                if !v.iter().any(|d| matches!(d, ArrayData::Element(_))) {
+                    write!(f, " []")?;
                 }
                 for (idx, element) in v.iter().enumerate() {
                     match element {
                         ArrayData::Comment(c) => write!(f, "\n{}#{}", indent(spaces), c),
-                        ArrayData::InlineComment(c) => write!(f, " #{}", c),
+                        ArrayData::InlineComment(c) => match idx.checked_sub(1).map(|i| &v[i]) {
+                            Some(ArrayData::Element(e)) if e.value.takes_inline_comment() => {
+                                write!(f, " #{}", c)
+                            }
+                            _ => write!(f, "\n{}#{}", indent(spaces), c),
+                        },
                         ArrayData::Element(v) => {
                             let element = Some(Parent::Array);
                             let same_line = match (element, parent) {
-- 
2.43.0


From b2d54388d4a36ce5b7eaa976aab3d58e9bbe03a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:22 +0000
Subject: [PATCH 05/28] fix: format nested block scalars and sequences so that
 they parse back

The indentation indicator was missing when blank lines precede an indented first line and wrong in
the first entry of a list item, and [[[x], y]] was written with y under the inner dash.
---
 src/yaml/mod.rs | 43 ++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 40 insertions(+), 3 deletions(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index 25e344e..ca5befc 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -315,6 +315,30 @@ impl Yaml {
         }
     }
 
+    /// Whether this value may start on the line of its dash, so that the parser knows where it
+    /// ends: not when its first entry needs an indentation indicator, and not when it is a
+    /// sequence in a sequence that started on the line of its own dash and has more elements.
+    fn fits_after_dash(&self, before_more_elements: bool) -> bool {
+        let first = match self {
+            Yaml::Hash(v) => match v.first() {
+                Some(HashData::Element(e)) => &e.value.value,
+                _ => return true,
+            },
+            Yaml::Array(v) => match v.first() {
+                Some(ArrayData::Element(_)) if before_more_elements => return false,
+                Some(ArrayData::Element(e)) => &e.value,
+                _ => return true,
+            },
+            _ => return true,
+        };
+        match first {
+            Yaml::FoldedString(lines, _) | Yaml::LiteralString(lines, _) => {
+                !needs_indentation_indicator(lines)
+            }
+            _ => true,
+        }
+    }
+
     pub fn format(
         &self,
         f: &mut String,
@@ -388,6 +412,7 @@ impl Yaml {
                 if !v.iter().any(|d| matches!(d, ArrayData::Element(_))) {
                     write!(f, " []")?;
                 }
+                let elements = v.iter().filter(|d| matches!(d, ArrayData::Element(_))).count();
                 for (idx, element) in v.iter().enumerate() {
                     match element {
                         ArrayData::Comment(c) => write!(f, "\n{}#{}", indent(spaces), c),
@@ -411,7 +436,11 @@ impl Yaml {
                                 write!(f, "{}-", indent(spaces))?;
                             };
 
-                            v.format(f, spaces, element)
+                            if v.value.fits_after_dash(same_line && elements > 1) {
+                                v.format(f, spaces, element)
+                            } else {
+                                v.format(f, spaces, None)
+                            }
                         }
                     }?
                 }
@@ -469,7 +498,7 @@ impl Yaml {
                     if idx == 0 {
                         write!(f, " |")?;
                         chomping.write(f)?;
-                        if line.starts_with(" ") {
+                        if needs_indentation_indicator(lines) {
                             write!(f, "2")?;
                         }
                     }
@@ -482,7 +511,7 @@ impl Yaml {
                     if idx == 0 {
                         write!(f, " >")?;
                         chomping.write(f)?;
-                        if line.starts_with(" ") {
+                        if needs_indentation_indicator(lines) {
                             write!(f, "2")?;
                         }
                     }
@@ -495,6 +524,14 @@ impl Yaml {
     }
 }
 
+/// Whether the indentation of a block scalar cannot be derived from its first non-empty line.
+fn needs_indentation_indicator(lines: &[String]) -> bool {
+    lines
+        .iter()
+        .find(|line| !line.is_empty())
+        .map_or(true, |line| line.starts_with(' '))
+}
+
 pub trait Pretty {
     fn pretty_with_options(self, in_inline: bool, child_of_array: bool) -> Self;
     fn pretty(self) -> Self
-- 
2.43.0


From b163eb7036c4b51d084fd164c17a50a4e5603835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:57 +0000
Subject: [PATCH 06/28] fix: format flow collections so that they parse back

A flow collection at the root was written on the line of the document marker, and a plain scalar
ending in a colon at the end of a flow collection was turned into a key.
---
 src/yaml.pest        |  2 +-
 src/yaml/document.rs | 10 +++++++++-
 src/yaml/mod.rs      |  6 ++++--
 src/yaml/parser.rs   |  3 ++-
 4 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index 244777b..ff2b161 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -108,5 +108,5 @@ leading_comments = { (blanknl* ~ commentnl ~ blanknl*)* }
 blank = _{ SPACE_SEPARATOR* ~ NEWLINE ~ (SPACE_SEPARATOR* ~ NEWLINE)+ | (SPACE_SEPARATOR* ~ NEWLINE)? }
 blanknl = _{ SPACE_SEPARATOR* ~ NEWLINE ~ (SPACE_SEPARATOR* ~ NEWLINE)+ | SPACE_SEPARATOR* ~ NEWLINE }
 
-document = { hash | array }
+document = { hash | array | inline_hash }
 yaml = { SOI ~ leading_comments ~ "---" ~ blanknl ~ commentnls ~ document ~ blank ~ (comment ~ blank)* ~ spaces ~ EOI }
diff --git a/src/yaml/document.rs b/src/yaml/document.rs
index 2e6faea..dbffa41 100644
--- a/src/yaml/document.rs
+++ b/src/yaml/document.rs
@@ -82,7 +82,15 @@ impl Document {
         for item in self.items.iter() {
             match item {
                 DocumentData::Comment(c) => write!(&mut s, "\n#{}", c),
-                DocumentData::Yaml(y) => y.format(&mut s, 0, None),
+                DocumentData::Yaml(y) => {
+                    let mut formatted = String::new();
+                    y.format(&mut formatted, 0, None)?;
+                    // values that do not start on a new line themselves
+                    match formatted.strip_prefix(' ') {
+                        Some(value) => write!(&mut s, "\n{}", value),
+                        None => write!(&mut s, "{}", formatted),
+                    }
+                }
             }?;
         }
         Ok(s)
diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index ca5befc..36f1f64 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -355,7 +355,8 @@ impl Yaml {
                     write!(f, " {}:", element.0)?;
                     element.1.format(f, 0, None)?;
                 }
-                if !v.is_empty() {
+                // a plain scalar ending in a colon would become a key
+                if !v.is_empty() && !f.ends_with(':') {
                     write!(f, " ")?;
                 }
                 write!(f, "}}")
@@ -403,7 +404,8 @@ impl Yaml {
                     }
                     element.format(f, 0, None)?;
                 }
-                if !v.is_empty() {
+                // a plain scalar ending in a colon would become a key
+                if !v.is_empty() && !f.ends_with(':') {
                     write!(f, " ")?;
                 }
                 write!(f, "]")
diff --git a/src/yaml/parser.rs b/src/yaml/parser.rs
index 429ee4c..3f6c321 100644
--- a/src/yaml/parser.rs
+++ b/src/yaml/parser.rs
@@ -547,7 +547,8 @@ impl YamlParser {
     fn document(input: Node) -> InternalYamlResult<Yaml> {
         match_nodes!(input.into_children();
         [hash(h)] => Ok(h),
-        [array(a)] => Ok(a))
+        [array(a)] => Ok(a),
+        [inline_hash(h)] => Ok(h))
     }
 
     fn yaml(input: Node) -> InternalYamlResult<Document> {
-- 
2.43.0


From a00f178de29b215bc79fdeee3b0dee5854999031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:11 +0000
Subject: [PATCH 07/28] fix: a path index above the integer range is an error,
 not a panic

---
 src/path.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/path.rs b/src/path.rs
index 1f3cd36..9bb5fdf 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -32,7 +32,8 @@ impl PathParser {
     }
 
     fn index_number(input: Node) -> PathResult<Vec<usize>> {
-        Ok(vec![input.as_str().parse().unwrap()]) // TODO: remove unwrap
+        let index = input.as_str().parse().map_err(|e| input.error(e))?;
+        Ok(vec![index])
     }
     fn index_all(input: Node) -> PathResult<()> {
         Ok(())
-- 
2.43.0


From 12af9d46cf8d7a862820e634224a3b3799c4aee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:12 +0000
Subject: [PATCH 08/28] fix: text that starts like an anchor or a dash or ends
 like a key is no plain scalar

---
 src/yaml.pest | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index ff2b161..9e96873 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -9,13 +9,18 @@ number = @{
     ~ ("." ~ ASCII_DIGIT*)?
     ~ (^"e" ~ ("+" | "-")? ~ ASCII_DIGIT+)?
 }
-disallowed_unquoted_inline_string_start_elements = { "," | "[" | "]" | "{" | "}" | ": " | "\"" | "'" | "#" | NEWLINE }
-disallowed_unquoted_inline_string_elements = { "," | "[" | "]" | "{" | "}" | ": " | "\"" | "#" | ">" | "|" | NEWLINE }
+// A dash that starts an element.
+dash_end = _{ "-" ~ (" " | "#" | NEWLINE | EOI) }
+// A colon that ends a key rather than being part of a plain scalar.
+key_end = _{ ": " | ":" ~ ("#" | NEWLINE | EOI) }
+inline_key_end = _{ key_end | ":" ~ ("," | "[" | "]" | "{" | "}") }
+disallowed_unquoted_inline_string_start_elements = { "&" | "*" | "," | "[" | "]" | "{" | "}" | inline_key_end | "\"" | "'" | "#" | NEWLINE }
+disallowed_unquoted_inline_string_elements = { "," | "[" | "]" | "{" | "}" | inline_key_end | "\"" | "#" | ">" | "|" | NEWLINE }
 unquoted_inline_string_elements = { !(disallowed_unquoted_inline_string_elements) ~ ANY } 
 unquoted_inline_string_start_elements = { !(disallowed_unquoted_inline_string_start_elements) ~ ANY } 
 unquoted_inline_string = @{ unquoted_inline_string_start_elements ~ unquoted_inline_string_elements* }
-disallowed_unquoted_string_start_elements = { "- " | "[" | "]" | "{" | "}" | ": " | "\"" | "'" | "#" | ">" | "|" | NEWLINE }
-disallowed_unquoted_string_elements = { ": " | "#" |  NEWLINE }
+disallowed_unquoted_string_start_elements = { "&" | "*" | dash_end | "[" | "]" | "{" | "}" | key_end | "\"" | "'" | "#" | ">" | "|" | NEWLINE }
+disallowed_unquoted_string_elements = { key_end | "#" |  NEWLINE }
 unquoted_string_elements = { !(disallowed_unquoted_string_elements) ~ ANY } 
 unquoted_string_start_elements = { !(disallowed_unquoted_string_start_elements) ~ ANY } 
 unquoted_string = @{ unquoted_string_start_elements ~ unquoted_string_elements* }
-- 
2.43.0


From a09be2eb28428d7d8df8d75c8fd372e12db38890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 09/28] fix: folded strings keep the line breaks around
 indented lines as YAML does

---
 src/yaml/string.rs | 56 ++++++++++++++++++++++------------------------
 1 file changed, 27 insertions(+), 29 deletions(-)

diff --git a/src/yaml/string.rs b/src/yaml/string.rs
index 398b3db..3ff8cda 100644
--- a/src/yaml/string.rs
+++ b/src/yaml/string.rs
@@ -41,35 +41,33 @@ pub fn parse_folded(lines: Vec<&str>, chomping: BlockChomping) -> String {
     if lines.is_empty() {
         return String::new();
     }
-    let start = lines[0].to_string();
-
-    let result = lines
-        .into_iter()
-        .skip(1)
-        .fold((start, false), |(s, prev_was_empty), element| {
-            let mut c = s.clone(); // TODO
-            let is_empty = if element.is_empty() {
-                c.push_str("\n");
-                true
-            } else {
-                let without_indent = &element; // TODO: remove
-
-                if without_indent.starts_with(" ") {
-                    c.push_str("\n");
-                    c.push_str(without_indent);
-                    c.push_str("\n");
-                    true
-                } else {
-                    if !prev_was_empty {
-                        c.push_str(" ");
-                    }
-                    c.push_str(without_indent);
-                    false
-                }
-            };
-            (c, is_empty)
-        })
-        .0;
+    let mut result = String::new();
+    // Whether the previous line that is not empty keeps its line breaks
+    let mut previous: Option<bool> = None;
+    let mut empty_lines = 0;
+    for line in lines {
+        if line.is_empty() {
+            empty_lines += 1;
+            continue;
+        }
+        let keeps_breaks = line.starts_with(' ') || line.starts_with('\t');
+        match previous {
+            None => result.push_str(&"\n".repeat(empty_lines)),
+            Some(previous) if previous || keeps_breaks => {
+                result.push_str(&"\n".repeat(empty_lines + 1))
+            }
+            Some(_) if empty_lines == 0 => result.push(' '),
+            Some(_) => result.push_str(&"\n".repeat(empty_lines)),
+        }
+        result.push_str(line);
+        previous = Some(keeps_breaks);
+        empty_lines = 0;
+    }
+    if previous.is_none() {
+        // nothing comes before the first of these line breaks
+        empty_lines -= 1;
+    }
+    result.push_str(&"\n".repeat(empty_lines));
     handle_ending_newlines(result, chomping)
 }
 
-- 
2.43.0


From c4bf2eb0dfc0a10da00f56b945e5e37560ecd099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:09 +0000
Subject: [PATCH 10/28] fix: create_folded keeps every word and line break

---
 src/yaml/string.rs | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/yaml/string.rs b/src/yaml/string.rs
index 3ff8cda..c16284c 100644
--- a/src/yaml/string.rs
+++ b/src/yaml/string.rs
@@ -73,23 +73,22 @@ pub fn parse_folded(lines: Vec<&str>, chomping: BlockChomping) -> String {
 
 fn split_on_length(input: String, length: usize) -> Vec<String> {
     let mut result = Vec::new();
-    let mut s = String::new();
-    let mut first = true;
-    for word in input.split(" ") {
-        if s.len() + word.len() + 1 > length {
-            result.push(s.clone());
-            s = word.to_string();
-        } else {
-            if !first {
-                s.push_str(" ");
+    let mut line: Option<String> = None;
+    for word in input.split(' ') {
+        line = match line {
+            Some(mut s) if s.len() + word.len() + 1 <= length => {
+                s.push(' ');
+                s.push_str(word);
+                Some(s)
             }
-            s.push_str(word);
-            first = false;
-        }
-    }
-    if !s.is_empty() {
-        result.push(s.clone());
+            Some(s) => {
+                result.push(s);
+                Some(word.to_string())
+            }
+            None => Some(word.to_string()),
+        };
     }
+    result.extend(line.filter(|s| !s.is_empty()));
     result
 }
 
@@ -99,6 +98,9 @@ fn split_on_length(input: String, length: usize) -> Vec<String> {
 // the empty split result of the trailing \n.  Keep chomping adds the \n back.
 pub fn create_folded(s: String, line_length: usize) -> Vec<String> {
     let ends_with_newline = s.ends_with('\n');
+    if ends_with_newline && s.chars().all(|c| c == '\n') {
+        return vec![String::new(); s.len()];
+    }
     let mut lines: Vec<String> = s
         .split('\n')
         .flat_map(|x| {
-- 
2.43.0


From 540d90e82238951248694334a8a5d409e8fc35c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:34 +0000
Subject: [PATCH 11/28] fix: entries must be aligned with and nested below the
 entry they belong to

---
 src/yaml/parser.rs | 71 +++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 60 insertions(+), 11 deletions(-)

diff --git a/src/yaml/parser.rs b/src/yaml/parser.rs
index 3f6c321..ac8c361 100644
--- a/src/yaml/parser.rs
+++ b/src/yaml/parser.rs
@@ -340,6 +340,9 @@ impl YamlParser {
     }
 
     fn alternative_aliased_yaml_value(input: Node) -> InternalYamlResult<AliasedYaml> {
+        if let Some(collection) = input.children().last() {
+            check_columns(&collection, column(&input))?;
+        }
         match_nodes!(input.into_children();
         [alias(alias), alternative_hash(val)] => Ok(AliasedYaml {
             alias: Some(alias),
@@ -399,6 +402,7 @@ impl YamlParser {
 
     fn hash(input: Node) -> InternalYamlResult<Yaml> {
         //println!("{:#?}", input);
+        check_columns(&input, 0)?;
         match_nodes!(input.into_children();
             [commentnls(cs), first_hash_element(element1), hash_element_data(elements).., commentnls(cs2)] => Ok(
                 Yaml::Hash(
@@ -479,6 +483,7 @@ impl YamlParser {
     }
 
     fn block_array(input: Node) -> InternalYamlResult<Yaml> {
+        check_columns(&input, 0)?;
         match_nodes!(input.into_children();
         [commentnls(cs),first_block_array_element(element1), block_array_data(elements).., commentnls(cs2)] => Ok(
             Yaml::Array(
@@ -503,7 +508,6 @@ impl YamlParser {
     }
 
     fn alternative_array(input: Node) -> InternalYamlResult<Yaml> {
-        check_alignment(&input)?;
         match_nodes!(input.into_children();
         [first_block_array_element(element1), alternative_array_continuation(cont), commentnls(cs)] => Ok(
             Yaml::Array(
@@ -574,16 +578,61 @@ pub fn parse_yaml_file(input_str: &str) -> YamlResult<Document> {
     YamlParser::yaml(input).map_err(|e| e.into())
 }
 
-/// The elements of a sequence that starts on the line of its key or dash must all have their dash
-/// below the first one: otherwise they belong to another sequence.
-fn check_alignment(sequence: &Node) -> InternalYamlResult<()> {
-    let column = |n: &Node| n.as_pair().line_col().1;
-    for child in sequence.children() {
-        for element in child.children() {
-            if element.as_rule() == Rule::first_block_array_element
-                && column(&element) != column(sequence)
-            {
-                return Err(element.error("this element is not aligned with its sequence"));
+fn column(node: &Node) -> usize {
+    node.as_pair().line_col().1
+}
+
+/// The entries of a hash or array, in order.
+fn entries<'i>(collection: &Node<'i>) -> Vec<Node<'i>> {
+    let mut result = Vec::new();
+    for child in collection.children() {
+        match child.as_rule() {
+            Rule::hash_element | Rule::block_array_element => result.push(child),
+            Rule::first_hash_element
+            | Rule::hash_element_data
+            | Rule::alternative_hash_continuation
+            | Rule::first_block_array_element
+            | Rule::block_array_data
+            | Rule::alternative_array_continuation => result.extend(entries(&child)),
+            _ => (),
+        }
+    }
+    result
+}
+
+/// The hash or array on the lines below its key or dash, if that is what the value is.
+fn nested_collection<'i>(value: &Node<'i>) -> Option<Node<'i>> {
+    match value.as_rule() {
+        Rule::hash | Rule::block_array => Some(value.clone()),
+        Rule::block_array_aliased_yaml_value
+        | Rule::aliased_yaml_value
+        | Rule::yaml_value
+        | Rule::array => nested_collection(&value.children().last()?),
+        _ => None,
+    }
+}
+
+/// All entries must be below the first one (or below the alias before it, which is at `start`), and
+/// what is nested in an entry must be indented deeper (or, for the array of a key, at least as
+/// deep): otherwise it belongs to another hash or array.
+fn check_columns(collection: &Node, start: usize) -> InternalYamlResult<()> {
+    let mut first_column = None;
+    for entry in entries(collection) {
+        let entry_column = column(&entry);
+        let first = *first_column.get_or_insert(entry_column);
+        if entry_column != first && entry_column != start {
+            return Err(entry.error("this entry is not aligned with the first one"));
+        }
+        let nested = entry.children().last().and_then(|v| nested_collection(&v));
+        let first_nested = nested.as_ref().and_then(|n| entries(n).into_iter().next());
+        if let Some(first_nested) = first_nested {
+            let is_array_of_key = entry.as_rule() == Rule::hash_element
+                && first_nested.as_rule() == Rule::block_array_element;
+            let own_column = if start > 0 { start.min(entry_column) } else { entry_column };
+            let minimum = if is_array_of_key { own_column } else { own_column + 1 };
+            if column(&first_nested) < minimum {
+                return Err(first_nested
+                    .error("this entry is not indented deeper than what it belongs to"));
             }
         }
     }
-- 
2.43.0


From a1b75ace4213efe9679d2a2c8946fa4af5063839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:50 +0000
Subject: [PATCH 12/28] fix: a reference means the latest value with its name
 that ends before it

---
 src/yaml/deserializer.rs | 95 ++++++++++++++++++++++++++++------------
 1 file changed, 67 insertions(+), 28 deletions(-)

diff --git a/src/yaml/deserializer.rs b/src/yaml/deserializer.rs
index 049b962..375b23f 100644
--- a/src/yaml/deserializer.rs
+++ b/src/yaml/deserializer.rs
@@ -5,7 +5,6 @@ use super::string::{
     parse_double_quoted_string, parse_folded, parse_literal, parse_single_quoted_string,
 };
 use super::{AliasedYaml, ArrayData, HashData, Yaml};
-use std::cell::RefCell;
 use std::collections::HashMap;
 use std::rc::Rc;
 
@@ -51,55 +50,93 @@ fn yaml_to_string(yaml: &Yaml) -> Option<String> {
     }
 }
 
-type Anchors = Rc<RefCell<HashMap<String, Yaml>>>;
+type Anchors = Rc<HashMap<String, Yaml>>;
 
-fn register(anchors: &Anchors, aliased: &AliasedYaml) {
-    if let Some(name) = &aliased.alias {
-        anchors.borrow_mut().insert(name.clone(), aliased.value.clone());
+/// Gives every definition of an anchor a name of its own and lets every
+/// reference name the latest definition that ends before it, so that what a
+/// reference means does not depend on the order in which values are visited.
+#[derive(Default)]
+struct Binder {
+    latest: HashMap<String, String>,
+    anchors: HashMap<String, Yaml>,
+}
+
+impl Binder {
+    fn bind(&mut self, yaml: Yaml) -> Yaml {
+        match yaml {
+            Yaml::Anchor(name) => Yaml::Anchor(self.latest.get(&name).cloned().unwrap_or(name)),
+            Yaml::Hash(data) => Yaml::Hash(
+                data.into_iter()
+                    .map(|d| match d {
+                        HashData::Element(mut e) => {
+                            e.value = self.bind_aliased(e.value);
+                            HashData::Element(e)
+                        }
+                        comment => comment,
+                    })
+                    .collect(),
+            ),
+            Yaml::Array(data) => Yaml::Array(
+                data.into_iter()
+                    .map(|d| match d {
+                        ArrayData::Element(e) => ArrayData::Element(self.bind_aliased(e)),
+                        comment => comment,
+                    })
+                    .collect(),
+            ),
+            Yaml::InlineHash(data) => Yaml::InlineHash(
+                data.into_iter().map(|(k, v)| (k, self.bind(v))).collect(),
+            ),
+            Yaml::InlineArray(data) => {
+                Yaml::InlineArray(data.into_iter().map(|v| self.bind(v)).collect())
+            }
+            scalar => scalar,
+        }
+    }
+
+    fn bind_aliased(&mut self, mut aliased: AliasedYaml) -> AliasedYaml {
+        aliased.value = self.bind(aliased.value);
+        if let Some(name) = &aliased.alias {
+            let unique = format!("{} {}", name, self.anchors.len());
+            self.anchors.insert(unique.clone(), aliased.value.clone());
+            self.latest.insert(name.clone(), unique);
+        }
+        aliased
     }
 }
 
 fn resolve(anchors: &Anchors, name: &str) -> Result<Yaml, YamlDeserializeError> {
     anchors
-        .borrow()
         .get(name)
         .cloned()
         .ok_or_else(|| YamlDeserializeError(format!("undefined anchor: {name}")))
 }
 
-fn hash_entries(anchors: &Anchors, data: Vec<HashData>) -> Vec<(String, Yaml)> {
+fn hash_entries(data: Vec<HashData>) -> Vec<(String, Yaml)> {
     data.into_iter()
         .filter_map(|d| match d {
-            HashData::Element(e) => {
-                register(anchors, &e.value);
-                Some((e.key, e.value.value))
-            }
+            HashData::Element(e) => Some((e.key, e.value.value)),
             HashData::InlineComment(_) | HashData::Comment(_) => None,
         })
         .collect()
 }
 
-fn seq_values(anchors: &Anchors, elements: Vec<ArrayData>) -> Vec<Yaml> {
+fn seq_values(elements: Vec<ArrayData>) -> Vec<Yaml> {
     elements
         .into_iter()
         .filter_map(|d| match d {
-            ArrayData::Element(e) => {
-                register(anchors, &e);
-                Some(e.value)
-            }
+            ArrayData::Element(e) => Some(e.value),
             ArrayData::InlineComment(_) | ArrayData::Comment(_) => None,
         })
         .collect()
 }
 
 fn into_resolved(yaml: Yaml, anchors: Anchors) -> Result<(Yaml, Anchors), YamlDeserializeError> {
-    match yaml {
-        Yaml::Anchor(ref name) => {
-            let resolved = resolve(&anchors, name)?;
-            Ok((resolved, anchors))
-        }
-        other => Ok((other, anchors)),
+    let mut yaml = yaml;
+    while let Yaml::Anchor(name) = &yaml {
+        yaml = resolve(&anchors, name)?;
     }
+    Ok((yaml, anchors))
 }
 
 // ─── Main Deserializer ───────────────────────────────────────────────────────
@@ -111,7 +148,9 @@ pub struct YamlDeserializer {
 
 impl YamlDeserializer {
     pub fn new(yaml: Yaml) -> Self {
-        Self { yaml, anchors: Rc::new(RefCell::new(HashMap::new())) }
+        let mut binder = Binder::default();
+        let yaml = binder.bind(yaml);
+        Self { yaml, anchors: Rc::new(binder.anchors) }
     }
 
     fn with(yaml: Yaml, anchors: Anchors) -> Self {
@@ -184,12 +223,12 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
                 visitor.visit_string(parse_single_quoted_string(parts))
             }
             Yaml::Array(elements) => {
-                let values = seq_values(&anchors, elements);
+                let values = seq_values(elements);
                 visitor.visit_seq(VecSeqAccess::new(values, anchors))
             }
             Yaml::InlineArray(elements) => visitor.visit_seq(VecSeqAccess::new(elements, anchors)),
             Yaml::Hash(data) => {
-                let entries = hash_entries(&anchors, data);
+                let entries = hash_entries(data);
                 visitor.visit_map(VecMapAccess::new(entries, anchors))
             }
             Yaml::InlineHash(data) => visitor.visit_map(VecMapAccess::new(data, anchors)),
@@ -321,7 +360,7 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
         let (yaml, anchors) = into_resolved(self.yaml, self.anchors)?;
         match yaml {
             Yaml::Array(elements) => {
-                let values = seq_values(&anchors, elements);
+                let values = seq_values(elements);
                 visitor.visit_seq(VecSeqAccess::new(values, anchors))
             }
             Yaml::InlineArray(elements) => visitor.visit_seq(VecSeqAccess::new(elements, anchors)),
@@ -350,7 +389,7 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
         let (yaml, anchors) = into_resolved(self.yaml, self.anchors)?;
         match yaml {
             Yaml::Hash(data) => {
-                let entries = hash_entries(&anchors, data);
+                let entries = hash_entries(data);
                 visitor.visit_map(VecMapAccess::new(entries, anchors))
             }
             Yaml::InlineHash(data) => visitor.visit_map(VecMapAccess::new(data, anchors)),
@@ -393,7 +432,7 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
             // Newtype / tuple / struct variant: single-key map where the key is
             // the variant name and the value is the variant's content.
             Yaml::Hash(data) => {
-                let mut entries = hash_entries(&anchors, data);
+                let mut entries = hash_entries(data);
                 if entries.len() == 1 {
                     let (variant, value) = entries.remove(0);
                     visitor.visit_enum(StrEnumAccess { variant, value, anchors })
-- 
2.43.0


From e0dd3de852366cd88a918b76ad87232a03538026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:52 +0000
Subject: [PATCH 13/28] fix: an index into a flow sequence continues with the
 rest of the path

---
 src/yaml/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index 36f1f64..6a3e913 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -160,14 +160,16 @@ impl YamlInsert for Yaml {
                     _ => A::zero(),
                 }
             }
-            YamlPath::Indexes(indexes, conditions, _) => match self {
+            YamlPath::Indexes(indexes, conditions, other_path_opt) => match self {
                 Yaml::InlineArray(elements) => {
+                    let root = YamlPath::Root(Vec::new());
+                    let rest = other_path_opt.as_deref().unwrap_or(&root);
                     let mut count = A::zero();
                     for index in indexes.iter() {
                         let element_opt = elements.get_mut(*index);
                         if let Some(element) = element_opt {
                             if element.fits_conditions(conditions) {
-                                count = count + element.for_hash(path, f, r)
+                                count = count + element.for_hash(rest, f, r)
                             }
                         }
                     }
@@ -192,12 +194,14 @@ impl YamlInsert for Yaml {
                 _ => A::zero(),
             },
             //YamlPath::AllIndexes(Some(other_path)) => match self {
-            YamlPath::AllIndexes(conditions, _) => match self {
+            YamlPath::AllIndexes(conditions, other_path_opt) => match self {
                 Yaml::InlineArray(elements) => {
+                    let root = YamlPath::Root(Vec::new());
+                    let rest = other_path_opt.as_deref().unwrap_or(&root);
                     let mut count = A::zero();
                     for element in elements.iter_mut() {
                         if element.fits_conditions(conditions) {
-                            count = count + element.for_hash(path, f, r)
+                            count = count + element.for_hash(rest, f, r)
                         }
                     }
                     count
-- 
2.43.0


From f1a307fa0e104d44778c58474e060172a1a94203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:13 +0000
Subject: [PATCH 14/28] fix: move_to_subfield keeps every field

---
 src/yaml/insert.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/yaml/insert.rs b/src/yaml/insert.rs
index b1d48c0..6de197f 100644
--- a/src/yaml/insert.rs
+++ b/src/yaml/insert.rs
@@ -30,6 +30,11 @@ impl<T> Additive for MyVec<T> {
     }
 }
 
+/// The path of exactly this key, whatever characters it has
+fn key_path(key: &str) -> YamlPath {
+    YamlPath::Key(key.to_string(), Vec::new(), None)
+}
+
 pub trait YamlInsert {
     fn for_hash<F, R, A: Additive>(&mut self, path: &YamlPath, f: &F, r: &R) -> A
     where
@@ -138,16 +143,21 @@ pub trait YamlInsert {
     ) -> usize {
         let r = |hash: &mut Yaml| match hash {
             Yaml::Hash(_data) => {
-                let fields: Vec<_> = fields_to_move
-                    .iter()
-                    .filter_map(|key| hash.key_value_owned(key).map(|val| (key, val)))
-                    .collect();
+                let mut fields: Vec<(&String, AliasedYaml)> = Vec::new();
+                for key in fields_to_move.iter() {
+                    // the subfield can't hold itself, and a field can only be moved once
+                    if key != &subfield && !fields.iter().any(|(k, _)| k == &key) {
+                        fields.extend(hash.key_value_owned(key).map(|val| (key, val)));
+                    }
+                }
                 if !fields.is_empty() {
                     let subfield_value_opt = hash.key_value_mut(&subfield);
                     let res = if let Some(subfield_value) = subfield_value_opt {
+                        if !matches!(subfield_value.value, Yaml::Hash(_)) {
+                            return 0; // the fields can't be put there
+                        }
                         for (key, value) in fields.iter() {
-                            let path = key.parse().unwrap();
-                            subfield_value.insert_into_hash(&path, &value, true);
+                            subfield_value.insert_into_hash(&key_path(key), &value, true);
                         }
                         1
                     } else {
@@ -164,11 +174,11 @@ pub trait YamlInsert {
                                 .collect(),
                         );
                         let new = AliasedYaml { alias: None, value };
-                        hash.insert_into_hash(&subfield.parse().unwrap(), &new, false);
+                        hash.insert_into_hash(&key_path(&subfield), &new, false);
                         1
                     };
                     for (key, _) in fields {
-                        hash.remove_from_hash(&key.parse().unwrap());
+                        hash.remove_from_hash(&key_path(key));
                     }
                     res
                 } else {
-- 
2.43.0


From a680ec90d4aeafb7051a1dfb0ca2e5909f066801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:43 +0000
Subject: [PATCH 15/28] fix: move_to_map_with_field_as_key loses no entry and
 keeps comments with theirs

---
 src/yaml/insert.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/yaml/insert.rs b/src/yaml/insert.rs
index 6de197f..4f833e8 100644
--- a/src/yaml/insert.rs
+++ b/src/yaml/insert.rs
@@ -204,6 +204,9 @@ pub trait YamlInsert {
     ) -> usize {
         let r = |hash: &mut Yaml| match hash {
             Yaml::Hash(_data) => {
+                if hash.key_value_owned(&new_map_name).is_some() {
+                    return 0; // there is no place for the new map
+                }
                 if let Some(result) = hash.key_value_owned(&old_map_name) {
                     if let Yaml::Hash(hash_data) = result.value {
                         let mut new_hashes: BTreeMap<String, Vec<HashData>> = BTreeMap::new();
@@ -219,14 +222,14 @@ pub trait YamlInsert {
                                         if let Some(s) = key.as_string() {
                                             if keeps.contains(&s) || s.is_empty() {
                                                 hash_data
-                                                    .remove_from_hash(&selector.parse().unwrap());
+                                                    .remove_from_hash(&key_path(&selector));
                                                 old_hashes.extend(comments.clone());
                                                 comments.clear();
                                                 old_hashes.push(hash_data);
                                                 last_added_to = None
                                             } else {
                                                 let mut value = hash_element.value.clone();
-                                                value.remove_from_hash(&selector.parse().unwrap());
+                                                value.remove_from_hash(&key_path(&selector));
 
                                                 let new_hash_element =
                                                     HashData::Element(HashElement {
@@ -260,6 +263,16 @@ pub trait YamlInsert {
                                         last_added_to = None
                                     }
                                 }
+                                // an inline comment belongs to the entry before it
+                                HashData::InlineComment(_) if comments.is_empty() => {
+                                    match last_added_to
+                                        .as_ref()
+                                        .and_then(|s| new_hashes.get_mut(s))
+                                    {
+                                        Some(items) => items.push(hash_data),
+                                        None => old_hashes.push(hash_data),
+                                    }
+                                }
                                 HashData::Comment(_) | HashData::InlineComment(_) => {
                                     comments.push(hash_data)
                                 }
@@ -288,12 +301,12 @@ pub trait YamlInsert {
                                         .collect(),
                                 ),
                             };
-                            hash.insert_into_hash(&new_map_name.parse().unwrap(), &new, false);
+                            hash.insert_into_hash(&key_path(&new_map_name), &new, false);
                             let old = AliasedYaml {
                                 alias: result.alias.clone(),
                                 value: Yaml::Hash(old_hashes),
                             };
-                            hash.insert_into_hash(&old_map_name.parse().unwrap(), &old, true);
+                            hash.insert_into_hash(&key_path(&old_map_name), &old, true);
                             1
                         } else {
                             0
-- 
2.43.0


From 795baac7a67ae5ed0bd9a14f1ed5385d288fdf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:03 +0000
Subject: [PATCH 16/28] fix: quote strings that would read as an alias, an
 anchor, a dash, a key or null

---
 src/yaml/mod.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index 6a3e913..e64ca73 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -632,8 +632,8 @@ impl<T: Pretty> Pretty for Vec<T> {
 
 // Returns true when a string can be written as a plain (unquoted) YAML scalar in block context.
 // Rules based on yaml_subset's grammar:
-//   - start disallowed: [ ] { } " ' # > | newline
-//   - anywhere disallowed: ": " (colon-space), # , newlines
+//   - start disallowed: [ ] { } " ' # > | & * newline, "-" before a blank or the end
+//   - anywhere disallowed: ":" before a blank or the end, # , newlines
 // Also rejects strings that serde's untagged-enum Content mechanism misinterprets:
 // untagged enum deserialization calls deserialize_any to collect into Content, and
 // deserialize_any maps UnquotedString("2") → visit_i64(2) → Content::I64(2).
@@ -642,18 +642,27 @@ impl<T: Pretty> Pretty for Vec<T> {
 // so Vec<String> fields next to integer fields in the same struct both work.
 // Note: inline_breaking_chars must also be checked for inline (flow) context.
 fn can_be_unquoted_in_block(s: &str) -> bool {
-    if s.is_empty() || s.starts_with(' ') || s.ends_with(' ') {
+    if s.is_empty() || s.starts_with(char::is_whitespace) || s.ends_with(char::is_whitespace) {
         return false;
     }
     match s.chars().next().unwrap() {
-        '[' | ']' | '{' | '}' | '"' | '\'' | '#' | '>' | '|' => return false,
+        '[' | ']' | '{' | '}' | '"' | '\'' | '#' | '>' | '|' | '&' | '*' => return false,
         _ => {}
     }
-    if s.contains(": ") || s.contains('#') || s.contains('\n') || s.contains('\r') {
+    // would start a sequence element or end a key
+    let mut after_colons = s.split(':').skip(1);
+    if s == "-"
+        || s.ends_with(':')
+        || s.strip_prefix('-').map_or(false, |rest| rest.starts_with(char::is_whitespace))
+        || after_colons.any(|rest| rest.starts_with(char::is_whitespace))
+    {
+        return false;
+    }
+    if s.contains('#') || s.contains('\n') || s.contains('\r') {
         return false;
     }
     !s.parse::<i64>().is_ok() && !s.parse::<f64>().is_ok()
-        && !matches!(s, "true" | "false" | "null" | "~")
+        && !matches!(s, "true" | "false" | "null" | "Null" | "NULL" | "~")
 }
 
 fn inline_breaking_chars(s: &str) -> bool {
-- 
2.43.0


From c11b668ca890d652472f1fd4101a54176b00c876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:48 +0000
Subject: [PATCH 17/28] fix: prettifying keeps the text of every scalar and
 flow sequences readable

---
 src/yaml/mod.rs | 56 +++++++++++++++++++++++++++++--------------------
 1 file changed, 33 insertions(+), 23 deletions(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index e64ca73..58b4dd0 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -690,6 +690,17 @@ fn str_to_single_quoted_parts(s: &str) -> Vec<SingleQuotedStringPart> {
     parts
 }
 
+// The block scalar that holds a string (folded to a line length, or literal), unless there is
+// none that means exactly that string.
+fn block_scalar(s: &str, folded_length: Option<usize>) -> Option<Yaml> {
+    let chomping = if s.ends_with('\n') { BlockChomping::Keep } else { BlockChomping::Strip };
+    let block = match folded_length {
+        Some(length) => Yaml::FoldedString(create_folded(s.to_string(), length), chomping),
+        None => Yaml::LiteralString(create_literal(s.to_string()), chomping),
+    };
+    Some(block).filter(|b| !s.contains('\r') && b.as_string().as_deref() == Some(s))
+}
+
 impl Pretty for Yaml {
     fn pretty_with_options(self, in_inline: bool, child_of_array: bool) -> Yaml {
         let max_line_length = 90;
@@ -743,7 +754,9 @@ impl Pretty for Yaml {
                         let elems: Vec<Yaml> = prettied
                             .iter()
                             .filter_map(|d| match d {
-                                ArrayData::Element(e) => Some(e.value.clone()),
+                                ArrayData::Element(e) => {
+                                    Some(e.value.clone().pretty_with_options(true, false))
+                                }
                                 _ => None,
                             })
                             .collect();
@@ -773,37 +786,34 @@ impl Pretty for Yaml {
                     .iter()
                     .any(|x| matches!(x, DoubleQuotedStringPart::EscapedChar(_)));
                 let s = parse_double_quoted_string(&parts);
-                let total_length = s.len();
-                let chomping = if s.ends_with('\n') { BlockChomping::Keep } else { BlockChomping::Strip };
-                if contains_escape {
-                    Yaml::LiteralString(create_literal(s), chomping)
-                } else if total_length > max_line_length {
-                    Yaml::FoldedString(create_folded(s, max_line_length), chomping)
+                let block = if contains_escape {
+                    block_scalar(&s, None)
+                } else if s.len() > max_line_length {
+                    block_scalar(&s, Some(max_line_length))
                 } else {
-                    Yaml::DoubleQuotedString(parts)
-                }
+                    None
+                };
+                block.unwrap_or(Yaml::DoubleQuotedString(parts))
             }
             Yaml::SingleQuotedString(parts) => {
+                if in_inline {
+                    return Yaml::SingleQuotedString(parts);
+                }
                 let contains_newline = parts
                     .iter()
                     .any(|x| matches!(x, SingleQuotedStringPart::BlankLines(_)));
                 let s = parse_single_quoted_string(&parts);
                 let total_length = s.len();
-                let chomping = if s.ends_with('\n') { BlockChomping::Keep } else { BlockChomping::Strip };
-                if contains_newline {
-                    return Yaml::LiteralString(create_literal(s), chomping);
-                }
-                if !in_inline && can_be_unquoted_in_block(&s) && !inline_breaking_chars(&s) && total_length <= max_line_length {
-                    return Yaml::UnquotedString(s);
-                }
-                if in_inline {
-                    return Yaml::SingleQuotedString(parts);
-                }
-                if total_length > max_line_length {
-                    Yaml::FoldedString(create_folded(s, max_line_length), chomping)
+                let block = if contains_newline {
+                    block_scalar(&s, None)
+                } else if can_be_unquoted_in_block(&s) && !inline_breaking_chars(&s) && total_length <= max_line_length {
+                    Some(Yaml::UnquotedString(s))
+                } else if total_length > max_line_length {
+                    block_scalar(&s, Some(max_line_length))
                 } else {
-                    Yaml::SingleQuotedString(parts)
-                }
+                    None
+                };
+                block.unwrap_or(Yaml::SingleQuotedString(parts))
             }
             Yaml::LiteralString(lines, chomping) => Yaml::LiteralString(lines, chomping),
             Yaml::FoldedString(lines, chomping) => Yaml::FoldedString(lines, chomping),
-- 
2.43.0


From f2cffb0c9c186c811412ae9fd3f6750fb546c9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:25 +0000
Subject: [PATCH 18/28] fix: prettifying keeps a comment at the end of its
 value

---
 src/yaml/mod.rs | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index 58b4dd0..1b66cd6 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -701,6 +701,26 @@ fn block_scalar(s: &str, folded_length: Option<usize>) -> Option<Yaml> {
     Some(block).filter(|b| !s.contains('\r') && b.as_string().as_deref() == Some(s))
 }
 
+// Prettifies the items of a block collection, except for a value that would end on a line that
+// cannot take the comment behind it.
+fn pretty_items<T: Pretty + Clone>(
+    items: Vec<T>,
+    child_of_array: bool,
+    value: fn(&T) -> Option<&Yaml>,
+    is_inline_comment: fn(&T) -> bool,
+) -> Vec<T> {
+    let takes_comment = |item: &T| value(item).map_or(false, Yaml::takes_inline_comment);
+    let mut items = items.into_iter().peekable();
+    let mut result = Vec::new();
+    while let Some(item) = items.next() {
+        let commented = items.peek().map_or(false, is_inline_comment) && takes_comment(&item);
+        let original = if commented { Some(item.clone()) } else { None };
+        let pretty = item.pretty_with_options(false, child_of_array);
+        result.push(original.filter(|_| !takes_comment(&pretty)).unwrap_or(pretty));
+    }
+    result
+}
+
 impl Pretty for Yaml {
     fn pretty_with_options(self, in_inline: bool, child_of_array: bool) -> Yaml {
         let max_line_length = 90;
@@ -724,7 +744,10 @@ impl Pretty for Yaml {
                         .collect();
                     Yaml::InlineHash(entries)
                 } else {
-                    Yaml::Hash(v.pretty_with_options(false, false))
+                    Yaml::Hash(pretty_items(v, false, |d| match d {
+                        HashData::Element(e) => Some(&e.value.value),
+                        _ => None,
+                    }, |d| matches!(d, HashData::InlineComment(_))))
                 }
             }
             Yaml::InlineArray(v) => Yaml::InlineArray(v.pretty_with_options(true, false)),
@@ -743,7 +766,10 @@ impl Pretty for Yaml {
                         .collect();
                     return Yaml::InlineArray(elements);
                 }
-                let prettied: Vec<ArrayData> = v.pretty_with_options(false, true);
+                let prettied: Vec<ArrayData> = pretty_items(v, true, |d| match d {
+                    ArrayData::Element(e) => Some(&e.value),
+                    _ => None,
+                }, |d| matches!(d, ArrayData::InlineComment(_)));
                 // Auto-inline when this array is a direct child of another block array.
                 if child_of_array {
                     let can_inline = prettied.iter().all(|d| match d {
-- 
2.43.0


From 3249b8e4706444c5f592a5ccd9fbdd07f4de8f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:51 +0000
Subject: [PATCH 19/28] fix: serialize map keys that need quotes as values

---
 src/yaml/serializer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/yaml/serializer.rs b/src/yaml/serializer.rs
index 8fc2c34..7b0f8e5 100644
--- a/src/yaml/serializer.rs
+++ b/src/yaml/serializer.rs
@@ -141,10 +141,11 @@ fn str_to_yaml(s: &str) -> Yaml {
 }
 
 fn yaml_to_key_string(yaml: Yaml) -> Result<String, YamlSerializeError> {
-    use super::string::parse_double_quoted_string;
+    use super::string::{parse_double_quoted_string, parse_single_quoted_string};
     match yaml {
         Yaml::UnquotedString(s) => Ok(s),
         Yaml::DoubleQuotedString(ref parts) => Ok(parse_double_quoted_string(parts)),
+        Yaml::SingleQuotedString(ref parts) => Ok(parse_single_quoted_string(parts)),
         _ => Err(YamlSerializeError("non-string map key".to_string())),
     }
 }
-- 
2.43.0


From ea09971c5e4d847c6c38787a08536251e8729360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:26 +0000
Subject: [PATCH 20/28] fix: serialize the name of an enum variant that has
 content

---
 src/yaml/serializer.rs | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/yaml/serializer.rs b/src/yaml/serializer.rs
index 7b0f8e5..4d0db93 100644
--- a/src/yaml/serializer.rs
+++ b/src/yaml/serializer.rs
@@ -32,6 +32,17 @@ fn aliased(value: Yaml) -> AliasedYaml {
     AliasedYaml { alias: None, value }
 }
 
+// The content of an enum variant is the only value of a map with the variant as its key.
+fn tagged(variant: Option<&'static str>, value: Yaml) -> Yaml {
+    match variant {
+        Some(variant) => Yaml::Hash(vec![HashData::Element(HashElement {
+            key: variant.to_string(),
+            value: aliased(value),
+        })]),
+        None => value,
+    }
+}
+
 // Returns true when a string cannot be written as a plain (unquoted) YAML scalar.
 // Also quotes strings that are unsafe in inline (flow) context, since the serializer
 // has no context. pretty() will de-quote back to unquoted in block context when safe.
@@ -256,10 +267,10 @@ impl ser::Serializer for YamlSerializer {
         self,
         _name: &'static str,
         _variant_index: u32,
-        _variant: &'static str,
+        variant: &'static str,
         value: &T,
     ) -> Result<Yaml, Self::Error> {
-        value.serialize(self)
+        Ok(tagged(Some(variant), value.serialize(self)?))
     }
     fn serialize_seq(self, _len: Option<usize>) -> Result<SeqSerializer, Self::Error> {
         Ok(SeqSerializer {
@@ -269,6 +280,7 @@ impl ser::Serializer for YamlSerializer {
     fn serialize_tuple(self, _len: usize) -> Result<TupleSerializer, Self::Error> {
         Ok(TupleSerializer {
             elements: Vec::new(),
+            variant: None,
         })
     }
     fn serialize_tuple_struct(
@@ -282,15 +294,18 @@ impl ser::Serializer for YamlSerializer {
         self,
         _name: &'static str,
         _variant_index: u32,
-        _variant: &'static str,
+        variant: &'static str,
         len: usize,
     ) -> Result<TupleSerializer, Self::Error> {
-        self.serialize_tuple(len)
+        let mut tuple = self.serialize_tuple(len)?;
+        tuple.variant = Some(variant);
+        Ok(tuple)
     }
     fn serialize_map(self, _len: Option<usize>) -> Result<MapSerializer, Self::Error> {
         Ok(MapSerializer {
             entries: Vec::new(),
             current_key: None,
+            variant: None,
         })
     }
     fn serialize_struct(
@@ -304,10 +319,12 @@ impl ser::Serializer for YamlSerializer {
         self,
         _name: &'static str,
         _variant_index: u32,
-        _variant: &'static str,
+        variant: &'static str,
         len: usize,
     ) -> Result<MapSerializer, Self::Error> {
-        self.serialize_map(Some(len))
+        let mut map = self.serialize_map(Some(len))?;
+        map.variant = Some(variant);
+        Ok(map)
     }
 }
 
@@ -346,6 +363,7 @@ impl ser::SerializeSeq for SeqSerializer {
 // (e.g. the argument list) when they contain only simple scalars.
 pub struct TupleSerializer {
     elements: Vec<Yaml>,
+    variant: Option<&'static str>,
 }
 
 impl ser::SerializeTuple for TupleSerializer {
@@ -358,7 +376,7 @@ impl ser::SerializeTuple for TupleSerializer {
     }
 
     fn end(self) -> Result<Yaml, Self::Error> {
-        Ok(Yaml::InlineArray(self.elements))
+        Ok(tagged(self.variant, Yaml::InlineArray(self.elements)))
     }
 }
 
@@ -393,6 +411,7 @@ impl ser::SerializeTupleVariant for TupleSerializer {
 pub struct MapSerializer {
     entries: Vec<(String, Yaml)>,
     current_key: Option<String>,
+    variant: Option<&'static str>,
 }
 
 impl ser::SerializeMap for MapSerializer {
@@ -415,7 +434,7 @@ impl ser::SerializeMap for MapSerializer {
     }
 
     fn end(self) -> Result<Yaml, Self::Error> {
-        Ok(Yaml::Hash(
+        let hash = Yaml::Hash(
             self.entries
                 .into_iter()
                 .map(|(k, v)| {
@@ -425,7 +444,8 @@ impl ser::SerializeMap for MapSerializer {
                     })
                 })
                 .collect(),
-        ))
+        );
+        Ok(tagged(self.variant, hash))
     }
 }
 
-- 
2.43.0


From 1a8ad9f802aa7bc95355634c1a3c377ce99f9f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:52 +0000
Subject: [PATCH 21/28] fix: deserialize integers of 128 bits

---
 src/yaml/deserializer.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/yaml/deserializer.rs b/src/yaml/deserializer.rs
index 375b23f..b0a188c 100644
--- a/src/yaml/deserializer.rs
+++ b/src/yaml/deserializer.rs
@@ -274,6 +274,16 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
             Err(Self::Error::custom("expected integer"))
         }
     }
+    fn deserialize_i128<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
+        let (yaml, _) = into_resolved(self.yaml, self.anchors)?;
+        if let Some(s) = yaml_to_string(&yaml) {
+            s.parse::<i128>()
+                .map_err(|e| Self::Error::custom(e))
+                .and_then(|v| visitor.visit_i128(v))
+        } else {
+            Err(Self::Error::custom("expected integer"))
+        }
+    }
     fn deserialize_u8<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
         self.deserialize_u64(visitor)
     }
@@ -293,6 +303,16 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
             Err(Self::Error::custom("expected unsigned integer"))
         }
     }
+    fn deserialize_u128<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
+        let (yaml, _) = into_resolved(self.yaml, self.anchors)?;
+        if let Some(s) = yaml_to_string(&yaml) {
+            s.parse::<u128>()
+                .map_err(|e| Self::Error::custom(e))
+                .and_then(|v| visitor.visit_u128(v))
+        } else {
+            Err(Self::Error::custom("expected unsigned integer"))
+        }
+    }
     fn deserialize_f32<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
         self.deserialize_f64(visitor)
     }
-- 
2.43.0


From 2591cb1036bc16b20fff2b071d00f7d967dbcf83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:37 +0000
Subject: [PATCH 22/28] fix: a serialized tuple holds its collections in flow
 style

---
 src/yaml/serializer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/yaml/serializer.rs b/src/yaml/serializer.rs
index 4d0db93..afc32b9 100644
--- a/src/yaml/serializer.rs
+++ b/src/yaml/serializer.rs
@@ -5,7 +5,7 @@ use super::string::{
     DoubleQuotedStringEscapedChar, DoubleQuotedStringPart, SingleQuotedStringEscapedChar,
     SingleQuotedStringPart,
 };
-use super::{AliasedYaml, ArrayData, HashData, HashElement, Yaml};
+use super::{AliasedYaml, ArrayData, HashData, HashElement, Pretty, Yaml};
 
 // ─── Error ───────────────────────────────────────────────────────────────────
 
@@ -376,7 +376,9 @@ impl ser::SerializeTuple for TupleSerializer {
     }
 
     fn end(self) -> Result<Yaml, Self::Error> {
-        Ok(tagged(self.variant, Yaml::InlineArray(self.elements)))
+        // there are no block collections inside an inline one
+        let elements = self.elements.pretty_with_options(true, false);
+        Ok(tagged(self.variant, Yaml::InlineArray(elements)))
     }
 }
 
-- 
2.43.0


From 530a3627894170255fd699d5db9e0d884f94b55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:25 +0000
Subject: [PATCH 23/28] fix: a sequence longer than the tuple it is read as is
 an error

---
 src/yaml/deserializer.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/yaml/deserializer.rs b/src/yaml/deserializer.rs
index b0a188c..74570dc 100644
--- a/src/yaml/deserializer.rs
+++ b/src/yaml/deserializer.rs
@@ -381,9 +381,11 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
         match yaml {
             Yaml::Array(elements) => {
                 let values = seq_values(elements);
-                visitor.visit_seq(VecSeqAccess::new(values, anchors))
+                VecSeqAccess::new(values, anchors).visit_all(visitor)
+            }
+            Yaml::InlineArray(elements) => {
+                VecSeqAccess::new(elements, anchors).visit_all(visitor)
             }
-            Yaml::InlineArray(elements) => visitor.visit_seq(VecSeqAccess::new(elements, anchors)),
             _ => Err(Self::Error::custom("expected sequence")),
         }
     }
@@ -498,6 +500,18 @@ impl VecSeqAccess {
     fn new(v: Vec<Yaml>, anchors: Anchors) -> Self {
         Self { iter: v.into_iter(), anchors }
     }
+
+    /// Visits the elements, of which none may be left over.
+    fn visit_all<'de, V: Visitor<'de>>(
+        mut self,
+        visitor: V,
+    ) -> Result<V::Value, YamlDeserializeError> {
+        let value = visitor.visit_seq(&mut self)?;
+        match self.iter.len() {
+            0 => Ok(value),
+            n => Err(YamlDeserializeError::custom(format!("{n} elements too many"))),
+        }
+    }
 }
 
 impl<'de> SeqAccess<'de> for VecSeqAccess {
-- 
2.43.0


From ce1b14512ee99d4326500eb2a09007b26fbfb49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:46 +0000
Subject: [PATCH 24/28] fix: only null reads as a unit

---
 src/yaml/deserializer.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/yaml/deserializer.rs b/src/yaml/deserializer.rs
index 74570dc..881fcdf 100644
--- a/src/yaml/deserializer.rs
+++ b/src/yaml/deserializer.rs
@@ -358,14 +358,20 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
     }
 
     fn deserialize_unit<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
-        visitor.visit_unit()
+        let (yaml, _) = into_resolved(self.yaml, self.anchors)?;
+        match &yaml {
+            Yaml::UnquotedString(s) if matches!(s.as_str(), "~" | "null" | "Null" | "NULL") => {
+                visitor.visit_unit()
+            }
+            _ => Err(Self::Error::custom("expected null")),
+        }
     }
     fn deserialize_unit_struct<V: Visitor<'de>>(
         self,
         _name: &'static str,
         visitor: V,
     ) -> Result<V::Value, Self::Error> {
-        visitor.visit_unit()
+        self.deserialize_unit(visitor)
     }
 
     fn deserialize_newtype_struct<V: Visitor<'de>>(
@@ -603,7 +609,7 @@ impl<'de> VariantAccess<'de> for YamlDeserializer {
     type Error = YamlDeserializeError;
 
     fn unit_variant(self) -> Result<(), Self::Error> {
-        Ok(())
+        <()>::deserialize(self)
     }
 
     fn newtype_variant_seed<T: DeserializeSeed<'de>>(
-- 
2.43.0


From b8de2cd9d57b308211c7ff3ddf1857ca1a36ef90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:09 +0000
Subject: [PATCH 25/28] fix: blanks around the parts of a path text are skipped
 and do not panic

---
 src/path.pest | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/path.pest b/src/path.pest
index c63d648..de60fe5 100644
--- a/src/path.pest
+++ b/src/path.pest
@@ -1,14 +1,16 @@
-WHITESPACE = { " " }
+WHITESPACE = _{ " " }
 
-key_items = _{ !("[" | "]" | "." | "|") ~ ANY }
-pure_key = { key_items+ }
+key_items = _{ !("[" | "]" | "." | "|" | " ") ~ ANY }
+pure_key = @{ key_items ~ (" "* ~ key_items)* }
 
-field = { (!("=") ~ ANY)+ }
-value = { (!("." | "|") ~ ANY)+ }
+field_items = _{ !("=" | " ") ~ ANY }
+field = @{ field_items ~ (" "* ~ field_items)* }
+value_items = _{ !("." | "|" | " ") ~ ANY }
+value = @{ value_items ~ (" "* ~ value_items)* }
 condition = { field ~ "=" ~ value }
 key = { pure_key ~ ( "|" ~ condition )* }
 
-index_number = { ASCII_DIGIT+ }
+index_number = @{ ASCII_DIGIT+ }
 index_all = { "*" }
 index = _{ "[" ~ (index_number | index_all) ~ "]" ~ ( "|" ~ condition )* }
 
@@ -16,5 +18,5 @@ part = { ((".") ~ key) | index }
 path = { key ~ part* }
 root_key = { "" }
 root = { root_key ~ ( "|" ~ condition )* }
-final_path = { (path | root ) ~ EOI }
+final_path = { SOI ~ (path | root ) ~ EOI }
 
-- 
2.43.0


From 3000d2139d5e3e8e082926262441a0a7c41c5e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:08 +0000
Subject: [PATCH 26/28] fix: a float of 32 bits is rounded only once when it is
 read

---
 src/yaml/deserializer.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/yaml/deserializer.rs b/src/yaml/deserializer.rs
index 881fcdf..991db20 100644
--- a/src/yaml/deserializer.rs
+++ b/src/yaml/deserializer.rs
@@ -314,7 +314,14 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
         }
     }
     fn deserialize_f32<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
-        self.deserialize_f64(visitor)
+        let (yaml, _) = into_resolved(self.yaml, self.anchors)?;
+        if let Some(s) = yaml_to_string(&yaml) {
+            s.parse::<f32>()
+                .map_err(|e| Self::Error::custom(e))
+                .and_then(|v| visitor.visit_f32(v))
+        } else {
+            Err(Self::Error::custom("expected float"))
+        }
     }
     fn deserialize_f64<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
         let (yaml, _) = into_resolved(self.yaml, self.anchors)?;
-- 
2.43.0


From e3683c6581c5b434f477c8b23c73b09e1b48e589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:12 +0000
Subject: [PATCH 27/28] fix: line breaks of CR and LF in quoted strings are
 line breaks

---
 src/yaml.pest      | 11 ++++++-----
 src/yaml/parser.rs |  1 +
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index 9e96873..d551e30 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -26,18 +26,19 @@ unquoted_string_start_elements = { !(disallowed_unquoted_string_start_elements)
 unquoted_string = @{ unquoted_string_start_elements ~ unquoted_string_elements* }
 string_value = @{ (("\\" ~ ANY) | (!(PEEK) ~ ANY))* }
 
-escaped_double_quote_char_value = { "n" | "\\" | "r" | "t" | "\"" | "\n" }
+quoted_newline = _{ "\r"* ~ "\n" }
+escaped_double_quote_char_value = { "n" | "\\" | "r" | "t" | "\"" | quoted_newline }
 escaped_double_quote_char = _{ "\\" ~ escaped_double_quote_char_value }
-double_quote_text = { (!("\"" | "\\" | "\n") ~ ANY)+ }
+double_quote_text = { (!("\"" | "\\" | quoted_newline) ~ ANY)+ }
 double_quote_without_escape = { escaped_double_quote_char | blank_lines | removable_newline | double_quote_text }
 double_quote_content = { double_quote_without_escape* }
 double_quoted_string = { PUSH("\"") ~ double_quote_content ~ POP ~ SPACE_SEPARATOR* }
 
 single_quote = { "'" }
 single_quote_char = _{ "'" ~ single_quote }
-blank_lines = { "\n" ~ "\n"+ }
-removable_newline = { "\n" }
-single_quote_text = { (!("'" | "\n") ~ ANY)+ }
+blank_lines = { quoted_newline ~ quoted_newline+ }
+removable_newline = { quoted_newline }
+single_quote_text = { (!("'" | quoted_newline) ~ ANY)+ }
 escaped_single_quote_char = { single_quote_char | blank_lines | removable_newline | single_quote_text }
 single_quote_content = { escaped_single_quote_char* }
 single_quoted_string = { PUSH("'") ~ single_quote_content ~ POP ~ SPACE_SEPARATOR* }
diff --git a/src/yaml/parser.rs b/src/yaml/parser.rs
index ac8c361..ff38983 100644
--- a/src/yaml/parser.rs
+++ b/src/yaml/parser.rs
@@ -116,6 +116,7 @@ impl YamlParser {
         match input.as_str().chars().next().unwrap() {
             'n' => Ok(DoubleQuotedStringEscapedChar::Newline),
             '\n' => Ok(DoubleQuotedStringEscapedChar::RealNewline),
+            '\r' => Ok(DoubleQuotedStringEscapedChar::RealNewline),
             'r' => Ok(DoubleQuotedStringEscapedChar::CarriageReturn),
             't' => Ok(DoubleQuotedStringEscapedChar::Tab),
             '\\' => Ok(DoubleQuotedStringEscapedChar::Backslash),
-- 
2.43.0


From 95cc2a5aeeb7d54df51cfa50caca6323f03c3e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:42 +0000
Subject: [PATCH 28/28] fix: an alias name ends at a blank, not where the value
 is glued to it

---
 src/yaml.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index d551e30..ee75f79 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -65,7 +65,7 @@ string_multiline_literal = { "|" ~ string_block_chomping? ~ string_multiline_lin
 string_block_chomping = { "-" | "+" }
 
 anchor = { "*" ~ alias_name }
-alias = { "&" ~ alias_name }
+alias = { "&" ~ alias_name ~ &(SPACE_SEPARATOR | "\t" | "#" | NEWLINE | EOI) }
 inline_value = { (anchor | inline_array | inline_hash | string ) }
 inline_array_value = { (anchor | inline_array | inline_hash | inline_array_string ) }
 
-- 
2.43.0

