From 5b7327ea46090b62bfc86497f5ddb56e5c620124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 01/21] fix: report a trailing comment instead of panicking in
 the parser

---
 src/parser.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 39c70ad..17d09e8 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -311,11 +311,11 @@ fn parse_schema(
             vec![]
         };
 
-        // Parse the keyword [tag:keyword_is_struct_or_choice].
-        let keyword =
-            if let token::Variant::Struct | token::Variant::Choice = tokens[*position].variant {
-                tokens[*position].variant.clone()
-            } else {
+        // Parse the keyword [tag:keyword_is_struct_or_choice]. Note that there might not be another
+        // token to parse if a comment was parsed above.
+        let keyword = match tokens.get(*position).map(|token| &token.variant) {
+            Some(variant @ (token::Variant::Struct | token::Variant::Choice)) => variant.clone(),
+            _ => {
                 errors.push(unexpected_token(
                     source_path,
                     source_contents,
@@ -329,7 +329,8 @@ fn parse_schema(
                     imports,
                     declarations,
                 };
-            };
+            }
+        };
         *position += 1;
 
         // Parse the name.
-- 
2.43.0


From 16e0c502b4529f297ef0c03aeb20d1a50a5fa877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 02/21] fix: don't put raw identifiers in the names of
 generated Rust locals

---
 src/generate_rust.rs | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/generate_rust.rs b/src/generate_rust.rs
index e5d76d0..556a4d3 100644
--- a/src/generate_rust.rs
+++ b/src/generate_rust.rs
@@ -642,8 +642,8 @@ fn write_schema<T: Write>(
                 if !&declaration.fields.is_empty() {
                     for field in &declaration.fields {
                         write_indentation(buffer, indentation + 2)?;
-                        write!(buffer, "let _")?;
-                        write_identifier(buffer, &field.name, Snake, None)?;
+                        write!(buffer, "let ")?;
+                        write_local(buffer, &field.name)?;
                         match field.rule {
                             schema::Rule::Asymmetric | schema::Rule::Required => {
                                 write!(buffer, " = {{ let payload = &self.")?;
@@ -692,13 +692,12 @@ fn write_schema<T: Write>(
                     }
                     match field.rule {
                         schema::Rule::Asymmetric | schema::Rule::Required => {
-                            write!(buffer, "{{ let payload_atlas = &_")?;
-                            write_identifier(buffer, &field.name, Snake, None)?;
+                            write!(buffer, "{{ let payload_atlas = &")?;
+                            write_local(buffer, &field.name)?;
                             write!(buffer, "; let payload_size = ")?;
                         }
                         schema::Rule::Optional => {
-                            write!(buffer, "_")?;
-                            write_identifier(buffer, &field.name, Snake, None)?;
+                            write_local(buffer, &field.name)?;
                             write!(
                                 buffer,
                                 ".as_ref().map_or(0_usize, |payload_atlas| {{ let payload_size = ",
@@ -725,8 +724,8 @@ fn write_schema<T: Write>(
                 for field in &declaration.fields {
                     write_indentation(buffer, indentation + 3)?;
                     write_identifier(buffer, &field.name, Snake, None)?;
-                    write!(buffer, ": _")?;
-                    write_identifier(buffer, &field.name, Snake, None)?;
+                    write!(buffer, ": ")?;
+                    write_local(buffer, &field.name)?;
                     writeln!(buffer, ",")?;
                 }
                 write_indentation(buffer, indentation + 2)?;
@@ -817,8 +816,8 @@ fn write_schema<T: Write>(
                 if !&declaration.fields.is_empty() {
                     for field in &declaration.fields {
                         write_indentation(buffer, indentation + 2)?;
-                        write!(buffer, "let mut _")?;
-                        write_identifier(buffer, &field.name, Snake, None)?;
+                        write!(buffer, "let mut ")?;
+                        write_local(buffer, &field.name)?;
                         write!(buffer, ": Option<")?;
                         write_type(buffer, &imports, namespace, &field.r#type.variant, In)?;
                         writeln!(buffer, "> = None;")?;
@@ -874,8 +873,7 @@ fn write_schema<T: Write>(
                         true,
                     )?;
                     write_indentation(buffer, indentation + 5)?;
-                    write!(buffer, "_")?;
-                    write_identifier(buffer, &field.name, Snake, None)?;
+                    write_local(buffer, &field.name)?;
                     writeln!(buffer, ".get_or_insert(payload);")?;
                     write_indentation(buffer, indentation + 4)?;
                     writeln!(buffer, "}}")?;
@@ -912,8 +910,7 @@ fn write_schema<T: Write>(
                                     write_indentation(buffer, indentation + 3)?;
                                     write!(buffer, "|| ")?;
                                 }
-                                write!(buffer, "_")?;
-                                write_identifier(buffer, &field.name, Snake, None)?;
+                                write_local(buffer, &field.name)?;
                                 write!(buffer, ".is_none()")?;
                             }
                         }
@@ -939,8 +936,8 @@ fn write_schema<T: Write>(
                 for field in &declaration.fields {
                     write_indentation(buffer, indentation + 3)?;
                     write_identifier(buffer, &field.name, Snake, None)?;
-                    write!(buffer, ": _")?;
-                    write_identifier(buffer, &field.name, Snake, None)?;
+                    write!(buffer, ": ")?;
+                    write_local(buffer, &field.name)?;
                     match field.rule {
                         schema::Rule::Asymmetric | schema::Rule::Optional => {}
                         schema::Rule::Required => {
@@ -1756,6 +1753,12 @@ fn write_identifier<T: Write>(
     Ok(())
 }
 
+// Write the name of the local variable corresponding to a field. The leading underscore ensures the
+// result is not a keyword, so there is no need for a raw identifier.
+fn write_local<T: Write>(buffer: &mut T, field_name: &Identifier) -> Result<(), fmt::Error> {
+    write!(buffer, "_{}", field_name.snake_case())
+}
+
 // Write the given level of indentation.
 fn write_indentation<T: Write>(buffer: &mut T, indentation: usize) -> Result<(), fmt::Error> {
     for _ in 0..indentation {
-- 
2.43.0


From 6cbbe62dc3bd154eb34dc67bf1633e67400478fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 03/21] fix: don't use raw identifiers for Rust keywords which
 don't support them

---
 src/generate_rust.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/generate_rust.rs b/src/generate_rust.rs
index 556a4d3..39c5f98 100644
--- a/src/generate_rust.rs
+++ b/src/generate_rust.rs
@@ -73,6 +73,11 @@ const RUST_KEYWORDS: &[&str] = &[
     "yield",
 ];
 
+// These are the keywords above which cannot be used as raw identifiers. They are suffixed with an
+// underscore instead. There is no possibility of a collision, since converted identifiers never end
+// with an underscore.
+const RUST_KEYWORDS_WITHOUT_RAW_FORM: &[&str] = &["Self", "crate", "self", "super"];
+
 // This struct represents a tree of schemas organized in a module hierarchy.
 #[derive(Clone, Debug)]
 struct Module {
@@ -1741,6 +1746,12 @@ fn write_identifier<T: Write>(
         CaseConvention::Snake => identifier_with_suffix.snake_case(),
     };
 
+    if RUST_KEYWORDS_WITHOUT_RAW_FORM.contains(&converted_identifier.as_str()) {
+        write!(buffer, "{converted_identifier}_")?;
+
+        return Ok(());
+    }
+
     if RUST_KEYWORDS
         .iter()
         .any(|keyword| converted_identifier == *keyword)
-- 
2.43.0


From efea0c4020a7dbe4c771ada4ed5df8d6aa4db2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 04/21] fix: reject raw identifiers which begin with a digit

---
 src/tokenizer.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index d02ca21..5856540 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -204,6 +204,17 @@ pub fn tokenize(schema_path: &Path, schema_contents: &str) -> Result<Vec<Token>,
                         ));
                     }
 
+                    if schema_contents[start..end]
+                        .starts_with(|first: char| first.is_numeric() && !first.is_alphabetic())
+                    {
+                        errors.push(throw::<Error>(
+                            "Identifiers cannot begin with a digit.",
+                            Some(schema_path),
+                            Some(&listing(schema_contents, SourceRange { start: i, end })),
+                            None,
+                        ));
+                    }
+
                     tokens.push(Token {
                         source_range: SourceRange { start: i, end },
                         variant: Variant::Identifier(schema_contents[start..end].into()),
-- 
2.43.0


From cdea7c5ab7033bed0a91ecf0a27760350a3fddc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 05/21] fix: preserve the sigils of raw identifiers when
 formatting schemas

---
 src/schema.rs    | 35 +++++++++++++++++++++++++----------
 src/token.rs     | 18 ++++++++++++++++++
 src/tokenizer.rs |  2 +-
 3 files changed, 44 insertions(+), 11 deletions(-)

diff --git a/src/schema.rs b/src/schema.rs
index a23bcdb..1ab2439 100644
--- a/src/schema.rs
+++ b/src/schema.rs
@@ -4,9 +4,10 @@ use {
         identifier::Identifier,
         token::{
             ASYMMETRIC_KEYWORD, AS_KEYWORD, BOOL_KEYWORD, BYTES_KEYWORD, CHOICE_KEYWORD,
-            DELETED_KEYWORD, F64_KEYWORD, IMPORT_KEYWORD, OPTIONAL_KEYWORD, S64_KEYWORD,
+            DELETED_KEYWORD, F64_KEYWORD, IMPORT_KEYWORD, KEYWORDS, OPTIONAL_KEYWORD, S64_KEYWORD,
             STRING_KEYWORD, STRUCT_KEYWORD, U64_KEYWORD, UNIT_KEYWORD,
         },
+        tokenizer::RAW_IDENTIFIER_SIGIL,
     },
     std::{
         collections::{BTreeMap, BTreeSet},
@@ -120,6 +121,16 @@ pub fn relativize_namespace(namespace1: &Namespace, namespace2: &Namespace) -> (
     )
 }
 
+// Write an identifier which has already been converted to the desired case, prefixing it with a sigil
+// if it would otherwise be read back as a keyword.
+fn write_identifier<W: Write>(converted_identifier: &str, f: &mut W) -> fmt::Result {
+    if KEYWORDS.contains(&converted_identifier) {
+        write!(f, "{RAW_IDENTIFIER_SIGIL}")?;
+    }
+
+    write!(f, "{converted_identifier}")
+}
+
 // Write the paragraphs of a comment separated by line breaks.
 fn write_comment<W: Write>(indentation: &str, paragraphs: &[String], f: &mut W) -> fmt::Result {
     for (i, paragraph) in paragraphs.iter().enumerate() {
@@ -174,14 +185,15 @@ impl Import {
         {
             writeln!(f, "{} '{}'", IMPORT_KEYWORD, self.path.display())
         } else {
-            writeln!(
+            write!(
                 f,
-                "{} '{}' {} {}",
+                "{} '{}' {} ",
                 IMPORT_KEYWORD,
                 self.path.display(),
                 AS_KEYWORD,
-                name.snake_case(),
-            )
+            )?;
+            write_identifier(&name.snake_case(), f)?;
+            writeln!(f)
         }
     }
 }
@@ -192,7 +204,9 @@ impl Declaration {
 
         self.variant.write(f)?;
 
-        writeln!(f, " {} {{", self.name.pascal_case())?;
+        write!(f, " ")?;
+        write_identifier(&self.name.pascal_case(), f)?;
+        writeln!(f, " {{")?;
 
         let mut previous_field_has_comment = false;
 
@@ -249,7 +263,7 @@ impl Field {
             }
         }
 
-        write!(f, "{}", self.name.snake_case())?;
+        write_identifier(&self.name.snake_case(), f)?;
 
         if let TypeVariant::Unit = self.r#type.variant {
         } else {
@@ -281,10 +295,11 @@ impl TypeVariant {
             }
             Self::Custom(import, name) => {
                 if let Some(import) = import {
-                    write!(f, "{}.{}", import.snake_case(), name.pascal_case())?;
-                } else {
-                    write!(f, "{}", name.pascal_case())?;
+                    write_identifier(&import.snake_case(), f)?;
+                    write!(f, ".")?;
                 }
+
+                write_identifier(&name.pascal_case(), f)?;
             }
             Self::F64 => {
                 write!(f, "{F64_KEYWORD}")?;
diff --git a/src/token.rs b/src/token.rs
index 0cc8cb7..cbe8c30 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -22,6 +22,24 @@ pub const STRUCT_KEYWORD: &str = "struct";
 pub const U64_KEYWORD: &str = "U64";
 pub const UNIT_KEYWORD: &str = "Unit";
 
+// All the keywords
+pub const KEYWORDS: &[&str] = &[
+    ASYMMETRIC_KEYWORD,
+    AS_KEYWORD,
+    BOOL_KEYWORD,
+    BYTES_KEYWORD,
+    CHOICE_KEYWORD,
+    DELETED_KEYWORD,
+    F64_KEYWORD,
+    IMPORT_KEYWORD,
+    OPTIONAL_KEYWORD,
+    S64_KEYWORD,
+    STRING_KEYWORD,
+    STRUCT_KEYWORD,
+    U64_KEYWORD,
+    UNIT_KEYWORD,
+];
+
 // The first step of compilation is to split the source into a stream of tokens. This struct
 // represents a single token.
 #[derive(Clone, Debug)]
diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 5856540..45d47e3 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -13,7 +13,7 @@ use {
 };
 
 // An identifier can be prefixed with this character to avoid being parsed as a keyword.
-const RAW_IDENTIFIER_SIGIL: char = '$';
+pub const RAW_IDENTIFIER_SIGIL: char = '$';
 
 // Tokenize the contents of a schema file.
 #[allow(clippy::cognitive_complexity)]
-- 
2.43.0


From d11bd15b8d8bfc6fc2624c2479381a77db854be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 06/21] fix: don't break words in comments when formatting
 schemas

---
 src/schema.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/schema.rs b/src/schema.rs
index 1ab2439..de564a6 100644
--- a/src/schema.rs
+++ b/src/schema.rs
@@ -14,6 +14,7 @@ use {
         fmt::{self, Display, Formatter, Write},
         path::PathBuf,
     },
+    textwrap::{word_separators::AsciiSpace, word_splitters::NoHyphenation},
 };
 
 const MAX_COLUMNS: usize = 79;
@@ -138,7 +139,16 @@ fn write_comment<W: Write>(indentation: &str, paragraphs: &[String], f: &mut W)
             writeln!(f, "{indentation}#")?;
         }
 
-        for line in textwrap::fill(paragraph, MAX_COLUMNS - indentation.len() - 2).lines() {
+        // Only break lines between words, since line breaks will be understood as spaces when the
+        // comment is read back. Runs of whitespace are collapsed so that the result doesn't depend on
+        // where the line breaks happened to be.
+        let options = textwrap::Options::new(MAX_COLUMNS - indentation.len() - 2)
+            .break_words(false)
+            .word_separator(AsciiSpace)
+            .word_splitter(NoHyphenation);
+        let words = paragraph.split_whitespace().collect::<Vec<_>>();
+
+        for line in textwrap::fill(&words.join(" "), options).lines() {
             writeln!(f, "{indentation}# {line}")?;
         }
     }
-- 
2.43.0


From 39d7892739865b040cb6ea4bcb7b60dfc707ed7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:08 +0000
Subject: [PATCH 07/21] fix: reject names which collide in the generated code

---
 src/validator.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/validator.rs b/src/validator.rs
index c86ef1e..82b162f 100644
--- a/src/validator.rs
+++ b/src/validator.rs
@@ -39,10 +39,14 @@ pub fn validate(
     for (namespace, (schema, source_path, source_contents)) in schemas {
         // Validate the declarations in the file.
         let mut declaration_names = HashSet::new();
+        let mut declaration_pascal_names = HashSet::new();
 
         for declaration in &schema.declarations {
-            // Check that the name of the declaration is unique within the file.
-            if !declaration_names.insert(declaration.name.clone()) {
+            // Check that the name of the declaration is unique within the file. Distinct identifiers
+            // such as `foo1` and `foo_1` can have the same pascal case form.
+            if !declaration_names.insert(declaration.name.clone())
+                || !declaration_pascal_names.insert(declaration.name.pascal_case())
+            {
                 errors.push(throw::<Error>(
                     &format!(
                         "A declaration named {} already exists in this file.",
@@ -56,11 +60,15 @@ pub fn validate(
 
             // Validate the fields in the declaration.
             let mut field_names = HashSet::new();
+            let mut field_pascal_names = HashSet::new();
             let mut field_indices = HashSet::new();
 
             for field in &declaration.fields {
-                // Check that the name of the field is unique within the declaration.
-                if !field_names.insert(field.name.clone()) {
+                // Check that the name of the field is unique within the declaration. Distinct
+                // identifiers such as `foo1` and `foo_1` can have the same pascal case form.
+                if !field_names.insert(field.name.clone())
+                    || !field_pascal_names.insert(field.name.pascal_case())
+                {
                     errors.push(throw::<Error>(
                         &format!(
                             "A field named {} already exists in this declaration.",
-- 
2.43.0


From 08310300b6702bc676323fa07a77f5c9e3cfafb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 08/21] fix: report schemas whose paths correspond to the same
 namespace

---
 src/schema_loader.rs | 54 ++++++++++++++++++++++++--------------------
 1 file changed, 29 insertions(+), 25 deletions(-)

diff --git a/src/schema_loader.rs b/src/schema_loader.rs
index 4dbdb43..f1c76b7 100644
--- a/src/schema_loader.rs
+++ b/src/schema_loader.rs
@@ -8,7 +8,7 @@ use {
     },
     std::{
         borrow::ToOwned,
-        collections::{BTreeMap, HashSet},
+        collections::{BTreeMap, HashMap},
         fs::read_to_string,
         io::{self, ErrorKind},
         path::PathBuf,
@@ -124,8 +124,8 @@ pub fn load_schemas(
         based_schema_path.to_owned(),
         None as Option<(PathBuf, String)>,
     )];
-    let mut visited_namespaces = HashSet::new();
-    visited_namespaces.insert(schema_namespace);
+    let mut visited_namespaces = HashMap::new();
+    visited_namespaces.insert(schema_namespace, based_schema_path.to_owned());
 
     // Perform a depth-first traversal of the transitive dependencies.
     while let Some((namespace, path, origin)) = schemas_to_load.pop() {
@@ -228,32 +228,36 @@ pub fn load_schemas(
             let import_namespace = path_to_namespace(&based_import_path);
             import.namespace = Some(import_namespace.clone());
 
-            // Visit this import if it hasn't been visited already.
-            if !visited_namespaces.contains(&import_namespace) {
-                visited_namespaces.insert(import_namespace.clone());
-                schemas_to_load.push((
-                    import_namespace,
-                    based_import_path,
-                    Some((path.clone(), origin_listing)),
-                ));
+            // Visit this import if it hasn't been visited already. If a different file with the same
+            // namespace has been visited already, report the conflict.
+            match visited_namespaces.get(&import_namespace) {
+                Some(visited_path) if *visited_path == based_import_path => {}
+                Some(conflicting_schema_path) => {
+                    errors.push(throw::<Error>(
+                        &format!(
+                            "{} conflicts with {}, since both correspond to the same namespace {}.",
+                            based_import_path.to_string_lossy().code_str(),
+                            conflicting_schema_path.to_string_lossy().code_str(),
+                            import_namespace.to_string().code_str(),
+                        ),
+                        Some(&path),
+                        Some(&origin_listing),
+                        None,
+                    ));
+                }
+                None => {
+                    visited_namespaces.insert(import_namespace.clone(), based_import_path.clone());
+                    schemas_to_load.push((
+                        import_namespace,
+                        based_import_path,
+                        Some((path.clone(), origin_listing)),
+                    ));
+                }
             }
         }
 
         // Store the schema.
-        if let Some((_, conflicting_schema_path, _)) =
-            schemas.insert(namespace.clone(), (schema, path.clone(), contents))
-        {
-            errors.push(throw::<Error>(
-                &format!(
-                    "This file conflicts with {}, since both correspond to the same namespace {}.",
-                    conflicting_schema_path.to_string_lossy().code_str(),
-                    namespace.to_string().code_str(),
-                ),
-                Some(&path),
-                None,
-                None,
-            ));
-        }
+        schemas.insert(namespace, (schema, path, contents));
     }
 
     // Return a success or report any errors.
-- 
2.43.0


From 4d0eee2898d88101c3422225da97dce3d87310ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 09/21] fix: reject schema paths which don't correspond to
 valid namespaces

---
 src/schema_loader.rs | 41 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/src/schema_loader.rs b/src/schema_loader.rs
index f1c76b7..b31e82c 100644
--- a/src/schema_loader.rs
+++ b/src/schema_loader.rs
@@ -36,6 +36,17 @@ fn path_to_namespace(path: &Path) -> schema::Namespace {
     }
 }
 
+// Check whether every component of a namespace can be used as the name of a module in the generated
+// code.
+fn namespace_valid(namespace: &schema::Namespace) -> bool {
+    namespace.components.iter().all(|component| {
+        let name = component.snake_case();
+
+        name.starts_with(char::is_alphabetic)
+            && name.chars().all(|c| c.is_alphanumeric() || c == '_')
+    })
+}
+
 // Load a schema and its transitive dependencies. The imports in the returned schemas are guaranteed
 // to resolve.
 #[allow(clippy::too_many_lines)]
@@ -117,6 +128,21 @@ pub fn load_schemas(
     // [ref:based_schema_path_is_file_name].
     let schema_namespace = path_to_namespace(based_schema_path);
 
+    // Make sure the namespace is valid.
+    if !namespace_valid(&schema_namespace) {
+        errors.push(throw::<Error>(
+            &format!(
+                "{} is not a valid namespace.",
+                schema_namespace.to_string().code_str(),
+            ),
+            Some(based_schema_path),
+            None,
+            None,
+        ));
+
+        return Err(errors);
+    }
+
     // Initialize the "frontier" with the given path. Paths in the frontier are relative to
     // `base_path` [tag:frontier_paths_based].
     let mut schemas_to_load = vec![(
@@ -228,6 +254,21 @@ pub fn load_schemas(
             let import_namespace = path_to_namespace(&based_import_path);
             import.namespace = Some(import_namespace.clone());
 
+            // Make sure the namespace is valid.
+            if !namespace_valid(&import_namespace) {
+                errors.push(throw::<Error>(
+                    &format!(
+                        "{} is not a valid namespace.",
+                        import_namespace.to_string().code_str(),
+                    ),
+                    Some(&path),
+                    Some(&origin_listing),
+                    None,
+                ));
+
+                continue;
+            }
+
             // Visit this import if it hasn't been visited already. If a different file with the same
             // namespace has been visited already, report the conflict.
             match visited_namespaces.get(&import_namespace) {
-- 
2.43.0


From a24737ed173bc9b4833e18c6c7e53074d74d4e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 10/21] fix: don't use inherited object properties as
 TypeScript field names

---
 src/generate_typescript.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/generate_typescript.rs b/src/generate_typescript.rs
index 2c24b7a..9f9a8e6 100644
--- a/src/generate_typescript.rs
+++ b/src/generate_typescript.rs
@@ -95,6 +95,18 @@ const TYPESCRIPT_KEYWORDS: &[&str] = &[
     "yield",
 ];
 
+// These are the properties inherited by every object. The generated code uses the `in` operator to
+// determine which field of a choice is present, so these must not be used as the names of fields.
+// `constructor` is listed above.
+const TYPESCRIPT_OBJECT_PROPERTIES: &[&str] = &[
+    "hasOwnProperty",
+    "isPrototypeOf",
+    "propertyIsEnumerable",
+    "toLocaleString",
+    "toString",
+    "valueOf",
+];
+
 // This struct represents a tree of schemas organized in a module hierarchy.
 #[derive(Clone, Debug)]
 struct Module {
@@ -1696,6 +1708,7 @@ fn write_identifier<T: Write>(
 
     if TYPESCRIPT_KEYWORDS
         .iter()
+        .chain(TYPESCRIPT_OBJECT_PROPERTIES)
         .any(|keyword| converted_identifier == *keyword)
     {
         write!(buffer, "_")?;
-- 
2.43.0


From 3bd27e297a98d01ebc048bfb4de66c4c03f5da08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:25 +0000
Subject: [PATCH 11/21] fix: attach the first comment of a schema by blank
 lines rather than by indentation

---
 src/parser.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 17d09e8..8f24858 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -249,8 +249,12 @@ fn parse_schema(
             if *position + 1 < tokens.len() {
                 match tokens[*position + 1].variant {
                     token::Variant::Struct | token::Variant::Choice => {
-                        if tokens[*position].source_range.end + 1
-                            < tokens[*position + 1].source_range.start
+                        // The comment belongs to the declaration unless a blank line separates them.
+                        if source_contents[tokens[*position].source_range.end
+                            ..tokens[*position + 1].source_range.start]
+                            .matches('\n')
+                            .count()
+                            > 1
                         {
                             comment.clone_from(paragraphs);
                             *position += 1;
-- 
2.43.0


From 76627dc824c27c9e4afc5aa41dc8c684ee07dd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:18 +0000
Subject: [PATCH 12/21] fix: keep names whose case cannot be converted when
 formatting

---
 src/schema.rs | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/schema.rs b/src/schema.rs
index de564a6..633a609 100644
--- a/src/schema.rs
+++ b/src/schema.rs
@@ -122,14 +122,29 @@ pub fn relativize_namespace(namespace1: &Namespace, namespace2: &Namespace) -> (
     )
 }
 
-// Write an identifier which has already been converted to the desired case, prefixing it with a sigil
-// if it would otherwise be read back as a keyword.
-fn write_identifier<W: Write>(converted_identifier: &str, f: &mut W) -> fmt::Result {
-    if KEYWORDS.contains(&converted_identifier) {
+// Write an identifier in the given case, prefixing it with a sigil if it would otherwise be read back
+// as a keyword. The original form is kept for names with unusual letters for which the conversion
+// would result in something else, such as combining characters.
+fn write_identifier<W: Write>(
+    identifier: &Identifier,
+    converted_identifier: &str,
+    f: &mut W,
+) -> fmt::Result {
+    let written_identifier = if converted_identifier
+        .chars()
+        .all(|c| c.is_alphanumeric() || c == '_')
+        && Identifier::from(converted_identifier).pascal_case() == identifier.pascal_case()
+    {
+        converted_identifier
+    } else {
+        identifier.original()
+    };
+
+    if KEYWORDS.contains(&written_identifier) {
         write!(f, "{RAW_IDENTIFIER_SIGIL}")?;
     }
 
-    write!(f, "{converted_identifier}")
+    write!(f, "{written_identifier}")
 }
 
 // Write the paragraphs of a comment separated by line breaks.
@@ -202,7 +217,7 @@ impl Import {
                 self.path.display(),
                 AS_KEYWORD,
             )?;
-            write_identifier(&name.snake_case(), f)?;
+            write_identifier(name, &name.snake_case(), f)?;
             writeln!(f)
         }
     }
@@ -215,7 +230,7 @@ impl Declaration {
         self.variant.write(f)?;
 
         write!(f, " ")?;
-        write_identifier(&self.name.pascal_case(), f)?;
+        write_identifier(&self.name, &self.name.pascal_case(), f)?;
         writeln!(f, " {{")?;
 
         let mut previous_field_has_comment = false;
@@ -273,7 +288,7 @@ impl Field {
             }
         }
 
-        write_identifier(&self.name.snake_case(), f)?;
+        write_identifier(&self.name, &self.name.snake_case(), f)?;
 
         if let TypeVariant::Unit = self.r#type.variant {
         } else {
@@ -305,11 +320,11 @@ impl TypeVariant {
             }
             Self::Custom(import, name) => {
                 if let Some(import) = import {
-                    write_identifier(&import.snake_case(), f)?;
+                    write_identifier(import, &import.snake_case(), f)?;
                     write!(f, ".")?;
                 }
 
-                write_identifier(&name.pascal_case(), f)?;
+                write_identifier(name, &name.pascal_case(), f)?;
             }
             Self::F64 => {
                 write!(f, "{F64_KEYWORD}")?;
-- 
2.43.0


From 67dfbb417e6154c7e7a9d83727f2cf5717f3c5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:52 +0000
Subject: [PATCH 13/21] fix: files such as `..t` have no valid namespace rather
 than crashing the tool

---
 src/schema_loader.rs | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/schema_loader.rs b/src/schema_loader.rs
index b31e82c..116716c 100644
--- a/src/schema_loader.rs
+++ b/src/schema_loader.rs
@@ -19,19 +19,28 @@ use {
 // Convert a path to a namespace. This function will panic if the path cannot be converted into a
 // namespace (e.g., because it contains `..`).
 fn path_to_namespace(path: &Path) -> schema::Namespace {
-    let mut path = path.to_owned();
-    path.set_extension("");
+    // Note that the file stem isn't necessarily a normal path component, e.g., if the file is called
+    // `..t`. So we have to look at the components before we drop the extension.
+    let mut components = path
+        .components()
+        .map(|component| {
+            if let Component::Normal(component) = component {
+                component
+            } else {
+                panic!()
+            }
+        })
+        .collect::<Vec<_>>();
+
+    if let Some(file_stem) = path.file_stem() {
+        components.pop();
+        components.push(file_stem);
+    }
 
     schema::Namespace {
-        components: path
-            .components()
-            .map(|component| {
-                if let Component::Normal(component) = component {
-                    component.to_string_lossy().to_string().as_str().into()
-                } else {
-                    panic!()
-                }
-            })
+        components: components
+            .iter()
+            .map(|component| component.to_string_lossy().to_string().as_str().into())
             .collect(),
     }
 }
-- 
2.43.0


From fac341fc89b8e9910c59a84f87e9625e8b582b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:32 +0000
Subject: [PATCH 14/21] fix: rename modules that would hide names which the
 generated Rust code needs

---
 src/generate_rust.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/generate_rust.rs b/src/generate_rust.rs
index 39c5f98..73575fe 100644
--- a/src/generate_rust.rs
+++ b/src/generate_rust.rs
@@ -78,6 +78,12 @@ const RUST_KEYWORDS: &[&str] = &[
 // with an underscore.
 const RUST_KEYWORDS_WITHOUT_RAW_FORM: &[&str] = &["Self", "crate", "self", "super"];
 
+// These are the names which the generated code uses to refer to things outside of it, so these must
+// not be used as the names of modules.
+const RUST_RESERVED_MODULE_NAMES: &[&str] = &[
+    "bool", "f64", "i64", "io", "std", "u8", "u32", "u64", "usize",
+];
+
 // This struct represents a tree of schemas organized in a module hierarchy.
 #[derive(Clone, Debug)]
 struct Module {
@@ -457,7 +463,7 @@ fn write_module<T: Write>(
 ) -> Result<(), fmt::Error> {
     write_indentation(buffer, indentation)?;
     write!(buffer, "pub mod ")?;
-    write_identifier(buffer, name, Snake, None)?;
+    write_module_name(buffer, name)?;
     writeln!(buffer, " {{")?;
 
     let mut new_namespace = namespace.clone();
@@ -1669,7 +1675,7 @@ fn write_type<T: Write>(
             write_supers(buffer, ancestors)?;
 
             for component in relative_type_namespace.components {
-                write_identifier(buffer, &component, Snake, None)?;
+                write_module_name(buffer, &component)?;
                 write!(buffer, "::")?;
             }
 
@@ -1720,6 +1726,17 @@ fn write_type<T: Write>(
     Ok(())
 }
 
+// Write the name of a module in a way that Rust will be happy with.
+fn write_module_name<T: Write>(buffer: &mut T, name: &Identifier) -> Result<(), fmt::Error> {
+    write_identifier(buffer, name, Snake, None)?;
+
+    if RUST_RESERVED_MODULE_NAMES.contains(&name.snake_case().as_str()) {
+        write!(buffer, "_")?;
+    }
+
+    Ok(())
+}
+
 // Write an identifier with an optional direction suffix in a way that Rust will be happy with.
 fn write_identifier<T: Write>(
     buffer: &mut T,
-- 
2.43.0


From b4f8638157fbf659acec5e96495956cc0fee8f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:32 +0000
Subject: [PATCH 15/21] fix: rename namespaces that would hide global objects
 which the generated TypeScript code needs

---
 src/generate_typescript.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/generate_typescript.rs b/src/generate_typescript.rs
index 9f9a8e6..8799548 100644
--- a/src/generate_typescript.rs
+++ b/src/generate_typescript.rs
@@ -107,6 +107,22 @@ const TYPESCRIPT_OBJECT_PROPERTIES: &[&str] = &[
     "valueOf",
 ];
 
+// These are the global objects used by the generated code, so these must not be used as the names of
+// namespaces.
+const TYPESCRIPT_GLOBAL_OBJECTS: &[&str] = &[
+    "Array",
+    "ArrayBuffer",
+    "BigInt",
+    "DataView",
+    "Error",
+    "Number",
+    "Object",
+    "RangeError",
+    "TextDecoder",
+    "TextEncoder",
+    "Uint8Array",
+];
+
 // This struct represents a tree of schemas organized in a module hierarchy.
 #[derive(Clone, Debug)]
 struct Module {
@@ -1709,6 +1725,7 @@ fn write_identifier<T: Write>(
     if TYPESCRIPT_KEYWORDS
         .iter()
         .chain(TYPESCRIPT_OBJECT_PROPERTIES)
+        .chain(TYPESCRIPT_GLOBAL_OBJECTS)
         .any(|keyword| converted_identifier == *keyword)
     {
         write!(buffer, "_")?;
-- 
2.43.0


From 43e5657f7c16099656e8c64afc253d64f3d41761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:32 +0000
Subject: [PATCH 16/21] fix: refer to top-level namespaces by aliases where
 nested ones would hide them

---
 src/generate_typescript.rs | 126 +++++++++++++++++++++++++++++++++++--
 1 file changed, 122 insertions(+), 4 deletions(-)

diff --git a/src/generate_typescript.rs b/src/generate_typescript.rs
index 8799548..1e53e6d 100644
--- a/src/generate_typescript.rs
+++ b/src/generate_typescript.rs
@@ -1,7 +1,7 @@
 use {
     crate::{identifier::Identifier, schema},
     std::{
-        collections::BTreeMap,
+        collections::{BTreeMap, BTreeSet},
         fmt::{self, Write},
         path::PathBuf,
     },
@@ -170,6 +170,9 @@ pub fn generate(
         insert_schema(&mut tree, namespace, schema);
     }
 
+    // Determine which of the top-level namespaces need aliases.
+    let aliases = compute_aliases(schemas);
+
     // Write the code.
     let mut buffer = String::new();
 
@@ -486,16 +489,121 @@ const textDecoder = new TextDecoder();",
         write_module_contents(
             &mut buffer,
             0,
+            &aliases,
             &schema::Namespace { components: vec![] },
             &tree.children,
             &tree.schema,
         )
         .unwrap();
+
+        // The `unwrap` is safe because the `std::fmt::Write` impl for `String` is infallible.
+        write_aliases(&mut buffer, &aliases).unwrap();
     }
 
     buffer
 }
 
+// The generated code refers to types by their full paths. However, if a nested namespace has the same
+// name as a top-level one, the former would hide the latter. This function determines which top-level
+// namespaces are affected by that and chooses an alias for each of them.
+fn compute_aliases(
+    schemas: &BTreeMap<schema::Namespace, (schema::Schema, PathBuf, String)>,
+) -> BTreeMap<Identifier, Identifier> {
+    // Collect the names of the nested namespaces and the top-level namespaces which are referred to.
+    let mut top_level = BTreeSet::new();
+    let mut nested = BTreeSet::new();
+    let mut referenced = BTreeSet::new();
+
+    for (namespace, (schema, _, _)) in schemas {
+        top_level.extend(namespace.components.first().map(Identifier::pascal_case));
+        nested.extend(
+            namespace
+                .components
+                .iter()
+                .skip(1)
+                .map(Identifier::pascal_case),
+        );
+
+        for declaration in &schema.declarations {
+            nested.insert(declaration.name.pascal_case());
+
+            for field in &declaration.fields {
+                let mut variant = &field.r#type.variant;
+
+                while let schema::TypeVariant::Array(inner_type) = variant {
+                    variant = &inner_type.variant;
+                }
+
+                if let schema::TypeVariant::Custom(import, _) = variant {
+                    referenced.extend(
+                        import
+                            .as_ref()
+                            .map_or(Some(namespace), |import| {
+                                schema.imports[import].namespace.as_ref()
+                            })
+                            .and_then(|namespace| namespace.components.first()),
+                    );
+                }
+            }
+        }
+    }
+
+    // Choose names for the aliases that don't conflict with anything.
+    let mut aliases = BTreeMap::new();
+
+    for name in referenced {
+        if nested.contains(&name.pascal_case()) {
+            let mut alias = name.clone();
+
+            while top_level.contains(&alias.pascal_case()) || nested.contains(&alias.pascal_case())
+            {
+                alias = alias.join(&"Namespace".into());
+            }
+
+            top_level.insert(alias.pascal_case());
+            aliases.insert(name.clone(), alias);
+        }
+    }
+
+    aliases
+}
+
+// Write the aliases of top-level namespaces, including a trailing line break if there are any.
+fn write_aliases<T: Write>(
+    buffer: &mut T,
+    aliases: &BTreeMap<Identifier, Identifier>,
+) -> Result<(), fmt::Error> {
+    if !aliases.is_empty() {
+        writeln!(buffer)?;
+    }
+
+    for (name, alias) in aliases {
+        write!(buffer, "import ")?;
+        write_identifier(buffer, alias, Pascal, None)?;
+        write!(buffer, " = ")?;
+        write_identifier(buffer, name, Pascal, None)?;
+        writeln!(buffer, ";")?;
+    }
+
+    Ok(())
+}
+
+// If the first component of a namespace has an alias, replace it with that alias.
+fn apply_aliases(
+    aliases: &BTreeMap<Identifier, Identifier>,
+    namespace: &schema::Namespace,
+) -> schema::Namespace {
+    let mut namespace = namespace.clone();
+
+    if let Some(first) = namespace.components.first_mut() {
+        if let Some(alias) = aliases.get(first) {
+            *first = alias.clone();
+        }
+    }
+
+    namespace
+}
+
 // Insert a schema into a module.
 fn insert_schema(module: &mut Module, namespace: &schema::Namespace, schema: &schema::Schema) {
     let mut iter = namespace.components.iter();
@@ -538,6 +646,7 @@ fn insert_schema(module: &mut Module, namespace: &schema::Namespace, schema: &sc
 fn write_module<T: Write>(
     buffer: &mut T,
     indentation: usize,
+    aliases: &BTreeMap<Identifier, Identifier>,
     namespace: &schema::Namespace,
     name: &Identifier,
     module: &Module,
@@ -553,6 +662,7 @@ fn write_module<T: Write>(
     write_module_contents(
         buffer,
         indentation + 1,
+        aliases,
         &new_namespace,
         &module.children,
         &module.schema,
@@ -568,6 +678,7 @@ fn write_module<T: Write>(
 fn write_module_contents<T: Write>(
     buffer: &mut T,
     indentation: usize,
+    aliases: &BTreeMap<Identifier, Identifier>,
     namespace: &schema::Namespace,
     children: &BTreeMap<Identifier, Module>,
     schema: &schema::Schema,
@@ -575,14 +686,14 @@ fn write_module_contents<T: Write>(
     let schema_empty = schema.declarations.is_empty();
 
     for (i, (child_name, child)) in children.iter().enumerate() {
-        write_module(buffer, indentation, namespace, child_name, child)?;
+        write_module(buffer, indentation, aliases, namespace, child_name, child)?;
 
         if i < children.len() - 1 || !schema_empty {
             writeln!(buffer)?;
         }
     }
 
-    write_schema(buffer, indentation, namespace, schema)?;
+    write_schema(buffer, indentation, aliases, namespace, schema)?;
 
     Ok(())
 }
@@ -592,6 +703,7 @@ fn write_module_contents<T: Write>(
 fn write_schema<T: Write>(
     buffer: &mut T,
     indentation: usize,
+    aliases: &BTreeMap<Identifier, Identifier>,
     namespace: &schema::Namespace,
     schema: &schema::Schema,
 ) -> Result<(), fmt::Error> {
@@ -599,9 +711,15 @@ fn write_schema<T: Write>(
     let mut imports = BTreeMap::new();
     for (name, import) in &schema.imports {
         // The `unwrap` is safe due to [ref:namespace_populated].
-        imports.insert(name.clone(), import.namespace.clone().unwrap());
+        imports.insert(
+            name.clone(),
+            apply_aliases(aliases, import.namespace.as_ref().unwrap()),
+        );
     }
 
+    // Types in this schema are referred to by their full paths as well.
+    let namespace = &apply_aliases(aliases, namespace);
+
     // Write the declarations.
     let mut iter = schema.declarations.iter().peekable();
     while let Some(declaration) = iter.next() {
-- 
2.43.0


From 8d26a32011a34528672f56f56f8897582b18fbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:28 +0000
Subject: [PATCH 17/21] fix: don't panic if STDERR can't be written to

---
 src/main.rs | 44 +++++++++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index e2f1bc3..43bd9c0 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -25,7 +25,7 @@ use {
     clap::{App, AppSettings, Arg, Shell, SubCommand},
     std::{
         fs::{create_dir_all, write},
-        io::stdout,
+        io::{stderr, stdout, Write},
         path::Path,
         process::exit,
     },
@@ -49,6 +49,14 @@ const FORMAT_SUBCOMMAND_CHECK_OPTION: &str = "check";
 const SHELL_COMPLETION_SUBCOMMAND: &str = "shell-completion";
 const SHELL_COMPLETION_SUBCOMMAND_SHELL_OPTION: &str = "shell-completion-shell";
 
+// Print a line to STDERR. Unlike with `eprintln!`, it's not fatal if that fails (e.g., because STDERR
+// is a broken pipe), since there is nothing better to do than to carry on.
+macro_rules! log {
+    ($($argument:tt)*) => {
+        let _ = writeln!(stderr(), $($argument)*);
+    };
+}
+
 // Set up the command-line interface.
 fn cli<'a, 'b>() -> App<'a, 'b> {
     App::new("Typical")
@@ -132,17 +140,17 @@ fn generate_code(
     typescript: Option<&Path>,
 ) -> Result<(), Error> {
     // Load the schema and its transitive dependencies.
-    eprintln!("Loading schemas\u{2026}");
+    log!("Loading schemas\u{2026}");
     let schemas = load_schemas(path).map_err(|errors| merge_errors(&errors))?;
-    eprintln!("{} loaded.", count(schemas.len(), "schema"));
+    log!("{} loaded.", count(schemas.len(), "schema"));
 
     // Validate the schemas.
-    eprintln!("Validating schemas\u{2026}");
+    log!("Validating schemas\u{2026}");
     validate(&schemas).map_err(|errors| merge_errors(&errors))?;
 
     // Print the schema paths, if applicable.
     if list_schemas {
-        eprintln!("Listing schemas\u{2026}");
+        log!("Listing schemas\u{2026}");
 
         // The `unwrap` is safe since otherwise the schema would've failed to load above.
         let directory = path.parent().unwrap();
@@ -154,7 +162,7 @@ fn generate_code(
 
     // Generate Rust code, if applicable.
     if let Some(rust) = rust {
-        eprintln!("Generating Rust\u{2026}");
+        log!("Generating Rust\u{2026}");
 
         // Create any missing intermediate directories as needed.
         if let Some(parent) = rust.parent() {
@@ -169,7 +177,7 @@ fn generate_code(
         }
 
         // Generate the code and write it to the file.
-        eprintln!("Writing {}\u{2026}", rust.to_string_lossy().code_str());
+        log!("Writing {}\u{2026}", rust.to_string_lossy().code_str());
         write(rust, generate_rust::generate(VERSION, &schemas)).map_err(|error| {
             throw(
                 &format!("Unable to write {}.", rust.to_string_lossy().code_str()),
@@ -182,7 +190,7 @@ fn generate_code(
 
     // Generate TypeScript code, if applicable.
     if let Some(typescript) = typescript {
-        eprintln!("Generating TypeScript\u{2026}");
+        log!("Generating TypeScript\u{2026}");
 
         // Create any missing intermediate directories as needed.
         if let Some(parent) = typescript.parent() {
@@ -197,7 +205,7 @@ fn generate_code(
         }
 
         // Generate the code and write it to the file.
-        eprintln!(
+        log!(
             "Writing {}\u{2026}",
             typescript.to_string_lossy().code_str(),
         );
@@ -214,16 +222,16 @@ fn generate_code(
         })?;
     }
 
-    eprintln!("Done.");
+    log!("Done.");
     Ok(())
 }
 
 // Format a schema and its transitive dependencies.
 fn format_schema(path: &Path, check: bool) -> Result<(), Error> {
     // Load the schema and its transitive dependencies.
-    eprintln!("Loading schemas\u{2026}");
+    log!("Loading schemas\u{2026}");
     let schemas = load_schemas(path).map_err(|errors| merge_errors(&errors))?;
-    eprintln!("{} loaded.", count(schemas.len(), "schema"));
+    log!("{} loaded.", count(schemas.len(), "schema"));
 
     // This flag will be set if any changes were made to any of the schemas.
     let mut any_schema_updated = false;
@@ -233,7 +241,7 @@ fn format_schema(path: &Path, check: bool) -> Result<(), Error> {
     let directory = path.parent().unwrap();
 
     // Format the schemas.
-    eprintln!(
+    log!(
         "{} schemas\u{2026}",
         if check { "Checking" } else { "Formatting" },
     );
@@ -241,7 +249,7 @@ fn format_schema(path: &Path, check: bool) -> Result<(), Error> {
         // Compute the full path and new contents of the schema.
         let full_source_path = directory.join(source_path);
         let new_source_contents = schema.to_string();
-        eprintln!("  {}", full_source_path.to_string_lossy().code_str());
+        log!("  {}", full_source_path.to_string_lossy().code_str());
 
         // Check if the contents changed.
         let updated = *source_contents != new_source_contents;
@@ -276,7 +284,7 @@ fn format_schema(path: &Path, check: bool) -> Result<(), Error> {
         ));
     }
 
-    eprintln!("Done.");
+    log!("Done.");
     Ok(())
 }
 
@@ -310,7 +318,9 @@ fn shell_completion(shell: &str) -> Result<(), Error> {
 // Program entrypoint
 fn entry() -> Result<(), Error> {
     // Parse command-line arguments.
-    let matches = cli().get_matches();
+    let matches = cli()
+        .get_matches_safe()
+        .unwrap_or_else(|error| error.exit());
 
     // Decide what to do based on the subcommand.
     match matches.subcommand_name() {
@@ -394,7 +404,7 @@ fn entry() -> Result<(), Error> {
 fn main() {
     // Jump to the entrypoint and report any resulting errors.
     if let Err(e) = entry() {
-        eprintln!("{e}");
+        log!("{e}");
         exit(1);
     }
 }
-- 
2.43.0


From fabd06cbf5e15d5221b6b980f84b18089e14625a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:29 +0000
Subject: [PATCH 18/21] fix: report an error rather than panic if STDOUT can't
 be written to

---
 src/main.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 43bd9c0..ff02353 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -156,7 +156,12 @@ fn generate_code(
         let directory = path.parent().unwrap();
 
         for (_, source_path, _) in schemas.values() {
-            println!("{}", directory.join(source_path).to_string_lossy());
+            writeln!(
+                stdout(),
+                "{}",
+                directory.join(source_path).to_string_lossy(),
+            )
+            .map_err(|error| throw("Unable to write to STDOUT.", None, None, Some(error)))?;
         }
     }
 
@@ -308,8 +313,13 @@ fn shell_completion(shell: &str) -> Result<(), Error> {
         }
     };
 
-    // Write the script to STDOUT.
-    cli().gen_completions_to(BIN_NAME, shell_variant, &mut stdout());
+    // Generate the script. Clap panics if it can't write it, so we write it to STDOUT ourselves.
+    let mut script = vec![];
+    cli().gen_completions_to(BIN_NAME, shell_variant, &mut script);
+    stdout()
+        .write_all(&script)
+        .and_then(|()| stdout().flush())
+        .map_err(|error| throw("Unable to write to STDOUT.", None, None, Some(error)))?;
 
     // If we made it this far, nothing went wrong.
     Ok(())
-- 
2.43.0


From 7bff80ef4642bc046f02b56841d8ba2daf7d8f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:30 +0000
Subject: [PATCH 19/21] fix: reject arguments which aren't UTF-8 rather than
 panic

---
 src/main.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index ff02353..f3a6a2a 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -24,6 +24,7 @@ use {
     },
     clap::{App, AppSettings, Arg, Shell, SubCommand},
     std::{
+        env::args_os,
         fs::{create_dir_all, write},
         io::{stderr, stdout, Write},
         path::Path,
@@ -327,6 +328,19 @@ fn shell_completion(shell: &str) -> Result<(), Error> {
 
 // Program entrypoint
 fn entry() -> Result<(), Error> {
+    // Clap panics in some situations if it's given an argument that isn't valid UTF-8.
+    if let Some(argument) = args_os().skip(1).find(|arg| arg.to_str().is_none()) {
+        return Err(throw::<Error>(
+            &format!(
+                "Invalid argument {}. Arguments must be valid UTF-8.",
+                argument.to_string_lossy().code_str(),
+            ),
+            None,
+            None,
+            None,
+        ));
+    }
+
     // Parse command-line arguments.
     let matches = cli()
         .get_matches_safe()
-- 
2.43.0


From 52d69ed2b50d0b11e6dd2d835cab39796a07afa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:31 +0000
Subject: [PATCH 20/21] fix: show the line with an unexpected symbol

The listing was of an empty range, so nothing was shown for a symbol at the
beginning of a line.
---
 src/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 45d47e3..204e6e6 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -383,7 +383,7 @@ pub fn tokenize(schema_path: &Path, schema_contents: &str) -> Result<Vec<Token>,
                 errors.push(throw::<Error>(
                     &format!("Unexpected symbol {}.", &schema_contents[i..end].code_str()),
                     Some(schema_path),
-                    Some(&listing(schema_contents, SourceRange { start: i, end: i })),
+                    Some(&listing(schema_contents, SourceRange { start: i, end })),
                     None,
                 ));
             }
-- 
2.43.0


From a922b5b2fffb712a14aa52984cd6784fff2c857d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:27:40 +0000
Subject: [PATCH 21/21] fix: treat gen as a keyword of Rust (edition 2024)

---
 src/generate_rust.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/generate_rust.rs b/src/generate_rust.rs
index 73575fe..53630b6 100644
--- a/src/generate_rust.rs
+++ b/src/generate_rust.rs
@@ -38,6 +38,7 @@ const RUST_KEYWORDS: &[&str] = &[
     "final",
     "fn",
     "for",
+    "gen",
     "if",
     "impl",
     "in",
-- 
2.43.0

