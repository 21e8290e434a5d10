From b2cb1ca3506d45b74840c33063e41a7786464ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 01/24] fix: cut the keyword candidate at a byte index, not a
 character index

A word holding a non-ASCII letter made the lexer slice the text at the wrong
place, panicking when that was inside a character.
---
 src/parser/lexer.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index e019b86..3b36512 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -385,8 +385,7 @@ impl<'input> Iterator for Lexer<'input> {
                         _ => {
                             let token_str: &str = &self.document[start..];
                             let mut index = 0;
-                            let token_str_chars = token_str.chars();
-                            for (i, c) in token_str_chars.enumerate() {
+                            for (i, c) in token_str.char_indices() {
                                 if !c.is_alphanumeric() && c != '_' {
                                     index = i;
                                     break;
-- 
2.43.0


From 602e3b1296d391d6d7eac6d8d5beb7f2418316a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 02/24] fix: skip a string literal by characters, not bytes

A literal holding non-ASCII characters made the lexer drop as many characters
after it as the literal had continuation bytes.
---
 src/parser/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 3b36512..559f46e 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -655,7 +655,7 @@ impl<'input> Iterator for Lexer<'input> {
                                             let end = start + mat.end();
                                             let s = &self.document[start..end];
                                             if mat.end() > 1 {
-                                                self.chars.nth(end - start - 2);
+                                                self.chars.nth(s.chars().count() - 2);
                                                 // -2, because we already consumed the first char
                                             }
 
-- 
2.43.0


From 8d834b2c7258767a9d014e0bf872f3a04094f2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 03/24] fix: never end a string literal at an escaped quote

An unterminated literal was accepted up to its last escaped quote.
---
 src/parser/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 559f46e..f6f4289 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -609,7 +609,7 @@ impl<'input> Iterator for Lexer<'input> {
                                             Regex::new(r"^0(x|X)([a-fA-F0-9][a-fA-F0-9])*")
                                                 .unwrap();
                                         let string_literal =
-                                            Regex::new(r#"^"(?:\\.|[^"])*""#).unwrap();
+                                            Regex::new(r#"(?s)^"(?:\\.|[^"\\])*""#).unwrap();
                                         let regular_id =
                                             Regex::new(r"^[a-z][a-zA-Z0-9_]*").unwrap();
                                         let template_type_id =
-- 
2.43.0


From 7221995f7e303413a5357cb34ab9a0558d2c4548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 04/24] fix: recognise ByStr and ByStr<n> only as whole words

A type name that merely begins with ByStr (ByStr20List, ByStrings) was cut in
two, so a field of that type silently got another type.
---
 src/parser/lexer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index f6f4289..4906de5 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -602,7 +602,7 @@ impl<'input> Iterator for Lexer<'input> {
                                     }
                                     _ => {
                                         // Handle other cases here
-                                        let bystr_with_size = Regex::new(r"^ByStr[0-9]+").unwrap();
+                                        let bystr_with_size = Regex::new(r"^ByStr[0-9]+$").unwrap();
 
                                         let signed_integer = Regex::new(r"^[+-]?[0-9]+").unwrap();
                                         let hex_number =
@@ -618,7 +618,7 @@ impl<'input> Iterator for Lexer<'input> {
                                             Regex::new(r"^[A-Z][a-zA-Z0-9_]*").unwrap();
                                         let special_id = Regex::new(r"^[_][a-zA-Z0-9_]*").unwrap();
 
-                                        if let Some(mat) = bystr_with_size.find(token_str) {
+                                        if let Some(mat) = bystr_with_size.find(keyword_token) {
                                             let end = start + mat.end();
                                             let s = &self.document[start..end];
                                             if mat.end() > 1 {
@@ -627,7 +627,7 @@ impl<'input> Iterator for Lexer<'input> {
                                             }
 
                                             (Token::ByStrWithSize(s), source_position.with_end(end))
-                                        } else if token_str.starts_with(KEYWORD_BYSTR) {
+                                        } else if keyword_token == KEYWORD_BYSTR {
                                             self.chars.nth(KEYWORD_BYSTR.len() - 2);
                                             (
                                                 Token::ByStr,
-- 
2.43.0


From 93977a3ea17f87afc74e657ada268ac5ed2829ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 05/24] fix: report an unterminated comment instead of ignoring
 the rest of the text

A comment that is never closed silently hid every declaration after it.
---
 src/parser/lexer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 4906de5..cc74ea7 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -311,18 +311,23 @@ impl<'input> Iterator for Lexer<'input> {
 
                     self.chars.next(); // Consume '*'
                     let mut comment = String::new();
+                    let mut terminated = false;
 
                     while let Some((_, ch)) = self.chars.next() {
                         if ch == '*' && self.chars.peek().map(|(_, next_ch)| *next_ch) == Some(')')
                         {
                             self.chars.next();
+                            terminated = true;
                             break;
                         } else {
                             comment.push(ch);
                         }
                     }
 
-                    continue;
+                    if terminated {
+                        continue;
+                    }
+                    (Token::Unknown, source_position.with_end(start))
                     // TODO: Hack to avoid emitting comment. However, ideally these should be part of the AST or at least the token stream
                     // let len = comment.len();
                     // let end = start + len + 2 + 1; // +2: `*)`, +1: move to char beyond last
-- 
2.43.0


From 81a57789361273c7b5e2b0ee0c6b5efff865cd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 06/24] fix: keep line and column exact across whitespace,
 comments and strings

The reported column was that of the previous token's scan, line breaks inside
comments and strings were not counted.
---
 src/parser/lexer.rs | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index cc74ea7..627642a 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -207,6 +207,25 @@ impl<'input> Lexer<'input> {
             last_position: 0,
         }
     }
+
+    /// Moves the current line and character forward to the byte offset `position`.
+    fn advance_to(&mut self, position: usize) -> SourcePosition {
+        for byte in self.document[self.last_position..position].bytes() {
+            if byte == b'\n' {
+                self.line += 1;
+                self.character = 0;
+            } else {
+                self.character += 1;
+            }
+        }
+        self.last_position = position;
+
+        SourcePosition {
+            position,
+            line: self.line,
+            column: self.character,
+        }
+    }
 }
 
 #[derive(Clone, Copy, Debug, PartialEq, PartialOrd, Eq, Default)]
@@ -249,16 +268,10 @@ impl<'input> Iterator for Lexer<'input> {
 
     fn next(&mut self) -> Option<Self::Item> {
         while let Some((start, ch)) = self.chars.next() {
-            let source_position = SourcePosition {
-                position: start,
-                line: self.line,
-                column: self.character,
-            };
+            let source_position = self.advance_to(start);
 
             let (token, end): (Token<&'input str>, SourcePosition) = {
                 let look_ahead = self.chars.peek().map(|(_, next_ch)| *next_ch);
-                self.character += start - self.last_position;
-                self.last_position = start;
 
                 let next_is_alpha_num_under = look_ahead
                     .map(|c| c.is_alphanumeric() || c == '_')
@@ -267,10 +280,6 @@ impl<'input> Iterator for Lexer<'input> {
 
                 // Handle more complex tokens, whitespace, and comments
                 if ch.is_whitespace() {
-                    if ch == '\n' {
-                        self.character = 0;
-                        self.line += 1;
-                    }
                     continue;
                 } else if ch == '=' && look_ahead == Some('>') {
                     self.chars.next();
@@ -664,7 +673,7 @@ impl<'input> Iterator for Lexer<'input> {
                                                 // -2, because we already consumed the first char
                                             }
 
-                                            (Token::StringLiteral(s), source_position.with_end(end))
+                                            (Token::StringLiteral(s), self.advance_to(end))
                                         } else if let Some(mat) = regular_id.find(token_str) {
                                             let end = start + mat.end();
                                             let s = &self.document[start..end];
-- 
2.43.0


From c8a202960a55503eb182f91a5c6e5acbd26b2343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 07/24] fix: reject a parameter list that begins with a comma

"(, x : T)" and "(,x : T)" were accepted as if the comma were not there.
---
 src/parser/parser.lalrpop | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/parser/parser.lalrpop b/src/parser/parser.lalrpop
index 252dd22..5144e91 100644
--- a/src/parser/parser.lalrpop
+++ b/src/parser/parser.lalrpop
@@ -1529,6 +1529,14 @@ pub NextParameterPair: WithMetaData<NodeParameterPair> = {
     "," <p: ParameterPair>  => p
 }
 
+pub ParameterPairList: Vec<WithMetaData<NodeParameterPair>> = {
+    <first:ParameterPair> <remaining:NextParameterPair*> => {
+        let mut parameters = vec![first];
+        parameters.extend(remaining);
+        parameters
+    }
+}
+
 
 // The rule that defines Scilla component parameters.
 // A Scilla component parameter specifies a parameter of a Scilla component.
@@ -1541,21 +1549,10 @@ pub NextParameterPair: WithMetaData<NodeParameterPair> = {
 // @syntax componentParameters
 // @return Scilla component parameters with zero or more parameter pairs.
 pub ComponentParameters : WithMetaData<NodeComponentParameters> = {
-   <start:@L> "(" 
-   <p:ParameterPair?> <next_params:NextParameterPair*>
-   ")" <end:@R>
+   <start:@L> "(" <parameters:ParameterPairList?> ")" <end:@R>
    => WithMetaData::<NodeComponentParameters> {
-       node: {
-           let mut parameters: Vec<WithMetaData<NodeParameterPair>> = Vec::new();
-           if let Some(pair) = p {
-    	        parameters.push(pair);
-           }
-
-           for p in next_params {
-               parameters.push(p);
-           }
-
-           NodeComponentParameters { parameters }
+       node: NodeComponentParameters {
+           parameters: parameters.unwrap_or_default()
        },
        start,
        end
-- 
2.43.0


From 909dd4e1ba902c0cdf735a973d5caaed29f2259c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 08/24] fix: reject arguments after the empty argument list of
 a builtin

"builtin f () x" was accepted and parsed as "builtin f x".
---
 src/parser/parser.lalrpop | 19 ++-----------------
 1 file changed, 2 insertions(+), 17 deletions(-)

diff --git a/src/parser/parser.lalrpop b/src/parser/parser.lalrpop
index 5144e91..6123870 100644
--- a/src/parser/parser.lalrpop
+++ b/src/parser/parser.lalrpop
@@ -278,23 +278,8 @@ pub VariableIdentifier : WithMetaData<NodeVariableIdentifier> = {
 // @syntax builtinArguments
 // @return The arguments for a built-in function as either variable identifiers or an empty set of parentheses. 
 pub BuiltinArguments: WithMetaData<NodeBuiltinArguments> = {
-	<start:@L> <prev:BuiltinArguments>
-	<n:VariableIdentifier> <end:@R> => 
-    WithMetaData::<NodeBuiltinArguments> {
-        node: {
-    		let mut ret = NodeBuiltinArguments {
-    			arguments: prev.node.arguments.clone()
-    		};
-    		ret.arguments.push(n);
-    		ret
-    	},
-        start,
-        end
-    },
-	<start:@L> <n:VariableIdentifier> <end:@R> =>     WithMetaData::<NodeBuiltinArguments> {
-        node: NodeBuiltinArguments {
-    		arguments: vec![n]
-	    },
+	<start:@L> <arguments:VariableIdentifier+> <end:@R> =>     WithMetaData::<NodeBuiltinArguments> {
+        node: NodeBuiltinArguments { arguments },
         start,
         end
     },
-- 
2.43.0


From b48897e609f4fe29f49d1b054565128ed0e1a1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 09/24] fix: give integer literals and repeated imports their
 own span

An integer literal ended where the next token began, and a list of several
import declarations began at the last of them.
---
 src/parser/parser.lalrpop | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/parser.lalrpop b/src/parser/parser.lalrpop
index 6123870..bf24f3a 100644
--- a/src/parser/parser.lalrpop
+++ b/src/parser/parser.lalrpop
@@ -167,8 +167,8 @@ pub ImportedName: WithMetaData<NodeImportedName> = {
 // @return A list of one or more imported names.
 //
 pub ImportDeclarations: WithMetaData<NodeImportDeclarations> = {
-	<prev:ImportDeclarations>
-	<start:@L> "import" <n:ImportedName> <end:@R> => 
+	<start:@L> <prev:ImportDeclarations>
+	"import" <n:ImportedName> <end:@R> => 
         WithMetaData::<NodeImportDeclarations> {
             node: {
     		let mut ret = NodeImportDeclarations {
@@ -1163,7 +1163,7 @@ pub AtomicExpression: WithMetaData<NodeAtomicExpression> = {
 // @syntax valueLiteral
 // @return A value literal as a signed or unsigned integer, a hexadecimal value, a string, or an empty map.
 pub ValueLiteral: WithMetaData<NodeValueLiteral> = {
-	<start:@L> <n: TypeNameIdentifier> <v: SignedInteger> <end:@L> => 
+	<start:@L> <n: TypeNameIdentifier> <v: SignedInteger> <end:@R> => 
     WithMetaData::<NodeValueLiteral> { 
         node: NodeValueLiteral::LiteralInt(n, v),
         start,
-- 
2.43.0


From fe0a487e373721c8da93bcf21997888d154d703c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 10/24] fix: represent the type Event

Nothing was recorded for it, so a field of that type took whatever had been
left behind (the contract's name) as its type, and a transition parameter of
that type panicked.
---
 src/simplified_representation/emitter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/simplified_representation/emitter.rs b/src/simplified_representation/emitter.rs
index ef4310e..a22c7cc 100644
--- a/src/simplified_representation/emitter.rs
+++ b/src/simplified_representation/emitter.rs
@@ -103,7 +103,11 @@ impl AstConverting for SrEmitter {
 
                     self.stack.push(StackObject::IrIdentifier(symbol));
                 }
-                NodeTypeNameIdentifier::EventType => {}
+                NodeTypeNameIdentifier::EventType => {
+                    let symbol = SrIdentifier::new(node.to_string(), SrIdentifierKind::Unknown);
+
+                    self.stack.push(StackObject::IrIdentifier(symbol));
+                }
                 NodeTypeNameIdentifier::TypeOrEnumLikeIdentifier(name) => {
                     let symbol = SrIdentifier::new(name.to_string(), SrIdentifierKind::Unknown);
 
-- 
2.43.0


From 43619568e6ff34e3c0674df0bd284c49520b010f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 11/24] fix: keep the namespace of a qualified type name

A.B was recorded as two names: the type became B (A.Uint32 became Uint32), and
the name left over broke map types and panicked on transition parameters.
---
 src/simplified_representation/emitter.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/simplified_representation/emitter.rs b/src/simplified_representation/emitter.rs
index a22c7cc..75024f6 100644
--- a/src/simplified_representation/emitter.rs
+++ b/src/simplified_representation/emitter.rs
@@ -143,7 +143,13 @@ impl AstConverting for SrEmitter {
                 self.stack.push(StackObject::IrIdentifier(symbol));
                 Ok(TraversalResult::SkipChildren)
             }
-            _ => Ok(TraversalResult::Continue),
+            NodeMetaIdentifier::MetaNameInNamespace(..)
+            | NodeMetaIdentifier::MetaNameInHexspace(..) => {
+                let symbol = SrIdentifier::new(node.to_string(), SrIdentifierKind::Unknown);
+                self.stack.push(StackObject::IrIdentifier(symbol));
+                Ok(TraversalResult::SkipChildren)
+            }
+            NodeMetaIdentifier::MetaName(_) => Ok(TraversalResult::Continue),
         }
     }
     fn emit_variable_identifier(
-- 
2.43.0


From d1253e2d997552f2f7b9453d406c17afeb739c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 12/24] fix: accept address types as map keys

The key was expected to be a plain name, so every contract with a map keyed by
an address type was refused.
---
 src/simplified_representation/emitter.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/simplified_representation/emitter.rs b/src/simplified_representation/emitter.rs
index 75024f6..fe69c8a 100644
--- a/src/simplified_representation/emitter.rs
+++ b/src/simplified_representation/emitter.rs
@@ -172,14 +172,19 @@ impl AstConverting for SrEmitter {
         node: &NodeTypeMapKey,
     ) -> Result<TraversalResult, String> {
         match node {
-            NodeTypeMapKey::GenericMapKey(key) => key.visit(self)?,
-            NodeTypeMapKey::EnclosedGenericId(key) => key.visit(self)?,
-            NodeTypeMapKey::EnclosedAddressMapKeyType(key) => key.visit(self)?,
-            NodeTypeMapKey::AddressMapKeyType(key) => key.visit(self)?,
+            NodeTypeMapKey::GenericMapKey(key) | NodeTypeMapKey::EnclosedGenericId(key) => {
+                key.visit(self)?;
+                let identifier = self.pop_ir_identifier()?;
+                self.stack
+                    .push(StackObject::TypeDefinition(identifier.into()));
+            }
+            NodeTypeMapKey::EnclosedAddressMapKeyType(key) => {
+                key.visit(self)?;
+            }
+            NodeTypeMapKey::AddressMapKeyType(key) => {
+                key.visit(self)?;
+            }
         };
-        let identifier = self.pop_ir_identifier()?;
-        self.stack
-            .push(StackObject::TypeDefinition(identifier.into()));
         Ok(TraversalResult::SkipChildren)
     }
     fn emit_type_map_value(
-- 
2.43.0


From 1ffeb796fa4581cbf0cc4e0d1c20d36f25aab3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 13/24] fix: record every field of an address type

A field such as _balance was not recorded, so another declaration was taken in
its place, or the contract was refused.
---
 src/simplified_representation/emitter.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/simplified_representation/emitter.rs b/src/simplified_representation/emitter.rs
index fe69c8a..dd5874a 100644
--- a/src/simplified_representation/emitter.rs
+++ b/src/simplified_representation/emitter.rs
@@ -327,12 +327,13 @@ impl AstConverting for SrEmitter {
     ) -> Result<TraversalResult, String> {
         match mode {
             TreeTraversalMode::Enter => {
-                if let NodeVariableIdentifier::VariableName(n) = &node.identifier.node {
-                    node.type_name.visit(self)?;
-                    let typename = self.pop_type_definition()?;
-                    let s = StackObject::VariableDeclaration(Field::new(&n.node, typename.into()));
-                    self.stack.push(s);
-                }
+                node.type_name.visit(self)?;
+                let typename = self.pop_type_definition()?;
+                let s = StackObject::VariableDeclaration(Field::new(
+                    &node.identifier.to_string(),
+                    typename.into(),
+                ));
+                self.stack.push(s);
             }
             TreeTraversalMode::Exit => (),
         }
-- 
2.43.0


From a1b025cd87b4641efef5879af8e310084d8ba8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 14/24] fix: return an error for types that a declaration
 cannot have

A function type or a type variable as the type of a field or parameter
panicked.
---
 src/simplified_representation/emitter.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/simplified_representation/emitter.rs b/src/simplified_representation/emitter.rs
index dd5874a..54fe130 100644
--- a/src/simplified_representation/emitter.rs
+++ b/src/simplified_representation/emitter.rs
@@ -239,8 +239,8 @@ impl AstConverting for SrEmitter {
                 self.stack
                     .push(StackObject::TypeDefinition(identifier.into()));
             }
-            NodeTypeArgument::TemplateTypeArgument(_) => {
-                unimplemented!();
+            NodeTypeArgument::TemplateTypeArgument(name) => {
+                return Err(format!("Type variable {name} is not supported."));
             }
             NodeTypeArgument::AddressTypeArgument(n) => {
                 n.visit(self)?;
@@ -294,11 +294,11 @@ impl AstConverting for SrEmitter {
                 self.stack.push(StackObject::TypeDefinition(map));
             }
             NodeScillaType::FunctionType(_a, _b) => {
-                unimplemented!()
+                return Err("Function types are not supported.".to_string());
             }
 
             NodeScillaType::PolyFunctionType(_name, _a) => {
-                unimplemented!()
+                return Err("Polymorphic types are not supported.".to_string());
             }
             NodeScillaType::EnclosedType(a) => {
                 let _ = (*a).visit(self)?;
@@ -306,8 +306,8 @@ impl AstConverting for SrEmitter {
             NodeScillaType::ScillaAddresseType(a) => {
                 let _ = (*a).visit(self)?;
             }
-            NodeScillaType::TypeVarType(_name) => {
-                unimplemented!()
+            NodeScillaType::TypeVarType(name) => {
+                return Err(format!("Type variable {name} is not supported."));
             }
         };
         Ok(TraversalResult::SkipChildren)
-- 
2.43.0


From f1a56d17b0bfb77bd11cb2fbbffdfbf996ac180d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 15/24] fix: accept an unparenthesised map as a type argument
 in a map value

"Map K (List Map A B)" panicked.
---
 src/simplified_representation/emitter.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/simplified_representation/emitter.rs b/src/simplified_representation/emitter.rs
index 54fe130..6b52e00 100644
--- a/src/simplified_representation/emitter.rs
+++ b/src/simplified_representation/emitter.rs
@@ -698,7 +698,18 @@ impl AstConverting for SrEmitter {
                         self.stack
                             .push(StackObject::TypeDefinition(identifier.into()));
                     }
-                    NodeTypeMapValueArguments::MapKeyValueType(_, _) => todo!(),
+                    NodeTypeMapValueArguments::MapKeyValueType(k, v) => {
+                        k.visit(self)?;
+                        v.visit(self)?;
+                        let value = self.pop_type_definition()?;
+                        let key = self.pop_type_definition()?;
+                        let map = SrType {
+                            main_type: "Map".to_string(),
+                            sub_types: vec![key, value],
+                            address_type: None,
+                        };
+                        self.stack.push(StackObject::TypeDefinition(map));
+                    }
                 };
             }
             TreeTraversalMode::Exit => (),
-- 
2.43.0


From bfa88080a6b6ac167ce042660bd5f619348c2207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 16/24] fix: do not panic on a type constructor without its
 arguments

A field of type "Option", "List" or "Pair A" panicked.
---
 src/type.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/type.rs b/src/type.rs
index 79d2f6d..4f3aa8e 100644
--- a/src/type.rs
+++ b/src/type.rs
@@ -87,7 +87,13 @@ impl From<SrType> for Type {
             "ByStr" => Type::ByStr,
             "BNum" => Type::BNum,
             "Bool" => Type::Bool,
-            // TODO: Remove unwrap
+            // A constructor without all its arguments is not one of the known types
+            "Option" | "List" if type_definition.sub_types.is_empty() => {
+                Type::Other(type_definition.main_type)
+            }
+            "Pair" | "Map" if type_definition.sub_types.len() < 2 => {
+                Type::Other(type_definition.main_type)
+            }
             "Option" => Type::Option(Box::new(type_definition.sub_types.pop().unwrap().into())),
             "List" => Type::List(Box::new(type_definition.sub_types.pop().unwrap().into())),
             "Pair" => {
-- 
2.43.0


From 6f6fd2cefecbb17125091b415ad690de928c3a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 17/24] fix: render map and address types as Scilla types

They were written "(Map K, V)" and "ByStr20 with contractfield x: T end", which
is not how the types are written; an address type needs its parentheses as an
argument of another type.
---
 src/type.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/type.rs b/src/type.rs
index 4f3aa8e..8ddd5b5 100644
--- a/src/type.rs
+++ b/src/type.rs
@@ -52,7 +52,7 @@ impl Display for Type {
             Type::String => write!(f, "String"),
             Type::BNum => write!(f, "BNum"),
             Type::Bool => write!(f, "Bool"),
-            Type::Map(ref k, ref v) => write!(f, "(Map {}, {})", k, v),
+            Type::Map(ref k, ref v) => write!(f, "(Map {} {})", k, v),
             Type::Option(ref k) => write!(f, "(Option {})", k),
             Type::List(ref k) => write!(f, "(List {})", k),
             Type::Pair(ref k, ref v) => write!(f, "(Pair {} {})", k, v),
@@ -65,7 +65,9 @@ impl Display for Type {
                     .map(|field| format!("field {}: {}", field.name, field.r#type))
                     .collect::<Vec<String>>()
                     .join(", ");
-                write!(f, "ByStr20 with {type_name}{fields} end")
+                let words = ["ByStr20 with", type_name, &fields, "end"];
+                let words = words.into_iter().filter(|word| !word.is_empty());
+                write!(f, "({})", words.collect::<Vec<&str>>().join(" "))
             }
             Type::Other(ref s) => write!(f, "{}", s),
         }
-- 
2.43.0


From 9ebe12f69ebc600bbd0b2970c2b0fe9b251f8e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:27 +0000
Subject: [PATCH 18/24] fix: honour the answer given on entering an address
 type

An error was ignored, and a skipped node was reported as left.
---
 src/ast/visitor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/visitor.rs b/src/ast/visitor.rs
index 8482719..a21aa84 100644
--- a/src/ast/visitor.rs
+++ b/src/ast/visitor.rs
@@ -327,7 +327,7 @@ impl AstVisitor for NodeAddressType {
             }
             ret
         } else {
-            Ok(TraversalResult::Continue)
+            ret
         }?;
         match children_ret {
             TraversalResult::Continue => emitter.emit_address_type(TreeTraversalMode::Exit, self),
-- 
2.43.0


From 682668665e157ceecd3a11f6848628e44a1381f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:27 +0000
Subject: [PATCH 19/24] fix: stop the traversal at an error inside an argument
 list

Errors below builtin arguments and contract type arguments were dropped unless
their text happened to be "Failure" or empty.
---
 src/ast/visitor.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/ast/visitor.rs b/src/ast/visitor.rs
index a21aa84..a2eb33b 100644
--- a/src/ast/visitor.rs
+++ b/src/ast/visitor.rs
@@ -154,11 +154,10 @@ impl AstVisitor for NodeBuiltinArguments {
         // Call the visitor on all children of NodeBuiltinArguments if ret == Ok(TraversalResult::Continue)
         let children_ret = if ret == Ok(TraversalResult::Continue) {
             // Visit each of the arguments
-            self.arguments
-                .iter()
-                .map(|argument| argument.visit(emitter))
-                .find(|r| *r == Err(String::from("Failure")))
-                .unwrap_or(Ok(TraversalResult::Continue))
+            for argument in &self.arguments {
+                argument.visit(emitter)?;
+            }
+            Ok(TraversalResult::Continue)
         } else {
             ret
         }?;
@@ -494,11 +493,10 @@ impl AstVisitor for NodeContractTypeArguments {
     fn visit(&self, emitter: &mut dyn AstConverting) -> Result<TraversalResult, String> {
         let ret = emitter.emit_contract_type_arguments(TreeTraversalMode::Enter, self);
         let children_ret = if ret == Ok(TraversalResult::Continue) {
-            self.type_arguments
-                .iter()
-                .map(|child| child.visit(emitter))
-                .find(|result| *result == Err("".into()))
-                .unwrap_or(Ok(TraversalResult::Continue))
+            for child in &self.type_arguments {
+                child.visit(emitter)?;
+            }
+            Ok(TraversalResult::Continue)
         } else {
             ret
         }?;
-- 
2.43.0


From 1d776a3c51d8958d3651062bdbb02b313d8c308a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:27 +0000
Subject: [PATCH 20/24] fix: pop every source position that the traversal
 pushes

Three kinds of node pushed the position of a child that pushes its own, and
never popped it.
---
 src/ast/visitor.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/ast/visitor.rs b/src/ast/visitor.rs
index a2eb33b..59c1abc 100644
--- a/src/ast/visitor.rs
+++ b/src/ast/visitor.rs
@@ -432,7 +432,6 @@ impl AstVisitor for NodeMessageEntry {
                 }
                 NodeMessageEntry::MessageVariable(var_identifier1, var_identifier2) => {
                     var_identifier1.visit(emitter)?;
-                    emitter.push_source_position(&var_identifier2.start, &var_identifier2.end);
                     var_identifier2.visit(emitter)
                 }
             }
@@ -517,7 +516,6 @@ impl AstVisitor for NodeValueLiteral {
                 NodeValueLiteral::LiteralInt(type_name, _) => type_name.visit(emitter),
                 NodeValueLiteral::LiteralEmptyMap(type_map_key, type_map_value) => {
                     type_map_key.visit(emitter)?;
-                    emitter.push_source_position(&type_map_value.start, &type_map_value.end);
                     type_map_value.visit(emitter)
                 }
                 _ => Ok(TraversalResult::Continue),
@@ -600,8 +598,6 @@ impl AstVisitor for NodePatternMatchClause {
     fn visit(&self, emitter: &mut dyn AstConverting) -> Result<TraversalResult, String> {
         let ret = emitter.emit_pattern_match_clause(TreeTraversalMode::Enter, self);
         let children_ret = if ret == Ok(TraversalResult::Continue) {
-            emitter
-                .push_source_position(&self.pattern_expression.start, &self.pattern_expression.end);
             match self.pattern_expression.visit(emitter) {
                 Err(msg) => Err(msg),
                 _ => match &self.statement_block {
-- 
2.43.0


From aad22892af125a8d555a1e631d925acf66538592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:27 +0000
Subject: [PATCH 21/24] fix: traverse library definitions that begin with let

They panicked.
---
 src/ast/visitor.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ast/visitor.rs b/src/ast/visitor.rs
index 59c1abc..091e217 100644
--- a/src/ast/visitor.rs
+++ b/src/ast/visitor.rs
@@ -982,13 +982,13 @@ impl AstVisitor for NodeLibrarySingleDefinition {
             match self {
                 NodeLibrarySingleDefinition::LetDefinition {
                     variable_name: _,
-                    type_annotation: _,
+                    type_annotation,
                     expression,
                 } => {
-                    // TODO: Unused variables aboce
-                    let _ = expression.visit(emitter)?;
-
-                    unimplemented!()
+                    if let Some(annotation) = type_annotation {
+                        annotation.visit(emitter)?;
+                    }
+                    expression.visit(emitter)
                 }
                 NodeLibrarySingleDefinition::TypeDefinition(name, option_clause) => {
                     let result = name.visit(emitter);
-- 
2.43.0


From da70895cee910531066e5cf8f6bff2b3baf7a2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:27 +0000
Subject: [PATCH 22/24] fix: traverse the children that the visitor left out

Type annotations, type arguments of builtins and constructors, the name of a
blockchain read, and the names of libraries and contracts were never visited.
---
 src/ast/visitor.rs | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/ast/visitor.rs b/src/ast/visitor.rs
index 091e217..1177970 100644
--- a/src/ast/visitor.rs
+++ b/src/ast/visitor.rs
@@ -341,14 +341,23 @@ impl AstVisitor for NodeFullExpression {
         let children_ret = if ret == Ok(TraversalResult::Continue) {
             match self {
                 NodeFullExpression::LocalVariableDeclaration {
+                    type_annotation,
                     expression,
                     containing_expression,
                     ..
                 } => {
+                    if let Some(annotation) = type_annotation {
+                        annotation.visit(emitter)?;
+                    }
                     expression.visit(emitter)?;
                     containing_expression.visit(emitter)
                 }
-                NodeFullExpression::FunctionDeclaration { expression, .. } => {
+                NodeFullExpression::FunctionDeclaration {
+                    type_annotation,
+                    expression,
+                    ..
+                } => {
+                    type_annotation.visit(emitter)?;
                     expression.visit(emitter)
                 }
                 NodeFullExpression::FunctionCall {
@@ -363,7 +372,12 @@ impl AstVisitor for NodeFullExpression {
                     Ok(TraversalResult::Continue)
                 }
                 NodeFullExpression::ExpressionAtomic(atom_expr) => atom_expr.visit(emitter),
-                NodeFullExpression::ExpressionBuiltin { xs, .. } => xs.visit(emitter),
+                NodeFullExpression::ExpressionBuiltin { targs, xs, .. } => {
+                    if let Some(targs) = targs {
+                        targs.visit(emitter)?;
+                    }
+                    xs.visit(emitter)
+                }
                 NodeFullExpression::Message(message_entries) => {
                     for entry in message_entries {
                         entry.visit(emitter)?;
@@ -385,10 +399,13 @@ impl AstVisitor for NodeFullExpression {
                 }
                 NodeFullExpression::ConstructorCall {
                     identifier_name,
+                    contract_type_arguments,
                     argument_list,
-                    ..
                 } => {
                     identifier_name.visit(emitter)?;
+                    if let Some(targs) = contract_type_arguments {
+                        targs.visit(emitter)?;
+                    }
                     for arg in argument_list {
                         arg.visit(emitter)?;
                     }
@@ -650,7 +667,12 @@ impl AstVisitor for NodeStatement {
                 NodeStatement::Bind {
                     right_hand_side, ..
                 } => right_hand_side.visit(emitter),
-                NodeStatement::ReadFromBC { arguments, .. } => {
+                NodeStatement::ReadFromBC {
+                    type_name,
+                    arguments,
+                    ..
+                } => {
+                    type_name.visit(emitter)?;
                     if let Some(arg) = arguments {
                         arg.visit(emitter)
                     } else {
@@ -955,6 +977,7 @@ impl AstVisitor for NodeLibraryDefinition {
     fn visit(&self, emitter: &mut dyn AstConverting) -> Result<TraversalResult, String> {
         let ret = emitter.emit_library_definition(TreeTraversalMode::Enter, self);
         let children_ret = if ret == Ok(TraversalResult::Continue) {
+            self.name.visit(emitter)?;
             for definition in &self.definitions {
                 let result = definition.visit(emitter);
 
@@ -1022,6 +1045,7 @@ impl AstVisitor for NodeContractDefinition {
     fn visit(&self, emitter: &mut dyn AstConverting) -> Result<TraversalResult, String> {
         let ret = emitter.emit_contract_definition(TreeTraversalMode::Enter, self);
         let children_ret = if ret == Ok(TraversalResult::Continue) {
+            self.contract_name.visit(emitter)?;
             self.parameters.visit(emitter)?;
 
             if let Some(constraint) = &self.constraint {
-- 
2.43.0


From 3b7b891979c8ce36b8b2dc8e49da8c1fb6d5de22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:25 +0000
Subject: [PATCH 23/24] fix: read ByStr020 back as the type it is written as

---
 src/type.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/type.rs b/src/type.rs
index 8ddd5b5..06b63e0 100644
--- a/src/type.rs
+++ b/src/type.rs
@@ -115,13 +115,14 @@ impl From<SrType> for Type {
                     fields: address_type.fields,
                 }),
             t if t.starts_with("ByStr") => {
-                if let Some(number) = t
+                match t
                     .strip_prefix("ByStr")
                     .and_then(|s| s.parse::<usize>().ok())
                 {
-                    Type::ByStrX(number)
-                } else {
-                    Type::Other(type_definition.main_type)
+                    // ByStr020 is written ByStr20 as well
+                    Some(20) => Type::ByStr20,
+                    Some(number) => Type::ByStrX(number),
+                    None => Type::Other(type_definition.main_type),
                 }
             }
             _ => Type::Other(type_definition.main_type),
-- 
2.43.0


From 8a6038376ca7e1f52b7b263c2a99a2a4388d0bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:49 +0000
Subject: [PATCH 24/24] fix: traverse the value that a map update assigns

Only the keys of a map update were visited, never the variable on its right.
---
 src/ast/visitor.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/ast/visitor.rs b/src/ast/visitor.rs
index 1177970..d5e062b 100644
--- a/src/ast/visitor.rs
+++ b/src/ast/visitor.rs
@@ -679,8 +679,18 @@ impl AstVisitor for NodeStatement {
                         Ok(TraversalResult::Continue)
                     }
                 }
+                NodeStatement::MapUpdate {
+                    keys,
+                    right_hand_side,
+                    ..
+                } => {
+                    for key in keys {
+                        key.visit(emitter)?;
+                    }
+
+                    right_hand_side.visit(emitter)
+                }
                 NodeStatement::MapGet { keys, .. }
-                | NodeStatement::MapUpdate { keys, .. }
                 | NodeStatement::MapGetExists { keys, .. }
                 | NodeStatement::MapUpdateDelete { keys, .. } => {
                     for key in keys {
-- 
2.43.0

