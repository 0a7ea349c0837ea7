From 476922484e2f59c4be271ab917d3fe3dfbf86947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:03 +0000
Subject: [PATCH 01/74] fix: a macro redefinition is compared over its whole
 length

---
 src/macro_set/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 9096967..afdb9be 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -768,7 +768,7 @@ impl MacroSet {
       let old_tokens = old_body.iter().filter(|t| !is_whitespace(t));
       let new_tokens = body.iter().filter(|t| !is_whitespace(t));
 
-      !old_tokens.zip(new_tokens).all(|(t1, t2)| t1 == t2)
+      !old_tokens.eq(new_tokens)
     } else {
       self.fn_macros.remove(&name).is_some()
     };
@@ -814,11 +814,11 @@ impl MacroSet {
     let redefined = if let Some((old_args, old_body)) = self.fn_macros.remove(&name) {
       let old_args = old_args.iter().filter(|t| !is_whitespace(t));
       let new_args = args.iter().filter(|t| !is_whitespace(t));
-      let args_equal = old_args.zip(new_args).all(|(old_arg, arg)| old_arg == arg);
+      let args_equal = old_args.eq(new_args);
 
       let old_tokens = old_body.iter().filter(|t| !is_whitespace(t));
       let new_tokens = body.iter().filter(|t| !is_whitespace(t));
-      let tokens_equal = old_tokens.zip(new_tokens).all(|(t1, t2)| t1 == t2);
+      let tokens_equal = old_tokens.eq(new_tokens);
 
       !(args_equal && tokens_equal)
     } else {
-- 
2.43.0


From 4018be52c0dbe1d010f16cd5d14c75bf860d70f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:07 +0000
Subject: [PATCH 02/74] fix: macro expansion rescans the replacement together
 with the tokens following it

---
 src/macro_set/mod.rs | 267 +++++++++++++++++++++----------------------
 1 file changed, 128 insertions(+), 139 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index afdb9be..bb0c56b 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -1,6 +1,6 @@
 use std::{
   borrow::Cow,
-  collections::{HashMap, HashSet},
+  collections::{HashMap, HashSet, VecDeque},
   error::Error,
   fmt,
   iter::IntoIterator,
@@ -116,6 +116,11 @@ fn is_whitespace(s: &str) -> bool {
   s.is_empty() || is_comment(s)
 }
 
+/// Check for a predefined macro whose value is only known to the compiler.
+fn is_predefined(s: &str) -> bool {
+  matches!(s, "__LINE__" | "__FILE__")
+}
+
 fn tokenize_arg_names<'s, 't, T>(arg_names: &'s [T]) -> Result<Vec<Token<'t>>, ExpansionError>
 where
   's: 't,
@@ -205,29 +210,22 @@ impl<'t> Token<'t> {
     }
   }
 
-  pub fn stringify(&self, nested: bool) -> StringifyAction<'_> {
+  pub fn stringify(&self) -> StringifyAction<'_> {
     use StringifyAction::*;
 
     match self {
-      Self::MacroArg(_) => Keep,
-      Self::VarArgs => {
-        if nested {
-          Keep
-        } else {
-          Append("__VA_ARGS__")
-        }
-      },
-      Self::Identifier(id) => match id.id.as_ref() {
-        "__LINE__" | "__FILE__" if nested => Keep,
-        t => Append(t),
-      },
+      Self::MacroArg(_) | Self::VarArgs => Keep,
+      Self::Identifier(id) => Append(id.as_str()),
       Self::IdentifierContinue(t) => Append(t.as_str()),
-      Self::NonReplacable(t) => t.stringify(nested),
+      Self::NonReplacable(t) => match t.as_ref() {
+        // A predefined macro which would already have been expanded.
+        Self::Identifier(id) if is_predefined(id.as_str()) => Keep,
+        t => t.stringify(),
+      },
       Self::Literal(_, t) => Append(t.as_ref()),
       Self::Plain(t) => Append(t.as_ref()),
       Self::Punctuation(t) => Append(t.as_str()),
-      Self::Comment(_) => Skip,
-      Self::Placemarker => Skip,
+      Self::Comment(_) | Self::Placemarker | Self::MacroEnd(_) => Skip,
     }
   }
 
@@ -242,7 +240,7 @@ impl<'t> Token<'t> {
       Self::Punctuation(t) => MacroToken::Punctuation(t),
       Self::Comment(t) => MacroToken::Comment(t),
       Self::NonReplacable(t) => return t.detokenize(arg_names),
-      Self::Placemarker => return Ok(None),
+      Self::Placemarker | Self::MacroEnd(_) => return Ok(None),
     }))
   }
 
@@ -326,8 +324,8 @@ impl<'t> Token<'t> {
       },
       (Self::Punctuation(_lhs), _) => return Err(ExpansionError::InvalidConcat),
       (_, Self::Punctuation(_rhs)) => return Err(ExpansionError::InvalidConcat),
-      (Self::MacroArg(_) | Self::VarArgs | Self::Comment(_), _)
-      | (_, Self::MacroArg(_) | Self::VarArgs | Self::Comment(_)) => unreachable!(),
+      (Self::MacroArg(_) | Self::VarArgs | Self::Comment(_) | Self::MacroEnd(_), _)
+      | (_, Self::MacroArg(_) | Self::VarArgs | Self::Comment(_) | Self::MacroEnd(_)) => unreachable!(),
     };
 
     Ok(if let Ok(identifier) = Identifier::try_from(new_token.as_ref()) {
@@ -342,7 +340,7 @@ impl<'t> Token<'t> {
   }
 }
 
-fn stringify(tokens: Vec<Token<'_>>, nested: bool) -> Vec<Token<'_>> {
+fn stringify(tokens: Vec<Token<'_>>) -> Vec<Token<'_>> {
   let it = tokens.into_iter().peekable();
   let mut tokens = vec![];
 
@@ -351,7 +349,7 @@ fn stringify(tokens: Vec<Token<'_>>, nested: bool) -> Vec<Token<'_>> {
   let mut current_string = None;
 
   for token in it {
-    let token = match token.stringify(nested) {
+    let token = match token.stringify() {
       StringifyAction::Keep => {
         tokens.push(Token::Punctuation(Punctuation { punctuation: "#" }));
         tokens.push(token);
@@ -390,9 +388,9 @@ fn detokenize<'t>(arg_names: &[Token<'t>], tokens: Vec<Token<'t>>) -> Result<Vec
 
 enum CollectArgsError {
   /// Open parenthesis not found.
-  MissingOpenParenthesis(char),
+  MissingOpenParenthesis,
   /// Unclosed parenthesis.
-  UnclosedParenthesis(char),
+  UnclosedParenthesis,
 }
 
 #[derive(Debug, Clone, PartialEq)]
@@ -417,6 +415,8 @@ enum Token<'t> {
   Comment(Comment<'t>),
   /// A placeholder token.
   Placemarker,
+  /// The end of the replacement of a macro.
+  MacroEnd(String),
 }
 
 impl MacroSet {
@@ -431,68 +431,77 @@ impl MacroSet {
 
   fn expand_macro_body<'s, 't>(
     &'s self,
-    non_replaced_names: HashSet<&str>,
+    mut non_replaced_names: HashSet<String>,
     body: &[Token<'t>],
   ) -> Result<Vec<Token<'t>>, ExpansionError>
   where
     's: 't,
   {
     let mut tokens = vec![];
-    let mut it = body.iter().cloned().peekable();
+    // The tokens which still have to be scanned. These contain the replacement of each macro
+    // together with the tokens following it, separated by `Token::MacroEnd`.
+    let mut rest = body.iter().cloned().collect::<VecDeque<_>>();
+
+    while let Some(token) = rest.pop_front() {
+      let id = match token {
+        Token::MacroEnd(ref name) => {
+          non_replaced_names.remove(name);
+          continue
+        },
+        Token::Identifier(ref id) => id.as_str(),
+        token => {
+          tokens.push(token);
+          continue
+        },
+      };
 
-    while let Some(token) = it.next() {
-      match token {
-        Token::Identifier(ref id) => {
-          if non_replaced_names.contains(id.id.as_ref()) {
-            tokens.push(Token::NonReplacable(Box::new(token)));
-          } else {
-            // Treat as function-like macro call if immediately followed by `(`.
-            if it.peek() == Some(&Token::Punctuation(Punctuation { punctuation: "(" })) {
-              if let Some((arg_names, body)) = self.fn_macros.get(id.id.as_ref()) {
-                if let Ok(args) = self.collect_args(&mut it) {
-                  let arg_names = tokenize_arg_names(arg_names)?;
-                  let body = tokenize(&arg_names, body);
-                  let expanded_tokens = self.expand_fn_macro_body(
-                    non_replaced_names.clone(),
-                    id.id.as_ref(),
-                    &arg_names,
-                    Some(&args),
-                    &body,
-                  )?;
-                  tokens.extend(expanded_tokens);
-                  tokens.extend(it);
-                  return self.expand_macro_body(non_replaced_names, &tokens)
-                }
-              }
-            }
+      if non_replaced_names.contains(id) {
+        tokens.push(Token::NonReplacable(Box::new(token)));
+        continue
+      }
 
-            // If it's not a macro call, check if it is a variable-like macro.
-            if let Some(body) = self.var_macros.get(id.id.as_ref()) {
-              let body = tokenize(&[], body);
-              tokens.extend(self.expand_var_macro_body(non_replaced_names.clone(), id.id.as_ref(), &body)?);
-              tokens.extend(it);
-              return self.expand_macro_body(non_replaced_names, &tokens)
-            }
+      let mut replacement = None;
 
-            tokens.push(token)
+      if let Some((arg_names, body)) = self.fn_macros.get(id) {
+        // Treat as function-like macro call if immediately followed by `(`.
+        if let Ok((args, len)) = Self::collect_args(&non_replaced_names, rest.iter()) {
+          for token in rest.drain(..len) {
+            if let Token::MacroEnd(name) = token {
+              non_replaced_names.remove(&name);
+            }
           }
-        },
-        token => tokens.push(token),
+
+          let arg_names = tokenize_arg_names(arg_names)?;
+          let body = tokenize(&arg_names, body);
+          replacement = Some(self.replace_fn_macro(&non_replaced_names, id, &arg_names, Some(&args), &body)?);
+        }
+      } else if let Some(body) = self.var_macros.get(id) {
+        replacement = Some(Self::replace_var_macro(&tokenize(&[], body))?);
       }
+
+      if let Some(replacement) = replacement {
+        non_replaced_names.insert(id.to_owned());
+        rest.push_front(Token::MacroEnd(id.to_owned()));
+        for token in replacement.into_iter().rev() {
+          rest.push_front(token);
+        }
+        continue
+      }
+
+      // Predefined macros can only be expanded by the compiler.
+      if is_predefined(id) {
+        tokens.push(Token::NonReplacable(Box::new(token)));
+        continue
+      }
+
+      tokens.push(token)
     }
 
     Ok(tokens)
   }
 
-  fn expand_var_macro_body<'s, 't, 'n>(
-    &'s self,
-    mut non_replaced_names: HashSet<&'n str>,
-    name: &'n str,
-    body: &[Token<'t>],
-  ) -> Result<Vec<Token<'t>>, ExpansionError>
-  where
-    's: 't,
-  {
+  /// Get the replacement of a variable-like macro.
+  fn replace_var_macro<'t>(body: &[Token<'t>]) -> Result<Vec<Token<'t>>, ExpansionError> {
     // A variable-like macro shall not contain `__VA_ARGS__`.
     if Self::contains_var_args(body) {
       return Err(ExpansionError::NonVariadicVarArgs)
@@ -500,16 +509,14 @@ impl MacroSet {
 
     let mut body = Self::expand_concat(body.to_vec())?;
     Self::remove_placemarkers(&mut body);
-
-    non_replaced_names.insert(name);
-
-    self.expand_macro_body(non_replaced_names, &body)
+    Ok(body)
   }
 
-  fn expand_fn_macro_body<'s, 't, 'n>(
+  /// Get the replacement of a function-like macro.
+  fn replace_fn_macro<'s, 't>(
     &'s self,
-    mut non_replaced_names: HashSet<&'n str>,
-    name: &'n str,
+    non_replaced_names: &HashSet<String>,
+    name: &str,
     arg_names: &[Token<'t>],
     args: Option<&[Vec<Token<'t>>]>,
     body: &[Token<'t>],
@@ -559,87 +566,66 @@ impl MacroSet {
       }
     }
 
-    let body = if let Some(args) = args {
-      self.expand_arguments(non_replaced_names.clone(), &arg_names, args, body)?
+    let mut body = if let Some(args) = args {
+      self.expand_arguments(non_replaced_names, &arg_names, args, body)?
     } else {
       body.to_vec()
     };
 
-    let mut body = Self::expand_concat(body)?;
+    body = Self::expand_concat(body)?;
     Self::remove_placemarkers(&mut body);
-
-    non_replaced_names.insert(name);
-
-    self.expand_macro_body(non_replaced_names, &body)
+    Ok(body)
   }
 
-  fn collect_args<'s, 't, I>(&'s self, it: &mut I) -> Result<Vec<Vec<Token<'t>>>, CollectArgsError>
+  /// Collect the arguments of a function-like macro call. Returns the arguments and the length of the call.
+  fn collect_args<'a, 't>(
+    non_replaced_names: &HashSet<String>,
+    it: impl Iterator<Item = &'a Token<'t>>,
+  ) -> Result<(Vec<Vec<Token<'t>>>, usize), CollectArgsError>
   where
-    's: 't,
-    I: Iterator<Item = Token<'t>> + Clone,
+    't: 'a,
   {
-    let mut parentheses = vec![]; // Keep track of parenthesis pairs.
+    let mut non_replaced_names = non_replaced_names.clone();
+    let mut parentheses: usize = 0; // Keep track of parenthesis pairs.
     let mut args = vec![];
     let mut current_arg = vec![];
 
-    let mut it2 = it.clone();
-
-    match it2.next() {
-      Some(Token::Punctuation(p)) if p == "(" => (),
-      _ => return Err(CollectArgsError::MissingOpenParenthesis('(')),
-    }
-
-    while let Some(token) = it2.next() {
+    for (i, token) in it.enumerate() {
       match token {
-        Token::Punctuation(p) => {
-          let pop = |parentheses: &mut Vec<char>, open, close| match parentheses.pop() {
-            Some(p) => {
-              if p == open {
-                Ok(())
-              } else {
-                Err(CollectArgsError::UnclosedParenthesis(p))
-              }
-            },
-            None => Err(CollectArgsError::MissingOpenParenthesis(close)),
-          };
-
-          match p.as_str() {
-            "(" => parentheses.push('('),
-            ")" => {
-              if parentheses.is_empty() {
-                args.push(mem::take(&mut current_arg));
-
-                *it = it2;
-                return Ok(args)
-              } else {
-                pop(&mut parentheses, '(', ')')?
-              }
-            },
-            "[" => parentheses.push('['),
-            "]" => pop(&mut parentheses, '[', ']')?,
-            "{" => parentheses.push('{'),
-            "}" => pop(&mut parentheses, '{', '}')?,
-            "," => {
-              if parentheses.is_empty() {
-                args.push(mem::take(&mut current_arg));
-                continue
-              }
-            },
-            _ => (),
+        Token::MacroEnd(name) => {
+          non_replaced_names.remove(name);
+        },
+        Token::Comment(_) => (),
+        Token::Punctuation(p) if p == "(" && parentheses == 0 => parentheses = 1,
+        _ if parentheses == 0 => return Err(CollectArgsError::MissingOpenParenthesis),
+        Token::Punctuation(p) if p == ")" && parentheses == 1 => {
+          args.push(current_arg);
+          return Ok((args, i + 1))
+        },
+        Token::Punctuation(p) if p == "," && parentheses == 1 => args.push(mem::take(&mut current_arg)),
+        Token::Identifier(id) if non_replaced_names.contains(id.as_str()) => {
+          current_arg.push(Token::NonReplacable(Box::new(token.clone())))
+        },
+        token => {
+          if let Token::Punctuation(p) = token {
+            match p.as_str() {
+              "(" => parentheses += 1,
+              ")" => parentheses -= 1,
+              _ => (),
+            }
           }
 
-          current_arg.push(Token::Punctuation(p));
+          current_arg.push(token.clone());
         },
-        token => current_arg.push(token),
       }
     }
 
-    Err(CollectArgsError::UnclosedParenthesis('('))
+    Err(CollectArgsError::UnclosedParenthesis)
   }
 
   fn expand_arguments<'s, 't>(
     &'s self,
-    non_replaced_names: HashSet<&str>,
+    non_replaced_names: &HashSet<String>,
     arg_names: &[Token<'t>],
     args: &[Vec<Token<'t>>],
     tokens: &[Token<'t>],
@@ -677,7 +663,7 @@ impl MacroSet {
           match tokens.last() {
             Some(Token::Punctuation(Punctuation { punctuation: "#" })) => {
               tokens.pop();
-              tokens.extend(stringify(arg, non_replaced_names.len() > 1));
+              tokens.extend(stringify(arg));
             },
             Some(Token::Punctuation(Punctuation { punctuation: "##" })) => {
               let arg = self.expand_macro_body(non_replaced_names.clone(), &arg)?;
@@ -785,7 +771,8 @@ impl MacroSet {
   {
     let body = self.var_macros.get(name).ok_or(ExpansionError::MacroNotFound)?;
     let body = tokenize(&[], body);
-    let tokens = self.expand_var_macro_body(HashSet::new(), name, &body)?;
+    let body = Self::replace_var_macro(&body)?;
+    let tokens = self.expand_macro_body(HashSet::from([name.to_owned()]), &body)?;
     detokenize(&[], tokens)
   }
 
@@ -842,7 +829,8 @@ impl MacroSet {
 
     let arg_names = tokenize_arg_names(arg_names)?;
     let body = tokenize(&arg_names, body);
-    let tokens = self.expand_fn_macro_body(HashSet::new(), name, &arg_names, None, &body)?;
+    let body = self.replace_fn_macro(&HashSet::new(), name, &arg_names, None, &body)?;
+    let tokens = self.expand_macro_body(HashSet::from([name.to_owned()]), &body)?;
 
     let tokens = detokenize(&arg_names, tokens)?;
     let arg_names = detokenize(&[], arg_names)?;
@@ -865,7 +853,8 @@ impl MacroSet {
     T: AsRef<str> + 't,
   {
     let body = tokenize(&[], body);
-    let tokens: Vec<Token<'t>> = self.expand_var_macro_body(HashSet::new(), "", &body)?;
+    let body = Self::replace_var_macro(&body)?;
+    let tokens = self.expand_macro_body(HashSet::new(), &body)?;
     detokenize(&[], tokens)
   }
 }
-- 
2.43.0


From cceba68692ea8fcd14007db410bae788e0421c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:29 +0000
Subject: [PATCH 03/74] fix: the number of arguments is checked for variadic
 calls and for calls without parameters

---
 src/macro_set/mod.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index bb0c56b..125c20b 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -534,17 +534,17 @@ impl MacroSet {
         return Err(ExpansionError::NonVariadicVarArgs)
       }
 
-      if let Some(args) = args {
-        if arg_names.len() != args.len()
-          // Allow passing an empty argument for arity 0.
-          && !(arg_names.is_empty() && args.first().map(|arg| arg.is_empty()).unwrap_or(true))
-        {
-          return Err(ExpansionError::FnMacroArgumentError {
-            name: name.to_owned(),
-            required: arg_names.len(),
-            given: args.len(),
-          })
-        }
+    }
+
+    if let Some(args) = args {
+      let required = if is_variadic { arg_names.len() - 1 } else { arg_names.len() };
+
+      let valid = if is_variadic { args.len() >= required } else { args.len() == required }
+        // Allow passing an empty argument for arity 0.
+        || (required == 0 && matches!(args, [arg] if arg.is_empty()));
+
+      if !valid {
+        return Err(ExpansionError::FnMacroArgumentError { name: name.to_owned(), required, given: args.len() })
       }
     }
 
-- 
2.43.0


From 8ff81dd15833102ffb88838c95116256aeaf89ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:45 +0000
Subject: [PATCH 04/74] fix: comments next to the # and ## operators are not
 operands

---
 src/macro_set/mod.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 125c20b..6cfccb5 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -507,7 +507,7 @@ impl MacroSet {
       return Err(ExpansionError::NonVariadicVarArgs)
     }
 
-    let mut body = Self::expand_concat(body.to_vec())?;
+    let mut body = Self::expand_concat(Self::remove_operator_comments(body))?;
     Self::remove_placemarkers(&mut body);
     Ok(body)
   }
@@ -566,11 +566,11 @@ impl MacroSet {
       }
     }
 
-    let mut body = if let Some(args) = args {
-      self.expand_arguments(non_replaced_names, &arg_names, args, body)?
-    } else {
-      body.to_vec()
-    };
+    let mut body = Self::remove_operator_comments(body);
+
+    if let Some(args) = args {
+      body = self.expand_arguments(non_replaced_names, &arg_names, args, &body)?;
+    }
 
     body = Self::expand_concat(body)?;
     Self::remove_placemarkers(&mut body);
@@ -734,6 +734,13 @@ impl MacroSet {
     Ok(tokens)
   }
 
+  /// Remove comments from a macro body which uses the `#` or `##` operator, so that
+  /// the operands of an operator are always right next to it.
+  fn remove_operator_comments<'t>(body: &[Token<'t>]) -> Vec<Token<'t>> {
+    let has_operator = body.iter().any(|t| matches!(t, Token::Punctuation(p) if *p == "#" || *p == "##"));
+    body.iter().filter(|t| !(has_operator && matches!(t, Token::Comment(_)))).cloned().collect()
+  }
+
   fn remove_placemarkers(tokens: &mut Vec<Token<'_>>) {
     tokens.retain(|t| *t != Token::Placemarker);
   }
-- 
2.43.0


From 3d3da4e68b597811f372dc5d6586a96835a8a26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:16 +0000
Subject: [PATCH 05/74] fix: the operands of # and ## are taken from the macro
 body and are not expanded

---
 src/macro_set/mod.rs | 82 ++++++++++++++++++++------------------------
 1 file changed, 38 insertions(+), 44 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 6cfccb5..3723513 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -636,58 +636,52 @@ impl MacroSet {
     let mut it = tokens.iter().cloned().peekable();
     let mut tokens = vec![];
 
-    while let Some(token) = it.next() {
+    let get_arg = |token: &Token<'t>| -> Option<Vec<Token<'t>>> {
       match token {
-        Token::Punctuation(ref p) if p == "#" => match it.peek() {
-          Some(Token::MacroArg(_) | Token::VarArgs) => {
-            tokens.push(token.clone());
-          },
-          _ => return Err(ExpansionError::StringifyNonArgument),
-        },
-        Token::MacroArg(_) | Token::VarArgs => {
-          let arg = if let Token::MacroArg(arg_index) = token {
-            args[arg_index].clone()
-          } else {
-            let mut var_args = vec![];
+        Token::MacroArg(arg_index) => Some(args[*arg_index].clone()),
+        Token::VarArgs => {
+          let mut var_args = vec![];
 
-            for (i, arg) in args[(arg_names.len() - 1)..].iter().enumerate() {
-              if i > 0 {
-                var_args.push(Token::Punctuation(Punctuation { punctuation: "," }));
-              }
-              var_args.extend(arg.clone());
+          for (i, arg) in args[(arg_names.len() - 1)..].iter().enumerate() {
+            if i > 0 {
+              var_args.push(Token::Punctuation(Punctuation { punctuation: "," }));
             }
+            var_args.extend(arg.clone());
+          }
 
-            var_args
-          };
+          Some(var_args)
+        },
+        _ => None,
+      }
+    };
 
-          match tokens.last() {
-            Some(Token::Punctuation(Punctuation { punctuation: "#" })) => {
-              tokens.pop();
-              tokens.extend(stringify(arg));
-            },
-            Some(Token::Punctuation(Punctuation { punctuation: "##" })) => {
-              let arg = self.expand_macro_body(non_replaced_names.clone(), &arg)?;
+    // Whether the previous token in the macro body is `##`.
+    let mut after_concat = false;
 
-              if arg.is_empty() {
-                tokens.push(Token::Placemarker);
-              } else {
-                tokens.extend(arg);
-              }
-            },
-            _ if it.peek() == Some(&Token::Punctuation(Punctuation { punctuation: "##" })) => {
-              let arg = self.expand_macro_body(non_replaced_names.clone(), &arg)?;
+    while let Some(token) = it.next() {
+      let is_concat = matches!(token, Token::Punctuation(ref p) if p == "##");
 
-              if arg.is_empty() {
-                tokens.push(Token::Placemarker);
-              } else {
-                tokens.extend(arg);
-              }
-            },
-            _ => tokens.extend(self.expand_macro_body(non_replaced_names.clone(), &arg)?),
-          }
-        },
-        token => tokens.push(token),
+      if matches!(token, Token::Punctuation(ref p) if p == "#") {
+        match it.next().as_ref().and_then(get_arg) {
+          Some(arg) => tokens.extend(stringify(arg)),
+          None => return Err(ExpansionError::StringifyNonArgument),
+        }
+      } else if let Some(arg) = get_arg(&token) {
+        let before_concat = matches!(it.peek(), Some(Token::Punctuation(p)) if p == "##");
+
+        if !after_concat && !before_concat {
+          tokens.extend(self.expand_macro_body(non_replaced_names.clone(), &arg)?)
+        } else if arg.is_empty() {
+          tokens.push(Token::Placemarker);
+        } else {
+          // The operands of `##` are not expanded.
+          tokens.extend(arg);
+        }
+      } else {
+        tokens.push(token)
       }
+
+      after_concat = is_concat;
     }
 
     Ok(tokens)
-- 
2.43.0


From 508d1ef78799487536d18ad5fae2fe2c715b860a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:38 +0000
Subject: [PATCH 06/74] fix: operators on macro arguments are checked and left
 in place in function-like macro bodies

---
 src/macro_set/mod.rs | 57 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 47 insertions(+), 10 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 3723513..9b4f3d8 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -570,6 +570,14 @@ impl MacroSet {
 
     if let Some(args) = args {
       body = self.expand_arguments(non_replaced_names, &arg_names, args, &body)?;
+    } else {
+      let is_hash = |t: &Token<'_>| matches!(t, Token::Punctuation(p) if p == "#");
+      let is_macro_arg = |t: &Token<'_>| matches!(t, Token::MacroArg(_) | Token::VarArgs);
+
+      // `#` must always be followed by an argument.
+      if body.iter().enumerate().any(|(i, t)| is_hash(t) && !body.get(i + 1).map_or(false, is_macro_arg)) {
+        return Err(ExpansionError::StringifyNonArgument)
+      }
     }
 
     body = Self::expand_concat(body)?;
@@ -688,15 +696,29 @@ impl MacroSet {
   }
 
   fn expand_concat(tokens: Vec<Token<'_>>) -> Result<Vec<Token<'_>>, ExpansionError> {
-    let mut it = tokens.into_iter().peekable();
+    fn is_concat(token: Option<&Token<'_>>) -> bool {
+      matches!(token, Some(Token::Punctuation(Punctuation { punctuation: "##" })))
+    }
+
+    fn is_macro_arg(token: Option<&Token<'_>>) -> bool {
+      matches!(token, Some(Token::MacroArg(_) | Token::VarArgs))
+    }
+
+    /// The operands of `##` are not expanded.
+    fn non_replacable(token: Token<'_>) -> Token<'_> {
+      if matches!(token, Token::Identifier(_)) {
+        Token::NonReplacable(Box::new(token))
+      } else {
+        token
+      }
+    }
+
+    let mut it = tokens.into_iter().collect::<VecDeque<_>>();
     let mut tokens = vec![];
 
-    while let Some(token) = it.next() {
+    while let Some(token) = it.pop_front() {
       match token {
-        Token::Punctuation(Punctuation { punctuation: "##" })
-          if !matches!(tokens.last(), Some(&Token::MacroArg(_) | &Token::VarArgs))
-            && !matches!(it.peek(), Some(&Token::MacroArg(_) | &Token::VarArgs)) =>
-        {
+        Token::Punctuation(Punctuation { punctuation: "##" }) => {
           macro_rules! until_no_whitespace {
             ($expr:expr, $error:ident) => {{
               loop {
@@ -712,14 +734,28 @@ impl MacroSet {
 
           // Ignore whitespace between the last non-whitespace token and this `##`.
           let lhs = until_no_whitespace!(tokens.pop(), ConcatBegin);
-          let rhs = if it.peek() == Some(&Token::Punctuation(Punctuation { punctuation: "##" })) {
+          let rhs = if is_concat(it.front()) {
             // Treat consecutive `##` as one.
             Token::Placemarker
           } else {
             // Ignore whitespace between this `##` and the next non-whitespace token.
-            until_no_whitespace!(it.next(), ConcatEnd)
+            until_no_whitespace!(it.pop_front(), ConcatEnd)
           };
-          tokens.push(lhs.concat(rhs)?)
+
+          // An operand which is, or depends on, the value of a macro argument.
+          let rhs_is_hash = matches!(rhs, Token::Punctuation(ref p) if p == "#");
+          let unresolved = is_macro_arg(Some(&lhs))
+            || is_concat(tokens.last())
+            || is_macro_arg(Some(&rhs))
+            || (rhs_is_hash && is_macro_arg(it.front()));
+
+          if unresolved && lhs != Token::Placemarker && rhs != Token::Placemarker {
+            tokens.push(non_replacable(lhs));
+            tokens.push(token);
+            tokens.push(non_replacable(rhs));
+          } else {
+            tokens.push(lhs.concat(rhs)?)
+          }
         },
         token => tokens.push(token),
       }
@@ -833,7 +869,8 @@ impl MacroSet {
     let body = self.replace_fn_macro(&HashSet::new(), name, &arg_names, None, &body)?;
     let tokens = self.expand_macro_body(HashSet::from([name.to_owned()]), &body)?;
 
-    let tokens = detokenize(&arg_names, tokens)?;
+    let params: Vec<_> = arg_names.iter().filter(|t| !matches!(t, Token::Comment(_))).cloned().collect();
+    let tokens = detokenize(&params, tokens)?;
     let arg_names = detokenize(&[], arg_names)?;
 
     Ok((arg_names, tokens))
-- 
2.43.0


From cd1723b4bbbd40be73362709cb661024eed87f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:52 +0000
Subject: [PATCH 07/74] fix: ## forms every valid pre-processing token and
 reports all others

---
 src/macro_set/mod.rs | 120 +++++++++++++++++++------------------------
 1 file changed, 52 insertions(+), 68 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 9b4f3d8..5f0efaa 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -8,7 +8,7 @@ use std::{
 };
 
 use crate::{
-  ast::{Comment, Identifier, IdentifierContinue, Lit, LitChar, LitString, MacroArg, Punctuation},
+  ast::{Comment, Identifier, IdentifierContinue, Lit, LitString, MacroArg, Punctuation},
   MacroToken,
 };
 
@@ -245,18 +245,11 @@ impl<'t> Token<'t> {
   }
 
   pub fn concat(self, other: Self) -> Result<Self, ExpansionError> {
-    let new_token = match (self, other) {
-      (Token::NonReplacable(lhs), rhs) => return lhs.concat(rhs),
-      (lhs, Token::NonReplacable(rhs)) => return lhs.concat(*rhs),
+    let (lhs, rhs) = match (self, other) {
       (Self::Placemarker, rhs) => return Ok(rhs),
       (lhs, Self::Placemarker) => return Ok(lhs),
-      (
-        Self::Identifier(mut lhs),
-        Self::Identifier(Identifier { id: rhs }) | Self::IdentifierContinue(IdentifierContinue { id_cont: rhs }),
-      ) => {
-        lhs.id.to_mut().push_str(rhs.as_ref());
-        return Ok(Self::Identifier(lhs))
-      },
+      (Token::NonReplacable(lhs), rhs) => return lhs.concat(rhs),
+      (lhs, Token::NonReplacable(rhs)) => return lhs.concat(*rhs),
       (Self::Punctuation(lhs), Self::Punctuation(ref rhs)) => {
         return Ok(Self::NonReplacable(Box::new(Self::Punctuation(
           lhs.concat(rhs).ok_or(ExpansionError::InvalidConcat)?,
@@ -266,66 +259,21 @@ impl<'t> Token<'t> {
         // Cannot concatenate anything to a string or char literal.
         return Err(ExpansionError::InvalidConcat)
       },
-      (Self::Punctuation(lhs), Self::Literal(lit, rhs)) => {
-        if lhs == "." {
-          match lit {
-            Lit::String(_) | Lit::Char(_) => return Err(ExpansionError::InvalidConcat),
-            Lit::Int(_) | Lit::Float(_) => {
-              let token = format!("{}{rhs}", lhs.as_str());
-              if let Ok(literal) = Lit::try_from(token.as_str()) {
-                return Ok(Self::Literal(literal.into_static(), Cow::Owned(token)))
-              }
-            },
-          }
+      (Self::Identifier(lhs), rhs @ Self::Literal(Lit::String(_) | Lit::Char(_), _)) => {
+        // Strings cannot be prefixed with anything else.
+        if !matches!(lhs.id.as_ref(), "u8" | "u" | "U" | "L") {
+          return Err(ExpansionError::InvalidConcat)
         }
 
-        return Err(ExpansionError::InvalidConcat)
+        (Self::Identifier(lhs), rhs)
       },
-      (Self::Identifier(mut lhs), Self::Literal(lit, rhs)) => {
-        match lit {
-          Lit::String(LitString::Ordinary(_)) | Lit::Char(LitChar::Ordinary(_))
-            if matches!(lhs.id.as_ref(), "u8" | "u" | "U" | "L") =>
-          {
-            lhs.id.to_mut().push_str(rhs.as_ref());
-            return Ok(Self::Literal(
-              Lit::try_from(lhs.id.as_ref()).unwrap().into_static(),
-              Cow::Owned(lhs.id.into_owned()),
-            ))
-          },
-          // Strings cannot be prefixed with anything else.
-          Lit::String(_) | Lit::Char(_) => (),
-          Lit::Int(_) => {
-            lhs.id.to_mut().push_str(rhs.as_ref());
-            return Ok(Self::Identifier(lhs))
-          },
-          Lit::Float(_) => {
-            // Appending a float only works for scientific notation
-            if rhs.as_ref().chars().all(unicode_ident::is_xid_continue) {
-              lhs.id.to_mut().push_str(rhs.as_ref());
-              return Ok(Self::Identifier(Identifier::try_from(lhs.id.as_ref()).unwrap().to_static()))
-            }
-          },
-        }
+      (_, Self::Literal(Lit::String(_) | Lit::Char(_), _)) => return Err(ExpansionError::InvalidConcat),
+      (lhs, rhs) => (lhs, rhs),
+    };
 
-        return Err(ExpansionError::InvalidConcat)
-      },
-      (
-        Self::Identifier(Identifier { id: mut lhs })
-        | Self::IdentifierContinue(IdentifierContinue { id_cont: mut lhs })
-        | Self::Literal(_, mut lhs)
-        | Self::Plain(mut lhs),
-        Self::Identifier(Identifier { id: ref rhs })
-        | Self::IdentifierContinue(IdentifierContinue { id_cont: ref rhs })
-        | Self::Literal(_, ref rhs)
-        | Self::Plain(ref rhs),
-      ) => {
-        lhs.to_mut().push_str(rhs.as_ref());
-        lhs.into_owned()
-      },
-      (Self::Punctuation(_lhs), _) => return Err(ExpansionError::InvalidConcat),
-      (_, Self::Punctuation(_rhs)) => return Err(ExpansionError::InvalidConcat),
-      (Self::MacroArg(_) | Self::VarArgs | Self::Comment(_) | Self::MacroEnd(_), _)
-      | (_, Self::MacroArg(_) | Self::VarArgs | Self::Comment(_) | Self::MacroEnd(_)) => unreachable!(),
+    let new_token = match (lhs.spelling(), rhs.spelling()) {
+      (Some(lhs), Some(rhs)) => format!("{lhs}{rhs}"),
+      _ => return Err(ExpansionError::InvalidConcat),
     };
 
     Ok(if let Ok(identifier) = Identifier::try_from(new_token.as_ref()) {
@@ -334,10 +282,46 @@ impl<'t> Token<'t> {
       Self::Literal(literal.into_static(), Cow::Owned(new_token))
     } else if let Ok(id_cont) = IdentifierContinue::try_from(new_token.as_ref()) {
       Self::IdentifierContinue(id_cont.into_static())
-    } else {
+    } else if is_pp_number(&new_token) || is_quoted(&new_token) {
       Self::Plain(Cow::Owned(new_token))
+    } else {
+      return Err(ExpansionError::InvalidConcat)
     })
   }
+
+  /// The spelling of a token which can be an operand of `##`.
+  fn spelling(&self) -> Option<&str> {
+    match self {
+      Self::Identifier(id) => Some(id.as_str()),
+      Self::IdentifierContinue(id_cont) => Some(id_cont.as_str()),
+      Self::Literal(_, t) | Self::Plain(t) => Some(t.as_ref()),
+      Self::Punctuation(p) => Some(p.as_str()),
+      _ => None,
+    }
+  }
+}
+
+/// Check for a pre-processing number, e.g. `1.`, `.5f` or `1e+`.
+fn is_pp_number(s: &str) -> bool {
+  let mut it = s.strip_prefix('.').unwrap_or(s).chars();
+  if !it.next().map_or(false, |c| c.is_ascii_digit()) {
+    return false
+  }
+
+  let mut prev = '0';
+  it.all(|c| {
+    let valid =
+      c == '.' || unicode_ident::is_xid_continue(c) || (matches!(c, '+' | '-') && matches!(prev, 'e' | 'E' | 'p' | 'P'));
+    prev = c;
+    valid
+  })
+}
+
+/// Check for a string or character literal with an encoding prefix.
+fn is_quoted(s: &str) -> bool {
+  ["u8", "u", "U", "L"].iter().filter_map(|prefix| s.strip_prefix(prefix)).any(|s| {
+    ['"', '\''].iter().any(|q| s.strip_prefix(*q).map_or(false, |s| s.ends_with(*q)))
+  })
 }
 
 fn stringify(tokens: Vec<Token<'_>>) -> Vec<Token<'_>> {
-- 
2.43.0


From b02f96c58b85d17512cf7f40788ce1cda269d749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:06 +0000
Subject: [PATCH 08/74] fix: # keeps the order and the spelling of its
 operand's tokens

---
 src/macro_set/mod.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 5f0efaa..85aa5e2 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -332,9 +332,21 @@ fn stringify(tokens: Vec<Token<'_>>) -> Vec<Token<'_>> {
 
   let mut current_string = None;
 
+  let lit_string = |s: String| {
+    let spelling = format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""));
+    Token::Literal(Lit::String(LitString::Ordinary(Cow::Owned(s.into_bytes()))), Cow::Owned(spelling))
+  };
+
   for token in it {
+    // An unresolved `##` between macro arguments.
+    if matches!(token, Token::Punctuation(ref p) if p == "##") {
+      space_before_next = false;
+      continue
+    }
+
     let token = match token.stringify() {
       StringifyAction::Keep => {
+        tokens.extend(current_string.take().map(lit_string));
         tokens.push(Token::Punctuation(Punctuation { punctuation: "#" }));
         tokens.push(token);
         continue
@@ -355,9 +367,7 @@ fn stringify(tokens: Vec<Token<'_>>) -> Vec<Token<'_>> {
     s.push_str(token)
   }
 
-  tokens.extend(current_string.take().map(|s| {
-    Token::Literal(Lit::String(LitString::Ordinary(Cow::Owned(s.clone().into_bytes()))), Cow::Owned(format!("{s:?}")))
-  }));
+  tokens.extend(current_string.take().map(lit_string));
 
   if tokens.is_empty() {
     return vec![Token::Literal(Lit::String(LitString::Ordinary(Cow::Borrowed(&[]))), Cow::Borrowed("\"\""))]
-- 
2.43.0


From 409cda9a7044cbf971a5155500111fb57b79f152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:08 +0000
Subject: [PATCH 09/74] fix: line comments are comments

---
 src/ast/comment.rs   | 7 ++++---
 src/macro_set/mod.rs | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ast/comment.rs b/src/ast/comment.rs
index 00f1af5..b6f2e91 100644
--- a/src/ast/comment.rs
+++ b/src/ast/comment.rs
@@ -1,9 +1,10 @@
 use std::borrow::Cow;
 
 use nom::{
+  branch::alt,
   bytes::complete::{tag, take_until},
-  combinator::all_consuming,
-  sequence::delimited,
+  combinator::{all_consuming, rest},
+  sequence::{delimited, preceded},
 };
 
 /// A comment.
@@ -16,7 +17,7 @@ impl<'t> TryFrom<&'t str> for Comment<'t> {
   type Error = nom::Err<nom::error::Error<&'t str>>;
 
   fn try_from(s: &'t str) -> Result<Self, Self::Error> {
-    let (_, comment) = all_consuming(delimited(tag("/*"), take_until("*/"), tag("*/")))(s)?;
+    let (_, comment) = all_consuming(alt((delimited(tag("/*"), take_until("*/"), tag("*/")), preceded(tag("//"), rest))))(s)?;
     Ok(Self { comment: Cow::Borrowed(comment) })
   }
 }
diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 85aa5e2..126b153 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -108,7 +108,7 @@ impl fmt::Display for ExpansionError {
 impl Error for ExpansionError {}
 
 fn is_comment(s: &str) -> bool {
-  (s.starts_with("/*") && s.ends_with("*/")) || s.starts_with("//")
+  Comment::try_from(s).is_ok()
 }
 
 fn is_whitespace(s: &str) -> bool {
-- 
2.43.0


From 2f8f0b295ddd145491a1c63f7221cb100b28cd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:30 +0000
Subject: [PATCH 10/74] fix: a stringified macro argument is not stringified
 again

---
 src/macro_set/mod.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 126b153..10b1f87 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -324,8 +324,8 @@ fn is_quoted(s: &str) -> bool {
   })
 }
 
-fn stringify(tokens: Vec<Token<'_>>) -> Vec<Token<'_>> {
-  let it = tokens.into_iter().peekable();
+fn stringify(tokens: Vec<Token<'_>>) -> Result<Vec<Token<'_>>, ExpansionError> {
+  let mut it = tokens.into_iter().peekable();
   let mut tokens = vec![];
 
   let mut space_before_next = false;
@@ -337,7 +337,14 @@ fn stringify(tokens: Vec<Token<'_>>) -> Vec<Token<'_>> {
     Token::Literal(Lit::String(LitString::Ordinary(Cow::Owned(s.into_bytes()))), Cow::Owned(spelling))
   };
 
-  for token in it {
+  while let Some(token) = it.next() {
+    // The spelling of a stringified macro argument is not known.
+    if matches!(token, Token::Punctuation(ref p) if p == "#")
+      && matches!(it.peek().map(|t| t.stringify()), Some(StringifyAction::Keep))
+    {
+      return Err(ExpansionError::StringifyNonArgument)
+    }
+
     // An unresolved `##` between macro arguments.
     if matches!(token, Token::Punctuation(ref p) if p == "##") {
       space_before_next = false;
@@ -370,10 +377,10 @@ fn stringify(tokens: Vec<Token<'_>>) -> Vec<Token<'_>> {
   tokens.extend(current_string.take().map(lit_string));
 
   if tokens.is_empty() {
-    return vec![Token::Literal(Lit::String(LitString::Ordinary(Cow::Borrowed(&[]))), Cow::Borrowed("\"\""))]
+    return Ok(vec![Token::Literal(Lit::String(LitString::Ordinary(Cow::Borrowed(&[]))), Cow::Borrowed("\"\""))])
   }
 
-  tokens
+  Ok(tokens)
 }
 
 fn detokenize<'t>(arg_names: &[Token<'t>], tokens: Vec<Token<'t>>) -> Result<Vec<MacroToken<'t>>, ExpansionError> {
@@ -665,7 +672,7 @@ impl MacroSet {
 
       if matches!(token, Token::Punctuation(ref p) if p == "#") {
         match it.next().as_ref().and_then(get_arg) {
-          Some(arg) => tokens.extend(stringify(arg)),
+          Some(arg) => tokens.extend(stringify(arg)?),
           None => return Err(ExpansionError::StringifyNonArgument),
         }
       } else if let Some(arg) = get_arg(&token) {
-- 
2.43.0


From 794cdad3d57b0929e9f90035cbfece7d8c09152c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:04 +0000
Subject: [PATCH 11/74] fix: an integer literal with a leading zero is octal

---
 src/ast/literal/int.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ast/literal/int.rs b/src/ast/literal/int.rs
index dd632a2..5c0a820 100644
--- a/src/ast/literal/int.rs
+++ b/src/ast/literal/int.rs
@@ -7,8 +7,8 @@ use std::{
 use nom::{
   branch::alt,
   bytes::complete::{is_a, tag, tag_no_case},
-  character::complete::{digit1, hex_digit1, oct_digit1},
-  combinator::{all_consuming, eof, map, map_opt, opt, value},
+  character::complete::{digit1, hex_digit1},
+  combinator::{all_consuming, eof, map, map_opt, not, opt, value},
   sequence::{pair, preceded},
   AsChar, Compare, FindToken, IResult, InputIter, InputLength, InputTake, InputTakeAtPosition, Slice,
 };
@@ -77,7 +77,7 @@ impl LitInt {
       let mut value = 0i128;
 
       for c in input.iter_elements() {
-        let d = c.as_char().to_digit(base).unwrap();
+        let d = c.as_char().to_digit(base)?;
         value = value.checked_mul(base as i128)?.checked_add(d as i128)?;
       }
 
@@ -121,8 +121,8 @@ impl LitInt {
     let digits = alt((
       map_opt(preceded(tag_no_case("0x"), hex_digit1), Self::parse_i128(16)),
       map_opt(preceded(tag_no_case("0b"), is_a("01")), Self::parse_i128(2)),
-      map_opt(preceded(tag("0"), oct_digit1), Self::parse_i128(8)),
-      map_opt(digit1, Self::parse_i128(10)),
+      map_opt(preceded(tag("0"), digit1), Self::parse_i128(8)),
+      map_opt(preceded(not(pair(tag("0"), digit1)), digit1), Self::parse_i128(10)),
     ));
 
     let (input, (value, (unsigned, size))) = pair(digits, Self::parse_suffix)(input)?;
-- 
2.43.0


From 2b3d773e09af8a40c9ada03d42629bf0e5848d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:12 +0000
Subject: [PATCH 12/74] fix: universal character names in identifiers

---
 src/ast/identifier.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/ast/identifier.rs b/src/ast/identifier.rs
index f107aec..cf82110 100644
--- a/src/ast/identifier.rs
+++ b/src/ast/identifier.rs
@@ -3,9 +3,9 @@ use std::{borrow::Cow, fmt::Debug};
 use nom::{
   branch::alt,
   character::complete::{anychar, char, satisfy},
-  combinator::{all_consuming, map, map_opt, recognize, verify},
+  combinator::{all_consuming, map, map_opt, not, recognize, verify},
   multi::{fold_many0, fold_many1},
-  sequence::{pair, preceded},
+  sequence::{pair, preceded, tuple},
   IResult,
 };
 use proc_macro2::{Ident, Span, TokenStream};
@@ -44,10 +44,11 @@ impl<'t> Identifier<'t> {
   pub(crate) fn parse_str(input: &'t str) -> IResult<&'t str, Self> {
     alt((
       map(
-        recognize(pair(
+        recognize(tuple((
           satisfy(is_identifier_start),
           fold_many0(satisfy(unicode_ident::is_xid_continue), || (), |_, _| ()),
-        )),
+          not(char('\\')),
+        ))),
         |s| Self { id: Cow::Borrowed(s) },
       ),
       |token| {
@@ -104,9 +105,10 @@ impl<'t> IdentifierContinue<'t> {
 
   pub(crate) fn parse_str(input: &'t str) -> IResult<&'t str, Self> {
     alt((
-      map(recognize(fold_many1(satisfy(unicode_ident::is_xid_continue), || (), |_, _| ())), |s| Self {
-        id_cont: Cow::Borrowed(s),
-      }),
+      map(
+        recognize(pair(fold_many1(satisfy(unicode_ident::is_xid_continue), || (), |_, _| ()), not(char('\\')))),
+        |s| Self { id_cont: Cow::Borrowed(s) },
+      ),
       |token| {
         let identifier_char = alt((map_opt(preceded(char('\\'), universal_char), char::from_u32), anychar));
 
-- 
2.43.0


From ecb38169ff442b86e00fc28bafc58c9fa12b8327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:12 +0000
Subject: [PATCH 13/74] fix: hexadecimal, octal and universal escapes in
 literals

---
 src/ast/literal.rs        | 41 ++++++++++++++++++++++++++++-----------
 src/ast/literal/char.rs   | 13 ++++++++++---
 src/ast/literal/string.rs | 12 ++++++------
 3 files changed, 46 insertions(+), 20 deletions(-)

diff --git a/src/ast/literal.rs b/src/ast/literal.rs
index dbbfbba..3f7eaf5 100644
--- a/src/ast/literal.rs
+++ b/src/ast/literal.rs
@@ -2,13 +2,12 @@ use std::{fmt::Debug, ops::RangeFrom, str};
 
 use nom::{
   branch::alt,
-  bytes::complete::tag_no_case,
   character::{
     complete::{anychar, char, none_of, one_of},
     is_hex_digit, is_oct_digit,
   },
   combinator::{all_consuming, map, map_opt, value, verify},
-  multi::fold_many_m_n,
+  multi::{fold_many1, fold_many_m_n},
   sequence::preceded,
   AsChar, Compare, FindToken, IResult, InputIter, InputLength, InputTake, Slice,
 };
@@ -140,7 +139,7 @@ where
   ))(input)
 }
 
-/// Parse a numeric escape sequence, e.g. `\0` or `\xff` (without the leading `\`).
+/// Parse a numeric escape sequence, e.g. `\0`, `\xff` or `\x1f34c` (without the leading `\`).
 fn numeric_escape_sequence<I>(input: I) -> IResult<I, u32>
 where
   I: Debug + InputTake + InputLength + Slice<RangeFrom<usize>> + InputIter + Clone + Compare<&'static str>,
@@ -156,13 +155,14 @@ where
       |acc, n| acc * 8 + n,
     ),
     preceded(
-      tag_no_case("x"),
-      fold_many_m_n(
-        2,
-        2,
-        map_opt(verify(anychar, |c| is_hex_digit(*c as u8)), |c| c.to_digit(16)),
-        || 0,
-        |acc, n| acc * 16 + n,
+      char('x'),
+      map_opt(
+        fold_many1(
+          map_opt(verify(anychar, |c| is_hex_digit(*c as u8)), |c| c.to_digit(16)),
+          || Some(0u32),
+          |acc, n| acc?.checked_mul(16)?.checked_add(n),
+        ),
+        |value| value,
       ),
     ),
   ))(input)
@@ -205,7 +205,26 @@ where
   <I as InputIter>::Item: AsChar + Copy,
   &'static str: FindToken<<I as InputIter>::Item>,
 {
-  preceded(char('\\'), alt((map(simple_escape_sequence, u32::from), numeric_escape_sequence, universal_char)))(input)
+  alt((escaped_code_unit, escaped_universal_char))(input)
+}
+
+/// Parse an escape sequence which stands for a single code unit.
+pub(crate) fn escaped_code_unit<I>(input: I) -> IResult<I, u32>
+where
+  I: Debug + InputTake + InputLength + Slice<RangeFrom<usize>> + InputIter + Clone + Compare<&'static str>,
+  <I as InputIter>::Item: AsChar + Copy,
+  &'static str: FindToken<<I as InputIter>::Item>,
+{
+  preceded(char('\\'), alt((map(simple_escape_sequence, u32::from), numeric_escape_sequence)))(input)
+}
+
+/// Parse an escape sequence which stands for a character.
+pub(crate) fn escaped_universal_char<I>(input: I) -> IResult<I, u32>
+where
+  I: Debug + InputLength + Slice<RangeFrom<usize>> + InputIter + Clone,
+  <I as InputIter>::Item: AsChar,
+{
+  preceded(char('\\'), universal_char)(input)
 }
 
 /// Parse an unescaped character.
diff --git a/src/ast/literal/char.rs b/src/ast/literal/char.rs
index 7c19c59..d9c0078 100644
--- a/src/ast/literal/char.rs
+++ b/src/ast/literal/char.rs
@@ -5,13 +5,13 @@ use nom::{
   bytes::complete::tag,
   character::complete::char,
   combinator::{all_consuming, map, map_opt, opt, value},
-  sequence::{delimited, pair},
+  sequence::{delimited, pair, preceded},
   AsChar, Compare, IResult, InputIter, InputTake, Slice,
 };
 use proc_macro2::TokenStream;
 use quote::{quote, TokenStreamExt};
 
-use super::{escaped_char, unescaped_char};
+use super::{escaped_char, escaped_code_unit, unescaped_char};
 use crate::{
   ast::tokens::{id, take_one},
   BuiltInType, CodegenContext, Identifier, IdentifierExpr, Lit, LocalContext, MacroToken, Type,
@@ -77,7 +77,14 @@ pub enum LitChar {
 
 impl LitChar {
   pub(crate) fn parse_str(input: &str) -> IResult<&str, Self> {
-    map_opt(pair(opt(LitCharPrefix::parse), Self::parse_unprefixed), |(prefix, c)| Self::with_prefix(prefix, c))(input)
+    alt((
+      // Unlike a character, a code unit can have any value.
+      map_opt(
+        preceded(tag("u8"), delimited(char('\''), escaped_code_unit, char('\''))),
+        |c| u8::try_from(c).ok().map(Self::Utf8),
+      ),
+      map_opt(pair(opt(LitCharPrefix::parse), Self::parse_unprefixed), |(prefix, c)| Self::with_prefix(prefix, c)),
+    ))(input)
   }
 
   fn parse_unprefixed(input: &str) -> IResult<&str, u32> {
diff --git a/src/ast/literal/string.rs b/src/ast/literal/string.rs
index d35aa59..7972d60 100644
--- a/src/ast/literal/string.rs
+++ b/src/ast/literal/string.rs
@@ -28,7 +28,7 @@ use crate::ast::{
   Identifier,
 };
 
-use super::escaped_char;
+use super::{escaped_char, escaped_code_unit, escaped_universal_char};
 
 /// A string literal.
 #[derive(Debug, Clone, PartialEq, Eq)]
@@ -72,10 +72,9 @@ impl<'t> LitString<'t> {
       char('\"'),
       fold_many0(
         alt((
-          map_opt(escaped_char, |c| {
-            if let Ok(c) = u8::try_from(c) {
-              Some(Cow::Owned(vec![c]))
-            } else if let Ok(c) = char::try_from(c) {
+          map_opt(escaped_code_unit, |c| u8::try_from(c).ok().map(|c| Cow::Owned(vec![c]))),
+          map_opt(escaped_universal_char, |c| {
+            if let Ok(c) = char::try_from(c) {
               let mut s = [0; 4];
               Some(Cow::Owned(c.encode_utf8(&mut s).as_bytes().to_vec()))
             } else {
@@ -127,7 +126,8 @@ impl<'t> LitString<'t> {
         char('\"'),
         fold_many0(
           alt((
-            map_opt(escaped_char, |c| {
+            map_opt(escaped_code_unit, |c| u16::try_from(c).ok().map(|c| Part::Vec(vec![c]))),
+            map_opt(escaped_universal_char, |c| {
               if let Ok(c) = u16::try_from(c) {
                 Some(Part::Vec(vec![c]))
               } else if let Ok(c) = char::try_from(c) {
-- 
2.43.0


From cf0637d264ae8de1553aad8ca42c3464271b1c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:17 +0000
Subject: [PATCH 14/74] fix: universal character names end at U+10FFFF

---
 src/ast/literal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/literal.rs b/src/ast/literal.rs
index 3f7eaf5..1aa7e3d 100644
--- a/src/ast/literal.rs
+++ b/src/ast/literal.rs
@@ -224,7 +224,7 @@ where
   I: Debug + InputLength + Slice<RangeFrom<usize>> + InputIter + Clone,
   <I as InputIter>::Item: AsChar,
 {
-  preceded(char('\\'), universal_char)(input)
+  preceded(char('\\'), verify(universal_char, |c| *c <= u32::from(char::MAX)))(input)
 }
 
 /// Parse an unescaped character.
-- 
2.43.0


From 42b3de11980d6c303d3bd116a638a606cdd9c7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:51 +0000
Subject: [PATCH 15/74] fix: identifiers at the end of a ## chain are joined
 right away

---
 src/macro_set/mod.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 10b1f87..0d89985 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -705,6 +705,13 @@ impl MacroSet {
       matches!(token, Some(Token::MacroArg(_) | Token::VarArgs))
     }
 
+    fn is_identifier(token: &Token<'_>) -> bool {
+      match token {
+        Token::NonReplacable(token) => is_identifier(token),
+        token => matches!(token, Token::Identifier(_)),
+      }
+    }
+
     /// The operands of `##` are not expanded.
     fn non_replacable(token: Token<'_>) -> Token<'_> {
       if matches!(token, Token::Identifier(_)) {
@@ -750,7 +757,12 @@ impl MacroSet {
             || is_macro_arg(Some(&rhs))
             || (rhs_is_hash && is_macro_arg(it.front()));
 
-          if unresolved && lhs != Token::Placemarker && rhs != Token::Placemarker {
+          // Whatever precedes them, two identifiers can be joined right away.
+          let joinable = is_identifier(&lhs) && is_identifier(&rhs);
+
+          if is_concat(tokens.last()) && joinable {
+            tokens.push(non_replacable(lhs.concat(rhs)?));
+          } else if unresolved && lhs != Token::Placemarker && rhs != Token::Placemarker {
             tokens.push(non_replacable(lhs));
             tokens.push(token);
             tokens.push(non_replacable(rhs));
-- 
2.43.0


From 66ead33d302590183659a4d17eda44e6f676cde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:51 +0000
Subject: [PATCH 16/74] fix: a parenthesized name is only the type of a cast if
 it is one

`(a) * (b) + (c)` was grouped as `a * (b + c)` and `(a) - b * c` as
`(a - b) * c`, since a parenthesized name was parsed as the type of a cast
together with the operator following it. Parsing nested casts which may be
calls also took exponential time.
---
 src/ast/expr.rs | 239 ++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 200 insertions(+), 39 deletions(-)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 3f7f5d2..186ceee 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -27,6 +27,8 @@ pub enum Expr<'t> {
   Unary(UnaryExpr<'t>),
   Binary(BinaryExpr<'t>),
   Ternary(TernaryExpr<'t>),
+  /// A parenthesized variable, or binary or ternary expression.
+  Parenthesized(Box<Self>),
 }
 
 impl<'t> Expr<'t> {
@@ -40,6 +42,7 @@ impl<'t> Expr<'t> {
       Self::Binary(expr) => expr.precedence(),
       Self::Ternary(_) => (0, Associativity::None),
       Self::SizeOf(_) => (3, Associativity::Left), // Same as `Cast`.
+      Self::Parenthesized(expr) => expr.precedence(),
     }
   }
 
@@ -71,13 +74,32 @@ impl<'t> Expr<'t> {
       map(LitChar::parse, |c| Self::Literal(Lit::Char(c))),
       Self::parse_concat_string,
       map(Lit::parse, Self::Literal),
-      parenthesized(Self::parse),
+      map(parenthesized(Self::parse), Self::parenthesize),
     ))(tokens)
   }
 
+  /// Keep parentheses which are needed to tell apart casts and binary operations in [`Self::regroup_cast`].
+  fn parenthesize(expr: Self) -> Self {
+    match expr {
+      Self::Var(Var { name: IdentifierExpr::Plain(_) }) | Self::Binary(_) | Self::Ternary(_) => {
+        Self::Parenthesized(Box::new(expr))
+      },
+      expr => expr,
+    }
+  }
+
+  /// Parse a parenthesized list of arguments, e.g. `(a, 1 + b)`.
+  fn parse_args<'i>(tokens: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Vec<Self>> {
+    parenthesized(separated_list0(tuple((meta, punct(","), meta)), Self::parse))(tokens)
+  }
+
   fn parse_term_prec1<'i>(tokens: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Self> {
     let (tokens, factor) = Self::parse_factor(tokens)?;
+    Self::parse_accesses(tokens, factor)
+  }
 
+  /// Parse everything that can follow the given factor.
+  fn parse_accesses<'i>(tokens: &'i [MacroToken<'t>], factor: Self) -> IResult<&'i [MacroToken<'t>], Self> {
     #[derive(Debug)]
     enum Access<'t> {
       Fn(Vec<Expr<'t>>),
@@ -91,7 +113,7 @@ impl<'t> Expr<'t> {
         preceded(
           meta,
           alt((
-            map(parenthesized(separated_list0(tuple((meta, punct(","), meta)), Self::parse)), Access::Fn),
+            map(Self::parse_args, Access::Fn),
             map(preceded(terminated(punct("."), meta), IdentifierExpr::parse_concat_ident), |field| Access::Field {
               field,
               deref: false,
@@ -120,7 +142,10 @@ impl<'t> Expr<'t> {
                 Self::Unary(UnaryExpr { op, expr: Box::new(expr) })
               },
               // TODO: Support calling expressions as functions.
-              (Self::Var(Var { name }), Access::Fn(args)) => Self::FunctionCall(FunctionCall { name, args }),
+              (expr, Access::Fn(args)) if !was_unary_postfix_op => match expr.into_inner() {
+                Self::Var(Var { name }) => Self::FunctionCall(FunctionCall { name, args }),
+                _ => return Err(()),
+              },
               // Field access cannot be chained after postfix `++`/`--`.
               (acc, Access::Field { field, deref }) if !was_unary_postfix_op || deref => {
                 let acc = if deref { Self::Unary(UnaryExpr { op: UnaryOp::Deref, expr: Box::new(acc) }) } else { acc };
@@ -148,11 +173,67 @@ impl<'t> Expr<'t> {
     )(tokens)
   }
 
+  /// Check if the given tokens, following a parenthesized name, begin with an operator
+  /// which has the preceding name as an operand unless the name is a type.
+  fn is_operator(tokens: &[MacroToken<'t>]) -> bool {
+    let binary_op = |tokens| alt((punct("+"), punct("-"), punct("*"), punct("&")))(tokens).is_ok();
+
+    if let Ok((tokens, _)) = terminated(alt((punct("++"), punct("--"))), meta)(tokens) {
+      // A prefix operator must be followed by a term.
+      return binary_op(tokens) || !Self::is_term_begin(tokens)
+    }
+
+    binary_op(tokens)
+  }
+
+  /// Check if the given tokens can be the begin of a term.
+  fn is_term_begin(tokens: &[MacroToken<'t>]) -> bool {
+    match tokens.first() {
+      Some(MacroToken::Punctuation(p)) => matches!(p.as_str(), "(" | "+" | "-" | "*" | "&" | "~" | "!" | "++" | "--" | "#"),
+      Some(_) => true,
+      None => false,
+    }
+  }
+
   fn parse_term_prec2<'i>(tokens: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Self> {
+    if let Ok((rest, ty)) = parenthesized(Type::parse)(tokens) {
+      let (rest, _) = meta(rest)?;
+
+      match ty {
+        // A name is not necessarily a type, so if it can be the operand of the following operator, parse it
+        // as such. If it does turn out to be a type in the end, this is handled by `Self::regroup_cast`.
+        Type::Identifier { name, is_struct: false } if Self::is_operator(rest) => {
+          return Self::parse_accesses(rest, Self::parenthesize(Self::Var(Var { name })))
+        },
+        ty => {
+          // If a single expression follows in parentheses, this is a cast, otherwise a function call.
+          let is_name = matches!(ty, Type::Identifier { is_struct: false, .. });
+          if is_name && punct("(")(rest).is_ok() && parenthesized(Type::parse)(rest).is_err() {
+            let (rest, mut args) = Self::parse_args(rest)?;
+
+            return match (ty, args.len()) {
+              (ty, 1) => {
+                let (rest, term) = Self::parse_accesses(rest, Self::parenthesize(args.remove(0)))?;
+                Ok((rest, Self::Cast(Cast { ty, expr: Box::new(term) })))
+              },
+              (Type::Identifier { name, .. }, _) => {
+                Self::parse_accesses(rest, Self::FunctionCall(FunctionCall { name, args }))
+              },
+              _ => unreachable!(),
+            }
+          }
+
+          match Self::parse_term_prec2(rest) {
+            Ok((rest, term)) => return Ok((rest, Self::Cast(Cast { ty, expr: Box::new(term) }))),
+            // This cannot be anything other than a cast.
+            Err(err) if Self::is_term_begin(rest) => return Err(err),
+            Err(_) => (),
+          }
+        },
+      }
+    }
+
     alt((
-      map(pair(parenthesized(Type::parse), Self::parse_term_prec2), |(ty, term)| {
-        Self::Cast(Cast { ty, expr: Box::new(term) })
-      }),
       map(
         pair(
           terminated(
@@ -339,6 +420,109 @@ impl<'t> Expr<'t> {
     Self::parse_term_prec14(tokens)
   }
 
+  fn into_inner(self) -> Self {
+    match self {
+      Self::Parenthesized(expr) => *expr,
+      expr => expr,
+    }
+  }
+
+  /// Get the name that ends this expression, if it is parenthesized and therefore could be the type of a cast.
+  ///
+  /// Also returns the postfix operator following the name.
+  fn cast_ty_mut(&mut self) -> Option<(&mut Self, Option<UnaryOp>, Identifier<'t>)> {
+    match self {
+      Self::Parenthesized(expr) => match &**expr {
+        Self::Var(Var { name: IdentifierExpr::Plain(name) }) => {
+          let name = name.clone();
+          Some((self, None, name))
+        },
+        _ => None,
+      },
+      Self::Unary(UnaryExpr { op: op @ (UnaryOp::PostInc | UnaryOp::PostDec), expr }) => match expr.cast_ty_mut()? {
+        (_, None, name) => {
+          let op = if *op == UnaryOp::PostInc { UnaryOp::Inc } else { UnaryOp::Dec };
+          Some((self, Some(op), name))
+        },
+        _ => None,
+      },
+      // The index of an array access.
+      Self::Unary(UnaryExpr { op: UnaryOp::Deref, expr }) if matches!(**expr, Self::Binary(_)) => None,
+      Self::Unary(UnaryExpr { expr, .. }) | Self::Cast(Cast { expr, .. }) => expr.cast_ty_mut(),
+      Self::Binary(BinaryExpr { op, rhs, .. }) if *op != BinaryOp::MemberAccess => rhs.cast_ty_mut(),
+      _ => None,
+    }
+  }
+
+  /// If the left operand of a binary operator ends with a type, the operator is an unary operator following a cast,
+  /// e.g. `a / (my_t) - b / c` means `(a / (my_t)(-b)) / c` if `my_t` is a type, rather than `(a / my_t) - (b / c)`.
+  fn regroup_cast<C>(expr: &mut BinaryExpr<'t>, ctx: &LocalContext<'_, 't, C>) -> Option<Self>
+  where
+    C: CodegenContext,
+  {
+    let op = match expr.op {
+      BinaryOp::Add => UnaryOp::Plus,
+      BinaryOp::Sub => UnaryOp::Minus,
+      BinaryOp::Mul => UnaryOp::Deref,
+      BinaryOp::BitAnd => UnaryOp::AddrOf,
+      _ => return None,
+    };
+
+    let (_, _, name) = expr.lhs.cast_ty_mut()?;
+    ctx.resolve_ty(name.as_str())?;
+
+    // Split the right side into its first operand and the operators following it.
+    let mut term = (*expr.rhs).clone();
+    let mut rest = vec![];
+    while let Self::Binary(BinaryExpr { lhs, op, rhs }) = term {
+      if op == BinaryOp::MemberAccess {
+        term = Self::Binary(BinaryExpr { lhs, op, rhs });
+        break
+      }
+
+      rest.push((op, *rhs));
+      term = *lhs;
+    }
+
+    let mut lhs = (*expr.lhs).clone();
+    let (ty, prefix_op, name) = lhs.cast_ty_mut()?;
+    let mut term = Self::Unary(UnaryExpr { op, expr: Box::new(term) });
+    if let Some(op) = prefix_op {
+      term = Self::Unary(UnaryExpr { op, expr: Box::new(term) });
+    }
+    *ty = Self::Cast(Cast {
+      ty: Type::Identifier { name: IdentifierExpr::Plain(name), is_struct: false },
+      expr: Box::new(term),
+    });
+
+    // Append the remaining operators again.
+    Some(rest.into_iter().rev().fold(lhs, |lhs, (op, rhs)| Self::append_binary(lhs, op, rhs)))
+  }
+
+  /// Append a binary operator and its operand to an expression.
+  fn append_binary(lhs: Self, op: BinaryOp, rhs: Self) -> Self {
+    const fn precedence(op: BinaryOp) -> u8 {
+      match op {
+        BinaryOp::Mul | BinaryOp::Div | BinaryOp::Rem => 3,
+        BinaryOp::Add | BinaryOp::Sub => 4,
+        BinaryOp::Shl | BinaryOp::Shr => 5,
+        BinaryOp::Lt | BinaryOp::Lte | BinaryOp::Gt | BinaryOp::Gte => 6,
+        BinaryOp::Eq | BinaryOp::Neq => 7,
+        op => op.precedence().0,
+      }
+    }
+
+    match lhs {
+      Self::Binary(BinaryExpr { lhs: lhs2, op: op2, rhs: rhs2 })
+        if op2 != BinaryOp::MemberAccess && precedence(op2) > precedence(op) =>
+      {
+        let rhs = Self::append_binary(*rhs2, op, rhs);
+        Self::Binary(BinaryExpr { lhs: lhs2, op: op2, rhs: Box::new(rhs) })
+      },
+      lhs => Self::Binary(BinaryExpr { lhs: Box::new(lhs), op, rhs: Box::new(rhs) }),
+    }
+  }
+
   pub(crate) fn finish_condition<C>(
     &mut self,
     ctx: &mut LocalContext<'_, 't, C>,
@@ -399,39 +583,6 @@ impl<'t> Expr<'t> {
           },
         };
 
-        // Handle ambiguous cast vs. binary operation, e.g. `(ty)&var` vs `(var1) & var2`.
-        if let (Self::Unary(expr), Type::Identifier { name, is_struct: false }) = (&*cast.expr, &cast.ty) {
-          let treat_as_binop = match name {
-            IdentifierExpr::Arg(_) => {
-              // Arguments cannot be resolved as a type.
-              true
-            },
-            IdentifierExpr::Plain(name) => {
-              // Cannot resolve type.
-              ctx.resolve_ty(name.as_str()).is_none()
-            },
-            IdentifierExpr::Concat(_) => true,
-          };
-
-          if treat_as_binop {
-            let op = match expr.op {
-              UnaryOp::Plus => Some(BinaryOp::Add),
-              UnaryOp::Minus => Some(BinaryOp::Sub),
-              UnaryOp::Deref => Some(BinaryOp::Mul),
-              UnaryOp::AddrOf => Some(BinaryOp::BitAnd),
-              _ => None,
-            };
-
-            if let Some(op) = op {
-              let lhs = name.clone();
-              let rhs = expr.expr.clone();
-
-              *self = Self::Binary(BinaryExpr { lhs: Box::new(Expr::Var(Var { name: lhs })), op, rhs });
-              return self.finish(ctx)
-            }
-          }
-        }
-
         // Remove redundant casts from string literals, e.g. `(char*)"adsf"`.
         if matches!(
           (&*cast.expr, &cast.ty), (Expr::Literal(Lit::String(LitString::Ordinary(_))), Type::Qualified { ty, qualifier })
@@ -572,7 +723,16 @@ impl<'t> Expr<'t> {
 
         Ok(ty)
       },
+      Self::Parenthesized(expr) => {
+        *self = (**expr).clone();
+        self.finish(ctx)
+      },
       Self::Binary(op) => {
+        if let Some(expr) = Self::regroup_cast(op, ctx) {
+          *self = expr;
+          return self.finish(ctx)
+        }
+
         let ty = op.finish(ctx)?;
 
         // Calculate numeric expression.
@@ -685,6 +845,7 @@ impl<'t> Expr<'t> {
       },
       Self::Unary(op) => op.to_tokens(ctx, tokens),
       Self::Binary(op) => op.to_tokens(ctx, tokens),
+      Self::Parenthesized(expr) => expr.to_tokens(ctx, tokens),
       Self::Ternary(ref expr) => expr.to_tokens(ctx, tokens),
       Self::SizeOf(ty) => {
         let trait_prefix = ctx.trait_prefix().into_iter();
-- 
2.43.0


From 9b972a1a8b8c9eee5b9760c9b6c0007ae6bb1c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:31 +0000
Subject: [PATCH 17/74] fix: comments inside of a macro body are ignored
 everywhere

---
 src/fn_macro.rs   |  2 +-
 src/macro_body.rs | 22 ++++++++++------------
 src/var_macro.rs  |  5 +----
 3 files changed, 12 insertions(+), 17 deletions(-)

diff --git a/src/fn_macro.rs b/src/fn_macro.rs
index b28c118..044a389 100644
--- a/src/fn_macro.rs
+++ b/src/fn_macro.rs
@@ -140,7 +140,7 @@ impl<'t> FnMacro<'t> {
 
     let (_, args) = Self::parse_args(args).map_err(|_| crate::ParserError::InvalidMacroArgs)?;
 
-    let (_, body) = MacroBody::parse(body).map_err(|_err| crate::ParserError::InvalidMacroBody)?;
+    let body = MacroBody::parse(body)?;
 
     Ok(Self { name, args, body })
   }
diff --git a/src/macro_body.rs b/src/macro_body.rs
index 0b92656..13503cf 100644
--- a/src/macro_body.rs
+++ b/src/macro_body.rs
@@ -3,13 +3,9 @@ use std::fmt::Debug;
 use nom::{
   branch::alt,
   combinator::{all_consuming, map},
-  IResult,
 };
 
-use crate::{
-  ast::{meta, Type},
-  CodegenContext, Expr, LocalContext, MacroToken, Statement,
-};
+use crate::{ast::Type, CodegenContext, Expr, LocalContext, MacroToken, ParserError, Statement};
 
 /// The body of a macro.
 #[derive(Debug, Clone)]
@@ -37,19 +33,21 @@ pub enum MacroBody<'t> {
 }
 
 impl<'t> MacroBody<'t> {
-  pub(crate) fn parse<'i>(tokens: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Self> {
-    let (tokens, _) = meta(tokens)?;
+  pub(crate) fn parse(tokens: &[MacroToken<'t>]) -> Result<Self, ParserError> {
+    // Comments have no meaning, wherever they are.
+    let tokens = tokens.iter().filter(|t| !matches!(t, MacroToken::Comment(_))).cloned().collect::<Vec<_>>();
 
     if tokens.is_empty() {
-      return Ok((tokens, Self::Statement(Statement::Block(vec![]))))
+      return Ok(Self::Statement(Statement::Block(vec![])))
     }
 
-    let (tokens, body) = alt((
+    let body = alt((
       all_consuming(map(Expr::parse, Self::Expr)),
       all_consuming(map(Statement::parse, Self::Statement)),
-    ))(tokens)?;
-
-    Ok((tokens, body))
+    ))(tokens.as_slice())
+    .map(|(_, body)| body)
+    .map_err(|_| ParserError::InvalidMacroBody);
+    body
   }
 
   pub(crate) fn finish<C>(&mut self, ctx: &mut LocalContext<'_, 't, C>) -> Result<Option<Type<'t>>, crate::CodegenError>
diff --git a/src/var_macro.rs b/src/var_macro.rs
index 8a3c150..b1ff49d 100644
--- a/src/var_macro.rs
+++ b/src/var_macro.rs
@@ -38,10 +38,7 @@ impl<'t> VarMacro<'t> {
   pub fn parse(name: &str, value: &[MacroToken<'t>]) -> Result<Self, crate::ParserError> {
     let name = if is_identifier(name) { name.to_owned() } else { return Err(crate::ParserError::InvalidMacroName) };
 
-    let body = match MacroBody::parse(value) {
-      Ok((_, body)) => body,
-      Err(_) => return Err(crate::ParserError::InvalidMacroBody),
-    };
+    let body = MacroBody::parse(value)?;
 
     Ok(Self { name, body })
   }
-- 
2.43.0


From 58a2493f746f2ddf583bfd21bc63da502363b4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:35 +0000
Subject: [PATCH 18/74] fix: ! compares its operand to zero unless that is a
 boolean

---
 src/ast/expr.rs       | 6 +++++-
 src/ast/unary_expr.rs | 4 ++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 186ceee..f8b1057 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -689,8 +689,9 @@ impl<'t> Expr<'t> {
               LitFloat::LongDouble(f) => LitFloat::LongDouble(-f),
             }));
           },
-          (UnaryOp::Not, Self::Literal(Lit::Int(LitInt { value: i, suffix: None }))) => {
+          (UnaryOp::Not, Self::Literal(Lit::Int(LitInt { value: i, .. }))) => {
             *self = Self::Literal(Lit::Int(LitInt { value: (*i == 0).into(), suffix: None }));
+            return self.finish(ctx)
           },
           (UnaryOp::Not, Self::Literal(Lit::Float(f))) => {
             *self = Self::Literal(Lit::Int(LitInt {
@@ -701,6 +702,7 @@ impl<'t> Expr<'t> {
               } as i128,
               suffix: None,
             }));
+            return self.finish(ctx)
           },
           (UnaryOp::Not, expr) => {
             if ty != Some(Type::BuiltIn(BuiltInType::Bool)) {
@@ -714,6 +716,8 @@ impl<'t> Expr<'t> {
 
               *self = Self::Binary(BinaryExpr { lhs: Box::new(lhs), op: BinaryOp::Eq, rhs: Box::new(rhs) })
             }
+
+            return Ok(Some(Type::BuiltIn(BuiltInType::Bool)))
           },
           (UnaryOp::Comp, Self::Literal(Lit::Float(_) | Lit::String(_))) => {
             return Err(crate::CodegenError::UnsupportedExpression("complement of float or string".to_owned()))
diff --git a/src/ast/unary_expr.rs b/src/ast/unary_expr.rs
index 2e81c6c..c756b4e 100644
--- a/src/ast/unary_expr.rs
+++ b/src/ast/unary_expr.rs
@@ -3,7 +3,7 @@ use quote::{quote, TokenStreamExt};
 
 use crate::{CodegenContext, LocalContext};
 
-use super::{Associativity, BinaryExpr, BinaryOp, BuiltInType, Cast, Expr, Type};
+use super::{Associativity, BinaryExpr, BinaryOp, Cast, Expr, Type};
 
 /// A unary expression operator.
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
@@ -64,6 +64,7 @@ impl<'t> UnaryExpr<'t> {
     self.op.precedence()
   }
 
+  /// Note that for `UnaryOp::Not`, this returns the type of the operand.
   pub(crate) fn finish<C>(&mut self, ctx: &mut LocalContext<'_, 't, C>) -> Result<Option<Type<'t>>, crate::CodegenError>
   where
     C: CodegenContext,
@@ -71,7 +72,6 @@ impl<'t> UnaryExpr<'t> {
     let ty = self.expr.finish(ctx)?;
 
     match self.op {
-      UnaryOp::Not => Ok(Some(Type::BuiltIn(BuiltInType::Bool))),
       UnaryOp::Deref => {
         // Cannot dereference pointers in variable macros, i.e. constants.
         if ctx.is_variable_macro() {
-- 
2.43.0


From 7b0421b5cd3f688191ece6267a092af890133f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:24 +0000
Subject: [PATCH 19/74] fix: there is no unary plus in Rust

---
 src/ast/expr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index f8b1057..7983ef0 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -669,7 +669,8 @@ impl<'t> Expr<'t> {
         let ty = op.finish(ctx)?;
 
         match (op.op, &*op.expr) {
-          (UnaryOp::Plus, expr @ Self::Literal(Lit::Int(_)) | expr @ Self::Literal(Lit::Float(_))) => {
+          // There is no unary `+` in Rust.
+          (UnaryOp::Plus, expr) => {
             *self = expr.clone();
           },
           (UnaryOp::Minus, Self::Literal(Lit::Int(LitInt { value: i, suffix }))) => {
-- 
2.43.0


From 2bc00356062696d9313bd32790184f4490b64003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:29 +0000
Subject: [PATCH 20/74] fix: compound assignments apply their own operator and
 have a value

---
 src/ast/binary_expr.rs | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index e307559..085fdf6 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -125,6 +125,23 @@ impl BinaryOp {
         | Self::BitOrAssign
     )
   }
+
+  /// The operator which is combined with the assignment.
+  pub(crate) const fn compound_op(&self) -> Option<Self> {
+    match self {
+      Self::AddAssign => Some(Self::Add),
+      Self::SubAssign => Some(Self::Sub),
+      Self::MulAssign => Some(Self::Mul),
+      Self::DivAssign => Some(Self::Div),
+      Self::RemAssign => Some(Self::Rem),
+      Self::ShlAssign => Some(Self::Shl),
+      Self::ShrAssign => Some(Self::Shr),
+      Self::BitAndAssign => Some(Self::BitAnd),
+      Self::BitXorAssign => Some(Self::BitXor),
+      Self::BitOrAssign => Some(Self::BitOr),
+      _ => None,
+    }
+  }
 }
 
 impl ToTokens for BinaryOp {
@@ -306,22 +323,21 @@ impl<'t> BinaryExpr<'t> {
     }
 
     match self.op {
-      BinaryOp::Assign
-      | BinaryOp::AddAssign
-      | BinaryOp::SubAssign
-      | BinaryOp::BitAndAssign
-      | BinaryOp::BitXorAssign
-      | BinaryOp::BitOrAssign => {
+      op if op.is_assignment() => {
         if let Expr::Unary(UnaryExpr { op: UnaryOp::Deref, expr }) = &*self.lhs {
           if let Expr::Cast(Cast { ty: Type::Ptr { ty }, .. }) = &**expr {
             if matches!(&**ty, Type::Qualified { qualifier, .. } if qualifier.is_volatile()) {
               let lhs_ptr = expr.to_token_stream(ctx);
 
-              let value = if self.op == BinaryOp::Assign {
-                quote! { #rhs }
-              } else {
+              let value = if let Some(op) = self.op.compound_op() {
+                if rhs_prec >= op.precedence().0 {
+                  rhs = quote! { (#rhs) };
+                }
+
                 let prefix = ctx.trait_prefix().into_iter();
-                quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) + #rhs }
+                quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) #op #rhs }
+              } else {
+                quote! { #rhs }
               };
 
               let prefix = ctx.trait_prefix().into_iter();
-- 
2.43.0


From 3d9de9e474b174b7c3a8c3b545e7033de7d7cf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:42 +0000
Subject: [PATCH 21/74] fix: an expression starting with a block is
 parenthesized at the begin of a statement

---
 src/ast/expr.rs         | 21 ++++++++++++++++++++-
 src/ast/statement.rs    |  2 +-
 src/ast/ternary_expr.rs |  4 ++--
 src/fn_macro.rs         |  2 +-
 4 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 7983ef0..8c9bfcb 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -7,7 +7,7 @@ use nom::{
   sequence::{delimited, pair, preceded, terminated, tuple},
   IResult,
 };
-use proc_macro2::TokenStream;
+use proc_macro2::{Delimiter, TokenStream, TokenTree};
 use quote::{quote, TokenStreamExt};
 
 use super::{tokens::parenthesized, *};
@@ -870,6 +870,25 @@ impl<'t> Expr<'t> {
     self.to_tokens(ctx, &mut tokens);
     tokens
   }
+
+  /// Generate this expression for use at the begin of a statement or as the last expression in a block,
+  /// where a block would end the statement, i.e. `{ a += 1; a } + b` is not a single expression there.
+  pub(crate) fn to_statement_token_stream<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>) -> TokenStream {
+    let expr = self.to_token_stream(ctx);
+
+    let mut tokens = expr.clone().into_iter();
+    let starts_with_block = match tokens.next() {
+      Some(TokenTree::Group(group)) => group.delimiter() == Delimiter::Brace && tokens.next().is_some(),
+      Some(TokenTree::Ident(id)) => id == "if" && !matches!(self, Self::Ternary(_)),
+      _ => false,
+    };
+
+    if starts_with_block {
+      quote! { (#expr) }
+    } else {
+      expr
+    }
+  }
 }
 
 #[cfg(test)]
diff --git a/src/ast/statement.rs b/src/ast/statement.rs
index 902dd28..b963c6b 100644
--- a/src/ast/statement.rs
+++ b/src/ast/statement.rs
@@ -150,7 +150,7 @@ impl<'t> Statement<'t> {
         tokens.append_all(quote! { #asm; })
       },
       Self::Expr(expr) => {
-        let expr = expr.to_token_stream(ctx);
+        let expr = expr.to_statement_token_stream(ctx);
         tokens.append_all(quote! { #expr; })
       },
       Self::FunctionDecl(f) => f.to_tokens(ctx, tokens),
diff --git a/src/ast/ternary_expr.rs b/src/ast/ternary_expr.rs
index 1976e89..81e20b7 100644
--- a/src/ast/ternary_expr.rs
+++ b/src/ast/ternary_expr.rs
@@ -39,8 +39,8 @@ impl<'t> TernaryExpr<'t> {
 
   pub(crate) fn to_tokens<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>, tokens: &mut TokenStream) {
     let cond = self.condition.to_token_stream(ctx);
-    let if_branch = self.if_branch.to_token_stream(ctx);
-    let else_branch = self.else_branch.to_token_stream(ctx);
+    let if_branch = self.if_branch.to_statement_token_stream(ctx);
+    let else_branch = self.else_branch.to_statement_token_stream(ctx);
 
     tokens.append_all(quote! {
       if #cond {
diff --git a/src/fn_macro.rs b/src/fn_macro.rs
index 044a389..138056e 100644
--- a/src/fn_macro.rs
+++ b/src/fn_macro.rs
@@ -182,7 +182,7 @@ impl<'t> FnMacro<'t> {
     let mut body = TokenStream::new();
     match &self.body {
       MacroBody::Statement(stmt) => stmt.to_tokens(&mut ctx, &mut body),
-      MacroBody::Expr(expr) => expr.to_tokens(&mut ctx, &mut body),
+      MacroBody::Expr(expr) => body.append_all(expr.to_statement_token_stream(&mut ctx)),
     }
 
     if ctx.export_as_macro {
-- 
2.43.0


From 24cbccb5ab7cdcb43b98b3ee8147bbcc2abab0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:46 +0000
Subject: [PATCH 22/74] fix: the complement of a comparison is not its negation

---
 src/ast/expr.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 8c9bfcb..be465b1 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -723,6 +723,12 @@ impl<'t> Expr<'t> {
           (UnaryOp::Comp, Self::Literal(Lit::Float(_) | Lit::String(_))) => {
             return Err(crate::CodegenError::UnsupportedExpression("complement of float or string".to_owned()))
           },
+          // In Rust, the complement of a boolean is a logical negation.
+          (UnaryOp::Comp, expr) if ty == Some(Type::BuiltIn(BuiltInType::Bool)) => {
+            let ty = Type::BuiltIn(BuiltInType::Int);
+            op.expr = Box::new(Self::Cast(Cast { ty: ty.clone(), expr: Box::new(expr.clone()) }));
+            return Ok(Some(ty))
+          },
           _ => (),
         }
 
-- 
2.43.0


From 787f86fb0834755055689c4d475e04981617351b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:12 +0000
Subject: [PATCH 23/74] fix: comparisons are integers in arithmetic

---
 src/ast/binary_expr.rs | 16 ++++++++++++++++
 src/ast/expr.rs        |  4 ++--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index 085fdf6..d5b809b 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -126,6 +126,10 @@ impl BinaryOp {
     )
   }
 
+  pub(crate) const fn is_arithmetic(&self) -> bool {
+    matches!(self, Self::Mul | Self::Div | Self::Rem | Self::Add | Self::Sub | Self::Shl | Self::Shr)
+  }
+
   /// The operator which is combined with the assignment.
   pub(crate) const fn compound_op(&self) -> Option<Self> {
     match self {
@@ -226,6 +230,18 @@ impl<'t> BinaryExpr<'t> {
     let mut lhs_ty = self.lhs.finish(ctx)?;
     let mut rhs_ty = self.rhs.finish(ctx)?;
 
+    // There is no arithmetic on booleans in Rust.
+    if self.op.is_arithmetic() {
+      let (bool_ty, int_ty) = (Type::BuiltIn(BuiltInType::Bool), Type::BuiltIn(BuiltInType::Int));
+
+      for (expr, ty) in [(&mut self.lhs, &mut lhs_ty), (&mut self.rhs, &mut rhs_ty)] {
+        if *ty == Some(bool_ty.clone()) {
+          *expr = Box::new(Expr::Cast(Cast { ty: int_ty.clone(), expr: expr.clone() }));
+          *ty = Some(int_ty.clone());
+        }
+      }
+    }
+
     // Arg must be an identifier for use as a member name.
     if self.op == BinaryOp::MemberAccess {
       if let Expr::Var(Var { name: IdentifierExpr::Arg(arg) }) = &*self.rhs {
diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index be465b1..c777d64 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -723,8 +723,8 @@ impl<'t> Expr<'t> {
           (UnaryOp::Comp, Self::Literal(Lit::Float(_) | Lit::String(_))) => {
             return Err(crate::CodegenError::UnsupportedExpression("complement of float or string".to_owned()))
           },
-          // In Rust, the complement of a boolean is a logical negation.
-          (UnaryOp::Comp, expr) if ty == Some(Type::BuiltIn(BuiltInType::Bool)) => {
+          // In Rust, the complement of a boolean is a logical negation and there is no arithmetic on booleans.
+          (UnaryOp::Comp | UnaryOp::Minus, expr) if ty == Some(Type::BuiltIn(BuiltInType::Bool)) => {
             let ty = Type::BuiltIn(BuiltInType::Int);
             op.expr = Box::new(Self::Cast(Cast { ty: ty.clone(), expr: Box::new(expr.clone()) }));
             return Ok(Some(ty))
-- 
2.43.0


From bb1ca330408bb75b45f9a137a65766f4c2cb32de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:58 +0000
Subject: [PATCH 24/74] fix: operands with side effects are evaluated once and
 temporary variables hide no other names

---
 src/ast/binary_expr.rs |  43 ++++++------
 src/ast/expr.rs        |  68 ++++++++++++++++++-
 src/ast/unary_expr.rs  | 146 +++++++++++++----------------------------
 src/codegen/mod.rs     |  19 ++++++
 4 files changed, 155 insertions(+), 121 deletions(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index d5b809b..cbb8e99 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -3,7 +3,7 @@ use std::fmt::Debug;
 use proc_macro2::TokenStream;
 use quote::{quote, ToTokens, TokenStreamExt};
 
-use crate::{CodegenContext, LocalContext, MacroArgType};
+use crate::{codegen::local_ident, CodegenContext, LocalContext, MacroArgType};
 
 use super::{BuiltInType, Cast, Expr, IdentifierExpr, Lit, LitFloat, LitInt, Type, UnaryExpr, UnaryOp, Var};
 
@@ -341,34 +341,35 @@ impl<'t> BinaryExpr<'t> {
     match self.op {
       op if op.is_assignment() => {
         if let Expr::Unary(UnaryExpr { op: UnaryOp::Deref, expr }) = &*self.lhs {
-          if let Expr::Cast(Cast { ty: Type::Ptr { ty }, .. }) = &**expr {
-            if matches!(&**ty, Type::Qualified { qualifier, .. } if qualifier.is_volatile()) {
-              let lhs_ptr = expr.to_token_stream(ctx);
+          if expr.is_volatile_ptr() {
+            let (setup, lhs_ptr) = expr.to_reusable_ptr(ctx, &rhs);
+            let id = local_ident("value", &[&lhs_ptr]);
 
-              let value = if let Some(op) = self.op.compound_op() {
-                if rhs_prec >= op.precedence().0 {
-                  rhs = quote! { (#rhs) };
-                }
-
-                let prefix = ctx.trait_prefix().into_iter();
-                quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) #op #rhs }
-              } else {
-                quote! { #rhs }
-              };
+            let value = if let Some(op) = self.op.compound_op() {
+              if rhs_prec >= op.precedence().0 {
+                rhs = quote! { (#rhs) };
+              }
 
               let prefix = ctx.trait_prefix().into_iter();
-              return quote! {
-                {
-                  let value = #value;
-                  #(#prefix::)*ptr::write_volatile(#lhs_ptr, value);
-                  value
-                }
+              quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) #op #rhs }
+            } else {
+              quote! { #rhs }
+            };
+
+            let prefix = ctx.trait_prefix().into_iter();
+            return quote! {
+              {
+                #setup
+                let #id = #value;
+                #(#prefix::)*ptr::write_volatile(#lhs_ptr, #id);
+                #id
               }
             }
           }
         }
 
-        quote! { { #lhs #op #rhs; #lhs } }
+        let (setup, lhs) = self.lhs.to_place(ctx, &rhs);
+        quote! { { #setup #lhs #op #rhs; #lhs } }
       },
       op => {
         if lhs_parens {
diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index c777d64..7c6b50c 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -11,7 +11,10 @@ use proc_macro2::{Delimiter, TokenStream, TokenTree};
 use quote::{quote, TokenStreamExt};
 
 use super::{tokens::parenthesized, *};
-use crate::{codegen::quote_c_char_ptr, CodegenContext, LocalContext, MacroToken};
+use crate::{
+  codegen::{local_ident, quote_c_char_ptr},
+  CodegenContext, LocalContext, MacroToken,
+};
 
 /// An expression.
 #[derive(Debug, Clone, PartialEq, Eq)]
@@ -420,6 +423,69 @@ impl<'t> Expr<'t> {
     Self::parse_term_prec14(tokens)
   }
 
+  /// Check if evaluating this expression more than once makes a difference.
+  pub(crate) fn has_side_effects(&self) -> bool {
+    match self {
+      Self::FunctionCall(_) => true,
+      Self::Unary(UnaryExpr { op, expr }) => {
+        matches!(op, UnaryOp::Inc | UnaryOp::Dec | UnaryOp::PostInc | UnaryOp::PostDec)
+          || (*op == UnaryOp::Deref && expr.is_volatile_ptr())
+          || expr.has_side_effects()
+      },
+      Self::Binary(BinaryExpr { lhs, op, rhs }) => op.is_assignment() || lhs.has_side_effects() || rhs.has_side_effects(),
+      Self::Ternary(TernaryExpr { condition, if_branch, else_branch }) => {
+        condition.has_side_effects() || if_branch.has_side_effects() || else_branch.has_side_effects()
+      },
+      Self::Cast(Cast { expr, .. }) | Self::Parenthesized(expr) => expr.has_side_effects(),
+      Self::Var(_) | Self::Literal(_) | Self::Stringify(_) | Self::ConcatString(_) | Self::SizeOf(_) => false,
+    }
+  }
+
+  /// Check if this is a cast to a pointer to a volatile value.
+  pub(crate) fn is_volatile_ptr(&self) -> bool {
+    match self {
+      Self::Cast(Cast { ty: Type::Ptr { ty }, .. }) => {
+        matches!(&**ty, Type::Qualified { qualifier, .. } if qualifier.is_volatile())
+      },
+      _ => false,
+    }
+  }
+
+  /// Generate the place this expression refers to for use more than once, that is
+  /// the code for it and the code which needs to run before it is used.
+  pub(crate) fn to_place<C: CodegenContext>(
+    &self,
+    ctx: &mut LocalContext<'_, 't, C>,
+    context: &TokenStream,
+  ) -> (TokenStream, TokenStream) {
+    let place = self.to_token_stream(ctx);
+
+    if self.has_side_effects() {
+      let id = local_ident("place", &[&place, context]);
+      let prefix = ctx.trait_prefix().into_iter();
+      (quote! { let #id = #(#prefix::)*ptr::addr_of_mut!(#place); }, quote! { *#id })
+    } else {
+      (TokenStream::new(), place)
+    }
+  }
+
+  /// Generate this pointer for use more than once, that is the code for it and the code
+  /// which needs to run before it is used.
+  pub(crate) fn to_reusable_ptr<C: CodegenContext>(
+    &self,
+    ctx: &mut LocalContext<'_, 't, C>,
+    context: &TokenStream,
+  ) -> (TokenStream, TokenStream) {
+    let ptr = self.to_token_stream(ctx);
+
+    if self.has_side_effects() {
+      let id = local_ident("place", &[&ptr, context]);
+      (quote! { let #id = #ptr; }, quote! { #id })
+    } else {
+      (TokenStream::new(), ptr)
+    }
+  }
+
   fn into_inner(self) -> Self {
     match self {
       Self::Parenthesized(expr) => *expr,
diff --git a/src/ast/unary_expr.rs b/src/ast/unary_expr.rs
index c756b4e..c62727a 100644
--- a/src/ast/unary_expr.rs
+++ b/src/ast/unary_expr.rs
@@ -1,7 +1,7 @@
 use proc_macro2::TokenStream;
 use quote::{quote, TokenStreamExt};
 
-use crate::{CodegenContext, LocalContext};
+use crate::{codegen::local_ident, CodegenContext, LocalContext};
 
 use super::{Associativity, BinaryExpr, BinaryOp, Cast, Expr, Type};
 
@@ -107,105 +107,44 @@ impl<'t> UnaryExpr<'t> {
     };
 
     match self.op {
-      UnaryOp::Inc => {
-        if let Expr::Unary(UnaryExpr { op: UnaryOp::Deref, expr }) = &*self.expr {
-          if let Expr::Cast(Cast { ty: Type::Ptr { ty }, .. }) = &**expr {
-            if matches!(&**ty, Type::Qualified { qualifier, .. } if qualifier.is_volatile()) {
-              let lhs_ptr = expr.to_token_stream(ctx);
-
-              let prefix = ctx.trait_prefix().into_iter();
-              let value = {
-                quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) + 1 }
-              };
-
-              let prefix = ctx.trait_prefix().into_iter();
-              return quote! {
-                {
-                  let value = #value;
-                  #(#prefix::)*ptr::write_volatile(#lhs_ptr, value);
-                  value
-                }
-              }
-            }
-          }
-        }
-
-        quote! { { #raw_expr += 1; #raw_expr } }
-      },
-      UnaryOp::Dec => {
-        if let Expr::Unary(UnaryExpr { op: UnaryOp::Deref, expr }) = &*self.expr {
-          if let Expr::Cast(Cast { ty: Type::Ptr { ty }, .. }) = &**expr {
-            if matches!(&**ty, Type::Qualified { qualifier, .. } if qualifier.is_volatile()) {
-              let lhs_ptr = expr.to_token_stream(ctx);
-
-              let prefix = ctx.trait_prefix().into_iter();
-              let value = {
-                quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) - 1 }
-              };
-
-              let prefix = ctx.trait_prefix().into_iter();
-              return quote! {
-                {
-                  let value = #value;
-                  #(#prefix::)*ptr::write_volatile(#lhs_ptr, value);
-                  value
-                }
-              }
-            }
-          }
-        }
+      UnaryOp::Inc | UnaryOp::Dec | UnaryOp::PostInc | UnaryOp::PostDec => {
+        let (op, assign_op) = match self.op {
+          UnaryOp::Inc | UnaryOp::PostInc => (BinaryOp::Add, BinaryOp::AddAssign),
+          _ => (BinaryOp::Sub, BinaryOp::SubAssign),
+        };
+        let is_postfix = matches!(self.op, UnaryOp::PostInc | UnaryOp::PostDec);
 
-        quote! { { #raw_expr -= 1; #raw_expr } }
-      },
-      UnaryOp::PostInc => {
         if let Expr::Unary(UnaryExpr { op: UnaryOp::Deref, expr }) = &*self.expr {
-          if let Expr::Cast(Cast { ty: Type::Ptr { ty }, .. }) = &**expr {
-            if matches!(&**ty, Type::Qualified { qualifier, .. } if qualifier.is_volatile()) {
-              let lhs_ptr = expr.to_token_stream(ctx);
-
-              let prefix = ctx.trait_prefix().into_iter();
-              let value = {
-                quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) }
-              };
-
-              let prefix = ctx.trait_prefix().into_iter();
-              return quote! {
-                {
-                  let value = #value;
-                  #(#prefix::)*ptr::write_volatile(#lhs_ptr, value + 1);
-                  value
-                }
+          if expr.is_volatile_ptr() {
+            let (setup, lhs_ptr) = expr.to_reusable_ptr(ctx, &TokenStream::new());
+            let id = local_ident("value", &[&lhs_ptr]);
+
+            let prefix = ctx.trait_prefix().into_iter();
+            let value = quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) };
+
+            let (value, new_value) =
+              if is_postfix { (value, quote! { #id #op 1 }) } else { (quote! { #value #op 1 }, quote! { #id }) };
+
+            let prefix = ctx.trait_prefix().into_iter();
+            return quote! {
+              {
+                #setup
+                let #id = #value;
+                #(#prefix::)*ptr::write_volatile(#lhs_ptr, #new_value);
+                #id
               }
             }
           }
         }
 
-        quote! { { let prev = #raw_expr; #raw_expr += 1; prev } }
-      },
-      UnaryOp::PostDec => {
-        if let Expr::Unary(UnaryExpr { op: UnaryOp::Deref, expr }) = &*self.expr {
-          if let Expr::Cast(Cast { ty: Type::Ptr { ty }, .. }) = &**expr {
-            if matches!(&**ty, Type::Qualified { qualifier, .. } if qualifier.is_volatile()) {
-              let lhs_ptr = expr.to_token_stream(ctx);
-
-              let prefix = ctx.trait_prefix().into_iter();
-              let value = {
-                quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) }
-              };
+        let (setup, place) = self.expr.to_place(ctx, &TokenStream::new());
 
-              let prefix = ctx.trait_prefix().into_iter();
-              return quote! {
-                {
-                  let value = #value;
-                  #(#prefix::)*ptr::write_volatile(#lhs_ptr, value - 1);
-                  value
-                }
-              }
-            }
-          }
+        if is_postfix {
+          let prev = local_ident("prev", &[&place]);
+          quote! { { #setup let #prev = #place; #place #assign_op 1; #prev } }
+        } else {
+          quote! { { #setup #place #assign_op 1; #place } }
         }
-
-        quote! { { let prev = #raw_expr; #raw_expr -= 1; prev } }
       },
       UnaryOp::Not => format!("!{expr}").parse::<TokenStream>().unwrap(),
       UnaryOp::Comp => format!("!{expr}").parse::<TokenStream>().unwrap(),
@@ -237,15 +176,24 @@ impl<'t> UnaryExpr<'t> {
               _ => (),
             }
           },
-          Expr::Unary(UnaryExpr { op, expr }) => {
-            let raw_expr = expr.to_token_stream(ctx);
+          Expr::Unary(UnaryExpr { op, expr })
+            if matches!(op, UnaryOp::Inc | UnaryOp::Dec | UnaryOp::PostInc | UnaryOp::PostDec) =>
+          {
+            let (setup, place) = expr.to_place(ctx, &TokenStream::new());
 
-            match op {
-              UnaryOp::Inc => return quote! { *{ #raw_expr = #raw_expr.add(1); #raw_expr } },
-              UnaryOp::Dec => return quote! { *{ #raw_expr = #raw_expr.sub(1); #raw_expr } },
-              UnaryOp::PostInc => return quote! { *{ let prev = #raw_expr; #raw_expr = #raw_expr.add(1); prev } },
-              UnaryOp::PostDec => return quote! { *{ let prev = #raw_expr; #raw_expr = #raw_expr.sub(1); prev } },
-              _ => (),
+            let (expr_prec, _) = expr.precedence();
+            let ptr = if !setup.is_empty() || expr_prec > 1 { quote! { (#place) } } else { quote! { #place } };
+
+            let value = match op {
+              UnaryOp::Inc | UnaryOp::PostInc => quote! { #ptr.add(1) },
+              _ => quote! { #ptr.sub(1) },
+            };
+
+            return if matches!(op, UnaryOp::PostInc | UnaryOp::PostDec) {
+              let prev = local_ident("prev", &[&place]);
+              quote! { *{ #setup let #prev = #place; #place = #value; #prev } }
+            } else {
+              quote! { *{ #setup #place = #value; #place } }
             }
           },
           _ => (),
diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index abd96ae..f034e05 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -1,3 +1,4 @@
+use proc_macro2::{Ident, Span, TokenStream, TokenTree};
 use quote::quote;
 
 use crate::{CodegenContext, LocalContext};
@@ -30,3 +31,21 @@ pub(crate) fn quote_c_char_ptr<C: CodegenContext>(
     }
   }
 }
+
+/// Create an identifier for a local variable which does not hide any identifier in the given tokens.
+pub(crate) fn local_ident(name: &str, tokens: &[&TokenStream]) -> Ident {
+  fn contains(tokens: &TokenStream, name: &str) -> bool {
+    tokens.clone().into_iter().any(|token| match token {
+      TokenTree::Ident(id) => id == name,
+      TokenTree::Group(group) => contains(&group.stream(), name),
+      _ => false,
+    })
+  }
+
+  let mut name = name.to_owned();
+  while tokens.iter().any(|tokens| contains(tokens, &name)) {
+    name.push('_');
+  }
+
+  Ident::new(&name, Span::call_site())
+}
-- 
2.43.0


From 31a7ea6fdd71b47714fe2566da821f2b80eda902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:15 +0000
Subject: [PATCH 25/74] fix: an array access may follow a postfix operator

---
 src/ast/expr.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 7c6b50c..5f06383 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -158,8 +158,7 @@ impl<'t> Expr<'t> {
                   rhs: Box::new(Self::Var(Var { name: field })),
                 }) // TODO: Separate expression type for field access.
               },
-              // Array access cannot be chained after postfix `++`/`--`.
-              (acc, Access::Array { index }) if !was_unary_postfix_op => {
+              (acc, Access::Array { index }) => {
                 // Array access is an addition followed by dereference.
                 Self::Unary(UnaryExpr {
                   op: UnaryOp::Deref,
-- 
2.43.0


From 3de275b4c9f6adfcda9edd4aeb3d9c6827c8ab17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:50 +0000
Subject: [PATCH 26/74] fix: negative literals, line numbers and trailing types
 are parenthesized where needed

---
 src/ast/binary_expr.rs |  4 ++--
 src/ast/expr.rs        | 19 ++++++++++++++++++-
 src/ast/literal.rs     | 11 +++++++++++
 src/ast/var.rs         |  4 ++++
 4 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index cbb8e99..37fcad3 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -333,8 +333,8 @@ impl<'t> BinaryExpr<'t> {
     };
 
     // Ensure that a cast on the left side is quoted when shifting
-    // left to avoid ambiguous type parameter errors.
-    if matches!(&*self.lhs, Expr::Cast(..) | Expr::SizeOf(..)) && matches!(op, BinaryOp::Shl) {
+    // left or comparing to avoid ambiguous type parameter errors.
+    if self.lhs.ends_with_type() && matches!(op, BinaryOp::Shl | BinaryOp::Lt) {
       lhs_parens = true;
     }
 
diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 5f06383..3b7f337 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -35,8 +35,12 @@ pub enum Expr<'t> {
 }
 
 impl<'t> Expr<'t> {
-  pub(crate) const fn precedence(&self) -> (u8, Associativity) {
+  pub(crate) fn precedence(&self) -> (u8, Associativity) {
     match self {
+      // Negative literals are generated with an unary minus.
+      Self::Literal(lit) if lit.is_negative() => UnaryOp::Minus.precedence(),
+      // Generated as a cast.
+      Self::Var(var) if var.is_line() => (3, Associativity::Left),
       Self::Literal(_) | Self::Var(_) => (0, Associativity::None),
       Self::FunctionCall(_) => (1, Associativity::Left),
       Self::Stringify(_) | Self::ConcatString(_) => (3, Associativity::Left),
@@ -440,6 +444,19 @@ impl<'t> Expr<'t> {
     }
   }
 
+  /// Check if the code generated for this expression ends with a type.
+  pub(crate) fn ends_with_type(&self) -> bool {
+    match self {
+      Self::Cast(_) | Self::SizeOf(_) => true,
+      Self::Var(var) => var.is_line(),
+      Self::Binary(BinaryExpr { op, rhs, .. }) if !op.is_assignment() => {
+        rhs.precedence().0 < op.precedence().0 && rhs.ends_with_type()
+      },
+      Self::Parenthesized(expr) => expr.ends_with_type(),
+      _ => false,
+    }
+  }
+
   /// Check if this is a cast to a pointer to a volatile value.
   pub(crate) fn is_volatile_ptr(&self) -> bool {
     match self {
diff --git a/src/ast/literal.rs b/src/ast/literal.rs
index 1aa7e3d..61a30a1 100644
--- a/src/ast/literal.rs
+++ b/src/ast/literal.rs
@@ -76,6 +76,17 @@ impl<'t> Lit<'t> {
     ))(input)
   }
 
+  pub(crate) fn is_negative(&self) -> bool {
+    match self {
+      Self::Char(_) | Self::String(_) => false,
+      Self::Float(f) => match f {
+        LitFloat::Float(f) => f.is_sign_negative(),
+        LitFloat::Double(f) | LitFloat::LongDouble(f) => f.is_sign_negative(),
+      },
+      Self::Int(i) => i.value < 0,
+    }
+  }
+
   pub(crate) fn finish<C: CodegenContext>(
     &mut self,
     ctx: &mut LocalContext<'_, 't, C>,
diff --git a/src/ast/var.rs b/src/ast/var.rs
index 37091ad..0dbb053 100644
--- a/src/ast/var.rs
+++ b/src/ast/var.rs
@@ -16,6 +16,10 @@ pub struct Var<'t> {
 }
 
 impl<'t> Var<'t> {
+  pub(crate) fn is_line(&self) -> bool {
+    matches!(&self.name, IdentifierExpr::Plain(id) if id.as_str() == "__LINE__")
+  }
+
   pub(crate) fn finish<C>(&mut self, ctx: &mut LocalContext<'_, 't, C>) -> Result<Option<Type<'t>>, crate::CodegenError>
   where
     C: CodegenContext,
-- 
2.43.0


From 5d57847afc45e317e229725c7bd50b8261b624ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:50 +0000
Subject: [PATCH 27/74] fix: comparisons are integers when mixed with or
 assigned to integers

---
 src/ast/binary_expr.rs | 38 ++++++++++++++++++++++++++++++--------
 src/ast/ty.rs          |  4 ++++
 2 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index 37fcad3..200564a 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -130,6 +130,10 @@ impl BinaryOp {
     matches!(self, Self::Mul | Self::Div | Self::Rem | Self::Add | Self::Sub | Self::Shl | Self::Shr)
   }
 
+  pub(crate) const fn is_bitwise(&self) -> bool {
+    matches!(self, Self::BitAnd | Self::BitXor | Self::BitOr)
+  }
+
   /// The operator which is combined with the assignment.
   pub(crate) const fn compound_op(&self) -> Option<Self> {
     match self {
@@ -230,15 +234,28 @@ impl<'t> BinaryExpr<'t> {
     let mut lhs_ty = self.lhs.finish(ctx)?;
     let mut rhs_ty = self.rhs.finish(ctx)?;
 
-    // There is no arithmetic on booleans in Rust.
-    if self.op.is_arithmetic() {
-      let (bool_ty, int_ty) = (Type::BuiltIn(BuiltInType::Bool), Type::BuiltIn(BuiltInType::Int));
+    // A boolean is an integer in C, but there is no arithmetic on booleans in Rust
+    // and they cannot be mixed with or assigned to integers.
+    let is_bool = |ty: &Option<Type>| matches!(ty, Some(Type::BuiltIn(BuiltInType::Bool)));
+    let is_int = |expr: &Expr, ty: &Option<Type>| match ty {
+      Some(Type::BuiltIn(ty)) => ty.is_int(),
+      _ => matches!(expr, Expr::Literal(Lit::Int(_))),
+    };
 
-      for (expr, ty) in [(&mut self.lhs, &mut lhs_ty), (&mut self.rhs, &mut rhs_ty)] {
-        if *ty == Some(bool_ty.clone()) {
-          *expr = Box::new(Expr::Cast(Cast { ty: int_ty.clone(), expr: expr.clone() }));
-          *ty = Some(int_ty.clone());
-        }
+    let op = self.op.compound_op().unwrap_or(self.op);
+    let (cast_lhs, cast_rhs) = if op.is_arithmetic() {
+      (!self.op.is_assignment(), true)
+    } else if op.is_bitwise() || op == BinaryOp::Assign {
+      (!self.op.is_assignment() && is_int(&self.rhs, &rhs_ty), is_int(&self.lhs, &lhs_ty))
+    } else {
+      (false, false)
+    };
+
+    for (cast, expr, ty) in [(cast_lhs, &mut self.lhs, &mut lhs_ty), (cast_rhs, &mut self.rhs, &mut rhs_ty)] {
+      if cast && is_bool(ty) {
+        let int_ty = Type::BuiltIn(BuiltInType::Int);
+        *expr = Box::new(Expr::Cast(Cast { ty: int_ty.clone(), expr: expr.clone() }));
+        *ty = Some(int_ty);
       }
     }
 
@@ -305,6 +322,11 @@ impl<'t> BinaryExpr<'t> {
       return Ok(None)
     }
 
+    // An assignment has the type of the place it assigns to.
+    if self.op.is_assignment() {
+      return Ok(if self.op == BinaryOp::Assign { lhs_ty.or(rhs_ty) } else { lhs_ty })
+    }
+
     // Type can only be inferred if both sides have the same type or if only one side has a type.
     if lhs_ty == rhs_ty {
       Ok(lhs_ty)
diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index 6cf3f7a..7511416 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -62,6 +62,10 @@ pub enum BuiltInType {
 }
 
 impl BuiltInType {
+  pub(crate) const fn is_int(&self) -> bool {
+    !matches!(self, Self::Float | Self::Double | Self::LongDouble | Self::Bool | Self::Void)
+  }
+
   /// Return the suffix used for literals of this type.
   pub fn suffix(&self) -> Option<&'static str> {
     match self {
-- 
2.43.0


From b413828c1389e4e8797bd86a9732c147c1d84db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:46 +0000
Subject: [PATCH 28/74] fix: macros which modify or take the address of an
 argument are not functions

---
 src/ast/binary_expr.rs |  2 +-
 src/ast/expr.rs        | 10 ++++++++++
 src/ast/unary_expr.rs  |  9 +++++++++
 3 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index 200564a..f0536ef 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -267,7 +267,7 @@ impl<'t> BinaryExpr<'t> {
     }
 
     // Must export as a macro in order to be able to assign to a macro argument.
-    if self.op.is_assignment() && matches!(&*self.lhs, Expr::Var(Var { name: IdentifierExpr::Arg(_) })) {
+    if self.op.is_assignment() && self.lhs.is_arg_place() {
       ctx.export_as_macro = true;
     }
 
diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 3b7f337..dfb4ee1 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -444,6 +444,16 @@ impl<'t> Expr<'t> {
     }
   }
 
+  /// Check if this is (a member of) a macro argument.
+  pub(crate) fn is_arg_place(&self) -> bool {
+    match self {
+      Self::Var(Var { name: IdentifierExpr::Arg(_) }) => true,
+      Self::Binary(BinaryExpr { lhs, op: BinaryOp::MemberAccess, .. }) => lhs.is_arg_place(),
+      Self::Parenthesized(expr) => expr.is_arg_place(),
+      _ => false,
+    }
+  }
+
   /// Check if the code generated for this expression ends with a type.
   pub(crate) fn ends_with_type(&self) -> bool {
     match self {
diff --git a/src/ast/unary_expr.rs b/src/ast/unary_expr.rs
index c62727a..3039acb 100644
--- a/src/ast/unary_expr.rs
+++ b/src/ast/unary_expr.rs
@@ -71,6 +71,15 @@ impl<'t> UnaryExpr<'t> {
   {
     let ty = self.expr.finish(ctx)?;
 
+    // Must export as a macro in order to be able to modify or take the address of a macro argument.
+    if matches!(
+      self.op,
+      UnaryOp::Inc | UnaryOp::Dec | UnaryOp::PostInc | UnaryOp::PostDec | UnaryOp::AddrOf
+    ) && self.expr.is_arg_place()
+    {
+      ctx.export_as_macro = true;
+    }
+
     match self.op {
       UnaryOp::Deref => {
         // Cannot dereference pointers in variable macros, i.e. constants.
-- 
2.43.0


From 93faebaffa5670ce8902fb56c94ff7c1744b2012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:34 +0000
Subject: [PATCH 29/74] fix: a do-while loop may end with a semicolon and its
 condition is outside of the body's scope

---
 src/ast/statement.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/ast/statement.rs b/src/ast/statement.rs
index b963c6b..3f554c0 100644
--- a/src/ast/statement.rs
+++ b/src/ast/statement.rs
@@ -70,9 +70,13 @@ impl<'t> Statement<'t> {
           else_branch: else_branch.unwrap_or_default(),
         },
       ),
-      map(preceded(terminated(id("do"), meta), pair(block, preceded(id("while"), condition))), |(block, condition)| {
-        Self::DoWhile { block, condition }
-      }),
+      map(
+        preceded(
+          terminated(id("do"), meta),
+          terminated(pair(block, preceded(id("while"), condition)), opt(preceded(meta, punct(";")))),
+        ),
+        |(block, condition)| Self::DoWhile { block, condition },
+      ),
       map(
         delimited(
           terminated(punct("{"), meta),
@@ -180,12 +184,15 @@ impl<'t> Statement<'t> {
         })
       },
       Self::DoWhile { block, condition } => {
+        // Declarations are not visible to the condition.
+        let has_decl = block.iter().any(|stmt| matches!(stmt, Self::VarDecl(_) | Self::FunctionDecl(_)));
         let block = block.iter().map(|stmt| stmt.to_token_stream(ctx)).collect::<Vec<_>>();
+        let block = if has_decl { quote! { { #(#block)* } } } else { quote! { #(#block)* } };
         let condition = condition.to_token_stream(ctx);
 
         tokens.append_all(quote! {
           loop {
-            #(#block)*
+            #block
 
             if #condition {
               continue
-- 
2.43.0


From 22386ecd1176db3556fc0d084680a2cb7b74b797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:19 +0000
Subject: [PATCH 30/74] fix: every access through a pointer to volatile is
 volatile

---
 src/ast/binary_expr.rs |  54 +++++++-----
 src/ast/expr.rs        |  94 +++++++++++++++++---
 src/ast/ty.rs          |   9 ++
 src/ast/unary_expr.rs  | 194 +++++++++++++++++++++++------------------
 4 files changed, 232 insertions(+), 119 deletions(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index f0536ef..371281d 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -5,7 +5,7 @@ use quote::{quote, ToTokens, TokenStreamExt};
 
 use crate::{codegen::local_ident, CodegenContext, LocalContext, MacroArgType};
 
-use super::{BuiltInType, Cast, Expr, IdentifierExpr, Lit, LitFloat, LitInt, Type, UnaryExpr, UnaryOp, Var};
+use super::{BuiltInType, Cast, Expr, IdentifierExpr, Lit, LitFloat, LitInt, Type, Var};
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 pub(crate) enum Associativity {
@@ -340,7 +340,6 @@ impl<'t> BinaryExpr<'t> {
   }
 
   pub(crate) fn to_token_stream<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>) -> TokenStream {
-    let mut lhs = self.lhs.to_token_stream(ctx);
     let op = self.op;
     let mut rhs = self.rhs.to_token_stream(ctx);
 
@@ -362,30 +361,28 @@ impl<'t> BinaryExpr<'t> {
 
     match self.op {
       op if op.is_assignment() => {
-        if let Expr::Unary(UnaryExpr { op: UnaryOp::Deref, expr }) = &*self.lhs {
-          if expr.is_volatile_ptr() {
-            let (setup, lhs_ptr) = expr.to_reusable_ptr(ctx, &rhs);
-            let id = local_ident("value", &[&lhs_ptr]);
-
-            let value = if let Some(op) = self.op.compound_op() {
-              if rhs_prec >= op.precedence().0 {
-                rhs = quote! { (#rhs) };
-              }
-
-              let prefix = ctx.trait_prefix().into_iter();
-              quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) #op #rhs }
-            } else {
-              quote! { #rhs }
-            };
+        if self.lhs.is_volatile_place() {
+          let (setup, lhs_ptr) = self.lhs.to_reusable_volatile_ptr(ctx, &rhs);
+          let id = local_ident("value", &[&lhs_ptr]);
+
+          let value = if let Some(op) = self.op.compound_op() {
+            if rhs_prec >= op.precedence().0 {
+              rhs = quote! { (#rhs) };
+            }
 
             let prefix = ctx.trait_prefix().into_iter();
-            return quote! {
-              {
-                #setup
-                let #id = #value;
-                #(#prefix::)*ptr::write_volatile(#lhs_ptr, #id);
-                #id
-              }
+            quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) #op #rhs }
+          } else {
+            quote! { #rhs }
+          };
+
+          let prefix = ctx.trait_prefix().into_iter();
+          return quote! {
+            {
+              #setup
+              let #id = #value;
+              #(#prefix::)*ptr::write_volatile(#lhs_ptr, #id);
+              #id
             }
           }
         }
@@ -393,7 +390,16 @@ impl<'t> BinaryExpr<'t> {
         let (setup, lhs) = self.lhs.to_place(ctx, &rhs);
         quote! { { #setup #lhs #op #rhs; #lhs } }
       },
+      BinaryOp::MemberAccess if self.lhs.is_volatile_place() => {
+        let place = self.lhs.to_raw_place(ctx);
+        let place = if lhs_parens { quote! { (#place) } } else { place };
+        let prefix = ctx.trait_prefix().into_iter();
+        let prefix2 = ctx.trait_prefix().into_iter();
+        quote! { #(#prefix::)*ptr::read_volatile(#(#prefix2::)*ptr::addr_of_mut!(#place.#rhs)) }
+      },
       op => {
+        let mut lhs = self.lhs.to_token_stream(ctx);
+
         if lhs_parens {
           lhs = quote! { (#lhs) };
         }
diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index dfb4ee1..2e766b8 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -435,7 +435,9 @@ impl<'t> Expr<'t> {
           || (*op == UnaryOp::Deref && expr.is_volatile_ptr())
           || expr.has_side_effects()
       },
-      Self::Binary(BinaryExpr { lhs, op, rhs }) => op.is_assignment() || lhs.has_side_effects() || rhs.has_side_effects(),
+      Self::Binary(BinaryExpr { lhs, op, rhs }) => {
+        op.is_assignment() || self.is_volatile_place() || lhs.has_side_effects() || rhs.has_side_effects()
+      },
       Self::Ternary(TernaryExpr { condition, if_branch, else_branch }) => {
         condition.has_side_effects() || if_branch.has_side_effects() || else_branch.has_side_effects()
       },
@@ -467,16 +469,88 @@ impl<'t> Expr<'t> {
     }
   }
 
-  /// Check if this is a cast to a pointer to a volatile value.
-  pub(crate) fn is_volatile_ptr(&self) -> bool {
+  /// The type of this expression as far as it is evident from the casts in it.
+  fn cast_ty(&self) -> Option<Type<'t>> {
     match self {
-      Self::Cast(Cast { ty: Type::Ptr { ty }, .. }) => {
-        matches!(&**ty, Type::Qualified { qualifier, .. } if qualifier.is_volatile())
+      Self::Cast(Cast { ty, .. }) => Some(ty.clone()),
+      Self::Parenthesized(expr) => expr.cast_ty(),
+      Self::Unary(UnaryExpr { op, expr }) => match op {
+        UnaryOp::Deref => expr.cast_ty()?.into_pointee(),
+        UnaryOp::AddrOf => Some(Type::Ptr { ty: Box::new(expr.cast_ty()?) }),
+        UnaryOp::Inc | UnaryOp::Dec | UnaryOp::PostInc | UnaryOp::PostDec => expr.cast_ty(),
+        _ => None,
+      },
+      Self::Binary(BinaryExpr { lhs, op: BinaryOp::Add | BinaryOp::Sub, rhs }) => {
+        lhs.cast_ty().filter(Type::is_ptr).or_else(|| rhs.cast_ty().filter(Type::is_ptr))
       },
+      Self::Binary(BinaryExpr { lhs, op, .. }) if op.is_assignment() => lhs.cast_ty(),
+      Self::Ternary(TernaryExpr { if_branch, else_branch, .. }) => if_branch.cast_ty().or_else(|| else_branch.cast_ty()),
+      _ => None,
+    }
+  }
+
+  /// Check if this is a pointer to a volatile value.
+  pub(crate) fn is_volatile_ptr(&self) -> bool {
+    match self.cast_ty().and_then(Type::into_pointee) {
+      Some(Type::Qualified { qualifier, .. }) => qualifier.is_volatile(),
+      _ => false,
+    }
+  }
+
+  /// Check if this refers to a volatile value.
+  pub(crate) fn is_volatile_place(&self) -> bool {
+    match self {
+      Self::Unary(UnaryExpr { op: UnaryOp::Deref, expr }) => expr.is_volatile_ptr(),
+      Self::Binary(BinaryExpr { lhs, op: BinaryOp::MemberAccess, .. }) => lhs.is_volatile_place(),
+      Self::Parenthesized(expr) => expr.is_volatile_place(),
       _ => false,
     }
   }
 
+  /// Check if finding out which place this refers to has side effects.
+  fn place_has_side_effects(&self) -> bool {
+    match self {
+      Self::Unary(UnaryExpr { op: UnaryOp::Deref, expr }) => expr.has_side_effects(),
+      Self::Binary(BinaryExpr { lhs, op: BinaryOp::MemberAccess, .. }) => lhs.place_has_side_effects(),
+      Self::Parenthesized(expr) => expr.place_has_side_effects(),
+      expr => expr.has_side_effects(),
+    }
+  }
+
+  /// Generate the place this refers to without accessing it.
+  pub(crate) fn to_raw_place<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>) -> TokenStream {
+    match self {
+      Self::Unary(expr) if expr.op == UnaryOp::Deref => expr.to_raw_deref(ctx),
+      Self::Binary(BinaryExpr { lhs, op: BinaryOp::MemberAccess, rhs }) => {
+        let place = lhs.to_raw_place(ctx);
+        let lhs = if lhs.precedence().0 > 1 { quote! { (#place) } } else { place };
+        let rhs = rhs.to_token_stream(ctx);
+        quote! { #lhs.#rhs }
+      },
+      Self::Parenthesized(expr) => {
+        let place = expr.to_raw_place(ctx);
+        quote! { (#place) }
+      },
+      expr => expr.to_token_stream(ctx),
+    }
+  }
+
+  /// Generate the pointer for accessing the volatile place this refers to.
+  pub(crate) fn to_volatile_ptr<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>) -> TokenStream {
+    match self {
+      Self::Unary(UnaryExpr { op: UnaryOp::Deref, expr }) if matches!(&**expr, Self::Cast(_)) => {
+        expr.to_token_stream(ctx)
+      },
+      Self::Unary(expr) if expr.op == UnaryOp::Deref => expr.to_deref_ptr(ctx),
+      Self::Parenthesized(expr) => expr.to_volatile_ptr(ctx),
+      expr => {
+        let place = expr.to_raw_place(ctx);
+        let prefix = ctx.trait_prefix().into_iter();
+        quote! { #(#prefix::)*ptr::addr_of_mut!(#place) }
+      },
+    }
+  }
+
   /// Generate the place this expression refers to for use more than once, that is
   /// the code for it and the code which needs to run before it is used.
   pub(crate) fn to_place<C: CodegenContext>(
@@ -495,16 +569,16 @@ impl<'t> Expr<'t> {
     }
   }
 
-  /// Generate this pointer for use more than once, that is the code for it and the code
-  /// which needs to run before it is used.
-  pub(crate) fn to_reusable_ptr<C: CodegenContext>(
+  /// Generate the pointer for accessing the volatile place this refers to more than once,
+  /// that is the code for it and the code which needs to run before it is used.
+  pub(crate) fn to_reusable_volatile_ptr<C: CodegenContext>(
     &self,
     ctx: &mut LocalContext<'_, 't, C>,
     context: &TokenStream,
   ) -> (TokenStream, TokenStream) {
-    let ptr = self.to_token_stream(ctx);
+    let ptr = self.to_volatile_ptr(ctx);
 
-    if self.has_side_effects() {
+    if self.place_has_side_effects() {
       let id = local_ident("place", &[&ptr, context]);
       (quote! { let #id = #ptr; }, quote! { #id })
     } else {
diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index 7511416..a7ae424 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -429,6 +429,15 @@ impl<'t> Type<'t> {
     }
   }
 
+  /// The type this type points to.
+  pub(crate) fn into_pointee(self) -> Option<Self> {
+    match self {
+      Self::Ptr { ty } => Some(*ty),
+      Self::Qualified { ty, .. } => ty.into_pointee(),
+      _ => None,
+    }
+  }
+
   pub(crate) fn finish<C>(&mut self, ctx: &mut LocalContext<'_, 't, C>) -> Result<Option<Type<'t>>, crate::CodegenError>
   where
     C: CodegenContext,
diff --git a/src/ast/unary_expr.rs b/src/ast/unary_expr.rs
index 3039acb..75e8652 100644
--- a/src/ast/unary_expr.rs
+++ b/src/ast/unary_expr.rs
@@ -3,7 +3,7 @@ use quote::{quote, TokenStreamExt};
 
 use crate::{codegen::local_ident, CodegenContext, LocalContext};
 
-use super::{Associativity, BinaryExpr, BinaryOp, Cast, Expr, Type};
+use super::{Associativity, BinaryExpr, BinaryOp, Expr, Type};
 
 /// A unary expression operator.
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
@@ -104,17 +104,6 @@ impl<'t> UnaryExpr<'t> {
   }
 
   pub(crate) fn to_token_stream<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>) -> TokenStream {
-    let (prec, _) = self.precedence();
-    let (expr_prec, _) = self.expr.precedence();
-
-    let raw_expr = self.expr.to_token_stream(ctx);
-
-    let expr = if expr_prec > prec {
-      quote! { (#raw_expr) }
-    } else {
-      quote! { #raw_expr }
-    };
-
     match self.op {
       UnaryOp::Inc | UnaryOp::Dec | UnaryOp::PostInc | UnaryOp::PostDec => {
         let (op, assign_op) = match self.op {
@@ -123,25 +112,23 @@ impl<'t> UnaryExpr<'t> {
         };
         let is_postfix = matches!(self.op, UnaryOp::PostInc | UnaryOp::PostDec);
 
-        if let Expr::Unary(UnaryExpr { op: UnaryOp::Deref, expr }) = &*self.expr {
-          if expr.is_volatile_ptr() {
-            let (setup, lhs_ptr) = expr.to_reusable_ptr(ctx, &TokenStream::new());
-            let id = local_ident("value", &[&lhs_ptr]);
-
-            let prefix = ctx.trait_prefix().into_iter();
-            let value = quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) };
-
-            let (value, new_value) =
-              if is_postfix { (value, quote! { #id #op 1 }) } else { (quote! { #value #op 1 }, quote! { #id }) };
-
-            let prefix = ctx.trait_prefix().into_iter();
-            return quote! {
-              {
-                #setup
-                let #id = #value;
-                #(#prefix::)*ptr::write_volatile(#lhs_ptr, #new_value);
-                #id
-              }
+        if self.expr.is_volatile_place() {
+          let (setup, lhs_ptr) = self.expr.to_reusable_volatile_ptr(ctx, &TokenStream::new());
+          let id = local_ident("value", &[&lhs_ptr]);
+
+          let prefix = ctx.trait_prefix().into_iter();
+          let value = quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) };
+
+          let (value, new_value) =
+            if is_postfix { (value, quote! { #id #op 1 }) } else { (quote! { #value #op 1 }, quote! { #id }) };
+
+          let prefix = ctx.trait_prefix().into_iter();
+          return quote! {
+            {
+              #setup
+              let #id = #value;
+              #(#prefix::)*ptr::write_volatile(#lhs_ptr, #new_value);
+              #id
             }
           }
         }
@@ -155,67 +142,104 @@ impl<'t> UnaryExpr<'t> {
           quote! { { #setup #place #assign_op 1; #place } }
         }
       },
-      UnaryOp::Not => format!("!{expr}").parse::<TokenStream>().unwrap(),
-      UnaryOp::Comp => format!("!{expr}").parse::<TokenStream>().unwrap(),
-      UnaryOp::Plus => format!("+{expr}").parse::<TokenStream>().unwrap(),
-      UnaryOp::Minus => format!("-{expr}").parse::<TokenStream>().unwrap(),
-      UnaryOp::Deref => {
-        match &*self.expr {
-          Expr::Cast(Cast { ty: Type::Ptr { ty }, .. }) => {
-            if matches!(&**ty, Type::Qualified { qualifier, .. } if qualifier.is_volatile()) {
-              let prefix = ctx.trait_prefix().into_iter();
-              return quote! { #(#prefix::)*ptr::read_volatile(#raw_expr) }
-            }
-          },
-          Expr::Binary(BinaryExpr { lhs, op, rhs }) => {
-            let raw_lhs = lhs.to_token_stream(ctx);
-            let raw_rhs = rhs.to_token_stream(ctx);
-
-            let (lhs_prec, _) = lhs.precedence();
-
-            let lhs = if lhs_prec > prec || lhs_prec > 1 {
-              quote! { (#raw_lhs) }
-            } else {
-              raw_lhs
-            };
-
-            match op {
-              BinaryOp::Add => return quote! { *#lhs.add(#raw_rhs) },
-              BinaryOp::Sub => return quote! { *#lhs.sub(#raw_rhs) },
-              _ => (),
-            }
-          },
-          Expr::Unary(UnaryExpr { op, expr })
-            if matches!(op, UnaryOp::Inc | UnaryOp::Dec | UnaryOp::PostInc | UnaryOp::PostDec) =>
-          {
-            let (setup, place) = expr.to_place(ctx, &TokenStream::new());
-
-            let (expr_prec, _) = expr.precedence();
-            let ptr = if !setup.is_empty() || expr_prec > 1 { quote! { (#place) } } else { quote! { #place } };
-
-            let value = match op {
-              UnaryOp::Inc | UnaryOp::PostInc => quote! { #ptr.add(1) },
-              _ => quote! { #ptr.sub(1) },
-            };
-
-            return if matches!(op, UnaryOp::PostInc | UnaryOp::PostDec) {
-              let prev = local_ident("prev", &[&place]);
-              quote! { *{ #setup let #prev = #place; #place = #value; #prev } }
-            } else {
-              quote! { *{ #setup #place = #value; #place } }
-            }
-          },
-          _ => (),
-        }
-
-        format!("*{expr}").parse::<TokenStream>().unwrap()
+      UnaryOp::Not | UnaryOp::Comp | UnaryOp::Plus | UnaryOp::Minus => {
+        let op = match self.op {
+          UnaryOp::Plus => "+",
+          UnaryOp::Minus => "-",
+          _ => "!",
+        };
+        let expr = self.to_operand(ctx);
+        format!("{op}{expr}").parse::<TokenStream>().unwrap()
       },
+      UnaryOp::Deref if self.expr.is_volatile_ptr() => {
+        let ptr = match &*self.expr {
+          Expr::Cast(_) => self.expr.to_token_stream(ctx),
+          _ => self.to_deref_ptr(ctx),
+        };
+        let prefix = ctx.trait_prefix().into_iter();
+        quote! { #(#prefix::)*ptr::read_volatile(#ptr) }
+      },
+      UnaryOp::Deref => self.to_raw_deref(ctx),
       UnaryOp::AddrOf => {
+        let raw_expr = if self.expr.is_volatile_place() {
+          self.expr.to_raw_place(ctx)
+        } else {
+          self.expr.to_token_stream(ctx)
+        };
         let trait_prefix = ctx.trait_prefix().into_iter();
         quote! { #(#trait_prefix::)*ptr::addr_of_mut!(#raw_expr) }
       },
     }
   }
+
+  /// Generate the dereference as is.
+  pub(crate) fn to_raw_deref<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>) -> TokenStream {
+    let ptr = self.to_deref_ptr(ctx);
+
+    match &*self.expr {
+      Expr::Binary(_) | Expr::Unary(_) => quote! { *#ptr },
+      _ => format!("*{ptr}").parse::<TokenStream>().unwrap(),
+    }
+  }
+
+  /// Generate the pointer which this dereferences.
+  pub(crate) fn to_deref_ptr<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>) -> TokenStream {
+    let (prec, _) = self.precedence();
+
+    match &*self.expr {
+      Expr::Binary(BinaryExpr { lhs, op, rhs }) if matches!(op, BinaryOp::Add | BinaryOp::Sub) => {
+        let raw_lhs = lhs.to_token_stream(ctx);
+        let raw_rhs = rhs.to_token_stream(ctx);
+
+        let (lhs_prec, _) = lhs.precedence();
+
+        let lhs = if lhs_prec > prec || lhs_prec > 1 {
+          quote! { (#raw_lhs) }
+        } else {
+          raw_lhs
+        };
+
+        match op {
+          BinaryOp::Add => quote! { #lhs.add(#raw_rhs) },
+          _ => quote! { #lhs.sub(#raw_rhs) },
+        }
+      },
+      Expr::Unary(UnaryExpr { op, expr })
+        if matches!(op, UnaryOp::Inc | UnaryOp::Dec | UnaryOp::PostInc | UnaryOp::PostDec) && !expr.is_volatile_place() =>
+      {
+        let (setup, place) = expr.to_place(ctx, &TokenStream::new());
+
+        let (expr_prec, _) = expr.precedence();
+        let ptr = if !setup.is_empty() || expr_prec > 1 { quote! { (#place) } } else { quote! { #place } };
+
+        let value = match op {
+          UnaryOp::Inc | UnaryOp::PostInc => quote! { #ptr.add(1) },
+          _ => quote! { #ptr.sub(1) },
+        };
+
+        if matches!(op, UnaryOp::PostInc | UnaryOp::PostDec) {
+          let prev = local_ident("prev", &[&place]);
+          quote! { { #setup let #prev = #place; #place = #value; #prev } }
+        } else {
+          quote! { { #setup #place = #value; #place } }
+        }
+      },
+      _ => self.to_operand(ctx),
+    }
+  }
+
+  fn to_operand<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>) -> TokenStream {
+    let (prec, _) = self.precedence();
+    let (expr_prec, _) = self.expr.precedence();
+
+    let expr = self.expr.to_token_stream(ctx);
+
+    if expr_prec > prec {
+      quote! { (#expr) }
+    } else {
+      expr
+    }
+  }
 }
 
 #[cfg(test)]
-- 
2.43.0


From d12382ee393e5d7da0a95f98706e486405aabb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:22 +0000
Subject: [PATCH 31/74] fix: `volatile` given twice is still `volatile`

---
 src/ast/ty.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index a7ae424..d7a002a 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -349,7 +349,7 @@ impl TypeQualifier {
   const fn or(self, other: Self) -> Self {
     match (self, other) {
       (Self::Const, Self::Const) => Self::Const,
-      (Self::Volatile, Self::Volatile) => Self::Const,
+      (Self::Volatile, Self::Volatile) => Self::Volatile,
       _ => Self::ConstVolatile,
     }
   }
-- 
2.43.0


From d1907b6921158f9cf35e5dcff2bf04cde29ace80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:04 +0000
Subject: [PATCH 32/74] fix: names which are keywords in Rust are raw
 identifiers

---
 src/ast/identifier.rs |  6 +++---
 src/ast/macro_arg.rs  | 11 +++++++----
 src/ast/stringify.rs  |  6 +++---
 src/ast/ty.rs         | 13 ++++++++-----
 src/codegen/mod.rs    | 27 +++++++++++++++++++++++++++
 src/fn_macro.rs       |  7 ++++---
 6 files changed, 52 insertions(+), 18 deletions(-)

diff --git a/src/ast/identifier.rs b/src/ast/identifier.rs
index cf82110..5f30a01 100644
--- a/src/ast/identifier.rs
+++ b/src/ast/identifier.rs
@@ -8,10 +8,10 @@ use nom::{
   sequence::{pair, preceded, tuple},
   IResult,
 };
-use proc_macro2::{Ident, Span, TokenStream};
+use proc_macro2::TokenStream;
 use quote::{quote, TokenStreamExt};
 
-use crate::{CodegenContext, LocalContext};
+use crate::{codegen::ident, CodegenContext, LocalContext};
 
 use super::literal::universal_char;
 
@@ -73,7 +73,7 @@ impl<'t> Identifier<'t> {
   }
 
   pub(crate) fn to_token_stream<C: CodegenContext>(&self, _ctx: &mut LocalContext<'_, 't, C>) -> TokenStream {
-    let id = Ident::new(&self.id, Span::call_site());
+    let id = ident(&self.id);
     quote! { #id }
   }
 
diff --git a/src/ast/macro_arg.rs b/src/ast/macro_arg.rs
index 11f7418..a4a66b8 100644
--- a/src/ast/macro_arg.rs
+++ b/src/ast/macro_arg.rs
@@ -1,7 +1,10 @@
-use proc_macro2::{Ident, Span, TokenStream};
+use proc_macro2::TokenStream;
 use quote::{quote, TokenStreamExt};
 
-use crate::{CodegenContext, LocalContext};
+use crate::{
+  codegen::{ident, macro_param_ident},
+  CodegenContext, LocalContext,
+};
 
 /// A macro argument.
 #[derive(Debug, Clone, PartialEq, Eq)]
@@ -25,11 +28,11 @@ impl MacroArg {
     tokens.append_all(match ctx.arg_name(self.index()) {
       "..." => quote! { $($__VA_ARGS__),* },
       name => {
-        let name = Ident::new(name, Span::call_site());
-
         if ctx.export_as_macro {
+          let name = macro_param_ident(name);
           quote! { $#name }
         } else {
+          let name = ident(name);
           quote! { #name }
         }
       },
diff --git a/src/ast/stringify.rs b/src/ast/stringify.rs
index a140793..933c6db 100644
--- a/src/ast/stringify.rs
+++ b/src/ast/stringify.rs
@@ -6,14 +6,14 @@ use nom::{
   sequence::{preceded, terminated},
   IResult,
 };
-use proc_macro2::{Ident, Span, TokenStream};
+use proc_macro2::TokenStream;
 use quote::{quote, TokenStreamExt};
 
 use super::{
   tokens::{macro_arg, macro_id, meta, punct},
   BuiltInType, Expr, IdentifierExpr, Type, TypeQualifier, Var,
 };
-use crate::{codegen::quote_c_char_ptr, CodegenContext, LocalContext, MacroArgType, MacroToken};
+use crate::{codegen::{macro_param_ident, quote_c_char_ptr}, CodegenContext, LocalContext, MacroArgType, MacroToken};
 
 /// Stringification of a macro argument.
 ///
@@ -67,7 +67,7 @@ impl<'t> Stringify<'t> {
   pub(crate) fn to_token_stream_inner<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, '_, C>) -> TokenStream {
     let expr = match &*self.arg {
       Expr::Var(Var { name: IdentifierExpr::Arg(arg) }) => {
-        let id = Ident::new(ctx.arg_name(arg.index()), Span::call_site());
+        let id = macro_param_ident(ctx.arg_name(arg.index()));
         Some(quote! { $#id })
       },
       Expr::Var(Var { name: IdentifierExpr::Plain(name) }) => match name.as_str() {
diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index d7a002a..84d5d6b 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -7,11 +7,14 @@ use nom::{
   sequence::{pair, preceded, terminated, tuple},
   IResult,
 };
-use proc_macro2::{Ident, Span, TokenStream};
+use proc_macro2::TokenStream;
 use quote::{quote, ToTokens, TokenStreamExt};
 
 use super::*;
-use crate::{CodegenContext, LocalContext, MacroToken};
+use crate::{
+  codegen::{ident, path_ident},
+  CodegenContext, LocalContext, MacroToken,
+};
 
 /// A built-in type.
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
@@ -469,7 +472,7 @@ impl<'t> Type<'t> {
       Self::Identifier { name, .. } => name.to_tokens(ctx, tokens),
       Self::Path { segments, leading_colon } => {
         let leading_colon = if *leading_colon { Some(quote! { :: }) } else { None };
-        let ids = segments.iter().map(|id| Ident::new(id.as_str(), Span::call_site()));
+        let ids = segments.iter().map(|id| path_ident(id.as_str()));
         tokens.append_all(quote! { #leading_colon #(#ids)::* })
       },
       Self::Ptr { ty } => {
@@ -536,7 +539,7 @@ impl<'t> Type<'t> {
       Self::BuiltIn(ty) => ty.to_rust_ty(ctx),
       Self::Identifier { name, .. } => {
         if let IdentifierExpr::Plain(name) = name {
-          let name = Ident::new(name.as_str(), Span::call_site());
+          let name = ident(name.as_str());
           syn::parse_quote! { #name }
         } else {
           return None
@@ -545,7 +548,7 @@ impl<'t> Type<'t> {
       Self::Path { leading_colon, segments } => {
         let colon = if *leading_colon { Some(quote! { :: }) } else { None }.into_iter();
 
-        let segments = segments.iter().map(|s| Ident::new(s.as_str(), Span::call_site()));
+        let segments = segments.iter().map(|s| path_ident(s.as_str()));
 
         syn::parse_quote! { #(#colon)* #(#segments)::*  }
       },
diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index f034e05..4cd0906 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -32,6 +32,33 @@ pub(crate) fn quote_c_char_ptr<C: CodegenContext>(
   }
 }
 
+/// Create an identifier for a C identifier, which may be a keyword in Rust.
+pub(crate) fn ident(name: &str) -> Ident {
+  match syn::parse_str(name) {
+    Ok(id) => id,
+    Err(_) => match name {
+      // Boolean values are the same in C.
+      "_" | "true" | "false" => Ident::new(name, Span::call_site()),
+      // These cannot be used as raw identifiers.
+      "self" | "Self" | "super" | "crate" => Ident::new(&format!("{name}_"), Span::call_site()),
+      _ => Ident::new_raw(name, Span::call_site()),
+    },
+  }
+}
+
+/// Create an identifier for a parameter of a Rust macro, which may be any keyword except for `crate`.
+pub(crate) fn macro_param_ident(name: &str) -> Ident {
+  Ident::new(if name == "crate" { "crate_" } else { name }, Span::call_site())
+}
+
+/// Create an identifier for a segment of a Rust path.
+pub(crate) fn path_ident(name: &str) -> Ident {
+  match name {
+    "self" | "Self" | "super" | "crate" => Ident::new(name, Span::call_site()),
+    name => ident(name),
+  }
+}
+
 /// Create an identifier for a local variable which does not hide any identifier in the given tokens.
 pub(crate) fn local_ident(name: &str, tokens: &[&TokenStream]) -> Ident {
   fn contains(tokens: &TokenStream, name: &str) -> bool {
diff --git a/src/fn_macro.rs b/src/fn_macro.rs
index 138056e..2ac83ad 100644
--- a/src/fn_macro.rs
+++ b/src/fn_macro.rs
@@ -12,6 +12,7 @@ use quote::{quote, TokenStreamExt};
 
 use crate::{
   ast::{macro_id, meta, punct},
+  codegen::{ident, macro_param_ident},
   is_identifier, CodegenContext, LocalContext, MacroArgType, MacroBody, MacroToken, Type,
 };
 
@@ -177,7 +178,7 @@ impl<'t> FnMacro<'t> {
       || !ctx.arg_types.iter().all(|ty| matches!(*ty, MacroArgType::Known(_)))
       || ret_ty.is_none();
 
-    let name = Ident::new(&self.name, Span::call_site());
+    let name = ident(&self.name);
 
     let mut body = TokenStream::new();
     match &self.body {
@@ -194,7 +195,7 @@ impl<'t> FnMacro<'t> {
           if arg == "..." {
             quote! { $($__VA_ARGS__:expr),* }
           } else {
-            let id = Ident::new(arg, Span::call_site());
+            let id = macro_param_ident(arg);
             let ty = ctx.arg_type(index);
 
             match ty {
@@ -227,7 +228,7 @@ impl<'t> FnMacro<'t> {
         .enumerate()
         .map(|(index, name)| {
           if let MacroArgType::Known(ty) = ctx.arg_type(index).clone() {
-            let id = Ident::new(name, Span::call_site());
+            let id = ident(name);
             let ty = ty.to_token_stream(&mut ctx);
             quote! { #id: #ty }
           } else {
-- 
2.43.0


From add06d2fd160f660b3258982049ca3b5a093bb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:17 +0000
Subject: [PATCH 33/74] fix: stringifying an argument keeps its fragment kind
 and works for variadic arguments

---
 src/ast/stringify.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/ast/stringify.rs b/src/ast/stringify.rs
index 933c6db..e9ddb03 100644
--- a/src/ast/stringify.rs
+++ b/src/ast/stringify.rs
@@ -44,7 +44,7 @@ impl<'t> Stringify<'t> {
     match &mut *self.arg {
       Expr::Var(Var { name: IdentifierExpr::Arg(arg) }) => {
         let arg_ty = ctx.arg_type_mut(arg.index());
-        if *arg_ty != MacroArgType::Ident {
+        if matches!(arg_ty, MacroArgType::Unknown | MacroArgType::Known(_)) {
           *arg_ty = MacroArgType::Expr;
         }
       },
@@ -67,8 +67,13 @@ impl<'t> Stringify<'t> {
   pub(crate) fn to_token_stream_inner<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, '_, C>) -> TokenStream {
     let expr = match &*self.arg {
       Expr::Var(Var { name: IdentifierExpr::Arg(arg) }) => {
-        let id = macro_param_ident(ctx.arg_name(arg.index()));
-        Some(quote! { $#id })
+        match ctx.arg_name(arg.index()) {
+          "..." => Some(quote! { $($__VA_ARGS__),* }),
+          name => {
+            let id = macro_param_ident(name);
+            Some(quote! { $#id })
+          },
+        }
       },
       Expr::Var(Var { name: IdentifierExpr::Plain(name) }) => match name.as_str() {
         "__LINE__" => {
-- 
2.43.0


From 6b0573230f1a3dc9235c9d2b22cd0769d27c7523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:27 +0000
Subject: [PATCH 34/74] fix: generating code leaves the parsed macro as it is

---
 src/fn_macro.rs  |  7 +++++--
 src/var_macro.rs | 13 +++++--------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/fn_macro.rs b/src/fn_macro.rs
index 2ac83ad..c0681db 100644
--- a/src/fn_macro.rs
+++ b/src/fn_macro.rs
@@ -170,7 +170,10 @@ impl<'t> FnMacro<'t> {
     let mut ctx = LocalContext::new(&cx);
     ctx.arg_names = self.args.clone();
     ctx.arg_types = arg_types;
-    let ret_ty = self.body.finish(&mut ctx)?;
+
+    // Resolving the body depends on the context, so leave the parsed body as it is.
+    let mut macro_body = self.body.clone();
+    let ret_ty = macro_body.finish(&mut ctx)?;
 
     ctx.export_as_macro = ctx.export_as_macro
       || ctx.function(&self.name).is_some()
@@ -181,7 +184,7 @@ impl<'t> FnMacro<'t> {
     let name = ident(&self.name);
 
     let mut body = TokenStream::new();
-    match &self.body {
+    match &macro_body {
       MacroBody::Statement(stmt) => stmt.to_tokens(&mut ctx, &mut body),
       MacroBody::Expr(expr) => body.append_all(expr.to_statement_token_stream(&mut ctx)),
     }
diff --git a/src/var_macro.rs b/src/var_macro.rs
index b1ff49d..60dbe27 100644
--- a/src/var_macro.rs
+++ b/src/var_macro.rs
@@ -72,7 +72,11 @@ impl<'t> VarMacro<'t> {
     let mut tokens = TokenStream::new();
 
     // Cannot generate non-expression variable-like macros.
-    let value = self.value_mut().ok_or(crate::CodegenError::NonExpressionVarMacro)?;
+    // Resolving the value depends on the context, so leave the parsed value as it is.
+    let mut value = match &self.body {
+      MacroBody::Statement(_) => return Err(crate::CodegenError::NonExpressionVarMacro),
+      MacroBody::Expr(expr) => expr.clone(),
+    };
 
     let ty = value.finish(&mut ctx)?;
 
@@ -105,11 +109,4 @@ impl<'t> VarMacro<'t> {
       MacroBody::Expr(expr) => Some(expr),
     }
   }
-
-  pub(crate) fn value_mut(&mut self) -> Option<&mut Expr<'t>> {
-    match &mut self.body {
-      MacroBody::Statement(_) => None,
-      MacroBody::Expr(expr) => Some(expr),
-    }
-  }
 }
-- 
2.43.0


From ad45efb20fd6b4dde62c013fce3c12e6503b3fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:45 +0000
Subject: [PATCH 35/74] fix: constant expressions without a value are reported,
 not calculated

---
 src/ast/expr.rs        | 45 +++++++-----------------------------------
 src/ast/literal/int.rs | 24 +++++++++++++++++++++-
 2 files changed, 30 insertions(+), 39 deletions(-)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 2e766b8..2cdbb21 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -918,56 +918,25 @@ impl<'t> Expr<'t> {
             *self = Self::Literal(Lit::Float(*lhs * *rhs));
             self.finish(ctx)
           },
-          (BinaryOp::Mul, Self::Literal(Lit::Int(lhs)), Self::Literal(Lit::Int(rhs))) => {
-            *self = Self::Literal(Lit::Int(*lhs * *rhs));
-            self.finish(ctx)
-          },
           (BinaryOp::Div, Self::Literal(Lit::Float(lhs)), Self::Literal(Lit::Float(rhs))) => {
             *self = Self::Literal(Lit::Float(*lhs / *rhs));
             self.finish(ctx)
           },
-          (BinaryOp::Div, Self::Literal(Lit::Int(lhs)), Self::Literal(Lit::Int(rhs))) => {
-            *self = Self::Literal(Lit::Int(*lhs / *rhs));
-            self.finish(ctx)
-          },
-          (BinaryOp::Rem, Self::Literal(Lit::Int(lhs)), Self::Literal(Lit::Int(rhs))) => {
-            *self = Self::Literal(Lit::Int(*lhs % *rhs));
-            self.finish(ctx)
-          },
           (BinaryOp::Add, Self::Literal(Lit::Float(lhs)), Self::Literal(Lit::Float(rhs))) => {
             *self = Self::Literal(Lit::Float(*lhs + *rhs));
             self.finish(ctx)
           },
-          (BinaryOp::Add, Self::Literal(Lit::Int(lhs)), Self::Literal(Lit::Int(rhs))) => {
-            *self = Self::Literal(Lit::Int(*lhs + *rhs));
-            self.finish(ctx)
-          },
           (BinaryOp::Sub, Self::Literal(Lit::Float(lhs)), Self::Literal(Lit::Float(rhs))) => {
             *self = Self::Literal(Lit::Float(*lhs - *rhs));
             self.finish(ctx)
           },
-          (BinaryOp::Sub, Self::Literal(Lit::Int(lhs)), Self::Literal(Lit::Int(rhs))) => {
-            *self = Self::Literal(Lit::Int(*lhs - *rhs));
-            self.finish(ctx)
-          },
-          (BinaryOp::Shl, Self::Literal(Lit::Int(lhs)), Self::Literal(Lit::Int(rhs))) => {
-            *self = Self::Literal(Lit::Int(*lhs << *rhs));
-            self.finish(ctx)
-          },
-          (BinaryOp::Shr, Self::Literal(Lit::Int(lhs)), Self::Literal(Lit::Int(rhs))) => {
-            *self = Self::Literal(Lit::Int(*lhs >> *rhs));
-            self.finish(ctx)
-          },
-          (BinaryOp::BitAnd, Self::Literal(Lit::Int(lhs)), Self::Literal(Lit::Int(rhs))) => {
-            *self = Self::Literal(Lit::Int(*lhs & *rhs));
-            self.finish(ctx)
-          },
-          (BinaryOp::BitOr, Self::Literal(Lit::Int(lhs)), Self::Literal(Lit::Int(rhs))) => {
-            *self = Self::Literal(Lit::Int(*lhs | *rhs));
-            self.finish(ctx)
-          },
-          (BinaryOp::BitXor, Self::Literal(Lit::Int(lhs)), Self::Literal(Lit::Int(rhs))) => {
-            *self = Self::Literal(Lit::Int(*lhs ^ *rhs));
+          (op, Self::Literal(Lit::Int(lhs)), Self::Literal(Lit::Int(rhs))) if op.is_arithmetic() || op.is_bitwise() => {
+            // E.g. a division by zero.
+            let lit = lhs.calculate(op, *rhs).ok_or_else(|| {
+              crate::CodegenError::UnsupportedExpression("constant expression without a value".to_owned())
+            })?;
+
+            *self = Self::Literal(Lit::Int(lit));
             self.finish(ctx)
           },
           (
diff --git a/src/ast/literal/int.rs b/src/ast/literal/int.rs
index 5c0a820..ba2ffac 100644
--- a/src/ast/literal/int.rs
+++ b/src/ast/literal/int.rs
@@ -15,7 +15,7 @@ use nom::{
 use proc_macro2::TokenStream;
 use quote::ToTokens;
 
-use crate::{ast::tokens::take_one, BuiltInType, CodegenContext, Lit, LocalContext, MacroToken, Type};
+use crate::{ast::tokens::take_one, BinaryOp, BuiltInType, CodegenContext, Lit, LocalContext, MacroToken, Type};
 
 #[derive(Debug, Clone, Copy, PartialEq)]
 pub(crate) struct LitIntUnsignedSuffix;
@@ -163,6 +163,28 @@ impl LitInt {
   }
 }
 
+impl LitInt {
+  /// Calculate the result of an operator, if there is one.
+  pub(crate) fn calculate(self, op: BinaryOp, other: Self) -> Option<Self> {
+    let (lhs, rhs) = (self.value, other.value);
+    let shift = u32::try_from(rhs).ok().filter(|n| *n < i128::BITS);
+
+    match op {
+      BinaryOp::Mul => lhs.checked_mul(rhs).map(|_| self * other),
+      BinaryOp::Div => lhs.checked_div(rhs).map(|_| self / other),
+      BinaryOp::Rem => lhs.checked_rem(rhs).map(|_| self % other),
+      BinaryOp::Add => lhs.checked_add(rhs).map(|_| self + other),
+      BinaryOp::Sub => lhs.checked_sub(rhs).map(|_| self - other),
+      BinaryOp::Shl => shift.filter(|n| lhs.wrapping_shl(*n).wrapping_shr(*n) == lhs).map(|_| self << other),
+      BinaryOp::Shr => shift.map(|_| self >> other),
+      BinaryOp::BitAnd => Some(self & other),
+      BinaryOp::BitXor => Some(self ^ other),
+      BinaryOp::BitOr => Some(self | other),
+      _ => None,
+    }
+  }
+}
+
 impl Add for LitInt {
   type Output = Self;
 
-- 
2.43.0


From fce6d952fd7ea12c9317485f85b0281cde7d3f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:53 +0000
Subject: [PATCH 36/74] fix: assigning to a value is reported

---
 src/ast/binary_expr.rs |  4 ++++
 src/ast/expr.rs        | 12 ++++++++++++
 src/ast/unary_expr.rs  |  4 ++++
 src/ast/var.rs         | 11 +++++++++++
 4 files changed, 31 insertions(+)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index 371281d..67b51e3 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -266,6 +266,10 @@ impl<'t> BinaryExpr<'t> {
       }
     }
 
+    if self.op.is_assignment() && !self.lhs.is_place() {
+      return Err(crate::CodegenError::UnsupportedExpression("assignment to a value".to_owned()))
+    }
+
     // Must export as a macro in order to be able to assign to a macro argument.
     if self.op.is_assignment() && self.lhs.is_arg_place() {
       ctx.export_as_macro = true;
diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 2cdbb21..f9266c4 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -446,6 +446,18 @@ impl<'t> Expr<'t> {
     }
   }
 
+  /// Check if this can be assigned to.
+  pub(crate) fn is_place(&self) -> bool {
+    match self {
+      Self::Var(var) => !var.is_predefined(),
+      Self::FunctionCall(_) => true,
+      Self::Unary(UnaryExpr { op, .. }) => *op == UnaryOp::Deref,
+      Self::Binary(BinaryExpr { op, .. }) => *op == BinaryOp::MemberAccess,
+      Self::Parenthesized(expr) => expr.is_place(),
+      _ => false,
+    }
+  }
+
   /// Check if this is (a member of) a macro argument.
   pub(crate) fn is_arg_place(&self) -> bool {
     match self {
diff --git a/src/ast/unary_expr.rs b/src/ast/unary_expr.rs
index 75e8652..3165d4e 100644
--- a/src/ast/unary_expr.rs
+++ b/src/ast/unary_expr.rs
@@ -71,6 +71,10 @@ impl<'t> UnaryExpr<'t> {
   {
     let ty = self.expr.finish(ctx)?;
 
+    if matches!(self.op, UnaryOp::Inc | UnaryOp::Dec | UnaryOp::PostInc | UnaryOp::PostDec) && !self.expr.is_place() {
+      return Err(crate::CodegenError::UnsupportedExpression("modification of a value".to_owned()))
+    }
+
     // Must export as a macro in order to be able to modify or take the address of a macro argument.
     if matches!(
       self.op,
diff --git a/src/ast/var.rs b/src/ast/var.rs
index 0dbb053..222a265 100644
--- a/src/ast/var.rs
+++ b/src/ast/var.rs
@@ -20,6 +20,17 @@ impl<'t> Var<'t> {
     matches!(&self.name, IdentifierExpr::Plain(id) if id.as_str() == "__LINE__")
   }
 
+  /// Check if this is a built-in macro.
+  pub(crate) fn is_predefined(&self) -> bool {
+    matches!(
+      &self.name,
+      IdentifierExpr::Plain(id) if matches!(
+        id.as_str(),
+        "__LINE__" | "__FILE__" | "__SCHAR_MAX__" | "__SHRT_MAX__" | "__INT_MAX__" | "__LONG_MAX__" | "__LONG_LONG_MAX__"
+      )
+    )
+  }
+
   pub(crate) fn finish<C>(&mut self, ctx: &mut LocalContext<'_, 't, C>) -> Result<Option<Type<'t>>, crate::CodegenError>
   where
     C: CodegenContext,
-- 
2.43.0


From db055cea2c51093348652258aadbc39746b2ac85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:45 +0000
Subject: [PATCH 37/74] fix: the name of a member does not refer to a variable

---
 src/ast/binary_expr.rs | 18 ++++++++++++------
 src/ast/expr.rs        |  5 ++++-
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index 67b51e3..8fae3c5 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -232,7 +232,7 @@ impl<'t> BinaryExpr<'t> {
     };
 
     let mut lhs_ty = self.lhs.finish(ctx)?;
-    let mut rhs_ty = self.rhs.finish(ctx)?;
+    let mut rhs_ty = if self.op == BinaryOp::MemberAccess { None } else { self.rhs.finish(ctx)? };
 
     // A boolean is an integer in C, but there is no arithmetic on booleans in Rust
     // and they cannot be mixed with or assigned to integers.
@@ -259,10 +259,13 @@ impl<'t> BinaryExpr<'t> {
       }
     }
 
-    // Arg must be an identifier for use as a member name.
     if self.op == BinaryOp::MemberAccess {
-      if let Expr::Var(Var { name: IdentifierExpr::Arg(arg) }) = &*self.rhs {
-        *ctx.arg_type_mut(arg.index()) = MacroArgType::Ident;
+      match &*self.rhs {
+        // Arg must be an identifier for use as a member name.
+        Expr::Var(Var { name: IdentifierExpr::Arg(arg) }) => *ctx.arg_type_mut(arg.index()) = MacroArgType::Ident,
+        // The name of a member does not refer to a variable.
+        Expr::Var(Var { name: IdentifierExpr::Plain(_) }) => (),
+        _ => return Err(crate::CodegenError::UnsupportedExpression("concatenation of a member name".to_owned())),
       }
     }
 
@@ -345,7 +348,10 @@ impl<'t> BinaryExpr<'t> {
 
   pub(crate) fn to_token_stream<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>) -> TokenStream {
     let op = self.op;
-    let mut rhs = self.rhs.to_token_stream(ctx);
+    let mut rhs = match (op, &*self.rhs) {
+      (BinaryOp::MemberAccess, Expr::Var(Var { name })) => name.to_token_stream(ctx),
+      (_, rhs) => rhs.to_token_stream(ctx),
+    };
 
     let (lhs_prec, _) = self.lhs.precedence();
     let (prec, assoc) = self.precedence();
@@ -407,7 +413,7 @@ impl<'t> BinaryExpr<'t> {
         if lhs_parens {
           lhs = quote! { (#lhs) };
         }
-        if rhs_parens {
+        if rhs_parens && op != BinaryOp::MemberAccess {
           rhs = quote! { (#rhs) };
         }
 
diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index f9266c4..7871991 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -536,7 +536,10 @@ impl<'t> Expr<'t> {
       Self::Binary(BinaryExpr { lhs, op: BinaryOp::MemberAccess, rhs }) => {
         let place = lhs.to_raw_place(ctx);
         let lhs = if lhs.precedence().0 > 1 { quote! { (#place) } } else { place };
-        let rhs = rhs.to_token_stream(ctx);
+        let rhs = match &**rhs {
+          Self::Var(Var { name }) => name.to_token_stream(ctx),
+          rhs => rhs.to_token_stream(ctx),
+        };
         quote! { #lhs.#rhs }
       },
       Self::Parenthesized(expr) => {
-- 
2.43.0


From 8bc842152ad03164ee8cfbded5c9695507e7889b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:02 +0000
Subject: [PATCH 38/74] fix: calculating with values smaller than int in a
 constant yields an int

---
 src/ast/binary_expr.rs |  9 ++++++++-
 src/ast/expr.rs        |  8 +++++++-
 src/ast/ty.rs          | 14 ++++++++++++++
 3 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index 8fae3c5..cf4a2ff 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -251,8 +251,15 @@ impl<'t> BinaryExpr<'t> {
       (false, false)
     };
 
+    // Calculating with values smaller than `int` in a constant expression yields an `int`.
+    let is_promoted = ctx.is_variable_macro() && (op.is_arithmetic() || op.is_bitwise());
+    let is_small = |expr: &Expr, ty: &Option<Type>| {
+      matches!(expr, Expr::Cast(_) | Expr::Ternary(_))
+        && matches!(ty, Some(Type::BuiltIn(ty)) if ty.is_smaller_than_int())
+    };
+
     for (cast, expr, ty) in [(cast_lhs, &mut self.lhs, &mut lhs_ty), (cast_rhs, &mut self.rhs, &mut rhs_ty)] {
-      if cast && is_bool(ty) {
+      if cast && is_bool(ty) || is_promoted && is_small(expr, ty) {
         let int_ty = Type::BuiltIn(BuiltInType::Int);
         *expr = Box::new(Expr::Cast(Cast { ty: int_ty.clone(), expr: expr.clone() }));
         *ty = Some(int_ty);
diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 7871991..7349087 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -905,7 +905,13 @@ impl<'t> Expr<'t> {
             return Err(crate::CodegenError::UnsupportedExpression("complement of float or string".to_owned()))
           },
           // In Rust, the complement of a boolean is a logical negation and there is no arithmetic on booleans.
-          (UnaryOp::Comp | UnaryOp::Minus, expr) if ty == Some(Type::BuiltIn(BuiltInType::Bool)) => {
+          // Operands in a constant expression which are smaller than `int` are converted to `int`.
+          (UnaryOp::Comp | UnaryOp::Minus, expr)
+            if ty == Some(Type::BuiltIn(BuiltInType::Bool))
+              || ctx.is_variable_macro()
+                && matches!(expr, Self::Cast(_) | Self::Ternary(_))
+                && matches!(&ty, Some(Type::BuiltIn(ty)) if ty.is_smaller_than_int()) =>
+          {
             let ty = Type::BuiltIn(BuiltInType::Int);
             op.expr = Box::new(Self::Cast(Cast { ty: ty.clone(), expr: Box::new(expr.clone()) }));
             return Ok(Some(ty))
diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index 84d5d6b..f93ed6c 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -69,6 +69,20 @@ impl BuiltInType {
     !matches!(self, Self::Float | Self::Double | Self::LongDouble | Self::Bool | Self::Void)
   }
 
+  /// Whether this is an integer type whose values are converted to `int` when calculating with them.
+  pub(crate) const fn is_smaller_than_int(&self) -> bool {
+    matches!(
+      self,
+      Self::Char
+        | Self::SChar
+        | Self::UChar
+        | Self::Char8T
+        | Self::Char16T
+        | Self::Short
+        | Self::UShort
+    )
+  }
+
   /// Return the suffix used for literals of this type.
   pub fn suffix(&self) -> Option<&'static str> {
     match self {
-- 
2.43.0


From b6dc0d4695665ac44a4bbe0aa0b5a536ff0d6cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 39/74] fix: a comparison compared with an integer is converted
 to int

---
 src/ast/binary_expr.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index cf4a2ff..5474da7 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -130,6 +130,10 @@ impl BinaryOp {
     matches!(self, Self::Mul | Self::Div | Self::Rem | Self::Add | Self::Sub | Self::Shl | Self::Shr)
   }
 
+  pub(crate) const fn is_comparison(&self) -> bool {
+    matches!(self, Self::Lt | Self::Lte | Self::Gt | Self::Gte | Self::Eq | Self::Neq)
+  }
+
   pub(crate) const fn is_bitwise(&self) -> bool {
     matches!(self, Self::BitAnd | Self::BitXor | Self::BitOr)
   }
@@ -247,6 +251,8 @@ impl<'t> BinaryExpr<'t> {
       (!self.op.is_assignment(), true)
     } else if op.is_bitwise() || op == BinaryOp::Assign {
       (!self.op.is_assignment() && is_int(&self.rhs, &rhs_ty), is_int(&self.lhs, &lhs_ty))
+    } else if op.is_comparison() {
+      (is_int(&self.rhs, &rhs_ty), is_int(&self.lhs, &lhs_ty))
     } else {
       (false, false)
     };
-- 
2.43.0


From e8a2bb8f174b69f60ba7c2066a2a0e81bfc87136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:50 +0000
Subject: [PATCH 40/74] fix: the complement of a literal does not depend on the
 type of the other operand

---
 src/ast/binary_expr.rs |  4 ++++
 src/ast/expr.rs        | 20 ++++++++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index 5474da7..f37e52f 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -238,6 +238,10 @@ impl<'t> BinaryExpr<'t> {
     let mut lhs_ty = self.lhs.finish(ctx)?;
     let mut rhs_ty = if self.op == BinaryOp::MemberAccess { None } else { self.rhs.finish(ctx)? };
 
+    // The complement of an integer literal depends on the type of the other operand in Rust, but not in C.
+    self.lhs.calculate_complement();
+    self.rhs.calculate_complement();
+
     // A boolean is an integer in C, but there is no arithmetic on booleans in Rust
     // and they cannot be mixed with or assigned to integers.
     let is_bool = |ty: &Option<Type>| matches!(ty, Some(Type::BuiltIn(BuiltInType::Bool)));
diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 7349087..2550c30 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -704,6 +704,26 @@ impl<'t> Expr<'t> {
     }
   }
 
+  /// Calculate the complement of an integer literal of a signed type.
+  pub(crate) fn calculate_complement(&mut self) {
+    if let Self::Unary(UnaryExpr { op: UnaryOp::Comp, expr }) = self {
+      if let Self::Literal(Lit::Int(LitInt { value, suffix })) = **expr {
+        let is_signed = match suffix {
+          // Hexadecimal literals which don't fit into an `int` may be unsigned.
+          None => {
+            i32::try_from(value).is_ok() || (i64::try_from(value).is_ok() && u32::try_from(value).is_err())
+          },
+          Some(BuiltInType::Int | BuiltInType::Long | BuiltInType::LongLong) => i64::try_from(value).is_ok(),
+          _ => false,
+        };
+
+        if is_signed {
+          *self = Self::Literal(Lit::Int(LitInt { value: !value, suffix }));
+        }
+      }
+    }
+  }
+
   pub(crate) fn finish_condition<C>(
     &mut self,
     ctx: &mut LocalContext<'_, 't, C>,
-- 
2.43.0


From 0e8a9a5ec669b3b261e4a76793870fc1c37b61f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:24 +0000
Subject: [PATCH 41/74] fix: a shift has the type of its left operand

---
 src/ast/binary_expr.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index f37e52f..f0627f7 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -351,6 +351,11 @@ impl<'t> BinaryExpr<'t> {
       return Ok(if self.op == BinaryOp::Assign { lhs_ty.or(rhs_ty) } else { lhs_ty })
     }
 
+    // The number of bits does not affect the type of a shift.
+    if matches!(self.op, BinaryOp::Shl | BinaryOp::Shr) {
+      return Ok(lhs_ty)
+    }
+
     // Type can only be inferred if both sides have the same type or if only one side has a type.
     if lhs_ty == rhs_ty {
       Ok(lhs_ty)
-- 
2.43.0


From 536759b329fd5573fbcbf6ffaa7b9407c8fa8c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 42/74] fix: an integer literal is converted to the type of the
 floating-point operand

---
 src/ast/binary_expr.rs   | 37 ++++++++++++++++++-------------------
 src/ast/literal/float.rs | 36 ++++++++++++++++++++++++------------
 2 files changed, 42 insertions(+), 31 deletions(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index f0627f7..acfbc9f 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -295,26 +295,25 @@ impl<'t> BinaryExpr<'t> {
       ctx.export_as_macro = true;
     }
 
-    // Cast mixed float and int expression.
+    // Convert an integer literal to the type of the floating-point operand.
+    if !matches!(op, BinaryOp::Shl | BinaryOp::Shr) && !op.is_bitwise() {
+      let (lhs_ty2, rhs_ty2) = (lhs_ty.clone(), rhs_ty.clone());
+
+      for (expr, ty, other_ty) in [(&mut self.lhs, &mut lhs_ty, rhs_ty2), (&mut self.rhs, &mut rhs_ty, lhs_ty2)] {
+        if let Expr::Literal(Lit::Int(LitInt { value, .. })) = **expr {
+          let f = match other_ty {
+            Some(Type::BuiltIn(BuiltInType::Float)) => LitFloat::Float(value as f32),
+            Some(Type::BuiltIn(BuiltInType::Double)) => LitFloat::Double(value as f64),
+            Some(Type::BuiltIn(BuiltInType::LongDouble)) => LitFloat::LongDouble(value as f64),
+            _ => continue,
+          };
+          *expr = Box::new(Expr::Literal(Lit::Float(f)));
+          *ty = other_ty;
+        }
+      }
+    }
+
     match (&*self.lhs, &*self.rhs) {
-      (Expr::Literal(Lit::Int(LitInt { value: lhs, suffix: None })), Expr::Literal(Lit::Float(_))) => {
-        let f = if *lhs >= f32::MIN as i128 && *lhs <= f32::MAX as i128 {
-          LitFloat::Float(*lhs as f32)
-        } else {
-          LitFloat::Double(*lhs as f64)
-        };
-        self.lhs = Box::new(Expr::Literal(Lit::Float(f)));
-        lhs_ty = self.lhs.finish(ctx)?;
-      },
-      (Expr::Literal(Lit::Float(_)), Expr::Literal(Lit::Int(LitInt { value: rhs, suffix: None }))) => {
-        let f = if *rhs >= f32::MIN as i128 && *rhs <= f32::MAX as i128 {
-          LitFloat::Float(*rhs as f32)
-        } else {
-          LitFloat::Double(*rhs as f64)
-        };
-        self.rhs = Box::new(Expr::Literal(Lit::Float(f)));
-        rhs_ty = self.rhs.finish(ctx)?;
-      },
       (lhs, Expr::Literal(Lit::Int(_))) if matches!(self.op, BinaryOp::Mul | BinaryOp::Add) => {
         if let Some(lhs_ty2) = max_ty_cast(lhs) {
           self.lhs = Box::new(Expr::Cast(Cast { ty: lhs_ty2.clone(), expr: Box::new(lhs.clone()) }));
diff --git a/src/ast/literal/float.rs b/src/ast/literal/float.rs
index a25085d..61728f2 100644
--- a/src/ast/literal/float.rs
+++ b/src/ast/literal/float.rs
@@ -159,9 +159,12 @@ impl Add for LitFloat {
 
     match (self, other) {
       (Float(f1), Float(f2)) => Float(f1 + f2),
-      (Float(f1), Double(f2) | LongDouble(f2)) => Double(f1 as f64 + f2),
-      (Double(f1) | LongDouble(f1), Float(f2)) => Double(f1 + f2 as f64),
-      (Double(f1) | LongDouble(f1), Double(f2) | LongDouble(f2)) => Double(f1 + f2),
+      (Float(f1), Double(f2)) => Double(f1 as f64 + f2),
+      (Float(f1), LongDouble(f2)) => LongDouble(f1 as f64 + f2),
+      (Double(f1), Float(f2)) => Double(f1 + f2 as f64),
+      (LongDouble(f1), Float(f2)) => LongDouble(f1 + f2 as f64),
+      (Double(f1), Double(f2)) => Double(f1 + f2),
+      (Double(f1) | LongDouble(f1), LongDouble(f2)) | (LongDouble(f1), Double(f2)) => LongDouble(f1 + f2),
     }
   }
 }
@@ -174,9 +177,12 @@ impl Sub for LitFloat {
 
     match (self, other) {
       (Float(f1), Float(f2)) => Float(f1 - f2),
-      (Float(f1), Double(f2) | LongDouble(f2)) => Double(f1 as f64 - f2),
-      (Double(f1) | LongDouble(f1), Float(f2)) => Double(f1 - f2 as f64),
-      (Double(f1) | LongDouble(f1), Double(f2) | LongDouble(f2)) => Double(f1 - f2),
+      (Float(f1), Double(f2)) => Double(f1 as f64 - f2),
+      (Float(f1), LongDouble(f2)) => LongDouble(f1 as f64 - f2),
+      (Double(f1), Float(f2)) => Double(f1 - f2 as f64),
+      (LongDouble(f1), Float(f2)) => LongDouble(f1 - f2 as f64),
+      (Double(f1), Double(f2)) => Double(f1 - f2),
+      (Double(f1) | LongDouble(f1), LongDouble(f2)) | (LongDouble(f1), Double(f2)) => LongDouble(f1 - f2),
     }
   }
 }
@@ -189,9 +195,12 @@ impl Mul for LitFloat {
 
     match (self, other) {
       (Float(f1), Float(f2)) => Float(f1 * f2),
-      (Float(f1), Double(f2) | LongDouble(f2)) => Double(f1 as f64 * f2),
-      (Double(f1) | LongDouble(f1), Float(f2)) => Double(f1 * f2 as f64),
-      (Double(f1) | LongDouble(f1), Double(f2) | LongDouble(f2)) => Double(f1 * f2),
+      (Float(f1), Double(f2)) => Double(f1 as f64 * f2),
+      (Float(f1), LongDouble(f2)) => LongDouble(f1 as f64 * f2),
+      (Double(f1), Float(f2)) => Double(f1 * f2 as f64),
+      (LongDouble(f1), Float(f2)) => LongDouble(f1 * f2 as f64),
+      (Double(f1), Double(f2)) => Double(f1 * f2),
+      (Double(f1) | LongDouble(f1), LongDouble(f2)) | (LongDouble(f1), Double(f2)) => LongDouble(f1 * f2),
     }
   }
 }
@@ -204,9 +213,12 @@ impl Div for LitFloat {
 
     match (self, other) {
       (Float(f1), Float(f2)) => Float(f1 / f2),
-      (Float(f1), Double(f2) | LongDouble(f2)) => Double(f1 as f64 / f2),
-      (Double(f1) | LongDouble(f1), Float(f2)) => Double(f1 / f2 as f64),
-      (Double(f1) | LongDouble(f1), Double(f2) | LongDouble(f2)) => Double(f1 / f2),
+      (Float(f1), Double(f2)) => Double(f1 as f64 / f2),
+      (Float(f1), LongDouble(f2)) => LongDouble(f1 as f64 / f2),
+      (Double(f1), Float(f2)) => Double(f1 / f2 as f64),
+      (LongDouble(f1), Float(f2)) => LongDouble(f1 / f2 as f64),
+      (Double(f1), Double(f2)) => Double(f1 / f2),
+      (Double(f1) | LongDouble(f1), LongDouble(f2)) | (LongDouble(f1), Double(f2)) => LongDouble(f1 / f2),
     }
   }
 }
-- 
2.43.0


From 07277b7e1c41860d32b5a3069c71cefa2ba90630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:09 +0000
Subject: [PATCH 43/74] fix: literals are converted to the common
 floating-point type, floating-point conditions are compared with a float

---
 src/ast/binary_expr.rs  | 20 ++++--------------
 src/ast/expr.rs         | 46 ++++++++++++++++++++++++++++++++---------
 src/ast/ternary_expr.rs |  4 ++++
 3 files changed, 44 insertions(+), 26 deletions(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index acfbc9f..b575a5b 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -5,7 +5,7 @@ use quote::{quote, ToTokens, TokenStreamExt};
 
 use crate::{codegen::local_ident, CodegenContext, LocalContext, MacroArgType};
 
-use super::{BuiltInType, Cast, Expr, IdentifierExpr, Lit, LitFloat, LitInt, Type, Var};
+use super::{BuiltInType, Cast, Expr, IdentifierExpr, Lit, Type, Var};
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 pub(crate) enum Associativity {
@@ -295,22 +295,10 @@ impl<'t> BinaryExpr<'t> {
       ctx.export_as_macro = true;
     }
 
-    // Convert an integer literal to the type of the floating-point operand.
     if !matches!(op, BinaryOp::Shl | BinaryOp::Shr) && !op.is_bitwise() {
-      let (lhs_ty2, rhs_ty2) = (lhs_ty.clone(), rhs_ty.clone());
-
-      for (expr, ty, other_ty) in [(&mut self.lhs, &mut lhs_ty, rhs_ty2), (&mut self.rhs, &mut rhs_ty, lhs_ty2)] {
-        if let Expr::Literal(Lit::Int(LitInt { value, .. })) = **expr {
-          let f = match other_ty {
-            Some(Type::BuiltIn(BuiltInType::Float)) => LitFloat::Float(value as f32),
-            Some(Type::BuiltIn(BuiltInType::Double)) => LitFloat::Double(value as f64),
-            Some(Type::BuiltIn(BuiltInType::LongDouble)) => LitFloat::LongDouble(value as f64),
-            _ => continue,
-          };
-          *expr = Box::new(Expr::Literal(Lit::Float(f)));
-          *ty = other_ty;
-        }
-      }
+      let lhs_ty2 = lhs_ty.clone();
+      lhs_ty = self.lhs.convert_literal(lhs_ty, &rhs_ty);
+      rhs_ty = self.rhs.convert_literal(rhs_ty, &lhs_ty2);
     }
 
     match (&*self.lhs, &*self.rhs) {
diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 2550c30..76478d2 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -724,6 +724,36 @@ impl<'t> Expr<'t> {
     }
   }
 
+  /// If this is a literal, convert it to the floating-point type of the other operand.
+  ///
+  /// Returns the type of this expression.
+  pub(crate) fn convert_literal(&mut self, ty: Option<Type<'t>>, other_ty: &Option<Type<'t>>) -> Option<Type<'t>> {
+    let Some(Type::BuiltIn(other_ty)) = other_ty else { return ty };
+
+    let lit = match (&*self, other_ty) {
+      (Self::Literal(Lit::Int(LitInt { value, .. })), BuiltInType::Float) => LitFloat::Float(*value as f32),
+      (Self::Literal(Lit::Int(LitInt { value, .. })), BuiltInType::Double) => LitFloat::Double(*value as f64),
+      (Self::Literal(Lit::Int(LitInt { value, .. })), BuiltInType::LongDouble) => LitFloat::LongDouble(*value as f64),
+      (Self::Literal(Lit::Float(LitFloat::Float(f))), BuiltInType::Double) => LitFloat::Double((*f).into()),
+      (Self::Literal(Lit::Float(LitFloat::Float(f))), BuiltInType::LongDouble) => LitFloat::LongDouble((*f).into()),
+      (Self::Literal(Lit::Float(LitFloat::Double(f))), BuiltInType::LongDouble) => LitFloat::LongDouble(*f),
+      _ => return ty,
+    };
+
+    *self = Self::Literal(Lit::Float(lit));
+    Some(Type::BuiltIn(*other_ty))
+  }
+
+  /// The zero a value of the given type is compared with.
+  fn zero(ty: &Option<Type<'t>>) -> Self {
+    Self::Literal(match ty {
+      Some(Type::BuiltIn(BuiltInType::Float)) => Lit::Float(LitFloat::Float(0.0)),
+      Some(Type::BuiltIn(BuiltInType::Double)) => Lit::Float(LitFloat::Double(0.0)),
+      Some(Type::BuiltIn(BuiltInType::LongDouble)) => Lit::Float(LitFloat::LongDouble(0.0)),
+      _ => Lit::Int(LitInt { value: 0, suffix: None }),
+    })
+  }
+
   pub(crate) fn finish_condition<C>(
     &mut self,
     ctx: &mut LocalContext<'_, 't, C>,
@@ -731,17 +761,18 @@ impl<'t> Expr<'t> {
   where
     C: CodegenContext,
   {
-    let ty = Some(Type::BuiltIn(BuiltInType::Bool));
+    let ty = self.finish(ctx)?;
+    let bool_ty = Some(Type::BuiltIn(BuiltInType::Bool));
 
-    if self.finish(ctx)? != ty {
+    if ty != bool_ty {
       *self = Expr::Binary(BinaryExpr {
         lhs: Box::new(self.clone()),
         op: BinaryOp::Neq,
-        rhs: Box::new(Expr::Literal(Lit::Int(LitInt { value: 0, suffix: None }))),
+        rhs: Box::new(Self::zero(&ty)),
       });
     }
 
-    Ok(ty)
+    Ok(bool_ty)
   }
 
   pub(crate) fn finish<C>(&mut self, ctx: &mut LocalContext<'_, 't, C>) -> Result<Option<Type<'t>>, crate::CodegenError>
@@ -909,12 +940,7 @@ impl<'t> Expr<'t> {
           (UnaryOp::Not, expr) => {
             if ty != Some(Type::BuiltIn(BuiltInType::Bool)) {
               let lhs = expr.clone();
-              let rhs = match ty {
-                Some(Type::BuiltIn(BuiltInType::Float)) => Self::Literal(Lit::Float(LitFloat::Float(0.0))),
-                Some(Type::BuiltIn(BuiltInType::Double)) => Self::Literal(Lit::Float(LitFloat::Double(0.0))),
-                Some(Type::BuiltIn(BuiltInType::LongDouble)) => Self::Literal(Lit::Float(LitFloat::LongDouble(0.0))),
-                _ => Self::Literal(Lit::Int(LitInt { value: 0, suffix: None })),
-              };
+              let rhs = Self::zero(&ty);
 
               *self = Self::Binary(BinaryExpr { lhs: Box::new(lhs), op: BinaryOp::Eq, rhs: Box::new(rhs) })
             }
diff --git a/src/ast/ternary_expr.rs b/src/ast/ternary_expr.rs
index 81e20b7..c665d46 100644
--- a/src/ast/ternary_expr.rs
+++ b/src/ast/ternary_expr.rs
@@ -30,6 +30,10 @@ impl<'t> TernaryExpr<'t> {
     let lhs_ty = self.if_branch.finish(ctx)?;
     let rhs_ty = self.else_branch.finish(ctx)?;
 
+    let lhs_ty2 = lhs_ty.clone();
+    let lhs_ty = self.if_branch.convert_literal(lhs_ty, &rhs_ty);
+    let rhs_ty = self.else_branch.convert_literal(rhs_ty, &lhs_ty2);
+
     if lhs_ty == rhs_ty {
       Ok(lhs_ty)
     } else {
-- 
2.43.0


From 2bae9151e429d04e30066fd0cb4249061d8b3466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:47 +0000
Subject: [PATCH 44/74] fix: a float is converted to the wider type of the
 other operand

---
 src/ast/binary_expr.rs  |  6 ++++--
 src/ast/cast.rs         | 10 ++++++++--
 src/ast/expr.rs         | 34 ++++++++++++++++++++++++++++++++--
 src/ast/ternary_expr.rs |  4 ++--
 4 files changed, 46 insertions(+), 8 deletions(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index b575a5b..b0e567d 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -297,8 +297,10 @@ impl<'t> BinaryExpr<'t> {
 
     if !matches!(op, BinaryOp::Shl | BinaryOp::Shr) && !op.is_bitwise() {
       let lhs_ty2 = lhs_ty.clone();
-      lhs_ty = self.lhs.convert_literal(lhs_ty, &rhs_ty);
-      rhs_ty = self.rhs.convert_literal(rhs_ty, &lhs_ty2);
+      if !self.op.is_assignment() {
+        lhs_ty = self.lhs.convert_float(lhs_ty, &rhs_ty);
+      }
+      rhs_ty = self.rhs.convert_float(rhs_ty, &lhs_ty2);
     }
 
     match (&*self.lhs, &*self.rhs) {
diff --git a/src/ast/cast.rs b/src/ast/cast.rs
index cada6d2..84bae13 100644
--- a/src/ast/cast.rs
+++ b/src/ast/cast.rs
@@ -3,7 +3,7 @@ use quote::{quote, TokenStreamExt};
 
 use crate::{CodegenContext, LocalContext};
 
-use super::{Associativity, Expr, Lit, LitInt, Type};
+use super::{Associativity, BuiltInType, Expr, Lit, LitInt, Type};
 
 /// A cast expression.
 ///
@@ -29,7 +29,13 @@ impl<'t> Cast<'t> {
     C: CodegenContext,
   {
     self.ty.finish(ctx)?;
-    self.expr.finish(ctx)?;
+    let ty = self.expr.finish(ctx)?;
+
+    let float_ty = Type::BuiltIn(BuiltInType::Float);
+    if ty.as_ref() == Some(&float_ty) && self.ty != float_ty {
+      self.expr.fix_float_type();
+    }
+
     Ok(Some(self.ty.clone()))
   }
 
diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 76478d2..b01749c 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -724,10 +724,10 @@ impl<'t> Expr<'t> {
     }
   }
 
-  /// If this is a literal, convert it to the floating-point type of the other operand.
+  /// Convert this to the floating-point type of the other operand.
   ///
   /// Returns the type of this expression.
-  pub(crate) fn convert_literal(&mut self, ty: Option<Type<'t>>, other_ty: &Option<Type<'t>>) -> Option<Type<'t>> {
+  pub(crate) fn convert_float(&mut self, ty: Option<Type<'t>>, other_ty: &Option<Type<'t>>) -> Option<Type<'t>> {
     let Some(Type::BuiltIn(other_ty)) = other_ty else { return ty };
 
     let lit = match (&*self, other_ty) {
@@ -737,6 +737,15 @@ impl<'t> Expr<'t> {
       (Self::Literal(Lit::Float(LitFloat::Float(f))), BuiltInType::Double) => LitFloat::Double((*f).into()),
       (Self::Literal(Lit::Float(LitFloat::Float(f))), BuiltInType::LongDouble) => LitFloat::LongDouble((*f).into()),
       (Self::Literal(Lit::Float(LitFloat::Double(f))), BuiltInType::LongDouble) => LitFloat::LongDouble(*f),
+      (_, BuiltInType::Double | BuiltInType::LongDouble) if ty == Some(Type::BuiltIn(BuiltInType::Float)) => {
+        let ty = Type::BuiltIn(*other_ty);
+        self.fix_float_type();
+        *self = Self::Cast(Cast { ty: ty.clone(), expr: Box::new(self.clone()) });
+        return Some(ty)
+      },
+      (_, BuiltInType::LongDouble) if ty == Some(Type::BuiltIn(BuiltInType::Double)) => {
+        return Some(Type::BuiltIn(*other_ty))
+      },
       _ => return ty,
     };
 
@@ -744,6 +753,27 @@ impl<'t> Expr<'t> {
     Some(Type::BuiltIn(*other_ty))
   }
 
+  /// Fix the type of `float` literals, so that it is not inferred from the context.
+  pub(crate) fn fix_float_type(&mut self) {
+    match self {
+      Self::Literal(Lit::Float(LitFloat::Float(_))) => {
+        *self = Self::Cast(Cast { ty: Type::BuiltIn(BuiltInType::Float), expr: Box::new(self.clone()) });
+      },
+      Self::Parenthesized(expr) | Self::Unary(UnaryExpr { op: UnaryOp::Plus | UnaryOp::Minus, expr }) => {
+        expr.fix_float_type()
+      },
+      Self::Binary(BinaryExpr { lhs, op, rhs }) if op.is_arithmetic() => {
+        lhs.fix_float_type();
+        rhs.fix_float_type();
+      },
+      Self::Ternary(TernaryExpr { if_branch, else_branch, .. }) => {
+        if_branch.fix_float_type();
+        else_branch.fix_float_type();
+      },
+      _ => (),
+    }
+  }
+
   /// The zero a value of the given type is compared with.
   fn zero(ty: &Option<Type<'t>>) -> Self {
     Self::Literal(match ty {
diff --git a/src/ast/ternary_expr.rs b/src/ast/ternary_expr.rs
index c665d46..181a0f2 100644
--- a/src/ast/ternary_expr.rs
+++ b/src/ast/ternary_expr.rs
@@ -31,8 +31,8 @@ impl<'t> TernaryExpr<'t> {
     let rhs_ty = self.else_branch.finish(ctx)?;
 
     let lhs_ty2 = lhs_ty.clone();
-    let lhs_ty = self.if_branch.convert_literal(lhs_ty, &rhs_ty);
-    let rhs_ty = self.else_branch.convert_literal(rhs_ty, &lhs_ty2);
+    let lhs_ty = self.if_branch.convert_float(lhs_ty, &rhs_ty);
+    let rhs_ty = self.else_branch.convert_float(rhs_ty, &lhs_ty2);
 
     if lhs_ty == rhs_ty {
       Ok(lhs_ty)
-- 
2.43.0


From b5a5781f3ce686fbbecd4d337fee3508577a12e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:44 +0000
Subject: [PATCH 45/74] fix: comparisons with values smaller than int or
 calculated from literals use int

---
 src/ast/binary_expr.rs |  5 +++--
 src/ast/expr.rs        | 16 ++++++++++++++++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index b0e567d..0d3fbf2 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -247,7 +247,7 @@ impl<'t> BinaryExpr<'t> {
     let is_bool = |ty: &Option<Type>| matches!(ty, Some(Type::BuiltIn(BuiltInType::Bool)));
     let is_int = |expr: &Expr, ty: &Option<Type>| match ty {
       Some(Type::BuiltIn(ty)) => ty.is_int(),
-      _ => matches!(expr, Expr::Literal(Lit::Int(_))),
+      _ => expr.is_integer_literal(),
     };
 
     let op = self.op.compound_op().unwrap_or(self.op);
@@ -262,7 +262,8 @@ impl<'t> BinaryExpr<'t> {
     };
 
     // Calculating with values smaller than `int` in a constant expression yields an `int`.
-    let is_promoted = ctx.is_variable_macro() && (op.is_arithmetic() || op.is_bitwise());
+    let is_promoted =
+      ctx.is_variable_macro() && (op.is_arithmetic() || op.is_bitwise() || op.is_comparison() && lhs_ty != rhs_ty);
     let is_small = |expr: &Expr, ty: &Option<Type>| {
       matches!(expr, Expr::Cast(_) | Expr::Ternary(_))
         && matches!(ty, Some(Type::BuiltIn(ty)) if ty.is_smaller_than_int())
diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index b01749c..4a3a31e 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -704,6 +704,22 @@ impl<'t> Expr<'t> {
     }
   }
 
+  /// Check if this is calculated only from integer literals.
+  pub(crate) fn is_integer_literal(&self) -> bool {
+    match self {
+      Self::Literal(Lit::Int(_)) => true,
+      Self::Parenthesized(expr) => expr.is_integer_literal(),
+      Self::Unary(UnaryExpr { op: UnaryOp::Plus | UnaryOp::Minus | UnaryOp::Comp, expr }) => expr.is_integer_literal(),
+      Self::Binary(BinaryExpr { lhs, op, rhs }) if op.is_arithmetic() || op.is_bitwise() => {
+        lhs.is_integer_literal() && rhs.is_integer_literal()
+      },
+      Self::Ternary(TernaryExpr { if_branch, else_branch, .. }) => {
+        if_branch.is_integer_literal() && else_branch.is_integer_literal()
+      },
+      _ => false,
+    }
+  }
+
   /// Calculate the complement of an integer literal of a signed type.
   pub(crate) fn calculate_complement(&mut self) {
     if let Self::Unary(UnaryExpr { op: UnaryOp::Comp, expr }) = self {
-- 
2.43.0


From eb713fe4f9b6939688e6bd019f5d45133f4fdd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:44 +0000
Subject: [PATCH 46/74] fix: adjacent strings of different encodings are joined
 as in C, strings joined with arguments are string literals in Rust

---
 src/ast/expr.rs           | 50 +++++++++++++++++++++++++++------------
 src/ast/literal/string.rs | 42 +++++++++++++++++++++-----------
 2 files changed, 63 insertions(+), 29 deletions(-)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 4a3a31e..a9a1639 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -1,4 +1,4 @@
-use std::{borrow::Cow, fmt::Debug};
+use std::{fmt::Debug, str};
 
 use nom::{
   branch::alt,
@@ -884,24 +884,25 @@ impl<'t> Expr<'t> {
       Self::Stringify(stringify) => stringify.finish(ctx),
       Self::ConcatString(names) => {
         let mut new_names = vec![];
-        let mut current_name: Option<Vec<u8>> = None;
+        let mut current_name: Option<LitString<'t>> = None;
 
         for name in &mut *names {
           name.finish(ctx)?;
 
           match name {
             Self::Literal(Lit::String(lit)) => {
-              if let Some(lit_bytes) = lit.as_bytes() {
-                if let Some(ref mut current_name) = current_name {
-                  current_name.extend_from_slice(lit_bytes);
-                } else {
-                  current_name = Some(lit_bytes.to_vec());
-                }
-                continue
-              } else {
-                // FIXME: Cannot concatenate wide strings due to unknown size of `wchar_t`.
-                return Err(crate::CodegenError::UnsupportedExpression("concatenation of wide strings".to_owned()))
-              }
+              current_name = Some(match current_name.take() {
+                Some(current_name) => match current_name.concat(lit) {
+                  Some(name) => name,
+                  None => {
+                    return Err(crate::CodegenError::UnsupportedExpression(
+                      "concatenation of strings with different encodings".to_owned(),
+                    ))
+                  },
+                },
+                None => lit.clone(),
+              });
+              continue
             },
             Self::Var(Var { name }) => {
               match name {
@@ -922,14 +923,29 @@ impl<'t> Expr<'t> {
           }
 
           if let Some(current_name) = current_name.take() {
-            new_names.push(Self::Literal(Lit::String(LitString::Ordinary(Cow::Owned(current_name)))));
+            new_names.push(Self::Literal(Lit::String(current_name)));
           }
 
           new_names.push(name.clone());
         }
 
         if let Some(current_name) = current_name.take() {
-          new_names.push(Self::Literal(Lit::String(LitString::Ordinary(Cow::Owned(current_name)))));
+          new_names.push(Self::Literal(Lit::String(current_name)));
+        }
+
+        // Only ordinary strings which are valid UTF-8 can be concatenated using `concat!`.
+        if new_names.len() > 1 {
+          for name in &new_names {
+            match name {
+              Self::Literal(Lit::String(LitString::Ordinary(bytes))) if str::from_utf8(bytes).is_ok() => (),
+              Self::Literal(_) => {
+                return Err(crate::CodegenError::UnsupportedExpression(
+                  "concatenation of an argument and a string which is not valid UTF-8".to_owned(),
+                ))
+              },
+              _ => (),
+            }
+          }
         }
 
         if new_names.len() == 1 {
@@ -1095,6 +1111,10 @@ impl<'t> Expr<'t> {
               quote! { #(#trait_prefix::)*file!() }
             },
             Self::Stringify(stringify) => stringify.to_token_stream_inner(ctx),
+            Self::Literal(Lit::String(LitString::Ordinary(bytes))) => {
+              let s = proc_macro2::Literal::string(&String::from_utf8_lossy(bytes));
+              quote! { #s }
+            },
             e => e.to_token_stream(ctx),
           })
           .collect::<Vec<_>>();
diff --git a/src/ast/literal/string.rs b/src/ast/literal/string.rs
index 7972d60..5166e8f 100644
--- a/src/ast/literal/string.rs
+++ b/src/ast/literal/string.rs
@@ -319,7 +319,7 @@ impl<'t> LitString<'t> {
               opt(id("L")),
               map_opt(take_one, |token| match token {
                 MacroToken::Lit(Lit::String(LitString::Ordinary(bytes))) => {
-                  Some(Cow::Owned(bytes.as_ref().iter().map(|b| u32::from(*b)).collect::<Vec<_>>()))
+                  Some(Cow::Owned(str::from_utf8(bytes.as_ref()).ok()?.chars().map(u32::from).collect::<Vec<_>>()))
                 },
                 _ => None,
               }),
@@ -423,7 +423,7 @@ impl<'t> LitString<'t> {
 
         let byte_count = proc_macro2::Literal::usize_unsuffixed(bytes.len());
         let byte_string = proc_macro2::Literal::byte_string(&bytes);
-        let array_ty = quote! { &[u8; #byte_count] };
+        let array_ty = quote_static_ref(ctx, quote! { [u8; #byte_count] });
 
         match method {
           GenerationMethod::Array => (array_ty, quote! { #byte_string }),
@@ -443,7 +443,7 @@ impl<'t> LitString<'t> {
 
         let word_count = proc_macro2::Literal::usize_unsuffixed(words.len());
         let word_array = quote! { &[#(#words),*] };
-        let array_ty = quote! { &[u16; #word_count] };
+        let array_ty = quote_static_ref(ctx, quote! { [u16; #word_count] });
 
         match method {
           GenerationMethod::Array => (array_ty, word_array),
@@ -463,7 +463,7 @@ impl<'t> LitString<'t> {
 
         let dword_count = proc_macro2::Literal::usize_unsuffixed(dwords.len());
         let dword_array = quote! { &[#(#dwords),*] };
-        let array_ty = quote! { &[u32; #dword_count] };
+        let array_ty = quote_static_ref(ctx, quote! { [u32; #dword_count] });
 
         match method {
           GenerationMethod::Array => (array_ty, dword_array),
@@ -490,7 +490,7 @@ impl<'t> LitString<'t> {
 
         let wchar_count = proc_macro2::Literal::usize_unsuffixed(wchars.len());
         let wchar_array = quote! { &[#(#wchars as #wchar_ty),*] };
-        let array_ty = quote! { &[#wchar_ty; #wchar_count] };
+        let array_ty = quote_static_ref(ctx, quote! { [#wchar_ty; #wchar_count] });
 
         match method {
           GenerationMethod::Array => (array_ty, wchar_array),
@@ -508,15 +508,29 @@ impl<'t> LitString<'t> {
     }
   }
 
-  /// Get the raw string representation as bytes.
-  pub(crate) fn as_bytes(&self) -> Option<&[u8]> {
-    match self {
-      Self::Ordinary(bytes) => Some(bytes.as_ref()),
-      Self::Utf8(s) => Some(s.as_bytes()),
-      Self::Utf16(s) => Some(s.as_bytes()),
-      Self::Utf32(s) => Some(s.as_bytes()),
-      Self::Wide(_) => None,
-    }
+  /// Concatenate two strings.
+  ///
+  /// An ordinary string takes the encoding of the other one.
+  pub(crate) fn concat(&self, other: &Self) -> Option<Self> {
+    let utf8 = |bytes: &[u8]| Some(str::from_utf8(bytes).ok()?.to_owned());
+    let wide = |bytes: &[u8]| Some(str::from_utf8(bytes).ok()?.chars().map(u32::from).collect::<Vec<_>>());
+
+    Some(match (self, other) {
+      (Self::Ordinary(s1), Self::Ordinary(s2)) => Self::Ordinary(Cow::Owned([s1.as_ref(), s2.as_ref()].concat())),
+      (Self::Utf8(s1), Self::Utf8(s2)) => Self::Utf8(Cow::Owned(format!("{s1}{s2}"))),
+      (Self::Utf8(s1), Self::Ordinary(s2)) => Self::Utf8(Cow::Owned(format!("{s1}{}", utf8(s2)?))),
+      (Self::Ordinary(s1), Self::Utf8(s2)) => Self::Utf8(Cow::Owned(format!("{}{s2}", utf8(s1)?))),
+      (Self::Utf16(s1), Self::Utf16(s2)) => Self::Utf16(Cow::Owned(format!("{s1}{s2}"))),
+      (Self::Utf16(s1), Self::Ordinary(s2)) => Self::Utf16(Cow::Owned(format!("{s1}{}", utf8(s2)?))),
+      (Self::Ordinary(s1), Self::Utf16(s2)) => Self::Utf16(Cow::Owned(format!("{}{s2}", utf8(s1)?))),
+      (Self::Utf32(s1), Self::Utf32(s2)) => Self::Utf32(Cow::Owned(format!("{s1}{s2}"))),
+      (Self::Utf32(s1), Self::Ordinary(s2)) => Self::Utf32(Cow::Owned(format!("{s1}{}", utf8(s2)?))),
+      (Self::Ordinary(s1), Self::Utf32(s2)) => Self::Utf32(Cow::Owned(format!("{}{s2}", utf8(s1)?))),
+      (Self::Wide(s1), Self::Wide(s2)) => Self::Wide([s1.as_slice(), s2.as_slice()].concat()),
+      (Self::Wide(s1), Self::Ordinary(s2)) => Self::Wide([s1.as_slice(), wide(s2)?.as_slice()].concat()),
+      (Self::Ordinary(s1), Self::Wide(s2)) => Self::Wide([wide(s1)?.as_slice(), s2.as_slice()].concat()),
+      _ => return None,
+    })
   }
 
   /// Convert the raw string representation to a UTF-8 string, if possible.
-- 
2.43.0


From f8ee7757496845cb62bec75f1f57d426fc2e59fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:29 +0000
Subject: [PATCH 47/74] fix: a qualified pointer can be dereferenced

---
 src/ast/unary_expr.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ast/unary_expr.rs b/src/ast/unary_expr.rs
index 3165d4e..c84da84 100644
--- a/src/ast/unary_expr.rs
+++ b/src/ast/unary_expr.rs
@@ -91,6 +91,12 @@ impl<'t> UnaryExpr<'t> {
           return Err(crate::CodegenError::UnsupportedExpression("dereference in variable-like macro".to_owned()))
         }
 
+        // A qualified pointer is still a pointer.
+        let ty = match ty {
+          Some(Type::Qualified { ty, .. }) if matches!(*ty, Type::Ptr { .. }) => Some(*ty),
+          ty => ty,
+        };
+
         match ty {
           Some(Type::Ptr { ty, .. }) => Ok(Some(*ty)),
           None => Ok(None),
-- 
2.43.0


From 96a6e3b98a4f17be00dc23e25b9df6482916be26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:12 +0000
Subject: [PATCH 48/74] fix: wide string units which do not fit a signed
 wchar_t do not overflow

---
 src/ast/literal/string.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ast/literal/string.rs b/src/ast/literal/string.rs
index 5166e8f..8666a34 100644
--- a/src/ast/literal/string.rs
+++ b/src/ast/literal/string.rs
@@ -479,8 +479,16 @@ impl<'t> LitString<'t> {
         }
       },
       Self::Wide(s) => {
-        let wchars =
-          s.iter().cloned().chain(iter::once(0)).map(proc_macro2::Literal::u32_unsuffixed).collect::<Vec<_>>();
+        let wchars = s
+          .iter()
+          .cloned()
+          .chain(iter::once(0))
+          .map(|c| match i32::try_from(c) {
+            Ok(_) => proc_macro2::Literal::u32_unsuffixed(c),
+            // The literal would overflow if `wchar_t` is signed.
+            Err(_) => proc_macro2::Literal::u32_suffixed(c),
+          })
+          .collect::<Vec<_>>();
 
         let wchar_ty = if let Some(ty) = ctx.resolve_ty("wchar_t") {
           Type::from_rust_ty(&ty, ctx.ffi_prefix().as_ref()).unwrap().to_token_stream(ctx)
-- 
2.43.0


From 3445fd555c36708ba66b971ce0601b1eb10f1eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:54 +0000
Subject: [PATCH 49/74] fix: type specifiers and qualifiers may be given in any
 order, a type is not followed by anything

---
 src/ast/ty.rs | 213 ++++++++++++++++++--------------------------------
 1 file changed, 75 insertions(+), 138 deletions(-)

diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index f93ed6c..67ec31e 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -2,9 +2,9 @@ use std::{fmt::Debug, str::FromStr};
 
 use nom::{
   branch::{alt, permutation},
-  combinator::{map, opt, value},
-  multi::fold_many0,
-  sequence::{pair, preceded, terminated, tuple},
+  combinator::{all_consuming, opt, value},
+  multi::{fold_many0, many0},
+  sequence::{pair, preceded},
   IResult,
 };
 use proc_macro2::TokenStream;
@@ -217,128 +217,77 @@ impl BuiltInType {
   }
 }
 
-fn int_ty<'i, 't>(input: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Type<'t>> {
-  fn int_signedness<'i, 't>(input: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], &'static str> {
-    alt((keyword("unsigned"), keyword("signed")))(input)
-  }
-
-  fn int_length<'i, 't>(input: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], &'static str> {
-    alt((keyword("short"), keyword("long")))(input)
+/// Parse the specifiers and qualifiers of a type, which may be given in any order.
+fn ty<'i, 't>(input: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Type<'t>> {
+  fn specifier<'i, 't>(input: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], &'static str> {
+    alt((
+      keyword("void"),
+      value("bool", alt((keyword("bool"), keyword("_Bool")))),
+      keyword("char"),
+      keyword("short"),
+      keyword("int"),
+      keyword("long"),
+      keyword("float"),
+      keyword("double"),
+      keyword("signed"),
+      keyword("unsigned"),
+    ))(input)
+  }
+
+  let mut tokens = input;
+  let mut specifiers = vec![];
+  let mut identifier = None;
+  let mut qualifier: Option<TypeQualifier> = None;
+
+  loop {
+    if let Ok((rest, q)) = const_volatile_qualifier(tokens) {
+      qualifier = Some(qualifier.map_or(q, |qualifier| qualifier.or(q)));
+      tokens = rest;
+    } else if identifier.is_some() {
+      break
+    } else if let Ok((rest, s)) = specifier(tokens) {
+      specifiers.push(s);
+      tokens = rest;
+    } else if specifiers.is_empty() {
+      let (rest, (s, name)) = pair(opt(keyword("struct")), IdentifierExpr::parse_concat_ident)(tokens)?;
+      identifier = Some(Type::Identifier { name, is_struct: s.is_some() });
+      tokens = rest;
+    } else {
+      break
+    }
   }
 
-  alt((
-    // [const] [(unsigned | signed)] long long [int]
-    map(
-      permutation((
-        opt(const_volatile_qualifier),
-        opt(int_signedness),
-        keyword("long"),
-        keyword("long"),
-        opt(keyword("int")),
-      )),
-      |(qualifier, s, _, _, _)| {
-        let ty = if matches!(s, Some("unsigned")) { BuiltInType::ULongLong } else { BuiltInType::LongLong };
-        let ty = Type::BuiltIn(ty);
-
-        if let Some(qualifier) = qualifier {
-          ty.qualify(qualifier)
-        } else {
-          ty
-        }
-      },
-    ),
-    // [const] [(unsigned | signed)] (long | short) [int]
-    map(
-      permutation((opt(const_volatile_qualifier), opt(int_signedness), int_length, opt(keyword("int")))),
-      |(qualifier, s, i, _)| {
-        let ty = match (s, i) {
-          (Some("unsigned"), "short") => BuiltInType::UShort,
-          (_, "short") => BuiltInType::Short,
-          (Some("unsigned"), "long") => BuiltInType::ULong,
-          (_, "long") => BuiltInType::Long,
-          _ => unreachable!(),
-        };
-        let ty = Type::BuiltIn(ty);
-
-        if let Some(qualifier) = qualifier {
-          ty.qualify(qualifier)
-        } else {
-          ty
-        }
-      },
-    ),
-    // [const] [(unsigned | signed)] (char | int)
-    map(
-      permutation((opt(const_volatile_qualifier), opt(int_signedness), alt((keyword("char"), keyword("int"))))),
-      |(qualifier, s, i)| {
-        let ty = match (s, i) {
-          (Some("unsigned"), "int") => BuiltInType::UInt,
-          (_, "int") => BuiltInType::Int,
-          (Some("unsigned"), "char") => BuiltInType::UChar,
-          (Some("signed"), "char") => BuiltInType::SChar,
-          (_, "char") => BuiltInType::Char,
-          _ => unreachable!(),
-        };
-        let ty = Type::BuiltIn(ty);
-
-        if let Some(qualifier) = qualifier {
-          ty.qualify(qualifier)
-        } else {
-          ty
-        }
-      },
-    ),
-  ))(input)
-}
+  let ty = match identifier {
+    Some(ty) => ty,
+    None => {
+      specifiers.sort_unstable();
+
+      Type::BuiltIn(match specifiers.as_slice() {
+        ["void"] => BuiltInType::Void,
+        ["bool"] => BuiltInType::Bool,
+        ["float"] => BuiltInType::Float,
+        ["double"] => BuiltInType::Double,
+        ["double", "long"] => BuiltInType::LongDouble,
+        ["char"] => BuiltInType::Char,
+        ["char", "signed"] => BuiltInType::SChar,
+        ["char", "unsigned"] => BuiltInType::UChar,
+        ["short"] | ["short", "signed"] | ["int", "short"] | ["int", "short", "signed"] => BuiltInType::Short,
+        ["short", "unsigned"] | ["int", "short", "unsigned"] => BuiltInType::UShort,
+        ["int"] | ["signed"] | ["int", "signed"] => BuiltInType::Int,
+        ["unsigned"] | ["int", "unsigned"] => BuiltInType::UInt,
+        ["long"] | ["long", "signed"] | ["int", "long"] | ["int", "long", "signed"] => BuiltInType::Long,
+        ["long", "unsigned"] | ["int", "long", "unsigned"] => BuiltInType::ULong,
+        ["long", "long"]
+        | ["long", "long", "signed"]
+        | ["int", "long", "long"]
+        | ["int", "long", "long", "signed"] => BuiltInType::LongLong,
+        ["long", "long", "unsigned"] | ["int", "long", "long", "unsigned"] => BuiltInType::ULongLong,
+        _ => return Err(nom::Err::Error(nom::error::Error::new(input, nom::error::ErrorKind::Alt))),
+      })
+    },
+  };
 
-fn ty<'i, 't>(input: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Type<'t>> {
-  alt((
-    // [const] (float | [long] double | bool | void)
-    map(
-      pair(
-        opt(const_volatile_qualifier),
-        alt((
-          map(keyword("void"), |_| Type::BuiltIn(BuiltInType::Void)),
-          map(keyword("bool"), |_| Type::BuiltIn(BuiltInType::Bool)),
-          map(keyword("float"), |_| Type::BuiltIn(BuiltInType::Float)),
-          map(
-            terminated(pair(opt(keyword("long")), opt(const_volatile_qualifier)), keyword("double")),
-            |(long, qualifier)| {
-              let ty = if long.is_some() { BuiltInType::LongDouble } else { BuiltInType::Double };
-              let ty = Type::BuiltIn(ty);
-
-              if let Some(qualifier) = qualifier {
-                ty.qualify(qualifier)
-              } else {
-                ty
-              }
-            },
-          ),
-        )),
-      ),
-      |(qualifier, ty)| {
-        if let Some(qualifier) = qualifier {
-          ty.qualify(qualifier)
-        } else {
-          ty
-        }
-      },
-    ),
-    int_ty,
-    // [const] <identifier>
-    map(
-      tuple((opt(const_volatile_qualifier), opt(keyword("struct")), IdentifierExpr::parse_concat_ident)),
-      |(qualifier, s, id)| {
-        let ty = Type::Identifier { name: id, is_struct: s.is_some() };
-
-        if let Some(qualifier) = qualifier {
-          ty.qualify(qualifier)
-        } else {
-          ty
-        }
-      },
-    ),
-  ))(input)
+  Ok((tokens, if let Some(qualifier) = qualifier { ty.qualify(qualifier) } else { ty }))
 }
 
 /// A type qualifier.
@@ -402,24 +351,12 @@ pub enum Type<'t> {
 impl<'t> Type<'t> {
   /// Parse a type.
   pub(crate) fn parse<'i>(tokens: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Self> {
-    let (tokens, (mut ty, post_qualifier)) = pair(ty, opt(const_volatile_qualifier))(tokens)?;
-
-    if let Some(qualifier) = post_qualifier {
-      ty = ty.qualify(qualifier);
-    }
+    let (tokens, ty) = ty(tokens)?;
 
     fold_many0(
-      preceded(pair(punct("*"), meta), opt(const_volatile_qualifier)),
+      preceded(pair(punct("*"), meta), many0(const_volatile_qualifier)),
       move || ty.clone(),
-      |acc, qualifier| {
-        let ty = Self::Ptr { ty: Box::new(acc) };
-
-        if let Some(qualifier) = qualifier {
-          ty.qualify(qualifier)
-        } else {
-          ty
-        }
-      },
+      |acc, qualifiers| qualifiers.into_iter().fold(Self::Ptr { ty: Box::new(acc) }, Self::qualify),
     )(tokens)
   }
 
@@ -621,7 +558,7 @@ impl FromStr for Type<'static> {
         }
       })
       .collect::<Result<Vec<_>, _>>()?;
-    let (_, ty) = Type::parse(&tokens).map_err(|_| crate::CodegenError::UnsupportedType(s.to_owned()))?;
+    let (_, ty) = all_consuming(Type::parse)(&tokens).map_err(|_| crate::CodegenError::UnsupportedType(s.to_owned()))?;
 
     match ty.to_static() {
       Some(ty) => Ok(ty),
-- 
2.43.0


From 0d825523b148ea94f6f0316af6e94c4a8786aeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:20 +0000
Subject: [PATCH 50/74] fix: types given by the context are kept as they are

---
 src/ast/ty.rs | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index 67ec31e..f4b02f4 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -102,6 +102,23 @@ impl BuiltInType {
   fn from_rust_ty(ty: &syn::TypePath, ffi_prefix: Option<&syn::Path>) -> Option<Self> {
     match ty {
       syn::TypePath { qself: None, path: syn::Path { leading_colon, segments } } => {
+        // Only types from C have a prefix.
+        if let Some(id) = ty.path.get_ident() {
+          if id == "f32" {
+            return Some(Self::Float)
+          } else if id == "f64" {
+            return Some(Self::Double)
+          } else if id == "bool" {
+            return Some(Self::Bool)
+          } else if id == "u8" {
+            return Some(Self::Char8T)
+          } else if id == "u16" {
+            return Some(Self::Char16T)
+          } else if id == "u32" {
+            return Some(Self::Char32T)
+          }
+        }
+
         let mut it = segments.iter();
 
         if let Some(ffi_prefix) = ffi_prefix {
@@ -123,26 +140,12 @@ impl BuiltInType {
           return None
         }
 
-        Some(if id == "f32" {
-          Self::Float
-        } else if id == "f64" {
-          Self::Double
-        } else if id == "f128" {
-          Self::LongDouble
-        } else if id == "bool" {
-          Self::Bool
-        } else if id == "c_char" {
+        Some(if id == "c_char" {
           Self::Char
         } else if id == "c_schar" {
           Self::SChar
         } else if id == "c_uchar" {
           Self::UChar
-        } else if id == "u8" {
-          Self::Char8T
-        } else if id == "u16" {
-          Self::Char16T
-        } else if id == "u32" {
-          Self::Char32T
         } else if id == "c_short" {
           Self::Short
         } else if id == "c_ushort" {
@@ -464,6 +467,12 @@ impl<'t> Type<'t> {
       syn::Type::Verbatim(ty) => {
         Ok(Self::Identifier { name: IdentifierExpr::Plain(Identifier { id: ty.to_string().into() }), is_struct: false })
       },
+      // There is no representation for generic arguments.
+      syn::Type::Path(path_ty)
+        if path_ty.qself.is_some() || path_ty.path.segments.iter().any(|s| !s.arguments.is_none()) =>
+      {
+        Err(crate::CodegenError::UnsupportedType(ty.into_token_stream().to_string()))
+      },
       syn::Type::Path(path_ty) => {
         if let Some(ty) = BuiltInType::from_rust_ty(path_ty, ffi_prefix) {
           return Ok(Self::BuiltIn(ty))
-- 
2.43.0


From 19538fb042d0460c4cb17e6debfeb131c72a785e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:19 +0000
Subject: [PATCH 51/74] fix: a conversion to bool is a comparison with zero

---
 src/ast/cast.rs | 5 +++++
 src/ast/expr.rs | 6 ++++++
 src/ast/ty.rs   | 8 ++++++++
 3 files changed, 19 insertions(+)

diff --git a/src/ast/cast.rs b/src/ast/cast.rs
index 84bae13..9c4c26c 100644
--- a/src/ast/cast.rs
+++ b/src/ast/cast.rs
@@ -29,6 +29,11 @@ impl<'t> Cast<'t> {
     C: CodegenContext,
   {
     self.ty.finish(ctx)?;
+
+    if self.ty.is_bool() {
+      return self.expr.finish_condition(ctx)
+    }
+
     let ty = self.expr.finish(ctx)?;
 
     let float_ty = Type::BuiltIn(BuiltInType::Float);
diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index a9a1639..dd00adf 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -861,6 +861,12 @@ impl<'t> Expr<'t> {
           },
         };
 
+        // A conversion to `bool` is a comparison with zero.
+        if cast.ty.is_bool() {
+          *self = (*cast.expr).clone();
+          return Ok(ty)
+        }
+
         // Remove redundant casts from string literals, e.g. `(char*)"adsf"`.
         if matches!(
           (&*cast.expr, &cast.ty), (Expr::Literal(Lit::String(LitString::Ordinary(_))), Type::Qualified { ty, qualifier })
diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index f4b02f4..fdf5e2f 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -377,6 +377,14 @@ impl<'t> Type<'t> {
     matches!(self, Self::BuiltIn(BuiltInType::Void))
   }
 
+  pub(crate) fn is_bool(&self) -> bool {
+    match self {
+      Self::BuiltIn(BuiltInType::Bool) => true,
+      Self::Qualified { ty, .. } => ty.is_bool(),
+      _ => false,
+    }
+  }
+
   /// Check if this is a pointer type.
   pub fn is_ptr(&self) -> bool {
     match self {
-- 
2.43.0


From f36dc0b76f3aba91b089e4e36f9801b8ab2299b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:12 +0000
Subject: [PATCH 52/74] fix: the Rust target may have two components or be a
 prerelease, functions and macros honour it

---
 src/context.rs   | 15 +++++++++++++--
 src/var_macro.rs | 19 -------------------
 2 files changed, 13 insertions(+), 21 deletions(-)

diff --git a/src/context.rs b/src/context.rs
index 06d43ec..c6f009f 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -1,3 +1,5 @@
+use semver::Version;
+
 use super::*;
 
 /// Type of a macro argument.
@@ -34,13 +36,22 @@ where
   C: CodegenContext,
 {
   pub fn new(cx: &'g C) -> Self {
+    let target = cx.rust_target();
+    let is_supported_since = |major, minor| {
+      target
+        .as_deref()
+        .and_then(|v| Version::parse(v).or_else(|_| Version::parse(&format!("{v}.0"))).ok())
+        .map(|version| (version.major, version.minor) >= (major, minor))
+        .unwrap_or(true)
+    };
+
     Self {
       arg_names: Default::default(),
       arg_types: Default::default(),
       export_as_macro: false,
       global_context: cx,
-      generate_cstr: true,
-      static_lifetime_elision: true,
+      generate_cstr: is_supported_since(1, 59),
+      static_lifetime_elision: is_supported_since(1, 17),
       is_variable_macro: false,
     }
   }
diff --git a/src/var_macro.rs b/src/var_macro.rs
index 60dbe27..e563c20 100644
--- a/src/var_macro.rs
+++ b/src/var_macro.rs
@@ -2,7 +2,6 @@ use std::{fmt::Debug, str};
 
 use proc_macro2::TokenStream;
 use quote::TokenStreamExt;
-use semver::{Version, VersionReq};
 
 use crate::{ast::Lit, is_identifier, CodegenContext, Expr, LocalContext, MacroBody, MacroToken};
 
@@ -51,24 +50,6 @@ impl<'t> VarMacro<'t> {
     let mut ctx = LocalContext::new(&cx);
     ctx.is_variable_macro = true;
 
-    ctx.static_lifetime_elision = ctx
-      .rust_target()
-      .and_then(|v| {
-        let version = Version::parse(&v).ok()?;
-        let req = VersionReq::parse(">=1.17").unwrap();
-        Some(req.matches(&version))
-      })
-      .unwrap_or(true);
-
-    ctx.generate_cstr = ctx
-      .rust_target()
-      .and_then(|v| {
-        let version = Version::parse(&v).ok()?;
-        let req = VersionReq::parse(">=1.59").unwrap();
-        Some(req.matches(&version))
-      })
-      .unwrap_or(true);
-
     let mut tokens = TokenStream::new();
 
     // Cannot generate non-expression variable-like macros.
-- 
2.43.0


From b5c9f136a5fb9651063efb8e94111a3e2327f032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:33 +0000
Subject: [PATCH 53/74] fix: a function declared void returns nothing, (void)
 declares no parameters

---
 src/ast/function_decl.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/ast/function_decl.rs b/src/ast/function_decl.rs
index 5fea3ce..a3b8451 100644
--- a/src/ast/function_decl.rs
+++ b/src/ast/function_decl.rs
@@ -1,17 +1,17 @@
 use std::fmt::Debug;
 
 use nom::{
-  branch::permutation,
-  combinator::opt,
+  branch::{alt, permutation},
+  combinator::{opt, value},
   multi::separated_list0,
-  sequence::{pair, tuple},
+  sequence::{delimited, pair, tuple},
   IResult,
 };
 use proc_macro2::TokenStream;
 use quote::{quote, TokenStreamExt};
 
 use super::{
-  tokens::{parenthesized, punct},
+  tokens::{keyword, parenthesized, punct},
   *,
 };
 use crate::{CodegenContext, LocalContext, MacroArgType, MacroToken};
@@ -34,7 +34,11 @@ impl<'t> FunctionDecl<'t> {
     let (tokens, ((_, ret_ty), name, args)) = tuple((
       permutation((opt(id("static")), Type::parse)),
       IdentifierExpr::parse_concat_ident,
-      parenthesized(separated_list0(pair(meta, punct(",")), pair(Type::parse, IdentifierExpr::parse_concat_ident))),
+      alt((
+        // A function without parameters.
+        value(Vec::new(), parenthesized(delimited(meta, keyword("void"), meta))),
+        parenthesized(separated_list0(pair(meta, punct(",")), pair(Type::parse, IdentifierExpr::parse_concat_ident))),
+      )),
     ))(tokens)?;
 
     Ok((tokens, Self { ret_ty, name, args }))
@@ -69,11 +73,16 @@ impl<'t> FunctionDecl<'t> {
         quote! { #arg: #ty }
       })
       .collect::<Vec<_>>();
-    let ret_ty = self.ret_ty.to_token_stream(ctx);
+    let ret_ty = if self.ret_ty.is_void() {
+      None
+    } else {
+      let ret_ty = self.ret_ty.to_token_stream(ctx);
+      Some(quote! { -> #ret_ty })
+    };
 
     tokens.append_all(quote! {
       extern "C" {
-        pub fn #name(#(#args),*) -> #ret_ty;
+        pub fn #name(#(#args),*) #ret_ty;
       }
     })
   }
-- 
2.43.0


From d43786f917d9d583bcfa087d977b68f161ea418d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:24 +0000
Subject: [PATCH 54/74] fix: a function which returns a pointer to a built-in
 type is not a multiplication

---
 src/ast/function_decl.rs | 9 +++++++++
 src/macro_body.rs        | 8 ++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/ast/function_decl.rs b/src/ast/function_decl.rs
index a3b8451..7a03f52 100644
--- a/src/ast/function_decl.rs
+++ b/src/ast/function_decl.rs
@@ -44,6 +44,15 @@ impl<'t> FunctionDecl<'t> {
     Ok((tokens, Self { ret_ty, name, args }))
   }
 
+  /// Check if the result is a built-in type or a pointer to one, i.e. starts with a keyword.
+  pub(crate) fn returns_built_in(&self) -> bool {
+    let mut ty = &self.ret_ty;
+    while let Type::Ptr { ty: inner } | Type::Qualified { ty: inner, .. } = ty {
+      ty = inner;
+    }
+    matches!(ty, Type::BuiltIn(_))
+  }
+
   pub(crate) fn finish<C>(&mut self, ctx: &mut LocalContext<'_, 't, C>) -> Result<Option<Type<'t>>, crate::CodegenError>
   where
     C: CodegenContext,
diff --git a/src/macro_body.rs b/src/macro_body.rs
index 13503cf..2691b5c 100644
--- a/src/macro_body.rs
+++ b/src/macro_body.rs
@@ -2,10 +2,10 @@ use std::fmt::Debug;
 
 use nom::{
   branch::alt,
-  combinator::{all_consuming, map},
+  combinator::{all_consuming, map, verify},
 };
 
-use crate::{ast::Type, CodegenContext, Expr, LocalContext, MacroToken, ParserError, Statement};
+use crate::{ast::{FunctionDecl, Type}, CodegenContext, Expr, LocalContext, MacroToken, ParserError, Statement};
 
 /// The body of a macro.
 #[derive(Debug, Clone)]
@@ -42,6 +42,10 @@ impl<'t> MacroBody<'t> {
     }
 
     let body = alt((
+      // `void *f()` is not a multiplication.
+      all_consuming(map(verify(FunctionDecl::parse, FunctionDecl::returns_built_in), |f| {
+        Self::Statement(Statement::FunctionDecl(f))
+      })),
       all_consuming(map(Expr::parse, Self::Expr)),
       all_consuming(map(Statement::parse, Self::Statement)),
     ))(tokens.as_slice())
-- 
2.43.0


From be7046b8fe4d9564f0e15ffe24ce61913da2ebc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:22 +0000
Subject: [PATCH 55/74] fix: an argument used as a type has the fragment kind
 `ty`

---
 src/ast/ty.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index fdf5e2f..ac9c56b 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -13,7 +13,7 @@ use quote::{quote, ToTokens, TokenStreamExt};
 use super::*;
 use crate::{
   codegen::{ident, path_ident},
-  CodegenContext, LocalContext, MacroToken,
+  CodegenContext, LocalContext, MacroArgType, MacroToken,
 };
 
 /// A built-in type.
@@ -412,6 +412,14 @@ impl<'t> Type<'t> {
       Self::Identifier { name, .. } => {
         name.finish(ctx)?;
 
+        // Arg must be a type.
+        if let IdentifierExpr::Arg(arg) = name {
+          let arg_type = ctx.arg_type_mut(arg.index());
+          if matches!(arg_type, MacroArgType::Unknown | MacroArgType::Known(_) | MacroArgType::Expr) {
+            *arg_type = MacroArgType::Ty;
+          }
+        }
+
         if let IdentifierExpr::Plain(ref id) = name {
           if let Some(ty) = ctx.resolve_ty(id.as_str()) {
             *self = Self::from_rust_ty(&ty, ctx.ffi_prefix().as_ref())?;
-- 
2.43.0


From 26887754db1709c89f66005fb07d952393a29e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:22 +0000
Subject: [PATCH 56/74] fix: a pointer is compared with a null pointer instead
 of an integer

---
 src/ast/expr.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index dd00adf..dc7b58a 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -792,12 +792,18 @@ impl<'t> Expr<'t> {
 
   /// The zero a value of the given type is compared with.
   fn zero(ty: &Option<Type<'t>>) -> Self {
-    Self::Literal(match ty {
+    let lit = Self::Literal(match ty {
       Some(Type::BuiltIn(BuiltInType::Float)) => Lit::Float(LitFloat::Float(0.0)),
       Some(Type::BuiltIn(BuiltInType::Double)) => Lit::Float(LitFloat::Double(0.0)),
       Some(Type::BuiltIn(BuiltInType::LongDouble)) => Lit::Float(LitFloat::LongDouble(0.0)),
       _ => Lit::Int(LitInt { value: 0, suffix: None }),
-    })
+    });
+
+    match ty {
+      Some(Type::Qualified { ty, qualifier }) if !qualifier.is_const() => Self::zero(&Some((**ty).clone())),
+      Some(ty) if ty.is_ptr() => Self::Cast(Cast { ty: ty.clone(), expr: Box::new(lit) }),
+      _ => lit,
+    }
   }
 
   pub(crate) fn finish_condition<C>(
-- 
2.43.0


From 2da2bf0a74c18d06c0e165020f5cbebe432585a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:22 +0000
Subject: [PATCH 57/74] fix: an argument used as a declared name is an
 identifier

---
 src/ast/function_decl.rs | 6 +++++-
 src/ast/var_decl.rs      | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ast/function_decl.rs b/src/ast/function_decl.rs
index 7a03f52..f71a7b6 100644
--- a/src/ast/function_decl.rs
+++ b/src/ast/function_decl.rs
@@ -63,8 +63,12 @@ impl<'t> FunctionDecl<'t> {
       *ctx.arg_type_mut(arg.index()) = MacroArgType::Ident;
     }
 
-    for (ty, _arg) in self.args.iter_mut() {
+    for (ty, arg) in self.args.iter_mut() {
       ty.finish(ctx)?;
+
+      if let IdentifierExpr::Arg(arg) = arg {
+        *ctx.arg_type_mut(arg.index()) = MacroArgType::Ident;
+      }
     }
 
     // A declaration has no type.
diff --git a/src/ast/var_decl.rs b/src/ast/var_decl.rs
index f1615ad..5e4a9f4 100644
--- a/src/ast/var_decl.rs
+++ b/src/ast/var_decl.rs
@@ -5,7 +5,7 @@ use proc_macro2::TokenStream;
 use quote::{quote, TokenStreamExt};
 
 use super::*;
-use crate::{CodegenContext, LocalContext, MacroToken};
+use crate::{CodegenContext, LocalContext, MacroArgType, MacroToken};
 
 /// A variable declaration.
 ///
@@ -40,6 +40,10 @@ impl<'t> VarDecl<'t> {
   {
     self.ty.finish(ctx)?;
     self.name.finish(ctx)?;
+    // Arg must be an identifier for use as a variable name.
+    if let IdentifierExpr::Arg(arg) = &self.name {
+      *ctx.arg_type_mut(arg.index()) = MacroArgType::Ident;
+    }
     self.rhs.finish(ctx)?;
 
     Ok(None)
-- 
2.43.0


From 6cd6214058c9cbb1f2c2294f3d5093a928bf01ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:22 +0000
Subject: [PATCH 58/74] fix: indexing with an operand of unknown type is not an
 error

---
 src/ast/unary_expr.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ast/unary_expr.rs b/src/ast/unary_expr.rs
index c84da84..d633f05 100644
--- a/src/ast/unary_expr.rs
+++ b/src/ast/unary_expr.rs
@@ -100,6 +100,8 @@ impl<'t> UnaryExpr<'t> {
         match ty {
           Some(Type::Ptr { ty, .. }) => Ok(Some(*ty)),
           None => Ok(None),
+          // The type of one of the operands is not known, which may be a pointer, e.g. `array[index]`.
+          _ if matches!(&*self.expr, Expr::Binary(BinaryExpr { op: BinaryOp::Add | BinaryOp::Sub, .. })) => Ok(None),
           // Type can only be either a pointer-type or unknown.
           _ => Err(crate::CodegenError::UnsupportedExpression("dereference of non-pointer".to_owned())),
         }
-- 
2.43.0


From f728283904e4e133482da1c7eafcbca995b24437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:22 +0000
Subject: [PATCH 59/74] fix: the offset of a pointer may be any integer and
 does not change its type

---
 src/ast/binary_expr.rs | 11 +++++++++++
 src/ast/unary_expr.rs  | 19 +++++++++++++++----
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index 0d3fbf2..548c876 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -346,6 +346,17 @@ impl<'t> BinaryExpr<'t> {
       return Ok(lhs_ty)
     }
 
+    // Adding an integer to a pointer yields a pointer.
+    if matches!(self.op, BinaryOp::Add | BinaryOp::Sub) {
+      let is_ptr = |ty: &Option<Type>| matches!(ty, Some(ty) if ty.is_ptr());
+
+      if is_ptr(&lhs_ty) && is_int(&self.rhs, &rhs_ty) {
+        return Ok(lhs_ty)
+      } else if self.op == BinaryOp::Add && is_ptr(&rhs_ty) && is_int(&self.lhs, &lhs_ty) {
+        return Ok(rhs_ty)
+      }
+    }
+
     // Type can only be inferred if both sides have the same type or if only one side has a type.
     if lhs_ty == rhs_ty {
       Ok(lhs_ty)
diff --git a/src/ast/unary_expr.rs b/src/ast/unary_expr.rs
index d633f05..9b11f6d 100644
--- a/src/ast/unary_expr.rs
+++ b/src/ast/unary_expr.rs
@@ -3,7 +3,7 @@ use quote::{quote, TokenStreamExt};
 
 use crate::{codegen::local_ident, CodegenContext, LocalContext};
 
-use super::{Associativity, BinaryExpr, BinaryOp, Expr, Type};
+use super::{Associativity, BinaryExpr, BinaryOp, Expr, Lit, LitInt, Type};
 
 /// A unary expression operator.
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
@@ -211,9 +211,20 @@ impl<'t> UnaryExpr<'t> {
           raw_lhs
         };
 
-        match op {
-          BinaryOp::Add => quote! { #lhs.add(#raw_rhs) },
-          _ => quote! { #lhs.sub(#raw_rhs) },
+        match (op, &**rhs) {
+          (BinaryOp::Add, Expr::Literal(Lit::Int(LitInt { value: 0.., .. }))) => quote! { #lhs.add(#raw_rhs) },
+          (_, Expr::Literal(Lit::Int(LitInt { value: 0.., .. }))) => quote! { #lhs.sub(#raw_rhs) },
+          // The offset may be any integer in C.
+          (op, rhs) => {
+            let rhs = match rhs {
+              Expr::Var(_) => raw_rhs,
+              _ => quote! { (#raw_rhs) },
+            };
+            let op = if *op == BinaryOp::Sub { Some(quote! { - }) } else { None };
+            let rhs = if op.is_some() { quote! { (#rhs as isize) } } else { quote! { #rhs as isize } };
+
+            quote! { #lhs.offset(#op #rhs) }
+          },
         }
       },
       Expr::Unary(UnaryExpr { op, expr })
-- 
2.43.0


From d8620c5ed0db079e9e12123facfbfd5135175540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:22 +0000
Subject: [PATCH 60/74] fix: the types of arguments do not depend on the order
 of their uses

---
 src/fn_macro.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/fn_macro.rs b/src/fn_macro.rs
index c0681db..ef46c30 100644
--- a/src/fn_macro.rs
+++ b/src/fn_macro.rs
@@ -171,9 +171,18 @@ impl<'t> FnMacro<'t> {
     ctx.arg_names = self.args.clone();
     ctx.arg_types = arg_types;
 
-    // Resolving the body depends on the context, so leave the parsed body as it is.
-    let mut macro_body = self.body.clone();
-    let ret_ty = macro_body.finish(&mut ctx)?;
+    // The type of an argument may be inferred after it was first used.
+    let (macro_body, ret_ty) = loop {
+      let arg_types = ctx.arg_types.clone();
+
+      // Resolving the body depends on the context, so leave the parsed body as it is.
+      let mut macro_body = self.body.clone();
+      let ret_ty = macro_body.finish(&mut ctx)?;
+
+      if ctx.arg_types == arg_types {
+        break (macro_body, ret_ty)
+      }
+    };
 
     ctx.export_as_macro = ctx.export_as_macro
       || ctx.function(&self.name).is_some()
-- 
2.43.0


From 415bc19ca50cbf6543b0311ae9df4220516f3238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:22 +0000
Subject: [PATCH 61/74] fix: the arguments of `offsetof` are a type and a
 member, not values

---
 src/ast/function_call.rs | 45 ++++++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/src/ast/function_call.rs b/src/ast/function_call.rs
index 2dd4532..34fffec 100644
--- a/src/ast/function_call.rs
+++ b/src/ast/function_call.rs
@@ -30,8 +30,19 @@ impl<'t> FunctionCall<'t> {
     }
 
     self.name.finish(ctx)?;
-    for arg in self.args.iter_mut() {
-      arg.finish(ctx)?;
+    let is_offsetof = self.is_offsetof();
+    for (index, arg) in self.args.iter_mut().enumerate() {
+      match arg {
+        // The arguments are a type and the name of a member rather than variables.
+        Expr::Var(Var { name: name @ IdentifierExpr::Plain(_) }) if is_offsetof => {
+          if index == 0 {
+            Type::Identifier { name: name.clone(), is_struct: false }.finish(ctx)?;
+          }
+        },
+        arg => {
+          arg.finish(ctx)?;
+        },
+      }
     }
 
     let mut ty = None;
@@ -61,14 +72,14 @@ impl<'t> FunctionCall<'t> {
           "__builtin_offsetof" if self.args.len() == 2 => {
             if let Expr::Var(Var { name: IdentifierExpr::Arg(arg) }) = &mut self.args[0] {
               let arg_type = ctx.arg_type_mut(arg.index());
-              if *arg_type == MacroArgType::Unknown {
+              if matches!(arg_type, MacroArgType::Unknown | MacroArgType::Known(_) | MacroArgType::Expr) {
                 *arg_type = MacroArgType::Ty;
               }
             }
 
             if let Expr::Var(Var { name: IdentifierExpr::Arg(arg) }) = &mut self.args[1] {
               let arg_type = ctx.arg_type_mut(arg.index());
-              if *arg_type == MacroArgType::Unknown {
+              if *arg_type != MacroArgType::Ident {
                 *arg_type = MacroArgType::Tt;
               }
             }
@@ -81,16 +92,28 @@ impl<'t> FunctionCall<'t> {
     Ok(ty)
   }
 
+  fn is_offsetof(&self) -> bool {
+    matches!(&self.name, IdentifierExpr::Plain(name) if name.as_str() == "__builtin_offsetof") && self.args.len() == 2
+  }
+
   pub(crate) fn to_tokens<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>, tokens: &mut TokenStream) {
-    let (name, args_into) = match &self.name {
-      IdentifierExpr::Plain(ref name) if name.as_str() == "__builtin_offsetof" && self.args.len() == 2 => {
-        let prefix = ctx.trait_prefix().into_iter();
-        (quote! { #(#prefix::)*mem::offsetof! }, false)
-      },
-      name => (name.to_token_stream(ctx), true),
+    let is_offsetof = self.is_offsetof();
+    let (name, args_into) = if is_offsetof {
+      let prefix = ctx.trait_prefix().into_iter();
+      (quote! { #(#prefix::)*mem::offsetof! }, false)
+    } else {
+      (self.name.to_token_stream(ctx), true)
     };
 
-    let args = self.args.iter().map(|arg| match arg {
+    let args = self.args.iter().enumerate().map(|(index, arg)| match arg {
+      Expr::Var(Var { name: name @ IdentifierExpr::Plain(_) }) if is_offsetof => {
+        let mut ty = Type::Identifier { name: name.clone(), is_struct: false };
+        if index == 0 && ty.finish(ctx).is_ok() {
+          ty.to_token_stream(ctx)
+        } else {
+          name.to_token_stream(ctx)
+        }
+      },
       // Calling `.into()` on a null-pointer doesn't work.
       arg @ Expr::Cast(Cast { ty, expr })
         if ty.is_ptr() && matches!(&**expr, Expr::Literal(Lit::Int(LitInt { value: 0, .. }))) =>
-- 
2.43.0


From 6d4f6f665f026c0fb7a10b77fcac010a87290d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:22 +0000
Subject: [PATCH 62/74] fix: the complement of a literal in a branch or
 condition is calculated

---
 src/ast/expr.rs         | 4 ++++
 src/ast/ternary_expr.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index dc7b58a..c436669 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -974,6 +974,10 @@ impl<'t> Expr<'t> {
       Self::Unary(op) => {
         let ty = op.finish(ctx)?;
 
+        if op.op == UnaryOp::Not {
+          op.expr.calculate_complement();
+        }
+
         match (op.op, &*op.expr) {
           // There is no unary `+` in Rust.
           (UnaryOp::Plus, expr) => {
diff --git a/src/ast/ternary_expr.rs b/src/ast/ternary_expr.rs
index 181a0f2..32ee270 100644
--- a/src/ast/ternary_expr.rs
+++ b/src/ast/ternary_expr.rs
@@ -30,6 +30,10 @@ impl<'t> TernaryExpr<'t> {
     let lhs_ty = self.if_branch.finish(ctx)?;
     let rhs_ty = self.else_branch.finish(ctx)?;
 
+    // The complement of an integer literal depends on the type of the other branch in Rust, but not in C.
+    self.if_branch.calculate_complement();
+    self.else_branch.calculate_complement();
+
     let lhs_ty2 = lhs_ty.clone();
     let lhs_ty = self.if_branch.convert_float(lhs_ty, &rhs_ty);
     let rhs_ty = self.else_branch.convert_float(rhs_ty, &lhs_ty2);
-- 
2.43.0


From 816dc026bbac116e7baf1ca2be89c4e6ebf90d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:22 +0000
Subject: [PATCH 63/74] fix: an expression for an enum variant is parenthesised

---
 src/ast/var.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ast/var.rs b/src/ast/var.rs
index 222a265..ee5be83 100644
--- a/src/ast/var.rs
+++ b/src/ast/var.rs
@@ -104,7 +104,16 @@ impl<'t> Var<'t> {
         "__LONG_LONG_MAX__" => quote! { #(#ffi_prefix::)*c_longlong::MAX },
         name => {
           if let Some((_, enum_variant)) = ctx.resolve_enum_variant(name) {
-            quote! { #enum_variant }
+            match enum_variant {
+              // These can be used as an operand of any operator.
+              syn::Expr::Path(_)
+              | syn::Expr::Lit(_)
+              | syn::Expr::Call(_)
+              | syn::Expr::Field(_)
+              | syn::Expr::Index(_)
+              | syn::Expr::Paren(_) => quote! { #enum_variant },
+              enum_variant => quote! { (#enum_variant) },
+            }
           } else {
             self.name.to_token_stream(ctx)
           }
-- 
2.43.0


From 9fde5fda607dbaa903e7f28bc11fb7b644fa702a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:38 +0000
Subject: [PATCH 64/74] fix: braces and percent signs in an assembler template
 keep their meaning

---
 src/ast/asm.rs | 105 ++++++++++++++++++++++++++++++-------------------
 1 file changed, 64 insertions(+), 41 deletions(-)

diff --git a/src/ast/asm.rs b/src/ast/asm.rs
index 49cb1ba..b1e6114 100644
--- a/src/ast/asm.rs
+++ b/src/ast/asm.rs
@@ -3,7 +3,7 @@ use std::{collections::BTreeSet, fmt::Debug, str};
 use nom::{
   branch::alt,
   character::complete::{alpha1, char, digit1, none_of},
-  combinator::{all_consuming, map, map_opt, opt, value},
+  combinator::{all_consuming, map, map_opt, not, opt, value},
   multi::{fold_many0, fold_many1, separated_list0},
   sequence::{delimited, pair, preceded, terminated, tuple},
   IResult,
@@ -75,6 +75,16 @@ pub struct Asm<'t> {
 }
 
 impl<'t> Asm<'t> {
+  fn split_lines(s: String) -> Vec<String> {
+    s.split('\n').map(|s| s.trim().to_owned()).collect()
+  }
+
+  /// The template of a statement without operands, i.e. `%` has no special meaning.
+  fn parse_basic_template(input: &str) -> Vec<String> {
+    // Escape Rust format string.
+    Self::split_lines(input.replace('{', "{{").replace('}', "}}"))
+  }
+
   fn parse_template(input: &str) -> IResult<&str, Vec<String>> {
     all_consuming(map(
       fold_many0(
@@ -86,12 +96,14 @@ impl<'t> Asm<'t> {
                 let n = s.parse::<usize>().ok()?;
                 Some(format!("{{{}}}", n))
               }),
-              map(alpha1, |reg| format!("%{reg}")),
+              map(char('%'), |c| c.to_string()),
+              // A letter before the number of an operand modifies how it is printed.
+              map(terminated(alpha1, not(digit1)), |reg| format!("%{reg}")),
             )),
           ),
           // Escape Rust format string.
           map(alt((char('{'), char('}'))), |c| format!("{0}{0}", c)),
-          fold_many1(none_of::<_, _, nom::error::Error<&str>>("%"), String::new, |mut acc, c| {
+          fold_many1(none_of::<_, _, nom::error::Error<&str>>("%{}"), String::new, |mut acc, c| {
             acc.push(c);
             acc
           }),
@@ -102,7 +114,7 @@ impl<'t> Asm<'t> {
           acc
         },
       ),
-      |s| s.split('\n').map(|s| s.trim().to_owned()).collect(),
+      Self::split_lines,
     ))(input)
   }
 
@@ -141,50 +153,61 @@ impl<'t> Asm<'t> {
 
   pub(crate) fn parse<'i>(tokens: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Self> {
     let (tokens, (template, outputs, inputs, clobbers)) = preceded(
-      terminated(alt((id("__asm__"), id("__asm"), id("asm"))), opt(alt((id("volatile"), id("inline"), id("goto"))))),
-      parenthesized(tuple((
-        delimited(
-          meta,
-          map_opt(LitString::parse, |s| {
-            let (_, template) = Self::parse_template(s.as_str()?).ok()?;
-            Some(template)
-          }),
-          meta,
-        ),
-        opt(preceded(
-          delimited(meta, punct(":"), meta),
-          separated_list0(
-            delimited(meta, punct(","), meta),
-            map(
+      terminated(
+        alt((id("__asm__"), id("__asm"), id("asm"))),
+        opt(alt((id("volatile"), id("inline"), id("goto")))),
+      ),
+      map_opt(
+        parenthesized(tuple((
+          delimited(meta, map_opt(LitString::parse, |s| Some(s.as_str()?.to_owned())), meta),
+          opt(preceded(
+            delimited(meta, punct(":"), meta),
+            separated_list0(
+              delimited(meta, punct(","), meta),
+              map(
+                pair(
+                  map_opt(LitString::parse, |s| {
+                    let (_, operands) = Self::parse_output_operands(s.as_str()?).ok()?;
+                    Some(operands)
+                  }),
+                  parenthesized(Expr::parse),
+                ),
+                |((dir, reg), id)| (dir, reg, id),
+              ),
+            ),
+          )),
+          opt(preceded(
+            delimited(meta, punct(":"), meta),
+            separated_list0(
+              delimited(meta, punct(","), meta),
               pair(
                 map_opt(LitString::parse, |s| {
-                  let (_, operands) = Self::parse_output_operands(s.as_str()?).ok()?;
+                  let (_, operands) = Self::parse_input_operands(s.as_str()?).ok()?;
                   Some(operands)
                 }),
                 parenthesized(Expr::parse),
               ),
-              |((dir, reg), id)| (dir, reg, id),
             ),
-          ),
-        )),
-        opt(preceded(
-          delimited(meta, punct(":"), meta),
-          separated_list0(
-            delimited(meta, punct(","), meta),
-            pair(
-              map_opt(LitString::parse, |s| {
-                let (_, operands) = Self::parse_input_operands(s.as_str()?).ok()?;
-                Some(operands)
-              }),
-              parenthesized(Expr::parse),
+          )),
+          opt(preceded(
+            delimited(meta, punct(":"), meta),
+            separated_list0(
+              tuple((meta, punct(","), meta)),
+              map_opt(LitString::parse, |s| Some(s.as_str()?.to_owned())),
             ),
-          ),
-        )),
-        opt(preceded(
-          delimited(meta, punct(":"), meta),
-          separated_list0(tuple((meta, punct(","), meta)), map_opt(LitString::parse, |s| Some(s.as_str()?.to_owned()))),
-        )),
-      ))),
+          )),
+        ))),
+        |(template, outputs, inputs, clobbers)| {
+          let template = if outputs.is_none() && inputs.is_none() && clobbers.is_none() {
+            Self::parse_basic_template(&template)
+          } else {
+            let (_, template) = Self::parse_template(&template).ok()?;
+            template
+          };
+
+          Some((template, outputs, inputs, clobbers))
+        },
+      ),
     )(tokens)?;
 
     let outputs = outputs.unwrap_or_default();
@@ -219,7 +242,7 @@ impl<'t> Asm<'t> {
       // GCC template variables (e.g. `%0`) have already been replaced (e.g. `{{0}}`).
       // AT&T syntax uses e.g. `(%0,...)` while Intel syntax uses e.g. `[%0,...]` for
       // indirect addresses.
-      s.contains("({") ||
+      s.match_indices("({").any(|(i, s2)| s[i + s2.len()..].starts_with(|c: char| c.is_ascii_digit())) ||
       // Remaining `%` mean registers use AT&T syntax (e.g. `%eax`).
       s.contains('%') ||
       // Immediate values are prefixed with `$`.
-- 
2.43.0


From 539df963abd170a4ea237e67578b5c0a60bb45f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:38 +0000
Subject: [PATCH 65/74] fix: an input tied to an output keeps its value and the
 numbers of the other operands

---
 src/ast/asm.rs | 63 ++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 51 insertions(+), 12 deletions(-)

diff --git a/src/ast/asm.rs b/src/ast/asm.rs
index b1e6114..19427d6 100644
--- a/src/ast/asm.rs
+++ b/src/ast/asm.rs
@@ -257,26 +257,65 @@ impl<'t> Asm<'t> {
       .any(|line| line.starts_with(".globl") || line.starts_with(".global") || line.starts_with(".section"))
   }
 
+  /// Replace the operand numbers in a line of the template.
+  fn renumber(line: &str, numbers: &[usize]) -> String {
+    let mut s = String::new();
+    let mut rest = line;
+
+    while let Some(i) = rest.find(|c| matches!(c, '{' | '}')) {
+      s.push_str(&rest[..i]);
+      rest = &rest[i..];
+
+      // Escaped braces are doubled.
+      let end = if rest.starts_with("{{") || rest.starts_with("}}") { 2 } else { rest.find('}').map_or(1, |i| i + 1) };
+      let (part, rest2) = rest.split_at(end);
+
+      match part.trim_matches(|c| matches!(c, '{' | '}')).parse::<usize>().ok().and_then(|n| numbers.get(n)) {
+        Some(n) => s.push_str(&format!("{{{n}}}")),
+        None => s.push_str(part),
+      }
+
+      rest = rest2;
+    }
+
+    s.push_str(rest);
+    s
+  }
+
   pub(crate) fn to_tokens<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>, tokens: &mut TokenStream) {
-    let template = &self.template;
+    let mut outputs = self.outputs.iter().map(|(dir, reg, var)| (*dir, reg, None, var)).collect::<Vec<_>>();
+    let mut inputs = vec![];
 
-    let mut outputs = self.outputs.clone();
-    let mut inputs = self.inputs.clone();
+    // The number of every operand in the generated code.
+    let mut numbers = (0..outputs.len()).collect::<Vec<_>>();
 
-    for (constraint, _) in self.inputs.iter() {
-      if let RegConstraint::Digit(d) = constraint {
-        if let Some((ref mut dir, _, _)) = outputs.get_mut(*d as usize) {
-          inputs.remove(*d as usize);
+    for (reg, expr) in self.inputs.iter() {
+      match reg {
+        // The same operand is used for input and output.
+        RegConstraint::Digit(d) if (*d as usize) < outputs.len() => {
+          let (dir, _, input, output) = &mut outputs[*d as usize];
           *dir = Dir::InOut;
-        }
+          *input = if expr == *output { None } else { Some(expr) };
+          numbers.push(*d as usize);
+        },
+        _ => {
+          numbers.push(outputs.len() + inputs.len());
+          inputs.push((reg, expr));
+        },
       }
     }
 
+    let template = self.template.iter().map(|line| Self::renumber(line, &numbers));
+
     let outputs = outputs
-      .iter()
-      .map(|(dir, reg, var)| {
-        let var = var.to_token_stream(ctx);
-        quote! { #dir(#reg) #var }
+      .into_iter()
+      .map(|(dir, reg, input, output)| {
+        let input = input.map(|input| {
+          let input = input.to_token_stream(ctx);
+          quote! { #input => }
+        });
+        let output = output.to_token_stream(ctx);
+        quote! { #dir(#reg) #input #output }
       })
       .collect::<Vec<_>>();
     let inputs = inputs
-- 
2.43.0


From 689daa85adff373765ee0f331adb64bb0df02531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:39 +0000
Subject: [PATCH 66/74] fix: the qualifiers of an assembler statement may be
 combined

---
 src/ast/asm.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ast/asm.rs b/src/ast/asm.rs
index 19427d6..cbc6f25 100644
--- a/src/ast/asm.rs
+++ b/src/ast/asm.rs
@@ -4,7 +4,7 @@ use nom::{
   branch::alt,
   character::complete::{alpha1, char, digit1, none_of},
   combinator::{all_consuming, map, map_opt, not, opt, value},
-  multi::{fold_many0, fold_many1, separated_list0},
+  multi::{fold_many0, fold_many1, many0, separated_list0},
   sequence::{delimited, pair, preceded, terminated, tuple},
   IResult,
 };
@@ -155,7 +155,15 @@ impl<'t> Asm<'t> {
     let (tokens, (template, outputs, inputs, clobbers)) = preceded(
       terminated(
         alt((id("__asm__"), id("__asm"), id("asm"))),
-        opt(alt((id("volatile"), id("inline"), id("goto")))),
+        many0(alt((
+          id("volatile"),
+          id("__volatile__"),
+          id("__volatile"),
+          id("inline"),
+          id("__inline__"),
+          id("__inline"),
+          id("goto"),
+        ))),
       ),
       map_opt(
         parenthesized(tuple((
-- 
2.43.0


From c808db69241191c3e4888478311f16ef07f8704b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:39 +0000
Subject: [PATCH 67/74] fix: assembler statements with operands are not global

---
 src/ast/asm.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/ast/asm.rs b/src/ast/asm.rs
index cbc6f25..117c3c2 100644
--- a/src/ast/asm.rs
+++ b/src/ast/asm.rs
@@ -258,11 +258,18 @@ impl<'t> Asm<'t> {
     })
   }
 
+  /// Check if there are neither operands nor clobbers.
+  fn is_basic(&self) -> bool {
+    self.outputs.is_empty() && self.inputs.is_empty() && self.clobbers.is_empty()
+  }
+
   fn is_global(&self) -> bool {
-    self
-      .template
-      .iter()
-      .any(|line| line.starts_with(".globl") || line.starts_with(".global") || line.starts_with(".section"))
+    // There are no operands outside of a function.
+    self.is_basic()
+      && self
+        .template
+        .iter()
+        .any(|line| line.starts_with(".globl") || line.starts_with(".global") || line.starts_with(".section"))
   }
 
   /// Replace the operand numbers in a line of the template.
-- 
2.43.0


From 33a902603d0c81be043e51f0091d15002381ab87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:39 +0000
Subject: [PATCH 68/74] fix: `clobber_abi` is not used together with outputs

---
 src/ast/asm.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ast/asm.rs b/src/ast/asm.rs
index 117c3c2..5bec622 100644
--- a/src/ast/asm.rs
+++ b/src/ast/asm.rs
@@ -362,7 +362,9 @@ impl<'t> Asm<'t> {
         options.push(quote! { preserves_flags });
       }
 
-      let clobber_abi = if clobbers.is_empty() { None } else { Some(quote! { clobber_abi("C"), }) };
+      // `clobber_abi` cannot be used together with outputs in arbitrary registers.
+      let clobber_abi =
+        if clobbers.is_empty() || !outputs.is_empty() { None } else { Some(quote! { clobber_abi("C"), }) };
 
       (quote! { asm! }, clobber_abi)
     };
-- 
2.43.0


From 40aed351d1704295598e186127718ba7e2c23c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:39 +0000
Subject: [PATCH 69/74] fix: outputs of assembler statements modify macro
 arguments and are not volatile

---
 src/ast/asm.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ast/asm.rs b/src/ast/asm.rs
index 5bec622..65a93f3 100644
--- a/src/ast/asm.rs
+++ b/src/ast/asm.rs
@@ -232,6 +232,15 @@ impl<'t> Asm<'t> {
   {
     for (_, _, output) in self.outputs.iter_mut() {
       output.finish(ctx)?;
+
+      // Must export as a macro in order to be able to assign to a macro argument.
+      if output.is_arg_place() {
+        ctx.export_as_macro = true;
+      }
+
+      if output.is_volatile_place() {
+        return Err(crate::CodegenError::UnsupportedExpression("volatile output of inline assembly".to_owned()))
+      }
     }
 
     for (_, input) in self.inputs.iter_mut() {
-- 
2.43.0


From 3ebc40c105de0e9c9eb9707ec7cb2573c375e376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:39 +0000
Subject: [PATCH 70/74] fix: an assembler statement without a semicolon is not
 a function call

---
 src/macro_body.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/macro_body.rs b/src/macro_body.rs
index 2691b5c..ab43d5b 100644
--- a/src/macro_body.rs
+++ b/src/macro_body.rs
@@ -5,7 +5,7 @@ use nom::{
   combinator::{all_consuming, map, verify},
 };
 
-use crate::{ast::{FunctionDecl, Type}, CodegenContext, Expr, LocalContext, MacroToken, ParserError, Statement};
+use crate::{ast::{Asm, FunctionDecl, Type}, CodegenContext, Expr, LocalContext, MacroToken, ParserError, Statement};
 
 /// The body of a macro.
 #[derive(Debug, Clone)]
@@ -46,6 +46,8 @@ impl<'t> MacroBody<'t> {
       all_consuming(map(verify(FunctionDecl::parse, FunctionDecl::returns_built_in), |f| {
         Self::Statement(Statement::FunctionDecl(f))
       })),
+      // `asm("nop")` is not a function call.
+      all_consuming(map(Asm::parse, |asm| Self::Statement(Statement::Asm(asm)))),
       all_consuming(map(Expr::parse, Self::Expr)),
       all_consuming(map(Statement::parse, Self::Statement)),
     ))(tokens.as_slice())
-- 
2.43.0


From 3553a67a331bea6e98ce113ea9b1b7a0e0e9abbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:09 +0000
Subject: [PATCH 71/74] fix: variable arguments are not divided among the
 parameters of another macro

`__VA_ARGS__` passed for a named parameter of a variadic macro was bound to
that parameter as a whole, leaving nothing for the variable parameter.
---
 src/macro_set/mod.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 0d89985..05004b5 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -430,6 +430,27 @@ impl MacroSet {
     body.iter().any(|t| *t == Token::VarArgs)
   }
 
+  /// Check whether an argument contains variable arguments which are separated by top-level commas.
+  fn contains_separate_var_args(arg: &[Token<'_>]) -> bool {
+    let mut parentheses: usize = 0;
+
+    arg.iter().enumerate().any(|(i, t)| match t {
+      Token::Punctuation(p) if p == "(" => {
+        parentheses += 1;
+        false
+      },
+      Token::Punctuation(p) if p == ")" => {
+        parentheses = parentheses.saturating_sub(1);
+        false
+      },
+      Token::VarArgs => {
+        let is_stringified = i > 0 && matches!(&arg[i - 1], Token::Punctuation(p) if p == "#");
+        parentheses == 0 && !is_stringified
+      },
+      _ => false,
+    })
+  }
+
   fn expand_macro_body<'s, 't>(
     &'s self,
     mut non_replaced_names: HashSet<String>,
@@ -544,7 +565,10 @@ impl MacroSet {
         // Allow passing an empty argument for arity 0.
         || (required == 0 && matches!(args, [arg] if arg.is_empty()));
 
-      if !valid {
+      // It is not known how variable arguments are divided among named and variable parameters.
+      let divided = is_variadic && args.iter().take(required).any(|arg| Self::contains_separate_var_args(arg));
+
+      if !valid || divided {
         return Err(ExpansionError::FnMacroArgumentError { name: name.to_owned(), required, given: args.len() })
       }
     }
-- 
2.43.0


From e1088df9c22a5f60a97060931d9b14ef4ec9a978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:19 +0000
Subject: [PATCH 72/74] fix: the predefined maxima of small types are converted
 to `int`

`__SCHAR_MAX__ << 1` was calculated as a `c_schar`. Only adding or multiplying
a non-negative number calculates the maximum of the unsigned type, since
`__INT_MAX__ + -1` does not compile for an unsigned type.
---
 src/ast/binary_expr.rs | 31 +++++++++++++------------------
 src/ast/expr.rs        |  3 ++-
 src/ast/var.rs         | 11 +++++++++++
 3 files changed, 26 insertions(+), 19 deletions(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index 548c876..66d5d50 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -265,12 +265,23 @@ impl<'t> BinaryExpr<'t> {
     let is_promoted =
       ctx.is_variable_macro() && (op.is_arithmetic() || op.is_bitwise() || op.is_comparison() && lhs_ty != rhs_ty);
     let is_small = |expr: &Expr, ty: &Option<Type>| {
-      matches!(expr, Expr::Cast(_) | Expr::Ternary(_))
+      (matches!(expr, Expr::Cast(_) | Expr::Ternary(_)) || matches!(expr, Expr::Var(var) if var.is_max()))
         && matches!(ty, Some(Type::BuiltIn(ty)) if ty.is_smaller_than_int())
     };
 
+    // The maximum of an unsigned type is calculated from the maximum of the corresponding signed type.
+    let is_non_negative = |expr: &Expr| matches!(expr, Expr::Literal(Lit::Int(int)) if int.value >= 0);
+    let is_max = matches!(self.op, BinaryOp::Mul | BinaryOp::Add)
+      && (max_ty_cast(&self.lhs).is_some() && is_non_negative(&self.rhs)
+        || max_ty_cast(&self.rhs).is_some() && is_non_negative(&self.lhs));
+
     for (cast, expr, ty) in [(cast_lhs, &mut self.lhs, &mut lhs_ty), (cast_rhs, &mut self.rhs, &mut rhs_ty)] {
-      if cast && is_bool(ty) || is_promoted && is_small(expr, ty) {
+      if is_max {
+        if let Some(max_ty) = max_ty_cast(expr) {
+          *expr = Box::new(Expr::Cast(Cast { ty: max_ty.clone(), expr: expr.clone() }));
+          *ty = Some(max_ty);
+        }
+      } else if cast && is_bool(ty) || is_promoted && is_small(expr, ty) {
         let int_ty = Type::BuiltIn(BuiltInType::Int);
         *expr = Box::new(Expr::Cast(Cast { ty: int_ty.clone(), expr: expr.clone() }));
         *ty = Some(int_ty);
@@ -304,22 +315,6 @@ impl<'t> BinaryExpr<'t> {
       rhs_ty = self.rhs.convert_float(rhs_ty, &lhs_ty2);
     }
 
-    match (&*self.lhs, &*self.rhs) {
-      (lhs, Expr::Literal(Lit::Int(_))) if matches!(self.op, BinaryOp::Mul | BinaryOp::Add) => {
-        if let Some(lhs_ty2) = max_ty_cast(lhs) {
-          self.lhs = Box::new(Expr::Cast(Cast { ty: lhs_ty2.clone(), expr: Box::new(lhs.clone()) }));
-          lhs_ty = Some(lhs_ty2);
-        }
-      },
-      (Expr::Literal(Lit::Int(_)), rhs) if matches!(self.op, BinaryOp::Mul | BinaryOp::Add) => {
-        if let Some(rhs_ty2) = max_ty_cast(rhs) {
-          self.rhs = Box::new(Expr::Cast(Cast { ty: rhs_ty2.clone(), expr: Box::new(rhs.clone()) }));
-          rhs_ty = Some(rhs_ty2);
-        }
-      },
-      _ => (),
-    }
-
     if self.op == BinaryOp::MemberAccess {
       if let Some(Type::Identifier { name: IdentifierExpr::Plain(ty_name), .. }) = lhs_ty {
         let ty = ty_name.as_str();
diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index c436669..081262e 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -1033,7 +1033,8 @@ impl<'t> Expr<'t> {
           (UnaryOp::Comp | UnaryOp::Minus, expr)
             if ty == Some(Type::BuiltIn(BuiltInType::Bool))
               || ctx.is_variable_macro()
-                && matches!(expr, Self::Cast(_) | Self::Ternary(_))
+                && (matches!(expr, Self::Cast(_) | Self::Ternary(_))
+                  || matches!(expr, Self::Var(var) if var.is_max()))
                 && matches!(&ty, Some(Type::BuiltIn(ty)) if ty.is_smaller_than_int()) =>
           {
             let ty = Type::BuiltIn(BuiltInType::Int);
diff --git a/src/ast/var.rs b/src/ast/var.rs
index ee5be83..a5af21f 100644
--- a/src/ast/var.rs
+++ b/src/ast/var.rs
@@ -31,6 +31,17 @@ impl<'t> Var<'t> {
     )
   }
 
+  /// Whether this is the predefined maximum of an integer type.
+  pub(crate) fn is_max(&self) -> bool {
+    matches!(
+      &self.name,
+      IdentifierExpr::Plain(name) if matches!(
+        name.as_str(),
+        "__SCHAR_MAX__" | "__SHRT_MAX__" | "__INT_MAX__" | "__LONG_MAX__" | "__LONG_LONG_MAX__"
+      )
+    )
+  }
+
   pub(crate) fn finish<C>(&mut self, ctx: &mut LocalContext<'_, 't, C>) -> Result<Option<Type<'t>>, crate::CodegenError>
   where
     C: CodegenContext,
-- 
2.43.0


From 69cd84e36c1342f3f4bf3ae30390a5df2008e8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:32 +0000
Subject: [PATCH 73/74] fix: a dereference of a cast is not a multiplication by
 a type

`(my_t)(my_t) * (my_t)x` was generated as `my_t as my_t * x as my_t`, although
`my_t` is known to be a type here. If it is not a type, this is parsed as a
multiplication in the first place.
---
 src/ast/expr.rs | 34 +---------------------------------
 1 file changed, 1 insertion(+), 33 deletions(-)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 081262e..0bead8d 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -833,39 +833,7 @@ impl<'t> Expr<'t> {
   {
     match self {
       Self::Cast(cast) => {
-        let ty = match cast.finish(ctx) {
-          Ok(ty) => ty,
-          Err(err) => {
-            // If this expression is unsupported, check if is a nested cast of a dereference, in which case it is a multiplication
-            // rather than a dereference, e.g. `(my_t)(var) * (my_t)42` should be the same as `(my_t)var * (my_t)42`.
-            if matches!(err, crate::CodegenError::UnsupportedExpression(_)) {
-              let cast1 = cast;
-
-              if let Expr::Cast(cast2) = &*cast1.expr {
-                if let Type::Identifier { name, is_struct: false } = &cast2.ty {
-                  if let Expr::Unary(UnaryExpr { op: UnaryOp::Deref, expr }) = &*cast2.expr {
-                    if let Expr::Cast(cast3) = &**expr {
-                      if cast1.ty == cast3.ty {
-                        *self = Expr::Binary(BinaryExpr {
-                          lhs: Box::new(Expr::Cast(Cast {
-                            ty: cast1.ty.clone(),
-                            expr: Box::new(Expr::Var(Var { name: name.clone() })),
-                          })),
-                          op: BinaryOp::Mul,
-                          rhs: Box::new(Expr::Cast(Cast { ty: cast3.ty.clone(), expr: cast3.expr.clone() })),
-                        });
-
-                        return self.finish(ctx)
-                      }
-                    }
-                  }
-                }
-              }
-            }
-
-            return Err(err)
-          },
-        };
+        let ty = cast.finish(ctx)?;
 
         // A conversion to `bool` is a comparison with zero.
         if cast.ty.is_bool() {
-- 
2.43.0


From a9ee2713a9302b414ac77b38cd6e68f6c7139b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:22 +0000
Subject: [PATCH 74/74] fix: combining a value with a boolean by an assignment
 yields a boolean

The complement in `~(a &= !b)` was generated as `!{ a &= b == 0; a }`, where `a`
can only be a boolean, of which this is not the complement of an integer.
---
 src/ast/binary_expr.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index 66d5d50..d3728fb 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -331,9 +331,10 @@ impl<'t> BinaryExpr<'t> {
       return Ok(None)
     }
 
-    // An assignment has the type of the place it assigns to.
+    // An assignment has the type of the place it assigns to, which is a boolean if it is combined with one.
     if self.op.is_assignment() {
-      return Ok(if self.op == BinaryOp::Assign { lhs_ty.or(rhs_ty) } else { lhs_ty })
+      let has_value_ty = self.op == BinaryOp::Assign || op.is_bitwise() && is_bool(&rhs_ty);
+      return Ok(if has_value_ty { lhs_ty.or(rhs_ty) } else { lhs_ty })
     }
 
     // The number of bits does not affect the type of a shift.
-- 
2.43.0

