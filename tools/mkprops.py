#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def p(id, title, statement, over, qtext, tests, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": tests,
      "anchors": {"files": files,
        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
        "mechanism": [{"name": a, "where": b} for a, b in mech],
        "observe_at": observe, "hook_needed": None}})

MS = "src/macro_set/mod.rs"
p("C01", "Macro expansion follows the C rescanning rules",
  "Expanding a variable-like macro, or an expression, against a set of macros yields exactly the token sequence the C preprocessor yields: arguments are fully macro-expanded before they replace their parameter, the replacement is rescanned together with the tokens that follow it, a macro's own name is not replaced again inside its own expansion, and a function-like name that is not directly followed by `(` is left alone. Expansion always terminates, also for self-referential and mutually recursive sets.",
  ["programs", "inputs"], "every set of object-like and function-like macros and every token sequence expanded against it",
  "The unit tests expand about twenty fixed macro sets; which replacements interact depends on the combination of definitions, call position and following tokens.",
  [MS], [("rescanning with a set of names that are not replaced again", MS+": expand_macro_body"), ("argument substitution", MS+": expand_arguments"), ("call detection", MS+": collect_args")],
  ["MacroSet::expand", "MacroSet::expand_var_macro"],
  [("var_macros / fn_macros", "the definitions in force", MS)])
p("C02", "Token pasting (##) builds exactly the pasted preprocessing token",
  "`a ## b` in a macro body yields the single token spelled by joining the two operands, left to right through a chain, after arguments that are operands of `##` were substituted without being macro-expanded and with an empty argument acting as nothing; the result may itself be a macro name, but a `##` or `#` that arrives through an argument or is produced by pasting is an ordinary token. If joining does not give one valid token, or `##` begins or ends the body, expansion reports that error and never a different token.",
  ["programs", "inputs"], "every operand pair and chain, every way an operand can come from an argument or be empty",
  "Tests cover a dozen operand pairs; the operand kinds (identifier, number, punctuator, string, char, prefix, argument, empty) multiply with position and nesting.",
  [MS, "src/ast/punctuation.rs"], [("concatenation of two tokens", MS+": Token::concat, expand_concat"), ("punctuator table", "src/ast/punctuation.rs: Punctuation::concat")],
  ["MacroSet::expand_var_macro", "MacroSet::expand", "MacroSet::expand_fn_macro"])
p("C03", "Stringification (#) yields the argument's own spelling",
  "`#parameter` yields one string literal whose content is the spelling of the argument's tokens as written at the call, in order and not macro-expanded, with string and character literals kept verbatim inside it and an empty argument giving the empty string; only blanks between tokens may differ. A `#` not followed by a parameter in a function-like macro that is called is an error, and in a variable-like macro `#` is an ordinary token.",
  ["programs", "inputs"], "every argument token sequence and every nesting of stringifying macros",
  "Tests stringify four fixed arguments.",
  [MS, "src/ast/stringify.rs"], [("stringification of an argument", MS+": stringify, expand_arguments")],
  ["MacroSet::expand_var_macro", "MacroSet::expand"])
p("C04", "Calls bind their arguments as C does; ill-formed macros are reported",
  "A call's arguments are split at the commas outside nested parentheses and bound to the parameters by position, the rest (commas included) to `__VA_ARGS__`; a call with the wrong number of arguments is reported with the macro's name, the number required and the number given, and nothing else is. Duplicate parameter names, an invalid parameter list, `__VA_ARGS__` outside a variadic macro and unknown macro names are each reported as that error, for every position at which they can occur.",
  ["programs", "inputs"], "every parameter list, every argument list shape, variadic or not, empty or not",
  "Tests show one wrong-arity call and one duplicate parameter.",
  [MS], [("argument collection", MS+": collect_args"), ("arity and parameter checks", MS+": expand_fn_macro_body, tokenize_arg_names")],
  ["MacroSet::expand", "MacroSet::expand_fn_macro", "MacroSet::expand_var_macro", "ExpansionError"])
p("C05", "The macro set always reflects exactly the last definitions",
  "After any history of defining, redefining and undefining macros, expansion depends only on the last live definition of each name, whatever the order of definitions, a name is variable-like or function-like but never both, and expanding changes nothing. Define returns true exactly when the name was already defined and the new definition differs from it (kind, parameters or body, ignoring comments and blanks); undefine returns true exactly when a macro of that kind was removed.",
  ["histories"], "every sequence of define, undefine and expand operations on a set and its clones",
  "Tests define each name once or twice; the state after interleaved define/undefine/redefine of both kinds is never explored.",
  [MS], [("definition maps", MS+": define_var_macro, define_fn_macro, undefine_var_macro, undefine_fn_macro")],
  ["return values of define/undefine", "MacroSet::expand_var_macro", "MacroSet::expand_fn_macro"],
  [("var_macros / fn_macros", "the live definitions; a name is in at most one", MS)])
p("C06", "A function-like macro's expanded body means what every call means",
  "The parameter list and body returned for a function-like macro, with each parameter reference replaced by an argument and the remaining `#` and `##` on parameters then carried out, equals what the C preprocessor produces for a call of that macro with that argument, through any nesting of other macros. Parameter references carry the parameter's position, and `__VA_ARGS__` that of the ellipsis.",
  ["programs", "inputs"], "every macro body, parameter list (comments included) and set of helper macros; arguments that are not themselves macros",
  "Tests list the expected tokens for fifteen bodies.",
  [MS], [("symbolic expansion with parameter tokens", MS+": expand_fn_macro, tokenize, detokenize")],
  ["MacroSet::expand_fn_macro"])
p("C07", "Integer literals denote their C value and type suffix",
  "Every C integer literal (decimal, octal, hexadecimal, binary, with every suffix spelling in either case and order) parses to exactly its C value and the type its suffix selects, and anything that is not a well-formed integer literal is rejected rather than read as some other value.",
  ["inputs"], "every character sequence up to the bound over the literal alphabet; boundary magnitudes up to the 128-bit limit",
  "Tests parse a fixed list of about thirty literals.",
  ["src/ast/literal/int.rs", "src/ast/literal.rs"], [("literal parser", "src/ast/literal/int.rs: LitInt::parse_str")],
  ["LitInt::try_from", "Lit::try_from", "VarMacro::generate"])
p("C08", "Character and string literals denote exactly their C code units",
  "Every character or string literal, with or without encoding prefix and with every escape sequence (simple, octal, hexadecimal, universal), parses to the kind its prefix selects and exactly the code units C gives it, and malformed ones are rejected.",
  ["inputs"], "every sequence of source characters and escapes up to the bound, for each prefix",
  "Tests parse a few literals per prefix; escapes interact with the characters that follow them and with the prefix.",
  ["src/ast/literal.rs", "src/ast/literal/char.rs", "src/ast/literal/string.rs"], [("escape parsing", "src/ast/literal.rs: escaped_char"), ("string parsing", "src/ast/literal/string.rs: LitString::parse_str"), ("char parsing", "src/ast/literal/char.rs: LitChar::parse_str")],
  ["LitChar::try_from", "LitString::try_from", "Lit::try_from"])
p("C09", "Generated strings are the literal's code units plus one terminator",
  "A macro whose value is a string literal, or adjacent string literals, generates a constant holding exactly the concatenated code units followed by one zero, of the element type and length it declares: a C-string reference when the target supports it and there is no interior zero, otherwise an array; adjacent literals of one encoding, or one encoding mixed with unprefixed ones, join as in C or are reported. A string used inside a larger expression becomes a pointer to those same units, and a character literal becomes its value cast to its C type.",
  ["inputs", "configurations"], "every sequence of one to three literals of every encoding, in every position, for every target version and prefix setting",
  "Tests check parsing of concatenation for single pairs; the generated bytes and declared lengths are only in fixtures for fixed strings.",
  ["src/ast/literal/string.rs", "src/ast/literal/char.rs", "src/ast/expr.rs", "src/var_macro.rs", "src/codegen/mod.rs"],
  [("string emission", "src/ast/literal/string.rs: LitString::to_token_stream"), ("concatenation", "src/ast/literal/string.rs: LitString::parse; src/ast/expr.rs: parse_concat_string")],
  ["VarMacro::generate", "FnMacro::generate"])
p("C10", "Floating-point literals and constant folding keep the C value",
  "Every decimal floating-point literal parses to the nearest value of the type its suffix selects and generates a Rust literal of exactly that value, `long double` counting as `double`; arithmetic on floating-point constants, also mixed with integer constants, folds to exactly the value and type C's usual arithmetic conversions give, including infinities and NaN.",
  ["inputs", "programs"], "every literal spelling up to the bound; every expression of up to three operations over boundary constants",
  "Tests parse about ten literals; folding over mixed types, signs and overflow to infinity is not sampled.",
  ["src/ast/literal/float.rs", "src/ast/expr.rs", "src/ast/binary_expr.rs"], [("literal parser and emission", "src/ast/literal/float.rs"), ("folding", "src/ast/expr.rs: Expr::finish; src/ast/binary_expr.rs: BinaryExpr::finish")],
  ["LitFloat::try_from", "VarMacro::generate"])
p("C11", "Integer constant expressions evaluate to their C value",
  "For every constant expression over integer and character literals, casts, unary and binary operators, the conditional operator and parentheses whose evaluation in C is defined and neither wraps nor changes a value by implicit conversion, the generated Rust constant has exactly that value; an expression C leaves undefined, such as division by zero, never yields a made-up value or a crash.",
  ["programs", "inputs"], "every expression tree up to the depth bound over boundary literals and all operators",
  "Tests fold a handful of expressions; operators, nesting, negative operands and suffixes combine freely.",
  ["src/ast/expr.rs", "src/ast/binary_expr.rs", "src/ast/unary_expr.rs", "src/ast/cast.rs", "src/ast/ternary_expr.rs", "src/ast/literal/int.rs"],
  [("folding", "src/ast/expr.rs: Expr::finish"), ("integer arithmetic", "src/ast/literal/int.rs")],
  ["VarMacro::generate"])
p("C12", "Operators keep C's grouping in the generated Rust",
  "For every C expression, with any mix of parentheses, the Rust expression generated for it, read with Rust's precedence, applies the same operators to the same operands in the same grouping as C's precedence and associativity dictate, and reads as one expression; an operator without a translation is reported, never replaced by another.",
  ["programs"], "every expression tree up to the depth bound over all unary, binary, assignment, conditional, cast, call, index and member operators, minimally or redundantly parenthesised",
  "Tests check around fifteen fixed operator pairs; C and Rust precedence differ in several places, and pairs of operators number in the hundreds.",
  ["src/ast/expr.rs", "src/ast/binary_expr.rs", "src/ast/unary_expr.rs", "src/ast/cast.rs", "src/ast/ternary_expr.rs", "src/ast/function_call.rs"],
  [("C precedence climbing", "src/ast/expr.rs: parse_term_prec1..14"), ("Rust precedence and parentheses", "src/ast/binary_expr.rs: to_token_stream; src/ast/unary_expr.rs: to_token_stream")],
  ["FnMacro::generate", "VarMacro::generate"])
p("C13", "Generated code is always syntactically valid Rust",
  "Whenever code generation succeeds, the output parses as Rust in the place it is meant for: a variable-like macro as an expression and a type, a function-like macro as items whose macro body parses once its parameters are substituted.",
  ["programs", "configurations"], "every macro body up to the bound over every kind of token, statement, type and literal",
  "Tests compare text for fixed bodies; validity over combinations is never checked.",
  ["src/fn_macro.rs", "src/var_macro.rs", "src/ast/expr.rs", "src/ast/statement.rs", "src/ast/ty.rs", "src/codegen/mod.rs"],
  [("token generation", "to_tokens of every node under src/ast")],
  ["FnMacro::generate", "VarMacro::generate"])
p("C14", "No input makes the pipeline panic, hang or exhaust resources",
  "Defining, expanding, parsing and generating any macro made of any tokens returns a result or an error; it never panics, overflows the stack, loops or grows without bound.",
  ["inputs", "programs"], "every token sequence up to the bound over an alphabet with every token kind, as object-like and as function-like macro, with and without known types",
  "Tests feed well-formed inputs only.",
  [MS, "src/fn_macro.rs", "src/var_macro.rs", "src/macro_body.rs", "src/ast/expr.rs", "src/ast/asm.rs", "src/ast/ty.rs"],
  [("error results", "src/error.rs, ExpansionError")],
  ["MacroSet", "VarMacro", "FnMacro"])
p("C15", "A function is generated only when every type is known, else a macro",
  "A function-like macro becomes an `unsafe extern \"C\"` function exactly when it is not variadic, no function of its name exists, every parameter's type is given or inferred, the result type is known and nothing it mentions is unresolved; its signature then carries exactly those types. Otherwise it becomes a macro re-exported under its name with one fragment per parameter, in order, whose kind suits the way the parameter is used.",
  ["programs", "configurations"], "every combination of known and unknown parameter types, functions, enum variants and body shapes",
  "Tests generate four fixed macros.",
  ["src/fn_macro.rs", "src/ast/function_call.rs", "src/ast/var.rs", "src/ast/stringify.rs", "src/ast/identifier_expr.rs", "src/ast/binary_expr.rs", "src/context.rs"],
  [("export decision", "src/fn_macro.rs: FnMacro::generate"), ("argument type inference", "src/ast/function_call.rs: finish; src/context.rs: MacroArgType")],
  ["FnMacro::generate"])
p("C16", "C type spellings map to the Rust type of the same C type",
  "Every order of the specifiers and qualifiers of a C arithmetic type, with any pointers, names the same generated Rust type as its canonical spelling, carrying the configured prefix; typedef names and structs go through the context; a type produced as Rust syntax and read back is the same type.",
  ["inputs", "configurations"], "every permutation of specifiers and qualifiers, up to three pointer levels, in casts, sizeof, declarations and string form",
  "Tests parse about forty spellings.",
  ["src/ast/ty.rs", "src/ast/cast.rs", "src/ast/var_decl.rs"], [("type parser", "src/ast/ty.rs: ty, int_ty, const_volatile_qualifier"), ("Rust mapping", "src/ast/ty.rs: to_rust_ty, from_rust_ty, to_tokens")],
  ["Type::from_str", "Type::to_rust_ty", "VarMacro::generate", "FnMacro::generate"])
p("C17", "Statements and side effects execute in Rust as they do in C",
  "Running the Rust code generated for a macro body made of assignments, compound assignments, increments, conditionals, loops, blocks, declarations and expression statements leaves every variable with the value, and calls functions in the order and number of times, that executing the C statements does; an assignment or increment used as a value has C's value.",
  ["programs", "inputs"], "every statement tree up to the size bound, from every small initial state",
  "Tests check the parse tree of ten statements; nothing executes the generated code.",
  ["src/ast/statement.rs", "src/ast/binary_expr.rs", "src/ast/unary_expr.rs", "src/ast/ternary_expr.rs", "src/ast/var_decl.rs"],
  [("statement generation", "src/ast/statement.rs: to_tokens"), ("assignment and increment as value", "src/ast/binary_expr.rs, src/ast/unary_expr.rs: to_token_stream")],
  ["FnMacro::generate"])
p("C18", "Volatile accesses stay volatile, with the right operation",
  "Every read, write, compound assignment, increment and decrement through a cast to pointer to volatile is generated as the volatile read and write of that same pointer with C's operator and result value; accesses through non-volatile pointers are not.",
  ["programs"], "every access form, every compound operator, every qualifier placement and prefix setting",
  "No unit test covers volatile; fixtures have one store.",
  ["src/ast/binary_expr.rs", "src/ast/unary_expr.rs", "src/ast/ty.rs"], [("volatile rewriting", "src/ast/binary_expr.rs: to_token_stream; src/ast/unary_expr.rs: to_token_stream"), ("qualifiers", "src/ast/ty.rs: TypeQualifier")],
  ["FnMacro::generate"])
p("C19", "Inline assembly keeps template, operands, clobbers and options",
  "Generated inline assembly has the same template lines (apart from white space around them) with every operand reference naming the operand it named in C and all other text unchanged, braces included; the same operands with direction, register class and expression, an input tied to an output becoming one operand with its own input value; the same register clobbers; and it declares the absence of memory or flags effects exactly when there is no memory or cc clobber. It runs where the C statement runs, once. Operand modifiers, named operands and volatile outputs may be refused, never mistranslated.",
  ["programs", "inputs"], "every template over the special characters up to the bound; every operand, constraint and clobber combination",
  "Tests parse two statements and one template.",
  ["src/ast/asm.rs"], [("template translation", "src/ast/asm.rs: parse_template"), ("operands, clobbers, options", "src/ast/asm.rs: to_tokens")],
  ["FnMacro::generate"])
p("C20", "Prefixes and target version are honoured everywhere",
  "Every reference in generated code to a C type carries the configured FFI prefix and every reference to a library item carries the configured trait prefix, so that generating with a prefix equals generating without one and then prefixing those names, and nothing else changes; constructs are chosen by the configured Rust version alone, at the exact version that introduces them.",
  ["configurations", "programs"], "every prefix shape and target version with every construct that emits a library or type name",
  "Unit tests generate without configuration.",
  ["src/context.rs", "src/codegen/mod.rs", "src/var_macro.rs", "src/ast/ty.rs", "src/ast/expr.rs", "src/ast/var.rs", "src/ast/asm.rs", "src/ast/stringify.rs"],
  [("prefix quoting", "ffi_prefix()/trait_prefix() in every to_tokens"), ("version gates", "src/var_macro.rs: generate; src/ast/ty.rs: SizeT")],
  ["VarMacro::generate", "FnMacro::generate"])
p("C21", "Generating is repeatable and leaves the parsed macro unchanged",
  "Generating code from a parsed macro any number of times, from it or a clone, under any sequence of contexts, gives each time exactly what a freshly parsed macro gives for that context; name, parameters and body stay as parsed.",
  ["histories", "configurations"], "every macro body of the corpus and every sequence of up to three generations under different contexts",
  "Tests generate once per macro.",
  ["src/fn_macro.rs", "src/var_macro.rs", "src/macro_body.rs", "src/ast/expr.rs", "src/ast/ty.rs"], [("in-place resolution", "finish of every node, called from generate(&mut self)")],
  ["VarMacro::generate", "FnMacro::generate"], [("body", "the parsed macro body, which generation resolves in place", "src/fn_macro.rs, src/var_macro.rs")])
p("C22", "Comments never change the meaning of a macro",
  "Inserting comments anywhere between the tokens of a macro's parameter list or body, or of a call, changes neither the expansion apart from the comments themselves, nor the generated code.",
  ["programs", "inputs"], "every macro of the corpus and every gap between its tokens",
  "Tests place comments at a few fixed gaps.",
  [MS, "src/ast/tokens.rs", "src/ast/expr.rs", "src/ast/statement.rs", "src/ast/ty.rs", "src/fn_macro.rs"], [("comment skipping", "src/ast/tokens.rs: meta; uses in every parser"), ("comments in expansion", MS)],
  ["MacroSet::expand_*", "VarMacro::generate", "FnMacro::generate"])
p("C23", "Every token spelling is classified as the C token it is",
  "Every spelling is taken as an identifier, number, literal, punctuator or comment exactly when C lexes it as that one token, identifiers (also with Unicode or universal character names) keep their name through expansion and generation, and any other spelling is reported as an invalid token.",
  ["inputs"], "every character sequence up to the bound over an alphabet with letters, digits, quotes, punctuation, backslash and non-ASCII characters",
  "Tests classify a few identifiers and the literals of other properties.",
  ["src/ast/identifier.rs", "src/ast/punctuation.rs", "src/ast/comment.rs", "src/ast/literal.rs", MS], [("tokenisation", MS+": Token::from_str"), ("identifier parser", "src/ast/identifier.rs"), ("punctuator table", "src/ast/punctuation.rs")],
  ["MacroSet::expand_var_macro", "Identifier::try_from", "Punctuation::try_from", "VarMacro::parse", "FnMacro::parse"])
p("C24", "Names resolve only through the context, and only to what it answers",
  "Enum variants, typedefs, struct fields, functions and parameter types appear in generated code and inferred types exactly as the context resolves them; a name the context does not know makes a variable-like macro non-constant and a function-like macro a Rust macro, and an unresolved type is an error naming it.",
  ["configurations", "programs"], "every subset of known names with every expression shape that can mention them",
  "Tests use an empty context or one with a single answer.",
  ["src/context.rs", "src/ast/var.rs", "src/ast/ty.rs", "src/ast/function_call.rs", "src/ast/binary_expr.rs", "src/ast/cast.rs", "src/ast/expr.rs"],
  [("context lookups", "src/context.rs: CodegenContext; finish of Var, Type, FunctionCall, BinaryExpr")],
  ["VarMacro::generate", "FnMacro::generate", "CodegenError"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
