//! Runs a macro through the real pipeline (define, expand, parse, generate) and takes the generated code apart.

use cmacro::{CodegenContext, FnMacro, MacroSet, VarMacro};
use proc_macro2::{Delimiter, Group, Ident, Span, TokenStream, TokenTree};
use syn::parse::Parser;

/// A context that answers from tables.
#[derive(Clone, Default)]
pub struct Cx {
  pub types: Vec<(String, String)>,
  pub enums: Vec<(String, String, String)>,
  pub fields: Vec<(String, String, String)>,
  pub fns: Vec<(String, Vec<String>, String)>,
  /// (macro, argument, type)
  pub args: Vec<(String, String, String)>,
  pub ffi: Option<String>,
  pub tr: Option<String>,
  pub target: Option<String>,
}

fn p<X: syn::parse::Parse>(s: &str) -> X {
  syn::parse_str(s).unwrap_or_else(|e| panic!("harness: {s}: {e}"))
}

impl CodegenContext for &Cx {
  fn rust_target(&self) -> Option<String> {
    self.target.clone()
  }
  fn ffi_prefix(&self) -> Option<syn::Path> {
    self.ffi.as_deref().map(p)
  }
  fn trait_prefix(&self) -> Option<syn::Path> {
    self.tr.as_deref().map(p)
  }
  fn macro_arg_ty(&self, m: &str, a: &str) -> Option<syn::Type> {
    self.args.iter().find(|(x, y, _)| (x == m || x == "*") && (y == a || y == "*")).map(|(_, _, t)| p(t))
  }
  fn resolve_enum_variant(&self, v: &str) -> Option<(syn::Type, syn::Expr)> {
    self.enums.iter().find(|(n, ..)| n == v).map(|(_, t, e)| (p(t), p(e)))
  }
  fn resolve_ty(&self, t: &str) -> Option<syn::Type> {
    self.types.iter().find(|(n, _)| n == t).map(|(_, t)| p(t))
  }
  fn resolve_field_ty(&self, t: &str, f: &str) -> Option<syn::Type> {
    self.fields.iter().find(|(n, g, _)| n == t && g == f).map(|(_, _, t)| p(t))
  }
  fn function(&self, n: &str) -> Option<(Vec<syn::Type>, syn::Type)> {
    self.fns.iter().find(|(m, ..)| m == n).map(|(_, a, r)| (a.iter().map(|t| p(t)).collect(), p(r)))
  }
}

#[derive(Debug)]
pub enum Gen {
  Var { expr: TokenStream, ty: Option<TokenStream> },
  Func { sig: Box<syn::Signature>, body: TokenStream },
  Macro { frags: Vec<(String, String)>, variadic: bool, body: TokenStream },
  /// Reported error (stage, debug text).
  Err(&'static str, String),
}

pub fn var(cx: &Cx, name: &str, body: &[&str]) -> Gen {
  let mut m = MacroSet::new();
  m.define_var_macro(name, body);
  var_in(cx, &m, name)
}
pub fn var_in(cx: &Cx, m: &MacroSet, name: &str) -> Gen {
  let t = match m.expand_var_macro(name) {
    Ok(t) => t,
    Err(e) => return Gen::Err("expand", format!("{e:?}")),
  };
  let mut v = match VarMacro::parse(name, &t) {
    Ok(v) => v,
    Err(e) => return Gen::Err("parse", format!("{e:?}")),
  };
  match v.generate(cx) {
    Ok((expr, ty)) => Gen::Var { expr, ty },
    Err(e) => Gen::Err("generate", format!("{e:?}")),
  }
}

pub fn func(cx: &Cx, name: &str, params: &[&str], body: &[&str]) -> Result<Gen, String> {
  let mut m = MacroSet::new();
  m.define_fn_macro(name, params, body);
  func_in(cx, &m, name)
}
pub fn func_raw(cx: &Cx, m: &MacroSet, name: &str) -> Result<TokenStream, Gen> {
  let (a, t) = m.expand_fn_macro(name).map_err(|e| Gen::Err("expand", format!("{e:?}")))?;
  let mut f = FnMacro::parse(name, &a, &t).map_err(|e| Gen::Err("parse", format!("{e:?}")))?;
  f.generate(cx).map_err(|e| Gen::Err("generate", format!("{e:?}")))
}
/// Err: the output does not have the shape of a function or a macro.
pub fn func_in(cx: &Cx, m: &MacroSet, name: &str) -> Result<Gen, String> {
  match func_raw(cx, m, name) {
    Ok(ts) => split(name, ts),
    Err(g) => Ok(g),
  }
}

/// Take `macro_rules!` + re-export, or a function, apart.
pub fn split(name: &str, ts: TokenStream) -> Result<Gen, String> {
  let text = ts.to_string();
  // A function's body is kept as tokens, so look at the outer shape first.
  let toks: Vec<TokenTree> = ts.clone().into_iter().collect();
  let is_macro = toks.iter().any(|t| matches!(t, TokenTree::Ident(i) if i == "macro_rules"));
  if is_macro {
    let file: syn::File = syn::parse2(ts).map_err(|e| format!("not items ({e}): {text}"))?;
    if file.items.len() != 2 {
      return Err(format!("expected a macro and its re-export: {text}"));
    }
    let (mac, us) = match (&file.items[0], &file.items[1]) {
      (syn::Item::Macro(m), syn::Item::Use(u)) => (m, u),
      _ => return Err(format!("expected a macro and its re-export: {text}")),
    };
    let mac_name = mac.ident.as_ref().map(|i| i.to_string()).unwrap_or_default();
    let use_ok = matches!(&us.tree, syn::UseTree::Rename(r) if r.ident == mac_name && r.rename == name)
      || matches!(&us.tree, syn::UseTree::Name(r) if r.ident == mac_name && r.ident == name);
    if !use_ok || !matches!(us.vis, syn::Visibility::Public(_)) {
      return Err(format!("the macro is not re-exported as {name}: {text}"));
    }
    if !mac.attrs.iter().any(|a| a.path().is_ident("macro_export")) {
      return Err(format!("the macro is not exported: {text}"));
    }
    let rules: Vec<TokenTree> = mac.mac.tokens.clone().into_iter().collect();
    let (pat, body) = match &rules[..] {
      [TokenTree::Group(p), TokenTree::Punct(a), TokenTree::Punct(b), TokenTree::Group(t), rest @ ..]
        if a.as_char() == '=' && b.as_char() == '>' && rest.len() <= 1 =>
      {
        (p.stream(), t.stream())
      },
      _ => return Err(format!("expected one macro rule: {text}")),
    };
    let (frags, variadic) = fragments(pat).map_err(|e| format!("{e}: {text}"))?;
    Ok(Gen::Macro { frags, variadic, body })
  } else {
    // `attrs pub unsafe extern "C" fn name(args) -> ret { body }`
    let Some(TokenTree::Group(body)) = toks.last() else { return Err(format!("neither a function nor a macro: {text}")) };
    if body.delimiter() != Delimiter::Brace {
      return Err(format!("neither a function nor a macro: {text}"));
    }
    let mut head: TokenStream = toks[..toks.len() - 1].iter().cloned().collect();
    head.extend([TokenTree::Group(Group::new(Delimiter::Brace, TokenStream::new()))]);
    let f: syn::ItemFn = syn::parse2(head).map_err(|e| format!("not a function ({e}): {text}"))?;
    if f.sig.ident != name {
      return Err(format!("the function is not named {name}: {text}"));
    }
    Ok(Gen::Func { sig: Box::new(f.sig), body: body.stream() })
  }
}

/// `$a:expr, $b:ty, $($__VA_ARGS__:expr),*`
fn fragments(pat: TokenStream) -> Result<(Vec<(String, String)>, bool), String> {
  let t: Vec<TokenTree> = pat.into_iter().collect();
  let mut out = vec![];
  let mut variadic = false;
  let mut i = 0;
  let is = |t: Option<&TokenTree>, c: char| matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c);
  while i < t.len() {
    if variadic {
      return Err("something follows the variadic part of the pattern".into());
    }
    // A separator inside of an optional group belongs to the variadic part: `$(, $($v:expr),*)?`
    if !is(t.get(i), '$') {
      return Err(format!("unexpected {:?} in the macro pattern", t[i].to_string()));
    }
    match (t.get(i + 1), t.get(i + 2), t.get(i + 3)) {
      (Some(TokenTree::Ident(n)), Some(TokenTree::Punct(c)), Some(TokenTree::Ident(k))) if c.as_char() == ':' => {
        out.push((n.to_string(), k.to_string()));
        i += 4;
        if is(t.get(i), ',') {
          i += 1;
          if i == t.len() {
            return Err("trailing comma in the macro pattern".into());
          }
        } else if i < t.len() && !is(t.get(i), '$') {
          return Err("missing comma in the macro pattern".into());
        } else if i < t.len() && !matches!(t.get(i + 1), Some(TokenTree::Group(_))) {
          return Err("missing comma in the macro pattern".into());
        }
      },
      (Some(TokenTree::Group(_)), ..) => {
        variadic = true;
        let rest: String = t[i..].iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
        let flat: String = rest.chars().filter(|c| !c.is_whitespace()).collect();
        const OK: &[&str] = &["$($__VA_ARGS__:expr),*", "$($__VA_ARGS__:tt)*", "$($__VA_ARGS__:expr),*$(,)?", "$(,$__VA_ARGS__:expr)*", "$(,$($__VA_ARGS__:expr),*)?"];
        if !OK.contains(&flat.as_str()) {
          return Err(format!("unexpected variadic pattern {rest}"));
        }
        out.push(("...".into(), flat));
        i = t.len();
      },
      _ => return Err("unexpected macro pattern".into()),
    }
  }
  Ok((out, variadic))
}

/// Replace `$x` by `ARG_x` and `$($__VA_ARGS__),*` by `VA_ARGS`.
pub fn substitute(ts: TokenStream) -> TokenStream {
  let t: Vec<TokenTree> = ts.into_iter().collect();
  let mut out: Vec<TokenTree> = vec![];
  let mut i = 0;
  let is = |t: Option<&TokenTree>, c: char| matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c);
  while i < t.len() {
    if is(t.get(i), '$') {
      match t.get(i + 1) {
        Some(TokenTree::Ident(n)) => {
          let n = n.to_string();
          out.push(TokenTree::Ident(Ident::new(&format!("ARG_{}", n.trim_start_matches("r#")), Span::call_site())));
          i += 2;
          continue;
        },
        Some(TokenTree::Group(g)) => {
          let flat: String = g.stream().to_string().chars().filter(|c| !c.is_whitespace()).collect();
          if flat == "$__VA_ARGS__" && is(t.get(i + 2), ',') && is(t.get(i + 3), '*') {
            out.push(TokenTree::Ident(Ident::new("VA_ARGS", Span::call_site())));
            i += 4;
            continue;
          }
        },
        _ => {},
      }
    }
    match &t[i] {
      TokenTree::Group(g) => out.push(TokenTree::Group(Group::new(g.delimiter(), substitute(g.stream())))),
      x => out.push(x.clone()),
    }
    i += 1;
  }
  out.into_iter().collect()
}

/// Read code as the statements of a block.
pub fn stmts(ts: TokenStream) -> Result<Vec<syn::Stmt>, String> {
  let text = ts.to_string();
  syn::Block::parse_within.parse2(ts).map_err(|e| format!("not statements ({e}): {text}"))
}
/// Read code as one expression.
pub fn expr(ts: TokenStream) -> Result<syn::Expr, String> {
  let text = ts.to_string();
  syn::parse2(ts).map_err(|e| format!("not an expression ({e}): {text}"))
}
