//! Is generated code valid Rust where it is meant to be used?

use crate::gen;
use proc_macro2::TokenStream;
use syn::parse::Parser;
use syn::visit::Visit;

/// Macro calls inside of the code: their arguments have to be what the macro takes.
struct Calls(Result<(), String>);
impl<'a> Visit<'a> for Calls {
  fn visit_macro(&mut self, m: &'a syn::Macro) {
    let name = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
    let list = |m: &syn::Macro| {
      syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated.parse2(m.tokens.clone()).map_err(|e| format!("{name}!: {e}"))
    };
    let r: Result<(), String> = match name.as_str() {
      "addr_of_mut" | "addr_of" => match syn::parse2::<syn::Expr>(m.tokens.clone()) {
        Ok(e) => {
          self.visit_expr(&e);
          Ok(())
        },
        Err(e) => Err(format!("{name}!: {e}")),
      },
      "concat" | "line" | "file" | "stringify" | "concat_idents" | "offset_of" | "offsetof" => {
        if name == "concat" {
          list(m).map(|l| l.iter().for_each(|e| self.visit_expr(e)))
        } else if name == "concat_idents" {
          list(m).and_then(|l| {
            if l.iter().all(|e| matches!(e, syn::Expr::Path(p) if p.path.get_ident().is_some())) {
              Ok(())
            } else {
              Err(format!("concat_idents! of something else than identifiers: {}", m.tokens))
            }
          })
        } else {
          Ok(())
        }
      },
      _ => Ok(()),
    };
    if self.0.is_ok() {
      if let Err(e) = r {
        self.0 = Err(e);
      }
    }
  }
}

fn calls(f: impl FnOnce(&mut Calls), text: &str) -> Result<(), String> {
  let mut c = Calls(Ok(()));
  f(&mut c);
  c.0.map_err(|e| format!("not valid Rust ({e}): {text}"))
}

pub fn var(e: TokenStream, ty: Option<TokenStream>) -> Result<(), String> {
  let text = e.to_string();
  let e = gen::expr(e)?;
  calls(|c| c.visit_expr(&e), &text)?;
  if let Some(ty) = ty {
    let text = ty.to_string();
    syn::parse2::<syn::Type>(ty).map_err(|e| format!("not a type ({e}): {text}"))?;
  }
  Ok(())
}

/// The body of a macro has to be good as statements; unless it holds statements, also as an expression.
pub fn items(name: &str, ts: TokenStream) -> Result<(), String> {
  let text = ts.to_string();
  match gen::split(&ident(name), ts.clone())? {
    gen::Gen::Macro { body, .. } => {
      let b = gen::substitute(body);
      let s = gen::stmts(b)?;
      calls(|c| s.iter().for_each(|s| c.visit_stmt(s)), &text)
    },
    gen::Gen::Func { .. } => {
      let f: syn::ItemFn = syn::parse2(ts).map_err(|e| format!("not a function ({e}): {text}"))?;
      calls(|c| c.visit_item_fn(&f), &text)
    },
    _ => unreachable!(),
  }
}

fn ident(n: &str) -> String {
  n.to_string()
}
