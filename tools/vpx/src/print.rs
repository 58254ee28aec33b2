//! Token printer: one statement per line, so that verifier messages carry useful lines.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::ToTokens;

pub fn p<T: ToTokens>(t: &T) -> String {
    let mut s = String::new();
    emit(t.to_token_stream(), &mut s, true);
    s.trim().to_string()
}
pub fn p1<T: ToTokens>(t: &T) -> String {
    let mut s = String::new();
    emit(t.to_token_stream(), &mut s, false);
    s.trim().to_string()
}

fn emit(ts: TokenStream, s: &mut String, nl: bool) {
    let mut glue = false;
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                if !glue && a != "(" && a != "[" {
                    sp(s);
                }
                s.push_str(a);
                if g.delimiter() == Delimiter::Brace && nl {
                    s.push('\n');
                }
                emit(g.stream(), s, nl);
                if s.ends_with(' ') {
                    s.pop();
                }
                s.push_str(b);
                if g.delimiter() == Delimiter::Brace && nl {
                    s.push('\n');
                }
                glue = false;
            }
            TokenTree::Punct(p) => {
                let c = p.as_char();
                if !glue && !matches!(c, ',' | ';' | '.' | '?' | ':') {
                    sp(s);
                }
                s.push(c);
                glue = p.spacing() == Spacing::Joint || c == '\'';
                if c == '.' || (c == '&' && p.spacing() == Spacing::Alone) || c == '!' && false {
                    glue = true;
                }
                if c == ':' && s.ends_with("::") {
                    glue = true;
                }
                if c == ';' && nl {
                    s.push('\n');
                }
            }
            TokenTree::Ident(i) => {
                if !glue {
                    sp(s);
                }
                s.push_str(&i.to_string());
                glue = false;
            }
            TokenTree::Literal(l) => {
                if !glue {
                    sp(s);
                }
                s.push_str(&l.to_string());
                glue = false;
            }
        }
    }
}
fn sp(s: &mut String) {
    if let Some(c) = s.chars().last() {
        if !matches!(c, ' ' | '\n' | '(' | '[') {
            s.push(' ');
        }
    }
}
