//! Stand-in for derive_builder (not available offline): a builder with one setter per field.
use proc_macro::{Delimiter, TokenStream, TokenTree};

#[proc_macro_derive(Builder, attributes(builder))]
pub fn builder(input: TokenStream) -> TokenStream {
    let mut it = input.into_iter().peekable();
    let mut name = None;
    let mut body = None;
    while let Some(t) = it.next() {
        match &t {
            TokenTree::Ident(i) if i.to_string() == "struct" => {
                if let Some(TokenTree::Ident(n)) = it.next() {
                    name = Some(n.to_string());
                }
            }
            TokenTree::Group(g) if name.is_some() && g.delimiter() == Delimiter::Brace => body = Some(g.stream()),
            _ => {}
        }
    }
    let name = name.expect("struct name");
    // fields: (name, type, setter takes Into)
    let mut fields: Vec<(String, String, bool)> = vec![];
    let mut it = body.expect("struct body").into_iter().peekable();
    let mut into = false;
    while let Some(t) = it.next() {
        match t {
            TokenTree::Punct(p) if p.as_char() == '#' => {
                if let Some(TokenTree::Group(g)) = it.next() {
                    into |= g.stream().to_string().replace(' ', "").contains("builder(setter(into");
                }
            }
            TokenTree::Ident(i) if i.to_string() == "pub" => {
                if let Some(TokenTree::Group(_)) = it.peek() {
                    it.next();
                }
            }
            TokenTree::Ident(i) => {
                it.next(); // the colon
                let mut ty = TokenStream::new();
                let mut depth = 0;
                while let Some(t) = it.next() {
                    if let TokenTree::Punct(p) = &t {
                        match p.as_char() {
                            '<' => depth += 1,
                            '>' => depth -= 1,
                            ',' if depth == 0 => break,
                            _ => {}
                        }
                    }
                    ty.extend([t]);
                }
                fields.push((i.to_string(), ty.to_string(), into));
                into = false;
            }
            _ => {}
        }
    }
    let mut s = format!("#[derive(Clone, Default)] pub struct {name}Builder {{");
    for (f, t, _) in &fields {
        s += &format!("{f}: ::std::option::Option<{t}>,");
    }
    s += &format!("}} #[derive(Debug)] pub enum {name}BuilderError {{ UninitializedField(&'static str) }} impl {name}Builder {{");
    for (f, t, into) in &fields {
        if *into {
            s += &format!("pub fn {f}<VALUE: ::std::convert::Into<{t}>>(&mut self, value: VALUE) -> &mut Self {{ self.{f} = Some(value.into()); self }}");
        } else {
            s += &format!("pub fn {f}(&mut self, value: {t}) -> &mut Self {{ self.{f} = Some(value); self }}");
        }
    }
    s += &format!("pub fn build(&self) -> ::std::result::Result<{name}, {name}BuilderError> {{ Ok({name} {{");
    for (f, _, _) in &fields {
        s += &format!("{f}: match &self.{f} {{ Some(v) => v.clone(), None => return Err({name}BuilderError::UninitializedField(\"{f}\")) }},");
    }
    s += "}) } }";
    s.parse().unwrap()
}
