//! Stand-in for malvolio at the revision puck_liveview asks for (a git dependency that this sandbox
//! does not have): the same types and builder methods as far as puck_liveview and examples/chat use
//! them.  Nothing is sanitised.
use std::borrow::Cow;
use std::collections::HashMap;

type Str = Cow<'static, str>;

pub trait IntoAttribute {
    fn into_attribute(self) -> (Str, Str);
}

macro_rules! tag {
    ($($t:ident $fields:ident $lower:ident;)*) => {$(
        #[derive(Default, Debug, Clone)]
        pub struct $t {
            attrs: HashMap<Str, Str>,
            text: Str,
            children: Vec<BodyNode>,
        }
        #[derive(Default, Debug, Clone)]
        pub struct $fields {
            pub attrs: HashMap<Str, Str>,
            pub text: Str,
            pub children: Vec<BodyNode>,
        }
        impl $t {
            pub fn into_pub_fields(self) -> $fields {
                $fields { attrs: self.attrs, text: self.text, children: self.children }
            }
            pub fn attribute(mut self, a: impl IntoAttribute) -> Self {
                let (k, v) = a.into_attribute();
                self.attrs.insert(k, v);
                self
            }
            pub fn raw_attribute(mut self, k: impl Into<Str>, v: impl Into<Str>) -> Self {
                self.attrs.insert(k.into(), v.into());
                self
            }
            pub fn read_attribute(&self, k: &str) -> Option<&Str> {
                self.attrs.get(k)
            }
            pub fn map(self, f: impl FnOnce(Self) -> Self) -> Self {
                f(self)
            }
        }
        impl From<$t> for BodyNode {
            fn from(t: $t) -> BodyNode { BodyNode::$t(t) }
        }
        pub fn $lower() -> $t { $t::default() }
    )*
        #[derive(Debug, Clone)]
        pub enum BodyNode { $($t($t),)* Text(Text) }
    };
}
tag! {
    H1 H1Fields h1; H2 H2Fields h2; H3 H3Fields h3; H4 H4Fields h4; H5 H5Fields h5; H6 H6Fields h6;
    P PFields p; Form FormFields form; Br BrFields br; Div DivFields div; A AFields a;
    Input InputFields input; Label LabelFields label; Select SelectFields select;
    NoScript NoScriptFields noscript; Img ImgFields img;
}

#[derive(Default, Debug, Clone)]
pub struct Text(pub Str);
impl From<Text> for BodyNode {
    fn from(t: Text) -> BodyNode {
        BodyNode::Text(t)
    }
}

macro_rules! empty_new {
    ($($t:ident)*) => {$(impl $t { pub fn new() -> Self { Self::default() } })*};
}
empty_new!(Form Br Div A Input Select Img);

macro_rules! text_new {
    ($($t:ident)*) => {$(
        impl $t {
            pub fn new(text: impl Into<Str>) -> Self { Self { text: text.into(), ..Default::default() } }
            pub fn text(mut self, text: impl Into<Str>) -> Self { self.text = text.into(); self }
        }
    )*};
}
text_new!(H1 H2 H3 H4 H5 H6 P Label NoScript);
impl A {
    pub fn text(mut self, text: impl Into<Str>) -> Self {
        self.text = text.into();
        self
    }
}

macro_rules! attr {
    ($($t:ident $name:literal;)*) => {$(
        #[derive(Debug, Clone)]
        pub struct $t(Str);
        impl $t { pub fn new(v: impl Into<Str>) -> Self { $t(v.into()) } }
        impl IntoAttribute for $t { fn into_attribute(self) -> (Str, Str) { ($name.into(), self.0) } }
    )*};
}
attr! {
    Href "href"; Action "action"; Src "src"; Alt "alt"; Name "name"; Placeholder "placeholder";
    Value "value"; Class "class"; Id "id"; Style "style"; For "for";
}

#[derive(Debug, Clone, Copy)]
pub enum Method {
    Post,
    Get,
}
impl IntoAttribute for Method {
    fn into_attribute(self) -> (Str, Str) {
        ("method".into(), match self { Method::Post => "post", Method::Get => "get" }.into())
    }
}

#[derive(Debug, Clone, Copy)]
pub enum Type {
    Button, Checkbox, Color, Date, DateTimeLocal, Email, File, Hidden, Image, Month, Number,
    Password, Radio, Range, Reset, Search, Submit, Tel, Text, Time, Url, Week,
}
impl IntoAttribute for Type {
    fn into_attribute(self) -> (Str, Str) {
        let v = match self {
            Type::DateTimeLocal => "datetime-local".to_string(),
            t => format!("{:?}", t).to_lowercase(),
        };
        ("type".into(), v.into())
    }
}

pub mod prelude {
    pub use crate::{
        a, br, div, form, h1, h2, h3, h4, h5, h6, img, input, label, noscript, p, select, Action,
        Alt, BodyNode, Br, Class, Div, Form, Href, Id, Img, Input, Label, Method, Name, NoScript,
        Placeholder, Select, Src, Style, Text, Type, Value, A, H1, H2, H3, H4, H5, H6, P,
    };
}
