//! Macros of the stand-ins: command lines whose values the harness supplies, `main` as an ordinary async function, and
//! output as a list of values instead of text.
use proc_macro::TokenStream;
use quote::quote;
use syn::*;

fn is_subcommand(f: &Field) -> bool {
    f.attrs.iter().any(|a| (a.path().is_ident("command") || a.path().is_ident("clap")) && quote!(#a).to_string().contains("subcommand"))
}
/// What `#[arg(..)]` says: the option's names, where else it may come from, and its default.
fn value(f: &Field) -> proc_macro2::TokenStream {
    let n = f.ident.as_ref().map(|i| i.to_string()).unwrap_or_default();
    let kebab = n.replace('_', "-");
    let (mut longs, mut short, mut env) = (vec![], quote!(None), quote!(None));
    let mut default = quote!(None);
    for a in &f.attrs {
        if !(a.path().is_ident("arg") || a.path().is_ident("clap")) {
            continue;
        }
        let _ = a.parse_nested_meta(|m| {
            let what = m.path.get_ident().map(|i| i.to_string()).unwrap_or_default();
            if m.input.peek(Token![=]) {
                let v: Expr = m.value()?.parse()?;
                match what.as_str() {
                    "long" | "alias" | "visible_alias" => longs.push(quote!(#v)),
                    "short" => short = quote!(Some(#v)),
                    "env" => env = quote!(Some(#v)),
                    "default_value" | "default_value_t" => default = quote!(Some(::std::string::ToString::to_string(&(#v)))),
                    _ => {}
                }
            } else if m.input.peek(token::Paren) {
                let c;
                parenthesized!(c in m.input);
                let _: proc_macro2::TokenStream = c.parse()?;
            } else {
                match what.as_str() {
                    "long" => longs.push(quote!(#kebab)),
                    "short" => {
                        let c = n.chars().next().unwrap_or('_');
                        short = quote!(Some(#c))
                    }
                    "env" => {
                        let e = n.to_uppercase();
                        env = quote!(Some(#e))
                    }
                    _ => {}
                }
            }
            Ok(())
        });
    }
    if longs.is_empty() && short.to_string() == "None" {
        // positional: the harness gives it by its name
        longs.push(quote!(#kebab));
    }
    quote!(::clap::Value::value(&::clap::Opt { longs: &[#(#longs),*], short: #short, env: #env }, #default))
}
fn fields(fs: &Fields) -> proc_macro2::TokenStream {
    match fs {
        Fields::Named(n) => {
            let i = n.named.iter().map(|f| f.ident.clone().unwrap());
            let v = n.named.iter().map(value);
            quote!({ #(#i: #v),* })
        }
        Fields::Unnamed(u) => {
            let v = u.unnamed.iter().map(value);
            quote!(( #(#v),* ))
        }
        Fields::Unit => quote!(),
    }
}
fn derive(input: TokenStream) -> TokenStream {
    let d: DeriveInput = parse(input).unwrap();
    let name = &d.ident;
    let make = match &d.data {
        Data::Struct(s) => {
            let _ = s.fields.iter().map(is_subcommand).count();
            let f = fields(&s.fields);
            quote!(#name #f)
        }
        Data::Enum(e) => {
            let names: Vec<String> = e.variants.iter().map(|v| v.ident.to_string()).collect();
            let arms = e.variants.iter().enumerate().map(|(i, v)| {
                let (id, f) = (&v.ident, fields(&v.fields));
                quote!(#i => #name::#id #f)
            });
            quote!(match ::clap::command(&[#(#names),*]) { #(#arms,)* _ => ::std::process::abort() })
        }
        _ => panic!(),
    };
    quote! {
        impl ::clap::Value for #name {
            fn value(_: &::clap::Opt, _: Option<String>) -> Self { #make }
        }
        impl ::clap::Parser for #name {}
    }
    .into()
}
#[proc_macro_derive(Parser, attributes(arg, command, clap))]
pub fn parser(i: TokenStream) -> TokenStream {
    derive(i)
}
#[proc_macro_derive(Args, attributes(arg, command, clap))]
pub fn args(i: TokenStream) -> TokenStream {
    derive(i)
}
#[proc_macro_derive(Subcommand, attributes(arg, command, clap))]
pub fn subcommand(i: TokenStream) -> TokenStream {
    derive(i)
}
#[proc_macro_attribute]
pub fn main(_: TokenStream, i: TokenStream) -> TokenStream {
    let mut f: ItemFn = parse(i).unwrap();
    f.vis = parse_quote!(pub);
    quote!(#f).into()
}
struct Say {
    text: LitStr,
    args: Vec<Expr>,
}
impl parse::Parse for Say {
    fn parse(i: parse::ParseStream) -> Result<Self> {
        if i.is_empty() {
            return Ok(Say { text: LitStr::new("", proc_macro2::Span::call_site()), args: vec![] });
        }
        let text: LitStr = i.parse()?;
        let mut args = vec![];
        while i.peek(Token![,]) {
            i.parse::<Token![,]>()?;
            if i.is_empty() {
                break;
            }
            if i.peek(Ident) && i.peek2(Token![=]) && !i.peek2(Token![==]) {
                i.parse::<Ident>()?;
                i.parse::<Token![=]>()?;
            }
            args.push(i.parse()?);
        }
        Ok(Say { text, args })
    }
}
/// println!'s arguments, those captured in the text included, as one list of values.
#[proc_macro]
pub fn say(i: TokenStream) -> TokenStream {
    let s: Say = parse(i).unwrap();
    let mut args = s.args;
    let t = s.text.value().replace("{{", "").replace("}}", "");
    for p in t.split('{').skip(1) {
        let n = p.split(|c| c == '}' || c == ':').next().unwrap().trim();
        if n.starts_with(|c: char| c.is_alphabetic() || c == '_') {
            let id = Ident::new(n, s.text.span());
            args.push(parse_quote!(#id));
        }
    }
    quote! {{
        use ::clap::say::{SayAny as _, SayValue as _};
        ::clap::say::line(vec![#((&::clap::say::Say(&(#args))).say()),*]);
    }}
    .into()
}
