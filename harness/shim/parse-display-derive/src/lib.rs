use proc_macro::{Delimiter, TokenStream, TokenTree};
#[derive(Default, Debug)]
struct Item {
    name: String,
    attr: Option<String>,
    style: Option<String>,
    is_struct: bool,
    fields: Vec<(String, String)>,                       // struct: name, type
    variants: Vec<(String, Option<String>, Option<String>)>, // name, fmt, payload type
}
fn unq(s: String) -> String {
    s.trim_matches('"').to_string()
}
fn attr(g: TokenStream) -> (Option<String>, Option<String>) {
    // display("..") or display(style = "..")
    let v: Vec<_> = g.into_iter().collect();
    if v.first().map(|t| t.to_string()) != Some("display".into()) {
        return (None, None);
    }
    if let Some(TokenTree::Group(g)) = v.get(1) {
        let a: Vec<_> = g.stream().into_iter().map(|t| t.to_string()).collect();
        if a.first().map(|s| s.as_str()) == Some("style") {
            return (None, Some(unq(a[2].clone())));
        }
        return (Some(unq(a[0].clone())), None);
    }
    (None, None)
}
fn parse(ts: TokenStream) -> Item {
    let mut it = Item::default();
    let mut pend: (Option<String>, Option<String>) = (None, None);
    let mut i = ts.into_iter().peekable();
    while let Some(t) = i.next() {
        match t {
            TokenTree::Punct(p) if p.as_char() == '#' => {
                if let Some(TokenTree::Group(g)) = i.next() {
                    let a = attr(g.stream());
                    if a.0.is_some() {
                        pend.0 = a.0
                    }
                    if a.1.is_some() {
                        pend.1 = a.1
                    }
                }
            }
            TokenTree::Ident(id) if id.to_string() == "enum" || id.to_string() == "struct" => {
                it.is_struct = id.to_string() == "struct";
                it.attr = pend.0.take();
                it.style = pend.1.take();
                it.name = i.next().unwrap().to_string();
                let body = loop {
                    match i.next() {
                        Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Brace => break g,
                        Some(_) => continue,
                        None => panic!("no body"),
                    }
                };
                let mut b = body.stream().into_iter().peekable();
                let mut fmt = None;
                while let Some(t) = b.next() {
                    match t {
                        TokenTree::Punct(p) if p.as_char() == '#' => {
                            if let Some(TokenTree::Group(g)) = b.next() {
                                if let (Some(a), _) = attr(g.stream()) {
                                    fmt = Some(a)
                                }
                            }
                        }
                        TokenTree::Ident(id) if id.to_string() == "pub" => {}
                        TokenTree::Ident(id) => {
                            if it.is_struct {
                                b.next(); // ':'
                                let mut ty = String::new();
                                for t in b.by_ref() {
                                    if t.to_string() == "," {
                                        break;
                                    }
                                    ty += &t.to_string();
                                    ty += " ";
                                }
                                it.fields.push((id.to_string(), ty));
                            } else {
                                let mut payload = None;
                                for t in b.by_ref() {
                                    match t {
                                        TokenTree::Group(g) => payload = Some(g.stream().to_string()),
                                        TokenTree::Punct(p) if p.as_char() == ',' => break,
                                        _ => {}
                                    }
                                }
                                it.variants.push((id.to_string(), fmt.take(), payload));
                            }
                        }
                        _ => {}
                    }
                }
            }
            _ => {}
        }
    }
    it
}
fn styled(name: &str, style: &Option<String>) -> String {
    match style.as_deref() {
        Some("lowercase") => name.to_lowercase(),
        Some("kebab-case") | Some("snake_case") => {
            let sep = if style.as_deref() == Some("snake_case") { '_' } else { '-' };
            let mut o = String::new();
            for (i, c) in name.chars().enumerate() {
                if c.is_uppercase() && i > 0 {
                    o.push(sep)
                }
                o.extend(c.to_lowercase());
            }
            o
        }
        None => name.to_string(),
        Some(o) => panic!("style {o}"),
    }
}
#[proc_macro_derive(Display, attributes(display))]
pub fn display(ts: TokenStream) -> TokenStream {
    let it = parse(ts);
    let mut body = String::new();
    if it.is_struct {
        let f = it.attr.clone().expect("struct needs display attr");
        let args: String = it.fields.iter().map(|(n, _)| format!(", {n} = self.{n}")).collect();
        body = format!("write!(f, \"{f}\"{args})");
    } else {
        body += "match self {";
        for (n, f, p) in &it.variants {
            let f = f.clone().unwrap_or_else(|| styled(n, &it.style));
            if p.is_some() {
                body += &format!("Self::{n}(x) => write!(f, \"{f}\", x),");
            } else {
                body += &format!("Self::{n} => f.pad(\"{f}\"),");
            }
        }
        body += "}";
    }
    format!(
        "impl ::std::fmt::Display for {} {{ fn fmt(&self, f:&mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {{ {body} }} }}",
        it.name
    )
    .parse()
    .unwrap()
}
#[proc_macro_derive(FromStr, attributes(display))]
pub fn from_str(ts: TokenStream) -> TokenStream {
    let it = parse(ts);
    let mut body = String::new();
    if it.is_struct {
        // only "{a}SEP{b}"
        let f = it.attr.clone().unwrap();
        let sep = f.split('}').nth(1).unwrap().split('{').next().unwrap().to_string();
        let (a, b) = (&it.fields[0], &it.fields[1]);
        body = format!(
            "let (x,y) = s.split_once(\"{sep}\").ok_or_else(::parse_display::ParseError::new)?;
             Ok(Self{{ {}: x.parse::<{}>().map_err(|_|::parse_display::ParseError::new())?, {}: y.parse::<{}>().map_err(|_|::parse_display::ParseError::new())? }})",
            a.0, a.1, b.0, b.1
        );
    } else {
        for (n, f, p) in &it.variants {
            let f = f.clone().unwrap_or_else(|| styled(n, &it.style));
            match p {
                None => body += &format!("if s == \"{f}\" {{ return Ok(Self::{n}); }}"),
                Some(t) => {
                    assert_eq!(f, "{0}");
                    body += &format!("if let Ok(x) = s.parse::<{t}>() {{ return Ok(Self::{n}(x)); }}")
                }
            }
        }
        body += "Err(::parse_display::ParseError::new())";
    }
    format!(
        "impl ::std::str::FromStr for {} {{ type Err = ::parse_display::ParseError; fn from_str(s:&str) -> ::std::result::Result<Self,Self::Err> {{ {body} }} }}",
        it.name
    )
    .parse()
    .unwrap()
}
