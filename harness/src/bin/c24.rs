use std::str::FromStr;

use tailcall::core::config::{Source, SourceError};
use tailcall_prettier::Parser;
use tcv::{near, same, Audit, Rng};

fn ext(r: &mut Rng) -> String {
    let s = r.pick(&["json", "yml", "yaml", "graphql", "gql", "md", "ts", "js", "", "txt", "graphqls", "jsonc", "ym", "tsx", "mjs", "proto", "k", "json ", "toml"]).to_string();
    match r.below(4) {
        0 => near(r, &s),
        1 => s.chars().map(|c| if r.flip() { c.to_ascii_uppercase() } else { c }).collect(),
        _ => s,
    }
}
fn dir(r: &mut Rng) -> String {
    r.pick(&["", "", "/", "a/", "./", "../", "a.json/", "/a.gql/b/", "a b/", "x.yml/./", "é/"]).to_string()
}
fn stem(r: &mut Rng) -> String {
    r.pick(&["a", "config", "", ".", "..", "a.json", "a.gql.", "schema.test", ".a", "x..", "é", "json"]).to_string()
}
// the format an extension names
fn format(e: &str) -> Option<&'static str> {
    let l: String = e.chars().flat_map(|c| c.to_lowercase()).collect();
    [("json", "Json"), ("yml", "Yml"), ("yaml", "Yml"), ("graphql", "GraphQL"), ("gql", "GraphQL")].iter().find(|f| f.0 == l).map(|f| f.1)
}
fn parser(e: &str) -> Option<&'static str> {
    let l: String = e.chars().flat_map(|c| c.to_lowercase()).collect();
    match format(e) {
        Some("GraphQL") => Some("Gql"),
        Some(f) => Some(f),
        None => [("md", "Md"), ("ts", "Ts"), ("js", "Js")].iter().find(|f| f.0 == l).map(|f| f.1),
    }
}
// the extension of the last part of a path
fn extension(p: &str) -> Option<String> {
    let last = p.split('/').filter(|c| !c.is_empty() && *c != ".").last()?;
    if last == ".." {
        return None;
    }
    let chars: Vec<char> = last.chars().collect();
    let i = chars.iter().rposition(|c| *c == '.')?;
    if i == 0 {
        None
    } else {
        Some(chars[i + 1..].iter().collect())
    }
}
fn read(e: &str) -> String {
    match format(e) {
        Some(f) => format!("Ok({f})"),
        None => format!("{:?}", Err::<(), _>(SourceError::UnsupportedFileFormat(e.to_string()))),
    }
}

fn main() {
    let mut a = Audit::start("file names with every extension in any case and near misses; nontrivial: a known format");
    let (mut r, n) = (Rng::new(a.rng.u64()), a.iters);
    for s in [Source::Json, Source::Yml, Source::GraphQL] {
        a.case("every format's own extension", true, || format!("{s:?}"), || {
            same("reads back", format!("{:?}", Source::from_str(s.ext())), format!("Ok({s:?})"))?;
            same("in a file", format!("{:?}", Source::detect(&format!("a.{}", s.ext()))), format!("Ok({s:?})"))?;
            same("its name", format!("{:?}", Source::from_str(&s.to_string())), format!("Ok({s:?})"))
        });
    }
    for _ in 0..n {
        let e = ext(&mut r);
        a.case("an extension", format(&e).is_some(), || format!("{e:?}"), || {
            let got = Source::from_str(&e);
            if let Err(x) = &got {
                same("the message", x.to_string(), format!("Unsupported config extension: {e}"))?;
            }
            same("format", format!("{got:?}"), read(&e))
        });
        let path = match r.below(4) {
            0 => dir(&mut r) + &e,
            1 => dir(&mut r) + &stem(&mut r),
            _ => dir(&mut r) + &stem(&mut r) + "." + &e,
        };
        let want = match extension(&path) {
            Some(e) => read(&e),
            None => format!("{:?}", Err::<(), _>(SourceError::InvalidPath(path.clone()))),
        };
        a.case("a file's format", want.starts_with("Ok"), || format!("{path:?}"), || same("format", format!("{:?}", Source::detect(&path)), want.clone()));
        let chars: Vec<char> = path.chars().collect();
        let from = chars.iter().rposition(|c| *c == '.').map(|i| i + 1).unwrap_or(0);
        let want = parser(&chars[from..].iter().collect::<String>());
        a.case("what the formatter is told", want.is_some(), || format!("{path:?}"), || {
            let got = Parser::detect(&path).map(|p| p.to_string()).map_err(|e| e.to_string());
            same("parser", got, want.map(|w| w.to_string()).ok_or("Unsupported file type".to_string()))
        });
    }
    a.finish();
}
