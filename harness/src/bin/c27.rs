use http::header::HeaderName;
use serde_json::{json, Value};
use tailcall::core::config::KeyValue;
use tailcall::core::helpers::gql_type::{detect_gql_data_type, is_primitive, is_valid_field_name, to_gql_type};
use tailcall::core::helpers::headers::to_mustache_headers;
use tailcall::core::helpers::url::to_url;
use tailcall::core::http::Method;
use tailcall::core::mustache::Mustache;
use tailcall_valid::{Valid, Validator};
use tcv::{same, Audit, Rng};

// the letters of a header's name (RFC 9110: token)
fn token(s: &str) -> bool {
    !s.is_empty() && s.chars().all(|c| c.is_ascii_alphanumeric() || "!#$%&'*+-.^_`|~".contains(c))
}
fn key(r: &mut Rng) -> String {
    r.pick(&["a", "A", "X-Id", "x-id", "content-type", "", " ", "a b", "a:", "é", "a\n", "x_y", "a.b", "{{a}}", "x-a\t", "!#$", "(a)", "/"]).to_string()
}
fn val(r: &mut Rng) -> String {
    r.pick(&["", "a", "{{.value.id}}", "Bearer {{.headers.a}} b", "{{", "}}", "{{}}", "{{ .env.A }}{{.vars.b}}", "é", "a\nb", "{{.a}}x{{.b.c}}", "{{a}} {{.b}}"]).to_string()
}
fn number(r: &mut Rng) -> (String, &'static str) {
    match r.below(9) {
        0 => (r.pick(&["0", "1", "-1", "+7", "42", "2147483647", "-2147483648", "007"]).to_string(), "Int"),
        1 => (r.pick(&["2147483648", "-2147483649", "99999999999999", "1.5", "-0.1", ".5", "5.", "1e3", "1E-3", "+1.0"]).to_string(), "Float"),
        2 => (r.pick(&["true", "false"]).to_string(), "Boolean"),
        3 => (r.pick(&["True", "FALSE", "yes", "t", "true false", "truе"]).to_string(), "String"),
        4 => (r.pick(&["", "a", "1a", "1 2", "0x1", "1_000", "--1", "1.2.3", "one", "é", "1;2", "e", "."]).to_string(), "String"),
        5 => ((r.u64() as i32).to_string(), "Int"),
        6 => (format!("{}.{}", r.u64() as i16, r.below(1000)), "Float"),
        7 => (((r.u64() >> 8) as i64 + (1 << 31)).to_string(), "Float"),
        _ => (r.pick(&["null", "abc", "id", "-", "+", "a.b"]).to_string(), "String"),
    }
}
fn blanks(r: &mut Rng) -> &'static str {
    *r.pick(&["", "", " ", "  ", "\t", "\n"])
}

fn main() {
    let mut a = Audit::start("headers with good and bad names, values of every type, alone and in lists; nontrivial: at least one header, a list");
    let (mut r, n) = (Rng::new(a.rng.u64()), a.iters);
    for (m, t) in [
        (Method::GET, "GET"),
        (Method::POST, "POST"),
        (Method::PUT, "PUT"),
        (Method::PATCH, "PATCH"),
        (Method::DELETE, "DELETE"),
        (Method::HEAD, "HEAD"),
        (Method::OPTIONS, "OPTIONS"),
        (Method::CONNECT, "CONNECT"),
        (Method::TRACE, "TRACE"),
    ] {
        a.case("methods", true, || t.to_string(), || {
            same("sent", m.clone().to_hyper().as_str().to_string(), t.to_string())?;
            same("shown", m.to_string(), t.to_string())?;
            same("written", serde_json::to_value(&m).unwrap(), json!(t))?;
            same("read", serde_json::from_value::<Method>(json!(t)).ok(), Some(m.clone()))
        });
    }
    for _ in 0..n {
        let kvs: Vec<KeyValue> = r.vec(5, |r| KeyValue { key: if r.one_in(2) { "x-a".into() } else { key(r) }, value: val(r) });
        a.case("headers", !kvs.is_empty(), || format!("{kvs:?}"), || {
            let bad: Vec<String> = kvs.iter().filter(|k| !token(&k.key)).map(|k| k.key.clone()).collect();
            match to_mustache_headers(&kvs).to_result() {
                Ok(h) => {
                    same("bad names", bad, vec![])?;
                    let want: Vec<_> = kvs.iter().map(|k| (HeaderName::from_bytes(k.key.to_ascii_lowercase().as_bytes()).unwrap(), Mustache::parse(&k.value))).collect();
                    same("headers", h, want)
                }
                Err(e) => {
                    let got: Vec<(String, Vec<String>)> = e.as_vec().iter().map(|c| (c.message.clone(), c.trace.iter().cloned().collect())).collect();
                    let want: Vec<_> = bad.iter().map(|b| ("invalid HTTP header name".to_string(), vec![b.clone()])).collect();
                    same("causes", got, want)
                }
            }
        });
        let u = val(&mut r);
        a.case("url", true, || format!("{u:?}"), || same("template", to_url(&u), Valid::succeed(Mustache::parse(&u))));

        let (s, t) = number(&mut r);
        let (b, c) = (blanks(&mut r), blanks(&mut r));
        let s = format!("{b}{s}{c}");
        a.case("type of a text", true, || format!("{s:?}"), || same("type", detect_gql_data_type(&s), t.to_string()));
        let rest: Vec<String> = (0..1 + r.below(3)).map(|_| number(&mut r).0).collect();
        let l = format!("{}{s},{}{}", blanks(&mut r), rest.join(","), blanks(&mut r));
        a.case("type of a list", true, || format!("{l:?}"), || same("type", detect_gql_data_type(&l), t.to_string()));

        let v = tcv::json::gen(&mut r, 3);
        let (t, p) = match &v {
            Value::Null => ("JSON", true),
            Value::Bool(_) => ("Boolean", true),
            Value::Number(_) => ("Int", true),
            Value::String(_) => ("String", true),
            Value::Array(_) => ("List", false),
            Value::Object(_) => ("Object", false),
        };
        a.case("type of a value", true, || v.to_string(), || {
            same("type", to_gql_type(&v), t.to_string())?;
            same("primitive", is_primitive(&v), p)
        });
        let name: String = r.vec(5, |r| *r.pick(&['a', 'Z', '_', '0', '9', 'z', 'A', ' ', '-', 'é', '\n', '$', '.', 'm', 'k', '5', '\u{212a}', '[', '`', '{', '@', '/', ':', '٣'])).into_iter().collect();
        let ok = name.chars().enumerate().all(|(i, c)| c.is_ascii_alphabetic() || i > 0 && (c.is_ascii_digit() || c == '_')) && !name.is_empty();
        a.case("field name", ok, || format!("{name:?}"), || same("valid", is_valid_field_name(&name), ok));
    }
    a.finish();
}
