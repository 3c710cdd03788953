use serde_json::{json, Value};
use tailcall::core::scalar::Scalar;
use tcv::json::*;
use tcv::{near, same, Audit, Rng};

const NAMES: [&str; 18] = ["Empty", "Email", "PhoneNumber", "Date", "DateTime", "Url", "JSON", "Int8", "Int16", "Int32", "Int64", "Int128", "UInt8", "UInt16", "UInt32", "UInt64", "UInt128", "Bytes"];
const PREDEFINED: [&str; 5] = ["Boolean", "Float", "ID", "Int", "String"];

/// a whole number as text: sign (no minus if unsigned), digits, at most the limit
fn whole(s: &str, below: &str, above: &str) -> bool {
    let (neg, d) = match s.as_bytes().first() {
        Some(b'-') if !below.is_empty() => (true, &s[1..]),
        Some(b'+') => (false, &s[1..]),
        _ => (false, s),
    };
    if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) {
        return false;
    }
    let d = d.trim_start_matches('0');
    let max = if neg { below } else { above };
    d.len() < max.len() || d.len() == max.len() && d <= max
}
fn accepts(name: &str, v: &Value) -> bool {
    let t = v.as_str();
    let signed = |lo: i64, hi: i64| v.as_i64().is_some_and(|n| lo <= n && n <= hi);
    let unsigned = |hi: u64| v.as_u64().is_some_and(|n| n <= hi);
    match name {
        "Empty" | "JSON" => true,
        "Bytes" => t.is_some(),
        "Email" => t.is_some_and(|s| async_graphql::validators::email(&s.to_string()).is_ok()),
        "PhoneNumber" => t.is_some_and(|s| phonenumber::parse(None, s).is_ok()),
        "Date" | "DateTime" => t.is_some_and(|s| chrono::DateTime::parse_from_rfc3339(s).is_ok()),
        "Url" => t.is_some_and(|s| url::Url::parse(s).is_ok()),
        "Int64" => t.is_some_and(|s| whole(s, "9223372036854775808", "9223372036854775807")),
        "UInt64" => t.is_some_and(|s| whole(s, "", "18446744073709551615")),
        "Int128" => t.is_some_and(|s| whole(s, "170141183460469231731687303715884105728", "170141183460469231731687303715884105727")),
        "UInt128" => t.is_some_and(|s| whole(s, "", "340282366920938463463374607431768211455")),
        "Int8" => signed(-128, 127),
        "Int16" => signed(-32768, 32767),
        "Int32" => signed(-2147483648, 2147483647),
        "UInt8" => unsigned(255),
        "UInt16" => unsigned(65535),
        "UInt32" => unsigned(4294967295),
        _ => unreachable!(),
    }
}
const TEXTS: &[&str] = &[
        "a@b.co", "first.last@example.com", "alo@valid.com", "@b.co", "a@b", "a b@c.de", "+911234567890", "+14155552671", "1234567890", "+1", "2023-03-08T12:45:26-05:00", "2023-03-08T12:45:26Z", "2023-03-08 12:45:26Z",
        "2023-03-08", "2023-13-08T12:45:26Z", "2024-02-29T00:00:00.123+00:00", "2023-02-29T00:00:00Z", "https://tailcall.run/", "http://a", "//a", "mailto:a@b.co", "a/b", "localhost:8080", "ftp://[::1]/x?y#z", "http://",
        "", " ", "0", "-0", "+0", "-", "+", "007", "127", "128", "-128", "-129", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616",
        "170141183460469231731687303715884105727", "170141183460469231731687303715884105728", "-170141183460469231731687303715884105728", "-170141183460469231731687303715884105729", "340282366920938463463374607431768211455",
        "340282366920938463463374607431768211456", "1.0", "1e3", "0x10", "1_000", "٣", "null", "true", "\u{0}", "a", "a@b.co ", " a@b.co", "A@B.CO", "a+b@c.de", "a@b@c.de", "+91 12345 67890", "911234567890", "0014155552671", "(415) 555-2671", "+1-415-555-2671", "tel:+14155552671", "2024-02-29T00:00:00", "2024-02-29T24:00:00Z", "2024-02-29t00:00:00z", "2024-02-29T00:00:00+0000", "20240229T000000Z", "12:45:26", "1709164800", "Thu, 29 Feb 2024 00:00:00 GMT", "2024-02-29T00:00Z", "tailcall.run", "data:,x", "file:///etc", "http://a b", "http://[", "urn:x", "1 ", " 1", "1\n", "--1", "+-1", "1u8", "1i64", "1,000", "NaN", "inf", "1.5", "-0.0", "00", "-007", "+9223372036854775807",
];
fn text(r: &mut Rng) -> String {
    let s = r.pick(TEXTS).to_string();
    match r.below(4) {
        0 => near(r, &s),
        1 if s.len() > 2 && s.is_ascii() => {
            // a digit or letter changed
            let i = r.below(s.len());
            let mut b: Vec<u8> = s.bytes().collect();
            b[i] = *r.pick(b"0123456789-+:@./ aZ");
            String::from_utf8(b).unwrap()
        }
        _ => s,
    }
}
fn number(r: &mut Rng) -> Value {
    let edges: [i128; 13] = [0, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483647, 2147483648, 4294967295, 4294967296];
    let far: [i128; 4] = [i64::MAX as i128, u64::MAX as i128, i64::MIN as i128, 1 << 53];
    let n = if r.one_in(5) { *r.pick(&far) } else { (*r.pick(&edges) + r.below(3) as i128 - 1) * if r.flip() { 1 } else { -1 } };
    match (i64::try_from(n), u64::try_from(n)) {
        (Ok(n), _) => json!(n),
        (_, Ok(n)) => json!(n),
        _ => json!(0.5),
    }
}
fn value(r: &mut Rng) -> Value {
    match r.below(8) {
        0..=2 => json!(text(r)),
        3..=5 => number(r),
        6 => r.pick(&[json!(null), json!(true), json!(1.0), json!(0.0), json!(-1.5), json!(300.0), json!(1e300), json!([]), json!([1]), json!({}), json!({"a": "1"})]).clone(),
        _ => gen(r, 2),
    }
}
fn main() {
    let mut a = Audit::start("every scalar with generated values, in the four representations");
    for n in NAMES {
        a.case("find", true, || n.to_string(), || {
            let s = Scalar::find(n).ok_or("not found")?;
            same("name", s.name(), n.to_string())?;
            let j = serde_json::to_value(s.schema()).unwrap();
            same("title", j.get("title").cloned(), Some(json!(n)))?;
            let d = s.scalar_definition();
            match d {
                async_graphql::parser::types::TypeSystemDefinition::Type(t) => same("definition", t.node.name.node.as_str().to_string(), n.to_string()),
                _ => Err("the definition is no type".into()),
            }
        });
    }
    let mut fixed = vec![json!(null), json!(true), json!(false), json!(1.0), json!(0.0), json!(-0.0), json!(-1.5), json!(300.0), json!(1e300), json!([]), json!([1]), json!(["1"]), json!({}), json!({"a": "1"}), json!(u64::MAX), json!(i64::MAX), json!(i64::MIN)];
    for e in [0i64, 128, 256, 32768, 65536, 2147483648, 4294967296] {
        for d in -1..=1 {
            fixed.push(json!(e + d));
            fixed.push(json!(-e - d));
        }
    }
    for i in 0..a.iters {
        let n = NAMES[i % NAMES.len()];
        // every listed text and edge for every scalar, then generated ones
        let k = i / NAMES.len();
        let v = if k < TEXTS.len() {
            json!(TEXTS[k])
        } else if k < TEXTS.len() + fixed.len() {
            fixed[k - TEXTS.len()].clone()
        } else {
            value(&mut a.rng)
        };
        a.case(n, true, || v.to_string(), || {
            let s = Scalar::find(n).ok_or("not found")?;
            let want = accepts(n, &v);
            same("serde_json", s.validate(&v), want)?;
            same("ConstValue", s.validate(&to_const(&v)), want)?;
            same("Value", s.validate(&to_gvalue(&v)), want)?;
            let t = v.to_string();
            let b: serde_json_borrow::Value = serde_json::from_str(&t).map_err(|e| e.to_string())?;
            same("borrowed", s.validate(&b), want)?;
            if let (Some(t), true) = (v.as_str(), want && n != "Empty" && n != "JSON") {
                let e = async_graphql_value::ConstValue::Enum(async_graphql::Name::new(t));
                same("enum", s.validate(&e), false)?;
            }
            Ok(())
        });
        let t = match a.rng.below(3) {
            0 => text(&mut a.rng),
            1 => a.rng.pick(&NAMES).to_string(),
            _ => a.rng.pick(&PREDEFINED).to_string(),
        };
        let t = if a.rng.flip() { near(&mut a.rng, &t) } else { t };
        a.eq("names", true, || format!("{t:?}"), || (Scalar::is_predefined(&t), Scalar::find(&t).map(|s| s.name())), || {
            (NAMES.contains(&t.as_str()) || PREDEFINED.contains(&t.as_str()), NAMES.iter().find(|n| **n == t).map(|n| n.to_string()))
        });
    }
    a.finish();
}
