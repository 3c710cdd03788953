use prost_reflect::prost_types::source_code_info::Location;
use prost_reflect::prost_types::SourceCodeInfo;
use tailcall::core::generator::graphql_type::GraphQLType;
use tailcall::core::generator::proto::comments_builder::CommentsBuilder;
use tailcall::core::generator::proto::path_builder::PathBuilder;
use tailcall::core::generator::proto::path_field::PathField;
use tailcall::core::generator::NameGenerator;
use tcv::{near, same, Audit, Rng};

const SCALARS: &[&str] = &[
    "Boolean", "Float", "ID", "Int", "String", "Bytes", "Date", "DateTime", "Email", "Empty", "Int128", "Int16", "Int32", "Int64", "Int8", "JSON", "PhoneNumber",
    "UInt128", "UInt16", "UInt32", "UInt64", "UInt8", "Url",
];
fn name(r: &mut Rng) -> String {
    if r.one_in(3) {
        let s = r.pick(SCALARS).to_string();
        return if r.one_in(3) { near(r, &s) } else { s };
    }
    if r.one_in(6) {
        return r.pick(&["", ".", "..", "a..b", ".a", "a.", "a_", "__", " ", "É.é", "a.String", "String.", "GEN__a", "a b", "a/b", "a-b"]).to_string();
    }
    let n = 1 + r.below(3);
    (0..n).map(|_| r.pick(&["a", "foo", "Foo", "foo_bar", "FOO", "fooBar", "x1"]).to_string()).collect::<Vec<_>>().join(*r.pick(&[".", "_"]))
}
fn item(r: &mut Rng) -> String {
    r.pick(&["", "a", "b", "a.b", "a.b.c", ".", "..", "a.", ".a", " a ", " ", "a. b", "a . ", "A", "a_b", "a__b", "\t", "é.ü", "a/b", "a::b", "a,b"]).to_string()
}
// letters only, in words
fn words(r: &mut Rng) -> Vec<&'static str> {
    let n = 1 + r.below(4);
    (0..n).map(|_| *r.pick(&["foo", "bar", "id", "name", "user"])).collect()
}
fn cap(w: &str) -> String {
    w[..1].to_uppercase() + &w[1..]
}

fn main() {
    let mut a = Audit::start("names with dots, blanks and empty parts, predefined scalar names and near misses; nontrivial: a package");
    let (mut r, n) = (Rng::new(a.rng.u64()), a.iters);
    for _ in 0..n {
        let (head, items, one, extended) = (name(&mut r), r.vec(4, item), item(&mut r), r.flip());
        let build = || {
            let g = GraphQLType::new(&head);
            if extended {
                g.push(one.clone()).extend(&items)
            } else {
                items.iter().fold(g.push(one.as_str()), |g, i| g.push(i))
            }
        };
        let own: String = head.chars().map(|c| if c == '.' { '_' } else { c }).collect();
        let mut package: Vec<String> = vec![];
        for i in std::iter::once(&one).chain(&items) {
            let mut part = String::new();
            for c in i.chars().chain(['.']) {
                if c == '.' {
                    let t = part.trim();
                    if !t.is_empty() {
                        package.push(t.to_string());
                    }
                    part.clear();
                } else {
                    part.push(c);
                }
            }
        }
        let mut inside = String::new();
        for p in &package {
            inside += p;
            inside += "__";
        }
        let id = if package.is_empty() { own.clone() } else { package.join(".") + "." + &own };
        let mark = if SCALARS.contains(&own.as_str()) { "" } else { "GEN__" };
        let some = !package.is_empty();
        let inp = || format!("{head:?} in {one:?}, {items:?}");
        for (what, t, want) in [
            ("object type", build().into_object_type(), format!("{mark}{inside}{own}")),
            ("enum", build().into_enum(), format!("{mark}{inside}{own}")),
            ("method", build().into_method(), format!("GEN__{inside}{own}")),
            ("enum variant", build().into_enum_variant(), own.clone()),
        ] {
            a.case(what, some, inp, || {
                same("name", t.to_string(), want)?;
                same("id", t.id(), id.clone())
            });
        }
        let f = build().into_field();
        a.case("field", some, inp, || {
            same("id", f.id(), id.clone())?;
            same("the package plays no part", f.to_string(), GraphQLType::new(&head).into_field().to_string())
        });
        let w = words(&mut r);
        let want: String = w.iter().enumerate().map(|(i, w)| if i == 0 { w.to_string() } else { cap(w) }).collect();
        for spelling in [w.join("_"), w.join("."), w.join("-"), w.join("_").to_uppercase(), w.iter().map(|w| cap(w)).collect(), want.clone()] {
            a.case("field in camel case", true, || format!("{spelling:?}"), || same("name", GraphQLType::new(&spelling).push("p.q").into_field().to_string(), want.clone()));
        }

        let prefix = name(&mut r);
        let k = 1 + r.below(12);
        a.case("made-up names", true, || format!("{prefix:?} {k} times"), || {
            let g = NameGenerator::new(&prefix);
            for i in 1..=k {
                same("name", g.next(), format!("{prefix}{i}"))?;
            }
            Ok(())
        });

        let base: Vec<i32> = r.vec(4, |r| r.below(5) as i32);
        let fields = [
            (PathField::EnumType, 5),
            (PathField::MessageType, 4),
            (PathField::Service, 6),
            (PathField::Field, 2),
            (PathField::Method, 2),
            (PathField::EnumValue, 2),
            (PathField::NestedType, 3),
            (PathField::NestedEnum, 4),
        ];
        let index = *r.pick(&[0, 1, 2, 7, i32::MAX, -1]);
        a.case("path", true, || format!("{base:?} {index}"), || {
            let b = PathBuilder::new(&base);
            for (f, num) in fields {
                let mut want = base.clone();
                want.extend([num, index]);
                same("path", b.extend(f, index), want)?;
            }
            Ok(())
        });

        let path = |r: &mut Rng| r.vec(3, |r| r.below(3) as i32);
        let locs: Vec<(Vec<i32>, Option<String>, Option<String>)> = r.vec(5, |r| {
            let c = |r: &mut Rng| {
                r.opt(|r| {
                    let n = r.below(4);
                    (0..n)
                        .map(|_| r.pick(&["", "*", "** ", " * a", "*a b ", "a * b", "a*", " ", "  c\t", "* * d", "***e***", "é", "/ f"]).to_string() + *r.pick(&["\n", "\r\n", "\n\n", ""]))
                        .collect::<String>()
                })
            };
            (path(r), c(r), c(r))
        });
        let p = if r.one_in(3) || locs.is_empty() { path(&mut r) } else { r.pick(&locs).0.clone() };
        let none = r.one_in(8);
        let info = SourceCodeInfo {
            location: locs
                .iter()
                .map(|(p, l, t)| Location { path: p.clone(), span: vec![1], leading_comments: l.clone(), trailing_comments: t.clone(), leading_detached_comments: t.iter().cloned().collect() })
                .collect(),
        };
        let mut want = None;
        if let (false, Some((_, Some(c), _))) = (none, locs.iter().find(|l| l.0 == p)) {
            let mut s = String::new();
            for l in c.split('\n') {
                let mut l = l;
                while let Some(m) = l.strip_prefix('*') {
                    l = m;
                }
                let l = l.trim();
                if !l.is_empty() {
                    if !s.is_empty() {
                        s += "\n  ";
                    }
                    s += l;
                }
            }
            want = Some(s);
        }
        a.case("comments", want.is_some(), || format!("{p:?} in {locs:?}"), || same("comments", CommentsBuilder::new(if none { None } else { Some(info.clone()) }).get_comments(&p), want.clone()));
    }
    a.finish();
}
