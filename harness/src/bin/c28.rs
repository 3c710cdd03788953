use tailcall::core::Errata;
use tailcall_valid::{Cause, ValidationError};
use tcv::{same, Audit, Rng};

#[derive(Clone, Debug)]
struct E {
    message: String,
    description: Option<String>,
    trace: Vec<String>,
    causes: Vec<E>,
}
fn text(r: &mut Rng) -> String {
    r.pick(&["", "a", "\n", "two\nlines", "ends\n", "\nstarts", "x: y", "Caused by:", "• dot", "ünï", " "]).to_string()
}
fn gen(r: &mut Rng, deep: usize) -> E {
    E {
        message: text(r),
        description: r.opt(text),
        trace: r.vec(4, |r| r.pick(&["", "User", "posts", "@http", "a.b", "[0]"]).to_string()),
        causes: if deep == 0 { vec![] } else { r.vec(3, |r| gen(r, deep - 1)) },
    }
}
fn build(e: &E) -> Errata {
    let mut x = Errata::new(&e.message).trace(e.trace.clone());
    if let Some(d) = &e.description {
        x = x.description(d.clone());
    }
    x.caused_by(e.causes.iter().map(build).collect())
}
fn render(e: &E) -> String {
    let mut s = e.message.clone();
    if let Some(d) = &e.description {
        s += ": ";
        s += d;
    }
    if !e.trace.is_empty() {
        s += &format!(" [at {}]", e.trace.join("."));
    }
    if !e.causes.is_empty() {
        s += "\nCaused by:\n";
        let all: Vec<String> = e
            .causes
            .iter()
            .map(|c| {
                let c = render(c);
                let mut ls = c.split_inclusive('\n');
                let mut out = format!("  • {}", ls.next().unwrap_or(""));
                for l in ls {
                    out += "    ";
                    out += l;
                }
                out
            })
            .collect();
        s += &all.join("\n");
    }
    s
}
/// in color: a report's own parts and those of its direct causes
fn colored(e: &E, deep: usize) -> String {
    if deep == 2 {
        return render(e);
    }
    let p = |code: &str, s: &str| format!("\x1b[{code}m{s}\x1b[0m");
    let c = if deep == 0 { "33" } else { "37" };
    let mut s = p(c, &e.message);
    if let Some(d) = &e.description {
        s += &p(c, ": ");
        s += &p("37", d);
    }
    if !e.trace.is_empty() {
        s += &p("36", &format!(" [at {}]", e.trace.join(".")));
    }
    if !e.causes.is_empty() {
        s += &format!("\n{}\n", p("2", "Caused by:"));
        let all: Vec<String> = e
            .causes
            .iter()
            .map(|x| {
                let mut out = String::new();
                for l in colored(x, deep + 1).split_inclusive('\n') {
                    out += "    ";
                    out += l;
                }
                // the bullet takes the place of the first two columns
                if out.is_empty() { "  • ".to_string() } else { format!("  • {}", &out[4..]) }
            })
            .collect();
        s += &all.join("\n");
    }
    s
}
fn plain(s: &str) -> String {
    regex::Regex::new("\x1b\\[[0-9;]*m").unwrap().replace_all(s, "").into_owned()
}

fn main() {
    let mut a = Audit::start("error reports with empty, multi-line and nested causes; nontrivial: at least one cause");
    let (mut r, n) = (Rng::new(a.rng.u64()), a.iters);
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    std::env::set_var("CLICOLOR_FORCE", "1");
    std::env::remove_var("NO_COLOR");
    for _ in 0..n {
        let e = gen(&mut r, 3);
        let has = !e.causes.is_empty();
        let inp = || format!("{e:?}");
        a.case("the report", has, inp, || same("text", build(&e).to_string(), render(&e)));
        a.case("the report in color", has, inp, || {
            // a line of nothing but an escape is indented, too
            let ends = |s: &str| s.lines().map(|l| l.trim_end().to_string()).collect::<Vec<_>>().join("\n").trim_end().to_string();
            same("text", ends(&plain(&build(&e).color(true).to_string())), ends(&render(&e)))?;
            let flat = E { causes: e.causes.iter().map(|c| E { causes: vec![], ..c.clone() }).collect(), ..e.clone() };
            same("what is colored", build(&flat).color(true).to_string(), colored(&flat, 0))?;
            same("color off again", build(&e).color(true).color(false).to_string(), render(&e))
        });
        // from validation errors
        let flat = r.vec(4, |r| gen(r, 0));
        let root = E { message: "Invalid Configuration".into(), description: None, trace: vec![], causes: flat.clone() };
        let cause = |e: &E| {
            let mut c = Cause::new(e.message.clone()).trace(e.trace.clone());
            if let Some(d) = &e.description {
                c = c.description(d.clone());
            }
            c
        };
        let inp = || format!("{flat:?}");
        a.case("from a validation error", !flat.is_empty(), inp, || {
            let v = ValidationError::from(flat.iter().map(cause).collect::<Vec<_>>());
            same("own texts", Errata::from(v.clone()).to_string(), render(&root))?;
            same("through anyhow", Errata::from(anyhow::Error::from(v)).to_string(), render(&root))?;
            let v = ValidationError::from(
                flat.iter()
                    .map(|e| {
                        let mut c = Cause::new(e.message.as_str()).trace(e.trace.clone());
                        if let Some(d) = &e.description {
                            c = c.description(d.as_str());
                        }
                        c
                    })
                    .collect::<Vec<_>>(),
            );
            same("borrowed texts", Errata::from(v).to_string(), render(&root))
        });
        let code = *r.pick(&[1, 4, 47, 48, 49, 98, 480]);
        a.case("from a server error", code == 48, || format!("os error {code}"), || {
            let io = std::io::Error::from_raw_os_error(code);
            let m = io.to_string();
            let body = hyper::Body::wrap_stream(futures_util::stream::iter([Err::<String, _>(io)]));
            let err = rt.block_on(hyper::body::to_bytes(body)).err().ok_or("harness: no error")?;
            let t = err.to_string();
            same("harness: the text", t.contains(&m), true)?;
            let e = |m: &str, d: &str| E { message: m.into(), description: (d != "").then(|| d.to_string()), trace: vec![], causes: vec![] };
            let want = if code == 48 || code == 480 && t.contains("os error 48") {
                E { causes: vec![e(&t, "")], ..e("Server Failed", "The port is already in use") }
            } else {
                e("Server Failed", &t)
            };
            same("report", Errata::from(err).to_string(), render(&want))
        });
        let parts = r.vec(3, text);
        let m = text(&mut r);
        a.case("from any other error", !parts.is_empty(), || format!("{m:?} in {parts:?}"), || {
            let none = |m: &str, causes: Vec<E>| E { message: m.into(), description: None, trace: vec![], causes };
            let mut err = anyhow::anyhow!("{m}");
            for p in &parts {
                err = err.context(p.clone());
            }
            // what is outermost, and what it is caused by
            let want = match parts.as_slice() {
                [] => none(&m, vec![]),
                [p] => none(p, vec![none(&m, vec![])]),
                [.., q, p] => none(p, vec![none(q, vec![])]),
            };
            same("any", Errata::from(err).to_string(), render(&want))?;
            let io = Errata::from(std::io::Error::new(std::io::ErrorKind::Other, m.clone()));
            same("io", io.to_string(), format!("IO Error: {m}"))?;
            let b: Box<dyn std::error::Error> = m.clone().into();
            same("boxed", Errata::from(b).to_string(), m.clone())
        });
        a.case("a report stays itself", has, || format!("{e:?}"), || {
            same("report", Errata::from(anyhow::Error::from(build(&e))), build(&e))
        });
    }
    a.finish();
}
