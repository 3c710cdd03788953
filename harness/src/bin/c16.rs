use async_graphql::dynamic::TypeRef;
use async_graphql::parser::types as ast;
use async_graphql::parser::types::BaseType;
use tailcall::core::Type;
use tcv::{same, Audit, Rng};

/// (name, [outermost..] list flags with their "required" flag, the name's own flag)
fn gen(r: &mut Rng) -> (String, Vec<bool>, bool) {
    let n = r.pick(&["Int", "String", "User", "JSON", "Ünï"]).to_string();
    (n, r.vec(6, |r| r.flip()), r.flip())
}
fn build(g: &(String, Vec<bool>, bool)) -> Type {
    let mut t = Type::Named { name: g.0.clone(), non_null: g.2 };
    for nn in g.1.iter().rev() {
        t = Type::List { of_type: Box::new(t), non_null: *nn };
    }
    t
}
fn sdl(g: &(String, Vec<bool>, bool)) -> String {
    let mut s = format!("{}{}", g.0, if g.2 { "!" } else { "" });
    for nn in g.1.iter().rev() {
        s = format!("[{s}]{}", if *nn { "!" } else { "" });
    }
    s
}
fn ast_of(g: &(String, Vec<bool>, bool)) -> ast::Type {
    let mut t = ast::Type { base: BaseType::Named(async_graphql::Name::new(&g.0)), nullable: !g.2 };
    for nn in g.1.iter().rev() {
        t = ast::Type { base: BaseType::List(Box::new(t)), nullable: !*nn };
    }
    t
}

fn main() {
    let mut a = Audit::start("random wrapped types up to 6 lists deep, and every operation on them; nontrivial: at least one list");
    for _ in 0..a.iters {
        let g = gen(&mut a.rng);
        let n2 = a.rng.pick(&["A", "Bee", ""]).to_string();
        let deep = !g.1.is_empty();
        let outer = |g: &(String, Vec<bool>, bool), b: bool| {
            let mut h = g.clone();
            match h.1.first_mut() {
                Some(f) => *f = b,
                None => h.2 = b,
            }
            h
        };
        let nn = *g.1.first().unwrap_or(&g.2);
        let inp = || sdl(&g);
        a.case("the type of nothing", true, || "Type::default()".into(), || {
            let t = Type::default();
            same("default", (t.name().clone(), t.is_nullable(), t.is_list()), ("JSON".to_string(), true, false))
        });
        a.case("queries", deep, inp, || {
            let t = build(&g);
            same("name", t.name().clone(), g.0.clone())?;
            same("nullable", t.is_nullable(), !nn)?;
            same("list", t.is_list(), deep)
        });
        a.case("changes", deep, inp, || {
            let t = build(&g);
            same("required", t.clone().into_required(), build(&outer(&g, true)))?;
            same("nullable", t.clone().into_nullable(), build(&outer(&g, false)))?;
            let mut l = g.clone();
            l.1.insert(0, false);
            same("list of", t.clone().into_list(), build(&l))?;
            same("single", t.clone().into_single(), build(&(g.0.clone(), vec![], g.2)))?;
            same("renamed", t.clone().with_name(n2.clone()), build(&(n2.clone(), g.1.clone(), g.2)))?;
            same("from name", Type::from(n2.clone()), build(&(n2.clone(), vec![], false)))
        });
        a.case("notations", deep, inp, || {
            let t = build(&g);
            same("text", format!("{t:?}"), sdl(&g))?;
            same("to ast", ast::Type::from(&t).to_string(), sdl(&g))?;
            same("from ast", Type::from(&ast_of(&g)), t.clone())?;
            same("there and back", Type::from(&ast::Type::from(&t)), t.clone())?;
            if !g.0.is_empty() {
                same("type ref", TypeRef::from(&t).to_string(), sdl(&g))?;
            }
            let j = serde_json::to_string(&t).map_err(|e| e.to_string())?;
            same("json there and back", serde_json::from_str::<Type>(&j).map_err(|e| e.to_string())?, t)
        });
    }
    a.finish();
}
