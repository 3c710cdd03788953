//! Not a check: asks a server by hand. `smoke SDL ANSWERS.json QUERY..`
#[path = "../e2e.rs"]
mod e2e;
use e2e::*;
use std::sync::Arc;
fn main() {
    let sdl = std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap();
    let answers: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(std::env::args().nth(2).unwrap()).unwrap()).unwrap();
    let mut s = Setup::new(sdl, Arc::new(move |s: &Seen| Ok((200, vec![], answers.get(s.path()).cloned().unwrap_or(serde_json::json!(format!("{} {}", s.method, s.url))).to_string()))));
    // HTP="id user:password;.." are the providers, AUTH the Authorization header
    for p in std::env::var("HTP").unwrap_or_default().split(';').filter_map(|p| p.split_once(' ')) { s.htpasswd.push((Some(p.0.to_string()), p.1.to_string())); }
    let auth: Vec<(String, String)> = std::env::var("AUTH").into_iter().map(|a| ("authorization".to_string(), a)).collect();
    let srv = match s.start() { Ok(s) => s, Err(e) => { println!("{e}"); return } };
    rt().block_on(async {
        for q in std::env::args().skip(3) {
            let (q, vars) = q.split_once("|||").map(|(a, b)| (a.to_string(), Some(serde_json::from_str(b).unwrap()))).unwrap_or((q, None));
            println!("> {q} {vars:?}");
            match srv.ask(&post(query(&q, None, vars), auth.clone())).await { Ok(g) => println!("{} {}", g.status, g.body), Err(e) => println!("{e}") }
        }
    });
}
