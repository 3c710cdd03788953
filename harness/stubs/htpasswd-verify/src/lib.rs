//! Stands in for the git dependency of that name, which is not available here, so
//! that the rest of the crate builds. It knows plain passwords only.
pub struct Htpasswd<'a>(Vec<(String, String)>, std::marker::PhantomData<&'a ()>);
impl Htpasswd<'static> {
    pub fn new_owned(text: &str) -> Self {
        let entries = text.lines().filter_map(|l| l.split_once(':'));
        Htpasswd(entries.map(|(u, p)| (u.to_string(), p.to_string())).collect(), std::marker::PhantomData)
    }
}
impl Htpasswd<'_> {
    pub fn check(&self, user: &str, password: &str) -> bool {
        self.0.iter().any(|(u, p)| u == user && p == password)
    }
}
