//! Just enough JSON output for the evidence files.
pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn list(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "))
}
#[derive(Default)]
pub struct Obj(Vec<(String, String)>);
impl Obj {
    pub fn new() -> Self {
        Obj(vec![])
    }
    pub fn raw(mut self, k: &str, v: String) -> Self {
        self.0.push((k.into(), v));
        self
    }
    pub fn str(self, k: &str, v: &str) -> Self {
        self.raw(k, esc(v))
    }
    pub fn num(self, k: &str, v: u64) -> Self {
        self.raw(k, v.to_string())
    }
    pub fn float(self, k: &str, v: f64) -> Self {
        self.raw(k, format!("{v:.3}"))
    }
    pub fn list(self, k: &str, v: &[String]) -> Self {
        self.raw(k, list(v))
    }
    pub fn push(&mut self, k: &str, v: String) {
        self.0.push((k.into(), v));
    }
    pub fn render(&self) -> String {
        format!("{{{}}}", self.0.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", "))
    }
}
