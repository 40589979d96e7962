use super::*;
/// (instantiated text, source text) or None if the template is refused
pub fn instantiate(src: &str, vars: &[(String, String)]) -> Option<(String, String)> {
    let t = Template::new(src).ok()?;
    let m: std::collections::HashMap<String, String> = vars.iter().cloned().collect();
    Some((t.apply(&m), t.source().to_string()))
}
