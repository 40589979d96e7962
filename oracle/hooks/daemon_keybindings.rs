use super::*;
pub struct Engine(Bindings);
/// bindings of action 0 = Detach, 1 = NoOp
pub fn engine(b: &[(String, u8)]) -> Option<Engine> {
    let v: Vec<(&str, Action)> = b.iter().map(|(s, a)| (s.as_str(), if *a == 0 { Action::Detach } else { Action::NoOp })).collect();
    Bindings::new(v).ok().map(Engine)
}
impl Engine {
    /// 'n' no match, 'p' partial, '0'/'1' the action
    pub fn press(&mut self, b: u8) -> char {
        match self.0.transition(b) {
            BindingResult::NoMatch => 'n',
            BindingResult::Partial => 'p',
            BindingResult::Match(Action::Detach) => '0',
            BindingResult::Match(Action::NoOp) => '1',
        }
    }
}
