use crate::sessions::*;
pub const RULE: &str = "histories of session operations (attach, race, hang-up, detach, kill, exit, death of the shell, expiry) over three session names on a real daemon, against a model of the session table; distinct = distinct history";
pub const BOUND: &str = "histories of up to 12 steps over 3 names";
pub fn case(v: &Value) -> CaseResult { run("P16", v) }
pub fn search(cx: &mut Ctx) {
    let a = json!(["attach", "a", null, 0, 0]);
    let fixed = [
        json!({"ops": [a, ["attach", "a", null, 0, 9], ["attach", "b", null, 0, 1], ["hangup", "a"], ["list"], ["attach", "a", null, 0, 5], ["list"], ["detach", ["b"], ""], ["list"], ["die", "b"], ["list"], ["attach", "b", null, 0, 2]]}),
    ];
    crate::sessions::search(cx, &fixed, &Mix { list: 2, ..Default::default() }, 0)
}
pub fn shrink(v: &Value) -> Vec<Value> { crate::sessions::shrink(v) }
