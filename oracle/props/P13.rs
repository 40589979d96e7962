use crate::sessions::*;
pub const RULE: &str = "histories of session operations (attach, race, hang-up, detach, kill, exit, death of the shell, expiry) over three session names on a real daemon, against a model of the session table, and of real attach commands on terminals of their own; distinct = distinct history";
pub const BOUND: &str = "histories of up to 12 steps over 3 names";
pub fn case(v: &Value) -> CaseResult { run("P13", v) }
pub fn search(cx: &mut Ctx) {
    let a = json!(["attach", "a", null, 0, 0]);
    let fixed = [
        json!({"ops": [a, ["exit", "a", 0], a, ["exit", "a", 7], a, ["exit", "a", 255], a, ["exit", "a", 265], ["attach", "a", null, 1, 0], ["exit", "a", 271]]}),
        json!({"kind": "cli", "ops": [["start", 0, "a", {}], ["exit", "a", 3], ["start", 1, "a", {}], ["leave", "a", "keys"], ["start", 2, "a", {}], ["start", 3, "a", {"f": true}], ["exit", "a", 255]]}),
        json!({"kind": "cli", "ops": [["start", 0, "a", {}], ["exit", "a", 0], ["start", 1, "a", {}], ["exit", "a", 265]]}),
        json!({"ops": [a, ["attach", "b", null, 0, 1], ["hangup", "a"], ["die", "a"], ["exit", "b", 3]]}),
        json!({"ops": [a, ["stop", "a"], ["attach", "b", null, 0, 0], ["hangup", "b"], ["stop", "b"], ["attach", "b", null, 0, 0], ["exit", "a", 2], ["exit", "b", 4]]}),
    ];
    crate::sessions::search(cx, &fixed, &Mix { exit: 8, die: 3, stop: 2, real: 2, ..Default::default() }, 0)
}
pub fn shrink(v: &Value) -> Vec<Value> { crate::sessions::shrink(v) }
