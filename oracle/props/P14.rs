use crate::sessions::*;
pub const RULE: &str = "histories of session operations (attach, race, hang-up, detach, kill, exit, death of the shell, expiry) over three session names on a real daemon, against a model of the session table; distinct = distinct history";
pub const BOUND: &str = "histories of up to 12 steps over 3 names";
pub fn case(v: &Value) -> CaseResult { run("P14", v) }
pub fn search(cx: &mut Ctx) {
    let a = json!(["attach", "a", null, 0, 0]);
    let fixed = [
        json!({"ops": [a, ["attach", "b", null, 0, 1], ["kill", ["a", "nosuch", "a"], ""], ["kill", ["b"], "cli"]]}),
        json!({"ops": [["attach", "a", null, 1, 0], ["attach", "b", null, 1, 0], ["hangup", "a"], ["attach", "c", null, 0, 0], ["kill", ["b", "a"], ""], ["kill", ["c"], "env"]]}),
        json!({"ops": [a, ["hangup", "a"], ["die", "a"], ["attach", "b", null, 0, 0], ["kill", ["a", "nosuch"], "cli"], ["kill", ["nosuch", "b"], ""]]}),
    ];
    crate::sessions::search(cx, &fixed, &Mix { kill: 8, hup: true, cli: true, ..Default::default() }, 12)
}
pub fn shrink(v: &Value) -> Vec<Value> { crate::sessions::shrink(v) }
