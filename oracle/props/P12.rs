use crate::sessions::*;
pub const RULE: &str = "histories of session operations (attach, race, hang-up, detach, kill, exit, death of the shell, expiry) over three session names on a real daemon, against a model of the session table, and of real attach commands on terminals of their own; distinct = distinct history";
pub const BOUND: &str = "histories of up to 12 steps over 3 names";
pub fn case(v: &Value) -> CaseResult { run("P12", v) }
pub fn search(cx: &mut Ctx) {
    let a = json!(["attach", "a", null, 0, 0]);
    let fixed = [
        json!({"ops": [["attach", "a", 2, 0, 0], ["attach", "b", 3, 0, 1], ["attach", "c", null, 0, 2], ["hangup", "b"], ["expire"]]}),
        json!({"kind": "cli", "ops": [["start", 0, "a", {"ttl": 2}], ["nonsense", "12x"], ["nonsense", "5"], ["expire"]]}),
        json!({"ops": [["attach", "a", 2, 0, 0], ["kill", ["a"], ""], a, ["ghosts"]]}),
        json!({"ops": [["race", "a", 2, 0, 4], ["race", "b", 2, 0, 4], ["expire"]]}),
        json!({"ops": [["attach", "a", 3, 0, 0], ["hangup", "a"], ["die", "a"], ["attach", "a", 2, 0, 0], ["detach", ["a"], ""], ["attach", "a", 2, 0, 0], ["ghosts"]]}),
        json!({"ops": [["attach", "b", null, 0, 1], ["attach", "a", 0, 0, 0], ["expire"]]}),
        json!({"ops": [["attach", "a", 2, 1, 0], ["hangup", "a"], ["expire"]]}),
    ];
    crate::sessions::search(cx, &fixed, &Mix { attach: 6, race: 2, kill: 2, ttl: true, hup: true, real: 6, ..Default::default() }, 0)
}
pub fn shrink(v: &Value) -> Vec<Value> { crate::sessions::shrink(v) }
