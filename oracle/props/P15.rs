use crate::sessions::*;
pub const RULE: &str = "histories of session operations (attach, race, hang-up, detach, kill, exit, death of the shell, expiry) over three session names on a real daemon, against a model of the session table, and detaches of clients that do not read what they are sent; distinct = distinct history";
pub const BOUND: &str = "histories of up to 12 steps over 3 names";
pub fn case(v: &Value) -> CaseResult { run("P15", v) }
pub fn search(cx: &mut Ctx) {
    let a = json!(["attach", "a", null, 0, 0]);
    let fixed = [
        json!({"ops": [a, ["hangup", "a"], ["die", "a"], ["attach", "b", null, 0, 1], ["attach", "c", null, 0, 1], ["detach", ["a", "b", "b"], ""], ["detach", ["nosuch", "c"], "cli"]]}),
        json!({"ops": [a, ["attach", "b", null, 0, 1], ["detach", ["a"], ""], ["detach", ["a", "b", "nosuch"], ""], a, ["detach", ["a"], "msg"], a, ["detach", ["a"], "env"], ["detach", ["a"], "msg"]]}),
        json!({"ops": [a, ["attach", "b", null, 0, 1], ["hangup", "a"], ["detach", ["b"], "cli"], ["detach", ["a", "b"], "cli"], ["detach", ["a", "b", "a"], ""], ["detach", ["b"], "env"], ["detach", ["nosuch"], "cli"], ["detach", ["a"], "msg"]]}),
        json!({"kind": "deaf", "how": "", "names": ["a"]}),
        json!({"kind": "deaf", "how": "", "names": ["nosuch", "a", "b"], "pause": 600}),
        json!({"kind": "deaf", "how": "msg", "names": []}),
        json!({"kind": "deaf", "how": "cli", "names": ["b", "a"]}),
    ];
    crate::sessions::search(cx, &fixed, &Mix { detach: 10, cli: true, ..Default::default() }, 0)
}
pub fn shrink(v: &Value) -> Vec<Value> { crate::sessions::shrink(v) }
