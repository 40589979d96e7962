use crate::sessions::*;
pub const RULE: &str = "histories of attaches (alone and racing), hang-ups, detaches, kills, exits and deaths over three session names on a real daemon, and storms of concurrent clients, histories of real attach commands on terminals of their own, and clients that come and go while the program has closed its terminal or does not read it; distinct = distinct history";
pub const BOUND: &str = "histories of up to 12 steps over 3 names, races of up to 4 clients, storms of up to 5 clients with 14 steps each";
pub fn case(v: &Value) -> CaseResult { run("P10", v) }
pub fn search(cx: &mut Ctx) {
    let a = json!(["attach", "a", null, 0, 0]);
    let fixed = [
        json!({"ops": [a, a, ["hangup", "a"], a, ["detach", ["a"], ""], a, ["exit", "a", 0], a]}),
        json!({"ops": [["race", "a", null, 0, 4], ["hangup", "a"], ["race", "a", null, 0, 4], ["race", "a", null, 0, 2]]}),
        json!({"ops": [a, ["hangup", "a"], ["die", "a"], ["race", "a", null, 0, 4], ["hangup", "a"], ["die", "a"], a]}),
        json!({"kind": "cli", "ops": [["start", 0, "a", {}], ["start", 1, "a", {}], ["start", 2, "a", {"f": true}], ["leave", "a", "keys"], ["start", 3, "a", {"f": true}], ["leave", "a", "kill"], ["start", 4, "a", {}]]}),
        json!({"kind": "cli", "ops": [["start", 0, "a", {"b": true}], ["start", 1, "a", {}], ["leave", "a", "msg"], ["start", 2, "a", {"b": true}], ["die", "a"], ["start", 3, "a", {}]]}),
        json!({"kind": "closed", "leave": ["hangup", "detach", "hangup"], "pause": 0}),
        json!({"kind": "closed", "leave": ["hangup", "hangup"], "pause": 900}),
        json!({"kind": "stuck", "leave": "hangup", "bytes": 150_000}),
        json!({"kind": "stuck", "leave": "detach", "bytes": 90_000, "pause": 700}),
        json!({"kind": "storm", "k": 4, "steps": 12, "excl": true, "seed": 3}),
        json!({"kind": "storm", "k": 4, "steps": 12, "excl": false, "seed": 4}),
    ];
    crate::sessions::search(cx, &fixed, &Mix { race: 3, real: 5, ..Default::default() }, 6)
}
pub fn shrink(v: &Value) -> Vec<Value> { crate::sessions::shrink(v) }
