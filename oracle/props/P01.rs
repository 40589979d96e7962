use libshpool::verif::protocol as p;
pub const RULE: &str = "frames of every kind with payload sizes around 0, 4, the 16 KiB receive buffer and multi-byte length boundaries, arbitrary byte streams, short reads/writes of 1..n bytes; distinct = distinct input";
pub const BOUND: &str = "payload <= 70000 bytes, <= 4 frames per stream";

/// independent statement of the wire format
fn frame(kind: u8, b: &[u8]) -> Vec<u8> {
    let mut v = vec![kind];
    if kind != 2 {
        v.extend_from_slice(&(b.len() as u32).to_le_bytes());
    }
    v.extend_from_slice(b);
    v
}
fn parse(data: &[u8], cap: usize) -> Option<(u8, Vec<u8>, usize)> {
    let k = *data.first()?;
    if k > 3 { return None; }
    if k == 2 {
        if cap < 4 || data.len() < 5 { return None; }
        return Some((2, data[1..5].to_vec(), data.len() - 5));
    }
    if data.len() < 5 { return None; }
    let n = u32::from_le_bytes(data[1..5].try_into().unwrap()) as usize;
    if n > cap || data.len() - 5 < n { return None; }
    Some((k, data[5..5 + n].to_vec(), data.len() - 5 - n))
}

pub fn case(v: &Value) -> CaseResult {
    if v["op"] == "write" {
        let kind = v["kind"].as_u64().unwrap() as u8;
        let len = v["len"].as_u64().unwrap() as usize;
        let mut r = Rng(v["fill"].as_u64().unwrap());
        let buf = r.bytes(len);
        let want = frame(kind, &buf);
        let limit = v["limit"].as_u64().unwrap() as usize;
        let (ok, got) = p::write_chunk(kind, &buf, limit, v["step"].as_u64().unwrap() as usize);
        let cut = want.len().min(limit);
        if ok != (limit >= want.len()) || got != want[..cut] {
            return Err((format!("ok={} {} bytes {}..", limit >= want.len(), cut, hex(&want[..cut.min(12)])), format!("ok={} {} bytes {}..", ok, got.len(), hex(&got[..got.len().min(12)]))));
        }
        return Ok(());
    }
    let data = if v["data"].is_string() { jhex(&v["data"]) } else {
        let mut d = vec![];
        for f in v["frames"].as_array().unwrap() {
            let mut r = Rng(f[2].as_u64().unwrap());
            d.extend(frame(f[0].as_u64().unwrap() as u8, &r.bytes(f[1].as_u64().unwrap() as usize)));
        }
        d
    };
    let cap = v["cap"].as_u64().unwrap() as usize;
    let step = v["step"].as_u64().unwrap() as usize;
    // read frames one after another
    let mut rest: &[u8] = &data;
    for i in 0..6 {
        let want = parse(rest, cap);
        let got = p::read_chunk(rest, cap, step);
        if want != got {
            let d = |x: &Option<(u8, Vec<u8>, usize)>| match x { None => "error".into(), Some((k, b, r)) => format!("kind {} payload {} bytes {}.. remaining {}", k, b.len(), hex(&b[..b.len().min(8)]), r) };
            return Err((format!("frame {}: {}", i, d(&want)), d(&got)));
        }
        match got { Some((_, _, r)) => rest = &rest[rest.len() - r..], None => break }
    }
    Ok(())
}

pub fn search(cx: &mut Ctx) {
    let sizes = [0u64, 1, 2, 3, 4, 5, 7, 127, 128, 255, 256, 257, 511, 1024, 4095, 16379, 16383, 16384, 16385, 65535, 65536, 65537, 70000];
    for kind in 0..4u64 {
        for &len in &sizes {
            let len = if kind == 2 { 4 } else { len };
            let full = len + 5;
            for limit in [1 << 30, full, full - 1, 0, 1, 4, 5, 6] {
                for step in [1u64 << 20, 1, 3] {
                    cx.case(json!({"op":"write","kind":kind,"len":len,"fill":len * 7 + kind,"limit":limit,"step":step}));
                }
            }
            for cap in [16384u64, len, len.saturating_sub(1), 3, 4, 0] {
                cx.case(json!({"op":"read","frames":[[kind,len,len],[0,3,9]],"cap":cap,"step":7}));
            }
        }
    }
    for k in 0..=255u64 {
        let mut d = vec![k as u8];
        d.extend([2u8, 0, 0, 0, 9, 8, 7]);
        cx.case(json!({"op":"read","data":hex(&d),"cap":16,"step":100}));
    }
    while !cx.expired() {
        let n = cx.rng.range(1, 4);
        let mut fr = vec![];
        for _ in 0..n {
            let k = cx.rng.below(4);
            let len = if k == 2 { 4 } else if cx.rng.chance(1, 2) { cx.rng.below(40) } else { *cx.rng.pick(&sizes) };
            fr.push(json!([k, len, cx.rng.below(1 << 40)]));
        }
        let cap = *cx.rng.pick(&[16384u64, 32, 4, 70000, 5]);
        let step = cx.rng.range(1, 50);
        cx.case(json!({"op":"read","frames":fr,"cap":cap,"step":step}));
        let len = cx.rng.below(24) as usize;
        let mut d = cx.rng.bytes(len);
        for (i, b) in d.iter_mut().enumerate() { if i < 5 && cx.rng.chance(2, 3) { *b %= 6; } }
        let cap = cx.rng.below(16);
        cx.case(json!({"op":"read","data":hex(&d),"cap":cap,"step":step}));
        if !cx.thorough && cx.evaluations > 6000 { break; }
    }
}

pub fn shrink(v: &Value) -> Vec<Value> {
    let mut out = vec![];
    if v["frames"].is_array() {
        for w in shrink_list(v["frames"].as_array().unwrap()) {
            let mut x = v.clone();
            x["frames"] = Value::Array(w);
            out.push(x);
        }
    }
    out
}
