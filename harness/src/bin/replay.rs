//! replay SPEC... : each SPEC file holds lines `job <func> <args...>`, `draws <draws>`, optional `file <path>`.
//! Exit 0: the harness ran to its end. 100: a check failed. 101: panic. 77: an assumption does not hold. 78: draws do not fit.
use harness::rt::*;
fn main() {
    let path = std::env::args().nth(1).expect("spec");
    let text = std::fs::read_to_string(&path).expect("read spec");
    let mut rt = Rt::default();
    let mut job: Vec<String> = vec![];
    for l in text.lines() {
        if let Some(x) = l.strip_prefix("job ") {
            job = x.split_whitespace().map(|s| s.to_string()).collect();
        } else if let Some(x) = l.strip_prefix("draws ") {
            for t in x.split_whitespace() {
                if let Some(h) = t.strip_prefix("b:") {
                    rt.draws.push(Draw::Bytes((0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()));
                } else if let Some(c) = t.strip_prefix("c:") {
                    rt.draws.push(Draw::Choice(c.parse().unwrap()));
                }
            }
        } else if let Some(x) = l.strip_prefix("file ") {
            rt.file = std::fs::read(x).unwrap_or_default();
        } else if l == "lenient" {
            // the symbolic run stopped in the middle of a draw sequence
            rt.lenient = true;
        }
    }
    if let Some(name) = job[0].strip_prefix('~').map(|n| n.to_string()) {
        job[0] = name;
        rt.quiet = true;
    }
    let f = harness::table().into_iter().find(|x| x.0 == job[0]).expect("harness").1;
    let a: Vec<u64> = job[1..].iter().map(|x| x.parse().unwrap()).collect();
    let g = |i: usize| a.get(i).copied().unwrap_or(0);
    *RT.lock().unwrap() = Some(rt);
    f(g(0), g(1), g(2), g(3));
    println!("TRACE {}", trace());
    println!("DONE");
}
