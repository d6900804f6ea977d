//! Native runtime: the same harnesses, driven by the concrete draws of a counterexample or sampled path.
use std::sync::Mutex;
pub enum Draw {
    Bytes(Vec<u8>),
    Choice(u64),
}
#[derive(Default)]
pub struct Rt {
    pub draws: Vec<Draw>,
    pub pos: usize,
    pub trace: Vec<String>,
    pub file: Vec<u8>,
    pub lenient: bool,
    pub quiet: bool,
}
pub static RT: Mutex<Option<Rt>> = Mutex::new(None);
fn with<T>(f: impl FnOnce(&mut Rt) -> T) -> T {
    let mut g = RT.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(Rt::default))
}
pub fn trace() -> String {
    with(|r| r.trace.join(" "))
}
fn die(code: i32, msg: String) -> ! {
    println!("TRACE {}", trace());
    println!("{}", msg);
    std::process::exit(code)
}
/// # Safety
/// `p` points to `n` writable bytes.
#[no_mangle]
pub unsafe extern "C" fn mvsym_bytes(p: *mut u8, n: usize) {
    let r = with(|r| {
        let k = r.pos;
        r.pos += 1;
        match r.draws.get(k) {
            Some(Draw::Bytes(b)) if b.len() == n => Ok(b.clone()),
            None if r.lenient => Ok(vec![b'a'; n]),
            _ => Err(k),
        }
    });
    match r {
        Ok(b) => std::ptr::copy_nonoverlapping(b.as_ptr(), p, n),
        Err(k) => die(78, format!("MISMATCH draw {} is not {} bytes", k, n)),
    }
}
#[no_mangle]
pub extern "C" fn mvsym_choice(n: u64) -> u64 {
    let r = with(|r| {
        let k = r.pos;
        r.pos += 1;
        match r.draws.get(k) {
            Some(Draw::Choice(c)) if *c < n => Ok(*c),
            None if r.lenient => Ok(0),
            _ => Err(k),
        }
    });
    match r {
        Ok(c) => c,
        Err(k) => die(78, format!("MISMATCH draw {} is not a choice of {}", k, n)),
    }
}
#[no_mangle]
pub extern "C" fn mvsym_assume(c: bool) {
    if !c {
        die(77, "ASSUME violated".into())
    }
}
#[no_mangle]
pub extern "C" fn mvsym_check(c: bool, id: u64) {
    if !c {
        mvsym_fail(id)
    }
}
#[no_mangle]
pub extern "C" fn mvsym_fail(id: u64) -> ! {
    if with(|r| r.quiet) {
        die(77, format!("IGNORED id {}", id))
    }
    die(100, format!("FAIL id {}", id))
}
#[no_mangle]
pub extern "C" fn mvsym_reach(id: u64) {
    with(|r| r.trace.push(format!("r{}", id)))
}
#[no_mangle]
pub extern "C" fn mvsym_report(v: u64) {
    with(|r| r.trace.push(format!("v{}", v)))
}
#[no_mangle]
pub extern "C" fn mvsym_hash_mode(_k: u64) {}
#[no_mangle]
pub extern "C" fn mvsym_concretize(v: u64) -> u64 {
    v
}
/// # Safety
/// `p` points to `cap` writable bytes.
#[no_mangle]
pub unsafe extern "C" fn mvsym_conc_bytes(p: *mut u8, cap: usize) -> usize {
    let f = with(|r| r.file.clone());
    let n = f.len().min(cap);
    if n > 0 {
        std::ptr::copy_nonoverlapping(f.as_ptr(), p, n);
    }
    f.len()
}
