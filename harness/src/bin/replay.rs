//! replay HARNESS FILE: each line of FILE is a comma separated input stream; prints one JSON line per stream.
use harness::vp;
use std::io::Write;
use std::panic;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let f = harness::lookup(&a[1]).expect("unknown harness");
    let skip: usize = a.get(3).map(|s| s.parse().unwrap()).unwrap_or(0);
    thread_local! { static LOC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }
    panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LOC.try_with(|x| *x.borrow_mut() = l.clone());
        eprintln!("panic at {} {}", l, i);
    }));
    let text = std::fs::read_to_string(&a[2]).unwrap();
    let out = std::io::stdout();
    for line in text.lines().skip(skip) {
        let line = line.to_string();
        let r = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            vp::ST.with(|s| { let mut s = s.borrow_mut(); *s = Default::default(); s.inputs = line.split(',').filter(|x| !x.is_empty()).map(|x| x.parse::<u64>().unwrap()).collect(); });
            let r = panic::catch_unwind(|| f());
            let kind = match r {
                Ok(()) => "ok".to_string(),
                Err(e) => if e.downcast_ref::<vp::AssumeFailed>().is_some() { "assume".to_string() } else { format!("panic|{}", LOC.with(|x| x.borrow().clone())) },
            };
            vp::ST.with(|s| { let s = s.borrow(); format!("{{\"kind\":{:?},\"panic_ok\":{},\"failed\":{:?},\"obs\":{:?},\"left\":{},\"underflow\":{}}}", kind, s.panic_ok, s.failed, s.obs, s.inputs.len(), s.underflow) })
        }).unwrap().join().unwrap_or_else(|_| "{\"kind\":\"panic|join\"}".to_string());
        let mut o = out.lock();
        writeln!(o, "{}", r).unwrap();
        o.flush().unwrap();
    }
}
