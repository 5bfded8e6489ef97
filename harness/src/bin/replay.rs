//! Native replay of a counterexample against the real build of the repository.
//! usage: replay ENTRY VALUES ATTEMPTS   (exit 10: reproduced, 0: not reproduced)
use harness::rt;
use std::sync::{Arc, Mutex};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let f = harness::all().into_iter().find(|(n, _)| *n == a[1]).expect("entry").1;
    let values: std::collections::HashMap<String, u64> = std::fs::read_to_string(&a[2])
        .unwrap()
        .lines()
        .filter_map(|l| {
            let (n, v) = l.rsplit_once(' ')?;
            Some((n.to_string(), v.parse().ok()?))
        })
        .collect();
    let attempts: usize = a.get(3).map(|x| x.parse().unwrap()).unwrap_or(1);
    let verbose = a.iter().any(|x| x == "-v");
    let base = std::env::temp_dir().join(format!("verif-replay-{}", std::process::id()));
    let mut code = 0;
    let mut skipped = 0;
    for i in 0..attempts {
        std::fs::create_dir_all(&base).unwrap();
        *rt::ROOT.lock().unwrap() = Some(base.clone());
        *rt::sys::REPLAY.lock().unwrap_or_else(|e| e.into_inner()) =
            Some(rt::sys::Replay { values: values.clone(), occ: Default::default(), log: vec![], verbose });
        let msg = Arc::new(Mutex::new(String::new()));
        let m2 = msg.clone();
        std::panic::set_hook(Box::new(move |i| {
            *m2.lock().unwrap() = format!("{}", i).replace('\n', " ").chars().take(400).collect();
        }));
        // a thread of its own, with a stack of its own: fresh hash keys at every attempt
        let r = std::thread::Builder::new().stack_size(64 << 20).spawn(f).unwrap().join();
        let _ = std::panic::take_hook();
        let _ = std::fs::remove_dir_all(&base);
        match r {
            Ok(()) => {}
            Err(e) => {
                if e.downcast_ref::<rt::sys::AssumeFailed>().is_some() {
                    skipped += 1;
                } else if let Some(l) = e.downcast_ref::<rt::sys::AssertFailed>() {
                    println!("REPRODUCED attempt {}: assertion \"{}\" fails", i + 1, l.0);
                    code = 10;
                    break;
                } else {
                    println!("REPRODUCED attempt {}: panic: {}", i + 1, msg.lock().unwrap());
                    code = 10;
                    break;
                }
            }
        }
    }
    if code == 0 {
        println!("not reproduced in {} attempts ({} outside the assumptions)", attempts, skipped);
    }
    std::process::exit(code);
}
