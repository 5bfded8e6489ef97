//! symex: symbolic execution of rustc-emitted LLVM IR with an SMT solver.
mod builtin;
mod exec;
mod expr;
mod fs;
mod ir;
mod mem;
mod z3;

use exec::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write;
use std::rc::Rc;
use std::sync::atomic::Ordering::SeqCst;
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 0x20 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o + "\""
}

fn spawn_extra(x: &mut Ex) {
    // give pending work to idle workers
    while x.pending.len() > 0 {
        let sh = unsafe { &*x.shared };
        let a = sh.active.load(SeqCst);
        if a >= x.cfg.workers {
            return;
        }
        if sh.active.compare_exchange(a, a + 1, SeqCst, SeqCst).is_err() {
            continue;
        }
        let pid = unsafe { fork() };
        if pid < 0 {
            sh.active.fetch_sub(1, SeqCst);
            return;
        }
        if pid == 0 {
            // child: take the oldest pending state only
            let s = x.pending.remove(0);
            x.pending.clear();
            x.pending.push(s);
            x.children.clear();
            x.st = Stats::default();
            for f in x.fcache.iter().flatten() {
                for c in f.cov.borrow_mut().iter_mut() {
                    *c = false;
                }
                f.hits.set(0);
            }
            let code = work(x);
            finish(x);
            unsafe { _exit(code) };
        } else {
            x.pending.remove(0);
            x.children.push(pid);
        }
    }
}

/// decodes every function; reports what the decoder does not know
fn decode_all(x: &mut Ex) -> i32 {
    let mut all = vec![];
    for (i, m) in x.prog.mods.iter().enumerate() {
        for n in m.fdefs.keys() {
            all.push((i as u32, *n));
        }
    }
    let mut intr = std::collections::BTreeSet::new();
    let mut bad = std::collections::BTreeMap::new();
    std::panic::set_hook(Box::new(|_| ()));
    let n = all.len();
    for (m, name) in all {
        let id = x.prog.fn_ref(m, name);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| x.prog.decode(&mut x.pool, id)));
        match r {
            Ok(f) => {
                for b in &f.blocks {
                    for i in &b.code {
                        if let ir::I::Call(c) = i {
                            if let ir::Callee::Intr(n) = &c.callee {
                                intr.insert(n.to_string());
                            }
                        }
                    }
                }
            }
            Err(e) => {
                let e = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                bad.entry(e.split(" at:").next().unwrap().chars().take(200).collect::<String>()).or_insert((0, String::from_utf8_lossy(name).to_string())).0 += 1;
            }
        }
    }
    println!("{} functions", n);
    for (e, (n, f)) in bad {
        println!("BAD {} {} e.g. {}", n, e, f);
    }
    for i in intr {
        println!("INTR {}", i);
    }
    for f in &x.prog.fns {
        if f.def.is_none() && f.builtin == 0 {
            println!("UNDEF {}", f.name);
        }
    }
    0
}

fn work(x: &mut Ex) -> i32 {
    while let Some(mut s) = x.pending.pop() {
        let sh = unsafe { &*x.shared };
        if sh.stop.load(SeqCst) != 0 {
            if sh.stop.load(SeqCst) == 2 {
                x.incomplete("time limit: unexplored paths".into());
            }
            x.pending.clear();
            break;
        }
        let end = x.run(&mut s);
        match end {
            End::Done => x.st.paths += 1,
            End::Killed => x.st.killed += 1,
            End::Violation => x.st.paths += 1,
            End::Stop => {}
        }
        if x.cfg.workers > 1 && !x.pending.is_empty() {
            spawn_extra(x);
        }
    }
    0
}

fn finish(x: &mut Ex) {
    // this worker's own exploration is over; wait for the children it started
    unsafe { (*x.shared).active.fetch_sub(1, SeqCst) };
    write_result(x);
    for c in x.children.clone() {
        let mut stt = 0;
        unsafe {
            waitpid(c, &mut stt, 0);
        }
        if stt != 0 {
            let f = format!("{}/crash.{}", x.out_dir, c);
            std::fs::write(f, format!("worker {} ended with status {:#x}\n", c, stt)).unwrap();
        }
    }
}

fn write_result(x: &mut Ex) {
    let s = &x.st;
    let mut o = String::new();
    write!(
        o,
        "{{\"paths\":{},\"killed\":{},\"forks\":{},\"blocks\":{},\"q_branch\":{},\"q_assert\":{},\"q_other\":{},\"q_sat\":{},\"q_unsat\":{},\"q_unknown\":{},\"q_cached\":{},\"q_cubes\":{},\"solver_us\":{},\"max_q_us\":{}",
        s.paths, s.killed, s.forks, s.steps, s.q_branch, s.q_assert, s.q_other, s.q_sat, s.q_unsat, s.q_unknown, s.q_cached, s.q_cubes, s.solver_us, s.max_q_us
    )
    .unwrap();
    o += ",\"asserts\":{";
    o += &s.asserts.iter().map(|(k, v)| format!("{}:[{},{},{}]", esc(k), v[0], v[1], v[2])).collect::<Vec<_>>().join(",");
    o += "}";
    let list = |v: Vec<String>| format!("[{}]", v.join(","));
    o += ",\"covers\":";
    o += &list(s.covers.iter().map(|x| esc(x)).collect());
    o += ",\"expects\":";
    o += &list(s.expects.iter().map(|x| esc(x)).collect());
    o += ",\"incomplete\":";
    o += &list(s.incomplete.iter().map(|x| esc(x)).collect());
    o += ",\"samples\":";
    o += &list(s.samples.iter().map(|x| esc(x)).collect());
    o += ",\"violations\":";
    o += &list(
        s.violations
            .iter()
            .map(|v| {
                format!(
                    "{{\"label\":{},\"order\":{},\"values\":{},\"trace\":{}}}",
                    esc(&v.label),
                    v.order,
                    list(v.values.iter().map(|(n, x)| format!("[{},{}]", esc(n), x)).collect()),
                    list(v.trace.iter().map(|t| esc(t)).collect())
                )
            })
            .collect(),
    );
    // functions and source lines executed, by file
    let mut funcs: BTreeSet<String> = BTreeSet::new();
    let mut lines: BTreeMap<String, BTreeSet<u32>> = BTreeMap::new();
    for f in x.fcache.iter().flatten() {
        let cov = f.cov.borrow();
        if !cov.iter().any(|c| *c) {
            continue;
        }
        let info = &x.prog.fns[f.id as usize];
        let mut mine = false;
        for (i, b) in f.blocks.iter().enumerate() {
            if !cov[i] {
                continue;
            }
            for d in &b.dbg {
                if *d == 0 {
                    continue;
                }
                for (file, l) in x.prog.dbg_lines(info.module, *d) {
                    if file.starts_with("/repo/") {
                        mine = true;
                        lines.entry(file).or_default().insert(l);
                    }
                }
            }
        }
        if mine {
            let p = x.pretty(f.id);
            if p.contains("snips_nlu") {
                funcs.insert(p);
            }
        }
    }
    o += ",\"functions\":";
    o += &list(funcs.iter().map(|x| esc(x)).collect());
    o += ",\"lines\":{";
    o += &lines.iter().map(|(k, v)| format!("{}:[{}]", esc(k), v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",");
    o += "}}";
    let f = format!("{}/result.{}.json", x.out_dir, std::process::id());
    std::fs::write(f, o).unwrap();
}

fn main() {
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap();
    let r = h.join().unwrap_or(3);
    std::process::exit(r);
}

fn real_main() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let get = |n: &str| args.iter().position(|a| a == n).map(|i| args[i + 1].clone());
    let entry = get("--entry").expect("--entry");
    let ir_list = get("--ir").expect("--ir");
    let out = get("--out").expect("--out");
    let workers: u32 = get("--workers").map(|x| x.parse().unwrap()).unwrap_or(1);
    let timeout: u64 = get("--timeout").map(|x| x.parse().unwrap()).unwrap_or(600);
    let qlimit: u32 = get("--query-limit").map(|x| x.parse().unwrap()).unwrap_or(60_000_000);
    let max_steps: u64 = get("--max-steps").map(|x| x.parse().unwrap()).unwrap_or(400_000_000);
    let max_viol: usize = get("--max-violations").map(|x| x.parse().unwrap()).unwrap_or(1);
    let trace = args.iter().any(|a| a == "--trace");
    let deep = args.iter().any(|a| a == "--deep");
    let preset = get("--values").map(|f| {
        let t = std::fs::read_to_string(f).unwrap();
        t.lines()
            .filter_map(|l| {
                let (n, v) = l.rsplit_once(' ')?;
                Some((n.to_string(), v.parse().ok()?))
            })
            .collect::<HashMap<String, u64>>()
    });
    std::fs::create_dir_all(&out).unwrap();
    let t0 = Instant::now();
    let paths: Vec<String> = std::fs::read_to_string(&ir_list).unwrap().lines().map(|s| s.to_string()).filter(|s| !s.is_empty()).collect();
    let prog = ir::Program::load(&paths, builtin::builtin_of);
    if trace {
        eprintln!("indexed {} modules in {:?}", paths.len(), t0.elapsed());
    }
    let z3 = match z3::Z3::new(qlimit) {
        Ok(z) => z,
        Err(e) => {
            eprintln!("{}", e);
            return 3;
        }
    };
    std::fs::write(format!("{}/solver", out), format!("{} ({})\n", z3.version(), z3.path)).unwrap();
    let shared = unsafe {
        let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0);
        prctl(1, 9, 0, 0, 0); // die with the parent
        p as *mut Shared
    };
    unsafe { (*shared).active.store(1, SeqCst) };
    let mut x = Ex {
        prog,
        pool: expr::Pool::new(),
        z3,
        cfg: Cfg { max_steps, deadline: t0 + Duration::from_secs(timeout), trace, max_viol, preset, workers, deep },
        st: Stats::default(),
        pending: vec![],
        gobj: Default::default(),
        fcache: vec![],
        qcache: Default::default(),
        varmap: Default::default(),
        last_model: std::ptr::null(),
        keep_model: Rc::new(vec![]),
        shared,
        children: vec![],
        out_dir: out.clone(),
        errno_addr: 0,
        hot: Default::default(),
    };
    let mut st = State {
        regs: vec![],
        frames: vec![],
        heap: Default::default(),
        stack: vec![],
        gov: Default::default(),
        pc: vec![],
        model: Rc::new(vec![]),
        vals: Default::default(),
        occ: Default::default(),
        fs: Rc::new(fs::Fs::new()),
        order: 0,
        steps: 0,
        depth: 0,
        allow_panic: false,
        thr: None,
    };
    x.errno_addr = x.alloc(&mut st, 8);
    if entry == "--decode-all" {
        return decode_all(&mut x);
    }
    let id = match x.prog.fn_by_name(&entry) {
        Some(i) => i,
        None => {
            eprintln!("no function {}", entry);
            return 3;
        }
    };
    if x.push_call(&mut st, id, &[], ir::NOREG, ir::NOREG, 0).is_err() {
        return 3;
    }
    x.pending.push(st);
    work(&mut x);
    if trace {
        let mut h: Vec<_> = x.hot.iter().collect();
        h.sort_by_key(|a| std::cmp::Reverse(*a.1));
        for (k, v) in h.iter().take(25) {
            eprintln!("fork {:6} {}", v, k);
        }
        eprintln!("{} paths {} killed {} forks {} blocks {} nodes; solver {} ms in {} queries ({} cached), {:?}", x.st.paths, x.st.killed, x.st.forks, x.st.steps, x.pool.n.len(), x.st.solver_us / 1000, x.st.q_sat + x.st.q_unsat + x.st.q_unknown, x.st.q_cached, t0.elapsed());
        for i in &x.st.incomplete {
            eprintln!("incomplete: {}", i);
        }
        for v in &x.st.violations {
            eprintln!("violation: {} {:?}", v.label, v.values);
            for t in &v.trace {
                eprintln!("    {}", t);
            }
        }
    }
    finish(&mut x);
    0
}
