#[path = "../../ir/ir.rs"]
#[allow(dead_code)]
mod ir;
mod bdd;
mod builtins;
mod check;
mod eval;
mod interp;
mod graph;
mod loops;
mod plan;
mod runner;
mod term;
mod value;
mod vset;
use ir::Codec;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let d = std::fs::read(&a[1]).unwrap();
    let p = ir::Program::dec(&mut &d[..]);
    if a.len() == 2 {
        for (i, f) in p.funcs.iter().enumerate() {
            println!("{i} k{} {} | {} | T:{} | model:{} body:{}", f.kind, f.name, f.full, f.trait_name, f.model_of, f.body.is_some());
        }
        return;
    }
    if a[2] == "show" {
        for f in p.funcs.iter().filter(|f| f.name.contains(&a[3])) {
            println!("== {} {:?}", f.name, f.full);
            if let Some(b) = &f.body {
                for (i, t) in b.locals.iter().enumerate() { println!("  _{i}: {}", p.type_names[*t as usize]); }
                for (i, bb) in b.blocks.iter().enumerate() {
                    println!(" bb{i}:");
                    for s in &bb.stmts { println!("    {:?}", s); }
                    println!("    -> {:?}", bb.term);
                }
            }
        }
        return;
    }
    if a[2] == "check" {
        // engine DUMP check PROP TIER EVIDENCE REPLAY KNOWN
        let p: &'static ir::Program = Box::leak(Box::new(p));
        std::process::exit(runner::check(p, &a[3], &a[4], &a[5], &a[6], &a[7], &a[1]));
    }
    if a[2] == "run" {
        let p: &'static ir::Program = Box::leak(Box::new(p));
        std::thread::Builder::new().stack_size(4 << 30).spawn(move || {
            let t = std::time::Instant::now();
            let mut it = interp::Interp::new(p);
            for kv in &a[4..] {
                let (k, v) = kv.split_once('=').unwrap();
                it.params.insert(k.to_string(), v.parse().unwrap());
            }
            let r = run_root(&mut it, &a[3]);
            println!("{:?} steps {} terms {} time {:?}", r, it.steps, it.cx.terms.len(), t.elapsed());
            let n = |s| it.obls.iter().filter(|o| o.status == s).count();
            println!("held {} refuted {} undecided {}", n(interp::Status::Held), n(interp::Status::Refuted), n(interp::Status::Undecided));
            for o in it.obls.iter().filter(|o| o.status != interp::Status::Held).take(20) {
                println!("  {:?} {} : {}", o.status, o.what, o.detail);
            }
            for c in it.cut_log.iter().take(20) { println!("  cut: {c}"); }
        }).unwrap().join().unwrap();
    }
}

pub fn run_root(it: &mut interp::Interp, name: &str) -> Result<(), String> {
    let Some(f) = it.p.funcs.iter().position(|f| f.name == name || f.name.rsplit("::").next() == Some(name)) else { return Err(format!("missing root {name}")) };
    match it.call(interp::State::new(), f as u32, vec![]) {
        Ok(outs) => {
            for (s, o) in outs {
                if let interp::Out::Panic(p) = o {
                    it.panic_obligation(&s, &p);
                }
            }
            Ok(())
        }
        Err(interp::Bail::Unsup(s)) => Err(s),
        Err(interp::Bail::Need(c)) => Err(format!("need {}", it.cx.show(c, 4))),
        Err(interp::Bail::Cut(c)) => Err(format!("cut {}", it.cx.show(c, 4))),
        Err(interp::Bail::Fuel) => Err("fuel".into()),
    }
}
