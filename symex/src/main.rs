//! symex PROG.ll: executes entry points of a whole-program LLVM IR module symbolically.
//! Protocol (stdin -> "RUN <entry> <seed>", "FUNCS", "STATS"; stdout -> nodes, branch questions, obligations, "X <status>").
mod exec;
mod mem;
mod parse;
mod term;

use exec::{Exec, Stop};
use parse::{Module, Sym};

fn main() {
    let path = std::env::args().nth(1).expect("usage: symex prog.ll");
    let h = std::thread::Builder::new()
        .stack_size(4 << 30)
        .spawn(move || {
            let m = Module::load(&path);
            let mut ex = Exec::new(m);
            ex.say("READY");
            while let Some(l) = ex.readline() {
                let w: Vec<&str> = l.split_whitespace().collect();
                match w.first().copied() {
                    Some("RUN") => {
                        ex.seed = w[2].parse().unwrap();
                        if let Some(l) = w.get(3) {
                            ex.limit = l.parse().unwrap();
                        }
                        ex.reset();
                        ex.magic.clear();
                        ex.files.clear();
                        let f = match ex.m.syms.get(w[1]) {
                            Some(Sym::F(i)) => *i,
                            _ => {
                                ex.say("X noentry");
                                continue;
                            }
                        };
                        let r = ex.call(f, vec![]);
                        let st = match r {
                            Ok(_) => "ok".to_string(),
                            Err(Stop::MemErr(s)) => format!("memerr {s} in {}", trace(&ex)),
                            Err(Stop::Unsup(s)) => format!("unsup {s} in {}", trace(&ex)),
                            Err(Stop::NeedBool(n)) => format!("unsup boolean store {n}"),
                            Err(Stop::Panic(s)) => format!("panic {s}"),
                            Err(Stop::AssumeFail) => "assumefail".to_string(),
                            Err(Stop::Abort(s)) => format!("abort {s} in {}", trace(&ex)),
                            Err(Stop::Limit) => "limit".to_string(),
                        };
                        let steps = ex.steps;
                        ex.say(&format!("X {steps} {st}"));
                    }
                    Some("FUNCS") => {
                        let v = ex.functions();
                        for f in v {
                            ex.say(&format!("F {f}"));
                        }
                        ex.say("F.");
                    }
                    Some("QUIT") | None => break,
                    _ => ex.say("?"),
                }
            }
        })
        .unwrap();
    h.join().unwrap();
}

fn trace(ex: &Exec) -> String {
    ex.stack.iter().rev().take(8).map(|f| ex.m.funcs[*f as usize].name).collect::<Vec<_>>().join(" < ")
}
