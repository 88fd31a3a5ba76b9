//! Runs one harness natively on recorded input bytes.
//! usage: replay HARNESS INPUT.bin [--hashes FILE] [--thorough] [--trace]
//! exit 0: ran to the end (or stopped at an assumption); 1: an assertion failed or it panicked.
use h::nd::imp::{Stop, S};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let name = a[1].clone();
    let input = std::fs::read(&a[2]).expect("input file");
    #[cfg(shims)]
    if let Some(i) = a.iter().position(|x| x == "--hashes") {
        for l in std::fs::read_to_string(&a[i + 1]).unwrap().lines() {
            let f: Vec<&str> = l.split(' ').collect();
            let un = |s: &str| (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect::<Vec<u8>>();
            vxhash::table::add(f[0].parse().unwrap(), un(f[1]), un(f[2]));
        }
    }
    let thorough = a.iter().any(|x| x == "--thorough");
    let trace = a.iter().any(|x| x == "--trace");
    let f = h::ALL.iter().find(|x| x.0 == name).expect("no such harness").1;
    let t = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            S.with(|s| {
                let mut s = s.borrow_mut();
                s.input = input;
                s.thorough = thorough;
            });
            std::panic::set_hook(Box::new(|i| {
                if i.payload().downcast_ref::<Stop>().is_none() {
                    eprintln!("{}", i);
                }
            }));
            let r = std::panic::catch_unwind(f);
            S.with(|s| {
                let s = s.borrow();
                let mut tr = s.trace.clone();
                let code = match &r {
                    Ok(()) => {
                        println!("RESULT ok");
                        0
                    }
                    Err(e) => match e.downcast_ref::<Stop>() {
                        Some(Stop("assume", _)) => {
                            println!("RESULT assumption not met");
                            0
                        }
                        Some(Stop(_, l)) => {
                            println!("RESULT assertion failed: {}", l);
                            1
                        }
                        None => {
                            tr.push("panic".into());
                            println!("RESULT panic{}", if s.panics_ok { " (allowed)" } else { "" });
                            if s.panics_ok {
                                0
                            } else {
                                1
                            }
                        }
                    },
                };
                if trace {
                    println!("TRACE {}", tr.join("|"));
                }
                code
            })
        })
        .unwrap();
    std::process::exit(t.join().unwrap_or(1));
}
