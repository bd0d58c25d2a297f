//! Bounded witness search: runs the real library on many inputs against independent
//! oracles, to produce a concrete failing input for a property.  `witness ID tier seed secs`
mod util; mod prog; mod num_cases;
mod tape_cases; mod drv_cases; mod ck_cases; mod fn_cases; mod rec_cases; mod ffi_cases;
use util::T;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (id, tier, seed, secs) = (a[1].as_str(), a[2].as_str(), a[3].parse::<u64>().unwrap_or(1), a[4].parse::<u64>().unwrap_or(20));
    std::panic::set_hook(Box::new(|_| {}));
    util::watchdog(60 + secs);
    let mut t = T::new(seed, tier == "thorough", secs);
    match id {
        "C01" => num_cases::c01(&mut t), "C02" => num_cases::c02(&mut t), "C03" => num_cases::c03(&mut t), "C04" => num_cases::c04(&mut t),
        "C05" => rec_cases::c05(&mut t), "C06" => rec_cases::c06(&mut t), "C07" => rec_cases::c07(&mut t),
        "C08" => tape_cases::c08(&mut t), "C09" => tape_cases::c09(&mut t), "C10" => tape_cases::c10(&mut t),
        "C11" => drv_cases::c11(&mut t), "C12" => drv_cases::c12(&mut t), "C13" => drv_cases::c13(&mut t), "C14" => drv_cases::c14(&mut t), "C15" => drv_cases::c15(&mut t),
        "C19" => fn_cases::c19(&mut t), "C20" => fn_cases::c20(&mut t),
        "C16" => ck_cases::c16(&mut t), "C17" => ck_cases::c17(&mut t), "C18" => ck_cases::c18(&mut t),
        "C21" => ffi_cases::c21(&mut t),
        _ => {}
    }
    println!("CASES {} DISTINCT {}", t.cases, t.distinct.len());
    for s in &t.samples { println!("SAMPLE {}", s.replace('\n', " ")); }
    for s in &t.known { println!("KNOWN {}", s.replace('\n', " ")); }
    if let Some(f) = &t.fail { println!("FAIL {}", f.replace('\n', " ")); std::process::exit(1); }
}
