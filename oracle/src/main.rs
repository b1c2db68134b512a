#[macro_use]
mod util;
mod model;
mod spec;
mod p1;
mod p2;
mod p3;
mod p4;
mod p5;
mod xml;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("dump-spec") { print!("{}", spec::dump_spec()); return; }
    if args.get(1).map(|s| s.as_str()) == Some("findings") { println!("{}", p5::findings(&args[2])); return; }
    let opt = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    let prop = args.get(1).cloned().unwrap_or_default();
    let seed: u64 = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = opt("--tier").as_deref() == Some("thorough");
    let budget: u64 = opt("--budget").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 600 } else { 40 });
    let replay = opt("--replay").map(|s| { let (f, i) = s.rsplit_once(':').expect("family:index"); (f.to_string(), i.parse().expect("index")) });
    let mut cx = util::Ctx::new(&prop, seed, thorough, replay, opt("--progress").map(Into::into), budget);
    // deep trees must not be mistaken for a defect of the oracle itself: its own walks are recursive
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        match cx.prop.clone().as_str() {
            "C01" => p1::c01(&mut cx), "C02" => p1::c02(&mut cx), "C03" => p1::c03(&mut cx), "C04" => p1::c04(&mut cx),
            "C05" => p2::c05(&mut cx), "C06" => p2::c06(&mut cx), "C07" => p2::c07(&mut cx), "C08" => p2::c08(&mut cx),
            "C09" => p3::c09(&mut cx), "C10" => p3::c10(&mut cx), "C11" => p3::c11(&mut cx), "C12" => p3::c12(&mut cx), "C13" => p3::c13(&mut cx), "C14" => p3::c14(&mut cx),
            "C15" => p4::c15(&mut cx), "C16" => p4::c16(&mut cx), "C17" => p4::c17(&mut cx),
            p => { eprintln!("unknown property {}", p); std::process::exit(2) }
        }
        let rep = cx.report();
        (rep, cx.failures.len())
    }).unwrap();
    let (rep, nfail) = match h.join() { Ok(x) => x, Err(_) => { eprintln!("oracle: internal error"); std::process::exit(3) } };
    if let Some(o) = opt("--out") { util::write_file(&o, &rep) } else { println!("{}", rep) }
    std::process::exit(if nfail > 0 { 1 } else { 0 });
}
