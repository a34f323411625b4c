mod alloc;
mod c01;
mod c02;
mod c03;
mod c04;
mod c10;
mod c11;
mod probe;
mod c12;
mod c07;
mod c08;
mod grammar;
mod c20;
mod c15;
mod c13;
mod c14;
mod c06;
mod c09;
mod c05;
mod c19;
mod c16;
mod c18;
#[cfg(feature = "gssapi")]
mod gss;
mod c17;
mod c21;
mod c22;
mod c23;
mod cb;
mod compat;
mod drive;
mod gen;
mod io;
mod prng;
mod refimpl;
mod report;
mod scram_util;
mod twin;

#[cfg(not(miri))]
#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let Some(prop) = args.get(1) else {
        eprintln!("usage: rv <property> [--replay stream:case]");
        std::process::exit(2);
    };
    report::install_panic_hook();
    if cfg!(miri) {
        // far too slow there, and no reference is judged by it
    } else if let Err(e) = refimpl::self_test() {
        eprintln!("INTERNAL: reference implementation is broken: {e}");
        std::process::exit(2);
    }
    let mut r = report::Run::new(prop, if prop == "C10" || prop == "C21" { "fault_enumeration" } else { "exploration" });
    if args.get(2).map(String::as_str) == Some("--replay") {
        let (s, c) = args.get(3).and_then(|a| a.rsplit_once(':')).expect("stream:case");
        r.only = Some((s.into(), c.parse().expect("case number")));
    }
    match prop.as_str() {
        "C01" => c01::run(&mut r),
        "C02" => c02::run(&mut r),
        "C03" => c03::run(&mut r),
        "C04" => c04::run(&mut r),
        "C10" => c10::run(&mut r),
        "C11" => c11::run(&mut r),
        "C12" => c12::run(&mut r),
        "C07" => c07::run(&mut r),
        "C08" => c08::run(&mut r),
        "C20" => c20::run(&mut r),
        "C15" => c15::run(&mut r),
        "C13" => c13::run(&mut r),
        "C14" => c14::run(&mut r),
        "C06" => c06::run(&mut r),
        "C09" => c09::run(&mut r),
        "C05" => c05::run(&mut r),
        "C19" => c19::run(&mut r),
        "C16" => c16::run(&mut r),
        "C18" => c18::run(&mut r),
        "C17" => c17::run(&mut r),
        "C21" => c21::run(&mut r),
        "C22" => c22::run(&mut r),
        "C23" => c23::run(&mut r),
        _ => {
            eprintln!("unknown property {prop}");
            std::process::exit(2);
        }
    }
    r.released();
    let code = r.finish();
    if code == 0 && std::env::var("RV_ONLY").is_ok() {
        // leak detectors look at a process that returns from main
        return;
    }
    std::process::exit(code);
}
