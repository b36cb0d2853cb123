mod alloc;
mod bignum;
mod dict;
mod enc;
mod fw;
mod gen;
mod macros;
mod model;
mod ops;
mod reader;
mod rng;
mod robust;
mod text;
mod typed;

use fw::*;
use std::sync::atomic::AtomicU64;
use std::time::Duration;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
}

/// the breadcrumb file: survives the death of the process
fn crumbs(path: &str) -> Option<&'static [AtomicU64]> {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).ok()?;
    f.set_len(4096).ok()?;
    let p = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 1, f.as_raw_fd(), 0) };
    if p as isize == -1 { return None }
    Some(unsafe { std::slice::from_raw_parts(p as *const AtomicU64, 512) })
}

fn monitors(ctx: &Ctx) -> Vec<Stream> {
    match ctx.pid.as_str() {
        "C01" => text::c01(ctx),
        "C02" => text::c02(ctx),
        "C03" => enc::c03(ctx),
        "C04" => enc::c04(ctx),
        "C05" => enc::c05(ctx),
        "C06" => typed::c06(ctx),
        "C07" => typed::c07(ctx),
        "C08" => ops::c08(ctx),
        "C09" => ops::c09(ctx),
        "C10" => ops::c10(ctx),
        "C11" => ops::c11(ctx),
        "C12" => ops::c12(ctx),
        "C13" => ops::c13(ctx),
        "C14" => macros::c14(ctx),
        "C15" => ops::c15(ctx),
        "C16" => ops::c16(ctx),
        "C29" => ops::c29(ctx),
        "C17" => robust::c17(ctx),
        "C18" => robust::c18(ctx),
        "C19" => robust::c19(ctx),
        "C20" => robust::c20(ctx),
        "C21" => enc::c21(ctx),
        "C22" => enc::c22(ctx),
        "C30" => enc::c30(ctx),
        p => { eprintln!("no monitor for {}", p); std::process::exit(2) }
    }
}

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}

fn main() {
    let pid = std::env::args().nth(1).unwrap_or_default();
    let seed: u64 = arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = match arg("--tier").as_deref() { Some("thorough") => Tier::Thorough, Some("mini") => Tier::Mini, _ => Tier::Quick };
    let repo = arg("--repo").unwrap_or_else(|| "/repo".into());
    let budget: f64 = arg("--budget").and_then(|s| s.parse().ok()).unwrap_or(120.0);
    let threads: usize = arg("--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    let gb: u64 = arg("--mem-gb").and_then(|s| s.parse().ok()).unwrap_or(16);
    let rep = arg("--report").unwrap_or_else(|| "/dev/null".into());
    if gb > 0 { unsafe { setrlimit(9, &[gb << 30, gb << 30]); } }
    let ctx = Ctx { pid: pid.clone(), seed, tier, dict: dict::harvest(&repo) };
    if pid == "dict" { println!("{:?}", ctx.dict); return }
    install_hook();
    if tier == Tier::Mini { gen::LIMIT.store(10, std::sync::atomic::Ordering::Relaxed) }
    // C17 speaks of an ordinary thread stack
    let stack = arg("--stack-mb").and_then(|s| s.parse().ok()).unwrap_or(if pid == "C17" { 2usize } else { 64 }) << 20;
    if pid == "probe" { return robust::probe(&arg("--name").unwrap(), arg("--n").unwrap().parse().unwrap()) }
    if pid == "digests" { for d in robust::digests(&ctx, arg("--n").unwrap().parse().unwrap(), &arg("--order").unwrap()) { println!("{:016x}", d) } return }
    if pid == "corpus" { return robust::corpus(&ctx, arg("--n").unwrap().parse().unwrap(), &arg("--out").unwrap()) }
    let streams = monitors(&ctx);

    if std::env::args().any(|a| a == "--list") { for s in &streams { println!("STREAM {}", s.name) } return }

    // one case again, in a process of its own
    if let Some(c) = arg("--case") {
        let (s, i) = c.rsplit_once(':').unwrap();
        let s = match streams.iter().find(|x| x.name == s) { Some(s) => s, None => { eprintln!("no such stream"); std::process::exit(2) } };
        let idx: u64 = i.parse().unwrap();
        let r = std::thread::scope(|sc| std::thread::Builder::new().stack_size(stack).spawn_scoped(sc, || { let mut w = Wk::new(&ctx); run_case(&mut w, s, idx) }).unwrap().join());
        match r {
            Ok(Ok(())) => { println!("CASE-OK"); return }
            Ok(Err(m)) => { println!("CASE-FAILS {}", m); std::process::exit(1) }
            Err(_) => { println!("CASE-FAILS thread panicked"); std::process::exit(1) }
        }
    }

    let o = Opts {
        threads,
        stack,
        budget: Duration::from_secs_f64(budget),
        crumbs: arg("--crumbs").and_then(|p| crumbs(&p)),
        hang: Duration::from_secs(30),
        shard: arg("--shard").and_then(|s| s.split_once('/').map(|(a, b)| (a.parse().unwrap(), b.parse().unwrap()))).unwrap_or((0, 1)),
    };
    let r = run(&ctx, &streams, &o);
    let mut j = String::from("{");
    j.push_str(&format!("\"evaluations\": {}, \"distinct\": {}, \"wall\": {:.3}, \"capped\": {}, ", r.evals, r.distinct, r.wall, r.capped));
    j.push_str("\"counts\": {");
    j.push_str(&r.counts.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", "));
    j.push_str("}, \"streams\": [");
    j.push_str(&r.streams.iter().map(|(n, d, t, e)| format!("{{\"name\": {}, \"done\": {}, \"of\": {}, \"exhaustive\": {}}}", json_str(n), d, t, e)).collect::<Vec<_>>().join(", "));
    j.push_str("], \"samples\": [");
    j.push_str(&r.samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "));
    j.push_str("], \"violations\": [");
    j.push_str(&r.violations.iter().map(|v| format!("{{\"stream\": {}, \"idx\": {}, \"msg\": {}}}", json_str(&v.stream), v.idx, json_str(&v.msg))).collect::<Vec<_>>().join(", "));
    j.push_str("]}\n");
    std::fs::write(&rep, &j).unwrap();
    if rep == "/dev/null" { print!("{}", j) }
    std::process::exit(if r.violations.is_empty() { 0 } else { 1 });
}
