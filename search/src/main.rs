mod cases; mod fmto; mod gram; mod lexo; mod names; mod props;
use cases::*; use gram::Rng; use props::{run, Case};
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::sync::{atomic::*, Arc, Mutex};
use std::time::{Duration, Instant};
fn esc(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", '\r' => o += "\\r", '\t' => o += "\\t", c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) } } o.push('"'); o }
fn case(id: &str, gen: &Gen, rng: &mut Rng) -> Case {
    let lexical = matches!(id, "C01" | "C02" | "C03" | "C06");
    if id == "C14" {
        let n = if rng.chance(0.01) { 20 + rng.below(150) } else { rng.below(12) };
        if rng.chance(0.01) { let k = 1 + rng.below(70); return Case { entry: "", text: ">".repeat(k) + &(0..n).map(|_| ['T', '>', '<', 's', 'B', 'n', 'T'][rng.below(7)]).collect::<String>() + "TBTnT" } }
        return Case { entry: "", text: (0..n).map(|_| ['T', '>', '<', 's', 'B', 'n', 'T'][rng.below(7)]).collect() }
    }
    if lexical && rng.chance(if id == "C06" || id == "C03" { 0.4 } else { 0.85 }) { return Case { entry: "StoredDefinition", text: noise(rng) } }
    let parse = matches!(id, "C03" | "C04" | "C05" | "C06");
    // the operator procedures are only ever called on an operator
    let mut entry = if parse && rng.chance(0.6) { gen.g.names[rng.below(gen.g.names.len())] } else { "StoredDefinition" };
    if matches!(entry, "RelationalOperator" | "AddOperator" | "MulOperator") { entry = "Relation" }
    if entry == "OutputExpressionList" { entry = "Primary" }
    let mut v = gen.sentence(entry, rng);
    if matches!(id, "C03" | "C04" | "C06") && rng.chance(0.65) { mutate(&mut v, rng) }
    let mut text = layout(&v, rng);
    if id == "C06" && rng.chance(0.1) { let mut k = rng.below(text.len() + 1); while !text.is_char_boundary(k) { k -= 1 } text.truncate(k) }
    Case { entry, text }
}
fn shrink(id: &str, gen: &Gen, c: &Case) -> (Case, String) {
    let mut best = c.clone();
    let mut why = run(id, &gen.g, c).unwrap_err();
    let t0 = Instant::now();
    let mut size = (best.text.chars().count() / 2).max(1);
    loop {
        let ch: Vec<char> = best.text.chars().collect();
        let mut ok = false;
        let mut i = 0;
        while i < ch.len() && t0.elapsed() < Duration::from_secs(5) {
            let s: String = ch[..i].iter().chain(ch[(i + size).min(ch.len())..].iter()).collect();
            let n = Case { entry: best.entry, text: s };
            if let Err(w) = run(id, &gen.g, &n) { best = n; why = w; ok = true; break }
            i += (size / 2).max(1);
        }
        if t0.elapsed() > Duration::from_secs(5) { break }
        if !ok { if size == 1 { break } size = (size / 2).max(1) } else { size = size.min((best.text.chars().count() / 2).max(1)) }
    }
    (best, why)
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| ()));
    let gen = Arc::new(Gen::new());
    let id: String = a.get(2).cloned().unwrap_or_default();
    if a[1] == "replay" {
        // search replay ID ENTRY FILE: 1 and a line if the property fails on the file's text
        let text = std::fs::read_to_string(&a[4]).unwrap();
        let entry = gen.g.names.iter().find(|n| **n == a[3]).copied().unwrap_or("");
        let g2 = gen.clone();
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::Builder::new().stack_size(1 << 30).spawn(move || { let _ = tx.send(run(&id, &g2.g, &Case { entry, text })); }).unwrap();
        match rx.recv_timeout(Duration::from_secs(20)) { Ok(Ok(_)) => { println!("holds"); } Ok(Err(e)) => { println!("{}", e); std::process::exit(1) } Err(_) => { println!("does not end within 20 s"); std::process::exit(1) } }
        return;
    }
    if a[1] == "show" { let mut r = Rng(a[3].parse().unwrap(), 0.0); for _ in 0..a[4].parse().unwrap() { let c = case(&id, &gen, &mut r); println!("--- {}\n{}\n=> {:?}", c.entry, c.text, run(&id, &gen.g, &c)); } return }
    if a[1] == "fmt" {
        // search fmt FILE: the formatted text with its line end, or exit code 1
        let t = std::fs::read_to_string(&a[2]).unwrap();
        let r = std::thread::Builder::new().stack_size(1 << 30).spawn(move || { let p = mofmt::parse("x", &t, mofmt::SyntaxKind::StoredDefinition); if p.errors.is_empty() { Some(mofmt::pretty_print(p.tokens, p.comments, p.events)) } else { None } }).unwrap().join();
        match r { Ok(Some(t)) => println!("{}", t), _ => std::process::exit(1) }
        return;
    }
    if a[1] == "pool" {
        // search pool SEED N: one line of JSON, source texts with their formatted form (null: not accepted)
        let (seed, n): (u64, usize) = (a[2].parse().unwrap(), a[3].parse().unwrap());
        std::thread::Builder::new().stack_size(1 << 30).spawn(move || {
            let mut rng = Rng(seed.wrapping_mul(0x9e3779b9).wrapping_add(77), 0.0);
            let form = |t: &str| std::panic::catch_unwind(|| { let p = mofmt::parse("x", t, mofmt::SyntaxKind::StoredDefinition); if p.errors.is_empty() { Some(mofmt::pretty_print(p.tokens, p.comments, p.events)) } else { None } }).unwrap_or(None);
            let mut out: Vec<String> = vec![];
            for k in 0..n {
                let mut v = gen.sentence("StoredDefinition", &mut rng);
                if k % 4 == 3 { mutate(&mut v, &mut rng) }
                let mut t = layout(&v, &mut rng);
                if k % 3 == 1 { if let Some(f) = form(&t) { t = f + ["\n", "\n", "", "\n\n", "\r\n", " \n"][rng.below(6)] } }
                let f = form(&t);
                out.push(format!("[{},{}]", esc(&t), f.map_or("null".to_string(), |f| esc(&f))));
            }
            println!("[{}]", out.join(","));
        }).unwrap().join().unwrap();
        return;
    }
    // search run ID SEED MILLIS THREADS CURDIR
    let seed: u64 = a[3].parse().unwrap(); let ms: u64 = a[4].parse().unwrap(); let nt: usize = a[5].parse().unwrap(); let dir = a[6].clone();
    let stop = Arc::new(AtomicBool::new(false));
    let fail: Arc<Mutex<Option<Case>>> = Arc::new(Mutex::new(None));
    let evals = Arc::new(AtomicU64::new(0));
    let seen: Arc<Mutex<HashSet<u64>>> = Arc::new(Mutex::new(HashSet::new()));
    let samples: Arc<Mutex<Vec<Case>>> = Arc::new(Mutex::new(vec![]));
    let t0 = Instant::now();
    let cur: Arc<Vec<Mutex<(u64, Case)>>> = Arc::new((0..nt).map(|_| Mutex::new((0, Case { entry: "", text: String::new() }))).collect());
    let mut hs = vec![];
    for w in 0..nt {
        let (gen, stop, fail, evals, seen, samples, id, dir, cur) = (gen.clone(), stop.clone(), fail.clone(), evals.clone(), seen.clone(), samples.clone(), id.clone(), dir.clone(), cur.clone());
        hs.push(std::thread::Builder::new().stack_size(1 << 28).spawn(move || {
            let mut rng = Rng(seed.wrapping_mul(0x1234567).wrapping_add(w as u64 * 7919), 0.0);
            let mut local = HashSet::new();
            while !stop.load(Ordering::Relaxed) {
                let c = case(&id, &gen, &mut rng);
                *cur[w].lock().unwrap() = (t0.elapsed().as_millis() as u64 + 1, c.clone());
                if id == "C06" || id == "C07" { let _ = std::fs::write(format!("{}/cur{}", dir, w), format!("{}\n{}", c.entry, c.text)); }
                let r = run(&id, &gen.g, &c);
                cur[w].lock().unwrap().0 = 0;
                evals.fetch_add(1, Ordering::Relaxed);
                match r {
                    Ok(true) => { let mut h = std::collections::hash_map::DefaultHasher::new(); (c.entry, &c.text).hash(&mut h); if local.insert(h.finish()) && local.len() % 1000 == 1 { let mut s = samples.lock().unwrap(); if s.len() < 4 && c.text.len() < 400 { s.push(c) } } }
                    Ok(false) => (),
                    Err(_) => { let mut f = fail.lock().unwrap(); if f.is_none() { *f = Some(c) } stop.store(true, Ordering::Relaxed) }
                }
            }
            seen.lock().unwrap().extend(local);
        }).unwrap());
    }
    let mut hang = None;
    while !stop.load(Ordering::Relaxed) {
        std::thread::sleep(Duration::from_millis(20));
        let now = t0.elapsed().as_millis() as u64;
        for c in cur.iter() { let c = c.lock().unwrap(); if c.0 > 0 && now > c.0 + 8000 { hang = Some(c.1.clone()) } }
        if hang.is_some() { break }
        if now > ms { stop.store(true, Ordering::Relaxed) }
    }
    let (f, why) = if let Some(c) = hang { (Some(c), "does not end within 8 s".to_string()) } else {
        for h in hs { let _ = h.join(); }
        let f = fail.lock().unwrap().clone();
        match f { Some(c) => { let g2 = gen.clone(); let (c, w) = std::thread::Builder::new().stack_size(1 << 30).spawn(move || shrink(&id, &g2, &c)).unwrap().join().unwrap(); (Some(c), w) } None => (None, String::new()) }
    };
    let s: Vec<String> = samples.lock().unwrap().iter().map(|c| format!("{{\"entry\":{},\"text\":{}}}", esc(c.entry), esc(&c.text))).collect();
    let fs = f.map_or("null".to_string(), |c| format!("{{\"entry\":{},\"text\":{},\"why\":{}}}", esc(c.entry), esc(&c.text), esc(&why)));
    println!("{{\"evaluations\":{},\"distinct\":{},\"samples\":[{}],\"failure\":{}}}", evals.load(Ordering::Relaxed), seen.lock().unwrap().len(), s.join(","), fs);
    std::process::exit(0);
}
