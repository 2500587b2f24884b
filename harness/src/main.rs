//! Replays behaviours of the TLA+ specification (ndjson, one event per line) on the real crate.
//!
//!   conform run EVENTS.ndjson RESULT.json REPLAY_DIR [types]   mode A: compare with expectations
//!   conform record EVENTS.ndjson TRACE.ndjson                  mode B: log what the code did
mod ops;
mod val;
use ops::{exec_flt, exec_num};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use val::{literal, matches, Scal, Tol, Val};

fn exec<T: Scal>(flt: Option<fn(&str, &[Val<T>]) -> Option<Val<T>>>, op: &str, args: &[Val<T>]) -> Result<Val<T>, String> {
    let r = catch_unwind(AssertUnwindSafe(|| {
        if let Some(f) = flt {
            if let Some(r) = f(op, args) {
                return Some(r);
            }
        }
        exec_num(op, args)
    }));
    match r {
        Ok(Some(v)) => Ok(v),
        // applied to something an earlier call should not have returned
        Ok(None) if args.iter().any(|a| matches!(a, Val::None | Val::Err | Val::Panic(_))) => {
            Ok(Val::Panic(format!("{} applied to nothing", op)))
        }
        Ok(None) => Err(format!(
            "no operation {} on ({}) for {}",
            op,
            args.iter().map(|a| a.kind()).collect::<Vec<_>>().join(","),
            T::NAME
        )),
        Err(e) => {
            let s = if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            Ok(Val::Panic(s))
        }
    }
}

#[derive(Default)]
struct Stats {
    steps: u64,
    compared: u64,
    programs: u64,
    per_op: BTreeMap<String, u64>,
    kf: BTreeMap<String, (u64, String)>,
    violations: Vec<Value>,
    nviol: u64,
}

struct Machine<T> {
    regs: Vec<Option<Val<T>>>,
    unit: i64,
    on: bool,
    start: usize,
}

/// the line being executed, and the number of calls made so far
static LINE: AtomicU64 = AtomicU64::new(0);
static CALLS: AtomicU64 = AtomicU64::new(0);

/// A call that does not return within the limit is reported like a crash: exit code 3, "STUCK <line>".
fn watchdog(secs: u64) {
    std::thread::spawn(move || {
        let (mut last, mut since) = (u64::MAX, std::time::Instant::now());
        loop {
            std::thread::sleep(std::time::Duration::from_millis(200));
            let c = CALLS.load(Ordering::Relaxed);
            let l = LINE.load(Ordering::Relaxed);
            if c != last || l == 0 {
                last = c;
                since = std::time::Instant::now();
            } else if since.elapsed().as_secs() >= secs {
                eprintln!("STUCK {}", l);
                std::process::exit(3);
            }
        }
    });
}

struct Ev {
    line: usize,
    v: Value,
}

fn run_type<T: Scal>(
    evs: &[Ev],
    flt: Option<fn(&str, &[Val<T>]) -> Option<Val<T>>>,
    st: &mut Stats,
    record: &mut Option<std::fs::File>,
    progress: &mut Option<std::fs::File>,
    signs: bool,
) -> Result<(), String> {
    val::SIGNS.with(|z| z.set(0));
    let mut m: Machine<T> = Machine { regs: vec![], unit: 0, on: false, start: 0 };
    for (idx, e) in evs.iter().enumerate() {
        let ev = &e.v;
        let op = ev["op"].as_str().ok_or_else(|| format!("line {}: no op", e.line))?;
        if op == "new" {
            m.regs = (0..16).map(|_| None).collect();
            m.unit = ev["u"].as_i64().unwrap_or(0);
            m.start = idx;
            m.on = ev["ty"].as_array().map(|a| a.iter().any(|x| x == T::NAME)).unwrap_or(false);
            if m.on {
                st.programs += 1;
            }
            if signs {
                val::SIGNS.with(|z| z.set(ev["zs"].as_u64().unwrap_or(2 * e.line as u64 + 1)));
            }
            continue;
        }
        if !m.on {
            continue;
        }
        if let Some(ty) = ev.get("ty").and_then(|x| x.as_array()) {
            if !ty.iter().any(|x| x == T::NAME) {
                continue;
            }
        }
        let mut args = Vec::new();
        for a in ev["args"].as_array().ok_or("no args")? {
            if let Some(r) = a.get("r") {
                let r = r.as_u64().ok_or("bad register")? as usize;
                args.push(m.regs[r].clone().ok_or_else(|| format!("line {}: empty register {}", e.line, r))?);
            } else {
                args.push(literal::<T>(a, m.unit).map_err(|x| format!("line {}: {}", e.line, x))?);
            }
        }
        LINE.store(e.line as u64, Ordering::Relaxed);
        CALLS.fetch_add(1, Ordering::Relaxed);
        if let Some(p) = progress {
            use std::io::Seek;
            p.rewind().and_then(|_| write!(p, "{:>12}", e.line)).map_err(|x| x.to_string())?;
        }
        let got = exec(flt, op, &args).map_err(|x| format!("line {}: {}", e.line, x))?;
        LINE.store(0, Ordering::Relaxed);
        st.steps += 1;
        if let Some(f) = record {
            // only the discrete choices of the code go into the trace; numbers are compared in the second replay
            let o = json!({"ty": T::NAME, "op": op, "u": m.unit, "arg": ev["args"][0]["v"], "piv": got.indices()});
            writeln!(f, "{}", o).map_err(|x| x.to_string())?;
        }
        if let Some(exp) = ev.get("exp") {
            let base = if T::NAME == "f32" { 1e-4 } else { 1e-9 };
            let k = match ev.get("k") {
                Some(x) => val::num(x)?,
                None => 1.0,
            };
            let mut rel = base * k;
            if T::NAME == "f32" {
                if let Some(x) = ev.get("t32") {
                    rel = 10f64.powi(-(x.as_i64().unwrap_or(4) as i32));
                }
            } else if let Some(x) = ev.get("t64") {
                rel = 10f64.powi(-(x.as_i64().unwrap_or(9) as i32));
            }
            let exp = match exp.get(T::NAME) {
                Some(x) => x,
                None => exp,
            };
            let (ok, kf) = matches(&got, exp, Tol { rel, unit: m.unit }).map_err(|x| format!("line {}: {}", e.line, x))?;
            st.compared += 1;
            *st.per_op.entry(op.to_string()).or_insert(0) += 1;
            if let (true, Some(id)) = (ok, kf) {
                let d = st.kf.entry(id).or_insert((0, format!("{}({}) = {} [{}]", op, args.iter().map(|a| a.show()).collect::<Vec<_>>().join(", "), got.show(), T::NAME)));
                d.0 += 1;
            }
            if !ok {
                st.nviol += 1;
                if st.violations.len() < 20 {
                    let mut program: Vec<Value> = evs[m.start..=idx].iter().map(|x| x.v.clone()).collect();
                    if signs {
                        program[0]["zs"] = json!(2 * evs[m.start].line as u64 + 1);
                    }
                    st.violations.push(json!({
                        "op": op, "type": T::NAME, "line": e.line, "unit": m.unit,
                        "args": args.iter().map(|a| a.show()).collect::<Vec<_>>(),
                        "got": got.show(), "expected": exp, "tolerance": rel,
                        "program": program, "signed_zeros": signs,
                    }));
                }
                m.on = false; // the rest of this program is built on a wrong object
                continue;
            }
        }
        if let Some(d) = ev.get("dst").and_then(|x| x.as_u64()) {
            m.regs[d as usize] = Some(got);
        }
    }
    Ok(())
}

impl<T: Scal> Val<T> {
    /// index lists inside a result (empty if there is none, e.g. after a panic)
    fn indices(&self) -> Vec<usize> {
        match self {
            Val::Tup(x) => x.iter().flat_map(|a| a.indices()).collect(),
            Val::Us(x) => x.clone(),
            _ => vec![],
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 4 {
        eprintln!("usage: conform run EVENTS RESULT | conform record EVENTS TRACE");
        std::process::exit(2);
    }
    std::panic::set_hook(Box::new(|_| {}));
    let f = std::fs::File::open(&a[2]).expect("events file");
    let mut evs = Vec::new();
    for (i, l) in BufReader::new(f).lines().enumerate() {
        let l = l.expect("read");
        if l.trim().is_empty() {
            continue;
        }
        match serde_json::from_str(&l) {
            Ok(v) => evs.push(Ev { line: i + 1, v }),
            Err(e) => {
                eprintln!("line {}: {}", i + 1, e);
                std::process::exit(2);
            }
        }
    }
    let mut rec = if a[1] == "record" { Some(std::fs::File::create(&a[3]).expect("trace")) } else { None };
    let types: Vec<&str> = match a.get(4) {
        Some(s) => s.split(',').collect(),
        None => vec!["f64", "f32", "f64z", "f32z", "i64", "i32", "u8"],
    };
    let mut st = Stats::default();
    // with PROGRESS=<file> the line about to be executed is on disk (to locate a crash of the process)
    let mut progress = std::env::var("PROGRESS").ok().map(|p| std::fs::File::create(p).expect("progress file"));
    watchdog(30);
    let mut r = Ok(());
    for t in types {
        r = match t {
            "f64" => run_type::<f64>(&evs, Some(exec_flt), &mut st, &mut rec, &mut progress, false),
            "f32" => run_type::<f32>(&evs, Some(exec_flt), &mut st, &mut rec, &mut progress, false),
            // the same programs once more, with zeros of either sign
            "f64z" => run_type::<f64>(&evs, Some(exec_flt), &mut st, &mut rec, &mut progress, true),
            "f32z" => run_type::<f32>(&evs, Some(exec_flt), &mut st, &mut rec, &mut progress, true),
            "i64" => run_type::<i64>(&evs, None, &mut st, &mut rec, &mut progress, false),
            "i32" => run_type::<i32>(&evs, None, &mut st, &mut rec, &mut progress, false),
            "u8" => run_type::<val::U8>(&evs, None, &mut st, &mut rec, &mut progress, false),
            _ => Err(format!("unknown type {}", t)),
        };
        if r.is_err() {
            break;
        }
    }
    if let Err(e) = r {
        eprintln!("harness error: {}", e);
        std::process::exit(2);
    }
    if a[1] == "run" {
        let out = json!({
            "steps": st.steps, "compared": st.compared, "programs": st.programs, "per_op": st.per_op,
            "known": st.kf.iter().map(|(k, v)| (k.clone(), json!({"count": v.0, "sample": v.1}))).collect::<BTreeMap<_, _>>(),
            "violations": st.violations, "n_violations": st.nviol,
        });
        std::fs::write(&a[3], serde_json::to_string(&out).unwrap()).expect("result");
    }
}
