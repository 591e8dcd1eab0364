mod exec;
mod ext;
mod ir;
mod merge;
mod prog;
mod selftest;
mod term;
mod z3;

use std::collections::HashMap;
use std::fmt::Write as _;
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || c as u32 == 127 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn js_inputs(v: &[(String, Vec<u8>)]) -> String {
    format!("[{}]", v.iter().map(|(n, b)| format!("[{},{}]", js(n), js(&hex(b)))).collect::<Vec<_>>().join(","))
}
fn js_list(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(","))
}

struct Job {
    name: String,
    entry: String,
    secs: u64,
    paths: u64,
    params: HashMap<String, u64>,
}

fn run_job(p: prog::Prog, j: &Job, out: &str, trace: bool, found: Option<&str>) {
    let t0 = Instant::now();
    let exts = p.ext.iter().map(|n| ext::resolve(n)).collect();
    let solver_ms = j.params.get("_solver_ms").copied().unwrap_or(60_000) as u32;
    let mut e = exec::Eng {
        p,
        z: z3::Z3::new(solver_ms),
        params: j.params.clone(),
        st: Default::default(),
        viol: vec![],
        samples: vec![],
        sample_every: j.params.get("_sample").copied().unwrap_or(97).max(1),
        max_samples: j.params.get("_samples").copied().unwrap_or(32) as usize,
        exts,
        deadline: t0 + Duration::from_secs(j.secs),
        found: found.map(|f| f.to_string()),
        max_paths: j.paths,
        max_viol: j.params.get("_maxviol").copied().unwrap_or(24) as usize,
        qcache: HashMap::new(),
        prof: HashMap::new(),
        qprof: HashMap::new(),
        trace,
        merging: j.params.get("_nomerge").is_none() && std::env::var("NOMERGE").is_err(),
        regions: vec![],
        cfgs: HashMap::new(),
        max_steps: j.params.get("_maxsteps").copied().unwrap_or(20_000_000),
    };
    let complete = e.run(&j.entry);
    let mut o = String::from("{");
    let s = &e.st;
    let _ = write!(o, "\"name\":{},\"entry\":{},\"complete\":{},", js(&j.name), js(&j.entry), complete);
    let _ = write!(o, "\"wall_s\":{:.3},", t0.elapsed().as_secs_f64());
    let _ = write!(
        o,
        "\"paths\":{},\"paths_ok\":{},\"panics\":{},\"infeasible\":{},\"insts\":{},\"branches\":{},\"forks\":{},\"joined\":{},\"asserts\":{},\"asserts_folded\":{},\"asserts_z3\":{},\"dom_decided\":{},\"cache_hits\":{},\"max_vars\":{},\"max_stack\":{},\"terms\":{},",
        s.paths, s.paths_ok, s.panics, s.infeasible, s.insts, s.branches, s.forks, s.joined, s.asserts, s.asserts_trivial, s.asserts_z3, s.dom_decided, s.cache_hits, s.max_vars, s.max_stack, term::ar().n.len()
    );
    let _ = write!(o, "\"z3\":{{\"version\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"secs\":{:.3}}},", js(&e.z.version), e.z.queries, e.z.sat, e.z.unsat, e.z.unknown, e.z.secs);
    let mut fs: Vec<String> = s.funcs.iter().map(|f| e.p.funs[*f as usize].dem.clone()).collect();
    fs.sort();
    fs.dedup();
    let _ = write!(o, "\"functions\":{},", js_list(&fs));
    let _ = write!(o, "\"reach\":{{{}}},", s.reach.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"errors\":{},", js_list(&s.errors));
    let vs: Vec<String> = e.viol.iter().map(|v| format!("{{\"kind\":{},\"label\":{},\"inputs\":{},\"notes\":{}}}", js(&v.kind), js(&v.label), js_inputs(&v.inputs), js_list(&v.notes))).collect();
    let _ = write!(o, "\"violations\":[{}],", vs.join(","));
    let ss: Vec<String> = e.samples.iter().map(|v| format!("{{\"outcome\":{},\"inputs\":{},\"observed\":{},\"notes\":{}}}", js(&v.outcome), js_inputs(&v.inputs), js_inputs(&v.observed), js_list(&v.notes))).collect();
    let _ = write!(o, "\"samples\":[{}]}}", ss.join(","));
    let tmp = format!("{}.tmp", out);
    std::fs::write(&tmp, o).unwrap();
    std::fs::rename(&tmp, out).unwrap();
    if trace {
        let mut v: Vec<_> = e.qprof.iter().collect();
        v.sort_by(|a, b| b.1 .1.partial_cmp(&a.1 .1).unwrap());
        for (k, x) in v.iter().take(12) {
            eprintln!("queries {} {:.2}s {} :: {:.300}", x.0, x.1, k, x.2);
        }
        let mut v: Vec<_> = e.prof.iter().collect();
        v.sort_by(|a, b| b.1.cmp(a.1));
        for ((f, b), n) in v.into_iter().take(40) {
            eprintln!("{:8} {} bb{}", n, e.p.funs[*f as usize].dem, b);
        }
    }
}

fn main() {
    let av: Vec<String> = std::env::args().collect();
    term::init();
    if av.get(1).map(|s| s == "selftest").unwrap_or(false) {
        let n = av.get(2).and_then(|s| s.parse().ok()).unwrap_or(2000);
        let seed = av.get(3).and_then(|s| s.parse().ok()).unwrap_or(1);
        std::process::exit(if selftest::run(n, seed) { 0 } else { 1 });
    }
    if av.len() < 4 {
        eprintln!("usage: symex MODULE.ll JOBS OUTDIR [-j N] [--trace] [--mem MB]\n       symex selftest [N] [SEED]");
        std::process::exit(2);
    }
    let mut par = 8usize;
    let mut trace = false;
    let mut found: Option<String> = None;
    let mut mem = 12_000u64;
    let mut i = 4;
    while i < av.len() {
        match av[i].as_str() {
            "-j" => {
                par = av[i + 1].parse().unwrap();
                i += 1;
            }
            "--mem" => {
                mem = av[i + 1].parse().unwrap();
                i += 1;
            }
            "--trace" => trace = true,
            // one violation is enough: the other jobs stop soon after it
            "--stop" => found = Some(format!("{}/found", av[3])),
            _ => {}
        }
        i += 1;
    }
    let text = std::fs::read_to_string(&av[1]).expect("module");
    let m = match ir::parse(&text) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("parse: {}", e);
            std::process::exit(2);
        }
    };
    drop(text);
    let p = prog::load(m);
    let mut jobs: Vec<Job> = vec![];
    for l in std::fs::read_to_string(&av[2]).expect("jobs").lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        if w.len() < 4 {
            continue;
        }
        let mut params = HashMap::new();
        for kv in &w[4..] {
            if let Some((k, v)) = kv.split_once('=') {
                params.insert(k.to_string(), v.parse().expect("param"));
            }
        }
        jobs.push(Job { name: w[0].into(), entry: w[1].into(), secs: w[2].parse().unwrap(), paths: w[3].parse().unwrap(), params });
    }
    let _ = std::fs::create_dir_all(&av[3]);
    if trace || par == 0 {
        let j = &jobs[0];
        run_job(p, j, &format!("{}/{}.json", av[3], j.name), trace, None);
        return;
    }
    let mut p = Some(p);
    let mut next = 0;
    let mut running: HashMap<i32, usize> = HashMap::new();
    let mut bad = 0;
    while next < jobs.len() || !running.is_empty() {
        while running.len() < par && next < jobs.len() {
            let pid = unsafe { fork() };
            if pid == 0 {
                unsafe { setrlimit(9, &[mem << 20, mem << 20]) };
                let j = &jobs[next];
                let out = format!("{}/{}.json", av[3], j.name);
                let pp = p.take().unwrap();
                let r = std::thread::Builder::new().stack_size(1 << 30).spawn_scoped_job(pp, j, &out, found.as_deref());
                unsafe { _exit(if r { 0 } else { 3 }) };
            }
            running.insert(pid, next);
            next += 1;
        }
        let mut stt = 0i32;
        let pid = unsafe { waitpid(-1, &mut stt, 0) };
        if let Some(ix) = running.remove(&pid) {
            if stt != 0 {
                bad += 1;
                eprintln!("job {} ended with status {:#x}", jobs[ix].name, stt);
            }
        } else if pid < 0 {
            break;
        }
    }
    std::process::exit(if bad == 0 { 0 } else { 3 });
}

trait SpawnJob {
    fn spawn_scoped_job(self, p: prog::Prog, j: &Job, out: &str, found: Option<&str>) -> bool;
}
struct Sendy<A>(A);
unsafe impl<A> Send for Sendy<A> {}
impl<A> Sendy<A> {
    fn take(self) -> A {
        self.0
    }
}
impl SpawnJob for std::thread::Builder {
    /// run the job on a thread with a large stack (terms are processed recursively)
    fn spawn_scoped_job(self, p: prog::Prog, j: &Job, out: &str, found: Option<&str>) -> bool {
        std::thread::scope(|s| {
            let x = Sendy((p, j, out, found));
            self.spawn_scoped(s, move || {
                let (p, j, out, found) = x.take();
                run_job(p, j, out, false, found)
            })
            .unwrap()
            .join()
            .is_ok()
        })
    }
}
