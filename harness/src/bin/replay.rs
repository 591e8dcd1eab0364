//! kh-replay ENTRY FILE: run one harness natively on a recorded assignment.
//! FILE lines: `P name value` (parameter), `I name hex` (input, in order).
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let f = match kh::find(&a[1]) {
        Some(f) => f,
        None => {
            println!("NOENTRY");
            std::process::exit(5)
        }
    };
    let t = std::fs::read_to_string(&a[2]).unwrap();
    symrt::RT.with(|r| {
        let mut r = r.borrow_mut();
        for l in t.lines() {
            let w: Vec<&str> = l.split('\t').collect();
            match w[0] {
                "P" => {
                    r.params.insert(w[1].into(), w[2].parse().unwrap());
                }
                "I" => {
                    let h = w.get(2).copied().unwrap_or("");
                    let b = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
                    r.inputs.push((w[1].into(), b));
                }
                _ => {}
            }
        }
    });
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}:{}", l.file(), l.line(), l.column())).unwrap_or_default();
        symrt::finish(3, &format!("PANIC {}", l));
    }));
    f();
    symrt::finish(0, "OK");
}
