use keride::cesr::*;
use symrt::*;
harnesses! {
    fn h_poc() {
        let raw = bytes::<32>("raw");
        let v = match Verfer::new_with_raw(&raw, Some("B")) { Ok(v) => v, Err(_) => fail("new") };
        let q = match v.qb64() { Ok(v) => v, Err(_) => fail("qb64") };
        observe("q", q.as_bytes());
        let w = match Verfer::new_with_qb64(&q) { Ok(v) => v, Err(_) => fail("parse") };
        check(same(&w.raw(), &raw), "raw round trip");
    }
}
