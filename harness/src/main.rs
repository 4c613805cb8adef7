//! Drives the real elinor library under the simulator: reads a scenario, runs its caller threads against shared
//! stores, builders and testers, and prints every result bit for bit.
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::fmt::{self, Display, Write as _};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Mutex, RwLock};

use elinor::statistical_tests::bootstrap_test::BootstrapTester;
use elinor::statistical_tests::randomized_tukey_hsd_test::RandomizedTukeyHsdTester;
use elinor::statistical_tests::{
    pairs_from_maps, tuples_from_maps, StudentTTest, TukeyHsdTest, TwoWayAnovaWithoutReplication,
};
use elinor::{
    ElinorError, Metric, PredRelStore, PredScore, Record, TrueRelStore, TrueRelStoreBuilder,
};
use serde_json::{json, Value};

// ------------------------------------------------------------------ the simulator, if present
type SimFn = extern "C" fn();
type StepFn = extern "C" fn() -> u64;
extern "C" {
    fn dlsym(handle: *mut u8, name: *const u8) -> *mut u8;
}
static mut YIELD: Option<SimFn> = None;
static mut STEP: Option<StepFn> = None;
static mut BLOCK: Option<SimFn> = None;
static mut BLOCKS: Option<extern "C" fn(i32)> = None;
fn find_sim() {
    unsafe {
        let y = dlsym(std::ptr::null_mut(), c"sim_yield".as_ptr().cast());
        if !y.is_null() {
            YIELD = Some(std::mem::transmute::<*mut u8, SimFn>(y));
        }
        let b = dlsym(std::ptr::null_mut(), c"sim_block".as_ptr().cast());
        if !b.is_null() {
            BLOCK = Some(std::mem::transmute::<*mut u8, SimFn>(b));
        }
        let b = dlsym(std::ptr::null_mut(), c"sim_blocks".as_ptr().cast());
        if !b.is_null() {
            BLOCKS = Some(std::mem::transmute::<*mut u8, extern "C" fn(i32)>(b));
        }
        let s = dlsym(std::ptr::null_mut(), c"sim_step".as_ptr().cast());
        if !s.is_null() {
            STEP = Some(std::mem::transmute::<*mut u8, StepFn>(s));
        }
    }
}
fn sim_yield() {
    unsafe {
        if let Some(f) = YIELD {
            f()
        }
    }
}
/// The library and this driver are compiled with a call of this at every basic block (see simlib/rustc-wrap).
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(_: *mut u32) {
    unsafe {
        if let Some(f) = BLOCK {
            f()
        }
    }
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(_: *mut u32, _: *mut u32) {}
fn sim_blocks(on: bool) {
    unsafe {
        if let Some(f) = BLOCKS {
            f(on as i32)
        }
    }
}
fn sim_step() -> u64 {
    unsafe { STEP.map_or(0, |f| f()) }
}

// ------------------------------------------------------------------ keys that yield and can panic
thread_local! {
    static FUSE: Cell<u64> = const { Cell::new(0) };
}
struct Injected;
thread_local! {
    /// A call that the caller's code makes while it is itself called: how many calls before, and what to do.
    static NEST: Cell<u64> = const { Cell::new(0) };
    static NESTED: std::cell::RefCell<Option<Box<dyn FnOnce()>>> = const { std::cell::RefCell::new(None) };
    /// What the caller's iterators say about their length: 0 exactly, 1 nothing, 2 roughly.
    static HINT: Cell<u64> = const { Cell::new(0) };
}
struct Hinted<I>(I, u64);
impl<I: Iterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let (a, b) = self.0.size_hint();
        match self.1 {
            0 => (a, b),
            1 => (0, None),
            _ => (a / 2, b.map(|b| 2 * b + 3)),
        }
    }
}
fn hinted<I: Iterator>(it: I) -> Hinted<I> {
    Hinted(it, HINT.with(|h| h.get()))
}
/// A caller's code runs here: another thread may run, and the caller's code may panic (a cancelled operation).
fn seam() {
    sim_yield();
    let nest = NEST.with(|f| f.get());
    if nest > 0 {
        NEST.with(|f| f.set(nest - 1));
        if nest == 1 {
            if let Some(f) = NESTED.with(|n| n.borrow_mut().take()) {
                f();
            }
        }
    }
    let left = FUSE.with(|f| f.get());
    if left > 0 {
        FUSE.with(|f| f.set(left - 1));
        if left == 1 {
            std::panic::resume_unwind(Box::new(Injected));
        }
    }
}
#[derive(Debug)]
struct Key(String);
impl PartialEq for Key {
    fn eq(&self, o: &Self) -> bool {
        seam();
        self.0 == o.0
    }
}
impl Eq for Key {}
impl PartialOrd for Key {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Key {
    fn cmp(&self, o: &Self) -> Ordering {
        seam();
        self.0.cmp(&o.0)
    }
}
impl Clone for Key {
    fn clone(&self) -> Self {
        seam();
        Key(self.0.clone())
    }
}
impl Display for Key {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        seam();
        f.write_str(&self.0)
    }
}
trait MakeKey: Eq + Ord + Clone + Display + Send + Sync + 'static {
    fn make(s: &str) -> Self;
    fn text(&self) -> &str;
}
impl MakeKey for Key {
    fn make(s: &str) -> Self {
        Key(s.to_string())
    }
    fn text(&self) -> &str {
        &self.0
    }
}
impl MakeKey for String {
    fn make(s: &str) -> Self {
        s.to_string()
    }
    fn text(&self) -> &str {
        self
    }
}

// ------------------------------------------------------------------ printing
fn hx(x: f64) -> Value {
    if x.is_nan() {
        return Value::String("nan".into());
    }
    Value::String(format!("{:016x}", x.to_bits()))
}
fn hv(x: &[f64]) -> Value {
    Value::Array(x.iter().map(|&v| hx(v)).collect())
}
fn hm(x: &[Vec<f64>]) -> Value {
    Value::Array(x.iter().map(|v| hv(v)).collect())
}
fn packed(x: &[f64]) -> Value {
    let mut o = String::with_capacity(16 * x.len());
    for b in x.iter().flat_map(|v| v.to_bits().to_le_bytes()) {
        o.push(char::from_digit((b >> 4) as u32, 16).unwrap());
        o.push(char::from_digit((b & 15) as u32, 16).unwrap());
    }
    Value::String(o)
}
fn err(e: ElinorError) -> Value {
    let kind = match &e {
        ElinorError::DuplicateEntry(_) => "DuplicateEntry",
        ElinorError::MissingEntry(_) => "MissingEntry",
        ElinorError::Uncomputable(_) => "Uncomputable",
        ElinorError::InvalidArgument(_) => "InvalidArgument",
        ElinorError::InvalidFormat(_) => "InvalidFormat",
    };
    json!({"err": kind, "msg": e.to_string()})
}
fn f(v: &Value) -> f64 {
    f64::from_bits(v.as_u64().expect("bits"))
}
fn s(v: &Value) -> &str {
    v.as_str().expect("string")
}
fn u(v: &Value) -> usize {
    v.as_u64().expect("number") as usize
}

// ------------------------------------------------------------------ shared world
struct World<K> {
    stores: Vec<(TrueRelStore<K>, PredRelStore<K>)>,
    matrices: Vec<Vec<Vec<f64>>>,
    boot: Vec<BootstrapTester>,
    rthsd: Vec<RandomizedTukeyHsdTester>,
    tb: Vec<Mutex<TrueRelStoreBuilder<K>>>,
    pb: Vec<RwLock<elinor::PredRelStoreBuilder<K>>>,
}

fn dump_true<K: MakeKey>(st: &TrueRelStore<K>, probe: &[(String, String)]) -> Value {
    let recs: Vec<_> = st.records().iter().map(|r| json!([r.query_id.text(), r.doc_id.text(), r.score])).collect();
    let q: Vec<_> = st.query_ids().map(|q| {
        let sorted: Vec<_> = st.get_sorted(q).unwrap_or(&[]).iter().map(|r| json!([r.doc_id.text(), r.score])).collect();
        let map: Vec<_> = st.get_map(q).map(|m| m.iter().map(|(d, v)| json!([d.text(), v])).collect()).unwrap_or_default();
        json!([q.text(), sorted, map])
    }).collect();
    let p: Vec<_> = probe.iter().map(|(q, d)| st.get_score(&K::make(q), &K::make(d)).map_or(Value::Null, |v| json!(v))).collect();
    json!({"records": recs, "queries": q, "n_queries": st.n_queries(), "n_docs": st.n_docs(), "probe": p})
}
fn dump_pred<K: MakeKey>(st: &PredRelStore<K>, probe: &[(String, String)]) -> Value {
    let recs: Vec<_> = st.records().iter().map(|r| json!([r.query_id.text(), r.doc_id.text(), hx(r.score.0)])).collect();
    let q: Vec<_> = st.query_ids().map(|q| {
        let sorted: Vec<_> = st.get_sorted(q).unwrap_or(&[]).iter().map(|r| json!([r.doc_id.text(), hx(r.score.0)])).collect();
        let map: Vec<_> = st.get_map(q).map(|m| m.iter().map(|(d, v)| json!([d.text(), hx(v.0)])).collect()).unwrap_or_default();
        json!([q.text(), sorted, map])
    }).collect();
    let p: Vec<_> = probe.iter().map(|(q, d)| st.get_score(&K::make(q), &K::make(d)).map_or(Value::Null, |v| hx(v.0))).collect();
    json!({"records": recs, "queries": q, "n_queries": st.n_queries(), "n_docs": st.n_docs(), "probe": p})
}
/// A writer of the caller's: what is written to it calls the caller's code; it takes a number of bytes.
struct Sink(String, usize);
impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        seam();
        if self.0.len() + s.len() > self.1 {
            return Err(fmt::Error);
        }
        self.0.push_str(s);
        Ok(())
    }
}
fn col(m: &[Vec<f64>], i: usize, j: usize) -> impl Iterator<Item = (f64, f64)> + '_ {
    hinted(m.iter().map(move |r| {
        seam();
        (r[i], r[j])
    }))
}
fn rows(m: &[Vec<f64>]) -> impl Iterator<Item = &Vec<f64>> + '_ {
    hinted(m.iter().inspect(|_| seam()))
}
fn boot_result(r: Result<elinor::statistical_tests::BootstrapTest, ElinorError>) -> Value {
    match r {
        Ok(t) => json!({"p": hx(t.p_value()), "state": t.random_state(), "n": t.n_resamples(), "topics": t.n_topics()}),
        Err(e) => err(e),
    }
}
fn rthsd_result(r: Result<elinor::statistical_tests::RandomizedTukeyHsdTest, ElinorError>) -> Value {
    match r {
        Ok(t) => json!({"p": hm(&t.p_values()), "state": t.random_state(), "n": t.n_iters(), "topics": t.n_topics(), "systems": t.n_systems()}),
        Err(e) => err(e),
    }
}
fn boot_tester(n: &Value, st: &Value) -> BootstrapTester {
    let mut t = BootstrapTester::new();
    if let Some(n) = n.as_u64() {
        t = t.with_n_resamples(n as usize);
    }
    if let Some(v) = st.as_u64() {
        t = t.with_random_state(v);
    }
    t
}
fn rthsd_tester(m: usize, n: &Value, st: &Value) -> RandomizedTukeyHsdTester {
    let mut t = RandomizedTukeyHsdTester::new(m);
    if let Some(n) = n.as_u64() {
        t = t.with_n_iters(n as usize);
    }
    if let Some(v) = st.as_u64() {
        t = t.with_random_state(v);
    }
    t
}
fn map_of<K: MakeKey>(v: &Value) -> BTreeMap<K, f64> {
    v.as_array().unwrap().iter().map(|e| (K::make(s(&e[0])), f(&e[1]))).collect()
}

fn run_op<K: MakeKey>(w: &World<K>, op: &Value) -> Value {
    match s(&op[0]) {
        "eval" => {
            let (t, p) = &w.stores[u(&op[1])];
            let metric: Metric = match s(&op[2]).parse() {
                Ok(m) => m,
                Err(e) => return err(e),
            };
            match elinor::evaluate(t, p, metric) {
                Ok(e) => {
                    let sc: Vec<_> = e.scores().iter().map(|(k, v)| json!([k.text(), hx(*v)])).collect();
                    json!({"scores": sc, "mean": hx(e.mean()), "var": hx(e.variance()), "sd": hx(e.std_dev()), "metric": e.metric().to_string()})
                }
                Err(e) => err(e),
            }
        }
        "xeval" => {
            // predictions of one store against the judgements of another
            let t = &w.stores[u(&op[1])].0;
            let p = &w.stores[u(&op[3])].1;
            let metric: Metric = match s(&op[2]).parse() {
                Ok(m) => m,
                Err(e) => return err(e),
            };
            match elinor::evaluate(t, p, metric) {
                Ok(e) => {
                    let sc: Vec<_> = e.scores().iter().map(|(k, v)| json!([k.text(), hx(*v)])).collect();
                    json!({"scores": sc, "mean": hx(e.mean()), "var": hx(e.variance())})
                }
                Err(e) => err(e),
            }
        }
        "own" => {
            // the caller's own short-lived stores: like shared ones, but with other judgements and scores
            let (t, p) = &w.stores[u(&op[1])];
            let metric: Metric = match s(&op[2]).parse() {
                Ok(m) => m,
                Err(e) => return err(e),
            };
            let (add, negate) = (u(&op[3]) as u32, op[4].as_bool().unwrap());
            let tr = t.records().into_iter().map(|r| Record {
                query_id: r.query_id,
                doc_id: r.doc_id,
                score: if add == 0 { r.score } else { (r.score % 4 + add) % 4 },
            });
            let pr = p.records().into_iter().map(|r| Record {
                query_id: r.query_id,
                doc_id: r.doc_id,
                score: PredScore::from(if negate { -r.score.0 } else { r.score.0 }),
            });
            let t = match TrueRelStore::from_records(tr) {
                Ok(t) => t,
                Err(e) => return err(e),
            };
            let p = match PredRelStore::from_records(pr) {
                Ok(p) => p,
                Err(e) => return err(e),
            };
            let r = match elinor::evaluate(&t, &p, metric) {
                Ok(e) => json!({"scores": e.scores().iter().map(|(k, v)| json!([k.text(), hx(*v)])).collect::<Vec<_>>(), "mean": hx(e.mean())}),
                Err(e) => err(e),
            };
            let a: Vec<_> = t.into_records().into_iter().map(|r| json!([r.query_id.text(), r.doc_id.text(), r.score])).collect();
            let b: Vec<_> = p.into_records().into_iter().map(|r| json!([r.query_id.text(), r.doc_id.text(), hx(r.score.0)])).collect();
            json!([r, a, b])
        }
        "look" => {
            let (t, p) = &w.stores[u(&op[1])];
            let (q, d) = (K::make(s(&op[2])), K::make(s(&op[3])));
            let a = t.get_score(&q, &d).copied();
            let b = p.get_score(&q, &d).map(|v| hx(v.0));
            let c = t.get_sorted(&q).map(|v| v.iter().map(|r| r.doc_id.text().to_string()).collect::<Vec<_>>());
            let e = p.get_sorted(&q).map(|v| v.iter().map(|r| r.doc_id.text().to_string()).collect::<Vec<_>>());
            let g = t.get_map(&q).map(|m| m.len());
            let h = p.get_map(&q).map(|m| m.len());
            json!([a, b, c, e, g, h])
        }
        "dump" => {
            let (t, p) = &w.stores[u(&op[1])];
            json!([dump_true(t, &[]), dump_pred(p, &[])])
        }
        "ttest" => {
            let m = &w.matrices[u(&op[1])];
            match StudentTTest::from_paired_samples(col(m, u(&op[2]), u(&op[3]))) {
                Ok(t) => {
                    let a = f(&op[4]);
                    json!({"v": hv(&[t.mean(), t.variance(), t.effect_size(), t.t_stat(), t.p_value()]), "n": [t.n_topics(), t.n_samples()],
                        "moe": t.margin_of_error(a).map_or_else(err, hx),
                        "ci": t.confidence_interval(a).map_or_else(err, |(x, y)| hv(&[x, y]))})
                }
                Err(e) => err(e),
            }
        }
        "anova" => {
            let m = &w.matrices[u(&op[1])];
            match TwoWayAnovaWithoutReplication::from_tupled_samples(rows(m), u(&op[2])) {
                Ok(t) => json!({"v": hv(&[t.between_system_variation(), t.between_topic_variation(), t.residual_variation(),
                        t.between_system_variance(), t.between_topic_variance(), t.residual_variance(),
                        t.between_system_f_stat(), t.between_topic_f_stat(), t.between_system_p_value(), t.between_topic_p_value()]),
                    "n": [t.n_systems(), t.n_topics()], "sm": hv(&t.system_means()), "tm": hv(&t.topic_means()),
                    "moe": t.margin_of_error(f(&op[3])).map_or_else(err, hx)}),
                Err(e) => err(e),
            }
        }
        "tukey" => {
            let m = &w.matrices[u(&op[1])];
            match TukeyHsdTest::from_tupled_samples(rows(m), u(&op[2])) {
                Ok(t) => json!({"es": hm(&t.effect_sizes()), "n": [t.n_systems(), t.n_topics()]}),
                Err(e) => err(e),
            }
        }
        "pairs" => match pairs_from_maps(&map_of::<K>(&op[1]), &map_of::<K>(&op[2])) {
            Ok(v) => Value::Array(v.iter().map(|(a, b)| hv(&[*a, *b])).collect()),
            Err(e) => err(e),
        },
        "tuples" => {
            let maps: Vec<BTreeMap<K, f64>> = op[1].as_array().unwrap().iter().map(map_of::<K>).collect();
            match tuples_from_maps(hinted(maps.iter().inspect(|_| seam()))) {
                Ok(v) => hm(&v),
                Err(e) => err(e),
            }
        }
        "metric" => match s(&op[1]).parse::<Metric>() {
            Ok(m) => json!({"ok": m.to_string(), "alt": format!("{m:#}"), "dbg": format!("{m:?}")}),
            Err(e) => err(e),
        },
        "print" => {
            // into the caller's own writer, which may do anything and may refuse
            let mut sink = Sink(String::new(), u(&op[2]));
            let r = match s(&op[1]).parse::<Metric>() {
                Ok(m) => match u(&op[3]) {
                    0 => write!(sink, "{m}"),
                    1 => write!(sink, "{m:#} {m:?}"),
                    2 => write!(sink, "{m:>20}|{m:<7}|"),
                    _ => write!(sink, "{m:.3}"),
                },
                Err(e) => write!(sink, "{e} {e:?}"),
            };
            json!([sink.0, r.is_ok()])
        }
        "boot" => {
            // ["boot", matrix, i, j, n, state|null] or with a shared tester: ["boot", matrix, i, j, "t<k>"]
            let m = &w.matrices[u(&op[1])];
            let it = col(m, u(&op[2]), u(&op[3]));
            match op[4].as_str() {
                Some(t) => boot_result(w.boot[t[1..].parse::<usize>().unwrap()].test(it)),
                None => boot_result(boot_tester(&op[4], &op[5]).test(it)),
            }
        }
        "rthsd" => {
            let m = &w.matrices[u(&op[1])];
            match op[3].as_str() {
                Some(t) => rthsd_result(w.rthsd[t[1..].parse::<usize>().unwrap()].test(rows(m))),
                None => rthsd_result(rthsd_tester(u(&op[2]), &op[3], &op[4]).test(rows(m))),
            }
        }
        "bootx" | "rthsdx" => {
            // unseeded, then replayed with the reported state, by a new and by a re-armed tester
            let m = &w.matrices[u(&op[1])];
            if s(&op[0]) == "bootx" {
                let (i, j) = (u(&op[2]), u(&op[3]));
                let tester = boot_tester(&op[4], &Value::Null);
                let a = tester.test(col(m, i, j));
                let (st, n) = match &a {
                    Ok(t) => (t.random_state(), t.n_resamples()),
                    Err(_) => return json!([boot_result(a)]),
                };
                let b = BootstrapTester::new().with_n_resamples(n).with_random_state(st).test(col(m, i, j));
                let c = tester.with_random_state(st).test(col(m, i, j));
                json!([boot_result(a), boot_result(b), boot_result(c)])
            } else {
                let k = u(&op[2]);
                let tester = rthsd_tester(k, &op[3], &Value::Null);
                let a = tester.test(rows(m));
                let (st, n) = match &a {
                    Ok(t) => (t.random_state(), t.n_iters()),
                    Err(_) => return json!([rthsd_result(a)]),
                };
                let b = RandomizedTukeyHsdTester::new(k).with_n_iters(n).with_random_state(st).test(rows(m));
                let c = tester.with_random_state(st).test(rows(m));
                json!([rthsd_result(a), rthsd_result(b), rthsd_result(c)])
            }
        }
        "boot0" => {
            let m = &w.matrices[u(&op[1])];
            boot_result(elinor::statistical_tests::BootstrapTest::from_paired_samples(col(m, u(&op[2]), u(&op[3]))))
        }
        "rthsd0" => {
            let m = &w.matrices[u(&op[1])];
            rthsd_result(elinor::statistical_tests::RandomizedTukeyHsdTest::from_tupled_samples(rows(m), u(&op[2])))
        }
        "bootmany" => {
            // ["bootmany", matrix, i, j, n, count]: unseeded runs; the bits of all p-values
            let m = &w.matrices[u(&op[1])];
            let mut ps = vec![];
            for _ in 0..u(&op[5]) {
                match boot_tester(&op[4], &Value::Null).test(m.iter().map(|r| (r[u(&op[2])], r[u(&op[3])]))) {
                    Ok(t) => ps.push(t.p_value()),
                    Err(e) => return err(e),
                }
            }
            packed(&ps)
        }
        "rthsdmany" => {
            // ["rthsdmany", matrix, systems, n, count]
            let m = &w.matrices[u(&op[1])];
            let mut ps = vec![];
            for _ in 0..u(&op[4]) {
                match rthsd_tester(u(&op[2]), &op[3], &Value::Null).test(m.iter()) {
                    Ok(t) => ps.extend(t.p_values().concat()),
                    Err(e) => return err(e),
                }
            }
            packed(&ps)
        }
        "trec" => {
            let lines: Vec<&str> = op[2].as_array().unwrap().iter().map(s).collect();
            if s(&op[1]) == "true" {
                match elinor::trec::parse_true_rels_in_trec(hinted(lines.iter().inspect(|_| seam()))) {
                    Ok(st) => Value::Array(st.into_records().into_iter().map(|r| json!([r.query_id, r.doc_id, r.score])).collect()),
                    Err(e) => err(e),
                }
            } else {
                match elinor::trec::parse_pred_rels_in_trec(hinted(lines.iter().inspect(|_| seam()))) {
                    Ok(st) => Value::Array(st.into_records().into_iter().map(|r| json!([r.query_id, r.doc_id, hx(r.score.0)])).collect()),
                    Err(e) => err(e),
                }
            }
        }
        "from" => {
            // ["from", "true"|"pred", records]: bulk construction
            let recs = op[2].as_array().unwrap();
            if s(&op[1]) == "true" {
                let it = recs.iter().map(|r| {
                    seam();
                    Record { query_id: K::make(s(&r[0])), doc_id: K::make(s(&r[1])), score: u(&r[2]) as u32 }
                });
                match TrueRelStore::from_records(hinted(it)) {
                    Ok(st) => {
                        let d = dump_true(&st, &[]);
                        let r: Vec<_> = st.into_records().iter().map(|r| json!([r.query_id.text(), r.doc_id.text(), r.score])).collect();
                        json!([d, r])
                    }
                    Err(e) => err(e),
                }
            } else {
                let it = recs.iter().map(|r| {
                    seam();
                    Record { query_id: K::make(s(&r[0])), doc_id: K::make(s(&r[1])), score: PredScore::from(f(&r[2])) }
                });
                match PredRelStore::from_records(hinted(it)) {
                    Ok(st) => {
                        let d = dump_pred(&st, &[]);
                        let r: Vec<_> = st.into_records().iter().map(|r| json!([r.query_id.text(), r.doc_id.text(), hx(r.score.0)])).collect();
                        json!([d, r])
                    }
                    Err(e) => err(e),
                }
            }
        }
        "addt" => {
            let (q, d) = (K::make(s(&op[2])), K::make(s(&op[3])));
            let mut b = w.tb[u(&op[1])].lock().unwrap_or_else(|p| p.into_inner());
            let at = sim_step();
            match b.add_record(q, d, u(&op[4]) as u32) {
                Ok(()) => json!({"ok": at}),
                Err(e) => json!({"dup": at, "e": err(e)}),
            }
        }
        "addp" => {
            let (q, d) = (K::make(s(&op[2])), K::make(s(&op[3])));
            let mut b = w.pb[u(&op[1])].write().unwrap_or_else(|p| p.into_inner());
            let at = sim_step();
            match b.add_record(q, d, PredScore::from(f(&op[4]))) {
                Ok(()) => json!({"ok": at}),
                Err(e) => json!({"dup": at, "e": err(e)}),
            }
        }
        o => panic!("unknown op {o}"),
    }
}

fn guarded<K: MakeKey>(w: &World<K>, op: &Value) -> Value {
    // {"op": [...], "fuse": n}: the n-th call into the caller's code panics
    let (body, fuse) = match op.get("op") {
        Some(b) => (b, op["fuse"].as_u64().unwrap_or(0)),
        None => (op, 0),
    };
    HINT.with(|x| x.set(op.get("hint").and_then(|h| h.as_u64()).unwrap_or(0)));
    let inner = std::rc::Rc::new(std::cell::RefCell::new(Value::Null));
    if let Some(nest) = op.get("nest") {
        let (slot, call, world) = (inner.clone(), nest["op"].clone(), w as *const World<K> as usize);
        let f: Box<dyn FnOnce()> = Box::new(move || {
            let left = FUSE.with(|x| x.replace(0));
            let hint = HINT.with(|x| x.replace(0));
            // The world outlives all the calls.
            let w = unsafe { &*(world as *const World<K>) };
            *slot.borrow_mut() = caught(catch_unwind(AssertUnwindSafe(|| run_op(w, &call))));
            FUSE.with(|x| x.set(left));
            HINT.with(|x| x.set(hint));
        });
        NESTED.with(|n| *n.borrow_mut() = Some(f));
        NEST.with(|x| x.set(nest["at"].as_u64().unwrap_or(1)));
    }
    FUSE.with(|x| x.set(fuse));
    let r = catch_unwind(AssertUnwindSafe(|| run_op(w, body)));
    FUSE.with(|x| x.set(0));
    NEST.with(|x| x.set(0));
    NESTED.with(|n| n.borrow_mut().take());
    HINT.with(|x| x.set(0));
    let r = caught(r);
    if op.get("nest").is_some() {
        return json!({"outer": r, "inner": inner.take()});
    }
    r
}

fn caught(r: std::thread::Result<Value>) -> Value {
    match r {
        Ok(v) => v,
        Err(p) if p.is::<Injected>() => json!({"cancelled": sim_step()}),
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|m| m.to_string())).unwrap_or_default();
            json!({"panic": m})
        }
    }
}

fn store_true<K: MakeKey>(v: &Value) -> TrueRelStore<K> {
    TrueRelStore::from_records(v.as_array().unwrap().iter().map(|r| Record { query_id: K::make(s(&r[0])), doc_id: K::make(s(&r[1])), score: u(&r[2]) as u32 })).expect("scenario store")
}
fn store_pred<K: MakeKey>(v: &Value) -> PredRelStore<K> {
    PredRelStore::from_records(v.as_array().unwrap().iter().map(|r| Record { query_id: K::make(s(&r[0])), doc_id: K::make(s(&r[1])), score: PredScore::from(f(&r[2])) })).expect("scenario store")
}

fn drive<K: MakeKey>(sc: &Value) {
    let empty = vec![];
    let arr = |k: &str| sc.get(k).and_then(|v| v.as_array()).unwrap_or(&empty);
    let world = World::<K> {
        stores: arr("stores").iter().map(|p| (store_true(&p[0]), store_pred(&p[1]))).collect(),
        matrices: arr("matrices").iter().map(|m| m.as_array().unwrap().iter().map(|r| r.as_array().unwrap().iter().map(f).collect()).collect()).collect(),
        boot: arr("boot").iter().map(|t| boot_tester(&t[0], &t[1])).collect(),
        rthsd: arr("rthsd").iter().map(|t| rthsd_tester(u(&t[0]), &t[1], &t[2])).collect(),
        tb: (0..sc.get("tb").map_or(0, u)).map(|_| Mutex::new(TrueRelStoreBuilder::new())).collect(),
        pb: (0..sc.get("pb").map_or(0, u)).map(|_| RwLock::new(elinor::PredRelStoreBuilder::new())).collect(),
    };
    let threads = arr("threads");
    let mut out: Vec<Vec<Value>> = vec![];
    let body = |ops: &Value| -> Vec<Value> {
        ops.as_array().unwrap().iter().map(|op| {
            let b = sim_step();
            let r = guarded(&world, op);
            json!([r, b, sim_step()])
        }).collect()
    };
    sim_blocks(true);
    if sc.get("inline").is_some() {
        for t in threads {
            out.push(body(t));
        }
    } else {
        std::thread::scope(|scope| {
            let hs: Vec<_> = threads.iter().map(|t| scope.spawn(|| body(t))).collect();
            for h in hs {
                out.push(h.join().expect("driver thread"));
            }
        });
    }
    sim_blocks(false);
    let after: Vec<Value> = arr("after").iter().map(|op| guarded(&world, op)).collect();
    let probe: Vec<(String, String)> = arr("probe").iter().map(|p| (s(&p[0]).to_string(), s(&p[1]).to_string())).collect();
    let mut built = vec![];
    for b in world.tb {
        built.push(dump_true(&b.into_inner().unwrap_or_else(|p| p.into_inner()).build(), &probe));
    }
    for b in world.pb {
        built.push(dump_pred(&b.into_inner().unwrap_or_else(|p| p.into_inner()).build(), &probe));
    }
    let stores: Vec<_> = if sc.get("dump_stores").is_some() { world.stores.iter().map(|(t, p)| json!([dump_true(t, &[]), dump_pred(p, &[])])).collect() } else { vec![] };
    println!("{}", json!({"threads": out, "after": after, "built": built, "stores": stores}));
}

fn main() {
    find_sim();
    let path = std::env::args().nth(1).expect("scenario");
    let text = std::fs::read_to_string(path).expect("scenario file");
    let sc: Value = serde_json::from_str(&text).expect("scenario json");
    if sc.get("key").and_then(|k| k.as_str()) == Some("sim") {
        drive::<Key>(&sc);
    } else {
        drive::<String>(&sc);
    }
}
