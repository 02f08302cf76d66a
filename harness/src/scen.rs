use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{mpsc, Arc, Mutex};
use std::thread::ThreadId;
use std::time::Duration;

use anyhow::{anyhow, Error};
use osm_io::osm::model::element::Element;
use osm_io::osm::pbf;
use osm_io::osm::pbf::thread_local_accumulator::ThreadLocalAccumulator;
use serde_json::{json, Value};

use crate::elem;
use crate::heap;
use crate::panic_text;

static PARTIAL: Mutex<Vec<Value>> = Mutex::new(Vec::new());

pub fn partial() -> Vec<Value> {
    PARTIAL.lock().unwrap().clone()
}

pub fn run(sc: &Value) -> Result<Value, Error> {
    PARTIAL.lock().unwrap().clear();
    if sc.get("over").is_some() {
        return over(sc);
    }
    if sc["kind"] == "both" {
        return both(sc);
    }
    run1(sc)
}

fn copy_all(from: &Path, to: &Path) -> Result<(), Error> {
    if from.is_dir() {
        std::fs::create_dir_all(to)?;
        for e in std::fs::read_dir(from)? {
            let e = e?;
            copy_all(&e.path(), &to.join(e.file_name()))?;
        }
    } else {
        std::fs::copy(from, to)?;
    }
    Ok(())
}

/// Run a scenario with some of its paths replaced by paths that every scenario of this process
/// uses: the content of an existing path is copied there before, and results are copied back.
fn over(sc: &Value) -> Result<Value, Error> {
    let mut s2 = sc.clone();
    s2.as_object_mut().unwrap().remove("over");
    let mut back = vec![];
    for k in sc["over"].as_array().unwrap() {
        let k = k.as_str().unwrap();
        let p = path(sc, k);
        let fixed = p.parent().unwrap().join(format!("over-{}-{}", std::process::id(), k));
        let full = p.is_file() || p.is_dir() && std::fs::read_dir(&p)?.next().is_some();
        if full {
            if fixed.is_dir() {
                std::fs::remove_dir_all(&fixed)?;
            }
            copy_all(&p, &fixed)?;
        } else {
            back.push((fixed.clone(), p.clone()));
        }
        s2[k] = json!(fixed.to_str().unwrap());
    }
    let r = catch_unwind(AssertUnwindSafe(|| run1(&s2)));
    for (from, to) in back {
        if from.exists() {
            copy_all(&from, &to)?;
        }
    }
    r.unwrap_or_else(|p| Ok(json!({"panic": panic_text(p)})))
}

/// Run several scenarios at the same time, each in a thread of its own.
fn both(sc: &Value) -> Result<Value, Error> {
    let scs: Vec<Value> = sc["scs"].as_array().unwrap().clone();
    let start = Arc::new(std::sync::Barrier::new(scs.len()));
    let hs: Vec<_> = scs
        .into_iter()
        .map(|s| {
            let start = start.clone();
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    start.wait();
                    match catch_unwind(AssertUnwindSafe(|| run1(&s))) {
                        Ok(Ok(v)) => v,
                        Ok(Err(e)) => json!({"err": format!("{e:#}")}),
                        Err(p) => json!({"panic": panic_text(p)}),
                    }
                })
                .unwrap()
        })
        .collect();
    Ok(json!({"obs": hs.into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>()}))
}

fn run1(sc: &Value) -> Result<Value, Error> {
    match sc["kind"].as_str().unwrap() {
        "pbfw" => pbfw(sc),
        "pbfr" => pbfr(sc),
        "ppw" => ppw(sc),
        "ppws" => ppws(sc),
        "tlas" => tlas(sc),
        "pfe" => pfe(sc),
        "count" => count(sc),
        "bbox" => bbox(sc),
        "summaries" => summaries(sc),
        "tla" => tla(sc),
        "pipe" => pipe(sc),
        "ord" => ord(sc),
        "adbw" => adbw(sc),
        "adbr" => adbr(sc),
        "copyblk" => copyblk(sc),
        "bboxops" => bboxops(sc),
        "texts" => texts(sc),
        "cuts" => cuts(sc),
        "iters" => iters(sc),
        "conv" => conv(sc),
        "diters" => diters(sc),
        "res" => resources(sc),
        "mem" => memory(sc),
        k => Err(anyhow!("unknown kind {k}")),
    }
}

fn path(sc: &Value, k: &str) -> PathBuf {
    PathBuf::from(sc[k].as_str().unwrap())
}

fn res(r: std::thread::Result<Result<(), Error>>) -> Value {
    let v = match r {
        Ok(Ok(())) => json!("ok"),
        Ok(Err(e)) => json!({"err": format!("{e:#}")}),
        Err(p) => json!({"panic": panic_text(p)}),
    };
    PARTIAL.lock().unwrap().push(v.clone());
    v
}

struct FsizeLimit(Option<libc::rlimit>);

impl FsizeLimit {
    fn new(sc: &Value) -> FsizeLimit {
        match sc.get("fsize").and_then(|x| x.as_u64()) {
            None => FsizeLimit(None),
            Some(n) => unsafe {
                let mut old: libc::rlimit = std::mem::zeroed();
                libc::getrlimit(libc::RLIMIT_FSIZE, &mut old);
                let new = libc::rlimit { rlim_cur: n, rlim_max: old.rlim_max };
                libc::setrlimit(libc::RLIMIT_FSIZE, &new);
                FsizeLimit(Some(old))
            },
        }
    }
}

impl Drop for FsizeLimit {
    fn drop(&mut self) {
        if let Some(old) = self.0 {
            unsafe {
                libc::setrlimit(libc::RLIMIT_FSIZE, &old);
            }
        }
    }
}

/// Elements carried by one op.
fn op_elements(op: &Value) -> Vec<Element> {
    if let Some(e) = op.get("e") {
        vec![elem::parse(e)]
    } else if let Some(es) = op.get("es") {
        es.as_array().unwrap().iter().map(elem::parse).collect()
    } else if op.get("run").is_some() {
        elem::run(&op["run"])
    } else if let Some(rs) = op.get("runs") {
        rs.as_array().unwrap().iter().flat_map(elem::run).collect()
    } else {
        vec![]
    }
}

/// ops: {"op":"hdr"} {"op":"e","e":..} {"op":"es","es":[..]} {"op":"each"/"es","run":{..}} {"op":"close"}
fn pbfw(sc: &Value) -> Result<Value, Error> {
    let p = path(sc, "path");
    let snap = sc.get("snap").and_then(|x| x.as_str()).map(PathBuf::from);
    let _lim = FsizeLimit::new(sc);
    let mut w = if let Some(n) = sc.get("new") {
        pbf::writer::Writer::new(
            p.clone(),
            n["prog"].as_str().unwrap(),
            n["src"].as_str().unwrap(),
            n.get("rts").and_then(|x| x.as_i64()),
            n.get("rseq").and_then(|x| x.as_i64()),
            elem::ostr(n, "rurl"),
            elem::comp(sc),
            n.get("bbox").and_then(elem::parse_bbox),
            n["history"].as_bool().unwrap(),
        )
    } else {
        pbf::writer::Writer::from_file_info(p.clone(), elem::file_info(sc), elem::comp(sc))
    }?;
    let mut obs = vec![];
    let mut sizes = vec![];
    let take_snap = |k: usize, sizes: &mut Vec<u64>| {
        sizes.push(std::fs::metadata(&p).map(|m| m.len()).unwrap_or(0));
        if let Some(d) = &snap {
            std::fs::copy(&p, d.join(format!("{k}.pbf"))).unwrap();
        }
    };
    take_snap(0, &mut sizes);
    for (k, op) in sc["ops"].as_array().unwrap().iter().enumerate() {
        let r = catch_unwind(AssertUnwindSafe(|| match op["op"].as_str().unwrap() {
            "hdr" => w.write_header(),
            "close" => w.close(),
            "es" => w.write_elements(op_elements(op)),
            _ => {
                for e in op_elements(op) {
                    w.write_element(e)?;
                }
                Ok(())
            }
        }));
        let v = res(r);
        let stop = v != json!("ok");
        obs.push(v);
        take_snap(k + 1, &mut sizes);
        if stop && sc.get("keep_going").is_none() {
            break;
        }
    }
    Ok(json!({"ops": obs, "sizes": sizes, "given": elem::dump_info(&elem::file_info(sc))}))
}

fn pbfr(sc: &Value) -> Result<Value, Error> {
    let p = path(sc, "path");
    let mut els: Vec<Value> = vec![];
    let keys = sc.get("keys").is_some();
    let mut info = Value::Null;
    let mut supported = Value::Null;
    let mut stage = "open";
    let limit = sc.get("limit").and_then(|x| x.as_u64()).unwrap_or(u64::MAX) as usize;
    let r = catch_unwind(AssertUnwindSafe(|| -> Result<(), Error> {
        let reader = pbf::reader::Reader::new(&p)?;
        info = elem::dump_info(reader.info());
        supported = json!(reader.supported_features());
        stage = "iter";
        match sc.get("mode").and_then(|x| x.as_str()).unwrap_or("elements") {
            "elements" => {
                for e in reader.elements()? {
                    els.push(if keys { elem::key(&e) } else { elem::dump(&e) });
                    if els.len() >= limit {
                        return Err(anyhow!("driver: element limit"));
                    }
                }
            }
            "blocks" => {
                for b in reader.blocks()? {
                    match b {
                        pbf::file_block::FileBlock::Header { metadata: _, header } => els.push(json!({"hdr": true, "info": elem::dump_info(header.info())})),
                        pbf::file_block::FileBlock::Data { metadata: _, data } => els.push(json!({"data": true,
                            "bbox": data.compute_bounding_box().as_ref().map(elem::dump_bbox),
                            "els": data.elements().iter().map(|e| if keys {elem::key(e)} else {elem::dump(e)}).collect::<Vec<_>>()})),
                    }
                }
            }
            _ => {}
        }
        Ok(())
    }));
    let end = res(r);
    Ok(json!({"end": end, "stage": stage, "els": els, "info": info, "supported": supported}))
}

fn copyblk(sc: &Value) -> Result<Value, Error> {
    let reader = pbf::reader::Reader::new(&path(sc, "path"))?;
    let mut w = pbf::writer::Writer::from_file_info(path(sc, "out"), reader.info().clone(), elem::comp(sc))?;
    for b in reader.blocks()? {
        w.write_file_block(b)?;
    }
    w.close()?;
    Ok(json!({"end": "ok"}))
}

#[cfg(osm_io_verif)]
mod gate {
    use super::*;
    use std::sync::Condvar;
    pub struct Gate {
        state: Mutex<(usize, Vec<(String, usize)>)>,
        cv: Condvar,
        order: Vec<usize>,
        wait: Duration,
    }
    impl Gate {
        pub fn new(order: Vec<usize>, wait: Duration) -> Arc<Gate> {
            Arc::new(Gate { state: Mutex::new((0, vec![])), cv: Condvar::new(), order, wait })
        }
        pub fn install(self: &Arc<Self>) {
            let g = self.clone();
            osm_io::osm::pbf::verif_hook::set(Some(Arc::new(move |name: &str, idx: usize| g.point(name, idx))));
        }
        pub fn uninstall() {
            osm_io::osm::pbf::verif_hook::set(None);
        }
        /// "encoded" waits for its turn in the requested arrival order; every other point is recorded.
        fn point(&self, name: &str, idx: usize) {
            let mut st = self.state.lock().unwrap();
            if name == "encoded" {
                if let Some(pos) = self.order.iter().position(|x| *x == idx) {
                    let until = std::time::Instant::now() + self.wait;
                    while st.0 < pos {
                        let left = until.saturating_duration_since(std::time::Instant::now());
                        if left.is_zero() {
                            break;
                        }
                        st = self.cv.wait_timeout(st, left).unwrap().0;
                    }
                }
            }
            st.1.push((name.to_string(), idx));
            if name == "arrived" {
                if let Some(pos) = self.order.iter().position(|x| *x == idx) {
                    if st.0 < pos + 1 {
                        st.0 = pos + 1;
                    }
                    self.cv.notify_all();
                }
            }
        }
        pub fn events(&self) -> Vec<Value> {
            self.state.lock().unwrap().1.iter().map(|(n, i)| json!([n, i])).collect()
        }
    }
}

fn ppw(sc: &Value) -> Result<Value, Error> {
    let p = path(sc, "path");
    let _lim = FsizeLimit::new(sc);
    let mut obs = vec![];
    #[cfg(osm_io_verif)]
    let gate = sc.get("gate").map(|g| {
        let order = g["order"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
        let g = gate::Gate::new(order, Duration::from_millis(g.get("wait_ms").and_then(|x| x.as_u64()).unwrap_or(3000)));
        g.install();
        g
    });
    let r = catch_unwind(AssertUnwindSafe(|| {
        pbf::parallel_writer::ParallelWriter::from_file_info(
            sc["buf"].as_u64().unwrap() as usize,
            sc["blk"].as_u64().unwrap() as usize,
            p.clone(),
            elem::file_info(sc),
            elem::comp(sc),
        )
    }));
    let mut w = match r {
        Ok(Ok(w)) => w,
        Ok(Err(e)) => return Ok(json!({"ops": [], "ctor": {"err": format!("{e:#}")}})),
        Err(p) => return Ok(json!({"ops": [], "ctor": {"panic": panic_text(p)}})),
    };
    for op in sc["ops"].as_array().unwrap() {
        let r = catch_unwind(AssertUnwindSafe(|| match op["op"].as_str().unwrap() {
            "hdr" => w.write_header(),
            "close" => w.close(),
            "es" => w.write_elements(op_elements(op)),
            "sleep" => {
                std::thread::sleep(Duration::from_millis(op["ms"].as_u64().unwrap()));
                Ok(())
            }
            _ => {
                for e in op_elements(op) {
                    w.write_element(e)?;
                }
                Ok(())
            }
        }));
        obs.push(res(r));
    }
    if sc.get("leak").is_some() {
        std::mem::forget(w);
    } else {
        drop(w);
    }
    #[allow(unused_mut)]
    let mut out = json!({"ops": obs, "ctor": "ok", "given": elem::dump_info(&elem::file_info(sc))});
    #[cfg(osm_io_verif)]
    if let Some(g) = gate {
        gate::Gate::uninstall();
        out["events"] = json!(g.events());
    }
    Ok(out)
}

/// Several parallel writers in one process: ws [{path,buf,blk,..,ops}]. order: the writer of each call,
/// or absent: each writer is driven by a thread of its own.
fn ppws(sc: &Value) -> Result<Value, Error> {
    let ws = sc["ws"].as_array().unwrap();
    let make = |w: &Value| {
        catch_unwind(AssertUnwindSafe(|| {
            pbf::parallel_writer::ParallelWriter::from_file_info(
                w["buf"].as_u64().unwrap() as usize,
                w["blk"].as_u64().unwrap() as usize,
                path(w, "path"),
                elem::file_info(w),
                elem::comp(w),
            )
        }))
        .map_err(|p| anyhow!("{}", panic_text(p)))
        .and_then(|r| r)
    };
    fn call(w: &mut pbf::parallel_writer::ParallelWriter, op: &Value) -> Value {
        let r = catch_unwind(AssertUnwindSafe(|| match op["op"].as_str().unwrap() {
            "hdr" => w.write_header(),
            "close" => w.close(),
            "es" => w.write_elements(op_elements(op)),
            _ => {
                for e in op_elements(op) {
                    w.write_element(e)?;
                }
                Ok(())
            }
        }));
        match r {
            Ok(Ok(())) => json!("ok"),
            Ok(Err(e)) => json!({"err": format!("{e:#}")}),
            Err(p) => json!({"panic": panic_text(p)}),
        }
    }
    let mut out: Vec<Vec<Value>> = ws.iter().map(|_| vec![]).collect();
    if let Some(order) = sc.get("order").and_then(|x| x.as_array()) {
        let mut writers = vec![];
        for w in ws {
            writers.push(make(w)?);
        }
        let mut at = vec![0usize; ws.len()];
        for o in order {
            let k = o.as_u64().unwrap() as usize;
            out[k].push(call(&mut writers[k], &ws[k]["ops"][at[k]]));
            at[k] += 1;
        }
    } else {
        let mut hs = vec![];
        for w in ws {
            let w = w.clone();
            let mut pw = make(&w)?;
            hs.push(std::thread::spawn(move || w["ops"].as_array().unwrap().iter().map(|op| call(&mut pw, op)).collect::<Vec<Value>>()));
        }
        for (k, h) in hs.into_iter().enumerate() {
            out[k] = h.join().map_err(|p| anyhow!("{}", panic_text(p)))?;
        }
    }
    Ok(json!({"ws": out.iter().map(|o| json!({"ctor": "ok", "ops": o})).collect::<Vec<_>>()}))
}

/// Many scripts for accumulators in one scenario.
fn tlas(sc: &Value) -> Result<Value, Error> {
    let mut out = vec![];
    for ops in sc["scripts"].as_array().unwrap() {
        out.push(tla(&json!({"threads": sc["threads"], "accs": sc["accs"], "ops": ops, "lazy": 1}))?["out"].clone());
    }
    Ok(json!({"outs": out}))
}

/// parallel_for_each with a recording callback.
/// fail: keys on which the callback returns Err; slow: [[key-id, ms]]
fn pfe(sc: &Value) -> Result<Value, Error> {
    let reader = pbf::reader::Reader::new(&path(sc, "path"))?;
    let log: Arc<Mutex<Vec<(ThreadId, Value)>>> = Arc::new(Mutex::new(vec![]));
    let fail: Vec<Value> = sc.get("fail").and_then(|x| x.as_array()).cloned().unwrap_or_default();
    let panics = sc.get("panics").is_some();
    let slow: HashMap<i64, u64> = sc
        .get("slow")
        .and_then(|x| x.as_array())
        .map(|a| a.iter().map(|p| (p[0].as_i64().unwrap(), p[1].as_u64().unwrap())).collect())
        .unwrap_or_default();
    let full = sc.get("full").is_some();
    let l2 = log.clone();
    let r = catch_unwind(AssertUnwindSafe(|| {
        reader.parallel_for_each(sc["tasks"].as_u64().unwrap() as usize, move |e| {
            let k = elem::key(&e);
            if let Some(ms) = slow.get(&k[1].as_i64().unwrap()) {
                std::thread::sleep(Duration::from_millis(*ms));
            }
            let rec = if full { elem::dump(&e) } else { k.clone() };
            l2.lock().unwrap().push((std::thread::current().id(), rec));
            if fail.contains(&k) {
                if panics {
                    panic!("callback panicked on {k}");
                }
                Err(anyhow!("callback failed on {k}"))
            } else {
                Ok(())
            }
        })
    }));
    let end = res(r);
    let returned = log.lock().unwrap().len();
    if let Some(ms) = sc.get("late_ms").and_then(|x| x.as_u64()) {
        std::thread::sleep(Duration::from_millis(ms));
    }
    let log = log.lock().unwrap();
    let mut ids: Vec<ThreadId> = vec![];
    let ev: Vec<Value> = log
        .iter()
        .map(|(t, k)| {
            let n = ids.iter().position(|x| x == t).unwrap_or_else(|| {
                ids.push(*t);
                ids.len() - 1
            });
            json!([n, k])
        })
        .collect();
    Ok(json!({"end": end, "ev": ev, "late": ev.len() - returned}))
}

fn count(sc: &Value) -> Result<Value, Error> {
    let p = path(sc, "path");
    let mut c = Value::Null;
    let r = catch_unwind(AssertUnwindSafe(|| -> Result<(), Error> {
        let reader = pbf::reader::Reader::new(&p)?;
        let (n, w, r) = reader.count_objects()?;
        c = json!([n, w, r]);
        Ok(())
    }));
    Ok(json!({"end": res(r), "count": c}))
}

fn bbox(sc: &Value) -> Result<Value, Error> {
    let p = path(sc, "path");
    let mut c = Value::Null;
    let r = catch_unwind(AssertUnwindSafe(|| -> Result<(), Error> {
        let b = pbf::bounding_box_calculator::BoundingBoxCalculator::new(&p).calc()?;
        c = elem::dump_bbox(&b);
        Ok(())
    }));
    Ok(json!({"end": res(r), "bbox": c}))
}

/// Box and counts of a file computed many times; the distinct results. par: by that many threads at once.
fn summaries(sc: &Value) -> Result<Value, Error> {
    let times = sc["times"].as_u64().unwrap();
    let seen: Mutex<Vec<Value>> = Mutex::new(vec![]);
    let limit = std::time::Instant::now() + Duration::from_millis(sc.get("ms").and_then(|x| x.as_u64()).unwrap_or(10_000));
    let mut runs = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..sc.get("par").and_then(|x| x.as_u64()).unwrap_or(1) {
            s.spawn(|| {
                for i in 0..times {
                    let mut vs = vec![json!(["bbox", bbox(sc).unwrap()])];
                    if i % 8 == 0 {
                        vs.push(json!(["count", count(sc).unwrap()]));
                    }
                    runs.fetch_add(1, Ordering::SeqCst);
                    let mut g = seen.lock().unwrap();
                    for v in vs {
                        if !g.contains(&v) {
                            g.push(v);
                        }
                    }
                    if std::time::Instant::now() > limit {
                        break;
                    }
                }
            });
        }
    });
    Ok(json!({"seen": seen.into_inner().unwrap(), "runs": *runs.get_mut()}))
}

/// In-memory bounding box operations: {"pts":[[lat,lon]..],"merge":[[..bbox]..]}
fn bboxops(sc: &Value) -> Result<Value, Error> {
    use osm_io::osm::model::bounding_box::BoundingBox;
    use osm_io::osm::model::coordinate::Coordinate;
    let mut b: Option<BoundingBox> = None;
    for op in sc["ops"].as_array().unwrap() {
        if let Some(p) = op.get("pt") {
            let c = Coordinate::new(p[0].as_i64().unwrap() as f64 / 1e9, p[1].as_i64().unwrap() as f64 / 1e9);
            match &mut b {
                None => b = Some(BoundingBox::from_point(&c)),
                Some(x) => x.merge_point(&c),
            }
        } else {
            let o = elem::parse_bbox(&op["box"]).unwrap();
            match &mut b {
                None => b = Some(o),
                Some(x) => x.merge_bounding_box(&o),
            }
        }
    }
    Ok(json!({"bbox": b.as_ref().map(elem::dump_bbox)}))
}

/// Values of the model from texts and as texts: ops {"box": hex} {"show": [l,b,r,t]} {"time": us} {"deg7": [lat, lon]}
fn texts(sc: &Value) -> Result<Value, Error> {
    use osm_io::osm::model::bounding_box::BoundingBox;
    use osm_io::osm::model::coordinate::Coordinate;
    use std::str::FromStr;
    let mut out = vec![];
    for op in sc["ops"].as_array().unwrap() {
        let mut o = json!({});
        let r = catch_unwind(AssertUnwindSafe(|| -> Result<(), Error> {
            if let Some(t) = op.get("box") {
                let b = BoundingBox::from_str(std::str::from_utf8(&elem::unhex(t.as_str().unwrap()))?)?;
                o["box"] = elem::dump_bbox(&b);
                o["shown"] = json!(format!("{b}"));
            } else if let Some(b) = op.get("show") {
                o["shown"] = json!(format!("{}", elem::parse_bbox(b).unwrap()));
            } else if let Some(t) = op.get("time") {
                o["text"] = json!(osm_io::osm::converters::timestamp_to_iso8601_seconds(t.as_i64().unwrap())?);
            } else {
                let p = &op["deg7"];
                let c = Coordinate::new(p[0].as_i64().unwrap() as f64 / 1e9, p[1].as_i64().unwrap() as f64 / 1e9);
                o["deg7"] = json!([c.lat7(), c.lon7()]);
            }
            Ok(())
        }));
        o["r"] = res(r);
        out.push(o);
    }
    Ok(json!({"out": out}))
}

/// ThreadLocalAccumulator under a scripted interleaving: ops [thread, acc, "add", id] / [thread, acc, "take"],
/// executed one at a time in the given global order, each on its own thread.
fn tla(sc: &Value) -> Result<Value, Error> {
    let nthreads = sc["threads"].as_u64().unwrap() as usize;
    // lazy: the script makes (and drops) the accumulators
    let lazy = sc.get("lazy").is_some();
    let caps: Arc<Vec<usize>> = Arc::new(sc["accs"].as_array().unwrap().iter().map(|c| c.as_u64().unwrap() as usize).collect());
    let accs: Arc<Vec<Mutex<Option<Arc<ThreadLocalAccumulator>>>>> =
        Arc::new(caps.iter().map(|c| Mutex::new(if lazy { None } else { Some(Arc::new(ThreadLocalAccumulator::new(*c))) })).collect());
    let free = sc.get("free").is_some(); // run each thread's own program concurrently
    let mut out: Vec<Value> = vec![];
    let (otx, orx) = mpsc::channel::<Value>();
    let mut txs = vec![];
    let mut hs = vec![];
    for t in 0..nthreads {
        let (tx, rx) = mpsc::channel::<Option<(usize, Value)>>();
        let (accs, caps) = (accs.clone(), caps.clone());
        let otx = otx.clone();
        txs.push(tx);
        hs.push(std::thread::spawn(move || {
            while let Ok(Some((k, op))) = rx.recv() {
                let slot = op[1].as_u64().unwrap() as usize;
                let a = || accs[slot].lock().unwrap().clone().unwrap();
                let r = catch_unwind(AssertUnwindSafe(|| match op[2].as_str().unwrap() {
                    "new" => {
                        let n = ThreadLocalAccumulator::new(caps[slot]);
                        *accs[slot].lock().unwrap() = Some(Arc::new(n));
                        Value::Null
                    }
                    "drop" => {
                        let _ = accs[slot].lock().unwrap().take();
                        Value::Null
                    }
                    "churn" => {
                        // many short lived accumulators, each with an element nobody takes
                        for i in 0..op[3].as_i64().unwrap() {
                            let n = ThreadLocalAccumulator::new(caps[slot]);
                            n.add(elem::parse(&json!({"t":"n","id":-1 - i})));
                        }
                        Value::Null
                    }
                    "add" => {
                        a().add(elem::parse(&json!({"t":"n","id":op[3]})));
                        Value::Null
                    }
                    _ => json!(a().elements().iter().map(|e| elem::key(e)[1].clone()).collect::<Vec<_>>()),
                }));
                let v = match r {
                    Ok(v) => v,
                    Err(p) => json!({"panic": panic_text(p)}),
                };
                let _ = otx.send(json!([k, t, v]));
            }
        }));
    }
    let ops = sc["ops"].as_array().unwrap();
    for (k, op) in ops.iter().enumerate() {
        txs[op[0].as_u64().unwrap() as usize].send(Some((k, op.clone()))).unwrap();
        if !free {
            out.push(orx.recv()?);
        }
    }
    if free {
        for _ in ops {
            out.push(orx.recv()?);
        }
    }
    for tx in &txs {
        let _ = tx.send(None);
    }
    for h in hs {
        let _ = h.join();
    }
    Ok(json!({"out": out}))
}

/// The documented parallel copy pipeline: parallel_for_each -> ThreadLocalAccumulator -> ParallelWriter.
fn pipe(sc: &Value) -> Result<Value, Error> {
    let reader = pbf::reader::Reader::new(&path(sc, "path"))?;
    let w = pbf::parallel_writer::ParallelWriter::from_file_info(
        sc["buf"].as_u64().unwrap() as usize,
        sc["blk"].as_u64().unwrap() as usize,
        path(sc, "out"),
        reader.info().clone(),
        elem::comp(sc),
    )?;
    let w = Arc::new(Mutex::new(w));
    w.lock().unwrap().write_header()?;
    let batch = sc.get("batch").is_some();
    let drop_mod = sc.get("drop_mod").and_then(|x| x.as_i64()).unwrap_or(0);
    let acc = Arc::new(ThreadLocalAccumulator::new(sc.get("cap").and_then(|x| x.as_u64()).unwrap_or(8000) as usize));
    let passed = Arc::new(AtomicUsize::new(0));
    let (w2, acc2, p2) = (w.clone(), acc.clone(), passed.clone());
    let r = catch_unwind(AssertUnwindSafe(|| {
        reader.parallel_for_each(sc["tasks"].as_u64().unwrap() as usize, move |e| {
            if e.is_sentinel() {
                let els = acc2.elements();
                let mut g = w2.lock().unwrap();
                if batch {
                    g.write_elements(els)?;
                } else {
                    for x in els {
                        g.write_element(x)?;
                    }
                }
            } else {
                let id = elem::key(&e)[1].as_i64().unwrap();
                if drop_mod == 0 || id.rem_euclid(drop_mod) != 0 {
                    acc2.add(e);
                    p2.fetch_add(1, Ordering::SeqCst);
                }
            }
            Ok(())
        })
    }));
    let it = res(r);
    let r = catch_unwind(AssertUnwindSafe(|| w.lock().unwrap().close()));
    let cl = res(r);
    Ok(json!({"iter": it, "close": cl, "passed": passed.load(Ordering::SeqCst)}))
}

fn ord(sc: &Value) -> Result<Value, Error> {
    let els: Vec<Element> = sc["els"].as_array().unwrap().iter().map(elem::parse).collect();
    let full = els.clone();
    let els: Vec<Element> = if sc.get("sortonly").is_some() { vec![] } else { els };
    let cmp: Vec<Vec<i32>> = els.iter().map(|a| els.iter().map(|b| a.cmp(b) as i32).collect()).collect();
    let pcmp: Vec<Vec<i32>> = els.iter().map(|a| els.iter().map(|b| a.partial_cmp(b).map(|x| x as i32).unwrap_or(9)).collect()).collect();
    let eq: Vec<Vec<bool>> = els.iter().map(|a| els.iter().map(|b| a == b).collect()).collect();
    let same: Vec<Vec<bool>> = els.iter().map(|a| els.iter().map(|b| Element::same_type(a, b)).collect()).collect();
    let kind: Vec<Value> = els.iter().map(|a| json!([a.is_node(), a.is_way(), a.is_relation(), a.is_sentinel()])).collect();
    let mut sorted = full;
    let r = catch_unwind(AssertUnwindSafe(|| {
        sorted.sort();
        Ok(())
    }));
    Ok(json!({"cmp": cmp, "pcmp": pcmp, "eq": eq, "same": same, "kind": kind, "sort": res(r), "sorted": sorted.iter().map(elem::key).collect::<Vec<_>>()}))
}

fn adbw(sc: &Value) -> Result<Value, Error> {
    use osm_io::osm::apidb_dump::write::writer::Writer;
    let _lim = FsizeLimit::new(sc);
    let mut w = Writer::new(path(sc, "dir"), 0)?;
    let mut obs = vec![];
    for op in sc["ops"].as_array().unwrap() {
        let r = catch_unwind(AssertUnwindSafe(|| match op["op"].as_str().unwrap() {
            "close" => w.close(),
            _ => {
                for e in op_elements(op) {
                    w.write_element(e)?;
                }
                Ok(())
            }
        }));
        let v = res(r);
        let stop = v != json!("ok") && sc.get("goon").is_none();
        obs.push(v);
        if stop {
            break;
        }
    }
    Ok(json!({"ops": obs}))
}

fn adbr(sc: &Value) -> Result<Value, Error> {
    use osm_io::osm::apidb_dump::read::reader::Reader;
    let mut els = vec![];
    let r = catch_unwind(AssertUnwindSafe(|| -> Result<(), Error> {
        let reader = Reader::new(path(sc, "dir"), path(sc, "tmp"))?;
        for e in reader.elements()? {
            els.push(elem::dump(&e));
        }
        Ok(())
    }));
    Ok(json!({"end": res(r), "els": els}))
}

/// Cut a file at each of the given lengths and read it in the given modes.
fn cuts(sc: &Value) -> Result<Value, Error> {
    let data = std::fs::read(path(sc, "path"))?;
    let tmp = path(sc, "tmp");
    let mut out = vec![];
    let none = vec![];
    let cuts = sc.get("cuts").and_then(|x| x.as_array()).unwrap_or(&none);
    let edits = sc.get("edits").and_then(|x| x.as_array()).unwrap_or(&none);
    // a cut is a number of bytes, an edit a list of [at, removed, inserted] in ascending order
    for (at, c) in cuts.iter().map(|c| (c.as_u64().unwrap() as usize, c)).chain(edits.iter().enumerate()) {
        PARTIAL.lock().unwrap().clear();
        PARTIAL.lock().unwrap().push(json!({ "at": at }));
        if let Some(n) = c.as_u64() {
            std::fs::write(&tmp, &data[..n as usize])?;
        } else {
            let mut d = vec![];
            let mut p = 0;
            for e in c.as_array().unwrap() {
                let a = e[0].as_u64().unwrap() as usize;
                d.extend_from_slice(&data[p..a]);
                d.extend_from_slice(&crate::elem::unhex(e[2].as_str().unwrap()));
                p = a + e[1].as_u64().unwrap() as usize;
            }
            d.extend_from_slice(&data[p..]);
            std::fs::write(&tmp, &d)?;
        }
        let mut o = json!({ "at": at });
        for m in sc["modes"].as_array().unwrap() {
            let m = m.as_str().unwrap();
            let t = tmp.to_str().unwrap();
            let r = match m {
                "elements" | "blocks" | "info" => pbfr(&json!({"path": t, "mode": m, "keys": true})),
                "parallel" => pfe(&json!({"path": t, "tasks": sc.get("tasks").cloned().unwrap_or(json!(3))})),
                "count" => count(&json!({"path": t})),
                "bbox" => bbox(&json!({"path": t})),
                _ => Err(anyhow!("mode")),
            };
            o[m] = match r {
                Ok(v) => v,
                Err(e) => json!({"end": {"err": format!("{e:#}")}}),
            };
        }
        out.push(o);
    }
    let _ = std::fs::remove_file(&tmp);
    Ok(json!({"cuts": out}))
}

/// Interleaved use of several iterators: ["reader", r] ["el"|"bl", i, r] ["next", i] ["drop", i] ["count", r] ["par", r]
fn iters(sc: &Value) -> Result<Value, Error> {
    enum It {
        El(pbf::element_iterator::ElementIterator),
        Bl(pbf::file_block_iterator::FileBlockIterator),
    }
    let paths: Vec<PathBuf> = sc["paths"].as_array().unwrap().iter().map(|p| PathBuf::from(p.as_str().unwrap())).collect();
    let mut readers: Vec<Option<pbf::reader::Reader>> = (0..8).map(|_| None).collect();
    let mut its: HashMap<u64, It> = HashMap::new();
    let mut out = vec![];
    let mut fds = vec![];
    let f0 = entries("/proc/self/fd");
    let r = catch_unwind(AssertUnwindSafe(|| -> Result<(), Error> {
        for op in sc["ops"].as_array().unwrap() {
            let a = op[1].as_u64().unwrap();
            let v = match op[0].as_str().unwrap() {
                "reader" => {
                    readers[a as usize] = Some(pbf::reader::Reader::new(&paths[op[2].as_u64().unwrap() as usize])?);
                    json!("ok")
                }
                "clone" => {
                    readers[a as usize] = readers[op[2].as_u64().unwrap() as usize].clone();
                    json!("ok")
                }
                "unread" => {
                    readers[a as usize] = None;
                    json!("ok")
                }
                "el" => {
                    its.insert(a, It::El(readers[op[2].as_u64().unwrap() as usize].as_ref().unwrap().elements()?));
                    json!("ok")
                }
                "bl" => {
                    its.insert(a, It::Bl(readers[op[2].as_u64().unwrap() as usize].as_ref().unwrap().blocks()?));
                    json!("ok")
                }
                "next" => match its.get_mut(&a).unwrap() {
                    It::El(i) => match i.next() {
                        None => json!("end"),
                        Some(e) => json!({ "e": elem::key(&e) }),
                    },
                    It::Bl(i) => match i.next() {
                        None => json!("end"),
                        Some(pbf::file_block::FileBlock::Header { .. }) => json!("hdr"),
                        Some(pbf::file_block::FileBlock::Data { data, .. }) => json!({"b": data.elements().iter().map(elem::key).collect::<Vec<_>>()}),
                    },
                },
                "drop" => {
                    its.remove(&a);
                    json!("ok")
                }
                "count" => {
                    let (n, w, r) = readers[a as usize].as_ref().unwrap().count_objects()?;
                    json!([n, w, r])
                }
                "par" => {
                    let log: Arc<Mutex<Vec<Value>>> = Arc::new(Mutex::new(vec![]));
                    let l2 = log.clone();
                    readers[a as usize].as_ref().unwrap().parallel_for_each(2, move |e| {
                        l2.lock().unwrap().push(elem::key(&e));
                        Ok(())
                    })?;
                    let v = log.lock().unwrap().clone();
                    json!({ "p": v })
                }
                "nest" => {
                    // at each sentinel, the callback itself uses the library
                    let inner = readers[op[2].as_u64().unwrap() as usize].clone().unwrap();
                    let what = op[3].as_str().unwrap().to_string();
                    let log: Arc<Mutex<(Vec<Value>, Vec<Value>)>> = Arc::new(Mutex::new((vec![], vec![])));
                    let l2 = log.clone();
                    readers[a as usize].as_ref().unwrap().parallel_for_each(3, move |e| {
                        let sentinel = e.is_sentinel();
                        l2.lock().unwrap().0.push(elem::key(&e));
                        if sentinel {
                            let v = match what.as_str() {
                                "count" => {
                                    let (n, w, r) = inner.count_objects()?;
                                    json!([n, w, r])
                                }
                                "el" => json!({"b": inner.elements()?.map(|e| elem::key(&e)).collect::<Vec<_>>()}),
                                _ => {
                                    let log: Arc<Mutex<Vec<Value>>> = Arc::new(Mutex::new(vec![]));
                                    let l3 = log.clone();
                                    inner.parallel_for_each(2, move |e| {
                                        l3.lock().unwrap().push(elem::key(&e));
                                        Ok(())
                                    })?;
                                    let v = log.lock().unwrap().clone();
                                    json!({ "p": v })
                                }
                            };
                            l2.lock().unwrap().1.push(v);
                        }
                        Ok(())
                    })?;
                    let v = log.lock().unwrap().clone();
                    json!({ "p": v.0, "ins": v.1 })
                }
                k => return Err(anyhow!("op {k}")),
            };
            out.push(v);
            fds.push(json!(if sc.get("fds").is_some() { entries("/proc/self/fd") - f0 } else { 0 }));
        }
        Ok(())
    }));
    Ok(json!({"end": res(r), "out": out, "fds": fds}))
}

/// A chain of conversions: src is a PBF file or a dump (from, tmp), each stage {to: "seq"|"par"|"dump", path, tmp, ..}
/// takes what reading the result of the stage before returned, and its own result is read back.
fn conv(sc: &Value) -> Result<Value, Error> {
    use osm_io::osm::apidb_dump;
    enum Source {
        Pbf(pbf::reader::Reader),
        Dump(apidb_dump::read::reader::Reader),
    }
    fn open(dump: bool, v: &Value, k: &str) -> Result<Source, Error> {
        Ok(if dump {
            Source::Dump(apidb_dump::read::reader::Reader::new(path(v, k), path(v, "tmp"))?)
        } else {
            Source::Pbf(pbf::reader::Reader::new(&path(v, k))?)
        })
    }
    fn each(s: &Source, f: &mut dyn FnMut(Element) -> Result<(), Error>) -> Result<(), Error> {
        match s {
            Source::Pbf(r) => {
                for e in r.elements()? {
                    f(e)?;
                }
            }
            Source::Dump(r) => {
                for e in r.elements()? {
                    f(e)?;
                }
            }
        }
        Ok(())
    }
    /// Hands the elements on one by one, or in lists of so many.
    fn feed(s: &Source, list: usize, f: &mut dyn FnMut(Vec<Element>) -> Result<(), Error>) -> Result<(), Error> {
        let mut v = vec![];
        each(s, &mut |e| {
            v.push(e);
            if v.len() > list {
                f(std::mem::take(&mut v))?;
            }
            Ok(())
        })?;
        f(v)
    }
    let mut out = vec![];
    let mut src: Option<Source> = None;
    let mut all = vec![json!({"to": "source", "from": sc["from"], "path": sc["src"], "tmp": sc["tmp"]})];
    all.extend(sc["stages"].as_array().unwrap().iter().cloned());
    for st in &all {
        let mut els = vec![];
        let n = |k: &str, d: u64| st.get(k).and_then(|x| x.as_u64()).unwrap_or(d) as usize;
        let r = catch_unwind(AssertUnwindSafe(|| -> Result<(), Error> {
            let to = st["to"].as_str().unwrap();
            let list = n("list", 0);
            match to {
                "source" => {}
                "dump" => {
                    let mut w = apidb_dump::write::writer::Writer::new(path(st, "path"), 0)?;
                    feed(src.as_ref().unwrap(), list, &mut |v| v.into_iter().try_for_each(|e| w.write_element(e)))?;
                    w.close()?;
                }
                "seq" => {
                    let mut w = pbf::writer::Writer::from_file_info(path(st, "path"), elem::file_info(st), elem::comp(st))?;
                    w.write_header()?;
                    feed(src.as_ref().unwrap(), list, &mut |v| if list > 0 { w.write_elements(v) } else { v.into_iter().try_for_each(|e| w.write_element(e)) })?;
                    w.close()?;
                }
                _ => {
                    let mut w = pbf::parallel_writer::ParallelWriter::from_file_info(n("buf", 32000), n("blk", 8000), path(st, "path"), elem::file_info(st), elem::comp(st))?;
                    w.write_header()?;
                    feed(src.as_ref().unwrap(), list, &mut |v| if list > 0 { w.write_elements(v) } else { v.into_iter().try_for_each(|e| w.write_element(e)) })?;
                    w.close()?;
                }
            }
            let s = open(to == "dump" || to == "source" && st["from"] == "dump", st, "path")?;
            each(&s, &mut |e| {
                els.push(elem::dump(&e));
                Ok(())
            })?;
            src = Some(s);
            Ok(())
        }));
        let r = res(r);
        let stop = r != json!("ok");
        out.push(json!({"to": st["to"], "els": els, "end": r}));
        if stop {
            break;
        }
    }
    Ok(json!({"stages": out}))
}

/// The names and contents of the files of a directory as one number.
fn digest(p: &Path) -> Result<u64, Error> {
    use std::hash::{Hash, Hasher};
    let mut names: Vec<PathBuf> = std::fs::read_dir(p)?.map(|e| e.map(|e| e.path())).collect::<Result<_, _>>()?;
    names.sort();
    let mut h = std::collections::hash_map::DefaultHasher::new();
    for n in names {
        n.file_name().hash(&mut h);
        if n.is_file() {
            std::fs::read(&n)?.hash(&mut h);
        }
    }
    Ok(h.finish() & 0xfffffff)
}

/// Interleaved use of several iterators over dumps: ["reader", r, path] (its work directory is a new one, or
/// tmps[r] if given) ["el", i, r] ["next", i] ["drop", i] ["unread", r] ["same", path] ["all", path] (a reader
/// and an iterator in a thread of its own, to the end)
fn diters(sc: &Value) -> Result<Value, Error> {
    use osm_io::osm::apidb_dump::read::reader::Reader;
    let paths: Vec<PathBuf> = sc["paths"].as_array().unwrap().iter().map(|p| PathBuf::from(p.as_str().unwrap())).collect();
    let tmp = path(sc, "tmp");
    let mut readers: HashMap<u64, Reader> = HashMap::new();
    let mut its: HashMap<u64, Box<dyn Iterator<Item = Element>>> = HashMap::new();
    let mut out = vec![];
    let mut fresh = 0;
    let mut first: Vec<Value> = vec![];
    for p in &paths {
        first.push(json!(digest(p)?));
    }
    let mut fds = vec![];
    let f0 = entries("/proc/self/fd");
    let r = catch_unwind(AssertUnwindSafe(|| -> Result<(), Error> {
        for op in sc["ops"].as_array().unwrap() {
            let a = op[1].as_u64().unwrap();
            fresh += 1;
            let work = tmp.join(format!("w{fresh}"));
            let v = match op[0].as_str().unwrap() {
                "reader" => {
                    readers.insert(a, Reader::new(paths[op[2].as_u64().unwrap() as usize].clone(), work)?);
                    json!("ok")
                }
                "unread" => {
                    readers.remove(&a);
                    json!("ok")
                }
                "el" => {
                    its.insert(a, Box::new(readers[&op[2].as_u64().unwrap()].elements()?));
                    json!("ok")
                }
                "next" => match its.get_mut(&a).unwrap().next() {
                    None => json!("end"),
                    Some(e) => json!({ "e": elem::dump(&e) }),
                },
                "drop" => {
                    its.remove(&a);
                    json!("ok")
                }
                "all" => {
                    let p = paths[a as usize].clone();
                    let els: Vec<Value> = std::thread::spawn(move || -> Result<Vec<Value>, Error> { Ok(Reader::new(p, work)?.elements()?.map(|e| elem::dump(&e)).collect()) })
                        .join()
                        .map_err(|p| anyhow!(panic_text(p)))??;
                    json!({ "b": els })
                }
                "same" => json!({"same": digest(&paths[a as usize])? == first[a as usize].as_u64().unwrap()}),
                k => return Err(anyhow!("op {k}")),
            };
            out.push(v);
            fds.push(json!(if sc.get("fds").is_some() { entries("/proc/self/fd") - f0 } else { 0 }));
        }
        Ok(())
    }));
    Ok(json!({"end": res(r), "out": out, "fds": fds}))
}

fn entries(p: &str) -> i64 {
    std::fs::read_dir(p).map(|d| d.count() as i64).unwrap_or(-1)
}

/// Files and threads of this process.
fn held() -> (i64, i64) {
    (entries("/proc/self/fd"), entries("/proc/self/task"))
}

/// What is held once it has stopped to change, or when it is what it was at base.
fn settled(base: Option<(i64, i64)>, ms: u64) -> (i64, i64) {
    let start = std::time::Instant::now();
    loop {
        let h = held();
        if base.map_or(false, |b| h == b) || start.elapsed() > Duration::from_millis(ms) {
            return h;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

/// Each of the scenarios subs opens, uses and drops things: what is held after each.
fn resources(sc: &Value) -> Result<Value, Error> {
    let b0 = settled(None, 50);
    let mut out = vec![];
    for s in sc["subs"].as_array().unwrap() {
        let r = catch_unwind(AssertUnwindSafe(|| run1(s)));
        let v = match r {
            Ok(Ok(v)) => v,
            Ok(Err(e)) => json!({"end": {"err": format!("{e:#}")}}),
            Err(p) => json!({"end": {"panic": panic_text(p)}}),
        };
        let h = settled(Some(b0), 4000);
        out.push(json!({"ob": v, "files": h.0 - b0.0, "threads": h.1 - b0.1}));
    }
    Ok(json!({"subs": out}))
}

/// The memory one use of the library takes: elements are made when they are written and forgotten when they
/// have been read. peak and kept are bytes more than before.
fn memory(sc: &Value) -> Result<Value, Error> {
    let p = path(sc, "path");
    let n = sc["blocks"].as_i64().unwrap();
    let per = sc.get("per").and_then(|x| x.as_i64()).unwrap_or(100);
    let blk = sc.get("blk").and_then(|x| x.as_u64()).unwrap_or(per as u64) as usize;
    let buf = sc.get("buf").and_then(|x| x.as_u64()).unwrap_or(per as u64) as usize;
    let mut form = json!({"t": sc.get("t").cloned().unwrap_or(json!("n")), "n": per, "step": 3, "pad": sc.get("pad").cloned().unwrap_or(json!(0))});
    if sc.get("fresh").is_some() {
        form["fresh"] = json!(1);
    }
    let make = |k: i64| {
        let mut f = form.clone();
        f["first"] = json!(1 + 3 * k * per);
        elem::run(&f)
    };
    heap::peak();
    let l = heap::live();
    let b = make(0);
    let unit = heap::live() - l;
    drop(b);
    let mut obs = vec![];
    for what in sc["what"].as_array().unwrap() {
        let what = what.as_str().unwrap();
        let base = heap::live();
        heap::peak();
        let mut seen = 0i64;
        let r = catch_unwind(AssertUnwindSafe(|| -> Result<(), Error> {
            match what {
                "seqw" | "seqws" => {
                    let mut w = pbf::writer::Writer::from_file_info(p.clone(), elem::file_info(sc), elem::comp(sc))?;
                    w.write_header()?;
                    for k in 0..n {
                        if what == "seqws" {
                            w.write_elements(make(k))?;
                        } else {
                            for e in make(k) {
                                w.write_element(e)?;
                            }
                        }
                    }
                    w.close()
                }
                "parw" | "parws" => {
                    let mut w = pbf::parallel_writer::ParallelWriter::from_file_info(buf, blk, p.clone(), elem::file_info(sc), elem::comp(sc))?;
                    w.write_header()?;
                    for k in 0..n {
                        if what == "parws" {
                            w.write_elements(make(k))?;
                        } else {
                            for e in make(k) {
                                w.write_element(e)?;
                            }
                        }
                    }
                    w.close()
                }
                // calls that each end with an element that comes too late
                "lost" => {
                    let mut w = pbf::parallel_writer::ParallelWriter::from_file_info(buf, blk, p.clone(), elem::file_info(sc), elem::comp(sc))?;
                    w.write_header()?;
                    for k in 0..n {
                        let mut es = make(k);
                        es.extend(make(0).into_iter().take(1));
                        w.write_elements(es)?;
                    }
                    w.close()
                }
                // a disk that is full before the middle of the file
                "full" => {
                    let _lim = FsizeLimit::new(&json!({"fsize": 20_000}));
                    let mut w = pbf::parallel_writer::ParallelWriter::from_file_info(buf, blk, p.with_extension("full"), elem::file_info(sc), elem::comp(sc))?;
                    w.write_header()?;
                    for k in 0..n {
                        w.write_elements(make(k))?;
                    }
                    let r = w.close();
                    let _ = std::fs::remove_file(p.with_extension("full"));
                    r
                }
                // one accumulator after the other
                "acc" => {
                    for k in 0..n {
                        let a = pbf::thread_local_accumulator::ThreadLocalAccumulator::new(per as usize);
                        for e in make(k) {
                            a.add(e);
                        }
                        seen += a.elements().len() as i64;
                    }
                    Ok(())
                }
                // one accumulator, filled again and again
                "refill" => {
                    let a = pbf::thread_local_accumulator::ThreadLocalAccumulator::new(per as usize);
                    for k in 0..n {
                        for e in make(k) {
                            a.add(e);
                        }
                        seen += a.elements().len() as i64;
                    }
                    Ok(())
                }
                // iterators that are dropped after their first element
                "early" => {
                    let r = pbf::reader::Reader::new(&p)?;
                    for _ in 0..n / 4 {
                        seen += r.elements()?.take(1).count() as i64 + r.blocks()?.take(1).count() as i64;
                    }
                    Ok(())
                }
                // parallel iterations that fail
                "fails" => {
                    for _ in 0..40 {
                        let r = pbf::reader::Reader::new(&p)?.parallel_for_each(4, |_| Err(anyhow!("no")));
                        seen += r.is_err() as i64;
                    }
                    Ok(())
                }
                // parallel iteration, accumulation and the parallel writer
                "copy" => {
                    let out = p.with_extension("copy");
                    let w = pbf::parallel_writer::ParallelWriter::from_file_info(buf, blk, out.clone(), elem::file_info(sc), elem::comp(sc))?;
                    let w = Arc::new(Mutex::new(w));
                    w.lock().unwrap().write_header()?;
                    let a = pbf::thread_local_accumulator::ThreadLocalAccumulator::new(per as usize);
                    let (w2, c) = (w.clone(), Arc::new(AtomicUsize::new(0)));
                    let c2 = c.clone();
                    let r = pbf::reader::Reader::new(&p)?.parallel_for_each(4, move |e| {
                        if e.is_sentinel() {
                            let es = a.elements();
                            w2.lock().unwrap().write_elements(es)?;
                        } else {
                            c2.fetch_add(1, Ordering::Relaxed);
                            a.add(e);
                        }
                        Ok(())
                    });
                    seen = c.load(Ordering::Relaxed) as i64;
                    let closed = w.lock().unwrap().close();
                    let _ = std::fs::remove_file(&out);
                    r?;
                    closed
                }
                "dumpw" => {
                    let mut w = osm_io::osm::apidb_dump::write::writer::Writer::new(path(sc, "dir"), 0)?;
                    for k in 0..n {
                        for e in make(k) {
                            w.write_element(e)?;
                        }
                    }
                    w.close()
                }
                "dumpr" => {
                    let r = osm_io::osm::apidb_dump::read::reader::Reader::new(path(sc, "dir"), path(sc, "tmp"))?;
                    heap::peak();
                    for e in r.elements()? {
                        seen += !e.is_sentinel() as i64;
                    }
                    Ok(())
                }
                "elements" => {
                    for _ in pbf::reader::Reader::new(&p)?.elements()? {
                        seen += 1;
                    }
                    Ok(())
                }
                "blocks" => {
                    for b in pbf::reader::Reader::new(&p)?.blocks()? {
                        if let pbf::file_block::FileBlock::Data { data, .. } = b {
                            seen += data.elements().len() as i64;
                        }
                    }
                    Ok(())
                }
                "par" => {
                    let c = Arc::new(AtomicUsize::new(0));
                    let c2 = c.clone();
                    pbf::reader::Reader::new(&p)?.parallel_for_each(4, move |_| {
                        c2.fetch_add(1, Ordering::Relaxed);
                        Ok(())
                    })?;
                    seen = c.load(Ordering::Relaxed) as i64;
                    Ok(())
                }
                "count" => {
                    let c = pbf::reader::Reader::new(&p)?.count_objects()?;
                    seen = c.0 + c.1 + c.2;
                    Ok(())
                }
                "bbox" => {
                    pbf::bounding_box_calculator::BoundingBoxCalculator::new(&p).calc()?;
                    seen = n * per;
                    Ok(())
                }
                k => Err(anyhow!("what {k}")),
            }
        }));
        let end = res(r);
        let peak = heap::peak() - base;
        obs.push(json!({"what": what, "end": end, "seen": seen, "peak": peak, "kept": heap::live() - base}));
    }
    Ok(json!({"unit": unit, "runs": obs}))
}
