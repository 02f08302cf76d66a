//! JSON <-> osm-io model conversions. No judgement is made here: the driver only
//! feeds the library and reports what it observed.
use osm_io::osm::model::bounding_box::BoundingBox;
use osm_io::osm::model::coordinate::Coordinate;
use osm_io::osm::model::element::Element;
use osm_io::osm::model::node::Node;
use osm_io::osm::model::relation::{Member, MemberData, Relation};
use osm_io::osm::model::tag::Tag;
use osm_io::osm::model::way::Way;
use osm_io::osm::pbf::compression_type::CompressionType;
use osm_io::osm::pbf::file_info::FileInfo;
use serde_json::{json, Value};

fn i(v: &Value, k: &str, d: i64) -> i64 {
    v.get(k).and_then(|x| x.as_i64()).unwrap_or(d)
}

pub fn s(v: &Value, k: &str) -> String {
    v.get(k).and_then(|x| x.as_str()).unwrap_or("").to_string()
}

fn tags(v: &Value) -> Vec<Tag> {
    v.get("tags")
        .and_then(|t| t.as_array())
        .map(|a| {
            a.iter()
                .map(|kv| Tag::new(kv[0].as_str().unwrap().to_string(), kv[1].as_str().unwrap().to_string()))
                .collect()
        })
        .unwrap_or_default()
}

/// {"t":"n"|"w"|"r"|"s","id","ver","lat","lon"(nanodegrees),"ts"(ms),"cs","uid","user","vis","tags","refs","mem"}
pub fn parse(v: &Value) -> Element {
    let id = i(v, "id", 0);
    let ver = i(v, "ver", 1) as i32;
    let ts = i(v, "ts", 0);
    let cs = i(v, "cs", 1);
    let uid = i(v, "uid", 1) as i32;
    let user = s(v, "user");
    let vis = v.get("vis").and_then(|x| x.as_bool()).unwrap_or(true);
    match v["t"].as_str().unwrap() {
        "n" => Element::Node {
            node: Node::new(
                id,
                ver,
                Coordinate::new(i(v, "lat", 0) as f64 / 1e9, i(v, "lon", 0) as f64 / 1e9),
                ts,
                cs,
                uid,
                user,
                vis,
                tags(v),
            ),
        },
        "w" => {
            let refs = v
                .get("refs")
                .and_then(|r| r.as_array())
                .map(|a| a.iter().map(|x| x.as_i64().unwrap()).collect())
                .unwrap_or_default();
            Element::Way { way: Way::new(id, ver, ts, cs, uid, user, vis, refs, tags(v)) }
        }
        "r" => {
            let mem = v
                .get("mem")
                .and_then(|r| r.as_array())
                .map(|a| {
                    a.iter()
                        .map(|m| {
                            let d = MemberData::new(m[1].as_i64().unwrap(), m[2].as_str().unwrap().to_string());
                            match m[0].as_str().unwrap() {
                                "n" => Member::Node { member: d },
                                "w" => Member::Way { member: d },
                                _ => Member::Relation { member: d },
                            }
                        })
                        .collect()
                })
                .unwrap_or_default();
            Element::Relation { relation: Relation::new(id, ver, ts, cs, uid, user, vis, mem, tags(v)) }
        }
        _ => Element::Sentinel,
    }
}

fn jtags(t: &[Tag]) -> Value {
    Value::Array(t.iter().map(|t| json!([t.k(), t.v()])).collect())
}

pub fn dump(e: &Element) -> Value {
    match e {
        Element::Node { node: n } => json!({
            "t":"n","id":n.id(),"ver":n.version(),
            "lat":(n.coordinate().lat()*1e9).round() as i64,"lon":(n.coordinate().lon()*1e9).round() as i64,
            "lat7":n.coordinate().lat7(),"lon7":n.coordinate().lon7(),
            "ts":n.timestamp(),"cs":n.changeset(),"uid":n.uid(),"user":n.user(),"vis":n.visible(),"tags":jtags(n.tags())}),
        Element::Way { way: w } => json!({
            "t":"w","id":w.id(),"ver":w.version(),"ts":w.timestamp(),"cs":w.changeset(),"uid":w.uid(),
            "user":w.user(),"vis":w.visible(),"refs":w.refs(),"tags":jtags(w.tags())}),
        Element::Relation { relation: r } => {
            let mem: Vec<Value> = r
                .members()
                .iter()
                .map(|m| match m {
                    Member::Node { member } => json!(["n", member.id(), member.role()]),
                    Member::Way { member } => json!(["w", member.id(), member.role()]),
                    Member::Relation { member } => json!(["r", member.id(), member.role()]),
                })
                .collect();
            json!({"t":"r","id":r.id(),"ver":r.version(),"ts":r.timestamp(),"cs":r.changeset(),"uid":r.uid(),
            "user":r.user(),"vis":r.visible(),"mem":mem,"tags":jtags(r.tags())})
        }
        Element::Sentinel => json!({"t":"s"}),
    }
}

pub fn key(e: &Element) -> Value {
    match e {
        Element::Node { node: n } => json!(["n", n.id(), n.version()]),
        Element::Way { way: w } => json!(["w", w.id(), w.version()]),
        Element::Relation { relation: r } => json!(["r", r.id(), r.version()]),
        Element::Sentinel => json!(["s", 0, 0]),
    }
}

pub fn comp(v: &Value) -> CompressionType {
    match v.get("comp").and_then(|c| c.as_str()) {
        Some("raw") => CompressionType::Uncompressed,
        _ => CompressionType::Zlib,
    }
}

pub fn parse_bbox(b: &Value) -> Option<BoundingBox> {
    // nanodegrees left,bottom,right,top
    b.as_array().map(|a| {
        let f = |k: usize| a[k].as_i64().unwrap() as f64 / 1e9;
        BoundingBox::new(f(0), f(1), f(2), f(3))
    })
}

pub fn dump_bbox(b: &BoundingBox) -> Value {
    json!([
        (b.left() * 1e9).round() as i64,
        (b.bottom() * 1e9).round() as i64,
        (b.right() * 1e9).round() as i64,
        (b.top() * 1e9).round() as i64
    ])
}

pub fn ostr(v: &Value, k: &str) -> Option<String> {
    v.get(k).and_then(|x| x.as_str()).map(|x| x.to_string())
}

pub fn strs(v: &Value, k: &str) -> Vec<String> {
    v.get(k)
        .and_then(|x| x.as_array())
        .map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect())
        .unwrap_or_default()
}

pub fn file_info(v: &Value) -> FileInfo {
    match v.get("info") {
        None | Some(Value::Null) => FileInfo::default(),
        Some(h) if h.get("set").is_some() => {
            let mut f = FileInfo::default();
            f.with_osmosis_replication_base_url(&ostr(h, "rurl"));
            f.with_osmosis_replication_sequence_number(&h.get("rseq").and_then(|x| x.as_i64()));
            f.with_osmosis_replication_timestamp(&h.get("rts").and_then(|x| x.as_i64()));
            f.with_source(&ostr(h, "src"));
            match ostr(h, "prog") {
                Some(p) => f.with_writingprogram_str(&p),
                None => f.with_writingprogram(&None),
            }
            f.with_optional_features(&strs(h, "opt"));
            f.with_required_features(&strs(h, "req"));
            f.with_bounding_box(&h.get("bbox").and_then(parse_bbox));
            f
        }
        Some(h) => FileInfo::new(
            h.get("bbox").and_then(parse_bbox),
            strs(h, "req"),
            strs(h, "opt"),
            ostr(h, "prog"),
            ostr(h, "src"),
            h.get("rts").and_then(|x| x.as_i64()),
            h.get("rseq").and_then(|x| x.as_i64()),
            ostr(h, "rurl"),
        ),
    }
}

/// The features as both ways of asking tell them: a listed one that is denied is left out, and a name that
/// was asked for without being listed is added.
fn asked(listed: &[String], has: impl Fn(&str) -> bool, other: &[String]) -> Vec<String> {
    let mut all: Vec<String> = listed.iter().filter(|f| has(f)).cloned().collect();
    for f in other.iter().map(|f| f.as_str()).chain(["", "No.Such-Feature"]) {
        if has(f) && !listed.iter().any(|l| l == f) {
            all.push(f.to_string());
        }
    }
    all
}

pub fn dump_info(h: &FileInfo) -> Value {
    json!({
        "bbox": h.bounding_box().as_ref().map(dump_bbox),
        "req": asked(h.required_features(), |f| h.required(f), h.optional_features()),
        "opt": asked(h.optional_features(), |f| h.optional(f), h.required_features()),
        "prog": h.writingprogram(), "src": h.source(),
        "rts": h.osmosis_replication_timestamp(), "rseq": h.osmosis_replication_sequence_number(),
        "rurl": h.osmosis_replication_base_url()
    })
}

/// Elements of an op: either explicit ("e"/"es") or a synthetic run
/// {"t","first","n","step","ver","pad"(bytes of tag payload),"z"(attributes a function of id)}
pub fn run(v: &Value) -> Vec<Element> {
    let first = i(v, "first", 1);
    let n = i(v, "n", 0);
    let step = i(v, "step", 1);
    let pad = i(v, "pad", 0) as usize;
    (0..n)
        .map(|k| {
            let id = first + k * step;
            let mut o = json!({"t": v["t"], "id": id, "ver": i(v,"ver",1), "cs": 1 + id.rem_euclid(7), "uid": 1 + id.rem_euclid(3),
                "user": format!("u{}", 1 + id.rem_euclid(3)), "ts": 1000 * (1_600_000_000 + id.rem_euclid(1000)),
                "lat": 100 * (id.rem_euclid(1_800_000_000) - 900_000_000), "lon": 100 * (id.rem_euclid(3_600_000_000) - 1_800_000_000)});
            let mut tags = vec![json!(["id", id.to_string()])];
            if pad > 0 {
                // "fresh": another text for every element
                let own = if v.get("fresh").is_some() { id.to_string() } else { String::new() };
                tags.push(json!(["pad", own + &"x".repeat(pad)]));
            }
            o["tags"] = Value::Array(tags);
            match v["t"].as_str().unwrap() {
                "w" => o["refs"] = json!([id, id + 1]),
                "r" => o["mem"] = json!([["n", id, "a"], ["w", id + 1, "b"]]),
                _ => {}
            }
            parse(&o)
        })
        .collect()
}

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
