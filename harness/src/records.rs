//! Records, their parts and the reader, as a library user sees them.

use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::cell::RefCell;
use std::io::{self, Read, Write};
use std::ops::DerefMut;
use std::rc::Rc;
use std::str::FromStr;

use pica_record::matcher::{OccurrenceMatcher, TagMatcher};
use pica_record::io::{GzipWriter, PlainWriter};
use pica_record::prelude::*;
use pica_record::primitives::*;
use serde_json::{Value, json};

use crate::{bytes, text};

fn leak(v: &Value) -> &'static Vec<u8> {
    Box::leak(Box::new(bytes(v)))
}

fn leak_str(v: &Value) -> &'static str {
    Box::leak(text(v).into_boxed_str())
}

enum Entry {
    Byte(ByteRecord<'static>),
    Str(StringRecord<'static>),
}

impl Entry {
    fn byte(&self) -> &ByteRecord<'static> {
        match self {
            Self::Byte(r) => r,
            Self::Str(r) => r,
        }
    }

    fn byte_mut(&mut self) -> &mut ByteRecord<'static> {
        match self {
            Self::Byte(r) => r,
            Self::Str(r) => r.deref_mut(),
        }
    }
}

type Part = (char, &'static str);

fn given(v: &Value) -> Vec<(&'static str, Option<&'static str>, Vec<Part>)> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|f| {
            let occ = f["hasocc"].as_bool().unwrap().then(|| leak_str(&f["occ"]));
            let subs = f["sub"]
                .as_array()
                .unwrap()
                .iter()
                .map(|s| {
                    let c = s["c"].as_u64().unwrap() as u32;
                    (char::from_u32(c).unwrap(), leak_str(&s["v"]))
                })
                .collect();
            (leak_str(&f["tag"]), occ, subs)
        })
        .collect()
}

fn predicates(v: &Value) -> Option<Vec<(TagMatcher, OccurrenceMatcher)>> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|p| {
            Some((
                TagMatcher::new(&text(&p["tt"])).ok()?,
                OccurrenceMatcher::new(&text(&p["ot"])).ok()?,
            ))
        })
        .collect()
}

/// A predicate for retain; it may count its calls.
fn predicate(p: &Value) -> impl FnMut(&FieldRef) -> bool {
    let kind = p["k"].as_str().unwrap().to_string();
    let tag = bytes(&p["tag"]);
    let code = p["c"].as_u64().unwrap_or(0) as u8 as char;
    let mut n = 0;
    move |f: &FieldRef| {
        n += 1;
        match kind.as_str() {
            "tag" => *f.tag() == std::str::from_utf8(&tag).unwrap(),
            "code" => f.contains(code),
            "occ" => f.occurrence().is_some(),
            "odd" => n % 2 == 1,
            "all" => true,
            _ => false,
        }
    }
}

fn step(stack: &mut Vec<Entry>, s: &Value) -> Option<()> {
    let op = s["op"].as_str().unwrap();
    let via = s["via"].as_str().unwrap_or("");
    match op {
        "load" => {
            let data = leak(&s["text"]);
            stack.push(Entry::Byte(match via {
                "ref" => ByteRecord::from(RecordRef::from_bytes(data).ok()?),
                _ => ByteRecord::from_bytes(data).ok()?,
            }));
        }
        "new" => {
            let r = RecordRef::new(given(&s["fields"])).ok()?;
            stack.push(Entry::Byte(ByteRecord::from(r)));
        }
        "keep" => {
            let p = predicates(&s["list"])?;
            stack.last_mut()?.byte_mut().keep(&p);
        }
        "discard" => {
            let p = predicates(&s["list"])?;
            stack.last_mut()?.byte_mut().discard(&p);
        }
        "retain" => stack.last_mut()?.byte_mut().retain(predicate(&s["pred"])),
        "through" => {
            let inner: &mut RecordRef = stack.last_mut()?.byte_mut();
            inner.retain(predicate(&s["pred"]));
        }
        "assign" => {
            let r = RecordRef::new(given(&s["fields"])).ok()?;
            **stack.last_mut()?.byte_mut() = r;
        }
        "copy" => {
            let inner: &RecordRef = stack.last()?.byte();
            let inner = inner.clone();
            stack.push(Entry::Byte(ByteRecord::from(inner)));
        }
        "serde" => {
            let e = stack.pop()?;
            stack.push(match e {
                Entry::Byte(r) if via == "ref" => {
                    let inner: &RecordRef = &r;
                    let b = Box::leak(Box::new(bincode::serialize(inner).unwrap()));
                    let r: RecordRef = bincode::deserialize(b).ok()?;
                    Entry::Byte(ByteRecord::from(r))
                }
                Entry::Byte(r) => {
                    let b = Box::leak(Box::new(bincode::serialize(&r).unwrap()));
                    Entry::Byte(bincode::deserialize(b).ok()?)
                }
                Entry::Str(r) => {
                    let b = Box::leak(Box::new(bincode::serialize(&r).unwrap()));
                    Entry::Str(bincode::deserialize(b).ok()?)
                }
            });
        }
        "string" => {
            let e = stack.pop()?;
            stack.push(match e {
                Entry::Byte(r) => Entry::Str(StringRecord::try_from(r).ok()?),
                e => e,
            });
        }
        "swap" => {
            let n = stack.len();
            stack.swap(n - 1, n - 2);
        }
        _ => unreachable!("{op}"),
    }
    Some(())
}

fn level(l: Level) -> &'static str {
    match l {
        Level::Main => "main",
        Level::Local => "local",
        Level::Copy => "copy",
    }
}

fn see_field(f: &FieldRef) -> Value {
    let mut t = vec![];
    f.write_to(&mut t).unwrap();
    let owned = Field::from(f.clone());
    let mut o = vec![];
    owned.write_to(&mut o).unwrap();
    let first: Vec<Value> = (0..=255u32)
        .chain([0x161, 0x1F600, 0x10061])
        .filter_map(char::from_u32)
        .filter(|c| f.contains(*c))
        .map(|c| {
            let v = f.find(|s| *s.code() == c).map(|s| s.value().as_bytes().to_vec());
            json!({"c": c as u32, "v": v})
        })
        .collect();
    let same = *f == owned
        && owned == *f
        && FieldRef::from_bytes(&t).is_ok_and(|g| g == *f)
        && Tag::from(f.tag().clone()) == *f.tag()
        && f.subfields().iter().all(|s| {
            let mut t = vec![];
            s.write_to(&mut t).unwrap();
            let o = Subfield::from(s.clone());
            let mut ot = vec![];
            o.write_to(&mut ot).unwrap();
            *s == o
                && ot == t
                && *o.code() == *s.code()
                && *o.value() == *s.value()
                && SubfieldRef::from_bytes(&t).is_ok_and(|x| x == *s)
        });
    json!({
        "tag": f.tag().to_string().as_bytes(),
        "occ": f.occurrence().map(|o| o.as_bytes().to_vec()).unwrap_or_default(),
        "sub": f.subfields().iter().map(|s| json!({"c": s.code().as_byte(), "v": s.value().as_bytes()})).collect::<Vec<_>>(),
        "level": level(f.level()).as_bytes(),
        "utf8": f.validate().is_ok(),
        "text": t, "owned": o, "same": same, "first": first,
    })
}

fn see(e: &Entry) -> Value {
    let r = e.byte();
    let inner: &RecordRef = r;
    let mut t = vec![];
    r.write_to(&mut t).unwrap();
    let owned = Record::from(inner.clone());
    let mut o = vec![];
    owned.write_to(&mut o).unwrap();
    let j = serde_json::to_string(&owned).unwrap();
    let mut jt = vec![];
    let mut same = owned == *inner && *inner == owned;
    match serde_json::from_str::<Record>(&j) {
        Ok(x) => {
            x.write_to(&mut jt).unwrap();
            same = same && x == *inner;
        }
        Err(_) => same = false,
    }
    let mut it = vec![];
    inner.write_to(&mut it).unwrap();
    same = same && it == t;
    let mut h = DefaultHasher::new();
    r.hash(&mut h);
    json!({
        "seen": {
            "text": t, "owned": o, "json": jt, "same": same,
            "empty": r.is_empty(), "utf8": r.validate().is_ok(),
            "fields": r.fields().iter().map(see_field).collect::<Vec<_>>(),
        },
        "sha": r.sha256(), "hash": h.finish().to_string(),
    })
}

fn recs(r: &Value) -> Value {
    let mut stack = vec![];
    for (k, s) in r["prog"].as_array().unwrap().iter().enumerate() {
        if step(&mut stack, s).is_none() {
            return json!({"acc": false, "at": k});
        }
    }
    let eq: Vec<Vec<bool>> = stack
        .iter()
        .map(|a| stack.iter().map(|b| a.byte() == b.byte()).collect())
        .collect();
    let own: Vec<Vec<bool>> = stack
        .iter()
        .map(|a| {
            stack
                .iter()
                .map(|b| {
                    let x: &RecordRef = a.byte();
                    let y: &RecordRef = b.byte();
                    let o = Record::from(y.clone());
                    let (p, q) = (*x == o, o == *x);
                    if p == q { p } else { panic!("== is not symmetric") }
                })
                .collect()
        })
        .collect();
    json!({"acc": true, "recs": stack.iter().map(see).collect::<Vec<_>>(), "eq": eq, "own": own})
}

fn part(r: &Value) -> Value {
    let raw = leak(&r["text"]);
    let utf8 = std::str::from_utf8(raw).ok();
    let mut acc = vec![];
    let mut shown: Vec<Vec<u8>> = vec![];
    let mut same = vec![];
    macro_rules! written {
        ($x:expr) => {{
            let mut t = vec![];
            $x.write_to(&mut t).unwrap();
            t
        }};
    }
    match r["kind"].as_str().unwrap() {
        "tag" => {
            let a = TagRef::from_bytes(raw);
            acc.push(a.is_ok());
            if let Ok(a) = &a {
                shown.push(a.to_string().into_bytes());
                shown.push(written!(a));
                shown.push((0..4).map(|i| a[i]).collect());
                same.push(*a == utf8.unwrap());
            }
            if let Some(s) = utf8 {
                acc.push(TagRef::new(s).is_ok());
                let o = Tag::new(s);
                acc.push(o.is_ok());
                if let Ok(o) = o {
                    shown.push(o.to_string().into_bytes());
                    shown.push(written!(o));
                    shown.push(o.as_bytes().to_vec());
                    same.push(o == s && a.is_ok_and(|a| a == o && o == a));
                }
            }
        }
        "occ" => {
            let a = OccurrenceRef::from_bytes(raw);
            acc.push(a.is_ok());
            if let Ok(a) = &a {
                shown.push(a.as_bytes().to_vec());
                shown.push(written!(a)[1..].to_vec());
                shown.push(a.to_string().trim_start_matches('/').as_bytes().to_vec());
                same.push(*a == raw);
            }
            if let Some(s) = utf8 {
                acc.push(OccurrenceRef::new(s).is_ok());
                let o = Occurrence::new(s);
                acc.push(o.is_ok());
                if let Ok(o) = o {
                    shown.push(o.as_bytes().to_vec());
                    shown.push(o.to_string().trim_start_matches('/').as_bytes().to_vec());
                    shown.push(written!(o)[1..].to_vec());
                    same.push(o.len() == raw.len());
                    same.push(o == s && a.is_ok_and(|a| a == o));
                }
            }
        }
        "value" => {
            let a = SubfieldValueRef::from_bytes(raw);
            acc.push(a.is_ok());
            if let Ok(a) = &a {
                shown.push(a.as_bytes().to_vec());
                same.push(*a == raw);
            }
            if let Some(s) = utf8 {
                acc.push(SubfieldValueRef::new(s).is_ok());
                let o = SubfieldValue::new(s);
                acc.push(o.is_ok());
                if let Ok(o) = o {
                    shown.push(o.as_bytes().to_vec());
                    same.push(o == *s && a.is_ok_and(|a| a == o && o == a));
                }
            }
        }
        "subfield" => {
            let a = SubfieldRef::from_bytes(raw);
            acc.push(a.is_ok());
            if let Ok(a) = &a {
                shown.push(written!(a));
                same.push(a.validate().is_ok() == utf8.is_some());
                let o = Subfield::from(a.clone());
                shown.push(written!(o));
                same.push(*a == o);
                if utf8.is_some() {
                    let v = std::str::from_utf8(a.value().as_bytes()).unwrap();
                    let b = SubfieldRef::new(**a.code(), v);
                    same.push(b.is_ok_and(|b| b == *a));
                    same.push(Subfield::new(**a.code(), v).is_ok_and(|b| b == o));
                }
            }
        }
        "field" => {
            let a = FieldRef::from_bytes(raw);
            acc.push(a.is_ok());
            if let Ok(a) = &a {
                shown.push(written!(a));
                shown.push(written!(Field::from(a.clone())));
                same.push(a.validate().is_ok() == utf8.is_some());
                if utf8.is_some() {
                    let tag = a.tag().to_string();
                    let occ = a.occurrence().map(|o| String::from_utf8(o.as_bytes().to_vec()).unwrap());
                    let subs = |a: &'static FieldRef<'static>| {
                        a.subfields().iter().map(|s| (**s.code(), std::str::from_utf8(s.value().as_bytes()).unwrap()))
                    };
                    let leaked: &'static FieldRef<'static> = Box::leak(Box::new(a.clone()));
                    let b = FieldRef::new(&tag, occ.as_deref(), subs(leaked));
                    same.push(b.is_ok_and(|b| b == *a));
                    let b = Field::new(&tag, occ.as_deref(), subs(leaked));
                    same.push(b.is_ok_and(|b| b == *a && *a == b));
                }
            }
        }
        "record" => {
            acc.push(RecordRef::from_bytes(raw).is_ok());
            let a = ByteRecord::from_bytes(raw);
            acc.push(a.is_ok());
            if let Ok(a) = a {
                shown.push(written!(a));
                let s = StringRecord::try_from(a);
                same.push(s.is_ok() == utf8.is_some());
                if let Ok(s) = s {
                    shown.push(written!(s));
                }
            }
        }
        "code" => {
            let c = r["text"][0].as_u64().and_then(|c| char::from_u32(c as u32)).unwrap();
            let a = SubfieldCode::new(c);
            acc.push(a.is_ok());
            if let Ok(a) = a {
                shown.push(vec![a.as_byte()]);
                shown.push(a.to_string().into_bytes());
                same.push(a == c && *a == c);
            }
            acc.push(SubfieldRef::new(c, "x").is_ok());
            acc.push(Subfield::new(c, "").is_ok());
            acc.push(FieldRef::new("012A", None, vec![('a', "b"), (c, "x")]).is_ok());
        }
        "level" => {
            let a = utf8.and_then(|s| Level::from_str(s).ok());
            acc.push(a.is_some());
            if let Some(a) = a {
                shown.push(level(a).as_bytes().to_vec());
            }
        }
        k => unreachable!("{k}"),
    }
    json!({"acc": acc, "shown": shown, "same": same})
}

fn pair(r: &Value) -> Value {
    let (a, b) = (leak(&r["a"]), leak(&r["b"]));
    let (sa, sb) = (std::str::from_utf8(a).unwrap(), std::str::from_utf8(b).unwrap());
    let ord = |o: Option<std::cmp::Ordering>| o.map(|o| o as i32).unwrap_or(9);
    match r["kind"].as_str().unwrap() {
        "tag" => {
            let (x, y) = (TagRef::new(sa).unwrap(), TagRef::new(sb).unwrap());
            let (p, q) = (Tag::new(sa).unwrap(), Tag::new(sb).unwrap());
            json!({"eq": [x == y, p == q, x == q, p == y, x == sb, p == sb, &x == &sb], "ord": []})
        }
        "occ" => {
            let (x, y) = (OccurrenceRef::new(sa).unwrap(), OccurrenceRef::new(sb).unwrap());
            let (p, q) = (Occurrence::new(sa).unwrap(), Occurrence::new(sb).unwrap());
            json!({"eq": [x == y, p == q, x == q, p == sb, x == sb],
                   "ord": [ord(x.partial_cmp(&y)), ord(p.partial_cmp(&q))]})
        }
        "value" => {
            let (x, y) = (SubfieldValueRef::new(sa).unwrap(), SubfieldValueRef::new(sb).unwrap());
            let (p, q) = (SubfieldValue::new(sa).unwrap(), SubfieldValue::new(sb).unwrap());
            json!({"eq": [x == y, p == q, x == q, p == y, x == *sb, x == sb, p == *sb, p == sb],
                   "ord": [ord(x.partial_cmp(&y)), ord(p.partial_cmp(&q))]})
        }
        k => unreachable!("{k}"),
    }
}

/// A source that gives its bytes in pieces, with interruptions, and may
/// fail for good.
struct Pieces {
    data: Vec<u8>,
    at: usize,
    cuts: Vec<usize>,
    k: usize,
    limit: Option<usize>,
    kind: io::ErrorKind,
}

/// The kind of failure a request names.
fn kind(v: &Value) -> io::ErrorKind {
    use io::ErrorKind::*;
    match v.as_str().unwrap_or("other") {
        "eof" => UnexpectedEof,
        "block" => WouldBlock,
        "pipe" => BrokenPipe,
        "time" => TimedOut,
        "data" => InvalidData,
        "input" => InvalidInput,
        "denied" => PermissionDenied,
        "zero" => WriteZero,
        _ => Other,
    }
}

impl Read for Pieces {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let cut = self.cuts[self.k % self.cuts.len()];
        self.k += 1;
        if cut == 0 {
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        let end = self.limit.unwrap_or(self.data.len()).min(self.data.len());
        if self.limit.is_some() && self.at >= end {
            return Err(io::Error::new(self.kind, "torn"));
        }
        let n = cut.min(buf.len()).min(end - self.at);
        buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

fn answer<T>(
    x: Option<Result<T, ReadPicaError>>,
    f: impl Fn(T) -> Vec<u8>,
) -> Value {
    match x {
        None => json!({"k": "end"}),
        Some(Ok(r)) => json!({"k": "rec", "text": f(r)}),
        Some(Err(e)) => {
            let skips = e.skip_parse_err(true);
            let msg = e.to_string().into_bytes();
            match e {
                ReadPicaError::Parse { .. } if skips => json!({"k": "parse", "msg": msg}),
                ReadPicaError::Utf8 { .. } if !skips => json!({"k": "utf8", "msg": msg}),
                ReadPicaError::IO(_) if !skips => json!({"k": "io"}),
                _ => json!({"k": "wrong"}),
            }
        }
    }
}

fn reader(r: &Value) -> Value {
    let src = text(&r["src"]);
    let pieces = Pieces {
        data: bytes(&r["data"]),
        at: 0,
        cuts: r["cuts"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect(),
        k: 0,
        limit: r["limit"].as_i64().and_then(|n| usize::try_from(n).ok()),
        kind: kind(&r["fails"]),
    };
    let mut reader = ReaderBuilder::new().from_reader(pieces, if src.is_empty() { None } else { Some(src) });
    let mut out = vec![];
    for c in r["calls"].as_array().unwrap() {
        let a = match c.as_str().unwrap() {
            "byte" => answer(reader.next_byte_record(), |r| {
                let mut t = vec![];
                r.write_to(&mut t).unwrap();
                t
            }),
            _ => answer(reader.next_string_record(), |r| {
                let mut t = vec![];
                r.write_to(&mut t).unwrap();
                t
            }),
        };
        let stop = a["k"] == "io";
        out.push(a);
        if stop {
            break;
        }
    }
    json!({"answers": out})
}

/// A sink that takes its bytes in pieces, with interruptions, and has room
/// for so many only; its flush may fail.
struct Sink {
    got: Rc<RefCell<Vec<u8>>>,
    room: Option<usize>,
    cuts: Vec<usize>,
    k: usize,
    flushes: bool,
    kind: io::ErrorKind,
}

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let cut = self.cuts[self.k % self.cuts.len()];
        self.k += 1;
        if cut == 0 {
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        let mut got = self.got.borrow_mut();
        let left = self.room.unwrap_or(usize::MAX) - got.len();
        if left == 0 && !buf.is_empty() {
            return Err(io::Error::new(self.kind, "full"));
        }
        let n = cut.min(buf.len()).min(left);
        got.extend_from_slice(&buf[..n]);
        Ok(n)
    }

    fn flush(&mut self) -> io::Result<()> {
        if self.flushes { Ok(()) } else { Err(io::Error::new(self.kind, "flush")) }
    }
}

/// Writes what the request names into a sink; says how each call ended and
/// what the sink holds.
fn sink(r: &Value) -> Value {
    let got = Rc::new(RefCell::new(vec![]));
    let size = |v: &Value| v.as_i64().and_then(|n| usize::try_from(n).ok());
    let mut out = Sink {
        got: got.clone(),
        room: size(&r["room"]),
        cuts: r["cuts"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect(),
        k: 0,
        flushes: r["flushes"].as_bool().unwrap(),
        kind: kind(&r["fails"]),
    };
    let texts: Vec<&'static Vec<u8>> = r["texts"].as_array().unwrap().iter().map(leak).collect();
    let mut oks = vec![];
    let who = r["who"].as_str().unwrap();
    if who == "plain" || who == "gzip" {
        let mut w: Box<dyn ByteRecordWrite> = match who {
            "plain" => Box::new(PlainWriter::new(out)),
            _ => Box::new(GzipWriter::new(out)),
        };
        for t in texts {
            let record = ByteRecord::from_bytes(t).unwrap();
            oks.push(w.write_byte_record(&record).is_ok());
            if !oks[oks.len() - 1] {
                break;
            }
        }
        if oks.iter().all(|x| *x) {
            oks.push(w.finish().is_ok());
        }
        let held = got.borrow().len();
        drop(w);
        return json!({"oks": oks, "held": held, "got": *got.borrow()});
    }
    for t in texts {
        let res = match who {
            "subfield" => SubfieldRef::from_bytes(t).unwrap().write_to(&mut out),
            "ownsubfield" => Subfield::from(SubfieldRef::from_bytes(t).unwrap()).write_to(&mut out),
            "field" => FieldRef::from_bytes(t).unwrap().write_to(&mut out),
            "ownfield" => Field::from(FieldRef::from_bytes(t).unwrap()).write_to(&mut out),
            "ref" => RecordRef::from_bytes(t).unwrap().write_to(&mut out),
            "own" => Record::from(RecordRef::from_bytes(t).unwrap()).write_to(&mut out),
            "byte" => ByteRecord::from_bytes(t).unwrap().write_to(&mut out),
            "bare" => ByteRecord::from(RecordRef::from_bytes(t).unwrap()).write_to(&mut out),
            "string" => StringRecord::try_from(ByteRecord::from_bytes(t).unwrap()).unwrap().write_to(&mut out),
            w => unreachable!("{w}"),
        };
        oks.push(res.is_ok());
        if !oks[oks.len() - 1] {
            break;
        }
    }
    let held = got.borrow().len();
    json!({"oks": oks, "held": held, "got": *got.borrow()})
}

pub fn run(r: &Value) -> Value {
    match r["what"].as_str().unwrap() {
        "recs" => recs(r),
        "part" => part(r),
        "pair" => pair(r),
        "reader" => reader(r),
        "sink" => sink(r),
        w => unreachable!("{w}"),
    }
}
