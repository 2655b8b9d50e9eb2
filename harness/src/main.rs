//! Runs library calls given as JSON, one request per line, and answers
//! with what was observed. It knows nothing about what is right.

use std::io::{self, BufRead, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::str::FromStr;

use pica_record::matcher::subfield::SubfieldMatcher;
use pica_record::prelude::*;
use serde_json::{Value, json};

mod records;

pub fn bytes(v: &Value) -> Vec<u8> {
    v.as_array()
        .map(|a| a.iter().map(|x| x.as_u64().unwrap() as u8).collect())
        .unwrap_or_default()
}

pub fn text(v: &Value) -> String {
    String::from_utf8(bytes(v)).expect("text")
}

fn options(r: &Value) -> MatcherOptions {
    MatcherOptions::new()
        .case_ignore(r["ci"].as_bool().unwrap_or(false))
        .strsim_threshold(r["th"].as_f64().unwrap_or(80.0) / 100.0)
}

fn query_options(r: &Value) -> QueryOptions {
    QueryOptions::new()
        .case_ignore(r["ci"].as_bool().unwrap_or(false))
        .strsim_threshold(r["th"].as_f64().unwrap_or(80.0) / 100.0)
        .squash(r["squash"].as_bool().unwrap_or(false))
        .merge(r["merge"].as_bool().unwrap_or(false))
        .separator(text(&r["sep"]))
}

fn format_options(r: &Value) -> FormatOptions {
    FormatOptions::new()
        .case_ignore(r["ci"].as_bool().unwrap_or(false))
        .strsim_threshold(r["th"].as_f64().unwrap_or(80.0) / 100.0)
}

/// An expression of any kind.
#[derive(Clone)]
enum Expr {
    EFilter(RecordMatcher),
    EField(FieldMatcher),
    ESub(SubfieldMatcher),
    EPath(Path),
    EFormat(Format),
    EQuery(Query),
    ETag(TagMatcher),
    EOcc(OccurrenceMatcher),
}

use Expr::*;

fn from_json<T: serde_json_de::De>(s: &str) -> Option<T> {
    T::de(&Value::String(s.to_string()).to_string())
}

/// Reading and writing of expressions as JSON strings.
mod serde_json_de {
    use super::*;

    pub trait De: Sized {
        fn de(s: &str) -> Option<Self>;
        fn ser(&self) -> Option<String>;
    }

    macro_rules! de {
        ($($t:ty),*) => {$(
            impl De for $t {
                fn de(s: &str) -> Option<Self> {
                    serde_json::from_str(s).ok()
                }
                fn ser(&self) -> Option<String> {
                    let s = serde_json::to_string(self).ok()?;
                    serde_json::from_str::<String>(&s).ok()
                }
            }
        )*};
    }

    de!(RecordMatcher, FieldMatcher, SubfieldMatcher, Path, Format, Query, TagMatcher);
}

fn parse(kind: &str, s: &str, via: &str) -> Option<Expr> {
    use serde_json_de::De;
    let serde = via == "serde";
    fn either<T: De, E>(
        serde: bool,
        s: &str,
        f: impl Fn(&str) -> Result<T, E>,
    ) -> Option<T> {
        if serde { from_json(s) } else { f(s).ok() }
    }
    Some(match kind {
        "filter" if via == "builder" => {
            EFilter(RecordMatcherBuilder::new(s).ok()?.build())
        }
        "filter" => {
            EFilter(either(serde, s, |s| RecordMatcher::new(s))?)
        }
        "field" => EField(either(serde, s, |s| FieldMatcher::new(s))?),
        "sub" => ESub(either(serde, s, |s| SubfieldMatcher::new(s))?),
        "path" if via == "builder" => EPath(Path::from_str(s).ok()?),
        "path" => EPath(either(serde, s, |s| Path::new(s))?),
        "format" => EFormat(either(serde, s, |s| Format::new(s))?),
        "query" => EQuery(either(serde, s, |s| Query::new(s))?),
        "tag" => ETag(either(serde, s, |s| TagMatcher::new(s))?),
        "occ" => EOcc(OccurrenceMatcher::new(s).ok()?),
        _ => unreachable!("{kind}"),
    })
}

fn show(e: &Expr, via: &str) -> String {
    use serde_json_de::De;
    macro_rules! s {
        ($x:expr) => {
            if via == "serde" { $x.ser().unwrap_or_default() } else { $x.to_string() }
        };
    }
    match e {
        EFilter(m) => s!(m),
        EField(m) => s!(m),
        ESub(m) => s!(m),
        EPath(m) => s!(m),
        EFormat(m) => s!(m),
        EQuery(m) => s!(m),
        ETag(m) => s!(m),
        EOcc(m) => m.to_string(),
    }
}

fn list<B: AsRef<[u8]>>(x: impl IntoIterator<Item = B>) -> Value {
    Value::Array(x.into_iter().map(|v| json!(v.as_ref())).collect())
}

/// What the expression makes of one record.
fn apply(e: &Expr, data: &[u8], r: &Value) -> Value {
    let Ok(record) = ByteRecord::from_bytes(&data) else {
        return Value::Null;
    };
    let mo = options(r);
    let utf8 = r["utf8"].as_bool().unwrap_or(false);
    if utf8 {
        let Ok(record) = StringRecord::try_from(record) else {
            return Value::Null;
        };
        return match e {
            EPath(p) => list(record.path(p, &mo)),
            EFormat(f) => list(record.format(f, &format_options(r))),
            EQuery(q) => Value::Array(
                record
                    .query(q, &query_options(r))
                    .into_inner()
                    .into_iter()
                    .map(list)
                    .collect(),
            ),
            _ => Value::Null,
        };
    }
    match e {
        EFilter(m) => json!(m.is_match(&record, &mo)),
        EField(m) => json!(m.is_match(record.fields(), &mo)),
        ESub(m) => Value::Array(
            record
                .fields()
                .iter()
                .map(|f| json!(m.is_match(f.subfields(), &mo)))
                .collect(),
        ),
        EPath(p) => list(record.path(p, &mo)),
        EFormat(f) => list(record.format(f, &format_options(r))),
        EQuery(q) => Value::Array(
            record
                .query(q, &query_options(r))
                .into_inner()
                .into_iter()
                .map(list)
                .collect(),
        ),
        ETag(m) => Value::Array(
            record.fields().iter().map(|f| json!(m.is_match(f.tag()))).collect(),
        ),
        EOcc(m) => Value::Array(
            record
                .fields()
                .iter()
                .map(|f| json!(m.is_match(f.occurrence())))
                .collect(),
        ),
    }
}

/// Combines two expressions.
fn combine(a: Expr, b: Expr, op: &str, assign: bool) -> Option<Expr> {
    macro_rules! c {
        ($k:ident, $x:expr, $y:expr) => {{
            let (mut x, y) = ($x, $y);
            Some($k(if assign {
                match op {
                    "and" => x &= y,
                    "or" => x |= y,
                    "xor" => x ^= y,
                    _ => return None,
                }
                x
            } else {
                match op {
                    "and" => x & y,
                    "or" => x | y,
                    "xor" => x ^ y,
                    _ => return None,
                }
            }))
        }};
    }
    match (a, b) {
        (EFilter(x), EFilter(y)) => c!(EFilter, x, y),
        (EField(x), EField(y)) => c!(EField, x, y),
        (ESub(x), ESub(y)) => c!(ESub, x, y),
        _ => None,
    }
}

/// Runs a stack program; the expression on top is the result.
fn program(r: &Value) -> Result<Expr, String> {
    let kind = r["kind"].as_str().unwrap();
    let mut stack: Vec<Expr> = vec![];
    for (k, step) in r["prog"].as_array().unwrap().iter().enumerate() {
        let op = step["op"].as_str().unwrap();
        let via = step["via"].as_str().unwrap_or("new");
        let fail = |what: &str| format!("{what} at step {k}");
        match op {
            "load" => stack.push(
                parse(kind, &text(&step["text"]), via).ok_or(fail("load"))?,
            ),
            "and" | "or" | "xor" => {
                let y = stack.pop().unwrap();
                let x = stack.pop().unwrap();
                stack.push(
                    combine(x, y, op, via == "assign").ok_or(fail(op))?,
                );
            }
            "not" => {
                let x = stack.pop().unwrap();
                stack.push(match x {
                    EFilter(m) => EFilter(!m),
                    EField(m) => EField(!m),
                    ESub(m) => ESub(!m),
                    _ => return Err(fail(op)),
                });
            }
            "print" => {
                let x = stack.pop().unwrap();
                let s = show(&x, via);
                stack.push(
                    parse(kind, &s, via)
                        .ok_or_else(|| format!("print at step {k}: {s}"))?,
                );
            }
            "build" => {
                let get = |n: &str| -> Vec<String> {
                    step[n]
                        .as_array()
                        .map(|a| a.iter().map(text).collect())
                        .unwrap_or_default()
                };
                let upper = step["upper"].as_bool().unwrap_or(false);
                let b = if upper {
                    RecordMatcherBuilder::with_transform(
                        text(&step["text"]),
                        |s: String| s.replace('~', "a"),
                    )
                } else {
                    RecordMatcherBuilder::new(text(&step["text"]))
                };
                let mut b = b.map_err(|_| fail("build"))?;
                for what in step["order"].as_array().unwrap() {
                    let what = what.as_str().unwrap();
                    b = match what {
                        "and" => b.and(get("and")),
                        "or" => b.or(get("or")),
                        _ => b.not(get("not")),
                    }
                    .map_err(|_| fail(what))?;
                }
                stack.push(EFilter(b.build()));
            }
            _ => unreachable!("{op}"),
        }
    }
    Ok(stack.pop().unwrap())
}

fn expr(r: &Value) -> Value {
    match program(r) {
        Err(why) => json!({"acc": false, "why": why}),
        Ok(e) => {
            let mut res: Vec<Value> = vec![];
            for o in r["os"].as_array().unwrap() {
                for d in r["recs"].as_array().unwrap() {
                    res.push(apply(&e, &bytes(d), o));
                }
            }
            json!({"acc": true, "shown": show(&e, "new").as_bytes(), "res": res})
        }
    }
}

fn main() {
    let stdin = io::stdin();
    let mut out = io::BufWriter::new(io::stdout());
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let r: Value = serde_json::from_str(&line).unwrap();
        let answer = catch_unwind(AssertUnwindSafe(|| {
            match r["t"].as_str().unwrap() {
                "expr" => expr(&r),
                "rec" => records::run(&r),
                t => panic!("unknown request {t}"),
            }
        }));
        let answer = answer.unwrap_or_else(|e| {
            let why = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            json!({"panic": why})
        });
        writeln!(out, "{answer}").unwrap();
    }
}
