use phonenumber::metadata::{DATABASE, Database, Descriptor, Descriptors, Format};
use phonenumber::{Metadata, Mode, NationalNumber, ParseError, PhoneNumber, Type, country};
use serde_json::{Value, json};
use std::collections::hash_map::DefaultHasher;
use std::fmt::Write;
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};

const MODES: [(&str, Mode); 4] = [
    ("e164", Mode::E164),
    ("international", Mode::International),
    ("national", Mode::National),
    ("rfc3966", Mode::Rfc3966),
];

const KINDS: [(&str, Type); 17] = [
    ("fixed_line", Type::FixedLine),
    ("mobile", Type::Mobile),
    ("fixed_line_or_mobile", Type::FixedLineOrMobile),
    ("toll_free", Type::TollFree),
    ("premium_rate", Type::PremiumRate),
    ("shared_cost", Type::SharedCost),
    ("personal_number", Type::PersonalNumber),
    ("voip", Type::Voip),
    ("pager", Type::Pager),
    ("uan", Type::Uan),
    ("emergency", Type::Emergency),
    ("voicemail", Type::Voicemail),
    ("short_code", Type::ShortCode),
    ("standard_rate", Type::StandardRate),
    ("carrier", Type::Carrier),
    ("no_international", Type::NoInternational),
    ("unknown", Type::Unknown),
];

fn text(v: &Value) -> String {
    v.as_array()
        .unwrap()
        .iter()
        .map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap())
        .collect()
}

fn points(s: &str) -> Value {
    Value::Array(s.chars().map(|c| json!(c as u32)).collect())
}

fn opt(s: Option<&str>) -> Value {
    match s {
        None => json!([]),
        Some(s) => json!([points(s)]),
    }
}

fn opt_str(s: Option<&str>) -> Value {
    match s {
        None => json!([]),
        Some(s) => json!([s]),
    }
}

fn guard<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

fn hash(v: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

fn kind(e: &ParseError) -> &'static str {
    match e {
        ParseError::NoNumber => "NoNumber",
        ParseError::InvalidCountryCode => "InvalidCountryCode",
        ParseError::TooShortAfterIdd => "TooShortAfterIdd",
        ParseError::TooShortNsn => "TooShortNsn",
        ParseError::TooLong => "TooLong",
        ParseError::MalformedInteger(_) => "MalformedInteger",
    }
}

fn type_name(t: Type) -> &'static str {
    KINDS.iter().find(|(_, k)| *k == t).unwrap().0
}

fn source_name(s: country::Source) -> &'static str {
    match s {
        country::Source::Plus => "plus",
        country::Source::Idd => "idd",
        country::Source::Number => "number",
        country::Source::Default => "default",
    }
}

fn render(f: impl std::fmt::Display) -> Option<String> {
    let mut s = String::new();
    write!(s, "{f}").ok().map(|_| s)
}

/// A parsed number, as its accessors show it.
fn number(n: &PhoneNumber) -> Value {
    json!({
        "t": "ok",
        "code": n.code().value(),
        "src": source_name(n.code().source()),
        "val": points(&n.national().value().to_string()),
        "zeros": n.national().zeros(),
        "nsn": points(&n.national().to_string()),
        "ext": opt(n.extension().map(|e| e.as_ref())),
        "car": opt(n.carrier().map(|c| c.as_ref())),
    })
}

fn outcome(r: &Option<Result<PhoneNumber, ParseError>>) -> Value {
    match r {
        None => json!({"t": "panic"}),
        Some(Err(e)) => guard(|| {
            let _ = e.to_string();
            json!({"t": "err", "e": kind(e)})
        })
        .unwrap_or(json!({"t": "panic"})),
        Some(Ok(n)) => guard(|| number(n)).unwrap_or(json!({"t": "panic"})),
    }
}

fn same(
    a: &Option<Result<PhoneNumber, ParseError>>,
    b: &Option<Result<PhoneNumber, ParseError>>,
) -> bool {
    outcome(a) == outcome(b)
}

fn region(v: &Value) -> Option<country::Id> {
    match v.as_str().unwrap() {
        "" => None,
        s => Some(
            s.parse()
                .unwrap_or_else(|_| panic!("harness: no region {s}")),
        ),
    }
}

enum Db {
    Default,
    Own(Box<Database>),
    Bad,
}

pub struct Env {
    docs: Vec<Value>,
    dbs: Vec<Option<Db>>,
    place: Box<Option<Database>>,
}

fn open(doc: &Value) -> Option<Result<Database, String>> {
    guard(|| match doc["k"].as_str().unwrap() {
        "parse" => Database::parse(doc["xml"].as_str().unwrap()).map_err(|e| format!("{e:?}")),
        "load" => Database::load(doc["path"].as_str().unwrap()).map_err(|e| format!("{e:?}")),
        "file" => {
            static COUNT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
            let k = COUNT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            let path =
                std::env::temp_dir().join(format!("pn-document-{}-{k}.xml", std::process::id()));
            std::fs::write(&path, doc["xml"].as_str().unwrap()).unwrap();
            let db = guard(|| Database::load(&path));
            let _ = std::fs::remove_file(&path);
            db.expect("panic").map_err(|e| format!("{e:?}"))
        }
        "stream" => {
            let bytes = doc["xml"].as_str().unwrap().as_bytes();
            let size = 1 + bytes.len() % 61;
            phonenumber::metadata::loader::load(std::io::BufReader::with_capacity(size, bytes))
                .and_then(Database::from)
                .map_err(|e| format!("{e:?}"))
        }
        "from" => phonenumber::metadata::loader::load(doc["xml"].as_str().unwrap().as_bytes())
            .and_then(Database::from)
            .map_err(|e| format!("{e:?}")),
        k => panic!("harness: no kind {k}"),
    })
}

impl Env {
    pub fn new(docs: Value) -> Self {
        let docs = docs.as_array().unwrap().clone();
        let dbs = docs.iter().map(|_| None).collect();
        Env {
            docs,
            dbs,
            place: Box::new(None),
        }
    }

    fn prepare(&mut self, i: usize) {
        if self.dbs[i].is_none() {
            self.dbs[i] = Some(if self.docs[i]["k"] == "default" {
                Db::Default
            } else {
                match open(&self.docs[i]) {
                    Some(Ok(db)) => Db::Own(Box::new(db)),
                    _ => Db::Bad,
                }
            });
        }
    }

    /// Open all databases but the built-in one, which initialises itself when it is first used.
    pub fn prepare_given(&mut self) {
        for i in 0..self.docs.len() {
            if self.docs[i]["k"] != "default" {
                self.prepare(i);
            }
        }
    }

    pub fn exec(&mut self, op: &Value) -> Value {
        if op["fresh"] == true {
            // Give up this database and the next one: it comes back in another place, perhaps that of the other.
            let (i, n) = (op["db"].as_u64().unwrap() as usize - 1, self.dbs.len());
            for k in [i, (i + 1) % n] {
                if matches!(&self.dbs[k], Some(Db::Own(d)) if d.iter().count() < 20) {
                    self.dbs[k] = None;
                }
            }
        }
        if let Some(i) = op["db"].as_u64() {
            let i = i as usize - 1;
            self.prepare(i);
            if op["moved"] == true && matches!(self.dbs[i], Some(Db::Own(_))) {
                // Where others have been before it.
                let Some(Db::Own(db)) = self.dbs[i].take() else {
                    unreachable!()
                };
                let kept = (op["cloned"] == true).then(|| (*db).clone());
                *self.place = Some(*db);
                let seen = run(&self.docs, (*self.place).as_ref(), op);
                self.dbs[i] = kept.or(self.place.take()).map(|db| Db::Own(Box::new(db)));
                *self.place = None;
                return seen;
            }
        }
        self.exec_shared(op)
    }

    /// Databases that were not prepared are the default one.
    pub fn exec_shared(&self, op: &Value) -> Value {
        let db: Option<&Database> = match op["db"].as_u64().map(|i| &self.dbs[i as usize - 1]) {
            None | Some(None) | Some(Some(Db::Default)) => None,
            Some(Some(Db::Own(db))) => Some(db),
            Some(Some(Db::Bad)) => return json!({"t": "nodb"}),
        };
        run(&self.docs, db, op)
    }
}

fn run(docs: &[Value], db: Option<&Database>, op: &Value) -> Value {
    match op["op"].as_str().unwrap() {
        "parse" => parse(db, op),
        "quick" => quick(db, op),
        "huge" => {
            let n = op["n"].as_u64().unwrap() as usize;
            let s = text(&op["head"]) + &text(&op["piece"]).repeat(n) + &text(&op["tail"]);
            let p = parse_in(db, region(&op["region"]), &s);
            let v = guard(|| phonenumber::is_viable(&s))
                .map(|b| b.to_string())
                .unwrap_or("panic".into());
            json!({"p": outcome(&p), "v": v})
        }
        "viable" => {
            let s = text(&op["s"]);
            json!({"v": guard(|| phonenumber::is_viable(&s)).map(|b| b.to_string()).unwrap_or("panic".into())})
        }
        "fits" => fits(db.unwrap_or(&DATABASE), op),
        "custom" => custom(db.unwrap_or(&DATABASE), op),
        "make" => make(db, op),
        "eq" => equal(db.unwrap_or(&DATABASE), op),
        "burst" => burst(db, op),
        "book" => book(db.unwrap_or(&DATABASE), op),
        "nn" => {
            let v: u64 = text(&op["v"]).parse().unwrap();
            let z = op["z"].as_u64().unwrap() as u8;
            national(guard(|| NationalNumber::new(v, z)))
        }
        "nnstr" => {
            let s = text(&op["s"]);
            national(guard(|| s.parse::<NationalNumber>()))
        }
        "id" => identifier(op["s"].as_str().unwrap()),
        "names" => names(),
        "load" => load(&docs[op["doc"].as_u64().unwrap() as usize - 1]),
        k => panic!("harness: no operation {k}"),
    }
}

fn parse_in(
    db: Option<&Database>,
    r: Option<country::Id>,
    s: &str,
) -> Option<Result<PhoneNumber, ParseError>> {
    match db {
        None => guard(|| phonenumber::parse(r, s)),
        Some(db) => guard(|| phonenumber::parse_with(db, r, s)),
    }
}

/// What is asked of a number.
fn examine(given: Option<&Database>, n: &PhoneNumber) -> Value {
    let db = given.unwrap_or(&DATABASE);
    let flag = |b: Option<bool>| b.map(|b| b.to_string()).unwrap_or("panic".into());
    let mut f = serde_json::Map::new();
    for (name, mode) in MODES {
        f.insert(
            name.into(),
            match guard(|| render(n.format_with(db).mode(mode))) {
                None => json!({"t": "panic"}),
                Some(None) => json!({"t": "err"}),
                Some(Some(s)) => json!({"t": "ok", "s": points(&s)}),
            },
        );
    }
    json!({
        "valid": flag(guard(|| n.is_valid_with(db))),
        "type": guard(|| type_name(n.number_type_with(db))).unwrap_or("panic"),
        "meta": guard(|| n.metadata(db).map(|m| json!([m.id(), m.country_code()])).unwrap_or(json!(["", 0])))
            .unwrap_or(json!(["panic", 0])),
        "cid": match guard(|| n.country().id()) {
            None => "panic".into(),
            Some(Err(_)) => "error".into(),
            Some(Ok(None)) => "".into(),
            Some(Ok(Some(id))) => id.as_ref().to_string(),
        },
        "f": f,
    })
}

/// Ways of asking that must give the same answer; those that do not are listed.
fn variants(
    given: Option<&Database>,
    r: Option<country::Id>,
    s: &str,
    p: &Option<Result<PhoneNumber, ParseError>>,
) -> Vec<&'static str> {
    let db = given.unwrap_or(&DATABASE);
    let mut bad = Vec::new();
    let mut check = |name: &'static str, f: &dyn Fn() -> bool| {
        if guard(f) != Some(true) {
            bad.push(name);
        }
    };

    check("again", &|| same(p, &parse_in(given, r, s)));
    if given.is_none() {
        check("parse_with", &|| {
            same(
                p,
                &guard(|| phonenumber::parse_with(&DATABASE, r, s.to_string())),
            )
        });
        if r.is_none() {
            check("from_str", &|| same(p, &guard(|| s.parse::<PhoneNumber>())));
        }
    }

    if let Some(Ok(n)) = p {
        check("is_valid_with", &|| {
            phonenumber::is_valid_with(db, n) == n.is_valid_with(db)
        });
        check("country_code", &|| {
            n.country().code() == n.code().value()
                && n.country().value() == n.code().value()
                && u16::from(*n.code()) == n.code().value()
                && n.country().source() == n.code().source()
        });
        check("national_u64", &|| {
            u64::from(*n.national()) == n.national().value()
        });
        check("national_display", &|| {
            n.national().to_string()
                == format!(
                    "{}{}",
                    "0".repeat(n.national().zeros() as usize),
                    n.national().value()
                )
        });
        check("national_reparse", &|| {
            n.national().to_string().parse::<NationalNumber>().ok() == Some(*n.national())
        });
        if let Some(e) = n.extension() {
            check("extension", &|| {
                e.to_string() == e[..] && phonenumber::Extension::from(e.to_string()) == *e
            });
        }
        if let Some(c) = n.carrier() {
            check("carrier", &|| {
                c.to_string() == c[..] && phonenumber::Carrier::from(c.to_string()) == *c
            });
        }
        check("clone", &|| {
            let c = n.clone();
            c == *n && hash(&c) == hash(n) && number(&c) == number(n)
        });
        check("serde", &|| {
            let c: PhoneNumber = serde_json::from_str(&serde_json::to_string(n).unwrap()).unwrap();
            c == *n
                && hash(&c) == hash(n)
                && number(&c) == number(n)
                && examine(given, &c) == examine(given, n)
        });
        check("serde_binary", &|| {
            let c: PhoneNumber = postcard::from_bytes(&postcard::to_stdvec(n).unwrap()).unwrap();
            c == *n && hash(&c) == hash(n) && number(&c) == number(n)
        });
        check("serde_stream", &|| {
            let c: PhoneNumber =
                serde_json::from_reader(serde_json::to_vec(n).unwrap().as_slice()).unwrap();
            c == *n && number(&c) == number(n)
        });
        check("debug", &|| !format!("{n:?}").is_empty());
        check("default_mode", &|| {
            render(n.format_with(db)) == render(n.format_with(db).mode(Mode::E164))
        });
        for (_, mode) in MODES {
            check("format_with", &|| {
                render(phonenumber::format_with(db, n).mode(mode))
                    == render(n.format_with(db).mode(mode))
            });
            check("formatter_database", &|| {
                render(n.format().database(db).mode(mode)) == render(n.format_with(db).mode(mode))
                    && render(n.format().mode(mode).database(db))
                        == render(n.format_with(db).mode(mode))
            });
        }
        check("metadata_code", &|| {
            n.metadata(db)
                .is_none_or(|m| m.country_code() == n.code().value())
        });
        if given.is_none() {
            check("is_valid", &|| {
                n.is_valid() == n.is_valid_with(&DATABASE)
                    && phonenumber::is_valid(n) == n.is_valid()
            });
            check("number_type", &|| {
                n.number_type() == n.number_type_with(&DATABASE)
            });
            check("display", &|| render(n) == render(n.format_with(&DATABASE)));
            for (_, mode) in MODES {
                check("format", &|| {
                    render(n.format().mode(mode)) == render(n.format_with(&DATABASE).mode(mode))
                        && render(phonenumber::format(n).mode(mode))
                            == render(n.format_with(&DATABASE).mode(mode))
                });
            }
        }
    }
    bad.sort();
    bad.dedup();
    bad
}

/// Parse, ask everything there is to ask, format in all modes, parse those again.
fn parse(given: Option<&Database>, op: &Value) -> Value {
    let s = text(&op["s"]);
    let r = region(&op["region"]);
    let p = parse_in(given, r, &s);
    let mut o = json!({"p": outcome(&p), "api": variants(given, r, &s, &p)});
    if let Some(Ok(n)) = &p {
        let x = examine(given, n);
        let mut rt = serde_json::Map::new();
        for (name, _) in MODES {
            if x["f"][name]["t"] == "ok" {
                let t = &x["f"][name]["s"];
                // A national format only means something at home.
                let home = match (name, x["meta"][0].as_str()) {
                    ("national", Some(id)) => id.parse().ok(),
                    _ => None,
                };
                rt.insert(name.into(), outcome(&parse_in(given, home, &text(t))));
            } else {
                rt.insert(name.into(), json!({"t": "none"}));
            }
        }
        o["x"] = x;
        o["rt"] = Value::Object(rt);
    }
    o
}

/// Parse and the four formats only.
fn quick(given: Option<&Database>, op: &Value) -> Value {
    let s = text(&op["s"]);
    let p = parse_in(given, region(&op["region"]), &s);
    let mut o = json!({"p": outcome(&p)});
    if let Some(Ok(n)) = &p {
        o["x"] = examine(given, n);
    }
    o
}

/// Format with a format of another region.
fn custom(db: &Database, op: &Value) -> Value {
    let s = text(&op["s"]);
    let Some(Ok(n)) = parse_in(Some(db), region(&op["region"]), &s) else {
        return json!({"t": "err"});
    };
    let m = db.by_id(op["from"].as_str().unwrap());
    let k = op["k"].as_u64().unwrap() as usize - 1;
    let Some(f) = m.and_then(|m| {
        if op["intl"] == true {
            m.international_formats().get(k)
        } else {
            m.formats().get(k)
        }
    }) else {
        return json!({"t": "noformat"});
    };
    let mut out = serde_json::Map::new();
    for (name, mode) in MODES {
        out.insert(
            name.into(),
            match guard(|| {
                let a = render(n.format_with(db).mode(mode).with(f));
                let b = render(n.format().with(f).database(db).mode(mode));
                (a == b).then_some(a)
            }) {
                None => json!({"t": "panic"}),
                Some(None) => json!({"t": "differ"}),
                Some(Some(None)) => json!({"t": "err"}),
                Some(Some(Some(s))) => json!({"t": "ok", "s": points(&s)}),
            },
        );
    }
    json!({"t": "ok", "f": out})
}

fn built(op: &Value) -> Result<PhoneNumber, String> {
    let value: u64 = text(&op["v"]).parse().unwrap();
    let zeros = op["z"].as_u64().unwrap();
    let one = |k: &str| match op[k].as_array().unwrap().first() {
        None => Value::Null,
        Some(p) => json!(text(p)),
    };
    serde_json::from_value(json!({
        "code": {"value": op["code"], "source": op["src"]},
        "national": {"value": (zeros << 56) | value},
        "extension": one("ext"),
        "carrier": one("car"),
    }))
    .map_err(|e| e.to_string())
}

/// A number put together rather than parsed: as stored by a user of serde.
fn make(given: Option<&Database>, op: &Value) -> Value {
    match guard(|| built(op)) {
        None => json!({"p": {"t": "panic"}}),
        Some(Err(e)) => json!({"p": {"t": "err", "e": e}}),
        Some(Ok(n)) => json!({"p": outcome(&Some(Ok(n.clone()))), "x": examine(given, &n)}),
    }
}

/// Many calls in a row, of which nothing is kept.
fn burst(given: Option<&Database>, op: &Value) -> Value {
    let texts: Vec<(Option<country::Id>, String)> = op["texts"]
        .as_array()
        .unwrap()
        .iter()
        .map(|t| (region(&t[0]), text(&t[1])))
        .collect();
    for k in 0..op["n"].as_u64().unwrap() as usize {
        let (r, s) = &texts[k % texts.len()];
        // The texts differ from round to round.
        let s = format!(
            "{s}{}",
            if k < texts.len() {
                String::new()
            } else {
                (k / texts.len()).to_string()
            }
        );
        guard(|| {
            if let Some(Ok(n)) = parse_in(given, *r, &s) {
                let db = given.unwrap_or(&DATABASE);
                let _ = (
                    n.is_valid_with(db),
                    n.number_type_with(db),
                    render(n.format_with(db)),
                );
            }
        });
    }
    json!({"t": "ok"})
}

/// A number by any of the ways to get one.
fn side(db: &Database, v: &Value) -> Option<PhoneNumber> {
    let n = if v["op"] == "make" {
        built(v).ok()
    } else {
        parse_in(Some(db), region(&v["region"]), &text(&v["s"])).and_then(|r| r.ok())
    }?;
    if v["stored"] == true {
        serde_json::from_str(&serde_json::to_string(&n).ok()?).ok()
    } else {
        Some(n)
    }
}

/// Entries under numbers: put in, looked up, dropped; in a hash map and in a list.
fn book(db: &Database, op: &Value) -> Value {
    guard(|| {
        let mut map = std::collections::HashMap::new();
        let mut list: Vec<(PhoneNumber, usize)> = Vec::new();
        let mut answers = Vec::new();
        for (i, act) in op["acts"].as_array().unwrap().iter().enumerate() {
            let Some(n) = side(db, &act[1]) else {
                return json!({"t": "err"});
            };
            let place = list.iter().position(|(m, _)| *m == n);
            let listed = place.map(|p| list[p].1).unwrap_or(0);
            let mapped = match act[0].as_str().unwrap() {
                "put" => {
                    match place {
                        Some(p) => list[p].1 = i + 1,
                        None => list.push((n.clone(), i + 1)),
                    }
                    map.insert(n, i + 1)
                }
                "get" => map.get(&n).copied(),
                _ => {
                    place.map(|p| list.remove(p));
                    map.remove(&n)
                }
            };
            answers.push(json!([mapped.unwrap_or(0), listed]));
        }
        json!({"t": "ok", "answers": answers, "size": [map.len(), list.len()]})
    })
    .unwrap_or(json!({"t": "panic"}))
}

fn equal(db: &Database, op: &Value) -> Value {
    let (Some(a), Some(b)) = (side(db, &op["a"]), side(db, &op["b"])) else {
        return json!({"t": "err"});
    };
    guard(|| {
        json!({
            "t": "ok",
            "eq": a == b,
            "sym": (b == a) == (a == b) && (a != b) != (a == b),
            "hash": hash(&a) == hash(&b),
            "code": a.code() == b.code(),
            "codehash": hash(a.code()) == hash(b.code()),
            "national": a.national() == b.national(),
            "nationalhash": hash(a.national()) == hash(b.national()),
        })
    })
    .unwrap_or(json!({"t": "panic"}))
}

fn national(r: Option<Result<NationalNumber, ParseError>>) -> Value {
    match r {
        None => json!({"t": "panic"}),
        Some(Err(e)) => json!({"t": "err", "e": kind(&e)}),
        Some(Ok(n)) => guard(|| {
            json!({
                "t": "ok",
                "val": points(&n.value().to_string()),
                "zeros": n.zeros(),
                "disp": points(&n.to_string()),
                "u64": points(&u64::from(n).to_string()),
                "serde": serde_json::from_str::<NationalNumber>(&serde_json::to_string(&n).unwrap()).unwrap() == n
                    && postcard::from_bytes::<NationalNumber>(&postcard::to_stdvec(&n).unwrap()).unwrap() == n,
            })
        })
        .unwrap_or(json!({"t": "panic"})),
    }
}

fn identifier(s: &str) -> Value {
    match guard(|| s.parse::<country::Id>()) {
        None => json!({"t": "panic"}),
        Some(Err(_)) => json!({"t": "err"}),
        Some(Ok(id)) => json!({
            "t": "ok",
            "name": id.as_ref(),
            "debug": format!("{id:?}"),
            "json": serde_json::to_value(id).unwrap(),
            "serde": serde_json::from_value::<country::Id>(serde_json::to_value(id).unwrap()).unwrap() == id
                && postcard::from_bytes::<country::Id>(&postcard::to_stdvec(&id).unwrap()).unwrap() == id,
            "home": guard(|| DATABASE.by_id(id.as_ref()).map(|m| m.id().to_string()).unwrap_or_default()),
        }),
    }
}

/// Names under which types and sources are stored.
fn names() -> Value {
    let kinds: serde_json::Map<String, Value> = KINDS
        .iter()
        .map(|(n, k)| {
            (
                n.to_string(),
                json!([
                    serde_json::to_value(k).unwrap(),
                    serde_json::from_value::<Type>(serde_json::to_value(k).unwrap()).unwrap() == *k
                        && postcard::from_bytes::<Type>(&postcard::to_stdvec(k).unwrap()).unwrap()
                            == *k
                ]),
            )
        })
        .collect();
    let sources: serde_json::Map<String, Value> = [
        country::Source::Plus,
        country::Source::Idd,
        country::Source::Number,
        country::Source::Default,
    ]
    .iter()
    .map(|s| {
        (
            source_name(*s).to_string(),
            json!([
                serde_json::to_value(s).unwrap(),
                serde_json::from_value::<country::Source>(serde_json::to_value(s).unwrap())
                    .unwrap()
                    == *s
                    && postcard::from_bytes::<country::Source>(&postcard::to_stdvec(s).unwrap())
                        .unwrap()
                        == *s
            ]),
        )
    })
    .collect();
    json!({"kinds": kinds, "sources": sources})
}

/// The text of a pattern: blanks do not count, nor does what ties it to the whole number.
fn pattern(r: &regex::Regex) -> String {
    let s: String = r.as_str().chars().filter(|c| !c.is_whitespace()).collect();
    for (head, tail) in [
        ("^(?:", ")$"),
        ("\\A(?:", ")\\z"),
        ("^(?:", ")\\z"),
        ("\\A(?:", ")$"),
    ] {
        if let Some(t) = s.strip_prefix(head).and_then(|t| t.strip_suffix(tail)) {
            return t.into();
        }
    }
    for head in ["^(?:", "\\A(?:"] {
        if let Some(t) = s.strip_prefix(head).and_then(|t| t.strip_suffix(")")) {
            return t.into();
        }
    }
    s
}

fn descriptor(d: Option<&Descriptor>) -> Value {
    match d {
        None => json!([]),
        Some(d) => json!([{
            "pat": pattern(d.national_number()),
            "len": d.possible_length(),
            "loc": d.possible_local_length(),
            "ex": opt_str(d.example()),
        }]),
    }
}

fn format(f: &Format) -> Value {
    json!({
        "pat": pattern(f.pattern()),
        "fmt": f.format(),
        "lead": f.leading_digits().iter().map(pattern).collect::<Vec<_>>(),
        "np": opt_str(f.national_prefix()),
        "npo": f.is_national_prefix_optional(),
        "car": opt_str(f.domestic_carrier()),
    })
}

fn optional(r: Option<&regex::Regex>) -> Value {
    match r {
        None => json!([]),
        Some(r) => json!([pattern(r)]),
    }
}

const NAMED: [(&str, fn(&Descriptors) -> Option<&Descriptor>); 13] = [
    ("generalDesc", |d| Some(d.general())),
    ("fixedLine", |d| d.fixed_line()),
    ("mobile", |d| d.mobile()),
    ("tollFree", |d| d.toll_free()),
    ("premiumRate", |d| d.premium_rate()),
    ("sharedCost", |d| d.shared_cost()),
    ("personalNumber", |d| d.personal_number()),
    ("voip", |d| d.voip()),
    ("pager", |d| d.pager()),
    ("uan", |d| d.uan()),
    ("emergency", |d| d.emergency()),
    ("voicemail", |d| d.voicemail()),
    ("noInternationalDialling", |d| d.no_international()),
];

/// The descriptions of a territory that a national number fits.
fn fits(db: &Database, op: &Value) -> Value {
    let s = text(&op["s"]);
    let Some(m) = db.by_id(op["id"].as_str().unwrap()) else {
        return json!({"t": "none"});
    };
    match guard(|| {
        let named = NAMED
            .iter()
            .map(|(name, get)| (*name, get(m.descriptors())));
        named
            .filter(|(_, d)| d.is_some_and(|d| d.is_match(&s)))
            .map(|(name, _)| name)
            .collect::<Vec<_>>()
    }) {
        None => json!({"t": "panic"}),
        Some(l) => json!({"t": "ok", "of": l}),
    }
}

fn entry(m: &Metadata) -> Value {
    let d: &Descriptors = m.descriptors();
    let desc: serde_json::Map<String, Value> = NAMED
        .iter()
        .map(|(name, get)| (name.to_string(), descriptor(get(d))))
        .collect();
    let mut get = serde_json::Map::new();
    for (name, k) in KINDS {
        get.insert(
            name.into(),
            match d.get(k) {
                None => json!([]),
                Some(d) => json!([pattern(d.national_number())]),
            },
        );
    }
    json!({
        "id": m.id(),
        "cc": m.country_code(),
        "idd": optional(m.international_prefix()),
        "pidd": opt_str(m.preferred_international_prefix()),
        "np": opt_str(m.national_prefix()),
        "ext": opt_str(m.preferred_extension_prefix()),
        "npp": optional(m.national_prefix_for_parsing()),
        "npt": opt_str(m.national_prefix_transform_rule()),
        "main": m.is_main_country_for_code(),
        "lead": optional(m.leading_digits()),
        "mnp": m.is_mobile_number_portable(),
        "fmts": m.formats().iter().map(format).collect::<Vec<_>>(),
        "ifmts": m.international_formats().iter().map(format).collect::<Vec<_>>(),
        "get": get,
        "desc": desc,
        "others": d.short_code().is_some() as u8 + d.standard_rate().is_some() as u8 + d.carrier().is_some() as u8,
    })
}

fn dump(db: &Database) -> Value {
    let mut codes = Vec::new();
    let mut ids: Vec<String> = Vec::new();
    for code in 0..=u16::MAX {
        match (db.by_code(&code), db.region(&code)) {
            (None, None) => (),
            (l, r) => {
                let l = l.unwrap_or_default();
                ids.extend(l.iter().map(|m| m.id().to_string()));
                codes.push(json!({
                    "code": code,
                    "list": l.iter().map(|m| entry(m)).collect::<Vec<_>>(),
                    "regions": r.unwrap_or_default(),
                }));
            }
        }
    }
    let mut iter: Vec<(u16, String)> = db
        .iter()
        .map(|m| (m.country_code(), m.id().to_string()))
        .collect();
    iter.sort();
    ids.extend(iter.iter().map(|(_, id)| id.clone()));
    ids.sort();
    ids.dedup();
    let by_id: Vec<Value> = ids
        .iter()
        .map(|id| match db.by_id(id.as_str()) {
            None => json!({"id": id, "m": []}),
            Some(m) => json!({"id": id, "m": [entry(m)]}),
        })
        .collect();
    json!({"t": "ok", "codes": codes, "ids": by_id, "iter": iter,
        "none": (["ZZ", "", "us"].iter().filter(|i| !ids.iter().any(|k| k == **i) && db.by_id(**i).is_some()).count())})
}

fn load(doc: &Value) -> Value {
    if doc["k"] == "default" {
        return guard(|| dump(&DATABASE)).unwrap_or(json!({"t": "panic"}));
    }
    match open(doc) {
        None => json!({"t": "panic"}),
        Some(Err(e)) => json!({"t": "err", "e": e}),
        Some(Ok(db)) => guard(|| dump(&db)).unwrap_or(json!({"t": "panic"})),
    }
}
