//! Runs tests generated from the specification, comparing what they lead to with its predictions.

use crate::env::*;
use crate::subject::*;
use crate::world::{Desk, World};
use serde_json::{json, Map, Value};
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::{Duration, Instant};

struct Watched {
    current: Option<(String, Instant)>,
    out: Option<BufWriter<File>>,
    tests: usize,
    steps: usize,
    found: usize,
}

static WATCHED: Mutex<Watched> =
    Mutex::new(Watched { current: None, out: None, tests: 0, steps: 0, found: 0 });

/// As done by Explains in the specification.
fn explains(notices: &[Value], observed: &[Value]) -> bool {
    match notices.split_first() {
        None => observed.is_empty(),
        Some((first, rest)) => {
            let must = first["must"].as_bool().unwrap();
            (!observed.is_empty()
                && (!must || observed[0] == first["p"])
                && explains(rest, &observed[1..]))
                || (!must && explains(rest, observed))
        }
    }
}

fn primary(exp: &Value) -> String {
    for i in [0, 3] {
        if exp["facts"][i] != "none" {
            return exp["facts"][i].as_str().unwrap().into();
        }
    }
    "total".into()
}

/// Facts contradicted by the last operation, as done by
/// Contradictions in the specification.
fn judge(run: &mut Subject, op: &Value, exp: &Value, env: &Env, files: bool) -> (Vec<String>, Value) {
    let mut facts = Vec::new();
    let mut observed = Map::new();
    let result = catch_unwind(AssertUnwindSafe(|| {
        run.notices.start(&run.buffer);
        let res = run.apply(op, Some(env));
        observed.insert("res".into(), res);
        observed.insert("t".into(), cps(&run.data()));
        observe(&run.buffer, Some(env), &mut observed);
    }));
    if result.is_err() {
        return (vec![primary(exp), "total".into()], json!("panic"));
    }
    let notices = run.notices.positions();
    observed.insert("cbs".into(), Value::Array(notices.clone()));

    let fact = |i: usize| exp["facts"][i].as_str().unwrap().to_string();
    if observed["t"] != exp["t"] {
        facts.push(fact(0));
    }
    if observed["cur"] != exp["cur"] {
        facts.push(fact(1));
    }
    if !explains(exp["cbs"].as_array().unwrap(), &notices) || run.notices.late(&run.buffer) {
        facts.push(fact(2));
    }
    if observed["res"] != exp["res"] {
        facts.push(fact(3));
    }
    if observed["mod"] != exp["mod"] {
        facts.push("modified".into());
        let f = fact(3);
        if ["save", "save.fail", "reload", "reload.fail"].contains(&f.as_str()) {
            facts.push(f);
        }
    }
    if files {
        let disk = env.disk();
        for name in ["A", "B"] {
            if exp["disk"][name]["k"] != "unknown" && exp["disk"][name] != disk[name] {
                facts.push(if op["op"] == "save" { "save.disk".into() } else { "disk".into() });
            }
        }
        observed.insert("disk".into(), disk);
    }
    (facts, Value::Object(observed))
}

fn report(text: &str, op: &Value, facts: &[String], observed: Value, exp: &Value) {
    let mut w = WATCHED.lock().unwrap();
    w.found += 1;
    if w.found <= 500 {
        let line = json!({"contradiction": facts, "op": op, "observed": observed, "predicted": exp,
                          "test": serde_json::from_str::<Value>(text).unwrap_or(json!(text))});
        writeln!(w.out.as_mut().unwrap(), "{}", line).unwrap();
    }
}

/// How tests are run.
pub struct Options {
    /// Look at files after every operation.
    pub files: bool,
    /// Write down which test is about to run, in case it ends this process.
    pub stepwise: bool,
    /// Tests are about workspaces rather than buffers.
    pub workspaces: bool,
    /// Tests are about tokens.
    pub tokens: bool,
    /// Out of every this many tests, run the one at this index.
    pub shard: (usize, usize),
}

pub fn main(input: &str, output: &str, options: Options) {
    let Options { files, stepwise, workspaces, tokens, shard } = options;
    std::panic::set_hook(Box::new(|_| {}));
    unsafe {
        let limit = libc::rlimit { rlim_cur: 12 << 30, rlim_max: 12 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &limit);
    }
    WATCHED.lock().unwrap().out = Some(BufWriter::new(File::create(output).unwrap()));

    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(500));
        let stuck = match WATCHED.lock().unwrap().current {
            Some((ref text, since)) if since.elapsed() > Duration::from_secs(20) => Some(text.clone()),
            _ => None,
        };
        if let Some(text) = stuck {
            let test: Value = serde_json::from_str(&text).unwrap();
            let op = test["ops"].as_array().and_then(|ops| ops.last().cloned()).unwrap_or(json!(""));
            // Queries are run one after another; any of them could be the one that's stuck.
            let mut facts: Vec<String> = match test["queries"].as_array() {
                Some(queries) => queries.iter().map(|q| primary(&q["exp"])).collect(),
                None if test["text"].is_array() => vec!["tokens".into(), "scopes".into()],
                None if test["setup"].is_object() => workspace_facts(&test, "res"),
                None => vec![primary(&test["exp"])],
            };
            facts.sort();
            facts.dedup();
            report(&text, &op, &facts, json!("hang"), &json!(""));
            finish(0);
            std::process::exit(0);
        }
    });

    let env = Env::new(&format!("replay-{}", shard.0));
    let world = if workspaces { Some(World::new(&format!("replay-ws-{}", shard.0))) } else { None };
    let syntaxes = if tokens { Some(crate::tokens::workspace().syntax_set) } else { None };
    let mut skipped = 0;
    let mut index = 0;
    for line in BufReader::with_capacity(1 << 20, File::open(input).unwrap()).lines() {
        let line = line.unwrap();
        if !line.starts_with("\"{") {
            continue;
        }
        index += 1;
        if index % shard.1 != shard.0 {
            continue;
        }
        let text: String = match serde_json::from_str(&line) {
            Ok(text) => text,
            Err(_) => panic!("malformed test: {}", line),
        };
        if stepwise {
            std::fs::write(format!("{}.pending", output), &text).unwrap();
        }
        WATCHED.lock().unwrap().current = Some((text.clone(), Instant::now()));
        let test: Value = serde_json::from_str(&text).unwrap();
        let ran = match (&world, &syntaxes) {
            (Some(world), _) => one_workspace(&text, &test, world),
            (_, Some(syntaxes)) => one_text(&text, &test, syntaxes),
            _ => one(&text, &test, &env, files),
        };
        if !ran {
            skipped += 1;
        }
        let mut w = WATCHED.lock().unwrap();
        w.current = None;
        w.tests += 1;
    }
    if stepwise {
        let _ = std::fs::remove_file(format!("{}.pending", output));
    }
    drop(env);
    drop(world);
    finish(skipped);
}

fn finish(skipped: usize) {
    let mut w = WATCHED.lock().unwrap();
    w.out.as_mut().unwrap().flush().unwrap();
    println!("{}", json!({"tests": w.tests, "steps": w.steps, "skipped": skipped, "found": w.found}));
}

/// Runs a test. Returns false if its setup doesn't lead to where it should, in
/// which case there's another test that says so.
fn one(text: &str, test: &Value, env: &Env, files: bool) -> bool {
    let ops = test["ops"].as_array().unwrap();
    let tail = test["tail"].as_u64().unwrap() as usize;
    let mut run = Subject::new();

    if files {
        let absent = json!({"A": {"k": "absent"}, "B": {"k": "absent"}});
        env.set_disk(&absent);
    }

    let setup = |run: &mut Subject, ops: &[Value]| {
        catch_unwind(AssertUnwindSafe(|| {
            for op in ops {
                run.apply(op, Some(env));
            }
        }))
        .is_ok()
    };

    if !setup(&mut run, &ops[..ops.len() - tail]) {
        return false;
    }
    let reached = catch_unwind(AssertUnwindSafe(|| {
        cps(&run.data()) == test["pre"]["t"] && json!(run.buffer.modified()) == test["pre"]["mod"]
    }));
    if !reached.unwrap_or(false) {
        return false;
    }

    if let Some(queries) = test["queries"].as_array() {
        for query in queries {
            WATCHED.lock().unwrap().steps += 1;
            let (facts, observed) = judge(&mut run, &query["op"], &query["exp"], env, files);
            if !facts.is_empty() {
                let panicked = observed == "panic";
                report(text, &query["op"], &facts, observed, &query["exp"]);
                if panicked {
                    return true;
                }
            }
        }
        return true;
    }

    if tail > 1 && !setup(&mut run, &ops[ops.len() - tail..ops.len() - 1]) {
        return false;
    }
    WATCHED.lock().unwrap().steps += 1;
    let op = ops.last().unwrap();
    let (facts, observed) = judge(&mut run, op, &test["exp"], env, files);
    if !facts.is_empty() {
        report(text, op, &facts, observed, &test["exp"]);
    }
    true
}

fn workspace_facts(test: &Value, key: &str) -> Vec<String> {
    test["facts"][key].as_array().unwrap().iter().map(|f| f.as_str().unwrap().to_string()).collect()
}

/// The same, for workspaces.
fn one_workspace(text: &str, test: &Value, world: &World) -> bool {
    world.set_disk(&crate::world::blank_disk());
    for (name, file) in test["disk"].as_object().unwrap() {
        world.set_file(name, file);
    }
    let ops = test["ops"].as_array().unwrap();
    let reached = catch_unwind(AssertUnwindSafe(|| {
        let mut desk = Desk::new(world, &test["setup"]).expect("workspace");
        for op in &ops[..ops.len() - 1] {
            desk.apply(op);
        }
        let mut before = Map::new();
        desk.observe(&mut before);
        if test["pre"].as_object().unwrap().iter().all(|(k, v)| &before[k] == v) {
            Some(desk)
        } else {
            None
        }
    }));
    let mut desk = match reached {
        Ok(Some(desk)) => desk,
        _ => return false,
    };

    WATCHED.lock().unwrap().steps += 1;
    let op = ops.last().unwrap();
    let mut observed = Map::new();
    let returned = catch_unwind(AssertUnwindSafe(|| {
        let res = desk.apply(op);
        observed.insert("res".into(), res);
        desk.observe(&mut observed);
    }));
    if returned.is_err() {
        let mut facts = workspace_facts(test, "res");
        facts.push("order".into());
        report(text, op, &facts, json!("panic"), &test["exp"]);
        return true;
    }

    let mut differ: Vec<&str> = Vec::new();
    for (key, v) in test["exp"].as_object().unwrap() {
        if &observed[key] != v {
            differ.push(key);
        }
    }
    if observed["res"] != test["res"] {
        differ.push("res");
    }
    let tagged = observed["tags"].as_array().unwrap().iter().all(|t| *t == test["tag"]);
    if !tagged || !explains(test["cbs"].as_array().unwrap(), observed["cbs"].as_array().unwrap()) {
        differ.push("cbs");
    }
    let disk = world.disk();
    if test["expdisk"].as_object().unwrap().iter().any(|(f, v)| v["k"] != "unknown" && *v != disk[f]) {
        differ.push("disk");
        observed.insert("disk".into(), disk);
    }
    if !differ.is_empty() {
        let mut facts: Vec<String> = differ.iter().flat_map(|k| workspace_facts(test, k)).collect();
        facts.sort();
        facts.dedup();
        report(text, op, &facts, Value::Object(observed), &test["exp"]);
    }
    true
}

/// The same, for the tokens of a text.
fn one_text(text: &str, test: &Value, syntaxes: &syntect::parsing::SyntaxSet) -> bool {
    WATCHED.lock().unwrap().steps += 1;
    let content = from_cps(&test["text"]);
    let list = |key: &str| test[key].as_array().unwrap().clone();
    let def = syntaxes.find_syntax_by_name("Toy").unwrap();
    let facts = catch_unwind(AssertUnwindSafe(|| {
        crate::tokens::judge(&content, &list("pos"), &list("scopes"), def, syntaxes)
    }))
    .unwrap_or(vec!["tokens".into(), "scopes".into()]);
    if !facts.is_empty() {
        report(text, &json!({"op": "tokens"}), &facts, json!(""), &json!(""));
    }
    true
}
