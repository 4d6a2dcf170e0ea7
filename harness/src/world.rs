//! Workspaces: the directories and files they're about, and how operations, as named by the
//! specification, are run on and recorded from them.

use crate::env::{cps, from_cps};
use crate::record;
use crate::rng::Rng;
use crate::subject::*;
use scribe::buffer::Position;
use scribe::{Buffer, Workspace};
use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::ffi::OsString;
use std::fs;
use std::os::unix::ffi::OsStringExt;
use std::path::{Component, Path, PathBuf};
use std::rc::Rc;
use syntect::parsing::{SyntaxReference, SyntaxSet};

/// Regular files, named by where they are. Not all of them exist all the time.
pub const FILES: &[&str] = &[
    "W/a.rs", "W/b.txt", "W/Makefile", "W/sub/c.py", "W/x.rs.bak", "W/.bashrc", "W/noext.", "W/UP.RS", "W/é.mine",
    "W/odd.rs", "W/sub/a.rs", "W/new.js", "Wx/d.rs", "out/e.rb",
    // Where a relative path leads to if it's resolved starting from a workspace's directory.
    "W/W/a.rs",
    // Distinct, even though they look much the same.
    "w/a.rs", "W/A.rs", "W/e\u{301}.mine",
    // Not UTF-8: what's replaced here is a byte that's never part of it.
    "W/\u{FFFD}.rs",
];
/// Other paths: directories, one whose directory is missing, and a relative one.
pub const OTHERS: &[&str] = &["W", "W/sub", "Wx", "lost", "rel.py"];
pub const ROOTS: &[&str] = &["W", "W/sub", "Wx"];

const USER_SYNTAX: &str = "%YAML 1.2\n---\nname: Mine\nfile_extensions:\n  - mine\n  - txt\n  - py\n  - odd.rs\nscope: source.mine\n\
contexts:\n  main:\n    - match: '[0-9]+'\n      scope: constant.numeric.mine\n";
/// Content that suggests a syntax.
const SUGGESTIVE: &[&str] = &["#!/usr/bin/env python\n", "#!/bin/sh\n", "<?xml version=\"1.0\"?>\n", "<?php\n", "# -*- mode: ruby -*-\n"];
const BAD_SYNTAX: &str = "%YAML 1.2\n---\nname: [\n";

/// Stands for the scratch directory.
const BASE: &str = "@";

pub struct World {
    pub base: PathBuf,
    loaded: RefCell<Option<SyntaxSet>>,
}

impl Drop for World {
    fn drop(&mut self) {
        let _ = std::env::set_current_dir("/");
        let _ = fs::remove_dir_all(&self.base);
    }
}

fn literal_components(name: &str) -> (bool, Vec<String>) {
    match name {
        "lost" => (true, vec![BASE.into(), "missing".into(), "file".into()]),
        "rel.py" => (false, vec!["rel.py".into()]),
        _ => (true, std::iter::once(BASE).chain(name.split('/')).map(String::from).collect()),
    }
}

/// The part of the specification's data that's not made up of operations: paths and syntax
/// definitions, the latter being those of the reference implementation.
pub fn describe() -> Value {
    let user_dir = std::env::temp_dir().join(format!("scribe-verif-{}-syntaxes", std::process::id()));
    fs::create_dir_all(&user_dir).unwrap();
    fs::write(user_dir.join("mine.sublime-syntax"), USER_SYNTAX).unwrap();
    let default = SyntaxSet::load_defaults_newlines();
    let mut builder = default.clone().into_builder();
    builder.add_from_folder(&user_dir, true).unwrap();
    let user = builder.build();
    fs::remove_dir_all(&user_dir).unwrap();

    let mut keys: Vec<String> = Vec::new();
    let mut paths = Map::new();
    for name in FILES.iter().chain(OTHERS) {
        let (abs, comps) = literal_components(name);
        let path = Path::new(comps.last().unwrap());
        keys.push(path.file_name().unwrap().to_str().unwrap().into());
        if let Some(e) = path.extension() {
            keys.push(e.to_str().unwrap().into());
        }
        paths.insert(
            name.to_string(),
            json!({"abs": abs, "comps": comps.iter().map(|c| cps(c)).collect::<Vec<_>>()}),
        );
    }
    keys.sort();
    keys.dedup();
    let table = |set: &SyntaxSet| -> Vec<Value> {
        keys.iter()
            .filter(|k| !k.is_empty())
            .filter_map(|k| set.find_syntax_by_extension(k).map(|s| json!({"key": cps(k), "syn": s.name})))
            .collect()
    };
    json!({"files": FILES, "paths": paths, "roots": ROOTS, "tables": {"default": table(&default), "user": table(&user)}})
}

/// The path that's written like this.
fn real(name: &str) -> PathBuf {
    let mut bytes = Vec::new();
    for (i, part) in name.split('\u{FFFD}').enumerate() {
        if i > 0 {
            bytes.push(0xFF);
        }
        bytes.extend_from_slice(part.as_bytes());
    }
    PathBuf::from(OsString::from_vec(bytes))
}

impl World {
    pub fn new(label: &str) -> World {
        let temp = std::env::temp_dir().canonicalize().unwrap();
        let base = temp.join(format!("scribe-verif-{}-{}", std::process::id(), label));
        let _ = fs::remove_dir_all(&base);
        for d in ["W/sub", "W/W", "Wx", "w", "out", "links", "user", "bad"] {
            fs::create_dir_all(base.join(d)).unwrap();
        }
        fs::write(base.join("user/mine.sublime-syntax"), USER_SYNTAX).unwrap();
        fs::write(base.join("bad/broken.sublime-syntax"), BAD_SYNTAX).unwrap();
        for (i, name) in FILES.iter().enumerate() {
            std::os::unix::fs::symlink(base.join(real(name)), base.join(format!("links/{}", i))).unwrap();
        }
        std::os::unix::fs::symlink(base.join("W"), base.join("Wlink")).unwrap();
        std::env::set_current_dir(&base).unwrap();
        World { base, loaded: RefCell::new(None) }
    }

    pub fn path(&self, name: &str) -> PathBuf {
        match name {
            "lost" => self.base.join("missing/file"),
            "rel.py" => PathBuf::from("rel.py"),
            other => self.base.join(real(other)),
        }
    }

    /// One of several ways to spell a path.
    pub fn spelled(&self, name: &str, spelling: u64) -> PathBuf {
        let file = FILES.iter().position(|f| *f == name);
        match (spelling, file) {
            (1, _) if name != "lost" => self.base.join("W/sub/../..").join(real(name)),
            (2, Some(i)) => self.base.join(format!("links/{}", i)),
            (3, _) if name != "lost" => self.base.join("./W/./..//.").join(real(name)),
            (4, _) if name != "lost" => real(name),
            (5, _) if name.starts_with("W/") => self.base.join("Wlink").join(real(&name[2..])),
            (5, _) if name == "W" => self.base.join("Wlink"),
            _ => self.path(name),
        }
    }

    pub fn name(&self, path: Option<&Path>) -> String {
        match path {
            None => "none".into(),
            // Paths are compared as they are, rather than by component.
            Some(p) => FILES
                .iter()
                .chain(OTHERS)
                .find(|n| self.path(n).as_os_str() == p.as_os_str())
                .map(|n| n.to_string())
                .unwrap_or(format!("other:{}", p.display())),
        }
    }

    pub fn components(&self, path: Option<&Path>) -> Value {
        match path {
            None => json!([]),
            Some(p) => {
                let (abs, comps) = match p.strip_prefix(&self.base) {
                    Ok(rest) => {
                        let rest = rest.components().map(|c| cps(&c.as_os_str().to_string_lossy()));
                        (true, std::iter::once(cps(BASE)).chain(rest).collect::<Vec<_>>())
                    }
                    Err(_) => (
                        p.is_absolute(),
                        p.components()
                            .filter(|c| *c != Component::RootDir)
                            .map(|c| cps(&c.as_os_str().to_string_lossy()))
                            .collect(),
                    ),
                };
                json!([{"abs": abs, "comps": comps}])
            }
        }
    }

    pub fn disk(&self) -> Value {
        let mut disk = Map::new();
        for name in FILES {
            let v = match fs::read(self.base.join(real(name))) {
                Err(_) => json!({"k": "absent", "t": []}),
                Ok(bytes) => match String::from_utf8(bytes) {
                    Ok(s) => json!({"k": "text", "t": cps(&s)}),
                    Err(_) => json!({"k": "binary", "t": []}),
                },
            };
            disk.insert(name.to_string(), v);
        }
        Value::Object(disk)
    }

    pub fn set_file(&self, name: &str, v: &Value) {
        let path = self.base.join(real(name));
        match v["k"].as_str().unwrap() {
            "absent" => {
                let _ = fs::remove_file(path);
            }
            "binary" => fs::write(path, b"ok so far\n\xff\xfe\x80").unwrap(),
            "text" => fs::write(path, from_cps(&v["t"])).unwrap(),
            other => panic!("can't set up {}", other),
        }
    }

    pub fn set_disk(&self, v: &Value) {
        for name in FILES {
            self.set_file(name, &v[name]);
        }
    }

    fn cached(&self, dir: &Path) -> SyntaxSet {
        self.loaded
            .borrow_mut()
            .get_or_insert_with(|| {
                Workspace::new(&self.base, Some(dir)).expect("syntax definitions").syntax_set
            })
            .clone()
    }

    fn syntaxes_dir(&self, which: &str) -> Option<PathBuf> {
        match which {
            "default" => None,
            other => Some(self.base.join(other)),
        }
    }
}

type Tagged = Rc<RefCell<Vec<(i64, Position)>>>;

fn listen_tagged(buffer: &mut Buffer, tag: i64, notices: &Tagged) {
    buffer.change_callback = if tag < 0 {
        None
    } else {
        let sink = notices.clone();
        Some(Box::new(move |p| sink.borrow_mut().push((tag, p))))
    };
}

pub struct Desk<'a> {
    pub world: &'a World,
    pub ws: Workspace,
    notices: Tagged,
    untagged: Notices,
    /// Identifiers, in the order in which they were given out. What they are doesn't matter.
    ids: Vec<usize>,
}

fn kind_of(e: scribe::Error) -> Value {
    json!(match e.kind() {
        scribe::ErrorKind::EmptyWorkspace => "EmptyWorkspace",
        scribe::ErrorKind::MissingSyntax => "MissingSyntax",
        _ => "other error",
    })
}

impl<'a> Desk<'a> {
    /// A workspace with the given root (spelled somehow) and syntax definitions.
    pub fn new(world: &'a World, setup: &Value) -> Option<Desk<'a>> {
        let root = world.spelled(setup["root"].as_str().unwrap(), setup["as"].as_u64().unwrap_or(0));
        let definitions = world.syntaxes_dir(setup["table"].as_str().unwrap());
        let ws = match (setup["cached"].as_bool(), definitions) {
            // Loading definitions takes long, so it's only done once for generated tests.
            (Some(true), Some(dir)) => {
                let mut ws = Workspace::new(&root, None).ok()?;
                ws.syntax_set = world.cached(&dir);
                ws
            }
            (_, definitions) => Workspace::new(&root, definitions.as_deref()).ok()?,
        };
        Some(Desk { world, ws, notices: Tagged::default(), untagged: Notices::default(), ids: Vec::new() })
    }

    fn syntax(&self, name: &str) -> Option<SyntaxReference> {
        if name.is_empty() {
            None
        } else {
            Some(self.ws.syntax_set.find_syntax_by_name(name).unwrap().clone())
        }
    }

    /// Operations on a buffer that involve paths or syntax definitions of this world.
    fn buffer_op(&self, buffer: &mut Buffer, op: &Value) -> Value {
        match op["op"].as_str().unwrap() {
            "path" => {
                let to = op["to"].as_str().unwrap();
                buffer.path = if to == "none" { None } else { Some(self.world.path(to)) };
                json!("")
            }
            "syn" => {
                buffer.syntax_definition = self.syntax(op["syn"].as_str().unwrap());
                json!("")
            }
            "open" => match Buffer::from_file(
                &self.world.spelled(op["f"].as_str().unwrap(), op["as"].as_u64().unwrap_or(0)),
            ) {
                Ok(opened) => {
                    *buffer = opened;
                    json!("ok")
                }
                Err(_) => json!("err"),
            },
            _ => apply(buffer, op, None, &self.untagged),
        }
    }

    pub fn apply(&mut self, op: &Value) -> Value {
        let result = self.run(op);
        // Buffers are selected as they're added.
        if let Some(id) = self.ws.current_buffer.as_ref().and_then(|b| b.id) {
            if !self.ids.contains(&id) {
                self.ids.push(id);
            }
        }
        result
    }

    fn run(&mut self, op: &Value) -> Value {
        self.notices.borrow_mut().clear();
        let f = || self.world.spelled(op["f"].as_str().unwrap(), op["as"].as_u64().unwrap_or(0));
        let tag = op["tag"].as_i64().unwrap_or(-1);
        match op["op"].as_str().unwrap() {
            "next" => self.ws.next_buffer(),
            "prev" => self.ws.previous_buffer(),
            "close" => self.ws.close_current_buffer(),
            "list" => (),
            "add" => {
                let mut buffer = Buffer::new();
                for o in op["prep"].as_array().unwrap() {
                    self.buffer_op(&mut buffer, o);
                }
                listen_tagged(&mut buffer, tag, &self.notices);
                // It may have an identifier from elsewhere.
                buffer.id = op["id"].as_u64().map(|id| id as usize);
                self.ws.add_buffer(buffer);
            }
            "add-file" => match Buffer::from_file(&f()) {
                Ok(mut buffer) => {
                    listen_tagged(&mut buffer, tag, &self.notices);
                    self.ws.add_buffer(buffer);
                    return json!("ok");
                }
                Err(_) => return json!("err"),
            },
            "ws-open" => return json!(if self.ws.open_buffer(&f()).is_ok() { "ok" } else { "err" }),
            "listen" => {
                if let Some(buffer) = self.ws.current_buffer.as_mut() {
                    listen_tagged(buffer, tag, &self.notices);
                }
            }
            "resyntax" => {
                return match self.ws.update_current_syntax() {
                    Ok(()) => json!("ok"),
                    Err(e) => kind_of(e),
                }
            }
            "tokens" => {
                return match self.ws.current_buffer_tokens() {
                    Ok(_) => json!("ok"),
                    Err(e) => kind_of(e),
                }
            }
            "ws-new" => {
                // Whether a workspace can be made, which has no effect on this one.
                return json!(if Desk::new(self.world, op).is_some() { "ok" } else { "err" });
            }
            "buf" => {
                if let Some(mut buffer) = self.ws.current_buffer.take() {
                    let result = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        self.buffer_op(&mut buffer, &op["o"])
                    }));
                    self.ws.current_buffer = Some(buffer);
                    match result {
                        Ok(v) => return v,
                        Err(e) => std::panic::resume_unwind(e),
                    }
                }
            }
            "write" => self.world.set_file(op["f"].as_str().unwrap(), &json!({"k": "text", "t": op["s"]})),
            "corrupt" => self.world.set_file(op["f"].as_str().unwrap(), &json!({"k": "binary"})),
            "unlink" => self.world.set_file(op["f"].as_str().unwrap(), &json!({"k": "absent"})),
            other => panic!("unknown operation {}", other),
        }
        json!("")
    }

    pub fn observe(&mut self, event: &mut Map<String, Value>) {
        let list: Vec<Value> = {
            let world = self.world;
            self.ws.buffer_paths().into_iter().map(|p| world.components(p)).collect()
        };
        event.insert("list".into(), json!(list));
        event.insert("cpath".into(), self.world.components(self.ws.current_buffer_path()));
        event.insert("idx".into(), json!(self.ws.current_buffer_index().map(|i| i as i64).unwrap_or(-1)));
        event.insert("has".into(), json!(self.ws.current_buffer.is_some()));
        event.insert("root".into(), json!(self.world.name(Some(&self.ws.path))));
        let blank = Buffer::new();
        let buffer = self.ws.current_buffer.as_ref().unwrap_or(&blank);
        event.insert("t".into(), cps(&buffer.data()));
        observe(buffer, None, event);
        if let Some(id) = buffer.id {
            let known = self.ids.iter().position(|i| *i == id);
            event.insert("id".into(), json!(known.unwrap_or(999_999)));
        }
        let name = |n: Option<String>| Value::Array(n.iter().map(|n| cps(n)).collect());
        event.insert("fname".into(), name(buffer.file_name()));
        event.insert("fext".into(), name(buffer.file_extension()));
        event.insert("path".into(), json!(self.world.name(buffer.path.as_deref())));
        let notices = self.notices.borrow();
        event.insert("tags".into(), json!(notices.iter().map(|(t, _)| *t).collect::<Vec<_>>()));
        event.insert("cbs".into(), Value::Array(notices.iter().map(|(_, p)| unpos(p)).collect()));
    }

    pub fn text(&self) -> String {
        self.ws.current_buffer.as_ref().map(|b| b.data()).unwrap_or_default()
    }
}

/// Runs an operation and records everything observable.
pub struct Session<'a> {
    desk: Desk<'a>,
    disk: Value,
    blank_disk: Value,
    pub rng: Rng,
    dead: bool,
    tag: i64,
    pub steps: usize,
}

pub fn blank_disk() -> Value {
    let mut disk = Map::new();
    for f in FILES {
        disk.insert(f.to_string(), json!({"k": "absent", "t": []}));
    }
    Value::Object(disk)
}

/// What's recorded of an operation that doesn't return.
pub fn failure() -> Value {
    json!({"ok": false, "res": "", "list": [], "cpath": [], "idx": -1, "has": false, "root": "", "t": [],
           "cur": [0, 0], "fname": [], "fext": [], "mod": true, "id": -1, "syn": "", "path": "none", "tags": [], "cbs": [],
           "dsame": true, "disk": blank_disk()})
}

impl<'a> Session<'a> {
    pub fn start(world: &'a World, name: &str, setup: Value, disk: Value, rng: Rng) -> Session<'a> {
        world.set_disk(&disk);
        let mut header = setup.clone();
        header["name"] = json!(name);
        header["disk"] = disk.clone();
        header["kind"] = json!("workspace");
        record::begin(&header);
        let desk = Desk::new(world, &setup).expect("workspace");
        Session { desk, disk, blank_disk: blank_disk(), rng, dead: false, tag: 0, steps: 0 }
    }

    pub fn op(&mut self, op: Value) -> Value {
        if self.dead {
            return json!("");
        }
        self.steps += 1;
        let mut result = json!("");
        let mut disk = std::mem::take(&mut self.disk);
        let (desk, blank) = (&mut self.desk, &self.blank_disk);
        let survived = record::step(&op, |event| {
            result = desk.apply(&op);
            event.insert("res".into(), result.clone());
            desk.observe(event);
            let now = desk.world.disk();
            event.insert("dsame".into(), json!(now == disk));
            event.insert("disk".into(), if now == disk { blank.clone() } else { now.clone() });
            disk = now;
        });
        self.disk = disk;
        self.dead = !survived;
        result
    }

    pub fn finish(self) {
        if !self.dead {
            record::end();
        }
    }

    fn simple(&mut self, op: &str) {
        self.op(json!({ "op": op }));
    }

    fn buf(&mut self, o: Value) {
        if self.desk.ws.current_buffer.is_some() {
            self.op(json!({"op": "buf", "o": o}));
        }
    }

    fn count(&mut self) -> usize {
        self.desk.ws.buffer_paths().len()
    }

    fn new_tag(&mut self) -> i64 {
        if self.rng.chance(30) {
            return -1;
        }
        self.tag += 1;
        self.tag
    }

    fn file(&mut self) -> &'static str {
        // A few files are used a lot, so that there are collisions.
        let n = if self.rng.chance(70) { 5 } else { FILES.len() };
        FILES[self.rng.below(n)]
    }

    fn spelling(&mut self) -> usize {
        self.rng.below(6)
    }

    fn words(&mut self) -> Value {
        let flavor = self.rng.below(4);
        let n = self.rng.within(1, 4);
        cps(&crate::drive::text(&mut self.rng, flavor, n))
    }

    fn inside(&mut self) -> Value {
        let lengths = crate::drive::line_lengths(&self.desk.text());
        let line = self.rng.below(lengths.len());
        let offset = self.rng.within(0, lengths[line]);
        json!([line, offset])
    }

    fn path_is_safe(&self) -> bool {
        // Relative paths are never written to.
        let path = self.desk.ws.current_buffer.as_ref().and_then(|b| b.path.clone());
        path.map(|p| p.is_absolute()).unwrap_or(true)
    }

    /// Selects every buffer in turn, looking at what's left of it.
    fn tour(&mut self) {
        let forward = self.rng.chance(60);
        for _ in 0..self.count() {
            self.simple(if forward { "next" } else { "prev" });
        }
    }

    pub fn act(&mut self, action: &str) {
        match action {
            "next" | "prev" | "close" | "list" | "resyntax" | "tokens" => self.simple(action),
            "hops" => {
                let dir = *self.rng.pick(&["next", "prev"]);
                for _ in 0..self.rng.within(1, 4) {
                    self.simple(dir);
                }
            }
            "tour" => self.tour(),
            // A long way, or through a lot of buffers that aren't around for long.
            "rush" => match self.rng.below(2) {
                0 => {
                    let dir = *self.rng.pick(&["next", "prev"]);
                    for _ in 0..self.rng.within(20, 270) {
                        self.simple(dir);
                    }
                }
                _ => {
                    for _ in 0..self.rng.within(20, 90) {
                        self.act("add");
                        self.simple("close");
                    }
                }
            },
            "closes" => {
                for _ in 0..self.rng.within(1, 4) {
                    self.simple("close");
                }
            }
            "add" => {
                let tag = self.new_tag();
                self.op(json!({"op": "add", "prep": [], "tag": tag}));
            }
            "add-prepared" => {
                let mut prep = Vec::new();
                for _ in 0..self.rng.within(1, 4) {
                    let p = match self.rng.below(9) {
                        0 => json!({"op": "begin"}),
                        1 => {
                            let name = *self.rng.pick(&["W/a.rs", "W/b.txt", "out/e.rb", "lost", "rel.py", "W"]);
                            json!({"op": "path", "to": name})
                        }
                        2 => json!({"op": "undo"}),
                        3 => {
                            let syn = *self.rng.pick(&["Ruby", "", "Plain Text", "Python"]);
                            json!({"op": "syn", "syn": syn})
                        }
                        4 => {
                            let (f, s) = (self.file(), self.spelling());
                            json!({"op": "open", "f": f, "as": s})
                        }
                        5 => json!({"op": "move", "dir": "right"}),
                        _ => {
                            let s = self.words();
                            json!({"op": "insert", "s": s})
                        }
                    };
                    prep.push(p);
                }
                let tag = self.new_tag();
                let mut op = json!({"op": "add", "prep": prep, "tag": tag});
                if self.rng.chance(30) {
                    let most = 1 + 2 * self.count();
                    op["id"] = json!(self.rng.below(most));
                }
                self.op(op);
            }
            "add-file" => {
                let (f, s, tag) = (self.file(), self.spelling(), self.new_tag());
                self.op(json!({"op": "add-file", "f": f, "as": s, "tag": tag}));
            }
            "open" => {
                let (f, s) = (self.file(), self.spelling());
                self.op(json!({"op": "ws-open", "f": f, "as": s}));
            }
            // A few files, one after another.
            "opens" => {
                for _ in 0..self.rng.within(2, 4) {
                    self.act("open");
                }
            }
            "open-bad" => {
                let f = *self.rng.pick(&["lost", "W", "W/sub", "W/new.js"]);
                let s = self.spelling();
                self.op(json!({"op": "ws-open", "f": f, "as": s}));
            }
            // The file that the current buffer is about, if any, from elsewhere.
            "reopen" => {
                let name = self.desk.world.name(self.desk.ws.current_buffer.as_ref().and_then(|b| b.path.as_deref()));
                for _ in 0..self.rng.below(3) {
                    let a = *self.rng.pick(&["next", "prev", "add", "open"]);
                    self.act(a);
                }
                if FILES.contains(&name.as_str()) {
                    let s = self.spelling();
                    self.op(json!({"op": "ws-open", "f": name, "as": s}));
                }
            }
            "listen" => {
                let tag = self.new_tag();
                self.op(json!({"op": "listen", "tag": tag}));
            }
            "ins" => {
                let (p, s) = (self.inside(), self.words());
                self.buf(json!({"op": "goto", "p": p}));
                self.buf(json!({"op": "insert", "s": s}));
            }
            "del" => {
                let p = self.inside();
                self.buf(json!({"op": "goto", "p": p}));
                self.buf(json!({"op": "delete"}));
            }
            "range" => {
                let (p, q) = (self.inside(), self.inside());
                self.buf(json!({"op": "range", "p": p, "q": q}));
            }
            "replace" => {
                let s = self.words();
                self.buf(json!({"op": "replace", "s": s}));
            }
            "undo" | "redo" | "begin" | "end" => self.buf(json!({"op": action})),
            "goto" => {
                let p = self.inside();
                self.buf(json!({"op": "goto", "p": p}));
            }
            "move" => {
                let dir = *self.rng.pick(&["left", "right", "up", "down", "down", "up", "sol", "eol", "first", "last"]);
                self.buf(json!({"op": "move", "dir": dir}));
            }
            // Aiming for a column while being elsewhere, and while other buffers are selected.
            "aim" => {
                if self.rng.chance(70) {
                    let lines = self.rng.within(2, 6);
                    let mut text = String::new();
                    for _ in 0..lines {
                        for _ in 0..*self.rng.pick(&[0, 1, 3, 6, 9]) {
                            text.push_str(*self.rng.pick(&["a", "b ", "é", "ö", "e\u{301}", "\u{1F600}"]));
                        }
                        text.push_str(*self.rng.pick(&["\n", "\n", "\r\n"]));
                    }
                    self.buf(json!({"op": "goto", "p": [0, 0]}));
                    self.buf(json!({"op": "insert", "s": cps(&text)}));
                }
                let p = self.inside();
                self.buf(json!({"op": "goto", "p": p}));
                for _ in 0..self.rng.within(1, 3) {
                    let dir = *self.rng.pick(&["up", "down"]);
                    for _ in 0..self.rng.within(1, 2) {
                        self.buf(json!({"op": "move", "dir": dir}));
                    }
                    match self.rng.below(5) {
                        0 => self.act("opens"),
                        1 => self.act("hops"),
                        2 => {
                            self.act("add");
                            self.simple("close");
                        }
                        3 => self.act("reopen"),
                        _ => self.tour(),
                    }
                }
                for _ in 0..self.rng.within(1, 3) {
                    let dir = *self.rng.pick(&["up", "down", "down"]);
                    self.buf(json!({"op": "move", "dir": dir}));
                }
            }
            "save" => {
                if self.path_is_safe() {
                    self.buf(json!({"op": "save", "limit": -1}));
                }
            }
            "reload" => {
                if self.path_is_safe() {
                    self.buf(json!({"op": "reload"}));
                }
            }
            "search" => {
                let s = self.words();
                self.buf(json!({"op": "search", "s": s}));
            }
            "read" => {
                let (p, q) = (self.inside(), self.inside());
                self.buf(json!({"op": "read", "p": p, "q": q}));
            }
            "path" => {
                let to = if self.rng.chance(30) {
                    *self.rng.pick(&["none", "lost", "rel.py", "W", "W/sub", "Wx"])
                } else {
                    FILES[self.rng.below(FILES.len())]
                };
                self.buf(json!({"op": "path", "to": to}));
            }
            "syn" => {
                let syn = *self.rng.pick(&["", "", "Ruby", "Plain Text", "C"]);
                self.buf(json!({"op": "syn", "syn": syn}));
            }
            "write" => {
                let (f, s) = (self.file(), self.words());
                self.op(json!({"op": "write", "f": f, "s": s}));
            }
            "corrupt" | "unlink" => {
                let f = self.file();
                self.op(json!({"op": action, "f": f}));
            }
            "ws-new" => {
                let root = *self.rng.pick(&["W", "lost", "W/sub", "W/new.js"]);
                let table = *self.rng.pick(&["default", "default", "bad"]);
                let s = self.spelling();
                self.op(json!({"op": "ws-new", "root": root, "table": table, "as": s}));
            }
            other => panic!("unknown action {}", other),
        }
    }
}

type Weights = &'static [(&'static str, usize)];

/// Weights, number of actions, and percentage of workspaces with user-defined syntaxes.
/// The names of those with lots of buffers start with "ws-crowd".
fn suite(name: &str) -> (Weights, (usize, usize), usize) {
    match name {
        "ws-order" => (
            &[("add", 4), ("add-prepared", 2), ("add-file", 2), ("open", 4), ("open-bad", 1), ("next", 5), ("prev", 5), ("hops", 3),
              ("close", 4), ("closes", 1), ("ins", 2), ("list", 1), ("tour", 2), ("path", 1), ("undo", 1), ("reopen", 1)],
            (10, 35), 0,
        ),
        "ws-crowd" => (
            &[("add", 6), ("add-prepared", 4), ("add-file", 2), ("open", 6), ("next", 4), ("prev", 4), ("hops", 6),
              ("close", 4), ("closes", 2), ("ins", 3), ("undo", 1), ("list", 1), ("tour", 1), ("path", 3), ("reopen", 3), ("move", 1), ("aim", 1)],
            (60, 120), 0,
        ),
        // More than 8 bits can count.
        "ws-throng" => (
            &[("add", 2), ("add-prepared", 2), ("open", 4), ("next", 4), ("prev", 4), ("hops", 3), ("close", 4), ("closes", 2),
              ("ins", 6), ("undo", 2), ("path", 4), ("reopen", 4), ("rush", 1)],
            (30, 50), 0,
        ),
        "ws-isolate" => (
            &[("add-prepared", 2), ("add-file", 1), ("open", 3), ("tour", 4), ("next", 3), ("prev", 2), ("ins", 6), ("del", 2), ("range", 2),
              ("replace", 1), ("undo", 5), ("redo", 4), ("begin", 2), ("end", 1), ("move", 5), ("goto", 2), ("save", 2), ("reload", 1),
              ("listen", 2), ("path", 1), ("close", 1), ("reopen", 2), ("write", 1), ("search", 1), ("read", 1), ("tokens", 1), ("syn", 1), ("aim", 3)],
            (15, 40), 0,
        ),
        "ws-ident" => (
            &[("add", 5), ("add-prepared", 3), ("add-file", 3), ("open", 5), ("open-bad", 2), ("close", 6), ("closes", 2), ("tour", 3),
              ("next", 2), ("prev", 2), ("replace", 2), ("reload", 2), ("ins", 1), ("undo", 1), ("save", 1), ("reopen", 2)],
            (12, 35), 0,
        ),
        "ws-reopen" => (
            &[("open", 8), ("opens", 1), ("open-bad", 2), ("reopen", 6), ("ins", 3), ("add", 1), ("add-file", 1), ("next", 2), ("prev", 2),
              ("close", 3), ("write", 2), ("corrupt", 1), ("unlink", 1), ("path", 2), ("save", 2), ("undo", 1), ("tour", 1), ("move", 1)],
            (12, 30), 0,
        ),
        "ws-listing" => (
            &[("open", 4), ("add", 2), ("add-file", 2), ("add-prepared", 2), ("path", 8), ("next", 4), ("prev", 3), ("close", 2), ("save", 1),
              ("tour", 1), ("list", 1), ("reopen", 1), ("hops", 1)],
            (10, 30), 0,
        ),
        "ws-syntax" => (
            &[("open", 6), ("add", 1), ("add-file", 3), ("add-prepared", 4), ("path", 5), ("resyntax", 6), ("syn", 3), ("tokens", 5),
              ("next", 3), ("prev", 2), ("close", 2), ("reload", 1), ("replace", 1), ("save", 1), ("ws-new", 2), ("reopen", 1), ("closes", 1)],
            (10, 30), 30,
        ),
        other => panic!("unknown suite {}", other),
    }
}

pub fn run(name: &str, seed: u64, index: usize, world: &World) {
    let (weights, actions, user) = suite(name);
    let crowd = name == "ws-crowd";
    if crowd && index % 5 != 0 || index > 0 && !record::time_left() {
        return;
    }
    let throng = name == "ws-throng";
    let (most_buffers, most_steps) = if throng { (330, 900) } else if crowd { (40, 350) } else { (7, 120) };
    let mut rng = Rng::new(seed ^ ((index as u64) << 20) ^ 0x5EED);
    let mut disk = Map::new();
    for (i, f) in FILES.iter().enumerate() {
        let flavor = rng.below(4);
        let n = rng.below(5);
        let mut t = crate::drive::text(&mut rng, flavor, n);
        if name == "ws-syntax" && rng.chance(40) {
            t.insert_str(0, *rng.pick(SUGGESTIVE));
        }
        let v = if *f == "W/new.js" || rng.chance(8) {
            json!({"k": "absent", "t": []})
        } else if i > 3 && rng.chance(8) {
            json!({"k": "binary", "t": []})
        } else {
            json!({"k": "text", "t": cps(&t)})
        };
        disk.insert(f.to_string(), v);
    }
    let root = *rng.weighted(&[("W", 6), ("W/sub", 2), ("Wx", 2)]);
    let table = if rng.chance(user) { "user" } else { "default" };
    let spelling = rng.below(6);
    let setup = json!({"root": root, "table": table, "as": spelling});
    let mut s = Session::start(world, &format!("{}-{}-{}", name, seed, index), setup, Value::Object(disk), rng);
    s.simple("list");
    if s.rng.chance(60) {
        s.act("opens");
    }
    if throng {
        for i in 0..s.rng.within(260, 300) {
            s.act(if i % 40 == 7 { "add-prepared" } else { "add" });
            if i % 50 == 9 {
                let action = *s.rng.pick(&["open", "path", "ins", "hops", "close"]);
                s.act(action);
            }
        }
    }
    for _ in 0..s.rng.within(actions.0, actions.1) {
        let action = *s.rng.weighted(weights);
        // Quite a few buffers are enough.
        let action = if s.count() > most_buffers && action.starts_with(&['a', 'o'][..]) { "close" } else { action };
        s.act(action);
        if s.steps > most_steps || !record::time_left() {
            break;
        }
    }
    if s.rng.chance(50) {
        s.tour();
    }
    s.finish();
}

/// Runs the given operations once more.
pub fn script(execution: &Value, world: &World) {
    let setup = json!({"root": execution["root"], "table": execution["table"], "as": execution["as"]});
    let mut disk = blank_disk();
    if let Some(given) = execution["disk"].as_object() {
        for (f, v) in given {
            disk[f] = v.clone();
        }
    }
    let mut s = Session::start(world, "script", setup, disk, Rng::new(0));
    for op in execution["ops"].as_array().unwrap() {
        s.op(op.clone());
    }
    s.finish();
}
