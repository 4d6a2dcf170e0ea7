//! Runs operations, as named by the specification, on buffers.

use crate::env::*;
use scribe::buffer::{Distance, GapBuffer, LineRange, Position, Range};
use scribe::util::LineIterator;
use std::cmp::Ordering;
use scribe::Buffer;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::path::Path;
use std::rc::Rc;
use syntect::parsing::{SyntaxReference, SyntaxSet};

/// What's been notified of, and what the content was by then.
#[derive(Default)]
pub struct Watch {
    positions: RefCell<Vec<Position>>,
    data: RefCell<Option<Rc<RefCell<GapBuffer>>>>,
    content: RefCell<Option<String>>,
}

pub type Notices = Rc<Watch>;

impl Watch {
    /// Starts over, for another operation on the given buffer.
    pub fn start(&self, buffer: &Buffer) {
        self.positions.borrow_mut().clear();
        *self.data.borrow_mut() = Some(buffer.cursor.data.clone());
        *self.content.borrow_mut() = None;
    }

    fn notify(&self, position: Position) {
        self.positions.borrow_mut().push(position);
        let data = self.data.borrow();
        *self.content.borrow_mut() =
            data.as_ref().and_then(|d| d.try_borrow().ok().map(|d| d.to_string()));
    }

    pub fn positions(&self) -> Vec<Value> {
        self.positions.borrow().iter().map(unpos).collect()
    }

    /// Whether the content changed after the last notification. There's no
    /// telling if it was replaced by another one.
    pub fn late(&self, buffer: &Buffer) -> bool {
        match (&*self.data.borrow(), &*self.content.borrow()) {
            (Some(data), Some(content)) => {
                Rc::ptr_eq(data, &buffer.cursor.data) && *content != buffer.data()
            }
            _ => false,
        }
    }
}

thread_local! {
    static SYNTAXES: RefCell<Option<Rc<SyntaxSet>>> = RefCell::new(None);
    static NAMED: RefCell<HashMap<String, SyntaxReference>> = RefCell::new(HashMap::new());
}

pub fn syntaxes() -> Rc<SyntaxSet> {
    SYNTAXES.with(|s| {
        s.borrow_mut()
            .get_or_insert_with(|| Rc::new(SyntaxSet::load_defaults_newlines()))
            .clone()
    })
}

pub fn syntax_named(name: &str) -> Option<SyntaxReference> {
    if name.is_empty() {
        return None;
    }
    NAMED.with(|n| {
        Some(
            n.borrow_mut()
                .entry(name.to_string())
                .or_insert_with(|| syntaxes().find_syntax_by_name(name).unwrap().clone())
                .clone(),
        )
    })
}

pub fn pos(v: &Value) -> Position {
    Position { line: denum(v[0].as_u64().unwrap()), offset: denum(v[1].as_u64().unwrap()) }
}

pub fn unpos(p: &Position) -> Value {
    json!([num(p.line), num(p.offset)])
}

pub fn listen(buffer: &mut Buffer, notices: &Notices) {
    let sink = notices.clone();
    buffer.change_callback = Some(Box::new(move |p| sink.notify(p)));
}

fn outcome<T, E>(r: Result<T, E>) -> Value {
    json!(if r.is_ok() { "ok" } else { "err" })
}

/// A buffer, or the text buffer that underlies it on its own.
pub struct Subject {
    pub buffer: Buffer,
    pub gap: Option<GapBuffer>,
    pub notices: Notices,
}

impl Subject {
    pub fn new() -> Subject {
        let notices = Notices::default();
        let mut buffer = Buffer::new();
        listen(&mut buffer, &notices);
        Subject { buffer, gap: None, notices }
    }

    pub fn data(&self) -> String {
        match &self.gap {
            Some(gap) => gap.to_string(),
            None => self.buffer.data(),
        }
    }

    pub fn apply(&mut self, op: &Value, env: Option<&Env>) -> Value {
        let name = op["op"].as_str().unwrap();
        if let Some(result) = value(op) {
            return result;
        }
        if name == "gap-new" {
            self.gap = Some(GapBuffer::new(from_cps(&op["s"])));
            return json!("");
        }
        if let Some(gap) = self.gap.as_mut() {
            match name {
                "gap-insert" => gap.insert(&from_cps(&op["s"]), &pos(&op["p"])),
                "gap-delete" => gap.delete(&Range::new(pos(&op["p"]), pos(&op["q"]))),
                "gap-inb" => return json!(gap.in_bounds(&pos(&op["p"]))),
                "gap-read" => {
                    let range = Range::new(pos(&op["p"]), pos(&op["q"]));
                    return match gap.read(&range) {
                        Some(text) => json!([cps(&text)]),
                        None => json!([]),
                    };
                }
                other => panic!("unknown operation {}", other),
            }
            return json!("");
        }
        apply(&mut self.buffer, op, env, &self.notices)
    }
}

/// Operations that don't involve any buffer.
fn value(op: &Value) -> Option<Value> {
    let p = |k: &str| pos(&op[k]);
    let n = |k: &str| denum(op[k].as_u64().unwrap());
    Some(match op["op"].as_str().unwrap() {
        "order" => {
            let (p, q) = (p("p"), p("q"));
            let c = match p.partial_cmp(&q) {
                Some(Ordering::Less) => json!(-1),
                Some(Ordering::Equal) => json!(0),
                Some(Ordering::Greater) => json!(1),
                None => json!(9),
            };
            json!([c, p < q, p <= q, p == q, p >= q, p > q])
        }
        "span" => {
            let range = Range::new(p("p"), p("q"));
            json!([unpos(&range.start()), unpos(&range.end())])
        }
        "span-includes" => json!(Range::new(p("p"), p("q")).includes(&p("r"))),
        "line-range" => {
            let lines = LineRange::new(n("m"), n("n"));
            let (range, inclusive) = (lines.to_range(), lines.to_inclusive_range());
            json!([
                num(lines.start()),
                num(lines.end()),
                unpos(&range.start()),
                unpos(&range.end()),
                unpos(&inclusive.start()),
                unpos(&inclusive.end()),
            ])
        }
        "line-range-includes" => json!(LineRange::new(n("m"), n("n")).includes(n("l"))),
        "distance" => {
            let d = Distance::of_str(&from_cps(&op["s"]));
            json!([num(d.lines), num(d.offset)])
        }
        "add" => {
            let d = pos(&op["d"]);
            let d = Distance { lines: d.line, offset: d.offset };
            let sum = p("p") + d;
            let mut assigned = p("p");
            assigned += d;
            json!([unpos(&sum), unpos(&assigned)])
        }
        "iterate" => {
            let text = from_cps(&op["s"]);
            // Should it not end, this ends before memory does.
            let lines: Vec<Value> = LineIterator::new(&text)
                .take(text.len() + 10)
                .map(|(n, line)| json!([num(n), cps(line)]))
                .collect();
            json!(lines)
        }
        _ => return None,
    })
}

/// Applies an operation to a buffer, returning its result.
pub fn apply(buffer: &mut Buffer, op: &Value, env: Option<&Env>, notices: &Notices) -> Value {
    let s = || from_cps(&op["s"]);
    match op["op"].as_str().unwrap() {
        "insert" => buffer.insert(s()),
        "delete" => buffer.delete(),
        "range" => buffer.delete_range(Range::new(pos(&op["p"]), pos(&op["q"]))),
        "replace" => buffer.replace(s()),
        "undo" => buffer.undo(),
        "redo" => buffer.redo(),
        "begin" => buffer.start_operation_group(),
        "end" => buffer.end_operation_group(),
        "move" => match op["dir"].as_str().unwrap() {
            "left" => buffer.cursor.move_left(),
            "right" => buffer.cursor.move_right(),
            "up" => buffer.cursor.move_up(),
            "down" => buffer.cursor.move_down(),
            "sol" => buffer.cursor.move_to_start_of_line(),
            "eol" => buffer.cursor.move_to_end_of_line(),
            "first" => buffer.cursor.move_to_first_line(),
            "last" => buffer.cursor.move_to_last_line(),
            other => panic!("unknown direction {}", other),
        },
        "goto" => return json!(buffer.cursor.move_to(pos(&op["p"]))),
        "poke" => *buffer.cursor = pos(&op["p"]),
        "inb" => {
            let data = buffer.cursor.data.borrow();
            return json!(data.in_bounds(&pos(&op["p"])));
        }
        "read" => {
            let range = Range::new(pos(&op["p"]), pos(&op["q"]));
            return match buffer.read(&range) {
                Some(text) => json!([cps(&text)]),
                None => json!([]),
            };
        }
        "search" => {
            return Value::Array(buffer.search(&s()).iter().map(unpos).collect());
        }
        "lines" => return json!(buffer.line_count()),
        "save" => {
            let limit = op["limit"].as_i64().unwrap();
            return outcome(with_file_size_limit(limit, || buffer.save()));
        }
        "reload" => return outcome(buffer.reload()),
        "open" => {
            let env = env.expect("environment");
            let path = env.spelled(op["f"].as_str().unwrap(), op["as"].as_u64().unwrap_or(0));
            return match Buffer::from_file(&path) {
                Ok(mut opened) => {
                    listen(&mut opened, notices);
                    *buffer = opened;
                    env.opened();
                    json!("ok")
                }
                Err(_) => json!("err"),
            };
        }
        "path" => {
            buffer.path = match op["to"].as_str().unwrap() {
                "none" => None,
                name => Some(env.expect("environment").assign(name, op["as"].as_u64().unwrap_or(0))),
            }
        }
        "write" => env.expect("environment").set_file(
            op["f"].as_str().unwrap(),
            &json!({"k": "text", "t": op["s"]}),
        ),
        "corrupt" => env
            .expect("environment")
            .set_file(op["f"].as_str().unwrap(), &json!({"k": "binary"})),
        "unlink" => env
            .expect("environment")
            .set_file(op["f"].as_str().unwrap(), &json!({"k": "absent"})),
        "meta" => {
            buffer.id = match op["id"].as_i64().unwrap() {
                -1 => None,
                id => Some(id as usize),
            };
            buffer.syntax_definition = syntax_named(op["syn"].as_str().unwrap());
        }
        other => panic!("unknown operation {}", other),
    }
    json!("")
}

/// What can be observed of a buffer besides its content.
pub fn observe(buffer: &Buffer, env: Option<&Env>, event: &mut serde_json::Map<String, Value>) {
    event.insert("cur".into(), unpos(&buffer.cursor));
    event.insert("mod".into(), json!(buffer.modified()));
    event.insert("id".into(), json!(buffer.id.map(|id| id as i64).unwrap_or(-1)));
    event.insert(
        "syn".into(),
        json!(buffer.syntax_definition.as_ref().map(|s| s.name.as_str()).unwrap_or("")),
    );
    let path: Option<&Path> = buffer.path.as_deref();
    event.insert(
        "path".into(),
        json!(match env {
            Some(env) => env.name(path),
            None => path.map(|p| p.display().to_string()).unwrap_or("none".into()),
        }),
    );
}
