//! Records executions, one per line, such that neither panics nor hangs (nor, in stepwise mode,
//! aborts) of the code under test lose what led to them.

use serde_json::{json, Map, Value};
use std::fs::File;
use std::io::{BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

struct Live {
    out: Option<BufWriter<File>>,
    header: String,
    events: Vec<String>,
    pending: Option<(String, Instant)>,
    written: usize,
    total_events: usize,
    size: usize,
    total_size: usize,
    stepwise: Option<String>,
    failed: Value,
}

static LIVE: Mutex<Live> = Mutex::new(Live {
    out: None,
    header: String::new(),
    events: Vec::new(),
    pending: None,
    written: 0,
    total_events: 0,
    size: 0,
    total_size: 0,
    stepwise: None,
    failed: Value::Null,
});

/// How long operations may take until they're considered not to return, and how long recording goes on.
static PATIENCE: AtomicU64 = AtomicU64::new(20);
static BUDGET: AtomicU64 = AtomicU64::new(120);
static STARTED: OnceLock<Instant> = OnceLock::new();

pub fn limits(patience: u64, budget: u64) {
    PATIENCE.store(patience, Ordering::Relaxed);
    BUDGET.store(budget, Ordering::Relaxed);
    STARTED.get_or_init(Instant::now);
}

/// How many bytes an execution, and all of them, may take; far more than needed unless content or
/// scopes grow without bounds.
const MOST_PER_EXECUTION: usize = 24 << 20;
const MOST: usize = 64 << 20;

/// Whether there's time (and space) left. Recordings end early when there isn't, and contain what has
/// been observed so far; slowness isn't an error.
pub fn time_left() -> bool {
    let live = LIVE.lock().unwrap();
    STARTED.get_or_init(Instant::now).elapsed().as_secs() < BUDGET.load(Ordering::Relaxed)
        && live.size < MOST_PER_EXECUTION
        && live.total_size < MOST
}

/// What's recorded of an operation that doesn't return, besides the operation itself.
fn failure(op: &str, failed: &Value) -> String {
    let mut event = failed.clone();
    event["op"] = serde_json::from_str(op).unwrap();
    event.to_string()
}

/// The same, for operations on buffers.
pub fn buffer_failure() -> Value {
    let absent = json!({"k": "absent", "t": []});
    json!({"ok": false, "same": true, "t": [], "cur": [0, 0], "mod": true, "cbs": [], "late": false, "res": "", "id": -1, "syn": "",
           "path": "none", "dsame": true, "disk": {"A": absent, "B": absent}})
}

impl Live {
    fn line(&self, extra: Option<&str>) -> String {
        let mut events = self.events.join(",");
        if let Some(op) = extra {
            if !events.is_empty() {
                events.push(',');
            }
            events.push_str(&failure(op, &self.failed));
        }
        format!("{}\"ev\":[{}]}}\n", self.header, events)
    }

    fn finish(&mut self, extra: Option<&str>) {
        let line = self.line(extra);
        self.total_events += self.events.len() + extra.iter().count();
        self.written += 1;
        if let Some(out) = self.out.as_mut() {
            out.write_all(line.as_bytes()).unwrap();
        }
        self.events.clear();
        self.pending = None;
    }
}

pub fn open(path: &str, stepwise: bool, failed: Value) {
    let mut live = LIVE.lock().unwrap();
    live.failed = failed;
    live.out = Some(BufWriter::with_capacity(1 << 20, File::create(path).unwrap()));
    if stepwise {
        live.stepwise = Some(format!("{}.pending", path));
    }
    drop(live);

    // Panics are recorded, unless they're our own.
    std::panic::set_hook(Box::new(|info| {
        if info.location().map(|l| l.file().starts_with("src/")).unwrap_or(false) {
            eprintln!("{}", info);
        }
    }));
    // Runaway allocations should end this process, rather than others.
    unsafe {
        let limit = libc::rlimit { rlim_cur: 12 << 30, rlim_max: 12 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &limit);
    }

    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(500));
        let mut live = LIVE.lock().unwrap();
        let stuck = match live.pending {
            Some((ref op, since)) if since.elapsed().as_secs() > PATIENCE.load(Ordering::Relaxed) => Some(op.clone()),
            _ => None,
        };
        if let Some(op) = stuck {
            live.finish(Some(&op));
            if let Some(out) = live.out.as_mut() {
                out.flush().unwrap();
            }
            println!("{}", json!({"traces": live.written, "events": live.total_events, "hung": true}));
            std::process::exit(0);
        }
    });
}

pub fn close() {
    let mut live = LIVE.lock().unwrap();
    if let Some(mut out) = live.out.take() {
        out.flush().unwrap();
    }
    if let Some(path) = &live.stepwise {
        let _ = std::fs::remove_file(path);
    }
    println!("{}", json!({"traces": live.written, "events": live.total_events}));
}

/// Starts an execution. The header's fields precede its events.
pub fn begin(header: &Value) {
    let mut live = LIVE.lock().unwrap();
    let mut text = header.to_string();
    text.pop();
    text.push(',');
    live.header = text;
    live.events.clear();
    live.size = 0;
}

pub fn end() {
    LIVE.lock().unwrap().finish(None);
}

/// Ends the execution with an operation that doesn't return.
fn fail(op: &Value) {
    LIVE.lock().unwrap().finish(Some(&op.to_string()));
}

/// Runs an operation and records the resulting event. Returns
/// false, having ended the execution, if it panics.
pub fn step<F>(op: &Value, run: F) -> bool
where
    F: FnOnce(&mut Map<String, Value>),
{
    {
        let mut live = LIVE.lock().unwrap();
        if let Some(path) = live.stepwise.clone() {
            std::fs::write(path, live.line(Some(&op.to_string()))).unwrap();
        }
        live.pending = Some((op.to_string(), Instant::now()));
    }

    let mut event = Map::new();
    event.insert("op".into(), op.clone());
    event.insert("ok".into(), json!(true));
    let result = catch_unwind(AssertUnwindSafe(|| run(&mut event)));

    if result.is_err() {
        fail(op);
        return false;
    }
    let mut live = LIVE.lock().unwrap();
    live.pending = None;
    let text = Value::Object(event).to_string();
    live.size += text.len();
    live.total_size += text.len();
    live.events.push(text);
    true
}
