//! Random and adversarial executions of single buffers.

use crate::env::*;
use crate::record;
use crate::rng::Rng;
use crate::subject::*;
use serde_json::{json, Value};
use std::fs::File;
use std::io::{BufWriter, Write};
use unicode_segmentation::UnicodeSegmentation;

/// Pieces that texts are made of. Texts::Class covers all of their characters.
pub const ASCII: &[&str] = &["a", "b", "c", " ", "x", "ab", "foo", "()", "0", "~"];
pub const BREAKS: &[&str] = &["\n", "\n", "\r\n", "\n\n", "\r\n\r\n", "\r"];
pub const LATIN: &[&str] = &["é", "ü", "ß", "¡", "aé", "©", "\u{ad}"];
pub const MARKS: &[&str] = &["\u{301}", "\u{308}", "e\u{301}", "o\u{308}\u{301}", "\u{200d}", "\u{fe0f}"];
pub const WIDE: &[&str] = &["中", "文", "한", "가", "각", "\u{1100}", "\u{1161}", "\u{11a8}", "𝒳", "\u{fffd}"];
pub const INDIC: &[&str] = &["नी", "क\u{94d}ष", "क", "\u{94d}", "ष", "\u{93f}", "\u{93c}", "\u{903}"];
pub const EMOJI: &[&str] = &[
    "👩", "👨\u{200d}👩\u{200d}👧", "😀", "👩\u{1f3fd}", "\u{1f3fd}", "❤\u{fe0f}", "🇨", "🇦", "🇨🇦", "\u{200d}",
];
pub const CONTROLS: &[&str] = &[
    "\0", "\t", "\u{1b}", "\u{7f}", "\u{85}", "\u{200b}", "\u{2028}", "\u{2029}", "\u{feff}", "\u{600}", "\u{200c}", "\u{b}", "\u{c}",
];

/// What's likely to be treated in a special way, without reason.
pub const VARIED: &[&str] = &[
    "A", "B", "Foo", "FOO", "aB", ".", ".*", "*", "+", "?", "[a-z]", "\\", "\\n", "^", "$", "|", "/", "//", "-", "_", ",", ";", ":", "'", "\"",
    "`", "=", "==", "!", "@", "#", "%d", "&", "&amp;", "<", ">", "{", "}", "{}", "1", "9", "42", "z", "Z", "    ", "  ", "\t\t", " \t", "\u{a0}", "\u{3000}",
    "İ", "ı", "ſ", "\u{212a}", "ẞ", "Σ", "ς", "σ", "ﬁ", "Я", "я", "é", "É", "e\u{301}", "É", "E\u{301}", "א", "ع", "か\u{3099}", "が", "ｱ\u{ff9e}", "１",
    "\u{200e}", "\u{202e}", "\u{2066}", "\u{fff9}", "\u{e000}", "\u{fffe}", "\u{ffff}", "\u{10ffff}", "1\u{fe0f}\u{20e3}", "™", "🚀",
    "🏴\u{e0067}\u{e007f}", "葛\u{e0100}", "\u{e33}", "ก\u{e33}", "\u{e31}", "\u{1}", "\u{8}", "\u{80}", "\u{9f}", "\u{1c}", "\u{7ff}", "\u{800}", "\u{10000}",
];

/// A few characters that differ in their case, over and over.
pub const CASES: &[&str] = &["a", "A", "a", "A", "b", "B", "ab", "AB", "aB", " ", "é", "É"];

pub fn piece(rng: &mut Rng, flavor: usize) -> &'static str {
    let pool = match flavor {
        // Plain text.
        0 => *rng.weighted(&[(ASCII, 14), (BREAKS, 4), (VARIED, 3)]),
        // Single characters that combine with each other.
        1 => *rng.weighted(&[(ASCII, 2), (BREAKS, 2), (MARKS, 3), (LATIN, 1), (EMOJI, 3), (INDIC, 2), (WIDE, 2)]),
        // Anything.
        2 => *rng.weighted(&[
            (ASCII, 3), (BREAKS, 3), (LATIN, 1), (MARKS, 2), (WIDE, 2), (INDIC, 1), (EMOJI, 2), (CONTROLS, 2), (VARIED, 3),
        ]),
        // Line breaks.
        3 => *rng.weighted(&[(ASCII, 2), (BREAKS, 3), (MARKS, 1)]),
        4 => *rng.weighted(&[(CASES, 8), (BREAKS, 1)]),
        // Multi-byte.
        _ => *rng.weighted(&[(LATIN, 2), (WIDE, 3), (BREAKS, 2), (EMOJI, 1)]),
    };
    rng.pick(pool)
}

pub fn text(rng: &mut Rng, flavor: usize, pieces: usize) -> String {
    (0..pieces).map(|_| piece(rng, flavor)).collect()
}

/// The largest number of 16 bits.
const LIMIT: usize = 65535;

/// Part of a line, with few characters per cluster.
fn part(rng: &mut Rng, flavor: usize) -> String {
    loop {
        let part = text(rng, flavor, 7).replace(['\n', '\r'], "a") + "b";
        if part.chars().count() < 2 * part.graphemes(true).count() {
            return part;
        }
    }
}

/// Text that has more of something than 16 bits can count.
pub fn huge(rng: &mut Rng, flavor: usize, shape: usize) -> String {
    let n = LIMIT + rng.within(1, 3000);
    match shape {
        // Lines.
        0 => "\n".repeat(n),
        1 => {
            let line: String = piece(rng, flavor).replace(['\n', '\r'], "a").chars().take(2).collect();
            (line + *rng.pick(&["\n", "\n", "\r\n"])).repeat(n)
        }
        // Lines of very different lengths.
        3 => {
            let part = part(rng, flavor);
            let clusters = part.graphemes(true).count();
            let mut lengths = vec![0, 3, 40, 300, 1500, 2500, 5000, 10_000, 18_000, 36_000];
            let mut all = String::new();
            while !lengths.is_empty() {
                let length = lengths.swap_remove(rng.below(lengths.len()));
                all.push_str(&part.repeat(length / clusters));
                all.push_str(*rng.pick(&["\n", "\n", "\r\n", "\n\n"]));
            }
            all
        }
        // Characters of a line.
        2 => {
            let part = part(rng, flavor);
            let mut line = part.repeat(n / part.graphemes(true).count() + 1);
            line.insert_str(0, &text(rng, flavor, 20));
            line.push_str(&text(rng, flavor, 20));
            line
        }
        // More than 20 bits can count, as for bytes.
        5 => (0..17).map(|_| text(rng, 0, 20) + &"😀".repeat(n / 4) + "\n").collect(),
        // Bytes.
        _ => {
            let part = text(rng, flavor, 400);
            part.repeat(n / part.len() + 1)
        }
    }
}

/// Number of clusters on every line; used for making up positions only.
pub fn line_lengths(text: &str) -> Vec<usize> {
    text.split('\n')
        .map(|l| l.strip_suffix('\r').unwrap_or(l).graphemes(true).count())
        .collect()
}

pub struct Driver<'a> {
    pub rng: Rng,
    pub env: &'a Env,
    pub subject: Subject,
    pub text: String,
    pub disk: Value,
    pub flavor: usize,
    pub files: bool,
    pub dead: bool,
    pub hot: (u64, u64),
    pub steps: usize,
    /// The most recent queries.
    pub recent: Vec<Value>,
    /// How many executions of the suite there have been.
    pub round: usize,
}

impl<'a> Driver<'a> {
    pub fn new(seed: u64, env: &'a Env, files: bool) -> Driver<'a> {
        let mut rng = Rng::new(seed);
        let flavor = *rng.weighted(&[(0, 6), (1, 8), (2, 6), (3, 4), (4, 1), (5, 4)]);
        Driver {
            rng,
            env,
            subject: Subject::new(),
            text: String::new(),
            disk: json!({"A": {"k": "absent", "t": []}, "B": {"k": "absent", "t": []}}),
            flavor,
            files,
            dead: false,
            hot: (0, 0),
            steps: 0,
            recent: Vec::new(),
            round: 0,
        }
    }

    pub fn start(&mut self, name: &str, disk: Value) {
        self.env.set_disk(&disk);
        self.disk = disk;
        record::begin(&json!({"name": name, "disk": self.disk}));
    }

    /// Runs and records an operation, returning its result.
    pub fn op(&mut self, op: Value) -> Value {
        if self.dead || self.steps > 2 && !record::time_left() {
            return json!("");
        }
        self.steps += 1;
        if ["read", "search", "inb", "lines", "gap-read", "gap-inb"].contains(&op["op"].as_str().unwrap()) && !self.recent.contains(&op) {
            self.recent.push(op.clone());
            if self.recent.len() > 5 {
                self.recent.remove(0);
            }
        }
        let mut text = std::mem::take(&mut self.text);
        let mut disk = std::mem::take(&mut self.disk);
        let mut result = json!("");
        let (subject, env, files) = (&mut self.subject, self.env, self.files);
        subject.notices.start(&subject.buffer);

        let survived = record::step(&op, |event| {
            result = subject.apply(&op, Some(env));
            event.insert("res".into(), result.clone());
            event.insert("cbs".into(), Value::Array(subject.notices.positions()));
            event.insert("late".into(), json!(subject.notices.late(&subject.buffer)));
            let now = subject.data();
            event.insert("same".into(), json!(now == text));
            event.insert("t".into(), if now == text { json!([]) } else { cps(&now) });
            text = now;
            observe(&subject.buffer, Some(env), event);
            let d = if files { env.disk() } else { disk.clone() };
            event.insert("dsame".into(), json!(d == disk));
            event.insert(
                "disk".into(),
                if d == disk { json!({"A": {"k": "absent", "t": []}, "B": {"k": "absent", "t": []}}) } else { d.clone() },
            );
            disk = d;
        });

        self.dead = !survived;
        self.text = text;
        self.disk = disk;
        result
    }

    pub fn finish(self) {
        if !self.dead {
            record::end();
        }
    }

    pub fn piece_text(&mut self, max: usize) -> String {
        let n = match self.rng.below(10) {
            0 => 0,
            1..=6 => self.rng.within(1, 2),
            _ => self.rng.within(1, max),
        };
        text(&mut self.rng, self.flavor, n)
    }

    fn huge(&mut self) -> String {
        let shape = self.rng.below(5);
        huge(&mut self.rng, self.flavor, shape)
    }

    /// Just below or above what 16 bits can count.
    fn around_limit(&mut self, max: usize) -> usize {
        (LIMIT - 1 + self.rng.below(4)).min(max)
    }

    /// A position that exists.
    pub fn inside(&mut self) -> (u64, u64) {
        let lengths = line_lengths(&self.text);
        let line = match self.rng.below(6) {
            0 => lengths.len() - 1,
            1 => 0,
            2 => (self.hot.0 as usize).min(lengths.len() - 1),
            3 if lengths.len() > LIMIT => self.around_limit(lengths.len() - 1),
            _ => self.rng.below(lengths.len()),
        };
        let offset = match self.rng.below(6) {
            0 => lengths[line],
            1 => 0,
            3 | 4 if lengths[line] > LIMIT => self.around_limit(lengths[line]),
            2 => (self.hot.1 as usize + self.rng.below(3)).min(lengths[line]),
            _ => self.rng.within(0, lengths[line]),
        };
        (line as u64, offset as u64)
    }

    /// A position that often doesn't exist.
    pub fn anywhere(&mut self) -> (u64, u64) {
        let lengths = line_lengths(&self.text);
        let n = lengths.len();
        let line = match self.rng.below(12) {
            0 => n as u64,
            1 => n as u64 + 1,
            2 => HUGE - self.rng.below(2) as u64,
            // As many lines again as there are numbers of 32 bits.
            4 => WORD + self.rng.below(n) as u64,
            3 => n as u64 + 40,
            _ => self.rng.below(n) as u64,
        };
        let length = lengths.get(line as usize).copied().unwrap_or(0);
        let offset = match self.rng.below(9) {
            0 => HUGE - self.rng.below(2) as u64,
            8 => WORD + self.rng.within(0, length) as u64,
            1 => length as u64 + 1,
            2 => length as u64 + 2,
            3 => length as u64 + 50,
            4 => length as u64,
            _ => self.rng.within(0, length) as u64,
        };
        (line, offset)
    }

    fn json_pos(p: (u64, u64)) -> Value {
        json!([p.0, p.1])
    }

    pub fn goto(&mut self, p: (u64, u64)) {
        self.op(json!({"op": "goto", "p": Self::json_pos(p)}));
    }

    pub fn insert(&mut self, s: &str) {
        self.op(json!({"op": "insert", "s": cps(s)}));
    }

    pub fn simple(&mut self, op: &str) -> Value {
        self.op(json!({ "op": op }))
    }

    pub fn direction(&mut self, dir: &str) {
        self.op(json!({"op": "move", "dir": dir}));
    }

    /// Something to look for.
    pub fn needle(&mut self) -> String {
        let chars: Vec<char> = self.text.chars().collect();
        if !chars.is_empty() && self.rng.chance(70) {
            let start = self.rng.below(chars.len());
            let length = if self.rng.chance(85) { self.rng.within(1, 3) } else { self.rng.within(4, 70) };
            let end = (start + length).min(chars.len());
            let found: String = chars[start..end].iter().collect();
            // Something that looks the same.
            match self.rng.below(20) {
                0 => found.to_uppercase(),
                1 => found.to_lowercase(),
                2 => found.trim().to_string(),
                3 => found.replace('\u{301}', "").replace('é', "e\u{301}"),
                _ => found,
            }
        } else if self.rng.chance(20) {
            String::new()
        } else {
            self.piece_text(3)
        }
    }

    /// Something that's hardly different from the content.
    pub fn alike(&mut self) -> String {
        let mut chars: Vec<char> = self.text.chars().collect();
        if chars.is_empty() {
            return self.piece_text(3);
        }
        let at = match self.rng.below(4) {
            0 => chars.len() - 1,
            1 => 0,
            _ => self.rng.below(chars.len()),
        };
        match self.rng.below(10) {
            0 => return self.text.replace("\r\n", "\n"),
            1 => return self.text.to_uppercase(),
            2 => return self.text.trim_end().to_string(),
            3 => {
                let other = self.rng.below(chars.len());
                chars.swap(at, other);
            }
            4 => {
                chars.remove(at);
            }
            5 => chars.insert(at, '\n'),
            6 => chars.insert(at, ' '),
            // Just as long.
            _ => {
                chars[at] = match chars[at].len_utf8() {
                    1 if chars[at] == 'x' => 'y',
                    1 => 'x',
                    2 => 'ü',
                    3 => '文',
                    _ => '😀',
                }
            }
        }
        chars.into_iter().collect()
    }

    /// What's all over a large text, and movement between lines of different lengths.
    fn overview(&mut self) {
        let lengths = line_lengths(&self.text);
        let last = lengths.len() - 1;
        let end = (last as u64, lengths[last] as u64);
        self.act("iterate-here");
        self.op(json!({"op": "read", "p": [0, 0], "q": Self::json_pos(end)}));
        let whole = cps(&self.text);
        self.op(json!({"op": "distance", "s": whole}));
        let frequent: Vec<char> = self.text.chars().filter(|c| *c != '\n' && *c != '\r').take(1).collect();
        let needle: String = frequent.into_iter().collect();
        self.op(json!({"op": "search", "s": cps(&needle)}));
        for _ in 0..8 {
            let line = match self.rng.below(3) {
                0 => self.rng.below(lengths.len()),
                _ => self.rng.below(lengths.len().min(12)),
            };
            self.goto((line as u64, lengths[line] as u64));
            let dir = *self.rng.pick(&["up", "down"]);
            for _ in 0..self.rng.within(2, 4) {
                self.direction(dir);
            }
        }
        for dir in ["first", "last", "eol", "up"] {
            self.direction(dir);
        }
    }

    /// Runs one of the named actions, most of which consist of a few operations.
    pub fn act(&mut self, action: &str) {
        match action {
            "ins" => {
                let p = self.inside();
                self.hot = p;
                self.goto(p);
                let s = self.piece_text(6);
                self.insert(&s);
            }
            "ins-here" => {
                let s = self.piece_text(4);
                self.insert(&s);
            }
            // Typing, with the cursor advancing.
            "type" => {
                for _ in 0..self.rng.within(2, 5) {
                    let s = piece(&mut self.rng, self.flavor).to_string();
                    self.insert(&s);
                    self.direction("right");
                }
            }
            // Backspacing.
            "backspace" => {
                for _ in 0..self.rng.within(1, 4) {
                    self.direction("left");
                    self.simple("delete");
                }
            }
            "del" => {
                let p = self.inside();
                self.hot = p;
                self.goto(p);
                self.simple("delete");
            }
            "del-here" => {
                self.simple("delete");
            }
            "range" => {
                let p = self.inside();
                let q = if self.rng.chance(50) {
                    self.inside()
                } else {
                    (p.0, p.1 + self.rng.within(0, 2) as u64)
                };
                self.hot = p.min(q);
                self.op(json!({"op": "range", "p": Self::json_pos(p), "q": Self::json_pos(q)}));
            }
            "range-any" => {
                let p = if self.rng.chance(50) { self.inside() } else { self.anywhere() };
                let q = self.anywhere();
                let (p, q) = if self.rng.chance(30) { (q, p) } else { (p, q) };
                self.op(json!({"op": "range", "p": Self::json_pos(p), "q": Self::json_pos(q)}));
            }
            "ins-large" => {
                let p = self.inside();
                self.hot = p;
                self.goto(p);
                let n = self.rng.within(20, 300);
                let s = text(&mut self.rng, self.flavor, n);
                self.insert(&s);
            }
            // Allocations grow by doubling: fills up what could be, or exceeds it by one.
            "fill" => {
                let p = self.inside();
                self.hot = p;
                self.goto(p);
                let used = self.text.len();
                let mut capacity = 8;
                while capacity < used {
                    capacity *= 2;
                }
                let n = capacity - used + self.rng.below(3);
                let s: String = (0..n.saturating_sub(1)).map(|_| *self.rng.pick(&["a", "b", "\n", "c"])).collect();
                self.insert(&s);
            }
            "range-near" => {
                let p = self.inside();
                let q = (p.0 + self.rng.below(3) as u64, self.rng.below(20) as u64);
                self.hot = p.min(q);
                self.op(json!({"op": "range", "p": Self::json_pos(p), "q": Self::json_pos(q)}));
            }
            // Most of what's there is removed, and what's left is edited.
            "carve" => {
                let lengths = line_lengths(&self.text);
                let (lines, few) = (lengths.len(), self.rng.below(20));
                let p = few.min(lines / 4);
                let q = lines - 1 - self.rng.below(20).min(lines / 4);
                let mut from = self.rng.below(20).min(lengths[p]);
                let mut to = lengths[q] - self.rng.below(1500).min(lengths[q]);
                if p == q && to < from {
                    std::mem::swap(&mut from, &mut to);
                }
                let ends = [(p as u64, from as u64), (q as u64, to as u64)];
                self.hot = ends[0];
                self.op(json!({"op": "range", "p": Self::json_pos(ends[0]), "q": Self::json_pos(ends[1])}));
                for _ in 0..self.rng.within(3, 7) {
                    let a = *self.rng.weighted(&[("ins", 4), ("del", 2), ("range", 3), ("gap-jump", 2)]);
                    self.act(a);
                }
            }
            // Edits at the very start and the very end.
            "gap-jump" => {
                let lengths = line_lengths(&self.text);
                let end = (lengths.len() as u64 - 1, *lengths.last().unwrap() as u64);
                for p in [(0, 0), end] {
                    self.goto(p);
                    let s = self.piece_text(2);
                    self.insert(&s);
                }
            }
            // As much as has been inserted, replaced, or written at once.
            "ins-huge" => {
                let p = self.inside();
                self.hot = p;
                self.goto(p);
                let s = self.huge();
                self.insert(&s);
            }
            "replace-huge" => {
                let mut s = self.huge();
                if self.text.len() > LIMIT && self.rng.chance(50) {
                    s = self.alike();
                }
                self.op(json!({"op": "replace", "s": cps(&s)}));
            }
            "write-huge" => {
                let f = *self.rng.pick(&["A", "B"]);
                let s = if self.rng.chance(30) { self.alike() } else { self.huge() };
                self.op(json!({"op": "write", "f": f, "s": cps(&s)}));
            }
            "replace-large" => {
                let n = self.rng.within(50, 400);
                let mut s = text(&mut self.rng, self.flavor, n);
                if self.rng.chance(50) {
                    s = self.alike();
                }
                self.op(json!({"op": "replace", "s": cps(&s)}));
            }
            "write-large" => {
                let f = *self.rng.pick(&["A", "B"]);
                let n = self.rng.within(1000, 12000);
                let s = if self.rng.chance(30) { self.alike() } else { text(&mut self.rng, self.flavor, n) };
                self.op(json!({"op": "write", "f": f, "s": cps(&s)}));
            }
            "undos-many" => {
                for _ in 0..self.rng.within(10, 80) {
                    self.simple("undo");
                }
            }
            "redos-many" => {
                for _ in 0..self.rng.within(10, 80) {
                    self.simple("redo");
                }
            }
            "group-large" => {
                self.simple("begin");
                for _ in 0..self.rng.within(10, 50) {
                    let a = *self.rng.weighted(&[("ins", 4), ("del", 2), ("range", 2), ("ins-here", 3)]);
                    self.act(a);
                }
                self.simple("end");
                let n = self.rng.below(3);
                for _ in 0..n {
                    self.simple("undo");
                }
            }
            // A lot of edits, which are then undone and redone, all of them.
            "marathon" | "marathon-group" => {
                let grouped = action == "marathon-group";
                let edits = if grouped { [4200, 1100, 300] } else { [4200, 2100, 1100] }[self.round % 3];
                let saved = self.rng.below(edits);
                if grouped {
                    self.simple("begin");
                }
                for i in 0..edits {
                    let long = self.text.len() > 30;
                    match self.rng.below(10) {
                        0..=4 if !long => self.act("ins"),
                        5 if !long => self.act("ins-here"),
                        6 => self.act("range"),
                        7 if self.rng.chance(5) => self.act("replace"),
                        _ if long && self.rng.chance(20) => self.act("range"),
                        _ => self.act("del"),
                    }
                    if i == saved && !grouped {
                        self.act("save");
                    }
                }
                let entries = if grouped {
                    self.simple("end");
                    1
                } else {
                    edits
                };
                for op in ["undo", "redo", "undo"] {
                    for _ in 0..entries + 2 {
                        self.simple(op);
                    }
                }
                self.act("ins");
                self.simple("redo");
                self.simple("undo");
            }
            // More edits yet, of next to nothing.
            "marathon-far" => {
                let edits = 10_100;
                for _ in 0..edits {
                    if self.text.len() > 12 || self.rng.chance(45) && !self.text.is_empty() {
                        self.simple("delete");
                    } else {
                        self.act("ins-here");
                    }
                }
                for op in ["undo", "redo"] {
                    for _ in 0..edits + 2 {
                        self.simple(op);
                    }
                }
                self.simple("undo");
            }
            "replace" => {
                let s = match self.rng.below(7) {
                    0 => self.text.clone(),
                    5 | 6 => self.alike(),
                    1 => {
                        let mut s = self.text.clone();
                        s.push_str(piece(&mut self.rng, self.flavor));
                        s
                    }
                    _ => self.piece_text(8),
                };
                self.op(json!({"op": "replace", "s": cps(&s)}));
            }
            "undo" | "redo" | "begin" | "end" | "reload" | "lines" => {
                self.simple(action);
            }
            "undos" => {
                for _ in 0..self.rng.within(2, 6) {
                    self.simple("undo");
                }
            }
            "redos" => {
                for _ in 0..self.rng.within(2, 6) {
                    self.simple("redo");
                }
            }
            "group" => {
                self.simple("begin");
                for _ in 0..self.rng.within(0, 4) {
                    let a = *self.rng.weighted(&[
                        ("ins", 4), ("del", 2), ("range", 2), ("replace", 1), ("type", 1), ("begin", 1), ("move", 1),
                    ]);
                    self.act(a);
                }
                if self.rng.chance(85) {
                    self.simple("end");
                }
            }
            "save" => {
                self.op(json!({"op": "save", "limit": -1}));
            }
            "save-limited" => {
                let limit = self.rng.within(0, self.text.len() + 2);
                self.op(json!({"op": "save", "limit": limit}));
            }
            // A path that can't be written to, for a while.
            "detour" => {
                let to = *self.rng.pick(&["none", "lost", "dir", "full"]);
                let back = *self.rng.pick(&["A", "B", "A"]);
                self.op(json!({"op": "path", "to": to}));
                for _ in 0..self.rng.within(0, 2) {
                    let a = *self.rng.pick(&["ins", "undo", "redo", "del"]);
                    self.act(a);
                }
                self.act("save");
                if to != "full" && self.rng.chance(40) {
                    self.simple("reload");
                }
                for _ in 0..self.rng.within(0, 2) {
                    let a = *self.rng.pick(&["ins", "undo", "redo", "move"]);
                    self.act(a);
                }
                let spelling = self.rng.below(6);
                self.op(json!({"op": "path", "to": back, "as": spelling}));
            }
            // A failed reload or save, with a continuation.
            "fault" => match self.rng.below(4) {
                0 => {
                    self.op(json!({"op": "corrupt", "f": "A"}));
                    self.simple("reload");
                }
                1 => {
                    self.op(json!({"op": "unlink", "f": "A"}));
                    self.simple("reload");
                }
                2 => self.act("save-limited"),
                _ => self.act("detour"),
            },
            "reload-path" => {
                // Never read from the endless device.
                if self.env.name(self.subject.buffer.path.as_deref()) != "full" {
                    self.simple("reload");
                }
            }
            "path" => {
                let to = *self.rng.pick(&["none", "A", "B", "A", "B", "lost", "dir"]);
                let spelling = self.rng.below(6);
                self.op(json!({"op": "path", "to": to, "as": spelling}));
            }
            "write" => {
                let f = *self.rng.pick(&["A", "B"]);
                let s = match self.rng.below(6) {
                    0 | 1 => self.text.clone(),
                    2 => self.alike(),
                    _ => self.piece_text(8),
                };
                self.op(json!({"op": "write", "f": f, "s": cps(&s)}));
            }
            "corrupt" | "unlink" => {
                let f = *self.rng.pick(&["A", "B"]);
                self.op(json!({"op": action, "f": f}));
            }
            "open" => {
                let f = *self.rng.pick(&["A", "B", "A", "lost", "dir"]);
                let spelling = self.rng.below(5);
                self.op(json!({"op": "open", "f": f, "as": spelling}));
            }
            "open-file" => {
                let f = *self.rng.pick(&["A", "B"]);
                let spelling = self.rng.below(5);
                self.op(json!({"op": "open", "f": f, "as": spelling}));
            }
            "meta" => {
                let id = *self.rng.pick(&[-1i64, 0, 7, 12]);
                let syn = *self.rng.pick(&["", "Rust", "Plain Text"]);
                self.op(json!({"op": "meta", "id": id, "syn": syn}));
            }
            "move" => {
                let dir = *self.rng.pick(&["left", "right", "up", "down", "sol", "eol", "first", "last"]);
                self.direction(dir);
            }
            "horizontal" => {
                let dir = *self.rng.pick(&["left", "right", "sol", "eol"]);
                for _ in 0..self.rng.within(1, 4) {
                    self.direction(dir);
                }
            }
            "vertical" => {
                let dir = *self.rng.weighted(&[("up", 4), ("down", 4), ("first", 1), ("last", 1)]);
                for _ in 0..self.rng.within(1, 4) {
                    self.direction(dir);
                }
            }
            "goto" => {
                let p = self.inside();
                self.goto(p);
            }
            "goto-any" => {
                let p = self.anywhere();
                self.goto(p);
            }
            "poke" => {
                let p = self.anywhere();
                self.op(json!({"op": "poke", "p": Self::json_pos(p)}));
            }
            "inb" => {
                let p = if self.rng.chance(40) { self.inside() } else { self.anywhere() };
                self.op(json!({"op": "inb", "p": Self::json_pos(p)}));
            }
            // Every position around, in and out of bounds.
            "survey" => {
                let lengths = line_lengths(&self.text);
                for line in 0..=lengths.len().min(6) {
                    for offset in 0..=(lengths.get(line).copied().unwrap_or(0) + 1).min(8) {
                        self.op(json!({"op": "inb", "p": [line, offset]}));
                    }
                }
            }
            "read" => {
                let p = self.inside();
                let q = self.inside();
                self.op(json!({"op": "read", "p": Self::json_pos(p), "q": Self::json_pos(q)}));
            }
            "read-any" => {
                let p = self.anywhere();
                let q = if self.rng.chance(50) { self.inside() } else { self.anywhere() };
                self.op(json!({"op": "read", "p": Self::json_pos(p), "q": Self::json_pos(q)}));
            }
            // Queries have to be answered anew, even if hardly anything is different.
            "again" => {
                let p = self.inside();
                match self.rng.below(5) {
                    0 => {
                        let s = self.alike();
                        self.op(json!({"op": "replace", "s": cps(&s)}));
                    }
                    1 => self.act("undo"),
                    2 => self.act("del"),
                    _ => {
                        let s = self.rng.pick(&["a", "b", "\n", "é", "A"]).to_string();
                        self.goto(p);
                        self.simple("delete");
                        if self.rng.chance(40) {
                            let q = self.inside();
                            self.goto(q);
                        }
                        self.insert(&s);
                    }
                }
                for query in self.recent.clone() {
                    self.op(query);
                }
            }
            "gap-again" => {
                let p = self.inside();
                self.op(json!({"op": "gap-delete", "p": [p.0, p.1], "q": [p.0, p.1 + 1]}));
                self.op(json!({"op": "gap-insert", "p": [p.0, p.1], "s": cps("x")}));
                for query in self.recent.clone() {
                    self.op(query);
                }
            }
            "search" => {
                let n = self.needle();
                self.op(json!({"op": "search", "s": cps(&n)}));
            }
            "order" | "span" | "span-includes" => {
                let ps: Vec<Value> = (0..3)
                    .map(|_| {
                        let l = *self.rng.pick(&[0, 1, 2, 7, 1000, 65536, 65537, WORD, WORD + 1, HUGE - 1, HUGE]);
                        let o = *self.rng.pick(&[0, 1, 2, 3, 80, 256, 65536, WORD, WORD + 2, HUGE]);
                        json!([l, o])
                    })
                    .collect();
                self.op(json!({"op": action, "p": ps[0], "q": ps[1], "r": ps[2]}));
            }
            "add" => {
                let wide = self.rng.below(6);
                let mut n = |k: usize| {
                    let small = (self.rng.below(300) * self.rng.below(3)) as u64;
                    if wide == k { WORD + small } else { small }
                };
                let op = json!({"op": "add", "p": [n(0), n(1)], "d": [n(2), n(3)]});
                self.op(op);
            }
            "line-range" | "line-range-includes" => {
                let mut pick = || match self.rng.below(12) {
                    0 => WORD + self.rng.below(20) as u64,
                    1 => HUGE - 1 - self.rng.below(3) as u64,
                    2 => 65536 + self.rng.below(3) as u64,
                    _ => self.rng.below(20) as u64,
                };
                let (m, n, l) = (pick(), pick(), pick());
                self.op(json!({"op": action, "m": m, "n": n, "l": l}));
            }
            "distance" | "iterate" => {
                let n = self.rng.below(14);
                let s = text(&mut self.rng, self.flavor, n);
                self.op(json!({"op": action, "s": cps(&s)}));
            }
            // The buffer's content, and parts of it.
            "iterate-here" => {
                let s = cps(&self.text);
                self.op(json!({"op": "iterate", "s": s}));
                self.simple("lines");
            }
            "measure-here" => {
                let (p, q) = (self.inside(), self.inside());
                let read = self.op(json!({"op": "read", "p": Self::json_pos(p), "q": Self::json_pos(q)}));
                if let Some(part) = read.get(0) {
                    self.op(json!({"op": "distance", "s": part}));
                }
            }
            "gap-new" => {
                let s = self.piece_text(8);
                self.op(json!({"op": "gap-new", "s": cps(&s)}));
            }
            "gap-insert" => {
                let p = if self.rng.chance(85) { self.inside() } else { self.anywhere() };
                self.hot = p;
                let s = self.piece_text(6);
                self.op(json!({"op": "gap-insert", "p": Self::json_pos(p), "s": cps(&s)}));
            }
            "gap-delete" => {
                let p = if self.rng.chance(85) { self.inside() } else { self.anywhere() };
                let q = if self.rng.chance(80) { self.inside() } else { self.anywhere() };
                self.hot = p.min(q);
                self.op(json!({"op": "gap-delete", "p": Self::json_pos(p), "q": Self::json_pos(q)}));
            }
            "gap-inb" => {
                let p = self.anywhere();
                self.op(json!({"op": "gap-inb", "p": Self::json_pos(p)}));
            }
            "gap-read" => {
                let p = self.inside();
                let q = if self.rng.chance(80) { self.inside() } else { self.anywhere() };
                self.op(json!({"op": "gap-read", "p": Self::json_pos(p), "q": Self::json_pos(q)}));
            }
            other => panic!("unknown action {}", other),
        }
    }
}

/// Starts from more than a number of pieces.
const HUGE_TEXT: usize = usize::MAX;

type Weights = &'static [(&'static str, usize)];

pub struct Suite {
    pub weights: Weights,
    /// Whether files are involved.
    pub files: bool,
    /// Number of actions.
    pub actions: (usize, usize),
    /// Number of pieces to start from.
    pub initial: (usize, usize),
    /// Most steps.
    pub steps: usize,
    /// Run fewer of them by this factor, as they're larger.
    pub size: usize,
}

pub fn suite(name: &str) -> Suite {
    let s = |weights, files, actions, initial| Suite { weights, files, actions, initial, steps: 160, size: 1 };
    match name {
        // Long texts.
        "large" => Suite {
            size: 10,
            ..s(
                &[("ins", 5), ("ins-large", 4), ("fill", 4), ("del", 3), ("range", 4), ("range-near", 4), ("replace-large", 1), ("undo", 4),
                  ("redo", 3), ("read", 2), ("inb", 2), ("goto", 2), ("type", 1), ("backspace", 1), ("carve", 2), ("gap-jump", 1)],
                false, (8, 20), (100, 600),
            )
        },
        "large-queries" => Suite {
            size: 10,
            ..s(
                &[("again", 2), ("ins", 1), ("del", 1), ("range-near", 1), ("read", 5), ("read-any", 2), ("search", 8), ("inb", 6), ("goto-any", 3),
                  ("move", 4), ("horizontal", 2), ("vertical", 5), ("iterate-here", 3), ("measure-here", 3), ("lines", 1)],
                false, (15, 30), (100, 600),
            )
        },
        // Exceeding what 16 bits can count.
        "huge" => Suite {
            size: 1,
            ..s(
                &[("ins", 4), ("ins-huge", 1), ("del", 2), ("range-near", 3), ("range", 1), ("replace-huge", 1), ("undo", 4), ("redo", 3),
                  ("read", 2), ("inb", 2), ("lines", 1), ("carve", 3)],
                false, (8, 12), (HUGE_TEXT, 0),
            )
        },
        "huge-queries" => Suite {
            size: 1,
            ..s(
                &[("again", 1), ("ins", 1), ("del", 1), ("read", 3), ("read-any", 1), ("search", 2), ("inb", 3), ("goto", 3), ("goto-any", 1),
                  ("move", 3), ("horizontal", 1), ("vertical", 3), ("iterate-here", 1), ("measure-here", 2), ("lines", 1)],
                false, (10, 16), (HUGE_TEXT, 0),
            )
        },
        "huge-files" => Suite {
            size: 1,
            ..s(
                &[("ins", 1), ("save", 3), ("save-limited", 1), ("reload-path", 2), ("write-huge", 1), ("undo", 2), ("redo", 1),
                  ("open-file", 1), ("del", 1)],
                true, (5, 7), (HUGE_TEXT, 0),
            )
        },
        // Exceeding what's read and written at once.
        "large-files" => Suite {
            size: 25,
            ..s(
                &[("ins", 1), ("save", 3), ("save-limited", 2), ("reload-path", 2), ("write-large", 2), ("replace-large", 2), ("undo", 2), ("redo", 1),
                  ("open-file", 2), ("del", 1)],
                true, (6, 10), (1000, 14000),
            )
        },
        // Long histories, gone through in both directions.
        "long" => Suite {
            steps: 700,
            size: 5,
            ..s(
                &[("ins", 5), ("type", 4), ("backspace", 3), ("del", 2), ("range", 3), ("replace", 1), ("undos-many", 1), ("redos-many", 1),
                  ("undo", 1), ("redo", 1), ("move", 1), ("group", 1), ("group-large", 1)],
                false, (60, 160), (0, 10),
            )
        },
        "long-files" => Suite {
            steps: 700,
            size: 5,
            ..s(
                &[("ins", 5), ("type", 3), ("backspace", 2), ("del", 2), ("range", 2), ("replace", 1), ("undos-many", 2), ("redos-many", 2),
                  ("undo", 2), ("redo", 2), ("save", 1), ("reload-path", 1), ("write", 1), ("group-large", 1)],
                true, (60, 140), (0, 10),
            )
        },
        // Histories of thousands of entries, or entries of thousands of edits.
        "marathon" => Suite {
            steps: 1,
            size: 120,
            ..s(&[("marathon", 1)], true, (1, 1), (0, 4))
        },
        "marathon-far" => Suite {
            steps: 1,
            size: 1,
            ..s(&[("marathon-far", 1)], false, (1, 1), (0, 1))
        },
        "marathon-group" => Suite {
            steps: 1,
            size: 120,
            ..s(&[("marathon-group", 1)], true, (1, 1), (0, 4))
        },
        "edit" => s(
            &[("ins", 8), ("del", 4), ("range", 5), ("type", 2), ("backspace", 2), ("ins-here", 2), ("del-here", 2),
              ("undo", 1), ("redo", 1), ("read", 1)],
            false, (8, 25), (0, 8),
        ),
        "positions" => s(
            &[("again", 2), ("ins", 6), ("del", 3), ("range", 3), ("survey", 3), ("inb", 6), ("goto-any", 4), ("goto", 2), ("read", 2),
              ("lines", 1), ("undo", 1), ("replace", 1)],
            false, (8, 16), (0, 8),
        ),
        "read" => s(
            &[("again", 3), ("ins", 5), ("del", 2), ("range", 2), ("read", 10), ("read-any", 6), ("undo", 1)],
            false, (10, 25), (0, 10),
        ),
        "oob" => s(
            &[("range-any", 8), ("ins", 4), ("poke", 4), ("ins-here", 4), ("del-here", 4), ("undo", 3), ("redo", 2),
              ("inb", 2), ("read-any", 2), ("goto-any", 2), ("move", 2), ("range", 1), ("replace", 1), ("search", 1)],
            false, (8, 25), (0, 8),
        ),
        "history" => s(
            &[("ins", 8), ("del", 3), ("range", 4), ("range-any", 1), ("replace", 2), ("undo", 8), ("redo", 5), ("undos", 3),
              ("redos", 3), ("move", 2), ("type", 1), ("backspace", 1), ("group", 1), ("ins-here", 1), ("del-here", 1)],
            false, (10, 30), (0, 6),
        ),
        "history-files" => s(
            &[("ins", 6), ("del", 3), ("range", 3), ("replace", 2), ("undo", 6), ("redo", 4), ("undos", 2), ("redos", 2),
              ("save", 2), ("reload-path", 2), ("write", 2), ("group", 1), ("move", 1), ("path", 1)],
            true, (8, 25), (0, 6),
        ),
        "groups" => s(
            &[("group", 6), ("begin", 3), ("end", 3), ("ins", 6), ("del", 2), ("range", 3), ("replace", 2), ("undo", 6),
              ("redo", 5), ("undos", 1), ("redos", 1), ("move", 1)],
            false, (8, 25), (0, 6),
        ),
        "groups-files" => s(
            &[("group", 5), ("begin", 3), ("end", 3), ("ins", 5), ("del", 2), ("range", 2), ("replace", 1), ("undo", 5),
              ("redo", 4), ("save", 3), ("reload-path", 2), ("write", 1)],
            true, (8, 25), (0, 6),
        ),
        "flag" => s(
            &[("ins", 5), ("del", 2), ("range", 2), ("replace", 1), ("undo", 6), ("redo", 5), ("undos", 1), ("redos", 1),
              ("save", 5), ("reload-path", 2), ("begin", 1), ("end", 1), ("group", 1), ("write", 1), ("path", 2),
              ("fault", 1), ("move", 1), ("search", 1)],
            true, (10, 30), (0, 5),
        ),
        "files" => s(
            &[("open-file", 4), ("ins", 4), ("del", 1), ("range", 1), ("replace", 2), ("save", 6), ("reload-path", 3), ("write", 4),
              ("path", 3), ("undo", 2), ("redo", 1), ("corrupt", 1), ("unlink", 1), ("open", 1)],
            true, (6, 18), (0, 12),
        ),
        "faults" => s(
            &[("fault", 6), ("detour", 5), ("save-limited", 5), ("ins", 5), ("del", 1), ("replace", 1), ("undo", 4), ("redo", 3),
              ("save", 3), ("reload-path", 3), ("write", 1), ("corrupt", 2), ("unlink", 2), ("path", 3), ("open", 3), ("open-file", 1),
              ("begin", 1), ("end", 1), ("move", 1), ("meta", 1)],
            true, (8, 20), (0, 6),
        ),
        "replace" => s(
            &[("replace", 8), ("reload-path", 5), ("write", 5), ("ins", 4), ("goto", 6), ("poke", 1), ("undo", 4), ("redo", 3),
              ("meta", 2), ("vertical", 2), ("del", 1), ("save", 1), ("group", 1), ("fault", 1)],
            true, (8, 20), (0, 10),
        ),
        "cursor" => s(
            &[("goto", 6), ("goto-any", 4), ("horizontal", 8), ("vertical", 4), ("move", 4), ("ins", 3), ("del", 2), ("range", 2),
              ("poke", 1), ("undo", 1), ("replace", 1)],
            false, (10, 25), (0, 12),
        ),
        "vertical" => s(
            &[("goto", 5), ("vertical", 12), ("horizontal", 2), ("ins", 2), ("del", 1), ("goto-any", 1), ("replace", 1), ("poke", 1)],
            false, (10, 30), (4, 24),
        ),
        // Whatever happens in between doesn't matter.
        "sticky" => s(
            &[("goto", 4), ("vertical", 12), ("ins-here", 2), ("del-here", 1), ("range", 2), ("range-any", 1), ("undo", 3), ("redo", 2), ("begin", 1),
              ("end", 1), ("group", 1), ("save", 1), ("save-limited", 1), ("reload-path", 1), ("corrupt", 1), ("write", 1), ("replace", 1),
              ("search", 1), ("read", 1), ("inb", 1), ("goto-any", 1), ("lines", 1), ("path", 1)],
            true, (15, 35), (4, 24),
        ),
        "still" => s(
            &[("again", 1), ("goto", 4), ("ins-here", 4), ("del-here", 3), ("range", 4), ("range-any", 2), ("undo", 4), ("redo", 3), ("begin", 1),
              ("end", 1), ("save", 2), ("detour", 1), ("search", 2), ("read", 2), ("lines", 1), ("inb", 1), ("poke", 1), ("group", 1),
              ("save-limited", 1), ("vertical", 1), ("corrupt", 1), ("reload-path", 1)],
            true, (10, 25), (0, 8),
        ),
        "notify" => s(
            &[("ins", 5), ("ins-here", 2), ("del", 3), ("del-here", 1), ("range", 3), ("range-any", 2), ("replace", 3), ("undo", 6),
              ("redo", 5), ("group", 3), ("begin", 1), ("end", 1), ("save", 1), ("reload-path", 2), ("write", 1), ("move", 2),
              ("search", 1), ("poke", 1), ("fault", 1)],
            true, (8, 22), (0, 6),
        ),
        "search" => s(
            &[("again", 3), ("search", 12), ("ins", 4), ("del", 2), ("range", 1), ("undo", 1), ("replace", 1)],
            false, (10, 25), (0, 14),
        ),
        "lines" => s(
            &[("again", 3), ("lines", 4), ("iterate-here", 6), ("iterate", 4), ("ins", 5), ("del", 3), ("range", 2), ("undo", 1), ("replace", 1), ("inb", 3)],
            false, (10, 20), (0, 14),
        ),
        "values" => s(
            &[("order", 3), ("span", 2), ("span-includes", 4), ("add", 3), ("line-range", 2), ("line-range-includes", 3),
              ("distance", 8), ("measure-here", 4), ("ins", 2)],
            false, (40, 60), (0, 14),
        ),
        "gap" => s(
            &[("gap-again", 2), ("gap-insert", 6), ("gap-delete", 4), ("gap-inb", 3), ("gap-read", 4), ("gap-new", 1)],
            false, (10, 30), (0, 10),
        ),
        "everything" => s(
            &[("again", 1), ("ins", 6), ("ins-here", 2), ("type", 1), ("backspace", 1), ("del", 3), ("del-here", 1), ("range", 3), ("range-any", 2),
              ("replace", 2), ("undo", 5), ("redo", 4), ("undos", 1), ("redos", 1), ("group", 2), ("begin", 1), ("end", 1),
              ("save", 2), ("reload-path", 2), ("write", 1), ("path", 1), ("fault", 1), ("corrupt", 1), ("open", 1), ("meta", 1),
              ("move", 3), ("vertical", 2), ("goto", 2), ("goto-any", 1), ("poke", 1), ("inb", 1), ("read", 1), ("search", 1),
              ("lines", 1)],
            true, (15, 40), (0, 8),
        ),
        other => panic!("unknown suite {}", other),
    }
}

/// A random execution of a suite.
pub fn run(name: &str, seed: u64, index: usize, env: &Env) {
    let suite = suite(name);
    if index % suite.size != 0 || index > 0 && !record::time_left() {
        return;
    }
    let mut d = Driver::new(seed ^ ((index as u64) << 20), env, suite.files);
    d.round = index / suite.size;
    let initial = if suite.initial.0 == HUGE_TEXT {
        huge(&mut d.rng, d.flavor, index / suite.size % if suite.files { 6 } else { 5 })
    } else {
        let n = d.rng.within(suite.initial.0, suite.initial.1);
        text(&mut d.rng, d.flavor, n)
    };
    let other = text(&mut d.rng, d.flavor, 3);
    let disk = if suite.files {
        json!({"A": {"k": "text", "t": cps(&initial)}, "B": {"k": "text", "t": cps(&other)}})
    } else {
        json!({"A": {"k": "absent", "t": []}, "B": {"k": "absent", "t": []}})
    };
    d.start(&format!("{}-{}-{}", name, seed, index), disk);

    // Buffers start out empty, from a file, or with content.
    if name == "gap" {
        d.op(json!({"op": "gap-new", "s": cps(&initial)}));
    }
    match d.rng.below(8) {
        _ if name == "gap" => (),
        0 if suite.initial.0 != HUGE_TEXT => (),
        1..=5 if suite.files => {
            d.op(json!({"op": "open", "f": "A", "as": 0}));
        }
        6 => {
            d.op(json!({"op": "replace", "s": cps(&initial)}));
        }
        _ => d.insert(&initial),
    }
    if suite.files && d.rng.chance(20) {
        let spelling = d.rng.below(5);
        d.op(json!({"op": "path", "to": "B", "as": spelling}));
    }

    if name == "huge-queries" {
        d.overview();
    }
    let actions = d.rng.within(suite.actions.0, suite.actions.1);
    for _ in 0..actions {
        let action = *d.rng.weighted(suite.weights);
        d.act(action);
        if d.steps > suite.steps || !record::time_left() {
            break;
        }
    }
    // Something small in between.
    if name == "huge-files" {
        let s = d.piece_text(8);
        if d.rng.chance(50) {
            d.op(json!({"op": "replace", "s": cps(&s)}));
        } else {
            d.op(json!({"op": "write", "f": "A", "s": cps(&s)}));
            d.op(json!({"op": "path", "to": "A", "as": 0}));
            d.simple("reload");
        }
        d.simple("undo");
        d.simple("redo");
    }
    d.finish();
}

/// Runs the given operations once more.
pub fn script(execution: &Value, env: &Env) {
    let mut d = Driver::new(0, env, true);
    let absent = json!({"k": "absent", "t": []});
    let mut disk = json!({"A": absent, "B": absent});
    if execution["disk"].is_object() {
        disk = execution["disk"].clone();
    }
    d.start("script", disk);
    for op in execution["ops"].as_array().unwrap() {
        d.op(op.clone());
    }
    d.finish();
}

/// Texts along with the offsets at which their clusters start, as far as the implementation's
/// Unicode library is concerned.
pub fn segments(output: &str, seed: u64) {
    let mut rng = Rng::new(seed ^ 0x5E6);
    let mut out = BufWriter::new(File::create(output).unwrap());
    let mut count = 0;
    let mut write = |text: &str| {
        let starts: Vec<usize> =
            text.grapheme_indices(true).map(|(i, _)| text[..i].chars().count() + 1).collect();
        writeln!(out, "{}", json!({"t": cps(text), "s": starts})).unwrap();
        count += 1;
    };

    // Every character on its own, in pairs, and some in threes.
    let mut chars: Vec<char> = [ASCII, BREAKS, LATIN, MARKS, WIDE, INDIC, EMOJI, CONTROLS, VARIED]
        .concat()
        .concat()
        .chars()
        .chain("中文क\u{102ff}(#\"1é".chars())
        .collect();
    chars.extend(' '..='~');
    chars.sort();
    chars.dedup();
    // Characters that are all alike are left to the threes.
    let some: Vec<char> = chars.iter().copied().filter(|c| !c.is_ascii_graphic() || "a0(".contains(*c)).collect();
    for &a in &some {
        for &b in &some {
            write(&[a, b].iter().collect::<String>());
        }
    }
    for _ in 0..8000 {
        let text: String = (0..3).map(|_| *rng.pick(&chars)).collect();
        write(&text);
    }
    for flavor in 0..6 {
        for _ in 0..300 {
            let n = rng.within(3, 25);
            write(&text(&mut rng, flavor, n));
        }
    }
    drop(write);
    println!("{}", json!({ "texts": count }));
}
