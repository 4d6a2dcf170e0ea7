//! Tokens: what they're made from (parser events, as produced by the syntax highlighting library
//! when used directly) and what they are.

use crate::env::{cps, from_cps};
use crate::record;
use crate::rng::Rng;
use scribe::buffer::{Position, Range, Token, TokenSet};
use scribe::{Buffer, Workspace};
use serde_json::{json, Value};
use std::fs;
use std::path::{Path, PathBuf};
use syntect::parsing::{ClearAmount, ParseState, ScopeStackOp, SyntaxReference, SyntaxSet};

/// Small enough for the specification to define what it means, too.
pub const TOY: &str = r##"%YAML 1.2
---
name: Toy
file_extensions: [toy]
scope: source
contexts:
  main:
    - match: '\('
      scope: open
      push: group
    - match: '#'
      scope: hash
      push: comment
    - match: '"'
      scope: quote
      push: string
    - match: '[0-9]+'
      scope: number
  group:
    - meta_content_scope: group
    - match: '\)'
      scope: close
      pop: true
    - include: main
  comment:
    - meta_scope: comment
    - match: '\n'
      pop: true
  string:
    - meta_scope: string
    - clear_scopes: 1
    - match: '"'
      scope: unquote
      pop: true
    - match: '[0-9]'
      scope: digit
"##;

/// Everything else that definitions can do to scopes.
const RICH: &str = r##"%YAML 1.2
---
name: Rich
file_extensions: [rich]
scope: source.rich
variables:
  word: '[a-z]+'
contexts:
  prototype:
    - match: '~'
      scope: punctuation.tilde.rich
  main:
    - match: '({{word}})(\s*)(=)'
      captures:
        1: variable.name.rich
        2: text.space.rich
        3: keyword.operator.rich
    - match: '(?=\{)'
      push: [block-end, block]
    - match: '<<'
      scope: keyword.heredoc.rich
      push:
        - meta_scope: string.heredoc.rich
        - meta_include_prototype: false
        - match: '>>'
          pop: true
    - match: '/\*'
      scope: comment.begin.rich
      push: comments
    - match: '@'
      set: shouting
      scope: keyword.set.rich
    - match: '\$'
      scope: meta.embed.rich
      embed: scope:source
      embed_scope: embedded.toy
      escape: '\$|;'
      escape_captures:
        0: punctuation.escape.rich
    - match: '[^\x00-\x7F]'
      scope: constant.wide.rich
    - match: '$'
      scope: invisible.end.rich
    - match: '%'
      push: missing
  block:
    - meta_scope: meta.block.rich
    - match: '\{'
      scope: punctuation.block.begin.rich
      set:
        - meta_scope: meta.inner.rich
        - meta_content_scope: meta.inner.content.rich
        - match: '(?=\})'
          pop: true
        - include: main
  block-end:
    - clear_scopes: true
    - meta_content_scope: meta.closing.rich
    - match: '\}'
      scope: punctuation.block.end.rich
      pop: true
  comments:
    - clear_scopes: 1
    - meta_scope: comment.block.rich
    - match: '/\*'
      push: comments
    - match: '\*/'
      pop: true
  shouting:
    - meta_scope: meta.shouting.rich
    - match: '{{word}}'
      scope: string.loud.rich string.quiet.rich
    - match: '!'
      set: main
"##;

pub fn with_own_syntaxes() -> SyntaxSet {
    let dir = own_syntaxes_dir();
    let mut builder = SyntaxSet::load_defaults_newlines().into_builder();
    builder.add_from_folder(&dir, true).unwrap();
    fs::remove_dir_all(&dir).unwrap();
    builder.build()
}

fn own_syntaxes_dir() -> PathBuf {
    let dir = std::env::temp_dir().join(format!("scribe-verif-{}-own", std::process::id()));
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).unwrap();
    fs::write(dir.join("toy.sublime-syntax"), TOY).unwrap();
    fs::write(dir.join("rich.sublime-syntax"), RICH).unwrap();
    dir
}

/// What the parser says about every line, given definitions that don't come from the workspace: code point offsets at which the scopes change, and how.
/// There's no telling once it fails, which is at a line without (the first that's missing).
pub fn events(text: &str, def: &SyntaxReference, set: &SyntaxSet) -> Value {
    let mut parser = ParseState::new(def);
    let mut lines: Vec<&str> = text.split_inclusive('\n').collect();
    if text.is_empty() || text.ends_with('\n') {
        lines.push("");
    }
    let mut result = Vec::new();
    for line in lines {
        let mut ops = Vec::new();
        let parsed = match parser.parse_line(line, set) {
            Ok(parsed) => parsed,
            Err(_) => break,
        };
        for (at, op) in parsed {
            let (k, n, s) = match op {
                ScopeStackOp::Push(scope) => ("push", 0, scope.build_string()),
                ScopeStackOp::Pop(n) => ("pop", n, String::new()),
                ScopeStackOp::Clear(ClearAmount::TopN(n)) => ("clear", n, String::new()),
                ScopeStackOp::Clear(ClearAmount::All) => ("clear", 1_000_000, String::new()),
                ScopeStackOp::Restore => ("restore", 0, String::new()),
                ScopeStackOp::Noop => ("noop", 0, String::new()),
            };
            ops.push(json!({"at": line[..at].chars().count(), "k": k, "n": n, "s": s}));
        }
        result.push(Value::Array(ops));
    }
    Value::Array(result)
}

pub fn token(t: &Token) -> Value {
    match t {
        Token::Newline => json!({"n": true, "v": [], "p": [0, 0], "s": []}),
        Token::Lexeme(l) => json!({
            "n": false,
            "v": cps(l.value),
            "p": [l.position.line, l.position.offset],
            "s": l.scope.as_slice().iter().map(|s| s.build_string()).collect::<Vec<_>>(),
        }),
    }
}

const FRAGMENTS: &[&str] = &[
    "fn ", "struct ", "Foo ", "{", "}", "(", ")", "[", "]", ";", ": ", " = ", "// ", "# ", "/* ", " */", "\"", "'", "`", "\\n", "\\",
    "1", "3.14", "0xff", "true", "if ", "else", "for ", "while ", "def ", "class ", "end", "import ", "return ", "let ", "var ",
    "<div>", "</div>", "<script>", "</script>", "<style>", "</style>", "<?php ", "?>", "<% ", " %>", "<!-- ", " -->", "&amp;", "<a href=\"x\">",
    "@media ", "color: red", "#id", ".cls", "* item", "- ", "```", "```rust", "**b**", "_i_", "[l](u)", "| a | b |", "> ", "===", "---", "## h",
    "SELECT * FROM t", "--", "$x", "${y}", "$(z)", "<<EOF", "EOF", "%w(a b)", ":sym", "=>", "->", "|x|", "::", "&&", "||", "!", "?", ",", ".",
    "a", "bc", "x = 1", "  ", "\t", "é", "中", "e\u{301}", "1\u{301}", "\u{301}", "😀", "👩\u{200d}👧", "🇨🇦", "\u{feff}", "\0", "क\u{94d}ष", "~", "\r",
];
const BREAKS: &[&str] = &["\n", "\n", "\n", "\r\n", "\n\n"];
/// Means something to the definitions of our own.
const OWN: &[&str] = &[
    "(", ")", "#", "\"", "1", "23", "a", "ab = ", "{", "}", "<<", ">>", "/*", "*/", "@", "!", "$", ";", "~", " ", "é", "中", "\u{301}", "1\u{301}",
    "\r", "😀", "%",
];

const SYNTAXES: &[&str] = &[
    "Rust", "Ruby", "Python", "HTML", "Markdown", "JavaScript", "CSS", "C", "C++", "PHP", "SQL", "YAML", "XML", "JSON", "Java", "Makefile",
    "Bourne Again Shell (bash)", "Haskell", "Perl", "LaTeX", "Lua", "Go", "HTML (Rails)", "Ruby on Rails", "Diff", "Batch File", "Lisp", "Scala",
    "Clojure", "Plain Text", "TOML", "R", "OCaml", "reStructuredText", "Textile", "Java Server Page (JSP)",
];

fn compose(rng: &mut Rng, own: bool, pieces: usize) -> String {
    (0..pieces)
        .map(|_| {
            if rng.chance(22) {
                *rng.pick(BREAKS)
            } else if own {
                *rng.pick(OWN)
            } else {
                *rng.pick(FRAGMENTS)
            }
        })
        .collect()
}

pub fn failure() -> Value {
    json!({"ok": false, "error": false, "parse": [], "tokens": []})
}

/// Iterates over a token set, recording what's returned. The set is left alone after a few tokens
/// to do something else.
fn iterate(set: &TokenSet, op: Value, parse: &Value, pause: usize, aside: impl FnOnce()) -> bool {
    record::step(&op, |event| {
        let mut tokens = Vec::new();
        let mut ok = true;
        let mut error = true;
        if let Ok(mut iter) = set.iter() {
            // Should it not end, or scopes pile up, this ends before memory does.
            let most = 400_000;
            let mut scopes = 0;
            let mut add = |t: Option<Token>| match t {
                Some(t) if scopes < most => {
                    tokens.push(token(&t));
                    if let Token::Lexeme(l) = t {
                        scopes += l.scope.len();
                    }
                    tokens.len() < most
                }
                _ => false,
            };
            let mut going = (0..pause).all(|_| add(iter.next()));
            aside();
            while going {
                going = add(iter.next());
            }
            // The end is the end.
            if iter.error.is_none() {
                add(iter.next());
                add(iter.next());
            }
            ok = tokens.len() < most;
            error = iter.error.is_some();
        }
        event.insert("error".into(), json!(error));
        event.insert("ok".into(), json!(ok));
        event.insert("parse".into(), parse.clone());
        event.insert("tokens".into(), Value::Array(tokens));
    })
}

/// A workspace that's used for all executions, since compiling definitions takes time.
pub fn workspace() -> Workspace {
    let dir = own_syntaxes_dir();
    let made = Workspace::new(Path::new("/"), Some(&dir));
    fs::remove_dir_all(&dir).unwrap();
    match made {
        Ok(ws) if ws.syntax_set.find_syntax_by_name("Toy").is_some() => ws,
        // That's not about tokens.
        _ => {
            let mut ws = Workspace::new(Path::new("/"), None).unwrap();
            ws.syntax_set = with_own_syntaxes();
            ws
        }
    }
}

pub fn run(name: &str, seed: u64, index: usize, ws: &mut Workspace, reference: &SyntaxSet) {
    while ws.current_buffer.is_some() {
        ws.close_current_buffer();
    }
    let large = name == "tokens-large";
    let huge = name == "tokens-huge";
    if large && index % 20 != 0 || index > 0 && !record::time_left() {
        return;
    }
    let mut rng = Rng::new(seed ^ ((index as u64) << 20) ^ 0x70C3);
    record::begin(&json!({"name": format!("{}-{}-{}", name, seed, index), "kind": "tokens"}));
    let own = name == "tokens-own" || huge || large && rng.chance(30);
    let known: Vec<&str> = SYNTAXES.iter().copied().filter(|s| ws.syntax_set.find_syntax_by_name(s).is_some()).collect();
    let syntax: &str = if huge { "Toy" } else if own { *rng.pick(&["Toy", "Rich", "Rich"]) } else { *rng.pick(&known) };
    let mut buffer = Buffer::new();
    buffer.syntax_definition = Some(ws.syntax_set.find_syntax_by_name(syntax).unwrap().clone());
    let n = if large { rng.within(80, 300) } else { rng.within(0, 14) };
    buffer.insert(compose(&mut rng, own, n));
    let long = large && rng.chance(60);
    if long {
        // A line that's longer than others by far.
        let length = *rng.pick(&[300, 1100, 4200, 9000, 17000]);
        buffer.cursor.move_to(Position { line: rng.below(3), offset: 0 });
        buffer.insert(format!("{}{}{}", compose(&mut rng, own, 2), "z".repeat(length), compose(&mut rng, own, 6)));
    }
    if huge {
        // More lines, or characters on one of them, than 16 bits can count.
        let n = 65536 + rng.below(300);
        buffer.cursor.move_to(Position { line: 0, offset: 0 });
        buffer.insert(match index % 2 {
            0 => "z\n".repeat(n / 8) + &"\n".repeat(n - n / 8) + "z (1)\nz",
            _ => "zé".repeat(n / 2) + "(1)",
        });
    }
    ws.add_buffer(buffer);

    let rounds = if long || huge { 1 } else { rng.within(1, 4) };
    for _ in 0..rounds {
        let change = compose(&mut rng, own, 2);
        let (erase, pause) = (rng.chance(30), rng.below(6));
        if !rounds_of(ws, reference, &change, erase, pause) {
            return;
        }
        // The next round is about what the document is by then.
        let buffer = ws.current_buffer.as_mut().unwrap();
        let at = rng.below(3);
        buffer.cursor.move_to(Position { line: at, offset: rng.below(4) });
        if rng.chance(40) {
            // Hardly any different.
            buffer.delete();
            buffer.insert(*rng.pick(&["(", "\"", "#", "1", "a", " ", "\n"]));
            continue;
        }
        let n = rng.within(1, 5);
        buffer.insert(compose(&mut rng, own, n));
        if rng.chance(30) {
            buffer.delete();
        }
    }
    record::end();
}

/// The current buffer's tokens are obtained once, and iterated over three times, with an edit half
/// way through the second time.
fn rounds_of(ws: &Workspace, reference: &SyntaxSet, change: &str, erase: bool, pause: usize) -> bool {
    let buffer = ws.current_buffer.as_ref().unwrap();
    let text = buffer.data();
    let def = buffer.syntax_definition.as_ref().unwrap();
    let op = |again: bool| json!({"op": "tokens", "syn": def.name, "t": cps(&text), "again": again});
    let parse = events(&text, reference.find_syntax_by_name(&def.name).unwrap(), reference);
    let data = buffer.cursor.data.clone();
    let tokens = match ws.current_buffer_tokens() {
        Ok(tokens) => tokens,
        Err(_) => {
            record::step(&op(false), |event| {
                event.extend(failure().as_object().unwrap().clone());
            });
            return true;
        }
    };
    iterate(&tokens, op(false), &parse, usize::MAX, || ())
        && iterate(&tokens, op(true), &parse, pause, || {
            let mut data = data.borrow_mut();
            if erase {
                data.delete(&Range::new(Position { line: 0, offset: 0 }, Position { line: 1, offset: 0 }));
            }
            data.insert(change, &Position { line: 0, offset: 0 });
        })
        // There can be many iterations at a time, of this and of other documents.
        && {
            let other = TokenSet::new(change.repeat(3), def, &ws.syntax_set);
            iterate(&tokens, op(true), &parse, pause, || {
                for set in &[&other, &tokens] {
                    if let Ok(iter) = set.iter() {
                        assert!(iter.take(pause + 3).count() < usize::MAX);
                    }
                }
            })
        }
}

/// Goes through the given iterations once more.
pub fn script(execution: &Value, ws: &mut Workspace, reference: &SyntaxSet) {
    record::begin(&json!({"name": "script", "kind": "tokens"}));
    for op in execution["ops"].as_array().unwrap() {
        if op["again"] == true {
            continue;
        }
        let mut buffer = Buffer::new();
        buffer.syntax_definition = ws.syntax_set.find_syntax_by_name(op["syn"].as_str().unwrap()).cloned();
        buffer.insert(from_cps(&op["t"]));
        ws.add_buffer(buffer);
        if !rounds_of(ws, reference, "(\"x", false, 2) {
            return;
        }
    }
    record::end();
}

/// What's wrong with the tokens of a text, given the position and scopes of each of its characters.
pub fn judge(text: &str, positions: &[Value], scopes: &[Value], def: &SyntaxReference, set: &SyntaxSet) -> Vec<String> {
    let mut facts = Vec::new();
    let mut at = 0;
    let chars: Vec<char> = text.chars().collect();
    let tokens = TokenSet::new(text.into(), def, set);
    let mut iter = match tokens.iter() {
        Ok(iter) => iter,
        Err(_) => return vec!["tokens".into(), "scopes".into()],
    };
    for t in iter.by_ref().take(chars.len() * 10 + 100) {
        match t {
            Token::Newline => {
                if chars.get(at) != Some(&'\n') {
                    facts.push("tokens".into());
                    return facts;
                }
                at += 1;
            }
            Token::Lexeme(l) => {
                let value: Vec<char> = l.value.chars().collect();
                if value.contains(&'\n') || chars.get(at..at + value.len()) != Some(&value[..]) {
                    facts.push("tokens".into());
                    return facts;
                }
                if !value.is_empty() && json!([l.position.line, l.position.offset]) != positions[at] {
                    facts.push("tokens".into());
                }
                let stack = json!(l.scope.as_slice().iter().map(|s| s.build_string()).collect::<Vec<_>>());
                if (at..at + value.len()).any(|i| scopes[i] != stack) {
                    facts.push("scopes".into());
                }
                at += value.len();
            }
        }
    }
    if at != chars.len() || iter.error.is_some() {
        facts.push("tokens".into());
    }
    // Iterating again is no different.
    let twice: Option<Vec<Vec<Value>>> =
        (0..2).map(|_| tokens.iter().ok().map(|i| i.take(chars.len() * 10 + 100).map(|t| token(&t)).collect())).collect();
    if twice.map(|v| v[0] != v[1]).unwrap_or(true) {
        facts.push("tokens.again".into());
    }
    facts
}
