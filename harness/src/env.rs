//! The outside world of a buffer under test: a scratch directory, symbolic names for the paths in
//! it, and fault injection. Everything happens within the scratch directory.

use serde_json::{json, Value};
use std::cell::RefCell;
use std::fs;
use std::path::{Path, PathBuf};

/// Stands for usize::MAX in logs, since TLC's integers are 32 bits wide. Numbers around it, and
/// around those at which narrower integers overflow, are shifted along, keeping their order.
pub const HUGE: u64 = 1_000_000_000;
/// Stands for 2^32.
pub const WORD: u64 = 500_000_000;
const ZONES: &[(u64, u64)] = &[(400_000_000, 1 << 31), (WORD, 1 << 32), (600_000_000, 1 << 63), (HUGE, u64::MAX)];
const REACH: u64 = 100_000;

pub fn cps(s: &str) -> Value {
    Value::Array(s.chars().map(|c| json!(c as u32)).collect())
}

pub fn from_cps(v: &Value) -> String {
    v.as_array()
        .expect("code points")
        .iter()
        .map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap())
        .collect()
}

pub fn num(n: usize) -> u64 {
    let n = n as u64;
    for &(logged, actual) in ZONES {
        if n >= actual - REACH && n - (actual - REACH) <= 2 * REACH {
            return logged - REACH + (n - (actual - REACH));
        }
    }
    // None of the others are ever used.
    n.min(300_000_000)
}

pub fn denum(n: u64) -> usize {
    for &(logged, actual) in ZONES {
        if n >= logged - REACH && n <= logged + REACH {
            return (actual - REACH).saturating_add(n - (logged - REACH)) as usize;
        }
    }
    n as usize
}

pub struct Env {
    /// Canonical path of the scratch directory.
    pub dir: PathBuf,
    /// The spelling that was last assigned to a buffer's path, and what it's the path of.
    assigned: RefCell<Option<(PathBuf, String)>>,
}

/// Files nothing has any business with, whose names are those that others may be saved under
/// temporarily, or as a backup.
const BYSTANDERS: &[&str] = &[
    "A.tmp", "B.tmp", "A.temp", "A.bak", "A~", "A.orig", "A.new", "A.swp", ".A.swp", ".A.tmp", "A.save", ".A", "tmp", "dir.txt", "A.lock",
];
const BYSTANDING: &str = "nothing to see here\n";

impl Drop for Env {
    fn drop(&mut self) {
        let _ = std::env::set_current_dir("/");
        let _ = fs::remove_dir_all(&self.dir);
    }
}

impl Env {
    pub fn new(label: &str) -> Env {
        let base = std::env::temp_dir().canonicalize().unwrap();
        let dir = base.join(format!("scribe-verif-{}-{}", std::process::id(), label));
        let _ = fs::remove_dir_all(&dir);
        fs::create_dir_all(dir.join("dir")).unwrap();
        std::os::unix::fs::symlink("/dev/full", dir.join("full")).unwrap();
        std::os::unix::fs::symlink(dir.join("A"), dir.join("link-A")).unwrap();
        std::os::unix::fs::symlink(dir.join("B"), dir.join("link-B")).unwrap();
        for name in BYSTANDERS {
            fs::write(dir.join(name), BYSTANDING).unwrap();
        }
        // Relative paths are relative to the scratch directory.
        std::env::set_current_dir(&dir).unwrap();
        Env { dir, assigned: RefCell::new(None) }
    }

    /// The path that a symbolic name stands for.
    pub fn path(&self, name: &str) -> PathBuf {
        match name {
            "lost" => self.dir.join("missing").join("file"),
            // The device is reached through a link so that nothing outside of the scratch
            // directory is ever named.
            other => self.dir.join(other),
        }
    }

    /// One of several ways to spell the path of a file.
    pub fn spelled(&self, name: &str, spelling: u64) -> PathBuf {
        match (name, spelling) {
            ("A", 1) | ("B", 1) => self.dir.join("dir").join("..").join(name),
            ("A", 2) | ("B", 2) => self.dir.join(format!("link-{}", name)),
            ("A", 3) | ("B", 3) => self.dir.join(".").join(name),
            ("A", 4) | ("B", 4) => PathBuf::from(name),
            _ => self.path(name),
        }
    }

    /// A path to assign to a buffer.
    pub fn assign(&self, name: &str, spelling: u64) -> PathBuf {
        let path = self.spelled(name, spelling);
        *self.assigned.borrow_mut() = Some((path.clone(), name.into()));
        path
    }

    /// A buffer was opened, so that its path is the canonical one.
    pub fn opened(&self) {
        *self.assigned.borrow_mut() = None;
    }

    pub fn name(&self, path: Option<&Path>) -> String {
        match path {
            None => "none".into(),
            Some(p) => {
                if let Some((assigned, name)) = &*self.assigned.borrow() {
                    return if p.as_os_str() == assigned.as_os_str() {
                        name.clone()
                    } else {
                        format!("other:{}", p.display())
                    };
                }
                for n in ["A", "B", "lost", "dir", "full"] {
                    if p.as_os_str() == self.path(n).as_os_str() {
                        return n.into();
                    }
                }
                format!("other:{}", p.display())
            }
        }
    }

    pub fn file(&self, name: &str) -> Value {
        match fs::read(self.dir.join(name)) {
            Err(_) => json!({"k": "absent", "t": []}),
            Ok(bytes) => match String::from_utf8(bytes) {
                Ok(s) => json!({"k": "text", "t": cps(&s)}),
                Err(_) => json!({"k": "binary", "t": []}),
            },
        }
    }

    /// Contents of both files. Anything else that turns up in the
    /// directory is reported in place of the first one.
    pub fn disk(&self) -> Value {
        let mut a = self.file("A");
        let known = ["A", "B", "dir", "full", "link-A", "link-B"];
        for link in ["A", "B"] {
            let path = self.dir.join(format!("link-{}", link));
            if fs::read_link(&path).map(|to| to != self.dir.join(link)).unwrap_or(true) {
                a = json!({"k": "stray", "t": []});
                let _ = fs::remove_file(&path);
                let _ = std::os::unix::fs::symlink(self.dir.join(link), &path);
            }
        }
        let mut bystanders = 0;
        for entry in fs::read_dir(&self.dir).unwrap().flatten() {
            let name = entry.file_name().to_string_lossy().into_owned();
            if BYSTANDERS.contains(&name.as_str()) {
                // Whatever changes them is unlikely to write just as much.
                if entry.metadata().map(|m| m.len()).ok() == Some(BYSTANDING.len() as u64) {
                    bystanders += 1;
                }
            } else if !known.contains(&name.as_str()) {
                a = json!({"k": "stray", "t": []});
                let p = entry.path();
                let _ = fs::remove_file(&p);
                let _ = fs::remove_dir_all(&p);
            }
        }
        if bystanders < BYSTANDERS.len() {
            a = json!({"k": "stray", "t": []});
            for name in BYSTANDERS {
                let _ = fs::write(self.dir.join(name), BYSTANDING);
            }
        }
        if fs::read_dir(self.dir.join("dir")).map(|d| d.count()).unwrap_or(1) != 0 {
            a = json!({"k": "stray", "t": []});
            let _ = fs::remove_dir_all(self.dir.join("dir"));
            let _ = fs::create_dir(self.dir.join("dir"));
        }
        json!({"A": a, "B": self.file("B")})
    }

    pub fn set_file(&self, name: &str, v: &Value) {
        let path = self.dir.join(name);
        match v["k"].as_str().unwrap() {
            "absent" => {
                let _ = fs::remove_file(path);
            }
            "binary" => fs::write(path, b"ok so far\n\xff\xfe\x80").unwrap(),
            "text" => fs::write(path, from_cps(&v["t"])).unwrap(),
            other => panic!("can't set up {}", other),
        }
    }

    pub fn set_disk(&self, v: &Value) {
        for name in ["A", "B"] {
            self.set_file(name, &v[name]);
        }
    }
}

/// Runs a function with a limit on the size of files that this process can write.
pub fn with_file_size_limit<T>(limit: i64, f: impl FnOnce() -> T) -> T {
    if limit < 0 {
        return f();
    }
    unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
        let mut old: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_FSIZE, &mut old);
        let new = libc::rlimit { rlim_cur: limit as libc::rlim_t, rlim_max: old.rlim_max };
        libc::setrlimit(libc::RLIMIT_FSIZE, &new);
        let result = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        libc::setrlimit(libc::RLIMIT_FSIZE, &old);
        match result {
            Ok(v) => v,
            Err(e) => std::panic::resume_unwind(e),
        }
    }
}
