// Common part of the Rust drivers: command input, JSON output, storages.
use flatdata::{ResourceStorage, ResourceStorageError, StorageHandle};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::{BufRead, Write as _};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;

pub struct In {
    t: Vec<String>,
    i: usize,
}

impl In {
    pub fn of(text: &str) -> In {
        In { t: text.split_whitespace().map(|x| x.to_string()).collect(), i: 0 }
    }
    pub fn done(&self) -> bool {
        self.i >= self.t.len()
    }
    pub fn s(&mut self) -> String {
        if self.done() {
            eprintln!("DRIVER: command too short");
            std::process::exit(77);
        }
        self.i += 1;
        self.t[self.i - 1].clone()
    }
    pub fn n(&mut self) -> i128 {
        self.s().parse().unwrap()
    }
    pub fn bytes(&mut self) -> Vec<u8> {
        let v = self.s();
        (0..(v.len() - 1) / 2).map(|k| u8::from_str_radix(&v[1 + 2 * k..3 + 2 * k], 16).unwrap()).collect()
    }
}

#[derive(Default)]
pub struct Out {
    pub o: String,
}

impl Out {
    pub fn raw(&mut self, s: &str) {
        self.o.push_str(s)
    }
    pub fn num<T: Num>(&mut self, v: T) {
        write!(self.o, "{}", v.get()).unwrap()
    }
    pub fn opt<T: Num>(&mut self, v: Option<T>) {
        match v {
            None => self.raw("null"),
            Some(v) => self.num(v),
        }
    }
    pub fn str(&mut self, s: &str) {
        self.raw("\"");
        for c in s.bytes() {
            if c < 32 || c > 126 || c == b'"' || c == b'\\' {
                write!(self.o, "\\u00{:02x}", c).unwrap();
            } else {
                self.o.push(c as char);
            }
        }
        self.raw("\"");
    }
    pub fn hex(&mut self, b: &[u8]) {
        self.raw("\"");
        for c in b {
            write!(self.o, "{:02x}", c).unwrap();
        }
        self.raw("\"");
    }
    pub fn list<T>(&mut self, items: impl Iterator<Item = T>, mut f: impl FnMut(&mut Out, T)) {
        self.raw("[");
        for (i, x) in items.enumerate() {
            if i > 0 {
                self.raw(",");
            }
            f(self, x);
        }
        self.raw("]");
    }
}

pub trait Num {
    fn get(self) -> i128;
    fn put(v: i128) -> Self;
}
macro_rules! nums { ($($t:ty)*) => { $(impl Num for $t {
    fn get(self) -> i128 { self as i128 }
    fn put(v: i128) -> Self { v as $t }
})* } }
nums!(u8 i8 u16 i16 u32 i32 u64 i64);
impl Num for bool {
    fn get(self) -> i128 {
        self as i128
    }
    fn put(v: i128) -> Self {
        v != 0
    }
}

pub trait Row {
    fn dump(&self, o: &mut Out);
    fn fill(&mut self, i: &mut In);
}

/// All rows of a vector, read by index, iterated in both directions and debug-printed.
pub fn dump_rows<T: Row + flatdata::Struct + PartialEq>(o: &mut Out, rows: &[T]) {
    use flatdata::SliceExt;
    let mut a = Out::default();
    a.list(0..rows.len(), |o, i| rows[i].dump(o));
    let mut b = Out::default();
    b.list(rows.iter(), |o, x| x.dump(o));
    let mut back: Vec<&T> = rows.iter().rev().collect();
    back.reverse();
    let mut c = Out::default();
    c.list(back.iter(), |o, x| x.dump(o));
    let mut same = a.o == b.o && b.o == c.o;
    for x in rows {
        same = same && format!("{:?}", x).len() > 0 && x == x;
    }
    if rows.len() > 0 || !T::IS_OVERLAPPING_WITH_NEXT {
        let again = <&[T]>::from_bytes(rows.as_bytes()).unwrap();
        same = same && again.len() == rows.len() && again.as_ptr() == rows.as_ptr();
    }
    write!(o.o, "{{\"it\":{},\"n\":{},\"v\":{}}}", same, rows.len(), a.o).unwrap();
}

pub fn fill_vec<T: Row + flatdata::Struct>(v: &mut flatdata::Vector<T>, i: &mut In) {
    let n = i.n();
    for _ in 0..n {
        v.grow().fill(i);
    }
}

/// The multivector view as lists of (type index, row).
pub fn dump_multi<'a, Ts: flatdata::VariadicRefFactory + 'a>(
    o: &mut Out,
    m: &flatdata::MultiArrayView<'a, Ts>,
    f: fn(&mut Out, <Ts as flatdata::VariadicStruct<'a>>::Item),
) {
    let mut a = Out::default();
    a.list(0..m.len(), |o, i| o.list(m.at(i), f));
    let mut b = Out::default();
    b.list(m.iter(), |o, item| o.list(item, f));
    let mut back: Vec<_> = m.iter().rev().collect();
    back.reverse();
    let mut c = Out::default();
    c.list(back.into_iter(), |o, item| o.list(item, f));
    let half = m.len() / 2;
    let mut d = Out::default();
    d.list(m.slice(..half).iter().chain(m.slice(half..).iter()), |o, item| o.list(item, f));
    let _ = format!("{:?}", m);
    let same = a.o == b.o && b.o == c.o && c.o == d.o && m.is_empty() == (m.len() == 0) && m.iter().len() == m.len();
    write!(o.o, "{{\"it\":{},\"n\":{},\"v\":{}}}", same, m.len(), a.o).unwrap();
}

pub fn result<E: std::fmt::Debug>(o: &mut Out, r: Result<(), E>) {
    match r {
        Ok(()) => o.raw("true"),
        Err(e) => {
            o.raw("{\"error\":");
            o.str(&format!("{:?}", e));
            o.raw("}");
        }
    }
}

pub trait Builder {
    fn child(&self, res: &str) -> Result<Box<dyn Builder>, ResourceStorageError>;
    fn op(&mut self, op: &str, res: &str, i: &mut In, o: &mut Out);
}

pub type Open = fn(StorageHandle, &mut Out) -> Result<(), ResourceStorageError>;
pub type Build = fn(StorageHandle) -> Result<Box<dyn Builder>, ResourceStorageError>;

pub fn unknown(what: &str) -> ! {
    eprintln!("DRIVER: unknown {}", what);
    std::process::exit(77);
}

/// file:DIR, mem:DIR (the files of DIR written into a memory storage), tar:FILE[:DIR], or new
pub fn storage(spec: &str) -> Result<StorageHandle, std::io::Error> {
    let (kind, rest) = spec.split_at(spec.find(':').unwrap_or(spec.len()));
    let path = rest.trim_start_matches(':');
    Ok(match kind {
        "file" => flatdata::FileResourceStorage::new(path),
        "new" => flatdata::MemoryResourceStorage::new("/mem/root"),
        "mem" => {
            let s = flatdata::MemoryResourceStorage::new("/mem/root");
            fn copy(from: &Path, to: &StorageHandle) {
                for e in std::fs::read_dir(from).unwrap() {
                    let e = e.unwrap();
                    let name = e.file_name().into_string().unwrap();
                    if e.path().is_dir() {
                        copy(&e.path(), &to.subdir(&name));
                    } else {
                        let mut out = to.create_output_stream(&name).unwrap();
                        out.write_all(&std::fs::read(e.path()).unwrap()).unwrap();
                    }
                }
            }
            let handle: StorageHandle = s;
            if Path::new(path).is_dir() {
                copy(Path::new(path), &handle);
            }
            handle
        }
        "tar" => {
            let mut parts = path.splitn(2, ':');
            let s: StorageHandle = flatdata::TarArchiveResourceStorage::new(parts.next().unwrap())?;
            match parts.next() {
                Some(sub) if sub.len() > 0 => s.subdir(sub),
                _ => s,
            }
        }
        _ => unknown(spec),
    })
}

/// What is written to files below a directory is recorded, and fails: these stand in for the functions of the C library.
struct Hook {
    root: String,
    fds: BTreeMap<i32, String>,
    log: Vec<(char, String, i64, Vec<u8>)>,
    logging: bool,
    ops: u64,           // operations so far
    fail_at: u64,       // the first operation that fails, 0: none
    fail_calls: u64,    // failing operations, 0: all from there on
    interrupt: bool,    // writes are only interrupted
    short: usize,       // most bytes written at once, 0: any
}

static HOOK: std::sync::Mutex<Hook> = std::sync::Mutex::new(Hook {
    root: String::new(), fds: BTreeMap::new(), log: Vec::new(), logging: false, ops: 0, fail_at: 0, fail_calls: 0,
    interrupt: false, short: 0,
});

extern "C" {
    fn syscall(n: i64, ...) -> i64;
    fn __errno_location() -> *mut i32;
}

impl Hook {
    fn fails(&mut self, write: bool) -> bool {
        if self.interrupt && !write {
            return false;
        }
        self.ops += 1;
        let fails = self.fail_at > 0 && self.ops >= self.fail_at
            && (self.fail_calls == 0 || self.ops < self.fail_at + self.fail_calls);
        if fails {
            unsafe { *__errno_location() = if self.interrupt { 4 } else { 28 } };
        }
        fails
    }
}

fn opened(path: *const std::os::raw::c_char, flags: i32, mode: u32) -> i32 {
    let mut h = HOOK.lock().unwrap();
    let name = unsafe { std::ffi::CStr::from_ptr(path) }.to_string_lossy().into_owned();
    let name = if h.root.is_empty() { None } else { name.strip_prefix(h.root.as_str()).map(|x| x.to_string()) };
    let created = name.filter(|_| flags & 3 != 0);
    if created.is_some() && h.fails(false) {
        return -1;
    }
    let fd = unsafe { syscall(257, -100, path, flags, mode) } as i32;
    h.fds.remove(&fd);
    if let (Some(name), true) = (created, fd >= 0) {
        if h.logging {
            h.log.push(('c', name.clone(), 0, Vec::new()));
        }
        h.fds.insert(fd, name);
    }
    fd
}

#[no_mangle]
pub extern "C" fn open64(path: *const std::os::raw::c_char, flags: i32, mode: u32) -> i32 {
    opened(path, flags, mode)
}

#[no_mangle]
pub extern "C" fn open(path: *const std::os::raw::c_char, flags: i32, mode: u32) -> i32 {
    opened(path, flags, mode)
}

#[no_mangle]
pub extern "C" fn write(fd: i32, data: *const u8, n: usize) -> isize {
    let mut h = HOOK.lock().unwrap();
    let mut n = n;
    if let Some(name) = h.fds.get(&fd).cloned() {
        if h.fails(true) {
            return -1;
        }
        if h.short > 0 {
            n = n.min(h.short);
        }
        if h.logging {
            let at = unsafe { syscall(8, fd as i64, 0i64, 1i64) };
            h.log.push(('w', name, at, unsafe { std::slice::from_raw_parts(data, n) }.to_vec()));
        }
    }
    unsafe { syscall(1, fd as i64, data, n) as isize }
}

fn sought(fd: i32, at: i64, how: i32) -> i64 {
    let mut h = HOOK.lock().unwrap();
    if h.fds.contains_key(&fd) && h.fails(false) {
        return -1;
    }
    unsafe { syscall(8, fd as i64, at, how as i64) }
}

#[no_mangle]
pub extern "C" fn lseek64(fd: i32, at: i64, how: i32) -> i64 {
    sought(fd, at, how)
}

#[no_mangle]
pub extern "C" fn lseek(fd: i32, at: i64, how: i32) -> i64 {
    sought(fd, at, how)
}

fn hook_command(cmd: &str, i: &mut In, o: &mut Out) -> bool {
    if !["hook", "mark", "events"].contains(&cmd) {
        return false;
    }
    let mut h = HOOK.lock().unwrap();
    match cmd {
        "hook" => {
            h.root = i.s() + "/";
            h.fds.clear();
            h.log.clear();
            h.ops = 0;
            h.logging = i.n() != 0;
            h.fail_at = i.n() as u64;
            h.fail_calls = i.n() as u64;
            h.interrupt = i.n() != 0;
            h.short = i.n() as usize;
            o.raw("true");
        }
        "mark" => o.num(h.log.len() as u64),
        _ => {
            o.raw("[");
            o.num(h.ops);
            for e in &h.log {
                write!(o.o, ",[\"{}\",\"{}\",{},", e.0, e.1, e.2).unwrap();
                o.hex(&e.3);
                o.raw("]");
            }
            o.raw("]");
            h.root.clear();
            h.fds.clear();
        }
    }
    true
}

fn guarded(o: &mut Out, f: impl FnOnce(&mut Out)) {
    let mut tmp = Out::default();
    match catch_unwind(AssertUnwindSafe(|| f(&mut tmp))) {
        Ok(()) => o.raw(&tmp.o),
        Err(e) => {
            let text = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
            o.raw("{\"panic\":");
            o.str(&text.unwrap_or_default());
            o.raw("}");
        }
    }
}

/// What was to be used could not be created: passes the arguments, which are numbers or bytes.
pub fn skipped(i: &mut In, o: &mut Out) {
    while !i.done() && i.t[i.i].starts_with(|c: char| c.is_ascii_digit() || c == '-' || c == 'x') {
        i.i += 1;
    }
    o.raw("{\"error\":\"Skipped\"}");
}

fn open_archive(o: &mut Out, archives: &BTreeMap<&str, (Open, Build)>, path: &str, s: StorageHandle) {
    guarded(o, |o| {
        let mut tmp = Out::default();
        match (archives[path].0)(s, &mut tmp) {
            Ok(()) => {
                o.raw("{\"open\":true,\"data\":");
                o.raw(&tmp.o);
                o.raw("}");
            }
            Err(e) => {
                o.raw("{\"open\":false,\"error\":");
                let text = format!("{:?}", e);
                o.str(text.split(|c: char| !c.is_alphanumeric()).next().unwrap());
                o.raw(",\"text\":");
                o.str(&text);
                o.raw("}");
            }
        }
    })
}

fn program(i: &mut In, o: &mut Out, archives: &BTreeMap<&str, (Open, Build)>) {
    let mut stores: BTreeMap<String, StorageHandle> = BTreeMap::new();
    let mut builders: BTreeMap<String, Box<dyn Builder>> = BTreeMap::new();
    HOOK.lock().unwrap().root.clear();
    o.raw("[");
    let mut first = true;
    while !i.done() {
        if !first {
            o.raw(",");
        }
        first = false;
        let cmd = i.s();
        match cmd.as_str() {
            "storage" => {
                let name = i.s();
                match storage(&i.s()) {
                    Ok(s) => {
                        stores.insert(name, s);
                        o.raw("true");
                    }
                    Err(_) => o.raw("false"),
                }
            }
            "open" => {
                let a = i.s();
                let s = stores[&i.s()].clone();
                open_archive(o, archives, &a, s);
            }
            "builder" => {
                let name = i.s();
                let a = i.s();
                let s = stores[&i.s()].clone();
                guarded(o, |o| {
                    let r = (archives[a.as_str()].1)(s).map(|b| {
                        builders.insert(name, b);
                    });
                    result(o, r);
                });
            }
            "child" => {
                let name = i.s();
                let parent = i.s();
                let res = i.s();
                guarded(o, |o| {
                    if !builders.contains_key(&parent) {
                        return skipped(i, o);
                    }
                    let r = builders[&parent].child(&res);
                    result(o, r.map(|b| {
                        builders.insert(name, b);
                    }));
                });
            }
            "die" => std::process::abort(),
            _ if hook_command(&cmd, i, o) => {}
            _ => {
                let b = builders.get_mut(&i.s());
                let res = i.s();
                guarded(o, |o| match b {
                    Some(b) => b.op(&cmd, &res, i, o),
                    None => skipped(i, o),
                });
            }
        }
    }
    o.raw("]");
}

pub fn run(archives: BTreeMap<&str, (Open, Build)>, extra: fn(&str, &mut In, &mut Out)) {
    std::panic::set_hook(Box::new(|_| {}));
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let mut i = In { t: line.split(' ').filter(|s| s.len() > 0).map(|s| s.to_string()).collect(), i: 0 };
        let mut o = Out::default();
        match i.s().as_str() {
            "open" => {
                let a = i.s();
                o.raw("[");
                let mut first = true;
                while !i.done() {
                    if !first {
                        o.raw(",");
                    }
                    first = false;
                    match storage(&i.s()) {
                        Ok(s) => open_archive(&mut o, &archives, &a, s),
                        Err(_) => o.raw("{\"storage\":false}"),
                    }
                }
                o.raw("]");
            }
            "program" => program(&mut i, &mut o, &archives),
            other => extra(other, &mut i, &mut o),
        }
        println!("{}", o.o);
        std::io::stdout().flush().unwrap();
    }
}
