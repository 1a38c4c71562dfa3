//! C16: histories of the language server against a fresh server.
use super::{bad, Bad, Case, Check, Probe, Res};
use crate::rng::Rng;
use crate::{texts, util};
use lsp_server::{Connection, Message, Notification, Request, RequestId, Response};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::path::Path;
use std::sync::Arc;
use std::time::Duration;

pub const C16: Check = Check {
    id: "C16",
    quick: 6_000,
    thorough: 60_000,
    rule: "random histories of 3 to 12 open, change and close notifications over four documents that import each other or files on disk, mixed with every \
           kind of request (also about documents that are not open, and of unknown methods); after every notification the last published diagnostics of \
           every open document, and every answer, are compared with those of a fresh server that opens the current texts; non-trivial: at least one \
           document is closed or changed while another one imports it",
    case: c16,
    probes: c16_probes,
};

const NAMES: [&str; 4] = ["a", "b", "c", "d"];
type Disk = HashMap<String, String>;

fn url(d: usize) -> String {
    format!("file:///p/{}.tic", NAMES[d])
}

struct Server {
    conn: Option<Connection>,
    thread: Option<std::thread::JoinHandle<()>>,
    next: i32,
    /// the last list published for each document
    published: BTreeMap<String, Value>,
    log: String,
}
impl Server {
    fn start(disk: &Arc<Disk>) -> Result<Server, Bad> {
        let (client, server) = Connection::memory();
        let disk = disk.clone();
        let read = Arc::new(move |p: &Path| {
            let p = p.to_str().unwrap_or("");
            disk.get(p).cloned().ok_or_else(|| std::io::ErrorKind::NotFound.into())
        });
        let thread = std::thread::Builder::new().stack_size(64 << 20).spawn(move || lspx::vx_run(server, read)).unwrap();
        let mut s = Server { conn: Some(client), thread: Some(thread), next: 0, published: BTreeMap::new(), log: String::new() };
        s.request("initialize", json!({"capabilities": {}}))?;
        s.notify("initialized", json!({}))?;
        Ok(s)
    }
    fn send(&mut self, m: Message) -> Result<(), Bad> {
        let log = self.log.clone();
        self.conn.as_ref().unwrap().sender.send(m).map_err(|_| bad(&log, "the server", "still running", "stopped"))
    }
    fn take(&mut self) -> Result<Message, Bad> {
        let log = self.log.clone();
        self.conn
            .as_ref()
            .unwrap()
            .receiver
            .recv_timeout(Duration::from_secs(10))
            .map_err(|e| bad(&log, "the response to a request", "one response", format!("none ({})", e)))
    }
    fn publish(&mut self, n: Notification) {
        if n.method == "textDocument/publishDiagnostics" {
            let u = n.params["uri"].as_str().unwrap_or("").to_owned();
            self.published.insert(u, n.params["diagnostics"].clone());
        }
    }
    fn notify(&mut self, method: &str, params: Value) -> Result<(), Bad> {
        self.send(Message::Notification(Notification { method: method.into(), params }))
    }
    /// sends a request and waits for its response; anything before it is a notification
    fn request(&mut self, method: &str, params: Value) -> Result<Response, Bad> {
        self.next += 1;
        let id: RequestId = self.next.into();
        self.send(Message::Request(Request { id: id.clone(), method: method.into(), params }))?;
        loop {
            match self.take()? {
                Message::Notification(n) => self.publish(n),
                Message::Response(r) if r.id == id => return Ok(r),
                Message::Response(r) => {
                    return Err(bad(&self.log, "responses", format!("one, to request {}", id), format!("another one to request {}", r.id)))
                }
                Message::Request(r) => return Err(bad(&self.log, "messages of the server", "no request", r.method)),
            }
        }
    }
    fn open(&mut self, d: usize, text: &str) -> Result<(), Bad> {
        self.notify("textDocument/didOpen", json!({"textDocument": {"uri": url(d), "languageId": "tic", "version": 1, "text": text}}))
    }
    /// waits until everything sent before has been handled
    fn settle(&mut self) -> Result<(), Bad> {
        let r = self.request("vx/barrier", json!({}))?;
        if r.error.is_none() {
            return Err(bad(&self.log, "the response to an unknown request", "an error", format!("{:?}", r.result)));
        }
        Ok(())
    }
    fn stop(mut self) -> Result<(), Bad> {
        let log = self.log.clone();
        self.request("shutdown", Value::Null)?;
        self.notify("exit", Value::Null)?;
        // nothing but notifications may follow
        loop {
            match self.conn.as_ref().unwrap().receiver.recv_timeout(Duration::from_secs(10)) {
                Ok(Message::Response(r)) => return Err(bad(&log, "responses", "one for each request", format!("a second one to request {}", r.id))),
                Ok(_) => (),
                Err(_) => break,
            }
        }
        self.conn = None;
        match self.thread.take().unwrap().join() {
            Ok(()) => Ok(()),
            Err(e) => Err(bad(&log, "the server", "stops normally", util::panic_text(&e))),
        }
    }
}
impl Drop for Server {
    fn drop(&mut self) {
        self.conn = None;
    }
}

/// a server that only ever saw the current texts
fn fresh(disk: &Arc<Disk>, open: &BTreeMap<usize, String>) -> Result<Server, Bad> {
    let mut s = Server::start(disk)?;
    s.log = format!("(fresh server) {}", show(open));
    for (d, t) in open {
        s.open(*d, t)?;
    }
    s.settle()?;
    Ok(s)
}
fn show(open: &BTreeMap<usize, String>) -> String {
    open.iter().map(|(d, t)| format!("[{}.tic] {} ", NAMES[*d], t)).collect()
}

fn body(r: &mut Rng) -> String {
    let v = |r: &mut Rng| *r.pick(&["x", "y", "z", "w"]);
    let mut s = String::new();
    for _ in 0..r.below(4) {
        let n = v(r);
        let e = if r.chance(3, 4) { "export " } else { "" };
        match r.below(6) {
            0 => s.push_str(&format!("{}type T = {}A int | {}B;\n", e, e, e)),
            1 => s.push_str(&format!("{}let {} : bool = true;\n", e, n)),
            2 => s.push_str(&format!("{}let {} : int = {};\n", e, n, r.below(100))),
            3 => s.push_str(&format!("{}let {} : int = {} + 1;\n", e, n, v(r))),
            4 => s.push_str(&format!("let {} : string = \"\u{e9}{}\";\n", n, r.below(10))),
            _ => s.push_str(&format!("{}let {} : int -> int = \\y -> y;\n", e, n)),
        }
    }
    s
}
fn doc(r: &mut Rng) -> String {
    if r.chance(1, 12) {
        return texts::any(r).0;
    }
    let mut s = String::new();
    for _ in 0..r.below(4) {
        let t = if r.chance(1, 12) { "nowhere" } else { *r.pick(&NAMES) };
        if r.chance(1, 2) {
            s.push_str(&format!("import {} from \"{}.tic\";\n", t, t));
            let n = *r.pick(&["x", "y", "z"]);
            let ty = *r.pick(&["int", "bool", "int -> int"]);
            s.push_str(&format!("export let {}{} : {} = {}.{};\n", t, n, ty, t, n));
        } else {
            s.push_str(&format!("import ({}) from \"{}.tic\";\n", r.pick(&["x", "y", "x, y", "T", "z"]), t));
        }
    }
    s.push_str(&body(r));
    if r.chance(1, 10) {
        s = texts::mutate(r, &s);
    }
    s
}
const METHODS: [&str; 6] = [
    "textDocument/semanticTokens/full",
    "textDocument/definition",
    "textDocument/declaration",
    "textDocument/references",
    "textDocument/hover",
    "textDocument/completion",
];
fn ask(r: &mut Rng, d: usize) -> (String, Value) {
    let m = *r.pick(&METHODS);
    let mut p = json!({"textDocument": {"uri": url(d)}});
    if m != METHODS[0] {
        p["position"] = json!({"line": r.below(6), "character": r.below(40)});
    }
    if m.ends_with("references") {
        p["context"] = json!({"includeDeclaration": r.chance(1, 2)});
    }
    (m.to_owned(), p)
}
fn sorted(mut r: Option<Value>, m: &str) -> Option<Value> {
    // completions and references are lists in no particular order
    if m.ends_with("completion") || m.ends_with("references") {
        if let Some(Value::Array(a)) = &mut r {
            a.sort_by_key(|x| x.to_string());
        }
    }
    r
}

fn c16(seed: u64, i: u64) -> Res {
    let mut r = Rng::new(seed.wrapping_add(i.wrapping_mul(7919)), "C16");
    let mut disk = Disk::new();
    for d in 0..4 {
        if r.chance(1, 2) {
            disk.insert(format!("/p/{}.tic", NAMES[d]), doc(&mut r));
        }
    }
    let disk = Arc::new(disk);
    let mut s = Server::start(&disk)?;
    let mut open: BTreeMap<usize, String> = BTreeMap::new();
    let mut log = String::new();
    for d in 0..4 {
        if let Some(t) = disk.get(&format!("/p/{}.tic", NAMES[d])) {
            log.push_str(&format!("-- on disk: {}.tic\n{}\n", NAMES[d], t));
        }
    }
    let mut interesting = false;
    for _ in 0..3 + r.below(10) {
        let d = r.below(4);
        let imported = open.iter().any(|(k, t)| *k != d && t.contains(&format!("\"{}.tic\"", NAMES[d])));
        match (open.contains_key(&d), r.below(4)) {
            (false, _) => {
                let t = doc(&mut r);
                log.push_str(&format!("-- open {}.tic\n{}\n", NAMES[d], t));
                s.log = log.clone();
                s.open(d, &t)?;
                open.insert(d, t);
            }
            (true, 0) => {
                interesting |= imported;
                log.push_str(&format!("-- close {}.tic\n", NAMES[d]));
                s.log = log.clone();
                s.notify("textDocument/didClose", json!({"textDocument": {"uri": url(d)}}))?;
                open.remove(&d);
            }
            (true, _) => {
                interesting |= imported;
                let mut changes = Vec::new();
                let n = if r.chance(1, 10) { 2 + r.below(2) } else { 1 };
                let mut t = String::new();
                for _ in 0..n {
                    t = match r.below(4) {
                        0 => open[&d].clone(),
                        1 => texts::mutate(&mut r, &open[&d]),
                        _ => doc(&mut r),
                    };
                    changes.push(json!({ "text": t }));
                    log.push_str(&format!("-- change {}.tic{}\n{}\n", NAMES[d], if n > 1 { " (one of several in a notification)" } else { "" }, t));
                }
                s.log = log.clone();
                s.notify("textDocument/didChange", json!({"textDocument": {"uri": url(d), "version": 2}, "contentChanges": changes}))?;
                open.insert(d, t);
            }
        }
        util::note_input(&log);
        s.settle()?;
        let mut f = fresh(&disk, &open)?;
        for (d, _) in &open {
            let u = url(*d);
            let (a, b) = (f.published.get(&u), s.published.get(&u));
            if a != b {
                return Err(bad(&log, &format!("the diagnostics last published for {}", u), format!("{:?}", a), format!("{:?}", b)));
            }
        }
        for d in 0..4 {
            if !open.contains_key(&d) {
                if let Some(v) = s.published.get(&url(d)) {
                    if v.as_array().map(|a| !a.is_empty()).unwrap_or(true) {
                        return Err(bad(&log, &format!("the diagnostics last published for the closed {}", url(d)), "none", v.to_string()));
                    }
                }
            }
        }
        for _ in 0..r.below(4) {
            let d = r.below(4);
            let (m, p) = ask(&mut r, d);
            log.push_str(&format!("-- request {} {}\n", m, p));
            s.log = log.clone();
            util::note_input(&log);
            let a = f.request(&m, p.clone())?;
            let b = s.request(&m, p)?;
            if b.result.is_some() == b.error.is_some() && b.error.is_some() {
                return Err(bad(&log, "the response", "a result or an error", "both"));
            }
            let (x, y) = (sorted(a.result, &m), sorted(b.result, &m));
            if x != y || a.error.is_some() != b.error.is_some() {
                return Err(bad(&log, &format!("the answer to {}", m), format!("{:?} {:?}", x, a.error), format!("{:?} {:?}", y, b.error)));
            }
        }
        f.stop()?;
    }
    s.stop()?;
    Ok(Case { input: log, nontrivial: interesting, tags: vec![] })
}

fn c16_probes() -> Vec<Probe> {
    vec![
        Probe::new("closing an imported document", || {
            let mut disk = Disk::new();
            disk.insert("/p/b.tic".into(), "export let x : int = 1;".into());
            let mut s = Server::start(&Arc::new(disk))?;
            s.log = "open a (imports x from b), open b (without x), close b; b on disk exports x".into();
            let text = "import (x) from \"b.tic\"; export let y : int = x;";
            s.open(0, text)?;
            s.settle()?;
            s.open(1, "export let z : int = 1;")?;
            s.settle()?;
            let n = s.published[&url(0)].as_array().map(|a| a.len());
            if n == Some(0) || n.is_none() {
                return Err(bad(&s.log, "diagnostics of a while b has no x", "some", format!("{:?}", n)));
            }
            s.notify("textDocument/didClose", json!({"textDocument": {"uri": url(1)}}))?;
            s.settle()?;
            let n = s.published[&url(0)].as_array().map(|a| a.len());
            if n != Some(0) {
                return Err(bad(&s.log, "diagnostics of a after b is closed", "0", format!("{:?}", n)));
            }
            s.stop()
        }),
        Probe::new("requests about documents that are not open", || {
            let mut r = Rng::new(1, "C16p");
            let mut s = Server::start(&Arc::new(Disk::new()))?;
            for _ in 0..60 {
                let (m, p) = ask(&mut r, 0);
                s.log = format!("{} {}", m, p);
                s.request(&m, p)?;
            }
            s.stop()
        }),
    ]
}
