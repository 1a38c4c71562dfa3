use std::any::Any;
use std::cell::RefCell;

thread_local! {
    static LAST: RefCell<String> = RefCell::new(String::new());
    static PANIC_AT: RefCell<String> = RefCell::new(String::new());
}
/// the input the current case is about, for reports about panics
pub fn note_input(s: &str) {
    LAST.with(|l| {
        let mut l = l.borrow_mut();
        l.clear();
        l.push_str(s);
    })
}
pub fn last_input() -> String {
    LAST.with(|l| l.borrow().clone())
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_AT.with(|p| *p.borrow_mut() = at);
    }));
}
pub fn panic_text(e: &Box<dyn Any + Send>) -> String {
    let m = e
        .downcast_ref::<String>()
        .cloned()
        .or(e.downcast_ref::<&str>().map(|x| x.to_string()))
        .unwrap_or("?".into());
    format!("{} ({})", m, PANIC_AT.with(|p| p.borrow().clone()))
}
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| panic_text(&e))
}
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
