//! Remembers the text of the last panic of each thread.
use std::cell::RefCell;

thread_local!(static LAST: RefCell<String> = const { RefCell::new(String::new()) });

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let text = format!("{}", info).replace('\n', " ");
        LAST.with(|l| *l.borrow_mut() = text);
    }));
}
pub fn last_panic() -> String {
    LAST.with(|l| l.borrow().clone())
}

