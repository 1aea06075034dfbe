//! Calls into the library under test. A panic there is a failure of the
//! property being checked, not of the harness.

use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use wavefront_obj::{mtl, obj};

thread_local! {
    static LAST: RefCell<String> = const { RefCell::new(String::new()) };
    static INSIDE: RefCell<bool> = const { RefCell::new(false) };
}

/// Keeps panics of the library quiet and remembers where they came from.
pub fn install_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let inside = INSIDE.with(|i| *i.borrow());
        if inside {
            LAST.with(|l| *l.borrow_mut() = info.to_string().replace('\n', " "));
        } else {
            default(info);
        }
    }));
}

pub fn guarded<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    INSIDE.with(|i| *i.borrow_mut() = true);
    let r = catch_unwind(AssertUnwindSafe(f));
    INSIDE.with(|i| *i.borrow_mut() = false);
    r.map_err(|_| format!("{} {}", what, LAST.with(|l| l.borrow().clone())))
}

pub type ObjResult = Result<obj::ObjectSet, obj::ParseError>;
pub type MtlResult = Result<mtl::MaterialSet, mtl::ParseError>;

pub fn obj_parse(text: &str) -> Result<ObjResult, String> {
    guarded("obj::parse", || obj::parse(text))
}

pub fn mtl_parse(text: &str) -> Result<MtlResult, String> {
    guarded("mtl::parse", || mtl::parse(text))
}
