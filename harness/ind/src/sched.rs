//! Gives the explorer control wherever the library calls out.

use std::cell::RefCell;

thread_local! {
    static HOOK: RefCell<Option<Box<dyn FnMut()>>> = const { RefCell::new(None) };
}

/// Called wherever the environment or user code has control.
pub fn tick() {
    // The hook is taken out, so that what it runs itself doesn't tick.
    let h = HOOK.with(|h| h.borrow_mut().take());
    if let Some(mut f) = h {
        f();
        HOOK.with(|h| *h.borrow_mut() = Some(f));
    }
}
pub fn with_hook<T>(f: Box<dyn FnMut()>, body: impl FnOnce() -> T) -> T {
    struct Restore(Option<Box<dyn FnMut()>>);
    impl Drop for Restore {
        fn drop(&mut self) {
            HOOK.with(|h| *h.borrow_mut() = self.0.take());
        }
    }
    let _r = Restore(HOOK.with(|h| h.borrow_mut().replace(f)));
    body()
}
