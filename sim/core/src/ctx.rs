//! Per-thread instruments: action log, work counter (step budget), fault/probe counters.
use std::cell::{Cell, RefCell};

thread_local! {
    pub static ACTIONS: RefCell<Vec<(u32, u64)>> = const { RefCell::new(Vec::new()) };
    pub static WORK: Cell<u64> = const { Cell::new(0) };
    pub static BUDGET: Cell<u64> = const { Cell::new(u64::MAX) };
    pub static PREDS: Cell<u64> = const { Cell::new(0) };
    pub static ATTEMPTS: Cell<u64> = const { Cell::new(0) };
    pub static POSLOG: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}
pub const BUDGET_MSG: &str = "SIM-BUDGET";

/// One unit of simulated work. Panics deterministically when the budget of the current call is spent, which is how
/// a non-terminating parse is observed without a clock.
pub fn tick() {
    ticks(1)
}
pub fn ticks(n: u64) {
    WORK.with(|w| {
        let v = w.get() + n;
        w.set(v);
        if v > BUDGET.with(|b| b.get()) {
            BUDGET.with(|b| b.set(u64::MAX));
            panic!("{}", BUDGET_MSG);
        }
    })
}
pub fn set_budget(extra: u64) {
    let w = WORK.with(|w| w.get());
    BUDGET.with(|b| b.set(w.saturating_add(extra)));
}
pub fn no_budget() {
    BUDGET.with(|b| b.set(u64::MAX));
}
pub fn work() -> u64 {
    WORK.with(|w| w.get())
}
pub fn pred_call() {
    PREDS.with(|p| p.set(p.get() + 1));
    tick();
}
pub fn preds() -> u64 {
    PREDS.with(|p| p.get())
}
/// A decoder started to parse what it has.
pub fn attempt() {
    ATTEMPTS.with(|p| p.set(p.get() + 1));
}
pub fn attempts() -> u64 {
    ATTEMPTS.with(|p| p.get())
}
pub fn log_action(id: u32, h: u64) {
    if id > 0 {
        ACTIONS.with(|a| a.borrow_mut().push((id, h)));
    }
    tick();
}
pub fn log_pos(s: String) {
    POSLOG.with(|a| a.borrow_mut().push(s));
}
pub fn take_pos() -> Vec<String> {
    POSLOG.with(|a| std::mem::take(&mut *a.borrow_mut()))
}
pub fn take_actions() -> Vec<(u32, u64)> {
    ACTIONS.with(|a| std::mem::take(&mut *a.borrow_mut()))
}
pub fn action_len() -> usize {
    ACTIONS.with(|a| a.borrow().len())
}
/// Does something that is not part of the run that is being recorded.
pub fn aside<R>(f: impl FnOnce() -> R) -> R {
    let (a, p) = (take_actions(), take_pos());
    let (w, pr, at) = (work(), preds(), attempts());
    no_budget();
    set_budget(4_000_000);
    let r = f();
    no_budget();
    ACTIONS.with(|x| *x.borrow_mut() = a);
    POSLOG.with(|x| *x.borrow_mut() = p);
    WORK.with(|x| x.set(w));
    PREDS.with(|x| x.set(pr));
    ATTEMPTS.with(|x| x.set(at));
    r
}
/// Clears everything between runs (a panicking run may leave things behind).
pub fn reset() {
    take_actions();
    take_pos();
    WORK.with(|w| w.set(0));
    PREDS.with(|w| w.set(0));
    ATTEMPTS.with(|w| w.set(0));
    no_budget();
}
