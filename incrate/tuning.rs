// Per-thread overrides of size constants so small workloads reach every layer transition.
use crate::inmem::policy::SealPolicy;
use std::cell::RefCell;
use std::sync::Arc;

thread_local! {
    static POLICY: RefCell<Option<Arc<dyn SealPolicy + Send + Sync>>> = const { RefCell::new(None) };
    static CAPACITY: RefCell<Option<usize>> = const { RefCell::new(None) };
}
pub fn set_seal_policy(p: Option<Arc<dyn SealPolicy + Send + Sync>>) {
    POLICY.with(|c| *c.borrow_mut() = p);
}
pub fn set_mem_capacity(n: Option<usize>) {
    CAPACITY.with(|c| *c.borrow_mut() = n);
}
pub fn seal_policy() -> Option<Arc<dyn SealPolicy + Send + Sync>> {
    POLICY.with(|c| c.borrow().clone())
}
pub fn mem_capacity() -> Option<usize> {
    CAPACITY.with(|c| *c.borrow())
}
