//! Moves values to other threads without asking the compiler whether their type allows it; that is
//! a question for C23's monitor, and not one that keeps the harness from being built.
pub struct Share<T>(T);

// SAFETY: none is claimed. If `T` isn't `Send` and `Sync`, C23 says so before it uses this.
unsafe impl<T> Send for Share<T> {}
unsafe impl<T> Sync for Share<T> {}

impl<T> Share<T> {
    pub fn new(t: T) -> Self {
        Share(t)
    }
    pub fn get(&self) -> &T {
        &self.0
    }
    pub fn take(self) -> T {
        self.0
    }
}
