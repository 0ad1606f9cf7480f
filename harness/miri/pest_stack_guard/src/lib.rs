//! Stands in for pest's stack probe, which Miri cannot run: the stack's size is not known.
pub fn remaining_stack() -> Option<usize> {
    None
}
