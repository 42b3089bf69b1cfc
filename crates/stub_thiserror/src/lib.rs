//! Stand-in: the real crate is not available offline and the code under simulation does not use it.
