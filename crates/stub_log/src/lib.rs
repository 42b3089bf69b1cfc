//! Stand-in for the log facade: formats its arguments, as an enabled logger would, and drops the text.
#[doc(hidden)]
pub fn sink(a: std::fmt::Arguments<'_>) {
    use std::fmt::Write;
    struct Null;
    impl Write for Null {
        fn write_str(&mut self, _: &str) -> std::fmt::Result {
            Ok(())
        }
    }
    let _ = Null.write_fmt(a);
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Level {
    Error = 1,
    Warn,
    Info,
    Debug,
    Trace,
}
#[macro_export]
macro_rules! log {
    (target: $t:expr, $l:expr, $($a:tt)+) => { { let _ = ($t, $l); $crate::sink(format_args!($($a)+)) } };
    ($l:expr, $($a:tt)+) => { { let _ = $l; $crate::sink(format_args!($($a)+)) } };
}
#[macro_export]
macro_rules! error { (target: $t:expr, $($a:tt)+) => { $crate::sink(format_args!($($a)+)) }; ($($a:tt)+) => { $crate::sink(format_args!($($a)+)) }; }
#[macro_export]
macro_rules! warn { (target: $t:expr, $($a:tt)+) => { $crate::sink(format_args!($($a)+)) }; ($($a:tt)+) => { $crate::sink(format_args!($($a)+)) }; }
#[macro_export]
macro_rules! info { (target: $t:expr, $($a:tt)+) => { $crate::sink(format_args!($($a)+)) }; ($($a:tt)+) => { $crate::sink(format_args!($($a)+)) }; }
#[macro_export]
macro_rules! debug { (target: $t:expr, $($a:tt)+) => { $crate::sink(format_args!($($a)+)) }; ($($a:tt)+) => { $crate::sink(format_args!($($a)+)) }; }
#[macro_export]
macro_rules! trace { (target: $t:expr, $($a:tt)+) => { $crate::sink(format_args!($($a)+)) }; ($($a:tt)+) => { $crate::sink(format_args!($($a)+)) }; }
#[macro_export]
macro_rules! log_enabled { ($($a:tt)+) => { true }; }
