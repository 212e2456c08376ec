//! Offline stand-in for `log`: messages go nowhere.
#[macro_export]
macro_rules! error { ($($t:tt)*) => {{}} }
#[macro_export]
macro_rules! warn { ($($t:tt)*) => {{}} }
#[macro_export]
macro_rules! info { ($($t:tt)*) => {{}} }
#[macro_export]
macro_rules! debug { ($($t:tt)*) => {{}} }
#[macro_export]
macro_rules! trace { ($($t:tt)*) => {{}} }
