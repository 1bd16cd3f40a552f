//! Logging is not a subject: the macros evaluate nothing but keep their arguments type-checked.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Level(u8);
impl Level {
    pub const TRACE: Level = Level(0);
    pub const DEBUG: Level = Level(1);
    pub const INFO: Level = Level(2);
    pub const WARN: Level = Level(3);
    pub const ERROR: Level = Level(4);
}
#[macro_export]
macro_rules! event {
    ($($t:tt)*) => {{
        if false {
            $crate::vx_args!($($t)*);
        }
    }};
}
#[macro_export]
macro_rules! error { ($($t:tt)*) => { $crate::event!($($t)*) } }
#[macro_export]
macro_rules! warn { ($($t:tt)*) => { $crate::event!($($t)*) } }
#[macro_export]
macro_rules! info { ($($t:tt)*) => { $crate::event!($($t)*) } }
#[macro_export]
macro_rules! debug { ($($t:tt)*) => { $crate::event!($($t)*) } }
#[macro_export]
macro_rules! trace { ($($t:tt)*) => { $crate::event!($($t)*) } }
#[doc(hidden)]
#[macro_export]
macro_rules! vx_args {
    () => {};
    ($(,)?) => {};
    (target: $x:expr, $($r:tt)*) => { let _ = &$x; $crate::vx_args!($($r)*); };
    (target: $x:expr) => { let _ = &$x; };
    (parent: $x:expr, $($r:tt)*) => { let _ = &$x; $crate::vx_args!($($r)*); };
    ($($k:ident).+ = ?$x:expr, $($r:tt)*) => { let _ = &$x; $crate::vx_args!($($r)*); };
    ($($k:ident).+ = ?$x:expr) => { let _ = &$x; };
    ($($k:ident).+ = %$x:expr, $($r:tt)*) => { let _ = &$x; $crate::vx_args!($($r)*); };
    ($($k:ident).+ = %$x:expr) => { let _ = &$x; };
    ($($k:ident).+ = $x:expr, $($r:tt)*) => { let _ = &$x; $crate::vx_args!($($r)*); };
    ($($k:ident).+ = $x:expr) => { let _ = &$x; };
    (?$k:ident, $($r:tt)*) => { let _ = &$k; $crate::vx_args!($($r)*); };
    (?$k:ident) => { let _ = &$k; };
    (%$k:ident, $($r:tt)*) => { let _ = &$k; $crate::vx_args!($($r)*); };
    (%$k:ident) => { let _ = &$k; };
    ($x:literal) => { let _ = ::std::format!($x); };
    ($x:literal, $($r:tt)*) => { let _ = ::std::format!($x, $($r)*); };
    ($x:expr, $($r:tt)*) => { let _ = &$x; $crate::vx_args!($($r)*); };
    ($x:expr) => { let _ = &$x; };
}
pub mod field {
    pub struct DisplayValue<T>(T);
    impl<T: std::fmt::Display> std::fmt::Display for DisplayValue<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            self.0.fmt(f)
        }
    }
    pub fn display<T: std::fmt::Display>(t: T) -> DisplayValue<T> {
        DisplayValue(t)
    }
    pub fn debug<T: std::fmt::Debug>(t: T) -> T {
        t
    }
}
