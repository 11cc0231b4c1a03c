#![allow(clippy::all)]
/// Declares harnesses: an exported function for the symbolic executor and a dispatcher for the replayer.
#[macro_export]
macro_rules! harnesses {
    ($($name:ident ( $($p:ident),* ) $body:expr;)*) => {
        $(#[no_mangle]
        pub extern "C" fn $name($($p: u64),*) { $body })*
        pub fn dispatch(name: &str, a: &[u64]) -> bool {
            $(if name == stringify!($name) {
                let mut i = 0;
                $(let $p = a[i]; i += 1;)*
                let _ = i;
                $name($($p),*);
                return true;
            })*
            false
        }
    };
}
pub mod api;
pub mod util;
macro_rules! modules {
    ($($m:ident)*) => {
        $(pub mod $m;)*
        pub fn dispatch(name: &str, a: &[u64]) -> bool {
            $($m::dispatch(name, a) ||)* false
        }
    };
}
modules! { c01 c02 c03 c04 c05 c06 c07 c08 c09 c10 c11 c12 c13 c14 c15 c16 c17 c18 c19 c20 }
