#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)+) => {
        if !($c) { return Err(format!($($arg)+)); }
    };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)+) => {{
        let (a, b) = (&$a, &$b);
        if !(*a == *b) {
            return Err(format!("{}: got {:?}, expected {:?}", format!($($arg)+), a, b));
        }
    }};
}
