/// Declares harness modules and their entry points: exported symbols for the engine, a table for replay.
#[macro_export]
macro_rules! harnesses {
    ($($m:ident: [$($h:ident),* $(,)?]),* $(,)?) => {
        $(pub mod $m;)*
        #[cfg(irsx)]
        pub mod entries { $( pub mod $m { $( #[no_mangle] pub extern "C" fn $h() { $crate::$m::$h() } )* } )* }
        #[cfg(not(irsx))]
        pub const ALL: &[(&str, fn())] = &[ $( $( (stringify!($h), $m::$h as fn()), )* )* ];
    };
}
