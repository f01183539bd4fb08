//! Alphabet widths instantiated by the checks, and dispatch from a run-time width.

#[macro_export]
macro_rules! dispatch_width {
    (@@ $f:ident, $n:literal, ($($a:expr),*)) => { $f::<$n>($($a),*) };
    (@ $w:expr, $f:ident, $args:tt, $($n:literal)*) => {
        match $w { $( $n => $crate::dispatch_width!(@@ $f, $n, $args), )* w => panic!("width {} is not instantiated", w) }
    };
    ($w:expr, $f:ident ( $($a:expr),* )) => {
        $crate::dispatch_width!(@ $w, $f, ($($a),*),
            1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 30 31 32 33 36 40 48 50 52 56
            57 60 63 64 65 90 100 127 128 129 130 200 255 256 257 258 300 500 511 512 513 1000 1023 1024 1025 2047
            2048 4095 4096 4097 4098 5000 8191 8192 16383 16384 32767 32768 65535 65536 65537 65538 100000 131071
            131072 262143 262144 524287 524288 1000000 1048575 1048576 1048578 2097151 2097152 4194303 4194304
            8388608 10000000 16777215 16777216 16777218 33554432 67108864 100000000 134217727 134217728 268435456
            536870912 1000000000 1073741823 1073741824 2147483647 2147483648 3000000000 4294967295)
    };
}

pub const WIDTHS: &[u32] = &[
    1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 30, 31,
    32, 33, 36, 40, 48, 50, 52, 56, 57, 60, 63, 64, 65, 90, 100, 127, 128, 129, 130, 200, 255, 256, 257, 258, 300,
    500, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 4098, 5000, 8191, 8192, 16383, 16384,
    32767, 32768, 65535, 65536, 65537, 65538, 100000, 131071, 131072, 262143, 262144, 524287, 524288, 1000000,
    1048575, 1048576, 1048578, 2097151, 2097152, 4194303, 4194304, 8388608, 10000000, 16777215, 16777216, 16777218,
    33554432, 67108864, 100000000, 134217727, 134217728, 268435456, 536870912, 1000000000, 1073741823, 1073741824,
    2147483647, 2147483648, 3000000000, 4294967295,
];
