//! Prime fields of different shapes: the library is generic over the field, so nothing may depend on
//! the number of limbs, on where the top bit lies in a limb, or on the two-adicity.

macro_rules! field {
    ($m:ident, $p:tt, $g:tt) => {
        pub mod $m {
            use ff::{Field, PrimeField, PrimeFieldRepr};
            #[derive(PrimeField)]
            #[PrimeFieldModulus = $p]
            #[PrimeFieldGenerator = $g]
            pub struct Fe(FeRepr);
        }
    };
}

// 2^64 - 2^32 + 1: 64 bits, so two limbs
field!(goldilocks, "18446744069414584321", "7");
// 15 * 2^27 + 1: 31 bits
field!(babybear, "2013265921", "31");
field!(p62, "4611685944339202049", "3");
field!(p65, "36893488146899009537", "3");
field!(p129, "680564733841876926926749214859996430337", "3");
field!(p192, "6277101735386680763835789423207666416102355444461350158337", "5");

pub use babybear::Fe as BabyBear;
pub use goldilocks::Fe as Goldilocks;
pub use hodor::verif_hooks::{Fr252, Fr255};
pub use hodor::Fr as F257;
pub use p129::Fe as P129;
pub use p192::Fe as P192;
pub use p62::Fe as P62;
pub use p65::Fe as P65;

pub const FIELDS: [&str; 9] = ["F257", "BabyBear", "P62", "Goldilocks", "P65", "P129", "P192", "Fr252", "Fr255"];
/// Fields in which a chance coincidence over the randomness of the protocol is out of the question.
pub const LARGE: [&str; 7] = ["P62", "Goldilocks", "P65", "P129", "P192", "Fr252", "Fr255"];

/// Calls `$f::<F>($args)` for the field named `$name`.
#[cfg(not(feature = "few"))]
#[macro_export]
macro_rules! with_field {
    ($name:expr, $f:ident, $($a:expr),*) => {
        match $name {
            "F257" => $f::<$crate::fields::F257>($($a),*),
            "BabyBear" => $f::<$crate::fields::BabyBear>($($a),*),
            "P62" => $f::<$crate::fields::P62>($($a),*),
            "Goldilocks" => $f::<$crate::fields::Goldilocks>($($a),*),
            "P65" => $f::<$crate::fields::P65>($($a),*),
            "P129" => $f::<$crate::fields::P129>($($a),*),
            "P192" => $f::<$crate::fields::P192>($($a),*),
            "Fr252" => $f::<$crate::fields::Fr252>($($a),*),
            "Fr255" => $f::<$crate::fields::Fr255>($($a),*),
            _ => unreachable!(),
        }
    };
}

/// Builds under sanitizers take the same cases over two fields only, to compile in reasonable time:
/// what they look for does not depend on the modulus.
#[cfg(feature = "few")]
#[macro_export]
macro_rules! with_field {
    ($name:expr, $f:ident, $($a:expr),*) => {
        match $name {
            "F257" => $f::<$crate::fields::F257>($($a),*),
            _ => $f::<$crate::fields::Goldilocks>($($a),*),
        }
    };
}
