//! Proof harnesses over the real klavier-core, shared between Kani (symbolic) and native runs (replay, bounded search).
#![allow(clippy::all)]
#![allow(unexpected_cfgs)]
pub mod src;
use src::*;
use klavier_core::contracts as c;

/// `name [attributes of the proof] also [attributes of a second proof, thorough tier only] |s| { body }`
macro_rules! harnesses {
    ($prop:literal; $( $name:ident [$($attr:meta),*] $(also [$($attr2:meta),*])? |$s:ident| $body:block )*) => {
        $(
            pub mod $name {
                #[allow(unused_imports)]
                use super::*;
                pub fn run<S: Src>($s: &mut S) $body
                #[cfg(kani)]
                $( #[$attr] )*
                fn proof() { run(&mut KaniSrc) }
                $(
                    #[cfg(all(kani, feature = "thorough"))]
                    $( #[$attr2] )*
                    fn contract() { run(&mut KaniSrc) }
                )?
            }
        )*
        pub const TABLE: &[crate::Entry] = &[ $( ($prop, stringify!($name), $name::run::<NativeSrc>) ),* ];
    };
}

pub type Entry = (&'static str, &'static str, fn(&mut NativeSrc));

pub mod gen;
pub mod scalar;
pub mod note;
pub mod de;
#[cfg(not(kani))]
pub mod v;

/// Removes the scratch directories of the native runs.
pub fn cleanup() {
    #[cfg(not(kani))]
    v::edits::cleanup();
}

pub fn all() -> Vec<Entry> {
    let mut v = vec![];
    for t in [scalar::c01::TABLE, scalar::c02::TABLE, scalar::c03::TABLE, scalar::c04::TABLE, scalar::c05::TABLE, scalar::c06::TABLE, scalar::c07::TABLE,
        note::c08::TABLE, note::c09::TABLE, scalar::c10::TABLE, scalar::c12::TABLE, de::c24::TABLE] {
        v.extend_from_slice(t);
    }
    #[cfg(not(kani))]
    for t in [v::c11::TABLE, v::c13::TABLE, v::c14::TABLE, v::c15::TABLE, v::c16::TABLE, v::c17::TABLE, v::c18::TABLE, v::c19::TABLE, v::c20::TABLE, v::c21::TABLE, v::c22::TABLE, v::c23::TABLE, v::c25::TABLE, v::c26::TABLE, v::c27::TABLE, v::c29::TABLE, v::c30::TABLE] {
        v.extend_from_slice(t);
    }
    v
}
