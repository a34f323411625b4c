//! Pairs of types which have the same name: only their identity tells them apart.
use rsasl::prelude::Validation;
use rsasl::property::Property;
use std::sync::Arc;

pub trait Pick {
    type T;
}
pub struct Nth<const N: usize>;
macro_rules! twins {
    ($f:ident: $({ $n:expr, $p:ty, $v:ty })*) => {
        #[allow(dead_code)]
        fn $f() {
            $({
                pub struct Twin;
                impl Property<'_> for Twin { type Value = $p; }
                impl Validation for Twin { type Value = $v; }
                impl Pick for Nth<$n> { type T = Twin; }
            })*
        }
    };
}
twins!(all: {0, str, String} {1, str, String} {2, [u8], Arc<u64>});
pub type Tw0 = <Nth<0> as Pick>::T;
pub type Tw1 = <Nth<1> as Pick>::T;
pub type Tw2 = <Nth<2> as Pick>::T;
/// whether these types do what they are for
pub fn check() -> bool {
    use std::any::{type_name, TypeId};
    type_name::<Tw0>() == type_name::<Tw1>() && type_name::<Tw0>() == type_name::<Tw2>() && TypeId::of::<Tw0>() != TypeId::of::<Tw1>()
}
