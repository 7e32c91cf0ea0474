pub mod cli;
pub mod explore;
pub mod gen;
pub mod geom;
pub mod model;
pub mod props;
pub mod sut;

/// Declares `make` (name -> empty tree) and `CFGS` for a list of
/// `"name", Spec, Params, MAX_SIZE, small-integer?;` lines.
#[macro_export]
macro_rules! registry {
    ($($name:literal, $spec:ty, $pm:ty, $max:expr, $small:expr;)*) => {
        fn make(name: &str, m: $crate::geom::Mapping) -> Option<Box<dyn $crate::sut::Sut>> {
            match name {
                $($name => Some(Box::new($crate::sut::TreeSut::<$spec, $pm>::new(m))),)*
                _ => None,
            }
        }
        const CFGS: &[$crate::gen::Cfg] = &[
            $($crate::gen::Cfg {
                name: $name,
                kind: <$spec as $crate::sut::Spec>::KIND,
                d: <<$spec as $crate::sut::Spec>::P as rstar::Point>::DIMENSIONS,
                max: $max,
                small: $small,
                float: <<$spec as $crate::sut::Spec>::S as $crate::sut::Num>::FLOAT,
                bits: 8 * std::mem::size_of::<<$spec as $crate::sut::Spec>::S>() as u32,
            },)*
        ];
    };
}
