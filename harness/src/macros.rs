/// a case over a curve shape: struct, name and dispatch on the dimension
#[macro_export]
macro_rules! curve_case {
    ($T:ident { $($f:ident : $ft:ty),* } $prefix:literal |$me:ident, $c:ident| $body:block) => {
        pub struct $T {
            pub s: $crate::shapes::Shape,
            pub w: $crate::shapes::W,
            pub three: bool,
            $(pub $f: $ft,)*
        }
        impl $T {
            #[allow(unused_variables)]
            fn go<C: $crate::ctx::Ctx, const N: usize>(&self, $c: &mut C)
            where
                curvo::prelude::NurbsCurve<C::S, nalgebra::Const<N>>: $crate::shapes::CurveExt<C::S>,
            {
                let $me = self;
                $body
            }
        }
        impl $crate::ctx::Case for $T {
            fn name(&self) -> String {
                let mut s = format!("{}-{}-{:?}-{}", $prefix, self.s.id(), self.w, if self.three { "3d" } else { "2d" });
                $(s += &format!("-{:?}", self.$f);)*
                s.replace(' ', "")
            }
            fn run<C: $crate::ctx::Ctx>(&self, c: &mut C) {
                if self.three {
                    self.go::<C, 4>(c)
                } else {
                    self.go::<C, 3>(c)
                }
            }
        }
    };
}
#[macro_export]
macro_rules! plain_case {
    ($T:ident { $($f:ident : $ft:ty),* } $prefix:literal |$me:ident, $c:ident| $body:block) => {
        pub struct $T {
            $(pub $f: $ft,)*
        }
        impl $crate::ctx::Case for $T {
            #[allow(unused_mut)]
            fn name(&self) -> String {
                let mut s = String::from($prefix);
                $(s += &format!("-{:?}", self.$f);)*
                s.replace(' ', "").replace('"', "")
            }
            #[allow(unused_variables)]
            fn run<C: $crate::ctx::Ctx>(&self, $c: &mut C) {
                let $me = self;
                $body
            }
        }
    };
}
