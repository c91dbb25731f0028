//! Stand-in for dynpath: a module from a file in a directory an environment variable names.
#[macro_export]
macro_rules! wrap {
    (@ [$($meta:tt)*] #[dynpath($var:literal, $file:literal)] $(#[$m:meta])* $vis:vis mod $name:ident; $($rest:tt)*) => {
        $($meta)* $(#[$m])*
        $vis mod $name {
            include!(concat!(env!($var), "/", $file));
        }
        $crate::wrap! { $($rest)* }
    };
    (@ [$($meta:tt)*] #[$m:meta] $($rest:tt)*) => {
        $crate::wrap! { @ [$($meta)* #[$m]] $($rest)* }
    };
    () => {};
    ($($t:tt)+) => { $crate::wrap! { @ [] $($t)+ } };
}
