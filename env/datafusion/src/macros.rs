//! Error macros. Message formatting is not the subject of any property: the arguments are
//! type-checked in a closure that is never called.
#[macro_export]
macro_rules! __err {
    ($variant:ident, $($t:tt)*) => {{
        let __f = || ::std::format!($($t)*); $crate::error::note(&__f, file!(), line!());
        $crate::error::DataFusionError::$variant(::std::string::String::new())
    }};
}
#[macro_export]
macro_rules! internal_datafusion_err { ($($t:tt)*) => { $crate::__err!(Internal, $($t)*) }; }
#[macro_export]
macro_rules! exec_datafusion_err { ($($t:tt)*) => { $crate::__err!(Execution, $($t)*) }; }
#[macro_export]
macro_rules! plan_datafusion_err { ($($t:tt)*) => { $crate::__err!(Plan, $($t)*) }; }
#[macro_export]
macro_rules! config_datafusion_err { ($($t:tt)*) => { $crate::__err!(Configuration, $($t)*) }; }
#[macro_export]
macro_rules! not_impl_datafusion_err { ($($t:tt)*) => { $crate::__err!(NotImplemented, $($t)*) }; }
#[macro_export]
macro_rules! internal_err { ($($t:tt)*) => { ::std::result::Result::Err($crate::__err!(Internal, $($t)*)) }; }
#[macro_export]
macro_rules! exec_err { ($($t:tt)*) => { ::std::result::Result::Err($crate::__err!(Execution, $($t)*)) }; }
#[macro_export]
macro_rules! plan_err { ($($t:tt)*) => { ::std::result::Result::Err($crate::__err!(Plan, $($t)*)) }; }
#[macro_export]
macro_rules! config_err { ($($t:tt)*) => { ::std::result::Result::Err($crate::__err!(Configuration, $($t)*)) }; }
#[macro_export]
macro_rules! not_impl_err { ($($t:tt)*) => { ::std::result::Result::Err($crate::__err!(NotImplemented, $($t)*)) }; }
#[macro_export]
macro_rules! resources_err { ($($t:tt)*) => { ::std::result::Result::Err($crate::__err!(ResourcesExhausted, $($t)*)) }; }
#[macro_export]
macro_rules! assert_or_internal_err {
    ($cond:expr $(,)?) => { if !$cond { return $crate::internal_err!("assertion failed"); } };
    ($cond:expr, $($t:tt)*) => { if !$cond { return $crate::internal_err!($($t)*); } };
}
#[macro_export]
macro_rules! assert_eq_or_internal_err {
    ($a:expr, $b:expr $(,)?) => { if $a != $b { return $crate::internal_err!("assertion failed"); } };
    ($a:expr, $b:expr, $($t:tt)*) => { if $a != $b { return $crate::internal_err!($($t)*); } };
}
#[macro_export]
macro_rules! assert_ne_or_internal_err {
    ($a:expr, $b:expr $(,)?) => { if $a == $b { return $crate::internal_err!("assertion failed"); } };
    ($a:expr, $b:expr, $($t:tt)*) => { if $a == $b { return $crate::internal_err!($($t)*); } };
}
/// `extensions_options!`: generates the struct, its defaults and the `ExtensionOptions` plumbing.
#[macro_export]
macro_rules! extensions_options {
    (
     $(#[doc = $struct_d:tt])*
     $vis:vis struct $struct_name:ident {
        $(
        $(#[doc = $d:tt])*
        $field_vis:vis $field_name:ident : $field_type:ty, default = $default:expr
        )*$(,)*
    }
    ) => {
        #[derive(Debug, Clone)]
        $vis struct $struct_name { $( $field_vis $field_name: $field_type, )* }
        impl Default for $struct_name {
            fn default() -> Self { Self { $( $field_name: $default ),* } }
        }
        impl $crate::config::ExtensionOptions for $struct_name {
            fn as_any(&self) -> &dyn ::std::any::Any { self }
            fn as_any_mut(&mut self) -> &mut dyn ::std::any::Any { self }
            fn cloned(&self) -> Box<dyn $crate::config::ExtensionOptions> { Box::new(self.clone()) }
            fn set(&mut self, key: &str, value: &str) -> $crate::error::Result<()> {
                $( if key == stringify!($field_name) {
                    return $crate::config::ConfigField::set(&mut self.$field_name, key, value);
                } )*
                Err($crate::error::DataFusionError::Configuration(String::new()))
            }
            fn entries(&self) -> Vec<$crate::config::ConfigEntry> {
                vec![ $( $crate::config::ConfigEntry {
                    key: stringify!($field_name).to_string(),
                    value: $crate::config::ConfigField::get(&self.$field_name),
                    description: "",
                } ),* ]
            }
        }
    };
}
