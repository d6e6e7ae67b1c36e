//! What the sources of the uniffi binding need of uniffi, to be type-checked without it.
pub type Result<T> = anyhow::Result<T>;

#[macro_export]
macro_rules! include_scaffolding {
    ($udl:literal) => {
        pub trait UniffiCustomTypeConverter {
            type Builtin;
            fn into_custom(val: Self::Builtin) -> $crate::Result<Self>
            where
                Self: Sized;
            fn from_custom(obj: Self) -> Self::Builtin;
        }
        // what the generated scaffolding calls of the callbacks' results
        #[allow(dead_code, unused)]
        pub mod __scaffolding {
            pub fn all() {
                let _ = (crate::OnDIDResolverResult::success, crate::OnDIDResolverResult::error);
                let _ = (crate::OnGetSecretResult::success, crate::OnGetSecretResult::error);
                let _ = (crate::OnFindSecretsResult::success, crate::OnFindSecretsResult::error);
            }
        }
    };
}
