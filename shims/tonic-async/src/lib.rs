//! `async_trait` stand-in: native `async fn` in traits makes it the identity.
use proc_macro::TokenStream;
#[proc_macro_attribute]
pub fn async_trait(_: TokenStream, item: TokenStream) -> TokenStream { item }
