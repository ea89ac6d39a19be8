//! The code has been rewritten (tools/deasync.py): nothing left to do.
use proc_macro::TokenStream;
#[proc_macro_attribute]
pub fn async_trait(_: TokenStream, i: TokenStream) -> TokenStream {
    i
}
