//! Stand-in for the git dependency `profiler_macro`: the attribute only adds timing output.
use proc_macro::TokenStream;
#[proc_macro_attribute]
pub fn time_profiler(_attr: TokenStream, item: TokenStream) -> TokenStream {
    item
}
