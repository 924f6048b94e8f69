//! The part of `powdr-parser-util` that recursion/src/pilcom uses.
use std::sync::Arc;

#[derive(Debug, Clone, Default)]
pub struct SourceRef {
    pub file_name: Option<Arc<str>>,
    pub file_contents: Option<Arc<str>>,
    pub start: usize,
    pub end: usize,
}
