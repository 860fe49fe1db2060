// Byte ranges: offset and length, as in miette (whose accessors these are).
#[derive(Clone, Copy)]
pub struct SourceSpan { pub offset: usize, pub length: usize }
//@ source src/identifier.rs
//@ struct KdlIdentifier
//@ source src/value.rs
//@ enum KdlValue
//@ source src/entry.rs
//@ struct KdlEntry
//@ struct KdlEntryFormat
//@ source src/node.rs
//@ struct KdlNode
//@ struct KdlNodeFormat
//@ source src/document.rs
//@ struct KdlDocument
//@ struct KdlDocumentFormat
use std::sync::Arc;
pub enum Severity { Advice, Warning, Error }
//@ source src/error.rs
//@ struct KdlError
//@ struct KdlDiagnostic
