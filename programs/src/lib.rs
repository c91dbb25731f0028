//! Empty: what the generated programs are compiled against is built as this package's dependencies.
