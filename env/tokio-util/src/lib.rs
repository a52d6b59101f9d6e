pub mod sync { #[derive(Clone, Debug, Default)] pub struct CancellationToken; impl CancellationToken { pub fn new() -> Self { Self } pub fn cancel(&self) {} } }
