pub trait Serialize {}
