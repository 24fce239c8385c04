//! JSON values without content.
#[derive(Clone, Debug)]
pub enum Value {
    Null,
}
#[macro_export]
macro_rules! json { ($($t:tt)*) => { $crate::Value::Null } }
