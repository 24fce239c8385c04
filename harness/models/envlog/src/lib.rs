//! Logging is compiled out.
pub fn init() {}
pub fn try_init() -> Result<(), ()> {
    Ok(())
}
pub struct Builder;
impl Builder {
    pub fn from_env<T>(_: T) -> Self {
        Builder
    }
    pub fn from_default_env() -> Self {
        Builder
    }
    pub fn init(&mut self) {}
}
pub struct Env;
impl Env {
    pub fn default() -> Self {
        Env
    }
    pub fn default_filter_or<T>(self, _: T) -> Self {
        Env
    }
}
