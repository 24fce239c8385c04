//! Command lines: the harness gives options as `--long`, `-s` or `$ENV` entries; absent ones take their default.
pub use model_macros::{Args, Parser, Subcommand};
pub trait Parser: Value {
    fn parse() -> Self {
        Self::value(&Opt { longs: &[], short: None, env: None }, None)
    }
}
pub trait Value: Sized {
    fn value(o: &Opt, default: Option<String>) -> Self;
}
/// What an option is called, on the command line and in the environment.
pub struct Opt {
    pub longs: &'static [&'static str],
    pub short: Option<char>,
    pub env: Option<&'static str>,
}
impl Opt {
    /// The given entry that is this option: the command line comes before the environment.
    pub fn among<'a, T>(&self, given: &'a [(&'static str, T)]) -> Option<&'a (&'static str, T)> {
        let line = given.iter().find(|g| match g.0.strip_prefix("--") {
            Some(n) => self.longs.iter().any(|l| *l == n),
            None => g.0.len() == 2 && self.short.map_or(false, |c| c.is_ascii() && g.0.as_bytes() == &[b'-', c as u8]),
        });
        line.or_else(|| given.iter().find(|g| g.0.starts_with('$') && self.env == Some(&g.0[1..])))
    }
}
pub struct Source {
    pub text: fn(&Opt) -> Option<String>,
    pub num: fn(&Opt) -> Option<u64>,
    pub command: fn(&[&str]) -> usize,
    pub missing: fn() -> !,
}
pub static mut SOURCE: Source = Source { text: |_| None, num: |_| None, command: |_| 0, missing: || std::process::abort() };
#[allow(static_mut_refs)]
fn s() -> &'static Source {
    unsafe { &SOURCE }
}
pub fn command(names: &[&str]) -> usize {
    (s().command)(names)
}
impl Value for String {
    fn value(n: &Opt, d: Option<String>) -> Self {
        match ((s().text)(n), d) {
            (Some(t), _) => t,
            (None, Some(d)) => d,
            _ => (s().missing)(),
        }
    }
}
impl Value for Option<String> {
    fn value(n: &Opt, d: Option<String>) -> Self {
        (s().text)(n).or(d)
    }
}
macro_rules! nums { ($($t:ty),*) => { $(
    impl Value for $t {
        fn value(n: &Opt, d: Option<String>) -> Self {
            match ((s().num)(n), d) {
                (Some(v), _) => v as $t,
                (None, Some(d)) => d.parse().unwrap(),
                _ => (s().missing)(),
            }
        }
    }
    impl Value for Option<$t> {
        fn value(n: &Opt, d: Option<String>) -> Self {
            (s().num)(n).map(|v| v as $t).or_else(|| d.and_then(|d| d.parse().ok()))
        }
    }
)* } }
nums!(u8, u16, u32, u64, usize);
impl Value for bool {
    fn value(n: &Opt, d: Option<String>) -> Self {
        (s().num)(n).map(|v| v != 0).unwrap_or(d.map(|d| d == "true").unwrap_or(false))
    }
}
/// What the tool prints, line by line, as values.
pub mod say {
    use solana_program::pubkey::Pubkey;
    #[derive(Clone)]
    pub enum Item {
        Key([u8; 32]),
        Num(u64),
        Bool(bool),
        Text(String),
        Other,
    }
    pub static mut LINES: Vec<Vec<Item>> = vec![];
    #[allow(static_mut_refs)]
    pub fn lines() -> &'static mut Vec<Vec<Item>> {
        unsafe { &mut LINES }
    }
    pub fn line(l: Vec<Item>) {
        lines().push(l)
    }
    pub struct Say<'a, T: ?Sized>(pub &'a T);
    pub trait SayValue {
        fn say(&self) -> Item;
    }
    pub trait SayAny {
        fn say(&self) -> Item;
    }
    impl<T: ?Sized> SayAny for &Say<'_, T> {
        fn say(&self) -> Item {
            Item::Other
        }
    }
    macro_rules! says { ($($t:ty => $f:expr;)*) => { $(
        impl SayValue for Say<'_, $t> { fn say(&self) -> Item { let f: fn(&$t) -> Item = $f; f(self.0) } }
        impl SayValue for Say<'_, &$t> { fn say(&self) -> Item { let f: fn(&$t) -> Item = $f; f(*self.0) } }
    )* } }
    says! {
        Pubkey => |x| Item::Key(x.to_bytes());
        u8 => |x| Item::Num(*x as u64);
        u16 => |x| Item::Num(*x as u64);
        u32 => |x| Item::Num(*x as u64);
        u64 => |x| Item::Num(*x);
        usize => |x| Item::Num(*x as u64);
        i32 => |x| Item::Num(*x as u64);
        bool => |x| Item::Bool(*x);
        String => |x| Item::Text(x.clone());
        str => |x| Item::Text(x.to_string());
    }
}
