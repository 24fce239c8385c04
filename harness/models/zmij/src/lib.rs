//! Decimal text of a number (the real one is written with vector instructions): nine decimals.
pub struct Buffer(Vec<u8>);
pub trait Float: Copy {
    fn wide(self) -> f64;
}
impl Float for f64 {
    fn wide(self) -> f64 {
        self
    }
}
impl Float for f32 {
    fn wide(self) -> f64 {
        self as f64
    }
}
impl Buffer {
    pub fn new() -> Self {
        Buffer(vec![])
    }
    pub fn format<F: Float>(&mut self, f: F) -> &str {
        self.format_finite(f)
    }
    pub fn format_finite<F: Float>(&mut self, f: F) -> &str {
        let x = f.wide();
        let mut n = (if x < 0.0 { -x } else { x } * 1e9 + 0.5) as u64;
        let mut t = vec![];
        while n > 0 || t.len() < 11 {
            if t.len() == 9 {
                t.push(b'.');
            }
            t.push(b'0' + (n % 10) as u8);
            n /= 10;
        }
        if x < 0.0 {
            t.push(b'-');
        }
        t.reverse();
        self.0 = t;
        unsafe { core::str::from_utf8_unchecked(&self.0) }
    }
}
