//! A sink that takes so many bytes, fails the write that goes past them, and takes the ones after it again.
use std::fmt::{Result as Fr, Write};

pub struct Sink {
    pub text: String,
    left: usize,
    full: bool,
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> Fr {
        if self.full {
            self.text.push_str(s);
            return Ok(());
        }
        let mut n = s.len().min(self.left);
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        self.text.push_str(&s[..n]);
        self.left -= n;
        self.full = n < s.len();
        if self.full { Err(std::fmt::Error) } else { Ok(()) }
    }
}

/// Prints to a sink of `n` bytes: what is `full` otherwise is written as far as it fits, and if it does not it is an error, and nothing more is written.
pub fn judge(n: usize, full: &str, f: impl FnOnce(&mut Sink) -> Fr) -> Result<(), String> {
    let mut k = Sink { text: String::new(), left: n, full: false };
    let r = f(&mut k);
    if r.is_ok() != (full.len() <= n) {
        return Err(format!("{} bytes of text, yet the result is {r:?}", full.len()));
    }
    if !full.starts_with(&k.text) || (r.is_ok() && k.text != full) {
        return Err(format!("wrote {:?}, the text is {full:?}", k.text));
    }
    Ok(())
}
