//! Decimal numbers as digit strings, and the operands UTS 35 defines for them, computed without
//! any floating point (n is only rounded to a double where a double is compared).
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Dec {
    pub int: String,
    pub frac: String,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Ops {
    pub n: f64,
    pub i: u64,
    pub v: usize,
    pub w: usize,
    pub f: u64,
    pub t: u64,
}

/// Value of a digit string (empty = 0), or None when it needs more than 64 bits.
pub fn digits_u64(s: &str) -> Option<u64> {
    let mut x: u64 = 0;
    for b in s.bytes() {
        if !b.is_ascii_digit() {
            return None;
        }
        x = x.checked_mul(10)?.checked_add((b - b'0') as u64)?;
    }
    Some(x)
}

impl Dec {
    pub fn int(i: u64) -> Dec {
        Dec { int: i.to_string(), frac: String::new() }
    }
    pub fn new(i: u64, frac: &str) -> Dec {
        Dec { int: i.to_string(), frac: frac.to_string() }
    }
    /// Parses `digits[.digits]`.
    pub fn parse(s: &str) -> Option<Dec> {
        let (a, b) = match s.find('.') {
            Some(p) => {
                if s[p + 1..].is_empty() {
                    return None;
                }
                (&s[..p], &s[p + 1..])
            }
            None => (s, ""),
        };
        if a.is_empty() || !a.bytes().all(|c| c.is_ascii_digit()) || !b.bytes().all(|c| c.is_ascii_digit()) {
            return None;
        }
        let t = a.trim_start_matches('0');
        Some(Dec { int: if t.is_empty() { "0".into() } else { t.into() }, frac: b.into() })
    }
    pub fn text(&self) -> String {
        if self.frac.is_empty() { self.int.clone() } else { format!("{}.{}", self.int, self.frac) }
    }
    pub fn trimmed(&self) -> &str {
        self.frac.trim_end_matches('0')
    }
    /// Significant digits needed to write the number.
    pub fn sig_digits(&self) -> usize {
        let all = format!("{}{}", self.int, self.trimmed());
        all.trim_start_matches('0').len()
    }
    /// The domain in which a double cannot confuse the number with another one of the domain.
    pub fn in_domain(&self) -> bool {
        digits_u64(&self.int).is_some()
            && digits_u64(&self.frac).is_some()
            && (self.trimmed().is_empty() || self.sig_digits() <= 15)
    }
    pub fn ops(&self) -> Option<Ops> {
        let t = self.trimmed();
        Some(Ops {
            n: self.text().parse::<f64>().ok()?,
            i: digits_u64(&self.int)?,
            v: self.frac.len(),
            w: t.len(),
            f: digits_u64(&self.frac)?,
            t: digits_u64(t)?,
        })
    }
}
