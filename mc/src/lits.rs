//! What literals denote, independently of the crate and of the libraries it
//! uses for this.

/// The double nearest to a decimal number (ties to even), by exact
/// arithmetic on big integers.
pub fn decimal(t: &str) -> f64 {
    let neg = t.starts_with('-');
    let t = t.trim_start_matches('-');
    let (mant, exp) = match t.find('e') {
        Some(i) => (&t[..i], &t[i + 1..]),
        None => (t, ""),
    };
    let mut e: i64 = if exp.is_empty() {
        0
    } else {
        // clamp absurd exponents
        let n = exp.starts_with('-');
        let d = exp.trim_start_matches(['+', '-']);
        let mut v: i64 = 0;
        for c in d.chars() {
            v = (v * 10 + c.to_digit(10).unwrap() as i64).min(1_000_000);
        }
        if n {
            -v
        } else {
            v
        }
    };
    let mut digits = Big::zero();
    let mut nonzero = false;
    let mut count = 0i64;
    let mut frac = false;
    for c in mant.chars() {
        if c == '.' {
            frac = true;
            continue;
        }
        let d = c.to_digit(10).unwrap();
        nonzero |= d != 0;
        digits.mul_add(10, d);
        if nonzero {
            count += 1;
        }
        if frac {
            e -= 1;
        }
    }
    let sign = if neg { -1.0 } else { 1.0 };
    if !nonzero {
        return sign * 0.0;
    }
    if count + e > 400 {
        return sign * f64::INFINITY;
    }
    if count + e < -400 {
        return sign * 0.0;
    }
    // value = num / den
    let mut num = digits;
    let mut den = Big::one();
    for _ in 0..e.max(0) {
        num.mul_add(10, 0);
    }
    for _ in 0..(-e).max(0) {
        den.mul_add(10, 0);
    }
    // scale so that 2^53 <= num/den < 2^54, tracking the binary exponent
    let mut bexp: i64 = 0;
    let shift = 54 - (num.bits() as i64 - den.bits() as i64);
    if shift > 0 {
        num.shl(shift as usize);
    } else {
        den.shl((-shift) as usize);
    }
    bexp -= shift;
    // now num/den is in [2^53, 2^55)
    let (mut q, mut rem_nonzero) = num.div_small(&den);
    // q has 54 or 55 bits; bring the exponent to what a double can hold
    // want 53 bits of significand, or fewer for subnormal numbers
    let bits = 64 - q.leading_zeros() as i64;
    let mut drop = bits - 53;
    // smallest exponent of the unit in the last place is -1074
    if bexp + drop < -1074 {
        drop = -1074 - bexp;
    }
    if drop > 63 {
        return sign * 0.0;
    }
    let half = 1u64 << (drop - 1);
    let low = q & ((half << 1) - 1);
    if low > half || (low == half && rem_nonzero) || (low == half && (q >> drop) & 1 == 1) {
        q = (q >> drop) + 1;
    } else {
        q >>= drop;
    }
    rem_nonzero = false;
    let _ = rem_nonzero;
    bexp += drop;
    let mut v = q as f64; // exact, q <= 2^53
    // multiply by 2^bexp in exact steps
    while bexp > 0 {
        let s = bexp.min(900);
        v *= 2f64.powi(s as i32);
        bexp -= s;
        if v.is_infinite() {
            break;
        }
    }
    if bexp < 0 {
        // q * 2^bexp is representable by construction, but 2^bexp may be
        // subnormal: two exact steps
        let s = (-bexp).min(1000);
        let rest = -bexp - s;
        // scaling down twice is exact because the final result is exact
        v = v * 2f64.powi(-(rest as i32)) * 2f64.powi(-(s as i32));
    }
    sign * v
}

struct Big(Vec<u32>);
impl Big {
    fn zero() -> Big {
        Big(vec![])
    }
    fn one() -> Big {
        Big(vec![1])
    }
    fn mul_add(&mut self, m: u32, a: u32) {
        let mut c = a as u64;
        for d in &mut self.0 {
            c += *d as u64 * m as u64;
            *d = c as u32;
            c >>= 32;
        }
        if c > 0 {
            self.0.push(c as u32);
        }
    }
    fn bits(&self) -> usize {
        match self.0.last() {
            None => 0,
            Some(t) => self.0.len() * 32 - t.leading_zeros() as usize,
        }
    }
    fn shl(&mut self, n: usize) {
        let (w, b) = (n / 32, n % 32);
        if b > 0 {
            let mut c = 0u32;
            for d in &mut self.0 {
                let n = (*d << b) | c;
                c = *d >> (32 - b);
                *d = n;
            }
            if c > 0 {
                self.0.push(c);
            }
        }
        let mut v = vec![0; w];
        v.append(&mut self.0);
        self.0 = v;
    }
    fn ge(&self, o: &Big) -> bool {
        let n = self.0.len().max(o.0.len());
        for i in (0..n).rev() {
            let (a, b) = (self.0.get(i).copied().unwrap_or(0), o.0.get(i).copied().unwrap_or(0));
            if a != b {
                return a > b;
            }
        }
        true
    }
    fn sub(&mut self, o: &Big) {
        let mut br = 0i64;
        for i in 0..self.0.len() {
            let mut x = self.0[i] as i64 - br - o.0.get(i).copied().unwrap_or(0) as i64;
            br = 0;
            if x < 0 {
                x += 1 << 32;
                br = 1;
            }
            self.0[i] = x as u32;
        }
        while self.0.last() == Some(&0) {
            self.0.pop();
        }
    }
    /// quotient (below 2^56) and whether there is a remainder
    fn div_small(mut self, d: &Big) -> (u64, bool) {
        let mut q = 0u64;
        for i in (0..56).rev() {
            let mut t = Big(d.0.clone());
            t.shl(i);
            if self.ge(&t) {
                self.sub(&t);
                q |= 1 << i;
            }
        }
        (q, self.bits() > 0)
    }
}

/// Escapes of text and byte strings (RFC 8610 refers to JSON).
pub fn unescape(body: &[char], quote: char) -> Option<String> {
    let mut out = String::new();
    let mut i = 0;
    let hex4 = |at: usize| -> Option<u32> {
        let mut v = 0;
        for k in 0..4 {
            v = v * 16 + body.get(at + k)?.to_digit(16)?;
        }
        Some(v)
    };
    while i < body.len() {
        if body[i] != '\\' {
            out.push(body[i]);
            i += 1;
            continue;
        }
        i += 1;
        let c = *body.get(i)?;
        i += 1;
        out.push(match c {
            'b' => '\u{8}',
            'f' => '\u{c}',
            'n' => '\n',
            'r' => '\r',
            't' => '\t',
            '/' | '\\' | '"' => c,
            '\'' if quote == '\'' => c,
            'u' => {
                let a = hex4(i)?;
                i += 4;
                if (0xd800..0xdc00).contains(&a) {
                    if body.get(i) != Some(&'\\') || body.get(i + 1) != Some(&'u') {
                        return None;
                    }
                    let b = hex4(i + 2)?;
                    i += 6;
                    if !(0xdc00..0xe000).contains(&b) {
                        return None;
                    }
                    char::from_u32(0x10000 + ((a - 0xd800) << 10) + (b - 0xdc00))?
                } else {
                    char::from_u32(a)?
                }
            }
            _ => return None,
        });
    }
    Some(out)
}

pub fn hex_bytes(body: &[char]) -> Option<Vec<u8>> {
    let d: Vec<u32> = body.iter().filter(|c| **c != ' ').map(|c| c.to_digit(16)).collect::<Option<_>>()?;
    if d.len() % 2 != 0 {
        return None;
    }
    Some(d.chunks(2).map(|p| (p[0] * 16 + p[1]) as u8).collect())
}

pub enum B64 {
    Ok(Vec<u8>),
    Bad,
    /// unpadded, classical alphabet, blanks: RFC 8610 is more liberal than
    /// the crate says it is
    Unspec,
}

pub fn base64url(body: &[char]) -> B64 {
    let mut v = vec![];
    let n = body.iter().rev().take_while(|c| **c == '=').count();
    let core = &body[..body.len() - n];
    for c in core {
        let d = match c {
            'A'..='Z' => *c as u32 - 'A' as u32,
            'a'..='z' => *c as u32 - 'a' as u32 + 26,
            '0'..='9' => *c as u32 - '0' as u32 + 52,
            '-' => 62,
            '_' => 63,
            '+' | '/' | ' ' => return B64::Unspec,
            _ => return B64::Bad,
        };
        v.push(d);
    }
    if v.len() % 4 == 1 {
        return B64::Bad;
    }
    let pad = (4 - v.len() % 4) % 4;
    if n != pad {
        return if n == 0 { B64::Unspec } else { B64::Bad };
    }
    let mut out = vec![];
    let (mut acc, mut bits) = (0u32, 0);
    for d in v {
        acc = acc << 6 | d;
        bits += 6;
        if bits >= 8 {
            bits -= 8;
            out.push((acc >> bits) as u8);
            acc &= (1 << bits) - 1;
        }
    }
    if acc != 0 {
        // leftover bits that are not zero
        return B64::Bad;
    }
    B64::Ok(out)
}
