pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Self {
        Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn chance(&mut self, pct: usize) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a, T>(&mut self, l: &'a [T]) -> &'a T {
        &l[self.below(l.len())]
    }
    /// a byte that is likely to be special
    pub fn byte(&mut self) -> u8 {
        const SP: &[u8] = b"\x00\x01\x09\x0a\x0d\x1f ~\x7f\x80\xfe\xff:/[]\\\\nxf0aAZz9-+=_";
        if self.chance(60) {
            *self.pick(SP)
        } else {
            self.next() as u8
        }
    }
    pub fn bytes(&mut self, max: usize) -> Vec<u8> {
        let n = self.below(max + 1);
        (0..n).map(|_| self.byte()).collect()
    }
    pub fn exact(&mut self, n: usize) -> Vec<u8> {
        match self.below(5) {
            0 => {
                let z = self.below(n + 1);
                (0..n).map(|i| if i < z { 0 } else { self.byte() }).collect()
            }
            1 => {
                let z = self.below(n + 1);
                (0..n).map(|i| if i < z { 255 } else { self.byte() }).collect()
            }
            2 => {
                let z = self.below(n + 1);
                (0..n).map(|i| if i >= z { 0 } else { self.byte() }).collect()
            }
            _ => (0..n).map(|_| self.byte()).collect(),
        }
    }
    /// well or badly formed text of a number
    pub fn number(&mut self) -> Vec<u8> {
        const EDGE: &[&str] = &[
            "0", "1", "2", "3", "7", "8", "9", "15", "16", "17", "31", "32", "127", "128", "254", "255", "256", "257", "65535", "65536",
            "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615",
            "18446744073709551616", "340282366920938463463374607431768211455", "340282366920938463463374607431768211456",
            "00", "007", "+1", "+", "-", "-0", "-1", "-2", "-3", "-9223372036854775808", "-9223372036854775809", "", " 1", "1 ", "0x1", "1_0",
        ];
        if self.chance(50) {
            self.pick(EDGE).as_bytes().to_vec()
        } else {
            let v = match self.below(4) {
                0 => self.below(20) as u128,
                1 => self.below(300) as u128,
                2 => self.next() as u128,
                _ => (self.next() as u128) << 64 | self.next() as u128,
            };
            let s = v.to_string();
            s[..1 + self.below(s.len())].as_bytes().to_vec()
        }
    }
}
