//! Deterministic generator for all random choices (seeded by VERIF_SEED).
pub struct Rng(u64, pub bool);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03, false)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// true once in n
    pub fn one(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    /// A character allowed by the XML Char production
    pub fn xml_char(&mut self) -> char {
        match self.below(12) {
            0..=3 => *self.pick(&['&', '<', '>', '"', '\'', ';', '#', ']', '-', 'x', '=', '/', '+']),
            4..=6 => (b'a' + self.below(26) as u8) as char,
            7 => *self.pick(&[' ', '\t', '\n', '\r', '0', '9', 'A']),
            8 => *self.pick(&['\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{fffd}', '\u{10000}', '\u{10ffff}', '\u{85}', '\u{a0}', '\u{2028}', '\u{feff}']),
            9 => *self.pick(&['é', 'ß', 'Ӓ', 'პ', '€', '漢', '🦀', 'ı', 'İ']),
            _ => loop {
                let hi = *self.pick(&[0x7fu32, 0xff, 0x7ff, 0xffff, 0x10ffff]);
                if let Some(c) = char::from_u32(0x20 + (self.next() as u32) % (hi - 0x20 + 1)) {
                    if crate::xml::xml_char(c) {
                        break c;
                    }
                }
            },
        }
    }
    pub fn string(&mut self) -> String {
        if self.1 && self.one(8) {
            // lengths around those at which something could end
            let n = *self.pick(&[255, 1023, 1024, 4096, 32_767, 65_535, 65_536, 100_000]) + self.below(9) - 4;
            let mut s = self.pick(&["x", "y ", "é", "漢x"]).repeat(n);
            let k = (0..=n.min(s.len())).rev().find(|k| s.is_char_boundary(*k)).unwrap_or(0);
            s.truncate(k);
            for _ in 0..self.below(5) {
                s.push(self.xml_char());
            }
            return s;
        }
        match self.below(20) {
            0 | 1 => return String::new(),
            2 => return self.pick(&["&amp;", "&lt;x", "]]>", "<!-- -->", "<![CDATA[x]]>", "&#38;", "&&", "''", "\"", "amp;", "a&", "&a", "é&", "&é", "<é>", "true", " x ", "\n", "&lt", ";", "a;b", "x\u{10ffff}&"]).to_string(),
            _ => {}
        }
        let n = match self.below(10) {
            0 => self.range(10, 60),
            1..=4 => self.range(1, 3),
            _ => self.range(1, 9),
        };
        (0..n).map(|_| self.xml_char()).collect()
    }
    /// Plain text without any character that needs a reference
    pub fn plain(&mut self, lo: usize, hi: usize) -> String {
        let n = self.range(lo, hi);
        (0..n)
            .map(|_| loop {
                let c = self.xml_char();
                if !matches!(c, '&' | '<' | '>' | '"' | '\'' | ']') {
                    break c;
                }
            })
            .collect()
    }
    pub fn word(&mut self) -> String {
        let n = self.range(1, 6);
        (0..n).map(|_| (b'a' + self.below(26) as u8) as char).collect()
    }
}
