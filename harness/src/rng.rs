//! Small deterministic RNG (splitmix64 seeding xoshiro256**).
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}
fn sm(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.rotate_left(32) ^ 0xabcdef1234567890;
    sm(&mut x);
    sm(&mut x) ^ b
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        Rng { s: [sm(&mut x), sm(&mut x), sm(&mut x), sm(&mut x)] }
    }
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// uniform in 0..n (n>0)
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n as u64)) as usize
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability p/100
    pub fn pct(&mut self, p: u32) -> bool {
        (self.next() % 100) < p as u64
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.next())
    }
    /// A size with a heavy tail, biased to small and to "interesting" values.
    pub fn size(&mut self, max: usize) -> usize {
        let v = match self.below(10) {
            0 => 0,
            1 => 1,
            2 | 3 => self.range(0, 16),
            4 | 5 => self.range(0, 200),
            6 => {
                let base = *self.pick(&[15usize, 16, 255, 256, 4095, 4096, 8191, 8192, 8193, 16384, 65535, 65536]);
                let d = self.range(0, 4);
                (base + d).saturating_sub(2)
            }
            7 => self.range(0, 5000),
            8 => self.range(0, 20000),
            _ => self.range(0, max),
        };
        v.min(max)
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n);
        while v.len() < n {
            let x = self.next().to_le_bytes();
            let k = (n - v.len()).min(8);
            v.extend_from_slice(&x[..k]);
        }
        v
    }
    /// Body bytes that are self-describing in blocks, often containing framing look-alikes.
    pub fn body(&mut self, n: usize) -> Vec<u8> {
        match self.below(4) {
            0 => self.bytes(n),
            1 => {
                let lure: &[u8] = b"0\r\n\r\nGET /smuggled HTTP/1.1\r\nhost: evil\r\n\r\nHTTP/1.1 200 OK\r\ncontent-length: 3\r\n\r\n5\r\n";
                let off = self.below(lure.len());
                (0..n).map(|i| lure[(i + off) % lure.len()]).collect()
            }
            _ => {
                let tag = self.next() as u32 % 100000;
                let mut v = Vec::with_capacity(n + 16);
                let mut i = 0u32;
                while v.len() < n {
                    v.extend_from_slice(format!("<{:05}:{:05}>", tag, i).as_bytes());
                    i += 1;
                }
                v.truncate(n);
                v
            }
        }
    }
}
