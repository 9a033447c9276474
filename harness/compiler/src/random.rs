//! A small generator of numbers, seeded by VERIF_SEED.

pub struct Random(u64);

impl Random {
    pub fn new(stream: u64) -> Self {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|seed| seed.parse::<u64>().ok()).unwrap_or(1);
        let mut random = Self(seed.wrapping_mul(0x9e3779b97f4a7c15) ^ stream.wrapping_mul(0xd1342543de82ef95) ^ 0x853c49e6748fea9b);
        random.next();
        random.next();
        random
    }

    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut value = self.0;
        value = (value ^ (value >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        value = (value ^ (value >> 27)).wrapping_mul(0x94d049bb133111eb);
        value ^ (value >> 31)
    }

    pub fn below(&mut self, bound: usize) -> usize {
        (self.next() % bound as u64) as usize
    }

    pub fn chance(&mut self, numerator: usize, denominator: usize) -> bool {
        self.below(denominator) < numerator
    }

    pub fn shuffle<T>(&mut self, values: &mut [T]) {
        for index in (1..values.len()).rev() {
            values.swap(index, self.below(index + 1));
        }
    }

    pub fn pick<'a, T: ?Sized>(&mut self, values: &[&'a T]) -> &'a T {
        values[self.below(values.len())]
    }
}

/// How many random programs to run.
pub fn rounds(quick: usize) -> usize {
    if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") {
        quick * 20
    } else {
        quick
    }
}
