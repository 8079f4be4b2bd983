//! Environment model for rand: every random draw is an arbitrary value of
//! its documented range; in a replay the values come from the counterexample.
pub struct AnyRng;
pub trait RngCore {}
impl RngCore for AnyRng {}
impl<R: RngCore> RngCore for &mut R {}

pub trait SampleUnit {
    fn draw() -> Self;
}
impl SampleUnit for f64 {
    fn draw() -> f64 {
        if let Some(v) = vapi::fixed_draw() {
            return v;
        }
        vapi::any_in("rand.unit", 0.0, 1.0, true, true)
    }
}
impl SampleUnit for bool {
    fn draw() -> bool {
        vapi::choose("rand.bool", 2) == 1
    }
}
pub trait SampleRange<T> {
    fn draw(self) -> T;
}
impl SampleRange<usize> for std::ops::Range<usize> {
    fn draw(self) -> usize {
        self.start + vapi::choose("rand.range", self.end - self.start)
    }
}
impl SampleRange<usize> for std::ops::RangeInclusive<usize> {
    fn draw(self) -> usize {
        self.start() + vapi::choose("rand.range", self.end() + 1 - self.start())
    }
}
impl SampleRange<f64> for std::ops::Range<f64> {
    fn draw(self) -> f64 {
        vapi::any_in("rand.range", self.start, self.end, false, true)
    }
}
pub trait Rng: RngCore {
    fn gen<T: SampleUnit>(&mut self) -> T {
        T::draw()
    }
    fn gen_range<T, R: SampleRange<T>>(&mut self, r: R) -> T {
        r.draw()
    }
    fn gen_bool(&mut self, _p: f64) -> bool {
        bool::draw()
    }
    fn sample<T, D: distributions::Distribution<T>>(&mut self, d: D) -> T
    where
        Self: Sized,
    {
        d.sample(self)
    }
}
impl<R: RngCore> Rng for R {}

pub trait SeedableRng: Sized {
    fn seed_from_u64(s: u64) -> Self;
    fn from_entropy() -> Self {
        Self::seed_from_u64(0)
    }
}
pub type ThreadRng = AnyRng;
pub fn thread_rng() -> AnyRng {
    vapi::model("rand::thread_rng: arbitrary draws");
    AnyRng
}
pub mod rngs {
    pub struct StdRng;
    impl super::RngCore for StdRng {}
    impl super::SeedableRng for StdRng {
        fn seed_from_u64(_s: u64) -> StdRng {
            vapi::model("rand::StdRng: arbitrary draws (any seed)");
            StdRng
        }
    }
    pub type SmallRng = StdRng;
    pub use super::ThreadRng;
}
pub mod distributions {
    use super::RngCore;
    pub trait Distribution<T> {
        fn sample<R: RngCore + ?Sized>(&self, rng: &mut R) -> T;
        fn sample_iter<R: RngCore>(self, rng: R) -> Iter<Self, R, T>
        where
            Self: Sized,
        {
            Iter { d: self, r: rng, p: std::marker::PhantomData }
        }
    }
    impl<'a, T, D: Distribution<T> + ?Sized> Distribution<T> for &'a D {
        fn sample<R: RngCore + ?Sized>(&self, rng: &mut R) -> T {
            (*self).sample(rng)
        }
    }
    pub struct Iter<D, R, T> {
        d: D,
        r: R,
        p: std::marker::PhantomData<T>,
    }
    impl<D: Distribution<T>, R: RngCore, T> Iterator for Iter<D, R, T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            Some(self.d.sample(&mut self.r))
        }
    }
}
pub mod seq {
    pub trait SliceRandom {
        type Item;
        fn shuffle<R: super::RngCore + ?Sized>(&mut self, rng: &mut R);
        fn choose<R: super::RngCore + ?Sized>(&self, rng: &mut R) -> Option<&Self::Item>;
    }
    impl<T> SliceRandom for [T] {
        type Item = T;
        fn shuffle<R: super::RngCore + ?Sized>(&mut self, _rng: &mut R) {
            for i in (1..self.len()).rev() {
                let j = vapi::choose("rand.shuffle", i + 1);
                self.swap(i, j);
            }
        }
        fn choose<R: super::RngCore + ?Sized>(&self, _rng: &mut R) -> Option<&T> {
            if self.is_empty() {
                None
            } else {
                Some(&self[vapi::choose("rand.choose", self.len())])
            }
        }
    }
    pub mod index {
        pub struct IndexVec(Vec<usize>);
        impl IntoIterator for IndexVec {
            type Item = usize;
            type IntoIter = std::vec::IntoIter<usize>;
            fn into_iter(self) -> Self::IntoIter {
                self.0.into_iter()
            }
        }
        impl IndexVec {
            pub fn iter(&self) -> std::iter::Copied<std::slice::Iter<'_, usize>> {
                self.0.iter().copied()
            }
            pub fn into_vec(self) -> Vec<usize> {
                self.0
            }
            pub fn len(&self) -> usize {
                self.0.len()
            }
        }
        #[derive(Debug)]
        pub struct WeightedError;
        /// `amount` distinct indices, each of positive weight where possible
        pub fn sample_weighted<R, F, X>(
            _rng: &mut R,
            length: usize,
            weight: F,
            amount: usize,
        ) -> Result<IndexVec, WeightedError>
        where
            R: super::super::RngCore + ?Sized,
            F: Fn(usize) -> X,
            X: Into<f64>,
        {
            if amount > length {
                return Err(WeightedError);
            }
            for i in 0..length {
                let w: f64 = weight(i).into();
                if !(w >= 0.0) {
                    return Err(WeightedError);
                }
            }
            let mut left: Vec<usize> = (0..length).collect();
            let mut out = vec![];
            for _ in 0..amount {
                let k = vapi::choose("rand.index", left.len());
                out.push(left.remove(k));
            }
            Ok(IndexVec(out))
        }
        pub fn sample<R: super::super::RngCore + ?Sized>(_rng: &mut R, length: usize, amount: usize) -> IndexVec {
            let mut left: Vec<usize> = (0..length).collect();
            let mut out = vec![];
            for _ in 0..amount {
                let k = vapi::choose("rand.index", left.len());
                out.push(left.remove(k));
            }
            IndexVec(out)
        }
    }
}
pub mod prelude {
    pub use super::distributions::Distribution;
    pub use super::rngs::StdRng;
    pub use super::seq::SliceRandom;
    pub use super::{thread_rng, Rng, RngCore, SeedableRng, ThreadRng};
}
