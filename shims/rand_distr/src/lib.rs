//! Environment model for rand_distr: a normal draw is an arbitrary real.
pub use rand::distributions::Distribution;
#[derive(Clone, Copy, Debug)]
pub struct Normal<T>(T, T);
#[derive(Debug)]
pub enum NormalError {
    BadVariance,
}
impl Normal<f64> {
    pub fn new(m: f64, s: f64) -> Result<Normal<f64>, NormalError> {
        if s < 0.0 {
            return Err(NormalError::BadVariance);
        }
        Ok(Normal(m, s))
    }
}
impl Distribution<f64> for Normal<f64> {
    fn sample<R: rand::RngCore + ?Sized>(&self, _rng: &mut R) -> f64 {
        if let Some(v) = vapi::queued_normal() {
            return v;
        }
        vapi::any("rand.normal")
    }
}
