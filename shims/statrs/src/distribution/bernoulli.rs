use crate::distribution::{Binomial, Discrete, DiscreteCDF};
use crate::statistics::*;
use crate::Result;
use rand::Rng;

#[derive(Debug, Copy, Clone, PartialEq)]
pub struct Bernoulli {
    b: Binomial,
}

impl Bernoulli {
    pub fn new(p: f64) -> Result<Bernoulli> {
        Binomial::new(p, 1).map(|b| Bernoulli { b })
    }

    pub fn p(&self) -> f64 {
        self.b.p()
    }

    pub fn n(&self) -> u64 {
        1
    }
}

impl ::rand::distributions::Distribution<f64> for Bernoulli {
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
        rng.gen_bool(self.p()) as u8 as f64
    }
}

impl DiscreteCDF<u64, f64> for Bernoulli {
    fn cdf(&self, x: u64) -> f64 {
        self.b.cdf(x)
    }

    fn sf(&self, x: u64) -> f64 {
        self.b.sf(x)
    }
}

impl Min<u64> for Bernoulli {
    fn min(&self) -> u64 {
        0
    }
}

impl Max<u64> for Bernoulli {
    fn max(&self) -> u64 {
        1
    }
}

impl Distribution<f64> for Bernoulli {
    fn mean(&self) -> Option<f64> {
        self.b.mean()
    }
    fn variance(&self) -> Option<f64> {
        self.b.variance()
    }
    fn entropy(&self) -> Option<f64> {
        self.b.entropy()
    }
    fn skewness(&self) -> Option<f64> {
        self.b.skewness()
    }
}

impl Median<f64> for Bernoulli {
    fn median(&self) -> f64 {
        self.b.median()
    }
}

impl Mode<Option<u64>> for Bernoulli {
    fn mode(&self) -> Option<u64> {
        self.b.mode()
    }
}

impl Discrete<u64, f64> for Bernoulli {
    fn pmf(&self, x: u64) -> f64 {
        self.b.pmf(x)
    }

    fn ln_pmf(&self, x: u64) -> f64 {
        self.b.ln_pmf(x)
    }
}

#[rustfmt::skip]
#[cfg(all(test, feature = "nightly"))]
mod testing {
    use std::fmt::Debug;
    use crate::distribution::DiscreteCDF;
    use super::Bernoulli;

    fn try_create(p: f64) -> Bernoulli {
        let n = Bernoulli::new(p);
        assert!(n.is_ok());
        n.unwrap()
    }

    fn create_case(p: f64) {
        let dist = try_create(p);
        assert_eq!(p, dist.p());
    }

    fn bad_create_case(p: f64) {
        let n = Bernoulli::new(p);
        assert!(n.is_err());
    }

    fn get_value<T, F>(p: f64, eval: F) -> T
        where T: PartialEq + Debug,
              F: Fn(Bernoulli) -> T
    {
        let n = try_create(p);
        eval(n)
    }

    fn test_case<T, F>(p: f64, expected: T, eval: F)
        where T: PartialEq + Debug,
              F: Fn(Bernoulli) -> T
    {
        let x = get_value(p, eval);
        assert_eq!(expected, x);
    }

    fn test_almost<F>(p: f64, expected: f64, acc: f64, eval: F)
        where F: Fn(Bernoulli) -> f64
    {
        let x = get_value(p, eval);
        assert_almost_eq!(expected, x, acc);
    }

    #[test]
    fn test_create() {
        create_case(0.0);
        create_case(0.3);
        create_case(1.0);
    }

    #[test]
    fn test_bad_create() {
        bad_create_case(f64::NAN);
        bad_create_case(-1.0);
        bad_create_case(2.0);
    }

    #[test]
    fn test_cdf_upper_bound() {
        let cdf = |arg: u64| move |x: Bernoulli| x.cdf(arg);
        test_case(0.3, 1., cdf(1));
    }

    #[test]
    fn test_sf_upper_bound() {
        let sf = |arg: u64| move |x: Bernoulli| x.sf(arg);
        test_case(0.3, 0., sf(1));
    }

    #[test]
    fn test_cdf() {
        let cdf = |arg: u64| move |x: Bernoulli| x.cdf(arg);
        test_case(0.0, 1.0, cdf(0));
        test_case(0.0, 1.0, cdf(1));
        test_almost(0.3, 0.7, 1e-15, cdf(0));
        test_almost(0.7, 0.3, 1e-15, cdf(0));
    }

    #[test]
    fn test_sf() {
        let sf = |arg: u64| move |x: Bernoulli| x.sf(arg);
        test_case(0.0, 0.0, sf(0));
        test_case(0.0, 0.0, sf(1));
        test_almost(0.3, 0.3, 1e-15, sf(0));
        test_almost(0.7, 0.7, 1e-15, sf(0));
    }
}
