use crate::distribution::{Continuous, ContinuousCDF, Gamma};
use crate::statistics::*;
use crate::Result;
use rand::Rng;
use std::f64;

#[derive(Debug, Copy, Clone, PartialEq)]
pub struct ChiSquared {
    freedom: f64,
    g: Gamma,
}

impl ChiSquared {
    pub fn new(freedom: f64) -> Result<ChiSquared> {
        Gamma::new(freedom / 2.0, 0.5).map(|g| ChiSquared { freedom, g })
    }

    pub fn cdf_orig(&self, x: f64) -> f64 {
        self.g.cdf(x)
    }

    pub fn freedom(&self) -> f64 {
        self.freedom
    }

    pub fn shape(&self) -> f64 {
        self.g.shape()
    }

    pub fn rate(&self) -> f64 {
        self.g.rate()
    }
}

impl ::rand::distributions::Distribution<f64> for ChiSquared {
    fn sample<R: Rng + ?Sized>(&self, r: &mut R) -> f64 {
        ::rand::distributions::Distribution::sample(&self.g, r)
    }
}

impl ContinuousCDF<f64, f64> for ChiSquared {
    fn cdf(&self, x: f64) -> f64 {
        if x.is_nan() || x.is_infinite() || !(x > 0.0) {
            self.g.cdf(x)
        } else {
            crate::function::gamma::chi2_cdf(self.freedom, x)
        }
    }

    fn sf(&self, x: f64) -> f64 {
        if x.is_nan() || x.is_infinite() || !(x > 0.0) {
            self.g.sf(x)
        } else {
            1.0 - crate::function::gamma::chi2_cdf(self.freedom, x)
        }
    }
}

impl Min<f64> for ChiSquared {
    fn min(&self) -> f64 {
        0.0
    }
}

impl Max<f64> for ChiSquared {
    fn max(&self) -> f64 {
        f64::INFINITY
    }
}

impl Distribution<f64> for ChiSquared {
    fn mean(&self) -> Option<f64> {
        self.g.mean()
    }
    fn variance(&self) -> Option<f64> {
        self.g.variance()
    }
    fn entropy(&self) -> Option<f64> {
        self.g.entropy()
    }
    fn skewness(&self) -> Option<f64> {
        self.g.skewness()
    }
}

impl Median<f64> for ChiSquared {
    fn median(&self) -> f64 {
        if self.freedom < 1.0 {
            // if k is small, calculate using expansion of formula
            self.freedom - 2.0 / 3.0 + 12.0 / (81.0 * self.freedom)
                - 8.0 / (729.0 * self.freedom * self.freedom)
        } else {
            // if k is large enough, median heads toward k - 2/3
            self.freedom - 2.0 / 3.0
        }
    }
}

impl Mode<Option<f64>> for ChiSquared {
    fn mode(&self) -> Option<f64> {
        self.g.mode()
    }
}

impl Continuous<f64, f64> for ChiSquared {
    fn pdf(&self, x: f64) -> f64 {
        self.g.pdf(x)
    }

    fn ln_pdf(&self, x: f64) -> f64 {
        self.g.ln_pdf(x)
    }
}

#[rustfmt::skip]
#[cfg(all(test, feature = "nightly"))]
mod tests {
    use crate::statistics::Median;
    use crate::distribution::ChiSquared;
    use crate::distribution::internal::*;
    use crate::consts::ACC;

    fn try_create(freedom: f64) -> ChiSquared {
        let n = ChiSquared::new(freedom);
        assert!(n.is_ok());
        n.unwrap()
    }

    fn test_case<F>(freedom: f64, expected: f64, eval: F)
        where F: Fn(ChiSquared) -> f64
    {
        let n = try_create(freedom);
        let x = eval(n);
        assert_eq!(expected, x);
    }

    fn test_almost<F>(freedom: f64, expected: f64, acc: f64, eval: F)
        where F: Fn(ChiSquared) -> f64
    {
        let n = try_create(freedom);
        let x = eval(n);
        assert_almost_eq!(expected, x, acc);
    }

    #[test]
    fn test_median() {
        let median = |x: ChiSquared| x.median();
        test_almost(0.5, 0.0857338820301783264746, 1e-16, median);
        test_case(1.0, 1.0 - 2.0 / 3.0, median);
        test_case(2.0, 2.0 - 2.0 / 3.0, median);
        test_case(2.5, 2.5 - 2.0 / 3.0, median);
        test_case(3.0, 3.0 - 2.0 / 3.0, median);
    }

    #[test]
    fn test_continuous() {
        // TODO: figure out why this test fails:
        //test::check_continuous_distribution(&try_create(1.0), 0.0, 10.0);
        test::check_continuous_distribution(&try_create(2.0), 0.0, 10.0);
        test::check_continuous_distribution(&try_create(5.0), 0.0, 50.0);
    }
}
