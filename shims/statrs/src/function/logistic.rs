
use crate::error::StatsError;
use crate::Result;

pub fn logistic(p: f64) -> f64 {
    1.0 / ((-p).exp() + 1.0)
}

pub fn logit(p: f64) -> f64 {
    checked_logit(p).unwrap()
}

pub fn checked_logit(p: f64) -> Result<f64> {
    if !(0.0..=1.0).contains(&p) {
        Err(StatsError::ArgIntervalIncl("p", 0.0, 1.0))
    } else {
        Ok((p / (1.0 - p)).ln())
    }
}
