#[derive(Debug, Copy, Clone)]
pub enum RankTieBreaker {
    Average,
    Min,
    Max,
    First,
}

pub trait Statistics<T> {
    fn min(self) -> T;

    fn max(self) -> T;

    fn abs_min(self) -> T;

    fn abs_max(self) -> T;

    fn mean(self) -> T;

    fn geometric_mean(self) -> T;

    fn harmonic_mean(self) -> T;

    fn variance(self) -> T;

    fn std_dev(self) -> T;

    fn population_variance(self) -> T;

    fn population_std_dev(self) -> T;

    fn covariance(self, other: Self) -> T;

    fn population_covariance(self, other: Self) -> T;

    fn quadratic_mean(self) -> T;
}
