use super::RankTieBreaker;

pub trait OrderStatistics<T> {
    fn order_statistic(&mut self, order: usize) -> T;

    fn median(&mut self) -> T;

    fn quantile(&mut self, tau: f64) -> T;

    fn percentile(&mut self, p: usize) -> T;

    fn lower_quartile(&mut self) -> T;

    fn upper_quartile(&mut self) -> T;

    fn interquartile_range(&mut self) -> T;

    fn ranks(&mut self, tie_breaker: RankTieBreaker) -> Vec<T>;
}
