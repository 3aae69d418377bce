use ::num_traits::float::Float;

const STEPS: usize = 1_000;

pub trait Min<T> {
    fn min(&self) -> T;
}

pub trait Max<T> {
    fn max(&self) -> T;
}
pub trait DiscreteDistribution<T: Float>: ::rand::distributions::Distribution<u64> {
    fn mean(&self) -> Option<T> {
        None
    }
    fn variance(&self) -> Option<T> {
        None
    }
    fn std_dev(&self) -> Option<T> {
        self.variance().map(|var| var.sqrt())
    }
    fn entropy(&self) -> Option<T> {
        None
    }
    fn skewness(&self) -> Option<T> {
        None
    }
}

pub trait Distribution<T: Float>: ::rand::distributions::Distribution<T> {
    fn mean(&self) -> Option<T> {
        // TODO: Does not need cryptographic rng
        let mut rng = ::rand::rngs::OsRng;
        let mut mean = T::zero();
        let mut steps = T::zero();
        for _ in 0..STEPS {
            steps = steps + T::one();
            mean = mean + Self::sample(self, &mut rng);
        }
        Some(mean / steps)
    }
    fn variance(&self) -> Option<T> {
        // TODO: Does not need cryptographic rng
        let mut rng = ::rand::rngs::OsRng;
        let mut mean = T::zero();
        let mut variance = T::zero();
        let mut steps = T::zero();
        for _ in 0..STEPS {
            steps = steps + T::one();
            let sample = Self::sample(self, &mut rng);
            variance = variance + (steps - T::one()) * (sample - mean) * (sample - mean) / steps;
            mean = mean + (sample - mean) / steps;
        }
        steps = steps - T::one();
        Some(variance / steps)
    }
    fn std_dev(&self) -> Option<T> {
        self.variance().map(|var| var.sqrt())
    }
    fn entropy(&self) -> Option<T> {
        None
    }
    fn skewness(&self) -> Option<T> {
        None
    }
}

// TODO: Clarify the traits of multidimensional distributions
pub trait MeanN<T> {
    fn mean(&self) -> Option<T>;
}

// TODO: Clarify the traits of multidimensional distributions
pub trait VarianceN<T> {
    fn variance(&self) -> Option<T>;
}

pub trait Median<T> {
    fn median(&self) -> T;
}

pub trait Mode<T> {
    fn mode(&self) -> T;
}
