//! Numerical values of the special functions (same algorithms as statrs 0.16), used to evaluate
//! concrete applications and to correct solver models of the uninterpreted ones.
const GAMMA_R: f64 = 10.900511;
const LN_PI: f64 = 1.1447298858494001741434273513530587116472948129153;
const LN_2_SQRT_E_OVER_PI: f64 = 0.6207822376352452223455184457816472122518527279025978;
const GAMMA_DK: &[f64] = &[
    2.48574089138753565546e-5,
    1.05142378581721974210,
    -3.45687097222016235469,
    4.51227709466894823700,
    -2.98285225323576655721,
    1.05639711577126713077,
    -1.95428773191645869583e-1,
    1.70970543404441224307e-2,
    -5.71926117404305781283e-4,
    4.63399473359905636708e-6,
    -2.71994908488607703910e-9,
];
pub fn ln_gamma(x: f64) -> f64 {
    use std::f64::consts::*;
    if x < 0.5 {
        let s = GAMMA_DK.iter().enumerate().skip(1).fold(GAMMA_DK[0], |s, t| s + t.1 / (t.0 as f64 - x));
        LN_PI - (PI * x).sin().ln() - s.ln() - LN_2_SQRT_E_OVER_PI - (0.5 - x) * ((0.5 - x + GAMMA_R) / E).ln()
    } else {
        let s = GAMMA_DK.iter().enumerate().skip(1).fold(GAMMA_DK[0], |s, t| s + t.1 / (x + t.0 as f64 - 1.0));
        s.ln() + LN_2_SQRT_E_OVER_PI + (x - 0.5) * ((x - 0.5 + GAMMA_R) / E).ln()
    }
}
pub fn gamma_lr(a: f64, x: f64) -> f64 {
    if a.is_nan() || x.is_nan() {
        return f64::NAN;
    }
    let eps = 0.000000000000001;
    let big = 4503599627370496.0;
    let big_inv = 2.22044604925031308085e-16;
    let ax = a * x.ln() - x - ln_gamma(a);
    if ax < -709.78271289338399 {
        return if a < x { 1.0 } else { 0.0 };
    }
    if x <= 1.0 || x <= a {
        let mut r2 = a;
        let mut c2 = 1.0;
        let mut ans2 = 1.0;
        loop {
            r2 += 1.0;
            c2 *= x / r2;
            ans2 += c2;
            if c2 / ans2 <= eps {
                break;
            }
        }
        return ax.exp() * ans2 / a;
    }
    let mut y = 1.0 - a;
    let mut z = x + y + 1.0;
    let mut c = 0;
    let (mut p3, mut q3, mut p2, mut q2) = (1.0f64, x, x + 1.0, z * x);
    let mut ans = p2 / q2;
    loop {
        y += 1.0;
        z += 2.0;
        c += 1;
        let yc = y * f64::from(c);
        let p = p2 * z - p3 * yc;
        let q = q2 * z - q3 * yc;
        p3 = p2;
        p2 = p;
        q3 = q2;
        q2 = q;
        if p.abs() > big {
            p3 *= big_inv;
            p2 *= big_inv;
            q3 *= big_inv;
            q2 *= big_inv;
        }
        if q != 0.0 {
            let nextans = p / q;
            let error = ((ans - nextans) / nextans).abs();
            ans = nextans;
            if error <= eps {
                break;
            }
        }
    }
    1.0 - ax.exp() * ans
}
pub fn beta_reg(a: f64, b: f64, x: f64) -> f64 {
    if a <= 0.0 || b <= 0.0 || !(0.0..=1.0).contains(&x) {
        return f64::NAN;
    }
    let bt = if x == 0.0 || (x - 1.0).abs() < 1e-15 {
        0.0
    } else {
        (ln_gamma(a + b) - ln_gamma(a) - ln_gamma(b) + a * x.ln() + b * (1.0 - x).ln()).exp()
    };
    let symm = x >= (a + 1.0) / (a + b + 2.0);
    let eps = 0.00000000000000011102230246251565;
    let fpmin = f64::MIN_POSITIVE / eps;
    let (mut a, mut b, mut x) = (a, b, x);
    if symm {
        std::mem::swap(&mut a, &mut b);
        x = 1.0 - x;
    }
    let (qab, qap, qam) = (a + b, a + 1.0, a - 1.0);
    let mut c = 1.0;
    let mut d: f64 = 1.0 - qab * x / qap;
    if d.abs() < fpmin {
        d = fpmin;
    }
    d = 1.0 / d;
    let mut h = d;
    for m in 1..141 {
        let m = f64::from(m);
        let m2 = m * 2.0;
        let mut aa = m * (b - m) * x / ((qam + m2) * (a + m2));
        d = 1.0 + aa * d;
        if d.abs() < fpmin {
            d = fpmin;
        }
        c = 1.0 + aa / c;
        if f64::abs(c) < fpmin {
            c = fpmin;
        }
        d = 1.0 / d;
        h = h * d * c;
        aa = -(a + m) * (qab + m) * x / ((a + m2) * (qap + m2));
        d = 1.0 + aa * d;
        if d.abs() < fpmin {
            d = fpmin;
        }
        c = 1.0 + aa / c;
        if f64::abs(c) < fpmin {
            c = fpmin;
        }
        d = 1.0 / d;
        let del = d * c;
        h *= del;
        if (del - 1.0).abs() <= eps {
            break;
        }
    }
    if symm {
        1.0 - bt * h / a
    } else {
        bt * h / a
    }
}
pub fn chi2_cdf(df: f64, x: f64) -> f64 {
    if x.is_nan() {
        return f64::NAN;
    }
    if x <= 0.0 {
        0.0
    } else if x.is_infinite() {
        1.0
    } else {
        gamma_lr(df / 2.0, x * 0.5)
    }
}
pub fn f_cdf(d1: f64, d2: f64, x: f64) -> f64 {
    if x.is_nan() {
        return f64::NAN;
    }
    if x < 0.0 {
        0.0
    } else if x.is_infinite() {
        1.0
    } else {
        beta_reg(d1 / 2.0, d2 / 2.0, d1 * x / (d1 * x + d2))
    }
}
pub fn normal_cdf(x: f64) -> f64 {
    let c = chi2_cdf(1.0, x * x);
    if x.is_nan() {
        f64::NAN
    } else if x < 0.0 {
        0.5 * (1.0 - c).max(0.0)
    } else {
        0.5 * (1.0 + c)
    }
}
