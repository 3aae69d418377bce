
pub const SQRT_2PI: f64 = 2.5066282746310005024157652848110452530069867406099;

pub const LN_PI: f64 = 1.1447298858494001741434273513530587116472948129153;

pub const LN_SQRT_2PI: f64 = 0.91893853320467274178032973640561763986139747363778;

pub const LN_SQRT_2PIE: f64 = 1.4189385332046727417803297364056176398613974736378;

pub const LN_2_SQRT_E_OVER_PI: f64 = 0.6207822376352452223455184457816472122518527279025978;

pub const TWO_SQRT_E_OVER_PI: f64 = 1.8603827342052657173362492472666631120594218414085755;

pub const EULER_MASCHERONI: f64 =
    0.5772156649015328606065120900824024310421593359399235988057672348849;

pub const ACC: f64 = 10e-11;
