//! The Fourier transforms are what their names say.

use crate::run::*;

pub fn run(c: Ctx) -> i32 {
    // What depends on them and can be seen from outside.
    c.facet(
        "delays",
        "a random signal and a shifted copy, whose delay the correlation must find; non-trivial: the delay is determined",
        400,
        6000,
        || super::c06::cases(6),
        super::c06::compensated,
    );
    #[cfg(visqol_verif = "fft")]
    hooks(&c);
    c.finish("exploration", super::BASE)
}

#[cfg(visqol_verif = "fft")]
fn hooks(c: &Ctx) {
    use crate::gen::Lcg;
    use crate::model::pow2_at_least;
    use proptest::prelude::*;
    use std::f64::consts::PI;
    use visqol_rs::verif_hooks::fft;

    fn noise(n: usize, seed: u32, sparse: f64) -> Vec<f64> {
        let mut g = Lcg::new(seed as u64);
        (0..n).map(|_| if g.unit() < sparse { 0.0 } else { g.sym() }).collect()
    }
    let input = |max: usize| {
        (prop_oneof![2 => 1usize..70, 3 => 1usize..max, 1 => (5u32..9).prop_map(|k| 1usize << k), 1 => (5u32..9).prop_map(|k| (1usize << k) + 1)], any::<u32>(), prop_oneof![2 => Just(0.0), 1 => 0.0..1.0f64])
    };
    c.facet(
        "forward",
        "1..900 random values; transform size, and every coefficient against the directly summed definition; non-trivial: more than one value",
        20_000,
        300_000,
        move || input(900),
        |(n, seed, sparse): &(usize, u32, f64)| {
            let x = noise(*n, *seed, *sparse);
            let (size, y) = fft::forward(&x);
            let want = pow2_at_least(*n).max(32);
            if size != want {
                return Err(format!("size {size} for {n} values, expected {want}"));
            }
            if y.len() != size && y.len() != size / 2 + 1 {
                return Err(format!("{} coefficients for size {size}", y.len()));
            }
            let tw: Vec<(f64, f64)> = (0..size).map(|k| ((2.0 * PI * k as f64 / size as f64).cos(), -(2.0 * PI * k as f64 / size as f64).sin())).collect();
            for (k, (re, im)) in y.iter().enumerate() {
                let (mut a, mut b) = (0.0, 0.0);
                for (i, v) in x.iter().enumerate() {
                    let t = tw[i * k % size];
                    a += v * t.0;
                    b += v * t.1;
                }
                if !((re - a).abs() < 1e-9 && (im - b).abs() < 1e-9) {
                    return Err(format!("coefficient {k} of size {size} is {re}+{im}i, expected {a}+{b}i"));
                }
            }
            Ok(Info::new(*n > 1).when(n.is_power_of_two(), "a power of two"))
        },
    );
    c.facet(
        "round_trip",
        "1..200000 random values forward and back; non-trivial: more than one value",
        10_000,
        20_000,
        || (prop_oneof![6 => 1usize..5000, 1 => 5000usize..200_000], any::<u32>(), Just(0.0)),
        |(n, seed, sparse): &(usize, u32, f64)| {
            let x = noise(*n, *seed, *sparse);
            let (_, y) = fft::forward(&x);
            crate::pair::all_close("value", &fft::inverse(&y, *n)[..*n], &x, 1e-9)?;
            Ok(Info::new(*n > 1))
        },
    );
    c.facet(
        "forward_large",
        "1000..600000 random values; transform size, sum of squares (Parseval), and three coefficients against the directly summed definition; non-trivial: more than 2048 values",
        600,
        8000,
        || (prop_oneof![2 => 1000usize..30_000, 2 => 30_000usize..600_000, 1 => (11u32..20, -2i64..3).prop_map(|(k, d)| ((1i64 << k) + d) as usize)], any::<u32>(), prop::array::uniform3(0.0..1.0f64)),
        |(n, seed, at): &(usize, u32, [f64; 3])| {
            let x = noise(*n, *seed, 0.0);
            let (size, y) = fft::forward(&x);
            let want = pow2_at_least(*n).max(32);
            if size != want {
                return Err(format!("size {size} for {n} values, expected {want}"));
            }
            if y.len() != size && y.len() != size / 2 + 1 {
                return Err(format!("{} coefficients for size {size}", y.len()));
            }
            let energy: f64 = x.iter().map(|v| v * v).sum::<f64>() * size as f64;
            let square = |c: &(f64, f64)| c.0 * c.0 + c.1 * c.1;
            let got: f64 = if y.len() == size {
                y.iter().map(square).sum()
            } else {
                2.0 * y.iter().map(square).sum::<f64>() - square(&y[0]) - square(&y[size / 2])
            };
            if !((got - energy).abs() < 1e-8 * energy) {
                return Err(format!("energy {got} of {n} values, expected {energy}"));
            }
            for f in at {
                let k = (f * y.len() as f64) as usize;
                let (mut a, mut b) = (0.0, 0.0);
                for (i, v) in x.iter().enumerate() {
                    let t = 2.0 * PI * ((i * k) % size) as f64 / size as f64;
                    a += v * t.cos();
                    b -= v * t.sin();
                }
                let (re, im) = y[k];
                if !((re - a).abs() < 1e-7 && (im - b).abs() < 1e-7) {
                    return Err(format!("coefficient {k} of size {size} is {re}+{im}i, expected {a}+{b}i"));
                }
            }
            Ok(Info::new(*n > 2048).when(*n > 200_000, "over 200000 values"))
        },
    );
    #[cfg(visqol_verif = "lag")]
    c.facet(
        "long_lag",
        "the delay that best_lag finds of a copy of 10000..400000 noise samples, moved by up to half its length; non-trivial: moved",
        200,
        3000,
        || (prop_oneof![1 => 10_000usize..60_000, 2 => 60_000usize..400_000], any::<u32>(), -0.49..0.49f64),
        |(n, seed, by): &(usize, u32, f64)| {
            let x = noise(*n, *seed, 0.0);
            let by = (by * *n as f64) as i64;
            let y: Vec<f64> = if by < 0 { x[-by as usize..].to_vec() } else { vec![0.0; by as usize].into_iter().chain(x.iter().copied()).collect() };
            match visqol_rs::verif_hooks::lag::best_lag(&x, &y) {
                Some(l) if l == -by => Ok(Info::new(by != 0).when(*n > 131_072, "over 131072 samples")),
                l => Err(format!("{l:?} for {by} in {n} samples")),
            }
        },
    );
    #[cfg(visqol_verif = "lag")]
    c.facet(
        "long_curves",
        "the delay that best_lag finds between two different positive curves of 1000..400000 values that do not end at zero, against the model; non-trivial: the model's peak is clear of the next",
        160,
        3000,
        || {
            (
                prop_oneof![1 => 1000usize..60_000, 1 => 60_000usize..270_000, 2 => 270_000usize..400_000],
                any::<u32>(),
                prop_oneof![1 => Just(1.0), 2 => 0.3..1.4f64],
                0.0..0.3f64,
                prop::array::uniform2(prop_oneof![1 => Just(0.0), 2 => 0.0..30.0f64]),
            )
        },
        |(n, seed, other, rough, ends): &(usize, u32, f64, f64, [f64; 2])| {
            let mut g = Lcg::new(*seed as u64);
            let mut curve = |n: usize, end: f64| {
                let bumps: Vec<(f64, f64, f64)> = (0..4).map(|_| (g.unit(), 0.01 + 0.1 * g.unit(), g.unit())).collect();
                let mut v: Vec<f64> = (0..n)
                    .map(|i| {
                        let t = i as f64 / n as f64;
                        bumps.iter().map(|(at, w, h)| h * (-((t - at) / w).powi(2)).exp()).sum::<f64>() + rough * g.unit() + 1e-6
                    })
                    .collect();
                *v.last_mut().unwrap() += end;
                v
            };
            let (x, y) = (curve(*n, ends[0]), curve((*n as f64 * other) as usize, ends[1]));
            let (want, margin) = crate::model::best_lag(&x, &y);
            if margin < 1e-9 {
                return Ok(Info::new(false).label("ambiguous: not compared"));
            }
            match visqol_rs::verif_hooks::lag::best_lag(&x, &y) {
                Some(l) if l == want => Ok(Info::new(true).when(*n > 262_144, "over 262144 values")),
                l => Err(format!("{l:?} between {n} and {} values, expected {want}", y.len())),
            }
        },
    );
    c.each(
        "powers_grid",
        "next power of two of every number from 1 to 70000 and around every power up to 2^32; non-trivial: not itself a power of two",
        (0..71usize)
            .map(|k| (k * 1000..(k + 1) * 1000).filter(|n| *n > 0).collect::<Vec<usize>>())
            .chain((1..32u32).map(|k| vec![(1usize << k) - 1, 1 << k, (1 << k) + 1]))
            .chain([vec![(1usize << 32) - 1, 1 << 32]])
            .collect(),
        |v: &Vec<usize>| {
            for n in v {
                if *n > 0 && fft::next_pow_two(*n) != n.next_power_of_two() {
                    return Err(format!("{} for {n}, expected {}", fft::next_pow_two(*n), n.next_power_of_two()));
                }
            }
            Ok(Info::new(true))
        },
    );
}
