//! Concrete offsets for the grid indices of the specification.
use crate::util::Rng;

pub const MAX_FILE_SIZE: u64 = (u32::MAX as u64 - 10) * 4096;
pub const PAGE: u64 = 65536;

pub struct GridSpec {
    pub ng: usize,
    pub max_idx: usize,
    pub wide: Vec<usize>,
}

/// ng strictly increasing offsets, the first one is 0.
pub fn make(family: &str, spec: &GridSpec, cs: u64, rng: &mut Rng) -> Vec<u128> {
    let ng = spec.ng;
    let g: Vec<u128> = match family {
        "tiny" => {
            let mut v = vec![0u64];
            while v.len() < ng {
                let l = *v.last().unwrap();
                v.push(l + rng.range(1, 9));
            }
            conv(v)
        }
        "near" => conv(near(ng, 0, cs, 3, rng)),
        "span" => {
            let k = *rng.pick(&[20u64, 99, 101, 130, 300]);
            let k = if cs > 16384 { k.min(40) } else { k };
            conv(near(ng, 0, cs, k, rng))
        }
        // more chunks than one page can list as free, or than the cache of their places holds
        "huge" => {
            let k = *rng.pick(&[1026u64, 8300, 8300, 8900, 10100]);
            let k = k.min(45_000_000 / cs);
            let mut v = near(ng / 2 + 1, 0, cs, 2, rng);
            for x in &near(ng - v.len() + 1, 0, cs, 2, rng)[1..] {
                v.push((k - 5) * cs + x);
            }
            conv(v)
        }
        "page" => {
            let mut v = page(spec.max_idx + 1, rng);
            // beyond the maximum
            while v.len() < ng {
                let l = (*v.last().unwrap()).max(MAX_FILE_SIZE as u128);
                v.push(l + *rng.pick(&[1u64, 2, 4096, PAGE, 1 << 43]) as u128);
            }
            v
        }
        "far" => {
            let w = spec.wide[0];
            let mut v = near(w, 0, cs, 2, rng);
            let lo = *v.last().unwrap();
            let bases = [
                cs * 64, cs * 99, cs * 100, cs * 101, cs * 1023, cs * 1024, cs * 1025, cs * 5000,
                (1u64 << 32) - cs, 1 << 32, cs << 20, 1 << 40, (1u64 << 43) - cs,
            ];
            let mut b = *rng.pick(&bases);
            while b <= lo + cs {
                b += 100 * cs;
            }
            let tail = near(ng - w + 1, 0, cs, 2, rng);
            for x in &tail[1..] {
                v.push(b + x - 1);
            }
            conv(v)
        }
        "max" | "ext" => {
            let w = spec.wide[0];
            let mut v = conv(near(w, 0, cs, 2, rng));
            // the points w..=max_idx end at the maximum
            let n = spec.max_idx + 1 - w;
            let top = MAX_FILE_SIZE as u128 - if rng.pct(25) { rng.range(1, 5) as u128 } else { 0 };
            let mut t: Vec<u128> = vec![top];
            while t.len() < n {
                let l = *t.last().unwrap();
                t.push(l - *rng.pick(&[1u64, 2, 7, 100, 4095, 4096, 4097, cs - 1, cs, cs + 1]) as u128);
            }
            t.reverse();
            v.extend(t);
            let w2 = spec.wide.get(1).copied().unwrap_or(ng);
            while v.len() < w2.min(ng) {
                let l = (*v.last().unwrap()).max(MAX_FILE_SIZE as u128);
                v.push(l + *rng.pick(&[1u64, 2, 100, 4096, cs]) as u128);
            }
            if w2 < ng {
                // close to the end of the 64-bit range; the last point is beyond it
                let k = ng - w2;
                let big = [
                    u64::MAX as u128 - 1,
                    u64::MAX as u128 - rng.range(2, 70000) as u128,
                    i64::MAX as u128,
                    i64::MAX as u128 + 1,
                    1u128 << 44,
                    (1u128 << 44) - 40961 + 4096,
                    (1u128 << 44) + rng.range(1, 1 << 20) as u128,
                    1u128 << 48,
                    1u128 << 50,
                ];
                let mut pool: Vec<u128> = big.iter().copied().filter(|x| x > v.last().unwrap()).collect();
                pool.sort();
                pool.dedup();
                while pool.len() > k - 1 {
                    let i = rng.below(pool.len() as u64) as usize;
                    // keep a point at the very end
                    if i < pool.len() - 1 {
                        pool.remove(i);
                    }
                }
                v.extend(pool);
                let l = *v.last().unwrap();
                v.push(l.max(u64::MAX as u128 - 70000) + 70002);
            }
            v
        }
        f => panic!("unknown grid family {f}"),
    };
    assert_eq!(g.len(), ng, "{family}");
    assert!(g.windows(2).all(|w| w[0] < w[1]), "{family} {g:?}");
    g
}

fn conv(v: Vec<u64>) -> Vec<u128> {
    v.into_iter().map(|x| x as u128).collect()
}

/// n points starting with 0, around the chunk boundaries 0..=k
fn near(n: usize, base: u64, cs: u64, k: u64, rng: &mut Rng) -> Vec<u64> {
    let mut v: Vec<u64> = vec![0];
    let mut guard = 0;
    while v.len() < n {
        guard += 1;
        let b = cs * rng.range(if base == 0 { 0 } else { 1 }, k);
        let x = match rng.below(10) {
            0 | 1 | 2 => b,
            3 => b + 1,
            4 => b.wrapping_sub(1),
            5 => b + rng.below(cs),
            6 => 4096 * rng.range(1, (k * cs / 4096).max(1)),
            7 => (4096 * rng.range(1, (k * cs / 4096).max(1))).wrapping_sub(1),
            8 => rng.range(1, 300),
            _ => b + cs / 2,
        };
        if x > 0 && x <= cs * (k + 1) && (!v.contains(&x) || guard > 1000) {
            if v.contains(&x) {
                v.push(v.iter().max().unwrap() + 1);
            } else {
                v.push(x);
            }
        }
    }
    v.sort();
    v
}

/// even indices are page multiples, PageUp[odd] = odd + 1
fn page(n: usize, rng: &mut Rng) -> Vec<u128> {
    let mut v: Vec<u64> = vec![0];
    let mut pg = 0;
    while v.len() < n {
        let k = if rng.pct(80) { 1 } else { 2 };
        let prev = pg * PAGE;
        pg += k;
        let lo = (pg - 1) * PAGE;
        let x = match rng.below(6) {
            0 => lo + 1,
            1 => lo + PAGE - 1,
            2 => lo + 4096,
            3 => lo + rng.range(1, PAGE - 1),
            4 => lo + 16384,
            _ => lo + rng.range(1, 100),
        };
        v.push(x.max(prev + 1));
        if v.len() < n {
            v.push(pg * PAGE);
        }
    }
    conv(v)
}
