use bitcoin::pow::*;
use bitcoin::{GetCompact, SetCompact};
use kit::*;
use primitive_types::U256;

/// Bitcoin's nBits decoding on a plain byte array (no big-integer library): None for negative or overflowing targets.
pub fn spec_decode(bits: u32) -> Option<U256> {
    let exp = (bits >> 24) as usize;
    let mant = bits & 0x007f_ffff;
    let neg = bits & 0x0080_0000 != 0;
    // value = mant * 256^(exp-3), fractional digits dropped
    let m = mant.to_be_bytes(); // [0, b2, b1, b0]
    let mut be = [0u8; 300];
    let mut nonzero_word = false;
    for (k, byte) in [m[1], m[2], m[3]].iter().enumerate() {
        // digit k sits at weight exp-1-k
        let w = exp as i64 - 1 - k as i64;
        if w < 0 { continue }
        if *byte != 0 { nonzero_word = true }
        be[299 - w as usize] = *byte;
    }
    if neg && nonzero_word { return None }
    // overflow: any non-zero byte above 32 bytes
    if be[..268].iter().any(|b| *b != 0) { return None }
    // Bitcoin's fOverflow also fires for digits that are zero but shifted out only when non-zero: same condition
    Some(U256::from_big_endian(&be[268..]))
}
/// Bitcoin's GetCompact on the big-endian byte string
pub fn spec_encode(v: U256) -> u32 {
    let mut be = [0u8; 32];
    v.to_big_endian(&mut be);
    let first = be.iter().position(|b| *b != 0).unwrap_or(32);
    let mut digits: Vec<u8> = be[first..].to_vec();
    let mut size = digits.len();
    if size > 0 && digits[0] & 0x80 != 0 { digits.insert(0, 0); size += 1; }
    digits.resize(digits.len().max(3), 0);
    ((size as u32) << 24) | ((digits[0] as u32) << 16) | ((digits[1] as u32) << 8) | digits[2] as u32
}

/// base-2^32 schoolbook arithmetic for the retarget rule
fn mul_div(v: U256, mul: u64, div: u64) -> Vec<u32> {
    let mut be = [0u8; 32]; v.to_big_endian(&mut be);
    let mut limbs: Vec<u64> = (0..8).map(|i| u32::from_be_bytes(be[i * 4..i * 4 + 4].try_into().unwrap()) as u64).collect();
    limbs.reverse(); limbs.resize(11, 0);
    let mut carry: u128 = 0;
    for l in limbs.iter_mut() { let x = *l as u128 * mul as u128 + carry; *l = (x & 0xffff_ffff) as u64; carry = x >> 32; }
    assert!(carry == 0);
    let mut rem: u128 = 0;
    for l in limbs.iter_mut().rev() { let x = (rem << 32) | *l as u128; *l = (x / div as u128) as u64; rem = x % div as u128; }
    limbs.iter().map(|x| *x as u32).collect()
}
pub fn spec_retarget(prev: U256, first: u64, last: u64) -> u32 {
    let two_weeks: u64 = 1_209_600;
    let span = (last as i128 - first as i128).clamp(two_weeks as i128 / 4, two_weeks as i128 * 4) as u64;
    let l = mul_div(prev, span, two_weeks);
    let limit: [u32; 11] = [u32::MAX, u32::MAX, u32::MAX, u32::MAX, u32::MAX, u32::MAX, u32::MAX, 0, 0, 0, 0];
    let gt = l.iter().rev().cmp(limit.iter().rev()) == std::cmp::Ordering::Greater;
    let l: Vec<u32> = if gt { limit.to_vec() } else { l };
    let mut be = vec![]; for x in l[..8].iter().rev() { be.extend(x.to_be_bytes()) }
    spec_encode(U256::from_big_endian(&be))
}

pub fn b04(c: &mut Ctx) {
    c.bound(c.pick("compact decoding: all 256 exponents x 23k mantissas (all below 2^12, all within 3 of a power of two, all multiples of 2^10, sign bit on/off)", "compact decoding: all 2^32 values"));
    let exps: Vec<u32> = (0..256).collect();
    let thorough = c.thorough();
    let mut mants: Vec<u32> = vec![];
    if !thorough {
        mants.extend(0..0x1000);
        for k in 0..24 { for d in -3i64..=3 { let m = (1i64 << k) + d; if (0..=0xffffff).contains(&m) { mants.push(m as u32) } } }
        for k in 0..0x4000 { mants.push(k << 10); mants.push((k << 10) | 0x3ff) }
        mants.sort(); mants.dedup();
    }
    par(c, &exps, |c, &e| {
        let mut one = |m: u32| {
            let bits = (e << 24) | m;
            let want = spec_decode(bits);
            let got = guard_fast(|| U256::set_compact(bits));
            if got != Ok(want) { c.fail("compact-target-decode", format!("bits {:08x}: implementation {:?}, specification {:?}", bits, got, want), vec![format!("{:08x}", bits)]) }
            c.case(1);
            if let Some(v) = want {
                let wantc = spec_encode(v);
                let got = guard_fast(|| v.get_compact());
                c.transitions += 1;
                if got != Ok(Some(wantc)) { c.fail("compact-target-encode", format!("target {:x}: implementation {:x?}, specification {:08x}", v, got, wantc), vec![format!("{:08x}", bits)]) }
            }
        };
        if thorough { for m in 0..0x100_0000u32 { one(m) } } else { for &m in &mants { one(m) } }
    });
    for o in [(0x1d00ffff_u32, "genesis")] { c.sample(format!("{} {:08x} -> {:?}", o.1, o.0, spec_decode(o.0))) }
    // encoding of targets that are not compact-representable: every bit length, low-bit patterns
    for k in 0..256usize { for pat in 0..8u32 {
        let base = U256::one() << k;
        let v = match pat { 0 => base, 1 => base - 1, 2 => base + (base >> 1), 3 => base + (base >> 8), 4 => base | (base >> 16), 5 => base | (base >> 23) | U256::one(), 6 => base | (base >> 24) | (base >> 7), _ => base + (base - 1) };
        c.case(1);
        c.eq("compact-target-encode", || format!("target {:x}", v), &guard(|| v.get_compact()), &Ok(Some(spec_encode(v))));
    } }
    // retargeting
    let mut prevs = vec![];
    for e in 1..=0x1du32 { for m in [0x01u32, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x123456, 0x40_0000, 0x7f_ffff, 0x00fffe, 0x3f_ffff] {
        if let Some(t) = spec_decode((e << 24) | m) { if t <= UNROUNDED_MAX_TARGET { prevs.push(t) } }
    } }
    prevs.push(UNROUNDED_MAX_TARGET); prevs.push(U256::zero());
    let w: u64 = 1_209_600;
    let mut spans: Vec<i64> = vec![];
    for b in [0i64, 1, w as i64 / 8, w as i64 / 4, w as i64 / 2, w as i64, w as i64 * 2, w as i64 * 4, w as i64 * 5, 600, -1, -100_000, u32::MAX as i64] { for d in [-2i64, -1, 0, 1, 2] { spans.push(b + d) } }
    if c.thorough() { for k in 0..3000 { spans.push(k * 1800 + 7) } }
    c.bound(format!("retargeting: {} previous targets x {} timespans x 3 base times, clamp boundaries +-2 s included", prevs.len(), spans.len()));
    par(c, &prevs, |c, &t| for &s in &spans { for f in [0u64, 1_600_000_000, u32::MAX as u64] {
        let last = f as i64 + s;
        if last < 0 { continue }
        let want = spec_retarget(t, f, last as u64);
        let got = guard(|| calculate_next_work_required(t, f, last as u64).ok());
        c.case(1);
        c.outcome(if (s as i128) < w as i128 / 4 { "clamped low" } else if s as i128 > w as i128 * 4 { "clamped high" } else { "scaled" });
        c.eq("retarget", || format!("previous {:x} first {} last {}", t, f, last), &got, &Ok(Some(want)));
    } });
    c.eq("constants", || "timespan constants and limit".into(), &(TARGET_TIMESPAN, TARGET_TIMESPAN_DIVISOR, UNROUNDED_MAX_TARGET), &(w, 4, (U256::one() << 224) - 1));
    // independent cross-check against rust-bitcoin's target type
    for e in 3..=0x20u32 { for m in [1u32, 0x7f, 0xff, 0x8000, 0x123456, 0x7fffff] {
        let bits = (e << 24) | m;
        let r = rb::Target::from_compact(rb::CompactTarget::from_consensus(bits));
        if let Some(v) = spec_decode(bits) { c.case(1); let mut be = [0; 32]; v.to_big_endian(&mut be); c.ensure("spec-vs-rust-bitcoin", r.to_be_bytes() == be, || format!("{:08x}", bits)); }
    } }
}
/// guard without the bookkeeping of a closure per call being visible in profiles
fn guard_fast<T>(f: impl FnOnce() -> T) -> Result<T, String> { guard(f) }
