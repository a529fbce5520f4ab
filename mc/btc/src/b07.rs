use bitcoin::utils::*;
use crate::spec::*;
use kit::*;
use primitive_types::U256;

fn varint(n: u64) -> u64 { let mut v = vec![]; compact(&mut v, n); v.len() as u64 }

#[derive(Clone, Copy, Debug)]
enum Ty { P2PKH, P2WPKH, P2SH(u32, u32) }

/// size in virtual bytes from first principles: per-type input/output sizes of the published calculator
fn vsize(t: Ty, n: u64, pkh: u64, sh: u64, wpkh: u64, ret: u64) -> u64 {
    let per_in4 = match t {
        Ty::P2PKH => 4 * 148,
        Ty::P2WPKH => 271,
        Ty::P2SH(m, k) => {
            let (m, k) = (m as u64, k as u64);
            let redeem = 3 + 34 * k;
            let push = if redeem <= 75 { 1 } else if redeem <= 255 { 2 } else if redeem <= 65535 { 3 } else { 5 };
            let sig = 1 + 73 * m + push + redeem;
            4 * (32 + 4 + varint(sig) + sig + 4)
        }
    };
    let outs = pkh + sh + wpkh + ret;
    let head = 4 * (4 + varint(n) + varint(outs) + 4) + if let Ty::P2WPKH = t { 2 + varint(n) } else { 0 };
    let w = n * per_in4 + 4 * (34 * pkh + 32 * sh + 31 * wpkh + 34 * ret) + head;
    (w + 3) / 4
}

pub fn b07(c: &mut Ctx) {
    c.bound("virtual size: 3 input types (P2SH with 1..3-of-1..5 and 15 keys) x input counts {0..5, 251..256, 65534..65537} x all output counts 0..3 per type and {250..256, 65533..65537} for one type");
    let mut types = vec![Ty::P2PKH, Ty::P2WPKH];
    for k in [1, 2, 3, 4, 5, 7, 8, 15, 20] { for m in 1..=3u32 { if m <= k { types.push(Ty::P2SH(m, k)) } } }
    let ns: Vec<u32> = (0..6).chain(251..257).chain(65534..65538).collect();
    let mut outs: Vec<[u32; 4]> = vec![];
    tuples(4, 4, |v| outs.push([v[0] as u32, v[1] as u32, v[2] as u32, v[3] as u32]));
    for k in (250..257u32).chain(65532..65538) { for p in 0..4 { let mut o = [0; 4]; o[p] = k; outs.push(o); o[(p + 1) % 4] = 1; outs.push(o); } }
    par(c, &types, |c, &t| for &n in &ns {
        for o in &outs {
            let want = vsize(t, n as u64, o[0] as u64, o[1] as u64, o[2] as u64, o[3] as u64);
            let got = guard(|| virtual_transaction_size(
                TransactionInputMetadata { count: n, script_type: match t { Ty::P2PKH => InputType::P2PKH, Ty::P2WPKH => InputType::P2WPKHv0, Ty::P2SH(m, k) => InputType::P2SH { num_signatures: m, num_pubkeys: k } } },
                TransactionOutputMetadata { num_p2pkh: o[0], num_p2sh: o[1], num_p2wpkh: o[2], num_op_return: o[3] }) as u64);
            c.case(1);
            c.eq("virtual-size", || format!("{:?} x {} -> {:?}", t, n, o), &got, &Ok(want));
        }
        c.outcome(match t { Ty::P2PKH => "p2pkh", Ty::P2WPKH => "p2wpkh", _ => "p2sh" });
    });
    // witness-free size of real transactions
    let (i0, o0) = (crate::conv::inputs(1), crate::conv::outputs(1));
    c.bound(format!("witness-free size: {} inputs x 3 outputs x input counts 1,2,252,253 x output counts 1,253", i0.len()));
    par(c, &i0, |c, i| for (k, o) in o0.iter().step_by(o0.len() / 3).enumerate() { for n in [1usize, 2, 252, 253] { for m in [1usize, 253] {
        if n * m > 1000 && i.script.len() + o.script.len() > 100 { continue }
        let t = Tx { version: 1 + (k as i32 & 1), ins: vec![i.clone(); n], outs: vec![o.clone(); m], lock: k as u32 };
        c.case(1);
        c.eq("size-no-witness", || format!("{} x {:?} -> {} outputs", n, i.src, m), &guard(|| crate::conv::to_impl(&t).size_no_witness()), &Ok(t.encode(false).len()));
    } } });
    // log2 / log256: least k with base^k >= value
    let mut vals: Vec<u64> = (1..=5000).collect();
    for k in 0..64 { for d in -2i64..=2 { let v = (1u64 << k).wrapping_add(d as u64); if v > 0 { vals.push(v) } } }
    vals.push(u64::MAX);
    for v in vals {
        let want = { let mut k = 0u32; while k < 64 && (1u128 << k) < v as u128 { k += 1 } k };
        c.case(1);
        c.eq("log2", || format!("log2({})", v), &guard(|| log2(v)), &Ok(want));
    }
    let mut big: Vec<U256> = (1..=3000u64).map(U256::from).collect();
    for k in 0..256 { for d in -2i64..=2 { let b = U256::one() << k; let v = if d < 0 { b.checked_sub(U256::from(-d)) } else { b.checked_add(U256::from(d)) }; if let Some(v) = v { if !v.is_zero() { big.push(v) } } } }
    big.push(U256::MAX);
    for v in big {
        let want = { let mut k = 0u8; while (k as usize) < 32 && (U256::one() << (8 * k as usize)) < v { k += 1 } k };
        c.case(1);
        c.eq("log256", || format!("log256({})", v), &guard(|| log256(&v)), &Ok(want));
    }
    // hashing and byte reversal helpers
    for n in 0..=130usize { for s in 0..3u8 {
        let b: Vec<u8> = (0..n).map(|i| (i as u8).wrapping_mul(31).wrapping_add(s)).collect();
        let d = dsha(&b);
        c.case(5);
        c.eq("sha256d", || hex(&b), &guard(|| sha256d(&b)), &Ok(d));
        c.eq("sha256d-le", || hex(&b), &guard(|| sha256d_le(&b).to_bytes_le()), &Ok(d));
        c.eq("sha256d-be", || hex(&b), &guard(|| sha256d_be(&b).0), &Ok(d));
        let mut r = b.clone(); r.reverse();
        c.eq("reverse", || hex(&b), &guard(|| reverse_endianness(&b)), &Ok(r));
        if n >= 2 { let k = n / 2; c.eq("merkle-step", || hex(&b), &guard(|| hash256_merkle_step(&b[..k], &b[k..]).to_bytes_le()), &Ok(d)); }
    } }
    c.sample("2 x P2WPKH in, 2 x P2PKH + 1 x OP_RETURN out");
}
