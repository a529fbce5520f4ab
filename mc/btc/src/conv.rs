//! model -> implementation values
use crate::spec::*;
use bitcoin::types::*;
use bitcoin::Script;

pub fn to_impl(t: &Tx) -> Transaction {
    Transaction {
        version: t.version,
        inputs: t.ins.iter().map(|i| TransactionInput {
            source: match &i.src {
                Src::Out(h, n) => TransactionInputSource::FromOutput(H256Le::from_bytes_le(h), *n),
                Src::Coinbase(h) => TransactionInputSource::Coinbase(*h),
            },
            script: i.script.clone(), sequence: i.seq, witness: i.wit.clone(),
        }).collect(),
        outputs: t.outs.iter().map(|o| TransactionOutput { value: o.value, script: Script::from(o.script.clone()) }).collect(),
        lock_at: if t.lock < 500_000_000 { LockTime::BlockHeight(t.lock) } else { LockTime::Time(t.lock) },
    }
}
pub fn from_impl(t: &Transaction) -> Tx {
    Tx {
        version: t.version,
        ins: t.inputs.iter().map(|i| In {
            src: match &i.source {
                TransactionInputSource::FromOutput(h, n) => Src::Out(h.to_bytes_le(), *n),
                TransactionInputSource::Coinbase(h) => Src::Coinbase(*h),
            },
            script: i.script.clone(), seq: i.sequence, wit: i.witness.clone(),
        }).collect(),
        outs: t.outputs.iter().map(|o| Out { value: o.value, script: o.script.as_bytes().to_vec() }).collect(),
        lock: match t.lock_at { LockTime::BlockHeight(b) | LockTime::Time(b) => b },
    }
}

pub fn h(n: u8) -> [u8; 32] { let mut a = [n; 32]; a[0] = 0x11; a[31] = n ^ 0x80; a }

/// input alphabet (small / large)
pub fn inputs(level: usize) -> Vec<In> {
    let mut v = vec![];
    let srcs = [Src::Out(h(1), 0), Src::Out(h(0xff), u32::MAX), Src::Coinbase(None), Src::Coinbase(Some(0)), Src::Coinbase(Some(0x7f)), Src::Coinbase(Some(0x80)),
        Src::Coinbase(Some(0xff)), Src::Coinbase(Some(0x100)), Src::Coinbase(Some(0x7fff)), Src::Coinbase(Some(0x8000)), Src::Coinbase(Some(0xffff)), Src::Coinbase(Some(0x10000)), Src::Coinbase(Some(700_001)), Src::Coinbase(Some(0x7fffff)), Src::Coinbase(Some(0x800000)), Src::Coinbase(Some(0x0100_0000)), Src::Coinbase(Some(0x7fff_ffff))];
    let lens: &[usize] = match level { 0 => &[0, 1, 107], 1 => &[0, 1, 25, 107, 252, 253, 254, 255, 256], _ => &[0, 1, 2, 75, 76, 107, 252, 253, 254, 255, 256, 257, 65534, 65535, 65536, 65537] };
    let wits: Vec<Vec<Vec<u8>>> = match level {
        0 => vec![vec![], vec![vec![3; 2]], vec![vec![], vec![9; 33]]],
        1 => vec![vec![], vec![vec![]], vec![vec![1]], vec![vec![7; 72], vec![2; 33]], vec![vec![4; 252]], vec![vec![4; 253]]],
        _ => vec![vec![], vec![vec![]], vec![vec![5; 65535]], vec![vec![5; 65536]], vec![vec![1]; 252], vec![vec![]; 253], vec![vec![]; 300]],
    };
    for s in &srcs { for &l in lens {
        let cb = matches!(s, Src::Coinbase(_));
        if cb && l > 100 { continue }
        for w in &wits { for seq in [0u32, 0xffff_fffe, u32::MAX] {
            if level == 0 && seq == 0xffff_fffe { continue }
            v.push(In { src: s.clone(), script: (0..l).map(|i| (i * 7 + l) as u8).collect(), seq, wit: w.clone() });
        } }
    } }
    v
}
pub fn outputs(level: usize) -> Vec<Out> {
    let mut v = vec![];
    let lens: &[usize] = match level { 0 => &[0, 22], 1 => &[0, 1, 22, 25, 34, 83, 252, 253, 254, 255, 256], _ => &[0, 1, 22, 252, 253, 255, 256, 9999, 10000] };
    let vals: &[i64] = if level == 0 { &[0, 2_100_000_000_000_000] } else { &[0, 1, 546, 0xfc, 0xfd, 0xffff, 0x1_0000, 0xffff_ffff, 2_100_000_000_000_000, i64::MAX, -1, i64::MIN] };
    for &l in lens { for &x in vals { v.push(Out { value: x, script: (0..l).map(|i| (i * 13 + l) as u8).collect() }); } }
    v
}
