//! Reference model of Bitcoin's wire formats, written from the protocol documentation, independent of /repo.
use rb::hashes::{sha256d, hash160, Hash};

pub fn dsha(b: &[u8]) -> [u8; 32] { sha256d::Hash::hash(b).to_byte_array() }
pub fn h160(b: &[u8]) -> [u8; 20] { hash160::Hash::hash(b).to_byte_array() }

pub fn compact(out: &mut Vec<u8>, n: u64) {
    if n <= 0xfc { out.push(n as u8) }
    else if n <= 0xffff { out.push(0xfd); out.extend((n as u16).to_le_bytes()) }
    else if n <= 0xffff_ffff { out.push(0xfe); out.extend((n as u32).to_le_bytes()) }
    else { out.push(0xff); out.extend(n.to_le_bytes()) }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Src { Out([u8; 32], u32), Coinbase(Option<u32>) }
#[derive(Clone, Debug, PartialEq)]
pub struct In { pub src: Src, pub script: Vec<u8>, pub seq: u32, pub wit: Vec<Vec<u8>> }
#[derive(Clone, Debug, PartialEq)]
pub struct Out { pub value: i64, pub script: Vec<u8> }
#[derive(Clone, Debug, PartialEq)]
pub struct Tx { pub version: i32, pub ins: Vec<In>, pub outs: Vec<Out>, pub lock: u32 }

/// BIP34: a push of the minimal little-endian, sign-extended height
pub fn height_push(h: u32) -> Vec<u8> {
    let mut v = h.to_le_bytes().to_vec();
    while v.len() > 1 && *v.last().unwrap() == 0 { v.pop(); }
    if v.last().unwrap() & 0x80 != 0 { v.push(0); }
    let mut r = vec![v.len() as u8];
    r.extend(v);
    r
}

impl In {
    pub fn full_script(&self) -> Vec<u8> {
        match self.src { Src::Coinbase(Some(h)) => { let mut v = height_push(h); v.extend(&self.script); v } _ => self.script.clone() }
    }
}

impl Tx {
    pub fn has_witness(&self) -> bool { self.ins.iter().any(|i| !i.wit.is_empty()) }
    pub fn encode(&self, with_witness: bool) -> Vec<u8> {
        let seg = with_witness && self.has_witness();
        let mut o = self.version.to_le_bytes().to_vec();
        if seg { o.extend([0, 1]); }
        compact(&mut o, self.ins.len() as u64);
        for i in &self.ins {
            match &i.src {
                Src::Out(h, n) => { o.extend(h); o.extend(n.to_le_bytes()) }
                Src::Coinbase(_) => { o.extend([0u8; 32]); o.extend(u32::MAX.to_le_bytes()) }
            }
            let s = i.full_script();
            compact(&mut o, s.len() as u64);
            o.extend(s);
            o.extend(i.seq.to_le_bytes());
        }
        compact(&mut o, self.outs.len() as u64);
        for x in &self.outs { o.extend(x.value.to_le_bytes()); compact(&mut o, x.script.len() as u64); o.extend(&x.script); }
        if seg { for i in &self.ins { compact(&mut o, i.wit.len() as u64); for w in &i.wit { compact(&mut o, w.len() as u64); o.extend(w); } } }
        o.extend(self.lock.to_le_bytes());
        o
    }
}

/// What decoding must do on arbitrary bytes. `canonical` is false if a compact size was not shortest or the coinbase
/// height push was not minimal (Bitcoin never produces those; the decoded value is still determined).
pub struct Rd<'a> { pub b: &'a [u8], pub p: usize, pub canonical: bool }
type R<T> = Result<T, ()>;
impl<'a> Rd<'a> {
    pub fn new(b: &'a [u8]) -> Self { Rd { b, p: 0, canonical: true } }
    pub fn take(&mut self, n: u64) -> R<&'a [u8]> {
        if n > (self.b.len() - self.p) as u64 { return Err(()) }
        let r = &self.b[self.p..self.p + n as usize];
        self.p += n as usize;
        Ok(r)
    }
    pub fn u8(&mut self) -> R<u8> { Ok(self.take(1)?[0]) }
    pub fn u32(&mut self) -> R<u32> { Ok(u32::from_le_bytes(self.take(4)?.try_into().unwrap())) }
    pub fn compact(&mut self) -> R<u64> {
        let (v, min) = match self.u8()? {
            0xfd => (u16::from_le_bytes(self.take(2)?.try_into().unwrap()) as u64, 0xfd),
            0xfe => (u32::from_le_bytes(self.take(4)?.try_into().unwrap()) as u64, 0x10000),
            0xff => (u64::from_le_bytes(self.take(8)?.try_into().unwrap()), 0x1_0000_0000),
            n => (n as u64, 0),
        };
        if v < min { self.canonical = false }
        Ok(v)
    }
    fn input(&mut self, version: i32) -> R<In> {
        let h: [u8; 32] = self.take(32)?.try_into().unwrap();
        let n = self.u32()?;
        let cb = h == [0; 32];
        if cb && n != u32::MAX { return Err(()) }
        let size = self.compact()?;
        let mut src = Src::Out(h, n);
        let script;
        if cb && version == 2 {
            // the declared script must be present and start with a height push of at most four bytes
            if size == 0 { return Err(()) }
            let k = self.u8()? as u64;
            if k > 4 || k + 1 > size { return Err(()) }
            let hb = self.take(k)?;
            let mut b = [0u8; 4];
            b[..k as usize].copy_from_slice(hb);
            let height = u32::from_le_bytes(b);
            let mut enc = vec![k as u8];
            enc.extend(hb);
            if height_push(height) != enc { self.canonical = false }
            src = Src::Coinbase(Some(height));
            script = self.take(size - k - 1)?.to_vec();
        } else {
            if cb { src = Src::Coinbase(None) }
            script = self.take(size)?.to_vec();
        }
        if cb && script.len() > 100 { return Err(()) }
        let seq = self.u32()?;
        Ok(In { src, script, seq, wit: vec![] })
    }
    fn inputs(&mut self, version: i32) -> R<Vec<In>> {
        let n = self.compact()?;
        let mut v = vec![];
        for _ in 0..n { v.push(self.input(version)?) }
        Ok(v)
    }
    pub fn tx(&mut self) -> R<Tx> {
        let version = self.u32()? as i32;
        if version != 1 && version != 2 { return Err(()) }
        let mut ins = self.inputs(version)?;
        let mut flags = 0;
        let mut outs = vec![];
        let mut no_outs = false;
        // BIP144 marker: an empty input list is followed by the flag byte, and only a non-zero flag by the lists
        if ins.is_empty() {
            flags = self.u8()?;
            if flags != 0 { ins = self.inputs(version)?; } else { no_outs = true }
        }
        let n = if no_outs { 0 } else { self.compact()? };
        for _ in 0..n {
            let value = i64::from_le_bytes(self.take(8)?.try_into().unwrap());
            let l = self.compact()?;
            if l > 10_000 { return Err(()) }
            outs.push(Out { value, script: self.take(l)?.to_vec() });
        }
        if flags & 1 != 0 {
            flags ^= 1;
            for i in ins.iter_mut() {
                let n = self.compact()?;
                for _ in 0..n { let l = self.compact()?; i.wit.push(self.take(l)?.to_vec()); }
            }
            if ins.iter().all(|i| i.wit.is_empty()) { return Err(()) }
        }
        let lock = self.u32()?;
        if flags != 0 { return Err(()) }
        Ok(Tx { version, ins, outs, lock })
    }
}
