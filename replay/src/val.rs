//! Data, independent of the crate's own value type.
use std::cmp::Ordering;
#[derive(Clone, Copy, Debug)]
pub struct F(pub f64);
impl F {
    fn key(self) -> i64 { let b = self.0.to_bits() as i64; if b < 0 { !b ^ i64::MIN } else { b } }
}
impl PartialEq for F { fn eq(&self, o: &F) -> bool { self.0.to_bits() == o.0.to_bits() } }
impl Eq for F {}
impl PartialOrd for F { fn partial_cmp(&self, o: &F) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for F { fn cmp(&self, o: &F) -> Ordering { self.key().cmp(&o.key()) } }

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum V {
    Null,
    Bool(bool),
    Int(i128),
    Float(F),
    Bytes(Vec<u8>),
    Text(String),
    Arr(Vec<V>),
    Map(Vec<(V, V)>), // sorted by key, distinct
}
pub fn map(mut e: Vec<(V, V)>) -> V {
    e.sort_by(|a, b| a.0.cmp(&b.0));
    e.dedup_by(|a, b| a.0 == b.0);
    V::Map(e)
}
pub fn to_cbor(v: &V) -> Option<ciborium::value::Value> {
    use ciborium::value::Value as C;
    Some(match v {
        V::Null => C::Null,
        V::Bool(b) => C::Bool(*b),
        V::Int(i) => C::Integer(ciborium::value::Integer::try_from(*i).ok()?),
        V::Float(f) => C::Float(f.0),
        V::Bytes(b) => C::Bytes(b.clone()),
        V::Text(t) => C::Text(t.clone()),
        V::Arr(a) => C::Array(a.iter().map(to_cbor).collect::<Option<_>>()?),
        V::Map(m) => C::Map(m.iter().map(|(k, v)| Some((to_cbor(k)?, to_cbor(v)?))).collect::<Option<_>>()?),
    })
}
pub fn encode(v: &V) -> Option<Vec<u8>> {
    let mut b = vec![];
    enc(v, &mut b)?;
    Some(b)
}
fn head(major: u8, n: u64, b: &mut Vec<u8>) {
    let m = major << 5;
    if n < 24 { b.push(m | n as u8) }
    else if n < 1 << 8 { b.push(m | 24); b.push(n as u8) }
    else if n < 1 << 16 { b.push(m | 25); b.extend_from_slice(&(n as u16).to_be_bytes()) }
    else if n < 1 << 32 { b.push(m | 26); b.extend_from_slice(&(n as u32).to_be_bytes()) }
    else { b.push(m | 27); b.extend_from_slice(&n.to_be_bytes()) }
}
/// A plain CBOR encoder (RFC 8949), so that the expected bytes do not come from a library under test.
fn enc(v: &V, b: &mut Vec<u8>) -> Option<()> {
    match v {
        V::Null => b.push(0xf6),
        V::Bool(x) => b.push(if *x { 0xf5 } else { 0xf4 }),
        V::Int(i) => if *i >= 0 { head(0, u64::try_from(*i).ok()?, b) } else { head(1, u64::try_from(-1 - *i).ok()?, b) },
        V::Float(f) => { b.push(0xfb); b.extend_from_slice(&f.0.to_bits().to_be_bytes()) }
        V::Bytes(x) => { head(2, x.len() as u64, b); b.extend_from_slice(x) }
        V::Text(x) => { head(3, x.len() as u64, b); b.extend_from_slice(x.as_bytes()) }
        V::Arr(a) => { head(4, a.len() as u64, b); for x in a { enc(x, b)? } }
        V::Map(m) => { head(5, m.len() as u64, b); for (k, x) in m { enc(k, b)?; enc(x, b)? } }
    }
    Some(())
}
pub enum Dec { Ok(V), Bad, Unsure }
/// Decode one item that takes up the whole input.  Well-formed definite-length input of the
/// supported kinds only; anything unusual is `Unsure`.
pub fn decode(b: &[u8]) -> Dec {
    let mut p = 0;
    match dec(b, &mut p, 0) {
        Ok(v) => if p == b.len() { Dec::Ok(v) } else { Dec::Bad },
        Err(true) => Dec::Bad,
        Err(false) => Dec::Unsure,
    }
}
fn dec(b: &[u8], p: &mut usize, d: u32) -> Result<V, bool> {
    if d > 40 { return Err(false); }
    if *p >= b.len() { return Err(true); }
    let h = b[*p];
    *p += 1;
    let (maj, ai) = (h >> 5, h & 31);
    let take = |p: &mut usize, n: usize| -> Result<Vec<u8>, bool> {
        if b.len() - *p < n { return Err(true); }
        let r = b[*p..*p + n].to_vec();
        *p += n;
        Ok(r)
    };
    if maj == 7 {
        return match ai {
            20 => Ok(V::Bool(false)),
            21 => Ok(V::Bool(true)),
            22 => Ok(V::Null),
            27 => { let x = take(p, 8)?; let mut a = [0u8; 8]; a.copy_from_slice(&x); Ok(V::Float(F(f64::from_bits(u64::from_be_bytes(a))))) }
            _ => Err(false),
        };
    }
    let n: u64 = match ai {
        0..=23 => ai as u64,
        24 => take(p, 1)?[0] as u64,
        25 => { let x = take(p, 2)?; u16::from_be_bytes([x[0], x[1]]) as u64 }
        26 => { let x = take(p, 4)?; u32::from_be_bytes([x[0], x[1], x[2], x[3]]) as u64 }
        27 => { let x = take(p, 8)?; let mut a = [0u8; 8]; a.copy_from_slice(&x); u64::from_be_bytes(a) }
        28..=30 => return Err(true),
        _ => return Err(false),
    };
    Ok(match maj {
        0 => V::Int(n as i128),
        1 => V::Int(-1 - n as i128),
        2 => { if n > b.len() as u64 { return Err(true); } V::Bytes(take(p, n as usize)?) }
        3 => { if n > b.len() as u64 { return Err(true); } V::Text(String::from_utf8(take(p, n as usize)?).map_err(|_| true)?) }
        4 => { if n > b.len() as u64 { return Err(true); } let mut v = vec![]; for _ in 0..n { v.push(dec(b, p, d + 1)?) } V::Arr(v) }
        5 => {
            if n > b.len() as u64 { return Err(true); }
            let mut v: Vec<(V, V)> = vec![];
            for _ in 0..n {
                let k = dec(b, p, d + 1)?;
                let x = dec(b, p, d + 1)?;
                if v.iter().any(|e| e.0 == k) { return Err(false); }
                v.push((k, x));
            }
            map(v)
        }
        _ => return Err(false),
    })
}
pub fn to_json(v: &V) -> Option<serde_json::Value> {
    use serde_json::Value as J;
    Some(match v {
        V::Null => J::Null,
        V::Bool(b) => J::Bool(*b),
        V::Int(i) => if let Ok(u) = u64::try_from(*i) { J::from(u) } else { J::from(i64::try_from(*i).ok()?) },
        V::Float(f) => {
            // serde_json may read its own text back one ulp off
            let n = serde_json::Number::from_f64(f.0)?;
            if serde_json::from_str::<J>(&n.to_string()).ok()?.as_f64() != Some(f.0) { return None; }
            J::Number(n)
        }
        V::Bytes(_) => return None,
        V::Text(t) => J::String(t.clone()),
        V::Arr(a) => J::Array(a.iter().map(to_json).collect::<Option<_>>()?),
        V::Map(m) => {
            let mut o = serde_json::Map::new();
            for (k, x) in m {
                match k { V::Text(t) => { o.insert(t.clone(), to_json(x)?); } _ => return None }
            }
            J::Object(o)
        }
    })
}
