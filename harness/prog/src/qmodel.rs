//! Reference model of a queue account: a list of records in physical order, and its byte image.
use crate::sym::{self, Key};
use crate::world::le;

#[derive(Clone)]
pub struct Rec {
    pub used: bool,
    pub slot: u64,
    pub id: Key,
    pub prog: Key,
    pub prio: u8,
    pub disc: Vec<u8>,
    pub metas: Vec<u8>, // 33 bytes each
    pub args: Vec<u8>,
}
pub const HDR: usize = 16;
pub const ITEM: usize = 96;
pub fn up8(x: usize) -> usize {
    (x + 7) & !7
}
impl Rec {
    pub fn sym(used: bool, shape: (usize, usize, usize), t: &str) -> Rec {
        let r = Rec {
            used,
            slot: sym::u64(t),
            id: sym::bytes(t),
            prog: sym::bytes(t),
            prio: sym::u8(t),
            disc: sym::vec(shape.0, t),
            metas: sym::vec(shape.1 * 33, t),
            args: sym::vec(shape.2, t),
        };
        sym::assume(r.prio < 2);
        r
    }
    pub fn size(&self) -> usize {
        ITEM + self.disc.len() + self.metas.len() + self.args.len()
    }
    pub fn cost(&self) -> u64 {
        sym::ite(self.prio == 1, 800_000, 500_000)
    }
    /// The record as it lies at offset `at` of the area after the 8-byte account discriminator.
    pub fn image(&self, at: usize) -> Vec<u8> {
        let mut v = vec![];
        v.extend_from_slice(&self.slot.to_le_bytes());
        v.extend_from_slice(&self.id);
        v.extend_from_slice(&self.prog);
        let d = at + ITEM;
        let m = d + self.disc.len();
        let a = m + self.metas.len();
        for o in [d, m, a] {
            v.extend_from_slice(&(o as u32).to_le_bytes());
        }
        v.extend_from_slice(&(self.disc.len() as u16).to_le_bytes());
        v.extend_from_slice(&((self.metas.len() / 33) as u16).to_le_bytes());
        v.extend_from_slice(&(self.args.len() as u16).to_le_bytes());
        v.push(self.prio);
        v.push(self.used as u8);
        v.extend_from_slice(&[0u8; 4]);
        v.extend_from_slice(&self.disc);
        v.extend_from_slice(&self.metas);
        v.extend_from_slice(&self.args);
        v
    }
    /// Same request (everything except the used flag and where the bytes lie).
    pub fn same(&self, o: &Rec) -> bool {
        (self.slot == o.slot)
            & sym::eq(&self.id, &o.id)
            & sym::eq(&self.prog, &o.prog)
            & (self.prio == o.prio)
            & sym::eq(&self.disc, &o.disc)
            & sym::eq(&self.metas, &o.metas)
            & sym::eq(&self.args, &o.args)
    }
}
/// Byte image of the area after the discriminator: header, records, `spare` bytes of junk.
pub fn image(recs: &[Rec], index: u8, cursor_aligned: bool, spare: usize) -> Vec<u8> {
    let used = recs.iter().filter(|r| r.used).count() as u32;
    let mut body: Vec<u8> = vec![];
    let mut end = HDR;
    for r in recs {
        while HDR + body.len() < up8(end) {
            body.push(0);
        }
        let at = up8(end);
        body.extend_from_slice(&r.image(at));
        end = at + r.size();
    }
    if cursor_aligned {
        end = up8(end);
    }
    let mut v = vec![];
    v.extend_from_slice(&used.to_le_bytes());
    v.extend_from_slice(&(end as u32).to_le_bytes());
    v.push(index);
    v.extend_from_slice(&[0u8; 7]);
    v.extend_from_slice(&body);
    v.extend_from_slice(&sym::vec(spare, "junk"));
    v
}
pub fn live(recs: &[Rec]) -> Vec<Rec> {
    recs.iter().filter(|r| r.used).cloned().collect()
}
pub fn arr<const N: usize>(b: &[u8]) -> [u8; N] {
    let mut x = [0u8; N];
    x.copy_from_slice(b);
    x
}
/// Independent reader of the byte image: the live requests, in order, with what they refer to; None if malformed.
pub fn parse(acc: &[u8]) -> Option<(u32, u8, Vec<Rec>)> {
    if acc.len() < HDR {
        return None;
    }
    let count = sym::concretize(le(&acc[0..4])) as u32;
    let end = (sym::concretize(le(&acc[4..8])) as usize).min(acc.len());
    let mut at = HDR;
    let mut out = vec![];
    while at + ITEM <= end {
        let b = &acc[at..at + ITEM];
        let g = |o: usize, n: usize| sym::concretize(le(&b[o..o + n])) as usize;
        let (doff, moff, aoff) = (g(72, 4), g(76, 4), g(80, 4));
        let (dl, ml, al) = (g(84, 2), g(86, 2), g(88, 2));
        let used = g(91, 1);
        if used > 1 {
            return None;
        }
        let size = ITEM + dl + 33 * ml + al;
        if used == 1 {
            if doff + dl > acc.len() || moff + 33 * ml > acc.len() || aoff + al > acc.len() {
                return None;
            }
            out.push(Rec {
                used: true,
                slot: le(&b[0..8]),
                id: arr(&b[8..40]),
                prog: arr(&b[40..72]),
                prio: b[90],
                disc: acc[doff..doff + dl].to_vec(),
                metas: acc[moff..moff + 33 * ml].to_vec(),
                args: acc[aoff..aoff + al].to_vec(),
            });
        }
        at = up8(at + size);
    }
    Some((count, acc[8], out))
}
pub fn same_list(a: &[Rec], b: &[Rec]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..a.len() {
        ok &= a[i].same(&b[i]);
    }
    ok
}
