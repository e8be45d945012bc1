//! Arrays under test: a parent array, a view into it with any stride, sign and offset, and the
//! checks every execution ends with.
use crate::ctx::{self, El, GAP, LIVE};
use ndarray_slice::ndarray::{Array1, ArrayViewMut1, ArrayView1, s};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Lay {
    pub stride: isize,
    pub off: usize,
    pub tail: usize,
}

pub const FLAT: Lay = Lay { stride: 1, off: 0, tail: 0 };
pub const LAYS: [Lay; 7] = [
    FLAT,
    Lay { stride: 1, off: 3, tail: 2 },
    Lay { stride: -1, off: 1, tail: 1 },
    Lay { stride: 2, off: 0, tail: 1 },
    Lay { stride: 3, off: 2, tail: 5 },
    Lay { stride: -2, off: 1, tail: 2 },
    Lay { stride: -5, off: 4, tail: 3 },
];

pub struct Grid {
    pub arr: Array1<El>,
    pub n: usize,
    pub lay: Lay,
}

impl Grid {
    pub fn new(keys: &[u32], lay: Lay) -> Grid {
        let n = keys.len();
        let k = lay.stride.unsigned_abs();
        let span = if n == 0 { 0 } else { (n - 1) * k + 1 };
        let total = lay.off + span + lay.tail;
        let mut v: Vec<El> = Vec::with_capacity(total);
        if lay == FLAT {
            v.extend(keys.iter().enumerate().map(|(i, &x)| El::new(x, i as u32)));
        } else {
            v.extend((0..total).map(|c| El::new(0xFFF0_0000 | (c as u32 & 0xFFFF), GAP + c as u32)));
            let g = Grid { arr: Array1::from_vec(Vec::new()), n, lay };
            for (i, &x) in keys.iter().enumerate() {
                let p = g.pos(i);
                v[p].key = x;
                v[p].id = i as u32;
            }
        }
        Grid { arr: Array1::from_vec(v), n, lay }
    }
    pub fn flat(keys: &[u32]) -> Grid {
        Grid::new(keys, FLAT)
    }
    pub fn pos(&self, i: usize) -> usize {
        let k = self.lay.stride.unsigned_abs();
        self.lay.off + if self.lay.stride > 0 { i * k } else { (self.n - 1 - i) * k }
    }
    pub fn view_mut(&mut self) -> ArrayViewMut1<'_, El> {
        if self.n == 0 {
            let o = self.lay.off as isize;
            return self.arr.slice_mut(s![o..o]);
        }
        let k = self.lay.stride.unsigned_abs();
        let a = self.lay.off as isize;
        let b = (self.lay.off + (self.n - 1) * k + 1) as isize;
        self.arr.slice_mut(s![a..b;self.lay.stride])
    }
    /// Addresses of the parent array.
    pub fn range(&self) -> std::ops::Range<usize> {
        let r = self.arr.as_slice().expect("contiguous").as_ptr_range();
        r.start as usize..r.end as usize
    }
    pub fn view(&self) -> ArrayView1<'_, El> {
        if self.n == 0 {
            let o = self.lay.off as isize;
            return self.arr.slice(s![o..o]);
        }
        let k = self.lay.stride.unsigned_abs();
        let a = self.lay.off as isize;
        let b = (self.lay.off + (self.n - 1) * k + 1) as isize;
        self.arr.slice(s![a..b;self.lay.stride])
    }
    fn raw(&self) -> &[El] {
        self.arr.as_slice().expect("owned flat")
    }
    /// Ids in view order.
    pub fn ids(&self) -> Vec<u32> {
        (0..self.n).map(|i| self.raw()[self.pos(i)].id).collect()
    }
    pub fn key_at(&self, i: usize) -> u32 {
        self.raw()[self.pos(i)].key
    }
    pub fn id_at(&self, i: usize) -> u32 {
        self.raw()[self.pos(i)].id
    }
    /// Contract of every operation whatever else happens: each original element exactly once in
    /// the view, live and unaltered; cells outside the view untouched; nothing dropped.
    pub fn intact(&self, keys: &[u32]) -> Result<(), String> {
        if let Some(m) = ctx::unsound() {
            return Err(m);
        }
        if ctx::drops() != 0 {
            return Err(format!("{} elements were dropped by the operation", ctx::drops()));
        }
        if let Some(m) = crate::alloc::broken() {
            return Err(m.into());
        }
        let mut seen = vec![false; self.n];
        let raw = self.raw();
        for i in 0..self.n {
            let e = &raw[self.pos(i)];
            let id = e.id as usize;
            if e.magic != LIVE || id >= self.n {
                return Err(format!("position {i} holds no original element (id {:#x}, magic {:#x})", e.id, e.magic));
            }
            if e.key != keys[id] {
                return Err(format!("element {id} at position {i} was altered: key {} instead of {}", e.key, keys[id]));
            }
            if std::mem::replace(&mut seen[id], true) {
                return Err(format!("element {id} occurs more than once (again at position {i}), another is lost"));
            }
        }
        if self.lay != FLAT {
            let k = self.lay.stride.unsigned_abs();
            for (c, e) in raw.iter().enumerate() {
                let inside = self.n > 0 && c >= self.lay.off && (c - self.lay.off).is_multiple_of(k) && (c - self.lay.off) / k < self.n;
                if !inside && (e.id != GAP + c as u32 || e.key != (0xFFF0_0000 | (c as u32 & 0xFFFF)) || e.magic != LIVE) {
                    return Err(format!("cell {c} of the parent array outside the view was changed"));
                }
            }
        }
        Ok(())
    }
    pub fn sorted(&self) -> Result<(), String> {
        for i in 1..self.n {
            if self.key_at(i - 1) > self.key_at(i) {
                return Err(format!("not in order: position {} has key {}, position {} has key {}", i - 1, self.key_at(i - 1), i, self.key_at(i)));
            }
        }
        Ok(())
    }
    /// Keys in order and ids ascending among equal keys.
    pub fn stable(&self) -> Result<(), String> {
        self.sorted()?;
        for i in 1..self.n {
            if self.key_at(i - 1) == self.key_at(i) && self.id_at(i - 1) > self.id_at(i) {
                return Err(format!(
                    "not stable: elements {} and {} with equal key {} swapped at positions {}, {}",
                    self.id_at(i - 1), self.id_at(i), self.key_at(i), i - 1, i
                ));
            }
        }
        Ok(())
    }
    /// The index-th element is in place with its neighbourhoods on the right sides.
    pub fn selected(&self, lo: usize, index: usize, hi: usize) -> Result<(), String> {
        let p = self.key_at(index);
        for i in lo..index {
            if self.key_at(i) > p {
                return Err(format!("position {i} has key {} greater than {p} at selected index {index}", self.key_at(i)));
            }
        }
        for i in index + 1..hi {
            if self.key_at(i) < p {
                return Err(format!("position {i} has key {} smaller than {p} at selected index {index}", self.key_at(i)));
            }
        }
        Ok(())
    }
}
