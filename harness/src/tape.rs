//! The generated value every property shares: a header row and a list of rows of numbers, decoded
//! into a case. Removing a row removes an operation; shrinking a number moves to a simpler choice.
use proptest::prelude::*;

pub const W: usize = 20;
pub type Row = [u16; W];

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Tape {
    pub hdr: Row,
    pub rows: Vec<Row>,
}

/// Reads the numbers of one row; past the end it yields zeros (the simplest choice).
pub struct R<'a> {
    row: &'a [u16],
    i: usize,
}
impl<'a> R<'a> {
    pub fn new(row: &'a Row) -> Self {
        R { row, i: 0 }
    }
    pub fn raw(&mut self) -> u16 {
        let v = self.row.get(self.i).copied().unwrap_or(0);
        self.i += 1;
        v
    }
    /// 0..n, monotone in the underlying number
    pub fn pick(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        (self.raw() as usize * n) >> 16
    }
    pub fn of<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.pick(xs.len())]
    }
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u32 = ws.iter().sum();
        let mut x = ((self.raw() as u64 * total as u64) >> 16) as u32;
        for (i, w) in ws.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        ws.len() - 1
    }
    /// true with probability p percent; 0 gives false
    pub fn chance(&mut self, p: u32) -> bool {
        self.pick(100) as u32 >= 100 - p.min(100)
    }
}

pub fn strategy(max_rows: usize) -> impl Strategy<Value = Tape> {
    let small = max_rows.min(6);
    let mid = max_rows.min(20);
    let rows = prop_oneof![
        3 => prop::collection::vec(any::<Row>(), 0..=small),
        5 => prop::collection::vec(any::<Row>(), 0..=mid),
        2 => prop::collection::vec(any::<Row>(), 0..=max_rows),
    ];
    (any::<Row>(), rows).prop_map(|(hdr, rows)| Tape { hdr, rows })
}

impl Tape {
    pub fn to_text(&self) -> String {
        let f = |r: &Row| r.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
        let mut s = format!("H {}\n", f(&self.hdr));
        for r in &self.rows {
            s.push_str(&format!("R {}\n", f(r)));
        }
        s
    }
    pub fn from_text(s: &str) -> Option<Tape> {
        let mut hdr = None;
        let mut rows = vec![];
        for l in s.lines() {
            let mut it = l.split_whitespace();
            let k = it.next();
            if k != Some("H") && k != Some("R") {
                continue;
            }
            let mut row = [0u16; W];
            for (i, x) in it.enumerate() {
                *row.get_mut(i)? = x.parse().ok()?;
            }
            if k == Some("H") {
                hdr = Some(row)
            } else {
                rows.push(row)
            }
        }
        Some(Tape { hdr: hdr?, rows })
    }
}
