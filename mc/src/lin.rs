//! Linear algebra over the reference field.

use crate::gfref::Rf;

/// Rank of a matrix given by rows.
pub fn rank(rf: &Rf, rows: &[Vec<u32>]) -> usize {
    let mut m: Vec<Vec<u32>> = rows.to_vec();
    if m.is_empty() {
        return 0;
    }
    let nc = m[0].len();
    let mut r = 0;
    for c in 0..nc {
        let Some(p) = (r..m.len()).find(|&i| m[i][c] != 0) else { continue };
        m.swap(r, p);
        let inv = rf.inv(m[r][c]);
        for x in m[r].iter_mut() {
            *x = rf.mul(*x, inv);
        }
        let pr = m[r].clone();
        for (i, row) in m.iter_mut().enumerate() {
            if i != r && row[c] != 0 {
                let f = row[c];
                for k in c..nc {
                    row[k] ^= rf.mul(f, pr[k]);
                }
            }
        }
        r += 1;
        if r == m.len() {
            break;
        }
    }
    r
}

/// Rank over GF(2) of rows given as bit vectors.
pub fn rank2(rows: &[Vec<u64>]) -> usize {
    let mut m = rows.to_vec();
    if m.is_empty() {
        return 0;
    }
    let words = m[0].len();
    let mut r = 0;
    for c in 0..words * 64 {
        let (w, b) = (c / 64, c % 64);
        let Some(p) = (r..m.len()).find(|&i| m[i][w] >> b & 1 == 1) else { continue };
        m.swap(r, p);
        let pr = m[r].clone();
        for (i, row) in m.iter_mut().enumerate() {
            if i != r && row[w] >> b & 1 == 1 {
                for k in 0..words {
                    row[k] ^= pr[k];
                }
            }
        }
        r += 1;
        if r == m.len() {
            break;
        }
    }
    r
}

pub fn transpose(m: &[Vec<u32>]) -> Vec<Vec<u32>> {
    if m.is_empty() {
        return vec![];
    }
    (0..m[0].len()).map(|c| m.iter().map(|r| r[c]).collect()).collect()
}
