//! Stand-in for `bit-matrix 0.9` (not available offline). Written for obviousness, not speed:
//! a row-major bit matrix with `u32` blocks and bounds-checked access.
use std::fmt;
use std::ops::{Index, IndexMut, Range};

pub mod row {
    pub use super::BitSlice;
}

static TRUE: bool = true;
static FALSE: bool = false;

/// A row. Bits beyond the row's width (padding of the last block) are always zero as long as the
/// caller only ORs rows of equal width into it.
#[repr(transparent)]
#[derive(PartialEq, Eq)]
pub struct BitSlice {
    blocks: [u32],
}

impl BitSlice {
    fn new(blocks: &[u32]) -> &BitSlice {
        // SAFETY: repr(transparent) over [u32].
        unsafe { &*(blocks as *const [u32] as *const BitSlice) }
    }
    fn new_mut(blocks: &mut [u32]) -> &mut BitSlice {
        // SAFETY: repr(transparent) over [u32].
        unsafe { &mut *(blocks as *mut [u32] as *mut BitSlice) }
    }
    pub fn get(&self, bit: usize) -> bool {
        (self.blocks[bit / 32] >> (bit % 32)) & 1 != 0
    }
    pub fn set(&mut self, bit: usize, value: bool) {
        let mask = 1u32 << (bit % 32);
        if value {
            self.blocks[bit / 32] |= mask;
        } else {
            self.blocks[bit / 32] &= !mask;
        }
    }
    pub fn iter_blocks(&self) -> std::slice::Iter<'_, u32> {
        self.blocks.iter()
    }
    pub fn iter_blocks_mut(&mut self) -> std::slice::IterMut<'_, u32> {
        self.blocks.iter_mut()
    }
    /// Iterates over all bits, including padding.
    pub fn iter_bits(&self) -> impl ExactSizeIterator<Item = bool> + DoubleEndedIterator + Clone + '_ {
        (0..self.blocks.len() * 32).map(move |i| self.get(i))
    }
    pub fn iter_bits_len(&self, len: usize) -> impl ExactSizeIterator<Item = bool> + DoubleEndedIterator + Clone + '_ {
        (0..len).map(move |i| self.get(i))
    }
    pub fn small_slice_aligned(&self, offset: usize, len: u8) -> u32 {
        (0..len as usize).fold(0, |a, i| a | ((self.get(offset + i) as u32) << i))
    }
    pub fn is_empty(&self) -> bool {
        self.blocks.iter().all(|b| *b == 0)
    }
}

impl Index<usize> for BitSlice {
    type Output = bool;
    fn index(&self, bit: usize) -> &bool {
        if self.get(bit) {
            &TRUE
        } else {
            &FALSE
        }
    }
}

impl fmt::Debug for BitSlice {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for b in self.iter_bits() {
            f.write_str(if b { "1" } else { "0" })?;
        }
        Ok(())
    }
}

#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
#[cfg_attr(feature = "miniserde", derive(miniserde::Serialize, miniserde::Deserialize))]
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct BitMatrix {
    blocks: Vec<u32>,
    row_bits: usize,
    rows: usize,
}

impl BitMatrix {
    pub fn new(rows: usize, row_bits: usize) -> Self {
        BitMatrix {
            blocks: vec![0; rows * Self::stride_of(row_bits)],
            row_bits,
            rows,
        }
    }
    fn stride_of(row_bits: usize) -> usize {
        (row_bits + 31) / 32
    }
    fn stride(&self) -> usize {
        Self::stride_of(self.row_bits)
    }
    pub fn size(&self) -> (usize, usize) {
        (self.rows, self.row_bits)
    }
    pub fn num_rows(&self) -> usize {
        self.rows
    }
    pub fn num_cols(&self) -> usize {
        self.row_bits
    }
    pub fn dim(&self) -> (usize, usize) {
        self.size()
    }
    pub fn set(&mut self, row: usize, col: usize, value: bool) {
        assert!(row < self.rows && col < self.row_bits, "bit-matrix: out of bounds");
        self[row].set(col, value);
    }
    pub fn grow(&mut self, num_rows: usize, value: bool) {
        let n = num_rows * self.stride();
        self.rows += num_rows;
        let from = self.blocks.len();
        self.blocks.resize(from + n, 0);
        if value {
            for row in self.rows - num_rows..self.rows {
                for col in 0..self.row_bits {
                    self.set(row, col, true);
                }
            }
        }
    }
    /// Shortens the matrix to at most `num_rows` rows.
    pub fn truncate(&mut self, num_rows: usize) {
        if num_rows < self.rows {
            self.rows = num_rows;
            let stride = self.stride();
            self.blocks.truncate(num_rows * stride);
        }
    }
    pub fn clear(&mut self) {
        self.blocks.iter_mut().for_each(|b| *b = 0);
    }
    pub fn reset(&mut self) {
        self.clear();
    }
    pub fn iter_row(&self, row: usize) -> impl ExactSizeIterator<Item = bool> + DoubleEndedIterator + Clone + '_ {
        assert!(row < self.rows, "bit-matrix: row out of bounds");
        (0..self.row_bits).map(move |c| self[(row, c)])
    }
    pub fn sub_matrix(&self, range: Range<usize>) -> BitSubMatrix<'_> {
        assert!(range.end <= self.rows, "bit-matrix: row out of bounds");
        BitSubMatrix {
            matrix: self,
            range,
        }
    }
    /// Warshall.
    pub fn transitive_closure(&mut self) {
        assert_eq!(self.rows, self.row_bits);
        for k in 0..self.rows {
            for i in 0..self.rows {
                if self[(i, k)] {
                    for j in 0..self.rows {
                        if self[(k, j)] {
                            self.set(i, j, true);
                        }
                    }
                }
            }
        }
    }
    pub fn reflexive_closure(&mut self) {
        for i in 0..std::cmp::min(self.rows, self.row_bits) {
            self.set(i, i, true);
        }
    }
}

impl Index<usize> for BitMatrix {
    type Output = BitSlice;
    fn index(&self, row: usize) -> &BitSlice {
        assert!(row < self.rows, "bit-matrix: row {} out of bounds ({})", row, self.rows);
        let s = self.stride();
        BitSlice::new(&self.blocks[row * s..(row + 1) * s])
    }
}

impl IndexMut<usize> for BitMatrix {
    fn index_mut(&mut self, row: usize) -> &mut BitSlice {
        assert!(row < self.rows, "bit-matrix: row {} out of bounds ({})", row, self.rows);
        let s = self.stride();
        BitSlice::new_mut(&mut self.blocks[row * s..(row + 1) * s])
    }
}

impl Index<(usize, usize)> for BitMatrix {
    type Output = bool;
    fn index(&self, (row, col): (usize, usize)) -> &bool {
        assert!(col < self.row_bits, "bit-matrix: column out of bounds");
        &self[row][col]
    }
}

pub struct BitSubMatrix<'a> {
    matrix: &'a BitMatrix,
    range: Range<usize>,
}

impl fmt::Debug for BitSubMatrix<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for row in self.range.clone() {
            for b in self.matrix.iter_row(row) {
                f.write_str(if b { "1" } else { "0" })?;
            }
            f.write_str("\n")?;
        }
        Ok(())
    }
}
