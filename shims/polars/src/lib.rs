//! Minimal stand-in for the part of polars that miniboosts touches: a table
//! of named f64 columns.
#[derive(Debug, Clone)]
pub enum PolarsError {
    SchemaMismatch(String),
    ShapeMismatch(String),
}
impl std::fmt::Display for PolarsError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for PolarsError {}
pub type PolarsResult<T> = Result<T, PolarsError>;

#[derive(Clone, Debug)]
pub struct ChunkedF64(Vec<Option<f64>>);
pub type Float64Chunked = ChunkedF64;

impl ChunkedF64 {
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn get(&self, i: usize) -> Option<f64> {
        self.0.get(i).copied().flatten()
    }
    pub fn iter(&self) -> std::iter::Copied<std::slice::Iter<'_, Option<f64>>> {
        self.0.iter().copied()
    }
    pub fn into_no_null_iter(&self) -> std::vec::IntoIter<f64> {
        self.0.iter().map(|x| x.unwrap()).collect::<Vec<_>>().into_iter()
    }
}
impl<'a> IntoIterator for &'a ChunkedF64 {
    type Item = Option<f64>;
    type IntoIter = std::iter::Copied<std::slice::Iter<'a, Option<f64>>>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.iter().copied()
    }
}

#[derive(Clone, Debug)]
pub struct Series {
    name: String,
    data: ChunkedF64,
}
impl Series {
    pub fn new(name: &str, v: Vec<f64>) -> Series {
        Series { name: name.to_string(), data: ChunkedF64(v.into_iter().map(Some).collect()) }
    }
    pub fn with_nulls(name: &str, v: Vec<Option<f64>>) -> Series {
        Series { name: name.to_string(), data: ChunkedF64(v) }
    }
    pub fn name(&self) -> &str {
        &self.name
    }
    pub fn f64(&self) -> PolarsResult<&ChunkedF64> {
        Ok(&self.data)
    }
    pub fn len(&self) -> usize {
        self.data.len()
    }
    pub fn is_empty(&self) -> bool {
        self.data.len() == 0
    }
}

#[derive(Clone, Debug)]
pub struct DataFrame {
    columns: Vec<Series>,
}
impl DataFrame {
    pub fn new(columns: Vec<Series>) -> PolarsResult<DataFrame> {
        if columns.windows(2).any(|w| w[0].len() != w[1].len()) {
            return Err(PolarsError::ShapeMismatch("columns differ in length".into()));
        }
        Ok(DataFrame { columns })
    }
    pub fn shape(&self) -> (usize, usize) {
        (self.columns.first().map(|c| c.len()).unwrap_or(0), self.columns.len())
    }
    pub fn get_columns(&self) -> &[Series] {
        &self.columns
    }
    pub fn height(&self) -> usize {
        self.shape().0
    }
    pub fn width(&self) -> usize {
        self.shape().1
    }
}

pub mod prelude {
    pub use super::{ChunkedF64, DataFrame, Float64Chunked, PolarsError, PolarsResult, Series};
}
pub mod error {
    pub use super::{PolarsError, PolarsResult};
}
