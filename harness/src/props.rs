use crate::util::Reg;
macro_rules! props { ($($f:literal $m:ident $id:literal),* $(,)?) => {
    $( #[cfg(feature = $f)] mod $m; )*
    pub fn registry(prop: &str, tier: &str) -> Reg {
        let mut r = Reg::new();
        let thorough = tier == "thorough";
        $( #[cfg(feature = $f)] if prop == $id { $m::jobs(&mut r, thorough); } )*
        r
    }
} }
props! {
    "s01" s01 "S01",
    "s02" s02 "S02",
    "s03" s03 "S03",
    "s04" s04 "S04",
    "h01" h01 "H01",
    "h02" h02 "H02",
    "l01" l01 "L01",
    "g01" g01 "G01",
    "b01" b01 "B01",
    "b02" b02 "B02",
    "b03" b03 "B03",
    "b04" b04 "B04",
    "b05" b05 "B05",
    "b06" b06 "B06",
    "b07" b07 "B07",
    "b08" b08 "B08",
    "b09" b09 "B09",
    "b10" b10 "B10",
    "t01" t01 "T01",
    "t02" t02 "T02",
    "t03" t03 "T03",
    "n01" n01 "N01",
    "n02" n02 "N02",
    "n03" n03 "N03",
    "s05" s05 "S05",
    "o01" o01 "O01",
    "r01" r01 "R01",
    "h03" h03 "H03",
    "p01" p01 "P01",
}
