#[cfg(feature = "scale")]
pub mod scale;
#[cfg(feature = "serde")]
pub mod serde;
#[cfg(feature = "text")]
pub mod text;
#[cfg(feature = "value")]
pub mod value;
use crate::ctx::Ctx;
pub fn find(id: &str) -> Option<fn(&mut Ctx)> {
    Some(match id {
        #[cfg(feature = "scale")]
        "S01" => scale::s01,
        #[cfg(feature = "scale")]
        "S02" => scale::s02,
        #[cfg(feature = "scale")]
        "S03" => scale::s03,
        #[cfg(feature = "scale")]
        "S04" => scale::s04,
        #[cfg(feature = "scale")]
        "S05" => scale::s05,
        #[cfg(feature = "scale")]
        "S06" => scale::s06,
        #[cfg(feature = "scale")]
        "S07" => scale::s07,
        #[cfg(feature = "scale")]
        "S08" => scale::s08,
        #[cfg(feature = "scale")]
        "S09" => scale::s09,
        #[cfg(feature = "scale")]
        "S10" => scale::s10,
        #[cfg(feature = "scale")]
        "S11" => scale::s11,
        #[cfg(feature = "scale")]
        "S12" => scale::s12,
        #[cfg(feature = "text")]
        "T01" => text::t01,
        #[cfg(feature = "text")]
        "T02" => text::t02,
        #[cfg(feature = "text")]
        "T03" => text::t03,
        #[cfg(feature = "text")]
        "T04" => text::t04,
        #[cfg(feature = "text")]
        "T05" => text::t05,
        #[cfg(feature = "text")]
        "T06" => text::t06,
        #[cfg(feature = "text")]
        "T07" => text::t07,
        #[cfg(feature = "text")]
        "T08" => text::t08,
        #[cfg(feature = "value")]
        "V01" => value::v01,
        #[cfg(feature = "value")]
        "V02" => value::v02,
        #[cfg(feature = "value")]
        "V03" => value::v03,
        #[cfg(feature = "value")]
        "V04" => value::v04,
        #[cfg(feature = "serde")]
        "D01" => serde::d01,
        #[cfg(feature = "serde")]
        "D02" => serde::d02,
        #[cfg(feature = "serde")]
        "D03" => serde::d03,
        #[cfg(feature = "serde")]
        "D04" => serde::d04,
        #[cfg(feature = "serde")]
        "D05" => serde::d05,
        #[cfg(feature = "serde")]
        "D06" => serde::d06,
        #[cfg(feature = "serde")]
        "D07" => serde::d07,
        #[cfg(feature = "serde")]
        "D08" => serde::d08,
        _ => return None,
    })
}
