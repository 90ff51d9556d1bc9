// Witnesses for the compiler: one line for each type that may be used from several threads.
extern crate mpegts;
use mpegts::{psi::*, reader::*, textcode::*, ts::*};

fn threads<T: Send + Sync>() {}

pub fn witness_section() { threads::<Psi>() }
pub fn witness_pat() { threads::<Pat>() }
pub fn witness_pat_item() { threads::<PatItem>() }
pub fn witness_tdt() { threads::<Tdt>() }
pub fn witness_text() { threads::<StringDVB>() }
pub fn witness_reader<R: Send + Sync>() { threads::<TsReader<R>>() }
pub fn witness_drain<R: Send + Sync>() { threads::<TsDrain<R>>() }
pub fn witness_packet() { threads::<TsPacket<'_>>() }
pub fn witness_adaptation() { threads::<TsAdaptation<'_>>() }
pub fn witness_desc_raw() { threads::<DescRaw>() }
pub fn witness_desc_09() { threads::<Desc09>() }
pub fn witness_desc_0a() { threads::<Desc0A>() }
pub fn witness_desc_0e() { threads::<Desc0E>() }
pub fn witness_desc_40() { threads::<Desc40>() }
pub fn witness_desc_41() { threads::<Desc41>() }
pub fn witness_desc_43() { threads::<Desc43>() }
pub fn witness_desc_44() { threads::<Desc44>() }
pub fn witness_desc_48() { threads::<Desc48>() }
pub fn witness_desc_4d() { threads::<Desc4D>() }
pub fn witness_desc_4e() { threads::<Desc4E>() }
pub fn witness_desc_52() { threads::<Desc52>() }
pub fn witness_desc_58() { threads::<Desc58>() }
pub fn witness_desc_5a() { threads::<Desc5A>() }
pub fn witness_desc_83() { threads::<Desc83>() }
