// Descriptor fields are read from the places EN 300 468 / ISO 13818-1 give them.
use mpegts::psi::*;
use mpegts::textcode::StringDVB;

fn be16(b: &[u8], i: usize) -> u16 { b[i] as u16 * 256 + b[i + 1] as u16 }
fn be32(b: &[u8], i: usize) -> u64 { be16(b, i) as u64 * 65536 + be16(b, i + 2) as u64 }
fn bcd8(b: u8) -> u64 { b as u64 / 16 * 10 + b as u64 % 16 }
fn bcd16(b: &[u8], i: usize) -> u64 { bcd8(b[i]) * 100 + bcd8(b[i + 1]) }
fn bcd32(b: &[u8], i: usize) -> u64 { bcd16(b, i) * 10000 + bcd16(b, i + 2) }
fn digits(b: u8) -> bool { b / 16 < 10 && b % 16 < 10 }
/// Language and country codes are three characters, whichever they are.
fn code(s: &StringDVB, b: &[u8]) -> bool { s.get_codepage() == 0 && s.as_bytes() == b }

/// A list read from one well delimited descriptor.
fn read(b: &[u8], tag: u8) -> Descriptors {
    assume(b.len() >= 2 && b.len() == 2 + b[1] as usize && b[0] == tag);
    let mut d = Descriptors::default();
    d.parse(b);
    d
}

pub fn root_np_09() {
    let b: &[u8] = nd("bytes");
    assume(b.len() >= 6);
    let mut l = read(b, 0x09);
    let d = l.get(0).unwrap().downcast_ref::<Desc09>();
    claim("09: fields", d.caid == be16(b, 2) && d.pid == be16(b, 4) % 8192);
    claim("09: private data", d.data[..] == b[6 ..]);
}

pub fn root_np_0a() {
    let b: &[u8] = nd("bytes");
    assume(b.len() == 2 || b.len() == 6 || b.len() == 10 || b.len() == 14);
    let mut l = read(b, 0x0a);
    let d = l.get(0).unwrap().downcast_ref::<Desc0A>();
    claim("0a: number of items", d.items.len() == (b.len() - 2) / 4);
    let i: usize = nd("i");
    assume(i < d.items.len());
    claim("0a: language and type", code(&d.items[i].code, &b[2 + 4 * i .. 5 + 4 * i]) && d.items[i].audio_type == b[5 + 4 * i]);
}

pub fn root_np_0e() {
    let b: &[u8] = nd("bytes");
    assume(b.len() == 5);
    let mut l = read(b, 0x0e);
    let d = l.get(0).unwrap().downcast_ref::<Desc0E>();
    claim("0e: bitrate", d.bitrate as usize == b[2] as usize % 64 * 65536 + be16(b, 3) as usize);
}

pub fn root_np_40() {
    let b: &[u8] = nd("bytes");
    let mut l = read(b, 0x40);
    let d = l.get(0).unwrap().downcast_ref::<Desc40>();
    claim("40: name", d.name == StringDVB::from(&b[2 ..]));
}

pub fn root_np_41() {
    let b: &[u8] = nd("bytes");
    assume(b.len() == 2 || b.len() == 5 || b.len() == 8 || b.len() == 11);
    let mut l = read(b, 0x41);
    let d = l.get(0).unwrap().downcast_ref::<Desc41>();
    claim("41: number of items", d.items.len() == (b.len() - 2) / 3);
    let i: usize = nd("i");
    assume(i < d.items.len());
    claim("41: service and type", d.items[i].service_id == be16(b, 2 + 3 * i) && d.items[i].service_type == b[4 + 3 * i]);
}

pub fn root_np_43() {
    let b: &[u8] = nd("bytes");
    assume(b.len() == 13);
    assume(digits(b[2]) && digits(b[3]) && digits(b[4]) && digits(b[5]) && digits(b[6]) && digits(b[7]));
    assume(digits(b[9]) && digits(b[10]) && digits(b[11]));
    let mut l = read(b, 0x43);
    let d = l.get(0).unwrap().downcast_ref::<Desc43>();
    claim("43: frequency in kHz", d.frequency as u64 == bcd32(b, 2) * 10);
    claim("43: orbital position in minutes", d.orbital_position as u64 == bcd16(b, 6) * 6);
    claim("43: flags", d.west_east_flag == b[8] / 128 && d.polarization == b[8] / 32 % 4 && d.rof == b[8] / 8 % 4
        && d.s2 == b[8] / 4 % 2 && d.modulation == b[8] % 4);
    claim("43: symbol rate", d.symbol_rate as u64 == bcd8(b[9]) * 10000 + bcd16(b, 10));
    claim("43: inner code", d.fec == b[12] % 16);
}

pub fn root_np_44() {
    let b: &[u8] = nd("bytes");
    assume(b.len() == 13);
    assume(digits(b[2]) && digits(b[3]) && digits(b[4]) && digits(b[5]));
    assume(digits(b[9]) && digits(b[10]) && digits(b[11]));
    assume(bcd32(b, 2) < 40_000_000);
    let mut l = read(b, 0x44);
    let d = l.get(0).unwrap().downcast_ref::<Desc44>();
    claim("44: frequency in Hz", d.frequency as u64 == bcd32(b, 2) * 100);
    claim("44: codes", d.fec_outer == b[7] % 16 && d.modulation == b[8] && d.fec == b[12] % 16);
    claim("44: symbol rate", d.symbol_rate as u64 == bcd8(b[9]) * 10000 + bcd16(b, 10));
}

pub fn root_np_48() {
    let b: &[u8] = nd("bytes");
    assume(b.len() >= 5 && b.len() == 2 + b[1] as usize);
    let n = b[3] as usize;
    assume(5 + n <= b.len());
    assume(5 + n + b[4 + n] as usize == b.len());
    let mut l = read(b, 0x48);
    let d = l.get(0).unwrap().downcast_ref::<Desc48>();
    claim("48: service type", d.service_type == b[2]);
    claim("48: provider", d.provider == StringDVB::from(&b[4 .. 4 + n]));
    claim("48: name", d.name == StringDVB::from(&b[5 + n ..]));
}

pub fn root_np_4d() {
    let b: &[u8] = nd("bytes");
    assume(b.len() >= 7 && b.len() == 2 + b[1] as usize);
    let n = b[5] as usize;
    assume(7 + n <= b.len());
    assume(7 + n + b[6 + n] as usize == b.len());
    let mut l = read(b, 0x4d);
    let d = l.get(0).unwrap().downcast_ref::<Desc4D>();
    claim("4d: language", code(&d.lang, &b[2 .. 5]));
    claim("4d: name", d.name == StringDVB::from(&b[6 .. 6 + n]));
    claim("4d: text", d.text == StringDVB::from(&b[7 + n ..]));
}

pub fn root_np_4e() {
    let b: &[u8] = nd("bytes");
    assume(b.len() >= 8 && b.len() == 2 + b[1] as usize);
    assume(b[6] == 0);
    assume(8 + b[7] as usize == b.len());
    let mut l = read(b, 0x4e);
    let d = l.get(0).unwrap().downcast_ref::<Desc4E>();
    claim("4e: numbers", d.number == b[2] / 16 && d.last_number == b[2] % 16);
    claim("4e: language", code(&d.lang, &b[3 .. 6]));
    claim("4e: no items", d.items.len() == 0);
    claim("4e: text", d.text == StringDVB::from(&b[8 ..]));
}

pub fn root_np_4e_items() {
    let b: &[u8] = nd("bytes");
    assume(b.len() >= 8 && b.len() == 2 + b[1] as usize);
    // one item that fills the loop
    let n = b[6] as usize;
    assume(n >= 2 && 8 + n <= b.len());
    let x = b[7] as usize;
    assume(x + 2 <= n);
    assume(x + 2 + b[8 + x] as usize == n);
    assume(8 + n + b[7 + n] as usize == b.len());
    // texts in the default table, not empty
    assume(b[3] >= 0x20 && x > 0 && b[8] >= 0x20);
    assume(n > x + 2 && b[9 + x] >= 0x20 && b.len() > 8 + n && b[8 + n] >= 0x20);
    let mut l = read(b, 0x4e);
    let d = l.get(0).unwrap().downcast_ref::<Desc4E>();
    claim("4e: one item", d.items.len() == 1);
    claim("4e: item description", d.items[0].0 == StringDVB::from(&b[8 .. 8 + x]));
    claim("4e: item text", d.items[0].1 == StringDVB::from(&b[9 + x .. 7 + n]));
    claim("4e: text behind the items", d.text == StringDVB::from(&b[8 + n ..]));
}

pub fn root_np_52() {
    let b: &[u8] = nd("bytes");
    assume(b.len() == 3);
    let mut l = read(b, 0x52);
    claim("52: component tag", l.get(0).unwrap().downcast_ref::<Desc52>().tag == b[2]);
}

pub fn root_np_58() {
    let b: &[u8] = nd("bytes");
    assume(b.len() == 15);
    let mut l = read(b, 0x58);
    let d = l.get(0).unwrap().downcast_ref::<Desc58>();
    claim("58: one item", d.items.len() == 1);
    let x = &d.items[0];
    claim("58: country and region", code(&x.country_code, &b[2 .. 5]) && x.region_id == b[5] / 4 && x.offset_polarity == b[5] % 2);
    claim("58: offset in minutes", x.offset as u64 == bcd8(b[6]) * 60 + bcd8(b[7]));
    claim("58: next offset in minutes", x.next_offset as u64 == bcd8(b[13]) * 60 + bcd8(b[14]));
    if be16(b, 8) >= 40587 {
        claim("58: time of change", x.time_of_change == (be16(b, 8) as u64 - 40587) * 86400 + bcd8(b[10]) * 3600 + bcd8(b[11]) * 60 + bcd8(b[12]));
    }
}

pub fn root_np_58_none() {
    let b: &[u8] = nd("bytes");
    assume(b.len() == 2);
    let mut l = read(b, 0x58);
    claim("58: no items", l.get(0).unwrap().downcast_ref::<Desc58>().items.len() == 0);
}

pub fn root_np_58_second() {
    let b: &[u8] = nd("bytes");
    assume(b.len() == 28);
    assume(be16(b, 8) >= 40587 && be16(b, 21) >= 40587);
    let mut l = read(b, 0x58);
    let d = l.get(0).unwrap().downcast_ref::<Desc58>();
    claim("58: two items", d.items.len() == 2);
    let x = &d.items[1];
    claim("58: second country and region", code(&x.country_code, &b[15 .. 18]) && x.region_id == b[18] / 4 && x.offset_polarity == b[18] % 2);
    claim("58: second offset", x.offset as u64 == bcd8(b[19]) * 60 + bcd8(b[20]));
}

pub fn root_np_5a() {
    let b: &[u8] = nd("bytes");
    assume(b.len() == 13);
    assume(be32(b, 2) < 400_000_000);
    let mut l = read(b, 0x5a);
    let d = l.get(0).unwrap().downcast_ref::<Desc5A>();
    claim("5a: frequency in Hz", d.frequency as u64 == be32(b, 2) * 10);
    claim("5a: bandwidth and priority", d.bandwidth == b[6] / 32 && d.priority == b[6] / 16 % 2);
    claim("5a: slicing and fec", d.time_slicing == b[6] / 8 % 2 && d.mpe_fec == b[6] / 4 % 2);
    claim("5a: modulation", d.modulation == b[7] / 64 && d.hierarchy == b[7] / 8 % 8 && d.code_rate_hp == b[7] % 8);
    claim("5a: transmission", d.code_rate_lp == b[8] / 32 && d.guard_interval == b[8] / 8 % 4 && d.transmission == b[8] / 2 % 4
        && d.other_frequency_flag == b[8] % 2);
}

pub fn root_np_83() {
    let b: &[u8] = nd("bytes");
    assume(b.len() == 2 || b.len() == 6 || b.len() == 10 || b.len() == 14);
    let mut l = read(b, 0x83);
    let d = l.get(0).unwrap().downcast_ref::<Desc83>();
    claim("83: number of items", d.items.len() == (b.len() - 2) / 4);
    let i: usize = nd("i");
    assume(i < d.items.len());
    let at = 2 + 4 * i;
    claim("83: service, visibility and number", d.items[i].service_id == be16(b, at) && d.items[i].visible == b[at + 2] / 128
        && d.items[i].lcn == be16(b, at + 2) % 1024);
}

pub fn root_np_0a_full() {
    let b: &[u8] = nd("bytes");
    assume(b.len() == 254);
    let mut l = read(b, 0x0a);
    let d = l.get(0).unwrap().downcast_ref::<Desc0A>();
    claim("0a: as many items as fit", d.items.len() == 63);
    let mut i = 0;
    while i < 63 {
        claim("0a: each of many items", code(&d.items[i].code, &b[2 + 4 * i .. 5 + 4 * i]) && d.items[i].audio_type == b[5 + 4 * i]);
        i += 1;
    }
}

pub fn root_np_41_full() {
    let b: &[u8] = nd("bytes");
    assume(b.len() == 257);
    let mut l = read(b, 0x41);
    let d = l.get(0).unwrap().downcast_ref::<Desc41>();
    claim("41: as many items as fit", d.items.len() == 85);
    let mut i = 0;
    while i < 85 {
        claim("41: each of many items", d.items[i].service_id == be16(b, 2 + 3 * i) && d.items[i].service_type == b[4 + 3 * i]);
        i += 1;
    }
}

pub fn root_np_58_full() {
    let b: &[u8] = nd("bytes");
    assume(b.len() == 249);
    let mut k = 0;
    while k < 19 { assume(be16(b, 8 + 13 * k) >= 40587); k += 1; }
    let mut l = read(b, 0x58);
    let d = l.get(0).unwrap().downcast_ref::<Desc58>();
    claim("58: as many items as fit", d.items.len() == 19);
    let mut i = 0;
    while i < 19 {
        let x = &d.items[i];
        let at = 2 + 13 * i;
        claim("58: country of each of many items", code(&x.country_code, &b[at .. at + 3]) && x.region_id == b[at + 3] / 4 && x.offset_polarity == b[at + 3] % 2);
        claim("58: offsets of each of many items", x.offset as u64 == bcd8(b[at + 4]) * 60 + bcd8(b[at + 5]) && x.next_offset as u64 == bcd8(b[at + 11]) * 60 + bcd8(b[at + 12]));
        claim("58: day of change of each of many items", x.time_of_change == (be16(b, at + 6) as u64 - 40587) * 86400 + bcd8(b[at + 8]) * 3600 + bcd8(b[at + 9]) * 60 + bcd8(b[at + 10]));
        i += 1;
    }
}

pub fn root_np_83_full() {
    let b: &[u8] = nd("bytes");
    assume(b.len() == 254);
    let mut l = read(b, 0x83);
    let d = l.get(0).unwrap().downcast_ref::<Desc83>();
    claim("83: as many items as fit", d.items.len() == 63);
    let mut i = 0;
    while i < 63 {
        let at = 2 + 4 * i;
        claim("83: each of many items", d.items[i].service_id == be16(b, at) && d.items[i].visible == b[at + 2] / 128 && d.items[i].lcn == be16(b, at + 2) % 1024);
        i += 1;
    }
}

pub fn root_np_4e_more_items() {
    let b: &[u8] = nd("bytes");
    // three items of short texts and a text behind them
    assume(b.len() == 25 && b[6] == 15);
    assume(b[7] == 1 && b[9] == 2 && b[12] == 2 && b[15] == 1 && b[17] == 1 && b[19] == 2 && b[22] == 2);
    let mut l = read(b, 0x4e);
    let d = l.get(0).unwrap().downcast_ref::<Desc4E>();
    claim("4e: three items", d.items.len() == 3);
    claim("4e: first of three items", d.items[0].0 == StringDVB::from(&b[8 .. 9]) && d.items[0].1 == StringDVB::from(&b[10 .. 12]));
    claim("4e: second of three items", d.items[1].0 == StringDVB::from(&b[13 .. 15]) && d.items[1].1 == StringDVB::from(&b[16 .. 17]));
    claim("4e: third of three items", d.items[2].0 == StringDVB::from(&b[18 .. 19]) && d.items[2].1 == StringDVB::from(&b[20 .. 22]));
    claim("4e: text behind three items", d.text == StringDVB::from(&b[23 .. 25]));
}

pub fn root_np_4e_full() {
    // as many items as the length byte allows
    let mut b = vec![0x4e, 255, 0x21, b'e', b'n', b'g', 248];
    for k in 0 .. 62u8 { b.extend_from_slice(&[1, 32 + k, 1, 160 + k]); }
    b.extend_from_slice(&[1, b'.']);
    let mut l = read(&b, 0x4e);
    let d = l.get(0).unwrap().downcast_ref::<Desc4E>();
    claim("4e: as many items as fit", d.items.len() == 62 && d.number == 2 && d.last_number == 1);
    for k in 0 .. 62 {
        claim("4e: each of many items", d.items[k].0 == StringDVB::from(&[32 + k as u8][..]) && d.items[k].1 == StringDVB::from(&[160 + k as u8][..]));
    }
    claim("4e: text behind many items", d.text == StringDVB::from(&b[256 ..]));
}

pub fn root_np_4e_empty_items() {
    let mut b = vec![0x4e, 254, 0, b'e', b'n', b'g', 248];
    for _ in 0 .. 249 { b.push(0); }
    let mut l = read(&b, 0x4e);
    let d = l.get(0).unwrap().downcast_ref::<Desc4E>();
    claim("4e: as many empty items as fit", d.items.len() == 124);
}

pub fn root_np_44_high() {
    let b: &[u8] = nd("bytes");
    assume(b.len() == 13);
    assume(digits(b[2]) && digits(b[3]) && digits(b[4]) && digits(b[5]));
    assume(digits(b[9]) && digits(b[10]) && digits(b[11]));
    assume(bcd32(b, 2) >= 40_000_000);
    let mut l = read(b, 0x44);
    let d = l.get(0).unwrap().downcast_ref::<Desc44>();
    claim("44: codes at any frequency", d.fec_outer == b[7] % 16 && d.modulation == b[8] && d.fec == b[12] % 16);
    claim("44: symbol rate at any frequency", d.symbol_rate as u64 == bcd8(b[9]) * 10000 + bcd16(b, 10));
}

pub fn root_np_5a_high() {
    let b: &[u8] = nd("bytes");
    assume(b.len() == 13);
    assume(be32(b, 2) >= 400_000_000);
    let mut l = read(b, 0x5a);
    let d = l.get(0).unwrap().downcast_ref::<Desc5A>();
    claim("5a: bandwidth and modulation at any frequency", d.bandwidth == b[6] / 32 && d.modulation == b[7] / 64 && d.hierarchy == b[7] / 8 % 8);
    claim("5a: transmission at any frequency", d.guard_interval == b[8] / 8 % 4 && d.transmission == b[8] / 2 % 4);
}
