// Assembled descriptors have the layout of ISO 13818-1 and EN 300 468.
use mpegts::psi::*;
use mpegts::textcode::StringDVB;

fn be16(b: &[u8], i: usize) -> u64 { b[i] as u64 * 256 + b[i + 1] as u64 }
fn be32(b: &[u8], i: usize) -> u64 { be16(b, i) * 65536 + be16(b, i + 2) }
/// The byte holds these two decimal digits.
fn bcd(b: u8, v: u64) -> bool { b as u64 / 16 == v / 10 && b as u64 % 16 == v % 10 }

/// The bytes the descriptor adds behind those already in a buffer.
fn emit<T: Into<Descriptor>>(d: T) -> Vec<u8> {
    let mut l = Descriptors::default();
    l.push(d);
    let mut b: Vec<u8> = nd("before");
    let n = b.len();
    let before = b.clone();
    let added = l.assemble(&mut b);
    claim("bytes in front of the descriptor stay", b.len() >= n && b[.. n] == before[..]);
    claim("the number of added bytes is returned", added == b.len() - n);
    b[n ..].to_vec()
}

fn text(name: &'static str) -> StringDVB {
    let t: StringDVB = nd(name);
    assume(t.as_bytes().len() < 80);
    t
}

fn code(name: &'static str) -> StringDVB {
    let t: StringDVB = nd(name);
    assume(t.get_codepage() == 0 && t.as_bytes().len() == 3);
    t
}

/// The length byte at `at` and the text behind it.
fn sized(t: &StringDVB, b: &[u8], at: usize) -> bool {
    let mut x = Vec::new();
    t.assemble(&mut x);
    b[at] as usize == x.len() && b[at + 1 .. at + 1 + x.len()] == x[..]
}

fn head(b: &[u8], tag: u8) -> bool { b.len() >= 2 && b[0] == tag && b.len() == 2 + b[1] as usize }

pub fn root_np_raw() {
    let d: DescRaw = nd("desc");
    let (tag, data) = (d.tag, d.data.clone());
    assume(data.len() < 256);
    let b = emit(d);
    claim("raw: head", head(&b, tag));
    claim("raw: payload", b[2 ..] == data[..]);
}

pub fn root_np_09() {
    let d: Desc09 = nd("desc");
    assume(d.pid < 8192 && d.data.len() < 252);
    let b = emit(d.clone());
    claim("09: head", head(&b, 0x09) && b.len() == 6 + d.data.len());
    claim("09: fields", be16(&b, 2) == d.caid as u64 && be16(&b, 4) == 0xe000 + d.pid as u64);
    claim("09: private data", b[6 ..] == d.data[..]);
}

pub fn root_np_0a() {
    let mut d = Desc0A::default();
    d.items.push(Desc0Ai { code: code("first"), audio_type: nd("type") });
    d.items.push(Desc0Ai { code: code("second"), audio_type: nd("second type") });
    let b = emit(d.clone());
    claim("0a: head", head(&b, 0x0a) && b.len() == 10);
    let i: usize = nd("i");
    assume(i < 2);
    claim("0a: language and type", b[2 + 4 * i .. 5 + 4 * i] == d.items[i].code.as_bytes()[..] && b[5 + 4 * i] == d.items[i].audio_type);
}

pub fn root_np_0e() {
    let d: Desc0E = nd("desc");
    assume(d.bitrate < 1 << 22);
    let b = emit(d.clone());
    claim("0e: head", head(&b, 0x0e) && b.len() == 5);
    claim("0e: bitrate", b[2] as u64 * 65536 + be16(&b, 3) == 0xc00000 + d.bitrate as u64);
}

pub fn root_np_40() {
    let d = Desc40 { name: text("name") };
    let b = emit(d.clone());
    claim("40: head and name", head(&b, 0x40) && sized(&d.name, &b, 1));
}

pub fn root_np_41() {
    let mut d = Desc41::default();
    d.items.push(Desc41i { service_id: nd("service"), service_type: nd("type") });
    d.items.push(Desc41i { service_id: nd("second service"), service_type: nd("second type") });
    d.items.push(Desc41i { service_id: nd("third service"), service_type: nd("third type") });
    let b = emit(d.clone());
    claim("41: head", head(&b, 0x41) && b.len() == 11);
    let i: usize = nd("i");
    assume(i < 3);
    claim("41: service and type", be16(&b, 2 + 3 * i) == d.items[i].service_id as u64 && b[4 + 3 * i] == d.items[i].service_type);
}

pub fn root_np_43() {
    let d: Desc43 = nd("desc");
    assume(d.frequency < 1_000_000_000 && d.orbital_position <= 3600 * 6 && d.symbol_rate < 1_000_000);
    assume(d.west_east_flag < 2 && d.polarization < 4 && d.rof < 4 && d.s2 < 2 && d.modulation < 4 && d.fec < 16);
    let b = emit(d.clone());
    claim("43: head", head(&b, 0x43) && b.len() == 13);
    let f = d.frequency as u64 / 10;
    claim("43: frequency digits", bcd(b[2], f / 1000000) && bcd(b[3], f / 10000 % 100) && bcd(b[4], f / 100 % 100) && bcd(b[5], f % 100));
    let o = d.orbital_position as u64 / 6;
    claim("43: orbital position digits", bcd(b[6], o / 100) && bcd(b[7], o % 100));
    claim("43: flags", b[8] / 128 == d.west_east_flag && b[8] / 32 % 4 == d.polarization && b[8] / 8 % 4 == d.rof
        && b[8] / 4 % 2 == d.s2 && b[8] % 4 == d.modulation);
    let s = d.symbol_rate as u64;
    claim("43: symbol rate digits", bcd(b[9], s / 10000) && bcd(b[10], s / 100 % 100) && bcd(b[11], s % 100));
    claim("43: inner code", b[12] == d.fec);
}

pub fn root_np_44() {
    let d: Desc44 = nd("desc");
    assume(d.symbol_rate < 1_000_000 && d.fec_outer < 16 && d.fec < 16);
    let b = emit(d.clone());
    claim("44: head", head(&b, 0x44) && b.len() == 13);
    let f = d.frequency as u64 / 100;
    claim("44: frequency digits", bcd(b[2], f / 1000000) && bcd(b[3], f / 10000 % 100) && bcd(b[4], f / 100 % 100) && bcd(b[5], f % 100));
    claim("44: codes", b[6] == 0xff && b[7] == 0xf0 + d.fec_outer && b[8] == d.modulation && b[12] == d.fec);
    let s = d.symbol_rate as u64;
    claim("44: symbol rate digits", bcd(b[9], s / 10000) && bcd(b[10], s / 100 % 100) && bcd(b[11], s % 100));
}

pub fn root_np_48() {
    let d = Desc48 { service_type: nd("type"), provider: text("provider"), name: text("name") };
    let b = emit(d.clone());
    claim("48: head", head(&b, 0x48) && b[2] == d.service_type);
    claim("48: provider", sized(&d.provider, &b, 3));
    claim("48: name", sized(&d.name, &b, 4 + b[3] as usize));
}

pub fn root_np_4d() {
    let d = Desc4D { lang: code("lang"), name: text("name"), text: text("text") };
    let b = emit(d.clone());
    claim("4d: head", head(&b, 0x4d));
    claim("4d: language", b[2 .. 5] == d.lang.as_bytes()[..]);
    claim("4d: name", sized(&d.name, &b, 5));
    claim("4d: text", sized(&d.text, &b, 6 + b[5] as usize));
}

pub fn root_np_4e() {
    let d = Desc4E { number: nd("number"), last_number: nd("last"), lang: code("lang"), items: Vec::new(), text: text("text") };
    assume(d.number < 16 && d.last_number < 16);
    let b = emit(d.clone());
    claim("4e: head", head(&b, 0x4e));
    claim("4e: numbers and language", b[2] / 16 == d.number && b[2] % 16 == d.last_number && b[3 .. 6] == d.lang.as_bytes()[..]);
    claim("4e: no items and text", b[6] == 0 && sized(&d.text, &b, 7));
}

pub fn root_np_4e_items() {
    let mut d = Desc4E { number: 0, last_number: 0, lang: code("lang"), items: Vec::new(), text: text("text") };
    d.items.push((text("item"), text("item text")));
    assume(d.text.size() + d.items[0].0.size() + d.items[0].1.size() < 240);
    let b = emit(d.clone());
    claim("4e: head with an item", head(&b, 0x4e));
    claim("4e: item description", sized(&d.items[0].0, &b, 7));
    claim("4e: item text", sized(&d.items[0].1, &b, 8 + b[7] as usize));
    let n = 2 + d.items[0].0.size() + d.items[0].1.size();
    claim("4e: text behind the item", b[6] as usize == n && sized(&d.text, &b, 7 + n));
}

pub fn root_np_52() {
    let d: Desc52 = nd("desc");
    let b = emit(d.clone());
    claim("52: component tag", head(&b, 0x52) && b.len() == 3 && b[2] == d.tag);
}

pub fn root_np_58() {
    let mut d = Desc58::default();
    let x = Desc58i { country_code: code("country"), region_id: nd("region"), offset_polarity: nd("polarity"), offset: nd("offset"),
        time_of_change: nd("time"), next_offset: nd("next") };
    assume(x.region_id < 64 && x.offset_polarity < 2 && x.offset < 1440 && x.next_offset < 1440);
    assume(x.time_of_change < (65536 - 40587) * 86400);
    d.items.push(x);
    let b = emit(d.clone());
    let x = &d.items[0];
    claim("58: head", head(&b, 0x58) && b.len() == 15);
    claim("58: country and region", b[2 .. 5] == x.country_code.as_bytes()[..] && b[5] / 4 == x.region_id && b[5] % 2 == x.offset_polarity);
    claim("58: reserved bit", b[5] / 2 % 2 == 1);
    claim("58: offset digits", bcd(b[6], x.offset as u64 / 60) && bcd(b[7], x.offset as u64 % 60));
    claim("58: day of change", be16(&b, 8) == 40587 + x.time_of_change / 86400);
    let t = x.time_of_change;
    claim("58: time of change digits", bcd(b[10], t / 3600 % 24) && bcd(b[11], t / 60 % 60) && bcd(b[12], t % 60));
    claim("58: next offset digits", bcd(b[13], x.next_offset as u64 / 60) && bcd(b[14], x.next_offset as u64 % 60));
}

pub fn root_np_58_second() {
    let mut d = Desc58::default();
    d.items.push(Desc58i { country_code: code("country"), region_id: 0, offset_polarity: 0, offset: 0, time_of_change: 0, next_offset: 0 });
    let x = Desc58i { country_code: code("second country"), region_id: nd("region"), offset_polarity: nd("polarity"), offset: nd("offset"),
        time_of_change: 0, next_offset: 0 };
    assume(x.region_id < 64 && x.offset_polarity < 2 && x.offset < 1440);
    d.items.push(x);
    let b = emit(d.clone());
    let x = &d.items[1];
    claim("58: two items", head(&b, 0x58) && b.len() == 28);
    claim("58: second item", b[15 .. 18] == x.country_code.as_bytes()[..] && b[18] / 4 == x.region_id && b[18] % 2 == x.offset_polarity
        && bcd(b[19], x.offset as u64 / 60) && bcd(b[20], x.offset as u64 % 60));
}

pub fn root_np_5a() {
    let d: Desc5A = nd("desc");
    assume(d.bandwidth < 8 && d.priority < 2 && d.time_slicing < 2 && d.mpe_fec < 2 && d.modulation < 4 && d.hierarchy < 8);
    assume(d.code_rate_hp < 8 && d.code_rate_lp < 8 && d.guard_interval < 4 && d.transmission < 4 && d.other_frequency_flag < 2);
    let b = emit(d.clone());
    claim("5a: head", head(&b, 0x5a) && b.len() == 13);
    claim("5a: frequency", be32(&b, 2) == d.frequency as u64 / 10);
    claim("5a: bandwidth and priority", b[6] / 32 == d.bandwidth && b[6] / 16 % 2 == d.priority);
    claim("5a: slicing and fec", b[6] / 8 % 2 == d.time_slicing && b[6] / 4 % 2 == d.mpe_fec && b[6] % 4 == 3);
    claim("5a: modulation", b[7] / 64 == d.modulation && b[7] / 8 % 8 == d.hierarchy && b[7] % 8 == d.code_rate_hp);
    claim("5a: transmission", b[8] / 32 == d.code_rate_lp && b[8] / 8 % 4 == d.guard_interval && b[8] / 2 % 4 == d.transmission
        && b[8] % 2 == d.other_frequency_flag);
    claim("5a: reserved bytes", be32(&b, 9) == 0xffffffff);
}

pub fn root_np_83() {
    let mut d = Desc83::default();
    d.items.push(Desc83i { service_id: nd("service"), visible: nd("visible"), lcn: nd("lcn") });
    d.items.push(Desc83i { service_id: nd("second service"), visible: nd("second visible"), lcn: nd("second lcn") });
    let i: usize = nd("i");
    assume(i < 2);
    assume(d.items[0].visible < 2 && d.items[0].lcn < 1024 && d.items[1].visible < 2 && d.items[1].lcn < 1024);
    let b = emit(d.clone());
    claim("83: head", head(&b, 0x83) && b.len() == 10);
    let at = 2 + 4 * i;
    claim("83: service", be16(&b, at) == d.items[i].service_id as u64);
    claim("83: visibility and number", be16(&b, at + 2) == d.items[i].visible as u64 * 32768 + 31 * 1024 + d.items[i].lcn as u64);
}

pub fn root_np_two() {
    let x: DescRaw = nd("first");
    let y: DescRaw = nd("second");
    assume(x.data.len() < 256 && y.data.len() < 256);
    let mut l = Descriptors::default();
    l.push(x.clone());
    l.push(y.clone());
    let mut b = Vec::new();
    let n = l.assemble(&mut b);
    claim("a list is as long as its descriptors", n == b.len() && n == l.size() && n == 4 + x.data.len() + y.data.len());
    claim("first descriptor comes first", b[0] == x.tag && b[2 .. 2 + x.data.len()] == x.data[..]);
    claim("second descriptor follows", b[2 + x.data.len()] == y.tag && b[4 + x.data.len() ..] == y.data[..]);
}

pub fn root_np_0a_full() {
    let mut d = Desc0A::default();
    while d.items.len() < 63 { d.items.push(Desc0Ai { code: code("code"), audio_type: nd("type") }); }
    let b = emit(d.clone());
    claim("0a: head of as many items as fit", head(&b, 0x0a) && b.len() == 254);
    let mut i = 0;
    while i < 63 {
        claim("0a: each of many items", b[2 + 4 * i .. 5 + 4 * i] == d.items[i].code.as_bytes()[..] && b[5 + 4 * i] == d.items[i].audio_type);
        i += 1;
    }
}

pub fn root_np_41_full() {
    let mut d = Desc41::default();
    while d.items.len() < 85 { d.items.push(Desc41i { service_id: nd("service"), service_type: nd("type") }); }
    let b = emit(d.clone());
    claim("41: head of as many items as fit", head(&b, 0x41) && b.len() == 257);
    let mut i = 0;
    while i < 85 {
        claim("41: each of many items", be16(&b, 2 + 3 * i) == d.items[i].service_id as u64 && b[4 + 3 * i] == d.items[i].service_type);
        i += 1;
    }
}

pub fn root_np_58_full() {
    let mut d = Desc58::default();
    while d.items.len() < 19 {
        let x = Desc58i { country_code: code("country"), region_id: nd("region"), offset_polarity: nd("polarity"), offset: nd("offset"),
            time_of_change: nd("time"), next_offset: nd("next") };
        assume(x.region_id < 64 && x.offset_polarity < 2 && x.offset < 1440 && x.next_offset < 1440);
        assume(x.time_of_change < (65536 - 40587) * 86400);
        d.items.push(x);
    }
    let b = emit(d.clone());
    claim("58: head of as many items as fit", head(&b, 0x58) && b.len() == 249);
    let mut i = 0;
    while i < 19 {
        let x = &d.items[i];
        let at = 2 + 13 * i;
        claim("58: country of each of many items", b[at .. at + 3] == x.country_code.as_bytes()[..] && b[at + 3] / 4 == x.region_id && b[at + 3] % 2 == x.offset_polarity);
        claim("58: offsets of each of many items", bcd(b[at + 4], x.offset as u64 / 60) && bcd(b[at + 5], x.offset as u64 % 60)
            && bcd(b[at + 11], x.next_offset as u64 / 60) && bcd(b[at + 12], x.next_offset as u64 % 60));
        claim("58: day of change of each of many items", be16(&b, at + 6) == 40587 + x.time_of_change / 86400);
        i += 1;
    }
}

pub fn root_np_83_full() {
    let mut d = Desc83::default();
    while d.items.len() < 63 {
        let x = Desc83i { service_id: nd("service"), visible: nd("visible"), lcn: nd("lcn") };
        assume(x.visible < 2 && x.lcn < 1024);
        d.items.push(x);
    }
    let b = emit(d.clone());
    claim("83: head of as many items as fit", head(&b, 0x83) && b.len() == 254);
    let mut i = 0;
    while i < 63 {
        let at = 2 + 4 * i;
        claim("83: each of many items", be16(&b, at) == d.items[i].service_id as u64
            && be16(&b, at + 2) == d.items[i].visible as u64 * 32768 + 31 * 1024 + d.items[i].lcn as u64);
        i += 1;
    }
}

fn short(name: &'static str, n: usize) -> StringDVB {
    let t: StringDVB = nd(name);
    assume(t.get_codepage() == 0 && t.as_bytes().len() == n);
    t
}

pub fn root_np_4e_more_items() {
    let mut d = Desc4E { number: 15, last_number: 15, lang: code("lang"), items: Vec::new(), text: short("text", 2) };
    d.items.push((short("item", 1), short("item text", 2)));
    d.items.push((short("second item", 0), short("second item text", 30)));
    d.items.push((short("third item", 9), short("third item text", 0)));
    let b = emit(d.clone());
    claim("4e: head with three items", head(&b, 0x4e) && b[2] == 0xff && b[6] == 48);
    claim("4e: first of three items", sized(&d.items[0].0, &b, 7) && sized(&d.items[0].1, &b, 9));
    claim("4e: second of three items", sized(&d.items[1].0, &b, 12) && sized(&d.items[1].1, &b, 13));
    claim("4e: third of three items", sized(&d.items[2].0, &b, 44) && sized(&d.items[2].1, &b, 54));
    claim("4e: text behind three items", sized(&d.text, &b, 55) && b.len() == 58);
}

pub fn root_np_many() {
    let mut l = Descriptors::default();
    while l.len() < 100 { l.push(Desc52 { tag: l.len() as u8 }); }
    let mut b = Vec::new();
    let n = l.assemble(&mut b);
    claim("a list of many is as long as its descriptors", n == 300 && b.len() == 300 && l.size() == 300);
    let mut i = 0;
    while i < 100 {
        claim("each of many descriptors is in its place", b[3 * i] == 0x52 && b[3 * i + 1] == 1 && b[3 * i + 2] as usize == i);
        i += 1;
    }
}

pub fn root_np_4e_full() {
    // as many items as the length byte allows
    let mut d = Desc4E { number: 2, last_number: 1, lang: StringDVB::from(&b"eng"[..]), items: Vec::new(), text: StringDVB::from(&b"."[..]) };
    for k in 0 .. 62u8 { d.items.push((StringDVB::from(&[32 + k][..]), StringDVB::from(&[160 + k][..]))); }
    let mut l = Descriptors::default();
    l.push(d);
    let mut b = Vec::new();
    l.assemble(&mut b);
    claim("4e: head with many items", head(&b, 0x4e) && b.len() == 257 && b[2] == 0x21 && b[6] == 248);
    for k in 0 .. 62 {
        let x = &b[7 + 4 * k .. 11 + 4 * k];
        claim("4e: each of many items", x[0] == 1 && x[1] as usize == 32 + k && x[2] == 1 && x[3] as usize == 160 + k);
    }
    claim("4e: text behind many items", b[255] == 1 && b[256] == b'.');
}
