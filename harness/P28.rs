// BCD numbers and times, modified Julian dates.
use mpegts::psi::{BCD, BCDTime, MJDFrom, MJDTo};

fn digits(b: u32) -> bool { b % 16 < 10 && b / 16 % 16 < 10 }

pub fn root_np_u8() {
    let v: u8 = nd("v");
    assume(v < 100);
    let b = v.to_bcd();
    claim("two digits", b / 16 == v / 10 && b % 16 == v % 10);
    claim("two digits read back", b.from_bcd() == v);
}

pub fn root_np_u8_from() {
    let b: u8 = nd("b");
    let v = b.from_bcd();
    if digits(b as u32) {
        claim("value of two digits", v == b / 16 * 10 + b % 16);
        claim("two digits written again", v.to_bcd() == b);
    }
}

pub fn root_np_u16() {
    let v: u16 = nd("v");
    assume(v < 10000);
    let b = v.to_bcd();
    claim("four digits", b / 4096 == v / 1000 && b / 256 % 16 == v / 100 % 10 && b / 16 % 16 == v / 10 % 10 && b % 16 == v % 10);
    claim("four digits read back", b.from_bcd() == v);
}

pub fn root_np_u16_from() {
    let b: u16 = nd("b");
    let v = b.from_bcd();
    if digits(b as u32) && digits(b as u32 / 256) {
        claim("value of four digits", v == b / 4096 * 1000 + b / 256 % 16 * 100 + b / 16 % 16 * 10 + b % 16);
    }
}

pub fn root_np_u32() {
    let v: u32 = nd("v");
    assume(v < 100_000_000);
    let b = v.to_bcd();
    claim("upper digits of eight", b / 0x10000000 == v / 10000000 && b / 0x1000000 % 16 == v / 1000000 % 10 && b / 0x100000 % 16 == v / 100000 % 10 && b / 0x10000 % 16 == v / 10000 % 10);
    claim("lower digits of eight", b / 4096 % 16 == v / 1000 % 10 && b / 256 % 16 == v / 100 % 10 && b / 16 % 16 == v / 10 % 10 && b % 16 == v % 10);
    claim("eight digits read back", b.from_bcd() == v);
}

pub fn root_np_u32_from() {
    let b: u32 = nd("b");
    let v = b.from_bcd() as u64;
    if digits(b) && digits(b / 256) && digits(b / 65536) && digits(b / 0x1000000) {
        let b = b as u64;
        let hi = b / 0x10000000 * 1000 + b / 0x1000000 % 16 * 100 + b / 0x100000 % 16 * 10 + b / 0x10000 % 16;
        let lo = b / 4096 % 16 * 1000 + b / 256 % 16 * 100 + b / 16 % 16 * 10 + b % 16;
        claim("value of eight digits", v == hi * 10000 + lo);
    }
}

pub fn root_np_minutes() {
    let v: u16 = nd("v");
    let b = v.to_bcd_time();
    claim("hours and minutes of the day", b / 4096 == v / 60 % 24 / 10 && b / 256 % 16 == v / 60 % 24 % 10 && b / 16 % 16 == v % 60 / 10 && b % 16 == v % 60 % 10);
    if v < 1440 {
        claim("minutes read back", b.from_bcd_time() == v);
    }
}

pub fn root_np_seconds() {
    let v: u32 = nd("v");
    let b = v.to_bcd_time();
    let (h, m, s) = (v / 3600 % 24, v / 60 % 60, v % 60);
    claim("hours of the day", b / 0x100000 == h / 10 && b / 0x10000 % 16 == h % 10);
    claim("minutes and seconds", b / 0x1000 % 16 == m / 10 && b / 0x100 % 16 == m % 10 && b / 16 % 16 == s / 10 && b % 16 == s % 10);
    if v < 86400 {
        claim("seconds read back", b.from_bcd_time() == v);
    }
}

pub fn root_np_time_from() {
    let b: u32 = nd("b");
    assume(b < 0x1000000 && digits(b) && digits(b / 256) && digits(b / 65536));
    let (h, m, s) = (b / 0x100000 * 10 + b / 0x10000 % 16, b / 0x1000 % 16 * 10 + b / 0x100 % 16, b / 16 % 16 * 10 + b % 16);
    claim("seconds of a time", b.from_bcd_time() == h * 3600 + m * 60 + s);
    let c = (b / 256) as u16;
    claim("minutes of a time", c.from_bcd_time() as u32 == h * 60 + m);
}

pub fn root_np_mjd() {
    let d: u16 = nd("day");
    let t = d.from_mjd();
    if d >= 40587 {
        claim("midnight of a day since 1970", t == (d as u64 - 40587) * 86400);
        claim("the day of a midnight", t.to_mjd() == d);
    }
    let s: u64 = nd("time");
    assume(s < (65536 - 40587) * 86400);
    claim("the day of a time", s.to_mjd() as u64 == 40587 + s / 86400);
    claim("a time is in its day", s.to_mjd().from_mjd() <= s && s - s.to_mjd().from_mjd() < 86400);
}
