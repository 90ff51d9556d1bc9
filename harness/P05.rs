// Clock arithmetic: wrap-aware differences and unit conversions.
use mpegts::ts;
use mpegts::es::pes;

// The clocks count modulo 2^33 and 2^33 * 300.
const STAMPS: u64 = 0x2_0000_0000;
const PERIOD: u64 = STAMPS * 300;

pub fn root_np_pcr_delta() {
    let a: u64 = nd("last");
    let b: u64 = nd("current");
    assume(a < PERIOD && b < PERIOD);
    let d = ts::pcr_delta(a, b);
    claim("a forward step is the plain difference", b < a || d == b - a);
    claim("a wrapped step adds one clock period, give or take a tick", b >= a || d == b + PERIOD - a || d + 1 == b + PERIOD - a);
    claim("a step never exceeds one clock period", d < PERIOD);
}

pub fn root_np_pcr_wrap() {
    let a: u64 = nd("last");
    let b: u64 = nd("current");
    assume(a < PERIOD && b < a);
    claim("a wrapped step adds one clock period", ts::pcr_delta(a, b) == b + PERIOD - a);
}

pub fn root_np_pts_delta() {
    let a: u64 = nd("last");
    let b: u64 = nd("current");
    assume(a < STAMPS && b < STAMPS);
    let d = pes::pts_delta(a, b);
    claim("a forward stamp step is the plain difference", b < a || d == b - a);
    claim("a wrapped stamp step adds one period", b >= a || d == b + STAMPS - a);
    claim("a stamp step never exceeds one period", d < STAMPS);
}

pub fn root_np_units() {
    let v: u64 = nd("clock");
    claim("27 clock ticks to the microsecond", ts::pcr_to_us(v) == v / 27);
    claim("27000 clock ticks to the millisecond", ts::pcr_to_ms(v) == v / 27000);
    claim("90 stamp ticks to the millisecond", pes::pts_to_ms(v) == v / 90);
}

pub fn root_np_jitter() {
    let a: u64 = nd("pcr");
    let b: u64 = nd("stc");
    assume(a < PERIOD && b < PERIOD);
    let j = ts::pcr_jitter_ns(a, b);
    let d = if a >= b { (a - b) as i64 } else { a as i64 + PERIOD as i64 - b as i64 };
    let d = if d > 27_000_000 { d - PERIOD as i64 } else { d };
    claim("jitter is the wrapped difference in nanoseconds", j == d * 1000 / 27);
    claim("equal clocks have no jitter", a != b || j == 0);
}

pub fn root_np_interpolate() {
    let last: u64 = nd("last");
    let n: u64 = nd("bytes");
    let d: u64 = nd("delta");
    let m: u64 = nd("total");
    assume(last < PERIOD && m == 1000 && n <= 1000 && d < PERIOD);
    let s = ts::pcr_to_stc(last, n, d, m);
    claim("the interpolated clock lies between the two references", last <= s && s <= last + d);
    claim("no bytes give the last reference", n != 0 || s == last);
    claim("all bytes give the next reference", n != m || s == last + d);
}

pub fn root_np_bitrate() {
    let d: u64 = nd("delta");
    let n: u64 = nd("bytes");
    assume(d == 27_000_000 && n < 1 << 40);
    claim("bits per millisecond over one second", ts::pcr_delta_bitrate(d, n) == n * 8 / 1000);
}

pub fn root_np_bitrate_any() {
    let d: u64 = nd("delta");
    let n: u64 = nd("bytes");
    assume(d < PERIOD && n < 1 << 40);
    let b = ts::pcr_delta_bitrate(d, n);
    if d >= 27_000 {
        claim("bits per millisecond", b == n * 8 / (d / 27_000));
    } else {
        reach("the bitrate over less than a millisecond returns");
    }
}
