// Sections that were read are sent again as they were.
use mpegts::psi::*;

fn be16(b: &[u8], i: usize) -> usize { b[i] as usize * 256 + b[i + 1] as usize }
fn be12(b: &[u8], i: usize) -> usize { b[i] as usize % 16 * 256 + b[i + 1] as usize }

/// A loop without descriptors, or with one that the library does not interpret.
fn plain(b: &[u8]) -> bool {
    if b.len() == 0 { return true; }
    b.len() >= 2 && b[1] as usize == b.len() - 2 && b[0] > 0x83
}

/// The same, or two of them.
fn plain2(b: &[u8]) -> bool {
    if b.len() < 2 { return b.len() == 0; }
    let n = 2 + b[1] as usize;
    n <= b.len() && b[0] > 0x83 && plain(&b[n ..])
}

fn digits(b: u8, limit: u8) -> bool { b % 16 < 10 && b / 16 * 10 + b % 16 < limit && b / 16 < 10 }

/// A date from 1970 on and a time of day.
fn moment(b: &[u8]) -> bool { be16(b, 0) >= 40587 && digits(b[2], 24) && digits(b[3], 60) && digits(b[4], 60) }

/// An arbitrary finished section, alone in its table, of the flags beside the length.
fn section(flags: u8, least: usize) -> Psi {
    let p: Psi = nd("psi");
    let b = &p.buffer;
    assume(p.size >= least && p.size <= 1024 && b.len() == p.size && be16(b, 1) == flags as usize * 4096 + p.size - 3);
    assume(p.check());
    if least > 14 || flags == 0xb { assume(b[5] / 64 == 3 && b[5] % 2 == 1 && b[6] == 0 && b[7] == 0); }
    p
}

/// Is the only section in the list, once finished, this one?
fn same(p: &Psi, l: &mut Vec<Psi>) -> bool {
    if l.len() != 1 { return false; }
    let q = &mut l[0];
    q.finalize();
    let n = p.size - 4;
    q.size == p.size && q.buffer.len() == p.size && q.buffer[.. n] == p.buffer[.. n] && q.check()
}

pub fn root_np_pat() {
    let p = section(0xb, 12);
    let b = &p.buffer;
    assume(b[0] == 0 && p.size <= 20);
    if p.size >= 16 { assume(b[10] / 32 == 7); }
    if p.size == 20 { assume(b[14] / 32 == 7); }
    assume(p.size % 4 == 0);
    claim("a program association section comes out as it was", same(&p, &mut Pat::from(&p).psi_list_assemble()));
}

pub fn root_np_pmt() {
    let p = section(0xb, 16);
    let b = &p.buffer;
    let n = be12(b, 10);
    let end = p.size - 4;
    assume(b[0] == 2 && b[8] / 32 == 7 && b[10] / 16 == 15 && 12 + n <= end && plain(&b[12 .. 12 + n]));
    let at = 12 + n;
    if at < end {
        assume(at + 5 <= end && b[at + 1] / 32 == 7 && b[at + 3] / 16 == 15);
        let next = at + 5 + be12(b, at + 3);
        assume(next <= end && plain(&b[at + 5 .. next]));
        if next < end {
            assume(next + 5 == end && b[next + 1] / 32 == 7 && b[next + 3] / 16 == 15 && be12(b, next + 3) == 0);
        }
    }
    claim("a program map section comes out as it was", same(&p, &mut Pmt::from(&p).psi_list_assemble()));
}

pub fn root_np_nit() {
    let p = section(0xf, 16);
    let b = &p.buffer;
    let n = be12(b, 8);
    let end = p.size - 4;
    assume(b[0] / 2 == 0x20 && b[8] / 16 == 15 && 12 + n <= end && plain(&b[10 .. 10 + n]));
    assume(be16(b, 10 + n) == 0xf000 + end - 12 - n);
    let at = 12 + n;
    if at < end {
        assume(at + 6 <= end && b[at + 4] / 16 == 15);
        let next = at + 6 + be12(b, at + 4);
        assume(next <= end && plain(&b[at + 6 .. next]));
        if next < end {
            assume(next + 6 == end && b[next + 4] / 16 == 15 && be12(b, next + 4) == 0);
        }
    }
    claim("a network information section comes out as it was", same(&p, &mut Nit::from(&p).psi_list_assemble()));
}

pub fn root_np_sdt() {
    let p = section(0xf, 15);
    let b = &p.buffer;
    let end = p.size - 4;
    assume((b[0] == 0x42 || b[0] == 0x46) && b[10] == 0xff);
    let at = 11;
    if at < end {
        assume(at + 5 <= end && b[at + 2] / 4 == 63);
        let next = at + 5 + be12(b, at + 3);
        assume(next <= end && plain2(&b[at + 5 .. next]));
        if next < end {
            assume(next + 5 == end && b[next + 2] / 4 == 63 && be12(b, next + 3) == 0);
        }
    }
    claim("a service description section comes out as it was", same(&p, &mut Sdt::from(&p).psi_list_assemble()));
}

pub fn root_np_eit() {
    let p = section(0xf, 30);
    let b = &p.buffer;
    let end = p.size - 4;
    assume((b[0] == 0x4e || b[0] == 0x4f) && b[12] == 0 && b[13] == b[0] && 26 + be12(b, 24) == end);
    assume(moment(&b[16 .. 21]) && plain2(&b[26 .. end]));
    assume(digits(b[21], 100) && digits(b[22], 60) && digits(b[23], 60));
    claim("an event section comes out as it was", same(&p, &mut Eit::from(&p).psi_list_assemble()));
}

pub fn root_np_tot() {
    let p = section(0x7, 14);
    let b = &p.buffer;
    let end = p.size - 4;
    assume(b[0] == 0x73 && moment(&b[3 .. 8]) && b[8] / 16 == 15 && 10 + be12(b, 8) == end && plain2(&b[10 .. end]));
    claim("a time offset section comes out as it was", same(&p, &mut Tot::from(&p).psi_list_assemble()));
}

pub fn root_np_tdt() {
    let p: Psi = nd("psi");
    let b = &p.buffer;
    assume(p.size == 8 && b.len() == 8 && b[0] == 0x70 && b[1] == 0x70 && b[2] == 5 && moment(&b[3 .. 8]));
    let l = Tdt::from(&p).psi_list_assemble();
    claim("a time section comes out as it was", l.len() == 1 && l[0].buffer == p.buffer);
}

pub fn root_np_pat_many() {
    let p = section(0xb, 12);
    let b = &p.buffer;
    assume(b[0] == 0 && p.size == 92);
    let mut i = 10;
    while i < 88 { assume(b[i] / 32 == 7); i += 4; }
    claim("a long program association section comes out as it was", same(&p, &mut Pat::from(&p).psi_list_assemble()));
}
