// Splitting a table into sections loses nothing and respects the section size limit.
use mpegts::psi::*;

fn be16(b: &[u8], i: usize) -> usize { b[i] as usize * 256 + b[i + 1] as usize }

pub fn root_np_pmt() {
    let t: Pmt = nd("pmt");
    assume(t.version < 32 && t.pcr < 8192 && t.items.len() <= 3);
    let d = t.descriptors.size();
    assume(d <= 1008);
    let mut i = 0;
    let mut sum = d;
    while i < t.items.len() {
        assume(t.items[i].pid < 8192 && t.items[i].descriptors.size() <= 1003);
        sum += 5 + t.items[i].descriptors.size();
        i += 1;
    }
    let l = t.psi_list_assemble();
    let mut k = 0;
    let mut got = 0;
    while k < l.len() {
        claim("pmt: no section exceeds 1024 bytes with its checksum", l[k].buffer.len() <= 1020);
        got += l[k].buffer.len() - 12;
        claim("pmt: every section has the header of the table", l[k].buffer[0] == 2 && be16(&l[k].buffer, 3) == t.pnr as usize
            && be16(&l[k].buffer, 8) == 0xe000 + t.pcr as usize);
        claim("pmt: program descriptors are in the first section alone", be16(&l[k].buffer, 10) == 0xf000 + if k == 0 { d } else { 0 });
        k += 1;
    }
    claim("pmt: the sections hold all descriptors and items once", got == sum);
    claim("pmt: no section is empty unless the table is", l.len() <= 1 + t.items.len());
}

pub fn root_np_pmt_order() {
    let t: Pmt = nd("pmt");
    assume(t.items.len() == 2 && t.descriptors.size() == 0);
    let (a, b) = (&t.items[0], &t.items[1]);
    assume(a.pid < 8192 && b.pid < 8192 && a.descriptors.size() <= 1003 && b.descriptors.size() <= 1003);
    let l = t.psi_list_assemble();
    let x = &l[0].buffer;
    claim("pmt: the first item leads the first section", x[12] == a.stream_type && be16(x, 13) == 0xe000 + a.pid as usize);
    let n = 5 + a.descriptors.size();
    if n + 5 + b.descriptors.size() <= 1008 {
        claim("pmt: the second item follows when there is room", l.len() == 1 && x[12 + n] == b.stream_type && be16(x, 13 + n) == 0xe000 + b.pid as usize);
    } else {
        claim("pmt: an item without room starts another section", l.len() == 2);
        let y = &l[1].buffer;
        claim("pmt: the second item leads the second section", y[12] == b.stream_type && be16(y, 13) == 0xe000 + b.pid as usize);
    }
}

pub fn root_np_nit() {
    let t: Nit = nd("nit");
    assume(t.version < 32 && t.items.len() <= 3);
    let d = t.descriptors.size();
    assume(d <= 1008);
    let mut i = 0;
    let mut sum = d;
    while i < t.items.len() {
        assume(t.items[i].descriptors.size() <= 1002);
        sum += 6 + t.items[i].descriptors.size();
        i += 1;
    }
    let l = t.psi_list_assemble();
    let mut k = 0;
    let mut got = 0;
    while k < l.len() {
        let b = &l[k].buffer;
        claim("nit: no section exceeds 1024 bytes with its checksum", b.len() <= 1020);
        got += b.len() - 12;
        claim("nit: every section has the header of the table", b[0] == t.table_id && be16(b, 3) == t.network_id as usize);
        let m = if k == 0 { d } else { 0 };
        claim("nit: network descriptors are in the first section alone", be16(b, 8) == 0xf000 + m);
        claim("nit: every section has its own loop length", be16(b, 10 + m) == 0xf000 + b.len() - 12 - m);
        k += 1;
    }
    claim("nit: the sections hold all descriptors and items once", got == sum);
}

pub fn root_np_nit_order() {
    let t: Nit = nd("nit");
    assume(t.items.len() == 2 && t.descriptors.size() == 0);
    let (a, b) = (&t.items[0], &t.items[1]);
    assume(a.descriptors.size() <= 1002 && b.descriptors.size() <= 1002);
    let l = t.psi_list_assemble();
    let x = &l[0].buffer;
    claim("nit: the first item leads the first section", be16(x, 12) == a.tsid as usize);
    let n = 6 + a.descriptors.size();
    if n + 6 + b.descriptors.size() <= 1008 {
        claim("nit: the second item follows when there is room", l.len() == 1 && be16(x, 12 + n) == b.tsid as usize);
    } else {
        claim("nit: an item without room starts another section", l.len() == 2);
        claim("nit: the second item leads the second section", be16(&l[1].buffer, 12) == b.tsid as usize);
    }
}

pub fn root_np_sdt() {
    let t: Sdt = nd("sdt");
    assume(t.version < 32 && t.items.len() <= 3);
    let mut i = 0;
    let mut sum = 0;
    while i < t.items.len() {
        let x = &t.items[i];
        assume(x.descriptors.size() <= 1004 && x.eit_schedule_flag < 2 && x.eit_present_following_flag < 2);
        assume(x.running_status < 8 && x.free_ca_mode < 2);
        sum += 5 + x.descriptors.size();
        i += 1;
    }
    let l = t.psi_list_assemble();
    let mut k = 0;
    let mut got = 0;
    while k < l.len() {
        let b = &l[k].buffer;
        claim("sdt: no section exceeds 1024 bytes with its checksum", b.len() <= 1020);
        got += b.len() - 11;
        claim("sdt: every section has the header of the table", b[0] == t.table_id && be16(b, 3) == t.tsid as usize && be16(b, 8) == t.onid as usize);
        k += 1;
    }
    claim("sdt: the sections hold all items once", got == sum);
}

pub fn root_np_sdt_order() {
    let t: Sdt = nd("sdt");
    assume(t.items.len() == 2);
    let (a, b) = (&t.items[0], &t.items[1]);
    assume(a.descriptors.size() <= 1004 && b.descriptors.size() <= 1004);
    let l = t.psi_list_assemble();
    let x = &l[0].buffer;
    claim("sdt: the first item leads the first section", be16(x, 11) == a.pnr as usize);
    let n = 5 + a.descriptors.size();
    if n + 5 + b.descriptors.size() <= 1009 {
        claim("sdt: the second item follows when there is room", l.len() == 1 && be16(x, 11 + n) == b.pnr as usize);
    } else {
        claim("sdt: an item without room starts another section", l.len() == 2);
        claim("sdt: the second item leads the second section", be16(&l[1].buffer, 11) == b.pnr as usize);
    }
}

pub fn root_np_pat() {
    // more programs than fit into two sections
    let mut t: Pat = nd("pat");
    assume(t.items.len() == 1100 && t.version < 32);
    let l = t.psi_list_assemble();
    claim("pat: programs that do not fit continue in further sections", l.len() == 5);
    let mut k = 0;
    while k < 5 {
        let b = &l[k].buffer;
        claim("pat: no section exceeds 1024 bytes with its checksum", b.len() <= 1020);
        claim("pat: every section but the last is full", b.len() == 8 + 4 * if k < 4 { 253 } else { 88 });
        claim("pat: every section has the header of the table", b[0] == 0 && be16(b, 3) == t.tsid as usize && b[5] == 0xc1 + 2 * t.version);
        claim("pat: every section begins with the next program", be16(b, 8) == t.items[253 * k].pnr as usize);
        let n = (b.len() - 8) / 4 - 1;
        claim("pat: every section ends with the last program that fits", be16(b, 8 + 4 * n) == t.items[253 * k + n].pnr as usize);
        k += 1;
    }
}

pub fn root_np_sdt_many() {
    let mut t = Sdt { table_id: 0x42, version: nd("version"), tsid: nd("tsid"), onid: nd("onid"), items: Vec::new() };
    assume(t.version < 32);
    while t.items.len() < 450 { t.items.push(SdtItem { pnr: t.items.len() as u16, ..SdtItem::default() }); }
    let l = t.psi_list_assemble();
    claim("sdt: many services continue in further sections", l.len() == 3);
    let mut k = 0;
    while k < 3 {
        let b = &l[k].buffer;
        claim("sdt: every section but the last is full", b.len() == 11 + 5 * if k < 2 { 201 } else { 48 });
        claim("sdt: every one of many sections has the header of the table", b[0] == 0x42 && be16(b, 3) == t.tsid as usize && b[5] == 0xc1 + 2 * t.version
            && be16(b, 8) == t.onid as usize && b[10] == 0xff);
        claim("sdt: every section begins with the next service", be16(b, 11) == 201 * k);
        claim("sdt: every section ends with the last service that fits", be16(b, b.len() - 5) == 201 * k + (b.len() - 11) / 5 - 1);
        k += 1;
    }
}

pub fn root_np_nit_many() {
    let mut t = Nit { table_id: 0x40, version: nd("version"), network_id: nd("network"), ..Nit::default() };
    assume(t.version < 32);
    while t.items.len() < 400 { t.items.push(NitItem { tsid: t.items.len() as u16, ..NitItem::default() }); }
    let l = t.psi_list_assemble();
    claim("nit: many streams continue in further sections", l.len() == 3);
    let mut k = 0;
    while k < 3 {
        let b = &l[k].buffer;
        let n = if k < 2 { 168 } else { 64 };
        claim("nit: every section but the last is full", b.len() == 12 + 6 * n && be16(b, 10) == 0xf000 + 6 * n);
        claim("nit: every one of many sections has the header of the table", b[0] == 0x40 && be16(b, 3) == t.network_id as usize && b[5] == 0xc1 + 2 * t.version && be16(b, 8) == 0xf000);
        claim("nit: every section begins with the next stream", be16(b, 12) == 168 * k);
        claim("nit: every section ends with the last stream that fits", be16(b, b.len() - 6) == 168 * k + n - 1);
        k += 1;
    }
}

pub fn root_np_pmt_many() {
    let mut t = Pmt { version: nd("version"), pnr: nd("pnr"), pcr: nd("pcr"), ..Pmt::default() };
    assume(t.version < 32 && t.pcr < 8192);
    while t.items.len() < 450 { t.items.push(PmtItem { pid: t.items.len() as u16, ..PmtItem::default() }); }
    let l = t.psi_list_assemble();
    claim("pmt: many streams continue in further sections", l.len() == 3);
    let mut k = 0;
    while k < 3 {
        let b = &l[k].buffer;
        claim("pmt: every section but the last is full", b.len() == 12 + 5 * if k < 2 { 201 } else { 48 });
        claim("pmt: every one of many sections has the header of the table", b[0] == 2 && be16(b, 3) == t.pnr as usize && b[5] == 0xc1 + 2 * t.version
            && be16(b, 8) == 0xe000 + t.pcr as usize && be16(b, 10) == 0xf000);
        claim("pmt: every section begins with the next stream", be16(b, 13) == 0xe000 + 201 * k);
        claim("pmt: every section ends with the last stream that fits", be16(b, b.len() - 4) == 0xe000 + 201 * k + (b.len() - 12) / 5 - 1);
        k += 1;
    }
}

pub fn root_np_sdt_sections() {
    let mut t = Sdt { table_id: 0x42, version: nd("version"), tsid: nd("tsid"), onid: nd("onid"), items: Vec::new() };
    assume(t.version < 32);
    let d: Descriptors = nd("descriptors");
    assume(d.size() > 500 && d.size() <= 1004);
    while t.items.len() < 256 { t.items.push(SdtItem { pnr: t.items.len() as u16, descriptors: d.clone(), ..SdtItem::default() }); }
    let l = t.psi_list_assemble();
    claim("sdt: there may be as many sections as there are numbers", l.len() == 256);
    let mut k = 0;
    while k < 256 {
        let b = &l[k].buffer;
        claim("sdt: each of all possible sections has its service", be16(b, 11) == k && b.len() == 16 + d.size());
        k += 1;
    }
}

pub fn root_np_nit_sections() {
    let mut t = Nit { table_id: 0x40, version: nd("version"), network_id: nd("network"), ..Nit::default() };
    assume(t.version < 32);
    let d: Descriptors = nd("descriptors");
    assume(d.size() > 500 && d.size() <= 1002);
    while t.items.len() < 256 { t.items.push(NitItem { tsid: t.items.len() as u16, descriptors: d.clone(), ..NitItem::default() }); }
    let l = t.psi_list_assemble();
    claim("nit: there may be as many sections as there are numbers", l.len() == 256);
    let mut k = 0;
    while k < 256 {
        let b = &l[k].buffer;
        claim("nit: each of all possible sections has its stream", be16(b, 12) == k && b.len() == 18 + d.size());
        k += 1;
    }
}

pub fn root_np_pmt_sections() {
    let mut t = Pmt { version: nd("version"), pnr: nd("pnr"), pcr: nd("pcr"), ..Pmt::default() };
    assume(t.version < 32 && t.pcr < 8192);
    let d: Descriptors = nd("descriptors");
    assume(d.size() > 500 && d.size() <= 1003);
    while t.items.len() < 256 { t.items.push(PmtItem { pid: t.items.len() as u16, descriptors: d.clone(), ..PmtItem::default() }); }
    let l = t.psi_list_assemble();
    claim("pmt: there may be as many sections as there are numbers", l.len() == 256);
    let mut k = 0;
    while k < 256 {
        let b = &l[k].buffer;
        claim("pmt: each of all possible sections has its stream", be16(b, 13) == 0xe000 + k && b.len() == 17 + d.size());
        k += 1;
    }
}
