use crate::check;
use crate::common::*;
use crate::sym;
use ur20::ur20_fbc_mod_tcp::*;
use ur20::*;

/// A module that hands its raw registers through.
#[derive(Debug)]
struct Probe {
    nin: usize,
    nout: usize,
    out: Vec<u16>,
}

impl Module for Probe {
    fn module_type(&self) -> ModuleType {
        ModuleType::UR20_4DI_P
    }
}

fn raw(data: &[u16]) -> ChannelValue {
    let mut b = vec![];
    for i in 0..data.len() * 2 {
        b.push(byte_of(data, i));
    }
    ChannelValue::Bytes(b)
}

impl ProcessModbusTcpData for Probe {
    fn process_input_byte_count(&self) -> usize {
        self.nin
    }
    fn process_output_byte_count(&self) -> usize {
        self.nout
    }
    fn process_input_data(&self, data: &[u16]) -> Res<Vec<ChannelValue>> {
        Ok(vec![raw(data)])
    }
    fn process_output_data(&self, data: &[u16]) -> Res<Vec<ChannelValue>> {
        Ok(vec![raw(data)])
    }
    fn process_output_values(&self, _: &[ChannelValue]) -> Res<Vec<u16>> {
        Ok(self.out.clone())
    }
}

const SIZES: [usize; 7] = [0, 1, 2, 4, 8, 12, 20];

fn probe(nin: usize, nout: usize) -> Probe {
    // the registers of a one-byte module use the low byte only
    let out = if nout == 1 { vec![sym::u8() as u16] } else { sym::words(nout / 2) };
    Probe { nin, nout, out }
}

/// The bytes `v` shows are the `n` bytes of the image at byte `at`.
fn shows(v: &[ChannelValue], image: &[u16], at: usize, n: usize) -> bool {
    match v {
        [ChannelValue::Bytes(b)] => {
            let mut same = b.len() == n.div_ceil(2) * 2;
            if same {
                for i in 0..n {
                    same &= b[i] == byte_of(image, at + i);
                }
            }
            same
        }
        _ => false,
    }
}

fn probes<'a>(p: &'a [Probe], o: &'a [ModuleOffset]) -> Vec<(&'a dyn ProcessModbusTcpData, &'a ModuleOffset)> {
    p.iter().zip(o).map(|(m, o)| (m as &dyn ProcessModbusTcpData, o)).collect()
}

/// Packed images of up to four modules of every process data length.
/// case = 2 * (first size index * 7 + second size index) + direction
pub fn c10p(case: usize) {
    packed(case, case % 2 == 1, false)
}

/// The same images, encoded.  case = first size index * 7 + second size index (+ 49: four modules)
pub fn c11p(case: usize) {
    packed(2 * case, true, true)
}

fn packed(case: usize, out: bool, encode: bool) {
    let mut n = vec![SIZES[case / 14 % 7], SIZES[case / 2 % 7]];
    n.push(SIZES[sym::choose(7)]);
    if case >= 98 {
        n.push(SIZES[sym::choose(7)]);
    }
    let mut offs = vec![];
    let mut place = vec![];
    let mut at = 0;
    for k in &n {
        let o = if *k == 0 { NONE } else { (if out { OUT } else { 0 }) + 8 * at as u16 };
        // offset registers: output first
        offs.extend_from_slice(&if out { [o, NONE] } else { [NONE, o] });
        place.push(at);
        at += k;
    }
    let off = offsets_of_process_data(&offs);
    let ps: Vec<Probe> = n.iter().map(|k| if out { probe(0, *k) } else { probe(*k, 0) }).collect();
    let infos = probes(&ps, &off);
    let need = at.div_ceil(2);
    if encode {
        let vals = vec![vec![]; n.len()];
        match process_output_values(&infos, &vals) {
            Ok(w) => {
                check!(1005, w.len() == need, "the image is as long as the process data");
                for i in 0..n.len() {
                    let mut same = true;
                    for j in 0..n[i] {
                        same &= byte_of(&w, place[i] + j) == byte_of(&ps[i].out, j);
                    }
                    check!(1006, same, "a module's bytes are written to its own offset");
                }
                if at % 2 == 1 {
                    check!(1007, byte_of(&w, at) == 0, "the byte after the last module is zero");
                }
                observe_words(&w);
                sym::reach(3);
            }
            Err(_) => check!(1008, false, "packed output values are encoded"),
        }
        check!(1009, process_output_values(&infos, &vals[1..]).is_err(), "a missing value list is refused");
        return;
    }
    let len = match sym::choose(3) {
        0 => need,
        1 => need + 2,
        _ if need > 0 => need - 1,
        _ => need,
    };
    let image = sym::words(len);
    let r = if out { process_output_data(&infos, &image) } else { process_input_data(&infos, &image) };
    match r {
        Ok(v) => {
            check!(1000, len >= need, "an image that does not hold all process data is refused");
            check!(1001, v.len() == n.len(), "one entry per module");
            for i in 0..n.len() {
                if n[i] > 0 {
                    check!(1002, shows(&v[i], &image, place[i], n[i]), "a module sees the bytes at its own offset");
                } else {
                    let mut none = v[i].len() == 4;
                    for x in &v[i] {
                        none &= *x == ChannelValue::None;
                    }
                    check!(1003, none, "a module without process data shows no values");
                }
            }
            sym::reach(1);
        }
        Err(_) => {
            check!(1004, len < need, "a complete image is decoded");
            sym::reach(2);
        }
    }
}

/// Any offset address, any image length.  case = 14 * image length + 2 * size index + direction
pub fn c10a(case: usize) {
    let out = case % 2 == 1;
    let n = SIZES[case / 2 % 7];
    let len = case / 14;
    if n == 0 {
        return;
    }
    let base: u16 = if out { 0x8000 } else { 0 };
    let a = sym::u16();
    sym::assume(a != NONE);
    let off = offsets_of_process_data(&if out { [a, NONE] } else { [NONE, a] });
    let ps = [if out { probe(0, n) } else { probe(n, 0) }];
    let infos = probes(&ps, &off);
    let image = sym::words(len);
    let r = if out { process_output_data(&infos, &image) } else { process_input_data(&infos, &image) };
    let bit = a & 15;
    match r {
        Ok(v) => {
            check!(1010, a >= base, "an offset below the output area is refused");
            check!(1011, bit == 0 || bit == 8, "an offset within a byte is refused");
            let at = ((a - base) / 8) as usize;
            check!(1012, at + n <= 2 * len, "data beyond the image is refused");
            // the offset is known on this path: fewer than 2 * len values
            for k in 0..2 * len {
                if at == k {
                    check!(1013, shows(&v[0], &image, k, n), "a module sees the bytes at its own offset");
                    sym::reach(1);
                }
            }
        }
        Err(_) => {
            let at = (a.wrapping_sub(base) / 8) as usize;
            check!(1014, a < base || (bit != 0 && bit != 8) || at + n > 2 * len, "data within the image is decoded");
            sym::reach(2);
        }
    }
}

/// Any two output offset addresses: either they are refused or both modules' bytes
/// are at their place.  case = 7 * first size index + second
pub fn c11a(case: usize) {
    let n = [SIZES[case / 7 % 7], SIZES[case % 7]];
    let ps = [probe(0, n[0]), probe(0, n[1])];
    let a = [sym::u16(), sym::u16()];
    for x in a {
        sym::assume(x != NONE);
    }
    let off = offsets_of_process_data(&[a[0], NONE, a[1], NONE]);
    let infos = probes(&ps, &off);
    let ok0 = a[0] == OUT;
    match process_output_values(&infos, &[vec![], vec![]]) {
        Ok(w) => {
            if n[0] > 0 {
                check!(1020, ok0, "the first module starts the image");
                let mut same = true;
                for j in 0..n[0] {
                    same &= byte_of(&w, j) == byte_of(&ps[0].out, j);
                }
                check!(1021, same, "the first module's bytes are at its offset");
            }
            if n[1] > 0 {
                check!(1022, a[1] >= OUT && a[1] & 7 == 0, "an offset within a byte or outside of the area is refused");
                let at = ((a[1] - OUT) / 8) as usize;
                check!(1023, at >= n[0], "overlapping modules are refused");
                check!(1024, at + n[1] <= 2 * w.len(), "the image holds the module");
                for k in 0..24 {
                    if at == k {
                        let mut same = true;
                        for j in 0..n[1] {
                            same &= byte_of(&w, k + j) == byte_of(&ps[1].out, j);
                        }
                        check!(1025, same, "the second module's bytes are at its offset");
                        sym::reach(1);
                    }
                }
            }
        }
        Err(_) => {
            if n[0] > 0 && n[1] > 0 {
                check!(1026, !(ok0 && a[1] == OUT + 8 * n[0] as u16), "packed offsets are accepted");
                sym::reach(2);
            }
        }
    }
}

pub fn same_value(a: &ChannelValue, b: &ChannelValue) -> bool {
    a == b
}

/// A coupler with a pair of real modules behind an optional single-byte module:
/// every module sees and writes its own bytes only.  case = k1 * 18 + k2 (+ 324: COM with 16 bytes)
pub fn c10k(case: usize) {
    pair(case, false)
}

/// The encoding side.
pub fn c11k(case: usize) {
    pair(case, true)
}

fn pair(case: usize, encode: bool) {
    let p16 = case >= 324;
    let (k1, k2) = (ALL[case / 18 % 18], ALL[case % 18]);
    let mut kinds = vec![];
    // an odd byte address in both images
    match sym::choose(3) {
        0 => {}
        1 => kinds.push(K::Di4),
        _ => kinds.push(K::Do4),
    }
    kinds.push(k1);
    kinds.push(k2);
    station(&kinds, p16, encode);
}

/// Long stations: 18 (64 for case >= 36) modules of all types in 36 orders, encoding for case >= 72.
pub fn c10s(case: usize) {
    let n = if case / 36 % 2 == 1 { 64 } else { 18 };
    let kinds: Vec<K> = (0..n)
        .map(|i| {
            let j = (i + case % 18) % 18;
            ALL[if case / 18 % 2 == 1 { 17 - j } else { j }]
        })
        .collect();
    station(&kinds, case % 2 == 1, case >= 72);
}

fn station(kinds: &[K], p16: bool, encode: bool) {
    let (o, ib, ob) = packed_offsets(kinds, p16);
    let params: Vec<Vec<u16>> = kinds
        .iter()
        .map(|k| {
            let mut p = k.plain_params();
            if *k == K::Com {
                p[0] = p16 as u16;
            }
            p
        })
        .collect();
    let Ok(mut c) = coupler(kinds, &o, &params) else {
        check!(1030, false, "the coupler accepts the configuration");
        return;
    };
    let input = image(kinds, p16, ib, false);
    let output = image(kinds, p16, ob, true);
    let Ok(r) = c.next(&input, &output) else {
        check!(1031, false, "a cycle with complete images succeeds");
        return;
    };
    if encode {
        check!(1032, r.len() == ob.div_ceil(2), "the output image is as long as the process data");
    }
    check!(1033, c.inputs().len() == kinds.len() && c.outputs().len() == kinds.len(), "one entry per module");
    let (mut ia, mut oa) = (0, 0);
    for (i, k) in kinds.iter().enumerate() {
        let (n, m) = (k.in_bytes(p16), k.out_bytes(p16));
        let Ok(md) = k.build(&params[i]) else {
            check!(1034, false, "the parameters are accepted");
            return;
        };
        if *k == K::Com {
            if encode {
                // first cycle: flush; the counters are its own
                let s = byte_of(&r, oa);
                check!(1035, s & 0x83 == 3, "the module's own handshake");
                check!(1036, (s >> 3) & 3 == (byte_of(&output, oa) >> 3) & 3, "the module's own transmission counter");
                check!(1037, (s >> 5) & 3 == (byte_of(&input, ia) >> 3) & 3, "the module's own receive counter");
            }
            let avail = byte_of(&input, ia) & 1 == 1;
            let shown = match &c.inputs()[i][0] {
                ChannelValue::Bytes(b) => avail && b.len() == 2 && b[0] == byte_of(&input, ia + 2) && b[1] == byte_of(&input, ia + 3),
                ChannelValue::None => !avail,
                _ => false,
            };
            check!(1038, encode || shown, "the module's own received data");
        } else {
            if n > 0 && !encode {
                match md.process_input_data(&own_words(&input, ia, n)) {
                    Ok(v) => {
                        let w = &c.inputs()[i];
                        check!(1039, v.len() == w.len(), "the module's input values");
                        for j in 0..v.len() {
                            check!(1040, same_value(&v[j], &w[j]), "the module's inputs come from its own bytes");
                        }
                    }
                    Err(_) => check!(1041, false, "the module's input is decoded"),
                }
            }
            if m > 0 {
                match md.process_output_data(&own_words(&output, oa, m)) {
                    Ok(v) => {
                        let w = &c.outputs()[i];
                        if !encode {
                            check!(1042, v.len() == w.len(), "the module's output values");
                            for j in 0..v.len() {
                                check!(1043, same_value(&v[j], &w[j]), "the module's outputs come from its own bytes");
                            }
                            sym::reach(2);
                        } else {
                            match md.process_output_values(&v) {
                            Ok(x) => {
                                let mut same = true;
                                for j in 0..m {
                                    same &= byte_of(&r, oa + j) == byte_of(&x, j);
                                }
                                check!(1044, same, "the module's bytes are written to its own offset");
                            }
                            Err(_) => check!(1045, false, "the module's values are encoded"),
                            }
                        }
                    }
                    Err(_) => check!(1046, false, "the module's output is decoded"),
                }
            }
        }
        ia += n;
        oa += m;
    }
    sym::reach(1);
}

/// Arbitrary registers, but a COM message keeps a valid length and a counter
/// duration a valid value.
fn image(kinds: &[K], p16: bool, n: usize, out: bool) -> Vec<u16> {
    let mut b = sym::bytes(n + n % 2);
    let mut at = 0;
    for k in kinds {
        match (k, out) {
            (K::Com, _) => {
                b[at + 1] = 2;
                if kinds.len() > 4 {
                    b[at] |= 1;
                }
            }
            (K::Fcnt, true) => {
                // duration high words below 0x80
                b[at] &= 0x7f;
                b[at + 1] = 0;
                b[at + 4] &= 0x7f;
                b[at + 5] = 0;
            }
            _ => {}
        }
        at += if out { k.out_bytes(p16) } else { k.in_bytes(p16) };
    }
    crate::serial::to_words(&b)
}
