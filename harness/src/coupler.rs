use crate::check;
use crate::common::*;
use crate::serial::to_words;
use crate::sym;
use std::io::{Read, Write};
use ur20::ur20_2fcnt_100 as fcnt;
use ur20::ur20_fbc_mod_tcp::*;
use ur20::*;

fn addr(module: usize, channel: usize) -> Address {
    Address { module, channel }
}

fn plain(kinds: &[K]) -> Vec<Vec<u16>> {
    kinds.iter().map(|k| k.plain_params()).collect()
}

/// The output image without the bits no channel uses.
fn used_bits(k: K, m: usize, i: usize, b: u8) -> u8 {
    match k {
        K::Do4 | K::Do4x2A | K::Ro4 => b & 0x0f,
        _ => {
            let _ = (m, i);
            b
        }
    }
}

/// Digital outputs, counters and analog outputs keep what the image holds while
/// nothing is written.  case: kind index in HOLD, behind a single-byte module or not;
/// + 16: 40 cycles instead of 2
pub const HOLD: [K; 8] = [K::Do4, K::Do4x2A, K::Do8, K::Do16, K::Ro4, K::Fcnt, K::Ao, K::AoDiag];
pub fn c05(case: usize) {
    // many cycles
    let (cycles, case) = if case >= 16 { (40, case - 16) } else { (2, case) };
    let k = HOLD[case % 8];
    let kinds = if case >= 8 { vec![K::Do4, k, K::Do8] } else { vec![k] };
    let nr = (case >= 8) as usize;
    let (o, ib, ob) = packed_offsets(&kinds, false);
    let mut params = plain(&kinds);
    // an analog channel may be disabled
    let off = if matches!(k, K::Ao | K::AoDiag) { sym::choose(5) } else { 4 };
    if off < 4 {
        params[nr][if k == K::Ao { 3 * off + 1 } else { 4 * off + 1 }] = 8;
    }
    let Ok(mut c) = coupler(&kinds, &o, &params) else {
        check!(520, false, "the coupler accepts the configuration");
        return;
    };
    let input = sym::words(ib.div_ceil(2));
    let mut b = sym::bytes(ob + ob % 2);
    let at = nr;
    // an odd address behind the first module: the image is byte oriented
    let big = k == K::Fcnt && sym::boolean();
    if k == K::Fcnt && !big {
        for d in [at, at + 4] {
            b[d] &= 0x7f;
            b[d + 1] = 0;
        }
    }
    let image = to_words(&b);
    for cycle in 0..cycles {
        match c.next(&input, &image) {
            Ok(r) => {
                check!(521, r.len() == image.len(), "the image keeps its length");
                let m = k.out_bytes(false);
                let mut same = true;
                for i in 0..m {
                    let old = byte_of(&image, at + i);
                    let new = byte_of(&r, at + i);
                    match k {
                        K::Fcnt if i >= 8 => {
                            // control register: start, stop, nothing
                            let hi = byte_of(&image, at + (i | 1));
                            let want = if i % 2 == 0 {
                                0
                            } else if hi & 1 != 0 {
                                1
                            } else if hi & 2 != 0 {
                                2
                            } else {
                                0
                            };
                            same &= new == want;
                        }
                        K::Ao | K::AoDiag if i / 2 == off => same &= new == 0,
                        _ => same &= new == used_bits(k, m, i, old),
                    }
                }
                if k == K::Fcnt && big {
                    for d in [at, at + 4] {
                        let us = (byte_of(&image, d) as u32) << 16
                            | (byte_of(&image, d + 1) as u32) << 24
                            | byte_of(&image, d + 2) as u32
                            | (byte_of(&image, d + 3) as u32) << 8;
                        check!(522, us <= 8_388_607, "a duration above the maximum is refused");
                    }
                }
                check!(523, same, "outputs nobody writes keep their state");
                if case >= 8 {
                    let last = byte_of(&r, at + m) == byte_of(&image, at + m);
                    check!(524, (byte_of(&r, 0) == byte_of(&image, 0) & 0x0f) & last, "the neighbours keep their state");
                }
                if cycle + 1 == cycles {
                    observe_words(&r);
                    sym::reach(1);
                }
            }
            Err(_) => {
                let mut max = 0;
                if k == K::Fcnt {
                    for d in [at, at + 4] {
                        let hi = (byte_of(&image, d) as u32) | (byte_of(&image, d + 1) as u32) << 8;
                        max = max.max(hi);
                    }
                }
                // 8 388 608 us = 0x80 << 16
                check!(525, k == K::Fcnt && max >= 0x80, "a complete image is accepted");
                sym::reach(2);
                return;
            }
        }
    }
}

/// Kinds with writable channels.
pub const OUTS: [K; 8] = [K::Do4, K::Do4x2A, K::Do8, K::Do16, K::Ro4, K::Fcnt, K::Ao, K::AoDiag];

fn new_value(k: K) -> ChannelValue {
    if sym::boolean() {
        return ChannelValue::Disabled;
    }
    match k {
        K::Ao | K::AoDiag => ChannelValue::Decimal32(sym::f32_range(-30.0, 30.0)),
        K::Fcnt => ChannelValue::FcntOut(fcnt::ProcessOutput {
            duration: std::time::Duration::from_micros(sym::u16() as u64),
            command: match sym::choose(3) {
                0 => None,
                1 => Some(fcnt::Command::Start),
                _ => Some(fcnt::Command::Stop),
            },
        }),
        _ => ChannelValue::Bit(sym::boolean()),
    }
}

/// A value set for a channel reaches that channel in the next cycle, only there and
/// only once; the last of several wins.  case = kind index (+ 8: two writes)
pub fn c12(case: usize) {
    let k = OUTS[case % 8];
    let two = case >= 8;
    let kinds = [K::Do4, k, K::Do4];
    let (o, ib, ob) = packed_offsets(&kinds, false);
    let params = plain(&kinds);
    let (Ok(mut c), Ok(md)) = (coupler(&kinds, &o, &params), k.build(&params[1])) else {
        check!(1200, false, "the coupler accepts the configuration");
        return;
    };
    let input = sym::words(ib.div_ceil(2));
    let mut b = sym::bytes(ob + ob % 2);
    if k == K::Fcnt {
        for d in [1, 5] {
            b[d] &= 0x7f;
            b[d + 1] = 0;
        }
    }
    let image = to_words(&b);
    let m = k.out_bytes(false);
    // what the module would send without any write
    let Ok(mut vals) = md.process_output_data(&own_words(&image, 1, m)) else {
        check!(1201, false, "the image is decoded");
        return;
    };
    let Ok(hold) = md.process_output_values(&vals) else {
        check!(1202, false, "the image is encoded");
        return;
    };
    // cycles before the request
    for _ in 0..[0, 1, 5][sym::choose(3)] {
        check!(1213, c.next(&input, &image).is_ok(), "the cycle succeeds");
    }
    // writes: to the middle module or a neighbour
    let (mut first, mut last) = (byte_of(&image, 0) & 0x0f, byte_of(&image, 1 + m) & 0x0f);
    for i in 0..1 + two as usize {
        // two writes: to one channel, to two channels, to a neighbour
        let ch = if two { [0, k.channels() - 1][sym::choose(2)] } else { sym::choose(k.channels()) };
        if i == 1 && ch == 0 && sym::boolean() {
            let v = sym::boolean();
            let n = 2 * sym::choose(2);
            check!(1203, c.set_output(&addr(n, 2), ChannelValue::Bit(v)).is_ok(), "a valid address is accepted");
            let t = if n == 0 { &mut first } else { &mut last };
            *t = *t & !4 | (v as u8) << 2;
            sym::reach(2);
            continue;
        }
        let v = new_value(k);
        vals[ch] = v.clone();
        check!(1204, c.set_output(&addr(1, ch), v).is_ok(), "a valid address is accepted");
    }
    let Ok(want) = md.process_output_values(&vals) else {
        check!(1205, false, "the values are encoded");
        return;
    };
    // an invalid address changes nothing
    let bad = addr(sym::u64() as usize, sym::u64() as usize);
    let invalid = bad.module > 2 || (bad.module == 1 && bad.channel >= k.channels()) || (bad.module != 1 && bad.channel >= 4);
    sym::assume(invalid);
    check!(1206, c.set_output(&bad, ChannelValue::Bit(true)) == Err(Error::Address), "an invalid address is refused");
    let Ok(r) = c.next(&input, &image) else {
        check!(1207, false, "the cycle succeeds");
        return;
    };
    check!(1208, r.len() == image.len(), "the image keeps its length");
    let mut same = true;
    for i in 0..m {
        same &= byte_of(&r, 1 + i) == byte_of(&want, i);
    }
    check!(1209, same, "the written channels have the new values, the others keep theirs");
    check!(1210, (byte_of(&r, 0) == first) & (byte_of(&r, 1 + m) == last), "other modules have exactly the values written to them");
    observe_words(&r);
    // the request is used up: the image is the only source of the next cycle
    let Ok(r) = c.next(&input, &image) else {
        check!(1211, false, "the cycle succeeds");
        return;
    };
    let mut same = true;
    for i in 0..m {
        same &= byte_of(&r, 1 + i) == byte_of(&hold, i);
    }
    same &= (byte_of(&r, 0) == byte_of(&image, 0) & 0x0f) & (byte_of(&r, 1 + m) == byte_of(&image, 1 + m) & 0x0f);
    check!(1212, same, "a write is applied in one cycle only");
    // feeding the written image back keeps it
    sym::reach(1);
}

fn com_params(p16: bool) -> Vec<u16> {
    let mut p = K::Com.plain_params();
    p[0] = p16 as u16;
    p
}

/// A process input of the serial module: arbitrary flags and counters, `n` bytes.
fn com_input(p16: bool, n: usize) -> Vec<u8> {
    let mut b = vec![0u8; if p16 { 16 } else { 8 }];
    b[0] = sym::u8();
    b[1] = n as u8;
    for i in 0..n {
        b[2 + i] = sym::u8();
    }
    b
}

fn read_all(c: &mut Coupler, nr: usize) -> Vec<u8> {
    let mut buf = [0u8; 64];
    match c.reader(nr) {
        Some(r) => {
            let n = r.read(&mut buf).unwrap_or(0);
            buf[..n].to_vec()
        }
        None => vec![],
    }
}

fn equal_bytes(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut same = true;
    for i in 0..a.len() {
        same &= a[i] == b[i];
    }
    same
}

/// Two serial modules in one coupler behave like two couplers with one each.
/// case: bit 0/1: process data length of the first/second; from bit 2: station; + 24: a long history
pub fn c18(case: usize) {
    let p = [case & 1 == 1, case & 2 == 2];
    let len = |x: bool| if x { 16usize } else { 8 };
    // a byte of output (and of input) belongs to another module in front or between
    let (kinds, nr): (Vec<K>, [usize; 2]) = match case % 24 / 4 {
        0 => (vec![K::Com, K::Com], [0, 1]),
        1 => (vec![K::Com, K::Do8, K::Di8, K::Com], [0, 3]),
        2 => (vec![K::Do8, K::Di8, K::Com, K::Com], [2, 3]),
        3 => (vec![K::Com, K::Do16, K::Com], [0, 2]),
        4 => (vec![K::Di8, K::Com, K::Do8, K::Com, K::Do4], [1, 3]),
        // far apart
        _ => {
            let mut v: Vec<K> = (0..34).map(|i| if i % 3 == 0 { K::Do8 } else { K::Di8 }).collect();
            v[1] = K::Com;
            v[33] = K::Com;
            (v, [1, 33])
        }
    };
    let (mut iat, mut oat) = ([0; 2], [0; 2]);
    let mut offs = vec![];
    let (mut params, mut i_end, mut o_end) = (vec![], 0, 0);
    for (i, k) in kinds.iter().enumerate() {
        let q = i == nr[0] && p[0] || i == nr[1] && p[1];
        params.push(if *k == K::Com { com_params(q) } else { k.plain_params() });
        for j in 0..2 {
            if i == nr[j] {
                (iat[j], oat[j]) = (i_end, o_end);
            }
        }
        let (n, m) = (k.in_bytes(q), k.out_bytes(q));
        offs.push(if m == 0 { NONE } else { OUT + 8 * o_end as u16 });
        offs.push(if n == 0 { NONE } else { 8 * i_end as u16 });
        i_end += n;
        o_end += m;
    }
    let Ok(mut c) = coupler(&kinds, &offs, &params) else {
        check!(1800, false, "the coupler accepts the configuration");
        return;
    };
    let mut one = vec![];
    for i in 0..2 {
        match coupler(&[K::Com], &[OUT, 0], &[com_params(p[i])]) {
            Ok(c) => one.push(c),
            Err(_) => {
                check!(1801, false, "the coupler accepts the configuration");
                return;
            }
        }
    }
    let mut out: Vec<Vec<u8>> = (0..2).map(|i| vec![0u8; len(p[i])]).collect();
    // a long history with quick devices
    let long = case >= 24;
    let active = if long { 8 } else { 2 };
    for cycle in 0..2 + active {
        let live = cycle >= 2;
        // something to send for either
        if cycle == 1 || cycle == 3 || long && cycle == 6 {
            let i = sym::choose(2);
            // one or two frames
            let d = sym::bytes(if cycle == 1 { 8 } else { 3 });
            for (c, n) in [(&mut c, nr[i]), (&mut one[i], 0)] {
                match c.writer(n) {
                    Some(w) => check!(1802, matches!(w.write(&d), Ok(k) if k == d.len()), "writing is accepted"),
                    None => check!(1803, false, "there is a writer"),
                }
            }
        }
        let input: Vec<Vec<u8>> = (0..2)
            .map(|i| {
                let mut b = com_input(p[i], 1 + i);
                if !live {
                    b[0] &= 0xfe;
                }
                if long {
                    // with a few frames of its own
                    let k = cycle as u8 / 2;
                    b[0] = b[0] & 0x82 | (out[i][0] & 0x18) << 2 | (k == 2 - i as u8 || k == 4) as u8 | (k & 3) << 3;
                }
                b
            })
            .collect();
        let join = |v: &Vec<Vec<u8>>, at: [usize; 2], total: usize| {
            let mut b = vec![0x5au8; total + total % 2];
            for i in 0..2 {
                b[at[i]..at[i] + v[i].len()].copy_from_slice(&v[i]);
            }
            to_words(&b)
        };
        let Ok(r) = c.next(&join(&input, iat, i_end), &join(&out, oat, o_end)) else {
            check!(1804, false, "the cycle succeeds");
            return;
        };
        for i in 0..2 {
            let Ok(s) = one[i].next(&to_words(&input[i]), &to_words(&out[i])) else {
                check!(1805, false, "the cycle succeeds");
                return;
            };
            let mut same = true;
            let mut new = vec![];
            for j in 0..len(p[i]) {
                let x = byte_of(&r, oat[i] + j);
                same &= x == byte_of(&s, j);
                new.push(x);
            }
            check!(1806, same, "each serial module sends as if it were alone");
            check!(1807, c.inputs()[nr[i]] == one[i].inputs()[0], "each serial module shows its own received frame");
            check!(1808, c.outputs()[nr[i]] == one[i].outputs()[0], "each serial module shows its own transmitted frame");
            out[i] = new;
        }
    }
    for i in 0..2 {
        let a = read_all(&mut c, nr[i]);
        let b = read_all(&mut one[i], 0);
        check!(1809, equal_bytes(&a, &b), "each serial module delivers its own data");
        if !a.is_empty() {
            sym::reach(1);
        }
    }
    for i in 0..kinds.len() + 3 {
        let serial = i == nr[0] || i == nr[1];
        check!(1810, c.reader(i).is_some() == serial && c.writer(i).is_some() == serial, "exactly the serial modules have a reader and a writer");
    }
    sym::reach(2);
}

/// A cycle that fails loses no serial data and no request.
/// case = failure * 4 + (0..4: the cycle that fails first; 0 and 1 are the handshake)
/// failure: 0 short input, 1 short output, 2 bad input length byte, 3 bad output length
/// byte, 4 value of the wrong kind for the analog output, 5 for the digital output, 6 too long duration
pub fn c20(case: usize) {
    let late = case >= 28;
    let (fail, when) = if late { ((case - 28) / 3, 4 + case % 3) } else { (case / 4, case % 4) };
    let kinds = if fail == 6 { [K::Com, K::Do8, K::Fcnt] } else { [K::Com, K::Do8, K::Ao] };
    let (o, _, ob) = packed_offsets(&kinds, false);
    let params = plain(&kinds);
    let (Ok(mut a), Ok(mut b)) = (coupler(&kinds, &o, &params), coupler(&kinds, &o, &params)) else {
        check!(2000, false, "the coupler accepts the configuration");
        return;
    };
    let com = addr(0, 0);
    let total = ob + ob % 2;
    let mut out = vec![0u8; total];
    for cycle in 0..if late { when + 2 } else { 5 } {
        if cycle == 1 || cycle == 2 {
            let d = sym::bytes(2);
            let by_output = if late { cycle == when % 2 } else { sym::boolean() };
            for c in [&mut a, &mut b] {
                if by_output {
                    check!(2001, c.set_output(&com, ChannelValue::Bytes(d.clone())).is_ok(), "writing is accepted");
                } else {
                    match c.writer(0) {
                        Some(w) => check!(2002, matches!(w.write(&d), Ok(2)), "writing is accepted"),
                        None => check!(2003, false, "there is a writer"),
                    }
                }
            }
        }
        let on = sym::boolean();
        // the failing cycle drops digital requests if it is caused by a request
        if fail < 4 && cycle == when {
            for c in [&mut a, &mut b] {
                check!(2004, c.set_output(&addr(1, 3), ChannelValue::Bit(on)).is_ok(), "a valid address is accepted");
            }
        }
        let mut ib;
        if late && cycle + 1 < when {
            // a quick device with data of its own
            ib = sym::bytes(8);
            ib[0] = 0x81 | (cycle as u8 & 3) << 3 | (out[0] & 0x18) << 2;
            ib[1] = 2;
        } else {
            ib = com_input(false, 2);
            if cycle < 2 {
                ib[0] &= 0xfe;
            }
        }
        if kinds[2] == K::Fcnt {
            ib.extend_from_slice(&[0; 20]);
        }
        let iw = to_words(&ib);
        let ow = to_words(&out);
        if cycle == when {
            let mut iw2 = iw.clone();
            let mut ow2 = ow.clone();
            let mut n = 1;
            match fail {
                0 => iw2.truncate(cut(iw.len(), late)),
                1 => ow2.truncate(cut(ow.len(), late)),
                2 => iw2[0] = iw2[0] & 0xff | 0x700,
                3 => ow2[0] = ow2[0] & 0xff | 0xff00,
                4 => n += b.set_output(&addr(2, 1), ChannelValue::Bit(true)).is_err() as usize,
                5 => n += b.set_output(&addr(1, 0), ChannelValue::Decimal32(1.0)).is_err() as usize,
                _ => {
                    n += b
                        .set_output(
                            &addr(2, 1),
                            ChannelValue::FcntOut(fcnt::ProcessOutput { duration: std::time::Duration::from_secs(9), command: None }),
                        )
                        .is_err() as usize
                }
            }
            check!(2005, n == 1, "a valid address is accepted");
            check!(2006, b.next(&iw2, &ow2).is_err(), "the cycle fails");
            if late && fail < 4 {
                check!(2006, b.next(&iw2, &ow2).is_err(), "the cycle fails");
            }
        }
        let (Ok(ra), Ok(rb)) = (a.next(&iw, &ow), b.next(&iw, &ow)) else {
            check!(2007, false, "a correct cycle succeeds, also after a failed one");
            return;
        };
        let mut same = ra.len() == rb.len();
        for i in 0..ra.len() {
            same &= ra[i] == rb[i];
        }
        check!(2008, same, "after a failed cycle the same data is sent");
        check!(2009, a.inputs() == b.inputs() && a.outputs() == b.outputs(), "after a failed cycle the same values are shown");
        for i in 0..total {
            out[i] = byte_of(&ra, i);
        }
    }
    let (x, y) = (read_all(&mut a, 0), read_all(&mut b, 0));
    check!(2010, equal_bytes(&x, &y), "after a failed cycle the same data is received");
    if !x.is_empty() {
        sym::reach(1);
    }
    sym::reach(2);
}

/// The length of a short image.
fn cut(n: usize, late: bool) -> usize {
    if late { 0 } else { [n - 1, 0, 1][sym::choose(3)] }
}

/// A frame in the output image, whoever put it there, is shown once: when its counter is
/// new and it has data.  case: process data length, 2: behind another serial module
pub fn c19h(case: usize) {
    let p16 = case % 2 == 1;
    let nr = (case / 2) % 2;
    let kinds = vec![K::Com; 1 + nr];
    let params = vec![com_params(p16); kinds.len()];
    let (o, ib, ob) = packed_offsets(&kinds, p16);
    let Ok(mut c) = coupler(&kinds, &o, &params) else {
        check!(1920, false, "the coupler accepts the configuration");
        return;
    };
    let n = ob / kinds.len();
    let mut cnt = 0u8;
    let mut frame: Vec<u8> = vec![];
    for cycle in 0..6 {
        // the frame stays, is followed by one without data or by one with data
        let what = if cycle == 0 { 0 } else { sym::choose(if cycle == 1 { 4 } else { 3 }) };
        let mut new = false;
        if what > 0 {
            cnt = (cnt + 1 + if cycle == 1 { sym::choose(2) as u8 } else { 0 }) & 3;
            new = what > 1;
            frame = sym::bytes(if what == 1 { 0 } else if what == 2 { 2 } else { n - 2 });
        }
        let mut out = sym::bytes(ob);
        for i in 0..kinds.len() {
            out[i * n] = if i == nr { sym::u8() & 0xe7 | cnt << 3 } else { 0 };
            out[i * n + 1] = 0;
        }
        out[nr * n + 1] = frame.len() as u8;
        out[nr * n + 2..nr * n + 2 + frame.len()].copy_from_slice(&frame);
        let mut input = vec![0u8; ib];
        for i in 0..kinds.len() {
            input[i * n] = sym::u8() & 0xfe;
        }
        if c.next(&to_words(&input), &to_words(&out)).is_err() {
            check!(1921, false, "the cycle succeeds");
            return;
        }
        let ok = match &c.outputs()[nr][0] {
            ChannelValue::Bytes(b) => new && equal_bytes(b, &frame),
            ChannelValue::None => !new,
            _ => false,
        };
        check!(1922, ok, "a frame is shown when it is new and has data");
        if new {
            sym::reach(1);
        } else {
            sym::reach(2);
        }
    }
}

/// The coupler shows every transmitted frame exactly once, in order, as the output
/// of the serial channel.  case: process data length, 2: two modules, 4: twelve frames without waits
pub fn c19(case: usize) {
    let p16 = case % 2 == 1;
    let two = case / 2 % 2 == 1;
    let long = case >= 4;
    let kinds = if two { vec![K::Com, K::Com] } else { vec![K::Com] };
    let params = vec![com_params(p16); kinds.len()];
    let (o, ib, ob) = packed_offsets(&kinds, p16);
    let Ok(mut c) = coupler(&kinds, &o, &params) else {
        check!(1900, false, "the coupler accepts the configuration");
        return;
    };
    let nr = two as usize;
    let n = ob / kinds.len();
    let cap = n - 2;
    let mut out = vec![0u8; ob];
    // what an earlier master left behind
    let mut ack = [sym::choose(4) as u8, 0];
    if long {
        ack[1] = 3;
    }
    let mut sent: Vec<u8> = vec![];
    let mut shown: Vec<u8> = vec![];
    let total = if long { 12 * cap } else { cap + 2 };
    let data = sym::bytes(total);
    let (mut slow, cycles) = if long { (0, 5 + total.div_ceil(cap)) } else { (3, 9) };
    for cycle in 0..cycles {
        if cycle == 1 {
            match c.writer(nr) {
                Some(w) => check!(1901, matches!(w.write(&data), Ok(k) if k == total), "writing is accepted"),
                None => check!(1902, false, "there is a writer"),
            }
            if two {
                if let Some(w) = c.writer(0) {
                    check!(1903, matches!(w.write(&[1, 2, 3]), Ok(3)), "writing is accepted");
                }
            }
        }
        // an honest device
        let mut input = vec![0u8; ib];
        for m in 0..kinds.len() {
            let tx = (out[m * n] >> 3) & 3;
            if tx != ack[m] {
                if m == nr && slow > 0 && sym::boolean() {
                    slow -= 1;
                } else {
                    ack[m] = tx;
                }
            }
            // ready and nearly full as it likes
            input[m * n] = sym::u8() & 0x82 | ack[m] << 5;
            if long {
                // and data of its own
                input[m * n] |= 1 | (cycle as u8 & 3) << 3;
                input[m * n + 1] = 1;
                input[m * n + 2] = sym::u8();
            }
        }
        let prev = out.clone();
        let Ok(r) = c.next(&to_words(&input), &to_words(&out)) else {
            check!(1904, false, "the cycle succeeds");
            return;
        };
        match &c.outputs()[nr][0] {
            ChannelValue::Bytes(b) => {
                shown.extend_from_slice(b);
                let len = prev[nr * n + 1] as usize;
                check!(1905, equal_bytes(b, &prev[nr * n + 2..nr * n + 2 + len]), "the frame shown is the one in the image");
                sym::reach(1);
            }
            ChannelValue::None => sym::reach(2),
            _ => check!(1906, false, "the serial channel shows bytes or nothing"),
        }
        for i in 0..ob {
            out[i] = byte_of(&r, i);
        }
        if out[nr * n] & 0x18 != prev[nr * n] & 0x18 {
            let len = out[nr * n + 1] as usize;
            sent.extend_from_slice(&out[nr * n + 2..nr * n + 2 + len]);
        }
        check!(1907, shown.len() <= sent.len() && equal_bytes(&shown, &sent[..shown.len()]), "frames are shown in order, each once");
    }
    check!(1908, equal_bytes(&shown, &data), "every frame is shown");
}
