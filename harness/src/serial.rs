use crate::check;
use crate::common::*;
use crate::sym;
use std::io::{Read, Write};
use ur20::ur20_1com_232_485_422::{MessageProcessor, ProcessDataLength, ProcessInput, ProcessOutput};
use ur20::ur20_fbc_mod_tcp::Coupler;
use ur20::*;

fn pdl(p16: bool) -> ProcessDataLength {
    if p16 { ProcessDataLength::SixteenBytes } else { ProcessDataLength::EightBytes }
}

fn cap(p16: bool) -> usize {
    if p16 { 14 } else { 6 }
}

fn com_params(p16: bool) -> Vec<u16> {
    let mut p = K::Com.plain_params();
    p[0] = p16 as u16;
    p
}

fn inc(c: u8) -> u8 {
    if c >= 3 { 0 } else { c + 1 }
}

/// The status and length word, and the payload words, of an input image.
fn in_image(avail: bool, full: bool, ready: bool, rx_cnt: u8, ack: u8, data: &[u8], p16: bool) -> Vec<u16> {
    let mut b = vec![0u8; cap(p16) + 2];
    b[0] = (avail as u8) | (full as u8) << 1 | (rx_cnt << 3) | (ack << 5) | (ready as u8) << 7;
    b[1] = data.len() as u8;
    b[2..2 + data.len()].copy_from_slice(data);
    to_words(&b)
}

fn out_image(tx_cnt: u8, rx_ack: u8, data: &[u8], p16: bool) -> Vec<u16> {
    let mut b = vec![0u8; cap(p16) + 2];
    b[0] = (tx_cnt << 3) | (rx_ack << 5);
    b[1] = data.len() as u8;
    b[2..2 + data.len()].copy_from_slice(data);
    to_words(&b)
}

pub fn to_words(b: &[u8]) -> Vec<u16> {
    let mut w = vec![];
    for i in 0..b.len() / 2 {
        w.push(word_of_bytes(b[2 * i], b[2 * i + 1]));
    }
    w
}

/// A communication module as its user sees it: the bare message processor, or a
/// coupler with one such module.
enum Link {
    Proc(MessageProcessor, ProcessOutput),
    Coup(Coupler, Vec<u16>),
}

/// What the device sees in the output image.
struct Seen {
    tx_cnt: u8,
    rx_ack: u8,
    data: Vec<u8>,
}

impl Link {
    fn new(coupler_level: bool, p16: bool, tx_cnt: u8, stale: &[u8]) -> Option<Link> {
        if coupler_level {
            let (o, _, _) = packed_offsets(&[K::Com], p16);
            match coupler(&[K::Com], &o, &[com_params(p16)]) {
                Ok(c) => Some(Link::Coup(c, out_image(tx_cnt, 0, stale, p16))),
                Err(_) => None,
            }
        } else {
            let o = ProcessOutput { tx_cnt: tx_cnt as usize, data: stale.to_vec(), ..Default::default() };
            Some(Link::Proc(MessageProcessor::new(pdl(p16)), o))
        }
    }
    fn write(&mut self, how: usize, data: &[u8]) -> bool {
        match self {
            Link::Proc(p, _) => matches!(p.write(data), Ok(n) if n == data.len()),
            Link::Coup(c, _) => {
                if how == 0 {
                    match c.writer(0) {
                        Some(w) => matches!(w.write(data), Ok(n) if n == data.len()),
                        None => false,
                    }
                } else {
                    c.set_output(&Address { module: 0, channel: 0 }, ChannelValue::Bytes(data.to_vec())).is_ok()
                }
            }
        }
    }
    fn read(&mut self, buf: &mut [u8]) -> usize {
        match self {
            Link::Proc(p, _) => p.read(buf).unwrap_or(999),
            Link::Coup(c, _) => match c.reader(0) {
                Some(r) => r.read(buf).unwrap_or(999),
                None => 998,
            },
        }
    }
    fn step(&mut self, avail: bool, rx_cnt: u8, ack: u8, data: &[u8], p16: bool) -> bool {
        // the device's receive buffer may be nearly full at any time, and the line at
        // fault: the counters alone say which frames are new
        let full = sym::boolean();
        let ready = sym::boolean();
        match self {
            Link::Proc(p, out) => {
                let i = ProcessInput {
                    data_available: avail,
                    buffer_nearly_full: full,
                    rx_cnt: rx_cnt as usize,
                    tx_cnt_ack: ack as usize,
                    ready,
                    data: data.to_vec(),
                };
                *out = p.next(&i, out);
                true
            }
            Link::Coup(c, out) => match c.next(&in_image(avail, full, ready, rx_cnt, ack, data, p16), out) {
                Ok(o) => {
                    *out = o;
                    true
                }
                Err(_) => false,
            },
        }
    }
    fn seen(&self) -> Seen {
        match self {
            Link::Proc(_, o) => Seen { tx_cnt: o.tx_cnt as u8, rx_ack: o.rx_cnt_ack as u8, data: o.data.clone() },
            Link::Coup(_, w) => {
                let s = byte_of(w, 0);
                let n = byte_of(w, 1) as usize;
                Seen { tx_cnt: (s >> 3) & 3, rx_ack: (s >> 5) & 3, data: (0..n).map(|i| byte_of(w, 2 + i)).collect() }
            }
        }
    }
}

fn is_prefix(a: &[u8], b: &[u8]) -> bool {
    if a.len() > b.len() {
        return false;
    }
    let mut same = true;
    for i in 0..a.len() {
        same &= a[i] == b[i];
    }
    same
}

/// Lengths of the writes of a scenario, in bytes per frame capacity `c`.
pub const TX_SCENARIOS: usize = 11;
fn tx_lengths(s: usize, c: usize) -> Vec<usize> {
    match s {
        0 => vec![c + 1],
        1 => vec![c],
        2 => vec![2 * c + 1],
        3 => vec![1, 1, 1, 1, 1, 1],
        4 => vec![0, 3],
        5 => vec![2, c + 1, 1],
        6 => vec![5 * c],
        8 => vec![300],
        9 => vec![1; 70],
        10 => vec![1, 2 * c],
        _ => vec![1],
    }
}

/// Serial transmission: an honest device, slow at times, receives exactly the bytes
/// written, in order, each once.
/// case = variant * 11 + scenario; variant: 0 processor/8 byte, 1 processor/16 byte,
/// 2 coupler/8/writer, 3 coupler/16/writer, 4 coupler/8/set_output, 5 coupler/16/set_output;
/// + 66 * depth
pub fn c07(case: usize) {
    let (deep, case) = (case / 66, case % 66);
    let (var, sc) = (case / TX_SCENARIOS, case % TX_SCENARIOS);
    let p16 = var % 2 == 1;
    let mut lens = tx_lengths(sc, cap(p16));
    if sc == 8 && deep > 0 {
        lens = vec![1100];
    }
    if sc == 9 && var < 2 {
        // more frames than a byte can count
        lens = vec![1; 260];
    }
    // state left behind by an earlier session
    let (mut ack, tx0) = match sc {
        7 => {
            (sym::choose(4) as u8, sym::choose(4) as u8)
        }
        0 => (3, 0),
        1 => (3, 3),
        2 => (1, 2),
        _ => (0, 0),
    };
    let stale = if tx0 != ack { vec![sym::u8(), sym::u8()] } else { vec![] };
    let Some(mut l) = Link::new(var >= 2, p16, tx0, &stale) else {
        check!(700, false, "the coupler accepts the configuration");
        return;
    };
    let how = (var >= 4) as usize;
    let mut queue: Vec<Vec<u8>> = lens.iter().map(|n| sym::bytes(*n)).collect();
    queue.reverse();
    let mut written: Vec<u8> = vec![];
    let mut got: Vec<u8> = vec![];
    let mut frames = 0;
    for n in &lens {
        frames += n.div_ceil(cap(p16));
    }
    // budgets: cycles in which the device does nothing, writes that wait a cycle
    let (mut slow, mut late) = (2 + deep, if var >= 2 && sc == 3 { 1 + deep } else { 2 + deep });
    if var >= 4 && matches!(sc, 3 | 5 | 7) || var == 3 && sc == 7 {
        (slow, late) = (1 + deep, 1 + deep);
    }
    // a long run without any waiting
    let long = sc == 8 || sc == 9;
    if long || sc == 10 {
        (slow, late) = (0, 0);
    }
    // a long pause of the device before one of the frames
    let (mut pause, pause_at) = if sc == 10 { (40 + 230 * deep, sym::choose(frames)) } else { (0, 0) };
    let mut taken = 0;
    let cycles = 2 + slow + late + frames + lens.len() + 3 + pause;
    // in every other scenario the device transmits as well
    let mut offers: Vec<Vec<u8>> = if sc % 2 == 1 { vec![sym::bytes(2), sym::bytes(1), sym::bytes(3)] } else { vec![] };
    let (mut avail, mut cnt, mut cur, mut offered) = (false, 0, vec![], vec![]);
    for cy in 0..cycles {
        // the user
        while let Some(d) = queue.pop() {
            if late > 0 && sym::boolean() {
                late -= 1;
                queue.push(d);
                break;
            }
            written.extend_from_slice(&d);
            check!(701, l.write(how, &d), "writing is accepted completely");
            if how == 1 {
                break;
            }
        }
        // the device
        if cy > 0 {
            let s = l.seen();
            if slow > 0 && sym::boolean() {
                slow -= 1;
            } else if pause > 0 && taken == pause_at {
                pause -= 1;
            } else if s.tx_cnt != ack {
                taken += 1;
                got.extend_from_slice(&s.data);
                check!(702, s.data.len() <= cap(p16), "a frame fits the process data");
                ack = s.tx_cnt;
            }
        }
        check!(703, (long && cy % 16 > 0) || is_prefix(&got, &written), "the device receives the written bytes in order, without loss or repetition");
        if cy > 2 {
            match offers.pop() {
                Some(d) => {
                    cnt = inc(cnt);
                    avail = true;
                    offered.extend_from_slice(&d);
                    cur = d;
                }
                None => {
                    avail = false;
                    cur = vec![];
                }
            }
        }
        check!(704, l.step(avail, cnt, ack, &cur, p16), "the cycle succeeds");
    }
    let mut buf = [0u8; 10];
    let n = l.read(&mut buf);
    check!(706, n == offered.len() && is_prefix(&offered, &buf), "what the device sends meanwhile is received");
    check!(705, queue.is_empty() && got.len() == written.len(), "everything written arrives within a bounded number of cycles");
    for b in &got {
        sym::observe(*b as u64);
    }
    sym::reach(1);
    if slow == 0 && late == 0 {
        sym::reach(2);
    }
}

pub const RX_SCENARIOS: usize = 9;
fn rx_lengths(s: usize, c: usize) -> Vec<usize> {
    match s {
        0 => vec![c],
        1 => vec![1, 1, 1, 1, 1, 1],
        2 => vec![c, 1, c],
        3 => vec![2, 0, 3],
        4 => vec![c, c, c, c, c],
        6 => vec![c; 300 / c],
        7 => vec![1; 70],
        8 => vec![c, 1, 2],
        _ => vec![3, 2],
    }
}

/// Serial reception: every frame an honest device offers is delivered once and in
/// order, whatever the sizes of the read buffers.  case = variant * 9 + scenario; + 36 * depth
pub fn c08(case: usize) {
    let (deep, case) = (case / 36, case % 36);
    let (var, sc) = (case / RX_SCENARIOS, case % RX_SCENARIOS);
    let p16 = var % 2 == 1;
    let mut lens = rx_lengths(sc, cap(p16));
    if sc == 6 && deep > 0 {
        lens = vec![cap(p16); 1100 / cap(p16)];
    }
    if sc == 7 && var < 2 {
        lens = vec![1; 260];
    }
    let Some(mut l) = Link::new(var >= 2, p16, 0, &[]) else {
        check!(800, false, "the coupler accepts the configuration");
        return;
    };
    let mut cnt = if sc == 5 { sym::choose(4) as u8 } else { (sc % 4) as u8 };
    for _ in 0..2 {
        check!(801, l.step(false, cnt, 0, &[], p16), "the cycle succeeds");
    }
    // in every other scenario the application transmits as well
    let message = if sc % 2 == 1 { sym::bytes(2 * cap(p16) + 1) } else { vec![] };
    if !message.is_empty() {
        check!(810, l.write((var >= 2) as usize, &message), "writing is accepted completely");
    }
    let mut heard: Vec<u8> = vec![];
    let mut ack = 0;
    let mut frames: Vec<Vec<u8>> = lens.iter().map(|n| sym::bytes(*n)).collect();
    frames.reverse();
    let mut sent: Vec<u8> = vec![];
    let mut got: Vec<u8> = vec![];
    let mut avail = false;
    let mut cur: Vec<u8> = vec![];
    let long = sc == 1 || sc == 4;
    let (mut slow, mut peeks) = (2 + deep - (long && var >= 2) as usize, if long || var >= 2 || sc == 5 { 1 + deep } else { 2 });
    if sc >= 6 {
        // a long run, read at the end
        (slow, peeks) = (0, 0);
    }
    // a long pause of the device before one of the frames
    let (mut pause, pause_at) = if sc == 8 { (40 + 230 * deep, sym::choose(3)) } else { (0, 0) };
    let show = sc == 8 && sym::boolean();
    let cycles = slow + lens.len() + 1 + pause;
    let mut last: Vec<u8> = vec![];
    for _ in 0..cycles {
        // the device offers the next frame only after the current one is acknowledged
        let s = l.seen();
        if s.rx_ack == cnt {
            if pause > 0 && lens.len() - frames.len() == pause_at {
                pause -= 1;
                avail &= show;
                if !avail {
                    cur = vec![];
                }
            } else if slow > 0 && sym::boolean() {
                slow -= 1;
                // it may hide the frame that was taken already, or show it again
                if sent.len() > 0 && sym::boolean() {
                    avail = !avail;
                    cur = if avail { last.clone() } else { vec![] };
                }
            } else if let Some(f) = frames.pop() {
                cnt = inc(cnt);
                avail = true;
                sent.extend_from_slice(&f);
                last = f.clone();
                cur = f;
            } else {
                avail = false;
                cur = vec![];
            }
        } else {
            check!(802, false, "the receive counter of the last cycle is acknowledged");
        }
        if s.tx_cnt != ack {
            heard.extend_from_slice(&s.data);
            ack = s.tx_cnt;
        }
        check!(803, l.step(avail, cnt, ack, &cur, p16), "the cycle succeeds");
        if let Link::Coup(c, _) = &l {
            let v = &c.inputs()[0][0];
            let ok = match v {
                ChannelValue::Bytes(b) => avail && !cur.is_empty() && b.len() == cur.len() && is_prefix(b.as_slice(), &cur),
                ChannelValue::None => !avail || cur.is_empty(),
                _ => false,
            };
            check!(804, ok, "the channel shows the frame the device offers, or nothing");
        }
        if peeks > 0 && sym::boolean() {
            peeks -= 1;
            let mut buf = vec![0u8; if sc % 2 == 0 { [0, 1, 3] } else { [1, 2, 20] }[sym::choose(3)]];
            let n = l.read(&mut buf);
            check!(805, n == buf.len().min(sent.len() - got.len()), "a read returns as many of the pending bytes as fit");
            got.extend_from_slice(&buf[..n]);
            check!(806, is_prefix(&got, &sent), "bytes are read in the order received");
            sym::reach(3);
        }
    }
    let mut buf = vec![0u8; sent.len() + 3];
    let n = l.read(&mut buf);
    check!(807, n == sent.len() - got.len(), "all bytes of all frames can be read, each once");
    got.extend_from_slice(&buf[..n]);
    check!(808, got.len() == sent.len() && is_prefix(&got, &sent), "bytes are read in the order received");
    let s = l.seen();
    if s.tx_cnt != ack {
        heard.extend_from_slice(&s.data);
    }
    check!(811, heard.len() == message.len() && is_prefix(&heard, &message), "what the application writes meanwhile is transmitted");
    check!(809, l.read(&mut buf) == 0, "nothing is left to read");
    for b in &got {
        sym::observe(*b as u64);
    }
    sym::reach(1);
    if slow == 0 {
        sym::reach(2);
    }
}

/// An arbitrary process image of the module with the given length field.
fn any_image(p16: bool, len: usize) -> (Vec<u8>, Vec<u16>) {
    let mut b = sym::bytes(cap(p16) + 2);
    b[1] = len as u8;
    let w = to_words(&b);
    (b, w)
}

/// Initialisation handshake.  case: 0/1 process data length, 2/3 with another module in front
pub fn c09(case: usize) {
    let p16 = case % 2 == 1;
    let front = case >= 2;
    let kinds: Vec<K> = if front { vec![K::Do8, K::Di8, K::Com] } else { vec![K::Com] };
    let nr = kinds.len() - 1;
    let (o, _, _) = packed_offsets(&kinds, p16);
    let mut params: Vec<Vec<u16>> = kinds.iter().map(|k| k.plain_params()).collect();
    params[nr] = com_params(p16);
    let Ok(mut c) = coupler(&kinds, &o, &params) else {
        check!(900, false, "the coupler accepts the configuration");
        return;
    };
    let at = front as usize;
    let queued = sym::boolean();
    let msg = sym::bytes(3);
    if queued {
        match c.writer(nr) {
            Some(w) => check!(901, matches!(w.write(&msg), Ok(3)), "writing before the handshake is accepted"),
            None => check!(902, false, "there is a writer"),
        }
    }
    let n = cap(p16) + 2;
    for cy in 0..2 {
        let (ib, iw) = any_image(p16, 2 - cy);
        let (ob, ow) = any_image(p16, if cy == 0 { sym::choose(2) * cap(p16) } else { 1 });
        let (iw, ow) = if front { (unaligned(sym::u8(), &ib), unaligned(sym::u8(), &ob)) } else { (iw, ow) };
        let Ok(r) = c.next(&iw, &ow) else {
            check!(903, false, "the cycle succeeds");
            return;
        };
        check!(904, r.len() * 2 >= at + n, "the output image has room for the module");
        let s = byte_of(&r, at);
        if cy == 0 {
            check!(905, s & 0x83 == 0x03, "the first cycle flushes both buffers with the reset flag off");
        } else {
            check!(906, s & 0x83 == 0x80, "the second cycle sets the reset flag and ends the flush");
        }
        check!(907, s & 0x1c == ob[0] & 0x1c, "the handshake leaves the transmission counter and the buffer lock alone");
        check!(908, (s >> 5) & 3 == (ib[0] >> 3) & 3, "the receive counter is acknowledged");
        let mut rest = 0u8;
        for i in 1..n {
            rest |= byte_of(&r, at + i);
        }
        check!(909, rest == 0, "the handshake transmits no data");
        sym::observe(s as u64);
    }
    // no data was taken over during the handshake
    let mut buf = [0u8; 4];
    check!(910, matches!(c.reader(nr).map(|x| x.read(&mut buf)), Some(Ok(0))), "nothing is received during the handshake");
    // data queued before is sent afterwards, otherwise the image is kept
    let (ib, iw) = any_image(p16, sym::choose(3));
    let (ob, ow) = any_image(p16, sym::choose(2));
    let (iw, ow) = if front { (unaligned(sym::u8(), &ib), unaligned(sym::u8(), &ob)) } else { (iw, ow) };
    let Ok(r) = c.next(&iw, &ow) else {
        check!(911, false, "the cycle succeeds");
        return;
    };
    let (ack, tx) = ((ib[0] >> 5) & 3, (ob[0] >> 3) & 3);
    let s = byte_of(&r, at);
    if queued && (ack + 1) & 3 != tx {
        check!(912, (s >> 3) & 3 == (ack + 1) & 3, "the next transmission counter is used");
        let mut same = byte_of(&r, at + 1) == 3;
        for i in 0..3 {
            same &= byte_of(&r, at + 2 + i) == msg[i];
        }
        check!(913, same, "the queued data is sent after the handshake");
        sym::reach(1);
    } else {
        let mut same = (s >> 3) & 3 == tx;
        let len = ob[1] as usize;
        same &= byte_of(&r, at + 1) == ob[1];
        for i in 0..len {
            same &= byte_of(&r, at + 2 + i) == ob[2 + i];
        }
        check!(914, same, "with nothing to send the last frame stays in the image");
        sym::reach(2);
    }
    check!(915, s & 0x87 == ob[0] & 0x87, "the handshake is over: the flags are left alone");
    check!(916, (s >> 5) & 3 == (ib[0] >> 3) & 3, "the receive counter is acknowledged");
    let avail = ib[0] & 1 == 1;
    let m = c.reader(nr).map(|x| x.read(&mut buf));
    if avail {
        check!(917, matches!(m, Some(Ok(k)) if k == ib[1] as usize), "the first frame after the handshake is taken");
        sym::reach(3);
    } else {
        check!(918, matches!(m, Some(Ok(0))), "no frame, nothing to read");
    }
}

/// One byte of other modules in front of the image.
fn unaligned(first: u8, b: &[u8]) -> Vec<u16> {
    let mut v = vec![first];
    v.extend_from_slice(b);
    v.push(0);
    to_words(&v)
}

/// Byte messages of the serial module.
/// case 0..=17: input of that many bytes; 18..=35 output; 36/37 encoding; 38/39 module level
pub fn c06(case: usize) {
    if case < 36 {
        let n = case % 18;
        let b = sym::bytes(n);
        if case < 18 {
            match ProcessInput::try_from_byte_message(&b) {
                Ok(m) => {
                    check!(600, n >= 2 && (b[1] as usize) + 2 <= n, "a message shorter than its length field is refused");
                    let s = b[0];
                    check!(601, m.data_available == (s & 1 != 0) && m.buffer_nearly_full == (s & 2 != 0) && m.ready == (s & 0x80 != 0), "the status flags");
                    check!(602, m.rx_cnt == ((s >> 3) & 3) as usize && m.tx_cnt_ack == ((s >> 5) & 3) as usize, "the counters");
                    check!(603, m.data.len() == b[1] as usize && is_prefix(&m.data, &b[2..]), "the user data");
                    sym::observe(m.data.len() as u64);
                    sym::observe(m.rx_cnt as u64);
                    sym::reach(1);
                }
                Err(_) => {
                    check!(604, n < 2 || (b[1] as usize) + 2 > n, "a complete message is decoded");
                    sym::reach(2);
                }
            }
        } else {
            match ProcessOutput::try_from_byte_message(&b) {
                Ok(m) => {
                    check!(605, n >= 2 && (b[1] as usize) + 2 <= n, "a message shorter than its length field is refused");
                    let s = b[0];
                    check!(606, m.rx_buf_flush == (s & 1 != 0) && m.tx_buf_flush == (s & 2 != 0) && m.disable_tx_hw_buffer == (s & 4 != 0) && m.reset == (s & 0x80 != 0), "the control flags");
                    check!(607, m.tx_cnt == ((s >> 3) & 3) as usize && m.rx_cnt_ack == ((s >> 5) & 3) as usize, "the counters");
                    check!(608, m.data.len() == b[1] as usize && is_prefix(&m.data, &b[2..]), "the user data");
                    // and back
                    if n == 8 || n == 16 {
                        match m.try_into_byte_message(&pdl(n == 16)) {
                            Ok(r) => {
                                check!(609, r.len() == n && r[0] == s && r[1] == b[1], "encoding a decoded message gives the same header");
                                let k = m.data.len();
                                let mut same = true;
                                for i in 2..n {
                                    same &= r[i] == if i < 2 + k { b[i] } else { 0 };
                                }
                                check!(610, same, "encoding a decoded message gives the same data, padded with zeros");
                            }
                            Err(_) => check!(611, false, "a decoded message can be encoded"),
                        }
                    }
                    sym::observe(m.data.len() as u64);
                    sym::reach(1);
                }
                Err(_) => {
                    check!(612, n < 2 || (b[1] as usize) + 2 > n, "a complete message is decoded");
                    sym::reach(2);
                }
            }
        }
        return;
    }
    let p16 = case % 2 == 1;
    if case < 38 {
        let m = any_out(17);
        let r = m.try_into_byte_message(&pdl(p16));
        let fits = m.tx_cnt <= 3 && m.rx_cnt_ack <= 3 && m.data.len() <= cap(p16);
        match r {
            Ok(r) => {
                check!(613, fits, "counters above 3 and oversized data are refused");
                check_out(&m, &r, p16);
                sym::reach(3);
            }
            Err(_) => {
                check!(614, !fits, "a valid message is encoded");
                sym::reach(4);
            }
        }
        return;
    }
    // through the module: same bytes, low byte first
    let Ok(md) = K::Com.build(&com_params(p16)) else {
        check!(615, false, "valid parameters are accepted");
        return;
    };
    let m = any_out(17);
    let fits = m.tx_cnt <= 3 && m.rx_cnt_ack <= 3 && m.data.len() <= cap(p16);
    match md.process_output_values(&[ChannelValue::ComRsOut(m.clone())]) {
        Ok(w) => {
            check!(616, fits, "counters above 3 and oversized data are refused");
            check!(617, w.len() * 2 == cap(p16) + 2, "the module's output registers");
            let b: Vec<u8> = (0..w.len() * 2).map(|i| byte_of(&w, i)).collect();
            check_out(&m, &b, p16);
            match md.process_output_data(&w) {
                Ok(v) => {
                    let same = match &v[0] {
                        ChannelValue::ComRsOut(x) => *x == m,
                        _ => false,
                    };
                    check!(618, v.len() == 1 && same, "decoding an encoded message gives the same message");
                }
                Err(_) => check!(619, false, "an encoded message is decoded"),
            }
            sym::reach(3);
        }
        Err(_) => {
            check!(620, !fits, "a valid message is encoded");
            sym::reach(4);
        }
    }
    let mut b = sym::bytes(cap(p16) + 2);
    b[1] = sym::choose(cap(p16) + 4) as u8;
    match md.process_input_data(&to_words(&b)) {
        Ok(v) => {
            let ok = match &v[0] {
                ChannelValue::ComRsIn(x) => {
                    x.data.len() == b[1] as usize
                        && is_prefix(&x.data, &b[2..])
                        && x.rx_cnt == ((b[0] >> 3) & 3) as usize
                        && x.tx_cnt_ack == ((b[0] >> 5) & 3) as usize
                        && x.data_available == (b[0] & 1 != 0)
                        && x.ready == (b[0] & 0x80 != 0)
                }
                _ => false,
            };
            check!(621, v.len() == 1 && ok, "the input registers hold the message low byte first");
        }
        Err(_) => check!(622, b[1] as usize > cap(p16), "a complete message is decoded"),
    }
}

fn any_out(max: usize) -> ProcessOutput {
    let n = sym::choose(max);
    ProcessOutput {
        rx_buf_flush: sym::boolean(),
        tx_buf_flush: sym::boolean(),
        disable_tx_hw_buffer: sym::boolean(),
        tx_cnt: sym::u64() as usize,
        rx_cnt_ack: sym::u64() as usize,
        reset: sym::boolean(),
        data: sym::bytes(n),
    }
}

fn check_out(m: &ProcessOutput, r: &[u8], p16: bool) {
    let n = cap(p16) + 2;
    check!(630, r.len() == n, "the message has the length of the process data");
    let s = (m.rx_buf_flush as u8)
        | (m.tx_buf_flush as u8) << 1
        | (m.disable_tx_hw_buffer as u8) << 2
        | (m.tx_cnt as u8 & 3) << 3
        | (m.rx_cnt_ack as u8 & 3) << 5
        | (m.reset as u8) << 7;
    check!(631, r[0] == s, "the status byte");
    check!(632, r[1] as usize == m.data.len(), "the length byte");
    let mut same = true;
    for i in 2..n {
        same &= r[i] == if i - 2 < m.data.len() { m.data[i - 2] } else { 0 };
    }
    check!(633, same, "the user data, padded with zeros");
    sym::observe(s as u64);
}
