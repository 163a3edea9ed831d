use crate::check;
use crate::common::*;
use crate::sym;
use ur20::*;

/// (span, offset) of the voltage and current ranges, by register value.
pub fn ui_range(r: u16) -> Option<(f64, f64)> {
    match r {
        0 => Some((20.0, 0.0)),
        1 => Some((16.0, 4.0)),
        2 | 3 => Some((10.0, 0.0)),
        4 | 5 => Some((5.0, 0.0)),
        6 => Some((4.0, 1.0)),
        7 => Some((8.0, 2.0)),
        _ => None,
    }
}

pub fn factor(format: u16) -> f64 {
    if format == 0 { 16384.0 } else { 27648.0 }
}

const TOL: f64 = 1e-6;

/// The value a voltage/current register stands for, and the tolerance.
fn expect_ui(x: u16, range: u16, format: u16) -> Option<(f64, f64)> {
    ui_range(range).map(|(span, off)| {
        let s = x as i16 as f64;
        (s * span / factor(format) + off, (2.0 * span + off) * TOL)
    })
}

fn expect_rtd(x: u16, range: u16) -> Option<(f64, f64)> {
    match range {
        0..=9 => Some((x as i16 as f64 / 10.0, 3277.0 * TOL)),
        10..=17 => {
            let n = [40.0, 80.0, 150.0, 300.0, 500.0, 1000.0, 2000.0, 4000.0][range as usize - 10];
            Some((x as f64 * n / 27648.0, 2.5 * n * TOL))
        }
        _ => None,
    }
}

fn expect_tc(x: u16, range: u16) -> Option<Option<(f64, f64)>> {
    match range {
        0..=10 => Some(if x == 32767 { None } else { Some((x as i16 as f64 / 10.0, 3277.0 * TOL)) }),
        11..=18 => {
            let n = [0.015625, 0.03125, 0.0625, 0.125, 0.25, 0.5, 1.0, 2.0][range as usize - 11];
            Some(Some((x as i16 as f64 * n / 32767.0, 1.1 * n * TOL)))
        }
        _ => None,
    }
}

const KINDS: [K; 6] = [K::Ui12, K::Ui16, K::UiDiag, K::I8, K::Rtd, K::Tc];

/// Index of the (format, range) register of a channel.
fn cfg_index(k: K, ch: usize) -> (Option<usize>, usize) {
    match k {
        K::Ui12 | K::Ui16 => (Some(1 + 2 * ch), 2 + 2 * ch),
        K::UiDiag => (Some(4 + 5 * ch), 5 + 5 * ch),
        K::I8 => (Some(3 + 4 * ch), 4 + 4 * ch),
        K::Rtd | K::Tc => (None, 1 + 7 * ch),
        K::Ao => (Some(3 * ch), 3 * ch + 1),
        K::AoDiag => (Some(4 * ch), 4 * ch + 1),
        _ => unreachable!(),
    }
}

/// Analog inputs: every channel decodes its own register with its own range and format.
pub fn c03(case: usize) {
    let k = KINDS[case / 8];
    let ch = case % 8;
    if ch >= k.channels() {
        return;
    }
    let (fi, ri) = cfg_index(k, ch);
    let nr = k.param_domain()[ri] as usize;
    let range = sym::choose(nr) as u16;
    let mut p;
    if matches!(k, K::Rtd | K::Tc) {
        // own fields arbitrary; the other channels use another or no range
        p = k.plain_params();
        let all = k.valid_params();
        p[0] = all[0];
        p[ri + 1..ri + 7].copy_from_slice(&all[ri + 1..ri + 7]);
        let other = if sym::boolean() { (range + 1) % nr as u16 } else { nr as u16 - 1 };
        for c in 0..k.channels() {
            p[cfg_index(k, c).1] = if c == ch { range } else { other };
        }
    } else {
        p = k.valid_params();
        p[ri] = range;
    }
    let format = match fi {
        Some(fi) => {
            let f = sym::choose(2) as u16;
            p[fi] = f;
            f
        }
        None => 0,
    };
    let m = match k.build(&p) {
        Ok(m) => m,
        Err(_) => {
            check!(300, false, "valid parameters are accepted");
            return;
        }
    };
    let data = sym::words(k.channels());
    let v = match m.process_input_data(&data) {
        Ok(v) => v,
        Err(_) => {
            check!(301, false, "a complete input image is decoded");
            return;
        }
    };
    check!(302, v.len() == k.channels(), "one value per channel");
    let x = data[ch];
    let e = match k {
        K::Rtd => Some(expect_rtd(x, range)),
        K::Tc => expect_tc(x, range),
        K::I8 => Some(if range < 2 { expect_ui(x, range, format) } else { None }),
        _ => Some(expect_ui(x, range, format)),
    };
    let disabled = range as usize == nr - 1;
    match &v[ch] {
        ChannelValue::Decimal32(f) => {
            check!(303, !disabled, "a disabled channel has no value");
            match e {
                Some(Some((e, tol))) => {
                    check!(304, near(*f, e, tol), "the value is register * span / full scale + offset");
                    sym::observe_f32(*f);
                }
                _ => check!(305, false, "no value for a disabled channel or a line break"),
            }
            sym::reach(1);
        }
        ChannelValue::Disabled => {
            check!(306, disabled, "only a disabled channel reports Disabled");
            sym::reach(2);
        }
        ChannelValue::None => {
            check!(307, k == K::Tc && range <= 10 && x == 32767, "None only for a thermocouple line break");
            sym::reach(3);
        }
        _ => check!(308, false, "an analog channel has an analog value"),
    }
}

/// Analog output encoding: the nearest register value, saturating at the ends.
/// case = kind * 4 + channel
pub fn c04(case: usize) {
    let k = [K::Ao, K::AoDiag][case / 4];
    let ch = case % 4;
    let (fi, ri) = cfg_index(k, ch);
    let mut p = k.valid_params();
    let range = sym::choose(9) as u16;
    let format = sym::choose(2) as u16;
    p[ri] = range;
    p[fi.unwrap()] = format;
    let m = match k.build(&p) {
        Ok(m) => m,
        Err(_) => {
            check!(400, false, "valid parameters are accepted");
            return;
        }
    };
    let mut vals = vec![];
    for _ in 0..4 {
        vals.push(ChannelValue::Decimal32(sym::f32_range(-1.0e6, 1.0e6)));
    }
    // a neighbour may be switched off
    let off = sym::choose(5);
    if off < 4 && off != ch {
        vals[off] = ChannelValue::Disabled;
    }
    let v = match vals[ch] {
        ChannelValue::Decimal32(v) => v,
        _ => unreachable!(),
    };
    let r = match m.process_output_values(&vals) {
        Ok(r) => r,
        Err(_) => {
            check!(401, false, "analog values are encoded");
            return;
        }
    };
    check!(402, r.len() == 4, "one register per channel");
    let got = r[ch] as i16 as f64;
    match ui_range(range) {
        Some((span, o)) => {
            let ideal = (v as f64 - o) * (factor(format) / span);
            let eps = 0.51;
            let low = (got <= -32768.0) & (ideal <= -32767.49);
            let high = (got >= 32767.0) & (ideal >= 32766.49);
            let mid = (got - ideal <= eps) & (got - ideal >= -eps);
            check!(403, mid | low | high, "the register is the nearest value, or the nearest end of the scale");
            // no wrap-around
            check!(404, !((ideal >= 32768.0) & (got < 32767.0)), "values above the scale stick to its top");
            check!(405, !((ideal <= -32769.0) & (got > -32768.0)), "values below the scale stick to its bottom");
            sym::reach(1);
        }
        None => {
            check!(406, r[ch] == 0, "a disabled channel is encoded as zero");
            sym::reach(2);
        }
    }
    if off < 4 && off != ch {
        check!(407, r[off] == 0, "a Disabled value is encoded as zero");
        sym::reach(3);
    }
    sym::observe(r[ch] as u64);
}

/// Analog outputs: values of another kind are refused, infinities and NaN are not
/// wrapped around.  case = kind * 4 + channel
pub fn c04s(case: usize) {
    let k = [K::Ao, K::AoDiag][case / 4];
    let ch = case % 4;
    let (fi, ri) = cfg_index(k, ch);
    let mut p = k.plain_params();
    let range = sym::choose(8) as u16;
    let format = sym::choose(2) as u16;
    for c in 0..4 {
        p[cfg_index(k, c).1] = range;
        p[cfg_index(k, c).0.unwrap()] = format;
    }
    let _ = (fi, ri);
    let m = match k.build(&p) {
        Ok(m) => m,
        Err(_) => {
            check!(410, false, "valid parameters are accepted");
            return;
        }
    };
    let mut vals = vec![ChannelValue::Decimal32(0.0); 4];
    match sym::choose(4) {
        0 => {
            vals[ch] = ChannelValue::Decimal32(f32::INFINITY);
            check!(411, matches!(m.process_output_values(&vals), Ok(r) if r[ch] == 0x7fff), "+inf saturates at the top");
            vals[ch] = ChannelValue::Decimal32(f32::NEG_INFINITY);
            check!(412, matches!(m.process_output_values(&vals), Ok(r) if r[ch] == 0x8000), "-inf saturates at the bottom");
            vals[ch] = ChannelValue::Decimal32(f32::MAX);
            check!(413, matches!(m.process_output_values(&vals), Ok(r) if r[ch] == 0x7fff), "f32::MAX saturates at the top");
            vals[ch] = ChannelValue::Decimal32(f32::MIN);
            check!(414, matches!(m.process_output_values(&vals), Ok(r) if r[ch] == 0x8000), "f32::MIN saturates at the bottom");
            sym::reach(4);
        }
        1 => {
            vals[ch] = wrong_analog();
            check!(415, m.process_output_values(&vals).is_err(), "a value of another kind is refused");
            sym::reach(5);
        }
        2 => {
            vals.pop();
            check!(416, m.process_output_values(&vals).is_err(), "too few values are refused");
        }
        _ => {
            vals.push(ChannelValue::Decimal32(0.0));
            check!(417, m.process_output_values(&vals).is_err(), "too many values are refused");
        }
    }
}

fn wrong_analog() -> ChannelValue {
    match sym::choose(4) {
        0 => ChannelValue::Bit(sym::boolean()),
        1 => ChannelValue::None,
        2 => ChannelValue::Bytes(vec![1]),
        _ => ChannelValue::ComRsOut(Default::default()),
    }
}

/// Decoding an analog output register and encoding the value again gives the same
/// register.  case = kind * 4 + channel
pub fn c05a(case: usize) {
    let k = [K::Ao, K::AoDiag][case / 4];
    let ch = case % 4;
    let (fi, ri) = cfg_index(k, ch);
    let mut p = k.valid_params();
    let range = sym::choose(9) as u16;
    let format = sym::choose(2) as u16;
    p[ri] = range;
    p[fi.unwrap()] = format;
    let m = match k.build(&p) {
        Ok(m) => m,
        Err(_) => {
            check!(500, false, "valid parameters are accepted");
            return;
        }
    };
    let image = sym::words(4);
    let v = match m.process_output_data(&image) {
        Ok(v) => v,
        Err(_) => {
            check!(501, false, "a complete output image is decoded");
            return;
        }
    };
    check!(502, v.len() == 4, "one value per channel");
    match &v[ch] {
        ChannelValue::Decimal32(f) => {
            check!(503, range != 8, "a disabled channel has no value");
            match expect_ui(image[ch], range, format) {
                Some((e, tol)) => check!(504, near(*f, e, tol), "the decoded value is register * span / full scale + offset"),
                None => {}
            }
        }
        ChannelValue::Disabled => check!(505, range == 8, "only a disabled channel reports Disabled"),
        _ => check!(506, false, "an analog channel has an analog value"),
    }
    match m.process_output_values(&v) {
        Ok(r) => {
            check!(507, r.len() == 4, "one register per channel");
            let want = if range == 8 { 0 } else { image[ch] };
            check!(508, r[ch] == want, "decode then encode keeps the register");
            sym::observe(r[ch] as u64);
        }
        Err(_) => check!(509, false, "decoded values are encoded again"),
    }
    sym::reach(1);
}
