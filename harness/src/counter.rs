//! Frequency counter.
use crate::check;
use crate::common::*;
use crate::sym;
use std::time::Duration;
use ur20::ur20_2fcnt_100 as fcnt;
use ur20::*;

/// Input registers.  case = channel
pub fn c16i(case: usize) {
    let Ok(m) = K::Fcnt.build(&K::Fcnt.valid_params()) else {
        check!(1600, false, "valid parameters are accepted");
        return;
    };
    let w = sym::words(10);
    let Ok(v) = m.process_input_data(&w) else {
        check!(1601, false, "a complete image is decoded");
        return;
    };
    check!(1602, v.len() == 2, "two channels");
    let ChannelValue::FcntIn(x) = &v[case] else {
        check!(1603, false, "a counter value");
        return;
    };
    let raw = (w[4 * case] as u32) << 16 | w[4 * case + 1] as u32;
    let cnt = (w[4 * case + 2] as u32) << 16 | w[4 * case + 3] as u32;
    check!(1604, x.count == cnt, "the count has its high word first");
    check!(1605, x.active == (w[8 + case] & 0x100 != 0), "the active flag is bit 8 of the channel's status");
    sym::observe(cnt as u64);
    match &x.duration {
        Some(d) => {
            check!(1606, raw < 0x07FF_FFFF, "no duration above the maximum");
            check!(1607, *d == Duration::from_nanos(raw as u64 * 125), "the period duration is counted in 125 ns");
            sym::reach(1);
        }
        None => {
            check!(1608, raw >= 0x07FF_FFFF, "a duration below the maximum is reported");
            check!(1609, x.hertz().is_none(), "no frequency without a duration");
            sym::reach(2);
        }
    }
}

/// Output values.  case = channel
pub fn c16o(case: usize) {
    let Ok(m) = K::Fcnt.build(&[0, 0]) else {
        check!(1620, false, "valid parameters are accepted");
        return;
    };
    // any duration up to and above the limit, in whole microseconds and nanoseconds
    let s = sym::u64();
    let ns = sym::u32();
    sym::assume(ns < 1_000_000_000);
    let d = Duration::new(s, ns);
    let cmd = |n| match n {
        0 => None,
        1 => Some(fcnt::Command::Start),
        _ => Some(fcnt::Command::Stop),
    };
    let (c, oc) = (sym::choose(3), sym::choose(3));
    let other = fcnt::ProcessOutput { duration: Duration::from_micros(3), command: cmd(oc) };
    let own = fcnt::ProcessOutput { duration: d, command: cmd(c) };
    let vals = if case == 0 {
        [ChannelValue::FcntOut(own), ChannelValue::FcntOut(other)]
    } else {
        [ChannelValue::FcntOut(other), ChannelValue::FcntOut(own)]
    };
    let long = (s > 8) | ((s == 8) & (ns > 388_607_000));
    let ctl = [0u16, 0x100, 0x200];
    match m.process_output_values(&vals) {
        Ok(w) => {
            check!(1621, !long, "a duration above 8.388607 s is refused");
            check!(1622, w.len() == 6, "six registers");
            let us = (w[2 * case] as u32) << 16 | w[2 * case + 1] as u32;
            // us is the duration in whole microseconds, rounded down
            check!(1623, us as u64 == s * 1_000_000 + (ns / 1000) as u64, "the duration in microseconds, high word first");
            check!(1624, w[4 + case] == ctl[c], "the command of the channel");
            let o = 1 - case;
            check!(1625, (w[2 * o] == 0) & (w[2 * o + 1] == 3) & (w[4 + o] == ctl[oc]), "the other channel is not touched");
            observe_words(&w);
            sym::reach(1);
        }
        Err(e) => {
            check!(1626, long, "a duration up to 8.388607 s is accepted");
            check!(1627, e == Error::ChannelValue, "the value is reported as invalid");
            sym::reach(2);
        }
    }
}

/// Output registers.  case = channel
pub fn c16d(case: usize) {
    let Ok(m) = K::Fcnt.build(&[0, 0]) else {
        check!(1640, false, "valid parameters are accepted");
        return;
    };
    let w = sym::words(6);
    let Ok(v) = m.process_output_data(&w) else {
        check!(1641, false, "a complete image is decoded");
        return;
    };
    check!(1642, v.len() == 2, "two channels");
    let ChannelValue::FcntOut(x) = &v[case] else {
        check!(1643, false, "a counter value");
        return;
    };
    let raw = (w[2 * case] as u32) << 16 | w[2 * case + 1] as u32;
    check!(1644, x.duration == Duration::from_micros(raw as u64), "the duration in microseconds, high word first");
    let c = w[4 + case];
    let right = match x.command {
        Some(fcnt::Command::Start) => c & 0x100 != 0,
        Some(fcnt::Command::Stop) => c & 0x300 == 0x200,
        None => c & 0x300 == 0,
    };
    check!(1645, right, "the command is in bit 8 and 9 of the channel's control register");
    sym::reach(1);
    // something else than a counter value is refused
    let bad = [ChannelValue::Bit(true), ChannelValue::None, ChannelValue::Decimal32(1.0)];
    let o = bad[sym::choose(3)].clone();
    let vals = if case == 0 { vec![o, v[1].clone()] } else { vec![v[0].clone(), o] };
    check!(1646, m.process_output_values(&vals).is_err(), "a value of another kind is refused");
    check!(1647, m.process_output_values(&v[..1]).is_err() & m.process_output_values(&[]).is_err(), "too few values are refused");
    check!(1648, m.process_input_data(&w).is_err() & m.process_output_data(&w[..5]).is_err(), "an image of the wrong size is refused");
}

/// Frequencies of some durations, for every count.
pub fn c16h(case: usize) {
    // (ns, Hz per count)
    const D: [u64; 12] = [
        125, 1_000, 10_000, 1_000_000, 123_456_750, 500_000_000, 999_999_875, 1_000_000_000, 1_500_000_000, 2_000_000_125, 8_388_607_000,
        16_777_215_750,
    ];
    let count = sym::u32();
    let x = fcnt::ProcessInput { duration: Some(Duration::from_nanos(D[case])), count, active: sym::boolean() };
    match x.hertz() {
        Some(h) => {
            let e = count as f64 * 1e9 / D[case] as f64;
            let h = h as f64;
            check!(1660, (h + 1e-9 >= e * 0.999999) & (h <= e * 1.000001 + 1e-9), "the frequency is count / duration");
            sym::reach(1);
        }
        None => check!(1661, false, "there is a frequency if there is a duration"),
    }
}
