//! No input makes the library panic.  A panic is reported by the executor itself.
use crate::common::*;
use crate::sym;
use crate::check;
use std::io::{Read, Write};
use std::time::Duration;
use ur20::ur20_1com_232_485_422 as com;
use ur20::ur20_2fcnt_100 as fcnt;
use ur20::ur20_fbc_mod_tcp::*;
use ur20::ur20_pf_o_1di_sil as sil;
use ur20::*;

fn any_usize() -> usize {
    sym::u64() as usize
}

fn any_duration() -> Duration {
    let (s, n) = (sym::u64(), sym::u32());
    sym::assume(n < 1_000_000_000);
    Duration::new(s, n)
}

fn com_out(n: usize) -> com::ProcessOutput {
    com::ProcessOutput {
        rx_buf_flush: sym::boolean(),
        tx_buf_flush: sym::boolean(),
        disable_tx_hw_buffer: sym::boolean(),
        tx_cnt: any_usize(),
        rx_cnt_ack: any_usize(),
        reset: sym::boolean(),
        data: sym::bytes(n),
    }
}

fn com_in(n: usize) -> com::ProcessInput {
    com::ProcessInput {
        data_available: sym::boolean(),
        buffer_nearly_full: sym::boolean(),
        rx_cnt: any_usize(),
        tx_cnt_ack: any_usize(),
        ready: sym::boolean(),
        data: sym::bytes(n),
    }
}

const LENS: [usize; 6] = [0, 1, 6, 7, 15, 300];

/// A value of any kind.
fn any_value() -> ChannelValue {
    match sym::choose(10) {
        0 => ChannelValue::Bit(sym::boolean()),
        1 => ChannelValue::Decimal32(sym::f32_any()),
        2 => ChannelValue::ComRsIn(com_in(LENS[sym::choose(5)])),
        3 => ChannelValue::ComRsOut(com_out(LENS[sym::choose(6)])),
        4 => ChannelValue::FcntIn(fcnt::ProcessInput { duration: Some(any_duration()), count: sym::u32(), active: sym::boolean() }),
        5 => ChannelValue::FcntOut(fcnt::ProcessOutput {
            duration: any_duration(),
            command: match sym::choose(3) {
                0 => None,
                1 => Some(fcnt::Command::Start),
                _ => Some(fcnt::Command::Stop),
            },
        }),
        6 => ChannelValue::SilPFIn(sil::ProcessInput::default()),
        7 => ChannelValue::Bytes(sym::bytes(LENS[sym::choose(6)])),
        8 => ChannelValue::Disabled,
        _ => ChannelValue::None,
    }
}

/// A value that fits the module.
fn fitting(k: K) -> ChannelValue {
    match k {
        K::Do4 | K::Do4x2A | K::Do8 | K::Do16 | K::Ro4 => ChannelValue::Bit(true),
        K::Ao | K::AoDiag => ChannelValue::Decimal32(1.0),
        K::Fcnt => ChannelValue::FcntOut(fcnt::ProcessOutput { duration: Duration::from_micros(70_000), command: None }),
        K::Com => ChannelValue::ComRsOut(com::ProcessOutput::default()),
        _ => ChannelValue::None,
    }
}

fn calls(m: &DynMod, k: K) {
    let top = k.in_bytes(true).max(k.out_bytes(true)) / 2 + 2;
    let d = sym::words(sym::choose(top + 1));
    let i = m.process_input_data(&d);
    let o = m.process_output_data(&d);
    check!(110, m.process_input_byte_count() <= 20 && m.process_output_byte_count() <= 16, "the sizes are those of the catalogue");
    // what was decoded may be sent back
    if let Ok(v) = o {
        // analog outputs: see c05a
        if matches!(k, K::Ao | K::AoDiag) {
            return;
        }
        let _ = m.process_output_values(&v);
        sym::reach(1);
    }
    if let Ok(v) = i {
        let _ = m.process_output_values(&v);
        sym::reach(2);
    }
}

/// Parameters of any content and length, then process data of any content and
/// length.  case = kind (+ 18 * extra registers)
pub fn c01b(case: usize) {
    let k = ALL[case % 18];
    let n = k.nparams();
    let len = match sym::choose(6) {
        0 => 0,
        1 => n.saturating_sub(1),
        2 => n,
        3 => n + 1,
        4 => n + 7,
        _ => n / 2,
    };
    let p = sym::words(len);
    match k.build(&p) {
        Ok(m) => {
            check!(100, len >= n, "too few parameters are refused");
            calls(&m, k);
            sym::reach(3);
        }
        Err(_) => sym::reach(4),
    }
}

/// Output values of any kind, in any number.  case = kind
pub fn c01v(case: usize) {
    let k = ALL[case];
    let m = match k.build(&k.plain_params()) {
        Ok(m) => m,
        Err(_) => {
            check!(120, false, "valid parameters are accepted");
            return;
        }
    };
    let n = k.channels();
    let len = [0, 1, n - 1, n, n + 1, n + 5][sym::choose(6)];
    let at = sym::choose(len.max(1));
    let mut v: Vec<ChannelValue> = (0..len).map(|_| fitting(k)).collect();
    if len > 0 {
        v[at] = any_value();
    }
    if let Ok(w) = m.process_output_values(&v) {
        check!(121, w.len() * 2 <= 16, "the words fit the process data");
        sym::reach(1);
    } else {
        sym::reach(2);
    }
}

/// The public parameter lists of a module are shortened or extended by its user.  case = kind
pub fn c01t(case: usize) {
    let k = ALL[case];
    let p = k.plain_params();
    macro_rules! cut {
        ($t:ty) => {
            match <$t>::from_modbus_parameter_data(&p) {
                Ok(mut m) => {
                    let n = m.ch_params.len();
                    if sym::boolean() {
                        m.ch_params.truncate(sym::choose(n));
                    } else if let Some(x) = <$t>::from_modbus_parameter_data(&p).ok().and_then(|mut y| y.ch_params.pop()) {
                        m.ch_params.push(x);
                    }
                    let len = sym::choose(k.in_bytes(true).max(k.out_bytes(true)) / 2 + 2);
                    let d = sym::words(len);
                    let _ = m.process_input_data(&d);
                    let _ = m.process_output_data(&d);
                    let v: Vec<ChannelValue> = (0..k.channels()).map(|_| fitting(k)).collect();
                    let _ = m.process_output_values(&v);
                    let _ = m.process_output_values(&v[1..]);
                    let _ = m.module_type();
                    sym::reach(1);
                }
                Err(_) => check!(130, false, "valid parameters are accepted"),
            }
        };
    }
    match k {
        K::Di4 => cut!(ur20_di_generic::Mod<ur20_di_generic::UR20_4DI_P>),
        K::Di8 => cut!(ur20_di_generic::Mod<ur20_di_generic::UR20_8DI_P_2W>),
        K::Do4 => cut!(ur20_do_generic::Mod<ur20_do_generic::UR20_4DO_P>),
        K::Do4x2A => cut!(ur20_do_generic::Mod<ur20_do_generic::UR20_4DO_P_2A>),
        K::Do8 => cut!(ur20_do_generic::Mod<ur20_do_generic::UR20_8DO_P>),
        K::Ro4 => cut!(ur20_4ro_co_255::Mod),
        K::Ao => cut!(ur20_4ao_ui_16::Mod),
        K::AoDiag => cut!(ur20_4ao_ui_16_diag::Mod),
        K::Rtd => cut!(ur20_4ai_rtd_diag::Mod),
        K::UiDiag => cut!(ur20_4ai_ui_16_diag::Mod),
        K::Ui12 => cut!(ur20_ai_ui_generic::Mod<ur20_ai_ui_generic::UR20_4AI_UI_12>),
        K::Ui16 => cut!(ur20_ai_ui_generic::Mod<ur20_ai_ui_generic::UR20_4AI_UI_16>),
        K::I8 => cut!(ur20_8ai_i_16_diag_hd::Mod),
        K::Fcnt => cut!(ur20_2fcnt_100::Mod),
        K::Com => cut!(com::Mod),
        K::Tc | K::Do16 | K::Sil => {
            let d = sym::words(sym::choose(8));
            if let Ok(m) = k.build(&p) {
                let _ = m.process_input_data(&d);
                let _ = m.process_output_data(&d);
                sym::reach(1);
            }
        }
    }
}

/// Modules as created by `Default`.
pub fn c01d(_: usize) {
    fn go<M: ProcessModbusTcpData + Default>(k: K) {
        let m = M::default();
        let d = sym::words(sym::choose(k.in_bytes(true).max(k.out_bytes(true)) / 2 + 2));
        let _ = m.process_input_data(&d);
        let _ = m.process_output_data(&d);
        let v: Vec<ChannelValue> = (0..k.channels()).map(|_| fitting(k)).collect();
        let _ = m.process_output_values(&v);
        check!(140, m.module_type() == k.ty(), "a default module has its own type");
    }
    match sym::choose(15) {
        0 => go::<ur20_di_generic::Mod<ur20_di_generic::UR20_4DI_P>>(K::Di4),
        1 => go::<ur20_di_generic::Mod<ur20_di_generic::UR20_8DI_P_2W>>(K::Di8),
        2 => go::<ur20_do_generic::Mod<ur20_do_generic::UR20_4DO_P>>(K::Do4),
        3 => go::<ur20_do_generic::Mod<ur20_do_generic::UR20_4DO_P_2A>>(K::Do4x2A),
        4 => go::<ur20_do_generic::Mod<ur20_do_generic::UR20_8DO_P>>(K::Do8),
        5 => go::<ur20_4ro_co_255::Mod>(K::Ro4),
        6 => go::<ur20_4ao_ui_16::Mod>(K::Ao),
        7 => go::<ur20_4ao_ui_16_diag::Mod>(K::AoDiag),
        8 => go::<ur20_4ai_rtd_diag::Mod>(K::Rtd),
        9 => go::<ur20_4ai_ui_16_diag::Mod>(K::UiDiag),
        10 => go::<ur20_ai_ui_generic::Mod<ur20_ai_ui_generic::UR20_4AI_UI_16>>(K::Ui16),
        11 => go::<ur20_8ai_i_16_diag_hd::Mod>(K::I8),
        12 => go::<ur20_4ai_tc_diag::Mod>(K::Tc),
        13 => go::<ur20_2fcnt_100::Mod>(K::Fcnt),
        _ => go::<com::Mod>(K::Com),
    }
    sym::reach(1);
}

/// The message processor with any messages.  case: process data length + 2 * length of the data
pub fn c01p(case: usize) {
    let l = if case % 2 == 0 { com::ProcessDataLength::EightBytes } else { com::ProcessDataLength::SixteenBytes };
    let n = [0, 1, 7, 20][case / 2];
    let mut p = com::MessageProcessor::new(l);
    for cycle in 0..4 {
        if cycle > 0 && sym::boolean() {
            let _ = p.write(&sym::bytes(n));
            let _ = p.flush();
        }
        let o = p.next(&com_in(n), &com_out(n));
        if cycle == 3 {
            for l in [com::ProcessDataLength::EightBytes, com::ProcessDataLength::SixteenBytes] {
                let _ = o.try_into_byte_message(&l);
            }
        }
        let mut buf = [0u8; 3];
        let len = if cycle > 1 { sym::choose(4) } else { 2 };
        let r = p.read(&mut buf[..len]);
        check!(150, matches!(r, Ok(x) if x <= 3), "reading does not fail");
    }
    sym::reach(1);
}

/// Byte messages of any length and content.  case = length
pub fn c01m(case: usize) {
    let n = [0, 1, 2, 7, 8, 9, 15, 16, 17, 18, 40, 258][case];
    let b = sym::bytes(n);
    let i = com::ProcessInput::try_from_byte_message(&b);
    let o = com::ProcessOutput::try_from_byte_message(&b);
    if let Ok(x) = &i {
        check!(160, x.data.len() <= n, "no more data than bytes");
        sym::reach(1);
    }
    if let Ok(x) = &o {
        check!(161, x.data.len() <= n, "no more data than bytes");
        sym::reach(2);
    }
    if i.is_err() && o.is_err() {
        sym::reach(3);
    }
}

/// A station of two modules, images of any content (serial frames of a few lengths).
/// case = second kind + 18 * first kind index + 90 * variant: 0 any request between two cycles,
/// 1 any input offset, 2 any output offset
pub const FIRST: [K; 5] = [K::Do4, K::Com, K::Ao, K::Fcnt, K::Di8];
pub fn c01c(case: usize) {
    let kinds = [FIRST[case % 90 / 18], ALL[case % 18]];
    let variant = case / 90;
    let params: Vec<Vec<u16>> = kinds.iter().map(|k| k.plain_params()).collect();
    let (mut o, ib, ob) = packed_offsets(&kinds, false);
    match variant {
        0 => {}
        1 => o[3] = sym::u16(),
        _ => o[2] = sym::u16(),
    }
    let Ok(mut c) = coupler(&kinds, &o, &params) else {
        check!(170, false, "the coupler accepts the configuration");
        return;
    };
    let (mut i, mut q) = (sym::words(ib.div_ceil(2)), sym::words(ob.div_ceil(2)));
    // serial frames: a few lengths (frames of any content are in c01b)
    if kinds.contains(&K::Com) {
        if variant == 0 {
            let (mut bi, mut bo) = (0, 0);
            for k in kinds {
                if k == K::Com {
                    let n = [0u8, 6, 7, 255][sym::choose(4)];
                    for (w, b) in [(&mut i, bi), (&mut q, bo)] {
                        let w = &mut w[(b + 1) / 2];
                        *w = if b % 2 == 0 { *w & 0xFF | (n as u16) << 8 } else { *w & 0xFF00 | n as u16 };
                    }
                }
                bi += k.in_bytes(false);
                bo += k.out_bytes(false);
            }
        } else {
            let w = [0u16, 0x0280, 0x0698, 0xFFFF][sym::choose(4)];
            i.iter_mut().for_each(|x| *x = w);
            q.iter_mut().for_each(|x| *x = w);
        }
    }
    let ok = if variant == 0 {
        let _ = c.next(&i, &q);
        let far = usize::MAX;
        // (module, channel, value) of a request, the module written to
        let (m, ch, v, w) = match sym::choose(9) {
            0 => (0, 0, 0, 0),
            1 => (1, 0, 1, 1),
            2 => (1, 3, 2, 2),
            3 => (0, 1, 3, far),
            4 => (1, 0, 4, 1),
            5 => (0, 0, 2, 0),
            6 => (1, 0, 2, 0),
            7 => (2, far, 0, 1),
            _ => (far, 16, 5, 1),
        };
        let _ = c.set_output(&Address { module: m, channel: ch }, small(v));
        if let Some(w) = c.writer(w) {
            let _ = w.write(&[1, 2, 3]);
        }
        let (i, q) = (vec![0x80u16; ib.div_ceil(2) + 1], vec![0u16; ob.div_ceil(2)]);
        c.next(&i, &q).is_ok()
    } else {
        c.next(&i, &q).is_ok()
    };
    if ok {
        check!(171, c.inputs().len() == 2 && c.outputs().len() == 2, "a value list per module");
        sym::reach(1);
    } else {
        sym::reach(2);
    }
    for n in [0, 1, 2, usize::MAX] {
        if let Some(r) = c.reader(n) {
            let mut b = [0u8; 4];
            let _ = r.read(&mut b);
        }
    }
}

fn small(n: usize) -> ChannelValue {
    match n {
        0 => ChannelValue::Bit(true),
        1 => ChannelValue::Decimal32(2.5),
        2 => ChannelValue::Bytes(vec![1, 2, 3, 4, 5, 6, 7]),
        3 => ChannelValue::FcntOut(fcnt::ProcessOutput { duration: Duration::from_secs(9), command: None }),
        4 => ChannelValue::ComRsOut(com::ProcessOutput { tx_cnt: 9, ..Default::default() }),
        _ => ChannelValue::None,
    }
}

/// Any offsets for three modules of one kind.  case = kind
pub fn c01o(case: usize) {
    let k = ALL[case];
    let kinds = [k, k];
    let o = sym::words(4);
    let params = [k.plain_params(), k.plain_params()];
    let Ok(mut c) = coupler(&kinds, &o, &params) else {
        check!(180, false, "the coupler accepts the configuration");
        return;
    };
    let len = k.in_bytes(false).max(k.out_bytes(false));
    let (i, q) = (vec![0u16; len + 1 + sym::choose(2)], vec![0u16; len + sym::choose(2)]);
    if c.next(&i, &q).is_ok() {
        sym::reach(1);
    } else {
        sym::reach(2);
    }
}

/// Counter frequency.
pub fn c01h(_: usize) {
    let d = if sym::boolean() { Some(any_duration()) } else { None };
    let x = fcnt::ProcessInput { duration: d, count: sym::u32(), active: sym::boolean() };
    let h = x.hertz();
    check!(190, h.is_some() == d.is_some(), "there is a frequency exactly if there is a duration");
    sym::reach(1);
}

/// The free functions of the coupler with lists that do not fit each other.
/// case = kind of the second module
pub fn c01w(case: usize) {
    let kinds = [K::Do8, ALL[case]];
    let (Ok(a), Ok(b)) = (kinds[0].build(&kinds[0].plain_params()), kinds[1].build(&kinds[1].plain_params())) else {
        check!(190, false, "valid parameters are accepted");
        return;
    };
    let mut o = packed_offsets(&kinds, false).0;
    match sym::choose(4) {
        0 => {}
        1 => o[2] = NONE,
        2 => o[3] = NONE,
        _ => o[2] = sym::u16(),
    }
    let off = offsets_of_process_data(&o[..sym::choose(5)]);
    let mods = [&*a, &*b];
    let infos: Vec<(&dyn ProcessModbusTcpData, &ModuleOffset)> = mods.iter().copied().zip(&off).collect();
    let n = [8, b.module_type().channel_count().max(1)];
    let mut vals = vec![];
    for i in 0..sym::choose(4) {
        let k = kinds[i % 2];
        let want = n[i % 2];
        let len = [want, 0, want + 1][sym::choose(3)];
        vals.push(vec![fitting(k); len]);
    }
    match process_output_values(&infos, &vals) {
        Ok(_) => {
            check!(191, vals.len() == infos.len(), "a value list too many or too few is refused");
            sym::reach(1);
        }
        Err(_) => sym::reach(2),
    }
    let d = vec![0; sym::choose(3) * 6];
    if let Ok(v) = process_input_data(&infos, &d) {
        check!(192, v.len() == infos.len(), "a value list per module");
    }
    if let Ok(v) = process_output_data(&infos, &d) {
        check!(193, v.len() == infos.len(), "a value list per module");
    }
    let (x, y) = (sym::u16(), sym::u64() as usize);
    let _ = to_bit_address(x, y);
}
