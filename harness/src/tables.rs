//! Module identification, addresses and the other fixed tables.
use crate::check;
use crate::common::*;
use crate::sym;
use std::str::FromStr;
use ur20::ModuleCategory as C;
use ur20::ModuleType as T;
use ur20::ur20_fbc_mod_tcp::*;
use ur20::*;

/// Order name, type, identification number (0: none), category, channels.
pub const TYPES: [(&[u8], T, u32, C, usize); 63] = [
    (b"UR20_4DI_P", T::UR20_4DI_P, 0x0009_1F84, C::DI, 4),
    (b"UR20_4DI_P_3W", T::UR20_4DI_P_3W, 0x001B_1F84, C::DI, 4),
    (b"UR20_8DI_P_2W", T::UR20_8DI_P_2W, 0x0013_1FC1, C::DI, 8),
    (b"UR20_8DI_P_3W", T::UR20_8DI_P_3W, 0x000A_1FC1, C::DI, 8),
    (b"UR20_8DI_P_3W_HD", T::UR20_8DI_P_3W_HD, 0x0003_1FC1, C::DI, 8),
    (b"UR20_16DI_P", T::UR20_16DI_P, 0x0004_9FC2, C::DI, 16),
    (b"UR20_16DI_P_PLC_INT", T::UR20_16DI_P_PLC_INT, 0x0005_9FC2, C::DI, 16),
    (b"UR20_2DI_P_TS", T::UR20_2DI_P_TS, 0x0F01_4700, C::DI, 2),
    (b"UR20_4DI_P_TS", T::UR20_4DI_P_TS, 0x0F02_4700, C::DI, 4),
    (b"UR20_4DI_N", T::UR20_4DI_N, 0x0001_1F84, C::DI, 4),
    (b"UR20_8DI_N_3W", T::UR20_8DI_N_3W, 0x0002_1FC1, C::DI, 8),
    (b"UR20_16DI_N", T::UR20_16DI_N, 0x000C_9FC2, C::DI, 16),
    (b"UR20_16DI_N_PLC_INT", T::UR20_16DI_N_PLC_INT, 0x000D_9FC2, C::DI, 16),
    (b"UR20_4DI_2W_230V_AC", T::UR20_4DI_2W_230V_AC, 0x0016_9F84, C::DI, 4),
    (b"UR20_4DO_P", T::UR20_4DO_P, 0x0101_2FA0, C::DO, 4),
    (b"UR20_4DO_P_2A", T::UR20_4DO_P_2A, 0x0105_2FA0, C::DO, 4),
    (b"UR20_4DO_PN_2A", T::UR20_4DO_PN_2A, 0x0115_2FC8, C::DO, 4),
    (b"UR20_8DO_P", T::UR20_8DO_P, 0x0102_2FC8, C::DO, 8),
    (b"UR20_8DO_P_2W_HD", T::UR20_8DO_P_2W_HD, 0x0119_2FC8, C::DO, 8),
    (b"UR20_16DO_P", T::UR20_16DO_P, 0x0103_AFD0, C::DO, 16),
    (b"UR20_16DO_P_PLC_INT", T::UR20_16DO_P_PLC_INT, 0x0104_AFD0, C::DO, 16),
    (b"UR20_4DO_N", T::UR20_4DO_N, 0x010A_2FA0, C::DO, 4),
    (b"UR20_4DO_N_2A", T::UR20_4DO_N_2A, 0x010B_2FA0, C::DO, 4),
    (b"UR20_8DO_N", T::UR20_8DO_N, 0x010C_2FC8, C::DO, 8),
    (b"UR20_16DO_N", T::UR20_16DO_N, 0x010D_AFD0, C::DO, 16),
    (b"UR20_16DO_N_PLC_INT", T::UR20_16DO_N_PLC_INT, 0x010E_AFD0, C::DO, 16),
    (b"UR20_4RO_SSR_255", T::UR20_4RO_SSR_255, 0x0107_2FA0, C::DO, 4),
    (b"UR20_4RO_CO_255", T::UR20_4RO_CO_255, 0x0106_2FA0, C::DO, 4),
    (b"UR20_2PWM_PN_0_5A", T::UR20_2PWM_PN_0_5A, 0x0908_4880, C::PWM, 2),
    (b"UR20_2PWM_PN_2A", T::UR20_2PWM_PN_2A, 0x0909_4880, C::PWM, 2),
    (b"UR20_4AI_UI_16", T::UR20_4AI_UI_16, 0x0401_15C4, C::AI, 4),
    (b"UR20_4AI_UI_16_DIAG", T::UR20_4AI_UI_16_DIAG, 0x0402_1544, C::AI, 4),
    (b"UR20_4AI_UI_DIF_16_DIAG", T::UR20_4AI_UI_DIF_16_DIAG, 0x041E_1544, C::AI, 4),
    (b"UR20_4AI_UI_16_HD", T::UR20_4AI_UI_16_HD, 0x0413_15C4, C::AI, 4),
    (b"UR20_4AI_UI_16_DIAG_HD", T::UR20_4AI_UI_16_DIAG_HD, 0x0414_1544, C::AI, 4),
    (b"UR20_4AI_UI_12", T::UR20_4AI_UI_12, 0x0411_15C4, C::AI, 4),
    (b"UR20_8AI_I_16_HD", T::UR20_8AI_I_16_HD, 0x0404_15C5, C::AI, 8),
    (b"UR20_8AI_I_16_DIAG_HD", T::UR20_8AI_I_16_DIAG_HD, 0x0405_1545, C::AI, 8),
    (b"UR20_8AI_I_PLC_INT", T::UR20_8AI_I_PLC_INT, 0x0409_15C5, C::AI, 8),
    (b"UR20_4AI_R_HS_16_DIAG", T::UR20_4AI_R_HS_16_DIAG, 0x041C_1544, C::AI, 4),
    (b"UR20_2AI_SG_24_DIAG", T::UR20_2AI_SG_24_DIAG, 0x041B_356D, C::AI, 2),
    (b"UR20_3EM_230V_AC", T::UR20_3EM_230V_AC, 0x0418_356D, C::AI, 8),
    (b"UR20_4AO_UI_16", T::UR20_4AO_UI_16, 0x0502_25E0, C::AO, 4),
    (b"UR20_4AO_UI_16_M", T::UR20_4AO_UI_16_M, 0x0506_25E0, C::AO, 4),
    (b"UR20_4AO_UI_16_DIAG", T::UR20_4AO_UI_16_DIAG, 0x0501_2560, C::AO, 4),
    (b"UR20_4AO_UI_16_M_DIAG", T::UR20_4AO_UI_16_M_DIAG, 0x0505_2560, C::AO, 4),
    (b"UR20_4AO_UI_16_HD", T::UR20_4AO_UI_16_HD, 0x0504_25E0, C::AO, 4),
    (b"UR20_4AO_UI_16_DIAG_HD", T::UR20_4AO_UI_16_DIAG_HD, 0x0503_2560, C::AO, 4),
    (b"UR20_1CNT_100_1DO", T::UR20_1CNT_100_1DO, 0x08C1_3800, C::CNT, 1),
    (b"UR20_2CNT_100", T::UR20_2CNT_100, 0x08C3_3800, C::CNT, 2),
    (b"UR20_1CNT_500", T::UR20_1CNT_500, 0x08C4_3801, C::CNT, 1),
    (b"UR20_2FCNT_100", T::UR20_2FCNT_100, 0x0881_28EE, C::CNT, 2),
    (b"UR20_1SSI", T::UR20_1SSI, 0x09C1_7880, C::COM, 1),
    (b"UR20_1COM_232_485_422", T::UR20_1COM_232_485_422, 0x0E41_3FED, C::COM, 1),
    (b"UR20_1COM_SAI_PRO", T::UR20_1COM_SAI_PRO, 0x0BC1_E800, C::COM, 1),
    (b"UR20_4COM_IO_LINK", T::UR20_4COM_IO_LINK, 0x0E81_276D, C::COM, 4),
    (b"UR20_4AI_RTD_DIAG", T::UR20_4AI_RTD_DIAG, 0x0406_1544, C::RTD, 4),
    (b"UR20_4AI_TC_DIAG", T::UR20_4AI_TC_DIAG, 0x0407_1544, C::TC, 4),
    (b"UR20_PF_I", T::UR20_PF_I, 0, C::PF, 0),
    (b"UR20_PF_O", T::UR20_PF_O, 0, C::PF, 0),
    (b"UR20_PF_O_1DI_SIL", T::UR20_PF_O_1DI_SIL, 0x1801_9F43, C::PF, 0),
    (b"UR20_PF_O_2DI_SIL", T::UR20_PF_O_2DI_SIL, 0x1803_9F43, C::PF, 0),
    (b"UR20_PF_O_2DI_DELAY_SIL", T::UR20_PF_O_2DI_DELAY_SIL, 0x1802_9F43, C::PF, 0),
];

const N: usize = TYPES.len();

const fn types() -> [T; N] {
    let mut r = [const { T::UR20_4DI_P }; N];
    let mut i = 0;
    while i < N {
        // a fieldless enumeration: a copy
        r[i] = unsafe { std::ptr::read(&TYPES[i].1) };
        i += 1;
    }
    r
}
static ALL_TYPES: [T; N] = types();
static CHANNELS: [usize; N] = {
    let mut r = [0; N];
    let mut i = 0;
    while i < N {
        r[i] = TYPES[i].4;
        i += 1;
    }
    r
};

/// Whether `id` maps to exactly what the table says.
fn id_matches(id: u32, r: &Res<T>) -> bool {
    let mut known = false;
    let mut right = false;
    for (_, t, n, _, _) in TYPES.iter() {
        let hit = (*n != 0) & (id == *n);
        known |= hit;
        right |= hit
            & match r {
                Ok(x) => x == t,
                Err(_) => false,
            };
    }
    match r {
        Ok(_) => right,
        Err(e) => !known & matches!(e, Error::UnknownModule),
    }
}

/// Identification numbers.
pub fn c13i(_: usize) {
    let id = sym::u32();
    let r = T::try_from_u32(id);
    check!(1300, id_matches(id, &r), "an identification number gives exactly its module type");
    match r {
        Ok(_) => sym::reach(1),
        Err(_) => sym::reach(2),
    }
}

fn upper(b: u8) -> u8 {
    if (b >= b'a') & (b <= b'z') { b - 32 } else { b }
}

fn dash(b: u8) -> u8 {
    if b == b'-' { b'_' } else { b }
}

/// Every spelling of an order name: any case, dashes or underscores.  case = table index
pub fn c13n(case: usize) {
    let (name, t, ..) = &TYPES[case];
    let mut s = vec![];
    for c in name.iter() {
        s.push(if *c == b'_' {
            if sym::boolean() { b'-' } else { b'_' }
        } else if c.is_ascii_alphabetic() {
            if sym::boolean() { *c + 32 } else { *c }
        } else {
            *c
        });
    }
    // ASCII by construction
    let r = T::from_str(unsafe { std::str::from_utf8_unchecked(&s) });
    check!(1301, r.as_ref() == Ok(t), "every spelling of a name gives its module type");
    sym::reach(1);
}

/// Names with up to two arbitrary ASCII characters in place of, before or behind
/// the name's own.  case = table index + 63 * variant
pub fn c13m(case: usize) {
    let (name, ..) = &TYPES[case % N];
    let mut s = name.to_vec();
    match case / N {
        // an arbitrary character at any place
        0 => {
            let at = sym::choose(s.len());
            s[at] = sym::u8();
            sym::assume(s[at] < 0x80);
        }
        // a character more
        1 => {
            let at = if sym::boolean() { 0 } else { s.len() };
            s.insert(at, sym::u8());
            sym::assume(s[at] < 0x80);
        }
        // a character less
        2 => {
            let at = sym::choose(s.len());
            s.remove(at);
        }
        // the last two
        _ => {
            let n = s.len();
            for at in [n - 2, n - 1] {
                s[at] = sym::u8();
                sym::assume(s[at] < 0x80);
            }
        }
    }
    names(&s);
}

/// Short arbitrary strings.  case = length
pub fn c13s(case: usize) {
    let mut s = vec![];
    for _ in 0..case {
        let b = sym::u8();
        sym::assume(b < 0x80);
        s.push(b);
    }
    names(&s);
}

/// Parts of an order name, the name and a part of it again, other separators.  case = table index
pub fn c13x(case: usize) {
    let name = TYPES[case].0;
    let n = name.len();
    let s = match sym::choose(4) {
        0 => {
            let a = sym::choose(n);
            name[a..a + 1 + sym::choose(n - a)].to_vec()
        }
        1 => {
            let mut s = name.to_vec();
            s.extend_from_slice(&name[sym::choose(n)..]);
            s
        }
        2 => {
            let c = sym::u8();
            sym::assume(c < 0x80);
            name.iter().map(|b| if *b == b'_' { c } else { *b }).collect()
        }
        _ => name.iter().copied().filter(|b| *b != b'_').collect(),
    };
    names(&s);
}

fn names(s: &[u8]) {
    let r = T::from_str(unsafe { std::str::from_utf8_unchecked(s) });
    let mut known = false;
    let mut right = false;
    for (n, t, ..) in TYPES.iter() {
        if n.len() == s.len() {
            let mut same = true;
            for i in 0..s.len() {
                same &= dash(upper(s[i])) == n[i];
            }
            known |= same;
            right |= same
                & match &r {
                    Ok(x) => x == t,
                    Err(_) => false,
                };
        }
    }
    let ok = match &r {
        Ok(_) => right,
        Err(e) => !known & matches!(e, Error::UnknownModule),
    };
    check!(1302, ok, "a name is accepted exactly if it is in the table");
    match r {
        Ok(_) => sym::reach(1),
        Err(_) => sym::reach(2),
    }
}

const CATS: [(&[u8], C); 11] = [
    (b"DI", C::DI),
    (b"DO", C::DO),
    (b"AI", C::AI),
    (b"AO", C::AO),
    (b"CNT", C::CNT),
    (b"PWM", C::PWM),
    (b"RTD", C::RTD),
    (b"TC", C::TC),
    (b"COM", C::COM),
    (b"RO", C::RO),
    (b"PF", C::PF),
];

/// Category names.  case = length
pub fn c13c(case: usize) {
    let mut s = vec![];
    for _ in 0..case {
        let b = sym::u8();
        sym::assume(b < 0x80);
        s.push(b);
    }
    let r = C::from_str(unsafe { std::str::from_utf8_unchecked(&s) });
    let mut known = false;
    let mut right = false;
    for (n, t) in CATS.iter() {
        if n.len() == s.len() {
            let mut same = true;
            for i in 0..s.len() {
                same &= upper(s[i]) == n[i];
            }
            known |= same;
            right |= same
                & match &r {
                    Ok(x) => x == t,
                    Err(_) => false,
                };
        }
    }
    let ok = match &r {
        Ok(_) => right,
        Err(e) => !known & matches!(e, Error::UnknownCategory),
    };
    check!(1303, ok, "a category name is accepted exactly if it is one");
    match r {
        Ok(_) => sym::reach(1),
        Err(_) => sym::reach(2),
    }
}

static KIND_TYPES: [T; 18] = {
    let mut r = [const { T::UR20_4DI_P }; 18];
    let mut i = 0;
    while i < 18 {
        r[i] = ALL[i].ty();
        i += 1;
    }
    r
};
static KIND_PARAMS: [u16; 18] = {
    let mut r = [0; 18];
    let mut i = 0;
    while i < 18 {
        r[i] = ALL[i].nparams() as u16;
        i += 1;
    }
    r
};

/// Parameter registers of each module.  case = number of modules
pub fn c15(case: usize) {
    let mut k = vec![];
    let mut m = vec![];
    for _ in 0..case {
        let i = sym::u8() as usize;
        sym::assume(i < 18);
        k.push(i);
        m.push(KIND_TYPES[i].clone());
    }
    let r = param_addresses_and_register_counts(&m);
    check!(1500, r.len() == case, "one entry per module");
    for (i, (a, n)) in r.iter().enumerate() {
        check!(1501, *a as usize == 0xC000 + 0x100 * i, "module i has its parameters at 0xC000 + 256 * i");
        check!(1502, *n == KIND_PARAMS[k[i]], "the number of parameter registers of the module type");
        check!(1503, *n < 0x100, "parameter areas do not overlap");
        sym::observe(*a as u64);
        sym::observe(*n as u64);
    }
    sym::reach(1);
}

/// As many registers as the module says are needed and enough.  case = kind
pub fn c15b(case: usize) {
    let k = ALL[case];
    let n = k.ty().param_register_count() as usize;
    check!(1510, n == k.nparams(), "the number of parameter registers of the module type");
    let p = k.valid_params();
    check!(1511, k.build(&p[..n]).is_ok(), "that many registers are enough");
    let less = sym::choose(n + 1);
    check!(1512, less == n || k.build(&p[..less]).is_err(), "fewer registers are refused");
    sym::reach(1);
}

/// Bit addresses.
pub fn c21(case: usize) {
    match case {
        0 => {
            let a = sym::u16();
            let (r, b) = to_register_address(a);
            check!(2100, b < 16, "a register has 16 bits");
            check!(2101, r < 0x1000, "a bit address reaches 4096 registers");
            check!(2102, r as u32 * 16 + b as u32 == a as u32, "bit address = 16 * register + bit");
            check!(2103, to_bit_address(r, b) == a, "splitting and merging an address gives the same address");
        }
        _ => {
            let r = sym::u16();
            let b = sym::u8() as usize;
            sym::assume((r < 0x1000) & (b < 16));
            let a = to_bit_address(r, b);
            check!(2104, a as u32 == 16 * r as u32 + b as u32, "bit address = 16 * register + bit");
            check!(2105, to_register_address(a) == (r, b), "merging and splitting an address gives the same address");
        }
    }
    sym::reach(1);
}

/// The offset table.  case = number of registers
pub fn c21o(case: usize) {
    let w = sym::words(case);
    let o = offsets_of_process_data(&w);
    check!(2110, o.len() == case / 2, "two registers per module");
    for (i, x) in o.iter().enumerate() {
        let is = |v: &Option<u16>, w: u16| match v {
            Some(v) => (*v == w) & (w != 0xFFFF),
            None => w == 0xFFFF,
        };
        check!(2111, is(&x.output, w[2 * i]), "the first register of a module is its output offset, 0xFFFF is none");
        check!(2112, is(&x.input, w[2 * i + 1]), "the second register of a module is its input offset, 0xFFFF is none");
    }
    sym::reach(1);
}

/// Category and channels of every type.
pub fn c22(case: usize) {
    if case == 0 {
        let i = sym::u8() as usize;
        sym::assume(i < N);
        let t = ALL_TYPES[i].clone();
        let n = t.channel_count();
        check!(2200, n == CHANNELS[i], "the number of channels of the type");
        let c: C = t.into();
        let mut right = false;
        for (j, (_, _, _, want, _)) in TYPES.iter().enumerate() {
            right |= (j == i) & (c == *want);
        }
        check!(2201, right, "the category of the type");
        sym::observe(n as u64);
        sym::reach(1);
        return;
    }
    // every module object
    let k = ALL[case - 1];
    let mut p = k.valid_params();
    let p16 = k == K::Com && sym::boolean();
    if k == K::Com {
        p[0] = p16 as u16;
    }
    let Ok(m) = k.build(&p) else {
        check!(2202, false, "valid parameters are accepted");
        return;
    };
    check!(2203, m.module_type() == k.ty(), "a module knows its type");
    check!(2204, m.process_input_byte_count() == k.in_bytes(p16), "the process input size of the module");
    check!(2205, m.process_output_byte_count() == k.out_bytes(p16), "the process output size of the module");
    // a module without process data in one direction accepts no data there
    if k.in_bytes(p16) == 0 {
        check!(2206, m.process_input_data(&[]).is_ok(), "no input data is fine for a module without inputs");
        check!(2207, m.process_input_data(&[sym::u16()]) == Err(Error::BufferLength), "a module without inputs refuses input data");
    }
    if k.out_bytes(p16) == 0 {
        check!(2208, m.process_output_data(&[]).is_ok(), "no output data is fine for a module without outputs");
        check!(2209, m.process_output_data(&[sym::u16()]) == Err(Error::BufferLength), "a module without outputs refuses output data");
        check!(2210, m.process_output_values(&[]) == Ok(vec![]), "a module without outputs has nothing to send");
    }
    sym::reach(2);
}

/// The module list registers.  case = number of registers
pub fn c22l(case: usize) {
    let w = if case <= 6 {
        sym::words(case)
    } else {
        // a long list with two arbitrary registers
        let mut w = vec![];
        for _ in 0..case / 2 {
            w.extend_from_slice(&[0x0009, 0x1F84]);
        }
        if case % 2 == 1 {
            w.push(0x0009);
        }
        let i = [0, 1, 30, 62][sym::choose(4)];
        w[i] = sym::u16();
        w[i + 1] = sym::u16();
        w
    };
    let r = module_list_from_registers(&w);
    if case == 0 || case % 2 == 1 {
        check!(2220, r == Err(Error::RegisterCount), "an empty or odd module list is refused");
        sym::reach(1);
        return;
    }
    match &r {
        Ok(l) => {
            check!(2221, l.len() == case / 2, "one type per two registers");
            for (i, t) in l.iter().enumerate() {
                let id = (w[2 * i] as u32) << 16 | w[2 * i + 1] as u32;
                check!(2222, id_matches(id, &Ok(t.clone())), "the identification number has its high word first");
            }
            sym::reach(2);
        }
        Err(e) => {
            let mut unknown = false;
            for i in 0..case / 2 {
                let id = (w[2 * i] as u32) << 16 | w[2 * i + 1] as u32;
                unknown |= id_matches(id, &Err(Error::UnknownModule));
            }
            check!(2223, unknown & (*e == Error::UnknownModule), "only an unknown module refuses the list");
            sym::reach(3);
        }
    }
}

/// Safety power feed status.  case: 0 module, 1 behind a single-byte module in a coupler
pub fn c23(case: usize) {
    let w = [sym::u16(), sym::u16()];
    let v = if case == 0 {
        let Ok(m) = K::Sil.build(&[]) else {
            check!(2300, false, "the parameters are accepted");
            return;
        };
        let Ok(v) = m.process_input_data(&w) else {
            check!(2301, false, "a complete image is decoded");
            return;
        };
        check!(2302, m.process_input_data(&w[..1]).is_err() & m.process_input_data(&[]).is_err(), "a short image is refused");
        v
    } else {
        let kinds = [K::Di4, K::Sil];
        let (o, ..) = packed_offsets(&kinds, false);
        let Ok(mut c) = coupler(&kinds, &o, &[vec![0; 4], vec![]]) else {
            check!(2303, false, "the coupler accepts the configuration");
            return;
        };
        let f = sym::u8();
        let x = [f as u16 | w[0] << 8, w[0] >> 8 | w[1] << 8, w[1] >> 8];
        if c.next(&x, &[]).is_err() {
            check!(2304, false, "the cycle succeeds");
            return;
        }
        c.inputs()[1].clone()
    };
    check!(2305, v.len() == 1, "one status");
    match &v[0] {
        ChannelValue::SilPFIn(s) => {
            let b = |i: u16| w[0] & (1 << i) != 0;
            check!(2306, s.safety_input == b(0), "safety input 0 is bit 0 of byte 0");
            check!(2307, s.autostart == b(2), "autostart is bit 2 of byte 0");
            check!(2308, s.manual_start == b(3), "manual start is bit 3 of byte 0");
            check!(2309, s.safety_input_channel_1 == b(4), "channel 1 is bit 4 of byte 0");
            check!(2310, s.safety_input_channel_2 == b(5), "channel 2 is bit 5 of byte 0");
            check!(2311, s.volt_24_safe_output == b(8), "24 V safe output is bit 0 of byte 1");
            check!(2312, s.volt_24_dc == b(10), "24 V DC is bit 2 of byte 1");
            sym::observe(s.safety_input as u64 | (s.volt_24_dc as u64) << 1);
            sym::reach(1);
        }
        _ => check!(2313, false, "the status of a safe power feed module"),
    }
}
