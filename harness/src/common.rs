//! The supported modules, described independently of the implementation
//! (from the UR20 register documentation), and helpers shared by the harnesses.
#![allow(dead_code)]

use crate::sym;
use ur20::ur20_fbc_mod_tcp::*;
use ur20::*;

pub type Res<T> = std::result::Result<T, Error>;
pub type DynMod = Box<dyn ProcessModbusTcpData>;

#[allow(non_camel_case_types)]
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Di4,
    Di8,
    Do4,
    Do4x2A,
    Do8,
    Do16,
    Ro4,
    Ao,
    AoDiag,
    Rtd,
    UiDiag,
    Ui12,
    Ui16,
    I8,
    Tc,
    Fcnt,
    Com,
    Sil,
}

pub const ALL: [K; 18] = [
    K::Di4,
    K::Di8,
    K::Do4,
    K::Do4x2A,
    K::Do8,
    K::Do16,
    K::Ro4,
    K::Ao,
    K::AoDiag,
    K::Rtd,
    K::UiDiag,
    K::Ui12,
    K::Ui16,
    K::I8,
    K::Tc,
    K::Fcnt,
    K::Com,
    K::Sil,
];

impl K {
    pub const fn ty(self) -> ModuleType {
        use ModuleType::*;
        match self {
            K::Di4 => UR20_4DI_P,
            K::Di8 => UR20_8DI_P_2W,
            K::Do4 => UR20_4DO_P,
            K::Do4x2A => UR20_4DO_P_2A,
            K::Do8 => UR20_8DO_P,
            K::Do16 => UR20_16DO_P,
            K::Ro4 => UR20_4RO_CO_255,
            K::Ao => UR20_4AO_UI_16,
            K::AoDiag => UR20_4AO_UI_16_DIAG,
            K::Rtd => UR20_4AI_RTD_DIAG,
            K::UiDiag => UR20_4AI_UI_16_DIAG,
            K::Ui12 => UR20_4AI_UI_12,
            K::Ui16 => UR20_4AI_UI_16,
            K::I8 => UR20_8AI_I_16_DIAG_HD,
            K::Tc => UR20_4AI_TC_DIAG,
            K::Fcnt => UR20_2FCNT_100,
            K::Com => UR20_1COM_232_485_422,
            K::Sil => UR20_PF_O_1DI_SIL,
        }
    }

    /// Number of parameter registers.
    pub const fn nparams(self) -> usize {
        match self {
            K::Di4 => 4,
            K::Di8 => 8,
            K::Do4 | K::Do4x2A | K::Ro4 => 4,
            K::Do8 => 8,
            K::Do16 | K::Sil => 0,
            K::Ao => 12,
            K::AoDiag => 16,
            K::Rtd | K::Tc => 29,
            K::UiDiag => 21,
            K::Ui12 | K::Ui16 => 9,
            K::I8 => 33,
            K::Fcnt => 2,
            K::Com => 10,
        }
    }

    /// Channels that carry a value in the input or output image.
    pub fn channels(self) -> usize {
        match self {
            K::Di4 | K::Do4 | K::Do4x2A | K::Ro4 => 4,
            K::Di8 | K::Do8 | K::I8 => 8,
            K::Do16 => 16,
            K::Ao | K::AoDiag | K::Rtd | K::UiDiag | K::Ui12 | K::Ui16 | K::Tc => 4,
            K::Fcnt => 2,
            K::Com => 1,
            K::Sil => 1,
        }
    }

    /// Process input bytes (COM: with `p16` the 16-byte process image).
    pub fn in_bytes(self, p16: bool) -> usize {
        match self {
            K::Di4 | K::Di8 => 1,
            K::Rtd | K::UiDiag | K::Ui12 | K::Ui16 | K::Tc => 8,
            K::I8 => 16,
            K::Fcnt => 20,
            K::Com => {
                if p16 {
                    16
                } else {
                    8
                }
            }
            K::Sil => 4,
            _ => 0,
        }
    }

    pub fn out_bytes(self, p16: bool) -> usize {
        match self {
            K::Do4 | K::Do4x2A | K::Do8 | K::Ro4 => 1,
            K::Do16 => 2,
            K::Ao | K::AoDiag => 8,
            K::Fcnt => 12,
            K::Com => {
                if p16 {
                    16
                } else {
                    8
                }
            }
            _ => 0,
        }
    }

    pub fn build(self, p: &[u16]) -> Res<DynMod> {
        fn bx<T: ProcessModbusTcpData + FromModbusParameterData + 'static>(p: &[u16]) -> Res<DynMod> {
            Ok(Box::new(T::from_modbus_parameter_data(p)?))
        }
        match self {
            K::Di4 => bx::<ur20_di_generic::Mod<ur20_di_generic::UR20_4DI_P>>(p),
            K::Di8 => bx::<ur20_di_generic::Mod<ur20_di_generic::UR20_8DI_P_2W>>(p),
            K::Do4 => bx::<ur20_do_generic::Mod<ur20_do_generic::UR20_4DO_P>>(p),
            K::Do4x2A => bx::<ur20_do_generic::Mod<ur20_do_generic::UR20_4DO_P_2A>>(p),
            K::Do8 => bx::<ur20_do_generic::Mod<ur20_do_generic::UR20_8DO_P>>(p),
            K::Do16 => bx::<ur20_16do_p::Mod>(p),
            K::Ro4 => bx::<ur20_4ro_co_255::Mod>(p),
            K::Ao => bx::<ur20_4ao_ui_16::Mod>(p),
            K::AoDiag => bx::<ur20_4ao_ui_16_diag::Mod>(p),
            K::Rtd => bx::<ur20_4ai_rtd_diag::Mod>(p),
            K::UiDiag => bx::<ur20_4ai_ui_16_diag::Mod>(p),
            K::Ui12 => bx::<ur20_ai_ui_generic::Mod<ur20_ai_ui_generic::UR20_4AI_UI_12>>(p),
            K::Ui16 => bx::<ur20_ai_ui_generic::Mod<ur20_ai_ui_generic::UR20_4AI_UI_16>>(p),
            K::I8 => bx::<ur20_8ai_i_16_diag_hd::Mod>(p),
            K::Tc => bx::<ur20_4ai_tc_diag::Mod>(p),
            K::Fcnt => bx::<ur20_2fcnt_100::Mod>(p),
            K::Com => bx::<ur20_1com_232_485_422::Mod>(p),
            K::Sil => bx::<ur20_pf_o_1di_sil::Mod>(p),
        }
    }

    /// For each parameter register the number of valid values (0: any value).
    pub fn param_domain(self) -> Vec<u32> {
        const ANY: u32 = 0x10000;
        let mut v = vec![];
        match self {
            K::Di4 | K::Di8 => {
                for _ in 0..self.channels() {
                    v.push(6);
                }
            }
            K::Do4 | K::Do4x2A | K::Do8 | K::Ro4 => {
                for _ in 0..self.channels() {
                    v.push(2);
                }
            }
            K::Do16 | K::Sil => {}
            K::Ao => {
                for _ in 0..4 {
                    v.extend_from_slice(&[2, 9, ANY]);
                }
            }
            K::AoDiag => {
                for _ in 0..4 {
                    v.extend_from_slice(&[2, 9, ANY, 2]);
                }
            }
            K::Rtd => {
                v.push(3);
                for _ in 0..4 {
                    v.extend_from_slice(&[19, 3, 6, 2, 2, ANY, ANY]);
                }
            }
            K::Tc => {
                v.push(3);
                for _ in 0..4 {
                    v.extend_from_slice(&[20, 5, 6, 2, 2, ANY, ANY]);
                }
            }
            K::UiDiag => {
                v.push(4);
                for _ in 0..4 {
                    v.extend_from_slice(&[2, 2, 2, 2, 9]);
                }
            }
            K::Ui12 | K::Ui16 => {
                v.push(4);
                for _ in 0..4 {
                    v.extend_from_slice(&[2, 9]);
                }
            }
            K::I8 => {
                v.push(4);
                for _ in 0..8 {
                    v.extend_from_slice(&[2, 2, 2, 3]);
                }
            }
            K::Fcnt => v.extend_from_slice(&[17, 17]),
            K::Com => v.extend_from_slice(&[2, 4, 12, 2, 3, 3, 2, 2, 256, 256]),
        }
        v
    }

    /// Arbitrary valid parameters.
    pub fn valid_params(self) -> Vec<u16> {
        let mut p = vec![];
        for n in self.param_domain() {
            let x = sym::u16();
            if n < 0x10000 {
                sym::assume((x as u32) < n);
            }
            p.push(x);
        }
        p
    }

    /// A fixed valid configuration.
    pub fn plain_params(self) -> Vec<u16> {
        let mut p = vec![0; self.nparams()];
        match self {
            // S7, 0..20 mA
            K::Ao => {
                for i in 0..4 {
                    p[3 * i] = 1;
                }
            }
            K::AoDiag => {
                for i in 0..4 {
                    p[4 * i] = 1;
                }
            }
            K::Ui12 | K::Ui16 => {
                for i in 0..4 {
                    p[1 + 2 * i] = 1;
                }
            }
            _ => {}
        }
        p
    }
}

pub fn coupler(kinds: &[K], offsets: &[u16], params: &[Vec<u16>]) -> Res<Coupler> {
    Coupler::new(&CouplerConfig {
        modules: kinds.iter().map(|k| k.ty()).collect(),
        offsets: offsets.to_vec(),
        params: params.to_vec(),
    })
}

pub const NONE: u16 = 0xFFFF;
pub const OUT: u16 = 0x8000;

/// Register content of the offset area for modules placed one after the other
/// with no gap (byte granularity), as the fieldbus coupler packs them.
pub fn packed_offsets(kinds: &[K], p16: bool) -> (Vec<u16>, usize, usize) {
    let mut o = vec![];
    let (mut ib, mut ob) = (0usize, 0usize);
    for k in kinds {
        let (n, m) = (k.in_bytes(p16), k.out_bytes(p16));
        o.push(if m == 0 { NONE } else { OUT + (ob as u16) * 8 });
        o.push(if n == 0 { NONE } else { (ib as u16) * 8 });
        ib += n;
        ob += m;
    }
    (o, ib, ob)
}

/// Byte `i` of a register image (little endian within a register).
pub fn byte_of(words: &[u16], i: usize) -> u8 {
    if i % 2 == 0 {
        (words[i / 2] & 0xff) as u8
    } else {
        (words[i / 2] >> 8) as u8
    }
}

pub fn word_of_bytes(lo: u8, hi: u8) -> u16 {
    (lo as u16) | ((hi as u16) << 8)
}

/// The registers a module's own `n` bytes starting at byte `at` make up.
pub fn own_words(image: &[u16], at: usize, n: usize) -> Vec<u16> {
    let mut v = vec![];
    let mut i = 0;
    while i < n {
        let lo = byte_of(image, at + i);
        let hi = if i + 1 < n { byte_of(image, at + i + 1) } else { 0 };
        v.push(word_of_bytes(lo, hi));
        i += 2;
    }
    v
}

pub fn is_bit(v: &ChannelValue, b: bool) -> bool {
    match v {
        ChannelValue::Bit(x) => *x == b,
        _ => false,
    }
}

/// |v - e| <= tol, evaluated in f64.
pub fn near(v: f32, e: f64, tol: f64) -> bool {
    let d = v as f64 - e;
    (d <= tol) & (d >= -tol)
}

pub fn observe_value(v: &ChannelValue) {
    match v {
        ChannelValue::Bit(b) => sym::observe(1 + *b as u64),
        ChannelValue::Decimal32(f) => sym::observe_f32(*f),
        ChannelValue::Disabled => sym::observe(3),
        ChannelValue::None => sym::observe(4),
        ChannelValue::Bytes(b) => {
            sym::observe(100 + b.len() as u64);
            for x in b {
                sym::observe(*x as u64);
            }
        }
        ChannelValue::ComRsIn(x) => {
            sym::observe(200 + x.data.len() as u64);
            sym::observe(x.rx_cnt as u64 | (x.tx_cnt_ack as u64) << 4);
        }
        ChannelValue::ComRsOut(x) => {
            sym::observe(300 + x.data.len() as u64);
            sym::observe(x.tx_cnt as u64 | (x.rx_cnt_ack as u64) << 4);
        }
        ChannelValue::FcntIn(x) => {
            sym::observe(x.count as u64);
        }
        ChannelValue::FcntOut(x) => {
            sym::observe(x.command.is_some() as u64);
        }
        ChannelValue::SilPFIn(x) => {
            sym::observe(x.safety_input as u64);
        }
        _ => {}
    }
}

pub fn observe_words(w: &[u16]) {
    sym::observe(w.len() as u64);
    for x in w {
        sym::observe(*x as u64);
    }
}
