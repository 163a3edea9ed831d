//! Parameter registers.
use crate::analog::{factor, ui_range};
use crate::check;
use crate::common::*;
use crate::sym;
use ur20::ur20_1com_232_485_422 as com;
use ur20::ur20_4ai_tc_diag as tc;
use ur20::ur20_fbc_mod_tcp::FromModbusParameterData;
use ur20::*;

const FORMAT: [DataFormat; 2] = [DataFormat::S5, DataFormat::S7];
const UI: [AnalogUIRange; 9] = {
    use AnalogUIRange::*;
    [mA0To20, mA4To20, V0To10, VMinus10To10, V0To5, VMinus5To5, V1To5, V2To10, Disabled]
};
const I: [AnalogIRange; 3] = [AnalogIRange::mA0To20, AnalogIRange::mA4To20, AnalogIRange::Disabled];
const RTD: [RtdRange; 19] = {
    use RtdRange::*;
    [
        PT100, PT200, PT500, PT1000, NI100, NI120, NI200, NI500, NI1000, Cu10, R40, R80, R150, R300, R500, R1000, R2000, R4000,
        Disabled,
    ]
};
const TC: [tc::MeasurementRange; 20] = {
    use tc::MeasurementRange::*;
    [
        TC_Type_J, TC_Type_K, TC_Type_N, TC_Type_R, TC_Type_S, TC_Type_T, TC_Type_B, TC_Type_C, TC_Type_E, TC_Type_L, TC_Type_U,
        uVPlusMinus15625, uVPlusMinus31250, uVPlusMinus62500, mVPlusMinus125, mVPlusMinus250, mVPlusMinus500, VPlusMinus1,
        VPlusMinus2, Disabled,
    ]
};
const CJC: [tc::ColdJunctionCompensation; 5] = {
    use tc::ColdJunctionCompensation::*;
    [Internal, ExternalChannel0, ExternalChannel1, ExternalChannel2, ExternalChannel3]
};
const UNIT: [TemperatureUnit; 3] = [TemperatureUnit::Celsius, TemperatureUnit::Fahrenheit, TemperatureUnit::Kelvin];
const CONN: [ConnectionType; 3] = [ConnectionType::TwoWire, ConnectionType::ThreeWire, ConnectionType::FourWire];
const CONV: [ConversionTime; 6] = {
    use ConversionTime::*;
    [ms240, ms130, ms80, ms55, ms43, ms36]
};
const FILTER: [InputFilter; 17] = {
    use InputFilter::*;
    [us5, us11, us21, us43, us83, us167, us333, us667, ms1, ms3, ms5, ms11, ms22, ms43, ms91, ms167, ms333]
};
const DELAY: [InputDelay; 6] = {
    use InputDelay::*;
    [no, us300, ms3, ms10, ms20, ms40]
};
const FREQ: [FrequencySuppression; 4] = {
    use FrequencySuppression::*;
    [Disabled, Hz50, Hz60, Average16]
};

/// `value` is entry `reg` of the table.
fn is<T: PartialEq>(table: &[T], reg: u16, value: &T) -> bool {
    let mut r = false;
    for (i, t) in table.iter().enumerate() {
        r |= (reg as usize == i) & (t == value);
    }
    r
}

fn flag(reg: u16, value: bool) -> bool {
    (reg == 1) == value
}

fn substitute(format: u16, range: u16, reg: u16, v: f32) -> bool {
    // a disabled channel has no substitute value
    match ui_range(range) {
        Some((span, off)) => near(v, reg as i16 as f64 * span / factor(format) + off, (2.0 * span + off) * 1e-6),
        None => true,
    }
}

/// Every register of a parameter area is decoded to its own setting, and a register
/// without meaning is refused.  case = kind
/// (analog outputs: + 18 * (1 + 9 * format + range of the first channel))
pub fn c14(case: usize) {
    let k = ALL[case % 18];
    let mut p = sym::words(k.nparams());
    let dom = k.param_domain();
    if matches!(k, K::Ao | K::AoDiag) && case >= 18 {
        let ch = case / 18 - 1;
        let w = if k == K::Ao { 3 } else { 4 };
        // the substitute value of one channel
        let (f, r) = (sym::choose(2), sym::choose(9));
        for i in 0..4 {
            p[w * i] = 0;
            p[w * i + 1] = 8;
        }
        p[w * ch] = f as u16;
        p[w * ch + 1] = r as u16;
    } else if matches!(k, K::Ao | K::AoDiag) {
        // see above
        for i in 0..4 {
            p[if k == K::Ao { 3 } else { 4 } * i + 2] = 0;
        }
    }
    let mut valid = true;
    for i in 0..p.len() {
        valid &= (p[i] as u32) < dom[i];
    }
    let mut right = true;
    let r: Res<()> = (|| {
        match k {
            K::Di4 => {
                let m = ur20_di_generic::Mod::<ur20_di_generic::UR20_4DI_P>::from_modbus_parameter_data(&p)?;
                right &= m.ch_params.len() == 4;
                for (i, c) in m.ch_params.iter().enumerate() {
                    right &= is(&DELAY, p[i], &c.input_delay);
                }
            }
            K::Di8 => {
                let m = ur20_di_generic::Mod::<ur20_di_generic::UR20_8DI_P_2W>::from_modbus_parameter_data(&p)?;
                right &= m.ch_params.len() == 8;
                for (i, c) in m.ch_params.iter().enumerate() {
                    right &= is(&DELAY, p[i], &c.input_delay);
                }
            }
            K::Do4 => {
                let m = ur20_do_generic::Mod::<ur20_do_generic::UR20_4DO_P>::from_modbus_parameter_data(&p)?;
                right &= m.ch_params.len() == 4;
                for (i, c) in m.ch_params.iter().enumerate() {
                    right &= flag(p[i], c.substitute_value);
                }
            }
            K::Do4x2A => {
                let m = ur20_do_generic::Mod::<ur20_do_generic::UR20_4DO_P_2A>::from_modbus_parameter_data(&p)?;
                right &= m.ch_params.len() == 4;
                for (i, c) in m.ch_params.iter().enumerate() {
                    right &= flag(p[i], c.substitute_value);
                }
            }
            K::Do8 => {
                let m = ur20_do_generic::Mod::<ur20_do_generic::UR20_8DO_P>::from_modbus_parameter_data(&p)?;
                right &= m.ch_params.len() == 8;
                for (i, c) in m.ch_params.iter().enumerate() {
                    right &= flag(p[i], c.substitute_value);
                }
            }
            K::Ro4 => {
                let m = ur20_4ro_co_255::Mod::from_modbus_parameter_data(&p)?;
                right &= m.ch_params.len() == 4;
                for (i, c) in m.ch_params.iter().enumerate() {
                    right &= flag(p[i], c.substitute_value);
                }
            }
            K::Do16 => {
                ur20_16do_p::Mod::from_modbus_parameter_data(&p)?;
            }
            K::Sil => {
                ur20_pf_o_1di_sil::Mod::from_modbus_parameter_data(&p)?;
            }
            K::Ao => {
                let m = ur20_4ao_ui_16::Mod::from_modbus_parameter_data(&p)?;
                right &= m.ch_params.len() == 4;
                for (i, c) in m.ch_params.iter().enumerate() {
                    let p = &p[3 * i..];
                    right &= is(&FORMAT, p[0], &c.data_format) & is(&UI, p[1], &c.output_range);
                    if case >= 18 {
                        right &= substitute(p[0], p[1], p[2], c.substitute_value);
                    }
                }
            }
            K::AoDiag => {
                let m = ur20_4ao_ui_16_diag::Mod::from_modbus_parameter_data(&p)?;
                right &= m.ch_params.len() == 4;
                for (i, c) in m.ch_params.iter().enumerate() {
                    let p = &p[4 * i..];
                    right &= is(&FORMAT, p[0], &c.data_format) & is(&UI, p[1], &c.output_range);
                    if case >= 18 {
                        right &= substitute(p[0], p[1], p[2], c.substitute_value);
                    }
                    right &= flag(p[3], c.channel_diagnostics);
                }
            }
            K::Rtd => {
                let m = ur20_4ai_rtd_diag::Mod::from_modbus_parameter_data(&p)?;
                right &= is(&UNIT, p[0], &m.mod_params.temperature_unit);
                right &= m.ch_params.len() == 4;
                for (i, c) in m.ch_params.iter().enumerate() {
                    let p = &p[1 + 7 * i..];
                    right &= is(&RTD, p[0], &c.measurement_range)
                        & is(&CONN, p[1], &c.connection_type)
                        & is(&CONV, p[2], &c.conversion_time)
                        & flag(p[3], c.channel_diagnostics)
                        & flag(p[4], c.limit_value_monitoring)
                        & (c.high_limit_value == p[5] as i16)
                        & (c.low_limit_value == p[6] as i16);
                }
            }
            K::Tc => {
                let m = tc::Mod::from_modbus_parameter_data(&p)?;
                right &= is(&UNIT, p[0], &m.mod_params.temperature_unit);
                right &= m.ch_params.len() == 4;
                for (i, c) in m.ch_params.iter().enumerate() {
                    let p = &p[1 + 7 * i..];
                    right &= is(&TC, p[0], &c.measurement_range)
                        & is(&CJC, p[1], &c.cold_junction_compensation)
                        & is(&CONV, p[2], &c.conversion_time)
                        & flag(p[3], c.channel_diagnostics)
                        & flag(p[4], c.limit_value_monitoring)
                        & (c.high_limit_value == p[5] as i16)
                        & (c.low_limit_value == p[6] as i16);
                }
            }
            K::UiDiag => {
                let m = ur20_4ai_ui_16_diag::Mod::from_modbus_parameter_data(&p)?;
                right &= is(&FREQ, p[0], &m.mod_params.frequency_suppression);
                right &= m.ch_params.len() == 4;
                for (i, c) in m.ch_params.iter().enumerate() {
                    let p = &p[1 + 5 * i..];
                    right &= flag(p[0], c.channel_diagnostics)
                        & flag(p[1], c.diag_short_circuit)
                        & flag(p[2], c.diag_line_break)
                        & is(&FORMAT, p[3], &c.data_format)
                        & is(&UI, p[4], &c.measurement_range);
                }
            }
            K::Ui12 => {
                let m = ur20_ai_ui_generic::Mod::<ur20_ai_ui_generic::UR20_4AI_UI_12>::from_modbus_parameter_data(&p)?;
                right &= is(&FREQ, p[0], &m.mod_params.frequency_suppression);
                right &= m.ch_params.len() == 4;
                for (i, c) in m.ch_params.iter().enumerate() {
                    let p = &p[1 + 2 * i..];
                    right &= is(&FORMAT, p[0], &c.data_format) & is(&UI, p[1], &c.measurement_range);
                }
            }
            K::Ui16 => {
                let m = ur20_ai_ui_generic::Mod::<ur20_ai_ui_generic::UR20_4AI_UI_16>::from_modbus_parameter_data(&p)?;
                right &= is(&FREQ, p[0], &m.mod_params.frequency_suppression);
                right &= m.ch_params.len() == 4;
                for (i, c) in m.ch_params.iter().enumerate() {
                    let p = &p[1 + 2 * i..];
                    right &= is(&FORMAT, p[0], &c.data_format) & is(&UI, p[1], &c.measurement_range);
                }
            }
            K::I8 => {
                let m = ur20_8ai_i_16_diag_hd::Mod::from_modbus_parameter_data(&p)?;
                right &= is(&FREQ, p[0], &m.mod_params.frequency_suppression);
                right &= m.ch_params.len() == 8;
                for (i, c) in m.ch_params.iter().enumerate() {
                    let p = &p[1 + 4 * i..];
                    right &= flag(p[0], c.channel_diagnostics)
                        & flag(p[1], c.diag_short_circuit)
                        & is(&FORMAT, p[2], &c.data_format)
                        & is(&I, p[3], &c.measurement_range);
                }
            }
            K::Fcnt => {
                let m = ur20_2fcnt_100::Mod::from_modbus_parameter_data(&p)?;
                right &= m.ch_params.len() == 2;
                for (i, c) in m.ch_params.iter().enumerate() {
                    right &= is(&FILTER, p[i], &c.input_filter);
                }
            }
            K::Com => {
                use com::*;
                let m = com::Mod::from_modbus_parameter_data(&p)?;
                right &= is(&[ProcessDataLength::EightBytes, ProcessDataLength::SixteenBytes], p[0], &m.mod_params.process_data_len);
                right &= m.ch_params.len() == 1;
                let c = &m.ch_params[0];
                {
                    use OperatingMode::*;
                    right &= is(&[Disabled, RS232, RS485, RS422], p[1], &c.operating_mode);
                }
                {
                    use BaudRate::*;
                    right &= is(
                        &[
                            Baud_300, Baud_600, Baud_1200, Baud_2400, Baud_4800, Baud_9600, Baud_14400, Baud_19200, Baud_28800,
                            Baud_38400, Baud_57600, Baud_115200,
                        ],
                        p[2],
                        &c.baud_rate,
                    );
                }
                right &= is(&[StopBit::OneBit, StopBit::TwoBits], p[3], &c.stop_bit);
                right &= is(&[Parity::None, Parity::Even, Parity::Odd], p[4], &c.parity);
                right &= is(&[FlowControl::None, FlowControl::CTS_RTS, FlowControl::XON_XOFF], p[5], &c.flow_control);
                right &= is(&[DataBits::SevenBits, DataBits::EightBits], p[6], &c.data_bits);
                right &= flag(p[7], c.terminating_resistor);
                right &= c.XON_char as u32 == p[8] as u32;
                right &= c.XOFF_char as u32 == p[9] as u32;
            }
        }
        Ok(())
    })();
    match r {
        Ok(()) => {
            check!(1400, valid, "a register without meaning is refused");
            check!(1401, right, "every register is decoded to its own setting");
            sym::reach(1);
        }
        Err(e) => {
            check!(1402, !valid, "valid registers are accepted");
            check!(1403, e == Error::ChannelParameter, "an invalid register is reported as such");
            sym::reach(2);
        }
    }
}

/// A parameter area that is too short is refused.  case = kind
pub fn c14s(case: usize) {
    let k = ALL[case];
    let n = sym::choose(k.nparams().max(1));
    let p = sym::words(n);
    if k.nparams() == 0 {
        check!(1410, k.build(&p).is_ok(), "no parameters are needed");
        let w = sym::words(1 + sym::choose(3));
        check!(1411, k.build(&w).is_err(), "a module without parameters refuses any");
    } else {
        check!(1412, k.build(&p).is_err(), "too few registers are refused");
    }
    sym::reach(1);
}
