use crate::check;
use crate::common::*;
use crate::sym;
use ur20::*;

const DIN: [K; 2] = [K::Di4, K::Di8];
const DOUT: [K; 5] = [K::Do4, K::Do4x2A, K::Do8, K::Do16, K::Ro4];

/// Digital inputs and outputs: channel i is bit i of the module's register.
pub fn c02(case: usize) {
    if case < 2 {
        let k = DIN[case];
        let m = match k.build(&k.valid_params()) {
            Ok(m) => m,
            Err(_) => {
                check!(200, false, "valid parameters are accepted");
                return;
            }
        };
        let w = sym::u16();
        match m.process_input_data(&[w]) {
            Ok(v) => {
                check!(201, v.len() == k.channels(), "one value per input channel");
                for (i, x) in v.iter().enumerate() {
                    check!(202, is_bit(x, (w >> i) & 1 == 1), "input channel i is bit i of its register");
                    observe_value(x);
                }
            }
            Err(_) => check!(203, false, "a complete input image is decoded"),
        }
        sym::reach(1);
        return;
    }
    let k = DOUT[case - 2];
    let n = k.channels();
    let m = match k.build(&k.valid_params()) {
        Ok(m) => m,
        Err(_) => {
            check!(204, false, "valid parameters are accepted");
            return;
        }
    };
    // decode
    let w = sym::u16();
    match m.process_output_data(&[w]) {
        Ok(v) => {
            check!(205, v.len() == n, "one value per output channel");
            for (i, x) in v.iter().enumerate() {
                check!(206, is_bit(x, (w >> i) & 1 == 1), "output channel i is bit i of its register");
                observe_value(x);
            }
        }
        Err(_) => check!(207, false, "a complete output image is decoded"),
    }
    // encode
    let mut vals = vec![];
    let mut expect = 0u16;
    for i in 0..n {
        let b = sym::boolean();
        vals.push(ChannelValue::Bit(b));
        expect |= (b as u16) << i;
    }
    match m.process_output_values(&vals) {
        Ok(r) => {
            check!(208, r.len() == 1, "one output register");
            check!(209, r[0] == expect, "bit i of the register is output channel i, other bits are zero");
            observe_words(&r);
        }
        Err(_) => check!(210, false, "digital values are encoded"),
    }
    // a disabled channel encodes as off
    let d = sym::choose(n);
    vals[d] = ChannelValue::Disabled;
    match m.process_output_values(&vals) {
        Ok(r) => check!(211, r.len() == 1 && r[0] == expect & !(1 << d), "a disabled channel is off"),
        Err(_) => check!(212, false, "a disabled channel is accepted"),
    }
    // any other kind of value is refused
    vals[d] = ChannelValue::Decimal32(1.0);
    check!(213, m.process_output_values(&vals).is_err(), "an analog value is refused by a digital output");
    vals[d] = ChannelValue::None;
    check!(214, m.process_output_values(&vals).is_err(), "a missing value is refused by a digital output");
    vals[d] = ChannelValue::Bit(sym::boolean());
    vals.pop();
    check!(215, m.process_output_values(&vals).is_err(), "too few values are refused");
    vals.push(ChannelValue::Bit(true));
    vals.push(ChannelValue::Bit(true));
    check!(216, m.process_output_values(&vals).is_err(), "too many values are refused");
    sym::reach(2);
}
