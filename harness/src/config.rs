//! Coupler configuration.
use crate::check;
use crate::common::*;
use crate::sym;
use ur20::ur20_fbc_mod_tcp::*;
use ur20::*;

/// The lists of a configuration must fit.  case = number of modules
pub fn c17v(case: usize) {
    let no = sym::choose(2 * case + 3);
    let np = sym::choose(case + 2);
    let modules = vec![ModuleType::UR20_4DI_P; case];
    let offsets = sym::words(no);
    let params = vec![vec![0u16; 4]; np];
    let r = Coupler::new(&CouplerConfig { modules, offsets, params });
    check!(1700, r.is_ok() == (np == case && no == 2 * case), "one parameter list and two offsets per module");
    match r {
        Ok(c) => {
            check!(1701, c.inputs().is_empty() && c.outputs().is_empty(), "no values before the first cycle");
            sym::reach(1);
        }
        Err(_) => sym::reach(2),
    }
}

/// Three modules of one kind, each with its own parameters.  case = kind
pub fn c17p(case: usize) {
    let k = ALL[case];
    let kinds = [k, k, k];
    let (o, ib, ob) = packed_offsets(&kinds, false);
    let dom = k.param_domain();
    let p: Vec<Vec<u16>> = (0..3)
        .map(|_| {
            let mut p = k.plain_params();
            for i in 0..p.len() {
                // the settings that matter for the values
                let used = match k {
                    K::Ao => i % 3 == 1,
                    K::AoDiag => i % 4 == 1,
                    K::UiDiag => i % 5 == 0,
                    K::Ui12 | K::Ui16 => i % 2 == 0,
                    K::I8 => i % 4 == 0,
                    K::Rtd | K::Tc => i % 7 == 1,
                    _ => false,
                };
                if used && i > 0 && i <= 5 {
                    p[i] = if sym::boolean() { dom[i] as u16 - 1 } else { 0 };
                }
            }
            p
        })
        .collect();
    let Ok(mut c) = coupler(&kinds, &o, &p) else {
        check!(1710, false, "the coupler accepts the configuration");
        return;
    };
    let input = sym::words(ib.div_ceil(2));
    let mut output = sym::words(ob.div_ceil(2));
    if k == K::Fcnt {
        for i in 0..3 {
            output[6 * i] &= 0x7f;
            output[6 * i + 2] &= 0x7f;
        }
    }
    let mut input = input;
    if k == K::Com {
        for i in 0..3 {
            input[4 * i] = input[4 * i] & 0xff | 0x200;
            output[4 * i] &= 0xff;
        }
    }
    if c.next(&input, &output).is_err() {
        check!(1711, false, "a cycle with complete images succeeds");
        return;
    }
    if k == K::Com {
        sym::reach(1);
        return;
    }
    let (n, m) = (k.in_bytes(false), k.out_bytes(false));
    for i in 0..3 {
        let Ok(md) = k.build(&p[i]) else {
            check!(1712, false, "the parameters are accepted");
            return;
        };
        if n > 0 {
            let Ok(v) = md.process_input_data(&own_words(&input, n * i, n)) else {
                check!(1713, false, "the module's input is decoded");
                return;
            };
            let w = &c.inputs()[i];
            check!(1714, v.len() == w.len(), "the module's input values");
            for j in 0..v.len() {
                check!(1715, crate::layout::same_value(&v[j], &w[j]), "module i is decoded with parameter list i");
            }
        }
        if m > 0 {
            let Ok(v) = md.process_output_data(&own_words(&output, m * i, m)) else {
                check!(1716, false, "the module's output is decoded");
                return;
            };
            let w = &c.outputs()[i];
            check!(1717, v.len() == w.len(), "the module's output values");
            for j in 0..v.len() {
                check!(1718, crate::layout::same_value(&v[j], &w[j]), "module i is decoded with parameter list i");
            }
        }
    }
    sym::reach(1);
}

/// An invalid parameter list of any module refuses the configuration.
/// case = kind; the position and the register are arbitrary
pub fn c17i(case: usize) {
    let k = ALL[case];
    let kinds = [k, k];
    let (o, ..) = packed_offsets(&kinds, false);
    let mut p = [k.plain_params(), k.plain_params()];
    let which = sym::choose(2);
    let dom = k.param_domain();
    let bad;
    if dom.is_empty() {
        p[which] = sym::words(sym::choose(3));
        bad = !p[which].is_empty();
    } else if sym::boolean() {
        let n = sym::choose(dom.len());
        p[which].truncate(n);
        bad = true;
    } else {
        let i = sym::choose(dom.len());
        p[which][i] = sym::u16();
        bad = p[which][i] as u32 >= dom[i];
    }
    let r = coupler(&kinds, &o, &p);
    check!(1720, r.is_err() == bad, "a coupler exists exactly if all parameters are valid");
    match r {
        Ok(_) => sym::reach(1),
        Err(_) => sym::reach(2),
    }
}
