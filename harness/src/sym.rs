//! Harness primitives.  Without the `native` feature they are free symbols that
//! the symbolic executor interprets; with it they replay a recorded input vector.

#[cfg(not(feature = "native"))]
mod imp {
    unsafe extern "C" {
        fn sym_u8() -> u8;
        fn sym_u16() -> u16;
        fn sym_u32() -> u32;
        fn sym_u64() -> u64;
        fn sym_bool() -> bool;
        fn sym_choose(n: u32) -> u32;
        fn sym_f32() -> f32;
        fn sym_f32_range(lo: f32, hi: f32) -> f32;
        fn sym_assume(b: bool);
        fn sym_assert(b: bool, id: u32);
        fn sym_reach(id: u32);
        fn sym_observe(v: u64);
        fn sym_observe_f32(v: f32);
    }
    #[inline(always)]
    pub fn u8() -> u8 {
        unsafe { sym_u8() }
    }
    #[inline(always)]
    pub fn u16() -> u16 {
        unsafe { sym_u16() }
    }
    #[inline(always)]
    pub fn u32() -> u32 {
        unsafe { sym_u32() }
    }
    #[inline(always)]
    pub fn u64() -> u64 {
        unsafe { sym_u64() }
    }
    #[inline(always)]
    pub fn boolean() -> bool {
        unsafe { sym_bool() }
    }
    #[inline(always)]
    pub fn choose(n: usize) -> usize {
        unsafe { sym_choose(n as u32) as usize }
    }
    #[inline(always)]
    pub fn f32_any() -> f32 {
        unsafe { sym_f32() }
    }
    #[inline(always)]
    pub fn f32_range(lo: f32, hi: f32) -> f32 {
        unsafe { sym_f32_range(lo, hi) }
    }
    #[inline(always)]
    pub fn assume(b: bool) {
        unsafe { sym_assume(b) }
    }
    #[inline(always)]
    pub fn assert_id(b: bool, id: u32) {
        unsafe { sym_assert(b, id) }
    }
    #[inline(always)]
    pub fn reach(id: u32) {
        unsafe { sym_reach(id) }
    }
    #[inline(always)]
    pub fn observe(v: u64) {
        unsafe { sym_observe(v) }
    }
    #[inline(always)]
    pub fn observe_f32(v: f32) {
        unsafe { sym_observe_f32(v) }
    }
}

#[cfg(feature = "native")]
mod imp {
    use std::cell::RefCell;
    thread_local! {
        static IN: RefCell<(Vec<(String, u64)>, usize)> = const { RefCell::new((vec![], 0)) };
    }
    pub fn load(path: &str) {
        let txt = std::fs::read_to_string(path).expect("input file");
        let v = txt
            .lines()
            .filter(|l| !l.trim().is_empty() && !l.starts_with('#'))
            .map(|l| {
                let mut p = l.split_whitespace();
                (
                    p.next().unwrap().to_string(),
                    p.next().unwrap().parse().expect("number"),
                )
            })
            .collect();
        IN.with(|i| *i.borrow_mut() = (v, 0));
    }
    fn take(kind: &str) -> u64 {
        IN.with(|i| {
            let mut i = i.borrow_mut();
            let k = i.1;
            i.1 += 1;
            match i.0.get(k) {
                Some((kk, v)) if kk == kind => *v,
                Some((kk, _)) => {
                    println!("DESYNC want {kind} have {kk} at {k}");
                    std::process::exit(4);
                }
                None => {
                    println!("DESYNC want {kind} have nothing at {k}");
                    std::process::exit(4);
                }
            }
        })
    }
    pub fn u8() -> u8 {
        take("u8") as u8
    }
    pub fn u16() -> u16 {
        take("u16") as u16
    }
    pub fn u32() -> u32 {
        take("u32") as u32
    }
    pub fn u64() -> u64 {
        take("u64")
    }
    pub fn boolean() -> bool {
        take("bool") != 0
    }
    pub fn choose(n: usize) -> usize {
        let v = take("choose") as usize;
        if v >= n {
            println!("DESYNC choose {v} of {n}");
            std::process::exit(4);
        }
        v
    }
    pub fn f32_any() -> f32 {
        f32::from_bits(take("f32") as u32)
    }
    pub fn f32_range(lo: f32, hi: f32) -> f32 {
        let v = f32::from_bits(take("f32") as u32);
        assume(v >= lo && v <= hi);
        v
    }
    pub fn assume(b: bool) {
        if !b {
            println!("ASSUME-FALSE");
            std::process::exit(3);
        }
    }
    pub fn assert_id(b: bool, id: u32) {
        if !b {
            println!("ASSERT {id}");
            std::process::exit(10);
        }
    }
    pub fn reach(id: u32) {
        println!("REACH {id}");
    }
    pub fn observe(v: u64) {
        println!("OBS {v}");
    }
    pub fn observe_f32(v: f32) {
        println!("OBS {}", v.to_bits());
    }
}

pub use imp::*;

/// `check!(id, condition, "what the condition says")`
#[macro_export]
macro_rules! check {
    ($id:expr, $c:expr, $msg:literal) => {{
        let ok: bool = $c;
        #[cfg(feature = "native")]
        if !ok {
            println!("MSG {}", $msg);
        }
        $crate::sym::assert_id(ok, $id);
    }};
}

/// Path ends here when the condition is false.
#[inline(always)]
pub fn below16(n: u16) -> u16 {
    let v = u16();
    assume(v < n);
    v
}

pub fn words(n: usize) -> Vec<u16> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(u16());
    }
    v
}

pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(u8());
    }
    v
}

/// One boolean without a branch.
#[inline(always)]
pub fn and(a: bool, b: bool) -> bool {
    a & b
}
