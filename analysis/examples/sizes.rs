// Tiny programs for the rules of C23: every bad_ function must be reported, no good_ function may be.
// The file is compiled for analysis only and never run.
use std::collections::HashMap;

pub fn bad_cast(v: &[f64]) -> u16 {
    v.len() as u16
}

pub fn bad_index(v: &[String]) -> HashMap<String, u16> {
    let mut m = HashMap::new();
    for (i, s) in v.iter().enumerate() {
        m.entry(s.clone()).or_insert(i as u16);
    }
    m
}

pub fn bad_counter(v: &[String]) -> HashMap<String, u16> {
    let mut m: HashMap<String, u16> = HashMap::new();
    for s in v {
        *m.entry(s.clone()).or_insert(0) += 1;
    }
    m
}

pub fn bad_plain_counter(v: &[i32]) -> u8 {
    let mut n = 0u8;
    for x in v {
        if *x > 3 {
            n += 1;
        }
    }
    n
}

pub fn bad_closure_counter(v: &[i32]) -> u8 {
    let mut n = 0u8;
    v.iter().for_each(|_| n += 1);
    n
}

pub fn bad_saturating(v: &[i32]) -> u8 {
    u8::try_from(v.len()).unwrap_or(u8::MAX)
}

pub fn bad_sum(v: &[u8]) -> u8 {
    v.iter().map(|_| 1u8).sum()
}

pub fn bad_fold(v: &[i32]) -> u8 {
    v.iter().fold(0u8, |a, _| a.wrapping_add(1))
}

pub fn bad_wrapping(v: &[i32]) -> u16 {
    let mut n = 0u16;
    for _ in v {
        n = n.wrapping_add(1);
    }
    n
}

fn size(v: &[i32]) -> usize {
    v.len() * 2
}

pub fn bad_through_helper(v: &[i32]) -> i16 {
    size(v) as i16
}

fn shrink(n: usize) -> u8 {
    n as u8
}

pub fn bad_argument(v: &[i32]) -> u8 {
    let n = v.iter().filter(|x| **x > 0).count();
    n as u8 + shrink(n)
}

pub fn bad_numbering(v: &[String]) -> Vec<(u8, String)> {
    (0u8..).zip(v.iter().cloned()).collect()
}

pub fn good_wide(v: &[String]) -> HashMap<String, usize> {
    let mut m = HashMap::new();
    for s in v {
        *m.entry(s.clone()).or_insert(0) += 1;
    }
    m
}

pub fn good_loud(v: &[i32]) -> u8 {
    u8::try_from(v.len()).expect("too many")
}

pub fn good_guarded(v: &[i32]) -> u8 {
    let n = v.len();
    assert!(n <= 255, "too many");
    n as u8
}

pub fn good_trace(m: &[[i8; 3]; 3]) -> i8 {
    let mut t = 0;
    for i in 0..3 {
        t += m[i][i];
    }
    t
}

pub fn good_axis(v: &[f64]) -> Vec<u8> {
    (0..v.len()).map(|i| (i % 3) as u8).collect()
}

pub fn good_attempts(mut x: f64) -> u8 {
    let mut n = 0u8;
    while x > 1.0 && n < 100 {
        x /= 2.0;
        n += 1;
    }
    n
}

pub fn good_entries(v: &[f64]) -> Vec<i8> {
    v.iter().map(|x| x.round() as i8).collect()
}
