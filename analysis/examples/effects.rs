// Tiny programs for the rules of C21: every bad_ function must be reported, no good_ function may be.
// The file is compiled for analysis only and never run.
use std::collections::{BTreeMap, HashMap, HashSet};

pub static COUNTER: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

pub fn bad_clock(x: f64) -> f64 {
    x + std::time::Instant::now().elapsed().as_secs_f64()
}

pub fn bad_environment(x: f64) -> f64 {
    std::env::var("TOLERANCE").ok().and_then(|s| s.parse().ok()).unwrap_or(x)
}

pub fn bad_file(name: &str) -> usize {
    std::fs::read_to_string(name).map(|s| s.len()).unwrap_or(0)
}

pub fn bad_state() -> usize {
    COUNTER.fetch_add(1, std::sync::atomic::Ordering::SeqCst)
}

thread_local! { static LAST: std::cell::Cell<f64> = std::cell::Cell::new(0.0); }

pub fn bad_memory(x: f64) -> f64 {
    LAST.with(|l| l.replace(x))
}

pub fn bad_random(x: &str) -> u64 {
    use std::hash::BuildHasher;
    std::collections::hash_map::RandomState::new().hash_one(x)
}

pub fn bad_first_call_wins(x: f64) -> f64 {
    static FIRST: std::sync::OnceLock<f64> = std::sync::OnceLock::new();
    *FIRST.get_or_init(|| x)
}

pub fn good_table(x: usize) -> f64 {
    static TABLE: std::sync::OnceLock<Vec<f64>> = std::sync::OnceLock::new();
    TABLE.get_or_init(|| vec![1.0, 2.0])[x]
}

pub fn good_lazy(x: usize) -> f64 {
    static TABLE: std::sync::LazyLock<Vec<f64>> = std::sync::LazyLock::new(|| vec![1.0, 2.0]);
    TABLE[x]
}

pub fn bad_thread() -> String {
    format!("{:?}", std::thread::current().id())
}

pub fn bad_collect(m: &HashMap<String, usize>) -> Vec<String> {
    m.keys().cloned().collect()
}

pub fn bad_from_iter(s: HashSet<u32>) -> Vec<u32> {
    Vec::from_iter(s)
}

pub fn bad_push(s: &HashSet<u32>) -> Vec<u32> {
    let mut v = Vec::new();
    for x in s {
        if *x > 3 {
            v.push(*x);
        }
    }
    v
}

pub fn bad_for_each(m: &HashMap<String, usize>) -> String {
    let mut out = String::new();
    m.iter().for_each(|(k, v)| {
        out.push_str(k);
        out.push_str(&v.to_string());
    });
    out
}

pub fn bad_first(s: &HashSet<u32>) -> Option<u32> {
    s.iter().next().copied()
}

pub fn bad_tie(m: &HashMap<String, usize>) -> String {
    m.iter().min_by_key(|(_, n)| **n).unwrap().0.clone()
}

pub fn bad_partial_sort(m: HashMap<String, usize>) -> Vec<(String, usize)> {
    let mut v: Vec<(String, usize)> = m.into_iter().collect();
    v.sort_by(|a, b| a.1.cmp(&b.1));
    v
}

pub fn bad_last(m: &HashMap<String, usize>) -> String {
    let mut best = 0;
    let mut name = String::new();
    for (k, n) in m {
        if *n > best {
            best = *n;
            name = k.clone();
        }
    }
    name
}

pub fn bad_float_sum(m: &HashMap<u32, f64>) -> f64 {
    m.values().sum()
}

fn keys(m: &HashMap<String, usize>) -> Vec<String> {
    m.keys().cloned().collect()
}

pub fn bad_through_helper(m: &HashMap<String, usize>) -> Vec<String> {
    keys(m)
}

pub fn bad_find(s: &HashSet<u32>) -> u32 {
    for x in s.iter() {
        if *x % 2 == 0 {
            return *x;
        }
    }
    0
}

pub struct Holder {
    pub list: Vec<u32>,
}

impl Holder {
    pub fn fill(&mut self, s: &HashSet<u32>) {
        self.list = s.iter().copied().collect();
    }
}

pub fn bad_debug(m: &HashMap<u32, u32>) -> String {
    format!("{:?}", m)
}

pub fn bad_in_closure(v: &[HashSet<u32>]) -> Vec<u32> {
    v.iter().map(|s| *s.iter().next().unwrap()).collect()
}

pub fn bad_field(s: &HashSet<u32>) -> Holder {
    let list: Vec<u32> = s.iter().copied().collect();
    Holder { list }
}

pub fn bad_branch(s: &HashSet<u32>) -> u32 {
    let v: Vec<u32> = s.iter().copied().collect();
    if v[0] > 3 {
        1
    } else {
        2
    }
}

pub fn good_sorted(s: &HashSet<u32>) -> Vec<u32> {
    let mut v: Vec<u32> = s.iter().copied().collect();
    v.sort();
    v
}

pub fn good_helper_sorted(m: &HashMap<String, usize>) -> Vec<String> {
    let mut v = keys(m);
    v.sort_unstable();
    v
}

pub fn good_by_key(m: HashMap<String, usize>) -> Vec<(String, usize)> {
    let mut v: Vec<(String, usize)> = m.into_iter().collect();
    v.sort_by(|a, b| a.0.cmp(&b.0));
    v
}

pub fn good_count_then_key(m: &HashMap<String, usize>) -> String {
    m.iter().min_by_key(|(k, n)| (**n, (*k).clone())).unwrap().0.clone()
}

pub fn good_all(m: &HashMap<String, usize>) -> bool {
    m.values().all(|n| *n % 2 == 0)
}

pub fn good_sum(m: &HashMap<String, usize>) -> usize {
    m.values().sum()
}

pub fn good_loop_sum(m: &HashMap<String, usize>) -> usize {
    let mut n = 0;
    for (_, k) in m {
        n += *k;
    }
    n
}

pub fn good_loop_max(m: &HashMap<String, usize>) -> usize {
    let mut n = 0;
    for (_, k) in m {
        if *k > n {
            n = *k;
        }
    }
    n
}

pub fn good_set_to_set(s: &HashSet<u32>) -> HashSet<u32> {
    let mut t = HashSet::new();
    for x in s {
        t.insert(*x + 1);
    }
    t
}

pub fn good_ordered(m: &BTreeMap<String, usize>) -> Vec<String> {
    m.keys().cloned().collect()
}

pub fn good_lookup(m: &HashMap<String, usize>, names: &[String]) -> Vec<usize> {
    names.iter().map(|n| *m.get(n).unwrap()).collect()
}

pub fn good_tree(m: &HashMap<String, usize>) -> Vec<(String, usize)> {
    let t: BTreeMap<String, usize> = m.clone().into_iter().collect();
    t.into_iter().collect()
}

pub fn good_flag(s: &HashSet<u32>) -> bool {
    let mut found = false;
    for x in s {
        if *x == 3 {
            found = true;
            break;
        }
    }
    found
}

pub fn good_early_return(s: &HashSet<u32>) -> bool {
    for x in s {
        if *x == 3 {
            return true;
        }
    }
    false
}
