use std::hash::{Hash, Hasher};

/// Hash which is stable between runs
pub fn hash_of<T: Hash + ?Sized>(value: &T) -> u64 {
    #[allow(deprecated)]
    let mut hasher = std::hash::SipHasher::new_with_keys(1, 2);
    value.hash(&mut hasher);
    hasher.finish()
}

/// All permutations of `0..n`
pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    fn go(rest: &mut Vec<usize>, current: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if rest.is_empty() {
            out.push(current.clone());
            return;
        }
        for i in 0..rest.len() {
            let item = rest.remove(i);
            current.push(item);
            go(rest, current, out);
            current.pop();
            rest.insert(i, item);
        }
    }
    let mut out = Vec::new();
    go(&mut (0..n).collect(), &mut Vec::new(), &mut out);
    out
}

/// Pseudo random bytes for payloads. Never used to choose what is explored
pub fn filler(seed: u64, len: usize) -> Vec<u8> {
    let mut x = seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1;
    (0..len)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            (x >> 24) as u8
        })
        .collect()
}
