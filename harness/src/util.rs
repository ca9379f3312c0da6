pub fn show(b: &[u8]) -> String {
    let n = b.len().min(160);
    let mut s = b[..n].escape_ascii().to_string();
    if b.len() > n {
        s.push_str(&format!("...(+{})", b.len() - n));
    }
    s
}
/// First difference between two byte strings, for messages.
pub fn diff(a: &[u8], b: &[u8]) -> String {
    let k = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let s = k.saturating_sub(12);
    format!(
        "lengths {} vs {}, first difference at {}: {:?} vs {:?}",
        a.len(),
        b.len(),
        k,
        show(&a[s.min(a.len())..(k + 24).min(a.len())]),
        show(&b[s.min(b.len())..(k + 24).min(b.len())])
    )
}
pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h
}
pub fn hv(h: &http::HeaderMap) -> Vec<(String, Vec<u8>)> {
    h.iter().map(|(k, v)| (k.as_str().to_string(), v.as_bytes().to_vec())).collect()
}
