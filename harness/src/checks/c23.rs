//! C23: no undefined behaviour. The cases of the other checks run in builds whose
//! instrumentation sees invalid accesses and uninitialised bytes (AddressSanitizer,
//! MemorySanitizer, Miri), with programs over the buffer types and the checked downcasts of
//! their own. Only what the instrumentation (or the model of the buffer) reports counts here:
//! what hyper did is for the other checks to judge.
use crate::report::*;
use crate::rng::{mix, Rng};
use crate::util::fnv;
use hyper::rt::{ReadBuf, ReadBufCursor, Sleep};
use std::future::Future;
use std::mem::MaybeUninit;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::task::{Context, Poll};

pub const CHECK: Check = Check {
    id: "C23",
    level: "exploration",
    rule: "a case is one case of another check (HTTP/1 and HTTP/2, both roles, valid, random and hostile input, upgrades and tunnels, header case, faults) over transports that fill the read buffer by put_slice, by raw pointer and by initialize_unfilled; or a random program over ReadBuf and ReadBufCursor judged against a model; or upgrades and timers downcast to right and wrong types: built with AddressSanitizer, MemorySanitizer or run by Miri; distinct as the other check says, or by the program's trace",
    quick: 4000,
    thorough: 400_000,
    run: case,
    assumptions: &["AddressSanitizer sees invalid accesses between allocations and MemorySanitizer uninitialised bytes that decide something; aliasing rules are judged by Miri only, on a small workload", "the harness's own raw writes are as the buffer's documentation asks"],
};

const INNER: &[(&str, usize)] = &[("C01", 10), ("C22", 14), ("C05", 10), ("C14", 10), ("C15", 8), ("C21", 10), ("C28", 10), ("C03", 4), ("C06", 5), ("C07", 4), ("C08", 3), ("C16", 4), ("C17", 3), ("C18", 2), ("C19", 2), ("C26", 3), ("C29", 5), ("C30", 4), ("C02", 5), ("C10", 2), ("C13", 2)];
fn inner(ctx: &Ctx, r: &mut Rng) -> CaseOut {
    let mut out = CaseOut::default();
    let list = INNER;
    let mut x = r.below(list.iter().map(|l| l.1).sum());
    let mut id = "";
    for (i, w) in list {
        id = i;
        if x < *w {
            break;
        }
        x -= w;
    }
    let Some(c) = super::all().into_iter().find(|c| c.id == id) else { panic!("no check {id}") };
    let c2 = Ctx { seed: r.next(), index: ctx.index, thorough: false, trace: false };
    match catch_unwind(AssertUnwindSafe(|| (c.run)(&c2))) {
        Ok(o) => {
            out.nontrivial = o.nontrivial;
            out.sig = mix(fnv(id.as_bytes()), o.sig);
            out.count("exchanging_cases", 1);
            for (k, v) in o.counts {
                if matches!(k, "events" | "body_bytes" | "tunnel_bytes" | "accepted" | "refused" | "tunnels") {
                    out.count(k, v);
                }
            }
            if ctx.index < 6 || ctx.trace {
                out.desc = Some(format!("{id} case {}: {}", c2.seed, o.desc.unwrap_or_default()));
            }
        }
        Err(_) => {
            let _ = take_panic();
            out.count("panicked", 1);
        }
    }
    out
}

/// One program over a ReadBuf, against a model that knows each byte that was initialised.
fn readbuf(ctx: &Ctx, r: &mut Rng) -> CaseOut {
    let mut out = CaseOut::default();
    let cap = if r.pct(10) { 0 } else { r.range(1, if cfg!(miri) { 40 } else { 200 }) };
    let given = r.pct(40);
    let junk: Vec<u8> = (0..cap).map(|_| r.below(256) as u8).collect();
    let mut a = junk.clone();
    let mut b: Vec<MaybeUninit<u8>> = (0..cap).map(|_| MaybeUninit::uninit()).collect();
    let mut buf = if given { ReadBuf::new(&mut a) } else { ReadBuf::uninit(&mut b) };
    // the bytes of the backing store, where initialised
    let mut model: Vec<Option<u8>> = if given { junk.iter().map(|x| Some(*x)).collect() } else { vec![None; cap] };
    let mut init = if given { cap } else { 0 };
    let mut filled = 0;
    let mut trace = vec![format!("capacity {cap} initialised {given}")];
    let mut bad: Option<String> = None;
    for _ in 0..r.range(1, 6) {
        let mut cur: ReadBufCursor<'_> = buf.unfilled();
        for _ in 0..r.range(0, 6) {
            let rem = cap - filled;
            if cur.remaining() != rem {
                bad.get_or_insert(format!("remaining {} of {rem}", cur.remaining()));
            }
            match r.below(7) {
                0 | 1 => {
                    let n = if r.pct(20) { rem } else { r.range(0, rem) };
                    let d: Vec<u8> = (0..n).map(|_| r.below(256) as u8).collect();
                    trace.push(format!("put_slice {n}"));
                    cur.put_slice(&d);
                    d.iter().enumerate().for_each(|(i, x)| model[filled + i] = Some(*x));
                    filled += n;
                    init = init.max(filled);
                }
                2 => {
                    // by raw pointer, perhaps more than is then advanced over
                    let n = r.range(0, rem);
                    let adv = r.range(0, n);
                    trace.push(format!("raw {n} advance {adv}"));
                    unsafe {
                        let s = cur.as_mut();
                        if s.len() != rem {
                            bad.get_or_insert(format!("as_mut gives {} of {rem}", s.len()));
                        }
                        for (i, x) in s.iter_mut().take(n).enumerate() {
                            let v = r.below(256) as u8;
                            x.write(v);
                            model[filled + i] = Some(v);
                        }
                        cur.advance(adv);
                    }
                    filled += adv;
                    init = init.max(filled);
                }
                3 | 4 => {
                    let all = r.pct(50);
                    let n = if all { rem } else { r.range(0, rem) };
                    let s = if all { cur.initialize_unfilled() } else { cur.initialize_unfilled_to(n) };
                    trace.push(format!("initialize_unfilled_to {n}"));
                    if s.len() != n {
                        bad.get_or_insert(format!("initialize_unfilled_to({n}) gives {}", s.len()));
                    }
                    for i in 0..n {
                        // (reading is what makes an uninitialised byte show)
                        let x = s[i];
                        let want = if filled + i < init { model[filled + i] } else { Some(0) };
                        match want {
                            Some(w) if x != w => {
                                bad.get_or_insert(format!("byte {i} is {x}, not the {w} it was"));
                            }
                            _ => {}
                        }
                        model[filled + i] = Some(x);
                    }
                    init = init.max(filled + n);
                    let wr = r.range(0, n);
                    for (i, x) in s.iter_mut().take(wr).enumerate() {
                        *x = r.below(256) as u8;
                        model[filled + i] = Some(*x);
                    }
                    let adv = if r.pct(60) { r.range(0, n) } else { 0 };
                    unsafe { cur.advance(adv) };
                    trace.push(format!("wrote {wr} advanced {adv}"));
                    filled += adv;
                }
                5 => {
                    let n = rem + r.range(1, 3);
                    let to = r.pct(50);
                    trace.push(format!("too much: {n}"));
                    let d = vec![1u8; n];
                    let res = catch_unwind(AssertUnwindSafe(|| {
                        if to {
                            cur.initialize_unfilled_to(n);
                        } else {
                            cur.put_slice(&d)
                        }
                    }));
                    let _ = take_panic();
                    if res.is_ok() {
                        bad.get_or_insert(format!("accepted {n} bytes in a room of {rem}"));
                    }
                }
                _ => {
                    let _ = format!("{cur:?}");
                }
            }
            if bad.is_some() {
                break;
            }
        }
        let f = buf.filled();
        let want: Vec<Option<u8>> = model[..filled].to_vec();
        if f.len() != filled || f.iter().zip(&want).any(|(x, w)| Some(*x) != *w) {
            bad.get_or_insert(format!("filled() is {f:?}, not {want:?}"));
        }
        let _ = format!("{buf:?}");
        if bad.is_some() {
            break;
        }
    }
    out.count("buffer_programs", 1);
    out.count("buffer_operations", trace.len() as u64);
    out.nontrivial = filled > 0;
    out.sig = fnv(format!("{trace:?}").as_bytes());
    if let Some(b) = bad {
        out.viol(format!("ReadBuf: {b}; program {trace:?}"));
    }
    if ctx.trace || ctx.index < 6 {
        out.desc = Some(format!("{trace:?}"));
    }
    out
}

struct S1([u64; 4]);
struct S2(Box<u32>, [u8; 3]);
impl Future for S1 {
    type Output = ();
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
        Poll::Pending
    }
}
impl Future for S2 {
    type Output = ();
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
        Poll::Pending
    }
}
impl Sleep for S1 {}
impl Sleep for S2 {}

fn downcasts(r: &mut Rng) -> CaseOut {
    let mut out = CaseOut::default();
    let k = r.next();
    let one = r.pct(50);
    let mut s: Pin<Box<dyn Sleep>> = if one { Box::pin(S1([k; 4])) } else { Box::pin(S2(Box::new(k as u32), [k as u8; 3])) };
    for _ in 0..r.range(1, 4) {
        if r.pct(50) {
            match s.as_mut().downcast_mut_pin::<S1>() {
                Some(x) if !one || x.0 != [k; 4] => out.viol("a timer was taken for another type".to_string()),
                None if one => out.viol("a timer was not recognised".to_string()),
                _ => {}
            }
        } else {
            match s.as_mut().downcast_mut_pin::<S2>() {
                Some(_) if one => out.viol("a timer was taken for another type".to_string()),
                Some(x) if *x.0 != k as u32 || x.1 != [k as u8; 3] => out.viol("a timer's content changed".to_string()),
                None if !one => out.viol("a timer was not recognised".to_string()),
                _ => {}
            }
        }
    }
    let up = crate::duel::upgraded(&format!("{k}"));
    let steps = r.range(0, 3);
    let mut up = up;
    for _ in 0..steps {
        up = if r.pct(50) {
            match up.downcast::<crate::duel::Other>() {
                Ok(_) => {
                    out.viol("an upgraded transport was taken for another type".to_string());
                    return out;
                }
                Err(u) => u,
            }
        } else {
            match up.downcast::<Box<crate::duel::DIo>>() {
                Ok(_) => {
                    out.viol("an upgraded transport was taken for a box of it".to_string());
                    return out;
                }
                Err(u) => u,
            }
        };
    }
    match up.downcast::<crate::duel::DIo>() {
        Ok(p) => {
            if &p.read_buf[..] != format!("{k}").as_bytes() || !p.io.was_upgraded() {
                out.viol(format!("taken apart: {:?}", p.read_buf));
            }
        }
        Err(_) => out.viol("an upgraded transport was not recognised".to_string()),
    }
    out.count("downcasts", 2 + steps as u64);
    out.nontrivial = true;
    out.sig = k;
    out
}

fn small(ctx: &Ctx, r: &mut Rng) -> CaseOut {
    let mut out = CaseOut::default();
    match catch_unwind(AssertUnwindSafe(|| crate::tiny::run(r))) {
        Ok((sig, d)) => {
            out.sig = sig;
            out.nontrivial = true;
            out.count("small_exchanges", 1);
            if ctx.trace || ctx.index < 6 {
                out.desc = Some(d);
            }
        }
        Err(_) => {
            let p = take_panic().unwrap_or_default();
            if p.0.starts_with("src/") || p.0.contains("/verif/") {
                panic!("{}: {}", p.0, p.1);
            }
            out.count("panicked", 1);
        }
    }
    out
}
fn duels(r: &mut Rng) -> CaseOut {
    use crate::duel::*;
    let mut out = CaseOut::default();
    let n = if cfg!(miri) { 3 } else { 20 };
    let (_, sig, _) = duel(r.range(0, KINDS - 1), r.next(), n);
    out.count("duels", n);
    out.nontrivial = true;
    out.sig = sig;
    out
}
fn case(ctx: &Ctx) -> CaseOut {
    let mut r = Rng::new(ctx.seed);
    let k = if cfg!(miri) { r.below(14) } else { r.below(60) };
    match k {
        0..=2 => readbuf(ctx, &mut r),
        3 => downcasts(&mut r),
        4..=5 => duels(&mut r),
        6..=13 => small(ctx, &mut r),
        _ => inner(ctx, &mut r),
    }
}
