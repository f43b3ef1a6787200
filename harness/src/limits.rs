//! What the client's calls refuse for being too long (P11): lengths around 65,535 bytes.
use crate::rng::Rng;
use crate::{Found, Search};
use ruq::{Client, Property, PublishBuilder, QoS};
use std::panic::{catch_unwind, AssertUnwindSafe};

const MAX: usize = 65535;

/// `sub N`, `unsub N`, or `pubs|pubb N ITEM…` with ITEM one of f e rN cN uN,N: N bytes of a field
fn text(n: usize, wide: bool) -> String {
    if wide && n >= 2 {
        // two-byte characters, so that bytes and characters are different counts
        let mut s = "é".repeat(n / 2);
        if n % 2 == 1 {
            s.push('a');
        }
        s
    } else {
        "a".repeat(n)
    }
}

pub fn run(case: &str) -> Result<(), String> {
    let f: Vec<&str> = case.split_whitespace().collect();
    let (kind, wide, topic) = (f[1], f[2] == "w", f[3].parse::<usize>().unwrap());
    let mut fits = topic <= MAX;
    let items: Vec<(char, Vec<usize>)> =
        f[4..].iter().map(|x| (x.chars().next().unwrap(), x[1..].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect())).collect();
    for (_, ns) in &items {
        fits &= ns.iter().all(|n| *n <= MAX);
    }
    let r = catch_unwind(AssertUnwindSafe(|| {
        let (mut client, evloop, _rx) = Client::new("127.0.0.1:1");
        let t = text(topic, wide);
        let r = match kind {
            "sub" => client.subscribe(&t, QoS::AtLeastOnce),
            "unsub" => client.unsubscribe(&t),
            _ => {
                let mut b = if kind == "pubs" { PublishBuilder::from_str(&t, "x") } else { PublishBuilder::from_bytes(&t, b"x") };
                if wide {
                    b = b.qos(QoS::AtLeastOnce);
                }
                for (c, ns) in &items {
                    b = b.with_property(match c {
                        'f' => Property::PayloadFormatId(1),
                        'e' => Property::MessageExpiryInterval(7),
                        'r' => Property::ResponseTopic(text(ns[0], wide)),
                        'c' => Property::CorrelationData(vec![7; ns[0]]),
                        _ => Property::UserProperty(text(ns[0], wide), text(ns[1], wide)),
                    });
                }
                client.publish(b)
            }
        };
        drop(evloop);
        r.is_ok()
    }));
    match r {
        Err(_) => Err("the call panicked".into()),
        Ok(ok) if ok != fits => Err(if ok { "accepted although a field is longer than 65535 bytes" } else { "refused although everything fits" }.into()),
        _ => Ok(()),
    }
}

fn length(r: &mut Rng) -> usize {
    *r.pick(&[0, 1, 2, 127, 128, 255, 256, 16384, 32767, 32768, MAX - 1, MAX, MAX, MAX, MAX + 1, MAX + 1, MAX + 2, 2 * MAX, 2 * MAX + 1, 2 * MAX + 2, 200_000])
}

pub fn search(seed: u64, secs: f64) -> Search {
    let mut s = Search::new();
    let t0 = std::time::Instant::now();
    let mut r = Rng::new(seed.wrapping_mul(7919));
    let mut fixed = vec![];
    for w in ["a", "w"] {
        for n in [0, 1, MAX - 1, MAX, MAX + 1, MAX + 2, 2 * MAX + 2] {
            for k in ["sub", "unsub", "pubs", "pubb"] {
                fixed.push(format!("limits {} {} {}", k, w, n));
            }
            for i in [format!("r{}", n), format!("c{}", n), format!("u{},1", n), format!("u1,{}", n), format!("u{},{}", n, n), format!("c{} f r3", n), format!("f e c3 u{},0 r1", n)] {
                fixed.push(format!("limits pubs {} 3 {}", w, i));
            }
        }
    }
    fixed.reverse();
    while t0.elapsed().as_secs_f64() < secs {
        let case = fixed.pop().unwrap_or_else(|| {
            let k = *r.pick(&["sub", "unsub", "pubs", "pubb", "pubs", "pubb", "pubs", "pubb"]);
            let mut c = format!("limits {} {} {}", k, r.pick(&["a", "w"]), if r.chance(1, 2) { 3 } else { length(&mut r) });
            if k.starts_with("pub") {
                for _ in 0..r.below(5) {
                    let n = if r.chance(2, 3) { r.below(9) } else { length(&mut r) };
                    c += &match r.below(5) {
                        0 => " f".to_string(),
                        1 => " e".to_string(),
                        2 => format!(" r{}", n),
                        3 => format!(" c{}", n),
                        _ => format!(" u{},{}", n, length(&mut r)),
                    };
                }
            }
            c
        });
        s.note(&case);
        if let Err(what) = run(&case) {
            s.found = Some(Found { case, what });
            break;
        }
    }
    s
}
