//! C02: the sample contract. Every constructor, then every sequence of `flip` and `get` up to a depth; between calls the contract's
//! storage goes through the off-chain environment's encode / decode, as it does on chain.
include!(concat!(env!("OUT_DIR"), "/contract.rs"));
use flipper::Flipper;

fn store(c: &Flipper) -> Flipper {
    ink::env::set_contract_storage::<u32, Flipper>(&0u32, c);
    ink::env::get_contract_storage::<u32, Flipper>(&0u32).expect("decode").expect("stored")
}

fn c02(ctx: &mut kit::Ctx) {
    let depth = ctx.pick(14usize, 18);
    ctx.bound(format!("constructors new(false), new(true), new_default(); every sequence of flip / get of length up to {depth}; also two instances side by side"));
    let ctors: [(&str, fn() -> Flipper, bool); 3] = [("new(false)", || Flipper::new(false), false), ("new(true)", || Flipper::new(true), true), ("new_default", Flipper::new_default, false)];
    for (name, mk, init) in ctors {
        for n in 0..=depth {
            kit::tuples(2, n, |ops| {
                if ctx.stop() { return }
                let _ = ink::env::test::run_test::<ink::env::DefaultEnvironment, _>(|_| Ok(()));
                let r = kit::guard(|| {
                    let mut c = store(&mk());
                    let mut want = init;
                    let mut bad = None;
                    for (i, &o) in ops.iter().enumerate() {
                        if o == 0 { c.flip(); want = !want; }
                        else { let g = c.get(); if g != want { bad = Some(i); break } }
                        c = store(&c);
                    }
                    (bad, c.get(), want)
                });
                ctx.case(n as u64 + 1);
                let tr = || { let mut t = vec![name.to_string()]; t.extend(ops.iter().map(|&o| if o == 0 { "flip".into() } else { "get".into() })); t };
                match r {
                    Err(p) => ctx.fail("panic", format!("a call trapped: {p}"), tr()),
                    Ok((Some(i), _, _)) => ctx.fail("get", format!("get at step {} disagrees with the number of flips", i + 1), tr()),
                    Ok((None, g, w)) if g != w => ctx.fail("get", format!("after the sequence get() = {g}, the flips imply {w}"), tr()),
                    Ok((_, g, _)) => ctx.outcome(if g { "true" } else { "false" }),
                }
                ctx.max_depth = ctx.max_depth.max(n as u64);
            });
        }
    }
    // two instances are independent
    for n in 0..=depth.min(10) { kit::tuples(2, n, |ops| {
        if ctx.stop() { return }
        let (mut a, mut b) = (Flipper::new(false), Flipper::new(true));
        let (mut wa, mut wb) = (false, true);
        for &o in ops { if o == 0 { a.flip(); wa = !wa } else { b.flip(); wb = !wb } }
        ctx.case(n as u64);
        if (a.get(), b.get()) != (wa, wb) { ctx.fail("instances", format!("two instances interfere: got {:?}, want {:?}", (a.get(), b.get()), (wa, wb)), ops.iter().map(|o| if *o == 0 { "flip a".into() } else { "flip b".into() }).collect()) }
    }) }
    ctx.sample("new_default, flip, flip, get = false");
}
fn main() { kit::main_with(&[("C02", c02)]) }
