//! X03: every route of up to three hops over constant-product and stable pools, executed by the router and, from the same state,
//! hop by hop with the exchanges' own calls: the resulting chain states must be identical.
use crate::soc::System;
use crate::soc::*;
use crate::stable::{self, Stb, BASE, CUR, META};
use dex_swap_router::{Route, StablePath, StableSwapMode};
use kit::*;
use mcstore::Map;

type Gen = dex_general::Pallet<Test>;
type Hop = Route<u32, CurrencyId>;
const IDX: [&str; 6] = ["DOT", "IBTC", "INTR", "KSM", "LP0", "LP1"];
fn nm(c: CurrencyId) -> String { CUR.iter().position(|x| *x == c).map_or(format!("{:?}", c), |i| IDX[i].to_string()) }
fn show(h: &Hop) -> String {
    match h { Route::General(p) => format!("general {}", p.iter().map(|c| nm(*c)).collect::<Vec<_>>().join(">")), Route::Stable(s) => format!("{:?}({},{}) {}>{}", s.mode, s.pool_id, s.base_pool_id, nm(s.from_currency), nm(s.to_currency)) }
}
fn ends(h: &Hop) -> Option<(CurrencyId, CurrencyId)> { match h { Route::General(p) => Some((*p.first()?, *p.last()?)), Route::Stable(s) => Some((s.from_currency, s.to_currency)) } }
fn hop(h: &Hop, who: u128, x: u128, to: u128) -> Result<u128, DispatchError> {
    let (i, o) = ends(h).ok_or(DispatchError::Other("no path"))?;
    let before = bal(o, to);
    let idx = |p: u32, c: CurrencyId| Stb::get_currency_index(p, c).ok_or(DispatchError::Other("not in the pool"));
    match h {
        Route::General(p) => Gen::swap_exact_assets_for_assets(signed(who), x, 0, p.clone(), to, 6)?,
        Route::Stable(s) => match s.mode {
            StableSwapMode::Single => Stb::swap(signed(who), s.pool_id, idx(s.pool_id, s.from_currency)?, idx(s.pool_id, s.to_currency)?, x, 0, to, 6)?,
            StableSwapMode::FromBase => Stb::swap_pool_from_base(signed(who), s.pool_id, s.base_pool_id, idx(s.base_pool_id, s.from_currency)?, idx(s.pool_id, s.to_currency)?, x, 0, to, 6)?,
            StableSwapMode::ToBase => Stb::swap_pool_to_base(signed(who), s.pool_id, s.base_pool_id, idx(s.pool_id, s.from_currency)?, idx(s.base_pool_id, s.to_currency)?, x, 0, to, 6)?,
        },
    };
    let spent = if i == o && who == to { x } else { 0 };
    (bal(o, to) + spent).checked_sub(before).ok_or(DispatchError::Other("balance fell"))
}
fn compose(hops: &[Hop], who: u128, x: u128, to: u128) -> Result<u128, String> {
    if hops.is_empty() { return Err("no hop".into()) }
    for w in hops.windows(2) { if ends(&w[0]).map(|e| e.1) != ends(&w[1]).map(|e| e.0) || ends(&w[0]).is_none() { return Err("disconnected".into()) } }
    tx(|| { let mut y = x; for (i, h) in hops.iter().enumerate() { y = hop(h, who, y, if i + 1 == hops.len() { to } else { who })?; } Ok(y) })
}
fn route(map: &Map, hops: &[Hop], who: u128, x: u128, min: u128, to: u128, dl: u64) -> (Result<(), String>, Map) {
    mcstore::isolated(map.clone(), || tx(|| Router::swap_exact_tokens_for_tokens(signed(who), x, min, hops.to_vec(), to, dl)))
}
/// judge one route; Ok(label)
fn check(map: &Map, hops: &[Hop], x: u128, to: u128) -> Result<(String, Option<Map>), (String, String)> {
    let text = || format!("selling {} along [{}] for {}", x, hops.iter().map(show).collect::<Vec<_>>().join(" ; "), to);
    let (want, after) = mcstore::isolated(map.clone(), || compose(hops, 1, x, to));
    let same = |a: &Map, b: &Map| a == b;
    let (r, _) = route(map, hops, 1, x, 0, to, 5);
    if r.is_ok() { return Err(("accepted:expired".into(), format!("{} is accepted after its deadline", text()))) }
    match want {
        Err(e) => {
            let (r, m) = route(map, hops, 1, x, 0, to, 6);
            if r.is_ok() { return Err((format!("accepted:{}", if hops.is_empty() { "no hop" } else if e == "disconnected" { "disconnected" } else { "impossible" }), format!("{} is accepted; hop by hop: {}", text(), e))) }
            if !same(&m, map) { return Err(("refused-but-changed".into(), format!("{} is refused but changes the state", text()))) }
            Ok((if e == "disconnected" { "malformed".into() } else { "impossible".to_string() }, None))
        }
        Ok(out) => {
            let (r, m) = route(map, hops, 1, x, out + 1, to, 6);
            if r.is_ok() { return Err(("accepted:below-minimum".into(), format!("{} is accepted with a minimum of {}, hop by hop it gives {}", text(), out + 1, out))) }
            if !same(&m, map) { return Err(("refused-but-changed".into(), format!("{} is refused but changes the state", text()))) }
            let (r, m) = route(map, hops, 1, x, out, to, 6);
            if let Err(e) = r { return Err(("refused".into(), format!("{} with minimum {} is refused: {}; hop by hop it gives that", text(), out, e))) }
            if !same(&m, &after) {
                let dump = |m: &Map| mcstore::isolated(m.clone(), || [1u128, 2, 3].iter().flat_map(|a| CUR.iter().map(move |c| format!("{}:{}={}", a, nm(*c), bal(*c, *a)))).collect::<Vec<_>>().join(" ")).0;
                return Err(("different".into(), format!("{} differs from its hops one by one ({}):\n   route: {}\n   hops:  {}", text(), out, dump(&m), dump(&after))))
            }
            Ok((format!("{} hop{} delivered", hops.len(), if hops.len() > 1 { "s" } else { "" }), Some(m)))
        }
    }
}
pub fn x03(ctx: &mut Ctx) {
    let n = 1_000_000_000_000_000_000u128;
    let Some((mut base, _)) = stable::opened(ctx, n) else { return };
    // constant-product pools over the same currencies, one of them holding the LP token of the stable pool
    let pairs = [(0, 3, 3u128, 2u128), (3, 2, 5, 5), (1, 2, 4, 7), (0, 4, 6, 6)];
    let (r, map) = mcstore::isolated(base.clone(), || tx(|| {
        for (i, j, a, b) in pairs {
            Gen::create_pair(root(), CUR[i], CUR[j], 30)?;
            Gen::add_liquidity(signed(1), CUR[i], CUR[j], n / stable::MULT[i] * a * 100, n / stable::MULT[j] * b * 100, 0, 0, 6)?;
        }
        Ok(())
    }));
    if let Err(e) = r { ctx.fail("setup", format!("opening the constant-product pools: {}", e), vec![e]); return }
    base = map;
    let mut hops: Vec<Hop> = vec![];
    for (i, j, _, _) in pairs { for (a, b) in [(i, j), (j, i)] { hops.push(Route::General(vec![CUR[a], CUR[b]])); } }
    for p in [vec![0, 3, 2], vec![2, 1], vec![3, 0, 3], vec![2, 3, 0, 4], vec![3], vec![], vec![0, 2]] { let h = Route::General(p.iter().map(|c| CUR[*c]).collect()); if !hops.contains(&h) { hops.push(h) } }
    let st = |mode: StableSwapMode, p, b, i: usize, j: usize| Route::Stable(StablePath { pool_id: p, base_pool_id: b, mode, from_currency: CUR[i], to_currency: CUR[j] });
    for i in 0..3 { for j in 0..3 { if i != j { hops.push(st(StableSwapMode::Single, BASE, BASE, i, j)) } } }
    hops.push(st(StableSwapMode::Single, META, BASE, 3, 4));
    hops.push(st(StableSwapMode::Single, META, BASE, 4, 3));
    for i in 0..3 { hops.push(st(StableSwapMode::FromBase, META, BASE, i, 3)); hops.push(st(StableSwapMode::ToBase, META, BASE, 3, i)); }
    let good = hops.len();
    for h in [st(StableSwapMode::Single, BASE, BASE, 0, 3), st(StableSwapMode::Single, BASE, BASE, 1, 1), st(StableSwapMode::Single, 7, BASE, 0, 1), st(StableSwapMode::FromBase, META, BASE, 0, 4), st(StableSwapMode::FromBase, BASE, META, 3, 0), st(StableSwapMode::FromBase, META, META, 3, 3), st(StableSwapMode::ToBase, META, BASE, 4, 0), st(StableSwapMode::ToBase, BASE, BASE, 0, 1), st(StableSwapMode::ToBase, META, BASE, 0, 1)] { hops.push(h) }
    ctx.bound(format!("{} hops ({} possible ones): every route of up to two hops, connected or not, and every route of three hops whose first two connect", hops.len(), good));
    // states: fresh, after trades that leave the pools lopsided, with a stale price of the base LP token
    let mut states = vec![("fresh", base.clone())];
    let go = |map: &Map, list: &[(usize, u128)]| { let mut m = map.clone(); for (h, x) in list { let h = hops[*h].clone(); let (r, n) = mcstore::isolated(m, || tx(|| hop(&h, 2, *x, 2))); if r.is_err() { return None } m = n; } Some(m) };
    let find = |h: Hop| hops.iter().position(|x| *x == h).unwrap();
    let lop = [(find(Route::General(vec![CUR[0], CUR[3]])), 150 * n), (find(st(StableSwapMode::Single, BASE, BASE, 0, 2)), 700 * n), (find(st(StableSwapMode::Single, META, BASE, 3, 4)), 600 * (n / stable::MULT[3]))];
    match go(&base, &lop) { Some(m) => { let (_, late) = mcstore::isolated(m.clone(), || Timestamp::set_timestamp(1_700_000_000_000 + 40_000_000)); states.push(("lopsided", m)); states.push(("lopsided and stale", late)); } None => { ctx.fail("setup", "trades on the open pools are refused", vec![]); return } }
    let mut items: Vec<(usize, Vec<usize>, u128, u128)> = vec![];
    let k = hops.len();
    let linked = |a: usize, b: usize| matches!((ends(&hops[a]), ends(&hops[b])), (Some(x), Some(y)) if x.1 == y.0);
    let mut routes: Vec<Vec<usize>> = vec![vec![]];
    for a in 0..k { routes.push(vec![a]); for b in 0..k { routes.push(vec![a, b]); if linked(a, b) { for c in 0..k { routes.push(vec![a, b, c]); } } } }
    { let long: Vec<Vec<usize>> = routes.iter().filter(|r| r.len() == 3 && linked(r[1], r[2]) && r.iter().all(|h| *h < good)).flat_map(|r| (0..good).filter(|d| linked(r[2], *d)).map(|d| { let mut v = r.clone(); v.push(d); v }).collect::<Vec<_>>()).collect(); if ctx.pick(false, true) { let five: Vec<Vec<usize>> = long.iter().flat_map(|r| (0..good).filter(|d| linked(r[3], *d)).map(|d| { let mut v = r.clone(); v.push(d); v }).collect::<Vec<_>>()).collect(); ctx.bound("every connected route of five possible hops"); routes.extend(five); } ctx.bound("every connected route of four possible hops"); routes.extend(long); }
    for s in 0..states.len() { for r in &routes {
        let unit = r.first().and_then(|h| ends(&hops[*h])).and_then(|e| CUR.iter().position(|c| *c == e.0)).map_or(n, |i| n / stable::MULT[i]);
        items.push((s, r.clone(), 20 * unit, 2));
        if r.len() < 3 || s == 1 { items.push((s, r.clone(), 3 * unit / 1_000_003 + 1, 1)); }
        if r.len() < 3 { items.push((s, r.clone(), 0, 2)); items.push((s, r.clone(), u128::MAX / 2, 2)); }
    } }
    ctx.bound(format!("{} routes in {} states, {} executions with amounts ordinary, tiny, zero and beyond the balance", routes.len(), states.len(), items.len()));
    par(ctx, &items, |c, (s, r, x, to)| {
        let list: Vec<Hop> = r.iter().map(|h| hops[*h].clone()).collect();
        c.states += 1;
        c.transitions += list.len() as u64;
        match check(&states[*s].1, &list, *x, *to) {
            Ok((l, next)) => {
                c.traces += 1;
                c.outcome(&l);
                // a second route after the first one
                if let (Some(m), true) = (next, r.len() == 2 && *to == 2) {
                    for again in [vec![r[1]], vec![r[0], r[1]]] {
                        let list2: Vec<Hop> = again.iter().map(|h| hops[*h].clone()).collect();
                        if list2.iter().any(|h| ends(h).is_none()) { continue }
                        c.states += 1;
                        match check(&m, &list2, 1_000_000_000, 2) { Ok((l, _)) => { c.traces += 1; c.outcome(&format!("then: {}", l)) } Err((k, w)) => c.fail(k, format!("{}; {} after [{}]", states[*s].0, w, list.iter().map(show).collect::<Vec<_>>().join(" ; ")), list.iter().chain(&list2).map(show).collect()) }
                    }
                }
            }
            Err((k, w)) => c.fail(k, format!("{}: {}", states[*s].0, w), list.iter().map(show).collect()),
        }
    });
}
