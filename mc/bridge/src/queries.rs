//! What front ends and vault clients are told: every query about vaults and requests, compared with the observed state.
use crate::{real::*, spec::*};
use rt::*;

type R = Result<(), (String, String)>;
fn eq<T: PartialEq + std::fmt::Debug>(key: &str, want: T, got: T) -> R { if want == got { Ok(()) } else { Err((format!("query:{}", key), format!("{}: the state says {:?}, the query {:?}", key, want, got))) } }
fn near(key: &str, want: u128, got: u128, tol: u128) -> R { if want.abs_diff(got) <= tol { Ok(()) } else { eq(key, want, got) } }
fn sorted<T: Clone + Ord>(x: &[T]) -> Vec<T> { let mut v = x.to_vec(); v.sort(); v }
fn falls(key: &str, l: &[(usize, u128)]) -> R { if l.windows(2).all(|w| w[0].1 >= w[1].1) { Ok(()) } else { Err((format!("query:{}:order", key), format!("{} not in descending order: {:?}", key, l))) } }

pub fn check(k: &Cfg, o: &Obs, ids: &Ids, g: &Genesis) -> R {
    let n = k.vaults.len();
    let ix = |id: &Vid| (0..n).find(|v| vault_id(k, *v) == *id).unwrap_or(99);
    let list = |l: Result<Vec<(Vid, Amount<Test>)>, sp_runtime::DispatchError>| -> Option<Vec<(usize, u128)>> { l.ok().map(|l| l.iter().map(|(id, a)| (ix(id), a.amount())).collect()) };
    // vaults of an account
    for a in 0..ST {
        let want: Vec<usize> = (0..n).filter(|v| o.v[*v].exists && k.vaults[*v].0 == a).collect();
        let got: Vec<usize> = VaultRegistry::get_vaults_by_account_id(acc(a)).map(|l| l.iter().map(|id| ix(id)).collect()).unwrap_or(vec![98]);
        eq("vaults-of-account", want, sorted(&got))?;
    }
    // issuable and redeemable tokens
    let issuable: Vec<(usize, u128)> = (0..n).filter(|v| o.v[*v].exists && o.v[*v].status == 0).map(|v| (v, o.issuable(k, v))).filter(|x| x.1 > 0).collect();
    let got = list(VaultRegistry::get_vaults_with_issuable_tokens()).unwrap_or(vec![(99, 0)]);
    falls("issuable", &got)?;
    eq("issuable", issuable, sorted(&got))?;
    let redeemable: Vec<(usize, u128)> = (0..n).filter(|v| o.v[*v].exists && !o.banned(*v)).map(|v| (v, o.v[v].issued.saturating_sub(o.v[v].tbr))).filter(|x| x.1 > 0).collect();
    let got = list(VaultRegistry::get_vaults_with_redeemable_tokens()).unwrap_or(vec![(99, 0)]);
    falls("redeemable", &got)?;
    eq("redeemable", redeemable, sorted(&got))?;
    // premium redeems
    let got = list(Redeem::get_premium_redeem_vaults());
    let listed = got.clone().unwrap_or_default();
    if got.as_ref().map_or(false, |l| l.is_empty()) { return Err(("query:premium:empty".into(), "an empty list instead of an error".into())) }
    falls("premium", &listed)?;
    for v in 0..n {
        let w = &o.v[v];
        let (c, open) = (k.vaults[v].1, o.backed(v).saturating_sub(w.tbr));
        let below = w.exists && o.below(c, w.total, open, g.premium.into_inner());
        let entry = listed.iter().filter(|x| x.0 == v).collect::<Vec<_>>();
        if entry.len() > 1 || (!entry.is_empty() && (!below || o.banned(v))) { return Err(("query:premium:listed".into(), format!("vault {} is listed for premium redeems: below the premium threshold {}, banned {}", v, below, o.banned(v)))) }
        if entry.is_empty() && below && !o.banned(v) && w.issued > w.tbr { return Err(("query:premium:missing".into(), format!("vault {} is below the premium threshold, has {} redeemable tokens, and is not listed", v, w.issued - w.tbr))) }
        if let Some((_, x)) = entry.first() {
            // redeeming the listed amount earns the highest premium the vault pays
            let missing = o.w2c(c, mulc(open, k.secure)).saturating_sub(w.total);
            let max = mulf(missing, divf(k.premium_fee, k.secure - k.premium_fee));
            let burn = o.c2w(c, divf(max, k.premium_fee)) + k.inclusion;
            near("premium:amount", burn * D / (D - k.redeem_fee), *x, 4)?;
        }
    }
    if listed.iter().any(|x| x.0 >= n) { return Err(("query:premium:unknown".into(), "unknown vault".into())) }
    // single vaults
    for v in 0..n {
        let (w, id, c) = (&o.v[v], vault_id(k, v), k.vaults[v].1);
        let live = w.exists && w.status != 2;
        let some = |b: bool, x: u128| if b { Some(x) } else { None };
        eq("issuable-of-vault", some(live, if w.status == 0 { o.issuable(k, v) } else { 0 }), VaultRegistry::get_issuable_tokens_from_vault(&id).ok().map(|a| a.amount()))?;
        eq("to-be-issued-of-vault", some(live, w.tbi), VaultRegistry::get_to_be_issued_tokens_from_vault(id.clone()).ok().map(|a| a.amount()))?;
        eq("total-collateral", Some(w.total), VaultRegistry::get_backing_collateral(&id).ok().map(|a| a.amount()))?;
        eq("own-collateral", Some(w.stake[k.vaults[v].0]), VaultRegistry::compute_collateral(&id).ok().map(|a| a.amount()))?;
        eq("nominated-collateral", w.total.checked_sub(w.stake[k.vaults[v].0]), Nomination::get_total_nominated_collateral(&id).ok().map(|a| a.amount()))?;
        for a in 0..ST { eq("nominator-collateral", Some(w.stake[a]), Nomination::get_nominator_collateral(&id, &acc(a)).ok().map(|x| x.amount()))?; }
        eq("opted-in", w.opted, Nomination::is_opted_in(&id))?;
        if w.exists { eq("liquidated", w.status == 2, VaultRegistry::is_vault_liquidated(&id).unwrap_or(w.status != 2))?; }
        for only in [true, false] {
            let tokens = if only { w.issued } else { o.backed(v) };
            let got = VaultRegistry::get_collateralization_from_vault(id.clone(), only).ok().map(|x| x.into_inner());
            eq("collateralization:defined", live && tokens > 0, got.is_some())?;
            if let Some(x) = got { near("collateralization", o.c2w(c, w.total) * D / tokens, x, 1)?; }
            let got = VaultRegistry::get_collateralization_from_vault_and_collateral(id.clone(), &Amount::new(777, CURS[c]), only).ok().map(|x| x.into_inner());
            eq("collateralization-with:defined", live && tokens > 0, got.is_some())?;
            if let Some(x) = got { near("collateralization-with", o.c2w(c, 777) * D / tokens, x, 1)?; }
        }
        let got = VaultRegistry::get_required_collateral_for_vault(id.clone()).ok().map(|x| x.amount());
        eq("required-for-vault:defined", live, got.is_some())?;
        // enough for the vault to be secure with it, and no more than a unit above
        if let Some(x) = got { near("required-for-vault", o.w2c(c, mulc(o.backed(v), o.thr(k, v))), x, 1)?; }
        eq("below-secure", some(w.exists, o.below(c, w.total, w.issued, o.thr(k, v)) as u128), VaultRegistry::is_vault_below_secure_threshold(&id).ok().map(|b| b as u128))?;
    }
    for c in 0..2 { if k.vaults.iter().any(|x| x.1 == c) { for x in [0, 1, 99, 1000] {
        near("required-for-wrapped", o.w2c(c, mulc(x, k.secure)), VaultRegistry::get_required_collateral_for_wrapped(&Amount::new(x, WRAPPED), CURS[c]).map_or(u128::MAX, |a| a.amount()), 1)?;
    } } }
    // requests
    for a in 0..ST {
        let of = |i: usize, f: &dyn Fn(usize) -> bool| -> Vec<H256> { sorted(&ids[i].iter().enumerate().filter(|(j, _)| f(*j)).map(|x| *x.1).collect::<Vec<_>>()) };
        let owner = |v: usize| k.vaults[v].0;
        eq("issue-requests-of-account", of(0, &|j| o.is[j].who == a), sorted(&Issue::get_issue_requests_for_account(acc(a))))?;
        eq("issue-requests-of-vault", of(0, &|j| owner(o.is[j].v) == a), sorted(&Issue::get_issue_requests_for_vault(acc(a))))?;
        eq("redeem-requests-of-account", of(1, &|j| o.rd[j].who == a), sorted(&Redeem::get_redeem_requests_for_account(acc(a))))?;
        eq("redeem-requests-of-vault", of(1, &|j| owner(o.rd[j].v) == a), sorted(&Redeem::get_redeem_requests_for_vault(acc(a))))?;
        eq("replace-requests-of-old-vault", of(2, &|j| owner(o.rp[j].old) == a), sorted(&Replace::get_replace_requests_for_old_vault(acc(a))))?;
        eq("replace-requests-of-new-vault", of(2, &|j| owner(o.rp[j].new) == a), sorted(&Replace::get_replace_requests_for_new_vault(acc(a))))?;
    }
    Ok(())
}
