//! Which operations are tried in a state: representatives and edges, with amounts taken from the state itself.
use crate::machine::*;
use crate::spec::*;

fn push(v: &mut Vec<Op>, o: Op) { if !v.contains(&o) { v.push(o) } }
/// the largest withdrawal the rules allow
pub fn max_withdraw(o: &Obs, k: &Cfg, v: usize) -> u128 {
    let (mut lo, mut hi) = (0u128, o.v[v].total);
    if o.may_withdraw(k, v, Some(hi)) { return hi }
    while lo < hi { let m = (lo + hi + 1) / 2; if o.may_withdraw(k, v, Some(m)) { lo = m } else { hi = m - 1 } }
    lo
}
pub fn ops(m: &Bridge, s: &State) -> Vec<Op> {
    let (o, k, p) = (&s.obs, &m.cfg, &m.plan);
    let n = o.v.len();
    let mut r = vec![];
    let live: Vec<usize> = (0..n).filter(|v| o.v[*v].exists).collect();
    // time passes: one block, just expired
    let pending = o.is.iter().any(|x| x.status == PENDING) || o.rd.iter().any(|x| x.status == PENDING) || o.rp.iter().any(|x| x.status == PENDING) || live.iter().any(|v| o.v[*v].banned.map_or(false, |b| b >= o.now));
    if pending { push(&mut r, Op::Time(11, 3)); if p.issue == 2 || p.redeem == 2 || p.replace == 2 || p.admin == 2 { push(&mut r, Op::Time(10, 2)); push(&mut r, Op::Time(5, 0)); } }
    if p.issue > 0 {
        if o.is.len() < p.caps[0] {
            for v in &live {
                let max = o.issuable(k, *v);
                push(&mut r, Op::Issue(*v, U, 100, NAT));
                if p.issue == 2 || p.coll == 2 { push(&mut r, Op::Issue(*v, U, max, NAT)); push(&mut r, Op::Issue(*v, U, max + 1, NAT)); }
                if p.issue == 2 { push(&mut r, Op::Issue(*v, U, k.dust, NAT)); push(&mut r, Op::Issue(*v, U, k.dust - 1, NAT)); push(&mut r, Op::Issue(*v, k.vaults[*v].0, 120, k.vaults[*v].1)); push(&mut r, Op::Issue(*v, N, 149, NAT)); }
            }
        }
        for (i, q) in o.is.iter().enumerate() {
            let e = q.amount + q.fee;
            if q.status == PENDING || p.issue == 2 {
                push(&mut r, Op::ExecIssue(i, q.who, e, true));
                if p.issue == 2 {
                    for (by, pay, right) in [(N, e, true), (q.who, e, false), (q.who, e / 2, true), (N, e / 2, true), (q.who, 1, true), (q.who, e - 1, true), (N, e + 1, true), (N, e + 37, true), (N, e + o.issuable(k, q.v), true), (N, e + o.issuable(k, q.v) + 1, true)] { push(&mut r, Op::ExecIssue(i, by, pay, right)) }
                }
                push(&mut r, Op::CancelIssue(i, q.who));
                if p.issue == 2 { push(&mut r, Op::CancelIssue(i, N)); }
            }
        }
    }
    if p.redeem > 0 {
        if o.rd.len() < p.caps[1] {
            for v in &live {
                let free = o.bal[U][WRA].0;
                let room = o.v[*v].issued.saturating_sub(o.v[*v].tbr);
                if free >= 58 { push(&mut r, Op::Redeem(*v, U, free.min(100))); }
                if p.redeem == 2 {
                    let min = k.dust + k.inclusion;
                    // gross amounts whose net amount is at the edges
                    for net in [min, min - 1, room, room + 1] { for g in [net * 100 / 98, net * 100 / 98 + 1] { push(&mut r, Op::Redeem(*v, U, g)); } }
                    push(&mut r, Op::Redeem(*v, U, free));
                    push(&mut r, Op::Redeem(*v, U, free + 1));
                    let own = o.bal[k.vaults[*v].0][WRA].0;
                    if own > 0 { push(&mut r, Op::Redeem(*v, k.vaults[*v].0, own)); }
                }
            }
        }
        for (i, q) in o.rd.iter().enumerate() {
            if q.status == PENDING || p.redeem == 2 {
                push(&mut r, Op::ExecRedeem(i, Pay::Good));
                if p.redeem == 2 { for x in [Pay::WrongAddress, Pay::WrongId, Pay::Less, Pay::More] { push(&mut r, Op::ExecRedeem(i, x)); } }
                push(&mut r, Op::CancelRedeem(i, q.who, true));
                push(&mut r, Op::CancelRedeem(i, q.who, false));
                if p.redeem == 2 { push(&mut r, Op::CancelRedeem(i, N, false)); }
            }
            if q.status == REIMBURSED || p.redeem == 2 { push(&mut r, Op::Mint(i, q.v)); if n > 1 && p.redeem == 2 { push(&mut r, Op::Mint(i, 1 - q.v)); } }
        }
        for v in &live {
            let own = o.bal[k.vaults[*v].0][WRA].0;
            if own > 0 {
                push(&mut r, Op::SelfRedeem(*v, own));
                if p.redeem == 2 { let room = o.v[*v].issued.saturating_sub(o.v[*v].tbr); for x in [room, 1, own / 2, 0] { push(&mut r, Op::SelfRedeem(*v, x)); } }
            }
        }
    }
    if p.replace > 0 && n > 1 {
        for v in 0..2 {
            if !o.v[v].exists { continue }
            let room = o.v[v].issued.saturating_sub(o.v[v].tbr + o.v[v].tbrep);
            if o.v[v].issued > 0 || p.replace == 2 {
                push(&mut r, Op::ReqReplace(v, room));
                if p.replace == 2 { for x in [k.dust, k.dust - 1, room + 5, 1] { push(&mut r, Op::ReqReplace(v, x)); } }
            }
            let t = o.v[v].tbrep;
            if t > 0 {
                push(&mut r, Op::WithdrawReplace(v, t));
                if p.replace == 2 { push(&mut r, Op::WithdrawReplace(v, t / 2)); push(&mut r, Op::WithdrawReplace(v, t + 9)); push(&mut r, Op::WithdrawReplace(v, 0)); }
                for new in 0..n {
                    if o.rp.len() >= p.caps[2] { continue }
                    let need = o.w2c(k.vaults[new].1, mulf(t, k.secure));
                    if new != v || p.replace == 2 {
                        push(&mut r, Op::AcceptReplace(new, v, t, need));
                        if p.replace == 2 { for (x, c) in [(t / 2, need / 2), (t + 40, need * 2), (t, 0), (k.dust - 1, 100), (k.dust, 3)] { push(&mut r, Op::AcceptReplace(new, v, x, c)); } }
                    }
                }
            } else if p.replace == 2 { push(&mut r, Op::AcceptReplace(1 - v, v, k.dust, 200)); push(&mut r, Op::WithdrawReplace(v, 10)); }
        }
        for (i, q) in o.rp.iter().enumerate() {
            if q.status == PENDING || p.replace == 2 {
                push(&mut r, Op::ExecReplace(i, Pay::Good));
                if p.replace == 2 { for x in [Pay::WrongAddress, Pay::WrongId, Pay::Less, Pay::More] { push(&mut r, Op::ExecReplace(i, x)); } }
                push(&mut r, Op::CancelReplace(i));
            }
        }
    }
    if p.liq > 0 {
        for v in &live {
            if o.v[*v].status != 2 { push(&mut r, Op::Report(*v)); } else { push(&mut r, Op::Recover(*v)); }
        }
        let mut cs: Vec<usize> = k.vaults.iter().map(|x| x.1).collect();
        cs.sort();
        cs.dedup();
        for c in &cs {
            let ps: &[u128] = if p.liq == 2 { &[D / 2, D, 2 * D, 3 * D, 5 * D] } else { &[D, 4 * D] };
            for x in ps { if *x != o.price[*c] { push(&mut r, Op::Price(*c, *x)); } }
            if p.liq == 2 {
                // exactly at, and just past, the liquidation threshold of each vault
                for v in &live { if k.vaults[*v].1 == *c && o.v[*v].issued > 0 {
                    let at = (o.v[*v].total * D / o.v[*v].issued) * 1_000_000_000 / (k.liquidation / 1_000_000_000);
                    for x in [at, at + D / 50] { if x > 0 && x != o.price[*c] && o.v[*v].status != 2 { push(&mut r, Op::Price(*c, x)); } }
                } }
            }
            let open = o.liq[*c].issued.saturating_sub(o.liq[*c].tbr);
            if open > 0 || o.liq[*c].col > 0 {
                let have = o.bal[U][WRA].0;
                push(&mut r, Op::LiqRedeem(*c, U, have.min(open)));
                if p.liq == 2 { for x in [have.min(open) / 3, open, open + 1, 0] { push(&mut r, Op::LiqRedeem(*c, U, x)); } }
            }
        }
    }
    if p.coll > 0 {
        for v in 0..n {
            if !o.v[v].exists { push(&mut r, Op::Register(v, 1000)); if p.coll == 2 { let m = o.min[k.vaults[v].1]; push(&mut r, Op::Register(v, m)); push(&mut r, Op::Register(v, m - 1)); } continue }
            if p.coll == 2 && v == 0 { push(&mut r, Op::Register(v, 1000)); }
            push(&mut r, Op::Deposit(v, 150));
            let w = max_withdraw(o, k, v);
            push(&mut r, Op::Withdraw(v, Some(w), None));
            if p.coll == 2 {
                let c = k.vaults[v].1;
                let m = o.min[c];
                for x in [Some(w + 1), Some(o.v[v].total.saturating_sub(m)), Some((o.v[v].total + 1).saturating_sub(m)), Some(o.v[v].total), None] { push(&mut r, Op::Withdraw(v, x, None)); }
                push(&mut r, Op::Deposit(v, o.ceil[c].saturating_sub(o.tuvc[c])));
                push(&mut r, Op::Deposit(v, o.ceil[c].saturating_sub(o.tuvc[c]) + 1));
                push(&mut r, Op::Deposit(v, o.bal[k.vaults[v].0][c].0 + 1));
            }
        }
    }
    if p.nom > 0 {
        for v in &live {
            let own = k.vaults[*v].0;
            push(&mut r, if o.v[*v].opted { Op::OptOut(*v) } else { Op::OptIn(*v) });
            if p.nom == 2 { push(&mut r, if o.v[*v].opted { Op::OptIn(*v) } else { Op::OptOut(*v) }); }
            let nom = o.nominated(k, *v).unwrap_or(0);
            if o.v[*v].limit == 0 { push(&mut r, Op::Limit(*v, 600)); } else if p.nom == 2 { push(&mut r, Op::Limit(*v, 250)); }
            push(&mut r, Op::Nominate(*v, N, 200));
            if p.nom == 2 {
                push(&mut r, Op::Nominate(*v, N, o.v[*v].limit.saturating_sub(nom)));
                push(&mut r, Op::Nominate(*v, N, o.v[*v].limit.saturating_sub(nom) + 1));
                push(&mut r, Op::Nominate(*v, U, 90));
            }
            let w = max_withdraw(o, k, *v);
            for a in [N, U] {
                let st = o.v[*v].stake[a];
                if st > 0 {
                    push(&mut r, Op::NomWithdraw(*v, a, Some(st), Some(o.v[*v].nonce)));
                    if p.nom == 2 { for x in [Some(w.min(st)), Some(w + 1), Some(st + 1), Some(st / 2), None] { push(&mut r, Op::NomWithdraw(*v, a, x, Some(o.v[*v].nonce))); } }
                }
            }
            for ((i, a), x) in &o.v[*v].old {
                push(&mut r, Op::NomWithdraw(*v, *a, Some(*x), Some(*i)));
                if p.nom == 2 { for y in [Some(x + 1), Some(x / 2), None] { push(&mut r, Op::NomWithdraw(*v, *a, y, Some(*i))); } push(&mut r, Op::NomWithdraw(*v, *a, Some(*x), Some(i + 5))); push(&mut r, Op::NomWithdraw(*v, *a, Some(*x), None)); }
            }
            if p.nom == 2 { push(&mut r, Op::Withdraw(*v, Some(w.min(o.v[*v].stake[own])), Some(o.v[*v].nonce))); push(&mut r, Op::Nomination(!o.nomination)); }
        }
    }
    if p.admin > 0 {
        for v in &live { push(&mut r, Op::Accept(*v, o.v[*v].status != 0)); }
        if p.admin == 2 {
            for v in &live { push(&mut r, if o.v[*v].thr.is_none() { Op::Threshold(*v, Some(3 * D)) } else { Op::Threshold(*v, None) }); push(&mut r, Op::Threshold(*v, Some(k.secure))); push(&mut r, Op::Threshold(*v, Some(k.secure + 1))); }
            let c = k.vaults[0].1;
            for x in [o.tuvc[c], o.tuvc[c].saturating_sub(100)] { push(&mut r, Op::Ceiling(c, x)); }
            push(&mut r, Op::Min(c, if o.min[c] == 100 { 700 } else { 100 }));
            for i in 0..3 { push(&mut r, Op::Period(i, if o.periods[i] == 10 { 20 } else { 10 })); }
        }
    }
    r
}
