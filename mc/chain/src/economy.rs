// T01, for one runtime: where the chain's own money goes. Included in the module of each runtime.
use kit::{bfs, guard, Ctx, System as Machine};
use frame_support::traits::{OnFinalize, OnInitialize, ReservableCurrency, Currency as _};
use frame_support::dispatch::{DispatchInfo, PostDispatchInfo};
use pallet_transaction_payment::OnChargeTransaction;
use reward::RewardsApi;
use std::collections::BTreeMap;

fn acc(n: u8) -> AccountId { AccountId::new([n; 32]) }
const USER: u8 = 1;
const AUTHORS: [u8; 2] = [21, 22];
/// inflation rates as a fraction
const RATES: [(u128, u128); 4] = [(0, 1), (2, 100), (1, 3), (1, 7_777_777)];
#[derive(Clone, Debug)]
pub enum Op { Block(Option<u8>), Start(usize), Stake(usize, bool), Second(bool), Rpw(usize, u128), Wrap(u128), Update(usize), Drain(usize), Donate(usize), Fee { fee: u128, tip: u128, used: u128 }, Slash(u128), Sweep(u128), Withdraw }
#[derive(Clone, Debug, Default, PartialEq)]
struct Spec { now: u32, author: Option<u8>, start: Option<u32>, rate: usize, rpb: [u128; 2], rpw: [Option<u128>; 2], wrapped: u128, owed: [u128; 2] }
#[derive(Clone)] pub struct St { map: mcstore::Map, s: Spec }
/// what can be seen from outside
type Seen = BTreeMap<&'static str, u128>;
fn accounts() -> Vec<(&'static str, AccountId)> { vec![("supply", SupplyAccount::get()), ("escrow annuity", EscrowAnnuityAccount::get()), ("vault annuity", VaultAnnuityAccount::get()), ("treasury", TreasuryAccount::get()), ("fee pool", FeeAccount::get()), ("collator pot", CollatorSelectionAccount::get()), ("author 0", acc(AUTHORS[0])), ("author 1", acc(AUTHORS[1])), ("user", acc(USER))] }
const POOL: [CurrencyId; 2] = [CurrencyId::ForeignAsset(1), CurrencyId::ForeignAsset(2)];
const ANNUITY: [&str; 2] = ["escrow annuity", "vault annuity"];
const OWED: [&str; 2] = ["owed to escrow", "owed to vaults"];
fn native() -> CurrencyId { GetNativeCurrencyId::get() }
fn cap_stake(i: usize) -> u128 { <VaultCapacity as RewardsApi<(), CurrencyId, Balance>>::get_stake(&(), &POOL[i]).unwrap() }
fn esc_stake() -> u128 { <EscrowRewards as RewardsApi<(), AccountId, Balance>>::get_stake(&(), &acc(USER)).unwrap() }
fn look() -> Seen {
    let mut m: Seen = accounts().into_iter().map(|(n, a)| (n, <NativeCurrency as frame_support::traits::Currency<AccountId>>::total_balance(&a))).collect();
    m.insert("issuance", <NativeCurrency as frame_support::traits::Currency<AccountId>>::total_issuance());
    m.insert(OWED[0], <EscrowRewards as RewardsApi<(), AccountId, Balance>>::compute_reward(&(), &acc(USER), native()).unwrap());
    m.insert(OWED[1], POOL.iter().map(|p| <VaultCapacity as RewardsApi<(), CurrencyId, Balance>>::compute_reward(&(), p, native()).unwrap()).sum());
    m
}
fn digest(author: Option<u8>) -> sp_runtime::generic::Digest {
    let mut d = sp_runtime::generic::Digest::default();
    if let Some(a) = author { d.push(sp_runtime::generic::DigestItem::PreRuntime(*b"aura", (AUTHORS.iter().position(|x| *x == a).unwrap() as u32).to_le_bytes().to_vec())) }
    d
}
fn block(s: &Spec) {
    if s.now > 1 { AllPalletsWithSystem::on_finalize(s.now - 1) }
    System::set_block_number(s.now); System::reset_events();
    frame_system::DigestStore::<Runtime>::put(digest(s.author));
    AllPalletsWithSystem::on_initialize(s.now);
    Timestamp::set(RuntimeOrigin::none(), s.now as u64 * 12_000).unwrap();
}
pub struct Economy { chain: &'static str, thorough: bool }
impl Economy {
    fn st(&self, prepare: &[Op]) -> St {
        let ((), map) = mcstore::isolated(Default::default(), || {
            pallet_session::Validators::<Runtime>::put(AUTHORS.iter().map(|a| acc(*a)).collect::<Vec<_>>());
            drop(NativeCurrency::deposit_creating(&acc(USER), 9_007_199_254_740_993_001));
        });
        let mut st = St { map, s: Spec::default() };
        for op in prepare { st = self.step(&st, op).unwrap_or_else(|e| panic!("preparing {op:?}: {e:?}")).0 }
        st
    }
}
impl Machine for Economy {
    type State = St; type Op = Op;
    fn initial(&self) -> Vec<(String, St)> {
        use Op::*;
        vec![("first block".into(), self.st(&[Block(Some(21))])),
             ("stakes and inflation".into(), self.st(&[Block(None), Stake(0, true), Stake(1, true), Start(1), Block(Some(22))])),
             ("one stake, emission capped per wrapped token".into(), self.st(&[Block(Some(21)), Stake(1, true), Second(true), Wrap(50), Rpw(1, 3), Start(2), Block(Some(21))])),
             ("rewards without takers".into(), self.st(&[Block(Some(21)), Start(2), Block(Some(21)), Stake(0, true)]))]
    }
    fn ops(&self, _: &St) -> Vec<Op> {
        use Op::*;
        let mut v = vec![Block(Some(21)), Block(Some(22)), Block(None), Start(1), Start(3), Stake(0, true), Stake(0, false), Stake(1, true), Stake(1, false), Second(true), Rpw(1, 3), Rpw(0, 0), Wrap(7), Update(0), Update(1), Drain(1), Donate(1), Fee { fee: 1_000, tip: 77, used: 1_000 }, Fee { fee: 1_000, tip: 0, used: 401 }, Slash(12_345), Sweep(99), Withdraw];
        if self.thorough { v.extend([Start(0), Start(2), Second(false), Rpw(0, 11), Donate(0), Drain(0), Fee { fee: 0, tip: 0, used: 0 }, Fee { fee: u128::MAX / 4, tip: 5, used: 10 }]) }
        v
    }
    fn key(&self, s: &St) -> u128 { let mut b = format!("{:?}", s.s).into_bytes(); for (k, v) in &s.map { b.extend_from_slice(k); b.extend_from_slice(v) } kit::fp(&b) }
    fn step(&self, st: &St, op: &Op) -> Result<(St, String), (String, String)> {
        let mut s = st.s.clone();
        let user = RuntimeOrigin::signed(acc(USER));
        let (out, map) = mcstore::isolated(st.map.clone(), || {
            let was = look();
            let mut exp = vec![was.clone()];
            let add = |m: &mut Seen, k: &'static str, x: u128| *m.get_mut(k).unwrap() += x;
            let sub = |m: &mut Seen, k: &'static str, x: u128| *m.get_mut(k).unwrap() -= x;
            let stakes = [esc_stake(), cap_stake(0) + cap_stake(1)];
            let ran = guard(|| -> Result<String, String> { Ok(match op {
                Op::Block(author) => {
                    s.now += 1; s.author = *author;
                    block(&s);
                    let e = &mut exp[0];
                    let mut split = vec![(0, 0)];
                    if s.start == Some(s.now) {
                        s.start = Some(s.now + 365 * 7200);
                        let total = (RATES[s.rate].0 * 1_000_000_000_000_000_000 / RATES[s.rate].1).checked_mul(1).unwrap();
                        let total = kit::q::floor(&(kit::q::fixedu(total) * kit::q::qu(was["issuance"]))) as u128;
                        add(e, "issuance", total); add(e, "treasury", total);
                        let (v, x) = (total * 400_000 / 1_000_000, total * 67_000 / 1_000_000);
                        // whichever way the shares are rounded
                        split = [(v, x), (v + 1, x), (v, x + 1), (v + 1, x + 1)].to_vec();
                    }
                    let infl = split.len() > 1;
                    let base = exp[0].clone();
                    exp = split.into_iter().filter(|(v, x)| base["treasury"] >= v + x).map(|(v, x)| {
                        let mut e = base.clone();
                        sub(&mut e, "treasury", v + x); add(&mut e, ANNUITY[1], v); add(&mut e, ANNUITY[0], x);
                        e
                    }).collect();
                    // pick the split that was made, by the treasury and the escrow annuity, which pay out nothing
                    let now = look();
                    exp.retain(|e| e["treasury"] == now["treasury"] && e[ANNUITY[0]] == now[ANNUITY[0]]);
                    if exp.is_empty() { return Err(format!("split:{} of newly issued {}: now {now:?}", if infl { "shares" } else { "nothing" }, base["issuance"] - was["issuance"])) }
                    let mut e = exp[0].clone();
                    if infl { for i in 0..2 { s.rpb[i] = e[ANNUITY[i]] / (365 * 7200) } }
                    for i in 0..2 {
                        let r = s.rpw[i].map_or(s.rpb[i], |w| s.rpb[i].min(w * s.wrapped));
                        if stakes[i] == 0 || r == 0 { continue }
                        if i == 1 { if e[ANNUITY[1]] < r { continue } sub(&mut e, ANNUITY[1], r); add(&mut e, "fee pool", r) }
                        s.owed[i] += r;
                    }
                    exp = vec![e];
                    if infl { "block with inflation".into() } else { "block".into() }
                }
                Op::Start(r) => { Supply::set_start_height_and_inflation(RuntimeOrigin::root(), s.now + 1, FixedU128::from_inner(RATES[*r].0 * 1_000_000_000_000_000_000 / RATES[*r].1)).map_err(|e| format!("refused:{e:?}"))?; s.start = Some(s.now + 1); s.rate = *r; "start set".into() }
                Op::Stake(0, on) => { if *on == (stakes[0] > 0) { return Ok("same".into()) } if *on { <EscrowRewards as RewardsApi<(), AccountId, Balance>>::deposit_stake(&(), &acc(USER), 1_000).unwrap() } else { <EscrowRewards as RewardsApi<(), AccountId, Balance>>::withdraw_all_stake(&(), &acc(USER)).unwrap(); } "stake".into() }
                Op::Stake(_, on) => { if *on == (cap_stake(0) > 0) { return Ok("same".into()) } if *on { <VaultCapacity as RewardsApi<(), CurrencyId, Balance>>::deposit_stake(&(), &POOL[0], 1_000).unwrap() } else { <VaultCapacity as RewardsApi<(), CurrencyId, Balance>>::withdraw_all_stake(&(), &POOL[0]).unwrap(); } "stake".into() }
                Op::Second(on) => { if *on == (cap_stake(1) > 0) { return Ok("same".into()) } if *on { <VaultCapacity as RewardsApi<(), CurrencyId, Balance>>::deposit_stake(&(), &POOL[1], 3_000).unwrap() } else { <VaultCapacity as RewardsApi<(), CurrencyId, Balance>>::withdraw_all_stake(&(), &POOL[1]).unwrap(); } "stake".into() }
                Op::Rpw(i, x) => { if *i == 0 { EscrowAnnuity::set_reward_per_wrapped(RuntimeOrigin::root(), *x).unwrap(); } else { VaultAnnuity::set_reward_per_wrapped(RuntimeOrigin::root(), *x).unwrap(); } s.rpw[*i] = Some(*x); "cap set".into() }
                Op::Wrap(x) => { <Tokens as orml_traits::MultiCurrency<AccountId>>::deposit(GetWrappedCurrencyId::get(), &acc(USER), *x).unwrap(); s.wrapped += x; "wrapped".into() }
                Op::Update(i) => { if *i == 0 { EscrowAnnuity::update_rewards(RuntimeOrigin::root()).unwrap(); } else { VaultAnnuity::update_rewards(RuntimeOrigin::root()).unwrap(); } s.rpb[*i] = was[ANNUITY[*i]] / (365 * 7200); "emission updated".into() }
                Op::Drain(i) => { let a = if *i == 0 { EscrowAnnuityAccount::get() } else { VaultAnnuityAccount::get() }; let x = was[ANNUITY[*i]]; drop(NativeCurrency::slash(&a, x)); sub(&mut exp[0], ANNUITY[*i], x); sub(&mut exp[0], "issuance", x); "drained".into() }
                Op::Donate(i) => { let a = if *i == 0 { EscrowAnnuityAccount::get() } else { VaultAnnuityAccount::get() }; let x = 5_256_000; if was["user"] < x { return Ok("poor".into()) } NativeCurrency::transfer(&acc(USER), &a, x, ExistenceRequirement::AllowDeath).unwrap(); sub(&mut exp[0], "user", x); add(&mut exp[0], ANNUITY[*i], x); "donated".into() }
                Op::Fee { fee, tip, used } => {
                    let call = RuntimeCall::System(frame_system::Call::remark { remark: vec![1] });
                    type C = <Runtime as pallet_transaction_payment::Config>::OnChargeTransaction;
                    let (info, post) = (DispatchInfo::default(), PostDispatchInfo::default());
                    match <C as OnChargeTransaction<Runtime>>::withdraw_fee(&acc(USER), &call, &info, fee + tip, *tip) {
                        Err(e) => { if fee + tip <= was["user"] { return Err(format!("fee-refused:{e:?}")) } "too poor for the fee".into() }
                        Ok(x) => {
                            if fee + tip > was["user"] { return Err("fee-unpaid:more than there is".into()) }
                            <C as OnChargeTransaction<Runtime>>::correct_and_deposit_fee(&acc(USER), &info, &post, used + tip, *tip, x).map_err(|e| format!("fee-refused:{e:?}"))?;
                            sub(&mut exp[0], "user", used + tip);
                            match s.author { Some(21) => add(&mut exp[0], "author 0", used + tip), Some(_) => add(&mut exp[0], "author 1", used + tip), None => sub(&mut exp[0], "issuance", used + tip) }
                            "fee paid".into()
                        }
                    }
                }
                Op::Slash(x) => { let x = (*x).min(was["user"]); let (i, _) = NativeCurrency::slash(&acc(USER), x); crate::runtime_common::ToTreasury::<Runtime, TreasuryAccount, NativeCurrency>::on_unbalanced(i); sub(&mut exp[0], "user", x); add(&mut exp[0], "treasury", x); "slashed deposit".into() }
                Op::Sweep(x) => { let x = (*x).min(was["user"]); <<Runtime as fee::Config>::OnSweep as currency::OnSweep<AccountId, currency::Amount<Runtime>>>::on_sweep(&acc(USER), currency::Amount::new(x, native())).unwrap(); sub(&mut exp[0], "user", x); add(&mut exp[0], "fee pool", x); "swept".into() }
                Op::Withdraw => {
                    let owed = was[OWED[0]];
                    match rt::tx(|| EscrowAnnuity::withdraw_rewards(user.clone())) {
                        Ok(_) => { sub(&mut exp[0], ANNUITY[0], owed); add(&mut exp[0], "user", owed); s.owed[0] -= owed; "escrow reward".into() }
                        Err(e) => { if owed <= was[ANNUITY[0]] { return Err(format!("reward-refused:{e:?} with {owed} owed")) } "annuity empty".into() }
                    }
                }
            }) });
            let label = match ran { Err(p) => return Err((format!("{}:panic", self.chain), format!("{op:?} panicked: {p}"))), Ok(Err(e)) => { let k = e.split(':').next().unwrap().to_string(); return Err((format!("{}:{k}", self.chain), format!("{op:?}: {e}"))) } Ok(Ok(l)) => l };
            let got = look();
            for (k, v) in &got {
                // what is owed is rounded down for every taker and change of stake
                let due = OWED.iter().position(|o| o == k).map(|i| s.owed[i]);
                let want = due.unwrap_or(exp[0][k]);
                let ok = if due.is_some() { want >= *v && want - v <= 8 } else { want == *v };
                if !ok { return Err((format!("{}:{k}", self.chain), format!("{op:?}: {k} is {v}, expected {want}; it was {} ({s:?}, stakes {stakes:?})", was[k]))) }
            }
            let sum: u128 = accounts().iter().map(|(n, _)| got[n]).sum();
            if sum != got["issuance"] { return Err((format!("{}:total", self.chain), format!("{op:?}: {} issued, accounts hold {sum}", got["issuance"]))) }
            if got["supply"] != 0 { return Err((format!("{}:left-on-supply", self.chain), format!("{op:?}: {} left on the supply account", got["supply"]))) }
            Ok(label)
        });
        out.map(|l| (St { map, s }, l))
    }
}
/// the accounts that hold the pallets' money are different, and exempt from dust removal
fn own_accounts(chain: &str, ctx: &mut Ctx) {
    let mut own: Vec<(&str, AccountId)> = vec![("fee", Fee::fee_pool_account_id()), ("supply", Supply::account_id()), ("escrow annuity", EscrowAnnuity::account_id()), ("vault annuity", VaultAnnuity::account_id()), ("treasury", TreasuryAccount::get()), ("collators", CollatorSelection::account_id()),
        ("liquidation vault", VaultRegistry::liquidation_vault_account_id()), ("loans", Loans::account_id()), ("loan incentives", Loans::incentive_reward_account_id()), ("loan rewards", Loans::reward_account_id())];
    own.extend([("farming", FarmingAccount::get())]);
    for (i, (n, a)) in own.iter().enumerate() {
        ctx.ensure(&format!("{chain}:accounts-listed"), get_all_module_accounts().contains(a) && DustRemovalWhitelist::contains(a), || format!("the account of {n} is not exempt from dust removal"));
        for (m, b) in &own[..i] { ctx.ensure(&format!("{chain}:accounts-distinct"), a != b, || format!("{n} and {m} share an account")); ctx.case(1) }
    }
    for (n, a, b) in [("fee", FeeAccount::get(), Fee::fee_pool_account_id()), ("supply", SupplyAccount::get(), Supply::account_id()), ("escrow annuity", EscrowAnnuityAccount::get(), EscrowAnnuity::account_id()), ("vault annuity", VaultAnnuityAccount::get(), VaultAnnuity::account_id()), ("collators", CollatorSelectionAccount::get(), CollatorSelection::account_id()), ("liquidation vault", VaultRegistryAccount::get(), VaultRegistry::liquidation_vault_account_id()), ("loans", LoansAccount::get(), Loans::account_id())] {
        ctx.ensure(&format!("{chain}:accounts-named"), a == b, || format!("the runtime's account of {n} is not the pallet's"));
        ctx.case(1);
    }
    let outsiders: Vec<AccountId> = (0..=255).map(acc).collect();
    for a in outsiders { ctx.ensure(&format!("{chain}:dust-exempt"), !DustRemovalWhitelist::contains(&a), || "an ordinary account is exempt from dust removal".into()); ctx.case(1) }
}
pub fn economy(chain: &'static str, ctx: &mut Ctx) {
    own_accounts(chain, ctx);
    let m = Economy { chain, thorough: ctx.thorough() };
    let d = ctx.pick(4, 5);
    ctx.bound(format!("{chain}: four initial states, every sequence of up to {d} of {} operations: blocks with and without an author (all pallets' hooks), inflation, stakes, emission caps, fees, tips, refunds, slashed deposits, swept funds, withdrawals", m.ops(&m.initial()[0].1).len()));
    bfs(ctx, &m, d, 3_000_000);
}
