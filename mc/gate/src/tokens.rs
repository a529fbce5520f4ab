use crate::soc::*;
use crate::{Gate, Setter, Who};
use frame_support::traits::Currency;

fn origin(w: Who) -> RuntimeOrigin { match w { Who::Root => root(), Who::User => signed(30), Who::Insider => signed(TreasuryAccountId::get()), Who::Unsigned => frame_system::RawOrigin::None.into() } }
fn flat<T, E: std::fmt::Debug>(r: Result<T, E>) -> Result<(), String> { r.map(|_| ()).map_err(|e| err_name(&e)) }
fn s<T: std::fmt::Debug>(x: T) -> String { format!("{:?}", x) }
const LP: CurrencyId = Token(DOT);
const RW: CurrencyId = Token(KINT);
pub fn gate() -> Gate {
    let start = mcstore::isolated(genesis(&[(30, 1000), (31, 1000), (TreasuryAccountId::get(), 1000), (EscrowAnnuity::account_id(), 400), (VaultAnnuity::account_id(), 80)], &[(1, Token(IBTC), 3), (TreasuryAccountId::get(), RW, 600)]), || { System::set_block_number(5); }).1;
    let mut v: Vec<Setter> = vec![];
    let mut q: Vec<(&'static str, Box<dyn Fn() -> String + Sync>)> = vec![];
    macro_rules! set { ($n:expr, $call:expr, $($param:expr => $val:expr),+) => { v.push(Setter { name: $n.into(), call: Box::new($call), sets: Some(vec![$(($param, $val)),+]) }) } }
    macro_rules! deny { ($n:expr, $call:expr) => { v.push(Setter { name: $n.into(), call: Box::new($call), sets: None }) } }
    macro_rules! param { ($n:expr, $f:expr) => { q.push(($n, Box::new($f))) } }
    param!("escrow reward", || s(EscrowAnnuity::reward_per_block()));
    param!("escrow cap", || s(EscrowAnnuity::reward_per_wrapped()));
    param!("vault reward", || s(VaultAnnuity::reward_per_block()));
    param!("vault cap", || s(VaultAnnuity::reward_per_wrapped()));
    set!("escrow update", |w| flat(EscrowAnnuity::update_rewards(origin(w))), "escrow reward" => s(100u128));
    set!("vault update", |w| flat(VaultAnnuity::update_rewards(origin(w))), "vault reward" => s(20u128));
    for x in [0u128, 5] {
        set!(format!("escrow cap {}", x), move |w| flat(EscrowAnnuity::set_reward_per_wrapped(origin(w), x)), "escrow cap" => s(Some(x)));
        set!(format!("vault cap {}", x), move |w| flat(VaultAnnuity::set_reward_per_wrapped(origin(w), x)), "vault cap" => s(Some(x)));
    }
    // inflation, by what happens at the start height
    param!("inflation", || { let before = <Balances as Currency<u128>>::total_issuance(); <Supply as frame_support::traits::Hooks<u64>>::on_initialize(8); let a = <Balances as Currency<u128>>::total_issuance() - before; s((a, Supply::start_height())) });
    let total = mcstore::isolated(start.clone(), || <Balances as Currency<u128>>::total_issuance()).0;
    for (h, pc) in [(8u64, 10u128), (8, 0), (9, 50)] {
        set!(format!("inflation of {}% from {}", pc, h), move |w| flat(Supply::set_start_height_and_inflation(origin(w), h, FixedU128::from_rational(pc, 100))), "inflation" => if h == 8 { s((total * pc / 100, Some(8 + INFLATION_PERIOD))) } else { s((0u128, Some(h))) });
    }
    // locks, by what two accounts could still lock
    for (a, n) in [(30u128, "lockable 30"), (31, "lockable 31")] {
        param!(n, move || { let f = Escrow::free_stakable(&a); s((f, Escrow::create_lock(signed(a), 500, 8).is_ok())) });
    }
    set!("block 30", |w| flat(Escrow::set_account_block(origin(w), 30)), "lockable 30" => s((0u128, false)));
    set!("limit 31", |w| flat(Escrow::set_account_limit(origin(w), 31, 0, 10)), "lockable 31" => s((500u128, true)));
    set!("limit 31 later", |w| flat(Escrow::set_account_limit(origin(w), 31, 1, 21)), "lockable 31" => s((200u128, false)));
    // farming, paid by the treasury
    let pool = Farming::pool_account_id(&LP);
    param!("schedule", move || { let r = Farming::reward_schedules(LP, RW); let t = |a| orml_tokens::Pallet::<Test>::accounts(a, RW).free; s((r.period_count, r.per_period, t(pool), t(TreasuryAccountId::get()))) });
    deny!("more than the treasury has", |w| flat(Farming::update_reward_schedule(origin(w), LP, RW, 1, 601)));
    deny!("rewards over no time", |w| if w == Who::Root && Farming::reward_schedules(LP, RW).period_count > 0 { Err("not tried".into()) } else { flat(Farming::update_reward_schedule(origin(w), LP, RW, 0, 10)) });
    set!("remove the schedule", |w| flat(Farming::remove_reward_schedule(origin(w), LP, RW)), "schedule" => s((0u32, 0u128, 0u128, 600u128)));
    set!("set the schedule afresh", |w| { if w == Who::Root { flat(Farming::remove_reward_schedule(root(), LP, RW))? } flat(Farming::update_reward_schedule(origin(w), LP, RW, 3, 600)) }, "schedule" => s((3u32, 200u128, 600u128, 0u128)));
    Gate { start, setters: v, params: q }
}
