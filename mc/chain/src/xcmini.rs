//! Small models of the parts of the XCM crates the runtimes' own code is written against. Only behaviour the runtimes rely on is
//! modelled; each piece follows the upstream crate of the pinned release.
pub mod xcm {
    pub mod opaque { pub mod latest { pub use crate::xcmini::xcm::latest::BodyId; } }
    pub mod latest {
        pub use frame_support::weights::Weight;
        use codec::{Decode, Encode, MaxEncodedLen};
        use scale_info::TypeInfo;
        pub mod prelude { pub use super::{*, Junction::{self, *}, Junctions::{self, *}, AssetId::{self, *}, Fungibility::{self, *}, NetworkId::{self, *}, Instruction::{self, *}}; }
        macro_rules! d { ($($i:item)*) => { $(#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)] $i)* } }
        d! {
            pub enum NetworkId { ByGenesis([u8; 32]), Polkadot, Kusama, Westend, Rococo }
            pub enum BodyId { Unit, Executive, Technical }
            pub enum Junction { Parachain(#[codec(compact)] u32), AccountId32 { network: Option<NetworkId>, id: [u8; 32] }, PalletInstance(u8), GeneralIndex(#[codec(compact)] u128), GeneralKey { length: u8, data: [u8; 32] }, OnlyChild, GlobalConsensus(NetworkId) }
            pub enum Junctions { Here, X1(Junction), X2(Junction, Junction), X3(Junction, Junction, Junction) }
            pub struct MultiLocation { pub parents: u8, pub interior: Junctions }
            pub enum AssetId { Concrete(MultiLocation), Abstract([u8; 32]) }
            pub enum Fungibility { Fungible(#[codec(compact)] u128), NonFungible(u8) }
            pub struct MultiAsset { pub id: AssetId, pub fun: Fungibility }
        }
        pub type InteriorMultiLocation = Junctions;
        impl MultiLocation {
            pub const fn parent() -> Self { MultiLocation { parents: 1, interior: Junctions::Here } }
            pub const fn here() -> Self { MultiLocation { parents: 0, interior: Junctions::Here } }
            pub fn new(parents: u8, interior: impl Into<Junctions>) -> Self { MultiLocation { parents, interior: interior.into() } }
            pub fn first_interior(&self) -> Option<&Junction> { match &self.interior { Junctions::Here => None, Junctions::X1(a) | Junctions::X2(a, _) | Junctions::X3(a, _, _) => Some(a) } }
        }
        impl From<Junctions> for MultiLocation { fn from(interior: Junctions) -> Self { MultiLocation { parents: 0, interior } } }
        impl From<Junction> for Junctions { fn from(j: Junction) -> Self { Junctions::X1(j) } }
        impl From<Junction> for MultiLocation { fn from(j: Junction) -> Self { Junctions::X1(j).into() } }
        impl From<MultiLocation> for AssetId { fn from(l: MultiLocation) -> Self { AssetId::Concrete(l) } }
        /// instructions of a message; those that only differ in what the executor does with them are represented by `Other`
        #[derive(Clone, PartialEq, Debug)]
        pub enum Instruction<Call> {
            WithdrawAsset(Vec<MultiAsset>), ReserveAssetDeposited(Vec<MultiAsset>), ReceiveTeleportedAsset(Vec<MultiAsset>), ClaimAsset { assets: Vec<MultiAsset>, ticket: MultiLocation },
            QueryResponse { query_id: u64, querier: Option<MultiLocation> },
            Transact { origin_kind: u8, require_weight_at_most: Weight, call: DoubleEncoded<Call> },
            ClearOrigin, DescendOrigin(Junctions), BuyExecution { fees: MultiAsset, weight_limit: WeightLimit }, DepositAsset { beneficiary: MultiLocation },
            SubscribeVersion { query_id: u64, max_response_weight: Weight }, UnsubscribeVersion, Other(u8),
            /// a program sent on to another chain, which may itself contain transactions
            TransferReserveAsset { dest: MultiLocation, xcm: Vec<Instruction<()>> },
            SetErrorHandler(Vec<Instruction<Call>>), SetAppendix(Vec<Instruction<Call>>),
        }
        pub struct DoubleEncoded<Call> { pub encoded: Vec<u8>, pub of: core::marker::PhantomData<Call> }
        impl<C> Clone for DoubleEncoded<C> { fn clone(&self) -> Self { DoubleEncoded { encoded: self.encoded.clone(), of: Default::default() } } }
        impl<C> PartialEq for DoubleEncoded<C> { fn eq(&self, o: &Self) -> bool { self.encoded == o.encoded } }
        impl<C> core::fmt::Debug for DoubleEncoded<C> { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { write!(f, "{:?}", self.encoded) } }
        #[derive(Clone, Copy, PartialEq, Debug)] pub enum WeightLimit { Unlimited, Limited(Weight) }
        #[derive(Clone, Copy, PartialEq, Eq, Debug)] pub enum Error { TooExpensive, AssetNotFound, Overflow }
        pub type XcmError = Error;
        pub struct XcmContext;
    }
}
pub mod xcm_executor {
    pub mod traits {
        use super::super::xcm::latest::*;
        pub use frame_support::traits::ProcessMessageError;
        #[derive(Clone, Debug, Default)] pub struct Properties { pub weight_credit: Weight, pub message_id: Option<[u8; 32]> }
        pub trait ShouldExecute { fn should_execute<Call>(origin: &MultiLocation, instructions: &mut [Instruction<Call>], max_weight: Weight, properties: &mut Properties) -> Result<(), ProcessMessageError>; }
        macro_rules! t { ($($a:ident),*) => { impl<$($a: ShouldExecute),*> ShouldExecute for ($($a,)*) {
            fn should_execute<Call>(o: &MultiLocation, i: &mut [Instruction<Call>], w: Weight, p: &mut Properties) -> Result<(), ProcessMessageError> { $( if $a::should_execute(o, i, w, p).is_ok() { return Ok(()) } )* Err(ProcessMessageError::Unsupported) }
        } } }
        t!(A, B); t!(A, B, C); t!(A, B, C, D); t!(A, B, C, D, E);
        pub trait WeightTrader: Sized { fn new() -> Self; fn buy_weight(&mut self, weight: Weight, payment: Assets) -> Result<Assets, XcmError>; fn refund_weight(&mut self, _w: Weight) -> Option<MultiAsset> { None } }
        macro_rules! w { ($($a:ident $i:tt),*) => { impl<$($a: WeightTrader),*> WeightTrader for ($($a,)*) {
            fn new() -> Self { ($($a::new(),)*) }
            fn buy_weight(&mut self, weight: Weight, payment: Assets) -> Result<Assets, XcmError> { let mut too = false; $( match self.$i.buy_weight(weight, payment.clone()) { Ok(a) => return Ok(a), Err(Error::TooExpensive) => too = true, Err(_) => {} } )* Err(if too { Error::TooExpensive } else { Error::AssetNotFound }) }
            fn refund_weight(&mut self, w: Weight) -> Option<MultiAsset> { $( if let Some(a) = self.$i.refund_weight(w) { return Some(a) } )* None }
        } } }
        w!(A 0, B 1); w!(A 0, B 1, C 2); w!(A 0, B 1, C 2, D 3); w!(A 0, B 1, C 2, D 3, E 4); w!(A 0, B 1, C 2, D 3, E 4, F 5); w!(A 0, B 1, C 2, D 3, E 4, F 5, G 6); w!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7);
        /// the assets offered as payment
        #[derive(Clone, Debug, PartialEq, Default)] pub struct Assets(pub std::collections::BTreeMap<AssetId, u128>);
        impl Assets { pub fn take(&mut self, id: AssetId, amount: u128) -> bool { match self.0.get_mut(&id) { Some(x) if *x >= amount => { *x -= amount; if *x == 0 { self.0.remove(&id); } true } _ => false } } }
    }
}
pub mod xcm_builder {
    use super::xcm::latest::*;
    use super::xcm_executor::traits::*;
    use core::marker::PhantomData;
    use frame_support::traits::{Contains, Get};
    pub trait TakeRevenue { fn take_revenue(revenue: MultiAsset); }
    impl TakeRevenue for () { fn take_revenue(_: MultiAsset) {} }
    pub struct TakeWeightCredit;
    impl ShouldExecute for TakeWeightCredit {
        fn should_execute<Call>(_: &MultiLocation, _: &mut [Instruction<Call>], max_weight: Weight, p: &mut Properties) -> Result<(), ProcessMessageError> {
            p.weight_credit = p.weight_credit.checked_sub(&max_weight).ok_or(ProcessMessageError::Overweight(max_weight))?; Ok(()) }
    }
    pub struct AllowTopLevelPaidExecutionFrom<T>(PhantomData<T>);
    impl<T: Contains<MultiLocation>> ShouldExecute for AllowTopLevelPaidExecutionFrom<T> {
        fn should_execute<Call>(o: &MultiLocation, i: &mut [Instruction<Call>], max_weight: Weight, _: &mut Properties) -> Result<(), ProcessMessageError> {
            if !T::contains(o) { return Err(ProcessMessageError::Unsupported) }
            let end = i.len().min(5);
            let mut k = 0;
            match i[..end].first() { Some(Instruction::WithdrawAsset(..) | Instruction::ReserveAssetDeposited(..) | Instruction::ReceiveTeleportedAsset(..) | Instruction::ClaimAsset { .. }) => k += 1, _ => return Err(ProcessMessageError::BadFormat) }
            while k < end && matches!(i[k], Instruction::ClearOrigin) { k += 1 }
            match i[..end].get_mut(k) {
                Some(Instruction::BuyExecution { weight_limit: WeightLimit::Limited(w), .. }) if w.all_gte(max_weight) => { *w = max_weight; Ok(()) }
                Some(Instruction::BuyExecution { weight_limit: l @ WeightLimit::Unlimited, .. }) => { *l = WeightLimit::Limited(max_weight); Ok(()) }
                _ => Err(ProcessMessageError::Overweight(max_weight)) }
        }
    }
    pub struct AllowKnownQueryResponses<T>(PhantomData<T>);
    impl<T> ShouldExecute for AllowKnownQueryResponses<T> {
        // the only response that is expected is number 7 from the relay chain
        fn should_execute<Call>(o: &MultiLocation, i: &mut [Instruction<Call>], _: Weight, _: &mut Properties) -> Result<(), ProcessMessageError> {
            match i { [Instruction::QueryResponse { query_id: 7, .. }] if *o == MultiLocation::parent() => Ok(()), _ => Err(ProcessMessageError::BadFormat) } }
    }
    pub struct AllowSubscriptionsFrom<T>(PhantomData<T>);
    impl<T: Contains<MultiLocation>> ShouldExecute for AllowSubscriptionsFrom<T> {
        fn should_execute<Call>(o: &MultiLocation, i: &mut [Instruction<Call>], _: Weight, _: &mut Properties) -> Result<(), ProcessMessageError> {
            match i { [Instruction::SubscribeVersion { .. } | Instruction::UnsubscribeVersion] if T::contains(o) => Ok(()), _ => Err(ProcessMessageError::BadFormat) } }
    }
    pub struct FixedRateOfFungible<T: Get<(AssetId, u128, u128)>, R: TakeRevenue>(Weight, u128, PhantomData<(T, R)>);
    impl<T: Get<(AssetId, u128, u128)>, R: TakeRevenue> WeightTrader for FixedRateOfFungible<T, R> {
        fn new() -> Self { Self(Weight::zero(), 0, PhantomData) }
        fn buy_weight(&mut self, weight: Weight, mut payment: Assets) -> Result<Assets, XcmError> {
            let (id, per_second, per_mb) = T::get();
            let amount = per_second * weight.ref_time() as u128 / frame_support::weights::constants::WEIGHT_REF_TIME_PER_SECOND as u128 + per_mb * weight.proof_size() as u128 / 1_048_576;
            if amount == 0 { return Ok(payment) }
            if !payment.take(id, amount) { return Err(Error::TooExpensive) }
            self.0 = self.0.saturating_add(weight); self.1 = self.1.saturating_add(amount); Ok(payment)
        }
    }
    impl<T: Get<(AssetId, u128, u128)>, R: TakeRevenue> Drop for FixedRateOfFungible<T, R> { fn drop(&mut self) { if self.1 > 0 { R::take_revenue(MultiAsset { id: T::get().0, fun: Fungibility::Fungible(self.1) }) } } }
    pub struct FixedWeightBounds<T, C, M>(PhantomData<(T, C, M)>);
    /// orml_asset_registry: the price of a registered asset, per second of weight
    pub trait FixedConversionRateProvider { fn get_fee_per_second(location: &MultiLocation) -> Option<u128>; }
    pub struct FixedRateAssetRegistryTrader<P>(PhantomData<P>);
    pub struct AssetRegistryTrader<W, R: TakeRevenue>(Option<MultiAsset>, PhantomData<(W, R)>);
    impl<P: FixedConversionRateProvider, R: TakeRevenue> WeightTrader for AssetRegistryTrader<FixedRateAssetRegistryTrader<P>, R> {
        fn new() -> Self { Self(None, PhantomData) }
        fn buy_weight(&mut self, weight: Weight, mut payment: Assets) -> Result<Assets, XcmError> {
            let (id, _) = payment.0.iter().next().map(|(a, b)| (*a, *b)).ok_or(Error::AssetNotFound)?;
            let AssetId::Concrete(l) = id else { return Err(Error::AssetNotFound) };
            if self.0.map_or(false, |a| a.id != id) { return Err(Error::AssetNotFound) }
            let fee = P::get_fee_per_second(&l).ok_or(Error::AssetNotFound)?;
            let amount = fee * weight.ref_time() as u128 / frame_support::weights::constants::WEIGHT_REF_TIME_PER_SECOND as u128;
            if !payment.take(id, amount) { return Err(Error::TooExpensive) }
            let had = match self.0 { Some(MultiAsset { fun: Fungibility::Fungible(x), .. }) => x, _ => 0 };
            self.0 = Some(MultiAsset { id, fun: Fungibility::Fungible(had + amount) }); Ok(payment)
        }
    }
    impl<W, R: TakeRevenue> Drop for AssetRegistryTrader<W, R> { fn drop(&mut self) { if let Some(a) = self.0 { R::take_revenue(a) } } }
}
