//! Pallets and executor types that interbtc takes from elsewhere and that have no model here: their calls exist with the names and the
//! nested calls they have upstream, so that filters can be asked about them; dispatching them does nothing.
macro_rules! stub { ($n:ident; $($f:ident),*) => { stub!($n; ; $($f),*); };
    ($n:ident; $($nest:ident),*; $($f:ident),*) => {
    #[frame_support::pallet]
    pub mod $n {
        use frame_support::pallet_prelude::*;
        use frame_system::pallet_prelude::*;
        #[pallet::config]
        pub trait Config: frame_system::Config {}
        #[pallet::pallet]
        #[pallet::without_storage_info]
        pub struct Pallet<T>(_);
        #[pallet::call]
        impl<T: Config> Pallet<T> {
            $( #[pallet::weight(0)] pub fn $nest(_origin: OriginFor<T>, _call: Box<<T as frame_system::Config>::RuntimeCall>) -> DispatchResultWithPostInfo { Ok(().into()) } )*
            $( #[pallet::weight(0)] pub fn $f(_origin: OriginFor<T>) -> DispatchResultWithPostInfo { Ok(().into()) } )*
        }
    } } }
stub!(pallet_sudo; sudo, sudo_unchecked_weight, sudo_as; set_key);
stub!(pallet_multisig; as_multi_threshold_1, as_multi; approve_as_multi, cancel_as_multi);
stub!(pallet_identity; add_registrar, set_identity, set_subs, clear_identity, request_judgement, cancel_request, set_fee, set_account_id, set_fields, provide_judgement, kill_identity, add_sub, rename_sub, remove_sub, quit_sub);
stub!(orml_vesting; claim, vested_transfer, update_vesting_schedules, claim_for);
stub!(pallet_membership; add_member, remove_member, swap_member, reset_members, change_key, set_prime, clear_prime);
stub!(cumulus_pallet_parachain_system; set_validation_data, sudo_send_upward_message, authorize_upgrade, enact_authorized_upgrade);
stub!(cumulus_pallet_xcmp_queue; service_overweight, suspend_xcm_execution, resume_xcm_execution, update_suspend_threshold, update_drop_threshold, update_resume_threshold);
stub!(cumulus_pallet_xcm; );
stub!(cumulus_pallet_dmp_queue; service_overweight);
stub!(cumulus_pallet_aura_ext; );
stub!(orml_xtokens; transfer, transfer_multiasset, transfer_with_fee, transfer_multiasset_with_fee, transfer_multicurrencies, transfer_multiassets);
stub!(orml_unknown_tokens; );
stub!(pallet_base_fee; set_base_fee_per_gas, set_elasticity);
/// parachain_info: the chain's own id
#[frame_support::pallet]
pub mod parachain_info {
    use frame_support::pallet_prelude::*;
    #[pallet::config]
    pub trait Config: frame_system::Config {}
    #[pallet::pallet]
    #[pallet::without_storage_info]
    pub struct Pallet<T>(_);
    #[derive(Clone, Copy, PartialEq, Eq, Debug)] pub struct ParaId(pub u32);
    impl From<u32> for ParaId { fn from(x: u32) -> Self { ParaId(x) } }
    impl From<ParaId> for u32 { fn from(x: ParaId) -> u32 { x.0 } }
    pub const OWN: u32 = 2032;
    impl<T> Pallet<T> { pub fn parachain_id() -> ParaId { ParaId(OWN) } }
    impl<T> Get<ParaId> for Pallet<T> { fn get() -> ParaId { ParaId(OWN) } }
    impl<T> Pallet<T> { pub fn get() -> ParaId { ParaId(OWN) } }
}
/// orml_asset_registry: what is registered, by id and by location
#[frame_support::pallet]
pub mod orml_asset_registry {
    use frame_support::pallet_prelude::*;
    use frame_system::pallet_prelude::*;
    use crate::xcmini::xcm::latest::MultiLocation;
    pub struct SequentialId<T>(core::marker::PhantomData<T>);
    #[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, TypeInfo)]
    pub struct AssetMetadata<Balance, Custom> { pub decimals: u32, pub name: Vec<u8>, pub symbol: Vec<u8>, pub existential_deposit: Balance, pub location: Option<MultiLocation>, pub additional: Custom }
    #[pallet::config]
    pub trait Config: frame_system::Config { type AssetId: Parameter + Member + MaybeSerializeDeserialize + MaxEncodedLen + Copy; type CustomMetadata: Parameter + Member; type Balance: Parameter + Member; type AuthorityOrigin; type AssetProcessor; type WeightInfo; }
    #[pallet::pallet]
    #[pallet::without_storage_info]
    pub struct Pallet<T>(_);
    #[pallet::storage]
    pub type Metadata<T: Config> = StorageMap<_, Twox64Concat, T::AssetId, AssetMetadata<T::Balance, T::CustomMetadata>>;
    #[pallet::storage]
    pub type LocationToAssetId<T: Config> = StorageMap<_, Twox64Concat, MultiLocation, T::AssetId>;
    #[pallet::call]
    impl<T: Config> Pallet<T> {
        #[pallet::weight(0)] pub fn register_asset(_origin: OriginFor<T>) -> DispatchResultWithPostInfo { Ok(().into()) }
        #[pallet::weight(0)] pub fn update_asset(_origin: OriginFor<T>) -> DispatchResultWithPostInfo { Ok(().into()) }
    }
    impl<T: Config> Pallet<T> {
        pub fn metadata(id: &T::AssetId) -> Option<AssetMetadata<T::Balance, T::CustomMetadata>> { Metadata::<T>::get(id) }
        pub fn multilocation(id: &T::AssetId) -> Result<Option<MultiLocation>, DispatchError> { Ok(Metadata::<T>::get(id).and_then(|m| m.location)) }
        pub fn location_to_asset_id(l: &MultiLocation) -> Option<T::AssetId> { LocationToAssetId::<T>::get(l) }
        pub fn fetch_metadata_by_location(l: &MultiLocation) -> Option<AssetMetadata<T::Balance, T::CustomMetadata>> { Metadata::<T>::get(LocationToAssetId::<T>::get(l)?) }
    }
}
#[frame_support::pallet]
pub mod pallet_xcm {
    use frame_support::pallet_prelude::*;
    use frame_system::pallet_prelude::*;
    #[pallet::config]
    pub trait Config: frame_system::Config {}
    #[pallet::pallet]
    #[pallet::without_storage_info]
    pub struct Pallet<T>(_);
    #[pallet::call]
    impl<T: Config> Pallet<T> {
        #[pallet::weight(0)] pub fn send(_origin: OriginFor<T>) -> DispatchResultWithPostInfo { Ok(().into()) }
        #[pallet::weight(0)] pub fn teleport_assets(_origin: OriginFor<T>) -> DispatchResultWithPostInfo { Ok(().into()) }
        #[pallet::weight(0)] pub fn reserve_transfer_assets(_origin: OriginFor<T>) -> DispatchResultWithPostInfo { Ok(().into()) }
        #[pallet::weight(0)] pub fn execute(_origin: OriginFor<T>) -> DispatchResultWithPostInfo { Ok(().into()) }
        #[pallet::weight(0)] pub fn force_xcm_version(_origin: OriginFor<T>) -> DispatchResultWithPostInfo { Ok(().into()) }
        #[pallet::weight(0)] pub fn force_default_xcm_version(_origin: OriginFor<T>) -> DispatchResultWithPostInfo { Ok(().into()) }
        #[pallet::weight(0)] pub fn force_subscribe_version_notify(_origin: OriginFor<T>) -> DispatchResultWithPostInfo { Ok(().into()) }
        #[pallet::weight(0)] pub fn force_unsubscribe_version_notify(_origin: OriginFor<T>) -> DispatchResultWithPostInfo { Ok(().into()) }
        #[pallet::weight(0)] pub fn limited_reserve_transfer_assets(_origin: OriginFor<T>) -> DispatchResultWithPostInfo { Ok(().into()) }
        #[pallet::weight(0)] pub fn limited_teleport_assets(_origin: OriginFor<T>) -> DispatchResultWithPostInfo { Ok(().into()) }
        #[pallet::weight(0)] pub fn force_suspension(_origin: OriginFor<T>) -> DispatchResultWithPostInfo { Ok(().into()) }
    }
    pub struct EnsureXcm<F>(core::marker::PhantomData<F>);
    impl<O, F> frame_support::traits::EnsureOrigin<O> for EnsureXcm<F> { type Success = (); fn try_origin(o: O) -> Result<(), O> { Err(o) } }
    pub struct IsMajorityOfBody<P, B>(core::marker::PhantomData<(P, B)>);
}
#[frame_support::pallet]
pub mod pallet_collective {
    use frame_support::pallet_prelude::*;
    use frame_system::pallet_prelude::*;
    pub use frame_support::instances::*;
    #[pallet::config]
    pub trait Config<I: 'static = ()>: frame_system::Config {}
    #[pallet::pallet]
    #[pallet::without_storage_info]
    pub struct Pallet<T, I = ()>(_);
    #[pallet::call]
    impl<T: Config<I>, I: 'static> Pallet<T, I> {
        #[pallet::weight(0)] pub fn set_members(_origin: OriginFor<T>) -> DispatchResultWithPostInfo { Ok(().into()) }
        #[pallet::weight(0)] pub fn execute(_origin: OriginFor<T>, _call: Box<<T as frame_system::Config>::RuntimeCall>) -> DispatchResultWithPostInfo { Ok(().into()) }
        #[pallet::weight(0)] pub fn propose(_origin: OriginFor<T>, _call: Box<<T as frame_system::Config>::RuntimeCall>) -> DispatchResultWithPostInfo { Ok(().into()) }
        #[pallet::weight(0)] pub fn vote(_origin: OriginFor<T>) -> DispatchResultWithPostInfo { Ok(().into()) }
        #[pallet::weight(0)] pub fn close(_origin: OriginFor<T>) -> DispatchResultWithPostInfo { Ok(().into()) }
        #[pallet::weight(0)] pub fn disapprove_proposal(_origin: OriginFor<T>) -> DispatchResultWithPostInfo { Ok(().into()) }
    }
    pub struct EnsureProportionAtLeast<A, I, const N: u32, const D: u32>(core::marker::PhantomData<(A, I)>);
    impl<O, A, I, const N: u32, const D: u32> frame_support::traits::EnsureOrigin<O> for EnsureProportionAtLeast<A, I, N, D> { type Success = (); fn try_origin(o: O) -> Result<(), O> { Err(o) } }
    pub struct PrimeDefaultVote;
}
/// Ethereum transactions: what the runtimes look at is whether they create a contract
#[frame_support::pallet]
pub mod pallet_ethereum {
    use frame_support::pallet_prelude::*;
    use frame_system::pallet_prelude::*;
    use sp_core::H160;
    #[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, TypeInfo)] pub enum TransactionAction { Call(H160), Create }
    #[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, TypeInfo)] pub struct Body { pub action: TransactionAction, pub signer: Option<H160> }
    #[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, TypeInfo)] pub enum Transaction { Legacy(Body), EIP2930(Body), EIP1559(Body) }
    impl Transaction { fn signer(&self) -> Option<H160> { match self { Transaction::Legacy(b) | Transaction::EIP2930(b) | Transaction::EIP1559(b) => b.signer } } }
    #[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, TypeInfo)] pub enum PostLogContent { BlockAndTxnHashes, OnlyBlockHash }
    pub enum RawOrigin { EthereumTransaction(H160) }
    #[pallet::config]
    pub trait Config: frame_system::Config {}
    #[pallet::pallet]
    #[pallet::without_storage_info]
    pub struct Pallet<T>(_);
    #[pallet::call]
    impl<T: Config> Pallet<T> { #[pallet::weight(0)] pub fn transact(_origin: OriginFor<T>, transaction: Transaction) -> DispatchResultWithPostInfo { let _ = transaction; Ok(().into()) } }
    use sp_runtime::transaction_validity::*;
    impl<T: Config> Call<T> {
        pub fn is_self_contained(&self) -> bool { matches!(self, Call::transact { .. }) }
        pub fn check_self_contained(&self) -> Option<Result<H160, TransactionValidityError>> { match self { Call::transact { transaction } => Some(transaction.signer().ok_or(InvalidTransaction::BadProof.into())), _ => None } }
        pub fn validate_self_contained(&self, _: &H160, _: &frame_support::dispatch::DispatchInfo, _: usize) -> Option<TransactionValidity> { Some(Ok(Default::default())) }
        pub fn pre_dispatch_self_contained(&self, _: &H160, _: &frame_support::dispatch::DispatchInfo, _: usize) -> Option<Result<(), TransactionValidityError>> { Some(Ok(())) }
    }
}
stub!(pallet_evm; withdraw, call, create, create2);
#[frame_support::pallet]
pub mod pallet_evm_chain_id {
    use frame_support::pallet_prelude::*;
    #[pallet::config]
    pub trait Config: frame_system::Config {}
    #[pallet::pallet]
    #[pallet::without_storage_info]
    pub struct Pallet<T>(_);
    #[pallet::storage]
    pub type ChainId<T> = StorageValue<_, u64, ValueQuery>;
}
/// smart contracts: what the runtimes provide is the chain extension
#[frame_support::pallet]
pub mod pallet_contracts {
    use frame_support::pallet_prelude::*;
    use frame_system::pallet_prelude::*;
    #[pallet::config]
    pub trait Config: frame_system::Config {}
    #[pallet::pallet]
    #[pallet::without_storage_info]
    pub struct Pallet<T>(_);
    #[pallet::call]
    impl<T: Config> Pallet<T> {
        #[pallet::weight(0)] pub fn call(_origin: OriginFor<T>) -> DispatchResultWithPostInfo { Ok(().into()) }
        #[pallet::weight(0)] pub fn instantiate_with_code(_origin: OriginFor<T>) -> DispatchResultWithPostInfo { Ok(().into()) }
        #[pallet::weight(0)] pub fn instantiate(_origin: OriginFor<T>) -> DispatchResultWithPostInfo { Ok(().into()) }
        #[pallet::weight(0)] pub fn upload_code(_origin: OriginFor<T>) -> DispatchResultWithPostInfo { Ok(().into()) }
        #[pallet::weight(0)] pub fn remove_code(_origin: OriginFor<T>) -> DispatchResultWithPostInfo { Ok(().into()) }
    }
    pub mod chain_extension {
        use sp_runtime::DispatchError;
        use codec::Decode;
        use core::marker::PhantomData;
        #[derive(Debug, PartialEq, Eq)] pub enum RetVal { Converging(u32), Diverging { flags: u32, data: Vec<u8> } }
        pub use frame_system::Config as SysConfig;
        pub trait Ext { type T: SysConfig; }
        pub struct InitState; pub struct BufInBufOut;
        /// the contract's call: function number, input bytes, and where the answer goes
        pub struct Environment<'a, E, S> { pub id: u16, pub input: Vec<u8>, pub out: &'a mut Option<Vec<u8>>, pub of: PhantomData<(E, S)> }
        impl<'a, E, S> Environment<'a, E, S> { pub fn func_id(&self) -> u16 { self.id } }
        impl<'a, E> Environment<'a, E, InitState> { pub fn buf_in_buf_out(self) -> Environment<'a, E, BufInBufOut> { Environment { id: self.id, input: self.input, out: self.out, of: PhantomData } } }
        impl<'a, E> Environment<'a, E, BufInBufOut> {
            pub fn in_len(&self) -> u32 { self.input.len() as u32 }
            pub fn read_as_unbounded<T: Decode>(&mut self, len: u32) -> Result<T, DispatchError> { let mut b = &self.input[..(len as usize).min(self.input.len())]; T::decode(&mut b).map_err(|_| DispatchError::Other("DecodingFailed")) }
            pub fn write(&mut self, b: &[u8], _: bool, _: Option<u64>) -> Result<(), DispatchError> { *self.out = Some(b.to_vec()); Ok(()) }
        }
        pub trait ChainExtension<C> { fn call<E: Ext>(&mut self, env: Environment<E, InitState>) -> Result<RetVal, DispatchError> where <E::T as SysConfig>::AccountId: sp_core::crypto::UncheckedFrom<<E::T as SysConfig>::Hash> + AsRef<[u8]>; fn enabled() -> bool { true } }
    }
}
