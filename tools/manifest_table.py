BT="bounded exhaustive enumeration of inputs, real code against an independent reference model"
TR2="Trusted: the byte layouts and tables written from the SCALE rules in mc/prim."
TR="Trusted: the reference model in mc/btc/src (written from Bitcoin's rules, cross-checked with rust-bitcoin where it can represent the value), the secp256k1 0.20-to-0.24 API shim."
CLAIMED.update({
"B01":("mc-btc",BT,"Exact for every transaction of the stated product of shapes and boundary lengths; says nothing about lengths away from the boundaries. "+TR),
"B02":("mc-btc",BT,"Every truncation, every single-byte corruption and length-field mutation of the corpus shapes plus all short byte strings; panics, over-reads and lossy decodes are reported. "+TR),
"B03":("mc-btc",BT,"All blocks up to the bound, all positions, every single mutation and all flag patterns for small trees, compared with a recursive reference verifier. "+TR),
"B04":("mc-btc",BT,"All 256 exponents with all mantissa boundaries, all retarget boundaries. "+TR),
"B05":("mc-btc",BT,"All single-byte changes of every template and all short OP_RETURN forms. "+TR),
"B06":("mc-btc",BT,"All key x request-id pairs of the alphabet against an independent secp256k1 (libsecp256k1). Distinctness is checked inside the alphabet only. "+TR),
"B07":("mc-btc",BT,"All type counts around compact-size boundaries. "+TR),
})

MC="explicit-state breadth-first search over operation sequences, every step run on the real pallets (FRAME shim) in lock step with an independent reference model"
SH="Trusted: the FRAME/ORML shim in mc/shim (validated by running the pallets' own unit tests on it, see DESIGN.md) and the reference model."
CLAIMED.update({
"V08":("mc-pools",MC,"Every history up to the stated depth over 2-3 stakers and the stated amounts, compared with exact rationals; histories in which rounding dust is the whole pool are not continued. "+SH),
"V09":("mc-pools",MC,"Every history up to the stated depth over the stated stakers, pools, currencies and amounts, compared with exact rationals. "+SH),
})

BN="Bounded by the depth per starting state, two vaults, one user, one nominator, and amounts that are representatives plus the edges computed from the state. "
CLAIMED.update({
"V01":("mc-bridge",MC,BN+"One known finding (recovery of a liquidated vault with pending issue requests). "+SH),
"V02":("mc-bridge",MC,BN+"Stakes of pools that were slashed before are compared with a tolerance of two units (exact rationals are V08's). "+SH),
"V03":("mc-bridge",MC,BN+"Thresholds are compared with exact integer cross-multiplication. "+SH),
"V04":("mc-bridge",MC,BN+SH),
"V05":("mc-bridge",MC,BN+SH),
"V06":("mc-bridge",MC,BN+SH),
"V07":("mc-bridge",MC,BN+SH),
"V10":("mc-bridge",MC,"Fees are exact for the stated table of rates and amounts; entitlements are exact rationals split when the fee is charged, compared within rounding. Histories in which a pool is slashed twice or completely are not continued (V08). "+SH),
"V11":("mc-bridge",MC,BN+SH),
"V12":("mc-bridge",MC,"Three vaults over two collaterals; every query compared with an independent computation from the observed state after every step of every history within the depth. "+SH),
})

CLAIMED.update({
"R01":("mc-relay",MC,"Every order of submission of every header tree within the bound, for one to three stable confirmations, plus deeper trees from prepared forks. "+SH),
"R02":("mc-relay",MC,"Every single-field change of mined headers through the extrinsic; across retargets headers with given hashes go through the internal storing function, which applies all checks except the parsing. "+SH),
"R03":("mc-relay",MC,"Blocks of two transactions; every forged proof of a fixed list in every explored tree. Other tree shapes are B03's. "+SH),
"R04":("mc-relay",BT,"All transactions of up to four outputs over the stated alphabet. "+SH),
})

CLAIMED.update({
"S01":("mc-base",MC,"Two keys, up to three oracles, a fixed alphabet of values including the largest ones. "+SH),
"S02":("mc-base",MC,"Every history within the depth; secure ids additionally over tens of thousands of requests. Their unpredictability is not claimed. "+SH),
"S03":("mc-base",MC,"Three accounts, a span of 4 and a maximum period of 12 blocks; every height up to the end of all locks is compared in every state. "+SH),
"S04":("mc-base",MC,"Two stakers, an emission period of four blocks; the reward providers are copies of the runtime's. Two known findings (the escrow annuity can promise more than it holds). "+SH),
"M02":("mc-prim",BT,"All values of a stated alphabet, request records with every pair of fields at their edges, all short byte strings. "+TR2),
"M01":("mc-base",BT,"All pairs of operands at the edges of every representation, all conversions between eight currencies at the edges of prices. "+SH),
"X04":("mc-base",MC,"One to two pools, rewards and depositors; dust of less than one unit per period is left open. "+SH),
})

CLAIMED.update({
"C01":("mc-swap","stateless model checking: every call sequence up to a depth, replayed on the real contract in ink's off-chain environment in lock step with a reference model","Two makers, three executors, nine payments; the chain extension is a stand-in. A payment proof may be used again for a later order of the same maker (the contract's documented flaw, not part of the property). Trusted: ink's off-chain environment."),
"C02":("mc-flip","stateless model checking: every call sequence up to a depth on the real contract in ink's off-chain environment","Sequences of flip and get up to the stated length. Trusted: ink's off-chain environment."),
})

CLAIMED.update({
"X01":("mc-dex",MC,"Three pools over three tokens, at unit sizes from one to the largest reserves, edge amounts computed from the state; bootstraps with two contributors and two pairs. One known finding (rewards withdrawn after claims). "+SH),
})

CLAIMED.update({
"L01":("mc-loan",MC,"Two active markets and a pending one, three users, amounts from one unit to 10^15; every recorded balance, debt and total is compared after every step. "+SH),
"L02":("mc-loan",MC,"Elapsed times from one second to a year, three rate models in the histories and 93 at every utilisation (thorough). The recorded index may deviate by the rounding of 18 digits. "+SH),
"L03":("mc-loan",MC,"Amounts at, below and above every account's limits, computed from the state; one price at a time. Interest of markets without collateral counts as of their last accrual. "+SH),
"L04":("mc-loan",MC,"Three users, two markets; after every step what each account could claim is compared. "+SH),
"X02":("mc-dex",MC,"One base pool of three currencies with different decimals and one meta pool, balances within a ratio of 10^4. "+SH),
"X03":("mc-dex",MC,"Every route over a bounded set of pools, alone and in short sequences. "+SH),
"G01":("mc-gov",MC,"Three voters, two to three proposals, periods of a few blocks; scheduler and preimage pallets are the shim's. "+SH),
"G02":("mc-gov",MC,"Every pause and unpause sequence over the alphabet, every call directly, in batches and through proxies. "+SH),
"G03":("mc-gov",MC,"Seven accounts, sessions of a few blocks; session and authorship pallets are the shim's. "+SH),
"G04":("mc-pay",MC,"The product of eight situations and all transactions of an alphabet of calls, paths, limits, tips and refunds, and short sequences; transaction-payment is the shim's. "+SH),
"G05":("mc-gov",MC,"Two clients, two releases; every call sequence within the depth. "+SH),
"G06":("mc-gate",MC,"All parameter-setting calls of twelve pallets by root, signed and authorised origins, with values on and around their limits; every call sequence within the depth, the complete storage compared with the specified one. "+SH),
})

RT="The runtime's own text (configuration, filters, reward and fee wiring, XCM configuration) is compiled on the FRAME/ORML shim by a build script; XCM, EVM, contracts and other foreign pallets are stand-ins with the real ones' interface. "
CLAIMED.update({
"T01":("mc-chain",MC,"Both runtimes; one staker, two capacity pools, two authors, four inflation rates. What stakers are owed is compared up to rounding. "+RT+SH),
"T02":("mc-chain","stateless model checking: every call of the runtime under every enumerated set of pauses, alone and in every chain of up to two wrapping calls, on the runtime's real filters","Both runtimes; the list of calls comes from the call types themselves. "+RT+SH),
"T03":("mc-chain","bounded-exhaustive enumeration of identifiers, locations, instruction sequences and payments on the runtime's real conversion, barrier and trader","Both runtimes; the barriers and traders of xcm-builder and orml are re-implementations of the pinned versions. "+RT+SH),
"T04":("mc-chain",MC,"Kintsugi only; inclusion proofs are the business of R03 (inclusion checks are switched off except in one case). "+RT+SH),
})
