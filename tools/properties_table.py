# ---------------------------------------------------------------- Bitcoin library
p("B01", "Transaction encoding and identifiers follow Bitcoin's wire format",
  """Encoding a transaction yields exactly the bytes Bitcoin's wire format prescribes (legacy and segwit forms, compact
  sizes, coinbase height, lock time), its txid is the double SHA-256 of the witness-free encoding and is the same for
  every witness, and the bounded-length encoder and txid fail exactly when the encoding exceeds the given bound.
  Decoding an encoded transaction, block header or compact integer gives back the same value.""",
  ["inputs"], "every transaction shape, script and witness length (including every compact-size boundary), version, sequence and lock time",
  "the tests encode a few fixed mainnet transactions; lengths at the 0xfd/0xffff/0x10000 boundaries, empty scripts and odd witness stacks are never tried",
  [BT+"formatter.rs", BT+"parser.rs", BT+"types.rs"],
  [("TryFormat for Transaction/TransactionInput/TransactionOutput/CompactUint", BT+"formatter.rs"), ("BoundedWriter", BT+"formatter.rs"), ("Transaction::tx_id, tx_id_bounded", BT+"types.rs")],
  observe=["Transaction::tx_id", "Transaction::size_bytes", "TryFormat::try_format", "parse_transaction"])
p("B02", "Parsing untrusted Bitcoin bytes is total and bounded by the input",
  """Decoding arbitrary bytes as a transaction, header, compact integer, merkle proof, script or address returns a value or
  an error, never aborts, and every successful decode consumed only bytes that were really there.
  A successfully decoded transaction whose compact sizes are in shortest form (and whose coinbase height is minimally
  pushed) re-encodes to exactly the bytes that were consumed.""",
  ["inputs"], "every byte string, including every truncation and every single-field corruption of valid encodings",
  "the tests feed well-formed mainnet data plus a handful of hand-written bad cases; the interesting inputs are the adversarial ones a relayer or user can submit in an extrinsic",
  [BT+"parser.rs", BT+"script.rs", BT+"merkle.rs", BT+"address.rs"],
  [("BytesParser bounds checks", BT+"parser.rs"), ("Parsable", BT+"parser.rs")],
  observe=["parse_transaction", "parse_block_header", "parse_compact_uint", "MerkleProof::parse", "Script::*"])
p("B03", "A merkle proof is accepted exactly for transactions in the block",
  """For every block and every transaction in it, the proof built for that transaction verifies against the block's merkle
  root and yields its transaction id and position.  No proof whose hashes, flag bits, transaction count or claimed transaction differ from a correct
  one verifies to the same root with a different result, malformed proofs are rejected the way Bitcoin Core's partial merkle tree
  rejects them, and the encoded proof decodes to itself.""",
  ["inputs"], "every transaction count up to the bound, every position, and every single mutation of hashes, flag bits and counts",
  "the tests verify a few mainnet proofs; soundness is a statement about all forged proofs",
  [BT+"merkle.rs"], [("MerkleProof::verify_proof / traverse_and_extract", BT+"merkle.rs"), ("MerkleTree::compute_root, compute_width, compute_partial", BT+"merkle.rs")],
  observe=["MerkleProof::verify_proof", "MerkleProof::parse", "PartialTransactionProof", "MerkleTree::compute_root"])
p("B04", "Difficulty targets and retargeting follow Bitcoin consensus",
  """The target encoded in a header's compact bits is decoded and encoded as Bitcoin consensus does, the target for the next
  2016-block period is the old one scaled by the measured timespan clamped to [1/4, 4] of two weeks and limited to the
  network maximum, rounded down to compact precision.""",
  ["inputs"], "every compact exponent with every mantissa boundary, every timespan boundary, and every target that is a power of two, a compact boundary or next to one",
  "the tests check three mainnet retargets; sign bit, overflow, exponent 0..3 and clamp boundaries are not sampled",
  [BT+"pow.rs", BT+"parser.rs", BT+"types.rs", BT+"math.rs"],
  [("calculate_next_work_required", BT+"pow.rs"), ("parse_compact target", BT+"pow.rs"), ("RawBlockHeader hash / header target", BT+"types.rs")],
  observe=["calculate_next_work_required", "target_set_compact", "target_get_compact", "BlockHeader::target"])
p("B05", "Addresses and scripts correspond one to one and payments match exactly",
  """Every P2PKH, P2SH, P2WPKH v0 and P2WSH v0 address maps to its standard output script and is recovered from it, and
  distinct addresses have distinct scripts.  Extraction recognises exactly the standard forms, an OP_RETURN
  output (0x6a, one direct push of the rest, at most 83 bytes in all) yields exactly its pushed data, and any other script yields an error.""",
  ["inputs"], "every script template with every length, opcode and push corruption",
  "tests use one example per template",
  [BT+"address.rs", BT+"script.rs"], [("Address::from_script_pub_key / to_script_pub_key", BT+"address.rs"), ("Script predicates and extract_*", BT+"script.rs")],
  observe=["Address::from_script_pub_key", "Address::to_script_pub_key", "Script::extract_op_return_data", "TransactionOutput"])
p("B06", "Deposit keys are derived as D = V*c and are spendable only by the vault",
  """The deposit public key for a request is the vault's public key multiplied by the secret hash of that key and the request id,
  equals the public key of the vault's private key multiplied by the same scalar, is deterministic and distinct for
  distinct requests, and an invalid key or scalar is refused rather than turned into another address.""",
  ["inputs"], "every key in the alphabet crossed with every request id in the alphabet",
  "a single derived key is checked by the tests",
  [BT+"address.rs", BT+"types.rs"], [("PublicKey::new_deposit_public_key", BT+"address.rs")],
  observe=["PublicKey::new_deposit_public_key", "PublicKey::to_p2pkh/to_p2wpkh"])
p("B07", "Transaction size and hash helpers are exact",
  """The witness-free size of a transaction equals the length of its witness-free encoding, the virtual-size estimate for given input and output types is
  the weight prescribed by the per-type sizes divided by four and rounded up for every count of inputs and outputs, the integer
  logarithms are the least exponents reaching their (positive) argument, and the double-SHA-256, byte reversal and merkle step helpers compute
  what Bitcoin does for every input length.""",
  ["inputs"], "all input/output type counts around every compact-size boundary, all powers of two and 256 with neighbours, all input lengths in the bound",
  "only fixed transactions are measured in tests",
  [BT+"types.rs", BT+"utils.rs", BT+"math.rs", BT+"formatter.rs"], [("virtual_transaction_size, InputType", BT+"utils.rs"), ("Transaction::size_no_witness", BT+"types.rs"), ("log2, log256, sha256d", BT+"utils.rs")],
  observe=["bitcoin::utils", "Transaction::size_no_witness"])
# ---------------------------------------------------------------- BTC relay
R = "crates/btc-relay/src/"
p("R01", "The relay's main chain is always the accepted chain with the most work",
  """After any sequence of header submissions, chain 0 is a gap-free chain from the start height to the best height ending in the
  best block, every stored header's parent is its recorded predecessor, forks are ordered by height, and the main chain is
  replaced by a fork exactly when the fork leads by the configured number of stable confirmations.
  No header outside the main chain is ever reported as included.""",
  ["histories"], "all sequences of header submissions (valid, duplicate, orphan, forking, fork of fork) up to the depth bound",
  "the tests set up one or two forks by hand through internal setters",
  [R+"lib.rs", R+"types.rs"], [("_store_block_header, check_and_do_reorg, reorganize_chains, swap_main_blockchain", R+"lib.rs"), ("set_chain_from_position_and_id / reorganize", R+"lib.rs")],
  state=[("Chains", "position -> chain id, position 0 is main", R+"lib.rs"), ("ChainsIndex", "chain id -> start/max height", R+"lib.rs"), ("ChainsHashes", "(chain, height) -> header hash", R+"lib.rs"), ("BestBlock/BestBlockHeight", "tip of the main chain", R+"lib.rs")],
  observe=["store_block_header", "get_best_block", "verify_block_header_inclusion"])
p("R02", "Only headers valid under Bitcoin's rules are accepted",
  """A header is stored only if it is new, its parent is known, its target is the one required at that height (retargeted every
  2016 blocks unless that check is disabled), its hash meets the target, and the number of chains does not exceed the bound given by the submitter; every header that satisfies the rules
  is accepted, on the main chain and on every fork.""",
  ["inputs", "histories"], "every single-field corruption of an otherwise valid header at every position of every explored history",
  "the tests check each error once against a mocked parser",
  [R+"lib.rs"], [("verify_block_header, verify_target/compute_new_target, get_last_retarget_time", R+"lib.rs")],
  observe=["store_block_header", "initialize"])
p("R03", "Inclusion is confirmed only for buried transactions of the main chain",
  """A transaction is reported as included only when its proof verifies against a main-chain header that is at least the required number of
  Bitcoin confirmations deep and whose submission is at least the required number of parachain blocks old, the proof is for that very transaction, the
  coinbase proof has the same tree depth, and no fork is within the required number of confirmations of the main chain; when all of these hold it is reported as included.""",
  ["inputs", "histories"], "every block height, age, confirmation requirement and proof mutation within bounds",
  "the tests mock the merkle verification",
  [R+"lib.rs"], [("_verify_transaction_inclusion, check_bitcoin_confirmations, check_parachain_confirmations", R+"lib.rs")],
  observe=["verify_transaction_inclusion"])
p("R04", "A payment is validated only with the exact amount, recipient and OP_RETURN",
  """A transaction counts as the payment of a request only if it pays the required recipient the required amount and, where a
  request id is demanded, carries exactly that id in an OP_RETURN output; any missing, duplicated or extra
  recipient that could make one transaction pay for two requests is rejected.""",
  ["inputs"], "all transactions of up to four outputs over an alphabet of recipients, amounts and OP_RETURN payloads",
  "tests sample a few output lists",
  [R+"lib.rs", R+"types.rs"], [("validate_op_return_transaction, get_issue_payment, is_fork", R+"lib.rs"), ("OpReturnPaymentData::try_from", R+"types.rs")],
  observe=["validate_op_return_transaction", "get_and_verify_issue_payment"])
# ---------------------------------------------------------------- bridge
VR = "crates/vault-registry/src/"; IS="crates/issue/src/"; RD="crates/redeem/src/"; RP="crates/replace/src/"; NO="crates/nomination/src/"; ST="crates/staking/src/"; RW="crates/reward/src/"; FE="crates/fee/src/"
p("V01", "Wrapped supply always equals the tokens vaults are accountable for",
  """At every point of every history the wrapped tokens in circulation equal the sum over all vaults (including the liquidation
  vault) of their issued tokens, to-be-redeemed tokens never exceed issued tokens, to-be-replaced tokens never exceed issued minus
  to-be-redeemed, and to-be-issued tokens equal the amounts of the pending issue requests.""",
  ["histories"], "all interleavings of issue, redeem, replace, liquidation, oracle and expiry operations by the bounded set of actors",
  "the tests check the effect of one call on one hand-built state",
  [VR+"lib.rs", VR+"types.rs", IS+"lib.rs", RD+"lib.rs", RP+"lib.rs"], [("RichVault/RichSystemVault token accounting", VR+"types.rs")],
  state=[("Vaults", "per-vault token counters", VR+"lib.rs"), ("LiquidationVault", "system vault counters", VR+"lib.rs")],
  observe=["Vaults", "LiquidationVault", "wrapped total issuance"])
p("V02", "Vault collateral is exactly accounted for and never created or lost",
  """At every point the tracked collateral of a vault equals the stake recorded for it and is fully backed by reserved funds, the total user collateral per currency pair equals the sum
  over vaults, and the sum of all free and reserved collateral currency is unchanged by any bridge operation.""",
  ["histories"], "all interleavings of deposits, withdrawals, nominations, slashes, liquidations and redemptions",
  "unit tests mock the currency and staking pallets",
  [VR+"lib.rs", VR+"types.rs", VR+"pool_manager.rs", ST+"lib.rs", NO+"lib.rs"], [("transfer_funds, slash_collateral, try_deposit_collateral", VR+"lib.rs"), ("PoolManager", VR+"pool_manager.rs")],
  observe=["get_backing_collateral", "TotalUserVaultCollateral", "tokens balances"])
p("V03", "Vaults can neither over-issue nor withdraw below their secure threshold",
  """No accepted operation by a vault, nominator or user leaves a vault with more issued plus to-be-issued tokens than its collateral secures at
  the secure (or its own, stricter) threshold, withdrawals that would do so are refused, and the system collateral ceiling per currency pair is never exceeded by a deposit.""",
  ["histories"], "all orders of issue request, collateral withdrawal, threshold change and price change within bounds",
  "tests check single calls at fixed prices",
  [VR+"lib.rs", VR+"types.rs", NO+"lib.rs", IS+"lib.rs"], [("issuable_tokens / is_allowed_to_withdraw_collateral / ensure_collateral_ceiling", VR+"lib.rs")],
  observe=["try_increase_to_be_issued_tokens", "withdraw_collateral", "get_issuable_tokens"])
p("V04", "Liquidation happens only below the liquidation threshold and is loss free",
  """A vault is liquidated exactly when its collateral is below the liquidation threshold at the current price (or it is reported as such), its tokens
  and at most the secured part of its collateral move to the liquidation vault, and everybody who burns wrapped tokens
  against the liquidation vault receives exactly the pro-rata share of its collateral.""",
  ["histories"], "all vault states and prices in the bounded alphabet, followed by all subsequent operations",
  "tests check one liquidation",
  [VR+"lib.rs", VR+"types.rs", RD+"lib.rs"], [("liquidate_vault, liquidate_undercollateralized_vaults", VR+"lib.rs"), ("_liquidation_redeem", RD+"lib.rs")],
  observe=["liquidate_vault", "liquidation_redeem"])
p("V05", "An issue request mints exactly once and only for a verified payment",
  """An issue request is completed at most once, only against a verified Bitcoin payment to its own deposit address, mints exactly the amount received
  net of fee (bounded by what was requested unless the vault can take more), and is cancelled only after expiry; griefing collateral is always returned or paid out in full exactly once.""",
  ["histories"], "all interleavings of request, execute with under-, exact- and overpayment, cancel, expiry and liquidation",
  "tests exercise each path once with mocks",
  [IS+"lib.rs", IS+"types.rs"], [("_request_issue, _execute_issue, _cancel_issue", IS+"lib.rs")],
  observe=["request_issue", "execute_issue", "cancel_issue"])
p("V06", "A redeem request burns and pays exactly once, or compensates the user",
  """A redeem request is completed at most once and only with a verified payment of its exact amount to the user's address; when it expires unpaid the user is either reimbursed from the
  vault's collateral or released with a punishment fee, and locked wrapped tokens are burned, transferred or
  returned in full exactly once.""",
  ["histories"], "all interleavings of request, execute, cancel with and without reimbursement, mint after reimbursement, self-redeem, expiry and liquidation",
  "tests exercise each path once with mocks",
  [RD+"lib.rs", RD+"types.rs"], [("_request_redeem, _execute_redeem, _cancel_redeem, _mint_tokens_for_reimbursed_redeem", RD+"lib.rs")],
  observe=["request_redeem", "execute_redeem", "cancel_redeem"])
p("V07", "A replace moves obligations between vaults without changing the total",
  """Replacing a vault moves exactly the agreed tokens and the matching obligation from the old to the new vault when a verified payment is shown, cancelling after expiry restores both
  vaults, and at every point the replaced amount and its griefing collateral are held exactly once.""",
  ["histories"], "all interleavings of request, withdraw, accept, execute, cancel, expiry and liquidation",
  "tests mock the vault registry",
  [RP+"lib.rs", RP+"types.rs"], [("_request_replace, _withdraw_replace_request, _accept_replace, _execute_replace, _cancel_replace", RP+"lib.rs")],
  observe=["accept_replace", "execute_replace", "cancel_replace"])
p("V08", "Staking pools share rewards and slashes pro rata and never overpay",
  """For every order of deposits, withdrawals, slashes, forced refunds and reward distributions, a slash is shared in
  proportion to the nominal stakes (a staker's stake as of its last own operation), a reward in proportion to the current stakes, each staker's claimable stake and reward equal these shares up to rounding,
  a slash does not change what was earned before, stake and rewards left in an earlier pool by a forced refund stay withdrawable in full, and the sum of all claims never exceeds what was deposited or distributed.""",
  ["histories"], "all operation sequences up to the depth bound over two to three stakers",
  "tests check fixed sequences",
  [ST+"lib.rs", NO+"lib.rs"], [("deposit_stake, withdraw_stake, slash_stake, distribute_reward, force_refund", ST+"lib.rs")],
  observe=["Staking::compute_stake", "Staking::compute_reward"])
p("V09", "Reward pools pay each staker exactly its pro-rata share",
  """For every order of stake changes, distributions and withdrawals, each participant's accumulated reward equals the sum over distributions of its share at that time up to rounding down, totals equal the
  sum of individual stakes, and more than was distributed is never paid.""",
  ["histories"], "all operation sequences up to the depth bound over two to three stakers and two currencies",
  "tests check fixed sequences",
  [RW+"lib.rs"], [("deposit_stake, withdraw_stake, distribute_reward, withdraw_reward", RW+"lib.rs")],
  observe=["Reward::compute_reward", "Reward::withdraw_reward"])
p("V10", "Protocol fees are split completely and never exceed the amount charged",
  """Every fee taken is a rounded fraction of its base amount, is distributed in full to vaults, nominators and treasury according to the configured ratios with commission deducted once, and what can be withdrawn never
  exceeds what the fee pool holds.""",
  ["histories", "inputs"], "all fee rates in the alphabet and all distribution/withdraw sequences up to the bound",
  "tests check one split",
  [FE+"lib.rs"], [("distribute_rewards, withdraw_vault_rewards, get_*_fee", FE+"lib.rs")],
  observe=["Fee::distribute_rewards", "Fee::withdraw_rewards"])
p("V11", "Nomination honours opt-in, limits and full withdrawability",
  """Collateral can be nominated only to an opted-in vault and up to its limit, a nominator can withdraw its current stake whenever the vault stays secure, and opting out returns every nominator its current stake so that none of it remains counted for the vault.""",
  ["histories"], "all sequences of opt-in/out, limits, nominate, withdraw and slash within bounds",
  "the nomination tests check only single calls with mocks",
  [NO+"lib.rs", NO+"ext.rs"], [("_deposit_collateral, _withdraw_collateral, opt_out_of_nomination", NO+"lib.rs")],
  observe=["nomination calls", "staking state"])
p("V12", "Queries about vaults and requests agree with the state",
  """Every query that users and vault clients rely on answers from the current state: vaults of an account; issuable and redeemable tokens per vault and the lists of vaults offering them (complete, without banned, liquidated or closed vaults, in descending order); vaults eligible for premium redeems with the amount that earns the highest premium; collateralization, required and total, own and nominated collateral; and issue, redeem and replace requests by user and by vault.""",
  ["histories"], "all histories of vault and request operations within bounds, all queries after every step",
  "most queries have one test on a hand-built state, or none", [VR+"lib.rs", VR+"types.rs", "crates/issue/src/lib.rs", "crates/redeem/src/lib.rs", "crates/replace/src/lib.rs", NO+"lib.rs"],
  [("get_vaults_with_issuable_tokens, get_vaults_with_redeemable_tokens, get_premium_redeem_vaults, get_collateralization_from_vault, get_required_collateral_for_vault", VR+"lib.rs"), ("get_issue_requests_for_account", "crates/issue/src/lib.rs")],
  observe=["query functions", "runtime API"])
# ---------------------------------------------------------------- oracle/security/misc
p("S01", "The oracle price is the median of fresh authorised values or missing",
  """After every block the exchange rate of each key is the median (for an even number the mean of the two middle values, rounded down) of the latest unexpired values of the oracles that were authorised when they fed them, it is absent
  (and conversions fail) as soon as no unexpired value remains, feeding a value for one key leaves the other keys alone, and accounts that are not or no longer authorised cannot feed values.""",
  ["histories"], "all orders of feeds, expiries, oracle insertion/removal and block hooks within bounds",
  "tests mock time and check one feed each",
  ["crates/oracle/src/lib.rs", "crates/oracle/src/types.rs"], [("begin_block, update_aggregate, feed_values", "crates/oracle/src/lib.rs")],
  observe=["Oracle::get_price", "Aggregate", "convert"])
p("S02", "Active block counting, expiry and secure ids",
  """The active block count advances exactly by one for each block in which activation is enabled and never otherwise, expiry of a request depends on it and on Bitcoin height as specified, and generated secure ids never repeat.""",
  ["histories"], "all sequences of blocks, activation switches and id requests within bounds", "tests check single calls",
  ["crates/security/src/lib.rs", "crates/btc-relay/src/lib.rs"], [("increment_active_block, get_secure_id, parachain_block_expired", "crates/security/src/lib.rs")],
  observe=["ActiveBlockCount", "get_secure_id"])
p("S03", "Escrowed voting power decays linearly and sums up",
  """The voting power of an account at any height is its locked amount times remaining lock time over the maximum period, total voting power at any height equals the sum over accounts up to rounding, locks can only grow in amount
  and time, and tokens are released only after expiry and in full.""",
  ["histories"], "all sequences of create, increase, extend, withdraw at all heights within the bound", "tests check a few fixed scenarios",
  ["crates/escrow/src/lib.rs"], [("checkpoint, deposit_for, balance_at, supply_at", "crates/escrow/src/lib.rs")],
  observe=["balance_at", "supply_at"])
p("S04", "Annuity and inflation pay out exactly the budget they own",
  """Block rewards are the configured budget per emission period divided over its blocks (limited by the rewards per wrapped token), claims never exceed what the pallet account holds, supply inflation mints exactly the configured share once per inflation period, and withdrawals pay each staker only its own rewards.""",
  ["histories"], "all sequences of blocks, period boundaries and withdrawals within bounds", "tests check one period",
  ["crates/annuity/src/lib.rs", "crates/supply/src/lib.rs"], [("begin_block, update_reward_per_block, withdraw_rewards", "crates/annuity/src/lib.rs"), ("begin_block", "crates/supply/src/lib.rs")],
  observe=["pallet accounts", "total issuance"])
# ---------------------------------------------------------------- loans
L = "crates/loans/src/"
p("L01", "Lending markets conserve assets and never pay out more than they hold",
  """At every point of every history a market's cash equals what was deposited, repaid, donated and added to reserves minus what was withdrawn, borrowed and taken from reserves; lend tokens are minted and burned at the exchange rate with rounding in the
  market's favour, so the exchange rate (cash plus borrows minus reserves over supply) never falls through an operation, it stays within its limits or the market refuses to operate; total borrows stay below the sum of the borrowers' debts by rounding only; and no mint,
  redemption, borrow, repayment or change of collateral raises its caller's net position or touches anybody else's. Supply and borrow caps, available cash and inactive markets are respected, and only the authorised origins touch reserves and markets.""",
  ["histories"], "all sequences of mint, redeem, borrow, repay, accrue, liquidate and reserve operations over two markets within bounds",
  "tests check fixed scenarios", [L+"lib.rs", L+"types.rs", L+"interest.rs"], [("do_mint, do_redeem, do_borrow, do_repay_borrow_with_amount", L+"lib.rs"), ("accrue_interest", L+"interest.rs")],
  observe=["exchange_rate", "total_borrows", "account_borrows"])
p("L02", "Interest accrues monotonically per the rate model and to nobody twice",
  """With every accrual the borrow index and every debt grow by the rate model's rate at the utilisation since the last accrual, compounded over the elapsed seconds, the same whether time is accrued in one step or several; index and exchange rate never decrease;
  the reserve receives exactly its factor of the interest, rounded down; what a market reports about its rates before an accrual is what the accrual then records; and only rate models are accepted whose rate is defined at every utilisation, rises with it and stays within the limits.""",
  ["histories", "inputs"], "all utilisation levels and elapsed times in the alphabet, both rate models", "tests check fixed samples",
  [L+"interest.rs", L+"rate_model.rs"], [("accrue_interest, InterestRateModel", L+"rate_model.rs")],
  observe=["borrow_index", "exchange_rate"])
p("L03", "Borrowers stay collateralised unless prices move, and liquidation is fair",
  """No borrow, redemption or collateral withdrawal leaves an account with debts worth more than its collateral weighted by the collateral factors (interest as recorded at each market's last accrual, up to a unit of the reference currency of rounding per withdrawal);
  liquidation is possible exactly when the debts exceed the collateral weighted by the liquidation thresholds, repays at most the close factor of the debt, reduces it by exactly what the liquidator pays, and seizes exactly the incentive-adjusted equivalent of deposited collateral, of which the
  incentive reserve receives its share. Lend tokens used as collateral are reserved, incoming ones are added automatically, and market parameters are only accepted in their ranges.""",
  ["histories"], "all operation and price sequences within bounds", "tests check fixed scenarios",
  [L+"lib.rs"], [("borrow_allowed, redeem_allowed, liquidate_borrow_allowed, do_liquidate_borrow", L+"lib.rs")],
  observe=["get_account_liquidity", "liquidate_borrow"])
p("L04", "Lending rewards accrue by share of supply and debt and are paid once",
  """Each block's supply and borrow rewards of a market are split over the holders of its lend tokens and over its debtors in proportion to what they hold or owe during that block, whatever operations, transfers, liquidations or speed changes happen in between; a claim pays exactly what has
  accrued, once, from the reward account, or fails without losing anything when that account cannot pay.""",
  ["histories"], "all sequences of blocks, speeds, claims and share-changing operations within bounds", "tests check fixed scenarios",
  [L+"farming.rs", L+"lib.rs"], [("update_reward_supply_index, distribute_supplier_reward, pay_reward", L+"farming.rs")],
  observe=["claim_reward", "balances"])
# ---------------------------------------------------------------- dex
p("X01", "Constant-product pools never lose value to traders or providers",
  """No swap decreases the product of a pool's reserves, swap outputs equal the fee-adjusted constant-product quote within the stated limits, adding and removing liquidity returns at most the pro-rata share, pool reserves equal recorded balances, and
  LP supply equals minted minus burned. A bootstrap that reaches its targets gives each contributor its share of the pool and its rewards, one that fails refunds each contribution exactly once, and rewards are paid only from what was charged for the pair.""",
  ["histories"], "all sequences of add, remove, swap over two to three pools within bounds", "tests check fixed scenarios",
  ["crates/dex-general/src/swap/mod.rs"], [("inner_add_liquidity, inner_remove_liquidity, inner_swap_*", "crates/dex-general/src/swap/mod.rs")],
  observe=["PairStatuses", "balances"])
p("X02", "Stable pools never lose invariant value and quotes match execution",
  """No swap or imbalanced deposit/withdrawal decreases the invariant per LP token; quotes differ from what execution delivers by rounding only; withdrawals return at most the pro-rata share; the recorded balances equal what the pool account
  holds minus admin fees; operations on a meta pool that go through its base pool equal their parts; and amplification changes follow the linear ramp within limits.""",
  ["histories"], "all operation sequences within bounds on base and meta pools", "tests check fixed numeric examples",
  ["crates/dex-stable/src/lib.rs", "crates/dex-stable/src/base_pool.rs", "crates/dex-stable/src/meta_pool.rs"], [("get_d, get_y, base_pool_*", "crates/dex-stable/src/base_pool.rs")],
  observe=["Pools", "balances"])
p("X03", "Routed swaps equal the composition of their hops",
  """A routed swap over constant-product and stable pools delivers exactly what executing its hops one by one would deliver, delivers at least the stated minimum to the stated recipient or changes nothing, and rejects expired, empty, circular or malformed routes.""",
  ["inputs", "histories"], "all routes up to length three over the bounded pools", "tests check two routes",
  ["crates/dex-swap-router/src/lib.rs"], [("inner_swap_exact_token_for_tokens, validate_routes", "crates/dex-swap-router/src/lib.rs")],
  observe=["swap_exact_token_for_tokens"])
p("X04", "Farming pays scheduled rewards only, in proportion to deposits",
  """Rewards are distributed only from funded schedules at the scheduled rate, in proportion to deposited pool tokens, deposits are withdrawable in full at any time, and cancelling a schedule refunds exactly the undistributed part, all up to rounding of the per-period amount; distributed rewards stay claimable.""",
  ["histories"], "all sequences within bounds", "tests check one schedule", ["crates/farming/src/lib.rs"], [("on_initialize, update_reward_schedule, withdraw", "crates/farming/src/lib.rs")],
  observe=["reward schedules", "balances"])
# ---------------------------------------------------------------- governance etc
p("G01", "Referenda tally votes correctly and enact exactly once",
  """A referendum's tally always equals the votes currently cast (each at most its voter's free voting power when it was cast), it passes exactly when its threshold rule holds at its end against the total voting power then, a passed proposal is executed with root authority exactly
  once after its enactment delay, the (up to) two best-backed proposals are launched per launch period, and every proposal deposit is returned exactly once: when the proposal is tabled, cancelled or cleared.""",
  ["histories"], "all sequences of propose, second, vote, revote, remove, cancel, fast-track and blocks within bounds", "tests check fixed scenarios",
  ["crates/democracy/src/lib.rs", "crates/democracy/src/vote_threshold.rs"], [("try_vote, bake_referendum, launch_next, VoteThreshold::approved", "crates/democracy/src/lib.rs")],
  observe=["ReferendumInfoOf", "scheduler"])
p("G02", "Paused calls are refused directly and when nested, others never are",
  """A call is filtered exactly when its pallet or the call itself is paused and it is not whitelisted, directly and inside batches and proxies; names that are too long follow the configured rule; only the authorised origin changes the paused set, and whitelisted calls cannot be paused.""",
  ["histories", "inputs"], "all pause/unpause sequences and calls over the bounded alphabet", "tests check a few calls",
  ["crates/tx-pause/src/lib.rs"], [("Contains for Pallet, ensure_can_pause", "crates/tx-pause/src/lib.rs")], observe=["pause", "unpause", "Contains::contains"])
p("G03", "Collators: candidacy, bonds and selection stay within bounds",
  """The next session's authors are exactly the invulnerables plus the registered candidates, each once; registration is refused beyond the desired count or the maximum, for invulnerables, for accounts without session keys or with voting power below the bond; the bond is reserved exactly
  while registered; candidates that were idle or fell below the bond are removed at the session change with their bonds returned, never below the minimum number; the author of a block gets half the pot above the existential deposit; and only the authorised origin sets the parameters.""",
  ["histories"], "all sequences of register, leave, bond changes, sessions within bounds", "tests check fixed scenarios",
  ["crates/collator-selection/src/lib.rs"], [("register_as_candidate, leave_intent, try_remove_candidate, kick_stale_candidates", "crates/collator-selection/src/lib.rs")], observe=["Candidates", "session manager"])
p("G04", "Fees can be paid in another currency without loss to the treasury",
  """When a fee is paid in a non-native currency the payer is charged exactly the swapped amount, bounded by its stated maximum, along a path that must end in the native currency; the fee is the announced one plus the tip, the treasury receives exactly the corrected fee and tip, refunds are in the native
  currency, or the transaction is rejected; the wrapped call runs exactly once with its own origin; and the wrapper swaps nothing when it is nested inside another call.""",
  ["histories", "inputs"], "all currencies, balances and limits in the alphabet", "tests check two swaps",
  ["crates/multi-transaction-payment/src/lib.rs"], [("with_fee_swap_path, OnChargeTransaction", "crates/multi-transaction-payment/src/lib.rs")], observe=["balances"])
p("G05", "Client releases are promoted in order and only by their authority",
  """The current client release for a client name changes only through the authorised origin, a pending release becomes current exactly when promoted, and no other client's entry is affected.""",
  ["histories"], "all call sequences within bounds", "the pallet has no unit tests",
  ["crates/clients-info/src/lib.rs"], [("set_current_client_release, set_pending_client_release", "crates/clients-info/src/lib.rs")], observe=["storage"])
p("G06", "Only root changes protocol parameters, each call exactly its own, within limits",
  """Collateral ceilings, minimum collateral, the thresholds, fee rates, request periods, the nomination switch, the oracle set, block-reward and supply-inflation settings, escrow limits, farming schedules and lending-market settings change only through calls made by the authorised (root) origin; each accepted call sets exactly the named parameter of exactly the named currency, pair or account to the given value and nothing else, values outside the documented limits are refused, and a refused call changes nothing.""",
  ["histories"], "all sequences of parameter changes by every origin within bounds", "tests set one parameter in one state by one origin",
  ["crates/vault-registry/src/lib.rs", "crates/fee/src/lib.rs", "crates/issue/src/lib.rs", "crates/redeem/src/lib.rs", "crates/replace/src/lib.rs", "crates/nomination/src/lib.rs", "crates/oracle/src/lib.rs", "crates/loans/src/lib.rs", "crates/annuity/src/lib.rs", "crates/supply/src/lib.rs", "crates/escrow/src/lib.rs", "crates/farming/src/lib.rs"],
  [("set_system_collateral_ceiling, set_secure_collateral_threshold, set_premium_redeem_threshold, set_liquidation_collateral_threshold, set_minimum_collateral", "crates/vault-registry/src/lib.rs"), ("set_issue_fee ... set_commission", "crates/fee/src/lib.rs"), ("insert_authorized_oracle, remove_authorized_oracle", "crates/oracle/src/lib.rs"), ("set_reward_per_wrapped", "crates/annuity/src/lib.rs"), ("update_reward_schedule", "crates/farming/src/lib.rs")], observe=["storage", "query functions"])
p("M01", "Amounts never mix currencies or wrap, and conversions round as specified",
  """Arithmetic between different currencies is refused, addition, subtraction, scaling and ratio computations are exact or fail with an error (never wrap or panic), rounding is down or up as named, and locking, unlocking, burning and transferring change balances by exactly the amount.""",
  ["inputs"], "all operand combinations from the boundary alphabet", "tests check a few values",
  ["crates/currency/src/amount.rs", "crates/currency/src/types.rs", "crates/currency/src/lib.rs"], [("Amount", "crates/currency/src/amount.rs")], observe=["Amount methods"])
p("M02", "Identifiers encode uniquely and decode to themselves",
  """Every currency, token symbol, vault and pair identifier and every primitive request record encodes to a unique byte string that decodes to itself, ticker/decimals/name lookups agree with the token tables, LP-token and pair constructors are inverse to their accessors, and key conversions between text, bytes and numbers round-trip.""",
  ["inputs"], "all enum values and bounded numeric fields", "tests only cover serde of a single struct",
  ["primitives/src/lib.rs"], [("CurrencyId, TokenSymbol, VaultId, VaultCurrencyPair", "primitives/src/lib.rs")], observe=["Encode/Decode, TryFrom impls"])
p("C01", "The BTC swap contract pays an order only for a valid Bitcoin payment",
  """The contract pays a trade's tokens only to an executor that shows a verified payment of at least the asked amount to the maker's Bitcoin address, pays each created order at most once, and otherwise leaves balances untouched.""",
  ["histories"], "all sequences of create and execute with proof mutations", "one scenario is tested",
  ["contracts/btc_swap/lib.rs"], [("execute_trade", "contracts/btc_swap/lib.rs")], observe=["execute_trade"])
p("C02", "The sample contract's stored value changes only by flipping",
  """The value read equals the constructor value negated once per successful flip, for every constructor and call sequence.""",
  ["histories"], "all sequences up to depth 12", "two sequences are tested", ["contracts/hello_world/lib.rs"], [("flip, get", "contracts/hello_world/lib.rs")], observe=["get"])
p("T01", "Each runtime moves its own money only as inflation, rewards and fees prescribe",
  """On both chains, once the inflation's start height is reached exactly the set fraction of the issuance is minted to the treasury, which passes the vault and escrow shares to their annuities, and the next period starts a year later; each block moves exactly the block reward (limited by the wrapped supply when so set) from the vault annuity to the fee pool and credits it to the vaults' capacity pools, credits the escrow stakers with theirs, and moves nothing when there is nobody to receive it; transaction fees and tips go to the block's author, slashed deposits to the treasury, swept funds to the fee pool.  Nothing else is created, destroyed or left on the supply account, and the accounts that hold the pallets' money are distinct and exempt from dust removal.""",
  ["histories"], "all sequences of blocks, stakes, parameter changes, fees and withdrawals within bounds, on each runtime's own configuration", "the runtimes' integration tests do not build here and follow single scenarios; the pallets' tests use mocks instead of the runtimes' wiring",
  ["parachain/runtime/interlay/src/lib.rs", "parachain/runtime/kintsugi/src/lib.rs", "parachain/runtime/common/src/lib.rs"],
  [("DealWithRewards, DealWithFees, EscrowBlockRewardProvider, VaultBlockRewardProvider, get_all_module_accounts", "parachain/runtime/interlay/src/lib.rs"), ("the same", "parachain/runtime/kintsugi/src/lib.rs"), ("ToTreasury", "parachain/runtime/common/src/lib.rs"), ("begin_block", "crates/annuity/src/lib.rs"), ("begin_block", "crates/supply/src/lib.rs")], observe=["balances", "issuance", "owed rewards"])
p("T02", "The runtimes' call filters let exactly the documented calls through",
  """On both chains a signed user can always make calls of the core pallets (system, session, timestamp, parachain system, sudo, democracy, escrow, technical committee), of the XCM pallet only `send`, never those of the EVM pallet, and any other call exactly while neither it nor its pallet is paused, also when it is wrapped in batches, proxies or fee-swap calls; root is not filtered.  What other chains have executed here is never a call that carries another call or takes unbounded Bitcoin transactions.  EVM contracts are created only while that is enabled, only Ethereum transactions are self-contained, and only the listed accounts may set up vestings.""",
  ["inputs", "histories"], "every call of the runtimes under sets of pauses, alone and wrapped", "no test goes through the filters",
  ["parachain/runtime/interlay/src/lib.rs", "parachain/runtime/interlay/src/xcm_config.rs", "parachain/runtime/interlay/src/evm.rs", "parachain/runtime/kintsugi/src/lib.rs", "parachain/runtime/kintsugi/src/xcm_config.rs", "parachain/runtime/kintsugi/src/evm.rs"],
  [("BaseCallFilter, EnsureKintsugiLabs, ProxyType", "parachain/runtime/kintsugi/src/lib.rs"), ("SafeCallFilter", "parachain/runtime/kintsugi/src/xcm_config.rs"), ("EnableCreate, check_self_contained", "parachain/runtime/kintsugi/src/evm.rs")], observe=["dispatch results", "filters"])
p("T03", "Assets and programs of other chains are identified, admitted and priced right",
  """On both chains every currency has at most one location, different currencies have different locations, and the location leads back to the currency; the relay token, the chain's own and wrapped token (by their general key, here or as seen from outside) and registered foreign assets are recognised, nothing else is.  A program of another chain is executed only if it does not transact and pays for its execution (or is covered by credit, or is an expected response or version subscription).  Execution is charged at the asset's rate times the weight, refused when the payment is too small, the change is returned, and all of the revenue goes to the block's author (interlay) or the treasury (kintsugi).""",
  ["inputs"], "all identifiers, general keys, instruction sequences and payments within bounds", "the integration tests need a relay chain emulator and use a few messages",
  ["parachain/runtime/interlay/src/xcm_config.rs", "parachain/runtime/kintsugi/src/xcm_config.rs", "parachain/runtime/common/src/lib.rs"],
  [("CurrencyIdConvert, native_currency_location, Barrier, Trader, ToAuthor", "parachain/runtime/interlay/src/xcm_config.rs"), ("CurrencyIdConvert, Barrier, Trader, ToTreasury", "parachain/runtime/kintsugi/src/xcm_config.rs"), ("Transactless, AndBarrier", "parachain/runtime/common/src/lib.rs")], observe=["Convert", "Barrier::should_execute", "Trader::buy_weight", "balances"])
p("T04", "Contracts learn of exactly the proven Bitcoin payments and cannot stop the chain",
  """On kintsugi the chain extension answers a contract with the value of the first output to the given address of a transaction that the relay accepts, and with nothing if there is none, the value is not representable, or the proof fails; unknown functions and malformed bytes are refused with an error, never a panic.  The currency given to contracts behaves exactly like the native currency, apart from a minimum balance of one.""",
  ["inputs", "histories"], "transactions with every combination of outputs, every corrupted byte string of a kind, all currency operations within bounds", "the chain extension has no tests",
  ["parachain/runtime/kintsugi/src/contracts.rs"], [("BtcRelayExtension, NativeCurrencyWithEd", "parachain/runtime/kintsugi/src/contracts.rs")], observe=["chain extension answers", "balances"])
