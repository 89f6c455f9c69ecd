#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (run by hand; no check depends on it)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": state or [],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": observe or [],
        "hook_needed": None}})
H = ["histories", "inputs"]
LL = "liquidity_layer/src/liquidity.rs"; LU = "liquidity_layer/src/utils.rs"
C = "controller/src/"
p("P01", "Every market stays solvent towards its suppliers and the treasury",
  "After any history of transactions, a market's token balance plus everything its borrowers owe (with accrued interest) covers everything its suppliers and the protocol treasury are owed (with accrued interest), up to rounding dust of about one smallest unit per operation. No transaction, by whatever route (supply, withdraw, borrow, repay, liquidation, flash loan, strategy, bad-debt clean-up, revenue claim, reward), takes more value out of a market than the claims it cancels or the debt it creates.",
  H, "all histories of user, liquidator, strategy, flash-loan, revenue and clean-up transactions, all amounts, time gaps and rate parameters",
  "The 28 stable tests only exercise arithmetic helpers; solvency is an invariant over whole histories and every rounding direction.",
  [LL, LU, "liquidity_layer/src/cache/mod.rs", C+"positions/liquidation.rs", C+"strategy.rs"],
  [("supply/borrow/withdraw/repay/flashLoan/createStrategy/seizePosition/claimRevenue accounting", LL), ("interest split and revenue minting", LU)],
  [{"name":"supplied, borrowed, revenue, supply_index, borrow_index, token balance","meaning":"market ledger","where":"liquidity_layer/src/storage/mod.rs"}],
  ["after every transaction: pool balance, totals and indexes"])
p("P02", "Market totals equal the sum of the recorded positions",
  "For every market, after every transaction, the total supplied equals the sum of all accounts' deposit positions plus the treasury's share, and the total borrowed equals the sum of all accounts' debt positions. No recorded position is empty (save a deposit too small for the market to express), every account holding a position is listed exactly once, and an account closed or cleaned up is no longer listed and holds nothing.",
  H, "all histories over many accounts and markets, including partial and full exits, liquidations, seizures, strategies and revenue claims",
  "Cross-contract bookkeeping (controller positions vs pool totals) drifts only over multi-step histories that touch both sides.",
  [LL, C+"positions/update.rs", C+"positions/account.rs", C+"storage/mod.rs"],
  [("position store/remove after each pool call", C+"positions/update.rs"), ("scaled totals", LL)])
p("P03", "Interest accrues by the published formula and is split by the reserve factor",
  "Over any time gap the borrow index grows by the compounded factor of the three-segment utilisation rate (capped at the market maximum, per-millisecond, up to fixed-point rounding), and the interest charged to borrowers is divided exactly between suppliers and treasury by the reserve factor. Accrual always uses the rates, totals and parameters in force during the gap: it is applied before any deposit, withdrawal, loan, repayment, reward, claim or parameter change takes effect, and a second operation in the same block accrues nothing. Indexes never decrease, except for the supply index when bad debt is written off.",
  ["inputs","histories","configurations"], "all utilisations, time gaps from 1 ms-block to years, rate parameters and reserve factors, and all interleavings of operations",
  "Tests sample a few utilisations; the split, ordering and monotonicity must hold for every gap, parameter set and operation order.",
  ["common/rates/src/rates.rs", LU, "liquidity_layer/src/lib.rs", LL],
  [("rate curve, compounding, index updates", "common/rates/src/rates.rs"), ("global_sync before each operation", LU), ("parameter update syncs first", "liquidity_layer/src/lib.rs")])
p("P04", "Views report what a transaction at the same instant would use",
  "At any moment the controller's read-only views (market indexes, position amounts, account totals, health factor, liquidatability, prices) agree with the values a transaction in the same block computes and applies, including interest accrued but not yet stored, while a pool's own views report its recorded totals and the rates the next accrual uses. In particular an account is reported liquidatable exactly when, at safe prices, a liquidation would pass the health test, and the liquidation estimate names the amounts, fees, refunds and bonus that the liquidation then realises.",
  H, "all reachable states, stale or fresh markets, any account composition and payment list",
  "Two code paths (simulation and execution) must agree in every state; tests compare them in a handful of states.",
  [C+"views.rs", "liquidity_layer/src/view.rs", "common/rates/src/rates.rs", C+"oracle/mod.rs", C+"positions/liquidation.rs"],
  [("simulate_update_indexes vs global_sync", "common/rates/src/rates.rs"), ("liquidation estimate", C+"views.rs")])
p("P05", "No action by an account's owner leaves it under-collateralised",
  "A borrow succeeds only if the account's total debt afterwards is at most the loan-to-value-weighted worth of its collateral, also when several assets are borrowed in one call or across many calls. Every other owner action that removes collateral or adds debt (withdrawal, leverage, collateral swap, debt swap, repayment from collateral) succeeds only if the account's health factor afterwards, at the prices and interest of that instant, is at least 1.",
  H, "all account compositions, price vectors, accrued interest, bulk orders and strategy routes",
  "The guard must hold for every combination of collateral, debt, bulk ordering, stale index and price; tests use a few fixed prices.",
  [C+"positions/borrow.rs", C+"positions/withdraw.rs", C+"strategy.rs", C+"utils.rs", C+"helpers/mod.rs", C+"lib.rs"],
  [("LTV check on borrow", C+"positions/borrow.rs"), ("health check after withdrawal and strategies", C+"utils.rs")])
p("P06", "Only unhealthy accounts can be liquidated; strangers cannot harm any account",
  "A liquidation succeeds only if the target's health factor is below 1 at the prices and interest of that instant, and a liquidation of such an account with a valid positive payment in a debt asset is not refused for health reasons. A transaction sent by anyone who does not hold an account's token never lowers that account's deposits or raises its debts, except through liquidation of an unhealthy account or clean-up of bad debt.",
  H, "all senders, accounts, prices around the boundary, interest accrual, and transaction histories",
  "Eligibility depends on price, interest and thresholds near a boundary, and non-interference quantifies over all senders and all other accounts.",
  [C+"positions/liquidation.rs", C+"helpers/mod.rs", C+"lib.rs"],
  [("health gate", C+"positions/liquidation.rs")])
p("P07", "A liquidator receives no more than repaid value plus the bounded bonus",
  "In every liquidation the collateral taken from the account is worth at most the debt actually repaid times one plus the bonus, where the bonus is at least the account's weighted base bonus and never above 15 percent, and it is drawn from the account's collaterals in proportion to their value. Debt falls by exactly what the liquidator paid net of refunds, any excess payment is refunded, and the protocol fee is the configured share of the bonus part only: liquidator plus protocol receive exactly what the account lost.",
  H, "all multi-asset accounts, debt mixes, payments (partial, excess, several assets, repeated assets), prices and decimals",
  "Bounds must hold for every portfolio, payment list and bonus regime; tests fix a few portfolios.",
  [C+"positions/liquidation.rs", C+"helpers/mod.rs", LL, LU],
  [("bonus and maximum repayment", C+"helpers/mod.rs"), ("proportional seizure, fee and refund", C+"positions/liquidation.rs"), ("fee to revenue", LU)])
p("P08", "Bad debt is written off only when hopeless, completely and pro rata",
  "Bad-debt clean-up, which anyone may request, succeeds exactly when the account's debt exceeds its collateral and that collateral is worth at most 5 USD (a liquidation leaving an account so announces it but writes nothing off). Clean-up removes every position of the account: its collateral goes to the treasury and each debt is charged once, proportionally, to all suppliers of that debt's market (to nobody if it has none), never pushing a supply index to zero and never touching any other market or account.",
  H, "all accounts around both boundary conditions, multi-asset debts, markets with small or large supply",
  "Eligibility boundary and proportional loss quantify over all portfolios and market sizes.",
  [C+"positions/liquidation.rs", C+"helpers/mod.rs", LL, LU],
  [("can_clean_bad_debt", C+"positions/liquidation.rs"), ("supply index reduction with floor", LU), ("seizePosition", LL)])
p("P09", "Flash loans are repaid with the fee in the same transaction and cannot re-enter",
  "A flash loan succeeds only if the market gets back at least the amount lent plus the configured fee in the lent asset within the same call, with everything above the principal credited to the treasury; otherwise nothing changes. While one is in progress every user lending operation, strategy and further flash loan is rejected, and afterwards the protocol is always usable again. Only assets enabled for flash loans can be lent, never more than the market's available balance, and only to a contract endpoint in the protocol's own shard, which is told who asked for the loan.",
  ["inputs","histories","fault_sequences"], "all receivers (honest, under-paying, over-paying, wrong-token, re-entrant at every endpoint, failing), assets, amounts and fees",
  "Adversarial receivers and re-entrancy at each endpoint are outside the stable tests.",
  [C+"lib.rs", C+"validation.rs", LL, LU],
  [("reentrancy guard", C+"validation.rs"), ("repayment validation", LU), ("flashLoan", LL)])
p("P10", "Supply and borrow caps bound every new deposit and loan",
  "No supply, leverage or collateral swap succeeds if it leaves the market's recorded total deposits (with interest) above its supply cap, and no borrow, leverage or debt swap succeeds if it leaves total debt (with interest) above its borrow cap; an unset cap means no limit. Caps never block withdrawals, repayments or liquidations.",
  H+["configurations"], "all caps, totals, accrued interest, bulk and repeated operations, and every route that creates deposits or debt",
  "Must hold on every route and for accumulations over many calls, with interest growth.",
  [C+"positions/supply.rs", C+"positions/borrow.rs", C+"strategy.rs"],
  [("supply cap", C+"positions/supply.rs"), ("borrow cap", C+"positions/borrow.rs")])
p("P11", "Isolated collateral stays alone and its total debt stays under the ceiling",
  "An account opened with an isolated asset as collateral never holds any other collateral and never uses an efficiency mode, and can only owe assets enabled for isolated borrowing. The USD debt recorded against an isolated asset rises by the USD worth of every loan taken against it and falls by the worth of every repayment, liquidation or write-off (never below zero, remainders under 1 USD dropped), and no loan succeeds if the recorded total would exceed the asset's debt ceiling.",
  H, "all histories of isolated accounts with supplies, borrows, repayments, strategies, liquidations and clean-ups at moving prices",
  "A running counter across accounts and routes cannot be settled by single-scenario tests.",
  [C+"utils.rs", C+"positions/borrow.rs", C+"positions/supply.rs", C+"positions/repay.rs", C+"positions/account.rs", C+"strategy.rs"],
  [("isolated debt tracker", C+"utils.rs"), ("ceiling check", C+"positions/borrow.rs")])
p("P12", "Siloed borrowing and efficiency-mode rules hold for every account",
  "An account owing a siloed asset never owes any other asset. An account in an efficiency mode only takes new deposits and loans of assets its category allows for that use, new deposits carry the category's loan-to-value, threshold and bonus, isolated assets are refused in a category, and a deprecated category accepts no new deposits or loans; assets not enabled as collateral or for borrowing are refused everywhere.",
  H+["configurations"], "all asset/category configurations, bulk orders, account modes and routes (plain, strategy)",
  "Rules must hold across all entry routes, bulk operations and configuration changes.",
  [C+"positions/emode.rs", C+"positions/borrow.rs", C+"positions/supply.rs", C+"strategy.rs"],
  [("e-mode validation", C+"positions/emode.rs"), ("siloed check", C+"positions/borrow.rs")])
p("P13", "Positions are controlled by the holder of the unique account token",
  "Borrowing, withdrawing and every strategy on an account succeed only when the caller sends that account's own token in the call, and the token always returns to that caller unless the account was closed. Every account has exactly one token, minted once with a fresh number; it is burned exactly when the owner's withdrawal (or repayment from collateral asked to close) leaves the account without positions, and it never remains with the protocol. Supplying to an existing account and repaying are the only ways an outsider may touch it, and both only improve it.",
  H, "all callers, account tokens (transferred, foreign, wrong token, duplicated payments) and histories",
  "Ownership must hold for all callers and token-transfer histories.",
  [C+"positions/account.rs", C+"utils.rs", C+"validation.rs", C+"positions/withdraw.rs", C+"lib.rs"],
  [("validate_account / active account checks", C+"validation.rs"), ("mint and burn", C+"positions/account.rs")])
p("P14", "Privileged operations are reserved to their owners and pause stops users",
  "Every administrative operation of the lending controller, every state-changing operation of a market pool and every administrative operation of the price aggregator fails without effect unless called by that contract's owner (for pools, the controller); price submissions fail unless the sender is a whitelisted oracle. While the controller is paused no user operation (supply, withdraw, borrow, repay, liquidate, flash loan, strategies, clean-up, threshold or index updates) has any effect, an upgrade leaves it paused, and unpausing restores service.",
  ["inputs","histories","configurations"], "all endpoints, all non-privileged callers (users, contracts, oracles), with and without payments, paused and unpaused",
  "Coverage of every endpoint by every kind of caller, and absence of any effect, is a universally quantified claim.",
  [C+"config.rs", C+"router.rs", C+"lib.rs", LL, "liquidity_layer/src/lib.rs", "price_aggregator/src/admin.rs", "price_aggregator/src/lib.rs", C+"strategy.rs"],
  [("only_owner", "all contracts"), ("require_not_paused", C+"lib.rs")])
p("P15", "Prices follow the tolerance and staleness rules; unsafe prices gate risk",
  "A token with two price sources is priced at the time-averaged on-chain price when both agree within the first tolerance, at their mean within the second, and beyond it only operations that cannot increase risk (supply, repay, debt-free withdrawal, views) are allowed. Feeds that are missing, stale (older than the token's limit) or from an inactive trading pair are likewise refused to risk-increasing operations (borrow, liquidate, strategies, clean-up, indebted withdrawal), and a paused aggregator stops all pricing that needs it. On-chain prices use a 15-minute average, never a spot price.",
  ["inputs","histories","configurations","fault_sequences"], "all source deviations around both tolerances in both directions, ages around the limit, pair states, pause, and every operation",
  "Boundary behaviour for each operation and each source state is combinatorial.",
  [C+"oracle/mod.rs", C+"lib.rs", C+"strategy.rs", C+"cache/mod.rs", C+"helpers/mod.rs"],
  [("find_price_feed / tolerance anchors", C+"oracle/mod.rs"), ("allow_unsafe_price per operation", C+"lib.rs")])
p("P16", "Derived and LP-token prices follow their formulas and resist pool manipulation",
  "A liquid-staking token is priced at its contract's exchange rate times the price of its underlying. A liquidity-pool token is priced by the constant-product fair value of its reserves at oracle prices: for a fixed product of reserves and fixed underlying prices its value does not depend on how unbalanced the reserves are. Prices are expressed per whole token independent of its decimals.",
  ["inputs","configurations"], "all reserve pairs (including extreme imbalance at constant product), supplies, decimals, exchange rates and underlying prices",
  "Manipulation resistance quantifies over all reserve states.",
  [C+"oracle/mod.rs"], [("lp_price", C+"oracle/mod.rs"), ("derived prices", C+"oracle/mod.rs")])
p("P17", "The price aggregator publishes only quorum medians of fresh oracle votes",
  "A token pair's published price changes only when at least the configured number of distinct oracles, whitelisted when they submitted, have each submitted once in the current round, and the new price is the median of exactly those submissions (mean of the middle two when even), with the round number increased by one and the current time. Submissions from non-oracles, while paused, from the future, too old, or repeated in a round never count; a round that lasts too long is discarded and restarted; the quorum always stays between its bounds and at most the number of oracles.",
  H+["schedules"], "all submission orders, values, timestamps, oracle set and quorum changes, pause toggles and pairs",
  "The aggregator's own tests sample a few sequences and are not in the stable set; quorum behaviour is a property of histories.",
  ["price_aggregator/src/lib.rs", "price_aggregator/src/utils.rs", "price_aggregator/src/median.rs", "price_aggregator/src/admin.rs"],
  [("submission rounds", "price_aggregator/src/utils.rs"), ("median", "price_aggregator/src/median.rs"), ("oracle set management", "price_aggregator/src/admin.rs")])
p("P18", "Protocol revenue and rewards go where they belong, exactly once",
  "Anyone may trigger a revenue claim, but it pays only the accumulator, exactly the treasury's accrued share or the market's available balance if that is less, and lowers the treasury's share by just what was paid; a repeated claim in the same block pays nothing more, and suppliers' and borrowers' amounts are unaffected. Fees from reserve factor, flash loans, leverage and liquidation accrue to the treasury share as configured, and rewards added by the owner raise all suppliers' balances in that market pro rata by the amount added.",
  H, "all revenue sources, market liquidity levels, repeated and multi-asset claims, and reward sizes",
  "Exactly-once payment and pro-rata distribution are history properties.",
  [LL, LU, C+"router.rs"], [("claimRevenue", LL), ("accumulator deposit", C+"router.rs"), ("addRewards", LL)])
p("P19", "Strategies conserve tokens and record exactly what they create",
  "For leverage, collateral swap, debt swap and repayment with collateral, the recorded debt rises by exactly the amount borrowed, deposits rise by exactly what the swap delivered, repaid debt falls by what was paid, and collateral falls by exactly what was taken; the leverage fee alone goes to the treasury. Nothing the router returns is lost: undelivered-token leftovers and overpayments go to the caller, the controller never keeps any balance, and the router gets only the tokens being swapped.",
  ["inputs","histories","fault_sequences"], "all strategy calls, router behaviours (full, partial, over-delivery, wrong token, nothing, extra tokens), fees and existing positions",
  "Router behaviour and token routing combinations are unbounded; tests use one honest mock router.",
  [C+"strategy.rs", LL], [("strategy endpoints and swap settlement", C+"strategy.rs"), ("createStrategy", LL)])
p("P20", "Risk and oracle settings accepted by the protocol are always within their limits",
  "After any sequence of configuration calls every market's liquidation threshold exceeds its loan-to-value (or both are zero), every oracle's tolerances lie in their permitted ranges with the second at least as wide as the first, every market's rate curve is well formed (utilisation breakpoints in order and below 100 %, maximum rate above the base rate, reserve factor below 100 %), an asset has at most one market and one oracle, and referenced contracts set afterwards are real contract addresses. Every accepted setting is exactly the one in force afterwards, and every market created is registered under its asset and listed. Category membership stays consistent in both directions: an asset is flagged for efficiency mode exactly when it belongs to some category, and removing a category deprecates it and detaches all its assets.",
  ["inputs","histories","configurations"], "all sequences of configuration calls with valid, boundary and invalid values",
  "Configuration histories and boundary values are unbounded.",
  [C+"config.rs", C+"router.rs", C+"helpers/mod.rs"], [("tolerance validation", C+"helpers/mod.rs"), ("config endpoints", C+"config.rs"), ("market creation", C+"router.rs")])
p("P21", "Supply, withdraw, borrow and repay move exactly the stated amounts",
  "A supply credits exactly the tokens received; a withdrawal pays the requested amount or the whole current balance if less, and lowers the position by exactly that worth; a borrow pays exactly the requested amount and records that debt; a repayment lowers the debt by exactly the payment and refunds everything above the current debt to the payer. All amounts hold up to half a smallest unit of rounding, for assets of any decimals, and no other account, market or wallet changes apart from accrued interest.",
  H, "all amounts (1 unit to whole supply, over-withdrawal, over-repayment), decimals, indexes, bulk and duplicate entries",
  "Rounding and full/partial exit behaviour quantify over amounts and index values.",
  [LL, LU, C+"positions/supply.rs", C+"positions/withdraw.rs", C+"positions/borrow.rs", C+"positions/repay.rs"],
  [("scaled conversion", "liquidity_layer/src/cache/mod.rs"), ("full withdrawal / over-repayment handling", LU)])
p("P22", "Accounts never exceed the configured number of positions",
  "No supply, borrow or strategy succeeds if it leaves an account with more distinct deposit assets or more distinct debt assets than the configured limits, including several assets in one call; touching existing positions at the limit keeps working, and lowering the limits never blocks exits.",
  H+["configurations"], "all limits, bulk lists (with duplicates and existing assets), strategies that open new positions",
  "Limit must hold on every route and list shape.",
  [C+"validation.rs", C+"positions/supply.rs", C+"positions/borrow.rs", C+"strategy.rs"], [("bulk position limit validation", C+"validation.rs")])
p("P23", "Propagating new risk parameters never makes an account liquidatable",
  "Stored positions keep the liquidation threshold they were opened with until a parameter update is applied to them, while loan-to-value, bonus and fee are also refreshed by a top-up; borrowing room, health and liquidation terms of an account follow these stored values, not the asset's present settings. Applying one changes only that account's position in that asset, copies the currently configured values (or its category's when in efficiency mode), and when it changes the liquidation threshold it succeeds only if the account's health factor stays at or above 1.05 afterwards; without that flag the threshold is untouched.",
  H+["configurations"], "all configuration edits, account states, assets, categories, batches and callers",
  "Interplay of configuration edits, accounts and prices over histories.",
  [C+"positions/supply.rs", C+"lib.rs", C+"positions/emode.rs", C+"utils.rs"], [("update_position_threshold", C+"positions/supply.rs")])
p("P24", "Malformed or hostile calls fail cleanly with no undefined behaviour or effects",
  "Any call to any public operation of the controller, pools or aggregator with arbitrary, malformed, extreme, duplicated or missing arguments and payments (unknown assets, zero amounts, foreign tokens, non-existent accounts, wrong position types) either performs a legitimate operation or is rejected with an error, leaving all balances and records as they were. It never reads an absent value as present, wraps arithmetic, or aborts the machine, and well-formed read-only views of existing accounts and markets always answer.",
  ["inputs","histories"], "all byte-level argument lists and payment lists on all endpoints in reachable states",
  "Input space is unbounded; unchecked unwraps and arithmetic only misbehave on unusual inputs.",
  [C+"lib.rs", C+"validation.rs", C+"utils.rs", C+"positions/account.rs", C+"oracle/mod.rs", C+"strategy.rs", "price_aggregator/src/utils.rs"],
  [("payment and argument validation", C+"validation.rs")])
p("P25", "The event log truthfully tells every market, position and setting change",
  "An indexer that follows only the emitted events always knows the protocol's state. After every transaction, the last market event of each pool that was touched equals the pool's stored time, indexes, reserves, scaled supply, scaled borrows and revenue and quotes the protocol's price; rate-parameter, asset-settings, price-source, e-mode category and e-mode membership events equal the stored settings; the last position event of each account and token equals the stored position (zero when it was closed), and each names the right account, its attributes, the market's index, the price, the caller and the amount actually moved; tracked-isolated-debt events equal the tracker. A newly leveraged account announces its opening payment and its value, a liquidation that leaves more debt than collateral with at most $5 of collateral calls for a write-off and no other does, and the aggregator announces each accepted and discarded vote and each new round or price with its actual values. Nothing changes unannounced, and refused calls announce nothing.",
  ["inputs","histories"], "all transactions of the controller, pools and aggregator in all reachable states",
  "Each event repeats values computed elsewhere, sometimes before the state they describe is final; only comparing every event of long mixed histories with the state afterwards shows they agree.",
  ["common/events/src/events.rs", "liquidity_layer/src/utils.rs", C+"utils.rs", C+"positions/update.rs", C+"positions/liquidation.rs", "price_aggregator/src/events.rs"],
  [("market event", "liquidity_layer/src/utils.rs"), ("position event", C+"positions/update.rs")])
p("P26", "Shared fixed-point arithmetic and interest formulas match exact arithmetic",
  "For operands of any size, sign and decimals (none finer than the target precision), multiplication, division and changes of precision in the shared arithmetic return the exact result rounded half up (for signed numbers half away from zero) at the target precision, division by zero is refused, and the smaller or larger of two numbers is picked by value. Computed with these, the interest formulas stay within a few units in the last place of exact arithmetic for all well-formed rate curves: the borrow rate is the continuous three-piece curve of utilisation capped at the maximum rate and spread over the milliseconds of a year; the deposit rate is utilisation times borrow rate less the reserve share, and zero when nothing is borrowed; the growth factor is the five-term series of the exponential, exactly one for no time and never below simple interest; the split of interest into suppliers' and protocol's shares loses and creates nothing; the supply index grows by rewards over claims, stays put when there are none and never falls; utilisation is debt over supply, zero without supply; a balance is scaled amount times index, rounded to the asset's decimals; and a simulated index update equals applying these steps to the elapsed milliseconds.",
  ["inputs"], "all operand values, signs and precisions; all well-formed rate curves, utilisations and time spans",
  "Rounding and region boundaries differ by one unit on inputs no sampled test happens to hit (exact halves, kinks, single milliseconds, negative operands).",
  ["common/math/src/math.rs", "common/rates/src/rates.rs", "common/constants/src/constants.rs"],
  [("half-up arithmetic", "common/math/src/math.rs"), ("interest formulas", "common/rates/src/rates.rs")])
p("P27", "Exits stay open whatever happened to settings, prices or other accounts",
  "While the protocol is not paused, EGLD has a fresh price and the account's assets have any price, nothing that owners or other users did (switching assets off for supply, collateral, loans or flash loans, lowering caps, ceilings, position limits, factors and thresholds, retiring or emptying an efficiency-mode category, new tolerances, rates, upgrades, write-offs, exhausted or idle markets) and no lapse of time keeps an account from being wound up: anyone can repay any of its debts in part or in full, a full repayment costs exactly the debt and removes it, the surplus coming back; then the holder can withdraw each deposit for its full present value up to what its market holds, in one call or several, and the last withdrawal closes the account and burns its token. An account whose debt clearly exceeds its threshold-weighted collateral can be liquidated by anyone who pays, in part or in full, as long as its prices are safe and the markets can hand out the collateral. Unpausing makes all of this possible again.",
  H+["configurations"], "all reachable protocol states, settings, account shapes and modes, payers, holders and orders of winding up",
  "Liveness in every reachable configuration; tests only exit from the configuration they set up.",
  [C+"lib.rs", C+"positions/withdraw.rs", C+"positions/repay.rs", C+"positions/liquidation.rs", C+"validation.rs", C+"utils.rs", LL],
  [("withdraw and repay endpoints", C+"lib.rs"), ("pool withdraw and repay", LL)])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
