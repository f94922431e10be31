#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the text stays reviewable)."""
import json, os
C = "contracts/oraiswap-v3/src/"
EX, CO, QU = C+"entrypoints/execute.rs", C+"entrypoints/common.rs", C+"entrypoints/query.rs"
PO, POS, TI, TM = C+"storage/pool.rs", C+"storage/position.rs", C+"storage/tick.rs", C+"storage/tickmap.rs"
CL, ST, IF = C+"math/clamm.rs", C+"state.rs", C+"interface.rs"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=False):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe, "hook_needed": ("native tick input for the swap simulation" if hook else None)}})
H, I, CF, F = "histories", "inputs", "configurations", "fault_sequences"

p("C01", "Solvency: the contract can always pay everyone",
  "After any sequence of operations by any set of users, the contract holds enough of every token to pay out at once, in any order, every open position (its withdrawal amount plus its uncollected fees) and every pool's uncollected protocol fee. No operation by anyone, including one whose token transfer fails or re-enters the contract, shrinks the margin by which holdings exceed those claims; an operation that fails leaves holdings and claims untouched.",
  [H, I, F], "every history of pool creation, deposits, withdrawals, claims, transfers, swaps, routes, fee withdrawals and configuration changes over several pools sharing tokens; failing and re-entrant token transfers",
  "Tests run a handful of fixed scripts with round numbers in one pool and compare a few balances; the claim is about all interleavings of roundings, fees, tick crossings and shared token balances.",
  [EX, CO, POS, PO, CL, IF],
  [("deposit/withdraw amount rounding", POS+" Position::modify, "+CL+" calculate_amount_delta"), ("swap rounding and fee split", CL+" compute_swap_step, "+PO+" add_fee"), ("token transfers", IF+" Asset::transfer / transfer_from")],
  ["token ledgers of every account", "positions, pools and ticks through queries", "full liquidation of a forked state"])
p("C02", "Token movements equal what is reported and touch only the parties",
  "Every successful operation moves exactly the amounts it reports, only between the caller (for a delegated burn: the position owner receives) and the contract: a swap takes the reported input and pays the reported output in the right tokens, a claim pays the reported fees, a deposit takes and a withdrawal pays the amounts its liquidity is worth. Operations that do not trade, deposit, withdraw or claim move no tokens, no third party's balance ever changes, and a failed operation moves nothing.",
  [H, I, F], "every operation of every history, every mix of native and cw20 tokens, including transfers that fail",
  "Tests check balances of the one caller in a few scripts; they never observe the full ledger of all accounts after every operation.",
  [EX, CO, IF, POS],
  [("asset transfer messages", IF+" Asset::transfer / transfer_from"), ("response attributes", EX+" swap, swap_route, claim_fee, remove_position"), ("direction of the trade", CO+" swap_internal")],
  ["response attributes and messages", "token ledgers of every account"])
p("C03", "Swaps follow the constant-liquidity curve, rounded for the pool",
  "A successful swap moves the price and exchanges amounts exactly as the constant-liquidity formulas prescribe for the open positions in each price interval it passes, with the fee tier's fee charged on the input, no matter how many positions, ticks, gaps or directions are involved. Every rounding favours the pool: the trader never pays less input or receives more output than the exact curve gives.",
  [I, H], "every pool state reachable by deposits and swaps, amount, direction, exact-in or exact-out, and price limit",
  "Unit tests pin a few dozen step computations and some swap scripts; amounts, prices and liquidity are 128-bit and the multi-tick loop is reached in a few configurations only.",
  [CO, CL, PO, TI, ST],
  [("swap loop", CO+" calculate_swap"), ("single step", CL+" compute_swap_step"), ("tick search", ST+" next_initialized / prev_initialized / get_closer_limit"), ("crossing", PO+" update_tick, "+TI+" cross")],
  ["swap response and pool state before and after", "reference swap over the list of open positions in exact arithmetic"])
p("C04", "No one can extract value from a pool by their own actions",
  "Someone who starts with no position and performs any sequence of deposits, withdrawals, claims and swaps in a pool while nobody else acts, and ends with no position, never ends with more of one token and no less of the other. Valued at the pool's price at the start, they never gain.",
  [H, I], "every reachable pool state and every sequence of own operations (just-in-time liquidity, tiny positions, boundary-tick ranges, dust swaps, exact-out and exact-in mixes)",
  "An attack is a multi-step sequence with adversarial amounts; tests execute none.",
  [CO, CL, POS, PO, TI],
  [("rounding directions", CL+" get_delta_x / get_delta_y / get_next_sqrt_price_*"), ("fee growth bookkeeping", POS+" Position::update, "+TI+" Tick::cross")],
  ["attacker's balances before and after the sequence on a forked state"])
p("C05", "Active liquidity and tick data always match the open positions",
  "At all times a pool's active liquidity equals the sum of the liquidity of the open positions whose range contains the current tick, and each tick's gross and net liquidity equal the sums over positions that start or end there. A tick is recorded and flagged as initialised exactly while some open position uses it as a boundary.",
  [H, I], "every history of deposits, withdrawals, transfers, claims and swaps in any order, any ranges sharing boundaries, any tick spacing, prices landing exactly on boundaries",
  "Tests look at one or two ticks after short scripts; the invariant couples all positions, the crossing logic and the bitmap under all orders.",
  [POS, TI, PO, CO, ST, TM],
  [("tick update", TI+" Tick::update"), ("crossing", TI+" Tick::cross, "+PO+" update_tick"), ("tick creation/removal and bitmap", CO+" create_tick / remove_tick_and_flip_bitmap, "+ST+" flip_bitmap"), ("closer limit", ST+" get_closer_limit")],
  ["pool, tick, tick-initialised and tickmap queries against sums over all positions"])
p("C06", "Price and current tick stay consistent and move only with trades",
  "A pool's price always lies within the interval of its current tick (its upper boundary included, where a downward trade that just crossed it stops), stays within the protocol's price bounds, and the current tick is always a multiple of the tick spacing. Only swaps change the price; selling the first token never raises it, selling the second never lowers it, and it never passes the swap's limit.",
  [H, I], "every history, every tick spacing, start price and limit, including prices exactly on ticks, at gaps wider than the search window and at the ends of the price range",
  "Tests check the final tick of a few swaps; boundary landings and long gaps under all spacings are not covered.",
  [PO, CO, C+"math/log.rs", ST],
  [("tick after a step", PO+" update_tick"), ("price to tick", C+"math/log.rs get_tick_at_sqrt_price"), ("limits", CO+" calculate_swap")],
  ["pool query after every operation"])
p("C07", "Trading fees reach exactly the in-range positions, pro rata, once",
  "The fees a position can collect equal, up to rounding down, its share by liquidity of the liquidity providers' part of every fee charged while the price was inside its range since it was opened or last collected, and nothing else. Collecting twice without trades pays nothing the second time, withdrawing pays the uncollected fees too, and neither other users' deposits, withdrawals, claims or transfers nor a transfer of the position changes what it has earned.",
  [H, I], "every history of swaps in both directions crossing any boundaries between any position events, any fee and protocol fee share, wrap-around of the growth counters",
  "Tests compare one or two claims with literals; the outside/inside growth bookkeeping is only exposed by particular orders of tick creation, crossing and claims.",
  [POS, TI, PO, C+"math/types/fee_growth.rs"],
  [("growth inside", C+"math/types/fee_growth.rs calculate_fee_growth_inside"), ("outside growth flip", TI+" Tick::create / Tick::cross"), ("accrual", POS+" Position::update / claim_fee / remove"), ("growth per fee", PO+" add_fee")],
  ["claim and withdrawal payouts, probed on forks of every position", "reference accumulators per position"])
p("C08", "Protocol fee: exact share accrued, only its receiver can take it, once",
  "Every fee charged credits the pool's protocol balance in the input token with the configured share, rounded up, and the rest goes to liquidity providers, so the two add up to the fee. A withdrawal pays exactly the pool's accrued balances to the pool's fee receiver, resets them to zero, and changes nothing else; nobody else can withdraw, and nothing but swaps and withdrawals changes the balances.",
  [H, I, CF], "every protocol fee share from 0 to 100 %, changes of the share between swaps, any pool and direction, repeated withdrawals",
  "Tests check one share and one swap per direction.",
  [PO, EX, CO],
  [("split", PO+" add_fee"), ("withdrawal", EX+" withdraw_protocol_fee, "+PO+" withdraw_protocol_fee")],
  ["pool query before and after every operation", "ledgers on withdrawal"])
p("C09", "Only the admin changes configuration; changes take effect exactly",
  "Only the current admin can hand over administration, change the protocol fee, change a pool's fee receiver, or add and remove fee tiers; any other caller is refused and nothing changes. A permitted change sets exactly the requested value, is visible in queries at once, affects nothing else, and after a handover the old admin has no power while the new one has all of it; a pool's initial fee receiver is the admin at its creation.",
  [H, I, CF], "every caller, every order of handovers and changes, several pools",
  "Tests try one wrong caller per message on a fresh contract.",
  [EX, C+"contract.rs", C+"storage/config.rs"],
  [("authorisation", EX+" change_admin, change_protocol_fee, change_fee_receiver, add_fee_tier, remove_fee_tier"), ("dispatch", C+"contract.rs execute")],
  ["configuration, fee tier and pool queries before and after every operation"])
p("C10", "The position ledger never loses, duplicates or alters a position",
  "Opening a position adds exactly one position with the requested pool, range and liquidity at the end of the caller's list; closing or transferring removes exactly that one, moving only the last one into its place, and a transfer adds it unchanged (approvals cleared) at the end of the receiver's list. A position's pool, range and liquidity never change while it is open, every owner's positions occupy the indices from zero up with no gap, only the owner (or a permitted party) can move or close one, and identifiers, counts and listings agree with each other.",
  [H, I], "every history of opening, closing and transferring (to others and to oneself) by many users, any index including the first, the last and out of range ones",
  "Tests cover a few transfers among two users.",
  [ST, EX, CO],
  [("list storage", ST+" add_position / remove_position / update_position"), ("transfer", EX+" transfer_position, "+CO+" transfer_nft"), ("burn and mint", EX+" handle_burn / handle_mint")],
  ["position, positions, count, token and owner queries of all users after every operation"])
p("C11", "Approvals grant exactly the stated power until expiry, revoke or move",
  "A position can be moved or burned only by its owner, by a spender with an unexpired approval for that very position, or by an unexpired operator of the owner, and each of these always can; a burn by a permitted party closes that position and pays its owner. Only the owner or an unexpired operator can grant or revoke approvals; a grant lasts until its expiry height or time, revocation takes effect at once, approvals vanish when the position moves, stay with it when other positions of the owner are removed, and already expired grants are refused.",
  [H, I], "every sequence of approve, revoke, operator grants, transfers, burns and index reshuffles, with expiry by height, by time or never, including exactly at the boundary",
  "Tests use one owner, one spender and no index reshuffle; expiry boundaries and delegated burns are not exercised.",
  [CO, EX, QU, ST],
  [("permission", CO+" check_can_send / check_can_approve"), ("grant", CO+" update_approvals, "+EX+" handle_approve_all / handle_revoke_all"), ("clear on move", CO+" transfer_nft, "+EX+" transfer_position"), ("burn", EX+" handle_burn")],
  ["accept/refuse decisions against a shadow permission ledger", "owner, approval and operator queries"])
p("C12", "Quotes equal execution; a route is its swaps chained",
  "A quote returns exactly the input, output, end price and crossed ticks that executing the same swap on the same state produces, and fails exactly when the swap would be refused. A multi-hop swap over distinct pools gives exactly the result of doing its swaps one after another with each output as the next input, a route quote equals it, and quoting changes no state.",
  [H, I], "every pool state, amount, direction, exact-in or exact-out, limit, route of any length",
  "Tests quote two swaps and one two-hop route.",
  [CO, QU, EX],
  [("shared calculation", CO+" calculate_swap"), ("route", CO+" swap_route_internal / route"), ("quote", QU+" quote / quote_route")],
  ["quote before each swap versus the executed swap", "route versus chained swaps on a fork"])
p("C13", "The limits a user sets are always honoured",
  "A swap never pushes the price past the user's limit: it completes within it or is refused as a whole. An exact-input swap takes exactly the given input, a swap that would give nothing is refused; an exact-output swap never delivers more than asked and is never charged for more than it delivers; a multi-hop swap giving less than the expected output minus the slippage is refused, and a deposit is refused exactly when the price is outside the caller's price bounds.",
  [H, I], "every limit (including equal to the current price, a tick price, or the price bounds), slippage from 0 to 100 %, deposit bounds equal to the current price",
  "Tests try a few limits and one slippage boundary.",
  [CO, EX, POS, CL],
  [("limit", CO+" calculate_swap"), ("slippage on deposit", POS+" Position::create"), ("minimum output", EX+" swap_route, "+C+"logic/math.rs calculate_min_amount_out")],
  ["final price, amounts and refusals versus the limits in the request"])
p("C14", "Pool and fee tier registry is exact",
  "A pool can be created only for two different tokens with an enabled fee tier and a start price that belongs to the given, correctly spaced start tick; there is at most one pool per unordered token pair and fee tier, found under either token order, and a new pool starts empty at that price. Fee tiers are kept as a set: only valid ones (spacing 1 to 100, fee below 100 %) and not yet present ones can be added, only present ones removed, and removing a tier stops new pools but leaves existing pools working.",
  [H, I, CF], "every sequence of adding and removing tiers and creating pools with arbitrary token names, orders, prices and ticks",
  "Tests try a few literal prices and tiers.",
  [EX, C+"storage/pool_key.rs", C+"storage/fee_tier.rs", PO, C+"math/types/sqrt_price.rs"],
  [("pool key", C+"storage/pool_key.rs PoolKey::new / key"), ("creation", EX+" create_pool, "+PO+" Pool::create"), ("tiers", EX+" add_fee_tier / remove_fee_tier")],
  ["accept/refuse decisions and registry queries against a shadow registry"])
p("C15", "Listing queries are complete, exact and page without loss",
  "Every listing (pools, pools of a pair, positions, tokens of an owner, all tokens, operators, fee tiers, tick map, ticks with liquidity, tick counts, position ticks) returns exactly the items that exist in the requested range, each once, in order, with their current contents, up to the documented maximum. Paging through any listing with any page size visits every item exactly once, and no query with in-range arguments fails.",
  [H, I], "every state, page size, start and tick range, including full words of the bitmap, range ends, empty results and very large limits",
  "Tests use small fixed data sets and single pages.",
  [QU, ST, CO, TM],
  [("pagination", ST+" get_pools / get_all_positions / get_all_position_keys, "+QU+" query_all_tokens / query_all_approvals"), ("tick map", CO+" tickmap_slice, "+QU+" get_tickmap / get_liquidity_ticks_amount"), ("position ticks", QU+" get_position_ticks")],
  ["query results against the set of items established by the history"])
p("C16", "Exits always work; valid swaps are never refused",
  "In every reachable state every owner can collect the fees of and close every one of their positions, in any order, whatever others did, and the fee receiver can withdraw. A swap that the pool's liquidity can serve within the caller's limit is executed; swaps are refused only for a zero amount, a limit on the wrong side, reaching the limit or the end of the price range, an output of zero, or amounts too large to represent.",
  [H, I], "every reachable state including dust liquidity, empty gaps, prices exactly on ticks, extreme prices and amounts, removed fee tiers, full transfers of positions",
  "Liveness over all reachable states; tests withdraw in a few.",
  [POS, CO, CL, PO, TI, ST],
  [("withdrawal path", EX+" remove_position / claim_fee"), ("crossing decision", CL+" is_enough_amount_to_change_price, "+PO+" update_tick"), ("closer limit", ST+" get_closer_limit")],
  ["forked claim, close and withdraw of everything in random order", "refusal reason of each swap versus the reference"])
p("C17", "Attached native coins: exactly the amount owed is kept",
  "When a deposit, swap or route involves native coins, the caller's net payment in each of the involved coins is exactly the amount owed: any excess attached, including all of it when nothing is owed, is returned in the same operation. If less than the amount owed is attached, the operation is refused and nothing changes; coins attached once are never counted twice.",
  [H, I], "every amount attached (none, short by one, exact, more), every coin of the pools involved, deposits on either side of the price, routes that use a coin more than once",
  "Tests attach exact amounts or one surplus in one swap.",
  [IF, EX, CO],
  [("native accounting", IF+" Asset::transfer_from"), ("callers", EX+" create_position, "+CO+" swap_internal / swap_route_internal")],
  ["native ledger of caller and contract around each operation"])
p("C18", "Isolation: an operation changes only its own pool and position",
  "An operation on one pool leaves every other pool, with its ticks and tick map, bit for bit unchanged, and an operation by one user leaves every other user's positions, approvals and operator grants unchanged, even when pools share tokens, fee tiers or similar names. Within its pool an operation changes only the data it is about, and a failed operation changes no stored data at all.",
  [H, I, F], "every history over several pools with overlapping token names and tiers and several users; failing operations at every point",
  "Tests use one pool and look only at the item under test.",
  [ST, EX, CO, C+"storage/pool_key.rs"],
  [("storage keys", ST+" tick_key / bitmap_key / position_key, "+C+"storage/pool_key.rs key"), ("writes", EX+" all handlers")],
  ["full snapshot of all queries before and after every operation"])
p("C19", "Tick-price conversion is monotone, accurate and exactly inverse",
  "Each tick has one price, strictly increasing in the tick and within a relative error of one in a million of the square root of 1.0001 to the tick, with negative ticks the reciprocals. The tick of any price is the greatest correctly spaced tick whose price does not exceed it, for every price in range and every spacing, out of range prices and ticks are refused, and bitmap positions map back to the same tick: the search for the nearest initialised tick finds exactly it within its window.",
  [I], "all 443 637 ticks, their prices and the prices one below and above each, every spacing from 1 to 100, random prices in between",
  "Tests sample a few dozen ticks and prices.",
  [C+"math/log.rs", C+"math/types/sqrt_price.rs", TM, C+"logic/math.rs"],
  [("tick to price", C+"math/types/sqrt_price.rs calculate_sqrt_price"), ("price to tick", C+"math/log.rs get_tick_at_sqrt_price"), ("bitmap position", TM+" tick_to_position / position_to_tick / get_search_limit")],
  ["the conversion functions and pools created at the prices"])
p("C20", "Fixed-point arithmetic is exact with the stated rounding, never wraps",
  "Every fixed-point operation returns the mathematically exact result rounded in its stated direction (down by default, up for the rounding-up form), for operands of any size and any mix of scales. When the exact result does not fit, it reports an error or aborts; it never returns a wrapped or truncated value, except where wrap-around is its stated purpose (fee growth differences).",
  [I], "all operand pairs of all fixed-point types, including zero, one, the extremes, and values next to rounding boundaries",
  "Tests use a few literals per operation.",
  ["packages/decimal-core/src/ops.rs", "packages/decimal-core/src/big_ops.rs", "packages/decimal-core/src/checked_ops.rs", "packages/decimal-core/src/factories.rs", "packages/decimal/src/uint.rs", C+"math/types/"],
  [("operations", "packages/decimal-core/src/big_ops.rs, checked_ops.rs, ops.rs, factories.rs"), ("domain helpers", C+"math/types/sqrt_price.rs big_div_values_*, fee_growth.rs from_fee / to_fee")],
  ["results of the operations against exact wide integers"])
p("C21", "The client SDK computes exactly what the contract does",
  "The SDK's swap simulation, given a pool's current data as the contract's queries return it, yields the same input, output, fee, end price and crossed ticks as the contract's execution of that swap, and flags insufficient liquidity exactly when the contract refuses it for reaching the limit or the end of the price range (apart from the SDK's own cap on crossed ticks). Its fee, amount, price, tick, bitmap, slippage and token-order helpers agree with the contract for all arguments.",
  [H, I], "every pool state, amount, direction, limit; all ticks and positions",
  "The SDK duplicates the contract's arithmetic in separate files; tests never run the two against each other.",
  ["wasm/swap.rs", "wasm/clamm.rs", "wasm/math.rs", "wasm/log.rs", "wasm/collections/tickmap.rs", "wasm/helpers.rs", "wasm/types/"],
  [("simulation", "wasm/swap.rs simulate_swap"), ("duplicated math", "wasm/clamm.rs, wasm/math.rs, wasm/log.rs"), ("tick search", "wasm/collections/tickmap.rs")],
  ["SDK functions called natively on data from contract queries, versus the contract"], True)
p("C22", "Liquidity-from-amount helpers never overspend and waste nothing",
  "The liquidity computed from an amount of one token for a price range, when deposited at that price, requires no more of that token than given and reports the amount of the other token: exactly what the deposit takes when rounding up, the range formula's amount rounded down otherwise; asking for slightly more liquidity would exceed the budget. Single-sided requests on the wrong side of the price are refused.",
  [I], "every amount, price, range, spacing and rounding choice for which the result fits",
  "Tests use a few literal amounts.",
  [C+"logic/math.rs", "wasm/math.rs"],
  [("liquidity by x / by y", C+"logic/math.rs get_liquidity_by_x / get_liquidity_by_y and their sqrt_price forms"), ("sdk copies", "wasm/math.rs")],
  ["helper results against exact arithmetic and against the amounts a real deposit takes"])
p("C23", "Deposits round up, withdrawals round down, by less than a unit or so",
  "A deposit takes exactly the two token amounts the range formulas give for its liquidity at the current price, rounded up, and a withdrawal returns them rounded down plus uncollected fees: only the first token when the price is below the range, only the second above it, both inside. Depositing and at once withdrawing never returns more than was paid and loses at most the rounding.",
  [H, I], "every range, price position (including exactly on a boundary), liquidity from the smallest to the largest allowed",
  "Tests check a few literal amounts.",
  [CL, POS, PO],
  [("amounts", CL+" calculate_amount_delta / get_delta_x / get_delta_y"), ("use", PO+" update_liquidity, "+POS+" create / remove")],
  ["ledger changes around deposits and withdrawals"])
p("C24", "Time bookkeeping of ticks and pools is right",
  "For every open range the time recorded outside its two boundary ticks and the pool's age determine, exactly and in milliseconds, how long the price has been inside the range while it existed; a new boundary at or below the current tick counts all earlier time as outside, one above it none. A pool's start time never changes, its last update time is the time of the latest operation that opened, collected from or closed a position or crossed a tick, and a position records the block it was opened in.",
  [H], "every history of deposits, withdrawals and crossing swaps at arbitrary times",
  "Tests check literal values on hand-built ticks with one crossing.",
  [TI, POS, PO],
  [("outside time", TI+" Tick::create / Tick::cross"), ("last update", POS+" Position::modify")],
  ["tick and pool queries over time against the observed price path"])
p("C25", "Malformed requests are refused, well-formed ones accepted",
  "A deposit is accepted exactly when the pool exists, its liquidity is positive, the range is increasing, both ends are correctly spaced and within bounds, the per-tick liquidity cap is not exceeded, the price bounds hold and the caller can pay; a refused one leaves no trace. Swaps, claims, withdrawals and transfers naming a non-existent pool, position or zero amount are refused without effect.",
  [I, H], "every argument combination including misaligned, inverted, equal, minimum and maximum ticks, zero and maximum liquidity, unknown pools, positions and token orders",
  "Tests try single invalid values.",
  [EX, CL, TI, CO],
  [("tick checks", CL+" check_tick, "+CO+" create_tick"), ("cap", TI+" calculate_new_liquidity_gross"), ("presence", ST+" get_position / get_pool")],
  ["accept/refuse decision of each request against the stated conditions", "full snapshot after refusals"])
p("C26", "Events tell the truth",
  "The event of every successful operation names its action and reports what really happened: opening or minting and closing or burning a position report its owner, liquidity, both boundaries and the pool's price after the operation; a swap the input taken and the output given, a route its output, a claim the fees collected; NFT transfers, sends, approvals and revocations the caller and the other party; a handover the new admin.",
  [H, I], "every successful operation with any arguments, by the owner or a delegate, in any state",
  "Tests read a few attributes of single operations at most; an indexer relies on all of them.",
  [EX],
  [("events", EX+" create_position / remove_position / swap / claim_fee / handle_*")],
  ["attributes of each response against the request, the snapshots and the balance changes around it"])
p("C27", "Set-up starts empty and migration keeps everything",
  "A newly set up contract has its creator as admin, the given protocol fee and no tiers, pools, positions or operators. Migrating it, at any point of any history, sends and moves nothing and changes no configuration, pool, tick, position, approval or operator, and every later operation has the same outcome as without the migration.",
  [H], "every history before and after the migration",
  "No test migrates a contract that has data.",
  ["contracts/oraiswap-v3/src/contract.rs"],
  [("entry points", "contracts/oraiswap-v3/src/contract.rs instantiate / migrate")],
  ["snapshots before and after a migration on a fork, and of operations run on the migrated and the plain fork side by side"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
