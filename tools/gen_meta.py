#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (one place for both, so that they stay in step)."""
import json, os
S = "contracts/sumtree-orderbook/src/"
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")

# id, title, statement, over, quantifier text, why tests can't, files, mechanism[(name, where)], state[(name, meaning, where)], observe_at, technique note, level note
P = []
def p(id, title, st, over, q, why, files, mech, state, obs, tech, note, hook=None):
    P.append(dict(id=id, title=title, st=st, over=over, q=q, why=why, files=files, mech=mech, state=state, obs=obs, tech=tech, note=note, hook=hook))

MSGS = "execute, sudo and query messages and the bank transfers they produce"
SEQ = "every sequence of placements, cancels, claims, batches, swaps, role changes and fee changes by any users, at any prices and amounts"

p("C01", "Solvency: every order can always be paid in full",
  "After every accepted or refused message the contract's balance of each token covers everything resting orders are owed: their unfilled deposit plus the proceeds of their filled but unclaimed part at the order's own price. From any reachable book everybody can leave, in any order: every filled amount can be claimed and every untouched or remaining deposit can be withdrawn, each paid in full. Rounding never lets the surplus of holdings over obligations shrink.",
  ["histories", "inputs"], SEQ + "; then every order of leaving the book.",
  "The tests run short scripted scenarios at a few prices and never compare the contract's holdings with the sum of what it owes; a rounding or double-payment error shows only for some price and amount and after several steps.",
  [S+"order.rs", S+"sumtree/tree.rs", S+"tick.rs", S+"tick_math.rs", S+"sudo.rs"],
  [("exact payment on placement", S+"order.rs place_limit"), ("taker pays rounded up, maker receives rounded down", S+"order.rs run_market_order_internal, claim_order"), ("refund of unspent input", S+"sudo.rs dispatch_swap_exact_amount_in")],
  [("tick totals", "cumulative value filled, cancelled and placed per level and side", S+"types/tick_values"), ("orders", "resting orders with remaining quantity", S+"state.rs orders")],
  ["bank balances of the contract", "orders_by_tick, all_ticks, get_unrealized_cancels"],
  "online conservation monitor over random histories with a chain and bank model, plus forked full-exit runs",
  "Holdings are compared with obligations computed from the published book after every message of every generated history, and sampled states are drained completely on a fork. Assumes the bank and sub-message semantics of the harness's chain model.")

p("C02", "Time priority inside a price level",
  "Within one side of one price level, fills are given to resting orders strictly in placement order: no later order receives any fill while an earlier one of the same side still has unfilled quantity. Cancelling any order in the queue, before or after trades, neither gives fills to nor takes fills from the others. What an order becomes entitled to is exactly the part of the traded amount that reaches its place in the queue, however trades, cancels and claims are interleaved.",
  ["histories"], "Every interleaving of placements, cancels, claims and partial trades at a level, for queues of any length and any cancel pattern.",
  "Tests check a few queues of two or three orders; the position of an order depends on a balanced tree of cancelled intervals whose shape depends on the whole history.",
  [S+"tick.rs", S+"sumtree/tree.rs", S+"sumtree/node.rs", S+"order.rs"],
  [("place in the queue by cumulative deposit", S+"order.rs place_limit"), ("cancelled volume ahead of an order", S+"sumtree/tree.rs get_prefix_sum"), ("cancels realised as the level trades", S+"tick.rs sync_tick")],
  [("sumtree", "cancelled intervals of a level", S+"sumtree"), ("etas", "effective total amount swapped at a level", S+"types/tick_values"), ("unrealized cancels", "cancels not yet reached by trades", S+"types/tick_values")],
  ["orders_by_tick and get_unrealized_cancels", "outcome of claims"],
  "online checker of a queue specification (model-free prefix rule and reference queue) over random histories",
  "Every queue is read back through the published figures after every message and judged by the prefix rule and by an independent first-in-first-out queue.")

p("C03", "A claim pays exactly the unclaimed fill, exactly once",
  "Claiming an order succeeds exactly when it exists and some of it has been filled since the last claim; it then pays out the value of that newly filled amount at the order's price, rounded down, and reduces the order's quantity by exactly that amount. The payout is split without loss between owner, claimer's bounty and maker fee, so that the parts add up to that value. An order whose whole quantity has been claimed ceases to exist, one still partly open stays with its remaining quantity, and nothing can be claimed twice.",
  ["histories", "inputs"], SEQ + ", claims by anybody, single and batched, repeated and interleaved with trades.",
  "Tests claim each order once or twice at round prices; repeated partial claims, arbitrary prices, and claims by third parties with fee and bounty combine to an unbounded space.",
  [S+"order.rs", S+"tick.rs", S+"types/order.rs"],
  [("amount filled since last claim", S+"order.rs claim_order"), ("record shrinks or is removed", S+"order.rs claim_order")],
  [("orders", "remaining quantity and position", S+"state.rs orders")],
  ["bank transfers of claim messages", "order records after claims"],
  "online oracle on every claim against a reference book over random histories",
  "Each claim's acceptance, transfers and resulting record are compared with the reference; total payouts are compared exactly.")

p("C04", "Only the owner can cancel, only untouched orders, with exact refund",
  "A cancel succeeds only when sent by the order's owner, without funds, for an existing order none of whose current quantity has been filled and awaits claiming. It then returns exactly the order's remaining deposit in the deposited token to the owner and nobody else, removes the order, and leaves it unclaimable and uncancellable. An order that qualifies can always be cancelled, whatever happened at its price level.",
  ["histories", "inputs"], SEQ + ", cancels by owners and strangers of open, partly filled, filled, claimed, already cancelled and never existing orders.",
  "Tests cancel single orders in fresh levels; whether an order counts as touched depends on all earlier trades and cancels at its level.",
  [S+"order.rs", S+"tick.rs", S+"sumtree/tree.rs"],
  [("ownership and fill guards, refund", S+"order.rs cancel_limit")],
  [("orders", "owner and remaining quantity", S+"state.rs orders")],
  ["result and transfers of cancel messages", "orders_by_tick"],
  "online oracle on every cancel against a reference book over random histories",
  "Acceptance and transfers of each cancel are compared with the reference queue in both directions (must succeed, must fail).")

p("C05", "Swaps execute at the best prices, level by level, rounded against the taker",
  "A swap consumes resting liquidity strictly from the best price towards worse ones and moves to the next level only when the current one is exhausted. At each level the output is the remaining input converted at that level's price, rounded down and capped by the liquidity there, and the input charged is the output converted back at the same price, rounded up. The taker receives exactly the sum of these outputs, is charged never less than the sum of these inputs, and gets unspent input back, except a remainder too small to buy one unit at the price reached.",
  ["histories", "inputs"], "Every reachable book, both directions, every input amount, bounded or not.",
  "Tests swap against a few round-number levels; rounding and level transitions depend on price magnitude, amount and what was traded or cancelled before.",
  [S+"order.rs", S+"sudo.rs", S+"tick_math.rs"],
  [("level walk and rounding", S+"order.rs run_market_order_internal"), ("refund", S+"sudo.rs dispatch_swap_exact_amount_in")],
  [("best price pointers", "where the walk starts", S+"types/orderbook.rs")],
  ["transfers and data of swap messages", "per-level liquidity before and after"],
  "online oracle on every swap against an independent exact-integer matching engine",
  "Per-level fills, output and charge of each swap are compared with an independent matcher in 256-bit integer arithmetic.")

p("C06", "Swap limits: minimum output, price bound, no partial execution, exact refund",
  "A swap delivers at least the requested minimum output or is refused, and any minimum up to the amount the swap yields is accepted. A swap without price bound is refused unless its whole input can be used, save a remainder too small to buy one unit; a swap with a price bound never trades beyond that bound and returns what it could not use. No swap pays out zero, a wrong token, somebody other than the sender, or more input back than was provided, and swaps with a foreign pair or a nonzero swap fee are refused.",
  ["histories", "inputs"], "Every reachable book, direction, input amount, minimum and price bound, including bounds at, inside and outside the best price and the ends of the price range.",
  "Tests use a handful of minimum and bound values; limits must be enforced at every boundary of every book.",
  [S+"sudo.rs", S+"order.rs"],
  [("output limits", S+"sudo.rs validate_output_amount"), ("bound and leftover checks", S+"order.rs run_market_order_internal, run_market_order")],
  [], ["result, transfers and data of swap messages", "levels beyond the bound"],
  "online oracle on every swap plus forked boundary probes (minimum = yield, yield + 1; bound at every level)",
  "Each swap is judged in both directions against the limits, and sampled books are probed at the exact boundaries on forks.")

p("C07", "Quotes equal execution and change nothing",
  "For any book, direction and input amount, the quoted output equals what executing that swap on the same state would deliver, and a quote that is refused or is zero means the swap would be refused too. Both names of the quote query answer alike, quoting never changes state, and an answer does not depend on whether trading is paused. Quotes for a foreign pair, a token into itself or an unsupported swap fee are refused.",
  ["histories", "inputs"], "Every reachable book, both directions, every input amount.",
  "Tests compare quotes with hand-computed numbers on a few books; agreement with execution has to hold for every state and amount.",
  [S+"query.rs", S+"order.rs", S+"contract.rs"],
  [("quote by simulated matching", S+"query.rs calc_out_amount_given_in"), ("shared matching code", S+"order.rs run_market_order_internal")],
  [], ["calc_out_amount_given_in, calc_out_amt_given_in", "swap execution on a fork"],
  "differential monitor: quote versus execution on a fork of the same state",
  "Quotes at boundary amounts are compared with executed swaps on forks of states reached by random histories.")

p("C08", "Published liquidity always equals the unfilled quantity of resting orders",
  "At every moment, the liquidity shown for each side of each price level equals the sum of the unfilled parts of the orders resting there, and the pool's total liquidity per token equals the sum over all levels. Placing adds exactly the order's quantity, cancelling removes exactly the refunded quantity, a trade removes exactly the amount traded, and claiming changes nothing.",
  ["histories"], SEQ + ".",
  "Tests check liquidity after one or two operations; drift between the separately kept totals appears only over longer mixed histories.",
  [S+"state.rs", S+"order.rs", S+"query.rs", S+"types"],
  [("level liquidity bookkeeping", S+"order.rs place_limit, cancel_limit, run_market_order_internal"), ("pool liquidity bookkeeping", S+"state.rs add_directional_liquidity, subtract_directional_liquidity")],
  [("tick state", "liquidity per level and side", S+"state.rs TICK_STATE"), ("directional liquidity", "pool totals", S+"state.rs DIRECTION_TOTAL_LIQUIDITY")],
  ["all_ticks, ticks_by_id, get_total_pool_liquidity", "orders_by_tick"],
  "online invariant monitor (model-free sums) and reference comparison after every operation",
  "Level and pool figures are compared after every message with sums over the published orders and with the reference book.")

p("C09", "Best-price pointers and spot price never hide liquidity and track the market",
  "No resting bid liquidity is ever above the published best bid tick and no resting ask liquidity below the published best ask tick, so swaps always start at the best price. The pointers move only by a placement that improves them or by a trade, after which they stand at the last level traded. The spot price is the price of the best bid tick when pricing the base token in quote and the inverse of the price of the best ask tick the other way round, and other pairs are refused.",
  ["histories"], SEQ + ".",
  "Tests check pointers after single operations; orders of operations that skip, empty and refill levels are unbounded.",
  [S+"order.rs", S+"query.rs", S+"types/orderbook.rs"],
  [("pointer update on placement", S+"order.rs place_limit"), ("pointer update on trade", S+"order.rs run_market_order_internal"), ("spot price", S+"query.rs spot_price")],
  [("best ticks", "next bid and ask tick", S+"types/orderbook.rs")],
  ["orderbook_state, spot_price, all_ticks"],
  "online invariant monitor and reference comparison after every operation",
  "Pointers are judged both by the model-free no-hidden-liquidity rule and by an independent reference after every message.")

p("C10", "Tick prices are exact, strictly increasing and bounded",
  "Every valid tick has a price, equal to the exact value of the geometric grid (a power of ten every nine million ticks, evenly spaced in between, one at tick zero), and a higher tick always has a strictly higher price. Every tick outside the valid range is refused rather than priced.",
  ["inputs"], "All 290,402,824 valid ticks and every other 64-bit tick.",
  "Tests evaluate a few dozen ticks.",
  [S+"tick_math.rs", S+"constants.rs"],
  [("tick to price", S+"tick_math.rs tick_to_price")], [],
  ["tick_to_price"],
  "exhaustive execution with a closed-form oracle and an order monitor",
  "Every valid tick is executed and compared on every run (quick and thorough), ticks outside the range are sampled; held on what the evidence counts.")

p("C11", "Amount conversion rounds exactly as requested",
  "Converting an amount between base and quote at the price of any valid tick gives the exact rational result rounded down or up as requested: rounding down never exceeds it, rounding up never falls below it, and both are off by less than one unit. No amount makes a conversion at a valid price overflow, wrap or abort, and a conversion that cannot be represented or divides by a zero price is reported as an error.",
  ["inputs"], "Every 128-bit amount, every tick, both directions, both roundings.",
  "Tests check four divisions and a few multiplications with small integers.",
  [S+"tick_math.rs"],
  [("conversion", S+"tick_math.rs multiply_by_price, divide_by_price, amount_to_value")], [],
  ["multiply_by_price, divide_by_price, amount_to_value"],
  "generated executions judged by exact 512-bit arithmetic",
  "Boundary-biased amounts and prices are executed and compared with exact wide-integer results.")

p("C12", "Published figures tell exactly what an order can claim",
  "From the published level figures, unrealised cancels and the order's published record alone, anyone can compute how much of the order has been filled, and claiming the order yields exactly that amount: claiming succeeds exactly when the figure is positive and cancelling succeeds exactly when it is zero. The queue position they give for a side of a level is always that of its oldest order still open.",
  ["histories"], SEQ + ", for every resting order.",
  "Tests check the unrealised-cancel query on constructed trees; its agreement with what claims pay must hold for every level history.",
  [S+"query.rs", S+"tick.rs", S+"sumtree/tree.rs", S+"order.rs"],
  [("unrealised cancels", S+"query.rs get_unrealized_cancels"), ("realisation on claim", S+"tick.rs sync_tick")],
  [("level figures", "amount traded and cancels realised", S+"types/tick_values")],
  ["get_unrealized_cancels, ticks_by_id, orders_by_tick", "claims and cancels on a fork"],
  "differential monitor: published claimable amount versus claiming and cancelling on forks",
  "For sampled orders of states reached by random histories the published figure is compared with the executed claim and cancel.")

p("C13", "Cost bounds: constant placement, logarithmic cancel and claim, per-level swaps",
  "Placing an order touches a bounded number of storage entries regardless of the book. Cancelling and claiming touch a number that grows at most logarithmically with the number of orders ever cancelled at the level, as does reading a level's unrealised cancels, and a swap's cost depends on the number of price levels it crosses and never on the number of orders in them.",
  ["histories"], "Every history length and cancel pattern: sequential, reversed, alternating, random, clustered.",
  "Tests never measure cost, and the tree is tested with a few dozen nodes in chosen shapes.",
  [S+"sumtree/tree.rs", S+"sumtree/node.rs", S+"tick.rs", S+"order.rs"],
  [("balanced tree of cancels", S+"sumtree/node.rs rebalance"), ("constant work per level", S+"order.rs run_market_order_internal")],
  [("sumtree", "cancelled intervals of a level", S+"sumtree")],
  ["storage reads, writes and iterator steps per message"],
  "instrumented storage: access counters checked against bounds over long histories",
  "Storage accesses are counted per message in long histories with hostile cancel patterns and compared with explicit bounds (about twice the current worst case). Says nothing about CPU cost outside storage.")

p("C14", "Listing queries are complete, consistent and paginate without gaps",
  "Listings of levels, of orders at a level and of orders of an owner return exactly the existing entries, each once, with the published record and in ascending order; bounds are inclusive, a limit returns the first entries, and reported counts are right. Fetching page after page yields the same entries as one unlimited listing, and owners and levels never see each other's orders.",
  ["histories", "inputs"], "Every reachable book and every combination of bounds and limits.",
  "Tests list a few orders with a few bounds.",
  [S+"query.rs", S+"state.rs"],
  [("listing", S+"query.rs all_ticks, orders_by_owner, orders_by_tick, ticks_by_id"), ("owner index", S+"state.rs get_orders_by_owner")],
  [("owner and level indexes", "secondary indexes of orders", S+"state.rs OrderIndexes")],
  ["all_ticks, ticks_by_id, orders_by_tick, orders_by_owner"],
  "online oracle: every page compared with the full set known to the reference book",
  "Random bounds and limits are queried on states of random histories and compared with the complete set.")

p("C15", "Roles: only the right party changes admin, moderator and settings",
  "The admin changes only by the admin offering and the offered address accepting, by the admin renouncing, or by governance; the moderator changes only by the admin offering and the offered address accepting. Pending offers are withdrawn or declined only by the party entitled to do so, are used up when accepted, and grant nothing until accepted; fee settings need the admin and the trading switch needs admin or moderator. Every party entitled to an action can perform it at any time, also while trading is paused, and no other message changes any role.",
  ["histories"], "Every sequence of role messages by every address, interleaved with trading and pausing, with stale, repeated and crossing offers and invalid addresses.",
  "Tests check each message once from a fresh state; stale offers, renounced admins and role changes while paused are histories.",
  [S+"auth.rs", S+"sudo.rs", S+"contract.rs"],
  [("authorisation", S+"auth.rs ensure_is_admin, ensure_is_admin_or_moderator"), ("two-step hand-over", S+"auth.rs dispatch_claim_admin, dispatch_claim_moderator"), ("governance override", S+"sudo.rs sudo")],
  [("admin, moderator, offers", "role holders", S+"auth.rs")],
  ["auth messages and auth queries"],
  "online checker of a role state machine over random histories",
  "Every role message is judged in both directions against a reference state machine and all roles are read back after every message.")

p("C16", "The trading switch stops exactly trading and can always be lifted",
  "While paused, every placement, cancel, claim, batch and swap is refused and changes nothing; queries keep answering and role and governance messages keep working. Admin, moderator and governance can each reopen the book at any time, after which everything continues as if it had never been paused.",
  ["histories"], "Every point of every history at which the book is paused, by and after any role changes.",
  "Tests check one message each on a fresh paused book.",
  [S+"contract.rs", S+"sudo.rs", S+"auth.rs"],
  [("gate", S+"contract.rs execute and " + S + "sudo.rs ensure_is_active"), ("switch", S+"sudo.rs set_active")],
  [("active switch", "whether trading is open", S+"state.rs IS_ACTIVE")],
  ["all messages and queries while paused, is_active"],
  "online oracle over random histories with pauses, plus forked pause/refuse/resume cycles",
  "Refusals, frozen state and every road to reopening are exercised on forks of states reached by random histories.")

p("C17", "Fees and bounties are capped and split exactly",
  "The maker fee can never be set above five percent nor a claim bounty above one percent; both apply to the gross proceeds of a claim, each rounded down. The bounty goes to whoever sends the claim, the fee to the current fee recipient, the rest to the order's owner, and nobody else receives anything; the fee in force at claim time applies, and orders keep their own bounty.",
  ["histories", "inputs"], "Every fee, bounty, price, fill amount, claimer and recipient, and every change of them between placing, trading and claiming.",
  "Tests use a few fee and bounty values with round amounts.",
  [S+"order.rs", S+"orderbook.rs", S+"auth.rs", S+"constants.rs"],
  [("fee cap", S+"orderbook.rs set_maker_fee"), ("bounty cap", S+"order.rs place_limit"), ("split", S+"order.rs claim_order")],
  [("maker fee and recipient", "current settings", S+"state.rs MAKER_FEE, MAKER_FEE_RECIPIENT")],
  ["transfers of claim messages, get_maker_fee"],
  "online oracle on every payout share over random histories with changing fees",
  "Shares are compared exactly with the reference split for each claim; caps are probed at and around the limits.")

p("C18", "Failed payouts undo everything; a batch equals its claims one by one",
  "If any payout of a message cannot be delivered the whole message fails and no state or balance changes, and the same action succeeds unchanged once delivery is possible again. A batch of claims pays and changes exactly what claiming its entries one by one would, entries that cannot be claimed are skipped without harming the others, and at most one hundred entries are accepted.",
  ["fault_sequences", "histories"], "Every message with a payout and every choice of failing receiver; every batch, including duplicates, unknown, unfilled and foreign entries.",
  "Tests cannot fail a bank transfer in the unit environment and check batches with a few valid entries.",
  [S+"order.rs", S+"contract.rs", S+"sudo.rs"],
  [("reply on error", S+"contract.rs reply"), ("batch", S+"order.rs batch_claim_limits")],
  [], ["result, transfers and stored state of messages with payouts"],
  "fault injection into payouts (blocked receivers) with an atomicity monitor, and batch/sequence differential runs",
  "Receivers are blocked at random in a chain model with real sub-message, reply and rollback semantics; batches are compared with single claims on forks.")

p("C19", "Order identity, records and receipts are exact and permanent",
  "Every placed order gets an identifier never used before, and its record shows exactly the owner, price level, side, quantity, bounty and time it was placed with; only its remaining quantity and position change later, and only by claims. The receipts emitted for placements, cancels, claims and swaps report the order's identity, parties and amounts as they really were, and those of role and setting messages what was really set.",
  ["histories"], SEQ + ".",
  "Tests compare a few records and events; every record must stay intact through every later operation on its level.",
  [S+"order.rs", S+"state.rs", S+"types/order.rs"],
  [("identifier counter", S+"state.rs new_order_id"), ("record", S+"types/order.rs"), ("receipts", S+"order.rs place_limit, cancel_limit, generate_claimed_order_event; " + S + "sudo.rs")],
  [("order id", "last identifier", S+"state.rs ORDER_ID"), ("orders", "records", S+"state.rs orders")],
  ["orders_by_tick, orders_by_owner", "response attributes and events"],
  "online comparison of every record and receipt with the reference book",
  "All records are read back after every operation at a level and compared field by field.")

p("C20", "Isolation: a message changes only what it names",
  "A message affects only the orders it names (for swaps, the traded side within the bound): every other order keeps its record and fill, every other level its liquidity, and no bystander's balance changes. Refused messages change nothing at all.",
  ["histories"], SEQ + ", accepted and refused.",
  "Tests look at the objects they operate on, not at everything else.",
  [S+"order.rs", S+"tick.rs", S+"sumtree", S+"state.rs"],
  [("per-level, per-side state", S+"state.rs, " + S + "sumtree")],
  [("trees and level figures", "kept per level and side", S+"sumtree")],
  ["complete published book and all balances before and after each message"],
  "before/after frame monitor on the complete published state",
  "The complete published book and all balances are compared before and after every message.")

p("C21", "Determinism: equal histories give equal results and state",
  "Executing the same history on any instance of the contract gives the same outcome, transfers, receipts and stored state, independent of other instances, of repetition, of the thread and of queries in between, and outcomes do not depend on the block time. Queries on the same state always answer the same.",
  ["histories", "schedules"], "Every history, replayed on independent instances interleaved with foreign traffic.",
  "Tests run each scenario once; hidden process state or unordered collections would break consensus between validators only.",
  [S+"contract.rs", S+"order.rs", S+"query.rs"],
  [("all state in contract storage", S+"state.rs")], [],
  ["results, events, storage bytes and balances of replayed histories"],
  "recorded event logs replayed on independent instances (interleaved, other thread, other block time) and compared offline",
  "Each recorded history is executed five times under different surroundings, once by a book with other token names at another address, and compared byte by byte.")

p("C22", "No message or query can abort the contract",
  "Every message and query, however malformed, extreme or badly timed, ends in an answer or a proper error: no arithmetic overflow, failed assertion, unbounded recursion or other abort. The two messages declared as not implemented are the only exceptions.",
  ["inputs", "histories"], "Every message text and every value up to the limits of its type, on every reachable book.",
  "Tests send well-formed messages with moderate values.",
  [S+"contract.rs", S+"sudo.rs", S+"order.rs", S+"query.rs", S+"tick_math.rs", S+"sumtree"],
  [("checked arithmetic and error returns", "throughout")], [],
  ["panics and stack exhaustion during any call"],
  "hostile-input workload under overflow checks with a panic monitor",
  "Structured, mutated and extreme messages are run with overflow checks compiled in; any panic is a violation.")

p("C23", "Placements are accepted exactly when valid, for exact payment",
  "A placement is accepted exactly when its tick is in range, its quantity is positive, its bounty is within the cap and exactly one coin of the right token and exactly the stated quantity is attached: quote token for bids, base token for asks. An accepted placement escrows precisely that amount and moves no other funds; anything else is refused without taking anything.",
  ["inputs", "histories"], "Every tick, quantity, side, bounty and set of attached coins, on every reachable book.",
  "Tests enumerate a few invalid placements.",
  [S+"order.rs", S+"types/orderbook.rs"],
  [("validation", S+"order.rs place_limit")], [],
  ["result of placements and balances"],
  "online oracle on every placement over boundary-biased inputs",
  "Acceptance, escrow and transfers are judged in both directions for each placement.")

p("C24", "Published liquidity is tradable: swaps the book can serve are never refused",
  "Whenever the resting orders can serve a swap, with its price bound and limits met, the swap succeeds, whatever was traded, cancelled or left over at any level before. Paying the full price of a side's published liquidity buys all of it.",
  ["histories", "inputs"], "Every reachable book and every input amount the book can serve, down to the smallest and up to everything; all prices.",
  "Tests swap comfortable amounts at moderate prices; dust, extreme prices and emptied levels need particular histories.",
  [S+"order.rs", S+"sudo.rs", S+"tick_math.rs"],
  [("matching", S+"order.rs run_market_order_internal")],
  [], ["result of swaps on forks"],
  "forked availability probes (smallest, exact level sums, everything) judged by the reference matcher",
  "States of random histories are probed with amounts the reference matcher proves servable; any refusal is a violation.")

p("C25", "A new book starts empty, open and correctly configured",
  "Creating a book succeeds exactly for two different tokens that both exist, and a refused creation leaves nothing behind. A new book is empty, open for trading, has the documented default roles, fee and fee recipient and the extreme price pointers, reports the given tokens on the right sides (creation receipt included), and works for its own pair only.",
  ["configurations", "inputs"], "Every pair of token names and supplies, and every creator.",
  "Tests instantiate with one or two pairs.",
  [S+"contract.rs", S+"orderbook.rs", S+"constants.rs"],
  [("creation", S+"contract.rs instantiate, " + S + "orderbook.rs create_orderbook")],
  [], ["result of creation and all queries on the fresh book"],
  "generated configurations with an oracle on the complete initial state",
  "Random pairs and supplies are created and the complete published initial state is compared.")

p("C26", "Upgrades keep every stored book readable and working",
  "Books stored by the released version, including order records from before the placement time was recorded, stay fully readable after upgrading, with every order, level figure, setting and role unchanged. Trading, claiming and cancelling continue on them exactly as if there had been no upgrade.",
  ["histories", "configurations"], "Every stored book and every continuation of it after the upgrade.",
  "Tests always start from an empty store written by the code under test, so a change of stored layout or meaning is invisible to them.",
  [S+"state.rs", S+"types", S+"sumtree", S+"contract.rs"],
  [("stored layout", S+"state.rs, " + S + "types, " + S + "sumtree"), ("migrate", S+"contract.rs migrate")],
  [], ["all queries after loading recorded storage", "continuations"],
  "recorded storage images replayed under the current code with the full set of online monitors",
  "Six storage images recorded from the released code, with and without the later field, are upgraded and continued by random histories under the monitors of the other properties.")

p("C27", "The cancellation ledger stays complete, ordered and balanced",
  "For each side of each price level the contract keeps a search tree of the queue stretches that cancelled orders vacated; every later fill entitlement is read from it. After every message it holds exactly one entry per cancelled remainder, at that order's position in the queue and of that amount, with entries in ascending order and never overlapping. All sums, ranges and heights recorded on the way to the entries are exact, links agree in both directions, every stored node belongs to one side's tree, sibling heights differ by at most one, so that the tree stays logarithmic however cancels arrive, and node numbers are never reused.",
  ["histories"], "Every sequence of placements, trades, claims and cancels at a level, in particular every order in which the queue's orders are cancelled, of any length, on both sides.",
  "Tests insert a handful of fixed sequences into a bare tree; rotations, range updates and number sharing between the two sides of a level combine over the whole history, and a wrong inner sum stays invisible until a later order's prefix happens to cross it.",
  [S+"sumtree/node.rs", S+"sumtree/tree.rs", S+"order.rs", S+"state.rs"],
  [("insertion, rebalancing and rotation", S+"sumtree/node.rs insert, rebalance, rotate_left, rotate_right"), ("entry added by a cancel", S+"order.rs cancel_limit"), ("root per side", S+"sumtree/tree.rs get_or_init_root_node")],
  [("nodes", "entries and inner nodes per level", S+"state.rs / sumtree/node.rs NODES"), ("tree", "root per level and side", S+"sumtree/tree.rs TREE"), ("node_id", "last node number per level", S+"sumtree/node.rs NODE_ID_COUNTER")],
  ["stored nodes, roots and counters, read raw after every message"],
  "state-invariant monitor on the stored tree, with the history of cancels as oracle",
  "The raw stored tree of every touched level is walked after the messages that touch it and compared with the cancels that happened. If an edit changes the stored layout so that it cannot be read, this monitor says so in its counters and judges nothing (C26 then speaks).")

p("C28", "Claims and withdrawn orders change nothing for anybody else",
  "Two kinds of message leave no trace in other people's trading. Claims: leaving claims out, postponing them or bringing them forward changes no later placement, trade or cancellation, no price, no published liquidity and no order's unfilled quantity, and in total no more than the rounding of the claims themselves. Withdrawn orders: orders placed at an existing level, not ahead of the best price, and cancelled before the next trade change nothing at all, neither what later messages do nor a single unit of what the contract holds, however many there were.",
  ["histories"], SEQ + "; then every way of leaving out, moving or adding such claims and orders.",
  "Tests look at one history at a time; that two histories with different claims or with extra withdrawn orders lead to the same trades is a relation between runs, and a stale synchronisation or a leftover of a cancellation shows only through what happens to others later.",
  [S+"order.rs", S+"tick.rs", S+"sumtree/tree.rs", S+"state.rs"],
  [("claims bring the level up to date first", S+"order.rs claim_order, tick.rs sync_tick"), ("a cancel gives back everything its placement changed", S+"order.rs place_limit, cancel_limit")],
  [("tick totals", "cumulative, swapped and cancelled value per level and side", S+"types/tick_state"), ("sumtree", "cancelled intervals of a level", S+"sumtree")],
  ["outcome of every message", "all_ticks, orders_by_tick, spot_price, pool totals", "bank balance of the contract"],
  "offline checker comparing recorded histories with replays that differ only in claims or in withdrawn orders",
  "Each recorded history is executed four more times on fresh books of the real code: without claims, with all possible claims after every trade, and twice with other people's orders placed and withdrawn in between; outcomes, visible book and holdings must agree at every compared point.")

with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps({
            "id": x["id"], "title": x["title"], "statement": x["st"],
            "quantifier": {"over": x["over"], "text": x["q"]},
            "why_tests_cant": x["why"],
            "anchors": {"files": x["files"],
                        "mechanism": [{"name": a, "where": b} for a, b in x["mech"]],
                        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in x["state"]],
                        "observe_at": x["obs"], "hook_needed": x["hook"]}}) + "\n")
m = {"version": 1, "setup_cmd": "./check.sh build",
     "checks": [{"property": x["id"], "quick_cmd": f"./check.sh {x['id']} quick", "thorough_cmd": f"./check.sh {x['id']} thorough",
                 "evidence_file": f"evidence/{x['id']}.json", "technique": "runtime monitoring: " + x["tech"],
                 "level": "exploration", "level_note": x["note"]} for x in P],
     "not_applicable": [],
     "notes": "No hooks in /repo: everything is driven and observed through the contract's public entry points."}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
