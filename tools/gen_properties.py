#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the texts stay reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

# ---------------------------------------------------------------- simulation core
p("C01","Every message is delivered exactly once, to its recipient, at its time",
 "Every message an agent sends is put into the inbox of exactly the recipient it names, exactly once, and is handed to the recipient's message handlers exactly once, in a step at the delivery time stated when it was sent (or, when that time has already passed, at the earliest later opportunity), never before and never later because of other messages or wake-ups of the recipient. Outboxes are empty after sending, and the count of sent messages equals the number delivered. A message naming an agent that does not exist is reported as an error, not dropped.",
 ["histories","configurations","inputs"],"all populations of agents, all message patterns (delays, fan-out, replies, self-messages, bursts), wake-up patterns, thread counts and model start/end times",
 "the tests never run a populated model: message processing is tested on one hand-filled inbox, and delivery by the environment is not built at all",
 ["esl/computation/environment.cpp","esl/simulation/model.cpp","esl/interaction/communicator.cpp","esl/interaction/communicator.hpp"],
 [("moves outboxes to inboxes keyed by delivery time and lowers the recipient's wake-up","esl/computation/environment.cpp send_messages"),("retains only messages later than the current step in the inbox","esl/simulation/model.cpp step"),("handles only messages due","esl/interaction/communicator.cpp process_messages")],
 ["message callbacks and act() of harness agents","inbox/outbox after each step"])
p("C02","Message handlers run once each, by priority, only for their message type",
 "When an agent processes its inbox, each due message is handed once to every handler registered for its type and to no other handler, handlers of one message run from highest to lowest priority, and messages are served in descending order of the highest priority among their handlers. Under in-order scheduling this order is the same on every run, and under random scheduling it is a permutation within equal priority that is reproducible from the seed. The earliest time returned by any handler, limited by the end of the step, is the returned wake-up time, and registering a handler after the agent has been created in a model is refused.",
 ["inputs","histories","schedules"],"all sets of handlers and priorities (including negative and equal ones), all inbox contents, step intervals and seeds, both scheduling modes",
 "the one test has three handlers with two priorities and six messages, all due at the same step start",
 ["esl/interaction/communicator.cpp","esl/interaction/communicator.hpp"],
 [("priority multimap, reverse iteration","esl/interaction/communicator.cpp process_message/process_messages"),("callback lock","esl/interaction/communicator.hpp register_callback")],
 ["process_message, process_messages, register_callback"])
p("C03","Simulated time never runs backwards and no agent misses its wake-up",
 "A model step makes exactly those agents act that are due at the step's start (new agents, agents whose requested wake-up time or earliest pending message time it is), repeats this in rounds until nobody is due at that time, and returns the earliest later time at which any present agent is due, limited by the model's end. Running a model therefore visits exactly the times requested by agents and messages in strictly increasing order from start until end, initialises and terminates the model exactly once, and each agent acts at every time it asked for. Asking to wake up in the past, or stepping over an empty interval, is refused with an error.",
 ["histories","configurations","inputs"],"all populations, all wake-up and message timing patterns, start/end times, agents created or deactivated between steps, thread counts",
 "no stable test runs a model with agents; the environment that drives it is not compiled by the test build",
 ["esl/simulation/model.cpp","esl/simulation/model.hpp","esl/computation/environment.cpp","esl/simulation/agent_collection.cpp"],
 [("rounds until the first event lies in the future","esl/simulation/model.cpp step"),("minimum over wake-up times","esl/simulation/model.cpp determine_next_event"),("run loop","esl/computation/environment.cpp run")],
 ["act() of harness agents (time, round), return value of step, initialize/terminate calls"])
p("C04","A simulation is reproducible and independent of the number of threads",
 "Running the same model with the same parameters and sample index produces, for every agent, exactly the same sequence of actions, messages handled, random draws and outputs, whatever the number of threads and however often it is repeated. The random seed an agent receives is a function of its identity, the time, the round within the step and the sample index, and differs when any one of these differs.",
 ["schedules","configurations","inputs"],"all models built from deterministic agents, thread counts 1 to 16, thread interleavings, sample indices, repeated runs in one process",
 "tests run no model twice and compare no traces; thread counts above one are never exercised",
 ["esl/simulation/model.cpp","esl/interaction/communicator.cpp","esl/simulation/parameter/parametrization.hpp"],
 [("seed sequence from identity, time, round and sample","esl/simulation/model.cpp step"),("agents ordered by identity","esl/simulation/agent_collection.hpp"),("outbox exchange after the round, in identity order","esl/computation/environment.cpp send_messages")],
 ["per-agent traces of actions, messages and random draws"])
p("C05","Parallel execution of a model is free of data races",
 "While a model runs with several threads, no two threads access the same memory without synchronisation when at least one writes, for agents that touch only their own state, their messages and the library's logging and output facilities. This covers stepping agents, processing and creating messages, updating wake-up times, sharing message objects between recipients and writing log lines and outputs.",
 ["schedules","configurations"],"all interleavings of the worker threads of a step, thread counts 2 to 16, agent populations smaller and larger than the number of threads",
 "no test runs library code on more than one thread",
 ["esl/simulation/model.cpp","esl/data/channel.hpp","esl/computation/environment.cpp"],
 [("lock around wake-up times and first event","esl/simulation/model.cpp step"),("lock in log channels","esl/data/channel.hpp")],
 ["ThreadSanitizer build of a running model"])
p("C06","The thread pool runs every submitted job exactly once",
 "Every job submitted to a thread pool runs exactly once, on one of the pool's threads, with the arguments given at submission; the future of a task yields exactly the task's result or exception; and destroying the pool waits until all jobs submitted before have run. This holds for any number of threads (zero meaning the hardware's concurrency, at least one), any number of jobs and submitting threads, and jobs that themselves submit jobs, without deadlock or data races.",
 ["schedules","configurations","inputs"],"all interleavings of submitters and workers, pool sizes 0 to 16, job counts, job durations, nested submission, immediate destruction",
 "there is no test of the thread pool",
 ["esl/computation/thread_pool.hpp","esl/computation/blocking_queue.hpp"],
 [("per-thread queues with stealing","esl/computation/thread_pool.hpp worker"),("close then join","esl/computation/thread_pool.hpp destructor")],
 ["job execution log, futures, destructor return"])
p("C07","The blocking queue is a linearizable FIFO that loses and invents nothing",
 "Under any number of concurrent producers and consumers the queue hands each successfully pushed element to exactly one consumer, and elements of one producer are received in the order they were pushed, consistent with a single first-in first-out order. Removal that waits returns an element as soon as one is available and gives up only when the queue is closed and empty; the non-waiting operations either take effect completely and report success, or change nothing and report failure; size and emptiness agree with the contents when the queue is quiescent. Elements pushed before closing can still be removed afterwards and every waiting consumer is released by closing.",
 ["schedules","histories"],"all interleavings of push, try_push, pop, try_pop, close, empty and size from up to 8 threads, with injected delays",
 "there is no test of the queue",
 ["esl/computation/blocking_queue.hpp"],
 [("mutex, condition variable, closed flag","esl/computation/blocking_queue.hpp")],
 ["call/return history of every operation with unique values"])
p("C08","Identities are unique, hierarchical, totally ordered and hash consistently",
 "Creating children from an entity yields identifiers that extend the parent's identifier by one new component, are never equal to each other or to any identifier created elsewhere in the hierarchy, and are the same on every run for the same order of creation. The comparison operators on identities form one total lexicographic order that agrees with equality, identities equal as values have equal hashes whatever their static type, and converting between entity types or copying preserves the value. The printed form lists the components in order, so that it distinguishes different identities.",
 ["inputs","histories"],"all creation trees (depth, fan-out, interleaving of parents), all identifier values including empty, single-component, prefix-related and extreme components",
 "the tests compare a handful of fixed identities of at most a few components and create one child",
 ["esl/simulation/identity.hpp","esl/simulation/entity.hpp","esl/simulation/identifiable_as.hpp"],
 [("child counter in the parent","esl/simulation/entity.hpp create"),("lexicographic comparison","esl/simulation/identity.hpp operators"),("hash combination","esl/simulation/identity.hpp std::hash")],
 ["identity values, comparison results, hashes, text"])
p("C09","Agents are registered, found and removed consistently by the model",
 "An agent created through a model is present under its own identifier exactly once, takes part in the simulation from then on, and receives the messages addressed to it; an agent that is deactivated is absent, acts no more and does not block the progress of simulated time, while all other agents are unaffected. Activation and deactivation queues are processed once per step, each queued agent being counted exactly once.",
 ["histories","configurations"],"all sequences of creating (top-level and under parents) and deactivating agents, before the run, between steps, and while agents act",
 "no stable test creates agents through a model",
 ["esl/simulation/agent_collection.cpp","esl/simulation/agent_collection.hpp","esl/computation/environment.cpp"],
 [("global and local maps","esl/simulation/agent_collection.cpp activate/deactivate"),("queues of changed agents","esl/computation/environment.cpp activate/deactivate")],
 ["agent collection contents, actions per agent, return values of activate/deactivate"])
p("C10","The block pool never reuses an index and keeps live blocks intact",
 "The fixed-capacity pool gives every placed element an index larger than all earlier ones, keeps each live element's value unchanged at its index until it is erased, reports as its size exactly the number of live elements, and refuses placement with a length error exactly when capacity is reached. Erasing releases the capacity of exactly the erased element, and no operation on it reads or writes outside the pool or leaks or double-destroys elements.",
 ["histories","inputs"],"all sequences of placing and erasing up to and beyond capacity, in any order, for trivially and non-trivially copyable elements",
 "the only test of the pool fails at the pinned commit and is not in the stable set",
 ["esl/computation/block_pool.hpp"],
 [("free list threaded through blocks","esl/computation/block_pool.hpp emplace/erase")],
 ["emplace results, size, element values, construction/destruction counts"])
# ---------------------------------------------------------------- property
p("C11","Transfers of property conserve every quantity and reach the right owners",
 "For transfer messages exchanged between owners, the transferor's holding of every listed property falls by exactly the transferred amount and the transferee's rises by exactly that amount, so that the total held by all owners is unchanged, holdings never become negative, and no other property or owner is affected; a transfer to oneself changes nothing. A transferor lacking any part of a transfer causes an error instead of creating property. Collections filtered by property type always hold the same amounts as the owner's overall inventory for that type.",
 ["histories","inputs","configurations"],"all sequences of transfers between any owners (including self-transfers, zero amounts, several properties per message, both fungible and non-fungible ones, repeated transfers), inside a running model or by direct message processing",
 "the owner tests are not built; they cover one transfer of one property",
 ["esl/economics/owner.hpp","esl/economics/owner.cpp","esl/economics/accounting/inventory.hpp","esl/interaction/transfer.hpp"],
 [("transfer message callbacks","esl/economics/owner.hpp, esl/economics/owner.cpp"),("insert_into / erase_from","esl/economics/accounting/inventory.hpp")],
 ["inventories and filtered property collections of all owners after every message"])
p("C12","Inventories add and remove exactly the stated amounts, or fail cleanly",
 "Inserting a quantity of a fungible property raises its amount by exactly that quantity, erasing lowers it by exactly that quantity, and combining inventories adds or subtracts them item by item, identifying properties by identifier; non-fungible properties are held at most once, and merging in another copy of one already held is an error. Removing more than is held is refused with an error and leaves the inventory as it was. Amounts of all other items never change.",
 ["histories","inputs"],"all sequences of insertions and removals on inventories with overlapping and disjoint items, amounts from 0 to 2^63, aliased shared pointers with equal identifiers",
 "inventories are not tested directly at all",
 ["esl/economics/accounting/inventory.hpp","esl/economics/fungibility.hpp","esl/law/property_collection.hpp"],
 [("insert/erase/insert_into/erase_from","esl/economics/accounting/inventory.hpp"),("identifier-keyed maps","esl/law/property_collection.hpp")],
 ["inventory items after every operation, thrown exceptions"])
# ---------------------------------------------------------------- values
p("C13","Quantities are exact: no negative result, no loss when divided",
 "Quantity addition, subtraction, multiplication, increment and decrement give the exact integer result, subtraction that would become negative is refused with an error and changes nothing, and all comparison operators agree with the order of the amounts. Dividing a quantity into n parts yields exactly n parts in non-increasing order that sum to the original and differ by at most one.",
 ["inputs"],"all amounts for which the exact result fits 64 bits, all part counts from 1 to thousands, static and dynamic division, compound and simple operators",
 "the tests use the single amount 350 with a few operands and two part counts",
 ["esl/quantity.hpp"],
 [("guarded subtraction, balanced division","esl/quantity.hpp")],["operator results"])
p("C14","Prices compare and add only within one currency, and do so exactly",
 "Adding, subtracting, scaling and negating prices in one currency gives the exact result in the smallest currency unit, comparisons agree with the order of the amounts, and comparing prices of different currencies by order is refused with an error. Converting a decimal amount to a price and back loses less than one smallest unit, and printed prices show the currency and the amount.",
 ["inputs"],"all currencies in the library, amounts in the 53-bit range (negative, zero, positive, extreme), all operators",
 "there is no test of prices",
 ["esl/economics/price.hpp","esl/economics/iso_4217.hpp","esl/economics/currencies.hpp"],
 [("currency checks","esl/economics/price.hpp comparison operators"),("integer arithmetic","esl/economics/price.hpp")],["operator results, exceptions, text"])
p("C15","Quotes keep price and lot together: same-lot order and lossless arithmetic",
 "For quotes of the same kind and lot size, equality and order agree with the underlying price or rate, and the six comparison operators are mutually consistent; comparing quotes of different lot sizes by order is refused with an error, and a lot size of zero is refused at construction. Arithmetic on quotes changes the price part exactly and preserves lot and currency.",
 ["inputs"],"all price and exchange-rate quotes, lot sizes from 1 to 10^6, all comparison and arithmetic operators, mixed lots and currencies",
 "there is no test of quotes; order-book tests use one lot size and are not built",
 ["esl/economics/markets/quote.hpp"],
 [("lot check in comparisons","esl/economics/markets/quote.hpp")],["operator results, exceptions"])
p("C16","Rates and exchange rates are exact fractions and convert prices exactly",
 "Rates, interest rates and exchange rates keep the exact value of the fraction they were made from, in lowest terms; comparison and arithmetic on them are exact, and a zero denominator is refused. Converting a price with an exchange rate gives an amount equal to the exact product up to one smallest unit, for positive and negative prices, and inverting a rate twice gives the original back.",
 ["inputs"],"all numerators and denominators in the 32-bit range, positive and negative prices, all currency pairs",
 "rates and exchange rates have no tests",
 ["esl/economics/rate.hpp","esl/economics/exchange_rate.hpp","esl/economics/interest_rate.hpp","esl/mathematics/rational.hpp"],
 [("boost::rational base","esl/economics/rate.hpp"),("price conversion","esl/economics/exchange_rate.hpp")],["operator results, text"])
p("C17","Money converts between amounts and prices exactly; codes are well-formed",
 "Converting a quantity of money to a price and back gives the same quantity, in the currency of that money, and cash in equal currencies is the same property while cash in different currencies is different property. Every currency and country constant of the library has the code it is named after, different currencies have different codes and each the number of minor units given by ISO 4217, currency and country codes not made of the prescribed number of capital letters are refused, as are market identifier codes not made of four capital letters or digits, and printing and hashing codes agree with their equality.",
 ["inputs"],"all currency, country and jurisdiction constants, all byte strings as codes, all quantities up to 2^53",
 "no test touches currencies, countries or cash",
 ["esl/economics/money.hpp","esl/economics/cash.hpp","esl/economics/cash.cpp","esl/economics/iso_4217.hpp","esl/geography/iso_3166_1_alpha_2.hpp","esl/economics/markets/iso_10383.hpp","esl/economics/currencies.hpp","esl/geography/countries.hpp","esl/law/jurisdictions.hpp"],
 [("code validation in constructors","esl/economics/iso_4217.hpp, esl/geography/iso_3166_1_alpha_2.hpp"),("identity by type and currency","esl/economics/cash.cpp")],["constructed values, exceptions, text, hashes"])
# ---------------------------------------------------------------- markets
p("C18","Limit order books match with strict price-time priority",
 "An incoming order trades against the best-priced resting orders of the opposite side whose limit is compatible with its own, at the resting order's limit price, older orders before newer ones at the same price, and only its unmatched remainder rests in the book: the remainder of an immediate-or-cancel order never rests, and a fill-or-kill order trades completely or not at all. This holds for both the tree-based and the statically allocated book, which behave identically on the same sequence of orders.",
 ["histories","inputs"],"all sequences of buy and sell limit orders (any prices in range, quantities, owners) and cancellations, from empty to deep and one-sided books, including prices at both ends of the price range",
 "the order book tests are not built; the one exchange demo inserts random orders and checks nothing",
 ["esl/economics/markets/order_book/binary_tree_order_book.cpp","esl/economics/markets/order_book/binary_tree_order_book.hpp","esl/economics/markets/order_book/static_order_book.hpp"],
 [("sorted multimaps of limits","esl/economics/markets/order_book/binary_tree_order_book.cpp insert"),("array of levels with linked lists","esl/economics/markets/order_book/static_order_book.hpp insert/match_at_level")],
 ["sequence of execution reports per inserted order, compared with a reference book"])
p("C19","Order books conserve quantity and report every change of an order once",
 "For every accepted order, the quantity it was submitted with equals at every moment the sum of its reported executions, its quantity still resting in the book and the quantity reported as cancelled. Every execution is reported exactly once to each of the two sides, with equal quantity and price and with the owner and identifier of that side's order, placement is reported exactly once with the remaining quantity, and orders that are out of the price range or otherwise malformed are reported as invalid and change nothing.",
 ["histories","inputs"],"all sequences of insertions and cancellations, including repeated and unknown cancellations, for both book implementations",
 "reports are inspected for single orders by tests that are not built",
 ["esl/economics/markets/order_book/basic_book.hpp","esl/economics/markets/order_book/execution_report.hpp","esl/economics/markets/order_book/binary_tree_order_book.cpp","esl/economics/markets/order_book/static_order_book.hpp"],
 [("report queue","esl/economics/markets/order_book/basic_book.hpp reports")],
 ["reports after every operation, resting orders"])
p("C20","The book is never crossed and its best quotes are the best resting orders",
 "After every operation the best bid reported by a book equals the highest limit among its resting buy orders and the best ask the lowest limit among its resting sell orders, no quote being reported for an empty side, and the best bid is strictly below the best ask. Depth and listed orders agree with the resting orders.",
 ["histories","inputs"],"all sequences of insertions and cancellations for both book implementations, including emptying levels by matching and by cancelling",
 "best quotes are checked after a handful of fixed orders by tests that are not built",
 ["esl/economics/markets/order_book/binary_tree_order_book.hpp","esl/economics/markets/order_book/static_order_book.hpp"],
 [("best price tracking","esl/economics/markets/order_book/static_order_book.hpp best_bid_/best_ask_"),("sorted multimaps","esl/economics/markets/order_book/binary_tree_order_book.hpp")],
 ["bid(), ask(), orders listing after every operation"])
p("C21","Cancelling removes exactly the named resting order and nothing else",
 "Cancelling a resting order removes its full remaining quantity so that it never trades again, and leaves the priority and quantities of all other orders unchanged. Cancelling an order that was never placed, has been fully executed or has already been cancelled changes nothing in the book.",
 ["histories","inputs"],"all interleavings of insertions and cancellations: first, middle, last and only order of a level, best and non-best levels, partially filled orders, stale and unknown identifiers, both book implementations",
 "cancellation has no test",
 ["esl/economics/markets/order_book/binary_tree_order_book.cpp","esl/economics/markets/order_book/static_order_book.hpp","esl/computation/block_pool.hpp"],
 [("unlinking a record and freeing its block","esl/economics/markets/order_book/static_order_book.hpp cancel"),("multimap erase","esl/economics/markets/order_book/binary_tree_order_book.cpp cancel")],
 ["reports and later executions, resting orders"])
p("C22","Price levels of the static book map one-to-one to quotes on its grid",
 "In the statically allocated book every representable quote in the valid range maps to one level, different quotes to different levels, higher quotes to higher levels, and mapping a level back gives the original quote; the lowest and the highest valid quote are both accepted and quotes outside the range or off the lot are rejected without touching the book.",
 ["inputs","configurations"],"all valid ranges and lots, every tick of small ranges and random and boundary ticks of large ones",
 "the encode/decode test samples one range and is not built",
 ["esl/economics/markets/order_book/static_order_book.hpp"],
 [("linear index computation","esl/economics/markets/order_book/static_order_book.hpp default_encode/default_decode")],
 ["encode/decode results, best quote after placing at each tick"])
p("C23","Exchange and matching engine route orders, reports and data correctly",
 "A matching engine keeps one independent book per ticker, so that orders for one ticker never trade with or change orders of another, and an order is handled by the book of its own ticker. An exchange forwards each execution report exactly once as a message to the owner of the order it concerns, and to nobody else, each after the latency to its recipient, and records each report once when asked to keep a record; it answers market data requests with the current best quotes, and serves a subscriber according to its subscription until it is cancelled.",
 ["histories","configurations"],"all sequences of orders, cancellations, log-ons, log-offs and market data requests over several tickers and participants",
 "the exchange tests are not built",
 ["esl/economics/markets/order_book/matching_engine.hpp","esl/economics/markets/centralized_exchange.hpp","esl/economics/markets/ticker.hpp"],
 [("book map by ticker","esl/economics/markets/order_book/matching_engine.hpp"),("message callbacks","esl/economics/markets/centralized_exchange.hpp")],
 ["exchange outbox after each handled message"])
p("C24","Market-maker quotes straddle the reservation price and react as specified",
 "For valid parameters the Avellaneda-Stoikov quoting rule returns a bid strictly below its ask; the spread widens with volatility and remaining time, and both quotes shift down when the inventory is long and up when it is short, symmetrically. Quotes are the model's real-valued bid and ask rounded outwards to the smallest currency unit.",
 ["inputs"],"all mid prices from one cent to 10^9, inventories, times in [0,1], volatilities, risk aversions and arrival parameters in the documented ranges",
 "the quoting rule's test is not built and fixes all but one parameter",
 ["esl/economics/markets/order_book/avellaneda_stoikov.hpp"],
 [("reservation price and spread formulae","esl/economics/markets/order_book/avellaneda_stoikov.hpp")],["returned bid and ask"])
# ---------------------------------------------------------------- finance
p("C25","Dividends stay within profit, and each is announced and claimed exactly once",
 "The dividend per share a company computes, multiplied by the number of shares of each class eligible for dividends and summed, never exceeds the profit it distributes and falls short of it only by rounding; without profit or eligible shares there is none. Each dividend (announcement date after time 0) is announced exactly once to every registered shareholder, on or after its announcement date, and a company that acted never asks to act next in the past. A shareholder answers each announcement with exactly one record of exactly the shares it holds of that company. Share classes that differ in any attribute are kept apart; total shares, unique shareholders and stock holdings are the exact sums over the registered holdings, and a holding whose stock is unknown is refused.",
 ["inputs","histories"],"all share structures (classes, holders, holdings), profits and repeated announcements by several companies, on one or several threads",
 "companies and shareholders have no test",
 ["esl/economics/company.cpp","esl/economics/company.hpp","esl/economics/finance/shareholder.cpp","esl/economics/finance/dividend.hpp","esl/economics/finance/dividend.cpp","esl/economics/finance/share_class.hpp"],
 [("per-share computation","esl/economics/company.cpp compute_dividend_per_share"),("announcement","esl/economics/company.cpp act"),("record handling","esl/economics/finance/shareholder.cpp")],
 ["dividend policies, messages sent, share counts"])
p("C26","Accounting values holdings and cash flows by the stated arithmetic",
 "Valuing money gives its amount in the reporting currency, converted with the given rate when foreign and refused when no rate is known; valuing a stock gives price times quantity divided by the lot, a loan its negative amount, a securities-lending position the negative value of the borrowed shares. Cash-flow history over an interval sums exactly the entries whose time lies in that interval, and income plus expenses equals that sum.",
 ["inputs","histories"],"all quantities, quotes, lots, exchange rates, entry times and query intervals (including entries at both bounds)",
 "accounting has no test",
 ["esl/economics/accounting/standard.hpp","esl/economics/accounting/cash_flow_statement.hpp"],
 [("valuation overloads","esl/economics/accounting/standard.hpp"),("interval filter","esl/economics/accounting/cash_flow_statement.hpp")],["returned prices, exceptions"])
p("C27","Security and entity codes carry the right check digits and detect errors",
 "CUSIP, SEDOL, ISIN and LEI codes print exactly the characters they were made from followed by the check digits their standards prescribe, parsing a printed code gives back the same code, and a complete CUSIP or LEI with a wrong check digit, or an ISIN of the wrong length, is refused. Any single wrong digit and any swap of two different adjacent digits that the standard's scheme detects changes the computed check digits.",
 ["inputs"],"all code bodies over the admissible alphabets, all countries for ISINs, all single-character changes of codes",
 "the tests check a handful of well-known real codes",
 ["esl/economics/finance/cusip.hpp","esl/economics/finance/sedol.hpp","esl/economics/finance/isin.hpp","esl/law/legal_entity.hpp","esl/economics/finance/stock.cpp"],
 [("weighted digit sums","checksum functions")],["check digits, text, exceptions"])
# ---------------------------------------------------------------- mathematics, parameters, data
p("C28","Intervals agree with set membership",
 "A value is contained in an interval exactly if it lies strictly between the bounds or equals a bound that belongs to the interval; an interval is reported empty, singleton or degenerate exactly if it contains no, one, or at most one value of its number type (floating-point types standing for the real numbers). The printed form shows both bounds and which of them belong to the interval.",
 ["inputs"],"all bounds (including equal, adjacent, reversed and extreme ones), all open/closed combinations, integer and floating point types",
 "the tests check ten integer intervals and never membership",
 ["esl/mathematics/interval.hpp","esl/simulation/time.hpp"],
 [("contains, empty, singleton","esl/mathematics/interval.hpp")],["results of the four predicates, enumeration of members"])
p("C29","Parameter samplers cover the parameter space as designed",
 "Grid sampling yields every combination of the requested densities exactly once, with both ends of each range included and even spacing; Latin hypercube sampling yields the requested number of points, using each of the evenly spaced values of each parameter exactly once, all within range; improved hypercube sampling yields in every dimension a permutation of the sample indices. The result is a function of the seed, and model parameters are returned under the name and value they were set with.",
 ["inputs","configurations"],"all numbers of parameters (1 to 8), densities (at least 2, to 64), ranges and seeds",
 "the tests check sizes and uniqueness for one configuration of each sampler",
 ["esl/simulation/parameter/sampler.hpp","esl/simulation/parameter/parametrization.hpp","esl/simulation/parameter/parameter.hpp"],
 [("index counters, shuffles","esl/simulation/parameter/sampler.hpp"),("named values","esl/simulation/parameter/parametrization.hpp")],["sample lists, parameter values"])
p("C30","Outputs record every value once, in order, and text forms show all elements",
 "An output keeps every value put into it with its time, once and in order, and an unbuffered output writes each to every attached stream as it is put. The text form of a container or tuple lists all its elements exactly once in their order with the documented delimiters, delimiter-separated rows (also with delimiters, quotes and line ends inside fields) can be parsed back into the original fields, and log lines written by several threads are not torn within one written value.",
 ["inputs","histories","schedules"],"all element types and sizes from empty to large, all strings including quotes, delimiters and escapes, any number of attached streams",
 "outputs, text forms and logs have no test",
 ["esl/data/output.hpp","esl/data/output_base.hpp","esl/data/producer.hpp","esl/data/representation.hpp","esl/data/format/delimiter_separated_values.hpp","esl/data/channel.hpp"],
 [("value history and streams","esl/data/output.hpp, esl/data/output_base.hpp"),("stream operators","esl/data/representation.hpp")],["recorded values and stream contents"])
p("C31","Saving and loading an object gives back an equal object",
 "Writing a value to an archive and reading it back yields an equal value, for identities, quantities, currencies, country codes, prices, rates, exchange and interest rates, quotes, intervals, legal entity identifiers, jurisdictions, share classes, properties and holdings of them, tuples, parameter choices, timings, agent activation and migration records, message headers and messages (transfers, logouts, Walrasian quotes, dividend announcements and records), in text, binary and XML archives, loaded over any earlier value, and for sequences of many values in one archive. Saving does not change the value.",
 ["inputs"],"all values of the listed types, three archive formats",
 "no test archives anything",
 ["esl/simulation/identity.hpp","esl/quantity.hpp","esl/economics/price.hpp","esl/economics/markets/quote.hpp","esl/economics/rate.hpp","esl/mathematics/rational.hpp","esl/interaction/header.hpp","esl/interaction/message.hpp","esl/interaction/transfer.hpp","esl/data/serialization.hpp","esl/economics/finance/dividend.hpp","esl/economics/finance/share_class.hpp","esl/economics/iso_4217.hpp","esl/law/legal_entity.hpp","esl/computation/timing.hpp","esl/computation/distributed/protocol.hpp","esl/simulation/parameter/parameter.hpp"],
 [("serialize/save/load members","the listed headers")],["values before and after a round trip"])
p("C32","Numerical helpers compute what they state",
 "Rounding fractional allocations to whole parts yields parts within one of each fraction that sum to the whole target, integer powers are exact while they fit, growth rates and geometric means match their defining products, array helpers preserve every element in order, enumeration pairs each element with its position, and sampled weights are non-negative and sum to one. Random variates (zero-truncated Poisson, message latencies) always lie in their support and are reproducible from the generator state.",
 ["inputs"],"all sequences and fractions of lengths 0 to 64, bases and exponents within range, seeds",
 "the tests cover three array helpers on fixed data",
 ["esl/algorithms.hpp","esl/mathematics/zero_truncated_poisson_distribution.hpp","esl/interaction/communication.hpp"],
 [("helpers","esl/algorithms.hpp")],["returned values"])
# ---------------------------------------------------------------- market clearing
p("C33","Walrasian clearing moves property only between participants, in balance",
 "When the price-setting market clears, the whole-unit allocations it settles for each traded property sum to zero over the participants and differ from each participant's demand at the new quotes by only the rounding needed for that (less than two units); nobody delivers more than it holds, and lending contracts are extended and returned only for what remains. Every unit bought or sold, including to close a short position, is paid for at the new price, so that no property or money is created or lost beyond rounding to the smallest currency unit. For demand functions with a unique equilibrium inside the permitted price range the default solvers find quotes that clear the market within tolerance, and no solver moves a quote beyond the permitted factor in one clearing, nor is a price set to zero.",
 ["inputs","configurations"],"all sets of participants with monotone demand functions for one or several properties, random supplies and starting quotes",
 "the Walrasian test needs an automatic differentiation library that is not available and is not built",
 ["esl/economics/markets/walras/price_setter.cpp","esl/economics/markets/walras/tatonnement.cpp"],
 [("rounding correction","esl/economics/markets/walras/price_setter.cpp compute_transfers"),("root finding with circuit breaker","esl/economics/markets/walras/tatonnement.cpp compute_clearing_quotes")],
 ["transfer messages, traded quotes"])
p("C35","Impact markets quote to all participants and move quotes by net ordered volume",
 "Whenever it acts, a market with an impact function sends every registered participant exactly one message, delivered at the next time point, that lists exactly the properties it trades at their current quotes. When orders of the current time have arrived, the quote of each property ordered becomes the old quote plus the impact function of the net volume ordered over all participants (bought less sold), to the smallest currency unit and never below one such unit, in the same currency and lot size; quotes of properties nobody ordered stay, orders for properties that are not traded change nothing, and the prices are recorded once for every clearing. Without orders, or with orders from an earlier time only, no quote moves.",
 ["inputs","schedules"],"all sets of participants, properties, quotes and lots, all impact functions and volumes, over any number of days",
 "no test touches this market",
 ["esl/economics/markets/impact_function/market.cpp","esl/economics/markets/impact_function/market.hpp","esl/economics/markets/impact_function/order.hpp"],
 [("netting of volumes","esl/economics/markets/impact_function/market.cpp clear_market"),("quotes and announcements","esl/economics/markets/impact_function/market.cpp act")],
 ["quotes held, quote messages, recorded prices"])
p("C36","Investors keep the latest price announced for every property",
 "Whenever a shareholder or a bondholder acts, the prices it holds are exactly those announced to it by quote messages delivered so far: for every property announced the most recently delivered price, amount and currency, however often, in whichever order and in whichever other currency it was announced before, and whichever object names the property; prices of properties an announcement does not mention stay, and nothing is held for properties never announced. An investor in both stocks and bonds hears every announcement in both capacities.",
 ["inputs","schedules"],"all sequences of announcements from several announcers, with any delivery times, properties, currencies and lots, to any number of investors of both kinds",
 "no test sends a quote message to an investor",
 ["esl/economics/finance/shareholder.cpp","esl/economics/finance/bondholder.cpp"],
 [("replacing an earlier price","callbacks for quote messages")],
 ["prices held at each action"])
p("C34","Operations on valid inputs cause no memory error or undefined behaviour",
 "Driving the library through its public interface with valid arguments never reads or writes memory outside live objects, leaks no objects it owns, and executes no operation with undefined behaviour (out-of-range conversion, signed overflow, misaligned or null access, invalid iterator use). Invalid arguments are answered by the documented exception or report, with the same guarantee.",
 ["inputs","histories","configurations"],"all workloads of the other properties, plus boundary workloads: empty, full and emptied containers, lowest and highest prices, maximal identifiers, zero quantities",
 "the tests run uninstrumented and on ordinary inputs",
 ["esl/economics/markets/order_book/static_order_book.hpp","esl/computation/block_pool.hpp","esl/economics/markets/centralized_exchange.hpp","esl/computation/environment.cpp","esl/algorithms.hpp","esl/data/output_base.cpp"],
 [("bounds handling throughout","the listed files")],["AddressSanitizer, UndefinedBehaviorSanitizer and libstdc++ assertions"])
out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
