"""Which harness decides which property, and the sources each harness needs."""
SIM = ['agent.cpp', 'version.cpp', 'quantity.cpp', 'computation/environment.cpp', 'simulation/model.cpp', 'simulation/agent_collection.cpp', 'simulation/world.cpp',
       'interaction/communicator.cpp', 'interaction/header.cpp', 'data/log.cpp', 'data/channel.cpp', 'data/stream.cpp',
       'data/output_base.cpp', 'data/severity.cpp', 'data/producer.cpp']
BOOK = ['agent.cpp', 'quantity.cpp', 'version.cpp', 'economics/currencies.cpp', 'economics/iso_4217.cpp', 'economics/markets/ticker.cpp', 'economics/markets/order_book/static_order_book.cpp',
        'data/log.cpp', 'data/channel.cpp', 'data/stream.cpp', 'data/output_base.cpp', 'data/severity.cpp', 'data/producer.cpp', 'interaction/communicator.cpp', 'interaction/header.cpp']
OWNER = SIM + ['law/property.cpp', 'law/property_collection.cpp', 'economics/asset.cpp', 'economics/owner.cpp', 'economics/currencies.cpp', 'economics/iso_4217.cpp', 'economics/price.cpp', 'economics/cash.cpp', 'economics/money.cpp', 'economics/accounting/standard.cpp', 'economics/accounting/inventory.cpp', 'economics/exchange_rate.cpp']
EXCHANGE = sorted(set(OWNER + BOOK + ['economics/markets/market.cpp', 'interaction/transfer.cpp']))
FINANCE = sorted(set(OWNER + ['economics/company.cpp', 'economics/finance/shareholder.cpp', 'economics/finance/bondholder.cpp', 'economics/finance/dividend.cpp', 'economics/finance/stock.cpp', 'economics/finance/cusip.cpp', 'economics/finance/isin.cpp']))
WALRAS = sorted(set(FINANCE + ['economics/markets/market.cpp', 'economics/markets/differentiable_demand_supply_function.cpp', 'economics/markets/walras/price_setter.cpp', 'economics/markets/walras/tatonnement.cpp', 'economics/markets/walras/differentiable_order_message.cpp', 'mathematics/variable.cpp', 'economics/finance/securities_lending_contract.cpp', 'interaction/transfer.cpp']))
HARNESSES = {
    'codes': dict(src=['h_codes.cpp'], esl=['economics/finance/cusip.cpp', 'economics/finance/isin.cpp']),
    'finance': dict(src=['h_finance.cpp'], esl=FINANCE),
    'sim': dict(src=['h_sim.cpp'], esl=SIM),
    'threads': dict(src=['h_threads.cpp'], esl=['computation/thread_pool.cpp', 'computation/blocking_queue.cpp']),
    'book': dict(src=['h_book.cpp'], esl=BOOK),
    'identity': dict(src=['h_identity.cpp'], esl=SIM + ['law/property.cpp']),
    'owner': dict(src=['h_owner.cpp'], esl=OWNER),
    'data': dict(src=['h_data.cpp'], esl=['data/file.cpp', 'data/log.cpp', 'data/channel.cpp', 'data/stream.cpp', 'data/output_base.cpp', 'data/severity.cpp', 'data/producer.cpp']),
    'math': dict(src=['h_math.cpp'], esl=['quantity.cpp', 'version.cpp']),
    'serial': dict(src=['h_serial.cpp'] + ['h_serial_%d.cpp' % i for i in range(2, 11)], esl=FINANCE),
    'walras': dict(src=['h_walras.cpp'], esl=WALRAS, flags=['-I@VERIF@/harness/adept'], libs=['-lgsl', '-lgslcblas']),
    'impact': dict(src=['h_impact.cpp'], esl=sorted(set(FINANCE + ['economics/markets/market.cpp', 'economics/markets/impact_function/market.cpp']))),
    'values': dict(src=['h_values.cpp'], esl=OWNER),
    'exchange': dict(src=['h_exchange.cpp'], esl=EXCHANGE),
    'pool': dict(src=['h_pool.cpp'], esl=['computation/block_pool.cpp']),
}
CHECKS = {}
NOT_APPLICABLE = {}


def check(prop, runs, oracle, rule, **kw):
    CHECKS[prop] = dict(runs=runs, oracle=oracle, rule=rule, **kw)


X = lambda n: {'args': ['--scale', str(n)]}

check('C01', [('sim', 'asan')], 'an offline checker of the recorded send/deliver/handle events (exactly once, right recipient, right time)',
      'a case counts once per distinct sequence of (step, recipient, delivery time) it produced; evaluations are single oracle comparisons')
check('C02', [('sim', 'asan')], 'an online checker of handler invocations against a reference schedule computed from registrations and inbox',
      'a case counts once per distinct order of handler invocations')
check('C03', [('sim', 'asan')], 'a reference event-queue model of due times compared with the recorded actions of every agent',
      'a case counts once per distinct sequence of visited times and acting agents')
check('C04', [('sim', 'asan')], 'comparison of complete recorded agent histories between repetitions and thread counts, and of seeds between identities, times, rounds and samples',
      'a case counts once per distinct recorded history digest')
check('C05', [('sim', 'tsan')], 'the happens-before race detector, over multi-threaded models whose agents use messages, logs, outputs and deactivation',
      'a case counts once per distinct recorded history digest of a multi-threaded model run under the race detector')
check('C06', [('threads', 'tsan', X(4)), ('threads', 'asan', X(4))], 'per-job run counters, argument digests and future outcomes checked after the pool has been destroyed, and the race detector',
      'a case counts once per distinct order in which jobs finished')
check('C07', [('threads', 'tsan', X(3)), ('threads', 'asan', X(3))], 'an offline linearizability checker over recorded concurrent histories, exactly-once and order checkers over stress logs, and the race detector',
      'a case counts once per distinct interleaving of invocations in its recorded history')
check('C09', [('sim', 'asan')], 'a reference registry of agents compared with the model after every step',
      'a case counts once per distinct sequence of creations, activations and removals')
check('C10', [('pool', 'asan', X(2))], 'a reference map from index to value compared after every operation, instance-counting elements, and AddressSanitizer',
      'distinct counts sets of occupied slots seen, and histories by length and capacity')

BK = 'a reference price-time-priority book compared after every order and cancellation, an offline accounting of the report log, and AddressSanitizer'
for p in ('C18', 'C19', 'C20', 'C21'):
    check(p, [('book', 'asan')], BK, 'distinct counts distinct resting books (side, limit, quantity of every order in time order) observed, plus whole order flows with at least one execution')
check('C22', [('book', 'asan')], 'exhaustive comparison of encode/decode and of order placement and execution with the price grid, for generated grids', 'distinct counts grids by lot, unit, lowest value and width')
check('C08', [('identity', 'asan')], 'digit vectors compared by the standard library, and creation histories replayed', 'distinct counts sets of identifiers and creation histories')
check('C11', [('owner', 'asan')], 'reference holdings of every owner compared after every handled transfer message, and after whole models with transfers on several threads', 'distinct counts holdings of owners observed and final distributions')
check('C12', [('owner', 'asan')], 'a reference map from identifier to amount compared after every operation, including refused ones', 'distinct counts pairs of inventory contents observed')

ARITH = 'exact 128-bit reference arithmetic and decimal conversion, compared after every operation, and UndefinedBehaviorSanitizer'
for p in ('C13', 'C14', 'C15', 'C16'):
    check(p, [('values', 'asan', X(2))], ARITH, 'distinct counts operand combinations evaluated')
check('C17', [('values', 'asan', X(2))], 'tables of ISO 4217 and ISO 3166 and exact reference conversions', 'distinct counts constants, codes and amounts evaluated')

check('C23', [('exchange', 'asan')], 'stand-alone books fed with the same orders, per ticker, and an offline comparison of every message the exchange sends with the reports of those books and the standing subscriptions', 'distinct counts states of all books of an exchange observed, and reports delivered')

check('C24', [('finance', 'asan')], 'the quoting model evaluated in 113-bit arithmetic, compared with every returned bid and ask, and comparisons between related inputs', 'distinct counts combinations of mid price, bid and ask')
check('C25', [('finance', 'asan')], 'reference sums over share structures, and an offline checker of all announcements and records exchanged in multi-company models', 'distinct counts share structures, profits and seasons of announcements')
check('C26', [('finance', 'asan')], 'exact 128-bit reference valuation and reference sums over intervals', 'distinct counts valued prices and interval sums')
check('C27', [('codes', 'asan')], 'the check-digit rules of the standards, evaluated on decimal text, and printed codes read back', 'distinct counts code bodies')
check('C28', [('math', 'asan')], 'the number of members computed in 128-bit arithmetic, and membership counted value by value over windows', 'distinct counts pairs of bounds')
check('C29', [('math', 'asan'), ('sim', 'asan', X(.2))], 'index tuples recovered from every sample and counted, repetitions under equal and different seeds, and a reference map of named values', 'distinct counts sampling designs and drawn samples')
check('C32', [('math', 'asan')], 'exact integer and extended-precision reference results, counting of grid combinations, and moments of variates within nine standard errors', 'distinct counts inputs and parameters')
check('C30', [('data', 'asan'), ('data', 'tsan', X(.15))], 'independent formatters and parsers, reference histories of every output and stream, and an offline checker of log texts written by several threads', 'distinct counts contents printed, put or logged')
check('C31', [('serial', 'asan', X(3))], 'the complete contents of every value written down before saving and after loading, alone and in long mixed archives, in three formats', 'distinct counts saved values and mixed archives')
check('C33', [('walras', 'asan')], 'bisection and direct evaluation of the participants\' excess demand at the quotes found, and per-participant balances of property, lending contracts and cash summed from the settlement messages', 'distinct counts economies and settlements')
check('C35', [('impact', 'asan', X(2))], 'a reference price for every property from the net ordered volume and the impact function, compared with the quotes held, announced to every participant and recorded', 'distinct counts sequences of quotes and ordered volumes')
check('C36', [('finance', 'asan'), ('finance', 'tsan', X(.1))], 'the prices investors hold, read at every time they act, compared with a fold of all announcements delivered until then', 'distinct counts histories of prices heard')
check('C34', [(h, 'asan', {'args': ['--every-section', '--scale', str(n)], 'leaks': True}) for h, n in (
    ('sim', .2), ('book', .5), ('owner', .5), ('values', .3), ('exchange', .5), ('finance', .3), ('codes', .3), ('identity', .3), ('pool', .5), ('math', .1), ('data', .5), ('serial', .5), ('walras', .5), ('impact', .5))],
    'AddressSanitizer, LeakSanitizer, UndefinedBehaviorSanitizer and the assertions of the standard library, over every workload of the other properties; memory starts filled with a pattern', 'distinct counts non-trivial workload cases', parallel=8)
