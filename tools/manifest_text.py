HOST = 'runtime monitoring: compiled contract on the real wasm engine with every host call recorded and replayed against an independent reference model'
T.update({i: HOST + '; ' + s for i, s in {
 'C01': 'random whole programs', 'C02': 'random and edge operands in every operand form', 'C03': 'random and edge operands in every operand form', 'C04': 'random memory operation sequences, whole memory compared', 'C05': 'memory growth and scratch-cell stress, bounds watched', 'C06': 'storage histories over several transactions',
 'C07': 'random buffers, offsets and lengths', 'C08': 'random block and transaction environments', 'C09': 'scripted callees and creations, every argument compared', 'C11': 'transfer histories, conservation and event monitors', 'C17': 'segments and sub-objects read back byte by byte', 'C19': 'same program under many option sets, transaction histories of Solidity-shaped contracts',
 'C20': 'families of equal and nearly equal functions', 'C21': 'random symbol maps', 'C24': 'creation arguments and embedded bytes compared'}.items()})
FE = 'runtime monitoring of the real front end, compiled as it is: generated source texts, results compared with an independent lexer/parser model'
T.update({'C12': FE, 'C13': FE, 'C14': FE + '; whole compiler runs watched for artefacts and exit status', 'C15': FE + '; values observed in compiled contracts', 'C16': 'runtime monitoring: literals in every position of compiled contracts, values observed through the host and compared',
 'C10': 'AddressSanitizer, UndefinedBehaviorSanitizer and MemorySanitizer over the runtime library built natively, driven by random operation scripts, results compared with a model', 'C18': 'runtime monitoring of compiler runs: artefacts validated by a wasm reader and compared across repeated, relocated and concurrent runs',
 'C22': 'runtime monitoring of the real scripts: standard output and exit status compared with an independent ABI encoder', 'C23': 'runtime monitoring of debug host calls of debug-built contracts compared with the printed values'})
for i in ('C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C11', 'C23'): T[i] += '; the runtime routines concerned also driven directly under AddressSanitizer, UndefinedBehaviorSanitizer and MemorySanitizer'
S = 'Sampled exploration: every execution observed is judged by an oracle; nothing is claimed about inputs not generated. '
FEN = S + 'Trusts the independent lexer and parser model and the shims for third-party crates absent offline.'
for i in ('C12', 'C13', 'C14'): NOTE[i] = FEN
NOTE['C10'] = S + 'The library is built natively (64-bit, low addresses) rather than for wasm32; trusts the operation model and the sanitizers.'
NOTE['C22'] = S + 'Trusts the independent ABI encoder.'
NOTE['C18'] = S + 'Trusts the wasm reader and the engine\'s validator, and the shims for third-party crates absent offline.'
