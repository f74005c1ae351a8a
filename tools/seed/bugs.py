# The planted bugs: each one is a small change of the repository's code that breaks one property and needs something specific to show.
T = 'src/yul2ir/transform.rs'; I = 'src/yul2ir/instruction.rs'; X = 'src/yul2ir/context.rs'; U = 'src/yul2ir/utils.rs'; G = 'src/yul.lalrpop'
C = 'stdlib/chain.c'; M = 'stdlib/chain_math.c'; E = 'stdlib/evm_memory.c'
BUGS = []
def bug(id, property, edits, demo=None, needs='', breaks='', **kw):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))

bug('C01-continue-after-inner-loop', 'C01', [(T, '''        self.pop_control_flow_end_bb();
        self.pop_control_flow_continue_bb();
''', '''        self.pop_control_flow_end_bb();
''')], '''
const d = K.ret(`let s := 0 let guard := 0
  for { let i := 0 } lt(i, 3) { i := add(i, 1) } {
    guard := add(guard, 1) if gt(guard, 20) { mstore(0, 999) return(0, 32) }
    for { let j := 0 } lt(j, 2) { j := add(j, 1) } { s := add(s, 1) guard := add(guard, 1) if gt(guard, 20) { mstore(0, 998) return(0, 32) } }
    guard := add(guard, 1) if gt(guard, 20) { mstore(0, 997) return(0, 32) }
    if eq(i, 1) { continue }
    s := add(s, 16)
  }
  mstore(0, s) return(0, 32)`);
K.eq(d, K.word(6 + 32), 'sum of the loops');
''', 'a continue of an outer loop written after an inner loop', 'the continue goes to the post block of the inner loop that has already ended')

bug('C02-exp-zero-gap', 'C02', [(C, '''    exp >>= 1;
    if (!exp) {
''', '''    exp >>= 1;
    // nothing left to multiply
    if (!(uint64_t)exp) {
''')], '''
const pow = (b, e) => { let r = 1n; const m = 1n << 256n; while (e) { if (e & 1n) r = r * b % m; b = b * b % m; e >>= 1n; } return r; };
for (const e of [0n, 1n, 77n, 1n << 63n, 1n << 65n, (1n << 130n) + 3n]) K.eq(K.ret(`mstore(0, exp(3, calldataload(0))) return(0, 32)`, { calldata: K.hex(K.word(e)) }), K.word(pow(3n, e)), 'exp(3, ' + e + ')');
''', 'an exponent with at least 64 zero bits between two set bits', 'exp() stops at the gap and yields a smaller power')

bug('C02-mul-64-bit', 'C02', [(I, '''            YulInstructionName::Mul => {
                check_args_count(&instr, &args, 2)?;
                let (arg0, arg1) = self.unify_to_u256(
                    self.try_into_int(args.first().unwrap())?,
                    self.try_into_int(args.get(1).unwrap())?,
                )?;
''', '''            YulInstructionName::Mul => {
                check_args_count(&instr, &args, 2)?;
                let arg0 = self.try_into_int(args.first().unwrap())?;
                let arg1 = self.try_into_int(args.get(1).unwrap())?;
                // native multiplication of two 64-bit values
                let (arg0, arg1) = if arg0.get_type().get_bit_width() == 64
                    && arg1.get_type().get_bit_width() == 64
                {
                    (arg0, arg1)
                } else {
                    self.unify_to_u256(arg0, arg1)?
                };
''')], '''
for (const [t, n] of [[1700000000n, 19000000n], [1n << 40n, (1n << 33n) + 5n]]) K.eq(K.ret(`mstore(0, mul(timestamp(), number())) return(0, 32)`, { env: { timestamp: t, number: n } }), K.word(t * n), `mul of ${t} and ${n}`);
''', 'two operands of a native 64-bit type whose product exceeds 64 bits', 'mul() wraps at 2^64')

bug('C03-iszero-cancelling-words', 'C03', [(M, '''  const int64_t *ptr = (const int64_t *)a;
  for (int i = 0; i < 4; i++) {
    if (ptr[i] != 0) {
      return 0; // a is not zero
    }
  }
  return 1; // a == 0
''', '''  const uint64_t *ptr = (const uint64_t *)a;
  uint64_t acc = 0;
  for (int i = 0; i < 4; i++) {
    acc ^= ptr[i];
  }
  return acc == 0;
''')], '''
const w = 'f123456789abcdef'; for (const v of ['0x0', '0x1', '0x' + w + '0'.repeat(48), '0x' + '0'.repeat(16) + w + '0'.repeat(16) + w, '0x' + w.repeat(4)])
  K.eq(K.ret(`mstore(0, iszero(sload(7))) return(0, 32)`, { storage: { 7: v } }), K.word(BigInt(v) === 0n ? 1 : 0), 'iszero(' + v + ')');
''', 'a 256-bit value whose 64-bit words cancel under exclusive or, in a bytes32 cell', 'iszero() of such a value is 1')

bug('C04-mstore-constant-2-32', 'C04', [(I, '''                if value < U256::from(u32::MAX) {
''', '''                if value.bits() <= 32 || value == U256::one() << 32 {
''')], '''
for (const v of [0n, 1n, 0xffffffffn, 0x100000000n, 0x100000001n, 1n << 64n]) K.eq(K.ret(`mstore(0, not(0)) mstore(0, ${v}) return(0, 32)`), K.word(v), 'mstore of ' + v);
''', 'a store of the constant 2^32', 'the constant is stored as 0')

bug('C04-mstore-u64-small', 'C04', [(C, '''  memory_ptr_u64[2] = 0;
  if (value == 0) {
    memory_ptr_u64[3] = 0;
    return;
  }

  // Write big endian encoded value to last 8 bytes
''', '''  memory_ptr_u64[2] = 0;
  if (value == 0) {
    memory_ptr_u64[3] = 0;
    return;
  }
  if (value <= 0xffffffff) {
    u32_to_big_endian((uint32_t)value, memory_ptr + 28);
    return;
  }

  // Write big endian encoded value to last 8 bytes
''')], '''
for (const v of [5n, 0xffffffffn, 0x100000000n]) K.eq(K.ret(`mstore(0, not(0)) mstore(0, number()) return(0, 32)`, { env: { number: v } }), K.word(v), 'store of the number ' + v + ' over ones');
K.eq(K.ret(`mstore(0, not(0)) mstore(0, 4294967295) return(0, 32)`), K.word(0xffffffffn), 'store of 4294967295 over ones');
''', 'a 64-bit store of a value below 2^32 over memory that is not zero', 'four bytes of the old content stay')

bug('C05-buffer-taken-for-a-page', 'C05', [(E, '''    evm_memory_size = 0;
    evm_memory_full_size = EVM_MEMORY_MAX_SIZE;
''', '''    evm_memory_size = 0;
    evm_memory_full_size = WASM_PAGE_SIZE;
''')], '''
const mod = K.module(`object "T" { code { mstore(32, 77) mstore(calldataload(0), 5) mstore(0, add(mload(32), mload(calldataload(0)))) return(0, 32) } }`, ['--enable-all-optimizers']);
for (const o of [64n, 4096n, 16352n, 40000n, 60000n, 65000n, 200000n]) { let t; try { t = K.tx(mod, { calldata: K.hex(K.word(o)) }); } catch (e) { K.fail('store at ' + o + ': ' + e); } K.eq(t.out.kind + t.out.data, 'return' + K.word(82), 'sum after a store at ' + o); }
''', 'a contract whose image fits one page (--enable-all-optimizers) touching memory beyond 16 KB', 'the static buffer is overrun: other data is overwritten or the access traps')

bug('C05-scratch-cell-overrun', 'C05', [(C, '''  if (memory_alloca_bytes32_buffer_used_count <
      MEMORY_ALLOCA_BYTES32_BUFFER_COUNT) {
''', '''  if (memory_alloca_bytes32_buffer_used_count <=
      MEMORY_ALLOCA_BYTES32_BUFFER_COUNT) {
''')], '', 'the 301st scratch cell of a call', 'the cell lies behind the end of the buffer', sh='''#!/bin/bash
# The runtime library of the repository (cwd) under AddressSanitizer: 310 scratch cells are taken and written.
H="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)" || exit 2
trap 'rm -rf "$T"' EXIT
tar xzf "$H/kit.tgz" -C "$T" || exit 2
VERIF_REPO="$PWD" bash "$T/tools/build_native.sh" || exit 3
{ printf 'init 0 1 1 64\\ncalldata 00\\ncode -\\nretdata -\\nclaims -1 -1\\nstatus 0 0\\nhostu64 1\\nenv %064d\\nblob 0011223344556677\\n' 0; for i in $(seq 310); do echo 'memory_alloca_bytes32 '; done; } | "$T/.work/native/asan_release" > "$T/out" 2> "$T/err"
rc=$?
head -5 "$T/err"
[ $rc = 0 ] && [ "$(tail -1 "$T/out")" = '!done' ] && echo 'as it should be'
''', kit=True)

bug('C06-immutable-names-case', 'C06', [(I, '''            YulInstructionName::LoadImmutable => {
                assert_eq!(args_exprs.len(), 1);
                let name = self
                    .read_string_literal(&args_exprs[0])
                    .expect("immutable name is empty");
                let key_name = format!("{}_{}", "immutable", name);
''', '''            YulInstructionName::LoadImmutable => {
                assert_eq!(args_exprs.len(), 1);
                let name = self
                    .read_string_literal(&args_exprs[0])
                    .expect("immutable name is empty");
                let key_name = format!("{}_{}", "immutable", name.to_lowercase());
'''), (I, '''                    .read_string_literal(&args_exprs[1])
                    .expect("immutable name is empty");
                let key_name = format!("{}_{}", "immutable", name);
''', '''                    .read_string_literal(&args_exprs[1])
                    .expect("immutable name is empty");
                let key_name = format!("{}_{}", "immutable", name.to_lowercase());
''')], '''
const mod = K.module(`object "T" { code { setimmutable(0, "owner", 11) setimmutable(0, "Owner", 22) } object "T_deployed" { code { mstore(0, loadimmutable("owner")) mstore(32, loadimmutable("Owner")) return(0, 64) } } }`);
const t = K.tx(mod, {}); const w2 = t.w.newTx({}); const r = K.tx(mod, {}, { world: w2, entry: 'call' }); K.eq(r.out.data || r.out.kind, K.word(11) + K.word(22), 'the two immutables');
''', 'two immutables whose names differ only in the case of letters', 'they share one value')

bug('C07-selector-of-short-calldata', 'C07', [(C, '''    cachedCallDataCopy((ADDRESS_UINT)&selector_bytes, 0, calldata_size);
    // Convert to uint32_t (big-endian)
    uint32_t selector = 0;
    for (int i = 0; i < 4; i++) {
''', '''    cachedCallDataCopy((ADDRESS_UINT)&selector_bytes, 0, calldata_size);
    // Convert to uint32_t (big-endian)
    uint32_t selector = 0;
    for (uint32_t i = 0; i < calldata_size; i++) {
''')], '''
for (const h of ['', 'ab', 'abcd', 'abcdef', 'abcdef01', 'abcdef0123']) K.eq(K.ret(`mstore(0, shr(224, calldataload(0))) return(0, 32)`, { calldata: K.hex(h) }), K.word(BigInt('0x' + (h + '00000000').slice(0, 8))), `selector of "${h}"`);
''', 'calldata of 1, 2 or 3 bytes read through the selector idiom', 'the bytes stand in the low instead of the high end of the selector')

bug('C07-codecopy-boundary', 'C07', [(C, '@codecopy', '')], '', '', '')

bug('C08-callvalue-words', 'C08', [(C, '''  int64_t *data_int64 = (int64_t *)data;
  for (int i = 0; i < 4; i++) {
    if (data_int64[i] != 0) {
      return 1;
    }
  }
  return 0;
''', '''  // balances never exceed 128 bits
  int64_t *data_int64 = (int64_t *)data;
  for (int i = 2; i < 4; i++) {
    if (data_int64[i] != 0) {
      return 1;
    }
  }
  return 0;
''')], '''
for (const v of [0n, 1n, 1n << 127n, 1n << 128n, 5n << 192n]) K.eq(K.ret(`mstore(0, 5) if callvalue() { mstore(0, 6) } return(0, 32)`, { env: { callvalue: v } }), K.word(v ? 6 : 5), 'if callvalue() of ' + v);
''', 'a call value that is a multiple of 2^128', 'callvalue() as a condition is false')

bug('C09-create-length-16-bit', 'C09', [(C, '''  for (int i = 0; i < 4; i++) {
    wasm_code_length = (wasm_code_length << 8) | ((uint32_t)code_mem[i] & 0xFF);
''', '''  for (int i = 2; i < 4; i++) {
    wasm_code_length = (wasm_code_length << 8) | ((uint32_t)code_mem[i] & 0xFF);
''')], '''
for (const n of [0, 100, 65535, 65536, 70000]) { const t = K.run(`mstore(0, shl(224, ${n})) mstore(${n + 4}, 77) let a := create(0, 0, ${n + 4 + 32}) mstore(0, iszero(a)) return(0, 32)`); const e = t.events.find((x) => x.t === 'create'); K.check(e, 'no creation with code of ' + n); K.eq(e.code.length / 2, n + 4, 'bytes of code'); K.eq(e.args, K.word(77), 'constructor arguments'); }
''', 'a created contract of 64 KB or more', 'the code is cut at the length modulo 2^16, the rest becomes constructor arguments')

bug('C09-gas-literal-wraps', 'C09', [(X, '''            ExpectedType::I64 => {
                if value.len() <= 18 {
''', '''            ExpectedType::I64 => {
                if value.len() <= 20 {
''')], '''
for (const [g, want] of [['1000', '1000'], ['999999999999999999', '999999999999999999'], ['18446744073709551617', 'all'], ['99999999999999999999', 'all']]) { const t = K.run(`mstore(0, call(${g}, 0x1234, 0, 0, 0, 0, 0)) return(0, 32)`); K.eq(t.events.find((x) => x.t === 'call').gas, want, 'gas of call(' + g + ', …)'); }
''', 'a gas limit written as a decimal number of 20 digits that is 2^64 or more', 'the limit is taken modulo 2^64')

bug('C10-calldata-cache-short', 'C10', [(C, '''  static uint8_t cached_calldata[CACHED_CALLDATA_COPY_THRESHOLD] = {0};
''', '''  // a selector and three words
  static uint8_t cached_calldata[32 * 3] = {0};
''')], '', 'calldata of 97 to 100 bytes', 'the calldata cache is overrun by up to 4 bytes', sh='''#!/bin/bash
# The runtime library of the repository (cwd) under AddressSanitizer, reading calldata of 90 to 101 bytes.
H="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)" || exit 2
trap 'rm -rf "$T"' EXIT
tar xzf "$H/kit.tgz" -C "$T" || exit 2
VERIF_REPO="$PWD" bash "$T/tools/build_native.sh" || exit 3
for n in 90 96 97 98 99 100 101; do
  { printf 'init 0 1 1 64\\ncalldata %s\\ncode -\\nretdata -\\nclaims -1 -1\\nstatus 0 0\\nhostu64 1\\nenv %064d\\nblob 0011223344556677\\nwrapper_calldataload_bytes32 %d 3\\n' "$(head -c $n /dev/zero | tr '\\0' '\\253' | od -An -v -tx1 | tr -d ' \\n')" 0 $((n - 10)); } | "$T/.work/native/asan_release" > "$T/out" 2> "$T/err"
  rc=$?
  if [ $rc != 0 ] || [ "$(tail -1 "$T/out")" != '!done' ]; then echo "calldata of $n bytes"; head -5 "$T/err"; exit 1; fi
done
echo 'as it should be'
''', kit=True)

bug('C11-self-transfer', 'C11', [(C, '''  // write new balance to the from
  uint256_t new_from_balance_u256 = tmp_balance_u256 - var_value_u256;
  storageStoreLittleEndian((ADDRESS_UINT)tmp_keccak256_result,
                           (ADDRESS_UINT)&new_from_balance_u256);
  // calculate the slot of the balance of the to address
  memcpy(tmp_to_keccak256, to, 32);
  keccak256((ADDRESS_UINT)tmp_to_keccak256, 0x40,
            (ADDRESS_UINT)tmp_keccak256_result);
  storageLoadLittleEndian((ADDRESS_UINT)tmp_keccak256_result,
                          (ADDRESS_UINT)&tmp_balance_u256);
''', '''  // calculate the slot of the balance of the to address
  uint8_t to_slot[32];
  uint256_t new_from_balance_u256 = tmp_balance_u256 - var_value_u256;
  memcpy(tmp_to_keccak256, to, 32);
  keccak256((ADDRESS_UINT)tmp_to_keccak256, 0x40, (ADDRESS_UINT)to_slot);
  storageLoadLittleEndian((ADDRESS_UINT)to_slot,
                          (ADDRESS_UINT)&tmp_balance_u256);
  // write new balance to the from
  storageStoreLittleEndian((ADDRESS_UINT)tmp_keccak256_result,
                           (ADDRESS_UINT)&new_from_balance_u256);
  memcpy(tmp_keccak256_result, to_slot, 32);
''')], '''
const src = `object "Token" { code { return(0, 0) } object "Token_deployed" { code { fun_transfer(calldataload(0), calldataload(32), calldataload(64)) return(0, 0)
function fun_transfer(var_from, var_to, var_value) {
  let _1 := sub(shl(160, 1), 1)
  let _2 := and(var_from, _1)
  if iszero(_2) { mstore(0, shl(225, 0x4b637e8f)) mstore(4, 0) revert(0, 36) }
  let _4 := and(var_to, _1)
  if iszero(_4) { mstore(0, shl(224, 0xec442f05)) mstore(4, 0) revert(0, 36) }
  mstore(0, _2)
  mstore(0x20, 0)
  let _6 := sload(keccak256(0, 0x40))
  if lt(_6, var_value) { mstore(0, shl(226, 0x391434e3)) mstore(4, _2) mstore(36, _6) mstore(68, var_value) revert(0, 100) }
  mstore(0, _2)
  mstore(0x20, 0)
  sstore(keccak256(0, 0x40), sub(_6, var_value))
  mstore(0, _4)
  let dataSlot := keccak256(0, 0x40)
  sstore(dataSlot, add(sload(dataSlot), var_value))
  let _8 := mload(0x40)
  mstore(_8, var_value)
  log3(_8, 0x20, 0xddf252ad1be2c89b69c2b068fc378daa952ba7f163c4a11628f55a4df523b3ef, _2, _4)
} } } }`;
const mod = K.module(src, ['--enable-all-optimizers', '--enable-little-endian-storage-load-store']); const { keccak256 } = require(require('path').dirname(require.main.filename) + '/js/lib/keccak.js');
const slot = (a) => BigInt('0x' + Buffer.from(keccak256(Buffer.from(K.word(a) + K.word(0), 'hex'))).toString('hex'));
for (const [f, t, v] of [[5n, 6n, 10n], [5n, 5n, 10n], [5n, 5n, 0n]]) { const x = K.tx(mod, { calldata: K.hex(K.word(f) + K.word(t) + K.word(v)), storage: { [slot(5n)]: 100n, [slot(6n)]: 7n } }, { entry: 'call' }); K.check(/return|stop/.test(x.out.kind), 'the transfer ended with ' + x.out.kind); K.eq(x.w.sload(slot(5n)) + x.w.sload(slot(6n)), 107n, `sum of the balances after a transfer of ${v} from ${f} to ${t}`); }
''', 'a transfer of an account to itself through the optimised routine', 'the balance grows by the amount')

bug('C12-tab-in-string', 'C12', [(U, '''            _ => {
                result.push(c);
            }
''', '''            _ => {
                result.push(if c == '\\t' { ' ' } else { c });
            }
''')], '''
const texts = ['let a := 1', 'let a := "x y"', 'let a := "x\\ty"', 'f("//\\t") // "', "a\\tb"]; const r = K.fe.run(texts.map((t) => ({ mode: 'S', data: t })));
const squeeze = (s) => s.replace(/("[^"]*")|[ \\t]+/g, (m, q) => q || ' ').trim(); for (let i = 0; i < texts.length; i++) K.eq(squeeze(String(r[i].out)), squeeze(texts[i].replace(/\\/\\/ .*/, '')), 'comment removal of ' + JSON.stringify(texts[i]));
''', 'a tab inside a string literal', 'the text of the literal changes', build='build_fe.sh')

bug('C13-hex-data-leading-e', 'C13', [(G, '''s.trim_start_matches("hex").trim_matches('\\"').to_string();''', '''s.trim_start_matches(&['h', 'e', 'x', '"'][..]).trim_end_matches('"').to_string();''')], '''
for (const h of ['00ff', 'abcd', 'ee01', 'e0', 'Ee']) { const n = h.length / 2; const t = K.tx(K.module(`object "T" { code { datacopy(0, dataoffset("d"), datasize("d")) return(0, datasize("d")) } data "d" hex"${h}" }`)); K.check(t.out.data.endsWith(h.toLowerCase()) && t.out.data.length / 2 === n + 4, `data hex"${h}" reads ${t.out.data}`); }
''', 'hex data whose first digits are e', 'the leading digits are lost')

bug('C14-trailing-comma', 'C14', [(G, '''Comma<T>: Vec<T> = {
    => Vec::new(),
    CommaOne<T> => <>,
};
''', '''Comma<T>: Vec<T> = {
    <mut v:(<T> ",")*> <e:T?> => {
        v.extend(e);
        v
    }
};
''')], '''
for (const [a, ok] of [['pop(1)', true], ['f()', true], ['f2(1, 2)', true], ['pop(1,)', false], ['f(,)', false], ['f2(1, 2,)', false]]) { const r = K.fe.run([{ mode: 'P', data: `object "T" { code { ${a} function f() {} function f2(a, b) {} } }` }])[0]; K.eq(r.status === 'ok', ok, 'acceptance of ' + a); }
''', 'a call with a comma behind its last argument', 'the malformed program is accepted', build='build_fe.sh')

bug('C15-raw-tab-with-escape', 'C15', [(U, '''            '\\n' => Ok('\\n'),
            '\\t' => Ok('\\t'),
            _ => scan_escape(first_char, &mut chars, mode),
''', '''            '\\n' => Ok('\\n'),
            _ => scan_escape(first_char, &mut chars, mode),
''')], '''
for (const [s, want] of [['a\\tb', '610962'], ['a\\\\nb', '610a62'], ['a\\t\\\\n', '61090a']]) { const c = K.compile(`object "T" { code { mstore(0, "${s}") return(0, ${want.length / 2}) } }`); K.check(c.ok, 'a string with a tab does not compile: ' + c.stdout); K.eq(K.tx(new WebAssembly.Module(c.wasm)).out.data, want, JSON.stringify(s)); }
''', 'a string literal with an escape and an unescaped tab', 'the valid literal is refused')

bug('C16-ten-digit-offset', 'C16', [(X, '''                if value.len() <= 9 {
''', '''                if value.len() <= 10 {
''')], '''
const cd = K.hex(K.word(7) + K.word(8)); for (const [l, want] of [['0', 7n], ['32', 8n], ['999999999', 0n], ['4294967295', 0n], ['4294967296', 0n], ['4294967328', 0n]]) K.eq(K.ret(`mstore(0, calldataload(${l})) return(0, 32)`, { calldata: cd }), K.word(want), 'calldataload(' + l + ')');
''', 'a decimal literal of ten digits from 2^32 on as an offset', 'the literal is taken modulo 2^32')

bug('C17-deployed-object-of-another', 'C17', [(T, '''                    let is_same_object = format!("{}_deployed", object.name) == inner_object.name;
''', '''                    let is_same_object = inner_object.name.ends_with("_deployed");
''')], '''
for (const n of ['Q', 'Q_deployed']) { const t = K.run; const m = K.module(`object "T" { code { mstore(0, datasize("${n}")) return(0, 32) } object "${n}" { code { sstore(1, 2) } } }`); const z = Number(BigInt('0x' + K.tx(m).out.data)); K.check(z > 100, `the contract ${n} embedded in T has ${z} bytes`); }
''', 'an embedded contract of another name that ends in _deployed', 'it is embedded without its code')

bug('C18-switch-block-order', 'C18', [(T, '''                let mut jump_tbl: IndexMap<IntValue<'a>, (BasicBlock, Block)> = IndexMap::default();
                let mut jump_blocks''', '''                let mut jump_tbl: std::collections::HashMap<IntValue<'a>, (BasicBlock, Block)> =
                    Default::default();
                let mut jump_blocks''')], '''
const src = `object "T" { code { switch calldataload(0) ${Array.from({ length: 9 }, (_, i) => `case ${i * 7} { sstore(${i}, ${i + 3}) log0(${i}, ${i * 3}) }`).join(' ')} default { sstore(99, 1) } } }`;
const seen = new Set(); for (let i = 0; i < 8; i++) { const r = K.compile(src); K.check(r.ok, 'does not compile'); seen.add(r.wasm.toString('hex')); } K.eq(seen.size, 1, 'different outputs of 8 compilations');
''', 'two compilations of a program with a switch of several cases', 'the output differs from run to run')

bug('C19-mask-of-another-constant', 'C19', [(X, '''                    if self.matches_constant_literal(&shl_args[0], U256::from(160))
                        && self.matches_constant_literal(&shl_args[1], U256::from(1))
                        && self.matches_constant_literal(&sub_args[1], U256::from(1))
                    {
''', '''                    if self.matches_constant_literal(&shl_args[0], U256::from(160))
                        && self.matches_constant_literal(&shl_args[1], U256::from(1))
                    {
''')], '''
for (const flags of [[], ['--enable-all-optimizers'], ['--disable-all-optimizers']]) for (const [k, v] of [[1n, 7n], [4n, 7n], [16n, 255n]]) K.eq(K.ret(`let a := calldataload(0) mstore(0, and(a, sub(shl(160, 1), ${k}))) return(0, 32)`, { calldata: K.hex(K.word(v)) }, flags), K.word(v & ((1n << 160n) - k)), `and(${v}, sub(shl(160, 1), ${k})) with ${flags}`);
''', '--enable-all-optimizers and a mask sub(shl(160, 1), k) with k other than 1', 'the mask is dropped, so the result differs from the other option sets')

bug('C20-last-statement-reverts', 'C20', [('src/yul2ir/function_deduplicator.rs', '''        if function.body.statements.len() != 1 {
            return false;
        }

        let stmt = &function.body.statements[0];
''', '''        let Some(stmt) = function.body.statements.last() else {
            return false;
        };
''')], '''
for (const n of [0, 1]) { const t = K.run('check() mstore(0, 5) return(0, 32) function check() { if calldatasize() { leave } revert(0, 0) }', { calldata: new Uint8Array(n) }); K.eq(t.out.kind, n ? 'return' : 'revert', 'check() with calldata of ' + n + ' bytes'); }
''', 'a function that ends in revert(0, 0) but can leave before', 'every call of it reverts')

bug('C21-symbol-suffix', 'C21', [(I, '''self.opts.symbol2addr.get(&linkersymbol_name).cloned();
''', '''self.opts.symbol2addr.get(&linkersymbol_name).cloned().or_else(|| {
                    // the symbol may be given without its path
                    self.opts
                        .symbol2addr
                        .iter()
                        .find(|(name, _)| linkersymbol_name.ends_with(name.as_str()))
                        .map(|(_, addr)| addr.clone())
                });
''')], '''
const A = '0x' + '11'.repeat(20), B = '0x' + '22'.repeat(20); const at = (s, f) => K.ret(`mstore(0, linkersymbol("${s}")) return(0, 32)`, {}, f);
K.eq(at('a.sol:Math', ['--symbol', 'a.sol:Math=' + A]), K.word(BigInt(A)), 'a.sol:Math'); K.eq(at('b.sol:SafeMath', ['--symbol', 'Math=' + A, '--ignore-unknown-linker-library']), K.word((1n << 160n) - 1n), 'b.sol:SafeMath that is not given');
''', 'a library that is not given whose name ends with the name of one that is', "it gets the other library's address")

bug('C23-ten-digit-negative', 'C23', [('stdlib/utils.c', '''    if (is_negative && index < buffer_size - 1) {
''', '''    if (is_negative && index + 1 < buffer_size - 1) {
''')], '', 'a negative number of ten digits printed by the debug library', 'the sign is missing', sh='''#!/bin/bash
# Compiles the number formatting of the repository (cwd) into a program of its own.
H="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)" || exit 2
trap 'rm -rf "$T"' EXIT
clang-18 -w -O1 -DNDEBUG -Istdlib -Xclang -fexperimental-max-bitint-width=256 -fno-builtin stdlib/utils.c "$H/main.c" -o "$T/main" || exit 3
"$T/main"
''', files={'main.c': '''#include <stdint.h>
#include <stdio.h>
#include <string.h>
int int32_to_str(int32_t value, char *str_buffer, int buffer_size);
int main(void) {
  int32_t v[] = {0, 7, -7, 123456789, -123456789, 2000000000, -2000000000, 2147483647, -2147483647};
  for (int i = 0; i < sizeof v / sizeof *v; i++) {
    char got[12], want[20];
    sprintf(want, "%d", v[i]);
    int n = int32_to_str(v[i], got, sizeof got);
    if (n != strlen(want) || memcmp(got, want, n)) { printf("FAILED: %d is printed as %.*s\\n", v[i], n, got); return 1; }
  }
  puts("as it should be");
  return 0;
}
'''})

bug('C24-prefix-16-bit', 'C24', [(U, '''    let length_prefix = u32::to_be_bytes(wasm_bytes.len() as u32);
''', '''    // the two high bytes first
    let length = wasm_bytes.len();
    let length_prefix = [0, 0, (length >> 8) as u8, length as u8];
''')], '''
for (const n of [0, 5, 255, 256, 65535, 65536, 200000]) { const r = K.fe.run([{ mode: 'W', data: Buffer.alloc(n, 7) }])[0]; K.eq(r.status, 'ok', 'prefix of ' + n + ' bytes'); K.eq(r.out.length, n + 4, 'length'); K.eq(r.out.readUInt32BE(0), n, 'prefix'); }
''', 'embedded bytes of 64 KB or more', 'the length prefix is the length modulo 2^16', build='build_fe.sh')

bug('C01-variable-changed-in-default', 'C01', [('src/yul2ir/usage.rs', '''                        if let Some(default_case) = default_opt {
                            self.analyze_block_usage(&default_case.body, usage_info);
                            // Fixed: Direct call
                        }
''', '''                        // A case with a default is an if with an else, the default comes with the last case
                        if let (Some(default_case), 1) = (default_opt, cases.len()) {
                            self.analyze_block_usage(&default_case.body, usage_info);
                        }
''')], '''
for (const [x, want] of [[0n, 1n], [1n, 2n], [2n, (1n << 200n) + 5n], [9n, (1n << 200n) + 5n]]) K.eq(K.ret(`
  function f(x) -> r {
    let v := lt(calldatasize(), 1000)
    switch x case 0 { r := 0 } case 1 { r := 1 } default { v := add(shl(200, 1), 4) }
    r := add(r, v)
  }
  mstore(0, f(calldataload(0))) return(0, 32)`, { calldata: K.hex(K.word(x)) }), K.word(x < 2n ? want : want - 1n), 'f(' + x + ')');
''', 'a variable with a narrow first value that is only changed in the default of a switch with two cases or more', 'the variable keeps the narrow type and the value assigned in the default is cut')

bug('C02-exp-of-even-base', 'C02', [(C, '''  uint256_t result_u256 = 1;
  uint256_t val = 1;
''', '''  uint256_t result_u256 = 1;
  // a power of a multiple of 256 with that many factors has no bits left
  uint256_t val = 1;
  if (!(base & 0xff) && exp >= 31) {
    *result = 0;
    return;
  }
''')], '''
const pow = (b, e) => { let r = 1n; const m = 1n << 256n; while (e) { if (e & 1n) r = r * b % m; b = b * b % m; e >>= 1n; } return r; };
for (const b of [2n, 256n, 0x700n, 1n << 64n]) for (const e of [0n, 1n, 3n, 30n, 31n, 32n, 200n]) K.eq(K.ret(`mstore(0, exp(calldataload(0), calldataload(32))) return(0, 32)`, { calldata: K.hex(K.word(b) + K.word(e)) }), K.word(pow(b, e)), `exp(${b}, ${e})`);
''', 'a base that is a multiple of 256 and the exponent 31', 'exp() yields 0 where 256^31 still fits')

bug('C04-hash-of-64-kb', 'C04', [(C, '''  keccak256((ADDRESS_UINT)memory_ptr, size, (ADDRESS_UINT)result);
''', '''  uint16_t length = size;
  keccak256((ADDRESS_UINT)memory_ptr, length, (ADDRESS_UINT)result);
''')], '''
const { keccak256 } = require(require.main.path + '/js/lib/keccak.js');
for (const n of [0, 32, 65535, 65536, 65600]) { const m = new Uint8Array(n); if (n > 40) m[40] = 9; K.eq(K.ret(`mstore8(40, 9) mstore(0, keccak256(0, ${n})) return(0, 32)`), Buffer.from(keccak256(m)).toString('hex'), 'hash of ' + n + ' bytes'); }
''', 'a hash of 64 KB or more', 'only the length modulo 2^16 is hashed')

bug('C06-immutable-set-to-zero', 'C06', [(C, '''  storageStore((ADDRESS_UINT)&slot_bytes, (ADDRESS_UINT)&value_bytes);

  flag_value_bytes[31] = 0x01;
''', '''  storageStore((ADDRESS_UINT)&slot_bytes, (ADDRESS_UINT)&value_bytes);

  flag_value_bytes[31] = value != 0;
''')], '''
for (const v of [5n, 1n << 255n, 0n]) { const t = K.run(`setimmutable(0, "owner", calldataload(0)) if calldataload(32) { setimmutable(0, "owner", 77) } mstore(0, loadimmutable("owner")) return(0, 32)`, { calldata: K.hex(K.word(v) + K.word(1n)) }); K.eq(t.out.kind, 'revert', 'setting it again after ' + v); }
''', 'an immutable that is set to zero and then set again', 'the second value is taken')

bug('C08-extcodesize-16-bit', 'C08', [(C, '''  return (uint32_t)getExternalCodeSize(12 + (ADDRESS_UINT)addr_ptr);
''', '''  uint16_t code_size = getExternalCodeSize(12 + (ADDRESS_UINT)addr_ptr);
  return code_size;
''')], '''
for (let a = 1n; a < 200n; a++) { const w = new K.World({}); const n = w.extcode(a).length; if (a > 5n && n < 65536) continue; K.eq(K.ret(`mstore(0, extcodesize(${a})) return(0, 32)`), K.word(n), 'extcodesize(' + a + ')'); }
''', 'an account with 64 KB of code or more', 'extcodesize is the size modulo 2^16')

bug('C09-log-data-16-bit', 'C09', [(C, '''  emitLogEvent((ADDRESS_UINT)memory_ptr, data_size, num_topics, 0, 0, 0, 0);
''', '''  emitLogEvent((ADDRESS_UINT)memory_ptr, (uint16_t)data_size, num_topics, 0, 0, 0, 0);
''')], '''
for (const n of [0, 32, 65535, 65536, 70000]) { const t = K.run(`log0(3, ${n})`); const e = t.events.find((x) => x.t === 'log'); K.check(e, 'no log of ' + n); K.eq(e.data.length / 2, n, 'bytes of data'); }
''', 'a log0 of 64 KB or more', 'the data is cut to the length modulo 2^16')

bug('C14-declared-twice', 'C14', [(X, '''            if last_var_scope.vars.borrow().contains_key(iden) {
''', '''            if is_return_var && last_var_scope.vars.borrow().contains_key(iden) {
''')], '''
for (const c of ['let a := 1 let a := 2', '{ let a := 1 { let b := 2 } let a := 3 }', 'function f(a) { let a := 1 } f(1)', 'function f(a) -> a { } f(1)']) { const r = K.compile(`object "T" { code { ${c} } }`); K.check(!r.ok, 'accepted: ' + c); }
K.check(K.compile('object "T" { code { { let a := 1 } { let a := 2 } } }').ok, 'blocks of their own');
''', 'a program that declares a variable twice in a scope', 'it is accepted')

bug('C21-case-of-names', 'C21', [(I, '''                let mut symbol_addr = self.opts.symbol2addr.get(&linkersymbol_name).cloned();
''', '''                // names are compared without their case, as paths are on some systems
                let mut symbol_addr = self.opts.symbol2addr.get(&linkersymbol_name).cloned();
                if symbol_addr.is_none() {
                    symbol_addr = self
                        .opts
                        .symbol2addr
                        .iter()
                        .find(|(name, _)| name.eq_ignore_ascii_case(&linkersymbol_name))
                        .map(|(_, addr)| addr.clone());
                }
''')], '''
const A = '0x' + '11'.repeat(20), B = '0x' + '22'.repeat(20); const at = (s, f) => K.ret(`mstore(0, linkersymbol("${s}")) return(0, 32)`, {}, f);
K.eq(at('a.sol:Math', ['--symbol', 'a.sol:Math=' + A, '--symbol', 'a.sol:MATH=' + B]), K.word(BigInt(A)), 'a.sol:Math');
K.eq(at('a.sol:math', ['--symbol', 'a.sol:Math=' + A, '--ignore-unknown-linker-library']), K.word((1n << 160n) - 1n), 'a.sol:math that is not given');
K.check(!K.compile('object "T" { code { mstore(0, linkersymbol("a.sol:math")) return(0, 32) } }', ['--symbol', 'a.sol:Math=' + A]).ok, 'a.sol:math that is not given is accepted');
''', 'a library that is not given and one with the same name in other case that is', "it gets the other library's address")

bug('C17-zero-byte-literal', 'C17', [(T, '''                    for data_literal in data_literals {
''', '''                    for (index, data_literal) in data_literals.iter().enumerate() {
                        // the filler between two literals
                        if index % 2 == 1
                            && matches!(data_literal, ast::DataLiteral::HexLiteral(hex) if hex == "00")
                        {
                            continue;
                        }
''')], '''
for (const l of [['00'], ['aa', '00'], ['aa', '00', 'bb'], ['00', '00'], ['aa', '0000', 'bb']]) { const b = l.join(''); const t = K.tx(K.module(`object "T" { code { let n := datasize("d") datacopy(0, dataoffset("d"), n) return(0, n) } data "d" ${l.map((x) => `hex"${x}"`).join(' ')} }`)); K.eq(t.out.data, (b.length / 2).toString(16).padStart(8, '0') + b, 'segment of ' + l); }
''', 'a data segment whose second literal is a single zero byte', 'that byte is missing')

BUGS = [b for b in BUGS if b['id'] != 'C07-codecopy-boundary']
