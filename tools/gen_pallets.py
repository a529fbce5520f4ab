#!/usr/bin/env python3
"""Write the manifests that build interbtc's own pallet sources (from /repo) against the shims in mc/shim.
Usage: gen_pallets.py [outdir [repo [shimdir]]]; no argument: /verif/mc/repo, /repo, ../../shim"""
import os, sys
OUT = sys.argv[1] if len(sys.argv) > 1 else os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'mc', 'repo')
REPO = sys.argv[2] if len(sys.argv) > 2 else '/repo'
SHIM = sys.argv[3] if len(sys.argv) > 3 else '../../shim'

BASE = {
 'codec': '{ package = "parity-scale-codec", version = "3.6.4", features = ["derive", "max-encoded-len"] }',
 'scale-info': '{ version = "2.9.0", features = ["derive", "serde"] }',
 'serde': '{ version = "1.0", features = ["derive"] }',
 'log': '"0.4"', 'sp-core': '"21.0.0"', 'sp-runtime': '"24.0.0"', 'sp-std': '"8.0.0"', 'sp-arithmetic': '"16.0.0"',
 'mocktopus': '"0.8.0"',
}
for s in ['sp-io', 'frame-support', 'frame-system']: BASE[s] = '{ path = "%s/%s" }' % (SHIM, s)
SH = lambda n: '{ path = "%s/%s" }' % (SHIM, n)
SELF = ['annuity','btc-relay','clients-info','collator-selection','currency','democracy','dex-general','dex-stable','dex-swap-router','escrow','farming','fee','issue','loans','multi-transaction-payment','nomination','oracle','redeem','replace','reward','security','staking','supply','traits','tx-pause','vault-registry','bitcoin']
PKG = {'dex-general':'dex-general'}
def name(d):
    for l in open(f'{REPO}/crates/{d}/Cargo.toml'):
        if l.startswith('name'): return l.split('"')[1]
DEPS = {
 'security': ['sha2'],
 'traits': ['primitives','num-traits','num-bigint','itt'],
 'currency': ['primitives','traits','orml-tokens','orml-traits','pallet-transaction-payment'],
 'reward': ['primitives','rand','pallet-timestamp'],
 'staking': ['primitives','reward','orml-tokens','orml-traits','rand','pallet-timestamp'],
 'oracle': ['pallet-timestamp','security','primitives','staking','currency','traits','orml-tokens','orml-traits'],
 'btc-relay': ['bitcoin','security','pallet-timestamp','hex','itertools'],
 'fee': ['currency','security','reward','staking','primitives','traits','orml-tokens','orml-traits','pallet-timestamp','visibility'],
 'loans': ['num-traits','currency','traits','oracle','security','primitives','orml-tokens','orml-traits','visibility','pallet-timestamp'],
 'vault-registry': ['pallet-timestamp','bitcoin','oracle','fee','security','currency','reward','staking','loans','primitives','traits','orml-tokens','orml-traits','visibility','pretty_assertions'],
 'nomination': ['pallet-timestamp','currency','security','vault-registry','fee','oracle','reward','staking','loans','primitives','traits','orml-tokens','orml-traits'],
 'issue': ['pallet-timestamp','bitcoin','btc-relay','oracle','fee','security','currency','vault-registry','nomination','traits','primitives','orml-tokens','orml-traits','reward','staking'],
 'redeem': ['pallet-timestamp','bitcoin','btc-relay','currency','oracle','fee','security','vault-registry','loans','primitives','orml-tokens','orml-traits','reward','staking','nomination','traits'],
 'replace': ['pallet-timestamp','bitcoin','btc-relay','oracle','fee','security','currency','vault-registry','nomination','primitives','orml-tokens','orml-traits','reward','staking','loans','traits'],
 'annuity': ['primitives','pallet-balances','reward','rand'],
 'supply': ['primitives','pallet-balances','rand'],
 'escrow': ['reward','primitives','pallet-balances','rand'],
 'farming': ['primitives','reward','orml-tokens','orml-traits','pallet-balances','rand'],
 'dex-general': ['orml-tokens','orml-traits','pallet-balances'],
 'dex-stable': ['orml-tokens','orml-traits','pallet-balances','pallet-timestamp'],
 'dex-swap-router': ['orml-tokens','orml-traits','pallet-balances','pallet-timestamp','dex-general','dex-stable'],
 'clients-info': ['visibility'],
 'tx-pause': ['pallet-balances','pallet-utility','pallet-proxy'],
 'democracy': ['pallet-balances','pallet-timestamp','pallet-preimage','pallet-scheduler'],
 'collator-selection': ['rand','pallet-authorship','pallet-session','sp-staking','pallet-aura','sp-consensus-aura','pallet-timestamp','pallet-balances'],
 'multi-transaction-payment': ['pallet-transaction-payment','primitives','traits','currency','dex-general','orml-tokens','orml-traits'],
}
EXTRA = {'sha2':('sha2','"0.8.2"'),'num-traits':('num-traits','"0.2.16"'),'num-bigint':('num-bigint','"0.4.4"'),'itt':('impl-trait-for-tuples','"0.2.2"'),
 'rand':('rand','"0.8"'),'hex':('hex','"0.4.2"'),'itertools':('itertools','"0.10.5"'),
 'primitives':('primitives','{ package = "interbtc-primitives", path = "../primitives" }')}
# no cached copy of these
ABSENT = set()
SHIMS = {'pretty_assertions','orml-tokens','orml-traits','pallet-transaction-payment','pallet-timestamp','pallet-balances','visibility','pallet-authorship','pallet-session','sp-staking','pallet-utility','pallet-proxy','pallet-preimage','pallet-scheduler','pallet-aura','sp-consensus-aura'}
PNAME = {d: name(d) for d in SELF}
def dep(d):
    if d in EXTRA: return EXTRA[d]
    if d in SHIMS: return (d, SH(d))
    n = PNAME[d]
    return (d if n == d else n, '{ path = "../%s" }' % d)
CTU = 'currency = { path = "../currency", features = ["testing-utils"] }\n'
DEV = {d: CTU for d in ['fee', 'loans', 'vault-registry', 'redeem', 'replace', 'oracle', 'nomination', 'issue']}
DEV['collator-selection'] = 'sp-tracing = "10.0.0"\n'
DEV['loans'] += ''.join('%s = { path = "%s/%s" }\n' % (d, SHIM, d) for d in ['pallet-scheduler', 'pallet-utility', 'frame-benchmarking'])
DEV['dex-general'] = 'proptest = { path = "%s/proptest" }\n' % SHIM
for d in ['fee', 'vault-registry', 'nomination']: DEV[d] += 'traits = { path = "../traits", features = ["runtime-benchmarks"] }\n'
FEAT = 'default = ["std"]\nstd = []\nruntime-benchmarks = []\ntry-runtime = []\ntesting-utils = []\nintegration-tests = []\n'
def write(d, text):
    os.makedirs(f'{OUT}/{d}', exist_ok=True); p = f'{OUT}/{d}/Cargo.toml'
    if not os.path.exists(p) or open(p).read() != text: open(p, 'w').write(text)
for d, ds in DEPS.items():
    t = f'[package]\nname = "{PNAME[d]}"\nversion = "1.0.0"\nedition = "2021"\n[lib]\npath = "{REPO}/crates/{d}/src/lib.rs"\ndoctest = false\n[dependencies]\n'
    deps = dict(BASE)
    for x in ds:
        if x in ABSENT: continue
        k, v = dep(x); deps[k] = v
    t += ''.join(f'{k} = {v}\n' for k, v in deps.items())
    if d in DEV: t += '[dev-dependencies]\n' + DEV[d]
    t += '[features]\n' + FEAT
    write(d, t)
write('primitives', f'[package]\nname = "interbtc-primitives"\nversion = "1.2.0"\nedition = "2021"\n[lib]\npath = "{REPO}/primitives/src/lib.rs"\ndoctest = false\n[dependencies]\n'
 'bstringify = "0.1.2"\nserde = { version = "1.0.130", default-features = false }\ncodec = { package = "parity-scale-codec", version = "3.6.4" }\nprimitive-types = { version = "0.12.1", features = ["codec", "scale-info"] }\nscale-info = { version = "2.9.0", features = ["derive", "serde"] }\nscale-decode = { version = "0.7.0", features = ["derive"] }\nscale-encode = { version = "0.3.0", features = ["derive"] }\nsp-runtime = "24.0.0"\nbitcoin = { path = "../bitcoin" }\n[features]\ndefault = ["std", "substrate-compat"]\nstd = []\nruntime-benchmarks = []\nsubstrate-compat = []\n')
