'use strict';
// Stand-in for the parts of @solana/kit (v7) the client is written against.
// Offline only; behaviour follows the package's documentation. Anything not
// provided here raises STUB-MISSING, which the simulator treats as "no verdict".
const crypto = require('node:crypto');

class StubMissing extends Error {
    constructor(n) {
        super(`STUB-MISSING ${n}`);
    }
}
let missing = null;
function miss(n) {
    missing = missing || n;
    throw new StubMissing(n);
}
/** Unknown names resolve to something that says so when it is used. */
function open(pkg, mod) {
    const hole = n => {
        const f = function () {
            miss(`${pkg} ${String(n)}`);
        };
        return new Proxy(f, { get: (_, k) => (k === 'prototype' ? f.prototype : miss(`${pkg} ${String(n)}`)) });
    };
    Object.setPrototypeOf(
        mod,
        new Proxy({}, {
            get: (_, n) => (typeof n === 'symbol' || n === '__esModule' || n === 'default' || n === 'then' ? undefined : hole(n)),
            has: () => true,
        }),
    );
    return mod;
}

// ------------------------------------------------------------------ errors
class SolanaError extends Error {
    constructor(code, context) {
        super(`Solana error ${String(code)} ${safe(context)}`);
        this.name = 'SolanaError';
        this.context = Object.freeze({ __code: code, ...(context || {}) });
        if (context && context.cause) this.cause = context.cause;
    }
}
function safe(x) {
    try {
        return JSON.stringify(x, (_, v) => (typeof v === 'bigint' ? v.toString() : v)) || '';
    } catch {
        return '';
    }
}
const isSolanaError = (e, code) => e instanceof SolanaError && (code === undefined || e.context.__code === code);
const isProgramError = (error, message, program, code) => {
    if (!isSolanaError(error, 4615026)) return false;
    const ix = message.instructions[error.context.index];
    if (!ix || ix.programAddress !== program) return false;
    return code === undefined || error.context.code === code;
};

// ------------------------------------------------------------------ codecs
const u8a = x => (x instanceof Uint8Array ? x : Uint8Array.from(x));
function encoder(e) {
    const out = {
        ...e,
        encode: v => {
            const n = e.fixedSize !== undefined ? e.fixedSize : e.getSizeFromValue(v);
            const b = new Uint8Array(n);
            e.write(v, b, 0);
            return b;
        },
    };
    return Object.freeze(out);
}
function decoder(d) {
    return Object.freeze({ ...d, decode: (b, o = 0) => d.read(u8a(b), o)[0] });
}
const createEncoder = encoder;
const createDecoder = decoder;
const createCodec = c => Object.freeze({ ...encoder(c), ...decoder(c) });
function need(b, o, n) {
    if (b.length - o < n) throw new SolanaError('CODECS__INVALID_BYTE_LENGTH', { expected: n, bytesLength: b.length - o });
}
function uint(bits, big) {
    const n = bits / 8;
    const max = (1n << BigInt(bits)) - 1n;
    return {
        enc: () =>
            encoder({
                fixedSize: n,
                write: (v, b, o) => {
                    if (typeof v !== 'number' && typeof v !== 'bigint') throw new TypeError(`Cannot convert ${String(v)} to a number`);
                    let x = BigInt(v);
                    if (x < 0n || x > max) throw new SolanaError('CODECS__NUMBER_OUT_OF_RANGE', { value: String(v) });
                    for (let i = 0; i < n; i++) {
                        b[o + i] = Number(x & 255n);
                        x >>= 8n;
                    }
                    return o + n;
                },
            }),
        dec: () =>
            decoder({
                fixedSize: n,
                read: (b, o) => {
                    need(b, o, n);
                    let x = 0n;
                    for (let i = n - 1; i >= 0; i--) x = (x << 8n) | BigInt(b[o + i]);
                    return [big ? x : Number(x), o + n];
                },
            }),
    };
}
const combineCodec = (e, d) => {
    if ((e.fixedSize === undefined) !== (d.fixedSize === undefined)) throw new SolanaError('CODECS__ENCODER_DECODER_SIZE_COMPATIBILITY_MISMATCH');
    return Object.freeze({ ...d, ...e, encode: e.encode, write: e.write, decode: d.decode, read: d.read });
};
const nums = {};
for (const [bits, big] of [[8, false], [16, false], [32, false], [64, true], [128, true]]) {
    const t = uint(bits, big);
    nums[`getU${bits}Encoder`] = t.enc;
    nums[`getU${bits}Decoder`] = t.dec;
    nums[`getU${bits}Codec`] = () => combineCodec(t.enc(), t.dec());
}
const getBooleanEncoder = (c = {}) => {
    const s = c.size || nums.getU8Encoder();
    return encoder({ ...s, write: (v, b, o) => s.write(v ? 1 : 0, b, o) });
};
const getBooleanDecoder = (c = {}) => {
    const s = c.size || nums.getU8Decoder();
    return decoder({ ...s, read: (b, o) => { const [v, p] = s.read(b, o); return [Number(v) === 1, p]; } });
};
const sum = (fs, f) => (fs.every(x => f(x).fixedSize !== undefined) ? fs.reduce((a, x) => a + f(x).fixedSize, 0) : undefined);
const sizeOf = (e, v) => (e.fixedSize !== undefined ? e.fixedSize : e.getSizeFromValue(v));
const getStructEncoder = fs => {
    const fixed = sum(fs, x => x[1]);
    return encoder({
        ...(fixed === undefined ? { getSizeFromValue: v => fs.reduce((a, [k, e]) => a + sizeOf(e, v[k]), 0) } : { fixedSize: fixed }),
        write: (v, b, o) => {
            for (const [k, e] of fs) o = e.write(v[k], b, o);
            return o;
        },
    });
};
const getStructDecoder = fs => {
    const fixed = sum(fs, x => x[1]);
    return decoder({
        ...(fixed === undefined ? {} : { fixedSize: fixed }),
        read: (b, o) => {
            const out = {};
            for (const [k, d] of fs) {
                const [v, p] = d.read(b, o);
                out[k] = v;
                o = p;
            }
            return [out, o];
        },
    });
};
const getTupleEncoder = fs => {
    const fixed = sum(fs, x => x);
    return encoder({
        ...(fixed === undefined ? { getSizeFromValue: v => fs.reduce((a, e, i) => a + sizeOf(e, v[i]), 0) } : { fixedSize: fixed }),
        write: (v, b, o) => {
            fs.forEach((e, i) => (o = e.write(v[i], b, o)));
            return o;
        },
    });
};
const getTupleDecoder = fs =>
    decoder({
        ...(sum(fs, x => x) === undefined ? {} : { fixedSize: sum(fs, x => x) }),
        read: (b, o) => {
            const out = fs.map(d => {
                const [v, p] = d.read(b, o);
                o = p;
                return v;
            });
            return [out, o];
        },
    });
const transformEncoder = (e, f) =>
    encoder({
        ...(e.fixedSize !== undefined ? { fixedSize: e.fixedSize } : { getSizeFromValue: v => e.getSizeFromValue(f(v)) }),
        write: (v, b, o) => e.write(f(v), b, o),
    });
const transformDecoder = (d, f) =>
    decoder({ ...d, read: (b, o) => { const [v, p] = d.read(b, o); return [f(v, b, o), p]; } });
const transformCodec = (c, f, g) => combineCodec(transformEncoder(c, f), g ? transformDecoder(c, g) : c);
const getUtf8Encoder = () => encoder({ getSizeFromValue: v => Buffer.byteLength(v, 'utf8'), write: (v, b, o) => { const x = Buffer.from(v, 'utf8'); b.set(x, o); return o + x.length; } });
const getUtf8Decoder = () => decoder({ read: (b, o) => [Buffer.from(b.slice(o)).toString('utf8').replace(/\0/g, ''), b.length] });
const getBytesEncoder = () => encoder({ getSizeFromValue: v => v.length, write: (v, b, o) => { b.set(v, o); return o + v.length; } });
const getBytesDecoder = () => decoder({ read: (b, o) => [b.slice(o), b.length] });
const fixEncoderSize = (e, n) => encoder({ fixedSize: n, write: (v, b, o) => { const x = e.encode(v); b.set(x.slice(0, n), o); return o + n; } });
const fixDecoderSize = (d, n) => decoder({ fixedSize: n, read: (b, o) => { need(b, o, n); return [d.read(b.slice(o, o + n), 0)[0], o + n]; } });

const A58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz';
function b58enc(b) {
    let z = 0;
    while (z < b.length && b[z] === 0) z++;
    let x = BigInt('0x' + (Buffer.from(b).toString('hex') || '0'));
    let s = '';
    while (x > 0n) {
        s = A58[Number(x % 58n)] + s;
        x /= 58n;
    }
    return '1'.repeat(z) + s;
}
function b58dec(s) {
    let z = 0;
    while (z < s.length && s[z] === '1') z++;
    let x = 0n;
    for (const c of s) {
        const i = A58.indexOf(c);
        if (i < 0) throw new SolanaError('CODECS__INVALID_STRING_FOR_BASE', { value: s });
        x = x * 58n + BigInt(i);
    }
    let h = x === 0n ? '' : x.toString(16);
    if (h.length % 2) h = '0' + h;
    return Uint8Array.from([...new Uint8Array(z), ...Buffer.from(h, 'hex')]);
}
const getBase58Encoder = () => encoder({ getSizeFromValue: v => b58dec(v).length, write: (v, b, o) => { const x = b58dec(v); b.set(x, o); return o + x.length; } });
const getBase58Decoder = () => decoder({ read: (b, o) => [b58enc(b.slice(o)), b.length] });
const getBase64Encoder = () => encoder({ getSizeFromValue: v => Buffer.from(v, 'base64').length, write: (v, b, o) => { const x = Buffer.from(v, 'base64'); b.set(x, o); return o + x.length; } });
const getBase64Decoder = () => decoder({ read: (b, o) => [Buffer.from(b.slice(o)).toString('base64'), b.length] });

// ------------------------------------------------------------------ addresses
const cacheA = new Map();
function rawAddress(a) {
    let b = cacheA.get(a);
    if (!b) {
        if (typeof a !== 'string') throw new SolanaError('ADDRESSES__STRING_LENGTH_OUT_OF_RANGE', { actual: typeof a });
        b = b58dec(a);
        if (a.length < 32 || a.length > 44 || b.length !== 32) throw new SolanaError('ADDRESSES__INVALID_BYTE_LENGTH', { actualLength: b.length });
        if (cacheA.size > 20000) cacheA.clear();
        cacheA.set(a, b);
    }
    return b;
}
const isAddress = a => {
    try {
        rawAddress(a);
        return true;
    } catch {
        return false;
    }
};
const assertIsAddress = a => void rawAddress(a);
const address = a => (rawAddress(a), a);
const getAddressEncoder = () => encoder({ fixedSize: 32, write: (v, b, o) => { b.set(rawAddress(v), o); return o + 32; } });
const getAddressDecoder = () => decoder({ fixedSize: 32, read: (b, o) => { need(b, o, 32); return [b58enc(b.slice(o, o + 32)), o + 32]; } });
const getAddressComparator = () => (a, b) => Buffer.compare(Buffer.from(a), Buffer.from(b));
const P = (1n << 255n) - 19n;
const mod = x => ((x % P) + P) % P;
function pow(b, e) {
    let r = 1n;
    b = mod(b);
    while (e > 0n) {
        if (e & 1n) r = (r * b) % P;
        b = (b * b) % P;
        e >>= 1n;
    }
    return r;
}
const D = mod(-121665n * pow(121666n, P - 2n));
function onCurve(bytes) {
    const b = Uint8Array.from(bytes);
    const sign = b[31] >> 7;
    b[31] &= 127;
    const y = mod(BigInt('0x' + Buffer.from(b).reverse().toString('hex')));
    const y2 = (y * y) % P;
    const u = mod(y2 - 1n);
    const v = mod(D * y2 + 1n);
    // u/v must be a square
    const x2 = (u * pow(v, P - 2n)) % P;
    if (x2 === 0n) return sign === 0;
    return pow(x2, (P - 1n) / 2n) === 1n;
}
const sha = (...p) => {
    const h = crypto.createHash('sha256');
    for (const x of p) h.update(x);
    return h.digest();
};
const pdas = new Map();
async function getProgramDerivedAddress({ programAddress, seeds }) {
    const raw = seeds.map(s => (typeof s === 'string' ? Buffer.from(s, 'utf8') : u8a(s)));
    if (raw.length > 15) throw new SolanaError('ADDRESSES__MAX_NUMBER_OF_PDA_SEEDS_EXCEEDED');
    if (raw.some(s => s.length > 32)) throw new SolanaError('ADDRESSES__MAX_PDA_SEED_LENGTH_EXCEEDED');
    const id = programAddress + raw.map(s => ':' + Buffer.from(s).toString('hex')).join('');
    const hit = pdas.get(id);
    if (hit) return Object.freeze([...hit]);
    for (let bump = 255; bump > 0; bump--) {
        const h = sha(...raw, Uint8Array.of(bump), rawAddress(programAddress), Buffer.from('ProgramDerivedAddress'));
        if (!onCurve(h)) {
            const r = [b58enc(h), bump];
            if (pdas.size > 20000) pdas.clear();
            pdas.set(id, r);
            return Object.freeze([...r]);
        }
    }
    throw new SolanaError('ADDRESSES__FAILED_TO_FIND_VIABLE_PDA_BUMP_SEED');
}

// ------------------------------------------------------------------ accounts
const BASE = { executable: 0, lamports: 0 };
function parseAccount(addr, v) {
    if (v === null || v === undefined) return Object.freeze({ address: addr, exists: false });
    return Object.freeze({
        address: addr,
        data: Uint8Array.from(Buffer.from(v.data[0], 'base64')),
        executable: v.executable,
        exists: true,
        lamports: BigInt(v.lamports),
        programAddress: v.owner,
        space: BigInt(v.space === undefined ? Buffer.from(v.data[0], 'base64').length : v.space),
    });
}
async function fetchEncodedAccount(rpc, addr, config = {}) {
    const { abortSignal, ...c } = config;
    const r = await rpc.getAccountInfo(addr, { ...c, encoding: 'base64' }).send({ abortSignal });
    return parseAccount(addr, r.value);
}
async function fetchEncodedAccounts(rpc, addrs, config = {}) {
    const { abortSignal, ...c } = config;
    const r = await rpc.getMultipleAccounts(addrs, { ...c, encoding: 'base64' }).send({ abortSignal });
    return r.value.map((v, i) => parseAccount(addrs[i], v));
}
function decodeAccount(a, d) {
    if ('exists' in a && !a.exists) return a;
    try {
        return Object.freeze({ ...a, data: d.decode(a.data) });
    } catch {
        throw new SolanaError('ACCOUNTS__FAILED_TO_DECODE_ACCOUNT', { address: a.address });
    }
}
const assertAccountExists = a => {
    if (!a.exists) throw new SolanaError('ACCOUNTS__ACCOUNT_NOT_FOUND', { address: a.address });
};
const assertAccountsExist = v => {
    const m = v.filter(a => !a.exists);
    if (m.length) throw new SolanaError('ACCOUNTS__ONE_OR_MORE_ACCOUNTS_NOT_FOUND', { addresses: m.map(a => a.address) });
};
const assertAccountDecoded = a => {
    if (!('exists' in a && !a.exists) && a.data instanceof Uint8Array) throw new SolanaError('ACCOUNTS__EXPECTED_DECODED_ACCOUNT', { address: a.address });
};

// ------------------------------------------------------------------ instructions
const AccountRole = Object.freeze({ WRITABLE_SIGNER: 3, READONLY_SIGNER: 2, WRITABLE: 1, READONLY: 0, 3: 'WRITABLE_SIGNER', 2: 'READONLY_SIGNER', 1: 'WRITABLE', 0: 'READONLY' });
const isSignerRole = r => r >= 2;
const isWritableRole = r => (r & 1) !== 0;
const upgradeRoleToSigner = r => r | 2;
const upgradeRoleToWritable = r => r | 1;
const downgradeRoleToNonSigner = r => r & 1;
const downgradeRoleToReadonly = r => r & 2;
const mergeRoles = (a, b) => a | b;
const isInstructionWithAccounts = i => Array.isArray(i.accounts);
const assertIsInstructionWithAccounts = i => {
    if (!isInstructionWithAccounts(i)) throw new SolanaError('INSTRUCTION__EXPECTED_TO_HAVE_ACCOUNTS', { programAddress: i.programAddress });
};
const isInstructionWithData = i => i.data instanceof Uint8Array;
const assertIsInstructionWithData = i => {
    if (!isInstructionWithData(i)) throw new SolanaError('INSTRUCTION__EXPECTED_TO_HAVE_DATA', { programAddress: i.programAddress });
};
const isInstructionForProgram = (i, p) => i.programAddress === p;
function containsBytes(data, bytes, offset) {
    const s = offset === 0 && data.length === bytes.length ? data : data.slice(offset, offset + bytes.length);
    return s.length === bytes.length && s.every((x, i) => x === bytes[i]);
}
const bytesEqual = (a, b) => a.length === b.length && containsBytes(a, b, 0);
const mergeBytes = v => Uint8Array.from(v.flatMap(x => [...x]));
const pipe = (x, ...f) => f.reduce((a, g) => g(a), x);

// ------------------------------------------------------------------ signers
const isTransactionSigner = x => !!x && typeof x === 'object' && ['signTransactions', 'modifyAndSignTransactions', 'signAndSendTransactions'].some(k => typeof x[k] === 'function');
const assertIsTransactionSigner = x => {
    if (!isTransactionSigner(x)) throw new SolanaError('SIGNER__EXPECTED_TRANSACTION_SIGNER', { address: x.address });
};
const PKCS8 = Buffer.from('302e020100300506032b657004220420', 'hex');
const keyCache = new Map();
function keyOf(addr, seedHex) {
    let k = keyCache.get(addr);
    if (!k) {
        k = crypto.createPrivateKey({ key: Buffer.concat([PKCS8, Buffer.from(seedHex, 'hex')]), format: 'der', type: 'pkcs8' });
        keyCache.set(addr, k);
    }
    return k;
}
function keySigner(addr, seedHex) {
    const keyPair = { privateKey: keyOf(addr, seedHex) };
    const sign = b => Uint8Array.from(crypto.sign(null, b, keyPair.privateKey));
    return Object.freeze({
        address: addr,
        keyPair,
        signMessages: async ms => ms.map(m => Object.freeze({ [addr]: sign(m.content) })),
        signTransactions: async txs => txs.map(t => Object.freeze({ [addr]: sign(t.messageBytes) })),
    });
}
const createNoopSigner = addr => Object.freeze({ address: addr, signMessages: async ms => ms.map(() => Object.freeze({})), signTransactions: async txs => txs.map(() => Object.freeze({})) });
let fresh = 0;
async function generateKeyPairSigner() {
    const seed = sha(Buffer.from(`fresh ${fresh++}`));
    const key = crypto.createPrivateKey({ key: Buffer.concat([PKCS8, seed]), format: 'der', type: 'pkcs8' });
    const pub = crypto.createPublicKey(key).export({ format: 'der', type: 'spki' }).slice(-32);
    return keySigner(b58enc(pub), seed.toString('hex'));
}

// ------------------------------------------------------------------ transactions
const createTransactionMessage = ({ version }) => {
    // all that clusters take
    if (version !== 'legacy' && version !== 0) throw new Error(`transaction version ${version}`);
    return Object.freeze({ instructions: Object.freeze([]), version });
};
const setTransactionMessageFeePayer = (feePayer, m) => Object.freeze({ ...m, feePayer: Object.freeze({ address: feePayer }) });
const setTransactionMessageFeePayerSigner = (feePayer, m) => Object.freeze({ ...m, feePayer });
const setTransactionMessageLifetimeUsingBlockhash = (l, m) => Object.freeze({ ...m, lifetimeConstraint: Object.freeze({ ...l }) });
const appendTransactionMessageInstructions = (ixs, m) => Object.freeze({ ...m, instructions: Object.freeze([...m.instructions, ...ixs]) });
const appendTransactionMessageInstruction = (ix, m) => appendTransactionMessageInstructions([ix], m);
const prependTransactionMessageInstructions = (ixs, m) => Object.freeze({ ...m, instructions: Object.freeze([...ixs, ...m.instructions]) });
const prependTransactionMessageInstruction = (ix, m) => prependTransactionMessageInstructions([ix], m);
function short(n) {
    const v = [];
    for (;;) {
        const x = n & 127;
        n >>= 7;
        if (n === 0) return v.concat(x);
        v.push(x | 128);
    }
}
/** Compiles to the wire form the simulated cluster reads. */
function compileTransaction(m) {
    const roles = new Map([[m.feePayer.address, 7]]);
    for (const ix of m.instructions) {
        roles.set(ix.programAddress, roles.get(ix.programAddress) || 0);
        for (const a of ix.accounts || []) roles.set(a.address, (roles.get(a.address) || 0) | a.role);
    }
    const cmp = new Intl.Collator('en', { caseFirst: 'lower', ignorePunctuation: false, localeMatcher: 'best fit', numeric: false, sensitivity: 'variant', usage: 'sort' }).compare;
    const keys = [...roles.keys()].sort((a, b) => roles.get(b) - roles.get(a) || cmp(a, b));
    const sig = keys.filter(k => isSignerRole(roles.get(k)));
    const head = [sig.length, sig.filter(k => !isWritableRole(roles.get(k))).length, keys.filter(k => !isSignerRole(roles.get(k)) && !isWritableRole(roles.get(k))).length];
    if (!m.lifetimeConstraint) throw new SolanaError('TRANSACTION__EXPECTED_BLOCKHASH_LIFETIME');
    const at = k => keys.indexOf(k);
    const out = [...head, ...short(keys.length), ...keys.flatMap(k => [...rawAddress(k)]), ...rawAddress(m.lifetimeConstraint.blockhash), ...short(m.instructions.length)];
    for (const ix of m.instructions) {
        const a = (ix.accounts || []).map(x => at(x.address));
        const d = ix.data || new Uint8Array();
        out.push(at(ix.programAddress), ...short(a.length), ...a, ...short(d.length), ...d);
    }
    const signatures = {};
    for (const k of sig) signatures[k] = null;
    return Object.freeze({ lifetimeConstraint: m.lifetimeConstraint, messageBytes: Uint8Array.from(out), signatures: Object.freeze(signatures) });
}
function signersOf(m) {
    const found = new Map();
    const add = s => {
        if (!isTransactionSigner(s)) return;
        const o = found.get(s.address);
        if (o && o !== s) throw new SolanaError('SIGNER__ADDRESS_CANNOT_HAVE_MULTIPLE_SIGNERS', { address: s.address });
        found.set(s.address, s);
    };
    add(m.feePayer);
    for (const ix of m.instructions) for (const a of ix.accounts || []) add(a.signer);
    return [...found.values()];
}
async function partiallySignTransactionMessageWithSigners(m) {
    const tx = compileTransaction(m);
    const signatures = { ...tx.signatures };
    for (const s of signersOf(m)) {
        if (typeof s.signTransactions !== 'function') miss('signer kind');
        const [d] = await s.signTransactions([tx]);
        Object.assign(signatures, d);
    }
    return Object.freeze({ ...tx, signatures: Object.freeze(signatures) });
}
async function signTransactionMessageWithSigners(m) {
    const tx = await partiallySignTransactionMessageWithSigners(m);
    assertIsFullySignedTransaction(tx);
    return tx;
}
const isFullySignedTransaction = tx => Object.values(tx.signatures).every(Boolean);
function assertIsFullySignedTransaction(tx) {
    const m = Object.entries(tx.signatures).filter(([, s]) => !s).map(([a]) => a);
    if (m.length) throw new SolanaError('TRANSACTION__SIGNATURES_MISSING', { addresses: m });
}
function wire(tx) {
    const s = Object.values(tx.signatures).map(x => x || new Uint8Array(64));
    return Uint8Array.from([...short(s.length), ...s.flatMap(x => [...x]), ...tx.messageBytes]);
}
const getTransactionSize = tx => wire(tx).length;
function assertIsTransactionWithinSizeLimit(tx) {
    if (getTransactionSize(tx) > 1232) throw new SolanaError('TRANSACTION__EXCEEDS_SIZE_LIMIT');
}
function assertIsSendableTransaction(tx) {
    assertIsFullySignedTransaction(tx);
    assertIsTransactionWithinSizeLimit(tx);
}
const assertIsTransactionWithBlockhashLifetime = tx => {
    if (!tx.lifetimeConstraint || typeof tx.lifetimeConstraint.blockhash !== 'string') throw new SolanaError('TRANSACTION__EXPECTED_BLOCKHASH_LIFETIME');
};
const getBase64EncodedWireTransaction = tx => Buffer.from(wire(tx)).toString('base64');
const getSignatureFromTransaction = tx => {
    const s = Object.values(tx.signatures)[0];
    if (!s) throw new SolanaError('TRANSACTION__FEE_PAYER_SIGNATURE_MISSING');
    return b58enc(s);
};

const extendClient = (client, ext) => Object.freeze({ ...client, ...ext });

const kit = {
    SolanaError, isSolanaError, isProgramError,
    SOLANA_ERROR__PROGRAM_CLIENTS__FAILED_TO_IDENTIFY_INSTRUCTION: 8500003,
    SOLANA_ERROR__PROGRAM_CLIENTS__INSUFFICIENT_ACCOUNT_METAS: 8500000,
    SOLANA_ERROR__PROGRAM_CLIENTS__UNRECOGNIZED_INSTRUCTION_TYPE: 8500001,
    SOLANA_ERROR__INSTRUCTION_ERROR__CUSTOM: 4615026,
    createEncoder, createDecoder, createCodec, combineCodec, ...nums,
    getBooleanEncoder, getBooleanDecoder, getStructEncoder, getStructDecoder, getTupleEncoder, getTupleDecoder,
    transformEncoder, transformDecoder, transformCodec, mapEncoder: transformEncoder,
    getUtf8Encoder, getUtf8Decoder, getBytesEncoder, getBytesDecoder, fixEncoderSize, fixDecoderSize,
    getBase58Encoder, getBase58Decoder, getBase64Encoder, getBase64Decoder,
    address, isAddress, assertIsAddress, getAddressEncoder, getAddressDecoder, getAddressComparator, getProgramDerivedAddress,
    fetchEncodedAccount, fetchEncodedAccounts, decodeAccount, assertAccountExists, assertAccountsExist, assertAccountDecoded, parseBase64RpcAccount: parseAccount,
    AccountRole, isSignerRole, isWritableRole, upgradeRoleToSigner, upgradeRoleToWritable, downgradeRoleToNonSigner, downgradeRoleToReadonly, mergeRoles,
    isInstructionWithAccounts, assertIsInstructionWithAccounts, isInstructionWithData, assertIsInstructionWithData, isInstructionForProgram,
    containsBytes, bytesEqual, mergeBytes, pipe,
    isTransactionSigner, assertIsTransactionSigner, createNoopSigner, generateKeyPairSigner,
    createTransactionMessage, setTransactionMessageFeePayer, setTransactionMessageFeePayerSigner, setTransactionMessageLifetimeUsingBlockhash,
    appendTransactionMessageInstructions, appendTransactionMessageInstruction, prependTransactionMessageInstructions, prependTransactionMessageInstruction,
    compileTransaction, partiallySignTransactionMessageWithSigners, signTransactionMessageWithSigners,
    isFullySignedTransaction, assertIsFullySignedTransaction, assertIsSendableTransaction, assertIsTransactionWithBlockhashLifetime, assertIsTransactionWithinSizeLimit,
    getTransactionSize, getBase64EncodedWireTransaction, getSignatureFromTransaction,
    extendClient, lamports: x => x, blockhash: x => x,
};
void BASE;

// ------------------------------------------------------------------ program clients
const expectAddress = v => {
    if (!v) throw new SolanaError('PROGRAM_CLIENTS__UNEXPECTED_RESOLVED_INSTRUCTION_INPUT_TYPE');
    if (typeof v === 'object' && 'address' in v) return v.address;
    return Array.isArray(v) ? v[0] : v;
};
const getAccountMetaFactory = (program, strategy) => (name, a) => {
    if (!a.value) {
        if (strategy === 'omitted') return undefined;
        return Object.freeze({ address: program, role: AccountRole.READONLY });
    }
    const w = a.isWritable ? AccountRole.WRITABLE : AccountRole.READONLY;
    const s = isTransactionSigner(a.value);
    return Object.freeze({ address: expectAddress(a.value), role: s ? upgradeRoleToSigner(w) : w, ...(s ? { signer: a.value } : {}) });
};
const core = {
    getAccountMetaFactory,
    getAddressFromResolvedInstructionAccount: (_, v) => expectAddress(v),
    getNonNullResolvedInstructionInput: (n, v) => {
        if (v === null || v === undefined) throw new SolanaError('PROGRAM_CLIENTS__RESOLVED_INSTRUCTION_INPUT_MUST_BE_NON_NULL', { inputName: n });
        return v;
    },
    isResolvedInstructionAccountSigner: a => isTransactionSigner(a.value),
    addSelfFetchFunctions: (client, codec) =>
        Object.freeze({
            ...codec,
            fetch: async (a, c) => {
                const x = decodeAccount(await fetchEncodedAccount(client.rpc, a, c), codec);
                assertAccountExists(x);
                return x;
            },
            fetchMaybe: async (a, c) => decodeAccount(await fetchEncodedAccount(client.rpc, a, c), codec),
        }),
    addSelfPlanAndSendFunctions: (client, input) => Object.freeze({ ...input, sendTransaction: () => client.sendTransaction(input), planTransaction: () => client.planTransaction(input) }),
};

// ------------------------------------------------------------------ other programs
const SYS = '11111111111111111111111111111111';
const SPL = 'TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA';
const T22 = 'TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb';
const ATA = 'ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL';
const RENT = 'SysvarRent111111111111111111111111111111111';
const meta = (v, w) => getAccountMetaFactory(SYS, 'programId')('', { value: v, isWritable: w });
const sysix = (accounts, fields, v) => Object.freeze({ programAddress: SYS, accounts, data: getStructEncoder(fields).encode(v) });
const system = {
    SYSTEM_PROGRAM_ADDRESS: SYS,
    getTransferSolInstruction: i =>
        sysix([meta(i.source, true), meta(i.destination, true)], [['d', nums.getU32Encoder()], ['amount', nums.getU64Encoder()]], { d: 2, amount: i.amount }),
    getCreateAccountInstruction: i =>
        sysix(
            [meta(i.payer, true), meta(i.newAccount, true)],
            [['d', nums.getU32Encoder()], ['lamports', nums.getU64Encoder()], ['space', nums.getU64Encoder()], ['programAddress', getAddressEncoder()]],
            { d: 0, ...i },
        ),
};
const AccountState = Object.freeze({ Uninitialized: 0, Initialized: 1, Frozen: 2, 0: 'Uninitialized', 1: 'Initialized', 2: 'Frozen' });
const option = () => decoder({ fixedSize: 36, read: (b, o) => { need(b, o, 36); const v = getAddressDecoder().read(b, o + 4)[0]; return [b[o] ? { __option: 'Some', value: v } : { __option: 'None' }, o + 36]; } });
const getTokenDecoder = () =>
    getStructDecoder([
        ['mint', getAddressDecoder()],
        ['owner', getAddressDecoder()],
        ['amount', nums.getU64Decoder()],
        ['delegate', option()],
        ['state', nums.getU8Decoder()],
        ['isNative', decoder({ fixedSize: 12, read: (b, o) => [b[o] ? { __option: 'Some', value: nums.getU64Decoder().read(b, o + 4)[0] } : { __option: 'None' }, o + 12] })],
        ['delegatedAmount', nums.getU64Decoder()],
        ['closeAuthority', option()],
    ]);
const getMintDecoder = () =>
    getStructDecoder([
        ['mintAuthority', option()],
        ['supply', nums.getU64Decoder()],
        ['decimals', nums.getU8Decoder()],
        ['isInitialized', getBooleanDecoder()],
        ['freezeAuthority', option()],
    ]);
const findAta = async (s, c = {}) =>
    await getProgramDerivedAddress({ programAddress: c.programAddress || ATA, seeds: [rawAddress(s.owner), rawAddress(s.tokenProgram), rawAddress(s.mint)] });
const tokenLib = program => ({
    ASSOCIATED_TOKEN_PROGRAM_ADDRESS: ATA,
    AccountState,
    getTokenDecoder,
    getMintDecoder,
    getTokenSize: () => 165,
    decodeToken: a => decodeAccount(a, getTokenDecoder()),
    decodeMint: a => decodeAccount(a, getMintDecoder()),
    fetchMaybeToken: async (rpc, a, c) => decodeAccount(await fetchEncodedAccount(rpc, a, c), getTokenDecoder()),
    fetchToken: async (rpc, a, c) => {
        const x = decodeAccount(await fetchEncodedAccount(rpc, a, c), getTokenDecoder());
        assertAccountExists(x);
        return x;
    },
    fetchMaybeMint: async (rpc, a, c) => decodeAccount(await fetchEncodedAccount(rpc, a, c), getMintDecoder()),
    fetchMint: async (rpc, a, c) => {
        const x = decodeAccount(await fetchEncodedAccount(rpc, a, c), getMintDecoder());
        assertAccountExists(x);
        return x;
    },
    findAssociatedTokenPda: findAta,
    getCreateAssociatedTokenInstruction: i => ataIx(i, 0, program),
    getCreateAssociatedTokenIdempotentInstruction: i => ataIx(i, 1, program),
    getInitializeAccountInstruction: (i, c = {}) =>
        Object.freeze({
            programAddress: c.programAddress || program,
            accounts: [meta(i.account, true), meta(i.mint, false), meta(i.owner, false), meta(i.rent || RENT, false)],
            data: Uint8Array.of(1),
        }),
});
const ataIx = (i, d, program) =>
    Object.freeze({
        programAddress: ATA,
        accounts: [meta(i.payer, true), meta(i.ata, true), meta(i.owner, false), meta(i.mint, false), meta(i.systemProgram || SYS, false), meta(i.tokenProgram || program, false)],
        data: Uint8Array.of(d),
    });
const SIZES = {
    ConfidentialTransferMint: 65, MetadataPointer: 64, DefaultAccountState: 1, PermanentDelegate: 32, TransferHook: 64, MintCloseAuthority: 32,
    GroupPointer: 64, GroupMemberPointer: 64, PausableConfig: 33, NonTransferable: 0, InterestBearingConfig: 52, ScaledUiAmountConfig: 56, TransferFeeConfig: 108,
    ConfidentialTransferFee: 129,
};
const token = { ...tokenLib(SPL), TOKEN_PROGRAM_ADDRESS: SPL, getMintSize: () => 82 };
const token2022 = {
    ...tokenLib(T22),
    TOKEN_2022_PROGRAM_ADDRESS: T22,
    extension: (k, d) => Object.freeze({ __kind: k, ...d }),
    getMintSize: ext => {
        if (ext === undefined || ext === null) return 82;
        let n = 166;
        for (const e of ext) n += 4 + (e.__kind in SIZES ? SIZES[e.__kind] : miss(`extension ${e.__kind}`));
        return n;
    },
};
const takeMissing = () => {
    const m = missing;
    missing = null;
    return m;
};
module.exports = {
    kit: open('kit', kit), core: open('core', core), system: open('system', system), token: open('token', token), token2022: open('token2022', token2022),
    keySigner, takeMissing, b58enc, b58dec, StubMissing,
};
