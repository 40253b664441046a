'use strict';
// A user's program built on the JavaScript client, driven by the simulator.
// One line of JSON in, one line out; everything it does to the outside goes
// through the lines, so the simulator decides when each answer arrives.
const client = require('CLIENT');
const stub = require('./stub.js');
const { kit } = stub;

const calls = new Map(); // invocation -> { waiting: Map(n -> [resolve, reject]), n }
let out = [];

function rpcError(e) {
    const m = e.message || String(e);
    const err = new kit.SolanaError(e.code === undefined ? 'RPC__TRANSPORT' : e.code, { message: m, data: e.data });
    err.message = `${m} ${e.data && e.data.logs ? '' : ''}`.trim();
    err.rpc = e;
    return err;
}
function ask(inv, method, params) {
    const c = calls.get(inv);
    const n = c.n++;
    return new Promise((ok, no) => {
        c.waiting.set(n, [ok, no]);
        out.push({ inv, n, method, params });
    });
}
/** RPC numbers are integers: the library parses them as bigint. */
function big(method, v) {
    if (method === 'getMinimumBalanceForRentExemption') return BigInt(v);
    if (method === 'getLatestBlockhash') return { ...v, value: { ...v.value, lastValidBlockHeight: BigInt(v.value.lastValidBlockHeight) } };
    if (method === 'getBlockHeight') return BigInt(v);
    return v;
}
const json = v => JSON.parse(JSON.stringify(v, (_, x) => (typeof x === 'bigint' ? Number(x) : x)));
function rpcOf(inv) {
    // as createSolanaRpc does: commitment defaults to confirmed
    const at = { getAccountInfo: 1, getMultipleAccounts: 1, getLatestBlockhash: 0, getMinimumBalanceForRentExemption: 1, getBlockHeight: 0, getBalance: 1 };
    return new Proxy({}, {
        get: (_, method) => (typeof method === 'symbol' || method === 'then' ? undefined : (...params) => ({
            send: async () => {
                const p = json(params);
                if (method in at) {
                    while (p.length <= at[method]) p.push({});
                    if (p[at[method]] && p[at[method]].commitment === undefined) p[at[method]].commitment = 'confirmed';
                }
                return big(method, await ask(inv, method, p));
            },
        })),
    });
}
const sleep = (inv, ms) => ask(inv, 'sleep', [ms]);

async function confirm(inv, rpc, tx, lastValid) {
    const sig = kit.getSignatureFromTransaction(tx);
    await rpc.sendTransaction(kit.getBase64EncodedWireTransaction(tx), { encoding: 'base64', preflightCommitment: 'confirmed' }).send();
    for (let over = false; ; ) {
        await sleep(inv, 400);
        const st = await rpc.getSignatureStatuses([sig]).send();
        const s = st.value[0];
        if (s && s.err) throw new Error(`transaction failed: ${JSON.stringify(s.err)}`);
        if (s && (s.confirmationStatus === 'confirmed' || s.confirmationStatus === 'finalized')) return sig;
        // it may have landed between the two answers: only a look after the end decides
        if (!s && over) throw new Error('block height exceeded');
        over = !s && (await rpc.getBlockHeight({ commitment: 'confirmed' }).send()) > lastValid;
    }
}

/** A transaction of one or more instructions by signers at hand. */
async function submit(inv, rpc, q, payer, ixs) {
    let life;
    if (q.blockhash) life = { blockhash: q.blockhash, lastValidBlockHeight: BigInt(q.lastValid) };
    else life = (await rpc.getLatestBlockhash({ commitment: 'confirmed' }).send()).value;
    const tx = await kit.pipe(
        kit.createTransactionMessage({ version: 0 }),
        m => kit.setTransactionMessageFeePayerSigner(payer, m),
        m => kit.setTransactionMessageLifetimeUsingBlockhash(life, m),
        m => kit.appendTransactionMessageInstructions(ixs, m),
        m => kit.signTransactionMessageWithSigners(m),
    );
    kit.assertIsSendableTransaction(tx);
    return await confirm(inv, rpc, tx, life.lastValidBlockHeight);
}

// What each instruction's accounts are called, in the order of the program's documentation.
const PARSED = {
    0: ['wrappedMint', 'backpointer', 'unwrappedMint', 'systemProgram', 'wrappedTokenProgram'],
    1: ['recipientWrappedTokenAccount', 'wrappedMint', 'wrappedMintAuthority', 'unwrappedTokenProgram', 'wrappedTokenProgram', 'unwrappedTokenAccount', 'unwrappedMint', 'unwrappedEscrow', 'transferAuthority'],
    2: ['unwrappedEscrow', 'recipientUnwrappedToken', 'wrappedMintAuthority', 'unwrappedMint', 'wrappedTokenProgram', 'unwrappedTokenProgram', 'wrappedTokenAccount', 'wrappedMint', 'transferAuthority'],
    3: ['escrow', 'destination', 'unwrappedMint', 'wrappedMint', 'wrappedMintAuthority', 'token2022Program'],
    4: ['wrappedMint', 'wrappedMintAuthority', 'unwrappedMint', 'token2022Program', 'sourceMetadata', 'ownerProgram'],
    5: ['metaplexMetadata', 'wrappedMintAuthority', 'wrappedMint', 'unwrappedMint', 'metaplexProgram', 'systemProgram', 'rentSysvar', 'sourceMetadata', 'ownerProgram'],
};
// Those it may write to, of these.
const WRITES = { 0: [0, 1], 1: [0, 1, 5, 7], 2: [0, 1, 6, 7], 3: [0, 1], 4: [0], 5: [0, 1] };
const KINDS = ['CreateMint', 'Wrap', 'Unwrap', 'CloseStuckEscrow', 'SyncMetadataToToken2022', 'SyncMetadataToSplToken'];
/** Reading an instruction back gives what went in. */
function readBack(ixs, given) {
    for (const ix of ixs) {
        if (ix.programAddress !== client.TOKEN_WRAP_PROGRAM_ADDRESS) continue;
        const d = ix.data[0];
        const kind = client.TokenWrapInstruction[KINDS[d]];
        if (client.identifyTokenWrapInstruction(ix) !== kind) return `instruction ${d} is identified as another`;
        const p = client.parseTokenWrapInstruction(ix);
        if (p.instructionType !== kind || p.programAddress !== ix.programAddress) return `instruction ${d} is parsed as another`;
        for (const [i, name] of (PARSED[d] || []).entries()) {
            const got = p.accounts[name];
            const raw = ix.accounts[i];
            const want = raw.address === client.TOKEN_WRAP_PROGRAM_ADDRESS && got === undefined ? undefined : raw.address;
            if ((got && got.address) !== want) return `instruction ${d}: account ${name} is parsed as ${got && got.address}`;
            if (kit.isWritableRole(raw.role) && !WRITES[d].includes(i)) return `instruction ${d}: account ${name} need not be writable`;
            if (kit.isSignerRole(raw.role) && name !== 'transferAuthority') return `instruction ${d}: account ${name} need not be a signer`;
        }
        if (ix.accounts.slice((PARSED[d] || []).length).some(a => kit.isWritableRole(a.role))) return `instruction ${d}: a member need not be writable`;
        if (p.data.discriminator !== d) return `instruction ${d}: discriminator is parsed as ${p.data.discriminator}`;
        for (const [k, v] of Object.entries(given || {})) if (p.data[k] !== v) return `instruction ${d}: ${k} is parsed as ${p.data[k]}`;
        // every way to encode and decode the data agrees
        const of = n => client[`get${KINDS[d]}${n}`];
        const { discriminator, ...rest } = p.data;
        const hex = b => Buffer.from(b).toString('hex');
        if (hex(of('DiscriminatorBytes')()) !== hex([discriminator])) return `instruction ${d}: discriminator bytes`;
        for (const c of [of('InstructionDataCodec')(), { encode: x => of('InstructionDataEncoder')().encode(x), decode: x => of('InstructionDataDecoder')().decode(x) }]) {
            if (hex(c.encode(rest)) !== hex(ix.data)) return `instruction ${d}: the data encodes differently`;
            const back = c.decode(ix.data);
            for (const [k, v] of Object.entries(p.data)) if (back[k] !== v) return `instruction ${d}: ${k} decodes as ${back[k]}`;
        }
    }
    return null;
}

/** Signers of the people this invocation speaks for; others only sign elsewhere. */
function party(q) {
    const seen = new Map();
    return w => {
        if (!seen.has(w.key)) seen.set(w.key, w.seed ? stub.keySigner(w.key, w.seed) : kit.createNoopSigner(w.key));
        return seen.get(w.key);
    };
}
const some = (o, k, v) => {
    if (v !== null && v !== undefined) o[k] = v;
};
const number = (q, n) => (q.number && BigInt(n) <= BigInt(Number.MAX_SAFE_INTEGER) ? Number(n) : BigInt(n));
const told = x => (x === undefined || x === null ? 'missing' : String(x));

/** The transaction every signer of an offline request signs. */
async function offlineMessage(rpc, q, signer) {
    const multiSigners = q.multi.map(signer);
    const transferAuthority = q.multi.length ? q.auth.key : q.auth ? signer(q.auth) : signer(q.payer);
    const life = { blockhash: q.blockhash, lastValidBlockHeight: BigInt(q.lastValid) };
    const [wrappedMint] = await client.findWrappedMintPda({ unwrappedMint: q.mint, wrappedTokenProgram: q.wprog });
    const [wrappedMintAuthority] = await client.findWrappedMintAuthorityPda({ wrappedMint });
    const common = {
        payer: signer(q.payer),
        wrappedTokenProgram: q.wprog,
        unwrappedTokenProgram: q.uprog,
        amount: number(q, q.amount),
        wrappedMint,
        wrappedMintAuthority,
        unwrappedMint: q.mint,
        transferAuthority,
        multiSigners,
        blockhash: life,
    };
    const m = q.cmd === 'wrap'
        ? await client.multisigOfflineSignWrap({ ...common, unwrappedTokenAccount: q.account, recipientWrappedTokenAccount: q.recipient })
        : await client.multisigOfflineSignUnwrap({ ...common, wrappedTokenAccount: q.account, recipientUnwrappedToken: q.recipient });
    const bad = readBack(m.instructions, { amount: BigInt(q.amount) });
    return [await kit.partiallySignTransactionMessageWithSigners(m), life, bad];
}

const COMMANDS = {
    async 'create-mint'(inv, rpc, q, signer) {
        const payer = signer(q.payer);
        const args = { rpc, unwrappedMint: q.mint, wrappedTokenProgram: q.wprog, payer };
        if (q.idempotent || q.number) args.idempotent = q.idempotent;
        const r = await client.createMint(args);
        const plain = client.getCreateMintInstructionDataEncoder().encode({});
        const bad = readBack(r.ixs, { idempotent: q.idempotent })
            || (client.getCreateMintInstructionDataDecoder().decode(plain).idempotent ? 'a creation is idempotent without being asked' : null);
        const sig = await submit(inv, rpc, q, payer, r.ixs);
        return {
            bad,
            signature: sig,
            wrappedMintAddress: told(r.wrappedMint),
            wrappedBackpointerAddress: told(r.backpointer),
            fundedWrappedMintLamports: told(r.fundedWrappedMintLamports),
            fundedBackpointerLamports: told(r.fundedBackpointerLamports),
        };
    },
    async 'create-escrow-account'(inv, rpc, q, signer) {
        const payer = signer(q.payer);
        const r = await client.createEscrowAccount({ rpc, unwrappedMint: q.mint, wrappedTokenProgram: q.wprog, payer });
        if (r.kind === 'already_exists') return { escrowAccountAddress: told(r.account.address), idle: true };
        if (r.kind !== 'instructions_to_create') return { bad: `result kind ${r.kind}` };
        const sig = await submit(inv, rpc, q, payer, r.ixs);
        return { signature: sig, escrowAccountAddress: told(r.address) };
    },
    async wrap(inv, rpc, q, signer) {
        const payer = signer(q.payer);
        const a = { rpc, payer, unwrappedTokenAccount: q.account, wrappedTokenProgram: q.wprog, amount: number(q, q.amount) };
        some(a, 'unwrappedMint', q.mint);
        some(a, 'recipientWrappedTokenAccount', q.recipient);
        some(a, 'unwrappedTokenProgram', q.uprog);
        if (q.auth) a.transferAuthority = q.auth.seed ? signer(q.auth) : q.auth.key;
        const r = await client.singleSignerWrap(a);
        const bad = readBack(r.ixs, { amount: BigInt(q.amount) });
        const sig = await submit(inv, rpc, q, payer, r.ixs);
        return { bad, signature: sig, recipientTokenAccount: told(r.recipientWrappedTokenAccount), escrowAccount: told(r.escrowAccount), amount: told(r.amount) };
    },
    async unwrap(inv, rpc, q, signer) {
        const payer = signer(q.payer);
        const a = { rpc, payer, wrappedTokenAccount: q.account, recipientUnwrappedToken: q.recipient, amount: number(q, q.amount) };
        some(a, 'unwrappedMint', q.mint);
        some(a, 'wrappedTokenProgram', q.wprog);
        some(a, 'unwrappedTokenProgram', q.uprog);
        if (q.auth) a.transferAuthority = q.auth.seed ? signer(q.auth) : q.auth.key;
        const r = await client.singleSignerUnwrap(a);
        const bad = readBack(r.ixs, { amount: BigInt(q.amount) });
        const sig = await submit(inv, rpc, q, payer, r.ixs);
        return { bad, signature: sig, recipientTokenAccount: told(r.recipientUnwrappedToken), amount: told(r.amount) };
    },
    async offline(inv, rpc, q, signer) {
        const [mine, life, bad] = await offlineMessage(rpc, q, signer);
        if (q.signOnly) {
            return {
                bad,
                message: Buffer.from(mine.messageBytes).toString('base64'),
                tx: { m: Buffer.from(mine.messageBytes).toString('base64'), s: Object.entries(mine.signatures).map(([k, s]) => [k, s ? Buffer.from(s).toString('hex') : null]) },
                signers: Object.entries(mine.signatures).filter(([, s]) => s).map(([k, s]) => `${k}=${stub.b58enc(s)}`),
                absent: Object.entries(mine.signatures).filter(([, s]) => !s).map(([k]) => k),
            };
        }
        const parts = q.parts.map(p => ({
            messageBytes: Uint8Array.from(Buffer.from(p.m, 'base64')),
            signatures: Object.fromEntries(p.s.map(([k, s]) => [k, s ? Uint8Array.from(Buffer.from(s, 'hex')) : null])),
            lifetimeConstraint: life,
        }));
        parts.splice(q.place % (parts.length + 1), 0, mine);
        const tx = client.combinedMultisigTx({ signedTxs: parts, blockhash: life });
        const sig = await confirm(inv, rpc, tx, life.lastValidBlockHeight);
        return { bad, signature: sig };
    },
    async built(inv, rpc, q, signer) {
        const payer = signer(q.payer);
        // the plug-in form of the client builds the same
        const plug = client.tokenWrapProgram()({ rpc, sendTransaction: x => x, planTransaction: x => x }).tokenWrap;
        const pda = q.plugin ? plug.pdas : { wrappedMint: client.findWrappedMintPda, wrappedMintAuthority: client.findWrappedMintAuthorityPda, backpointer: client.findBackpointerPda };
        const [wrappedMint] = await pda.wrappedMint({ unwrappedMint: q.mint, wrappedTokenProgram: q.wprog });
        const [wrappedMintAuthority] = await pda.wrappedMintAuthority({ wrappedMint });
        const { token2022 } = stub;
        const ata = async program => (await token2022.findAssociatedTokenPda({ owner: wrappedMintAuthority, mint: q.mint, tokenProgram: program }))[0];
        let ix;
        const info = {};
        if (q.cmd === 'close-stuck-escrow') {
            const escrow = await ata(token2022.TOKEN_2022_PROGRAM_ADDRESS);
            const i = { escrow, destination: q.dest, unwrappedMint: q.mint, wrappedMint, wrappedMintAuthority };
            ix = q.plugin ? plug.instructions.closeStuckEscrow(i) : client.getCloseStuckEscrowInstruction(i);
        } else if (q.cmd === 'sync-metadata-to-token2022') {
            const i = { wrappedMint, wrappedMintAuthority, unwrappedMint: q.mint };
            some(i, 'sourceMetadata', q.source);
            some(i, 'ownerProgram', q.owner);
            ix = q.plugin ? plug.instructions.syncMetadataToToken2022(i) : client.getSyncMetadataToToken2022Instruction(i);
        } else {
            const i = { metaplexMetadata: q.metaplex, wrappedMintAuthority, wrappedMint, unwrappedMint: q.mint };
            some(i, 'sourceMetadata', q.source);
            some(i, 'ownerProgram', q.owner);
            ix = q.plugin ? plug.instructions.syncMetadataToSplToken(i) : client.getSyncMetadataToSplTokenInstruction(i);
        }
        const bad = readBack([ix], null);
        const { programAddress, accounts, data } = ix;
        const sig = await submit(inv, rpc, q, payer, [{ programAddress, accounts, data }]);
        return { bad, signature: sig, ...info };
    },
    async 'find-pdas'(inv, rpc, q) {
        const [wrappedMint] = await client.findWrappedMintPda({ unwrappedMint: q.mint, wrappedTokenProgram: q.wprog });
        const [wrappedMintAuthority] = await client.findWrappedMintAuthorityPda({ wrappedMint });
        const [backpointer] = await client.findBackpointerPda({ wrappedMint });
        const plug = client.tokenWrapProgram()({ rpc }).tokenWrap;
        let a = { exists: false };
        let bad = null;
        try {
            if (q.plugin) a = await plug.accounts.backpointer.fetchMaybe(backpointer);
            else if (q.number) [a] = await client.fetchAllMaybeBackpointer(rpc, [backpointer]);
            else a = await client.fetchMaybeBackpointerFromSeeds(rpc, { wrappedMint });
        } catch (e) {
            // lamports somebody sent to the address are no back pointer
            if (e.rpc) throw e;
        }
        if (a.exists) {
            const bytes = client.getBackpointerEncoder().encode(a.data);
            if (kit.getAddressDecoder().decode(bytes) !== a.data.unwrappedMint) bad = 'back pointer does not encode back';
            if (bytes.length !== client.getBackpointerSize()) bad = 'back pointer has another size';
            if (client.getBackpointerCodec().decode(bytes).unwrappedMint !== a.data.unwrappedMint) bad = 'back pointer decodes differently';
            if (a.address !== backpointer) bad = 'back pointer is reported at another address';
        } else {
            // the insisting forms refuse
            const gone = { getAccountInfo: () => ({ send: async () => ({ value: null }) }), getMultipleAccounts: x => ({ send: async () => ({ value: x.map(() => null) }) }) };
            for (const f of [() => client.fetchBackpointer(gone, backpointer), () => client.fetchAllBackpointer(gone, [backpointer]), () => client.fetchBackpointerFromSeeds(gone, { wrappedMint })]) {
                if (await f().then(() => true, () => false)) bad = 'a back pointer is fetched where none is';
            }
        }
        return { bad, wrappedMintAddress: told(wrappedMint), wrappedMintAuthority: told(wrappedMintAuthority), wrappedBackpointerAddress: told(backpointer), unwrappedMint: a.exists ? told(a.data.unwrappedMint) : 'none', errors: errorTable(), idle: true };
    },
};

const errorTable = () => Object.fromEntries(Object.entries(client).filter(([k]) => k.startsWith('TOKEN_WRAP_ERROR__')).map(([k, v]) => [k.slice(18), v]));
/** The client's name for an error number of the program. */
function nameOf(code) {
    const v = Object.entries(errorTable()).filter(([, v]) => v === code).map(([k]) => k);
    return v.length ? v.join('|') : null;
}
function describe(e) {
    const d = e && e.rpc && e.rpc.data && e.rpc.data.err;
    const c = d && d.InstructionError && d.InstructionError[1] && d.InstructionError[1].Custom;
    const r = { error: String((e && e.message) || e) };
    if (c !== undefined && c !== null) {
        r.code = c;
        r.name = nameOf(c);
        // a program's own error is told from another's
        const at = d.InstructionError[0];
        const own = new kit.SolanaError(4615026, { code: c, index: at });
        const msg = p => ({ instructions: { [at]: { programAddress: p } } });
        if (!client.isTokenWrapError(own, msg(client.TOKEN_WRAP_PROGRAM_ADDRESS), c)
            || client.isTokenWrapError(own, msg(client.TOKEN_WRAP_PROGRAM_ADDRESS), c + 1)
            || client.isTokenWrapError(own, msg(stub.token2022.TOKEN_2022_PROGRAM_ADDRESS))) r.name = 'unrecognised';
        if (r.name && !client.getTokenWrapErrorMessage(c)) r.name = 'without message';
    }
    return r;
}

function start(inv, q) {
    calls.set(inv, { waiting: new Map(), n: 0 });
    const rpc = rpcOf(inv);
    const end = x => {
        const missing = stub.takeMissing();
        out.push({ inv, done: missing ? { missing } : x });
        calls.delete(inv);
    };
    const name = q.offline ? 'offline' : ['close-stuck-escrow', 'sync-metadata-to-token2022', 'sync-metadata-to-spl-token'].includes(q.cmd) ? 'built' : q.cmd;
    Promise.resolve()
        .then(() => COMMANDS[name](inv, rpc, q, party(q)))
        .then(ok => end({ ok }), e => end({ err: describe(e) }));
}

let buf = '';
process.stdin.setEncoding('utf8');
process.stdin.on('data', s => {
    buf += s;
    let i;
    while ((i = buf.indexOf('\n')) >= 0) {
        const m = JSON.parse(buf.slice(0, i));
        buf = buf.slice(i + 1);
        if (m.reset) {
            calls.clear();
            out = [];
            stub.takeMissing();
        } else if (m.start) start(m.inv, m.start);
        else if (m.drop) calls.delete(m.inv);
        else {
            const c = calls.get(m.inv);
            const w = c && c.waiting.get(m.n);
            if (w) {
                c.waiting.delete(m.n);
                if ('ok' in m) w[0](m.ok);
                else w[1](rpcError(m.err));
            }
        }
        // everything that can run without an answer runs first
        setImmediate(() => {
            const o = out;
            out = [];
            process.stdout.write(JSON.stringify(o) + '\n');
        });
    }
});
process.stdin.on('end', () => process.exit(0));
