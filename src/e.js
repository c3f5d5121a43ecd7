#!/usr/bin/env node
// Explorer for the editor extension (vscode-client/src): the real source, transpiled, runs against a model of the editor
// whose every answer (promises, callbacks, events) is a choice of the scheduler. All choice sequences within the bounds
// are executed, each from a fresh extension (stateless search).
//   e.js explore PROP TIER OUT JOBS | e.js replay PROP FILE
'use strict';
const fs = require('fs'), path = require('path'), cp = require('child_process');
const REPO = process.env.VERIF_REPO || '/repo';
const SRC = path.join(REPO, 'vscode-client/src');
process.on('unhandledRejection', () => {});

// ------------------------------------------------------------------ the source
function typescript() {
    for (const p of ['/opt/veriftools/node/node_modules/typescript', 'typescript'])
        try { return require(p); } catch (e) { /* next */ }
    throw new Error('no typescript compiler');
}
const ts = typescript();
const compiled = {};
function load(file) { // function(exports, require, module, process, console, setTimeout, ...)
    if (!compiled[file]) {
        const js = ts.transpileModule(fs.readFileSync(file, 'utf8'), { compilerOptions: { module: ts.ModuleKind.CommonJS, target: ts.ScriptTarget.ES2020, esModuleInterop: false } }).outputText;
        compiled[file] = new Function('exports', 'require', 'module', 'process', 'console', 'setTimeout', 'clearTimeout', 'setInterval', 'clearInterval', '__filename', '__dirname', js);
    }
    return compiled[file];
}

// ------------------------------------------------------------------ the editor
const KEYS = ['debug.log.path', 'ncsetting.file.path', 'calculate.pathtime.enable', 'macro.descriptions.path'].map(k => 'ncproj.' + k);
const [LOG, SET, CALC, MAC] = KEYS;
function globRegex(g) {
    return new RegExp('^' + g.replace(/[.+^$()|[\]\\]/g, '\\$&').replace(/\*\*/g, '\x00').replace(/\*/g, '[^/\\\\]*').replace(/\x00/g, '.*').replace(/\?/g, '.').replace(/\{([^}]*)\}/g, (m, x) => '(' + x.split(',').join('|') + ')') + '$', 'i');
}
class World {
    constructor(o) {
        Object.assign(this, { platform: 'linux', user: {}, workspace: {}, files: {}, dir: undefined }, o);
        this.win = this.platform === 'win32';
        this.path = this.win ? path.win32 : path.posix;
        this.dir = this.dir || (this.win ? 'C:\\Users\\a b\\ext' : '/home/a b/ext');
        this.pending = []; this.log = []; this.seq = 0;
        this.listeners = []; this.watchers = []; this.commands = {}; this.clients = []; this.bars = []; this.channels = []; this.processes = []; this.docs = []; this.subscriptions = [];
        this.defaults = { [CALC]: true };
        this.opened = 0;
    }
    value(k) { return k in this.workspace ? this.workspace[k] : k in this.user ? this.user[k] : this.defaults[k]; }
    note(kind, data) { this.log.push({ n: ++this.seq, kind, ...data }); }
    // something the extension waits for; outcomes: name -> what happens
    wait(kind, outcomes, info) { this.pending.push({ kind, outcomes, info: info || {} }); }
    promise(kind, outcomes, info) {
        return new Promise((resolve, reject) => {
            const o = {};
            for (const [n, f] of Object.entries(outcomes)) o[n] = () => { try { resolve(f()); } catch (e) { reject(e); } };
            this.wait(kind, o, info);
        });
    }
    fire(keys) { // settings have changed
        const e = { affectsConfiguration: (s) => keys.some(k => k === s || k.startsWith(s + '.')) };
        for (const l of [...this.listeners]) l(e);
    }
    set(changes, scope) {
        const m = this[scope], keys = [];
        for (const [k, v] of Object.entries(changes)) {
            if (m[k] === v) continue;
            if (v === undefined) delete m[k]; else m[k] = v;
            keys.push(k);
        }
        if (keys.length) this.fire(keys);
        return keys;
    }
    configuration(section) {
        const snap = { user: { ...this.user }, workspace: { ...this.workspace } };
        const full = (k) => section ? section + '.' + k : k;
        const get = (k, d) => { const f = full(k); const v = f in snap.workspace ? snap.workspace[f] : f in snap.user ? snap.user[f] : this.defaults[f]; return v === undefined ? d : v; };
        return {
            get, has: (k) => get(k) !== undefined,
            inspect: (k) => ({ key: full(k), defaultValue: this.defaults[full(k)], globalValue: snap.user[full(k)], workspaceValue: snap.workspace[full(k)] }),
            update: (k, v, target) => {
                const scope = target === 1 || target === true ? 'user' : 'workspace', f = full(k), own = { key: f, value: v, scope };
                this.note('update', own);
                const o = { saved: () => { this.note('saving', own); const changed = this.set({ [f]: v }, scope).length > 0; this.note('saved', { ...own, changed }); } };
                if (this.refusals) o.refused = () => { this.note('refused', own); throw new Error('the settings cannot be written'); };
                return this.promise('update ' + f + ' (' + scope + ')', o);
            },
        };
    }
    message(level, text, args) {
        const items = args.filter(x => typeof x === 'string' || (x && typeof x === 'object' && typeof x.title === 'string'));
        const title = (x) => typeof x === 'string' ? x : x.title;
        const reload = items.some(x => /reload/i.test(title(x))) || /reload window/i.test(text);
        this.note('message', { level, text, items: items.map(title), reload });
        if (!items.length) return Promise.resolve(undefined);
        if ((reload && !this.reloads) || this.leave) return new Promise(() => {}); // left open
        const o = {};
        for (const x of items) if (!reload || this.reloads) o['"' + title(x) + '"'] = () => { this.note('chosen', { item: title(x), reload }); return x; };
        if (!this.brief) o.dismissed = () => undefined;
        return this.promise(reload ? 'reload prompt' : 'prompt', o, { items: items.map(title) });
    }
    dialog() {
        const o = this.brief ? {} : { cancelled: () => undefined };
        for (const f of this.choice || []) o['"' + f + '"'] = () => { this.note('picked', { file: f }); return [this.uri(f)]; };
        return this.promise('dialog', o);
    }
    uri(f) {
        let p = f;
        if (this.win) p = p.replace(/\//g, '\\').replace(/^[A-Z]:/, x => x.toLowerCase());
        return { fsPath: p, path: '/' + p.replace(/\\/g, '/').replace(/^\//, ''), scheme: 'file', toString: () => 'file://' + p };
    }
    read(f, done) {
        const data = this.files[this.win ? f.replace(/\//g, '\\').toLowerCase() : f], n = ++this.opened;
        this.wait('read ' + f + ' #' + n, { done: () => { this.note('read', { file: f, n }); data === undefined ? done(Object.assign(new Error('ENOENT ' + f), { code: 'ENOENT' })) : done(null, data); } });
    }
    child(file, cwd, done, err) {
        const c = { file, cwd, over: false };
        this.processes.push(c); this.note('process', { file });
        this.wait('process', { ended: () => { c.over = true; this.note('ended', {}); done(null); }, failed: () => { c.over = true; this.note('ended', { failed: true }); done(Object.assign(new Error('failed'), { code: 1 })); } });
    }
    changed(f) { // a file is written
        this.note('file', { file: f });
        const u = this.uri(f);
        for (const w of this.watchers) if (!w.over && !w.ignoreChange && w.match(u.fsPath)) for (const l of w.change) { const r = l(u); if (r && r.catch) r.catch(() => {}); }
    }
    // ---------------------------------------------------------------- the modules
    modules() {
        const w = this, any = () => new Proxy(function () {}, { get: (t, k) => k === 'then' ? undefined : k === Symbol.toPrimitive ? () => '' : any(), apply: () => any(), construct: () => any() });
        const open = (o) => new Proxy(o, { get: (t, k) => k in t ? t[k] : typeof k === 'symbol' || k === '__esModule' || k === 'then' || k === 'default' ? undefined : any() });
        const disposable = (f) => ({ dispose: f || (() => {}) });
        const listen = (a) => (l, self, ds) => { const g = self ? l.bind(self) : l; a.push(g); const d = disposable(() => { const i = a.indexOf(g); if (i >= 0) a.splice(i, 1); }); if (Array.isArray(ds)) ds.push(d); return d; };
        const vscode = open({
            ConfigurationTarget: { Global: 1, Workspace: 2, WorkspaceFolder: 3 }, StatusBarAlignment: { Left: 1, Right: 2 }, ViewColumn: { One: 1, Active: -1 }, ProgressLocation: { Notification: 15, Window: 10 },
            RelativePattern: class { constructor(base, pattern) { this.baseUri = base; this.base = typeof base === 'string' ? base : base.fsPath || base.uri.fsPath; this.pattern = pattern; } },
            Uri: open({ file: (f) => w.uri(f), parse: (f) => w.uri(f.replace(/^file:\/\//, '')), joinPath: (u, ...x) => w.uri(w.path.join(u.fsPath, ...x)) }),
            Disposable: class { constructor(f) { this.f = f; } dispose() { this.f(); } static from(...a) { return disposable(() => a.forEach(x => x.dispose())); } },
            workspace: open({
                getConfiguration: (s) => w.configuration(s), onDidChangeConfiguration: listen(w.listeners), workspaceFolders: [],
                createFileSystemWatcher: (p, ic, ih, id) => {
                    const x = { change: [], over: false, ignoreChange: !!ih };
                    if (typeof p === 'string') { const r = globRegex(p.replace(/\\/g, '/')); x.match = (f) => r.test(f.replace(/\\/g, '/')); }
                    else { const r = globRegex(p.pattern), b = w.uri(p.base).fsPath; x.match = (f) => { const s = b.endsWith(w.path.sep) ? b : b + w.path.sep; return f.startsWith(s) && r.test(f.slice(s.length).replace(/\\/g, '/')); }; }
                    w.watchers.push(x);
                    return { onDidChange: listen(x.change), onDidCreate: listen([]), onDidDelete: listen([]), dispose: () => { x.over = true; } };
                },
                openTextDocument: (o) => { const d = typeof o === 'object' && o.content !== undefined ? o : { name: o }; return w.promise('document', { opened: () => { w.docs.push({ ...d, shown: false }); return d; } }); },
                fs: open({ readFile: (u) => new Promise((a, b) => w.read(u.fsPath, (e, d) => e ? b(e) : a(Buffer.from(d)))) }),
            }),
            window: open({
                createOutputChannel: (n) => { const c = { name: n, lines: [], shown: 0, appendLine: (s) => c.lines.push(s), append: (s) => c.lines.push(s), show: () => { c.shown++; }, clear: () => {}, dispose: () => {} }; w.channels.push(c); return open(c); },
                createStatusBarItem: () => { const b = { text: '', shown: 0, show: () => { b.shown++; }, hide: () => { b.shown = 0; }, dispose: () => {} }; w.bars.push(b); return b; },
                showWarningMessage: (t, ...a) => w.message('warning', t, a), showInformationMessage: (t, ...a) => w.message('information', t, a), showErrorMessage: (t, ...a) => w.message('error', t, a),
                showOpenDialog: () => w.dialog(), showTextDocument: (d) => { const x = w.docs.find(y => y.content === d.content); if (x) x.shown = true; return Promise.resolve(any()); },
                setStatusBarMessage: () => disposable(),
                withProgress: (o, f) => f({ report: () => {} }, any()),
            }),
            commands: open({
                registerCommand: (n, f) => { w.commands[n] = f; return disposable(() => { delete w.commands[n]; }); },
                executeCommand: (n, ...a) => { w.note('command', { name: n }); const f = w.commands[n]; return Promise.resolve(f ? f(...a) : undefined); },
            }),
        });
        class LanguageClient {
            constructor(...a) {
                if (typeof a[1] === 'string') a.splice(1, 1);
                [this.id, this.server, this.options] = a; this.starts = 0; this.restarts = 0; this.stops = 0; this.running = false; w.clients.push(this);
            }
            act(kind) { return w.promise('server ' + kind, { ok: () => { w.note('server', { what: kind }); this.running = kind !== 'stop'; }, ...(w.crashes && kind === 'start' ? { failed: () => { w.note('server', { what: 'fails' }); throw new Error('spawn ENOENT'); } } : {}) }); }
            start() { this.starts++; return this.act('start'); }
            restart() { this.restarts++; w.note('restart', {}); return this.act('restart'); }
            stop() { this.stops++; return this.act('stop'); }
            onDidChangeState() { return disposable(); }
            needsStop() { return this.running; }
            isRunning() { return this.running; }
        }
        const lc = open({ LanguageClient, TransportKind: { stdio: 0, ipc: 1 }, State: { Stopped: 1, Running: 2, Starting: 3 } });
        const unquote = (s) => { s = s.trim(); const m = /^"([^"]*)"/.exec(s); return m ? m[1] : s.split(/\s/)[0]; };
        const cb = (a) => a.find(x => typeof x === 'function') || (() => {}), opt = (a) => a.find(x => x && typeof x === 'object' && !Array.isArray(x)) || {};
        const spawned = (file, a) => { const on = {}; const p = open({ on: (n, f) => { (on[n] = on[n] || []).push(f); return p; }, once: (n, f) => p.on(n, f), pid: 1 }); w.child(file, opt(a).cwd, (e) => { const go = (n, ...x) => (on[n] || []).forEach(f => f(...x)); if (e) go('error', e); go('exit', e ? 1 : 0); go('close', e ? 1 : 0); }); return p; };
        const child = open({
            exec: (c, ...a) => { w.child(unquote(c), opt(a).cwd, (e) => cb(a)(e, '', '')); return any(); },
            execFile: (f, ...a) => { w.child(opt(a).shell ? unquote(f) : f, opt(a).cwd, (e) => cb(a)(e, '', '')); return any(); },
            spawn: (f, ...a) => spawned(opt(a).shell ? unquote(f) : f, a),
        });
        const fsm = open({
            readFile: (f, ...a) => w.read(f, (e, d) => cb(a)(e, e ? undefined : a.length > 1 ? d : Buffer.from(d))),
            promises: { readFile: (f, o) => new Promise((a, b) => w.read(f, (e, d) => e ? b(e) : a(o ? d : Buffer.from(d)))) },
            existsSync: (f) => w.files[f] !== undefined, access: (f, ...a) => cb(a)(w.files[f] === undefined ? new Error('ENOENT') : null),
        });
        return { vscode, 'vscode-languageclient': lc, 'vscode-languageclient/node': lc, child_process: child, fs: fsm, path: this.path, 'node:path': this.path, 'node:fs': fsm, 'fs/promises': fsm.promises, 'node:fs/promises': fsm.promises, 'node:child_process': child, util: require('util'), os: { platform: () => this.platform } };
    }
    start() {
        const w = this, mods = this.modules(), cache = {};
        const timer = (f, ms, ...a) => { const t = { over: false }; w.wait('timer', { over: () => { if (!t.over) f(...a); } }); return t; };
        const stop = (t) => { if (t) t.over = true; };
        const proc = { platform: this.platform, env: {}, cwd: () => this.dir, pid: 1, on: () => {}, nextTick: process.nextTick };
        const quiet = { log: () => {}, error: () => {}, warn: () => {}, info: () => {}, debug: () => {}, trace: () => {} };
        const req = (dir) => (n) => {
            if (n in mods) return mods[n];
            if (!n.startsWith('.')) return require(n);
            let f = path.resolve(dir, n);
            f = [f, f + '.ts', f + '/index.ts'].find(x => fs.existsSync(x) && fs.statSync(x).isFile());
            return run(f);
        };
        const run = (f) => {
            if (cache[f]) return cache[f].exports;
            const m = cache[f] = { exports: {} };
            load(f)(m.exports, req(path.dirname(f)), m, proc, quiet, timer, stop, timer, stop, f, path.dirname(f));
            return m.exports;
        };
        this.ext = run(path.join(SRC, 'extension.ts'));
        this.context = { extensionPath: this.dir, extensionUri: this.uri(this.dir), subscriptions: this.subscriptions, asAbsolutePath: (p) => this.path.join(this.dir, p), globalState: { get: () => undefined, update: () => Promise.resolve() }, workspaceState: { get: () => undefined, update: () => Promise.resolve() } };
        const r = this.ext.activate(this.context);
        if (r && r.catch) r.catch(() => {});
    }
    summary() { return JSON.stringify([this.user, this.workspace, this.files, this.pending.map(p => p.kind), this.bars.map(b => b.text), this.clients.map(c => [c.starts, c.restarts, c.stops]), this.log.length && this.log[this.log.length - 1].kind, this.processes.length]); }
}
const settle = () => new Promise(r => setImmediate(r));

// ------------------------------------------------------------------ search
// A scenario: {name, world: () => options, events: (w) => [[name, f]...], depth, check(w, quiet) -> error text}
async function execute(sc, prefix, stat) {
    const w = new World(sc.world());
    const trail = []; // [[choices], chosen]
    let ext = 0, err = '';
    const bad = (e) => { if (!err) err = 'an exception: ' + (e && e.message || e); };
    try { w.start(); } catch (e) { bad(e); }
    await settle();
    while (!err && sc.calm && w.pending.length && w.pending.some(p => !/prompt|dialog/.test(p.kind))) { // the start is over before anything else happens
        const p = w.pending.find(p => !/prompt|dialog/.test(p.kind));
        w.pending.splice(w.pending.indexOf(p), 1);
        try { Object.values(p.outcomes)[0](); } catch (e) { bad(e); }
        await settle();
    }
    for (let i = 0; !err && i < 200; ++i) {
        const choices = [];
        w.pending.forEach((p, x) => { for (const o of Object.keys(p.outcomes)) choices.push({ name: p.kind + ': ' + o, p, o }); });
        const quiet = w.pending.every(p => p.kind === 'timer' ? false : false) && !w.pending.length;
        err = sc.check(w, quiet);
        if (stat) stat.state(sc, w);
        if (err) break;
        if (ext < sc.depth) for (const [n, f] of sc.events(w)) choices.push({ name: n, f });
        if (!choices.length) break;
        // answers in which only the order of reload prompts differs are the same: the first one goes first
        let c;
        const seen = new Set(), uniq = choices.filter(x => !seen.has(x.name) && seen.add(x.name));
        if (i < prefix.length) { c = uniq.find(x => x.name === prefix[i]); if (!c) { err = ''; trail.push([[], prefix[i]]); break; } }
        else c = uniq[0];
        trail.push([uniq.map(x => x.name), c.name]);
        try {
            if (c.f) { ++ext; w.note('event', { name: c.name }); c.f(w); }
            else { w.pending.splice(w.pending.indexOf(c.p), 1); c.p.outcomes[c.o](); }
        } catch (e) { bad(e); }
        if (stat) stat.transitions++;
        await settle();
    }
    return { trail, err, w };
}
async function search(sc, stat) {
    let prefix = [];
    for (;;) {
        const r = await execute(sc, prefix, stat);
        stat.cases++;
        stat.outcome(sc, r.w);
        if (r.err) stat.violation(sc, r.trail.map(t => t[1]), r.err);
        // next path: the last choice with a successor
        let i = r.trail.length - 1;
        for (; i >= 0; --i) {
            const k = r.trail[i][0].indexOf(r.trail[i][1]);
            if (k + 1 < r.trail[i][0].length) { prefix = r.trail.slice(0, i).map(t => t[1]).concat(r.trail[i][0][k + 1]); break; }
        }
        if (i < 0 || stat.violations.length > 20 || stat.cases >= sc.limit) return;
    }
}

// ------------------------------------------------------------------ properties
const EXE = (w, n) => w.win ? w.dir + '\\vscode-client\\out\\' + n + '.exe' : w.dir + '/vscode-client/out/' + n;
const same = (w, a, b) => w.path.normalize(String(a)).replace(/[\\/]$/, '') === w.path.normalize(b).replace(/[\\/]$/, '');
const NAMES = ['ncproj.ncsettingCreate', 'ncproj.ncsettingSelect', 'ncproj.togglePathTimeCalculation', 'ncproj.macroDescriptionsSelect', 'ncproj.macroDescriptionsPlaceholder'];
const LETTER = { '-n': '--ncsetting-path', '-l': '--log-path', '-m': '--macro-desc-path' };
function options(args) {
    const m = {};
    for (let i = 0; i < args.length; ++i) {
        let k = String(args[i]), v;
        const e = k.startsWith('--') ? k.indexOf('=') : -1;
        if (e > 0) v = k.slice(e + 1), k = k.slice(0, e); else v = args[++i];
        m[LETTER[k] || k] = String(v);
    }
    return m;
}
function started(w) { // E01
    if (w.clients.length !== 1) return w.clients.length + ' language clients instead of one';
    const c = w.clients[0], so = c.server.run || c.server, cwd = so.options && so.options.cwd;
    if (!same(w, so.command, EXE(w, 'nclangsrv'))) return 'the server is ' + so.command + ', expected ' + EXE(w, 'nclangsrv');
    if (!same(w, cwd, w.win ? w.dir + '\\vscode-client\\out' : w.dir + '/vscode-client/out')) return 'the server runs in ' + cwd;
    if (c.starts !== 1) return 'the server is started ' + c.starts + ' times';
    const o = options(so.args || []), want = {}, v = w.startValues;
    if (v[SET]) want['--ncsetting-path'] = v[SET];
    if (v[LOG]) want['--log-path'] = v[LOG];
    if (v[MAC]) want['--macro-desc-path'] = v[MAC];
    if (v[CALC]) want['--calculate-path'] = 'true'; else if (o['--calculate-path'] === 'false' || o['--calculate-path'] === '0') delete o['--calculate-path'];
    if (o['--calculate-path'] === '1') o['--calculate-path'] = 'true';
    const k = [...new Set([...Object.keys(o), ...Object.keys(want)])].find(x => o[x] !== want[x]);
    if (k) return 'the option ' + k + ' is ' + o[k] + ', expected ' + want[k];
    const sel = JSON.stringify(c.options && c.options.documentSelector);
    if (!/ncproj/.test(sel)) return 'the server is for documents ' + sel;
    return '';
}
const prompts = (w, from) => w.log.filter(e => e.kind === 'message' && e.reload && e.n > from).length;
function* product(o) {
    const ks = Object.keys(o);
    function* rec(i, acc) { if (i === ks.length) yield { ...acc }; else for (const v of o[ks[i]]) yield* rec(i + 1, { ...acc, [ks[i]]: v }); }
    yield* rec(0, {});
}
const MACHINE = (id) => JSON.stringify({ machine_tool_id: id, driver: 'fanuc_mill' });
const PROPS = {
    E01: {
        bound: 'all values (unset, empty, a path with blanks) of the four settings in user and workspace scope x 2 platforms x server starts or fails',
        deeper: 'the same',
        * scenarios() {
            for (const platform of ['linux', 'win32'])
                for (const s of product({ [SET]: [undefined, '', 'P'], [LOG]: [undefined, '', 'P'], [CALC]: [undefined, true, false], [MAC]: [undefined, '', 'P'], over: ['user', 'workspace', SET, LOG, CALC, MAC] })) {
                    const dirs = platform === 'win32' ? 'C:\\my files\\' : '/my files/', scope = s.over === 'workspace' ? 'workspace' : 'user', vals = {}, other = {};
                    for (const k of KEYS) if (s[k] !== undefined) vals[k] = s[k] === 'P' ? dirs + k + '.x' : s[k];
                    if (KEYS.includes(s.over)) other[s.over] = s.over === CALC ? !(s[CALC] === undefined || s[CALC]) : dirs + 'other'; // the workspace overrides one
                    yield {
                        name: [platform, ...KEYS.map(k => k + '=' + s[k]), s.over].join(' '), depth: 0, events: () => [],
                        world: () => ({ platform, crashes: true, user: scope === 'user' ? { ...vals } : {}, workspace: scope === 'workspace' ? { ...vals } : { ...other }, startValues: { [CALC]: true, ...vals, ...other } }),
                        check(w, quiet) {
                            const e = started(w);
                            if (e) return e;
                            if (!quiet) return '';
                            const failed = w.log.some(x => x.kind === 'server' && x.what === 'fails'), told = w.channels.some(c => c.shown && c.lines.join(' ').includes('nclangsrv')) || w.log.some(x => x.kind === 'message' && x.level === 'error');
                            return failed !== told ? (failed ? 'the failure to start the server is not reported' : 'a failure is reported, but the server runs') : '';
                        },
                    };
                }
        },
    },
    E02: {
        bound: 'all histories of up to 2 of 9 changes of settings by hand, commands that change them and unrelated changes, and up to 3 of 4, with every answer to prompts and dialogs, every order of these answers and of saving; saving refused; several settings at once; the workspace overriding',
        deeper: 'one change more',
        * scenarios(tier) {
            const user = { [SET]: '/c/a.ncsetting', [LOG]: '', [CALC]: true };
            const by = (n, scope, ch) => [n, (w) => { const keys = w.set(ch(w), scope); w.note('foreign', { keys: keys.filter(k => KEYS.includes(k)) }); }];
            let tick = 0;
            const sets = [
                by('log path changed', 'user', (w) => ({ [LOG]: '/log' + w.seq })), by('configuration path changed', 'user', (w) => ({ [SET]: '/c/' + w.seq + '.ncsetting' })),
                by('calculation switched', 'user', (w) => ({ [CALC]: !w.user[CALC] })), by('descriptions changed', 'workspace', (w) => ({ [MAC]: '/m' + w.seq })),
                by('font changed', 'user', (w) => ({ 'editor.fontSize': w.seq })), by('another of ncproj changed', 'user', (w) => ({ 'ncproj.other': w.seq })),
            ];
            const cmd = (n) => [n, (w) => { const r = w.commands['ncproj.' + n](); if (r && r.catch) r.catch(() => {}); }];
            const check = (w, quiet) => {
                if (!quiet) return '';
                const L = w.log;
                // every change by hand of one of the settings is followed by an offer
                let lower = 0, upper = 0;
                for (const e of L) {
                    if (e.kind === 'foreign' && e.keys.length) {
                        upper++;
                        const ev = L.filter(x => x.kind === 'event' && x.n < e.n).pop();
                        if (!L.some(x => x.kind === 'message' && x.reload && x.n > ev.n)) return 'the change of ' + e.keys + ' by hand is not offered to take effect';
                        // shown at once, unless the same setting is just being saved by the extension
                        const racing = L.some(x => x.kind === 'update' && x.n < e.n && e.keys.includes(x.key) && !L.some(y => (y.kind === 'saved' || y.kind === 'refused') && y.key === x.key && y.n > x.n && y.n < e.n));
                        if (!racing && !L.some(x => x.kind === 'message' && x.reload && x.n > ev.n && x.n < e.n)) return 'the change of ' + e.keys + ' by hand is not offered to take effect';
                    }
                    if (e.kind === 'saved') { upper++; if (e.changed && !L.some(x => x.kind === 'message' && x.reload && x.n > L.filter(y => y.kind === 'update' && y.key === e.key && y.n < e.n).pop().n - 3)) return 'the setting ' + e.key + ' saved by a command is not offered to take effect'; }
                    if (e.kind === 'refused' && !L.some(x => x.kind === 'message' && x.level === 'error' && x.n > e.n)) return 'the setting could not be saved, and nobody is told';
                }
                const n = prompts(w, 0);
                if (n > upper) return n + ' offers to reload for ' + upper + ' changes';
                // what the commands saved
                for (const e of L.filter(x => x.kind === 'picked')) {
                    const u = L.find(x => x.kind === 'update' && x.n > e.n && x.value === e.file);
                    if (!u) return 'the selected file is not saved';
                    const qs = L.filter(x => x.kind === 'chosen' && /save/.test(x.item) && x.n < e.n), q = qs[0]; // two dialogs may be open at once
                    if (q && qs.every(x => x.item === q.item) && /user/.test(q.item) !== (u.scope === 'user')) return '"' + q.item + '" saves in the ' + u.scope + ' settings';
                }
                return '';
            };
            const toggled = (w, quiet) => { // switching the calculation switches the value in force
                for (const e of w.log.filter(x => x.kind === 'event' && x.name === 'togglePathTimeCalculation')) {
                    const u = w.log.find(x => x.kind === 'update' && x.n > e.n);
                    if (!u || u.key !== CALC) return 'the command to switch the calculation changes nothing';
                }
                return check(w, quiet);
            };
            const base = (o) => () => ({ user: { ...user }, choice: ['/c/a.ncsetting', '/c/b.ncsetting'], files: {}, startValues: {}, ...o });
            const all = [...sets, cmd('togglePathTimeCalculation'), cmd('ncsettingSelect'), cmd('macroDescriptionsSelect')];
            yield { name: 'settings', world: base({ brief: true, choice: ['/c/b.ncsetting'] }), depth: 2 + tier, events: () => all, check: toggled, split: 2 };
            yield { name: 'settings 3', world: base({ choice: ['/c/a.ncsetting'] }), depth: 3 + tier, events: () => [sets[0], sets[2], sets[4], cmd('togglePathTimeCalculation')], check: toggled, split: 2 };
            yield { name: 'select 2', world: base({}), depth: 2, events: () => [sets[1], sets[4], cmd('ncsettingSelect')], check: toggled, split: 2 };
            yield { name: 'refused', world: base({ brief: true, refusals: true, choice: ['/c/b.ncsetting'] }), depth: 2, events: () => [sets[0], sets[4], cmd('togglePathTimeCalculation'), cmd('ncsettingSelect')], check: toggled };
            yield { name: 'several at once', world: base({ brief: true }), depth: 2 + tier, events: () => [by('two changed', 'user', (w) => ({ [LOG]: '/l' + w.seq, [CALC]: !w.user[CALC] })), by('two changed, one unrelated', 'user', (w) => ({ 'editor.x': w.seq, [SET]: '/c/' + w.seq })), cmd('togglePathTimeCalculation'), cmd('ncsettingSelect')], check: toggled };
            yield { name: 'reload', world: base({ brief: true, reloads: true, choice: ['/c/b.ncsetting'] }), depth: 2, events: () => [sets[0], cmd('togglePathTimeCalculation'), cmd('ncsettingSelect')], check: (w, q) => {
                if (!q) return '';
                const a = w.log.filter(x => x.kind === 'chosen' && x.reload).length, b = w.log.filter(x => x.kind === 'command' && x.name === 'workbench.action.reloadWindow').length;
                return a !== b ? 'the window is reloaded ' + b + ' times, accepted ' + a + ' times' : check(w, q);
            } };
            for (const [u, ws] of [[true, false], [false, true], [undefined, false], [undefined, true], [true, undefined], [undefined, undefined]])
                yield { name: 'overridden ' + u + ' ' + ws, world: base({ user: u === undefined ? { [SET]: user[SET], [LOG]: '' } : { ...user, [CALC]: u }, workspace: ws === undefined ? {} : { [CALC]: ws } }), depth: 2, events: (w) => w.pending.some(p => p.kind.startsWith('update')) ? [] : [cmd('togglePathTimeCalculation')], check: (w, q) => {
                    if (!q) return '';
                    const n = w.log.filter(x => x.kind === 'event').length, now = w.value(CALC), was = ws !== undefined ? ws : u !== undefined ? u : true;
                    return !!now !== (n % 2 ? !was : was) ? 'switched ' + n + ' times, the calculation in force is ' + now + ', it was ' + was : check(w, q);
                } };
        },
    },
    E03: {
        bound: 'all histories of up to 2 of 8 writings of the configuration file (7 contents) and of other files, and up to 3 of 4, with every order of finished reads and restarts, for 9 file names on 2 platforms; up to 3 of 7 writings after the start',
        deeper: 'one writing more after the start or of the few',
        * scenarios(tier) {
            const T = { a: MACHINE('Mill A'), b: MACHINE('  Mill B '), blank: MACHINE('   '), number: MACHINE(5), broken: '{"machine_tool_id":', none: '{}', nul: 'null' };
            const label = (t, file, w) => { let id = ''; try { const o = JSON.parse(t); if (o && typeof o.machine_tool_id === 'string') id = o.machine_tool_id.trim(); } catch (e) { /* broken */ } const b = w.path.basename(file); return id || b.slice(0, b.length - w.path.extname(b).length); };
            for (const [platform, file, others] of [['linux', '/c/m.ncsetting_old.ncsetting', ['/c/x.ncsetting']], ['linux', '/c/x.ncx.nc', []], ['linux', '/c/m.ncsetting', ['/c/x.ncsetting', '/d/m.ncsetting']], ['linux', '/c d/m.n.ncsetting', ['/c d/m.ncsetting']], ['linux', '/c/nc.nc', ['/c/x.nc']], ['linux', '/c/./e/../m.ncsetting', ['/c/x.ncsetting', '/c/e/m.ncsetting']], ['linux', '/c/m', ['/c/n', '/c/xm']], ['linux', '/c/il.nc', ['/c/mil.nc', '/c/il.nc.nc', '/c/ilxnc', '/c/d/il.nc', '/il.nc']], ['win32', 'C:\\c d\\m.ncsetting', ['C:\\c d\\x.ncsetting', 'D:\\c d\\m.ncsetting']], ['win32', 'c:/c d/m.ncsetting', ['C:\\c d\\x.ncsetting']]]) {
                const mod = platform === 'win32' ? path.win32 : path.posix, norm = mod.normalize(file), key = (f) => platform === 'win32' ? f.replace(/\//g, '\\').toLowerCase() : f;
                const main = file === '/c/m.ncsetting' || file.startsWith('C:');
                for (const [first, calm, few, depth] of main ? [['a', true, 5, 3], ['none', true, 3, 3], [undefined, true, 3, 3], ['a', false, 2, 3], [undefined, false, 7, 2]] : [['a', false, 7, 2]])
                    yield {
                        name: [platform, file, first, calm].join(' '), calm, depth: depth + tier * (calm || few < 3), split: 1,
                        world: () => { const files = {}; if (first) files[key(file)] = files[key(norm)] = T[first]; return { platform, user: { [SET]: file }, files, startValues: {} }; },
                        events: (w) => [...Object.keys(T).slice(0, few).map(t => ['written ' + t, (w) => { w.files[key(file)] = w.files[key(norm)] = T[t]; w.changed(norm); }]), ...others.map(o => ['written other ' + o, (w) => { w.files[key(o)] = MACHINE('Other'); w.changed(o); }])],
                        check(w, quiet) {
                            if (!quiet) return '';
                            if (w.bars.length !== 1) return w.bars.length + ' status bar items';
                            const t = w.files[key(norm)], want = label(t === undefined ? 'null' : t, norm, w);
                            if (w.bars[0].text !== want) return 'the status bar shows "' + w.bars[0].text + '", the file means "' + want + '"';
                            if (!w.bars[0].shown) return 'the status bar item is not shown';
                            const n = w.log.filter(e => e.kind === 'event' && !e.name.startsWith('written other')).length, r = w.log.filter(e => e.kind === 'restart').length;
                            if (!r !== !n || r > n) return 'the configuration was written ' + n + ' times, the server restarted ' + r + ' times';
                            const last = w.log.filter(e => e.kind === 'event' && !e.name.startsWith('written other')).pop();
                            if (last && !w.log.some(e => e.kind === 'restart' && e.n > last.n)) return 'the server is not restarted after the last writing';
                            return '';
                        },
                    };
            }
        },
    },
    E04: {
        bound: 'all histories of up to 5 starts of the configuration tool with every order of its ends and failures, 4 folders of installation on 2 platforms',
        deeper: 'up to 7',
        * scenarios(tier) {
            for (const [platform, dir] of [['win32', 'C:\\Users\\a b\\ext'], ['win32', 'C:\\ext'], ['win32', 'C:\\Users\\a (b) & c\\ext'], ['linux', '/home/a b/ext'], ['linux', '/ext']])
                for (const set of [undefined, 'x.ncsetting'])
                yield {
                    name: platform + ' ' + dir + ' ' + set, calm: true, depth: (platform === 'win32' ? 5 : 3) + 2 * tier, world: () => ({ platform, leave: true, dir, startValues: {}, user: set ? { [SET]: set } : {} }),
                    events: () => [['ncsettingCreate', (w) => { const r = w.commands['ncproj.ncsettingCreate'](); if (r && r.catch) r.catch(() => {}); }]],
                    check(w) {
                        const run = w.processes.filter(p => !p.over).length;
                        if (run > 1) return run + ' configuration tools run at once';
                        for (const p of w.processes) if (!same(w, p.file, EXE(w, 'cmtconfig'))) return 'the tool started is ' + p.file + ', expected ' + EXE(w, 'cmtconfig');
                        for (const p of w.processes) if (!same(w, p.cwd, w.path.dirname(EXE(w, 'cmtconfig')))) return 'the tool runs in ' + p.cwd;
                        const ev = w.log.filter(e => e.kind === 'event' && e.name === 'ncsettingCreate');
                        if (!w.win) {
                            if (w.processes.length) return 'the tool is started where it does not exist';
                            return ev.some(e => !w.log.some(m => m.kind === 'message' && m.n > e.n)) ? 'not said that there is no tool' : '';
                        }
                        for (const e of ev) { // started, or said to run already
                            const before = w.log.filter(x => x.kind === 'process' && x.n < e.n).length - w.log.filter(x => x.kind === 'ended' && x.n < e.n).length;
                            const next = w.log.find(x => x.n > e.n && (x.kind === 'process' || x.kind === 'message' || x.kind === 'event'));
                            if (!next || next.kind !== (before ? 'message' : 'process')) return before ? 'not said that the tool runs already' : 'the tool is not started';
                        }
                        const fails = w.log.filter(x => x.kind === 'ended' && x.failed).length, told = w.channels.reduce((s, c) => s + c.shown, 0) + w.log.filter(x => x.kind === 'message' && x.level === 'error').length;
                        return fails && !told ? 'the failure of the tool is not reported' : told && !fails ? 'a failure is reported, there was none' : '';
                    },
                };
        },
    },
    E05: {
        bound: 'activation with and without a configuration on 2 platforms, every answer to the first question and what follows, each of the 5 commands, deactivation at every point of the start',
        deeper: 'two commands',
        * scenarios(tier) {
            for (const platform of ['linux', 'win32'])
                for (const set of [undefined, '', '/c/m.ncsetting'])
                    for (const end of [false, true])
                        yield {
                            name: [platform, JSON.stringify(set), end].join(' '), depth: 1 + (tier && !set), calm: !end, split: 1,
                            world: () => ({ platform, user: set === undefined ? {} : { [SET]: set }, choice: ['/c/b.ncsetting'], crashes: true, startValues: {}, files: {} }),
                            events: (w) => w.over ? [] : [...NAMES.map(n => [n, (w) => { const r = w.commands[n](); if (r && r.catch) r.catch(() => {}); }]), ...(end ? [['deactivated', (w) => { w.over = true; const r = w.ext.deactivate(); w.answer = r; if (r && r.then) r.then(() => { w.note('deactivated', {}); }, () => {}); }]] : [])],
                            check(w, quiet) {
                                for (const n of NAMES) if (typeof w.commands[n] !== 'function') return 'the command ' + n + ' is missing';
                                if (w.subscriptions.length < NAMES.length) return 'commands are not released with the extension';
                                if (w.bars.length !== 1 || !w.bars[0].shown || !w.bars[0].text) return 'no status is shown';
                                const ask = w.log.filter(e => e.kind === 'message' && e.items.some(i => /create/i.test(i)) && e.items.some(i => /select/i.test(i)));
                                if ((ask.length > 0) === !!set) return set ? 'asked for a configuration though there is one' : 'not asked for a configuration';
                                const stops = w.clients.reduce((s, c) => s + c.stops, 0);
                                if ((stops > 0) !== !!w.over) return w.over ? 'the server is not stopped' : 'the server is stopped';
                                if (!quiet) return '';
                                const chosen = w.log.find(e => e.kind === 'chosen' && /create|select/i.test(e.item) && !/save/i.test(e.item));
                                if (chosen && !w.log.some(e => e.kind === 'command' && e.n > chosen.n && e.name === (/create/i.test(chosen.item) ? NAMES[0] : NAMES[1]))) return '"' + chosen.item + '" does nothing';
                                for (const e of w.log.filter(e => e.kind === 'event' && e.name === NAMES[4])) {
                                    const d = w.docs.find(d => d.content && d.shown);
                                    if (!d) return 'the example of descriptions is not shown';
                                    let o; try { o = JSON.parse(d.content); } catch (x) { return 'the example of descriptions is not JSON'; }
                                    if (!o.descriptions || !Object.entries(o.descriptions).length || !Object.entries(o.descriptions).every(([k, v]) => /^\d+$/.test(k) && v && typeof v === 'object' && Object.values(v).every(x => typeof x === 'string'))) return 'the example of descriptions cannot be read by the server';
                                }
                                for (const [n, kind] of [[NAMES[1], 'dialog'], [NAMES[3], 'dialog']])
                                    for (const e of w.log.filter(e => e.kind === 'event' && e.name === n))
                                        if (!w.log.some(x => x.kind === 'message' && x.n > e.n)) return 'the command ' + n + ' asks nothing';
                                return '';
                            },
                        };
        },
    },
};

// ------------------------------------------------------------------ driver
class Stat {
    constructor() { this.cases = 0; this.transitions = 0; this.states = new Set(); this.outcomes = {}; this.violations = []; this.samples = []; }
    state(sc, w) { this.states.add(w.summary()); }
    outcome(sc, w) { const k = w.log.map(e => e.kind).filter((x, i, a) => a.indexOf(x) === i).sort().join(' '); this.outcomes[k] = (this.outcomes[k] || 0) + 1; }
    violation(sc, trail, what) { this.violations.push({ case: JSON.stringify({ scenario: sc.name, choices: trail }), what }); }
}
async function worker(prop, tier, k, n, out) {
    const P = PROPS[prop], stat = new Stat();
    let i = 0;
    const names = new Set();
    for (const sc of P.scenarios(tier)) {
        if (names.has(sc.name)) throw new Error('two scenarios ' + sc.name);
        names.add(sc.name);
        if (!sc.split) { if (i++ % n === k) await search(sc, stat); continue; }
        // the first choices of a scenario are shared out between the workers
        const heads = [];
        const rec = async (prefix, d) => {
            const r = await execute(sc, prefix, null);
            if (!d || r.trail.length <= prefix.length) { heads.push(prefix); return; }
            for (const c of r.trail[prefix.length][0]) await rec([...prefix, c], d - 1);
        };
        await rec([], sc.split);
        for (const h of heads) {
            if (i++ % n !== k) continue;
            await searchFrom(sc, h, stat);
        }
    }
    fs.writeFileSync(out, JSON.stringify({ ...stat, states: [...stat.states].map(hash) }));
}
function hash(s) { return require('crypto').createHash('md5').update(s).digest('hex').slice(0, 12); }
async function searchFrom(sc, head, stat) {
    let prefix = head;
    for (;;) {
        const r = await execute(sc, prefix, stat);
        stat.cases++; stat.outcome(sc, r.w);
        if (stat.samples.length < 3) stat.samples.push(sc.name + ': ' + r.trail.map(t => t[1]).join(' > '));
        if (r.err) stat.violation(sc, r.trail.map(t => t[1]), r.err);
        let i = r.trail.length - 1;
        for (; i >= head.length; --i) {
            const k = r.trail[i][0].indexOf(r.trail[i][1]);
            if (k + 1 < r.trail[i][0].length) { prefix = r.trail.slice(0, i).map(t => t[1]).concat(r.trail[i][0][k + 1]); break; }
        }
        if (i < head.length || stat.violations.length > 20) return;
    }
}
async function replay(prop, text) {
    const c = JSON.parse(text);
    for (const tier of [0, 1])
        for (const sc of PROPS[prop].scenarios(tier))
            if (sc.name === c.scenario) {
                sc.depth = 99;
                const r = await execute({ ...sc, depth: c.choices.length + 1, events: sc.events }, c.choices, null);
                return r.err;
            }
    return 'no such scenario';
}
async function main() {
    const [cmd, prop, a, out, jobs] = process.argv.slice(2);
    if (cmd === 'worker') return worker(prop, +a, +jobs.split('/')[0], +jobs.split('/')[1], out);
    if (cmd === 'count') { // development: the size of each scenario
        for (const sc of PROPS[prop].scenarios(+a)) { const st = new Stat(), t = Date.now(); sc.limit = +out || 20000; await search(sc, st); console.log(sc.name, st.cases, Date.now() - t, st.violations.slice(0, 2)); }
        return;
    }
    if (cmd === 'replay') {
        const e = await replay(prop, fs.readFileSync(a, 'utf8'));
        console.log(e ? 'VIOLATED: ' + e : 'holds');
        process.exit(e ? 1 : 0);
    }
    const n = Math.min(8, +jobs || 8), P = PROPS[prop];
    const files = [...Array(n).keys()].map(k => path.join(out, 'w' + k + '.json'));
    const codes = await Promise.all(files.map((f, k) => new Promise(r => cp.spawn(process.execPath, [__filename, 'worker', prop, a, f, k + '/' + n], { stdio: 'inherit' }).on('exit', r))));
    if (codes.some(x => x)) process.exit(3);
    const res = { violations: [], states: new Set(), transitions: 0, cases: 0, outcomes: {}, samples: [], unconfirmed: 0, worker_restarts: 0, bound: P.bound + (a === '1' ? '; thorough: ' + P.deeper : ' (quick)') };
    for (const f of files) {
        const w = JSON.parse(fs.readFileSync(f));
        res.cases += w.cases; res.transitions += w.transitions;
        w.states.forEach(s => res.states.add(s));
        for (const [k, v] of Object.entries(w.outcomes)) res.outcomes[k] = (res.outcomes[k] || 0) + v;
        if (res.samples.length < 5) res.samples.push(...w.samples.slice(0, 1));
        for (const v of w.violations) // each alarm is replayed alone
            if (await replay(prop, v.case)) res.violations.push(v); else res.unconfirmed++;
    }
    res.states = res.states.size;
    fs.writeFileSync(path.join(out, 'result.json'), JSON.stringify(res));
}
main().catch(e => { console.error(e); process.exit(3); });
