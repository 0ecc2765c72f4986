// Explores paths of one harness: re-executes the instrumented bundle along decision prefixes,
// asks the solver about every undecided condition, and validates every path on the plain bundle.
import fs from 'node:fs'
import vm from 'node:vm'
import { pathToFileURL } from 'node:url'
import { clock, native } from './clock.mjs'
import { Abort, makeRuntime } from './runtime.mjs'
import { Solver } from './solver.mjs'
import * as T from './terms.mjs'
import { REPO } from './bundle.mjs'

const cfg = JSON.parse(process.argv[2])
for (const k of ['log', 'error', 'warn', 'info', 'debug', 'trace']) if (!process.env.VERIF_DEBUG) console[k] = () => {}

try {
	const { createRequire } = await import('node:module')
	const r = createRequire(`${REPO}/plugins/commands/src/index.ts`)
	const m = await import(pathToFileURL(r.resolve('sentence-case')))
	T.FN.sentence = { ev: s => m.sentenceCase(s) }
} catch {
	T.FN.sentence = { ev: s => s }
}

const load = f => new vm.Script(fs.readFileSync(f, 'utf8'), { filename: f }).runInThisContext()
const symFactory = load(cfg.sym)
const plainFactory = load(cfg.plain)

const solver = new Solver({ bin: cfg.solver ?? 'z3', args: cfg.solverArgs ?? ['-in'], timeoutMs: 20000 })

const hash = s => {
	let h = 2166136261
	for (let i = 0; i < s.length; i++) h = Math.imul(h ^ s.charCodeAt(i), 16777619)
	return h >>> 0
}

// ---------------------------------------------------------------- explorer
const X = {
	P: null,
	loopBudget: cfg.loopBudget ?? 20000,
	frames: [],
	stats: null,
	abort(kind, detail) {
		const a = new Abort(kind, detail)
		if (!X.P.aborted) X.P.aborted = a
		throw X.P.aborted
	},
	note(kind, what) {
		const k = `${kind}: ${what}`
		X.stats.notes[k] = (X.stats.notes[k] ?? 0) + 1
		if (kind === 'concretised' || kind === 'native') X.P.concretised = true
	},
	/** a model-derived concrete value used to phrase the next decision; recorded so re-execution is stable */
	hint(fromModel) {
		const P = X.P
		if (P.n < P.prefix.length) return decodeVal(P.prefix[P.n].h)
		return fromModel()
	},
	align(i, key) {
		// drops solver frames that belong to another branch
		const P = X.P
		const fr = X.frames[i]
		if (fr && (fr.key !== key || fr.b !== P.prefix[i]?.b)) {
			solver.pop(X.frames.length - i)
			X.frames.length = i
		}
	},
	decide(f, hint) {
		const P = X.P
		if (P.aborted) throw P.aborted
		const known = P.decided.get(f.key)
		if (known !== undefined) return known
		const i = P.n++
		const key = hash(f.key)
		if (i < P.prefix.length) {
			const e = P.prefix[i]
			if (e.k !== key) X.abort('nondeterministic', f.key)
			X.align(i, key)
			if (X.frames.length <= i) {
				solver.push()
				if (!e.f) solver.assert(e.b ? f : T.not(f))
				X.frames.push({ key, b: e.b })
			}
			P.trail.push(e)
			P.decided.set(f.key, e.b)
			return e.b
		}
		if (X.frames.length > i) {
			solver.pop(X.frames.length - i)
			X.frames.length = i
		}
		const b = f.ev(P.M)
		solver.push()
		solver.assert(b ? T.not(f) : f)
		const r = solver.check()
		X.stats.decisionQueries++
		let forced = false
		if (r === 'sat') {
			const M = solver.model()
			if (M) {
				if (f.ev(M) === b) X.stats.modelMismatch++
				P.alts.push({ prefix: [...P.trail, { b: !b, k: key, h: encodeVal(hint) }], M })
			} else X.stats.unknown++
		} else if (r === 'unsat') forced = true
		else X.stats.unknown++
		solver.pop()
		solver.push()
		if (!forced) solver.assert(b ? f : T.not(f))
		X.frames.push({ key, b })
		P.trail.push({ b, k: key, f: forced ? 1 : 0, h: encodeVal(hint) })
		P.decided.set(f.key, b)
		return b
	},
	/** a fresh, otherwise unconstrained finite choice: every value is feasible by construction */
	branch(name, n, from = 0) {
		const P = X.P
		if (P.aborted) throw P.aborted
		const i = P.n++
		const key = hash(`choose ${name} ${n}`)
		if (i < P.prefix.length) {
			const e = P.prefix[i]
			if (e.k !== key) X.abort('nondeterministic', `choice ${name}`)
			X.align(i, key)
			if (X.frames.length <= i) {
				solver.push()
				solver.assert(T.choiceEq(name, n, e.b))
				X.frames.push({ key, b: e.b })
			}
			P.trail.push(e)
			P.choices.set(name, e.b)
			return e.b
		}
		if (X.frames.length > i) {
			solver.pop(X.frames.length - i)
			X.frames.length = i
		}
		for (let v = n - 1; v >= 1; v--) P.alts.push({ prefix: [...P.trail, { b: v, k: key }], M: P.M })
		solver.push()
		solver.assert(T.choiceEq(name, n, 0))
		X.frames.push({ key, b: 0 })
		P.trail.push({ b: 0, k: key })
		P.choices.set(name, 0)
		return 0
	},
	/** an assertion: decided for every value under the path condition */
	checkF(label, f, info, raw) {
		const P = X.P
		if (P.aborted) throw P.aborted
		if (f === T.TRUE) {
			X.stats.checksTrivial++
			if (raw) P.raws.push(...raw())
			return
		}
		if (f === T.FALSE) {
			X.violate(label, P.M, info, true)
			return
		}
		if (P.decided.get(f.key) === true) {
			X.stats.checksTrivial++
			return
		}
		const i = P.n++
		const key = hash(`check ${f.key}`)
		if (i < P.prefix.length) {
			const e = P.prefix[i]
			if (e.k !== key) X.abort('nondeterministic', label)
			X.align(i, key)
			if (X.frames.length <= i) {
				solver.push()
				if (!e.f) solver.assert(f)
				X.frames.push({ key, b: true })
			}
			P.trail.push(e)
			P.decided.set(f.key, true)
			return
		}
		if (X.frames.length > i) {
			solver.pop(X.frames.length - i)
			X.frames.length = i
		}
		solver.push()
		solver.assert(T.not(f))
		const r = solver.check()
		X.stats.assertionQueries++
		let forced = false
		if (r === 'unsat') {
			forced = true
			X.stats.assertionsDischarged++
		} else if (r === 'sat') {
			const M = solver.model()
			if (M) X.violate(label, M, info)
		} else X.stats.unknown++
		solver.pop()
		solver.push()
		if (!forced) {
			solver.assert(f)
			if (!f.ev(P.M)) {
				const r2 = solver.check()
				if (r2 !== 'sat') {
					X.frames.push({ key, b: true })
					X.abort('cut', 'assertion fails for every value')
				}
				P.M = solver.model()
			}
		}
		X.frames.push({ key, b: true })
		P.trail.push({ b: true, k: key, f: forced ? 1 : 0 })
		P.decided.set(f.key, true)
	},
	/** constrains the inputs without exploring the complement */
	assumeF(f) {
		const P = X.P
		if (f === T.TRUE) return
		if (f === T.FALSE) X.abort('assume', '')
		if (P.aborted) throw P.aborted
		const known = P.decided.get(f.key)
		if (known === true) return
		if (known === false) X.abort('assume', '')
		const i = P.n++
		const key = hash(`assume ${f.key}`)
		if (i < P.prefix.length) {
			const e = P.prefix[i]
			if (e.k !== key) X.abort('nondeterministic', 'assume')
			X.align(i, key)
			if (X.frames.length <= i) {
				solver.push()
				solver.assert(f)
				X.frames.push({ key, b: true })
			}
			P.trail.push(e)
			P.decided.set(f.key, true)
			return
		}
		if (X.frames.length > i) {
			solver.pop(X.frames.length - i)
			X.frames.length = i
		}
		solver.push()
		solver.assert(f)
		X.frames.push({ key, b: true })
		if (!f.ev(P.M)) {
			X.stats.decisionQueries++
			if (solver.check() !== 'sat') X.abort('assume', '')
			P.M = solver.model()
		}
		P.trail.push({ b: true, k: key })
		P.decided.set(f.key, true)
	},
	violate(label, M, info, always) {
		X.P.candidates.push({ label, M: new Map([...M, ...X.P.choices]), info, always })
	}
}
const encodeVal = v => (v === undefined ? undefined : typeof v === 'number' ? { n: Object.is(v, -0) ? '-0' : String(v) } : { s: v })
const decodeVal = e => (e === undefined ? undefined : 'n' in e ? Number(e.n) : e.s)
const encodeM = M => [...M].map(([k, v]) => [k, encodeVal(v)])
const decodeM = a => new Map(a.map(([k, v]) => [k, decodeVal(v)]))

const { $, sameF, deepF, resolveOwn } = makeRuntime(X)

/** the unsimplified equalities behind an assertion the term layer found valid; the solver discharges them at the end of the path */
function rawEqs(a, b, d = 0) {
	const sym = v => T.isTok(v) || T.isNum(v)
	if (sym(a) || sym(b)) {
		if (T.isNum(a) || T.isNum(b)) {
			const [x, y] = [T.toNum(a), T.toNum(b)]
			return x.bits && y.bits ? [T.rawNumEq(x, y)] : []
		}
		return [T.rawStrEq(a, b)]
	}
	if (d > 8 || typeof a !== 'object' || typeof b !== 'object' || !a || !b || a === b) return []
	if (Array.isArray(a)) return a.flatMap((x, i) => rawEqs(x, b[i], d + 1))
	return Reflect.ownKeys(a).flatMap(k => {
		const r = typeof k === 'symbol' ? k : resolveOwn(b, k)
		return r === undefined ? [] : rawEqs(a[k], b[r], d + 1)
	})
}
function dischargeRaws(P) {
	const fs = [...new Map(P.raws.map(f => [f.key, f])).values()]
	if (!fs.length) return
	solver.push()
	solver.assert(T.not(T.and(fs)))
	const r = solver.check()
	X.stats.equalitiesDischarged += r === 'unsat' ? fs.length : 0
	if (r === 'sat') {
		X.stats.modelMismatch++
		X.note('simplifier', fs.map(f => f.key).join(' '))
	} else if (r === 'unknown') X.stats.unknown++
	solver.pop()
}

// ---------------------------------------------------------------- harness API
const NAMES = new Set()
function symbolicS(P) {
	const fresh = name => {
		if (P.names.has(name)) throw new Error(`duplicate symbolic name ${name}`)
		P.names.add(name)
		return name
	}
	return {
		symbolic: true,
		tier: cfg.tier,
		thorough: cfg.tier === 'thorough',
		platformFamily: undefined,
		str(name, o = {}) {
			fresh(name)
			const max = o.max ?? cfg.strMax ?? 11
			P.inputs.push([name, `string of at most ${max} UTF-16 code units below U+D800`])
			return T.varAtom(name, max).tok
		},
		num(name) {
			fresh(name)
			P.inputs.push([name, 'IEEE-754 double, including NaN, infinities and -0'])
			return T.numVar(name)
		},
		choose(name, n) {
			fresh(name)
			return n <= 1 ? 0 : X.branch(name, n)
		},
		assume(c) {
			if (!$.t(c)) X.abort('assume', '')
		},
		assumeNe(a, b) {
			X.assumeF(T.not(sameF(a, b)))
		},
		assumeChars(s, ranges) {
			X.assumeF(T.allIn(s, ranges))
		},
		assumeMinLen(s, n) {
			X.assumeF(T.lenGe(s, n))
		},
		assumeRange(n, lo, hi) {
			X.assumeF(T.and([T.numLe(lo, n), T.numLe(n, hi)]))
		},
		assumeFinite(n) {
			X.assumeF(T.numIsFinite(n))
		},
		check(label, c, info) {
			P.reached.add(label)
			X.checkF(label, T.lit($.t(c)), info)
		},
		/** every character of s lies in one of the ranges */
		inChars(label, s, ranges, info) {
			P.reached.add(label)
			X.checkF(label, T.allIn(s, ranges), info)
		},
		eq(label, a, b, info) {
			P.reached.add(label)
			X.checkF(label, sameF(a, b), info, () => rawEqs(a, b))
		},
		deep(label, a, b, info) {
			P.reached.add(label)
			X.checkF(label, deepF(a, b), info, () => rawEqs(a, b))
		},
		/** like eq / deep, with 0 and -0 alike (immer's drafts do not tell them apart) */
		eqz(label, a, b, info) {
			P.reached.add(label)
			X.checkF(label, sameF(a, b, true), info, () => rawEqs(a, b))
		},
		deepz(label, a, b, info) {
			P.reached.add(label)
			X.checkF(label, deepF(a, b, 0, true), info, () => rawEqs(a, b))
		},
		/** a harness decision that treats 0 and -0 alike */
		isz: (a, b) => {
			const f = sameF(a, b, true)
			return f === T.TRUE ? true : f === T.FALSE ? false : X.decide(f)
		},
		is: (a, b) => {
			const f = sameF(a, b)
			return f === T.TRUE ? true : f === T.FALSE ? false : X.decide(f)
		},
		observe(label, v) {
			P.obs.push([label, v])
		},
		fn(name, s) {
			if (name === 'dec') {
				if (!T.isTok(s)) return T.FN.dec.ev(s)
				const ps = T.pieces(s)
				if (ps.length === 1 && ps[0].kind === 'fn' && ps[0].fn === 'enc') return ps[0].arg
			}
			if (!T.isTok(s)) return T.FN[name].ev(s)
			return T.fnAtom(name, s).tok
		},
		unhandled: () => P.unhandled.map(String),
		turn: () => new Promise(r => setImmediate(r)),
		elapse: clock.elapse
	}
}
function concreteS(P, M) {
	const fail = (label, info) => P.failures.push({ label, info })
	const isz = (a, b) => Object.is(a, b) || a === b
	const deep = (a, b, d = 0, same = Object.is) => {
		const obj = v => (typeof v === 'object' && v !== null) || typeof v === 'function'
		if (!obj(a) || !obj(b) || a === b) return same(a, b)
		if (d > 8 || typeof a === 'function' || typeof b === 'function') return false
		if (Array.isArray(a) !== Array.isArray(b)) return false
		if (Array.isArray(a)) return a.length === b.length && Array.from(a).every((x, i) => deep(x, b[i], d + 1, same))
		const ka = Reflect.ownKeys(a)
		const kb = Reflect.ownKeys(b)
		return ka.length === kb.length && ka.every(k => Object.prototype.hasOwnProperty.call(b, k) && deep(a[k], b[k], d + 1, same))
	}
	const abort = () => {
		const a = new Abort('assume', '')
		P.aborted ??= a
		throw a
	}
	const inR = (s, rs) => [...Array(s.length).keys()].every(i => rs.some(([lo, hi]) => s.charCodeAt(i) >= lo && s.charCodeAt(i) <= hi))
	return {
		symbolic: false,
		tier: cfg.tier,
		thorough: cfg.tier === 'thorough',
		platformFamily: undefined,
		str: name => (M.has(name) ? M.get(name) : ''),
		num: name => (M.has(name) ? M.get(name) : 0),
		choose: (name, n) => (M.has(name) ? M.get(name) : 0),
		assume: c => c || abort(),
		assumeNe: (a, b) => !Object.is(a, b) || abort(),
		assumeChars: (s, r) => inR(s, r) || abort(),
		assumeMinLen: (s, n) => s.length >= n || abort(),
		assumeRange: (n, lo, hi) => (n >= lo && n <= hi) || abort(),
		assumeFinite: n => Number.isFinite(n) || abort(),
		check: (label, c, info) => void (c || fail(label, info)),
		inChars: (label, s, ranges, info) => void (inR(s, ranges) || fail(label, info)),
		eq: (label, a, b, info) => void (Object.is(a, b) || fail(label, info)),
		deep: (label, a, b, info) => void (deep(a, b) || fail(label, info)),
		is: Object.is,
		isz,
		eqz: (label, a, b, info) => void (isz(a, b) || fail(label, info)),
		deepz: (label, a, b, info) => void (deep(a, b, 0, isz) || fail(label, info)),
		observe: (label, v) => void P.obs.push([label, v]),
		fn: (name, s) => T.FN[name].ev(s),
		unhandled: () => P.unhandled.map(String),
		turn: () => new Promise(r => setImmediate(r)),
		elapse: clock.elapse
	}
}

// ---------------------------------------------------------------- running one path
let current = null
process.on('unhandledRejection', e => {
	if (current && !(e instanceof Abort)) current.unhandled.push(e)
})
process.on('uncaughtException', e => {
	if (current && !(e instanceof Abort)) current.uncaught.push(e)
})
const nativeRandom = Math.random
async function execute(factory, scenario, P, S) {
	current = P
	let seed = 12345
	Math.random = () => ((seed = (Math.imul(seed, 1103515245) + 12345) & 0x7fffffff) / 0x80000000)
	clock.start()
	let outcome
	try {
		globalThis.S = S
		const H = factory($, S)
		const p = Promise.resolve(H.scenarios[scenario].run(S)).then(
			() => ({ kind: 'done' }),
			e => ({ kind: 'threw', error: e })
		)
		outcome = await settle(p)
	} catch (error) {
		outcome = { kind: 'threw', error }
	}
	await new Promise(r => setImmediate(r))
	await new Promise(r => setImmediate(r))
	Math.random = nativeRandom
	clock.stop()
	current = null
	if (P.aborted) return { kind: 'aborted', abort: P.aborted }
	if (outcome.kind === 'threw' && outcome.error instanceof Abort) return { kind: 'aborted', abort: outcome.error }
	return outcome
}
async function settle(p) {
	let done
	p.then(r => (done = r))
	for (let i = 0; i < 60 && !done; i++) {
		await new Promise(r => setImmediate(r))
		if (i % 4 === 3) clock.next()
	}
	for (let i = 0; i < 40 && !done; i++) await new Promise(r => native.setTimeout(r, 5))
	return done ?? { kind: 'stalled' }
}
const newPath = (prefix, M) => ({
	prefix,
	M,
	n: 0,
	trail: [],
	decided: new Map(),
	choices: new Map(),
	lens: new Map(),
	alts: [],
	obs: [],
	candidates: [],
	failures: [],
	names: new Set(),
	raws: [],
	inputs: [],
	reached: new Set(),
	unhandled: [],
	uncaught: [],
	steps: 0,
	aborted: null,
	tokKeys: false
})

function show(v, M, d = 0) {
	if (T.isTok(v)) return JSON.stringify(T.evalStr(v, M))
	if (T.isNum(v)) return show(v.ev(M), M)
	if (typeof v === 'string') return JSON.stringify(v)
	if (typeof v === 'number') return Object.is(v, -0) ? '-0' : String(v)
	if (typeof v === 'function') return '[function]'
	if (typeof v === 'symbol') return v.toString()
	if (typeof v !== 'object' || v === null) return String(v)
	if (d > 5) return '[deep]'
	if (Array.isArray(v)) return `[${Array.from(v, x => show(x, M, d + 1)).join(', ')}]`
	if (v instanceof Error) return `${v.name}: ${show(v.message, M)}`
	const ks = Reflect.ownKeys(v)
	return `{${ks
		.map(k => `${typeof k === 'symbol' ? k.toString() : show(k, M)}: ${show(v[k], M, d + 1)}`)
		.sort()
		.join(', ')}}`
}
const errText = e => (e instanceof Error ? `${e.name}: ${e.message}` : String(e))

async function replay(scenario, M) {
	const P = newPath([], M)
	const S = concreteS(P, M)
	// the replay is the real code: symbolic operations must not be reached
	const out = await execute(plainFactory, scenario, P, S)
	const failures = [...P.failures]
	if (out.kind === 'threw') failures.push({ label: 'no unexpected exception', info: errText(out.error) })
	if (out.kind === 'stalled') failures.push({ label: 'every operation settles', info: 'a promise never settled' })
	if (out.kind === 'aborted' && out.abort.kind === 'assume') failures.length = 0
	return { out, P, failures }
}

async function explore(job, budget) {
	const stats = (X.stats = {
		paths: 0,
		completed: 0,
		assumed: 0,
		inconclusive: 0,
		validated: 0,
		mismatched: 0,
		spurious: 0,
		decisions: 0,
		decisionQueries: 0,
		assertionQueries: 0,
		assertionsDischarged: 0,
		checksTrivial: 0,
		equalitiesDischarged: 0,
		unknown: 0,
		modelMismatch: 0,
		notes: {},
		reached: {},
		inputs: {},
		solver: null
	})
	const before = { ...solver.stats }
	const violations = []
	const samples = []
	const seen = new Set()
	const stack = [job]
	const t0 = performance.now()
	while (stack.length) {
		if (stats.paths >= budget.paths || performance.now() - t0 > budget.ms) break
		const { prefix, M } = stack.pop()
		const P = newPath(prefix, M)
		X.P = P
		const S = symbolicS(P)
		const out = await execute(symFactory, job.scenario, P, S)
		stats.paths++
		stats.decisions += P.trail.length - prefix.length + 1
		stack.push(...P.alts)
		const M1 = new Map([...P.M, ...P.choices])
		const confirm = async (label, Mv, info) => {
			const k = `${label}`
			if (seen.has(k)) return
			const r = await replay(job.scenario, Mv)
			if (r.failures.length) {
				const fl = r.failures.find(f => f.label === label) ?? r.failures[0]
				for (const f of r.failures) {
					if (seen.has(f.label)) continue
					seen.add(f.label)
					violations.push({
						scenario: job.scenario,
						label: f.label,
						info: f.info === undefined ? undefined : show(f.info, Mv),
						M: encodeM(Mv),
						trace: r.P.obs.map(([l, v]) => `${l}: ${show(v, Mv)}`)
					})
				}
				return fl
			}
			stats.spurious++
			X.note('not reproduced', label)
		}
		let bad = false
		if (out.kind === 'aborted') {
			const k = out.abort.kind
			if (k === 'assume') {
				stats.assumed++
				for (const c of P.candidates) await confirm(c.label, c.M, c.info)
				continue
			}
			if (k !== 'cut') {
				stats.inconclusive++
				X.note('inconclusive', `${k} ${out.abort.detail}`.slice(0, 160))
				// the plain code may well not terminate: the orchestrator ends this worker then
				if (k === 'loop budget') process.send({ type: 'suspect', scenario: job.scenario, M: encodeM(M1) })
				if (process.env.VERIF_DEBUG) process.stderr.write(`${out.abort.stack}\n`)
			}
			bad = true
		} else {
			if (out.kind === 'threw') {
				P.candidates.push({ label: 'no unexpected exception', M: M1, info: errText(out.error) })
				if (process.env.VERIF_DEBUG) process.stderr.write(`${out.error?.stack}\n`)
			}
			if (out.kind === 'stalled') P.candidates.push({ label: 'every operation settles', M: M1, info: '' })
			stats.completed++
			if (out.kind === 'done') dischargeRaws(P)
		}
		for (const l of P.reached) stats.reached[l] = (stats.reached[l] ?? 0) + 1
		for (const [n, d] of P.inputs) stats.inputs[n] = d
		// a check that fails on the whole path is replayed with the path's final model
		for (const c of P.candidates) await confirm(c.label, c.always && !bad ? new Map([...M1, ...c.M].map(([k]) => [k, M1.has(k) ? M1.get(k) : c.M.get(k)])) : c.M, c.info)
		// every path is run once more on the plain code with a model of its path condition
		const r = await replay(job.scenario, M1)
		if (out.kind === 'aborted' && out.abort.kind === 'loop budget') process.send({ type: 'suspect' })
		if (r.failures.length && !P.candidates.length) {
			for (const f of r.failures) if (!seen.has(f.label)) await confirm(f.label, M1, f.info)
		}
		if (!bad) {
			const a = P.obs.map(([l, v]) => `${l}: ${show(v, M1)}`)
			const b = r.P.obs.map(([l, v]) => `${l}: ${show(v, M1)}`)
			if (out.kind === r.out.kind && a.length === b.length && a.every((x, i) => x === b[i])) {
				stats.validated++
				if (samples.length < 2) samples.push({ scenario: job.scenario, inputs: encodeM(M1), trace: b.slice(0, 12) })
			} else if (r.out.kind === 'aborted' && r.out.abort.kind === 'assume') {
				stats.spurious++
			} else {
				stats.mismatched++
				const i = a.findIndex((x, j) => x !== b[j])
				X.note('trace mismatch', `${job.scenario}: ${out.kind}/${r.out.kind} ${i < 0 ? `${a.length}/${b.length}` : `${a[i]} | ${b[i]}`} ${out.error ? errText(out.error) : ''}`.slice(0, 240))
			}
		}
	}
	stats.solver = {
		queries: solver.stats.queries - before.queries,
		sat: solver.stats.sat - before.sat,
		unsat: solver.stats.unsat - before.unsat,
		unknown: solver.stats.unknown - before.unknown,
		errors: solver.stats.errors - before.errors,
		ms: solver.stats.ms - before.ms,
		lastError: solver.lastError
	}
	stats.capped = solver.enc.capped
	return {
		stats,
		violations,
		samples,
		left: stack.map(s => ({ scenario: job.scenario, prefix: s.prefix, M: encodeM(s.M) }))
	}
}

process.on('message', async m => {
	if (m.type === 'job') {
		let res
		try {
			res = await explore({ scenario: m.job.scenario, prefix: m.job.prefix, M: decodeM(m.job.M) }, m.budget)
		} catch (e) {
			res = { error: e.stack }
		}
		process.send({ type: 'result', res })
	} else if (m.type === 'replay') {
		const r = await replay(m.scenario, decodeM(m.M))
		process.send({
			type: 'replayed',
			failures: r.failures.map(f => ({ label: f.label, info: show(f.info, new Map()) })),
			trace: r.P.obs.map(([l, v]) => `${l}: ${show(v, new Map())}`),
			outcome: r.out.kind
		})
	} else if (m.type === 'exit') {
		solver.close()
		process.exit(0)
	}
})
try {
	const scenarios = await listScenarios()
	process.send({ type: 'ready', scenarios })
} catch (e) {
	process.stderr.write(`${e?.stack ?? e}\n`, () => process.exit(3))
}
async function listScenarios() {
	const P = newPath([], new Map())
	X.P = P
	X.stats = { notes: {} }
	const H = plainFactory($, concreteS(P, new Map()))
	return Object.entries(H.scenarios).map(([name, s]) => ({ name, bounds: s.bounds ?? '', thorough: !!s.thorough, quickOff: !!s.thoroughOnly, witness: s.witness ?? [] }))
}
