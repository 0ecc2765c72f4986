// node engine/run.mjs <property> : decides one property on /repo's current working tree
import { fork } from 'node:child_process'
import crypto from 'node:crypto'
import fs from 'node:fs'
import os from 'node:os'
import path from 'node:path'
import { buildHarness, REPO } from './bundle.mjs'

const ROOT = path.join(path.dirname(new URL(import.meta.url).pathname), '..')
const id = process.argv[2]
const tier = process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick'
const seed = Number(process.env.VERIF_SEED ?? 1)
const only = process.env.VERIF_SCENARIO
const t0 = performance.now()
const timeCap = (tier === 'thorough' ? 780 : 300) * 1000
const tmp = fs.mkdtempSync(path.join(os.tmpdir(), 'verif-'))
process.on('exit', () => fs.rmSync(tmp, { recursive: true, force: true }))

const spec = JSON.parse(fs.readFileSync(path.join(ROOT, 'checks.json'), 'utf8'))[id]
if (!spec) {
	console.error(`unknown property ${id}`)
	process.exit(2)
}
const known = JSON.parse(fs.readFileSync(path.join(ROOT, 'known-findings.json'), 'utf8')).findings.filter(k => k.property === id)

const FAILFAST = process.env.VERIF_FAILFAST === '1'
const N = Number(process.env.VERIF_JOBS ?? Math.max(2, Math.min(8, os.cpus().length)))
const harnesses = spec.harnesses
const total = {}
const add = (o, s) => {
	for (const [k, v] of Object.entries(s)) {
		if (typeof v === 'number') o[k] = (o[k] ?? 0) + v
		else if (v && typeof v === 'object') add((o[k] ??= {}), v)
		else if (v !== undefined) o[k] = v
	}
}
let violations = []
const samples = []
const functions = new Set()
let unexplored = 0
const perScenario = {}
let fatal
const bounds = []

// a worker that does not answer is ended: its part of the search counts as unexplored
const JOB_LIMIT = 150_000
const SUSPECT_LIMIT = 12_000
const watch = (w, ms) => {
	clearTimeout(w.timer)
	w.timer = setTimeout(() => w.kill('SIGKILL'), ms)
	w.timer.unref()
}

// each harness gets an equal share of the time left; what one leaves unexplored is resumed at the end
const left = []
for (const [i, h] of harnesses.entries()) {
	let b
	try {
		b = await buildHarness(h)
	} catch (e) {
		fatal = `cannot build harness ${h}: ${e.message}`
		break
	}
	for (const f of b.repoInputs) functions.add(f)
	const sym = path.join(tmp, `${h}.sym.js`)
	const plain = path.join(tmp, `${h}.plain.js`)
	fs.writeFileSync(sym, b.symCode)
	fs.writeFileSync(plain, b.plainCode)
	const now = performance.now() - t0
	const queue = await runHarness(h, { sym, plain }, now + (timeCap - now) / (harnesses.length - i))
	if (queue.length) left.push([h, { sym, plain }, queue])
	if (fatal || (FAILFAST && violations.some(v => !isKnown(v)))) break
}
for (const [i, [h, files, queue]] of left.entries()) {
	const now = performance.now() - t0
	const share = (timeCap - now) / (left.length - i)
	unexplored += (fatal || share < 2000 ? queue : await runHarness(h, files, now + share, queue)).length
}

/** used while developing: stop at the first violation */
async function runHarness(h, files, deadline, resumed) {
	const cfg = { ...files, tier, strMax: spec.strMax, loopBudget: spec.loopBudget, solver: process.env.VERIF_SOLVER, solverArgs: process.env.VERIF_SOLVER_ARGS?.split(' ') }
	const spawnWorker = () =>
		new Promise((res, rej) => {
			const w = fork(path.join(ROOT, 'engine', 'worker.mjs'), [JSON.stringify(cfg)], {
				execArgv: ['--max-old-space-size=3000', '--stack-size=2000', '--unhandled-rejections=none'],
				stdio: ['ignore', 'ignore', process.env.VERIF_DEBUG ? 'inherit' : 'pipe', 'ipc']
			})
			let err = ''
			w.stderr?.on('data', d => (err = (err + d).slice(-2000)))
			w.once('message', m => res([w, m.scenarios]))
			w.once('exit', () => rej(new Error(`worker ended: ${err}`)))
		})
	let first, scenarios
	try {
		;[first, scenarios] = await spawnWorker()
	} catch (e) {
		fatal = `harness ${h}: ${e.message}`
		return resumed ?? []
	}
	const mine = s => !spec.scenarios || spec.scenarios.some(p => s === p || (p.endsWith('*') && s.startsWith(p.slice(0, -1))))
	scenarios = scenarios.filter(s => mine(s.name) && (!only || s.name === only) && !(s.quickOff && tier === 'quick'))
	for (const s of scenarios) perScenario[s.name] ??= { jobs: 0, paths: 0, queries: 0, completed: 0 }
	for (const s of scenarios) if (s.bounds && !resumed) bounds.push(`${s.name}: ${s.bounds}`)
	const queue = resumed ? resumed.slice() : scenarios.map(s => ({ scenario: s.name, prefix: [], M: [] }))
	const later = []
	const stopped = new Set()
	/** the scenario that was given least so far goes first, so that none waits for a large one */
	const next = () => {
		let best = 0
		for (let i = 1; i < queue.length && perScenario[queue[best].scenario].jobs; i++) if (perScenario[queue[i].scenario].jobs < perScenario[queue[best].scenario].jobs) best = i
		const [j] = queue.splice(best, 1)
		perScenario[j.scenario].jobs++
		return j
	}
	let busy = 0
	const workers = []
	await new Promise(async resolve => {
		const idle = []
		let spawning = 0
		const overtime = () => performance.now() - t0 > deadline
		const pump = () => {
			if (overtime()) {
				later.push(...queue)
				queue.length = 0
			}
			while (queue.length && idle.length) {
				const j = next()
				const w = idle.pop()
				busy++
				w.job = j
				watch(w, JOB_LIMIT)
				w.send({ type: 'job', job: j, budget: { paths: 400, ms: queue.length < N ? 400 : 1500 } })
			}
			if (queue.length && workers.length + spawning < N) {
				spawning++
				spawnWorker().then(
					([w]) => {
						spawning--
						attach(w)
						pump()
					},
					e => {
						spawning--
						fatal ??= e.message
						pump()
					}
				)
			}
			if (!queue.length && !busy) resolve()
		}
		const attach = w => {
			workers.push(w)
			idle.push(w)
			w.on('message', m => {
				if (m.type === 'suspect') {
					w.suspect = m.scenario && { harness: h, scenario: m.scenario, label: 'every operation terminates', M: m.M, trace: [] }
					watch(w, w.suspect ? SUSPECT_LIMIT : JOB_LIMIT)
					return
				}
				if (m.type !== 'result') return
				clearTimeout(w.timer)
				busy--
				idle.push(w)
				const r = m.res
				if (r.error) {
					total.workerErrors = (total.workerErrors ?? 0) + 1
					;(total.notes ??= {})[`worker error: ${r.error.split('\n').slice(0, 3).join(' | ')}`] = 1
				} else {
					add(total, r.stats)
					const name = m.scenario ?? w.job?.scenario
					for (const s of r.samples) if (!samples.some(x => x.scenario === s.scenario)) samples.push(s)
					if (name) {
						const ps = perScenario[name]
						ps.paths += r.stats.paths
						ps.queries += r.stats.solver.queries
						ps.completed += r.stats.completed
					}
					for (const v of r.violations) {
						if (!violations.some(x => x.scenario === v.scenario && x.label === v.label)) violations.push({ harness: h, ...v })
						if (!isKnown(v)) stopped.add(v.scenario)
					}
					if (FAILFAST && stopped.size) {
						queue.length = 0
						return resolve()
					}
					for (const l of r.left) if (!stopped.has(l.scenario)) queue.push(l)
					if (stopped.size) for (let i = queue.length - 1; i >= 0; i--) if (stopped.has(queue[i].scenario)) queue.splice(i, 1)
				}
				pump()
			})
			w.on('exit', () => {
				const i = workers.indexOf(w)
				if (i >= 0) workers.splice(i, 1)
				const k = idle.indexOf(w)
				if (k >= 0) idle.splice(k, 1)
				else if (!closing) {
					clearTimeout(w.timer)
					busy--
					if (w.suspect) {
						if (!violations.some(x => x.scenario === w.suspect.scenario && x.label === w.suspect.label)) violations.push(w.suspect)
						stopped.add(w.suspect.scenario)
						for (let i = queue.length - 1; i >= 0; i--) if (stopped.has(queue[i].scenario)) queue.splice(i, 1)
					}
					total.workerErrors = (total.workerErrors ?? 0) + 1
					unexplored++
					pump()
				}
			})
		}
		attach(first)
		pump()
	})
	closing = true
	for (const w of workers) w.send({ type: 'exit' })
	await new Promise(r => setTimeout(r, 20))
	for (const w of workers) w.kill('SIGKILL')
	closing = false
	return later
}
var closing = false

function isKnown(v) {
	return known.some(k => k.status === 'open' && k.scenario === v.scenario && k.label === v.label)
}

const knownHit = violations.filter(isKnown)
const fresh = violations.filter(v => !isKnown(v))
const wall = (performance.now() - t0) / 1000
/** scenarios in which no path satisfies the assumptions decide nothing */
const vacuous = Object.keys(perScenario).filter(k => !perScenario[k].completed && !violations.some(v => v.scenario === k))
const complete = !unexplored && !total.inconclusive && !total.unknown && !total.mismatched && !total.workerErrors && !total.spurious && !total.modelMismatch && !vacuous.length
for (const p of Object.values(perScenario)) delete p.jobs
const incompleteWhy = { unexplored, inconclusive: total.inconclusive, unknown: total.unknown, mismatched: total.mismatched, workerErrors: total.workerErrors, spurious: total.spurious, modelMismatch: total.modelMismatch, ...(vacuous.length && { vacuous }) }
const evidence = {
	property: id,
	tier,
	seed,
	level: 'model_checking',
	coverage: {
		states: total.decisions ?? 0,
		transitions: total.completed ?? 0,
		traces_validated_against_impl: total.validated ?? 0,
		samples: samples.slice(0, 6),
		exhaustive: !!complete,
		explanation:
			'Path-wise symbolic execution of the real source. states = symbolic branch decisions explored, transitions = complete symbolic paths, traces_validated_against_impl = paths whose model was re-run on the uninstrumented source with identical observations.',
		paths: total.paths ?? 0,
		paths_excluded_by_assumptions: total.assumed ?? 0,
		assertion_queries: total.assertionQueries ?? 0,
		assertions_discharged_unsat: total.assertionsDischarged ?? 0,
		assertions_valid_by_construction: total.checksTrivial ?? 0,
		symbolic_equalities_behind_them_discharged_unsat: total.equalitiesDischarged ?? 0,
		branch_queries: total.decisionQueries ?? 0,
		solver: total.solver,
		bounds: [...bounds, ...(spec.bounds ?? [])],
		inputs: total.inputs ?? {},
		assertions_reached: total.reached ?? {},
		encoded_sources: [...functions].sort(),
		incomplete: complete ? {} : incompleteWhy,
		notes: total.notes ?? {},
		per_scenario: perScenario
	},
	assumptions: spec.assumptions ?? [],
	wall_s: Math.round(wall * 100) / 100,
	violations: fresh.length
}
fs.mkdirSync(path.join(ROOT, 'evidence'), { recursive: true })
fs.writeFileSync(path.join(ROOT, 'evidence', `${id}.json`), JSON.stringify(evidence, null, '\t'))

if (fatal && !fresh.length) {
	console.log(`ERROR ${id}: ${fatal}`)
	process.exit(2)
}
for (const k of known.filter(k => k.status === 'open')) {
	if (knownHit.some(v => v.scenario === k.scenario && v.label === k.label)) console.log(`KNOWN-FINDING: property=${id} ${k.what}`)
}
console.log(
	`${id} ${tier}: ${total.paths ?? 0} paths, ${total.solver?.queries ?? 0} queries (${Math.round((total.solver?.ms ?? 0) / 100) / 10}s solver), ${total.assertionsDischarged ?? 0}+${total.equalitiesDischarged ?? 0}+${total.checksTrivial ?? 0} assertions, ${total.validated ?? 0} traces validated, ${wall.toFixed(1)}s${complete ? '' : ` INCOMPLETE ${JSON.stringify(incompleteWhy)}`}`
)
if (process.env.VERIF_VERBOSE) console.log(JSON.stringify({ notes: total.notes, perScenario }, null, 1))
if (fresh.length) {
	for (const v of fresh) {
		const dir = path.join(ROOT, 'replays')
		fs.mkdirSync(dir, { recursive: true })
		const file = path.join(dir, `${id}-${crypto.createHash('sha1').update(v.scenario + v.label).digest('hex').slice(0, 8)}.json`)
		fs.writeFileSync(file, JSON.stringify({ property: id, tier, ...v }, null, '\t'))
		console.log(`VIOLATION property=${id} replay=${file}`)
		console.log(`  ${v.harness}/${v.scenario}: ${v.label} ${v.info ?? ''}`)
		console.log(`  inputs ${JSON.stringify(v.M)}`)
	}
	process.exit(1)
}
process.exit(0)
