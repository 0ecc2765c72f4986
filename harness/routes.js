import { routesGizmo } from '@just-web/routes'
import { app } from './lib/app.js'

const errors = es => es.filter(e => e.level === 'error')
const mentions = (e, s) => e.args.some(a => typeof a === 'string' && a.includes(s))

export const scenarios = {
	'C13.table': {
		bounds: '3 (thorough: 4) of {register a handler of its own or one and the same handler, unregister any earlier registration, clear, configure the initial path} over 2 symbolic paths (<=11 units, may coincide, may be names like constructor); then a navigation to one of them, to a further symbolic path, or to none',
		async run(S) {
			const { app: a, entries } = await app([routesGizmo])
			const paths = [S.str('p0'), S.str('p1')]
			const log = []
			const regs = []
			let table = []
			let dups = 0
			let initial = '/'
			const shared = S.choose('shared', 2)
			const same = (...args) => void log.push([0, args.length])
			const steps = S.thorough ? 4 : 3
			for (let i = 0; i < steps; i++) {
				const op = S.choose(`op${i}`, 4 + regs.length)
				if (op < 2) {
					const p = paths[op]
					const n = shared ? 0 : i
					const dispose = a.routes.register(p, shared ? same : (...args) => void log.push([n, args.length]))
					S.check('registering returns a function to unregister', typeof dispose === 'function')
					const r = { p, n, dispose }
					if (table.some(t => t.p === p)) dups++
					else table.push(r)
					regs.push(r)
				} else if (op === 2) {
					a.routes.clearRoutes()
					table = []
				} else if (op === 3) {
					initial = paths[S.choose(`initial${i}`, 2)]
					a.routes.config({ initialRoute: initial })
				} else {
					const r = regs[op - 4]
					r.dispose()
					table = table.filter(t => t !== r)
				}
				S.eq('a path already registered is refused and reported, nothing else is', errors(entries).length, dups)
			}
			S.check('registering runs no route', log.length === 0)
			const query = S.choose('query', 3)
			const q = query === 0 ? paths[0] : query === 1 ? S.str('q') : initial
			const hit = table.find(t => t.p === q)
			S.eq('registered paths are known, others are not', a.routes.hasRoute(q), !!hit)
			const mark = errors(entries).length
			if (query === 2) a.routes.navigate()
			else a.routes.navigate(q)
			if (hit) {
				S.check('navigating runs the route registered for the path, once', log.length === 1 && log[0][0] === hit.n)
				S.check('without an error', errors(entries).length === mark)
			} else {
				S.check('navigating elsewhere runs nothing', log.length === 0)
				S.check('and is reported as an error once', errors(entries).length === mark + 1)
				S.check('naming the path', mentions(errors(entries)[mark], q))
			}
			S.observe('log', log.map(l => l[0]))
		}
	},
	'C13.again': {
		bounds: 'a symbolic path is registered, freed by its unregister function or by clearing, registered again (also with the same handler) and the old unregister function is called 0..2 times; a second registration under a further symbolic path',
		async run(S) {
			const { app: a, entries } = await app([routesGizmo])
			const p = S.str('p')
			const q = S.str('q')
			const log = []
			const h = () => void log.push(1)
			const off = a.routes.register(p, h)
			const how = S.choose('how', 3)
			if (how === 0) off()
			else if (how === 1) a.routes.clearRoutes()
			const same = S.choose('same', 2)
			const off2 = a.routes.register(p, same ? h : () => void log.push(2))
			const third = S.choose('third', 2) ? a.routes.register(q, h) : undefined
			const dups = (how === 2 ? 1 : 0) + (third && q === p ? 1 : 0)
			S.eq('a path is refused exactly while it is taken', errors(entries).length, dups)
			const times = S.choose('times', 3)
			for (let i = 0; i < times; i++) off()
			const gone = how === 2 && times > 0
			S.eq('unregistering frees what was registered, not what came later', a.routes.hasRoute(p), !gone)
			if (!gone) {
				a.routes.navigate(p)
				S.check('which runs', log.join() === (how === 2 || same ? '1' : '2'))
			}
			if (third && q !== p) S.check('other paths stay', a.routes.hasRoute(q))
			off2()
			S.eq('a refused registration has nothing to unregister', a.routes.hasRoute(p), how === 2 && times === 0)
			if (third && q !== p) S.check('other paths stay', a.routes.hasRoute(q))
		}
	},
	'C13.initial': {
		bounds: 'symbolic initial path configured 0..2 times, before or after registering; navigation without a path, with undefined, or with the empty path',
		async run(S) {
			const { app: a, entries } = await app([routesGizmo])
			const log = []
			const p = S.str('p')
			const conf = S.choose('configured', 3)
			const order = S.choose('order', 2)
			const other = S.str('other')
			if (order) a.routes.register(p, () => log.push('p'))
			if (conf > 1) a.routes.config({ initialRoute: other })
			if (conf > 0) a.routes.config({ initialRoute: p })
			if (!order) a.routes.register(p, () => log.push('p'))
			a.routes.register('/' + S.str('rest', { max: 4 }), () => log.push('slash'))
			const slashKnown = a.routes.hasRoute('/')
			const mark = errors(entries).length
			const how = S.choose('how', 3)
			if (how === 0) a.routes.navigate()
			else if (how === 1) a.routes.navigate(undefined)
			else a.routes.navigate('')
			if (how === 2) S.check('the empty path is a path of its own', log.length === (p === '' ? 1 : 0))
			else if (conf > 0) S.check('navigating nowhere goes to the initial path configured last', log.length === 1 && log[0] === 'p')
			else S.check('the initial path is / by default', log.length === (slashKnown ? 1 : 0) && (!slashKnown || log[0] === (p === '/' ? 'p' : 'slash')))
			S.check('an error is reported exactly when nothing ran', errors(entries).length - mark === (log.length ? 0 : 1))
		}
	},
	'C13.failures': {
		bounds: 'a route that throws; a route that registers, unregisters, clears, navigates or configures while running',
		async run(S) {
			const { app: a } = await app([routesGizmo])
			const p = S.str('p')
			const q = S.str('q')
			S.assumeNe(p, q)
			const log = []
			const boom = new Error('boom')
			const what = S.choose('what', 6)
			let dispose
			dispose = a.routes.register(p, () => {
				log.push('p')
				if (what === 0) throw boom
				if (what === 1) dispose()
				if (what === 2) a.routes.register(q, () => log.push('q2'))
				if (what === 3) a.routes.navigate(q)
				if (what === 4) a.routes.config({ initialRoute: q })
				if (what === 5) a.routes.clearRoutes()
			})
			if (what !== 2) a.routes.register(q, () => log.push('q'))
			let caught
			try {
				a.routes.navigate(p)
			} catch (e) {
				caught = e
			}
			S.check('a failure of the route reaches the navigating code, and only that', caught === (what === 0 ? boom : undefined))
			S.check('the route ran once', log.filter(l => l === 'p').length === 1)
			if (what === 0) {
				caught = undefined
				try {
					a.routes.navigate(p)
				} catch (e) {
					caught = e
				}
				S.check('going there again runs it again', caught === boom && log.filter(l => l === 'p').length === 2)
			}
			S.eq('changes made by the route take effect', a.routes.hasRoute(p), what !== 1 && what !== 5)
			S.eq('also for others', a.routes.hasRoute(q), what !== 5)
			if (what === 4) S.eq('nothing more runs', log.length, 1)
			if (what === 5) return
			a.routes.navigate(q)
			S.eq('other routes keep working', log.filter(l => l !== 'p').length, what === 3 ? 2 : 1)
		}
	},
	'C13.nested': {
		bounds: 'routes at two symbolic paths that navigate to the other, to themselves or nowhere, to a depth of 1..2, once or twice, directly or by the initial path; failing at the end or not',
		async run(S) {
			const { app: a, entries } = await app([routesGizmo])
			const ps = [S.str('p'), S.str('q')]
			S.assumeNe(ps[0], ps[1])
			const log = []
			const boom = new Error('boom')
			const depth = 1 + S.choose('depth', 2)
			const fails = S.choose('fails', 2)
			const trail = [0]
			let round
			for (const [i, p] of ps.entries())
				a.routes.register(p, () => {
					log.push(i)
					if (log.length <= depth) {
						const to = S.choose(`to${round}.${log.length}`, 2)
						trail.push(to)
						if (S.choose(`how${round}.${log.length}`, 2)) a.routes.navigate(ps[to])
						else {
							a.routes.config({ initialRoute: ps[to] })
							a.routes.navigate()
						}
					} else if (fails) throw boom
				})
			for (round of [1, 2]) {
				if (round === 2 && S.choose('once', 2)) break
				log.length = 0
				trail.length = 1
				let caught
				try {
					a.routes.navigate(ps[0])
				} catch (e) {
					caught = e
				}
				S.eq('every navigation runs its route', log.join(), trail.join())
				S.check('a failure reaches the navigating code', caught === (fails ? boom : undefined))
			}
			S.eq('nothing is reported as missing', errors(entries).length, 0)
		}
	},
	'C13.apps': {
		bounds: 'two applications registering the same symbolic path',
		async run(S) {
			const A = (await app([routesGizmo])).app
			const B = (await app([routesGizmo])).app
			const p = S.str('p')
			const log = []
			const da = A.routes.register(p, () => log.push('a'))
			S.check('routes of one application are unknown to another', !B.routes.hasRoute(p))
			B.routes.register(p, () => log.push('b'))
			const op = S.choose('op', 4)
			if (op === 0) A.routes.clearRoutes()
			if (op === 1) da()
			if (op === 2) A.routes.config({ initialRoute: p })
			A.routes.navigate(p)
			B.routes.navigate(p)
			S.check('each application runs its own routes', log.join() === (op < 2 ? 'b' : 'a,b'))
		}
	}
}
