import { createPrefixedGetLogger, createPrefixedGetNonConsoleLogger, define, incubate, justApp, logLevels } from '@just-web/app'
import { justTestApp } from '@just-web/app/testing'
import { idGizmoFn } from '@just-web/id'
import { idTestGizmoFn } from '@just-web/id/testing'

const LEVELS = ['emergency', 'alert', 'critical', 'error', 'warn', 'notice', 'info', 'debug', 'trace', 'planck']
const reporter = (id, isConsoleReporter = false) => {
	const entries = []
	return { id, isConsoleReporter, filter: undefined, formatter: undefined, entries, write: e => void entries.push(e) }
}
/** loggers replace some characters in their ids */
const clean = id => id.replace(/[`~!#$%^&*()=+[\]{},|<>?]/g, '-')
const text = (S, n, o = { max: 6 }) => S.str(n, o)
const ALNUM = [[0x30, 0x39], [0x61, 0x7a]]
/** random numbers as the solver likes them: any digits, of any number; used as a number each is one of a fixed pseudo-random sequence */
let seed = 1
function randomDigits(S, prefix, symbolic, digits = ALNUM, rest = 'abcdefghijklmno') {
	const drawn = []
	drawn.asNumber = 0
	Math.random = () => {
		const i = drawn.length
		let d
		if (i < symbolic) {
			d = S.str(`${prefix}.${i}`, { max: 13 })
			S.assumeChars(d, digits)
		} else d = rest
		drawn.push(d)
		const text = `0.${d}`
		seed = (seed * 48271) % 2147483647
		const value = seed / 2147483647
		return { toString: radix => (radix === 36 ? (d === '' ? '0' : text) : (drawn.asNumber++, value.toString(radix))), valueOf: () => (drawn.asNumber++, value) }
	}
	return drawn
}

export const scenarios = {
	// ------------------------------------------------------------------ C22: identity
	'C22.id': {
		bounds: 'symbolic name; the random numbers have symbolic base-36 digits, of any number from none to 13, for the first draw (thorough, and for an application: two), then 15; by the id gizmo, its test variant, the application and the test application',
		async run(S) {
			const name = text(S, 'name')
			const how = S.choose('how', 6)
			randomDigits(S, 'r', how === 2 || S.thorough ? 2 : 1)
			const options = { log: { reporters: [reporter('r')] } }
			const a =
				how === 0
					? await incubate().with(idGizmoFn({ name })).create()
					: how === 1
						? await incubate().with(idTestGizmoFn({ name })).create()
						: how === 2
							? await justApp({ name, ...options }).create()
							: how === 3
								? await justTestApp({ name, ...options }).create()
								: how === 4
									? await justTestApp(options).create()
									: await incubate().with(idTestGizmoFn()).create()
			S.eq('the name is the one given, test by default for test variants', a.name, how < 4 ? name : 'test')
			S.check('the id has 15 characters', a.id.length === 15)
			S.inChars('all of them letters or digits', a.id, ALNUM)
		}
	},
	'C22.few': {
		bounds: 'every random number has 1, 2, 3 or 8 digits, symbolic letters, after 0, 1 or 20 ones without any',
		async run(S) {
			const n = [1, 2, 3, 8][S.choose('digits', 4)]
			const none = [0, 1, 20][S.choose('none', 3)]
			let drawn = 0
			let asNumber = false
			Math.random = () => {
				const i = drawn++ - none
				const d = i < 0 ? '' : S.str(`r${i}`, { max: n })
				if (i >= 0) {
					S.assumeMinLen(d, n)
					S.assumeChars(d, [[0x61, 0x7a]])
				}
				return { toString: radix => (radix === 36 ? (d === '' ? '0' : `0.${d}`) : ((asNumber = true), '0.5')), valueOf: () => ((asNumber = true), (drawn % 97) / 97) }
			}
			const how = S.choose('how', 2)
			const a = await (how ? justApp({ name: 'a', log: { reporters: [reporter('r')] } }) : incubate().with(idGizmoFn({ name: 'a' }))).create()
			S.check('the id has 15 characters', a.id.length === 15)
			S.inChars('all of them letters or digits', a.id, ALNUM)
			if (!asNumber) S.inChars('and made from the random numbers', a.id, [[0x61, 0x7a]])
		}
	},
	'C22.fresh': {
		bounds: 'two applications, from options or an incubator of their own or the same, the random numbers of either with symbolic digits (digits below ten for one, letters for the other; 1 to 13 of them at first, then 15)',
		async run(S) {
			const how = S.choose('how', 3)
			// options and incubators may be used again
			const options = { name: 'a', ...(how && { log: { reporters: [reporter('r')] } }) }
			const again = S.choose('again', 3)
			const made = () => (how === 0 ? incubate().with(idGizmoFn(again ? options : { name: 'a' })) : how === 1 ? justApp(again ? options : { ...options }) : again ? justTestApp(options) : justTestApp())
			const one = made()
			const mk = () => (again === 2 ? one : made()).create()
			const d0 = randomDigits(S, 'p', 1, [[0x30, 0x39]], '012345678901234')
			const A = await mk()
			const d1 = randomDigits(S, 'q', 1, [[0x61, 0x7a]])
			const B = await mk()
			S.check('ids are drawn for every application', d0.length > 0 && d1.length > 0)
			S.assumeMinLen(d0[0], 1)
			S.assumeMinLen(d1[0], 1)
			S.check('other random numbers give other ids', A.id !== B.id)
			if (!d0.asNumber) S.inChars('every character of an id is drawn', A.id, [[0x30, 0x39]])
			if (!d1.asNumber) S.inChars('for each application', B.id, [[0x61, 0x7a]])
			if (again) S.check('the options given are as they were', Object.keys(options).join() === (how ? 'name,log' : 'name') && options.name === 'a')
		}
	},
	// ------------------------------------------------------------------ C23: logging
	'C23.loggers': {
		bounds: 'symbolic application name, prefix and logger id; every way of getting a logger; every level; a symbolic message; log level error, info or planck; a console and another reporter, either or both',
		async run(S) {
			const name = text(S, 'name')
			const id = text(S, 'id')
			const con = S.choose('console', 2)
			const mem = S.choose('memory', 2)
			const rc = reporter('console', true)
			const rm = reporter('memory')
			const reporters = [...(con ? [rc] : []), ...(mem ? [rm] : [])]
			const logLevel = [logLevels.error, logLevels.info, logLevels.planck][S.choose('logLevel', 3)]
			const test = S.choose('test', 2)
			const own = test && !mem
			const a = await (test ? justTestApp({ name, log: { reporters, logLevel } }) : justApp({ name, log: { reporters, logLevel } })).create()
			rc.entries.length = rm.entries.length = 0
			const how = S.choose('how', 7)
			let logger
			let expected
			let nonConsole = false
			if (how === 0) [logger, expected] = [a.log, name]
			else if (how === 1) [logger, expected] = [a.log.getLogger(), name]
			else if (how === 2) [logger, expected] = [a.log.getLogger(id), id === '' ? name : `${name}:${id}`]
			else if (how === 3) {
				S.assume(id !== '')
				nonConsole = true
				;[logger, expected] = [a.log.getNonConsoleLogger(id), `${name}:${id}`]
			} else {
				const prefix = text(S, 'prefix')
				S.assume(prefix !== '')
				nonConsole = how === 5
				const get = (nonConsole ? createPrefixedGetNonConsoleLogger : createPrefixedGetLogger)(a, prefix)
				logger = get(id)
				expected = id === '' ? `${name}:${prefix}` : `${name}:${prefix}:${id}`
				if (how === 6) S.check('the same id gives the same logger', get(id) === logger)
			}
			const level = LEVELS[S.choose('level', LEVELS.length)]
			const msg = S.str('msg')
			logger[level](msg, 1)
			const heard = logLevels[level] <= logLevel ? 1 : 0
			S.eq('a message of an enabled level reaches every reporter once', rm.entries.length, mem ? heard : 0)
			S.eq('non-console loggers leave consoles alone', rc.entries.length, con && !nonConsole ? heard : 0)
			if (own && a.log.reporter) S.eq('also the one of the test application', a.log.reporter.logs.filter(e => e.args[0] === msg && e.args[1] === 1).length, heard)
			for (const e of [...rm.entries, ...rc.entries]) {
				S.eq('under the id of its logger, which starts with the name of the application', e.id, clean(expected))
				S.eq('at its level', e.level, logLevels[level])
				S.check('as given', e.args.length === 2 && e.args[0] === msg && e.args[1] === 1)
			}
		}
	},
	'C23.options': {
		bounds: 'a logger obtained with its own level; a logger restricted to one reporter; a custom level; counting and conditional logging on the application itself',
		async run(S) {
			const rm = reporter('memory')
			const rs = reporter('second')
			const test = S.choose('test', 2)
			const a = await (test ? justTestApp : justApp)({ name: 'demo', log: { reporters: [rm, rs], logLevel: logLevels.info, customLevels: { special: 550 } } }).create()
			rm.entries.length = rs.entries.length = 0
			const what = S.choose('what', 6)
			const msg = S.str('msg')
			const id = text(S, 'id')
			S.assume(id !== '')
			if (what === 0) {
				const l = [a.log.getLogger, createPrefixedGetLogger(a, 'p'), a.log.getNonConsoleLogger, createPrefixedGetNonConsoleLogger(a, 'p')][S.choose('get', 4)].call(a.log, id, { level: logLevels.planck })
				l.planck(msg)
				S.check('the level given for a logger decides', rm.entries.length === 1 && rm.entries[0].args[0] === msg)
				for (const o of [a.log, a.log.getLogger(), a.log.getLogger('another')]) o.planck(msg)
				S.eq('for that logger only', rm.entries.length, 1)
			}
			if (what === 1) {
				const l = [a.log.getLogger(id, { writeTo: 'second' }), createPrefixedGetLogger(a, 'p')(id, { writeTo: 'second' })][S.choose('get', 2)]
				l.info(msg)
				S.check('a logger writes to the reporter asked for', rm.entries.length === 0 && rs.entries.length === 1)
				for (const o of [a.log, a.log.getLogger(), a.log.getLogger('another')]) o.info(msg)
				S.check('others still write to all', rm.entries.length === 3 && rs.entries.length === 4)
			}
			if (what === 2) {
				const l = [a.log, a.log.getLogger(id)][S.choose('get', 2)]
				l.special(msg)
				S.check('custom levels are available everywhere', rm.entries.length === 1 && rm.entries[0].level === 550 && rm.entries[0].args[0] === msg)
				S.eq('and known by name', a.log.toLogLevelName(550), 'special')
				S.eq('and back', a.log.toLogLevel('special'), 550)
			}
			if (what === 3) {
				let ran = 0
				a.log.on('debug', () => void ran++)
				a.log.on('info', log => {
					ran += 10
					log(msg)
				})
				S.eq('conditional logging runs for enabled levels only', ran, 10)
				S.check('and logs for the application', rm.entries.length === 1 && rm.entries[0].id === 'demo' && rm.entries[0].args[0] === msg)
			}
			if (what === 4) {
				a.log.count(msg)
				S.eq('counting is a debug message', rm.entries.length, 0)
			}
			if (what === 5) {
				S.eq('the log level is known', a.log.logLevel, logLevels.info)
				const f = a.log.warn
				f(msg)
				S.check('the methods work on their own', rm.entries.length === 1 && rm.entries[0].args[0] === msg && rm.entries[0].id === 'demo')
			}
		}
	},
	'C23.apps': {
		bounds: 'two applications with symbolic names (the same, or any two) and reporters of their own; either logs by any logger, the other one having the like',
		async run(S) {
			const names = [text(S, 'n0'), text(S, 'n1')]
			if (S.choose('same', 2)) names[1] = names[0]
			const rs = [reporter('r0'), reporter('r1')]
			const test = S.choose('test', 2)
			const as = []
			for (const i of [0, 1]) as.push(await (test ? justTestApp : justApp)({ name: names[i], log: { reporters: [rs[i]] } }).create())
			for (const r of rs) r.entries.length = 0
			const id = text(S, 'id')
			const which = S.choose('which', 2)
			const how = S.choose('how', 3)
			const ls = as.map(a => [a.log, a.log.getLogger(id), createPrefixedGetLogger(a, 'p')(id)][how])
			ls[which].error(S.str('msg'))
			S.eq('the log of an application gets its messages', rs[which].entries.length, 1)
			S.eq('and not those of another', rs[1 - which].entries.length, 0)
		}
	},
	// ------------------------------------------------------------------ C24: creation
	'C24.create': {
		bounds: 'application or test application of 0..3 parts, each giving an object, an object with a start function, a start function only, or merged directly; an initializer or not; a start function or not; symbolic name and values; the application\'s own log kept, replaced, removed or replaced by something else',
		async run(S) {
			const name = text(S, 'name')
			const rm = reporter('memory')
			const test = S.choose('test', 2)
			let b = (test ? justTestApp : justApp)({ name, log: { reporters: [rm] } })
			const order = []
			const n = S.choose('parts', S.thorough ? 4 : 3)
			const parts = []
			for (let i = 0; i < n; i++) {
				const kind = S.choose(`kind${i}`, 4)
				const v = { value: S.str(`v${i}`) }
				parts.push([kind, v])
				if (kind === 3) {
					b = b.merge({ [`part${i}`]: v })
					continue
				}
				b = b.with(
					define({
						create: async ctx => {
							order.push(`create${i}`)
							S.check('each part sees the application', ctx.name === name && typeof ctx.id === 'string' && typeof ctx.log.info === 'function')
							for (let j = 0; j < i; j++) S.check('and the parts before it', parts[j][0] === 2 || ctx[`part${j}`] === parts[j][1])
							const start = () => void order.push(`start${i}`)
							return kind === 0 ? { [`part${i}`]: v } : kind === 1 ? [{ [`part${i}`]: v }, start] : [undefined, start]
						}
					})
				)
			}
			const other = []
			const log = S.choose('log', 4)
			if (log === 1) b = b.merge({ log: { info: (...args) => void other.push(args) } })
			if (log === 2) b = b.merge({ log: undefined })
			if (log === 3) b = b.merge({ log: { write() {} } })
			let whole = []
			if (S.choose('init', 2))
				b = b.init(app => {
					order.push('init')
					whole.push(app)
				})
			const start = S.choose('start', 2)
			rm.entries.length = 0
			const a = start
				? await b.create(async app => {
						order.push('start')
						whole.push(app)
					})
				: await b.create()
			const expected = []
			for (let i = 0; i < n; i++) {
				if (parts[i][0] < 3) expected.push(`create${i}`)
				if (parts[i][0] === 1 || parts[i][0] === 2) expected.push(`start${i}`)
			}
			if (whole.length) expected.push(...(start && whole.length === 2 ? ['init', 'start'] : start ? ['start'] : ['init']))
			S.check('parts are created and started once each, in order, then the initializer, then the start function', order.join() === expected.join(), order.join())
			for (const w of whole) S.check('those get the whole application', w === a)
			for (let i = 0; i < n; i++) S.check('the application has every part', parts[i][0] === 2 ? !(`part${i}` in a) : a[`part${i}`] === parts[i][1])
			const told = log === 1 ? other : rm.entries.map(e => e.args)
			const quiet = log === 1 ? rm.entries : other
			S.eq('creation is reported once', told.length, 1)
			S.check('with the id', told.length === 1 && typeof told[0][0] === 'string' && told[0][0].includes(a.id))
			S.eq('and nowhere else', quiet.length, 0)
			if (log !== 1 && rm.entries.length) S.eq('under the name of the application', rm.entries[0].id, clean(name))
		}
	},
	'C24.again': {
		bounds: 'the same incubator creating an application twice or three times, one after the other or at the same time, with a start function or not each time, with the log made for it or one of its own; symbolic name and values',
		async run(S) {
			const name = text(S, 'name')
			const rm = reporter('memory')
			const test = S.choose('test', 2)
			let created = 0
			const v = S.str('v')
			const own = S.choose('own', 2)
			const told = []
			const b = (test ? justTestApp : justApp)({ name, log: { reporters: [rm] } }).with(
				define({
					create: async () => {
						const mine = []
						const part = { n: ++created, v, mine }
						return own ? { part, log: { info: (...args) => void (mine.push(args), told.push(args)) } } : { part }
					}
				})
			)
			rm.entries.length = 0
			const n = 2 + S.choose('n', 2)
			const starts = []
			const started = []
			const together = S.choose('together', 2)
			const ps = []
			for (let i = 0; i < n; i++) {
				starts.push(S.choose(`start${i}`, 2))
				ps.push(starts[i] ? b.create(a => void started.push([i, a])) : b.create())
				if (!together) await ps[i]
			}
			const as = await Promise.all(ps)
			S.eq('the parts are created for every application', created, n)
			for (const [i, a] of as.entries()) {
				for (let j = 0; j < i; j++) S.check('every creation gives another application', a !== as[j] && a.part !== as[j].part)
				S.check('with all its parts', S.is(a.part.v, v) && S.is(a.name, name))
				S.check('and starts that one', !starts[i] || started.filter(([k, w]) => k === i && w === a).length === 1)
			}
			S.eq('only those asked are started', started.length, starts.reduce((x, y) => x + y, 0))
			const reports = own ? told : rm.entries.map(e => e.args)
			S.eq('each creation is reported', reports.length, n)
			S.check('with the id', reports.every(args => args.some(t => typeof t === 'string' && as.some(a => t.includes(a.id)))))
			if (own) for (const a of as) S.check('to the log of that application', a.part.mine.length === 1 && a.part.mine[0].some(t => typeof t === 'string' && t.includes(a.id)))
		}
	},
	'C24.waiting': {
		bounds: 'two parts and a start function, each asynchronous step of them (creating, the start function) taking 0, 1 or 3 turns, or ten minutes; application or test application',
		async run(S) {
			const rm = reporter('memory')
			const order = []
			const step = async name => {
				order.push(`${name}(`)
				const turns = S.choose(`turns.${name}`, 4)
				for (let i = [0, 1, 3, 0][turns]; i > 0; i--) await undefined
				if (turns === 3) await S.elapse(600000)
				order.push(')')
			}
			const part = i => define({ create: async ctx => {
				await step(`create${i}`)
				return [{ [`part${i}`]: ctx.id }, () => void order.push(`start${i}`)]
			} })
			const b = (S.choose('test', 2) ? justTestApp : justApp)({ name: 'a', log: { reporters: [rm] } }).with(part(0)).with(part(1))
			rm.entries.length = 0
			let reported
			const a = await b.create(async app => {
				await step('start')
				reported = rm.entries.length
				S.check('the start function has the whole application', app.part0 === app.id && app.part1 === app.id)
			})
			S.eq('each step begins when the one before has ended', order.join(''), 'create0()start0create1()start1start()')
			S.check('the application is ready, and reported, when all have', reported === 0 && rm.entries.length === 1 && a.part1 === a.id)
		}
	},
	'C24.failures': {
		bounds: 'a part, the initializer or the start function that throws or rejects',
		async run(S) {
			const rm = reporter('memory')
			const where = S.choose('where', 5)
			const boom = new Error('boom')
			const ran = []
			const fail = () => {
				throw boom
			}
			const test = S.choose('test', 2)
			let b = (test ? justTestApp : justApp)({ name: text(S, 'name'), log: { reporters: [rm] } })
				.with(
					define({
						create: async () => {
							ran.push('part0')
							if (where === 0) fail()
							return [{ a: 1 }, () => void (where === 1 && fail())]
						}
					})
				)
				.with(define({ create: async () => (ran.push('part1'), { b: 2 }) }))
				.init(() => {
					ran.push('init')
					if (where === 2) fail()
				})
			rm.entries.length = 0
			let caught
			try {
				await b.create(async () => {
					ran.push('start')
					if (where === 3) fail()
				})
			} catch (e) {
				caught = e
			}
			S.check('a failure reaches whoever creates the application', caught === (where < 4 ? boom : undefined))
			S.eq('nothing runs after it', ran.join(), [['part0'], ['part0'], ['part0', 'part1', 'init'], ['part0', 'part1', 'init', 'start'], ['part0', 'part1', 'init', 'start']][where].join())
			S.eq('creation is only reported when it succeeded', rm.entries.length, where < 4 ? 0 : 1)
		}
	}
}
