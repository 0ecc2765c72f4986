import { incubate, justApp } from '@just-web/app'
import { justTestApp } from '@just-web/app/testing'
import { browserGizmoFn } from '@just-web/browser'
import { commandsGizmoFn } from '@just-web/commands'
import { eventsGizmoFn, justEvent } from '@just-web/events'
import { historyGizmoFn } from '@just-web/history'
import { createMemoryHistory } from '@just-web/history/testing'
import { keyboardGizmoFn } from '@just-web/keyboard'
import { isMac, osGizmo } from '@just-web/os'
import { osTestGizmoFn } from '@just-web/os/testing'
import { presetsBrowserGizmoFn } from '@just-web/presets-browser'
import { presetsBrowserTestGizmoFn } from '@just-web/presets-browser/testing'
import { createRegistry, createState, createStore, statesGizmo } from '@just-web/states'
import { app as mkApp } from './lib/app.js'
import { memStorage } from './lib/storage.js'
import { recordingLog, snapshot, value } from './lib/values.js'

/** a well-behaved emitter of someone else's; with `target`, in the manner of the browser's event targets */
function otherEmitter(target) {
	const ls = []
	const add = (type, fn) => void ls.push([type, fn])
	const emit = (type, ...args) => {
		for (const [t, fn] of ls.slice()) if (t === type) fn(...args)
		return true
	}
	const removeListener = (type, fn) => {
		const i = ls.findIndex(l => l[0] === type && l[1] === fn)
		if (i >= 0) ls.splice(i, 1)
	}
	return target ? { addEventListener: add, removeEventListener: removeListener, dispatchEvent: e => emit(e.type, e) } : { addListener: add, on: add, emit, removeListener, listenerCount: t => ls.filter(l => l[0] === t).length }
}
const page = S => {
	const w = { pushed: [], state: null }
	globalThis.history.pushState = globalThis.history.replaceState = (state, _, url) => {
		w.state = state
		if (url !== undefined) {
			w.pushed.push(url)
			globalThis.location.pathname = url
		}
	}
	Object.defineProperty(globalThis.history, 'state', { get: () => w.state, configurable: true })
	globalThis.location.pathname = '/'
	globalThis.location.search = globalThis.location.hash = ''
	return w
}

export const scenarios = {
	// ------------------------------------------------------------------ C26: events
	'C26.events': {
		bounds: 'the default emitter or a given one; up to 2 (thorough: 3) listeners for symbolic event names; 2 events with symbolic names and up to 4 symbolic arguments; a listener removed in between; the last listener throws any value',
		async run(S) {
			const given = S.choose('given', 2) ? otherEmitter() : undefined
			const r = await mkApp([eventsGizmoFn(given && { emitter: given })])
			const em = r.app.events.emitter
			const names = ['n0', 'n1', 'n2'].map(n => S.str(n, { max: 3 }))
			const calls = []
			const n = S.choose('listeners', S.thorough ? 4 : 3)
			const on = []
			const throwing = n > 0 ? S.choose('throws', 2) : 0
			const boom = throwing ? value(S, 'boom', ['string', 'object']) : undefined
			const fns = []
			for (let i = 0; i < n; i++) {
				const name = names[S.choose(`name${i}`, 2)]
				const fn = (...args) => {
					calls.push([i, args])
					if (throwing && i === n - 1) throw boom
				}
				fns.push(fn)
				on.push(name)
				em.addListener(name, fn)
			}
			const steps = 2
			for (let k = 0; k < steps; k++) {
				if (k === 1 && n > 0 && S.choose('remove', 2)) {
					em.removeListener(on[0], fns[0])
					on[0] = undefined
				}
				const name = names[S.choose(`emit${k}`, 3)]
				const args = []
				for (let i = 0, m = S.choose(`args${k}`, k ? 2 : 5); i < m; i++) args.push(S.str(`a${k}.${i}`))
				calls.length = 0
				const told = r.at('error').length
				em.emit(name, ...args)
				const expected = []
				for (let i = 0; i < n; i++) if (on[i] !== undefined && on[i] === name) expected.push(i)
				S.check('an event reaches exactly the listeners of its name, in order, once each', calls.map(c => c[0]).join() === expected.join())
				for (const c of calls) S.check('with the arguments of the event', c[1].length === args.length && args.every((a, i) => S.is(a, c[1][i])))
				const failed = throwing && expected.includes(n - 1) ? 1 : 0
				S.eq('the failure of a listener is logged once, as an error', r.at('error').length, told + failed)
				if (failed) S.check('as it is', r.at('error')[told].args.some(a => S.is(a, boom)))
			}
			if (given) S.check('the emitter is the one given', em === given || (em.addListener && em.emit))
		}
	},
	'C26.given': {
		bounds: 'events emitted and listened to on either the emitter given or the one of the application; an event target; symbolic names and arguments; a listener that throws or not',
		async run(S) {
			const target = S.choose('target', 2)
			const given = otherEmitter(target)
			const r = await mkApp([eventsGizmoFn({ emitter: given })])
			const name = S.str('name', { max: 4 })
			const arg = S.str('arg')
			const boom = new Error('boom')
			const fails = S.choose('fails', 2)
			const calls = []
			const sides = [given, r.app.events.emitter]
			sides[S.choose('listen', 2)][target ? 'addEventListener' : 'addListener'](name, a => {
				calls.push(target ? a.detail : a)
				if (fails) throw boom
			})
			const by = sides[S.choose('emit', 2)]
			target ? by.dispatchEvent({ type: name, detail: arg }) : by.emit(name, arg)
			S.check('the application and whoever gave the emitter share its events', calls.length === 1 && S.is(calls[0], arg))
			S.eq('and failures are logged by the application, once', r.at('error').length, fails)
			if (fails) S.check('as they are', r.at('error')[0].args.includes(boom))
		}
	},
	'C26.deep': {
		bounds: 'listeners that emit one another up to six deep, in a ring of 1..3 events with symbolic names and payload, the innermost throwing or not',
		async run(S) {
			const r = await mkApp([eventsGizmoFn()])
			const e = r.app.events.emitter
			const ring = S.choose('ring', 3) + 1
			const depth = [2, 4, 6][S.choose('depth', 3)]
			const fails = S.choose('fails', 2)
			const v = S.str('v')
			const prefix = S.str('prefix', { max: 2 })
			const names = Array.from({ length: ring }, (_, i) => `${prefix}${'abc'[i]}`)
			const boom = new Error('innermost')
			const out = []
			for (const [i, n] of names.entries())
				e.addListener(n, (x, d) => {
					out.push([i, x, d])
					if (d === 0 && fails) throw boom
					if (d > 0) e.emit(names[(i + 1) % ring], x, d - 1)
					out.push('back')
				})
			for (const turn of [1, 2]) {
				out.length = 0
				e.emit(names[0], v, depth)
				const told = out.filter(o => o !== 'back')
				S.eq('each event is told, however deep', told.length, depth + 1)
				for (const [k, [i, x, d]] of told.entries()) S.check('to its listener, with its payload', i === k % ring && S.is(x, v) && d === depth - k)
				S.eq('and those that did not throw go on', out.length - told.length, depth + 1 - fails)
				S.eq('the failure is logged', r.at('error').filter(l => l.args.includes(boom)).length, fails * turn)
			}
		}
	},
	'C26.nested': {
		bounds: 'a listener that, while it is told, emits another event (symbolic names), adds or removes a listener of that one or unsubscribes itself, in the application or in another one, and the inner and the outer listener throw or not; then both events again; a listener for one time only or not',
		async run(S) {
			const rs = [await mkApp([eventsGizmoFn()]), await mkApp([eventsGizmoFn()])]
			const outer = rs[0].app.events.emitter
			const at = S.choose('other', 2)
			const inner = rs[at].app.events.emitter
			const names = [S.str('n0', { max: 2 }), S.str('n1', { max: 2 })]
			S.assumeNe(names[0], names[1])
			const once = S.choose('once', 2)
			const fails = [S.choose('f0', 2), S.choose('f1', 2)]
			const boom = [new Error('outer'), new Error('inner')]
			const what = S.choose('what', 4)
			let out = []
			const i = () => {
				out.push('i')
				if (fails[1]) throw boom[1]
			}
			const late = () => void out.push('l')
			let first = true
			const o = x => {
				out.push('(')
				if (first && what === 1) inner.addListener(names[1], late)
				if (first && what === 2) inner.removeListener(names[1], i)
				if (first && what === 3) outer.removeListener(names[0], o)
				first = false
				inner.emit(names[1], x)
				out.push(')')
				if (fails[0]) throw boom[0]
			}
			inner.addListener(names[1], i)
			once ? outer.once(names[0], o) : outer.addListener(names[0], o)
			let ends = 0
			outer.addListener('end', () => void ends++)
			const v = S.str('v')
			const turn = expected => {
				out = []
				outer.emit(names[0], v)
				S.eq('an event emitted while another one is told reaches its listeners then', out.join(''), expected)
			}
			const told = what === 2 ? '' : fails[1] && what === 1 ? undefined : what === 1 ? 'il' : 'i'
			if (told === undefined) {
				outer.emit(names[0], v)
				S.check('a failing listener does not keep the event from ending', out[0] === '(' && out[1] === 'i' && out.at(-1) === ')')
			} else {
				turn(`(${told})`)
				turn(once || what === 3 ? '' : `(${told})`)
				const again = once || what === 3 ? 1 : 2
				const errs = n => rs[n].at('error').map(e => e.args.find(x => boom.includes(x)))
				const expected = [[], []]
				for (let k = 0; k < again; k++) {
					if (fails[1] && what !== 2) expected[at].push(boom[1])
					if (fails[0]) expected[0].push(boom[0])
				}
				for (const n of [0, 1]) S.check('failures are logged once each, in order, by the application of their event', errs(n).length === expected[n].length && expected[n].every((x, k) => errs(n)[k] === x))
			}
			outer.emit('end')
			S.check('and events go on', ends === 1)
		}
	},
	'C26.apps': {
		bounds: 'two applications with their own emitters; listeners of either, throwing or not; an event of the same symbolic name emitted by either; just events with symbolic type, payload and context',
		async run(S) {
			const rs = [await mkApp([eventsGizmoFn()]), await mkApp([eventsGizmoFn()])]
			const calls = [[], []]
			const fails = S.choose('fails', 2)
			const e = justEvent(S.str('type', { max: 4 }), () => calls[0].push(['default']))
			for (const i of [0, 1])
				e.listenTo(rs[i].app.events.emitter, (...args) => {
					calls[i].push(args)
					if (fails) throw new Error('boom')
				})
			const which = S.choose('which', 2)
			const v = value(S, 'v', ['string', 'undefined', 'object'])
			const meta = value(S, 'meta', ['string', 'undefined'])
			if (S.choose('how', 2)) e.emitBy(rs[which].app.events.emitter, v, meta)
			else rs[which].app.events.emitter.emit(e.type, ...e(v, meta))
			S.eq('an event reaches the application it was emitted by', calls[which].length, 1)
			S.check('with payload and context', calls[which].length === 1 && S.is(calls[which][0][0], v) && S.is(calls[which][0][1], meta))
			S.eq('and no other', calls[1 - which].length, 0)
			S.eq('its failures are logged there', rs[which].at('error').length, fails)
			S.eq('and nowhere else', rs[1 - which].at('error').length, 0)
		}
	},
	// ------------------------------------------------------------------ C27: platform
	'C27.fresh': {
		bounds: 'two test gizmos one after the other, each with a given answer or none, on a symbolic platform family',
		async run(S) {
			S.platformFamily = S.choose('mac', 2) ? 'OS X' : S.str('family', { max: 6 })
			const mac = S.is(S.platformFamily, 'OS X')
			const all = [undefined, {}, { isMac: () => true }, { isMac: () => false }]
			const os = []
			const given = [0, 1].map(i => all[S.choose(`o${i}`, 4)])
			for (const g of given) os.push((await incubate().with(osTestGizmoFn(g)).create()).os)
			for (const i of [0, 1]) S.eq('each answers as it was told, else as the platform', os[i].isMac(), given[i]?.isMac ? given[i].isMac() : mac)
			S.eq('the platform answers as ever', (await incubate().with(osGizmo).create()).os.isMac(), mac)
		}
	},
	'C27.platform': {
		bounds: 'a symbolic platform family, none, or OS X; the gizmo, the function, the test gizmo with and without a given answer',
		async run(S) {
			const k = S.choose('kind', 3)
			const family = k === 0 ? S.str('family') : k === 1 ? undefined : 'OS X'
			S.platformFamily = family
			const mac = S.is(family, 'OS X')
			const a = await incubate().with(osGizmo).create()
			S.eq('the platform is a mac exactly when its family is OS X', a.os.isMac(), mac)
			S.eq('for the function too', isMac(), mac)
			const f = a.os.isMac
			S.eq('and used on its own', f(), mac)
			const options = [undefined, {}, { isMac: undefined }, { isMac: () => true }, { isMac: () => false }][S.choose('options', 5)]
			const t = await incubate().with(osTestGizmoFn(options)).create()
			S.eq('the test variant answers as told, and as the platform otherwise', t.os.isMac(), options?.isMac ? options.isMac() : mac)
			S.eq('without changing it for others', a.os.isMac(), mac)
		}
	},
	// ------------------------------------------------------------------ C28: presets and history
	'C28.preset': {
		bounds: 'the browser preset or its test variant on an application with commands, with or without keyboard and a fetch of its own; fetch, history and prevention of the default error handling given by option or not; symbolic names, urls, keys, values and paths',
		async run(S) {
			const w = page(S)
			const test = S.choose('test', 2)
			const ownFetch = S.choose('ownFetch', 2)
			const optFetch = S.choose('optFetch', 2)
			const ownHistory = S.choose('ownHistory', 2)
			const kb = S.choose('keyboard', 2)
			const prevent = S.choose('prevent', 3)
			const used = []
			const f0 = (...args) => void used.push([0, args])
			const f1 = (...args) => void used.push([1, args])
			const h = createMemoryHistory()
			const name = S.str('name', { max: 4 })
			const rec = recordingLog()
			let b = incubate().merge({ name, id: 'the-id', log: rec.log }).with(commandsGizmoFn())
			if (kb) b = b.with(keyboardGizmoFn())
			if (ownFetch) b = b.merge({ fetch: f0 })
			const before = await b.create()
			const a = await incubate(before)
				.with((test ? presetsBrowserTestGizmoFn : presetsBrowserGizmoFn)({ ...((optFetch || prevent < 2) && { browser: { ...(optFetch && { fetch: f1 }), ...(prevent < 2 && { preventDefault: prevent === 1 }) } }), ...(ownHistory && { history: { history: h } }) }))
				.create()
			for (const k of ['name', 'id', 'log', 'commands', 'keyboard']) S.check('the application keeps what it had', a[k] === before[k])
			const path = `/${S.str('path', { max: 4 })}`
			S.assumeChars(path, [[0x2f, 0x39], [0x61, 0x7a]])
			a.history.push(path)
			S.eq('its history is the one given, else one in memory for the test variant', h.location.pathname, ownHistory ? path : '/')
			S.check('else the one of the browser', ownHistory || test ? w.pushed.length === 0 : w.pushed.length === 1 && S.is(w.pushed[0], path))
			S.eq('and shows where it is', a.history.location.pathname, path)
			const url = S.str('url')
			if (optFetch || ownFetch) {
				a.fetch(url)
				S.check('requests go to the fetch given, else the one of the application', used.length === 1 && used[0][0] === (optFetch ? 1 : 0) && S.is(used[0][1][0], url))
			} else {
				const r = a.fetch(url)
				S.check('else to the browser', r.from === 'global' && r.args.length === 1 && S.is(r.args[0], url))
			}
			const v = S.str('v', { max: 4 })
			const key = S.str('key', { max: 4 })
			a.preferences.set(key, v)
			S.eq('preferences are kept', a.preferences.get(key), v)
			S.eq('by the commands of the application', before.commands.handlers.invoke('just-web.getUserPreference', key), v)
			const ls = globalThis.__listeners.filter(l => l.type === 'error')
			S.eq('uncaught errors are captured once', ls.length, 1)
			const told = rec.entries.filter(e => e.level === 'error').length
			let prevented = 0
			const kept = ls[0].fn({ message: S.str('message'), preventDefault: () => void prevented++ })
			S.check('the default handling is prevented when asked only', prevent === 1 ? prevented >= 1 && kept === true : prevented === 0 && !kept)
			S.check('and logged by the application', rec.entries.filter(e => e.level === 'error').length === told + 1 && a.browser.errors.get().length === 1)
		}
	},
	'C28.storage': {
		bounds: 'the test preset given storages, navigator and location or not; symbolic keys and values',
		async run(S) {
			page(S)
			const given = {}
			for (const k of ['localStorage', 'sessionStorage']) if (S.choose(k, 2)) given[k] = memStorage()
			if (S.choose('navigator', 2)) given.navigator = { language: 'x' }
			if (S.choose('location', 2)) given.location = { href: 'y' }
			const a = await justTestApp({ name: 'n' }).with(commandsGizmoFn()).with(presetsBrowserTestGizmoFn({ browser: given })).create()
			for (const k of ['localStorage', 'sessionStorage', 'navigator', 'location']) S.check('the preset has what it was given, else the browser has it', a.browser[k] === (given[k] ?? globalThis[k]))
			const v = S.str('v', { max: 4 })
			a.preferences.set(S.str('key', { max: 4 }), v)
			S.eq('preferences are kept in the local storage', a.browser.localStorage.length, 1)
			S.eq('and in no other', globalThis.localStorage.length, given.localStorage ? 0 : 1)
			S.check('the log of the test application stays', typeof a.log.reporter.getLogMessages === 'function')
		}
	},
	'C28.apps': {
		bounds: 'two applications with the preset or its test variant each, one after the other or both from the same preset; a symbolic path, preference and uncaught error in either',
		async run(S) {
			const w = page(S)
			const shared = S.choose('shared', 2)
			const test = [S.choose('t0', 2), shared ? -1 : S.choose('t1', 2)]
			if (shared) test[1] = test[0]
			const mk = t => (t ? presetsBrowserTestGizmoFn({ browser: { localStorage: memStorage() } }) : presetsBrowserGizmoFn())
			const g = mk(test[0])
			const as = []
			for (const i of [0, 1]) as.push(await (test[i] ? justTestApp({ name: `n${i}` }) : justApp({ name: `n${i}`, log: { reporters: [] } })).with(commandsGizmoFn()).with(i && !shared ? mk(test[1]) : g).create())
			const which = S.choose('which', 2)
			const path = `/${S.str('path', { max: 4, min: 1 })}`
			S.assumeChars(path, [[0x2f, 0x39], [0x61, 0x7a]])
			as[which].history.push(path)
			S.eq('an application shows where it went', as[which].history.location.pathname, path)
			// a preset that is shared is one configuration: its history is its own for each application it makes
			if (test[1 - which]) S.eq('a history in memory is of one application', as[1 - which].history.location.pathname, '/')
			S.eq('only the browser one navigates the page', w.pushed.length, test[which] ? 0 : 1)
			const key = S.str('key', { max: 4 })
			const v = S.str('v', { max: 4 })
			as[which].preferences.set(key, v)
			S.eq('preferences are kept', as[which].preferences.get(key), v)
			S.eq('for that application', as[1 - which].preferences.get(key), undefined)
			as[which].log.error('one')
			const ls = globalThis.__listeners.filter(l => l.type === 'error')
			S.eq('each captures uncaught errors', ls.length, 2)
			for (const l of ls) l.fn({ message: S.is(key, v) ? 'same' : 'other', preventDefault() {} })
			for (const a of as) S.eq('into its own list', a.browser.errors.get().length, 1)
		}
	},
	'C28.history': {
		bounds: 'two applications with the given history, the one of the browser, or one in memory each; symbolic paths',
		async run(S) {
			const w = page(S)
			const kinds = [S.choose('k0', 2), S.choose('k1', 2)]
			const given = [createMemoryHistory(), createMemoryHistory()]
			const as = []
			for (const i of [0, 1]) as.push(await justTestApp().with(kinds[i] ? historyGizmoFn({ history: given[i] }) : historyGizmoFn()).create())
			const which = S.choose('which', 2)
			const path = `/${S.str('path', { max: 4, min: 1 })}`
			S.assumeChars(path, [[0x2f, 0x39], [0x61, 0x7a]])
			const heard = []
			as[which].history.listen(u => heard.push(u.location.pathname))
			as[which].history.push(path)
			S.eq('an application shows where it went', as[which].history.location.pathname, path)
			S.check('and tells', heard.length === 1 && S.is(heard[0], path))
			S.eq('in the history given', given[which].location.pathname, kinds[which] ? path : '/')
			S.eq('else in the browser', w.pushed.length, kinds[which] ? 0 : 1)
			S.eq('the history of another application stays', given[1 - which].location.pathname, '/')
			if (kinds[1 - which]) S.eq('wherever it is', as[1 - which].history.location.pathname, '/')
		}
	},
	// ------------------------------------------------------------------ C30: states of an application
	'C30.states': {
		bounds: 'a state, store or registry created through an application, with or without a logger of its own; two applications; symbolic values; setting, updating, resetting, subscribing',
		async run(S) {
			const rs = [await mkApp([statesGizmo]), await mkApp([statesGizmo])]
			const own = recordingLog()
			const ownLog = S.choose('logger', 2)
			const meta = ownLog ? [{ logger: own.log.getLogger('own') }] : S.choose('meta', 2) ? [{}] : []
			const which = S.choose('which', 3)
			const made = []
			const init = which === 2 ? { k: S.num('i') } : value(S, 'init', ['number', 'object', 'undefined'])
			const before = snapshot(init)
			for (const r of rs) {
				const s = r.app.states
				if (which === 0) {
					const [v, set, onChange, reset] = s.createState(init, ...meta)
					let cur = v
					onChange(n => (cur = n))
					made.push({ get: () => cur, set, onChange, reset })
				} else if (which === 1) made.push(s.createStore(init, ...meta))
				else made.push(s.createRegistry(init, ...meta))
			}
			const counts = () => [...rs.map(r => r.entries.length), own.entries.length]
			const at0 = counts()
			const i = S.choose('app', 2)
			const [m, o] = [made[i], made[1 - i]]
			S.eq('it starts with the initial value', m.get(), init)
			const calls = []
			m.onChange((v, p) => calls.push([v, p]))
			o.onChange(() => calls.push('other'))
			const v = which === 2 ? { k2: S.str('v') } : value(S, 'v', ['number', 'string', 'null', 'object'])
			const same = S.is(v, init)
			const ret = m.set(v)
			S.eq('a set is applied and returned', m.get(), v)
			S.eq('as given', ret, v)
			S.check('and told once', calls.length === (same ? 0 : 1) && (same || (S.is(calls[0][0], v) && S.is(calls[0][1], init))))
			if (which === 2) {
				S.check('the registry knows its keys', m.has('k2') && !m.has('k') && m.size() === 1 && m.keys().join() === 'k2')
				m.set(d => {
					d.k = 1
				})
				S.check('also after an update', m.has('k') && m.size() === 2)
			}
			m.reset()
			S.eq('a reset goes back', m.get(), init)
			S.deep('to the initial value as it was', snapshot(m.get()), before)
			S.eq('other instances are not affected', o.get(), init)
			const at1 = counts()
			S.check('everything is logged by the logger given, else by the application it was created through', at1[i] === at0[i] || !ownLog)
			S.eq('never by another application', at1[1 - i], at0[1 - i])
			if (!same) S.check('changes leave a trace there', ownLog ? at1[2] > at0[2] : at1[i] > at0[i])
		}
	},
	'C30.shared': {
		bounds: 'four states, stores or registries of one application, or two of each of two, created from the same initial value, frozen or not; one changes to a symbolic value',
		async run(S) {
			const as = [await mkApp([statesGizmo]), await mkApp([statesGizmo])]
			const two = S.choose('two', 2)
			const kind = S.choose('kind', 2)
			const init = { x: S.num('x') }
			if (S.choose('frozen', 2)) Object.freeze(init)
			const all = [0, 1, 2, 3].map(i => as[two ? i % 2 : 0].app.states[kind ? 'createStore' : 'createRegistry'](init))
			const told = []
			for (const [i, s] of all.entries()) s.onChange(v => told.push([i, v]))
			const at = S.choose('at', 4)
			const v = S.num('v')
			all[at].set(() => ({ x: v }))
			S.eq('the one changed has the new value', all[at].get().x, v)
			for (const [i, s] of all.entries()) if (i !== at) S.eq('the others the one given', s.get().x, init.x)
			S.check('only its subscribers are told', told.length === 1 && told[0][0] === at)
			all[at].reset()
			S.check('a reset goes back', all.every(s => S.is(s.get().x, init.x)) && told.length === 2 && told[1][0] === at)
		}
	},
	'C30.plain': {
		bounds: 'the registry without an initial value, through an application or not; symbolic keys',
		async run(S) {
			const r = await mkApp([statesGizmo])
			const g = S.choose('plain', 2) ? createRegistry() : r.app.states.createRegistry()
			S.check('a registry starts empty', g.size() === 0 && g.keys().length === 0 && g.values().length === 0)
			const k = S.str('k', { max: 4 })
			const v = S.str('v')
			S.check('knowing nothing', !g.has(k))
			g.set(d => {
				d[k] = v
			})
			S.check('then knows what was added', g.has(k) && g.size() === 1 && S.is(g.get()[k], v) && S.is(g.values()[0], v))
			const other = r.app.states.createRegistry()
			S.check('and no other registry does', !other.has(k) && other.size() === 0)
			g.reset()
			S.check('a reset empties it', g.size() === 0 && !g.has(k))
			S.check('states and stores are the same everywhere', typeof createState === 'function' && typeof createStore === 'function')
		}
	}
}
