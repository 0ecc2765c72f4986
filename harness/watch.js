// Histories in which everything that can be asked is asked after every step, twice, so that
// nothing that was remembered from an earlier answer goes unnoticed.
import { command, commandsGizmoFn, formatCommand } from '@just-web/commands'
import { osGizmo } from '@just-web/os'
import { browserKeyboardGizmo } from '@just-web/browser-keyboard'
import { browserI18nGizmo } from '@just-web/browser-i18n'
import { browserPreferencesGizmo } from '@just-web/browser-preferences'
import { i18nGizmoFn, setLanguageCommand } from '@just-web/i18n'
import { formatKeyBinding, keyboardGizmoFn } from '@just-web/keyboard'
import { clearAllUserPreferences, getUserPreference, memoryPreferencesGizmo, setUserPreference } from '@just-web/preferences'
import { routesGizmo } from '@just-web/routes'
import { adder, createRegistry, createStore, nothing, push, toReadonlyRegistry, toReadonlyStore, unshift, withAdder } from '@just-web/states'
import Mousetrap from 'mousetrap'
import { app } from './lib/app.js'
import { memStorage } from './lib/storage.js'
import { silent } from './lib/values.js'

const meta = () => ({ logger: silent() })
const errors = es => es.filter(e => e.level === 'error')
const loud = es => es.filter(e => e.level === 'error' || e.level === 'warn')
const steps = S => (S.thorough ? 5 : 4)
/** two different symbolic keys, one beginning like the other */
const keys = S => {
	const k = `k${S.str('k', { max: 2 })}`
	return [k, `${k}x`]
}
const ask = (n, f) => {
	for (let i = 0; i < n; i++) f(i)
}

export const scenarios = {
	'C01.watched': {
		bounds: '4 (thorough: 5) of {set a symbolic value, the one before, update, reset, subscribe a further one, unsubscribe it}; after each, value and notifications are asked for twice',
		async run(S) {
			const init = S.num('init')
			const s = createStore(init, meta())
			const ro = toReadonlyStore(s)
			const told = []
			s.onChange((v, p) => void told.push([v, p]))
			let later = 0
			let off
			let now = init
			let was = init
			let n = 0
			let m = 0
			let w
			for (let i = 0; i < steps(S); i++) {
				const op = S.choose(`op${i}`, 6)
				const before = now
				const v = op === 0 || op === 2 ? S.num(`v${i}`) : op === 1 ? was : init
				// an updater that gives the value there is may or may not be told
				if (op === 2 && S.is(before, v)) return
				if (op < 2) s.set(v)
				else if (op === 2) s.set(() => v)
				else if (op === 3) s.reset()
				else if (op === 4) off ??= s.onChange(() => void later++)
				else off = off?.()
				if (op < 4 && !S.is(before, v)) {
					now = v
					was = before
					n++
					if (off) m++
					w = [now, before]
				}
				ask(2, () => {
					S.eqz('it reads as the one set last', s.get(), now)
					S.eqz('also by a view', ro.get(), now)
					S.eq('and each change was told once', told.length, n)
					S.eq('also to one subscribed meanwhile', later, m)
				})
				if (w) S.check('with both values', S.is(told.at(-1)[0], w[0]) && S.is(told.at(-1)[1], w[1]))
			}
		}
	},
	'C05.watched': {
		bounds: '4 (thorough: 5) of {add or replace an entry under one of two symbolic keys, delete one, replace all, swap both, reset}; after each, everything is asked for twice, also of a read-only view',
		async run(S) {
			const ks = keys(S)
			const r = createRegistry(undefined, meta())
			const ro = toReadonlyRegistry(r)
			let model = []
			for (let i = 0; i < steps(S); i++) {
				const op = S.choose(`op${i}`, 7)
				const k = ks[op % 2]
				if (op < 2) {
					const v = S.num(`v${i}`)
					r.set(m => {
						m[k] = v
					})
					const e = model.find(e => e[0] === k)
					if (e) e[1] = v
					else model.push([k, v])
				} else if (op < 4) {
					r.set(m => {
						delete m[k]
					})
					model = model.filter(e => e[0] !== k)
				} else if (op === 4) {
					const v = S.num(`v${i}`)
					r.set({ [ks[1]]: v })
					model = [[ks[1], v]]
				} else if (op === 5) {
					r.reset()
					model = []
				} else if (model.length === 2) {
					const [x, y] = model.map(e => e[1])
					const [a, b] = model.map(e => e[0])
					r.set(m => {
						m[a] = y
						m[b] = x
					})
					model = [[a, y], [b, x]]
				}
				for (const x of [r, ro, r])  {
					S.eq('it counts what is there', x.size(), model.length)
					const ls = x.keys()
					const vs = x.values()
					S.check('lists it', ls.length === model.length && vs.length === model.length)
					for (const k of ks) {
						const e = model.find(e => e[0] === k)
						S.eq('has it', x.has(k), !!e)
						S.check('in its list', ls.includes(k) === !!e)
						S.eqz('with the value given last', x.get()[k], e ? e[1] : undefined)
						if (e) S.eqz('also in the list of values', vs[ls.indexOf(k)], e[1])
					}
					S.check('and nothing else', !x.has(`${ks[1]}x`) && !x.has('z'))
				}
			}
		}
	},
	'C06.watched': {
		bounds: '4 (thorough: 5) of {add none, one, two (also the same twice), reset, replace} at the end or the start, the adder made by push, unshift, or a function that returns something; everything asked for after each',
		async run(S) {
			const kind = S.choose('adder', 4)
			const s = withAdder(createStore(['start'], meta()), [push, unshift, (l, e) => l.push(e), (l, e) => l.unshift(e)][kind])
			const also = adder(s, push)
			let told = 0
			s.onChange(() => void told++)
			let model = ['start']
			for (let i = 0; i < steps(S); i++) {
				const op = S.choose(`op${i}`, 6)
				const before = told
				// immer drops the sign of a zero that moves over another zero in a list
				const v = i === 1 ? S.num('v') : `v${i}`
				const es = [[], [v], [v, { i }], [v, v]][op] ?? (op === 4 ? [[v, i]] : undefined)
				const e = i % 2 ? also : s.add
				if (es) {
					e(...es)
					if (i % 2 || kind % 2 === 0) model = [...model, ...es]
					else model = [...es.slice().reverse(), ...model]
				} else {
					s.reset()
					model = ['start']
				}
				const changed = es ? es.length > 0 : undefined
				ask(2, () => {
					const l = s.get()
					S.eq('every entry is there', l.length, model.length)
					for (const [j, x] of model.entries()) S.check('as given, where it belongs', S.is(l[j], x))
				})
				if (changed) S.eq('a call is one change', told - before, 1)
			}
		}
	},
	'C07.watched': {
		bounds: '4 (thorough: 5) changes of two kinds to two stores and registries from the same initial value, a read-only view of each taken before, between or after, all asked after each',
		async run(S) {
			const init = { a: S.num('a') }
			const ss = [createStore(init, meta()), createStore(init, meta())]
			const rs = [createRegistry(init, meta()), createRegistry(init, meta())]
			const views = []
			const told = []
			const view = () => {
				for (const [i, s] of ss.entries()) views.push([`s${i}`, toReadonlyStore(s)])
				for (const [i, r] of rs.entries()) views.push([`r${i}`, toReadonlyRegistry(r)])
				for (const [n, v] of views.slice(-4)) v.onChange(() => void told.push(n))
			}
			const now = { s0: init.a, s1: init.a, r0: init.a, r1: init.a }
			const n = { s0: 0, s1: 0, r0: 0, r1: 0 }
			const after = S.choose('view', 3)
			if (after === 0) view()
			for (let i = 0; i < steps(S); i++) {
				if (after === 1 && i === 2) view()
				const which = S.choose(`w${i}`, 4)
				const name = ['s0', 's1', 'r0', 'r1'][which]
				const x = [...ss, ...rs][which]
				// each differs from the one before
				const v = i === 1 ? S.num('v') : `v${i}`
				if (i === 1 && S.is(v, now[name])) return
				x.set(d => {
					d.a = v
				})
				now[name] = v
				if (views.length) n[name]++
				for (const [name, v] of views) {
					S.eqz('a view shows the current value', v.get().a, now[name])
					S.eqz('whenever it is asked', v.get().a, now[name])
					S.eq('and tells its changes', told.filter(t => t === name).length, n[name])
				}
				for (const [i, name] of ['s0', 's1', 'r0', 'r1'].entries()) S.eqz('others are as they were', [...ss, ...rs][i].get().a, now[name])
			}
		}
	},
	'C08.watched': {
		bounds: '4 (thorough: 5) of {invoke or register under one of two symbolic ids, both}; after each, both are looked up, listed and invoked twice',
		async run(S) {
			const ks = keys(S)
			const given = S.choose('given', 2)
			const log = []
			const mk = n => (...args) => {
				log.push([n, ...args])
				return n
			}
			const { app: a, entries } = await app([commandsGizmoFn(given ? { handlers: { [ks[0]]: mk('given') } } : undefined)])
			const h = a.commands.handlers
			const now = given ? ['given', undefined] : [undefined, undefined]
			const x = S.num('x')
			for (let i = 0; i < steps(S); i++) {
				const op = S.choose(`op${i}`, 5)
				const put = j => {
					now[j] = `h${i}${j}`
					h.register(ks[j], mk(now[j]))
				}
				if (op < 2) h.invoke(ks[op])
				else if (op < 4) put(op - 2)
				else [0, 1].forEach(put)
				ask(2, t => {
					for (const j of t ? [1, 0] : [0, 1]) {
						S.eq('a lookup tells whether there is one', h.has(ks[j]), now[j] !== undefined)
						S.eq('so does the list', h.keys().includes(ks[j]), now[j] !== undefined)
						log.length = 0
						const before = errors(entries).length
						const r = h.invoke(ks[j], x, i)
						S.check('the one registered last runs', now[j] ? r === now[j] && log.length === 1 && log[0][0] === now[j] && S.is(log[0][1], x) && log[0][2] === i : r === undefined && !log.length)
						S.eq('and a missing one is reported, each time', errors(entries).length - before, now[j] ? 0 : 1)
					}
				})
			}
		}
	},
	'C09.watched': {
		bounds: '4 (thorough: 5) of {define a handler, connect to one of two applications, with a handler or without, register under its id in either}; after each, the command is called twice with 0..5 arguments, and both applications are asked',
		async run(S) {
			const id = `c${S.str('id', { max: 3 })}`
			const as = [await app([keyboardGizmoFn(), commandsGizmoFn()]), await app([commandsGizmoFn()])]
			const log = []
			const mk = n => (...args) => {
				log.push([n, args])
				return n
			}
			const first = S.choose('initial', 2)
			let own = first ? 'initial' : undefined
			const cmd = S.choose('local', 2) ? command(id, own && mk(own)) : command({ id, title: 't' }, own && mk(own))
			const reg = [undefined, undefined]
			let at
			for (let i = 0; i < steps(S); i++) {
				const op = S.choose(`op${i}`, 7)
				const n = `h${i}`
				if (op === 0) cmd.defineHandler(mk((own = n)))
				else if (op < 3) {
					at = op - 1
					cmd.connect(as[at].app)
					if (own) reg[at] = own
				} else if (op < 5) {
					at = op - 3
					cmd.connect(as[at].app, mk((own = n)))
					reg[at] = n
				} else {
					as[op - 5].app.commands.handlers.register(id, mk(n))
					reg[op - 5] = n
				}
				ask(2, j => {
					log.length = 0
					const args = Array.from({ length: (i * 2 + j) % 6 }, (_, k) => k)
					const expected = at === undefined ? own : reg[at]
					S.eq('calling it runs the handler in effect where it is connected', cmd(...args), expected)
					S.check('once, with its arguments', expected ? log.length === 1 && log[0][0] === expected && log[0][1].length === args.length : !log.length)
					for (const k of [0, 1]) {
						S.eq('an application knows it when it has a handler', as[k].app.commands.handlers.has(id), !!reg[k])
						if (reg[k]) S.eq('and runs that', as[k].app.commands.handlers.invoke(id), reg[k])
					}
				})
			}
		}
	},
	'C10.watched': {
		bounds: '4 (thorough: 5) of {add one of two commands, another for the same id, both at once, remove one, reset}; after each, all are asked for and formatted twice; with a title given or derived, also when it changes with the registry',
		async run(S) {
			const ks = keys(S)
			const { app: a, entries } = await app([commandsGizmoFn()])
			const r = a.commands.contributions
			const cs = [{ id: ks[0], title: S.str('t', { max: 3 }) }, { id: ks[1], description: 'd' }]
			let model = [undefined, undefined]
			let dups = 0
			const put = (j, c) => (model[j] ? void dups++ : void (model[j] = c))
			for (let i = 0; i < steps(S); i++) {
				const op = S.choose(`op${i}`, 6)
				const other = { id: ks[0], title: `other ${i}` }
				if (op < 2) {
					r.add(cs[op])
					put(op, cs[op])
				} else if (op === 2) {
					r.add(other)
					put(0, other)
				} else if (op === 3) {
					r.add(cs[1], other, cs[0])
					put(1, cs[1])
					put(0, other)
					put(0, cs[0])
				} else if (op === 4) {
					r.set(m => {
						delete m[ks[0]]
					})
					model[0] = undefined
				} else {
					r.reset()
					model = [undefined, undefined]
				}
				ask(2, t => {
					S.eq('each ignored one is reported', loud(entries).length, dups)
					S.eq('those there count', r.size(), model.filter(x => x).length)
					for (const j of t ? [1, 0] : [0, 1]) {
						S.check('each is listed as contributed', r.get()[ks[j]] === model[j] && r.has(ks[j]) === !!model[j])
						if (model[j]) S.check('and formatted', formatCommand(model[j]).id === ks[j] && (model[j].title === undefined ? typeof formatCommand(model[j]).title === 'string' : S.is(formatCommand(model[j]).title, model[j].title)) && formatCommand(model[j]).description === model[j].description)
					}
				})
			}
		}
	},
	'C11.watched': {
		bounds: '4 (thorough: 5) of {add one of two bindings, another for the same id, both at once, remove one, reset}; after each, all are asked for and formatted twice on either platform',
		async run(S) {
			const ks = keys(S)
			const { app: a, entries } = await app([keyboardGizmoFn()])
			const r = a.keyboard.keyBindingContributions
			const cs = [{ id: ks[0], key: S.str('key', { max: 3 }), mac: S.str('mac', { max: 3 }) }, { id: ks[1], mac: 'cmd+m' }]
			let model = [undefined, undefined]
			let dups = 0
			const put = (j, c) => (model[j] ? void dups++ : void (model[j] = c))
			for (let i = 0; i < steps(S); i++) {
				const op = S.choose(`op${i}`, 6)
				const other = { id: ks[0], key: `ctrl+${i}` }
				if (op < 2) {
					r.add(cs[op])
					put(op, cs[op])
				} else if (op === 2) {
					r.add(other)
					put(0, other)
				} else if (op === 3) {
					r.add(cs[1], other, cs[0])
					put(1, cs[1])
					put(0, other)
					put(0, cs[0])
				} else if (op === 4) {
					r.set(m => {
						delete m[ks[0]]
					})
					model[0] = undefined
				} else {
					r.reset()
					model = [undefined, undefined]
				}
				ask(2, j => {
					S.eq('each ignored one is reported', loud(entries).length, dups)
					S.eq('those there count', r.size(), model.filter(x => x).length)
					for (const mac of [j === 0, j === 1])
						for (const b of model)
							if (b) {
								const f = formatKeyBinding({ os: { isMac: () => mac } }, b)
								S.eq('the key is that of the platform', f.key, mac && b.mac !== undefined ? b.mac : b.key)
								S.check('of its command', f.id === b.id && r.get()[b.id] === b)
							}
				})
			}
		}
	},
	'C12.watched': {
		bounds: '4 (thorough: 5) of {add one or two bindings, also sharing a key, replace one, remove one, reset, register a handler}, starting with none or one; after each, every key is pressed twice; a command has a handler or not',
		async run(S) {
			Mousetrap.reset()
			const mac = S.choose('mac', 2)
			S.platformFamily = mac ? 'OS X' : 'Linux'
			const key = j => `alt+${j}`
			const all = [0, 1, 2].map(j => ({ id: `c${j}`, ...(mac ? { mac: key(j), key: 'x' } : { key: key(j) }) }))
			const rival = { id: 'c3', ...(mac ? { mac: key(0) } : { key: key(0), mac: 'x' }) }
			const given = S.choose('given', 2)
			const out = []
			const { app: a, entries } = await app([keyboardGizmoFn({ keyBindingContributions: given ? [all[0]] : [] }), commandsGizmoFn({ handlers: { c3: () => void out.push('c3'), c2: () => void out.push('c2') } }), osGizmo, browserKeyboardGizmo])
			const r = a.keyboard.keyBindingContributions
			let model = given ? [all[0]] : []
			const handled = ['c3', 'c2']
			for (let i = 0; i < steps(S); i++) {
				const op = S.choose(`op${i}`, 8)
				const add = (...bs) => {
					r.add(...bs)
					for (const b of bs) if (!model.some(m => m.id === b.id)) model.push(b)
				}
				if (op === 0) add(all[1])
				else if (op === 1) add(rival)
				else if (op === 2) add(all[0], all[2])
				else if (op === 3) add(all[2], rival, all[1])
				else if (op === 4) {
					r.set(m => {
						delete m.c0
					})
					model = model.filter(b => b.id !== 'c0')
				} else if (op === 5) {
					const b = { ...all[2], ...(mac ? { mac: key(5) } : { key: key(5) }) }
					r.set(m => {
						m.c2 = b
					})
					model = model.some(x => x.id === 'c2') ? model.map(x => (x.id === 'c2' ? b : x)) : [...model, b]
				} else if (op === 6) {
					r.reset()
					model = given ? [all[0]] : []
				} else
					for (const id of ['c0', 'c1']) {
						a.commands.handlers.register(id, () => void out.push(id))
						handled.push(id)
					}
				const used = b => (mac ? (b.mac ?? b.key) : b.key)
				for (const k of [key(0), key(1), key(2), key(5)])
					ask(2, () => {
						const b = model.find(b => used(b) === k)
						out.length = 0
						const before = errors(entries).length
						const hit = Mousetrap.__bound().filter(x => x.key === k)
						for (const x of hit) x.cb({ preventDefault() {} }, k)
						const runs = b && handled.includes(b.id)
						S.check('a key runs the command it is bound to, or none', out.join() === (runs ? b.id : ''))
						S.eq('once', hit.length, b ? 1 : 0)
						S.eq('and one without handler is reported', errors(entries).length - before, b && !runs ? 1 : 0)
					})
			}
		}
	},
	'C13.watched': {
		bounds: '4 (thorough: 5) of {register one of two symbolic paths, unregister it by its first or last registration, clear, configure either as initial}; after each, all are navigated to twice',
		async run(S) {
			const ks = keys(S)
			const { app: a, entries } = await app([routesGizmo])
			const r = a.routes
			const log = []
			const now = [undefined, undefined]
			const offs = [[], []]
			let initial = '/'
			for (let i = 0; i < steps(S); i++) {
				const op = S.choose(`op${i}`, 8)
				const j = op % 2
				if (op < 2) {
					const n = `r${i}`
					const off = r.register(ks[j], () => void log.push(n))
					if (!now[j]) {
						now[j] = n
						offs[j].push([off, n])
					} else offs[j].push([off, undefined])
				} else if (op < 4) {
					const o = offs[j].at(-1)
					o?.[0]()
					if (o?.[1] && o[1] === now[j]) now[j] = undefined
				} else if (op < 6) {
					const o = offs[j][0]
					o?.[0]()
					if (o?.[1] && o[1] === now[j]) now[j] = undefined
				} else if (op === 6) {
					r.clearRoutes()
					now.fill(undefined)
				} else r.config({ initialRoute: (initial = ks[i % 2]) })
				ask(2, t => {
					const all = [...ks, undefined, `${ks[1]}x`]
					for (const k of t ? all.reverse() : all) {
						log.length = 0
						const before = errors(entries).length
						const at = ks.indexOf(k ?? initial)
						const n = at < 0 ? undefined : now[at]
						r.navigate(k)
						S.check('a path runs the route registered for it', log.join() === (n ?? ''))
						S.eq('an unknown one is reported', errors(entries).length - before, n ? 0 : 1)
						if (k) S.eq('as asked', r.hasRoute(k), !!n)
					}
				})
			}
		}
	},
	'C14.watched': {
		bounds: '4 (thorough: 5) of {set, update, remove (by undefined, by handler), clear} of one of two symbolic keys, directly or by command; in memory or in the browser; after each, both are read twice, with and without default, directly and by command',
		async run(S) {
			const ks = keys(S)
			const kind = S.choose('kind', 2)
			const { app: a } = await app([commandsGizmoFn(), ...(kind ? [{ create: async () => ({ browser: { localStorage: memStorage() } }) }, browserPreferencesGizmo] : [memoryPreferencesGizmo])])
			const p = a.preferences
			const now = [undefined, undefined]
			for (let i = 0; i < steps(S); i++) {
				const op = S.choose(`op${i}`, 7)
				const j = op % 2
				const set = i % 2 ? setUserPreference : p.set.bind(p)
				const v = `${i}${S.str(`v${i}`, { max: 1 })}`
				if (op < 2) set(ks[j], (now[j] = v))
				else if (op < 4) {
					const was = now[j]
					let got
					set(ks[j], x => {
						got = x
						return v
					})
					S.eqz('a handler is given the current value', got, was)
					now[j] = v
				} else if (op < 6) {
					set(ks[j], i % 2 ? undefined : () => nothing)
					now[j] = undefined
				} else {
					if (i % 2) clearAllUserPreferences()
					else p.clearAll()
					now.fill(undefined)
				}
				ask(2, t => {
					for (const k of t ? [1, 0] : [0, 1]) {
						S.eqz('it reads as set last', p.get(ks[k]), now[k])
						S.eqz('else as the default', p.get(ks[k], `d${i}`), now[k] ?? `d${i}`)
						S.eqz('also by command', getUserPreference(ks[k]), now[k])
						S.eqz('with its default', getUserPreference(ks[k], 'e'), now[k] ?? 'e')
					}
				})
			}
		}
	},
	'C16.watched': {
		bounds: '4 (thorough: 5) of {set, update in place, return, go back to the default, clear all} on a typed store, with a default or without, another one on the same or another key; after each, both are read twice',
		async run(S) {
			const { app: a } = await app([commandsGizmoFn(), memoryPreferencesGizmo])
			const d = S.choose('default', 2) ? { n: 0, l: [] } : undefined
			const same = S.choose('same', 2)
			const ps = [a.preferences.createStore('k', d), a.preferences.createStore(same ? 'k' : 'k2', { n: -1, l: [] })]
			const now = [undefined, undefined]
			const handed = []
			const flat = x => (x ? `${x.n}/${x.l.join()}` : 'none')
			for (let i = 0; i < steps(S); i++) {
				const op = S.choose(`op${i}`, 6)
				const w = i % 2
				const at = same ? 0 : w
				const fallback = w ? { n: -1, l: [] } : d
				if (op === 0) ps[w].set((now[at] = { n: i, l: [i] }))
				else if (op === 1) {
					const from = now[at] ?? fallback
					if (from) {
						ps[w].set(x => {
							x.n++
							x.l.push(i)
						})
						now[at] = { n: from.n + 1, l: [...from.l, i] }
					}
				} else if (op === 2) ps[w].set(() => (now[at] = { n: -i, l: [] }))
				else if (op === 3) {
					ps[w].set(undefined)
					now[at] = undefined
				} else if (op === 4) {
					ps[w].set(() => nothing)
					now[at] = undefined
				} else {
					a.preferences.clearAll()
					now.fill(undefined)
				}
				ask(2, t => {
					for (const k of t ? [1, 0] : [0, 1]) {
						const x = now[same ? 0 : k] ?? (k ? { n: -1, l: [] } : d)
						const got = ps[k].get()
						S.eq('it reads as written last, else as its default', flat(got), flat(x))
						if (got) handed.push([got, flat(got)])
					}
				})
				for (const [v, f] of handed) S.eq('values handed out stay', flat(v), f)
				S.eq('so does the default', flat(d), d ? '0/' : 'none')
			}
		}
	},
	'C18.watched': {
		bounds: '4 (thorough: 5) of {choose a symbolic language directly or by command in either of two applications, subscribe}; one subscriber chooses again itself or not; after each, both are asked twice',
		async run(S) {
			const as = [(await app([commandsGizmoFn(), i18nGizmoFn({ language: 'a' })])).app, (await app([commandsGizmoFn(), i18nGizmoFn({ language: 'b' })])).app]
			const now = ['a', 'b']
			const told = [[], []]
			const subs = [0, 0]
			const expected = [0, 0]
			for (let i = 0; i < steps(S); i++) {
				const op = S.choose(`op${i}`, 5)
				const j = op === 2 ? 1 : op % 2
				const l = `${i}${S.str(`l${i}`, { max: 1 })}`
				if (op < 3) {
					// the command belongs to the application made last
					if (op === 2) setLanguageCommand(l)
					else as[j].i18n.setLanguage(l)
					for (const t of told[j].slice(-subs[j])) if (subs[j]) S.check('each hears both languages', S.is(t[0], l) && S.is(t[1], now[j]))
					now[j] = l
					expected[j] += subs[j]
				} else {
					as[j].i18n.languageChanged((n, o) => void told[j].push([n, o]))
					subs[j]++
				}
				ask(2, t => {
					for (const k of t ? [1, 0] : [0, 1]) {
						S.eq('the language is the one chosen last', as[k].i18n.getLanguage(), now[k])
						S.eq('each subscriber heard each change', told[k].length, expected[k])
					}
				})
			}
		}
	},
	'C19.watched': {
		bounds: '4 (thorough: 5) of {choose a symbolic language, choose that of the browser, clear, restart, the browser changes its language}, in two applications with one name or two; after each, both are asked, and what a new start would use',
		async run(S) {
			const storage = memStorage()
			const navigator = { language: 'xx' }
			const start = async name => (await app([commandsGizmoFn(), { create: async () => ({ browser: { localStorage: storage, navigator } }) }, browserI18nGizmo], { name })).app.i18n
			const same = S.choose('same', 2)
			const names = same ? ['n', 'n'] : ['n', 'N']
			const as = [await start(names[0]), await start(names[1])]
			const now = ['xx', 'xx']
			const kept = {}
			for (let i = 0; i < steps(S); i++) {
				const op = S.choose(`op${i}`, 8)
				const j = op % 2
				if (op < 2) {
					now[j] = `${i}${S.str(`l${i}`, { max: 1 })}`
					as[j].setLanguage(now[j])
					kept[names[j]] = now[j]
				} else if (op < 4) {
					now[j] = navigator.language
					as[j].setLanguage(now[j])
					kept[names[j]] = now[j]
				} else if (op < 6) {
					as[j].clearLanguage()
					now[j] = navigator.language
					delete kept[names[j]]
				} else if (op === 6) {
					as[0] = await start(names[0])
					now[0] = kept[names[0]] ?? navigator.language
				} else navigator.language = `yy${i}`
				for (const k of [0, 1]) {
					S.eq('the language is the one chosen', as[k].getLanguage(), now[k])
					S.eq('and remembered, else that of the browser', (await start(names[k])).getLanguage(), kept[names[k]] ?? navigator.language)
				}
			}
		}
	},
	'C15.watched': {
		bounds: '4 (thorough: 5) of {set, remove, clear, restart, an entry of others changes} in two applications with names of which one begins like the other; after each, both are read, also by a new start, and the storage is looked at',
		async run(S) {
			const storage = memStorage()
			const n = `n${S.str('n', { max: 2 })}`
			S.assume(!n.includes(':'))
			const names = [n, `${n}x`]
			const start = async name => (await app([commandsGizmoFn(), { create: async () => ({ browser: { localStorage: storage } }) }, browserPreferencesGizmo], { name })).app.preferences
			const ps = [await start(names[0]), await start(names[1])]
			const now = [undefined, undefined]
			const others = {}
			for (let i = 0; i < steps(S); i++) {
				const op = S.choose(`op${i}`, 8)
				const j = op % 2
				if (op < 2) ps[j].set('k', (now[j] = `${i}`))
				else if (op < 4) {
					ps[j].set('k', undefined)
					now[j] = undefined
				} else if (op < 6) {
					ps[j].clearAll()
					now[j] = undefined
				} else if (op === 6) ps[i % 2] = await start(names[i % 2])
				else storage.setItem('k', (others.k = `o${i}`))
				for (const k of [0, 1]) {
					S.eqz('it reads as set last', ps[k].get('k'), now[k])
					S.eqz('again', ps[k].get('k'), now[k])
					S.eqz('also after a restart', (await start(names[k])).get('k'), now[k])
				}
				S.eq('the storage has that, and what others put there', storage.length, now.filter(x => x !== undefined).length + Object.keys(others).length)
				S.check('unchanged', storage.getItem('k') === (others.k ?? null))
			}
		}
	}
}
