import { commandsGizmoFn } from '@just-web/commands'
import { keyboardGizmoFn } from '@just-web/keyboard'
import { nothing } from '@just-web/states'
import { clearAllUserPreferences, getUserPreference, memoryPreferencesGizmo, setUserPreference } from '@just-web/preferences'
import { browserPreferencesGizmo } from '@just-web/browser-preferences'
import { app } from './lib/app.js'
import { memStorage } from './lib/storage.js'
import { deferred, snapshot, value } from './lib/values.js'

const severe = es => es.filter(e => e.level === 'error' || e.level === 'critical' || e.level === 'alert' || e.level === 'emergency')
const browser = storage => ({ create: async () => ({ browser: { localStorage: storage } }) })
const make = (kind, storage, over) =>
	app([keyboardGizmoFn(), commandsGizmoFn(), ...(kind ? [browser(storage), browserPreferencesGizmo] : [memoryPreferencesGizmo])], over)
/** the three ways to reach the preferences of an application */
const reach = (via, a) =>
	via === 0
		? a.preferences
		: via === 1
			? { get: getUserPreference, set: setUserPreference, clearAll: clearAllUserPreferences }
			: {
					get: (...x) => a.commands.handlers.invoke(getUserPreference.id, ...x),
					set: (...x) => a.commands.handlers.invoke(setUserPreference.id, ...x),
					clearAll: () => a.commands.handlers.invoke(clearAllUserPreferences.id)
				}
const find = (model, k) => model.find(e => e[0] === k)
const put = (model, k, v) => {
	const e = find(model, k)
	if (v === undefined) return model.filter(x => x !== e)
	if (e) {
		e[1] = v
		return model
	}
	return [...model, [k, v]]
}

export const scenarios = {
	'C14.ops': {
		bounds: 'in memory and in browser storage; 2 (thorough: 3) of {set a symbolic string, remove by undefined, update by a handler returning a string, undefined or the nothing marker, clear all} over 2 symbolic keys (<=11 units, may coincide, may be inherited names); through the application, the commands or by command id; then lookups of a further symbolic key',
		async run(S) {
			const kind = S.choose('kind', 2)
			const storage = memStorage()
			const { app: a, entries } = await make(kind, storage)
			const p = reach(S.choose('via', 3), a)
			const keys = [S.str('k0'), S.str('k1')]
			let model = []
			const steps = S.thorough ? 3 : 2
			for (let i = 0; i < steps; i++) {
				const op = S.choose(`op${i}`, 6)
				const k = op === 5 ? undefined : keys[S.choose(`key${i}`, 2)]
				const old = op === 5 ? undefined : find(model, k)?.[1]
				let r
				let calls = 0
				const upd = v => x => {
					calls++
					S.eq('a handler is given the current value', x, old)
					return v
				}
				const v = op === 0 || op === 2 ? S.str(`v${i}`) : undefined
				if (op === 0) r = p.set(k, v)
				else if (op === 1) r = p.set(k, undefined)
				else if (op === 2) r = p.set(k, upd(v))
				else if (op === 3) r = p.set(k, upd(undefined))
				else if (op === 4) r = p.set(k, upd(nothing))
				else r = p.clearAll()
				if (op >= 2 && op <= 4) S.eq('a handler is called once', calls, 1)
				S.check('a synchronous change returns nothing', r === undefined)
				model = op === 5 ? [] : put(model, k, v)
				for (const key of keys) S.eq('a preference is what was set last', p.get(key), find(model, key)?.[1])
			}
			const q = S.str('q')
			const hit = find(model, q)
			S.eq('other keys have no value', p.get(q), hit?.[1])
			const d = S.str('default')
			S.eq('a default is given only when there is no value', p.get(q, d), hit ? hit[1] : d)
			S.eq('asking with a default stores nothing', p.get(q), hit?.[1])
			S.check('nothing is reported', severe(entries).length === 0)
			if (kind) S.eq('one entry is stored per preference', storage.length, model.length)
		}
	},
	'C14.async': {
		bounds: 'in memory and in browser storage; an asynchronous handler that resolves to a string, undefined or nothing, or rejects, with another preference set, all cleared, the same one set, or the same one updated by a second asynchronous handler that ends before or after it, while it is pending; or a handler that throws',
		async run(S) {
			const kind = S.choose('kind', 2)
			const { app: a } = await make(kind, memStorage())
			const k = S.str('k')
			const v0 = S.str('v0')
			const had = S.choose('had', 2)
			if (had) a.preferences.set(k, v0)
			const boom = new Error('boom')
			const what = S.choose('what', 5)
			if (what === 4) {
				let caught
				try {
					await a.preferences.set(k, () => {
						throw boom
					})
				} catch (e) {
					caught = e
				}
				S.check('a failure of the handler reaches the caller', caught === boom)
				S.eq('and changes nothing', a.preferences.get(k), had ? v0 : undefined)
				return
			}
			const d = deferred()
			const v1 = S.str('v1')
			const r = a.preferences.set(k, async x => {
				S.eq('the handler is given the current value', x, had ? v0 : undefined)
				return d.promise
			})
			S.check('the caller can wait', typeof r?.then === 'function')
			let seen
			const done = Promise.resolve(r).then(() => (seen = a.preferences.get(k)))
			S.eq('nothing changes before the handler is done', a.preferences.get(k), had ? v0 : undefined)
			const other = S.str('other')
			S.assumeNe(other, k)
			const meanwhile = S.choose('meanwhile', 6)
			const v2 = S.str('v2')
			if (meanwhile === 1) a.preferences.set(other, 'o')
			if (meanwhile === 2) a.preferences.clearAll()
			if (meanwhile === 3) a.preferences.set(k, v2)
			const d2 = deferred()
			const r2 = meanwhile > 3 ? a.preferences.set(k, async () => d2.promise) : undefined
			if (meanwhile === 4) {
				d2.resolve(v2)
				await r2
				S.eq('a second update is applied when it ends', a.preferences.get(k), v2)
			}
			if (what === 3) d.reject(boom)
			else d.resolve(what === 0 ? v1 : what === 1 ? undefined : nothing)
			let caught
			await done.catch(e => (caught = e))
			if (meanwhile === 5) {
				S.eq('the first one too', a.preferences.get(k), what === 3 ? (had ? v0 : undefined) : what === 0 ? v1 : undefined)
				d2.resolve(v2)
				await r2
				S.eq('whatever the order', a.preferences.get(k), v2)
			}
			if (what === 3) {
				S.check('a rejection reaches the caller', caught === boom)
				S.eq('and changes nothing', a.preferences.get(k), meanwhile > 2 ? v2 : had && meanwhile < 2 ? v0 : undefined)
			} else {
				S.check('no failure is made up', caught === undefined)
				S.eq('once the caller is told, the value is there', seen, what === 0 ? v1 : undefined)
				S.eq('what was set meanwhile stays', a.preferences.get(other), meanwhile === 1 ? 'o' : undefined)
			}
			S.check('nothing is left unhandled', S.unhandled().length === 0)
		}
	},
	'C15.restart': {
		bounds: 'browser storage with a foreign entry; symbolic application name without a colon, 2 symbolic keys and values; restart under the same or another symbolic name; then clear all in either',
		async run(S) {
			const storage = memStorage()
			const name = S.str('name')
			const foreign = S.str('foreign')
			S.assume(!foreign.includes(':'))
			S.assume(!name.includes(':'))
			storage.setItem(foreign, 'x')
			const A = (await make(1, storage, { name })).app
			const k0 = S.str('k0')
			const v0 = S.str('v0')
			const k1 = S.str('k1')
			const v1 = S.str('v1')
			A.preferences.set(k0, v0)
			A.preferences.set(k1, v1)
			const name2 = S.choose('same', 2) ? name : S.str('name2')
			S.assume(!name2.includes(':'))
			const B = (await make(1, storage, { name: name2 })).app
			const same = name2 === name
			S.eq('preferences survive a restart, and only for the same application', B.preferences.get(k1), same ? v1 : undefined)
			S.eq('all of them', B.preferences.get(k0), same ? (k0 === k1 ? v1 : v0) : undefined)
			for (const [k, v] of storage.__entries) if (k !== foreign) S.check('values are stored encoded', v === '' || S.is(v, S.fn('enc', k0 === k1 ? v1 : v0)) || S.is(v, S.fn('enc', v1)))
			const who = S.choose('who', 3)
			if (who === 1) A.preferences.clearAll()
			if (who === 2) B.preferences.clearAll()
			const gone = who === 1 || (who === 2 && same)
			S.eq('clearing removes exactly the preferences of the application', A.preferences.get(k0), gone ? undefined : k0 === k1 ? v1 : v0)
			S.eq('all of them are gone, or all are kept', A.preferences.get(k1), gone ? undefined : v1)
			S.eq('other entries of the storage are left alone', storage.getItem(foreign), 'x')
			S.eq('nothing else is stored', storage.length, gone ? 1 : k0 === k1 ? 2 : 3)
		}
	},
	'C15.clear': {
		bounds: '3 (thorough: 4) preferences of one application and 2 entries of others interleaved in the storage; clear all',
		async run(S) {
			const storage = memStorage()
			const n = S.thorough ? 4 : 3
			const A = (await make(1, storage, { name: 'app' })).app
			const f0 = S.str('f0', { max: 7 })
			S.assume(!f0.startsWith('app:'))
			const at = S.choose('at', n + 1)
			for (let i = 0; i < n; i++) {
				if (at === i) storage.setItem(f0, 'x')
				A.preferences.set(`k${i}`, S.str(`v${i}`))
			}
			if (at === n) storage.setItem(f0, 'x')
			A.preferences.clearAll()
			for (let i = 0; i < n; i++) S.eq('every preference of the application is removed', A.preferences.get(`k${i}`), undefined)
			S.eq('nothing is left behind', storage.length, 1)
			S.eq('entries of others are kept', storage.getItem(f0), 'x')
		}
	},
	'C15.colon': {
		bounds: 'two applications with different symbolic names, also with colons (<=3 units each), one symbolic key each (<=3 units)',
		async run(S) {
			const storage = memStorage()
			const na = S.str('na', { max: 3 })
			const nb = S.str('nb', { max: 3 })
			S.assumeNe(na, nb)
			const ka = S.str('ka', { max: 3 })
			const kb = S.str('kb', { max: 3 })
			const A = (await make(1, storage, { name: na })).app
			const B = (await make(1, storage, { name: nb })).app
			A.preferences.set(ka, 'a')
			B.preferences.set(kb, 'b')
			if (!na.includes(':') && !nb.includes(':')) S.eq('names without a colon never collide', A.preferences.get(ka), 'a')
			else S.eq('applications whose names contain a colon keep their preferences apart', A.preferences.get(ka), 'a')
		}
	},
	'C15.failures': {
		bounds: 'browser storage that refuses to store (quota) on a symbolic occasion; set directly, by a handler or by an asynchronous handler',
		async run(S) {
			let refuse = false
			const boom = new Error('quota')
			const storage = memStorage({
				set() {
					if (refuse) throw boom
				}
			})
			const A = (await make(1, storage)).app
			const k = S.str('k')
			const v0 = S.str('v0')
			A.preferences.set(k, v0)
			refuse = true
			const v1 = S.str('v1')
			const how = S.choose('how', 3)
			let caught
			try {
				await A.preferences.set(k, how === 0 ? v1 : how === 1 ? () => v1 : async () => v1)
			} catch (e) {
				caught = e
			}
			S.check('the failure reaches the caller', caught === boom)
			S.eq('the previous value stays', A.preferences.get(k), v0)
			S.check('nothing is left unhandled', S.unhandled().length === 0)
		}
	},
	'C16.values': {
		bounds: 'in memory and in browser storage; default absent or an object; 2 (thorough: 3) of {set a symbolic JSON value, set undefined, handler returning a value, the nothing marker, or changing the value in place, each synchronous or asynchronous}; finite numbers; 0 and -0 alike',
		async run(S) {
			const kind = S.choose('kind', 2)
			const { app: a } = await make(kind, memStorage())
			const key = S.str('key')
			const withDefault = S.choose('default', 2)
			const def = withDefault ? { p: S.num('dp'), q: { r: 'd' } } : undefined
			if (withDefault) S.assumeFinite(def.p)
			const defCopy = snapshot(def)
			const store = a.preferences.createStore(key, def)
			S.deepz('a store without value has the default', store.get(), defCopy)
			let current
			const now = () => (current === undefined ? defCopy : current)
			const steps = S.thorough ? 3 : 2
			for (let i = 0; i < steps; i++) {
				const op = S.choose(`op${i}`, 8)
				const json = () => {
					const n = S.num(`n${i}`)
					S.assumeFinite(n)
					const w = S.choose(`kind${i}`, i ? 3 : 6)
					return w === 0 ? { p: n, q: { r: S.str(`s${i}`) } } : w === 1 ? null : w === 2 ? [n, S.str(`s${i}`)] : w === 3 ? n : w === 4 ? S.str(`s${i}`) : false
				}
				const prev = snapshot(now())
				const given = x => S.deepz('a handler is given the current value, or else the default', x, prev)
				let r
				if (op === 0) {
					const v = json()
					r = store.set(v)
					current = snapshot(v)
					if (v && typeof v === 'object' && !Array.isArray(v)) v.q = 'changed by its owner later'
				} else if (op === 1) {
					r = store.set(undefined)
					current = undefined
				} else if (op === 2 || op === 3) {
					const v = json()
					const f = x => {
						given(x)
						return v
					}
					r = store.set(op === 2 ? f : async x => f(x))
					current = snapshot(v)
				} else if (op === 4 || op === 5) {
					r = store.set(op === 4 ? () => nothing : async () => nothing)
					current = undefined
				} else {
					const s = S.str(`in${i}`)
					const inPlace = prev && typeof prev === 'object' && !Array.isArray(prev)
					const f = x => {
						given(x)
						if (inPlace) {
							x.q = s
							x[`extra${i}`] = i
						}
					}
					r = store.set(
						op === 6
							? f
							: async x => {
									await undefined
									f(x)
								}
					)
					current = inPlace ? { ...prev, q: s, [`extra${i}`]: i } : prev
				}
				const isAsync = op === 3 || op === 5 || op === 7
				S.check('a change can be waited for when its handler is asynchronous, otherwise it is immediate', isAsync ? typeof r?.then === 'function' : r === undefined)
				if (isAsync) await r
				S.deepz('the store has the value set', store.get(), now())
			}
			S.deepz('the default is never modified', def, defCopy)
			S.deepz('another store of the key has the same value', a.preferences.createStore(key).get(), current)
			const other = S.str('other')
			S.assumeNe(other, key)
			S.eq('other keys are not touched', a.preferences.get(other), undefined)
			const got = store.get()
			if (current !== undefined && got && typeof got === 'object') {
				got.p = 'scribbled'
				S.deepz('values handed out are copies', store.get(), current)
			}
			a.preferences.clearAll()
			S.deepz('clearing all restores the default', store.get(), defCopy)
		}
	},
	'C16.names': {
		bounds: 'a JSON value whose objects have the names __proto__, constructor, toString, length, toJSON, the empty one or a symbolic one, at the top or nested, in memory and in browser storage; set, returned by a handler, kept by an in-place update, or given as the default',
		async run(S) {
			const storage = memStorage()
			const kind = S.choose('kind', 2)
			const { app: a } = await make(kind, storage)
			const name = ['__proto__', 'constructor', 'toString', 'length', 'toJSON', '', undefined][S.choose('name', 7)] ?? S.str('n')
			S.assume(name !== 'y' && name !== 'z')
			const x = S.str('x')
			const o = () => Object.defineProperty({ y: 1 }, name, { value: x, enumerable: true, writable: true, configurable: true })
			const nested = S.choose('nested', 3)
			const mk = () => (nested === 0 ? o() : nested === 1 ? { l: [o()] } : [o(), 1])
			const of = v => (nested === 0 ? v : nested === 1 ? v.l[0] : v[0])
			const how = S.choose('how', 4)
			const s = how === 3 ? a.preferences.createStore('k', mk()) : a.preferences.createStore('k')
			if (how < 3) s.set(how === 1 ? () => mk() : mk())
			if (how === 2)
				s.set(v => {
					of(v).z = 2
				})
			for (const st of kind && how < 3 ? [s, (await make(kind, storage)).app.preferences.createStore('k')] : [s]) {
				const r = of(st.get())
				S.check('an entry of any name comes back', Object.prototype.hasOwnProperty.call(r, name))
				S.eq('with its value', Object.getOwnPropertyDescriptor(r, name).value, x)
				S.check('and nothing else', Object.keys(r).length === (how === 2 ? 3 : 2) && Object.getPrototypeOf(r) === Object.prototype)
			}
		}
	},
	'C16.pending': {
		bounds: 'in memory and in browser storage; value there or default; an asynchronous update of a store, returning a value, in place, or rejecting, with the preference set, cleared, or updated by a second asynchronous handler while it is pending, in either order of ending',
		async run(S) {
			const { app: a } = await make(S.choose('kind', 2), memStorage())
			const key = S.str('key')
			const def = { l: ['d'] }
			const store = a.preferences.createStore(key, def)
			const had = S.choose('had', 2)
			const v0 = S.str('v0')
			if (had) store.set({ l: [v0] })
			const old = () => ({ l: [had ? v0 : 'd'] })
			const d = deferred()
			const what = S.choose('what', 3)
			const v1 = S.str('v1')
			const boom = new Error('boom')
			const r = store.set(async x => {
				S.deep('a handler is given the current value, or else the default', x, old())
				await d.promise
				if (what === 0) return { l: [v1] }
				if (what === 1) x.l.push(v1)
				else throw boom
			})
			S.check('the caller can wait', typeof r?.then === 'function')
			S.deep('nothing changes before it ends', store.get(), old())
			const result = what === 0 ? { l: [v1] } : what === 1 ? { l: [had ? v0 : 'd', v1] } : undefined
			let current = old()
			const v2 = S.str('v2')
			const meanwhile = S.choose('meanwhile', 4)
			const d2 = deferred()
			if (meanwhile === 1) store.set((current = { l: [v2] }))
			if (meanwhile === 2) {
				a.preferences.clearAll()
				current = { l: ['d'] }
			}
			const r2 =
				meanwhile === 3
					? store.set(async x => {
							await d2.promise
							x.l[0] = v2
						})
					: undefined
			const early = S.choose('early', 2)
			const second = async () => {
				d2.resolve()
				await r2
				current = { l: [v2] }
				S.deep('a second update is applied as well', store.get(), current)
			}
			if (meanwhile === 3 && early) await second()
			S.deep('what is done meanwhile is seen at once', store.get(), current)
			d.resolve()
			let caught
			await r.then(
				() => S.deep('once the caller is told, the value is there', store.get(), result),
				e => (caught = e)
			)
			S.check('a failure, and nothing else, reaches the caller', caught === (what === 2 ? boom : undefined))
			if (what < 2) current = result
			S.deep('the update is applied, or nothing', store.get(), current)
			if (meanwhile === 3 && !early) await second()
			S.deep('the default is never modified', def, { l: ['d'] })
			S.check('nothing is left unhandled', S.unhandled().length === 0)
		}
	},
	'C16.numbers': {
		bounds: 'symbolic doubles (also NaN and infinities, which JSON turns into null), strings and booleans, nested once',
		async run(S) {
			const { app: a } = await make(S.choose('kind', 2), memStorage())
			const store = a.preferences.createStore('k')
			const v = value(S, 'v', ['number', 'string', 'boolean', 'null', 'object', 'array', 'emptyobj'])
			store.set(v)
			const norm = x => (typeof x === 'number' && !(x > -Infinity && x < Infinity) ? null : Array.isArray(x) ? x.map(norm) : x && typeof x === 'object' ? Object.fromEntries(Object.entries(x).map(([k, y]) => [k, norm(y)])) : x)
			S.deepz('a JSON value comes back as it was', store.get(), norm(v))
		}
	},
	'C17.nested': {
		bounds: 'a handler that, while it works, sets, updates, removes or clears preferences (the same key or another) in its own application or another one, directly, by command or through a store; symbolic values; memory or browser; synchronous or not',
		async run(S) {
			const kind = S.choose('kind', 2)
			const storage = memStorage()
			const A = (await make(kind, storage, { name: 'a' })).app
			const B = (await make(kind, storage, { name: 'b' })).app
			for (const a of [A, B]) {
				a.preferences.set('k', 'k0')
				a.preferences.set('o', 'o0')
			}
			const v = S.str('v')
			const w = S.str('w')
			const other = S.choose('other', 2)
			const T = other ? B : A
			const at = S.choose('at', 2) ? 'k' : 'o'
			const what = S.choose('what', 5)
			const wait = S.choose('wait', 2)
			const act = () => {
				if (what === 0) T.preferences.set(at, w)
				else if (what === 1)
					T.preferences.set(at, x => {
						S.eq('a handler within a handler is given what is there', x, `${at}0`)
						return w
					})
				else if (what === 2) T.preferences.set(at, undefined)
				else if (what === 3) T.preferences.clearAll()
				else T.preferences.createStore(at).set(JSON.parse(`"${at}"`))
				S.eq('it takes effect at once', T.preferences.get(at), what < 2 ? w : what < 4 ? undefined : `"${at}"`)
			}
			const r = A.preferences.set('k', x => {
				S.eq('the outer one as well', x, 'k0')
				if (!wait) {
					act()
					return v
				}
				return Promise.resolve().then(act).then(() => v)
			})
			if (wait) await r
			S.eq('the value returned is there in the end', A.preferences.get('k'), v)
			const changed = what < 2 ? w : what < 4 ? undefined : `"${at}"`
			const expected = (t, k) => (T === t && (what === 3 || at === k) ? (what === 3 ? undefined : changed) : `${k}0`)
			S.eq('and so is what it changed', A.preferences.get('o'), expected(A, 'o'))
			S.eq('in the other application', B.preferences.get('o'), expected(B, 'o'))
			S.eq('under either key', B.preferences.get('k'), expected(B, 'k'))
		}
	},
	'C17.apps': {
		bounds: 'two applications (in memory, in browser storage, or one of each; of the same name, unless both in browser storage) created in either order; symbolic keys and values; get, set, update, clear and stores in either',
		async run(S) {
			const ka = S.choose('kinda', 2)
			const kb = S.choose('kindb', 2)
			const storage = memStorage()
			const A = (await make(ka, storage, { name: 'a', id: 'x' })).app
			const alike = ka + kb < 2 ? S.choose('alike', 2) : 0
			const B = (await make(kb, storage, { name: alike ? 'a' : 'b', id: 'y' })).app
			const k = S.str('k')
			const va = S.str('va')
			const vb = S.str('vb')
			const first = S.choose('first', 2)
			if (first) A.preferences.set(k, va)
			B.preferences.set(k, vb)
			if (!first) A.preferences.set(k, va)
			S.eq('an application reads its own preferences', A.preferences.get(k), va)
			S.eq('each of them', B.preferences.get(k), vb)
			const op = S.choose('op', 5)
			const v2 = S.str('v2')
			if (op === 4) {
				A.preferences.set(k, '[1]')
				A.preferences.createStore(k).set(v => void v.push(v2))
			}
			if (op === 0) A.preferences.clearAll()
			if (op === 1) A.preferences.set(k, undefined)
			if (op === 2)
				A.preferences.set(k, x => {
					S.eq('a handler is given the value of its application', x, va)
					return v2
				})
			if (op === 3) A.preferences.createStore(k).set(v2)
			S.eq('changes in one application', A.preferences.get(k), op < 2 ? undefined : op === 2 ? v2 : JSON.stringify(op === 3 ? v2 : [1, v2]))
			S.eq('never reach another', B.preferences.get(k), vb)
		}
	},
	'C17.override': {
		bounds: 'an application replaces the implementation of reading, writing or clearing (by command id, before or after); symbolic key and values',
		async run(S) {
			const { app: a } = await make(S.choose('kind', 2), memStorage())
			const k = S.str('k')
			const v = S.str('v')
			const calls = []
			const what = S.choose('what', 3)
			const how = S.choose('how', 2)
			const cmd = [getUserPreference, setUserPreference, clearAllUserPreferences][what]
			const h = (...args) => {
				calls.push(args)
				return what === 0 ? 'mine' : undefined
			}
			if (how) a.commands.handlers.register(cmd.id, h)
			else cmd.connect(a, h)
			if (what === 0) {
				S.eq('the replaced implementation answers', a.preferences.get(k, v), 'mine')
				S.check('with the arguments given', calls[0][0] === k && calls[0][1] === v)
			} else if (what === 1) {
				a.preferences.set(k, v)
				S.check('the replaced implementation is called with the arguments given', calls[0][0] === k && calls[0][1] === v)
				S.eq('instead of the original', a.preferences.get(k), undefined)
			} else {
				a.preferences.set(k, v)
				a.preferences.clearAll()
				S.check('the replaced implementation is called', calls.length === 1)
				S.eq('instead of the original', a.preferences.get(k), v)
			}
			if (what < 2) {
				calls.length = 0
				const s = a.preferences.createStore(k)
				if (what === 0) {
					a.commands.handlers.register(cmd.id, key => {
						calls.push(key)
						return '[1]'
					})
					S.deep('stores use it too', s.get(), [1])
				} else if (S.choose('update', 2)) s.set(() => [1])
				else s.set([1])
				S.check('with their key', calls.length === 1 && (what === 0 ? calls[0] : calls[0][0]) === k)
			}
			S.check('the commands are discoverable', a.commands.contributions.has(clearAllUserPreferences.id))
		}
	}
}
