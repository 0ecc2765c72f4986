import { adder, createRegistry, createState, createStore, isNothing, nothing, push, toReadonlyRegistry, toReadonlyStore, unshift, withAdder } from '@just-web/states'
import { deferred, silent, snapshot, value } from './lib/values.js'

const meta = () => ({ logger: silent() })
const chain = (S, calls, first, label = 'previous value of a notification is the value before the change') => {
	let prev = first
	for (const c of calls) {
		S.eq(label, c[1], prev)
		prev = c[0]
	}
	return prev
}

export const scenarios = {
	// ------------------------------------------------------------------ C01
	'C01.history': {
		bounds: 'quick: 3 operations, thorough: 4, from {set a value, set via updater, reset, re-set the current value}; values symbolic numbers/strings, undefined, null, booleans, objects',
		async run(S) {
			const kinds = ['number', 'string', 'undefined', 'null', 'false', 'object']
			const init = value(S, 'init', ['number', 'object', 'undefined'])
			const store = createStore(init, meta())
			const calls = [[], []]
			const inside = []
			store.onChange((v, p) => {
				calls[0].push([v, p])
				inside.push([v, store.get()])
			})
			store.onChange((v, p) => {
				S.check('handlers run in subscription order', calls[0].length === calls[1].length + 1)
				calls[1].push([v, p])
			})
			S.eq('initial value is readable', store.get(), init)
			let cur = init
			let n = 0
			const steps = S.thorough ? 4 : 3
			for (let i = 0; i < steps; i++) {
				const before = calls[0].length
				const op = S.choose(`op${i}`, 4)
				if (op === 0) {
					const v = value(S, `v${i}`, kinds)
					const same = S.is(v, cur)
					const r = store.set(v)
					S.eq('set returns the value', r, v)
					S.eq('the value read is the last value set', store.get(), v)
					S.check('a change notifies once, an identical value never', calls[0].length === before + (same ? 0 : 1))
					if (!same) {
						S.eq('handlers receive the new value', calls[0][before][0], v)
						S.eq('handlers receive the previous value', calls[0][before][1], cur)
					}
					cur = v
				} else if (op === 1) {
					const v = value(S, `v${i}`, ['number', 'null', 'false', 'string'])
					const same = S.is(v, cur)
					let arg
					const r = store.set(d => {
						arg = snapshot(d)
						return v
					})
					S.eq('an updater setter returns the new value', r, v)
					S.deep('an updater receives the current value', arg, snapshot(cur))
					S.eq('the value read is the updater result', store.get(), v)
					if (!same) {
						S.check('an updater that changes the value notifies once', calls[0].length === before + 1)
						S.eq('handlers receive the updated value', calls[0][before][0], v)
						S.eq('handlers receive the value before the update', calls[0][before][1], cur)
					}
					cur = v
				} else if (op === 2) {
					const same = S.is(init, cur)
					store.reset()
					S.eq('reset restores the initial value', store.get(), init)
					S.check('reset notifies exactly when the value changes', calls[0].length === before + (same ? 0 : 1))
					if (!same) {
						S.eq('reset reports the initial value', calls[0][before][0], init)
						S.eq('reset reports the previous value', calls[0][before][1], cur)
					}
					cur = init
				} else {
					store.set(store.get())
					S.check('setting the current value again is silent', calls[0].length === before)
				}
				n = calls[0].length
				S.check('every handler sees every change', calls[1].length === n)
			}
			for (const [v, g] of inside) S.eq('a handler already reads the new value', g, v)
			chain(S, calls[0], init)
			S.observe('calls', calls[0])
			S.observe('value', store.get())
		}
	},
	'C01.state': {
		bounds: '3 operations on the functional form; symbolic values',
		async run(S) {
			const init = value(S, 'init', ['number', 'string', 'array', 'null'])
			const [first, set, onChange, reset] = createState(init, meta())
			S.eq('initial value is returned', first, init)
			const calls = []
			onChange((v, p) => calls.push([v, p]))
			let cur = init
			for (let i = 0; i < 3; i++) {
				const before = calls.length
				const op = S.choose(`op${i}`, 2)
				let v
				if (op === 0) {
					v = value(S, `v${i}`, ['number', 'string', 'undefined', 'object'])
					S.eq('set returns the value', set(v), v)
				} else {
					v = init
					reset()
				}
				const same = S.is(v, cur)
				S.check('one notification per change', calls.length === before + (same ? 0 : 1))
				cur = v
			}
			S.eq('the last notification carries the current value', calls.length ? calls[calls.length - 1][0] : init, cur)
			chain(S, calls, init)
		}
	},
	'C01.alike': {
		bounds: 'two distinct values that look alike: dates, expressions, maps, sets, class instances, arrays, objects, frozen objects, errors, proxies, boxed texts, with or without equal symbolic content; store, state, registry',
		async run(S) {
			class Point {
				constructor(x) {
					this.x = x
				}
			}
			const x = S.num('x')
			const y = S.choose('sameContent', 2) ? x : S.num('y')
			const mk = [
				() => new Date(5),
				() => /a+/g,
				() => new Map([[1, 2]]),
				() => new Set([1]),
				v => new Point(v),
				v => [v],
				v => ({ v }),
				v => Object.freeze({ v }),
				() => new Error('e'),
				() => new Proxy({}, {}),
				() => new String('s'),
				() => [],
				() => ({})
			][S.choose('what', 13)]
			const [a, b] = [mk(x), mk(y)]
			const kind = S.choose('kind', 2)
			const later = S.choose('later', 2)
			let get
			let set
			let on
			if (kind) {
				const store = createStore(later ? 0 : a, meta())
				get = store.get
				set = store.set
				on = store.onChange
			} else {
				const [init, s, o] = createState(later ? 0 : a, meta())
				let cur = init
				o(v => (cur = v))
				get = () => cur
				set = s
				on = o
			}
			if (later) set(a)
			S.check('a value is kept as given', get() === a)
			const calls = []
			on((v, p) => calls.push([v, p]))
			S.check('another value is returned', set(b) === b)
			S.check('and kept, however alike', get() === b)
			S.check('it is told, with the one before', calls.length === 1 && calls[0][0] === b && calls[0][1] === a)
			set(b)
			S.check('the same one again is not', calls.length === 1)
			set(a)
			S.check('going back is', get() === a && calls.length === 2 && calls[1][0] === a && calls[1][1] === b)
		}
	},
	'C01.functions': {
		bounds: 'initial value is a function: 3 sets of functions or values',
		async run(S) {
			const f0 = () => 0
			const store = createStore(f0, meta())
			const calls = []
			store.onChange((v, p) => calls.push([v, p]))
			let cur = f0
			for (let i = 0; i < 3; i++) {
				const k = S.choose(`k${i}`, 4)
				let ran = 0
				const v = k === 0 ? f0 : k === 1 ? () => (ran++, 1) : k === 2 ? undefined : S.num(`v${i}`)
				store.set(v)
				S.check('a function stored as a value is not called', ran === 0)
				S.eq('the function is the value', store.get(), v)
				const same = S.is(v, cur)
				if (!same) {
					S.eq('function change is notified', calls[calls.length - 1][0], v)
					S.eq('function change reports previous', calls[calls.length - 1][1], cur)
				}
				cur = v
			}
			store.reset()
			S.eq('reset restores the function', store.get(), f0)
		}
	},
	'C01.reentrant': {
		bounds: 'a handler that sets another value, updates to it or resets while being notified; 2 outer changes, 1 nested level',
		async run(S) {
			const init = S.num('init')
			const store = createStore(init, meta())
			const calls = []
			const how = S.choose('how', 3)
			const target = how === 2 ? init : S.num('target')
			const which = S.choose('position', 2)
			const h = (v, p) => void calls.push([v, p])
			let nested = false
			const re = () => {
				if (nested) return
				nested = true
				if (how === 0) store.set(target)
				else if (how === 1) {
					S.assume(!S.is(store.get(), target))
					store.set(() => target)
				} else store.reset()
				S.eq('a nested set takes effect at once', store.get(), target)
			}
			if (which) store.onChange(h)
			store.onChange(re)
			if (!which) store.onChange(h)
			const v1 = S.num('v1')
			const c1 = !S.is(v1, init)
			store.set(v1)
			S.eq('the last value set wins over the outer change', store.get(), c1 ? target : v1)
			const v2 = S.num('v2')
			const cur = store.get()
			const fired = nested
			store.set(v2)
			if (fired) S.eq('later changes still take effect', store.get(), v2)
			S.check('handlers are never called for a change from a value to itself', calls.every(([v, p]) => !S.is(v, p)))
			// every change, however it was made, exactly once
			const changes = []
			let x = init
			const change = y => {
				if (!S.is(x, y)) changes.push([y, x])
				x = y
			}
			change(v1)
			if (fired && c1) change(target)
			change(v2)
			if (!(fired && c1)) change(store.get())
			S.eq('each change is told once, the nested one as well', calls.length, changes.length)
			for (const [y, old] of changes) S.check('with its value and the one it replaced', calls.some(c => S.is(c[0], y) && S.is(c[1], old)))
			S.observe('calls', calls)
		}
	},
	'C01.nestedOrder': {
		bounds: 'a subscriber that sets another value while being told; a further one subscribed after it',
		async run(S) {
			const store = createStore('', meta())
			const calls = []
			const v = `v${S.str('v')}`
			const w = `w${S.str('w')}`
			store.onChange(() => void store.set(w))
			store.onChange((now, old) => void calls.push([now, old]))
			store.set(v)
			S.check('a subscriber after one that changes the state is told the changes in their order', calls.length === 2 && S.is(calls[0][0], v) && S.is(calls[1][0], w))
		}
	},
	// ------------------------------------------------------------------ C02
	'C02.subscriptions': {
		bounds: 'quick: 4 operations, thorough: 5, from {subscribe h1|h2|h3, call the first/last dispose of a handler, change the value}',
		async run(S) {
			const store = createStore(0, meta())
			let counts = [0, 0, 0]
			const order = []
			const hs = [0, 1, 2].map(i => function handler() {
				counts[i]++
				order.push(i)
			})
			// model: subscribed handlers in order; each dispose belongs to the subscription that was live
			let live = []
			const disposes = []
			let v = 0
			const fire = label => {
				counts = [0, 0, 0]
				order.length = 0
				store.set(++v)
				for (let i = 0; i < 3; i++) S.eq(label, counts[i], live.includes(i) ? 1 : 0)
				S.deep('notification follows subscription order', [...order], live)
			}
			const steps = S.thorough ? 5 : 4
			for (let s = 0; s < steps; s++) {
				const op = S.choose(`op${s}`, 5)
				if (op < 3) {
					const dup = live.includes(op)
					const dispose = store.onChange(hs[op])
					disposes.push({ h: op, dispose, own: !dup })
					if (!dup) live = [...live, op]
				} else if (op === 3) {
					if (!disposes.length) continue
					const d = disposes[S.choose(`d${s}`, disposes.length)]
					d.dispose()
					if (d.own) {
						// a dispose ends the subscription it came from; afterwards it does nothing
						if (!d.used && live.includes(d.h) && latest(disposes, d.h) === d) live = live.filter(x => x !== d.h)
						else if (live.includes(d.h) && latest(disposes, d.h) !== d) S.assume(false) // stale dispose of a re-subscribed handler: unspecified
						d.used = true
					}
				} else fire('every live handler, and no other, is notified once')
			}
			fire('every live handler, and no other, is notified once (final)')
			S.observe('live', live)
		}
	},
	'C02.double': {
		bounds: '3 handlers, one disposed 1..3 times, optionally after another was disposed',
		async run(S) {
			const [, set, onChange] = createState(0, meta())
			const counts = [0, 0, 0]
			const ds = [0, 1, 2].map(i => onChange(() => void counts[i]++))
			const a = S.choose('first', 3)
			const b = S.choose('second', 4)
			const times = 1 + S.choose('times', 3)
			for (let i = 0; i < times; i++) ds[a]()
			if (b < 3) ds[b]()
			ds[a]()
			set(1)
			for (let i = 0; i < 3; i++) S.eq('a repeated dispose leaves other subscriptions alone', counts[i], i === a || i === b ? 0 : 1)
		}
	},
	'C02.during': {
		bounds: '3 handlers; one of them disposes of any one handler or subscribes another while being notified',
		async run(S) {
			const store = createStore(S.num('init'), meta())
			const counts = [0, 0, 0, 0]
			const actor = S.choose('actor', 3)
			const act = S.choose('act', 4)
			const ds = []
			let done = false
			for (let i = 0; i < 3; i++)
				ds.push(
					store.onChange(() => {
						counts[i]++
						if (i !== actor || done) return
						done = true
						if (act < 3) ds[act]()
						else store.onChange(() => void counts[3]++)
					})
				)
			const v = S.num('v')
			S.assumeNe(v, store.get())
			store.set(v)
			for (let i = 0; i < 3; i++)
				if (act === 3 || i !== act || i === actor) S.eq('handlers not disposed are notified although another one unsubscribes', counts[i], 1)
				else if (act > actor || act < 3) S.check('a handler is notified at most once per change', counts[i] <= 1)
			S.eq('a handler subscribed while notifying is not told what changed before', counts[3], 0)
			const w = S.num('w')
			S.assumeNe(w, v)
			const before = [...counts]
			store.set(w)
			for (let i = 0; i < 3; i++) S.eq('the next change reaches exactly the remaining handlers', counts[i] - before[i], act < 3 && i === act ? 0 : 1)
			if (act === 3) S.eq('a handler subscribed while notifying gets the next change', counts[3] - before[3], 1)
		}
	},
	'C02.registry': {
		bounds: 'subscriptions on registries and on read-only views behave the same; 2 handlers, dispose either, twice',
		async run(S) {
			const r = S.choose('kind', 2) ? createRegistry({}, meta()) : createStore({}, meta())
			const ro = S.choose('view', 2)
			const src = ro ? (r.keys ? toReadonlyRegistry(r) : toReadonlyStore(r)) : r
			const counts = [0, 0]
			const ds = [0, 1].map(i => src.onChange(() => void counts[i]++))
			const a = S.choose('a', 2)
			ds[a]()
			ds[a]()
			const k = S.str('k')
			r.set(m => {
				m[k + '!'] = 1
			})
			S.eq('disposed is silent', counts[a], 0)
			S.eq('the other is notified', counts[1 - a], 1)
		}
	},
	// ------------------------------------------------------------------ C03
	'C03.updaters': {
		bounds: 'quick: 2 updates, thorough: 3, of {write a field, nested field, push, delete, replace, return the cleared marker, throw before/after a write, write and return}; symbolic field values',
		async run(S) {
			const init = { a: S.num('a0'), b: { c: S.str('c0') }, l: [S.num('l0')] }
			const store = createStore(init, meta())
			const calls = []
			store.onChange((v, p) => calls.push([v, p]))
			const snaps = []
			let model = snapshot(init)
			const steps = S.thorough ? 3 : 2
			for (let i = 0; i < steps; i++) {
				const cur = store.get()
				snaps.push([cur, snapshot(cur)])
				const before = calls.length
				const op = S.choose(`op${i}`, 10)
				const x = op === 0 || op === 6 || op === 8 ? S.num(`x${i}`) : S.str(`x${i}`)
				if (model === undefined || typeof model !== 'object') S.assume(op === 4 || op === 5)
				const next = snapshot(model)
				let failed = false
				let r
				const boom = new Error('boom')
				const upd = {
					0: d => {
						d.a = x
					},
					1: d => {
						d.b.c = x
					},
					2: d => {
						d.l.push(x)
					},
					3: d => {
						delete d.a
					},
					4: () => ({ a: x, b: { c: x }, l: [] }),
					5: () => nothing,
					6: d => {
						d.a = x
						d.b.c = 'partial'
						d.l.push(1)
						throw boom
					},
					7: () => {
						throw boom
					},
					8: d => {
						d.a = x
						d.l.unshift(x)
					},
					9: d => {
						d.l = []
						d.b = { c: x }
					}
				}[op]
				if (op === 0) next.a = x
				if (op === 1) next.b.c = x
				if (op === 2) next.l.push(x)
				if (op === 3) delete next.a
				if (op === 8) {
					next.a = x
					next.l.unshift(x)
				}
				if (op === 9) {
					next.l = []
					next.b = { c: x }
				}
				const fails = op === 6 || op === 7
				try {
					r = store.set(upd)
				} catch (e) {
					failed = true
					S.check('the updater failure reaches the caller', e === boom)
				}
				S.check('exactly the failing updaters throw', failed === fails)
				if (fails) {
					S.check('a failed update leaves the value untouched', store.get() === cur)
					S.check('a failed update notifies nobody', calls.length === before)
				} else {
					model = op === 4 ? { a: x, b: { c: x }, l: [] } : op === 5 ? undefined : next
					S.deepz('the updated value is what the updater described', store.get(), model)
					S.deepz('the setter returns the updated value', r, model)
					if (store.get() !== cur) {
						S.check('an update notifies once', calls.length === before + 1)
						S.check('the previous value is the identical earlier value', calls[before] && calls[before][1] === cur)
						S.check('the new value is the one readable', calls[before] && calls[before][0] === store.get())
					}
					if (op === 0 && i === 0) S.check('untouched parts are shared', store.get().b === cur.b && store.get().l === cur.l)
					if (typeof store.get() === 'object') S.check('the new value is frozen', Object.isFrozen(store.get()))
				}
			}
			for (const [v, s] of snaps) S.deep('a value read earlier never changes', v, s)
			store.reset()
			S.check('reset returns the identical initial value', store.get() === init)
			S.deep('the initial value was never altered', init, { a: init.a, b: { c: init.b.c }, l: init.l })
			S.eq('reset restores every field', store.get().a, snaps[0][1].a)
			S.eq('reset restores nested fields', store.get().b.c, snaps[0][1].b.c)
			S.check('reset restores list length', store.get().l.length === 1)
			S.observe('end', store.get())
		}
	},
	'C03.same': {
		bounds: 'an updater that reads everything, or writes back what is there, of an object or array with symbolic contents; one or two times, after 0 or 1 other updates',
		async run(S) {
			const a = S.num('a')
			const c = S.str('c')
			const init = [{ a, b: { c } }, [a, { c }]][S.choose('kind', 2)]
			const store = createStore(init, meta())
			if (S.choose('first', 2)) store.set(d => void (Array.isArray(d) ? d.push(1) : (d.z = 1)))
			const before = store.get()
			const parts = Array.isArray(before) ? before[1] : before.b
			const times = S.choose('times', 2) + 1
			for (let i = 0; i < times; i++) {
				const what = S.choose(`what${i}`, 3)
				store.set(d => {
					if (what === 0) return
					if (what === 1) for (const k of Object.keys(d)) d[k]
					else {
						const p = Array.isArray(d) ? d[1] : d.b
						p.c = p.c
					}
				})
				S.check('an updater that changes nothing leaves the very value', store.get() === before)
			}
			store.set(d => void (Array.isArray(d) ? (d[0] = 'x') : (d.a = 'x')))
			S.check('an update replaces the value', store.get() !== before)
			S.check('but keeps the parts it does not touch', (Array.isArray(before) ? store.get()[1] : store.get().b) === parts)
		}
	},
	'C03.array': {
		bounds: 'array state, 2 updates of {push, splice, index write, sort-free replace, pop, return filtered copy}',
		async run(S) {
			const init = [S.num('i0'), S.num('i1')]
			const store = createStore(init, meta())
			const kept = [init, snapshot(init)]
			let model = snapshot(init)
			for (let i = 0; i < 2; i++) {
				const op = S.choose(`op${i}`, 6)
				const x = S.num(`x${i}`)
				const before = store.get()
				const snap = snapshot(before)
				store.set(d => {
					switch (op) {
						case 0:
							d.push(x)
							break
						case 1:
							d.splice(0, 1)
							break
						case 2:
							d[0] = x
							break
						case 3:
							return [x]
						case 4:
							d.pop()
							break
						case 5:
							return d.filter(v => v !== x)
					}
				})
				if (op === 0) model.push(x)
				if (op === 1) model.splice(0, 1)
				if (op === 2) model[0] = x
				if (op === 3) model = [x]
				if (op === 4) model.pop()
				if (op === 5) model = model.filter(v => v !== x)
				S.deepz('array update', store.get(), model)
				S.deep('earlier array value unchanged', before, snap)
			}
			S.deep('initial array unchanged', kept[0], kept[1])
		}
	},
	'C03.frozen': {
		bounds: 'values of every kind, also of a class, set directly, returned by an updater or by an asynchronous one; writes through the handed-out reference',
		async run(S) {
			const init = value(S, 'init', ['object', 'array'])
			const [first] = createState(init, meta())
			const store = createStore(init, meta())
			S.check('the initial value is frozen', Object.isFrozen(first) && Object.isFrozen(store.get()))
			const own = S.choose('own', 2)
			const v = own ? Object.assign(new (class Own {})(), { p: S.num('ownp'), q: 'q' }) : value(S, 'v', ['object', 'array'])
			const how = S.choose('how', 3)
			if (how === 0) store.set(v)
			if (how === 1) store.set(() => v)
			if (how === 2) await store.set(async () => v)
			S.check('a value that was set is frozen', Object.isFrozen(store.get()))
			if (own) S.check('a value of a class is the one given', store.get() === v)
			const s = snapshot(store.get())
			let threw = false
			try {
				store.get().p = 1
				store.get()[0] = 1
			} catch {
				threw = true
			}
			S.check('a direct write fails', threw)
			S.deep('a direct write changes nothing', store.get(), s)
		}
	},
	'C03.nothing': {
		bounds: 'any value kind tested for being the cleared marker',
		async run(S) {
			const v = value(S, 'v')
			S.check('only the marker is the marker', isNothing(v) === false)
			S.check('the marker is recognised', isNothing(nothing) === true)
			const store = createStore(v, meta())
			const calls = []
			store.onChange((n, p) => calls.push([n, p]))
			store.set(() => nothing)
			S.eq('the marker clears the value', store.get(), undefined)
			if (!S.is(v, undefined)) {
				S.check('clearing notifies', calls.length === 1)
				S.eq('clearing reports undefined', calls[0][0], undefined)
				S.eq('clearing reports previous', calls[0][1], v)
			}
			const w = value(S, 'w', ['number', 'string', 'null'])
			let arg = 'unset'
			store.set(d => {
				arg = d
				return w
			})
			S.eq('after clearing, an updater sees undefined', arg, undefined)
			S.eq('and can set a value', store.get(), w)
		}
	},
	// ------------------------------------------------------------------ C04
	'C04.schedules': {
		bounds: 'quick: 2, thorough: 3 async updaters started in turn, resolved in any order, each with any outcome {value, null, cleared, failure, in place}, with synchronous sets interleaved',
		async run(S) {
			const N = S.thorough ? 3 : 2
			const init = { n: S.num('init') }
			const store = createStore(init, meta())
			if (S.choose('earlier', 2)) store.set({ n: S.num('earlier value') })
			const calls = []
			store.onChange((v, p) => calls.push([v, p, store.get()]))
			const jobs = []
			for (let i = 0; i < N; i++) {
				const d = deferred()
				const kind = S.choose(`kind${i}`, 5)
				const j = { d, kind }
				const atStart = store.get()
				j.atStart = atStart
				if (kind === 4) S.assume(typeof atStart === 'object' && atStart !== null)
				j.v = kind === 0 ? { n: S.num(`v${i}`) } : kind === 1 ? null : kind === 2 ? nothing : undefined
				j.w = kind === 4 ? S.num(`w${i}`) : undefined
				const before = calls.length
				j.p = store.set(draft => {
					if (kind === 4) draft.n = j.w
					return d.promise
				})
				S.check('an async set returns a promise', typeof j.p.then === 'function')
				j.p.then(
					v => {
						j.done = true
						j.out = v
						j.readable = store.get()
					},
					e => {
						j.failed = e
					}
				)
				S.check('nothing changes until the updater resolves', store.get() === atStart && calls.length === before)
				jobs.push(j)
			}
			let sync = 0
			let cur = store.get()
			for (let k = 0; k < N; k++) {
				const meanwhile = S.choose(`sync${k}`, 3)
				if (meanwhile === 2) {
					store.reset()
					if (cur !== init) sync++
					cur = init
					S.check('a reset takes effect at once', store.get() === init)
				}
				if (meanwhile === 1) {
					const v = { n: S.num(`s${k}`) }
					store.set(v)
					cur = v
					sync++
				}
				const pending = jobs.filter(j => !j.settled)
				const j = pending[S.choose(`next${k}`, pending.length)]
				j.settled = true
				const before = calls.length
				const err = new Error('async failure')
				if (j.kind === 3) j.d.reject(err)
				else j.d.resolve(j.v)
				await S.turn()
				if (j.kind === 3) {
					S.check('a rejected updater rejects the set', j.failed === err)
					S.check('a rejected updater changes nothing', store.get() === cur && calls.length === before)
				} else {
					S.check('a resolved updater settles the set', j.done === true)
					const now = store.get()
					if (j.kind === 0) S.check('the resolved value is the new value', now === j.v)
					if (j.kind === 1) S.check('null is a value like any other', now === null)
					if (j.kind === 2) S.check('the cleared marker clears', now === undefined)
					if (j.kind === 4) S.eqz('an in-place change is applied', now && now.n, j.w)
					S.check('the promise resolves to the new value', j.out === now || j.out === j.v)
					S.check('the new value is readable when the set resolves', j.readable === now)
					if (now !== cur) {
						S.check('exactly one notification per resolved updater', calls.length === before + 1)
						S.check('the notification carries the new value', calls[before] && calls[before][0] === now)
						S.check('the previous value is the one current just before the update took effect', calls[before] && calls[before][1] === cur)
					}
					cur = now
				}
			}
			S.check('no failure goes unhandled', S.unhandled().length === 0)
			let arg = 'unset'
			store.set(d => {
				arg = typeof d === 'object' && d !== null ? d.n : d
				return { n: 0 }
			})
			S.eq('a later updater starts from the current value', arg, typeof cur === 'object' && cur !== null ? cur.n : cur)
			S.observe('calls', calls.map(c => [c[0], c[1]]))
		}
	},
	'C04.scalars': {
		bounds: 'scalar state (number, string, null, undefined, boolean), one async updater returning any scalar, then a sync set, then reset',
		async run(S) {
			const init = value(S, 'init', ['number', 'undefined', 'null'])
			const store = createStore(init, meta())
			const calls = []
			store.onChange((v, p) => calls.push([v, p]))
			const v = value(S, 'v', ['number', 'string', 'null', 'false'])
			let arg = 'unset'
			const r = await store.set(async d => {
				arg = d
				await 0
				return v
			})
			S.eq('the async updater receives the current value', arg, init)
			S.eq('the set resolves to the value', r, v)
			S.eq('the value is readable afterwards', store.get(), v)
			const w = value(S, 'w', ['number', 'undefined'])
			const before = calls.length
			const same = S.is(w, v)
			store.set(w)
			S.check('a later set notifies iff it changes the value', calls.length === before + (same ? 0 : 1))
			if (!same) S.eq('with the asynchronously set value as previous', calls[calls.length - 1][1], v)
			store.reset()
			S.eq('reset restores the initial value after async updates', store.get(), init)
			chain(S, calls.filter(c => !S.is(c[0], c[1])), init)
		}
	},
	'C04.afterAwait': {
		bounds: 'an updater that writes to its draft after awaiting',
		async run(S) {
			const x = S.num('x')
			const store = createStore({ a: S.num('a') }, meta())
			let failed = false
			try {
				await store.set(async d => {
					await 0
					d.a = x
				})
			} catch {
				failed = true
			}
			S.check('an in-place change made after awaiting is applied', !failed && S.is(store.get().a, x))
		}
	},
	// ------------------------------------------------------------------ C05
	'C05.keys': {
		bounds: '3 symbolic string keys (<=11 units, includes constructor, toString, __proto__), quick 3 / thorough 4 operations of {add, overwrite, delete, reset}',
		async run(S) {
			const seed = S.choose('init', 3)
			const k0 = S.str('k0')
			const init = seed === 0 ? undefined : seed === 1 ? {} : { a: S.num('va') }
			const r = createRegistry(init, meta())
			const model = []
			if (seed === 2) model.push(['a', init.a])
			const ks = [k0, S.str('k1')]
			// an ordinary object literal supplied by the user treats __proto__ specially by itself
			if (seed) for (const k of ks) S.assumeNe(k, '__proto__')
			const initial = model.map(e => [...e])
			const steps = S.thorough ? 3 : 2
			for (let i = 0; i < steps; i++) {
				const op = S.choose(`op${i}`, 3)
				if (op === 2) {
					r.reset()
					model.splice(0, model.length, ...initial.map(e => [...e]))
					continue
				}
				const k = ks[S.choose(`which${i}`, 2)]
				if (op === 0) {
					const v = value(S, `v${i}`, S.thorough ? ['number', 'false', 'null', 'string', 'undefined'] : i ? ['number', 'undefined'] : ['number', 'false'])
					r.set(m => {
						m[k] = v
					})
					const e = model.find(e => e[0] === k)
					if (e) e[1] = v
					else model.push([k, v])
				} else {
					r.set(m => {
						delete m[k]
					})
					const j = model.findIndex(e => e[0] === k)
					if (j >= 0) model.splice(j, 1)
				}
			}
			const q = S.choose('query', 2) ? S.str('q') : k0
			const hit = model.find(e => e[0] === q)
			S.eq('has() tells exactly the entries that were added', r.has(q), !!hit)
			S.eq('size() counts the entries', r.size(), model.length)
			// what was handed out belongs to the caller
			r.keys().push('x')
			r.values().length = 0
			const keys = r.keys()
			const vals = r.values()
			S.eq('keys() and size() agree', keys.length, model.length)
			S.eq('values() and size() agree', vals.length, model.length)
			for (let i = 0; i < keys.length; i++) {
				const e = model.find(e => e[0] === keys[i])
				S.check('keys() lists only entries that were added', !!e)
				if (e) {
					S.eqz('values() lines up with keys()', vals[i], e[1])
					S.eqz('get() holds the entry', r.get()[keys[i]], e[1])
				}
				S.check('every listed key is had', r.has(keys[i]) === true)
			}
		}
	},
	'C05.replace': {
		bounds: 'a registry with 0..2 entries under symbolic keys is replaced as a whole by one with 0..2 others, given as it is, by an updater or an asynchronous one; then one is added, another removed, or all reset',
		async run(S) {
			const record = es => es.reduce((m, [k, v]) => ((m[k] = v), m), Object.create(null))
			const ks = [0, 1, 2].map(i => S.str(`k${i}`))
			const start = ks.slice(0, S.choose('start', 3)).map(k => [k, `old ${k}`])
			const next = ks.slice(1, 1 + S.choose('next', 3)).map((k, i) => [k, S.str(`v${i}`)])
			const r = createRegistry(record(start), meta())
			const how = S.choose('how', 3)
			const all = record(next)
			await r.set(how === 0 ? all : how === 1 ? () => all : async () => all)
			let model = next
			const agree = label => {
				// of entries with equal keys the last counts
				const own = model.filter(([k], i) => !model.slice(i + 1).some(e => e[0] === k))
				S.eq(`${label}: every entry counts`, r.size(), own.length)
				S.check(`${label}: and is listed`, r.keys().length === own.length && r.values().length === own.length)
				for (const [k, v] of own) {
					S.check(`${label}: what is there`, r.has(k) && r.keys().includes(k))
					S.eqz(`${label}: reads as given`, r.get()[k], v)
				}
				for (const k of ks) S.eq(`${label}: nothing else is`, r.has(k), own.some(e => e[0] === k))
			}
			agree('replaced')
			const then = S.choose('then', 3)
			const k = ks[S.choose('which', 2)]
			if (then === 0) {
				r.set(m => void (m[k] = 'new'))
				model = [...model, [k, 'new']]
			} else if (then === 1) {
				r.set(m => void delete m[k])
				model = model.filter(e => e[0] !== k)
			} else {
				r.reset()
				model = start
			}
			agree('then')
		}
	},
	'C05.symbols': {
		bounds: 'symbol (named, nameless, registered, well-known, alike) and number keys mixed with a symbolic string key',
		async run(S) {
			const kinds = [() => Symbol('one'), () => Symbol(), () => Symbol(''), () => Symbol.for('verif'), () => Symbol.iterator]
			const s1 = kinds[S.choose('s1', 5)]()
			const s2 = Symbol(S.choose('s2', 2) ? 'one' : undefined)
			const k = S.str('k')
			S.assumeNe(k, '__proto__')
			const v = S.num('v')
			const n = S.choose('n', 3)
			const r = createRegistry({ [s1]: 's', [n]: 'n' }, meta())
			S.eq('symbol key is had', r.has(s1), true)
			S.eq('an absent symbol is not had', r.has(s2), false)
			S.eq('number key is had', r.has(n), true)
			S.eq('the number key reads as its text', r.has(String(n)), true)
			r.set(m => {
				m[k] = v
				m[s2] = v
			})
			const isN = k === String(n)
			S.eq('size counts string, number and symbol keys', r.size(), isN ? 3 : 4)
			S.check('keys lists symbols', r.keys().includes(s1) && r.keys().includes(s2))
			S.eq('values covers symbols', r.values().length, r.size())
			S.eq('value of a symbol key', r.get()[s2], v)
			const ro = toReadonlyRegistry(r)
			S.eq('read-only size', ro.size(), r.size())
			S.eq('read-only has', ro.has(k), true)
			r.set(m => {
				delete m[s1]
			})
			S.eq('deleting a symbol key', r.has(s1), false)
			S.eq('read-only view follows', ro.has(s1), false)
			S.eq('size after delete', ro.size(), isN ? 2 : 3)
		}
	},
	// ------------------------------------------------------------------ C06
	'C06.array': {
		bounds: '1..2 entries per call (thorough: 1..3), 2 calls, push and unshift and a custom adder, returning something or not; symbolic entries, the first one a number, undefined, null, an array or an object',
		async run(S) {
			const init = S.choose('init', 2) ? [S.num('i0')] : []
			const given = init.length
			const how = S.choose('how', 4)
			const fn = how === 0 ? push : how === 1 ? unshift : how === 2 ? (a, e) => void a.push(e) : (a, e) => a.push(e)
			const viaWith = S.choose('with', 2)
			const base = createStore(init, meta())
			const store = viaWith ? withAdder(base, fn) : { ...base, add: adder(base, fn) }
			const calls = []
			store.onChange((v, p) => calls.push([v, p]))
			let model = [...init]
			for (let c = 0; c < 2; c++) {
				const n = 1 + S.choose(`n${c}`, S.thorough ? 3 : 2)
				const es = []
				for (let i = 0; i < n; i++) es.push(i || c ? S.num(`e${c}.${i}`) : value(S, 'first', ['number', 'undefined', 'array', 'null', 'emptyobj']))
				const prev = store.get()
				store.add(...es)
				for (const e of es) how === 1 ? model.unshift(e) : model.push(e)
				S.deepz('entries are added in call order', store.get(), model)
				S.check('one notification per add call', calls.length === c + 1)
				S.check('with the previous value', calls[c] && calls[c][1] === prev)
				if (c === 0 && typeof es[0] === 'object') S.check('entries are kept as given', store.get().includes(es[0]))
			}
			S.check('the initial value is untouched', init.length === given)
		}
	},
	'C06.atomic': {
		bounds: '3 entries, the adder fails at any of them or none',
		async run(S) {
			const r = createRegistry({}, meta())
			const calls = []
			r.onChange(v => calls.push(v))
			const at = S.choose('failAt', 4)
			const boom = new Error('boom')
			let n = 0
			const add = withAdder(r, (m, e) => {
				if (n++ === at) throw boom
				m[e.id] = e
			}).add
			const es = [0, 1, 2].map(i => ({ id: S.str(`id${i}`) + '#', n: i }))
			let caught
			try {
				add(...es)
			} catch (e) {
				caught = e
			}
			if (at < 3) {
				S.check('the failure reaches the caller', caught === boom)
				S.eq('a failed add adds nothing', r.size(), 0)
				S.check('a failed add notifies nobody', calls.length === 0)
				n = 9
				add(es[0])
				S.check('the next one is added', r.size() === 1 && r.get()[es[0].id] === es[0] && calls.length === 1)
			} else {
				for (const e of es) {
					const last = [...es].reverse().find(x => x.id === e.id)
					S.check('every entry is present, identically', r.get()[e.id] === last)
				}
				S.check('one notification', calls.length === 1)
			}
			S.observe('size', r.size())
		}
	},
	'C06.registry': {
		bounds: 'record store and registry with symbolic ids, 2 calls',
		async run(S) {
			const kind = S.choose('kind', 2)
			const base = kind ? createStore({}, meta()) : createRegistry(undefined, meta())
			const st = withAdder(base, (m, e) => {
				m[e.id] = e
			})
			S.check('the other operations are kept', typeof st.get === 'function' && typeof st.set === 'function' && typeof st.onChange === 'function' && typeof st.reset === 'function')
			const a = { id: S.str('a'), v: S.num('va') }
			const b = { id: S.str('b'), v: S.num('vb') }
			if (kind) {
				S.assumeNe(a.id, '__proto__')
				S.assumeNe(b.id, '__proto__')
			}
			st.add(a)
			S.check('the entry is stored identically', st.get()[a.id] === a)
			st.add(b)
			S.check('the second entry is stored identically', st.get()[b.id] === b)
			S.check('the first entry stays unless replaced', st.get()[a.id] === (a.id === b.id ? b : a))
			S.eq('no other entry appears', Object.keys(st.get()).length, a.id === b.id ? 1 : 2)
			if (!kind) S.eq('the registry counts them', st.size(), a.id === b.id ? 1 : 2)
			st.reset()
			S.eq('reset empties', Object.keys(st.get()).length, 0)
		}
	},
	// ------------------------------------------------------------------ C07
	'C07.views': {
		bounds: 'store and registry views after 2 changes; symbolic values',
		async run(S) {
			const kind = S.choose('kind', 2)
			const v0 = S.num('v0')
			let src = kind ? createRegistry({ x: v0 }, meta()) : createStore({ x: v0 }, meta())
			if (S.choose('adder', 2)) src = withAdder(src, (m, e) => void (m[e.id] = e))
			const ro = kind ? toReadonlyRegistry(src) : toReadonlyStore(src)
			const allowed = kind ? ['get', 'onChange', 'keys', 'has', 'size', 'values'] : ['get', 'onChange']
			for (const k of Object.keys(ro)) S.check('a read-only view exposes reading operations only', allowed.includes(k))
			for (const k of allowed) S.check('a read-only view exposes every reading operation', typeof ro[k] === 'function')
			S.check('no writing operation is reachable', ro.set === undefined && ro.reset === undefined && ro.add === undefined && !Object.values(ro).some(f => f === src.set || f === src.reset || f === src.add))
			const seen = []
			let live = true
			const follow = () => {
				if (ro.get() !== src.get() || (kind && ro.size() !== src.size())) live = false
			}
			const following = S.choose('following', 2)
			if (following) src.onChange(follow)
			const off = ro.onChange((v, p) => seen.push([v, p]))
			if (!following) ro.onChange(follow)
			S.check('the view reads the source', ro.get() === src.get())
			const v1 = S.num('v1')
			const before = src.get()
			src.set(() => ({ x: v1 }))
			S.check('the view follows changes', ro.get() === src.get())
			S.eq('the view reads the new value', ro.get().x, v1)
			S.check('the view notifies', seen.length === 1 && seen[0][0] === src.get() && seen[0][1] === before)
			let threw = false
			try {
				ro.get().x = 5
			} catch {
				threw = true
			}
			S.check('the value read through the view is frozen', threw)
			S.eq('and stays', src.get().x, v1)
			if (kind) {
				const q = S.str('q')
				S.eq('has through the view', ro.has(q), src.has(q))
				S.eq('has means present', ro.has(q), q === 'x')
				S.eq('size through the view', ro.size(), 1)
				S.deep('keys through the view', ro.keys(), ['x'])
				S.eq('values through the view', ro.values()[0], v1)
			}
			if (kind) {
				const k = S.str('k')
				S.assumeNe(k, '__proto__')
				src.set(m => {
					m[k] = v0
				})
				const same = k === 'x'
				S.eq('size follows additions', ro.size(), same ? 1 : 2)
				S.check('keys follow additions', ro.keys().length === (same ? 1 : 2) && ro.keys().includes(k))
				S.check('has follows additions', ro.has(k))
				S.eqz('values follow additions, in the order of the keys', ro.values()[ro.keys().indexOf(k)], v0)
			}
			if (kind) {
				S.assumeNe(src.keys().at(-1), 'y')
				src.set(m => {
					delete m.x
					m.y = 1
				})
				S.check('keys follow a replacement', !ro.keys().includes('x') && ro.keys().includes('y'))
				S.check('so do the other operations', ro.has('y') && !ro.has('x') && ro.size() === src.size() && ro.values().includes(1))
			}
			off()
			src.set({ x: 0 })
			S.check('unsubscribing through the view', seen.length === (kind ? 3 : 1))
			src.reset()
			S.eq('the view follows reset', ro.get().x, v0)
			S.check('also while its subscribers are told', live)
		}
	},
	'C07.isolated': {
		bounds: '2 stores and 2 registries created alike; any one is changed',
		async run(S) {
			const shared = S.choose('shared', 2)
			const init = { x: S.num('x') }
			const mk = [
				() => createStore(shared ? init : { x: init.x }, meta()),
				() => createRegistry(shared ? init : { x: init.x }, meta()),
				() => createRegistry(undefined, meta())
			][S.choose('kind', 3)]
			const a = mk()
			const b = mk()
			const before = snapshot(b.get())
			let n = 0
			b.onChange(() => n++)
			const k = S.str('k')
			S.assumeNe(k, '__proto__')
			const v = S.num('v')
			a.set(m => {
				m[k] = v
			})
			S.deep('a change in one store does not reach another', b.get(), before)
			S.check('nor its handlers', n === 0)
			S.eqz('the changed one has it', a.get()[k], v)
			a.reset()
			S.deep('reset of one leaves the other', b.get(), before)
		}
	},
	'C07.shared': {
		bounds: '4 states, stores or registries, of one kind or one of each, created from the same initial value, frozen before, deep or not; one changes to a symbolic value, updated, set or with a further subscriber; created before or after the change',
		async run(S) {
			const init = { x: S.num('x'), q: { r: 1 } }
			const given = S.choose('given', 3)
			if (given) Object.freeze(init)
			if (given === 2) Object.freeze(init.q)
			const mks = [
				() => createStore(init, meta()),
				() => createRegistry(init, meta()),
				() => {
					const [first, set, onChange, reset] = createState(init, meta())
					let cur = first
					onChange(v => (cur = v))
					return { get: () => cur, set, onChange, reset }
				}
			]
			const kind = S.choose('kind', 4)
			const mk = i => mks[kind === 3 ? i % 3 : kind]()
			const told = []
			const all = []
			const add = () => {
				const i = all.length
				all.push(mk(i))
				all[i].onChange((v, p) => told.push([i, v, p]))
			}
			const late = S.choose('late', 2)
			for (let i = 0; i < (late ? 2 : 4); i++) add()
			const at = late ? S.choose('at', 2) : S.choose('at', 4)
			const v = S.num('v')
			const how = S.choose('how', 3)
			if (how === 0) all[at].set({ x: v })
			if (how === 1) all[at].set(() => ({ x: v }))
			if (how === 2)
				all[at].set(d => {
					d.q.r = v
				})
			if (late) {
				add()
				add()
			}
			S.eqz('the one changed has the new value', how === 2 ? all[at].get().q.r : all[at].get().x, v)
			for (const [i, s] of all.entries()) if (i !== at) S.check('the others have the one given', S.is(s.get().x, init.x) && s.get().q.r === 1)
			const same = how === 2 && S.isz(v, 1)
			S.check('only its subscribers are told', told.every(t => t[0] === at) && (same || told.length === 1))
			all[at].reset()
			S.check('a reset goes back for it', S.is(all[at].get().x, init.x) && all[at].get().q.r === 1)
			S.check('and tells no other', told.every(t => t[0] === at))
		}
	}
}
function latest(ds, h) {
	let r
	for (const d of ds) if (d.h === h && d.own) r = d
	return r
}
