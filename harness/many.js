// The same guarantees after long histories, among many entries and for long texts.
import { command, commandsGizmoFn, formatCommand } from '@just-web/commands'
import { keyboardGizmoFn } from '@just-web/keyboard'
import { osGizmo } from '@just-web/os'
import { browserKeyboardGizmo } from '@just-web/browser-keyboard'
import { browserPreferencesGizmo } from '@just-web/browser-preferences'
import { eventsGizmoFn } from '@just-web/events'
import { browserI18nGizmo } from '@just-web/browser-i18n'
import { i18nGizmoFn, setLanguageCommand } from '@just-web/i18n'
import { memoryPreferencesGizmo } from '@just-web/preferences'
import { routesGizmo } from '@just-web/routes'
import { stubStorage } from '@just-web/browser/testing'
import { adder, createRegistry, createStore, push, statesGizmo, unshift, withAdder } from '@just-web/states'
import Mousetrap from 'mousetrap'
import { app } from './lib/app.js'
import { memStorage } from './lib/storage.js'
import { deferred, silent } from './lib/values.js'

const meta = () => ({ logger: silent() })
const errors = es => es.filter(e => e.level === 'error')
const loud = es => es.filter(e => e.level === 'error' || e.level === 'warn')
const range = n => Array.from({ length: n }, (_, i) => i)
/** how many: none, one, more than a dozen, some hundreds */
const SIZES = [0, 1, 13, 250]
const size = (S, n = 'size', from = 0) => SIZES[from + S.choose(n, SIZES.length - from)]
/** a symbolic text, alone or after a long one */
const text = (S, n, max = 4) => ['', 'x'.repeat(40), 'lörem ipsum — '.repeat(26)][S.choose(`${n}.long`, 3)] + S.str(n, { max })
const DESC = 'among 0, 1, 13 or 250 '

export const scenarios = {
	'C01.many': {
		bounds: `${DESC}subscribers, after 0, 1, 13 or 250 (with up to 13 subscribers: 1100) changes, a symbolic value is set twice; then a reset`,
		async run(S) {
			const init = S.num('init')
			const store = createStore(init, meta())
			const log = []
			const n = size(S, 'subscribers')
			for (const i of range(n)) store.onChange((v, p) => void log.push([i, v, p]))
			const m = n > 13 ? size(S, 'changes') : [0, 1, 13, 1100][S.choose('changes', 4)]
			for (const i of range(m)) store.set({ i })
			S.eq('each change is told to each subscriber', log.length, n * m)
			const last = store.get()
			log.length = 0
			const v = S.num('v')
			store.set(v)
			if (m) {
				S.eq('the next one too', log.length, n)
				for (const [i, l] of log.entries()) {
					S.check('in the order of subscribing', l[0] === i && l[2] === last)
					S.eq('with the new value', l[1], v)
				}
			}
			log.length = 0
			store.set(v)
			S.eq('setting the same again tells nobody', log.length, 0)
			S.eq('and reads', store.get(), v)
			for (const i of range(m)) store.set([i])
			store.reset()
			S.eq('resetting gives the initial value', store.get(), init)
		}
	},
	'C02.many': {
		bounds: `${DESC}other handlers, one subscribes, hears, and unsubscribes, in any of three positions; repeated 0, 1, 13 or 250 times before`,
		async run(S) {
			const store = createStore(0, meta())
			const n = size(S, 'others')
			const at = [0, n >> 1, n][S.choose('at', 3)]
			const log = []
			const offs = []
			const mine = v => void log.push(['mine', v])
			const again = size(S, 'again')
			let off
			for (const i of range(n + 1)) {
				if (i === at) {
					for (const j of range(again)) store.onChange(mine)()
					off = store.onChange(mine)
				}
				if (i < n) offs.push(store.onChange(v => void log.push([i, v])))
			}
			const v = S.num('v')
			const same = S.is(v, 0)
			store.set(v)
			S.eq('every handler hears it, once', log.length, same ? 0 : n + 1)
			S.eq('also the one among them', log.filter(l => l[0] === 'mine').length, same ? 0 : 1)
			off()
			log.length = 0
			store.set({})
			S.eq('afterwards all the others do', log.length, n)
			S.check('and not the one', !log.some(l => l[0] === 'mine'))
			for (const o of offs.slice(1)) o()
			off()
			log.length = 0
			store.set([])
			S.eq('those left hear the next one', log.length, n ? 1 : 0)
			if (n) S.eq('as ever', log[0][0], 0)
		}
	},
	'C03.many': {
		bounds: `an object with 1, 13 or 60 fields, a further one and a list of as many, nested up to six levels deep; an updater writes symbolic values at the first, middle or last and in the depth, in place or by returning; failing or not`,
		async run(S) {
			const n = [1, 13, 60][S.choose('size', 3)]
			const depth = [1, 6][S.choose('depth', 2)]
			const leaf = S.str('leaf', { max: 4 })
			let deep = { leaf }
			for (const i of range(depth)) deep = { deep, i }
			const fields = () => Object.fromEntries(range(n).map(i => [`f${i}`, i]))
			const init = { ...fields(), deep, list: range(n).map(i => ({ i })), fields: fields() }
			const store = createStore(init, meta())
			const told = []
			store.onChange((v, p) => void told.push([v, p]))
			const at = [0, n >> 1, n - 1][S.choose('at', 3)]
			const v = S.str('v', { max: 4 })
			const fails = S.choose('fails', 2)
			const err = new Error('no')
			let caught
			try {
				store.set(d => {
					let x = d.deep
					while (x.deep) x = x.deep
					x.leaf = v
					d.list[at].v = v
					d.fields[`f${at}`] = v
					d[`f${at}`] = v
					d.list.push({ i: v })
					if (fails) throw err
				})
			} catch (e) {
				caught = e
			}
			S.check('a failure reaches the caller', fails ? caught === err : caught === undefined)
			let y = init.deep
			while (y.deep) y = y.deep
			S.eqz('the initial value given is as it was', y.leaf, leaf)
			S.check('throughout', init.list.length === n && init.list.every((x, i) => x.i === i && !('v' in x)) && range(n).every(i => init.fields[`f${i}`] === i && init[`f${i}`] === i))
			const now = store.get()
			let x = now.deep
			while (x.deep) x = x.deep
			S.eqz('the depth is as written, or as before', x.leaf, fails ? leaf : v)
			S.eq('entries are added, or not', now.list.length, n + (fails ? 0 : 1))
			for (const i of range(n)) {
				if (i === at && !fails) {
					S.eqz('what was written is there', now.list[i].v, v)
					S.eqz('everywhere', now.fields[`f${i}`], v)
					S.eqz('also at the top', now[`f${i}`], v)
				} else S.check('what was not is as before', now.list[i].i === i && now.list[i].v === undefined && now.fields[`f${i}`] === i && now[`f${i}`] === i)
			}
			S.eq('subscribers are told once, or not at all', told.length, fails ? 0 : 1)
			let threw = false
			try {
				x.leaf = 1
			} catch {
				threw = true
			}
			S.check('the depth of what was handed out cannot be written', threw || fails)
		}
	},
	'C04.many': {
		bounds: '1, 2, 13 or 60 asynchronous updates of symbolic results pending at once, finishing in order, in reverse or from the middle; one of them failing or not',
		async run(S) {
			const n = [1, 2, 13, 60][S.choose('n', 4)]
			const store = createStore({ v: S.num('init') }, meta())
			const told = []
			store.onChange((v, p) => void told.push([v, p]))
			const jobs = range(n).map(i => {
				const d = deferred()
				const j = { i, d, v: { v: i === 0 ? S.num('v') : i } }
				store.set(() => d.promise).then(
					() => (j.done = true),
					e => (j.failed = e)
				)
				return j
			})
			const order = [jobs, jobs.slice().reverse(), [...jobs.slice(n >> 1), ...jobs.slice(0, n >> 1)]][S.choose('order', 3)]
			const bad = S.choose('fails', 2) ? n >> 1 : -1
			const err = new Error('no')
			let cur = store.get()
			let c = 0
			for (const j of order) {
				if (j.i === bad) j.d.reject(err)
				else j.d.resolve(j.v)
				await S.turn()
				if (j.i === bad) S.check('a failure reaches the caller and changes nothing', j.failed === err && store.get() === cur && told.length === c)
				else {
					S.check('each result is applied when it is there', store.get() === j.v && j.done && told.length === c + 1)
					S.check('replacing what was there', told[c][0] === j.v && told[c][1] === cur)
					cur = j.v
					c++
				}
			}
		}
	},
	'C05.many': {
		bounds: `a registry with ${DESC}entries; one with a symbolic long or short key is added or the first, middle or last replaced with a symbolic value; then the entry or all others are removed`,
		async run(S) {
			const n = [0, 1, 13, 130][S.choose('size', 4)]
			const r = createRegistry(Object.fromEntries(range(n).map(i => [`e${i}`, i])), meta())
			const which = S.choose('which', n ? 4 : 1)
			const k = which ? `e${[0, n >> 1, n - 1][which - 1]}` : `new ${text(S, 'k')}`
			const v = S.str('v', { max: 4 })
			r.set(m => {
				m[k] = v
			})
			S.check('an entry that was added is there', r.has(k))
			S.eqz('with its value', r.get()[k], v)
			S.eq('every entry counts', r.size(), n + (which ? 0 : 1))
			S.check('is listed', r.keys().length === r.size() && r.keys().includes(k))
			S.check('with its value', r.values().length === r.size())
			for (const i of range(n)) if (k !== `e${i}`) S.check('other entries are as before', r.has(`e${i}`) && r.get()[`e${i}`] === i)
			if (S.choose('remove', 2)) {
				r.set(m => {
					delete m[k]
				})
				S.check('a removed one is not there', !r.has(k) && !r.keys().includes(k))
				S.check('nor are others than those added', !r.has(`${k}.`) && !r.has(' '.repeat(70)) && !r.has('e'))
				S.eq('and does not count', r.size(), n - (which ? 1 : 0))
			} else {
				r.set(m => {
					for (const i of range(n)) if (k !== `e${i}`) delete m[`e${i}`]
				})
				S.check('the one left is', r.size() === 1 && r.keys().length === 1 && r.has(k))
				S.check('and no longer or shorter one', !r.has(`${k} and more`) && !r.has(k.slice(0, -1)))
				S.eqz('with its value', r.values()[0], v)
			}
		}
	},
	'C06.many': {
		bounds: `1, 13 or 130 entries added at once or one by one, at the end or at the start, to a list that has 0, 1 or 13; one of them symbolic; one of them failing or not`,
		async run(S) {
			const n = [1, 13, 130][S.choose('n', 3)]
			const m = [0, 1, 13][S.choose('m', 3)]
			const at = [0, n >> 1, n - 1][S.choose('at', 3)]
			const x = S.num('x')
			const entries = range(n).map(i => (i === at ? x : i))
			const start = S.choose('start', 2)
			const fails = S.choose('fails', 2)
			const init = range(m).map(i => -i)
			const err = new Error('no')
			let seen = 0
			const s = withAdder(createStore(init, meta()), (d, e) => {
				if (fails && seen++ === at) throw err
				;(start ? unshift : push)(d, e)
			})
			const told = []
			s.onChange(v => void told.push(v))
			const together = S.choose('together', 2)
			let caught
			try {
				if (together) s.add(...entries)
				else for (const e of entries) s.add(e)
			} catch (e) {
				caught = e
			}
			const added = !fails ? entries : together ? [] : entries.slice(0, at)
			S.check('a failure reaches the caller', fails ? caught === err : caught === undefined)
			S.deepz('every entry is added, in order', s.get(), start ? [...added.slice().reverse(), ...init] : [...init, ...added])
			S.eq('one call is one change', told.length, together ? (fails ? 0 : 1) : added.length)
			told.length = 0
			seen = n
			s.add(-1, -2)
			S.deepz('another call adds as well', s.get(), start ? [-2, -1, ...added.slice().reverse(), ...init] : [...init, ...added, -1, -2])
			S.eq('told once', told.length, 1)
		}
	},
	'C08.many': {
		bounds: `${DESC}registered commands, each registered once or 13 times over; one with a symbolic long or short id, or the first, middle or last; invoked 1 or 130 times with a symbolic argument and 1, 16 or 81 others`,
		async run(S) {
			const n = size(S)
			const out = []
			const { app: a, entries } = await app([commandsGizmoFn({ handlers: Object.fromEntries(range(n).map(i => [`h${i}`, (...args) => (out.push([i, args]), i)])) })])
			const which = S.choose('which', n ? 4 : 1)
			const id = which ? `h${[0, n >> 1, n - 1][which - 1]}` : `new ${text(S, 'id')}`
			const over = [0, 1, 13][S.choose('over', 3)]
			for (const i of range(over)) a.commands.handlers.register(id, (...args) => (out.push([`r${i}`, args]), `r${i}`))
			const expected = over ? `r${over - 1}` : which ? [0, n >> 1, n - 1][which - 1] : undefined
			const arg = S.num('arg')
			const more = [[], [undefined, ...range(13), undefined], range(80)][S.choose('more', 3)]
			const times = [1, 130][S.choose('times', 2)]
			for (const i of range(times)) S.check('the result comes back', a.commands.handlers.invoke(id, arg, i, ...more) === expected)
			S.eq('the handler registered last runs, each time', out.length, expected === undefined ? 0 : times)
			for (const [i, o] of out.entries()) {
				S.check('with the arguments given', o[0] === expected && o[1].length === 2 + more.length && o[1][1] === i && more.every((x, j) => o[1][2 + j] === x))
				S.eqz('as they are', o[1][0], arg)
			}
			S.eq('a missing one is reported, each time', errors(entries).length, expected === undefined ? times : 0)
			S.eq('every id is listed once', a.commands.handlers.keys().length, n + (which || !over ? 0 : 1))
			S.eq('it is there when it is', a.commands.handlers.has(id), expected !== undefined)
		}
	},
	'C09.many': {
		bounds: 'a command connected 1, 2 or 13 times, each time to another application or to the same, with handlers of their own; called with a symbolic argument 1 or 13 times',
		async run(S) {
			const n = [1, 2, 13][S.choose('n', 3)]
			const apart = S.choose('apart', 2)
			const out = []
			const c = command(text(S, 'id'), () => void out.push('own'))
			const as = []
			for (const i of range(n)) {
				if (!i || apart) as.push((await app([commandsGizmoFn()])).app)
				c.connect(as.at(-1), x => (out.push(i), x))
			}
			const x = S.num('x')
			for (const _ of range([1, 13][S.choose('times', 2)])) {
				out.length = 0
				S.eq('calling it gives the result', c(x), x)
				S.check('of the handler given last', out.length === 1 && out[0] === n - 1)
			}
			for (const [i, a] of as.entries()) {
				out.length = 0
				a.commands.handlers.invoke(c.id, 1)
				S.check('each application runs its own', out.length === 1 && out[0] === (apart ? i : n - 1))
			}
		}
	},
	'C10.many': {
		bounds: `${DESC}contributed commands, given at once, one by one or at creation; then one with a symbolic long or short id and title, or a duplicate of the first, middle or last; formatted`,
		async run(S) {
			const n = size(S)
			const cs = range(n).map(i => ({ id: `p.c${i}`, title: `t${i}` }))
			const how = S.choose('how', 3)
			const { app: a, entries } = await app([commandsGizmoFn(how === 2 ? { contributions: cs } : undefined)])
			if (how === 0) a.commands.contributions.add(...cs)
			if (how === 1) for (const c of cs) a.commands.contributions.add(c)
			const which = S.choose('which', n ? 4 : 1)
			const k = [0, n >> 1, n - 1][which - 1]
			const c = { id: which ? `p.c${k}` : `new.${text(S, 'id')}`, title: text(S, 'title'), description: text(S, 'description') }
			a.commands.contributions.add(c)
			const reg = a.commands.contributions
			S.eq('every contribution is listed', reg.size(), n + (which ? 0 : 1))
			S.check('the first of its id', reg.get()[c.id] === (which ? cs[k] : c))
			for (const x of cs) S.check('as given', reg.get()[x.id] === x)
			S.eq('an ignored one is reported', errors(entries).length, which ? 1 : 0)
			const f = formatCommand(c)
			S.eq('a title given is kept', f.title, c.title)
			S.eq('a description as well', f.description, c.description)
		}
	},
	'C11.many': {
		bounds: `${DESC}contributed key bindings, given at once, one by one or at creation; then one with a symbolic long or short id and key, or a duplicate of the first, middle or last`,
		async run(S) {
			const n = size(S)
			const cs = range(n).map(i => ({ id: `p.c${i}`, key: `k${i}` }))
			const how = S.choose('how', 3)
			const { app: a, entries } = await app([keyboardGizmoFn(how === 2 ? { keyBindingContributions: cs } : undefined)])
			const reg = a.keyboard.keyBindingContributions
			if (how === 0) reg.add(...cs)
			if (how === 1) for (const c of cs) reg.add(c)
			const which = S.choose('which', n ? 4 : 1)
			const k = [0, n >> 1, n - 1][which - 1]
			const c = { id: which ? `p.c${k}` : `new.${text(S, 'id')}`, key: S.str('key', { max: 4 }) }
			reg.add(c)
			S.eq('every binding is listed', reg.size(), n + (which ? 0 : 1))
			S.check('the first of its id', reg.get()[c.id] === (which ? cs[k] : c))
			for (const x of cs) S.check('as given', reg.get()[x.id] === x)
			S.eq('an ignored one is reported', loud(entries).length, which ? 1 : 0)
		}
	},
	'C12.many': {
		bounds: 'another application with a bound key; an application with 0, 1, 13 or 40 bound keys; a further one with a symbolic key (<=4 letters) is added, and that or another removed and added again 0, 1 or 5 (2 among 40) times; every key is pressed 1 or 13 times',
		async run(S) {
			Mousetrap.reset()
			S.platformFamily = 'Windows'
			const n = [0, 1, 13, 40][S.choose('n', 4)]
			const k = S.str('k', { max: 4 })
			S.assumeChars(k, [[97, 122]])
			const out = []
			const all = [...range(n).map(i => ({ id: `p.c${i}`, key: `ctrl+${i}` })), { id: 'p.x', key: `alt+${k}` }]
			const { app: a, entries } = await app([keyboardGizmoFn({ keyBindingContributions: all.slice(0, n >> 1) }), commandsGizmoFn({ handlers: Object.fromEntries(all.map(c => [c.id, () => void out.push(c.id)])) }), osGizmo, browserKeyboardGizmo])
			const reg = a.keyboard.keyBindingContributions
			await app([keyboardGizmoFn({ keyBindingContributions: [{ id: 'o.o', key: 'f9' }] }), commandsGizmoFn({ handlers: { 'o.o': () => void out.push('o.o') } }), osGizmo, browserKeyboardGizmo])
			for (const c of all.slice(n >> 1)) reg.add(c)
			const y = all[[0, n >> 1, n][S.choose('which', 3)]]
			for (const i of range([0, 1, n > 13 ? 2 : 5][S.choose('again', 3)])) {
				reg.set(r => {
					delete r[y.id]
				})
				S.eq('a removed binding is gone', Mousetrap.__bound().length, n + 1)
				reg.add(y)
			}
			S.eq('every key is bound', Mousetrap.__bound().length, n + 2)
			const times = [1, 13][S.choose('times', 2)]
			for (const c of [...all, { id: 'o.o', key: 'f9' }]) {
				out.length = 0
				for (const i of range(times)) Mousetrap.__bound().find(b => b.key === c.key)?.cb({ type: 'keydown', repeat: i > 0, timeStamp: i, preventDefault() {} }, c.key)
				S.check('and runs its command each time', out.length === times && out.every(x => x === c.id))
			}
			S.eq('nothing is reported', loud(entries).length, 0)
		}
	},
	'C13.many': {
		bounds: `${DESC}routes; one at a symbolic long or short path, or the first, middle or last; registered and unregistered 0, 1 or 13 times before; navigated to 1 or 130 times`,
		async run(S) {
			const n = size(S)
			const out = []
			const { app: a, entries } = await app([routesGizmo])
			for (const i of range(n)) a.routes.register(`/r${i}`, () => void out.push(i))
			const which = S.choose('which', n ? 4 : 1)
			const k = [0, n >> 1, n - 1][which - 1]
			const p = which ? `/r${k}` : `/new/${text(S, 'p')}`
			if (!which) for (const _ of range([0, 1, 13][S.choose('again', 3)])) a.routes.register(p, () => void out.push('old'))()
			const off = which ? undefined : a.routes.register(p, () => void out.push('new'))
			S.check('a registered path is there', a.routes.hasRoute(p))
			const times = [1, 130][S.choose('times', 2)]
			if (S.choose('initial', 2)) {
				a.routes.config({ initialRoute: p })
				for (const _ of range(times)) a.routes.navigate()
			} else for (const _ of range(times)) a.routes.navigate(p)
			S.check('its route runs, each time', out.length === times && out.every(x => x === (which ? k : 'new')))
			S.eq('nothing is reported', errors(entries).length, 0)
			if (off) {
				off()
				S.check('an unregistered path is not', !a.routes.hasRoute(p))
				for (const i of range(n)) S.check('others are', a.routes.hasRoute(`/r${i}`))
			}
			a.routes.clearRoutes()
			out.length = 0
			a.routes.navigate(p)
			S.check('clearing removes all', out.length === 0 && range(n).every(i => !a.routes.hasRoute(`/r${i}`)))
			S.eq('a missing one is reported', errors(entries).length, 1)
		}
	},
	'C14.many': {
		bounds: `in memory or browser storage, ${DESC}preferences; one with a symbolic long or short key, or the first, middle or last, is set to a symbolic long or short text 1 or 13 times, then updated, removed or all cleared`,
		async run(S) {
			const kind = S.choose('kind', 2)
			const storage = memStorage()
			const { app: a } = await app([commandsGizmoFn(), ...(kind ? [{ create: async () => ({ browser: { localStorage: storage } }) }, browserPreferencesGizmo] : [memoryPreferencesGizmo])])
			const p = a.preferences
			const n = size(S)
			for (const i of range(n)) p.set(`k${i}`, `v${i}`)
			const which = S.choose('which', n ? 4 : 1)
			const k = which ? `k${[0, n >> 1, n - 1][which - 1]}` : `new ${text(S, 'k')}`
			const v = text(S, 'v')
			for (const i of range([0, 12][S.choose('times', 2)])) p.set(k, `before ${i}`)
			p.set(k, v)
			S.eq('it reads as set last', p.get(k), v)
			const op = S.choose('op', 4)
			if (op === 0) p.set(k, x => `${x}!`)
			if (op === 1) p.set(k, undefined)
			if (op === 2) p.clearAll()
			S.eq('then as updated, or its default', p.get(k, 'default'), op === 0 ? `${v}!` : op === 3 ? v : 'default')
			for (const i of range(n)) if (k !== `k${i}`) S.eq('the others as they were, unless cleared', p.get(`k${i}`), op === 2 ? undefined : `v${i}`)
			if (kind) S.eq('the storage has an entry for each', storage.length, op === 2 ? 0 : n + (which ? 0 : 1) - (op === 1 ? 1 : 0))
		}
	},
	'C15.many': {
		bounds: `a storage with among 0, 1, 13 or 600 entries of others and as many of an application with a symbolic name, all cleared or read after a restart, 1 or 13 restarts`,
		async run(S) {
			const storage = memStorage()
			const name = S.str('name', { max: 4 })
			S.assume(!name.includes(':'))
			const start = () => app([commandsGizmoFn(), { create: async () => ({ browser: { localStorage: storage } }) }, browserPreferencesGizmo], { name })
			const n = [0, 1, 13, 600][S.choose('size', 4)]
			const v = text(S, 'v')
			const long = 'long key '.repeat(40)
			let { app: a } = await start()
			for (const i of range(n)) {
				storage.setItem(`other ${i}`, `o${i}`)
				a.preferences.set(`k${i}`, i === n >> 1 ? v : `v${i}`)
			}
			if (n) a.preferences.set(long, 'l')
			for (const _ of range([1, 13][S.choose('restarts', 2)])) a = (await start()).app
			for (const i of range(n)) S.eq('everything is read back after a restart', a.preferences.get(`k${i}`), i === n >> 1 ? v : `v${i}`)
			S.eq('also under a long key', a.preferences.get(long), n ? 'l' : undefined)
			S.eq('the storage has what it should', storage.length, 2 * n + (n ? 1 : 0))
			a.preferences.clearAll()
			S.eq('clearing removes all of the application', storage.length, n)
			for (const i of range(n)) S.eq('and nothing else', storage.getItem(`other ${i}`), `o${i}`)
		}
	},
	'C16.many': {
		bounds: 'a typed preference of nested lists and objects up to six levels deep, of 1, 13 or 130 entries, with symbolic values; written, read, updated in place 1 or 13 times and read after a restart',
		async run(S) {
			const storage = memStorage()
			const start = async () => (await app([commandsGizmoFn(), { create: async () => ({ browser: { localStorage: storage } }) }, browserPreferencesGizmo])).app
			const n = size(S, 'n', 1)
			const s = ` ${text(S, 's')}`
			let v = [s, null, true, 0.5]
			for (const i of range([1, 6][S.choose('depth', 2)])) v = { v, list: [i] }
			const all = { list: range(n).map(i => ({ i })), v }
			const a = await start()
			const st = a.preferences.createStore('k', { list: [] })
			st.set(all)
			S.deep('it reads as written', st.get(), all)
			const times = [1, 13][S.choose('times', 2)]
			for (const i of range(times))
				st.set(d => {
					d.list[n - 1].i = i
					d.list.push({ s })
				})
			const expected = { list: [...range(n - 1).map(i => ({ i })), { i: times - 1 }, ...range(times).map(() => ({ s }))], v }
			S.deep('with every update', st.get(), expected)
			S.deep('also after a restart', (await start()).preferences.createStore('k').get(), expected)
			S.eq('what was given stays as it was', all.list.length, n)
			const l = a.preferences.createStore('l', [])
			l.set(range(n).map(i => [i]))
			l.set(d => {
				d[n >> 1].push(s)
			})
			S.deep('lists as well', l.get(), range(n).map(i => (i === n >> 1 ? [i, s] : [i])))
		}
	},
	'C18.many': {
		bounds: `${DESC}subscribers, 0, 1, 13 or 250 changes, then two to symbolic long or short languages, directly or by command`,
		async run(S) {
			const { app: a } = await app([commandsGizmoFn(), i18nGizmoFn({ language: 'en' })])
			const log = []
			const n = size(S, 'subscribers')
			for (const i of range(n)) a.i18n.languageChanged((now, old) => void log.push([i, now, old]))
			const m = size(S, 'changes')
			let old = 'en'
			for (const i of range(m)) a.i18n.setLanguage((old = `l${i}`))
			S.eq('every subscriber hears every change', log.length, n * m)
			for (const j of [0, 1]) {
				const l = `z${text(S, `l${j}`)}`
				const same = S.is(l, old)
				log.length = 0
				if (S.choose(`how${j}`, 2)) setLanguageCommand(l)
				else a.i18n.setLanguage(l)
				S.eq('the language is the one set last', a.i18n.getLanguage(), l)
				if (!same) {
					S.eq('each hears it once', log.length, n)
					for (const [i, e] of log.entries()) {
						S.check('in order', e[0] === i)
						S.eq('with the new language', e[1], l)
						S.eq('and the previous one', e[2], old)
					}
				}
				old = l
			}
		}
	},
	'C19.many': {
		bounds: 'a symbolic long or short language chosen after 0, 1, 13 or 250 other choices and 1 or 13 restarts; cleared or not; a storage of 0, 1, 13 or 250 other entries',
		async run(S) {
			const storage = memStorage()
			const n = size(S, 'entries')
			for (const i of range(n)) storage.setItem(`e${i}`, `v${i}`)
			const start = async () => (await app([{ create: async () => ({ browser: { localStorage: storage, navigator: { language: 'xx' } } }) }, browserI18nGizmo])).app
			let a = await start()
			S.eq('it starts in the language of the browser', a.i18n.getLanguage(), 'xx')
			for (const i of range(size(S, 'choices'))) a.i18n.setLanguage(`l${i}`)
			const l = `z${text(S, 'l')}`
			a.i18n.setLanguage(l)
			for (const _ of range([1, 13][S.choose('restarts', 2)])) a = await start()
			S.eq('and later in the one chosen last', a.i18n.getLanguage(), l)
			S.eq('keeping one entry', storage.length, n + 1)
			if (S.choose('clear', 2)) {
				a.i18n.clearLanguage()
				S.eq('cleared, in that of the browser again', a.i18n.getLanguage(), 'xx')
				S.eq('keeping none', storage.length, n)
				S.eq('also later', (await start()).i18n.getLanguage(), 'xx')
			}
			for (const i of range(n)) S.eq('other entries stay', storage.getItem(`e${i}`), `v${i}`)
		}
	},
	'C26.many': {
		bounds: `${DESC}listeners for an event of symbolic long or short name, emitted 1 or 130 times (with 250 listeners: 5 times) with a symbolic payload; the first, middle or last throws, or none; it is removed or not`,
		async run(S) {
			const n = size(S)
			const { app: a, entries } = await app([eventsGizmoFn()])
			const e = a.events.emitter
			const name = `n${text(S, 'name')}`
			const bad = [-1, 0, n >> 1, n - 1][S.choose('bad', n ? 4 : 1)]
			const err = new Error('no')
			const out = []
			const ls = range(n).map(i => (...args) => {
				out.push([i, args])
				if (i === bad) throw err
			})
			for (const l of ls) e.addListener(name, l)
			const x = S.num('x')
			const times = [1, n > 13 ? 5 : 130][S.choose('times', 2)]
			for (const _ of range(times)) e.emit(name, x)
			S.eq('the throwing one is logged each time', errors(entries).length, bad >= 0 ? times : 0)
			const hear = bad >= 0 ? bad + 1 : n // a failure ends the round: the emitter calls its listeners in order
			S.eq('every listener hears each event', out.length, hear * times)
			for (const [i, o] of out.entries()) {
				S.check('in order', o[0] === i % hear && o[1].length === 1)
				S.eqz('with the payload', o[1][0], x)
			}
			if (n) {
				out.length = 0
				e.removeListener(name, ls[0])
				e.emit(name, x)
				S.check('a removed one does not', out.length === (bad > 0 ? hear : n) - 1 && !out.some(o => o[0] === 0))
			}
		}
	},
	'C29.many': {
		bounds: `the stand-in storage with among 0, 1, 13 or 130 entries, a further one with a symbolic long or short key and value, or the first, middle or last overwritten; then removed or cleared`,
		async run(S) {
			const s = stubStorage()
			const n = [0, 1, 13, 130][S.choose('size', 4)]
			const empty = n && S.choose('empty', 2)
			if (empty) s.setItem('', 'empty')
			for (const i of range(n)) s.setItem(`k${i}`, `v${i}`)
			if (empty) {
				S.eq('the empty key is a key', s.length, n + 1)
				S.eq('with its value', s.getItem(''), 'empty')
				s.removeItem('')
			}
			const which = S.choose('which', n ? 4 : 1)
			const k = which ? `k${[0, n >> 1, n - 1][which - 1]}` : `new ${text(S, 'k')}`
			const v = text(S, 'v')
			s.setItem(k, v)
			S.eq('it reads back', s.getItem(k), v)
			S.eq('every entry counts', s.length, n + (which ? 0 : 1))
			const keys = range(s.length).map(i => s.key(i))
			S.check('every key is enumerated', keys.includes(k) && range(n).every(i => keys.includes(`k${i}`)))
			S.check('and no more', s.key(s.length) === null)
			if (S.choose('remove', 2)) {
				s.removeItem(k)
				S.eq('a removed one does not', s.getItem(k), null)
				for (const i of range(n)) if (k !== `k${i}`) S.eq('others do', s.getItem(`k${i}`), `v${i}`)
			} else {
				s.clear()
				S.check('clearing removes all', s.length === 0 && s.key(0) === null && s.getItem(k) === null)
			}
		}
	},
	'C30.many': {
		bounds: `an application with ${DESC}stores, registries or states of its own; one of them changes to a symbolic value`,
		async run(S) {
			const { app: a } = await app([statesGizmo])
			const n = size(S, 'n', 1)
			const kind = S.choose('kind', 2)
			const all = range(n).map(i => (kind ? a.states.createRegistry({ x: i }) : a.states.createStore(i)))
			const told = []
			for (const [i, s] of all.entries()) s.onChange((v, p) => void told.push([i, v, p]))
			const at = [0, n >> 1, n - 1][S.choose('at', 3)]
			const v = S.num('v')
			const same = !kind && S.is(v, at)
			all[at].set(kind ? () => ({ x: v }) : v)
			S.eqz('the one changed has the value', kind ? all[at].get().x : all[at].get(), v)
			for (const [i, s] of all.entries()) if (i !== at) S.check('the others theirs', (kind ? s.get().x : s.get()) === i)
			S.check('only its subscriber is told', told.length === (same ? 0 : 1) && told.every(t => t[0] === at))
		}
	}
}
