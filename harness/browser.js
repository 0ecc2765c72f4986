import { incubate } from '@just-web/app'
import { BrowserError, browserGizmoFn } from '@just-web/browser'
import { browserTestGizmoFn, stubLocalStorage, stubSessionStorage, stubStorage } from '@just-web/browser/testing'
import { fetchGizmo } from '@just-web/fetch'
import { fetchTestGizmoFn } from '@just-web/fetch/testing'
import { app } from './lib/app.js'

const errors = es => es.filter(e => e.level === 'error')
/** what the browser does with an uncaught error */
function raise(ev) {
	let prevented = 0
	ev.preventDefault = () => void prevented++
	const rs = globalThis.__listeners.filter(l => l.type === 'error').map(l => l.fn.call(globalThis, ev))
	return { prevented, rs }
}
const reset = () => (globalThis.__listeners.length = 0)

const CAUSES = [new TypeError('cause'), undefined, null, 'thrown text', { thrown: 'object' }, Object.freeze(new Error('frozen')), 0, '', false, Object.create(null)]

export const scenarios = {
	'C20.capture': {
		bounds: '1..3 (thorough: 5) uncaught errors with symbolic message, source, line and column and an error (possibly frozen), a text, another object, 0, false, null or nothing as what was thrown, raised while or after the application is created; with or without a subscriber; default prevented or not',
		async run(S) {
			reset()
			const prevent = [undefined, false, true][S.choose('prevent', 3)]
			const options = prevent === undefined ? (S.choose('given', 2) ? {} : undefined) : { preventDefault: prevent }
			const evs = []
			const mk = i => {
				const ev = { message: S.str(`m${i}`, i ? { max: 2 } : {}), filename: S.str(`f${i}`, { max: 2 }), lineno: S.num(`l${i}`), colno: S.num(`c${i}`), error: CAUSES[S.choose(`e${i}`, i ? 3 : CAUSES.length)] }
				evs.push(ev)
				return ev
			}
			const during = S.choose('during', 2)
			const outcomes = []
			const { app: a, entries } = await app([
				browserGizmoFn(options),
				{
					create: async () => {
						if (during) outcomes.push(raise(mk(0)))
					}
				}
			])
			S.eq('nothing is captured without an error', a.browser.errors.get().length, during)
			const told = []
			const stop = a.browser.errors.onChange((now, old) => told.push([now, old]))
			const n = S.thorough ? S.choose('n', 4) + 1 : S.choose('n', 2) + 1
			for (let i = 0; i < n; i++) {
				const before = a.browser.errors.get()
				outcomes.push(raise(mk(i + 1)))
				S.eq('subscribers are told once per error', told.length, i + 1)
				S.check('with the errors so far and those before', told[i][0] === a.browser.errors.get() && told[i][1] === before)
				S.eq('the errors seen before do not change', before.length, evs.length - 1)
			}
			stop()
			const es = a.browser.errors.get()
			S.eq('every uncaught error is captured, once', es.length, evs.length)
			for (const [i, e] of es.entries()) {
				S.check('as an error', e instanceof BrowserError && e instanceof Error)
				S.eq('with its message', e.message, evs[i].message)
				S.eq('its source', e.source, evs[i].filename)
				S.eq('its line', e.lineno, evs[i].lineno)
				S.eq('its column', e.colno, evs[i].colno)
				S.eq('and what was thrown', e.cause, evs[i].error ?? undefined)
			}
			const logged = errors(entries)
			S.eq('each is logged as an error', logged.length, es.length)
			for (const [i, l] of logged.entries()) S.check('the log carries the captured error', l.args.includes(es[i]))
			for (const o of outcomes) {
				S.check('the default handling is prevented exactly when asked', prevent ? o.prevented >= 1 : o.prevented === 0)
				S.check('and the handler says the same', o.rs.length === 1 && !!o.rs[0] === !!prevent)
			}
			const mark = told.length
			raise(mk('last'))
			S.eq('an unsubscribed handler hears nothing more', told.length, mark)
			S.check('the captured errors cannot be changed by users', a.browser.errors.set === undefined && a.browser.errors.add === undefined && a.browser.errors.reset === undefined)
		}
	},
	'C20.many': {
		bounds: 'a history of 0, 1, 40 or 1100 uncaught errors (the same error object, or a new one, each time), then one with symbolic message, raised twice or not',
		async run(S) {
			reset()
			const { app: a, entries } = await app([browserGizmoFn()])
			const n = [0, 1, 40, 1100][S.choose('n', 4)]
			const same = S.choose('same', 2)
			const once = new Error('x')
			for (let i = 0; i < n; i++) raise({ message: same ? 'x' : `x${i}`, error: same ? once : new Error(`x${i}`) })
			let told = 0
			a.browser.errors.onChange(() => void told++)
			const ev = { message: S.str('m'), filename: S.str('f'), error: once }
			raise(ev)
			const again = S.choose('again', 2)
			if (again) raise(ev)
			const es = a.browser.errors.get()
			S.eq('every uncaught error is captured, however many there are', es.length, n + 1 + again)
			for (let i = 0; i < n; i++) S.check('the earlier ones stay, in order', es[i].message === (same ? 'x' : `x${i}`))
			for (const e of es.slice(n)) S.check('the last is captured like the first', S.is(e.message, ev.message) && S.is(e.source, ev.filename) && e.cause === once)
			S.eq('subscribers hear of each', told, 1 + again)
			S.eq('each is logged', errors(entries).length, es.length)
		}
	},
	'C20.nested': {
		bounds: 'an error (symbolic message) raised while the first or second of two subscribers is told of another, to a depth of 1..3; the default prevented or not',
		async run(S) {
			reset()
			const prevent = S.choose('prevent', 2) === 1
			const { app: a, entries } = await app([browserGizmoFn({ preventDefault: prevent })])
			const depth = 1 + S.choose('depth', 3)
			const who = S.choose('who', 2)
			const messages = []
			const outcomes = []
			const told = [[], []]
			const mk = () => {
				const m = S.str(`m${messages.length}`)
				messages.push(m)
				return { message: m, error: new Error('x') }
			}
			for (const i of [0, 1])
				a.browser.errors.onChange(now => {
					told[i].push(now)
					if (i === who && messages.length <= depth) outcomes.push(raise(mk()))
				})
			outcomes.push(raise(mk()))
			const es = a.browser.errors.get()
			S.eq('every uncaught error is captured, once', es.length, depth + 1)
			for (const [i, m] of messages.entries()) S.eq('in the order they were raised', es[i].message, m)
			S.eq('each is logged', errors(entries).length, depth + 1)
			for (const e of es) S.eq('once', errors(entries).filter(l => l.args.includes(e)).length, 1)
			for (const t of told) S.eq('each subscriber is told once per error', t.length, depth + 1)
			for (const o of outcomes) S.check('the default handling is prevented exactly when asked', prevent ? o.prevented >= 1 : o.prevented === 0)
		}
	},
	'C20.kinds': {
		bounds: 'an uncaught error whose default is prevented already or cannot be prevented, is untrusted, has no target or has passed other listeners, caused by an error that was captured before, an error of another kind, a promise or a function; on an application alone or with a browser part or errors of its own, with others on the page or not',
		async run(S) {
			reset()
			const prevent = S.choose('prevent', 2) === 1
			const own = [undefined, { browser: {} }, { browser: { errors: { get: () => ['mine'] }, localStorage: {} } }, { errors: [] }][S.choose('own', 4)]
			if (S.choose('others', 2)) await app([browserGizmoFn()])
			const mark = globalThis.__listeners.filter(l => l.type === 'error').length
			const { app: a, entries } = await app([...(own ? [{ create: async () => own }] : []), browserGizmoFn({ preventDefault: prevent })])
			S.eq('the application listens', globalThis.__listeners.filter(l => l.type === 'error').length, mark + 1)
			raise({ message: 'first', error: new Error('first') })
			const first = a.browser.errors.get()[0]
			S.check('the first is captured', a.browser.errors.get().length === 1 && first.message === 'first')
			const cause = [first, undefined, null, new BrowserError('b', 's', 1, 2, first), new AggregateError([first], 'several'), Object.assign(new Error('aborted'), { name: 'AbortError' }), Promise.resolve(1), () => 1, Symbol('s'), first.cause][S.choose('cause', 10)]
			const flags = [{}, { defaultPrevented: true }, { cancelable: false }, { isTrusted: false }, { target: null, currentTarget: null }, { eventPhase: 3, bubbles: true }, { timeStamp: 0, type: 'unhandledrejection' }][S.choose('flags', 7)]
			const texts = [undefined, ['Script error.', ''], ['ResizeObserver loop limit exceeded', 'app.js'], ['Uncaught (in promise) x', 'chrome-extension://abc/x.js'], ['Loading chunk 1 failed', 'webpack:///./x.js']][S.choose('texts', 5)]
			const ev = { message: texts ? texts[0] : S.str('m', { max: 3 }), filename: texts ? texts[1] : S.str('f', { max: 3 }), lineno: texts ? 0 : S.num('l'), colno: texts ? 0 : S.num('c'), error: cause, ...flags }
			const o = raise(ev)
			const es = a.browser.errors.get()
			S.eq('it is captured', es.length, 2)
			const e = es.at(-1)
			S.check('as an error of its own', e instanceof BrowserError && e !== first && e !== cause)
			S.check('as it is', S.is(e.message, ev.message) && S.is(e.source, ev.filename) && S.is(e.lineno, ev.lineno) && S.is(e.colno, ev.colno) && e.cause === (cause ?? undefined))
			S.check('logged', errors(entries).length === 2 && errors(entries)[1].args.includes(e))
			S.check('and prevented as asked', o.prevented === (prevent ? 1 : 0) && o.rs.at(-1) === prevent)
		}
	},
	'C20.cleanup': {
		bounds: 'two applications on one page; either is cleaned up; errors before and after',
		async run(S) {
			reset()
			const A = (await app([browserGizmoFn()])).app
			const B = (await app([browserGizmoFn()])).app
			const ev = () => ({ message: S.str(`m${n++}`) })
			let n = 0
			raise(ev())
			const which = S.choose('which', 3)
			if (which === 1) incubate.cleanup(A)
			if (which === 2) incubate.cleanup(B)
			raise(ev())
			S.eq('an application captures errors until it is cleaned up', A.browser.errors.get().length, which === 1 ? 1 : 2)
			S.eq('also the other one', B.browser.errors.get().length, which === 2 ? 1 : 2)
			S.check('each has its own errors', A.browser.errors.get()[0] !== B.browser.errors.get()[0])
		}
	},
	'C21.select': {
		bounds: 'a fetch function given by option, by another gizmo, by both or by none; in the browser gizmo and its test variant; called once or twice with symbolic arguments (a text or a request object, with or without options) and returning, rejecting or throwing',
		async run(S) {
			reset()
			const calls = []
			const boom = new Error('boom')
			let fail = 0
			const mk = n => (...args) => {
				calls.push([n, args])
				if (fail === 1) return Promise.reject(boom)
				if (fail === 2) throw boom
				return { from: n }
			}
			const opt = S.choose('option', 3)
			const giz = S.choose('gizmo', 4)
			const test = S.choose('test', 2)
			const options = opt === 0 ? undefined : opt === 1 ? {} : { fetch: mk('option') }
			const provider = [undefined, fetchGizmo, fetchTestGizmoFn({ fetch: mk('gizmo') }), { create: async () => ({ fetch: mk('gizmo') }) }][giz]
			const { app: a } = await app([...(provider ? [provider] : []), (test ? browserTestGizmoFn : browserGizmoFn)(options)])
			const expected = opt === 2 ? 'option' : giz > 1 ? 'gizmo' : 'global'
			const url = S.str('url')
			const init = S.choose('init', 2) ? { method: S.str('method') } : undefined
			const request = { url, method: 'POST' }
			const input = S.choose('request', 2) ? request : url
			const r = init ? a.fetch(input, init) : a.fetch(input)
			S.eq('requests go to the fetch of the options, else of the application, else of the browser', r.from, expected)
			const args = expected === 'global' ? r.args : calls[0][1]
			S.check('with the arguments given', args[0] === input && args[1] === init)
			S.eq('once', calls.length, expected === 'global' ? 0 : 1)
			if (expected === 'global') return
			fail = S.choose('fail', 3)
			if (!fail) {
				const r2 = a.fetch(input, init)
				S.check('the same request is sent again', r2 !== r && calls.length === 2 && calls[1][1][0] === input)
				return
			}
			let caught
			try {
				await a.fetch(input, init)
			} catch (e) {
				caught = e
			}
			S.check('a failure reaches the caller', caught === boom)
			S.eq('and nothing is sent again', calls.length, 2)
			S.check('nothing is left unhandled', S.unhandled().length === 0)
		}
	},
	'C21.plain': {
		bounds: 'the fetch gizmo alone, and its test variant with or without a function',
		async run(S) {
			const how = S.choose('how', 4)
			const mine = u => ({ from: 'mine', args: [u] })
			const { app: a } = await app([how === 0 ? fetchGizmo : fetchTestGizmoFn(how === 1 ? undefined : how === 2 ? {} : { fetch: mine })])
			const url = S.str('url')
			const r = a.fetch(url)
			S.eq('the function given is used, else that of the browser', r.from, how === 3 ? 'mine' : 'global')
			S.eq('with the arguments given', r.args[0], url)
		}
	},
	'C21.environment': {
		bounds: 'the browser gizmo and its test variant, each environment object replaced or not; symbolic storage content',
		async run(S) {
			reset()
			const test = S.choose('test', 2)
			const names = ['sessionStorage', 'localStorage', 'navigator', 'location']
			const over = {}
			for (const n of names) if (test && S.choose(n, 2)) over[n] = { mine: n }
			const { app: a } = await app([(test ? browserTestGizmoFn : browserGizmoFn)(test && !Object.keys(over).length && S.choose('none', 2) ? undefined : over)])
			for (const n of names) S.check('each environment object is the one given, else that of the browser', a.browser[n] === (over[n] ?? globalThis[n]))
			S.check('captured errors are available', a.browser.errors.get().length === 0)
		}
	},
	// ------------------------------------------------------------------ C29: stand-ins for tests
	'C29.storage': {
		bounds: '3 (thorough: 4) of {set, remove, clear} on 2 symbolic keys with symbolic values; then reads of a further symbolic key and of an index from -1 to the length',
		async run(S) {
			const s = stubStorage()
			const keys = [S.str('k0'), S.str('k1')]
			let model = []
			const steps = S.thorough ? 4 : 3
			for (let i = 0; i < steps; i++) {
				const op = S.choose(`op${i}`, 5)
				const k = keys[op % 2]
				if (op < 2) {
					const v = S.str(`v${i}`)
					s.setItem(k, v)
					const e = model.find(e => e[0] === k)
					if (e) e[1] = v
					else model.push([k, v])
				} else if (op < 4) {
					s.removeItem(k)
					model = model.filter(e => e[0] !== k)
				} else {
					s.clear()
					model = []
				}
				S.eq('the length is the number of entries', s.length, model.length)
			}
			const q = S.str('q')
			const hit = model.find(e => e[0] === q)
			S.eq('an entry reads as it was set last, others as null', s.getItem(q), hit ? hit[1] : null)
			for (const e of model) S.eq('every entry is kept', s.getItem(e[0]), e[1])
			const at = S.choose('at', 6) - 1
			const k = s.key(at)
			if (at < 0 || at >= model.length) S.eq('there is no key outside the range', k, null)
			else {
				S.check('keys are enumerable by index', model.some(e => e[0] === k))
				for (let i = 0; i < model.length; i++) if (i !== at) S.check('each only once', s.key(i) !== k)
			}
		}
	},
	'C29.overlay': {
		bounds: 'the local storage stand-in with any one method replaced or none; symbolic keys and values',
		async run(S) {
			const real = globalThis.localStorage
			const calls = []
			const stub = {}
			const names = ['getItem', 'setItem', 'removeItem', 'clear', 'key']
			const set = S.choose('replaced', 6)
			if (set < 5) stub[names[set]] = (...args) => (calls.push(args), 'stubbed')
			const s = stubLocalStorage(stub)
			const k = S.str('k')
			const v = S.str('v')
			const r0 = s.setItem(k, v)
			if (set === 1) S.check('a replaced method is called with its arguments', calls.length === 1 && calls[0][0] === k && calls[0][1] === v && r0 === 'stubbed')
			else S.eq('other methods reach the real storage', real.getItem(k), v)
			S.eq('reading as well', s.getItem(k), set === 0 ? 'stubbed' : set === 1 ? null : v)
			S.eq('so does the length', s.length, real.length)
			S.eq('and the keys', s.key(0), set === 4 ? 'stubbed' : set === 1 ? null : k)
			s.removeItem(k)
			S.eq('removing as well', real.getItem(k), set === 2 ? v : null)
			real.setItem(k, v)
			s.clear()
			S.eq('clearing as well', real.length, set === 3 ? 1 : 0)
		}
	},
	'C29.session': {
		bounds: 'the session storage stand-in with any one method replaced or none; each method called; symbolic keys and values',
		async run(S) {
			const real = globalThis.sessionStorage
			const calls = []
			const names = ['getItem', 'setItem', 'removeItem', 'clear', 'key']
			const set = S.choose('replaced', 6)
			const stub = set < 5 ? { [names[set]]: (...args) => (calls.push(args), 'stubbed') } : {}
			const s = stubSessionStorage(stub)
			const k = S.str('k')
			const v = S.str('v')
			real.setItem(k, v)
			S.eq('the length is that of the real storage', s.length, 1)
			const m = S.choose('method', 5)
			const args = [[k], [k, v], [k], [], [0]][m]
			let r
			let failed = false
			try {
				r = s[names[m]](...args)
			} catch {
				failed = true
			}
			if (m === set) S.check('a replaced method is called with its arguments', !failed && r === 'stubbed' && calls.length === 1 && calls[0].length === args.length && args.every((x, i) => x === calls[0][i]))
			else {
				S.eq('a replacement is not called for another method', calls.length, 0)
				S.check('a method that is not replaced can be called', !failed)
				if (!failed) {
					if (m === 0) S.eq('reading reaches the real storage', r, v)
					if (m === 2 || m === 3) S.eq('removing reaches the real storage', real.length, 0)
					if (m === 4) S.eq('the keys are those of the real storage', r, k)
				}
			}
		}
	}
}
