import { throwBrowserError } from '@just-web/browser/testing'
import { browserKeyboardGizmoTestApp } from '@just-web/browser-keyboard/testing'
import { browserPreferencesGizmoTestApp } from '@just-web/browser-preferences/testing'
import { command } from '@just-web/commands'
import { getUserPreference, setUserPreference } from '@just-web/preferences'
import { setupMemoryPreferencesTestApp } from '@just-web/preferences/testing'
import Mousetrap from 'mousetrap'
import { memStorage } from './lib/storage.js'

/** the parts every ready-made test application has: invoking a command, listing and binding it */
function parts(S, a, n) {
	const said = []
	const id = S.str(`id${n}`)
	const c = command({ id, key: 'x' }, v => void said.push(v))
	c.connect(a)
	const v = S.str(`arg${n}`)
	a.commands.handlers.invoke(id, v)
	S.check('its commands run', said.length === 1)
	S.eq('as called', said[0], v)
	S.check('and are listed', a.commands.contributions.has(id))
	S.check('with their key', a.keyboard.keyBindingContributions.has(id))
	return said
}

export const scenarios = {
	// ------------------------------------------------------------------ C34: ready-made test applications
	'C34.preferences': {
		bounds: 'two test applications, each with preferences in memory or in the browser; with a symbolic name or without; with storage of their own, one they share, or that of the browser; a symbolic key, value and command id each',
		async run(S) {
			const shared = memStorage()
			globalThis.localStorage.clear()
			const all = []
			for (const i of [0, 1]) {
				const kind = S.choose(`kind${i}`, i ? 2 : 4)
				const storage = [undefined, memStorage(), shared, undefined][i ? (kind ? 2 : 0) : kind]
				const browser = i ? kind === 1 : kind > 0
				const named = browser && S.choose(`named${i}`, 2)
				const name = named ? S.str(`name${i}`) : 'test'
				if (named) S.assume(!name.includes(':'))
				const options = { ...(named && { name }), ...(storage && { browser: { localStorage: storage } }) }
				const a = browser ? await browserPreferencesGizmoTestApp(named || storage ? options : undefined) : await setupMemoryPreferencesTestApp()
				S.eq('an application has its name', a.name, name)
				const e = { a, browser, name, storage: storage ?? globalThis.localStorage, k: S.str(`k${i}`), v: S.str(`v${i}`) }
				e.place = browser ? e.storage : a
				all.push(e)
				if (S.choose(`via${i}`, 2)) setUserPreference(e.k, e.v)
				else a.preferences.set(e.k, e.v)
			}
			const same = all[0].place === all[1].place && S.is(all[0].name, all[1].name) && S.is(all[0].k, all[1].k)
			for (const [i, e] of all.entries()) {
				S.eq('reads what was set last', e.a.preferences.get(e.k), same ? all[1].v : e.v)
				S.eq('by its commands as well', e.a.commands.handlers.invoke(getUserPreference.id, e.k), same ? all[1].v : e.v)
				parts(S, e.a, i)
				S.check('nothing is logged as a failure', !e.a.log.reporter.logs.some(l => l.level <= 400))
				if (e.browser) S.check('it is kept where the test wants it', e.storage.__entries.length > 0)
			}
			const used = new Set(all.filter(e => e.browser).map(e => e.storage))
			S.check('and nowhere else', [shared, globalThis.localStorage].every(s => used.has(s) || s.__entries.length === 0))
		}
	},
	'C34.keyboard': {
		bounds: 'on mac or elsewhere, a test application with a command of symbolic id and a key; pressed once or twice',
		async run(S) {
			Mousetrap.reset()
			const mac = S.choose('mac', 2)
			S.platformFamily = mac ? 'OS X' : 'Windows'
			const a = await browserKeyboardGizmoTestApp()
			S.eq('an application has its name', a.name, 'test')
			S.check('it knows its platform', a.os.isMac() === !!mac)
			const said = []
			const id = S.str('id')
			const c = command({ id, key: 'ctrl+k', mac: 'cmd+k' }, (...args) => void said.push(args.length))
			c.connect(a)
			const b = Mousetrap.__bound()
			S.check('the key of a connected command is bound', b.length === 1 && b[0].key === (mac ? 'command+k' : 'ctrl+k'))
			const n = S.choose('n', 2) + 1
			for (let i = 0; i < n; i++) b[0].cb({ preventDefault() {} }, b[0].key)
			S.check('pressing it runs the command', said.length === n && said.every(x => x === 0))
			S.check('it is listed', a.commands.contributions.has(id))
			S.check('nothing is logged as a failure', !a.log.reporter.logs.some(l => l.level <= 400))
		}
	},
	'C34.error': {
		bounds: 'a thrown value given (an error with symbolic message, a symbolic text, null) or not; the time to wait given or not',
		async run(S) {
			const real = globalThis.setTimeout
			const thrown = []
			let sync = true
			let early = false
			// the page's part: what a timer throws is an uncaught error
			globalThis.setTimeout = (fn, ms, ...args) =>
				real(() => {
					try {
						fn(...args)
					} catch (e) {
						thrown.push(e)
						if (sync) early = true
					}
				}, ms)
			try {
				const k = S.choose('err', 4)
				const err = k === 1 ? new Error(S.str('m')) : k === 2 ? S.str('t') : null
				const wait = S.choose('wait', 2)
				const p = k ? (wait ? throwBrowserError(err, 5) : throwBrowserError(err)) : throwBrowserError()
				sync = false
				S.check('the caller goes on', typeof p.then === 'function' && thrown.length === 0 && !early)
				const r = await p
				S.check('exactly one error is thrown to the page, before the promise resolves', thrown.length === 1)
				if (k) S.check('it is the one given', k === 2 ? S.is(thrown[0], err) : thrown[0] === err)
				else S.check('it is an error', thrown[0] instanceof Error)
				S.check('it is what the promise resolves to', k === 2 ? S.is(r, err) : r === thrown[0])
			} finally {
				globalThis.setTimeout = real
			}
		}
	}
}
