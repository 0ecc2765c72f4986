// Texts that programs like to treat specially, at every place that takes one.
import { justApp } from '@just-web/app'
import { justTestApp } from '@just-web/app/testing'
import { browserGizmoFn } from '@just-web/browser'
import { stubStorage } from '@just-web/browser/testing'
import { browserI18nGizmo } from '@just-web/browser-i18n'
import { browserPreferencesGizmo } from '@just-web/browser-preferences'
import { command, commandsGizmoFn, formatCommand } from '@just-web/commands'
import { eventsGizmoFn } from '@just-web/events'
import { formatJSGizmoFn } from '@just-web/formatjs'
import { i18nGizmoFn, setLanguageCommand } from '@just-web/i18n'
import { formatKeyBinding, keyboardGizmoFn } from '@just-web/keyboard'
import { memoryPreferencesGizmo } from '@just-web/preferences'
import { routesGizmo } from '@just-web/routes'
import { createRegistry, createStore } from '@just-web/states'
import { app } from './lib/app.js'
import { memStorage } from './lib/storage.js'
import { silent } from './lib/values.js'

const TEXTS = ['&File', ' a  b ', '\t', 'line\nbreak\r\n', '<b>&amp;</b>', 'línea é', 'e\u0301', '{x}', '%s %d %o', '$& $1 $$', '/a//b/', 'a/../b', '?q=1&r=2#h', 'a%20b%', '👍🏽', '\\n\\u0041', "it's", '"q"', 'a.b.c', '.a', 'a.', 'A b-C_d', 'null', 'undefined', '0', '-1', '1e3', 'true', 'NaN', '[object Object]', '{"a":1}', '[1]', '__proto__x', 'İıſ', 'ß', '\u0000', '\u200b\ufeff', '\u2028', 'a:b', 'a,b;c', '*', '(a|b)+', 'ctrl+k', 'en-US', 'en_US', 'zh-Hant-TW', 'javascript:x', 'data:,x', 'x'.repeat(5000), '日本語'.repeat(700), '👍'.repeat(600)]
const NUMBERS = ['', ' ', '1e3', '0x10', '01', '1', '1.0', '-0', 'NaN', '1e21', 'Infinity']
const pick = (S, n = 'text') => TEXTS[S.choose(n, TEXTS.length)]
/** a text among them, and another that is like it */
const two = S => {
	const t = pick(S)
	const near = [t.trim(), t.toLowerCase(), t.toUpperCase(), t.normalize(), t.slice(1), t.slice(0, -1), `${t} `, `/${t}`, `${t}/`, `${t}.`, `.${t}`, `${t}x`].filter(x => x !== t && x !== '' && x !== '__proto__' && x.isWellFormed())
	const all = [...new Set(near)]
	return [t, all[S.choose('near', 12) % all.length]]
}
/** another one, that goes with a text in various ways without every pair being taken */
const other = (S, t, n) => {
	const i = TEXTS.indexOf(t)
	return TEXTS[(i + [0, 1, 7, 22][S.choose(n, 4)]) % TEXTS.length]
}
const loud = es => es.filter(e => e.level === 'error' || e.level === 'warn')
const DESC = `one of ${TEXTS.length} texts that programs like to treat specially (whitespace, markup, escapes, patterns, numbers, other scripts, long ones)`
const NEAR = 'and one that is like it (trimmed, other case, normalized, shortened or extended by one)'

export const scenarios = {
	'C05.texts': {
		bounds: `keys: ${DESC} ${NEAR}; and ${NUMBERS.length} that look like numbers, asked for as text and as number`,
		async run(S) {
			const r = createRegistry({}, { logger: silent() })
			const x = S.num('x')
			if (S.choose('number', 2)) {
				const t = NUMBERS[S.choose('n', NUMBERS.length)]
				const n = [0, -0, 1, 1.5, 16, 1000, 1e21, NaN, Infinity, -1][S.choose('asked', 10)]
				r.set(m => {
					m[t] = x
				})
				S.eq('a key asked for as a number is the text of that number', r.has(n), String(n) === t)
				S.eq('as text it is just that', r.has(t), true)
				r.set(m => {
					m[n] = 1
				})
				S.check('also when added as one', r.has(String(n)) && r.has(n) && r.size() === (String(n) === t ? 1 : 2))
				return
			}
			const [t, near] = two(S)
			r.set(m => {
				m[t] = x
			})
			S.check('a key added is there', r.has(t) && r.keys()[0] === t && r.size() === 1)
			S.eqz('with its value', r.get()[t], x)
			S.check('one like it is not', !r.has(near))
			r.set(m => {
				m[near] = 1
			})
			S.eqz('nor replaces it', r.get()[t], x)
			S.eq('but counts', r.size(), 2)
		}
	},
	'C01.texts': {
		bounds: `value: ${DESC} ${NEAR}; set, updated or reset to`,
		async run(S) {
			const [t, near] = two(S)
			const s = createStore(near, { logger: silent() })
			const told = []
			s.onChange((v, p) => void told.push([v, p]))
			if (S.choose('update', 2)) s.set(() => t)
			else s.set(t)
			S.check('it reads as set', s.get() === t)
			S.check('and is told', told.length === 1 && told[0][0] === t && told[0][1] === near)
			s.reset()
			S.check('reset as well', s.get() === near && told.length === 2)
		}
	},
	'C08.texts': {
		bounds: `ids: ${DESC} ${NEAR}; registered or given at creation`,
		async run(S) {
			const [t, near] = two(S)
			const h = x => `h${x}`
			const given = S.choose('given', 2)
			const { app: a, entries } = await app([commandsGizmoFn(given ? { handlers: { [t]: h } } : undefined)])
			if (!given) a.commands.handlers.register(t, h)
			const arg = other(S, t, 'arg')
			S.eq('the handler runs as called', a.commands.handlers.invoke(t, arg), `h${arg}`)
			S.check('it is listed', a.commands.handlers.has(t) && a.commands.handlers.keys().includes(t))
			S.check('nothing is reported', loud(entries).length === 0)
			a.commands.handlers.invoke(near)
			S.check('one like it is missing', !a.commands.handlers.has(near) && loud(entries).length === 1)
			S.check('and reported by its id', loud(entries)[0].args.some(x => typeof x === 'string' && x.includes(near)))
		}
	},
	'C09.texts': {
		bounds: `id: ${DESC}; from the id or declared`,
		async run(S) {
			const t = pick(S)
			const { app: a } = await app([keyboardGizmoFn(), commandsGizmoFn()])
			const c = S.choose('declared', 2) ? command({ id: t, title: 'T' }, x => [x]) : command(t, x => [x])
			S.eq('a command runs its handler', c(t)[0], t)
			c.connect(a)
			S.eq('connected as well', c(t)[0], t)
			S.eq('also by its id', a.commands.handlers.invoke(t, 1)[0], 1)
			a.commands.handlers.register(t, () => 'new')
			S.eq('and the one registered later', c(t), 'new')
		}
	},
	'C10.texts': {
		bounds: `id, title and description: ${DESC} ${NEAR}; added or given at creation`,
		async run(S) {
			const [t, near] = two(S)
			const c = { id: t, title: other(S, t, 'title'), description: t }
			const d = { id: near, title: t }
			const given = S.choose('given', 2)
			const { app: a, entries } = await app([commandsGizmoFn(given ? { contributions: [c] } : undefined)])
			const reg = a.commands.contributions
			if (!given) reg.add(c)
			reg.add(d)
			S.check('each is listed under its id', reg.get()[t] === c && reg.get()[near] === d && reg.size() === 2)
			S.check('nothing is reported', loud(entries).length === 0)
			const f = formatCommand(c)
			S.check('id, title and description are kept', f.id === t && f.title === c.title && f.description === t)
		}
	},
	'C11.texts': {
		bounds: `id and keys: ${DESC} ${NEAR}; added or given at creation; either platform`,
		async run(S) {
			const [t, near] = two(S)
			const c = { id: t, key: other(S, t, 'key') }
			const d = { id: near, mac: c.key, key: t }
			const given = S.choose('given', 2)
			const { app: a, entries } = await app([keyboardGizmoFn(given ? { keyBindingContributions: [c] } : undefined)])
			const reg = a.keyboard.keyBindingContributions
			if (!given) reg.add(c)
			reg.add(d)
			S.check('each is listed under its command', reg.get()[t] === c && reg.get()[near] === d && reg.size() === 2)
			S.check('nothing is reported', loud(entries).length === 0)
			const mac = S.choose('isMac', 2) === 1
			const os = { isMac: () => mac }
			S.eq('the key is shown as it is', formatKeyBinding({ os }, c).key, c.key)
			S.eq('that of the platform', formatKeyBinding({ os }, d).key, mac ? c.key : t)
		}
	},
	'C13.texts': {
		bounds: `paths: ${DESC} ${NEAR}; navigated to directly or as the initial path`,
		async run(S) {
			const [t, near] = two(S)
			const { app: a, entries } = await app([routesGizmo])
			const out = []
			const off = a.routes.register(t, (...args) => void out.push(args.length))
			const go = S.choose('initial', 2)
				? p => {
						a.routes.config({ initialRoute: p })
						a.routes.navigate()
					}
				: p => a.routes.navigate(p)
			go(t)
			S.check('its route runs', out.length === 1 && out[0] === 0 && a.routes.hasRoute(t))
			S.eq('nothing is reported', loud(entries).length, 0)
			go(near)
			S.check('one like it runs nothing', out.length === 1 && !a.routes.hasRoute(near))
			S.eq('and is logged', loud(entries).length, 1)
			const off2 = a.routes.register(near, () => void out.push('near'))
			go(near)
			S.check('until it has a route of its own', out[1] === 'near' && out.length === 2)
			off2()
			go(t)
			S.check('unregistering leaves the other', out.length === 3 && a.routes.hasRoute(t))
			off()
			S.check('and removes its own', !a.routes.hasRoute(t))
		}
	},
	'C14.texts': {
		bounds: `key and value: ${DESC} ${NEAR}; in memory and in browser storage; set or updated; value, default or removed`,
		async run(S) {
			const kind = S.choose('kind', 2)
			const storage = memStorage()
			const { app: a } = await app([commandsGizmoFn(), ...(kind ? [{ create: async () => ({ browser: { localStorage: storage } }) }, browserPreferencesGizmo] : [memoryPreferencesGizmo])])
			const p = a.preferences
			const [t, near] = two(S)
			const which = S.choose('which', 2)
			const [k, k2, v] = which ? [t, near, 'v'] : ['k', 'k2', t]
			if (S.choose('update', 2)) p.set(k, () => v)
			else p.set(k, v)
			S.check('it reads as set', p.get(k) === v && p.get(k, 'd') === v)
			S.check('under exactly its key', p.get(k2) === undefined && p.get(k2, t) === t)
			p.set(k2, near)
			let given
			p.set(k, x => void (given = x))
			S.check('a handler is given it', given === v)
			S.check('removing it leaves the other', p.get(k) === undefined && p.get(k2) === near)
		}
	},
	'C15.texts': {
		bounds: `name, key and value: ${DESC} ${NEAR}, the name without a colon; read after a restart, then cleared`,
		async run(S) {
			const storage = memStorage()
			const start = async name => (await app([commandsGizmoFn(), { create: async () => ({ browser: { localStorage: storage } }) }, browserPreferencesGizmo], { name })).app.preferences
			const [t, near] = two(S)
			const which = S.choose('which', 3)
			if (which === 0) S.assume(!t.includes(':') && !near.includes(':'))
			const [n, n2] = which === 0 ? [t, near] : ['n', 'n2']
			const k = which === 1 ? t : 'k'
			const v = which === 2 ? t : 'v'
			storage.setItem('own', 'own')
			const p = await start(n)
			p.set(k, v)
			S.eq('it is read back after a restart', (await start(n)).get(k), v)
			const q = await start(n2)
			S.eq('never by another application', q.get(k), undefined)
			q.set(k, 'other')
			if (S.choose('clear', 2)) p.clearAll()
			else q.clearAll()
			S.check('one application has its own afterwards', [p.get(k), q.get(k)].filter(x => x !== undefined).length === 1)
			S.check('the rest of the storage stays', storage.getItem('own') === 'own' && storage.length === 2)
		}
	},
	'C16.texts': {
		bounds: `key, strings and names in a JSON value: ${DESC}; in memory and in browser storage; set, updated in place, or the default`,
		async run(S) {
			const kind = S.choose('kind', 2)
			const storage = memStorage()
			const start = async () => (await app([commandsGizmoFn(), ...(kind ? [{ create: async () => ({ browser: { localStorage: storage } }) }, browserPreferencesGizmo] : [memoryPreferencesGizmo])])).app.preferences
			const t = pick(S)
			const p = await start()
			const v = () => ({ [t]: t, l: [t, [t]] })
			const how = S.choose('how', 3)
			const s = p.createStore(t, how === 2 ? v() : undefined)
			if (how === 0) s.set(v())
			if (how === 1) {
				s.set({})
				s.set(d => {
					d[t] = t
					d.l = [t, [t]]
				})
			}
			S.deep('it reads as written', s.get(), v())
			if (kind && how < 2) S.deep('also after a restart', (await start()).createStore(t).get(), v())
			const top = p.createStore('top')
			top.set(t)
			S.eq('a text is a value as well', top.get(), t)
		}
	},
	'C18.texts': {
		bounds: `languages: ${DESC} ${NEAR}; given, set or set by command`,
		async run(S) {
			const [t, near] = two(S)
			const { app: a } = await app([commandsGizmoFn(), i18nGizmoFn({ language: near })])
			const told = []
			a.i18n.languageChanged((now, old) => void told.push([now, old]))
			S.eq('it starts as given', a.i18n.getLanguage(), near)
			if (S.choose('how', 2)) setLanguageCommand(t)
			else a.i18n.setLanguage(t)
			S.eq('it is the one set', a.i18n.getLanguage(), t)
			S.check('and told', told.length === 1 && told[0][0] === t && told[0][1] === near)
		}
	},
	'C19.texts': {
		bounds: `name, language chosen and of the browser: ${DESC} ${NEAR}; then cleared, also when the browser has changed its language meanwhile`,
		async run(S) {
			const storage = memStorage()
			const navigator = { language: 'xx' }
			const start = async (name = 'n') => (await app([{ create: async () => ({ browser: { localStorage: storage, navigator } }) }, browserI18nGizmo], { name })).app.i18n
			const [t, near] = two(S)
			const which = S.choose('which', 3)
			const name = which === 0 ? t : 'n'
			const l = which === 1 ? t : 'l'
			if (which === 2) navigator.language = t
			const was = navigator.language
			const a = await start(name)
			S.eq('it starts with that of the browser', a.getLanguage(), was)
			a.setLanguage(l)
			S.eq('later with the one chosen', (await start(name)).getLanguage(), l)
			if (which === 0) S.eq('only under its name', (await start(near)).getLanguage(), was)
			if (S.choose('changed', 2)) navigator.language = near
			a.clearLanguage()
			S.eq('cleared, with that of the browser', a.getLanguage(), navigator.language)
			S.eq('the next time too', (await start(name)).getLanguage(), navigator.language)
			S.eq('keeping nothing', storage.length, 0)
		}
	},
	'C20.texts': {
		bounds: `message and source: ${DESC}; an error or not`,
		async run(S) {
			globalThis.__listeners.length = 0
			const { app: a, entries } = await app([browserGizmoFn()])
			const t = pick(S)
			const cause = [new Error(t), t, undefined][S.choose('cause', 3)]
			for (const l of globalThis.__listeners) l.fn({ message: t, filename: t, lineno: 0, colno: -1, error: cause, preventDefault() {} })
			const [e] = a.browser.errors.get()
			S.check('it is captured as it is', e.message === t && e.source === t && e.lineno === 0 && e.colno === -1 && e.cause === cause)
			S.eq('and logged', loud(entries).length, 1)
		}
	},
	'C23.texts': {
		bounds: `messages: ${DESC}, twice, alone and with another one; from the application, its loggers, prefixed or not; application and test application`,
		async run(S) {
			const r = { id: 'r', isConsoleReporter: false, entries: [], write: e => void r.entries.push(e) }
			const a = await (S.choose('test', 2) ? justTestApp : justApp)({ name: 'a', log: { reporters: [r] } }).create()
			const l = [a.log, a.log.getLogger(), a.log.getLogger('l'), a.log.getNonConsoleLogger('n')][S.choose('logger', 4)]
			const t = pick(S)
			const o = { t }
			r.entries.length = 0
			l.error(t)
			l.error(t)
			l.warn(t, o, t, undefined)
			l.warn(t, o, t, undefined)
			S.eq('every message is told, once', r.entries.length, 4)
			for (const [i, e] of r.entries.entries()) {
				S.check('as it is', e.args[0] === t && e.args.length === (i < 2 ? 1 : 4) && (i < 2 || (e.args[1] === o && e.args[2] === t && e.args[3] === undefined)))
				S.eq('under one id', e.id, r.entries[0].id)
			}
		}
	},
	'C22.texts': {
		bounds: `names: ${DESC}; application and test application; none given, and undefined`,
		async run(S) {
			const t = pick(S)
			const test = S.choose('test', 2)
			const options = { log: { reporters: [] } }
			const a = await (test ? justTestApp : justApp)({ name: t, ...options }).create()
			S.eq('an application has its name', a.name, t)
			if (test) S.eq('or test', (await justTestApp({ name: undefined, ...options }).create()).name, 'test')
		}
	},
	'C26.texts': {
		bounds: `names and payload: ${DESC} ${NEAR}`,
		async run(S) {
			const { app: a, entries } = await app([eventsGizmoFn()])
			const [t, near] = two(S)
			const out = []
			const e = a.events.emitter
			e.addListener(t, (...args) => void out.push(args))
			e.addListener(near, () => void out.push('near'))
			e.emit(t, t, { t })
			S.check('the listeners of exactly that name hear it', out.length === 1 && out[0][0] === t && out[0][1].t === t && out[0].length === 2)
			S.eq('nothing is reported', loud(entries).length, 0)
		}
	},
	'C29.texts': {
		bounds: `keys and values: ${DESC} ${NEAR}; overwritten or not`,
		async run(S) {
			const s = stubStorage()
			const [t, near] = two(S)
			s.setItem('first', 'f')
			s.setItem(t, t)
			S.check('it reads back', s.getItem(t) === t && s.getItem(near) === null && s.length === 2)
			S.check('and is enumerated', [s.key(0), s.key(1)].includes(t) && s.key(2) === null)
			const keys = [s.key(0), s.key(1)]
			s.setItem('first', near)
			S.check('overwriting keeps the keys in place', s.getItem('first') === near && s.length === 2 && s.key(0) === keys[0] && s.key(1) === keys[1])
			s.removeItem(near)
			S.eq('removing another changes nothing', s.length, 2)
			s.removeItem(t)
			S.check('removing it does', s.getItem(t) === null && s.length === 1 && s.key(0) === 'first')
		}
	},
	'C33.texts': {
		bounds: `arguments and ids of messages: ${DESC} ${NEAR}`,
		async run(S) {
			const t = pick(S)
			const missing = []
			const { app: a } = await app([formatJSGizmoFn({ config: { locale: 'en', messages: { [t]: 'known', arg: 'x {v} y' }, onError: e => void missing.push(e) } })])
			const { intl } = a.formatjs
			S.eq('a message is the one of its id', intl.formatMessage({ id: t, defaultMessage: 'd' }), 'known')
			S.eq('an argument is filled in as it is', intl.formatMessage({ id: 'arg' }, { v: t }), `x ${t} y`)
			S.eq('nothing is missing', missing.length, 0)
			S.eq('a missing one is its default', intl.formatMessage({ id: `${t}!`, defaultMessage: 'd {v}' }, { v: t }), `d ${t}`)
		}
	}
}
